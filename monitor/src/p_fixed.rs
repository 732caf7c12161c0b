//! C10..C19: bonds, notes, rate curves, money market, time-weighted return.
use crate::core::*;
use crate::lib;
use crate::p_base::{grow, gtol};
use financelib::fixedincomes::bonds::rates::{RateCurve, Rates};
use financelib::fixedincomes::bonds::{CouponBond, FloatingRateNotes};
use financelib::fixedincomes::moneymarkets as mm;

fn nudge(r: &mut Rng, x: f64) -> f64 {
    // how a caller may arrive at the same number with other rounding
    match r.below(6) {
        0 => f64::from_bits(x.to_bits() + 1),
        1 => f64::from_bits(x.to_bits() - 1),
        2 => f64::from_bits(x.to_bits() + 2),
        _ => x,
    }
}
/// frequency that is not a whole number of times a year
fn uneven(r: &mut Rng) -> f64 {
    match r.below(3) {
        0 => r.pick(&[0.5, 0.5, 0.25, 1.0 / 3.0, 1.5, 2.5, 1.2, 0.1, 365.25, 52.18]),
        1 => r.uni(0.05, 1.0),
        _ => r.uni(1.0, 100.0),
    }
}
/// bond frequency
fn bfreq(r: &mut Rng) -> f64 {
    match r.below(10) {
        // a coupon every other year or every ten months, say
        0 if r.chance(0.5) => uneven(r),
        0 => r.int(1, 365) as f64,
        1 => r.pick(&[49.0, 5.0, 7.0, 9.0, 10.0, 11.0, 13.0, 24.0, 26.0, 50.0, 52.0, 100.0]),
        2 => r.pick(&[52.0, 360.0, 364.0, 365.0]),
        _ => r.pick(&[1.0, 1.0, 2.0, 2.0, 2.0, 3.0, 4.0, 4.0, 6.0, 12.0]),
    }
}
fn coupons(r: &mut Rng, f: f64) -> i64 {
    if let Some(n) = r.very_long(2e-5, 100_000) {
        return n;
    }
    match r.below(12) {
        0 => 1,
        1 => r.int(1, 3),
        2 if r.chance(0.02) => r.int(1500, 20_000),
        2 => r.int(1, 1500),
        3 => (f as i64).max(1) * r.int(1, (1500 / (f as i64).max(1)).max(1)),
        4 => (f as i64).max(1),
        _ => r.int(1, 120),
    }
}
fn par(r: &mut Rng) -> f64 {
    match r.below(5) {
        0 => r.log(0.01, 1e12),
        1 => r.uni(1.0, 2000.0),
        _ => r.pick(&[100.0, 1000.0, 1.0, 1e6, 100_000.0]),
    }
}
fn crate_(r: &mut Rng) -> f64 {
    match r.below(8) {
        0 => 0.0,
        1 => r.log(1e-6, 1e-2),
        2 if r.chance(0.2) => r.log(1.0, 50.0),
        2 => r.uni(0.2, 1.0),
        _ => r.uni(0.0, 0.2),
    }
}
/// yield of a bond with n coupons at frequency f
fn yld(r: &mut Rng, f: f64, n: i64, c: f64) -> f64 {
    loop {
        let y = match r.below(10) {
            0 => 0.0,
            1 => c,
            2 => c + r.uni(-1e-6, 1e-6),
            3 => r.sign() * r.log(1e-14, 1e-3),
            4 => r.uni(-0.3, 0.0),
            5 if r.chance(0.2) => r.log(2.0, 50.0),
            5 => r.uni(0.3, 2.0),
            _ => r.uni(0.0, 0.3),
        };
        let x = y / f;
        if x > -0.9 && (n as f64 * x.ln_1p()).abs() < 40.0 {
            return y;
        }
    }
}
/// coupons of q and a final amount, discounted one by one at x per coupon period: (value, tolerance)
fn coupon_pv(q: f64, par: f64, x: f64, n: i64) -> (f64, f64) {
    let (mut s, mut v) = (0.0, 1.0);
    for _ in 0..n {
        v /= 1.0 + x;
        s += q * v;
    }
    let g = s.abs() + par.abs() * v;
    (s + par * v, g * (1e-9 + 4e-15 / x.abs().max(1e-6) + 1e-15 * n as f64))
}

// ------------------------------------------------------------------ curves
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum K {
    N,
    E,
    X,
}
pub fn mk(k: K, rate: Vec<f64>, freq: f64) -> RateCurve {
    match k {
        K::N => RateCurve::NominalRateCurve { rate, freq },
        K::E => RateCurve::EffectiveRateCurve { rate, freq },
        K::X => RateCurve::ExponentialRateCurve { rate, freq },
    }
}
pub fn parts(c: &RateCurve) -> (K, Vec<f64>, f64) {
    match c {
        RateCurve::NominalRateCurve { rate, freq } => (K::N, rate.clone(), *freq),
        RateCurve::EffectiveRateCurve { rate, freq } => (K::E, rate.clone(), *freq),
        RateCurve::ExponentialRateCurve { rate, freq } => (K::X, rate.clone(), *freq),
    }
}
/// log accumulation per period at rate r of a curve of kind k
fn logacc(k: K, r: f64, f: f64) -> f64 {
    match k {
        K::N => f * (r / f).ln_1p(),
        K::E => r.ln_1p(),
        K::X => r,
    }
}
/// rate of kind k with log accumulation w per period
fn from_log(k: K, w: f64, f: f64) -> f64 {
    match k {
        K::N => f * (w / f).exp_m1(),
        K::E => w.exp_m1(),
        K::X => w,
    }
}
/// interpolated rate at t and what rounding of t*f may do to it
fn interp(r: &[f64], f: f64, t: f64) -> (f64, f64) {
    let x = t * f;
    let k = x.round();
    if (x - k).abs() < 3e-9 {
        let r0 = r[k as usize - 1];
        let near = |i: usize| r.get(i).map_or(0.0, |v| (v - r0).abs());
        let d = near(k as usize).max(if k >= 2.0 { near(k as usize - 2) } else { 0.0 });
        return (r0, 4e-9 * d + 1e-15 * r0.abs());
    }
    let k = x.floor();
    let p = x - k;
    let (a, b) = (r[k as usize - 1], r[k as usize]);
    (a + (b - a) * p, (b - a).abs() * (1e-15 + 4e-16 * x) + 1e-15 * (a.abs() + b.abs()))
}
/// curve of n nodes, log accumulation per period between lo and hi
fn curve(r: &mut Rng, n: usize, k: K, f: f64, lo: f64, hi: f64) -> Vec<f64> {
    let a = match r.below(6) {
        0 => 0.0,
        1 => r.uni(lo, hi),
        _ => r.uni(0.0, hi.min(0.15)),
    };
    // growth over one node distance stays below e^6
    let (lo, hi) = (lo.max(-6.0 * f), hi.min(6.0 * f));
    let slope = r.uni(-0.02, 0.02);
    let style = r.below(6);
    let mut v = a;
    let mut ws: Vec<f64> = (0..n)
        .map(|i| match style {
            0 => a,
            1 => a + slope * i as f64,
            2 => r.uni(lo, hi),
            3 => {
                v += r.uni(-0.01, 0.01);
                v
            }
            4 => a + slope * ((i + 1) as f64).ln(),
            _ => a + 0.03 * (1.0 - (-(i as f64) / 5.0).exp()),
        })
        .collect();
    r.coincide(0.12, &mut ws, false);
    // quoted in basis points or in whole per cents
    let q = if r.chance(0.2) { r.pick(&[1e4, 1e4, 100.0]) } else { 0.0 };
    ws.into_iter()
        .map(|w| {
            let x = from_log(k, w.clamp(lo, hi), f);
            let y = (x * q).round() / q;
            if q > 0.0 && logacc(k, y, f) >= lo && logacc(k, y, f) <= hi { y } else { x }
        })
        .collect()
}
fn kind(r: &mut Rng) -> K {
    r.pick(&[K::N, K::E, K::X])
}
fn kind_tag(cx: &mut Cx, k: K) {
    cx.tag(match k {
        K::N => "nominal curve",
        K::E => "effective curve",
        K::X => "exponential curve",
    });
}

// ------------------------------------------------------------------ C10
fn c10(cx: &mut Cx) -> Res {
    let f = bfreq(&mut cx.rng);
    let n = coupons(&mut cx.rng, f);
    let t = nudge(&mut cx.rng, n as f64 / f);
    let p = par(&mut cx.rng);
    let c = crate_(&mut cx.rng);
    let y = yld(&mut cx.rng, f, n, c);
    cx.inp("par, coupon", (p, c));
    cx.inp("freq, life, coupons", (f, t, n));
    cx.inp("yield", y);
    cx.tag_if(y == 0.0, "zero yield");
    cx.tag_if(y < 0.0, "negative yield");
    cx.tag_if(c == 0.0, "zero coupon");
    cx.tag_if(n == 1, "single coupon");
    cx.tag_if(n > 300, "more than 300 coupons");
    cx.tag_if(f * t < n as f64, "life x frequency rounds down");
    cx.tag_if(f > 300.0, "daily coupons");
    cx.tag_if(f.fract() != 0.0, "uneven frequency");
    cx.tag_if(f < 1.0, "less than one coupon a year");
    cx.tag_if(y > 2.0, "yield above 200 %");
    let b = CouponBond { par: p, c, freq: f, t_life: t };
    let q = p * c / f;
    let s = lib!("generate_cashflow", b.generate_cashflow());
    cx.same("number of scheduled flows", s.len() as i64, n)?;
    for (i, v) in s.iter().enumerate() {
        let w = if i as i64 == n - 1 { q + p } else { q };
        cx.rel(format_args!("scheduled flow {}", i + 1), *v, w, 1e-13)?;
    }
    let (w, tol) = coupon_pv(q, p, y / f, n);
    let g = lib!("price", b.price(y));
    cx.close("price against discounted flows", g, w, tol)?;
    let (_, tol) = coupon_pv(q, p, c / f, n);
    if n as f64 * (c / f).ln_1p() < 40.0 {
        let g = lib!("price", b.price(c));
        cx.close("price at yield = coupon", g, p, tol)?;
    }
    let y2 = y + cx.rng.log(1e-3, 0.5);
    if n as f64 * (y2 / f).ln_1p() < 40.0 && n as f64 * (y / f).ln_1p() > -30.0 {
        let g2 = lib!("price", b.price(y2));
        cx.that_with(g2 < g, || format!("price rises with yield: {g} at {y}, {g2} at {y2}"))?;
    }
    // flat nominal curve of the bond's own frequency
    if n <= 400 || cx.rng.chance(0.05) {
        let extra = cx.rng.below(3);
        let rc = mk(K::N, vec![y; n as usize + extra], f);
        let (w, tol) = coupon_pv(q, p, y / f, n);
        let g = lib!("price_ratecurve", b.price_ratecurve(&rc));
        cx.close("price on a flat curve", g, w, tol)?;
        // any curve
        let fq = match cx.rng.below(10) {
            0 | 1 => (f * cx.rng.int(1, 4) as f64).min(f.max(52.0)),
            2 | 3 => cx.rng.int(f.ceil() as i64, (3.0 * f).ceil().min(366.0) as i64) as f64,
            _ => f,
        };
        let len = (t * fq - 1e-7).ceil() as usize + cx.rng.below(3);
        if len <= 600 || n > 400 {
            let k = kind(&mut cx.rng);
            let r = curve(&mut cx.rng, len, k, fq, -0.1, 0.5);
            cx.inp("curve frequency", fq);
            cx.inp("curve rates", r.clone());
            kind_tag(cx, k);
            cx.tag_if(fq != f, "curve frequency differs");
            cx.tag_if((fq / f).fract() != 0.0, "coupons between the nodes");
            cx.tag_if(n > 1000, "more than 1000 flows on a curve");
            let (mut w, mut g, mut far) = (0.0, 0.0, 0.0f64);
            for i in 1..=n {
                let ti = i as f64 / f;
                let a = if i == n { q + p } else { q };
                let l = -ti * logacc(k, interp(&r, fq, ti).0, fq);
                far = far.max(l.abs());
                let d = a * l.exp();
                w += d;
                g += d.abs() * (1.0 + ti * 1e-3);
            }
            let x = lib!("price_ratecurve", b.price_ratecurve(&mk(k, r, fq)));
            if far < 250.0 {
                cx.close("price on a rate curve", x, w, g * 1e-8)?;
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C11
fn c11(cx: &mut Cx) -> Res {
    let f = if cx.rng.chance(0.2) { cx.rng.int(1, 12) as f64 } else { cx.rng.pick(&[1.0, 2.0, 4.0, 12.0, 6.0, 3.0]) };
    let top = (30.0 * f) as i64;
    let n = match cx.rng.below(6) {
        0 => 1,
        1 => top,
        2 => f as i64 * cx.rng.int(1, 30),
        _ => cx.rng.int(1, top),
    };
    let t = n as f64 / f;
    let p = loop {
        let p = par(&mut cx.rng);
        if p >= 1.0 {
            break p;
        }
    };
    cx.inp("par, freq, coupons", (p, f, n));
    let small = |r: &mut Rng, hi: f64| match r.below(8) {
        0 => 0.0,
        1 => hi,
        2 => r.log(1e-8, 1e-3),
        3 => r.pick(&[0.05, 0.01, 0.1, 0.005, 0.02]),
        _ => r.uni(0.0, hi),
    };
    let c = small(&mut cx.rng, 0.2);
    let y = if cx.rng.chance(0.1) { c } else { small(&mut cx.rng, 0.4) };
    cx.inp("coupon, yield", (c, y));
    cx.tag_if(y == 0.0, "zero yield");
    cx.tag_if(y > 0.3, "yield above 30 %");
    cx.tag_if(c == 0.0, "zero coupon");
    cx.tag_if(n == 1, "single coupon");
    cx.tag_if(t > 25.0, "life above 25");
    let b = CouponBond { par: p, c, freq: f, t_life: t };
    // the price as an independent sum: the solver has to invert the true price, not only its own
    let (w, _) = coupon_pv(p * c / f, p, y / f, n);
    let own = lib!("price", b.price(y));
    let g = lib!("ytm", b.ytm(own));
    cx.close("ytm of price", g, y, 1e-6)?;
    let g = lib!("ytm", b.ytm(w));
    cx.close("ytm of the discounted flows", g, y, 1e-6)?;
    // floating rate note
    let ix = small(&mut cx.rng, 0.2);
    let qm = if cx.rng.chance(0.1) { -ix * cx.rng.f() } else if cx.rng.chance(0.1) { cx.rng.uni(0.1, 1.0) } else { small(&mut cx.rng, 0.1) };
    cx.tag_if(qm > 0.2, "quoted margin above 20 %");
    let qm = if cx.rng.chance(0.05) && ix <= 0.1 { ix } else { qm };
    let dm = match cx.rng.below(6) {
        2 if cx.rng.chance(0.3) => ix,
        0 => qm.clamp(0.0, 0.2),
        1 => -cx.rng.uni(0.0, 0.02f64.min(ix)),
        _ => small(&mut cx.rng, 0.2),
    };
    cx.inp("quoted margin, index, discount margin", (qm, ix, dm));
    cx.tag_if(dm < 0.0, "negative discount margin");
    cx.tag_if(ix + dm == 0.0, "zero discount rate");
    cx.tag_if(dm > 0.1, "discount margin above 10 %");
    let b = FloatingRateNotes { par: p, quoted_margin: qm, freq: f, t_life: t };
    let (w, _) = coupon_pv(p * (qm + ix) / f, p, (ix + dm) / f, n);
    let own = lib!("FRN price", b.price(ix, dm));
    let g = lib!("discount_margin", b.discount_margin(own, ix));
    cx.close("discount margin of price", g, dm, 1e-6)?;
    let g = lib!("discount_margin", b.discount_margin(w, ix));
    cx.close("discount margin of the discounted flows", g, dm, 1e-6)
}

// ------------------------------------------------------------------ C12
fn c12(cx: &mut Cx) -> Res {
    let f = bfreq(&mut cx.rng);
    let n = coupons(&mut cx.rng, f).min(600);
    let t = n as f64 / f;
    let p = par(&mut cx.rng);
    let c = crate_(&mut cx.rng);
    let y = yld(&mut cx.rng, f, n, c);
    let e = match cx.rng.below(8) {
        0 => 0.0,
        1 => 1.0 / f,
        2 => cx.rng.uni(0.0, 2.0),
        3 => cx.rng.int(1, 360) as f64 / 360.0,
        4 => cx.rng.log(1e-9, 1e-3),
        _ => cx.rng.f() / f,
    };
    cx.inp("par, coupon", (p, c));
    cx.inp("freq, coupons", (f, n));
    cx.inp("yield, elapsed", (y, e));
    cx.tag_if(e == 0.0, "cycle start");
    cx.tag_if(e >= 1.0 / f, "cycle end or beyond");
    cx.tag_if(f < 1.0, "less than one coupon a year");
    cx.tag_if(y < 0.0, "negative yield");
    cx.tag_if(y == 0.0, "zero yield");
    cx.tag_if(c == 0.0, "zero coupon");
    let b = CouponBond { par: p, c, freq: f, t_life: t };
    let (w, tol) = coupon_pv(p * c / f, p, y / f, n);
    let g = grow(y / f, e * f);
    let a = lib!("accrued_interest", b.accrued_interest(e));
    cx.rel("accrued interest", a, p * c * e, 1e-13)?;
    let full = lib!("pv_full", b.pv_full(y, e));
    let tol = tol * g + w.abs() * g * gtol(y / f, e * f);
    cx.close("full price", full, w * g, tol)?;
    let pr = lib!("price", b.price(y));
    cx.close("full price from price", full, pr * g, tol + (pr * g).abs() * gtol(y / f, e * f))?;
    let flat = lib!("pv_flat", b.pv_flat(y, e));
    let s = full.abs() + a.abs();
    cx.close("flat = full - accrued", flat, full - a, 1e-13 * s)?;
    if e == 0.0 {
        cx.close("full price at the start of a cycle", full, pr, tol)?;
        cx.close("flat price at the start of a cycle", flat, pr, tol + 1e-13 * s)?;
        cx.close("accrued interest at the start of a cycle", a, 0.0, 0.0)?;
    }
    Ok(())
}

// ------------------------------------------------------------------ C13
fn c13(cx: &mut Cx) -> Res {
    let f = bfreq(&mut cx.rng);
    let n = coupons(&mut cx.rng, f);
    let t = nudge(&mut cx.rng, n as f64 / f);
    let p = par(&mut cx.rng);
    let ix = match cx.rng.below(6) {
        0 => 0.0,
        1 => -cx.rng.uni(0.0, 0.02),
        2 if cx.rng.chance(0.2) => cx.rng.log(0.2, 50.0),
        _ => cx.rng.uni(0.0, 0.2),
    };
    let qm = match cx.rng.below(6) {
        0 => 0.0,
        1 => -cx.rng.uni(0.0, 0.02),
        2 => -ix,
        3 if cx.rng.chance(0.2) => cx.rng.log(0.1, 10.0),
        4 if cx.rng.chance(0.2) => ix,
        _ => cx.rng.uni(0.0, 0.1),
    };
    let y = yld(&mut cx.rng, f, n, ix + qm);
    let dm = match cx.rng.below(6) {
        0 => qm,
        1 => -ix,
        2 if cx.rng.chance(0.2) => ix,
        _ => y - ix,
    };
    let y = ix + dm;
    cx.inp("par, freq, payments", (p, f, n));
    cx.inp("life", t);
    cx.inp("quoted margin, index, discount margin", (qm, ix, dm));
    if !(y / f > -0.9 && (n as f64 * (y / f).ln_1p()).abs() < 40.0) {
        cx.trivial = true;
        return Ok(());
    }
    cx.tag_if(y == 0.0, "zero discount rate");
    cx.tag_if(y < 0.0, "negative discount rate");
    cx.tag_if(dm == qm, "margins equal");
    cx.tag_if(dm < 0.0, "negative margin");
    cx.tag_if(n == 1, "single payment");
    cx.tag_if(f > 300.0, "daily payments");
    cx.tag_if(f < 1.0, "less than one payment a year");
    cx.tag_if(ix > 1.0, "index rate above 100 %");
    let b = FloatingRateNotes { par: p, quoted_margin: qm, freq: f, t_life: t };
    let q = (ix + qm) * p / f;
    let (w, tol) = coupon_pv(q, p, y / f, n);
    let g = lib!("FRN price", b.price(ix, dm));
    cx.close("price against discounted coupons", g, w, tol)?;
    if (ix + qm) / f > -0.9 && (n as f64 * ((ix + qm) / f).ln_1p()).abs() < 40.0 {
        let (_, tol) = coupon_pv(q, p, (ix + qm) / f, n);
        let g = lib!("FRN price", b.price(ix, qm));
        cx.close("price at discount margin = quoted margin", g, p, tol)?;
    }
    let d = cx.rng.log(1e-3, 0.5);
    // strictly falling holds for non-negative coupons
    if q >= 0.0 && n as f64 * ((y + d) / f).ln_1p() < 40.0 && n as f64 * (y / f).ln_1p() > -30.0 {
        let g2 = lib!("FRN price", b.price(ix, dm + d));
        cx.that_with(g2 < g, || format!("price rises with the discount margin: {g} at {dm}, {g2} at {}", dm + d))?;
    }
    Ok(())
}

// ------------------------------------------------------------------ C14
fn cfreq(r: &mut Rng) -> f64 {
    match r.below(6) {
        0 if r.chance(0.4) => uneven(r),
        0 => r.int(1, 365) as f64,
        1 => r.pick(&[49.0, 98.0, 103.0, 107.0, 161.0, 187.0, 5.0, 7.0, 10.0]),
        _ => r.pick(&[1.0, 2.0, 4.0, 12.0, 12.0, 52.0, 365.0, 6.0, 3.0]),
    }
}
fn c14(cx: &mut Cx) -> Res {
    let long = cx.rng.very_long(1e-4, 100000);
    cx.tag_if(long.is_some(), "very long");
    let f = cfreq(&mut cx.rng);
    let n = match cx.rng.below(6) {
        _ if long.is_some() => long.unwrap() as usize,
        0 => 1,
        1 => 2,
        2 if cx.rng.chance(0.02) => cx.rng.int(1200, 20_000) as usize,
        2 => cx.rng.int(50, 1200) as usize,
        _ => cx.rng.int(2, 60) as usize,
    };
    let k = kind(&mut cx.rng);
    let hi = if cx.rng.chance(0.1) { 3.0 } else { 0.6 };
    let r = curve(&mut cx.rng, n, k, f, -0.3, hi);
    cx.tag_if(f < 1.0, "less than one node a year");
    cx.tag_if(f.fract() != 0.0, "uneven frequency");
    cx.tag_if(n > 1200, "more than 1200 nodes");
    cx.tag_if(r.iter().any(|x| *x > 1.0), "rates above 100 %");
    cx.inp("freq", f);
    cx.inp("rates", r.clone());
    kind_tag(cx, k);
    let c = mk(k, r.clone(), f);
    let wrap = cx.rng.below(3);
    let rs = match wrap {
        0 => Rates::SpotRates { rate: c.clone() },
        1 => Rates::ParRates { rate: c.clone() },
        _ => Rates::ForwardRates { rate: c.clone() },
    };
    cx.tag(["spot curve", "par curve", "forward curve"][wrap]);
    for _ in 0..8 {
        let i = match cx.rng.below(5) {
            0 => 1,
            1 => n,
            2 => cx.rng.int(1, n as i64) as usize,
            _ => cx.rng.int(1, n as i64) as usize,
        };
        let node = i as f64 / f;
        let mut t = match cx.rng.below(8) {
            0 => node,
            1 => {
                // accumulated as a caller stepping through periods would
                let mut s = 0.0;
                for _ in 0..i {
                    s += 1.0 / f;
                }
                s
            }
            2 => nudge(&mut cx.rng, node),
            3 => node + cx.rng.sign() * cx.rng.log(1e-12, 1e-3) / f,
            4 => node + cx.rng.pick(&[0.5, 0.25, 0.75, 0.1, 0.9]) / f,
            _ => cx.rng.uni(1.0, (n as f64).max(1.000001)) / f,
        };
        let x = t * f;
        if x < 1.0 - 1e-11 || x > n as f64 + 1e-11 {
            t = node;
        }
        let x = t * f;
        cx.inp("time", t);
        let atn = (x - x.round()).abs() < 1e-11;
        cx.tag_if(atn && x.round() == 1.0, "first node");
        cx.tag_if(atn && x.round() == n as f64, "last node");
        cx.tag_if(atn, "at a node");
        cx.tag_if(atn && x != x.round(), "at a node up to rounding");
        cx.tag_if(!atn && (x - x.round()).abs() < 1e-4, "beside a node");
        cx.tag_if(!atn, "between nodes");
        let (w, tol) = interp(&r, f, t);
        let g = lib!(format!("rate_estim at {t:?}"), c.rate_estim(t));
        cx.close(format_args!("rate at {t:?}"), g, w, tol)?;
        if t == node && (x - i as f64) == 0.0 {
            cx.same(format_args!("rate at node {i}"), g.to_bits(), r[i - 1].to_bits())?;
        }
        let g2 = lib!("Rates::rate_estim", rs.rate_estim(t));
        cx.same(format_args!("rate at {t:?} through Rates"), g2.to_bits(), g.to_bits())?;
        let a = cx.rng.amount();
        cx.inp("amount", a);
        let l = t * logacc(k, w, f);
        if l.abs() > 300.0 {
            continue;
        }
        let dl = t * (logacc(k, w + tol, f) - logacc(k, w - tol, f)).abs();
        let v = lib!("pv", c.pv(a, t));
        cx.rel(format_args!("pv at {t:?}"), v, a * (-l).exp(), 1e-11 + dl + 4e-16 * t * f + 1e-15 * l.abs())?;
    }
    Ok(())
}

// ------------------------------------------------------------------ C15
fn conv(c: &RateCurve, k: K) -> RateCurve {
    match k {
        K::N => c.to_nominal(),
        K::E => c.to_effective(),
        K::X => c.to_exponential(),
    }
}
fn c15(cx: &mut Cx) -> Res {
    let long = cx.rng.very_long(2e-4, 100000);
    cx.tag_if(long.is_some(), "very long");
    let f = if cx.rng.chance(0.1) { cx.rng.uni(0.3, 30.0) } else { cfreq(&mut cx.rng) };
    let n = match cx.rng.below(6) {
        _ if long.is_some() => long.unwrap() as usize,
        0 => 1,
        1 => cx.rng.int(50, 400) as usize,
        _ => cx.rng.int(1, 40) as usize,
    };
    let k = kind(&mut cx.rng);
    let lim = if cx.rng.chance(0.25) { 3.0 } else { 0.5 };
    let r = curve(&mut cx.rng, n, k, f, -lim, lim + 0.5);
    cx.inp("freq", f);
    cx.tag_if(r.iter().any(|x| *x < -1.0), "rate below -100 %");
    cx.inp("rates", r.clone());
    kind_tag(cx, k);
    cx.tag_if(r.iter().any(|x| *x < 0.0), "negative rate");
    cx.tag_if(r.iter().any(|x| *x == 0.0), "zero rate");
    let c0 = mk(k, r.clone(), f);
    let mut c = c0.clone();
    let steps = cx.rng.int(1, 6);
    let mut path = vec![];
    for i in 0..=steps {
        let to = if i == steps { k } else { kind(&mut cx.rng) };
        path.push(format!("{to:?}"));
        let before = parts(&c);
        c = lib!(format!("conversion to {to:?}"), conv(&c, to));
        let (gk, gr, gf) = parts(&c);
        cx.same("kind of converted curve", gk, to)?;
        cx.same("frequency of converted curve", gf, f)?;
        cx.same("number of nodes", gr.len(), n)?;
        if before.0 == to {
            cx.tag("converted to its own kind");
            cx.that("converting to the same form changes nothing", gr.iter().zip(&before.1).all(|(a, b)| a.to_bits() == b.to_bits()))?;
        }
        for j in 0..n {
            let w = from_log(to, logacc(k, r[j], f), f);
            cx.close(format_args!("rate of node {} after {path:?}", j + 1), gr[j], w, (1e-11 + 4e-15 * f) * (1.0 + w.abs()) * (1.0 + i as f64))?;
        }
        if f >= 1.0 || f < 1.0 {
            for _ in 0..4 {
                let j = cx.rng.below(n);
                let t = (j + 1) as f64 / f;
                let l = t * logacc(k, r[j], f);
                if l.abs() < 200.0 {
                    let a = lib!("pv", c.pv(1000.0, t));
                    cx.rel(format_args!("pv at node {} after {path:?}", j + 1), a, 1000.0 * (-l).exp(), 1e-9 + t * (4e-11 + 4e-14 * f))?;
                }
            }
        }
    }
    cx.inp("conversions", path.join(">"));
    Ok(())
}

// ------------------------------------------------------------------ C16
/// own bootstrap: discount factors from par rates; None when not positive enough
fn boot(p: &[f64], f: f64) -> Option<Vec<f64>> {
    let (mut s, mut d) = (0.0, vec![]);
    for r in p {
        let x = r / f;
        let v = (1.0 - x * s) / (1.0 + x);
        if !(1.0 - x * s > 1e-8 && 1.0 + x > 0.05 && v > 1e-8 && v < 1e8) {
            return None;
        }
        s += v;
        d.push(v);
    }
    Some(d)
}
fn c16(cx: &mut Cx) -> Res {
    let long = cx.rng.very_long(1e-5, 3000);
    cx.tag_if(long.is_some(), "very long");
    let f = if cx.rng.chance(0.1) { cfreq(&mut cx.rng) } else { cx.rng.pick(&[1.0, 1.0, 2.0, 2.0, 4.0, 12.0, 3.0, 6.0, 52.0, 365.0, 5.0]) };
    cx.tag_if(f < 1.0, "less than one node a year");
    let n = match cx.rng.below(6) {
        _ if long.is_some() => long.unwrap() as usize,
        0 => 1,
        1 => 2,
        2 if cx.rng.chance(0.1) => cx.rng.int(120, 700) as usize,
        2 => cx.rng.int(40, 120) as usize,
        _ => cx.rng.int(2, 30) as usize,
    };
    let start_par = cx.rng.chance(0.5);
    let (lo, hi) = cx.rng.pick(&[(-0.1, 0.5), (-0.1, 0.5), (-0.6, 2.0), (0.0, 1.0)]);
    let r = curve(&mut cx.rng, n, K::N, f, lo, hi);
    cx.inp("freq, given as par", (f, start_par));
    cx.inp("rates", r.clone());
    // discount factors
    let d = if start_par {
        boot(&r, f)
    } else {
        let d: Vec<f64> = r.iter().enumerate().map(|(i, s)| grow(s / f, -((i + 1) as f64))).collect();
        // the implied par curve must be bootstrappable itself
        let mut s = 0.0;
        let p: Vec<f64> = d
            .iter()
            .map(|v| {
                s += v;
                f * (1.0 - v) / s
            })
            .collect();
        boot(&p, f).map(|_| d)
    };
    let Some(d) = d else {
        cx.trivial = true;
        return Ok(());
    };
    let spot: Vec<f64> = d.iter().enumerate().map(|(i, v)| f * (-v.ln() / (i + 1) as f64).exp_m1()).collect();
    let mut s = 0.0;
    let par: Vec<f64> = d
        .iter()
        .map(|v| {
            s += v;
            f * (1.0 - v) / s
        })
        .collect();
    cx.tag(if start_par { "par curve given" } else { "spot curve given" });
    cx.tag_if(r.iter().any(|x| *x < 0.0), "negative rates");
    cx.tag_if(r.iter().all(|x| *x == 0.0), "zero curve");
    cx.tag_if(n == 1, "one node");
    cx.tag_if(n > 40, "more than 40 nodes");
    cx.tag_if(n > 400, "more than 400 nodes");
    cx.tag_if(r.windows(2).any(|w| w[1] < w[0]), "falling somewhere");
    cx.tag_if(d.iter().any(|v| *v < 0.005), "discount factor below 0.5 %");
    cx.tag_if(d.iter().any(|v| *v > 10.0), "discount factor above 10");
    let tol = 1e-9 * (1.0 + f / 10.0) * (1.0 + n as f64 / 20.0);
    // a spot rate is found from 1 - par rate x annuity, whose digits are lost as the discount factor gets small
    let mut s = 0.0;
    let cond: Vec<f64> = (0..n)
        .map(|i| {
            let lost = 1e-14 * n as f64 * (1.0 + (par[i] / f * s).abs()) / d[i] / (i + 1) as f64;
            s += d[i];
            lost
        })
        .collect();
    let check = |cx: &mut Cx, what: &str, rs: &Rates, is_spot: bool, want: &[f64]| -> Res {
        let rc = match (rs, is_spot) {
            (Rates::SpotRates { rate }, true) | (Rates::ParRates { rate }, false) => rate,
            _ => return Err(Viol(format!("{what}: wrong kind of rates {rs:?}"))),
        };
        let (k, g, gf) = parts(rc);
        cx.same(format_args!("{what}: kind"), k, K::N)?;
        cx.same(format_args!("{what}: frequency"), gf, f)?;
        cx.same(format_args!("{what}: length"), g.len(), want.len())?;
        for i in 0..want.len() {
            let lost = if is_spot { cond[i] * (f + want[i].abs()) } else { 0.0 };
            cx.close(format_args!("{what}: node {}", i + 1), g[i], want[i], tol * (1.0 + want[i].abs()) + lost)?;
        }
        Ok(())
    };
    let spots;
    if start_par {
        let p0 = Rates::ParRates { rate: mk(K::N, r.clone(), f) };
        spots = lib!("to_spot", p0.to_spot());
        check(cx, "to_spot", &spots, true, &spot)?;
        let back = lib!("to_par", spots.to_par());
        check(cx, "par to spot to par", &back, false, &r)?;
    } else {
        spots = Rates::SpotRates { rate: mk(K::N, r.clone(), f) };
        let p = lib!("to_par", spots.to_par());
        check(cx, "to_par", &p, false, &par)?;
        let back = lib!("to_spot", p.to_spot());
        check(cx, "spot to par to spot", &back, true, &r)?;
    }
    // par bonds on the spot curve
    let Rates::SpotRates { rate: sc } = &spots else { unreachable!() };
    let which: Vec<usize> = if n <= 12 { (0..n).collect() } else { (0..4).map(|_| cx.rng.below(n)).collect() };
    for i in which {
        let b = CouponBond { par: 100.0, c: par[i], freq: f, t_life: (i + 1) as f64 / f };
        let g = lib!("price_ratecurve", b.price_ratecurve(sc));
        cx.close(format_args!("par bond of maturity {} on the spot curve", i + 1), g, 100.0, 1e-7 * (1.0 + d[i]))?;
    }
    Ok(())
}

// ------------------------------------------------------------------ C17
fn c17(cx: &mut Cx) -> Res {
    let long = cx.rng.very_long(1e-4, 100000);
    cx.tag_if(long.is_some(), "very long");
    let f = cfreq(&mut cx.rng);
    let n = match cx.rng.below(6) {
        _ if long.is_some() => long.unwrap() as usize,
        0 => 2,
        1 => cx.rng.int(50, 400) as usize,
        _ => cx.rng.int(2, 60) as usize,
    };
    let hi = if cx.rng.chance(0.1) { 3.0 } else { 0.5 };
    let r = curve(&mut cx.rng, n, K::N, f, -0.2, hi);
    cx.tag_if(f < 1.0, "less than one node a year");
    cx.tag_if(r.iter().any(|x| *x > 1.0), "rates above 100 %");
    cx.inp("freq", f);
    cx.inp("rates", r.clone());
    let flat = r.iter().all(|x| *x == r[0]);
    let rs = Rates::SpotRates { rate: mk(K::N, r.clone(), f) };
    for _ in 0..4 {
        let t = |r: &mut Rng, lo: f64| -> f64 {
            // time in units of nodes
            match r.below(3) {
                0 => r.int(lo.ceil() as i64, n as i64) as f64,
                1 => r.uni(lo, n as f64),
                _ => (lo + r.uni(0.2, 2.0)).min(n as f64),
            }
        };
        let a = if cx.rng.chance(0.2) { 1.0 } else { t(&mut cx.rng, 1.0) };
        if a > n as f64 - 0.2 {
            continue;
        }
        let b = if cx.rng.chance(0.1) { 2.0 * a } else { t(&mut cx.rng, a) };
        let b = b.max(a + 0.1).min(n as f64);
        cx.tag_if(b == 2.0 * a, "tenor as long as the time to the start");
        let (ta, tau) = (a / f, (b - a) / f);
        // rounding of the end of the period beyond the last node would leave the curve
        if (ta + tau) * f > n as f64 {
            continue;
        }
        cx.inp("start, tenor", (ta, tau));
        cx.tag_if(a == a.round() && b == b.round(), "period on nodes");
        cx.tag_if(a != a.round(), "start between nodes");
        cx.tag_if(b != b.round(), "end between nodes");
        cx.tag_if(flat, "flat curve");
        cx.tag_if(r[0] < 0.0, "negative rates");
        let acc = |t: f64| -> (f64, f64) {
            let (s, tol) = interp(&r, f, t);
            (t * logacc(K::N, s, f), t * tol * 1.3 / (1.0 + s / f) + 1e-15 * t * f)
        };
        let ((l0, e0), (l1, e1)) = (acc(ta), acc(ta + tau));
        // forward rate indistinguishable from losing everything, or beyond all bounds
        let gone = |l: f64, t: f64| (l / t).abs() > 25.0 || (l / (t * f)).abs() > 25.0;
        if l0.abs().max(l1.abs()) > 300.0 || gone(l1 - l0, tau) {
            continue; // the amounts or the rate are no longer representable
        }
        let g = lib!("forward_rate", rs.forward_rate(ta, tau));
        // strongly negative rates lose digits when expressed as a rate per year or per node on the way
        let lost = |l: f64, n: f64| 2e-15 * n * (-(l / n)).max(0.0).min(700.0).exp();
        let ann = |l: f64, t: f64| lost(l, t).max(lost(l, t * f));
        let tol = ann(l1 - l0, tau) + e0 + e1 + 1e-11 + 1e-13 * (l0.abs() + l1.abs()) + 4e-16 * tau * f * (1.0 + 1.0 / (1.0 + g / f));
        cx.close("spot to start, forward for the tenor, against spot to the end (log growth)", l0 + tau * logacc(K::N, g, f), l1, tol)?;
        if flat {
            cx.close("forward rate on a flat curve", g, r[0], (tol / tau) * (1.0 + r[0].abs()))?;
        }
        // split
        if b - a > 0.4 {
            let m = a + (b - a) * cx.rng.uni(0.3, 0.7);
            let (t1, t2) = ((m - a) / f, (b - m) / f);
            let tm = ta + t1;
            let lm = acc(tm).0;
            if (tm + t2) * f <= n as f64 && lm.abs() < 300.0 && !gone(lm - l0, t1) && !gone(l1 - lm, t2) {
                cx.tag("adjoining periods");
                let f1 = lib!("forward_rate", rs.forward_rate(ta, t1));
                let f2 = lib!("forward_rate", rs.forward_rate(tm, t2));
                let (_, em) = acc(tm);
                cx.close("two adjoining forward periods against the joint one (log growth)", t1 * logacc(K::N, f1, f) + t2 * logacc(K::N, f2, f), tau * logacc(K::N, g, f), 1e-11 + ann(t1 * logacc(K::N, f1, f), t1) + ann(t2 * logacc(K::N, f2, f), t2) + 2.0 * tol + 2.0 * em + 4e-16 * f * (t1 / (1.0 + f1 / f) + t2 / (1.0 + f2 / f)))?;
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C18
fn c18(cx: &mut Cx) -> Res {
    let t = match cx.rng.below(6) {
        0 => cx.rng.pick(&[1.0, 30.0, 90.0, 91.0, 180.0, 182.0, 360.0, 364.0, 365.0, 366.0]),
        1 => cx.rng.uni(0.1, 1.0),
        2 if cx.rng.chance(0.1) => cx.rng.int(3650, 40_000) as f64,
        2 => cx.rng.int(367, 3650) as f64,
        3 => cx.rng.uni(1.0, 400.0),
        _ => cx.rng.int(1, 366) as f64,
    };
    let face = cx.rng.positive();
    let p0 = if cx.rng.chance(0.02) { face } else { face * if cx.rng.chance(0.8) { cx.rng.uni(0.5, 1.2) } else if cx.rng.chance(0.8) { cx.rng.log(0.01, 10.0) } else { cx.rng.log(1e-7, 1e7) } };
    cx.tag_if(p0 == face, "price equal to face");
    cx.inp("days, price, face", (t, p0, face));
    cx.tag_if(p0 > face, "price above face");
    cx.tag_if(t > 366.0, "longer than a year");
    cx.tag_if(t < 1.0, "less than a day");
    let disc = face - p0;
    let r = lib!("t_bill_r", mm::t_bill_r(t, p0, face));
    cx.close("bank discount rate", r, disc / face * 360.0 / t, 1e-14 * 360.0 / t * (1.0 + p0 / face))?;
    let d = lib!("t_bill_d", mm::t_bill_d(r, t, face));
    cx.close("discount of that rate", d, disc, 1e-13 * (face + p0))?;
    let q = cx.rng.rate(-0.5, 3.0);
    cx.inp("discount rate", q);
    let d = lib!("t_bill_d", mm::t_bill_d(q, t, face));
    cx.rel("discount", d, q * t * face / 360.0, 1e-13)?;
    let r = lib!("t_bill_r", mm::t_bill_r(t, face - d, face));
    cx.close("rate of that discount", r, q, 1e-12 * (q.abs() + 360.0 / t))?;
    // yields
    let p1 = match cx.rng.below(20) {
        0 | 1 => 0.0,
        2 => p0 * cx.rng.log(1e-7, 1e7),
        3 | 4 => p0,
        _ => p0 * cx.rng.uni(0.3, 2.0),
    };
    let d1 = match cx.rng.below(8) {
        0 | 4 => 0.0,
        2 => -(p1.max(0.01 * p0)) * if p1 > 0.0 { cx.rng.log(1e-6, 0.99) } else { 0.0 },
        1 | 5 => p0 * cx.rng.log(1e-6, 0.01),
        3 if cx.rng.chance(0.2) => p0 * cx.rng.log(0.5, 1e7),
        3 if cx.rng.chance(0.3) => {
            // amounts that have to do with one another
            let d = cx.rng.pick(&[p0, p1, p0 - p1, p1 - p0, p0 / 2.0, p1 / 2.0, face, disc]) * cx.rng.sign();
            if p1 + d > 0.001 * p0 && p1 + d > 0.01 * p1 { d } else { d.abs() }
        }
        _ => p0 * cx.rng.uni(0.0, 0.5),
    };
    cx.inp("end price, income", (p1, d1));
    cx.tag_if(p1 == p0, "end price the same");
    cx.tag_if(d1 == 0.0, "no income");
    cx.tag_if(d1 < 0.0, "costs instead of income");
    cx.tag_if(p1 + d1 < p0, "loss");
    cx.tag_if(p1 == 0.0, "nothing at the end but income");
    let g = (p1 + d1) / p0;
    let h = lib!("holding_per_yield", mm::holding_per_yield(p0, p1, d1));
    cx.close("holding period yield", h, (p1 + d1 - p0) / p0, 1e-14 * (1.0 + g))?;
    let m = lib!("money_mkt_yield", mm::money_mkt_yield(t, p0, p1, d1));
    cx.close("money market yield", m, (p1 + d1 - p0) / p0 * 360.0 / t, 1e-14 * (1.0 + g) * 360.0 / t)?;
    let k = 365.0 / t;
    let lg = if g > 0.0 { g.ln() } else { f64::NEG_INFINITY };
    if (k * lg).abs() < 300.0 || g == 0.0 {
        let e = lib!("eff_ann_yield", mm::eff_ann_yield(t, p0, p1, d1));
        let w = (k * lg).exp();
        cx.close("effective annual yield", e, w - 1.0, 1e-13 * (1.0 + w) + if g > 0.0 { 1e-15 * k * (1.0 + lg.abs() + 1.0 / g) * w } else { 0.0 })?;
        // recover
        cx.close("holding yield from money market yield", m * t / 360.0, h, 1e-13 * (1.0 + g))?;
        if (k * lg).abs() < 30.0 && k * lg > -14.0 {
            cx.tag("yields recovered from one another");
            let b = ((1.0 + e).ln() / k).exp() - 1.0;
            cx.close("holding yield from effective annual yield", b, h, 1e-8 * (1.0 + g))?;
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C19
fn c19(cx: &mut Cx) -> Res {
    let long = cx.rng.very_long(3e-5, 100000);
    cx.tag_if(long.is_some(), "very long");
    let n = match cx.rng.below(6) {
        _ if long.is_some() => long.unwrap() as usize,
        0 => 1,
        1 => {
            let top = if cx.rng.chance(0.02) { 20_000 } else { 300 };
            cx.rng.int(40, top) as usize
        }
        _ => cx.rng.int(1, 24) as usize,
    };
    let lim = (60.0 / n as f64).min(if cx.rng.chance(0.15) { 14.0 } else { 1.5 });
    let lost = cx.rng.chance(0.05);
    let mut g: Vec<f64> = (0..n)
        .map(|_| if lost && cx.rng.chance(0.3) { 0.0 } else if cx.rng.chance(0.1) { 1.0 } else { cx.rng.uni(-lim, lim).exp() })
        .collect();
    let co = cx.rng.chance(0.1);
    if co && n > 1 {
        // a growth that turns back the one before it, or repeats it
        let (i, b) = (cx.rng.int(1, n as i64 - 1) as usize, cx.rng.chance(0.5));
        g[i] = if b && g[i - 1] > 0.0 { 1.0 / g[i - 1] } else { g[i - 1] };
    }
    // two portfolios with the same growth factors, different flows
    let make = |r: &mut Rng| -> (Vec<f64>, Vec<f64>) {
        let mut bv = vec![if r.chance(0.1) { 0.0 } else { r.positive() }];
        let mut fl = vec![];
        let s = r.below(3);
        let rel = r.chance(0.25);
        for x in &g {
            let b = *bv.last().unwrap();
            let last: f64 = fl.last().copied().unwrap_or(0.0);
            let f = match s {
                // flows that have to do with what came before
                _ if rel && r.chance(0.4) && b > 0.0 => {
                    let f = match r.below(7) {
                        0 | 1 => -last,
                        2 => last,
                        3 => b,
                        4 => -b / 2.0,
                        5 => bv[0] - b,
                        _ => -fl.iter().sum::<f64>(),
                    };
                    if f > -0.99 * b { f } else { 0.0 }
                }
                // nothing invested before this flow
                _ if b == 0.0 => r.positive(),
                // long histories would wander off
                1.. if n >= 1000 && b < 1e-6 => r.uni(0.5, 2.0),
                1.. if n >= 1000 && b > 1e12 => -b * r.uni(0.5, 0.9),
                0 => 0.0,
                1 => b * r.uni(-0.7, 1.5),
                _ => {
                    if r.chance(0.5) {
                        0.0
                    } else {
                        b * r.sign() * r.log(1e-4, 0.9)
                    }
                }
            };
            fl.push(f);
            bv.push((b + f) * x);
        }
        (bv, fl)
    };
    let (a, fa) = make(&mut cx.rng);
    let (b, fb) = make(&mut cx.rng);
    let ny = match cx.rng.below(4) {
        0 => 1.0,
        1 => n as f64,
        2 => n as f64 / cx.rng.pick(&[4.0, 12.0, 2.0]),
        _ if cx.rng.chance(0.3) => cx.rng.pick(&[1.0 / 365.0, 7.0 / 365.0, 1.0 / 12.0, 0.004, 0.05, 100.0]),
        _ => cx.rng.uni(0.2, 40.0),
    };
    cx.inp("balances", a.clone());
    cx.inp("flows", fa.clone());
    cx.inp("years", ny);
    cx.tag_if((1..n).any(|i| fa[i] != 0.0 && fa[i] == -fa[i - 1]), "flow that turns back the one before");
    cx.tag_if((0..n).any(|i| fa[i] != 0.0 && a[i] + fa[i] == a[0]), "flow that restores the first balance");
    cx.tag_if(n == 1, "one sub-period");
    cx.tag_if(n >= 40, "40 sub-periods or more");
    cx.tag_if(n >= 1000, "1,000 sub-periods or more");
    cx.tag_if(fa.iter().any(|x| *x < 0.0), "withdrawals");
    cx.tag_if(fa.iter().all(|x| *x == 0.0), "no flows");
    cx.tag_if(ny < 1.0, "less than a year");
    cx.tag_if(ny < 0.02, "about a week or less");
    cx.tag_if(g.iter().any(|x| *x > 20.0 || (*x > 0.0 && *x < 0.05)), "growth by a factor of 20 or fall by 95 %");
    // recomputed from the numbers given
    let lg: f64 = (0..n).map(|i| (a[i + 1] / (a[i] + fa[i])).ln()).sum();
    cx.tag_if((0..n).any(|i| a[i] == 0.0), "balance of zero before an inflow");
    cx.tag_if((1..n).any(|i| a[i] == 0.0), "everything lost, then refunded");
    let gone = lg == f64::NEG_INFINITY;
    let lg = if gone { -1e9 } else { lg };
    if !gone && (lg / ny).abs() > 300.0 {
        cx.trivial = true;
        return Ok(());
    }
    let tol = |ny: f64| if gone { 1e-14 } else { 1e-12 + 1e-14 * (n as f64 + lg.abs()) / ny };
    let w = (lg / ny).exp();
    let x = lib!("twrr_n", mm::twrr_n(ny, &a, &fa));
    cx.close("twrr_n", x, w - 1.0, tol(ny) * (1.0 + w))?;
    let w1 = (lg / n as f64).exp();
    let x1 = lib!("twrr", mm::twrr(&a, &fa));
    cx.close("twrr", x1, w1 - 1.0, tol(n as f64) * (1.0 + w1))?;
    // same returns, other flows: rounding of balance + flow may be amplified
    let am: f64 = if gone { 0.0 } else { 1.0 } * (0..n).map(|i| a[i] / (a[i] + fa[i]) + b[i] / (b[i] + fb[i])).sum::<f64>() * 1e-14;
    let y = lib!("twrr_n", mm::twrr_n(ny, &b, &fb));
    cx.inp("other portfolio", (b.clone(), fb.clone()));
    cx.close("twrr_n of the same returns with other flows", y, x, (tol(ny) + am / ny) * (1.0 + w))?;
    let k = cx.rng.log(1e-4, 1e4);
    let sc = |v: &Vec<f64>| v.iter().map(|x| x * k).collect::<Vec<_>>();
    let y = lib!("twrr_n", mm::twrr_n(ny, &sc(&a), &sc(&fa)));
    cx.inp("scale", k);
    cx.close("twrr_n of scaled amounts", y, x, (tol(ny) + am / ny) * (1.0 + w))
}

pub static PROPS: &[Prop] = &[
    Prop {
        id: "C10",
        rule: "random bonds: frequency 0.05..366 (all conventional ones, arbitrary integers, fractions), 1..20,000 coupons, life = coupons/frequency perturbed by up to 2 ulp, coupon 0..5000 %, yield up to 5000 % incl. 0, the coupon itself, vanishing and negative; random curves of the 3 kinds at the bond's or a finer frequency. Distinct by inputs.",
        fixed: (0, 0),
        random: (4_500_000, 70_500_000),
        need: &["zero yield", "negative yield", "zero coupon", "single coupon", "more than 300 coupons", "life x frequency rounds down", "daily coupons", "nominal curve", "effective curve", "exponential curve", "curve frequency differs", "coupons between the nodes", "more than 1000 flows on a curve", "uneven frequency", "less than one coupon a year", "yield above 200 %"],
        case: c10,
        assumptions: &["|coupons x ln(1+yield/frequency)| < 40"],
    },
    Prop {
        id: "C11",
        rule: "random bonds and notes in the stated domain, boundaries included; prices both from the library and from an independent sum. Distinct by inputs.",
        fixed: (0, 0),
        random: (8_000_000, 192_000_000),
        need: &["zero yield", "yield above 30 %", "zero coupon", "single coupon", "life above 25", "negative discount margin", "zero discount rate", "discount margin above 10 %", "quoted margin above 20 %"],
        case: c11,
        assumptions: &["par between 1 and 1e12"],
    },
    Prop {
        id: "C12",
        rule: "random bonds, yields and elapsed times (0, within, at the end of and beyond the cycle). Distinct by inputs.",
        fixed: (0, 0),
        random: (12_000_000, 300_000_000),
        need: &["cycle start", "cycle end or beyond", "negative yield", "zero yield", "zero coupon", "less than one coupon a year"],
        case: c12,
        assumptions: &[],
    },
    Prop {
        id: "C13",
        rule: "random floating-rate notes, margins and index rates (zero and negative included), 1..1500 payments. Trivial when the discount rate leaves the domain. Distinct by inputs.",
        fixed: (0, 0),
        random: (12_000_000, 234_000_000),
        need: &["zero discount rate", "negative discount rate", "margins equal", "negative margin", "single payment", "daily payments", "less than one payment a year", "index rate above 100 %"],
        case: c13,
        assumptions: &["price falling in the margin is required for non-negative coupons only"],
    },
    Prop {
        id: "C14",
        rule: "random curves of 1..20,000 nodes, 3 kinds, 3 uses, frequency 0.05..366, read at nodes (computed as k/f, accumulated, +-2 ulp), 1e-12..1e-3 beside nodes, between nodes, at first and last node. Distinct by curve and times.",
        fixed: (0, 0),
        random: (8_000_000, 108_000_000),
        need: &["very long", "first node", "last node", "at a node", "at a node up to rounding", "beside a node", "between nodes", "nominal curve", "effective curve", "exponential curve", "spot curve", "par curve", "forward curve", "less than one node a year", "uneven frequency", "more than 1200 nodes", "rates above 100 %"],
        case: c14,
        assumptions: &["within 3e-9 of a node either the node rate or the interpolated rate is accepted (they differ by < 4e-9 of the rate step)"],
    },
    Prop {
        id: "C15",
        rule: "random curves and chains of 1..6 conversions back to the original kind; rates of every node and values at nodes compared after every conversion. Distinct by curve and chain.",
        fixed: (0, 0),
        random: (4_000_000, 68_000_000),
        need: &["very long", "nominal curve", "effective curve", "exponential curve", "negative rate", "rate below -100 %", "zero rate", "converted to its own kind"],
        case: c15,
        assumptions: &["log growth per period between -3 and 3.5"],
    },
    Prop {
        id: "C16",
        rule: "random par and spot curves of 1..700 nodes bootstrapped independently; trivial when a bootstrap discount factor is not clearly positive. Distinct by curve.",
        fixed: (0, 0),
        random: (1_600_000, 24_000_000),
        need: &["discount factor below 0.5 %", "discount factor above 10", "par curve given", "spot curve given", "negative rates", "zero curve", "one node", "more than 40 nodes", "more than 400 nodes", "falling somewhere", "less than one node a year"],
        case: c16,
        assumptions: &["bootstrap denominators of at least 0.05"],
    },
    Prop {
        id: "C17",
        rule: "random nominal spot curves, forward periods on and between nodes with tenor of at least a tenth of a node distance, and their splits. Distinct by curve and periods.",
        fixed: (0, 0),
        random: (8_000_000, 192_000_000),
        need: &["very long", "period on nodes", "start between nodes", "end between nodes", "flat curve", "negative rates", "adjoining periods", "less than one node a year", "rates above 100 %"],
        case: c17,
        assumptions: &[],
    },
    Prop {
        id: "C18",
        rule: "random prices, faces, incomes and days (fractions of a day to ten years). Distinct by inputs.",
        fixed: (0, 0),
        random: (20_000_000, 480_000_000),
        need: &["price above face", "longer than a year", "less than a day", "no income", "end price the same", "loss", "nothing at the end but income", "yields recovered from one another"],
        case: c18,
        assumptions: &[],
    },
    Prop {
        id: "C19",
        rule: "random growth factors with two independently drawn flow histories, scales and annualisation. Distinct by inputs.",
        fixed: (0, 0),
        random: (4_000_000, 70_000_000),
        need: &["very long", "about a week or less", "growth by a factor of 20 or fall by 95 %", "one sub-period", "40 sub-periods or more", "withdrawals", "no flows", "balance of zero before an inflow", "everything lost, then refunded", "less than a year"],
        case: c19,
        assumptions: &["one flow per sub-period"],
    },
];
