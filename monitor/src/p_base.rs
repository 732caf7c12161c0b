//! C01..C09, C35: dates, time value of money, NPV/IRR, root finder.
use crate::cal;
use crate::core::*;
use crate::lib;
use chrono::{Datelike, NaiveDate as D};
use financelib as fl;
use financelib::DayCountConvention::*;
use std::cell::RefCell;

// ------------------------------------------------------------------ C01
const C01_YEARS: [i64; 10] = [1900, 2000, 2015, 2016, 2018, 2019, 2020, 2023, 2024, 2100];
fn c01_dates() -> &'static Vec<D> {
    static S: std::sync::OnceLock<Vec<D>> = std::sync::OnceLock::new();
    S.get_or_init(|| {
        let mut v = vec![];
        for y in C01_YEARS {
            for m in 1..=12 {
                for d in [1, 15, 27, 28, 29, 30, 31] {
                    if d <= cal::mlen(y, m) {
                        v.push(cal::date(y, m, d));
                    }
                }
            }
        }
        v
    })
}
fn c01_pair(cx: &mut Cx, a: D, b: D) -> Res {
    let act = (cal::dayno(b) - cal::dayno(a)) as f64;
    let ulp = 4e-16 * (a.year().abs().max(b.year().abs()) as f64 + 1.0);
    let t = 1e-12 + ulp;
    let g = lib!("yearfrac US30360", fl::yearfrac(a, b, US30360));
    let us = cal::us30360(a, b);
    cx.close("US 30/360", g, us, t)?;
    let g = lib!("yearfrac EU30360", fl::yearfrac(a, b, EU30360));
    cx.close("EU 30/360", g, cal::eu30360(a, b), t)?;
    let g = lib!("yearfrac ACT360", fl::yearfrac(a, b, ACT360));
    cx.close("ACT/360", g, act / 360.0, t)?;
    let g = lib!("yearfrac ACT365", fl::yearfrac(a, b, ACT365));
    cx.close("ACT/365", g, act / 365.0, t)?;
    let g = lib!("yearfrac ACTACT", fl::yearfrac(a, b, ACTACT));
    cx.close("ACT/ACT", g, cal::actact(a, b), t + 4.0 * ulp)?;
    if act >= 0.0 && act < 900.0 {
        cx.tag("act/act counted day by day");
        cx.close("ACT/ACT, day by day", g, cal::actact_daily(a, b), t + 4.0 * ulp)?;
    }
    cx.that_with(act == 0.0 || (g > 0.0) == (act > 0.0), || format!("sign of ACT/ACT {g} for {act} days"))?;
    let g = lib!("yrfrac", fl::yrfrac((a, b)));
    cx.close("yrfrac", g, us, t)?;
    cx.tag_if(act < 0.0, "reversed dates");
    cx.tag_if(act == 0.0, "equal dates");
    cx.tag_if(cal::feb_end(a) && cal::feb_end(b), "both February end");
    cx.tag_if(cal::feb_end(a) && !cal::feb_end(b), "start February end");
    cx.tag_if(!cal::feb_end(a) && cal::feb_end(b), "end February end");
    let (da, db) = (a.day(), b.day());
    cx.tag_if(da == 31 && db == 31, "31 to 31");
    cx.tag_if(da == 30 && db == 31, "30 to 31");
    cx.tag_if(da < 30 && db == 31, "early day to 31");
    cx.tag_if(da == 31 && db < 30, "31 to early day");
    cx.tag_if(a.year() != b.year() && cal::leap(a.year() as i64) != cal::leap(b.year() as i64), "leap and normal end years");
    Ok(())
}
fn c01(cx: &mut Cx) -> Res {
    if let Some(i) = cx.fixed {
        let v = c01_dates();
        let a = v[i as usize % v.len()];
        cx.inp("start date, paired with all listed end dates", a);
        for &b in v {
            c01_pair(cx, a, b).map_err(|e| Viol(format!("{a} -> {b}: {}", e.0)))?;
        }
        return Ok(());
    }
    for _ in 0..8 {
        let a = if cx.rng.chance(0.02) {
            let y = cx.rng.int(-262_000, 262_000);
            cx.rng.date_in(y)
        } else {
            cx.rng.date()
        };
        let b = cx.rng.date_near(a);
        cx.inp("dates", (a, b));
        c01_pair(cx, a, b).map_err(|e| Viol(format!("{a} -> {b}: {}", e.0)))?;
    }
    Ok(())
}

// ------------------------------------------------------------------ C02
fn c02_year(cx: &mut Cx, y: i64) -> Res {
    cx.tag("whole year walked day by day");
    let l = cal::ylen(y);
    let g = lib!("is_leap_year", fl::is_leap_year(y as i32));
    cx.same("is_leap_year", g, cal::leap(y)).map_err(|e| Viol(format!("year {y}: {}", e.0)))?;
    let g = lib!("days_in_year", fl::days_in_year(y as i32));
    cx.same("days_in_year", g, l).map_err(|e| Viol(format!("year {y}: {}", e.0)))?;
    let mut d = cal::date(y, 1, 1);
    let mut last = lib!("date_to_float", fl::date_to_float(d.pred_opt().unwrap()));
    for o in 1..=l {
        let at = |e: Viol| Viol(format!("{d} (day {o} of {y}): {}", e.0));
        let f = lib!(format!("date_to_float({d})"), fl::date_to_float(d));
        let ulp = 1e-15 * (y.abs() as f64 + 1.0);
        cx.close("decimal year", f, y as f64 + o as f64 / l as f64, 1e-12 + ulp).map_err(at)?;
        cx.that_with(f > y as f64 && f <= y as f64 + 1.0, || format!("{f} outside (year, year+1]")).map_err(at)?;
        cx.that_with(f > last, || format!("{f} not above the previous day's {last}")).map_err(at)?;
        let back = lib!(format!("date_from_float({f:?}), the decimal year of {d}"), fl::date_from_float(f));
        cx.same("date_from_float(date_to_float(d))", back, d).map_err(at)?;
        last = f;
        d = d.succ_opt().unwrap();
    }
    Ok(())
}
fn c02_float(cx: &mut Cx, x: f64) -> Res {
    let d = lib!(format!("date_from_float({x:?})"), fl::date_from_float(x));
    let val = |d: D| d.year() as f64 + cal::ordinal(d) as f64 / cal::ylen(d.year() as i64) as f64;
    let e = (val(d) - x).abs();
    // a few minutes of slack where a year of 365 days meets one of 366
    let slack = 4e-15 * x.abs() + if (x - x.round()).abs() < 0.003 { 1e-5 } else { 1e-9 };
    for n in [d.pred_opt().unwrap(), d.succ_opt().unwrap()] {
        cx.that_with(e <= (val(n) - x).abs() + slack, || format!("date_from_float({x:?}) = {d}, but {n} is nearer"))?;
    }
    Ok(())
}
fn c02(cx: &mut Cx) -> Res {
    if let Some(i) = cx.fixed {
        let y = if cx.thorough { i as i64 - 262_142 } else { 1500 + i as i64 };
        cx.inp("year", y);
        return c02_year(cx, y);
    }
    if cx.rng.chance(0.1) {
        let y = if cx.rng.chance(0.3) { cx.rng.pick(&[-262_142, 262_141, -1, 0, 1, -4, -100, -400, 262_140]) } else { cx.rng.int(-262_142, 262_141) };
        cx.inp("year", y);
        return c02_year(cx, y);
    }
    let y = cx.rng.int(-2_000_000_000, 2_000_000_000);
    cx.inp("year for leap rule", y);
    let g = lib!("is_leap_year", fl::is_leap_year(y as i32));
    cx.same("is_leap_year", g, cal::leap(y))?;
    let g = lib!("days_in_year", fl::days_in_year(y as i32));
    cx.same("days_in_year", g, cal::ylen(y))?;
    for _ in 0..8 {
        let y = if cx.rng.chance(0.8) { cx.rng.year() } else { cx.rng.int(-262_142, 262_141) } as f64;
        let x = match cx.rng.below(6) {
            0 => y + cx.rng.uni(0.0, 0.003),
            1 => y - cx.rng.uni(0.0, 0.003),
            2 => y,
            3 => y + cx.rng.pick(&[0.5, 0.25, 0.75]),
            _ => y + cx.rng.f(),
        };
        if x < -262_141.9 || x > 262_141.9 {
            continue;
        }
        cx.tag_if((x - x.round()).abs() < 0.003, "decimal year near a year boundary");
        cx.inp("decimal year", x);
        c02_float(cx, x)?;
    }
    Ok(())
}

// ------------------------------------------------------------------ C03
/// (1+x)^k by another route than powf
pub fn grow(x: f64, k: f64) -> f64 {
    (k * x.ln_1p()).exp()
}
/// rounding of 1+x is amplified k times in (1+x)^k
pub fn gtol(x: f64, k: f64) -> f64 {
    1e-11 + 1e-15 * k.abs() * (1.0 + x.ln_1p().abs())
}
fn c03(cx: &mut Cx) -> Res {
    let (r, n) = loop {
        let r = cx.rng.rate(-0.98, 6.0);
        let n = cx.rng.periods();
        if (n * r.ln_1p()).abs() < 250.0 {
            break (r, n);
        }
    };
    let a = cx.rng.amount();
    let k = cx.rng.pick(&[2.0, -1.0, 0.5, 1000.0, 3.0]);
    cx.inp("r,n,amount", (r, n, a));
    cx.trivial = a == 0.0 && n == 0.0;
    cx.tag_if(r == 0.0, "zero rate");
    cx.tag_if(r < 0.0, "negative rate");
    cx.tag_if(n < 0.0, "negative periods");
    cx.tag_if(n.fract() != 0.0, "fractional periods");
    cx.tag_if(n == 0.0, "zero periods");
    let g = grow(r, n);
    let t = gtol(r, n);
    let d1 = lib!("dis_fact_annual", fl::dis_fact_annual(r));
    cx.rel("dis_fact_annual", d1, 1.0 / (1.0 + r), 1e-12)?;
    let d = lib!("dis_fact", fl::dis_fact(r, n));
    cx.rel("dis_fact", d, 1.0 / g, t)?;
    let p = lib!("pv", fl::pv(r, n, a));
    cx.rel("pv", p, a / g, t)?;
    let f = lib!("fv", fl::fv(r, n, a));
    cx.rel("fv", f, a * g, t)?;
    let x = lib!("fv(pv)", fl::fv(r, n, fl::pv(r, n, a)));
    cx.rel("fv of pv", x, a, t)?;
    let x = lib!("pv(fv)", fl::pv(r, n, fl::fv(r, n, a)));
    cx.rel("pv of fv", x, a, t)?;
    let x = lib!("pv", fl::pv(r, n, k * a));
    cx.rel("pv proportional to amount", x, k * p, 1e-12)?;
    let x = lib!("fv", fl::fv(r, n, k * a));
    cx.rel("fv proportional to amount", x, k * f, 1e-12)?;
    // several compoundings per period
    let (rm, m, nm) = loop {
        let m = cx.rng.mfreq();
        let r = cx.rng.rate(-0.95, 5.0);
        let r = if cx.rng.chance(0.1) { r * m } else { r };
        let n = if cx.rng.chance(0.05) { m } else { cx.rng.periods() };
        if r / m > -0.98 && (n * m * (r / m).ln_1p()).abs() < 250.0 {
            break (r, m, n);
        }
    };
    cx.inp("r,n,m", (rm, nm, m));
    cx.tag_if(m != m.trunc(), "fractional frequency");
    cx.tag_if(m >= 360.0, "daily compounding");
    let (g, t) = (grow(rm / m, nm * m), gtol(rm / m, nm * m));
    let p = lib!("pvm", fl::pvm(rm, nm, m, a));
    cx.rel("pvm", p, a / g, t)?;
    let f = lib!("fvm", fl::fvm(rm, nm, m, a));
    cx.rel("fvm", f, a * g, t)?;
    let x = lib!("fvm(pvm)", fl::fvm(rm, nm, m, p));
    cx.rel("fvm of pvm", x, a, t)?;
    let x = lib!("pvm(fvm)", fl::pvm(rm, nm, m, f));
    cx.rel("pvm of fvm", x, a, t)?;
    let x = lib!("pvm", fl::pvm(rm, nm, m, k * a));
    cx.rel("pvm proportional", x, k * p, 1e-12)?;
    let x = lib!("fvm", fl::fvm(rm, nm, m, k * a));
    cx.rel("fvm proportional", x, k * f, 1e-12)?;
    // continuous
    let (rc, nc) = loop {
        let r = cx.rng.sign() * cx.rng.rate(-0.98, 3.0);
        let n = cx.rng.periods();
        if (r * n).abs() < 250.0 {
            break (r, n);
        }
    };
    cx.inp("r,n continuous", (rc, nc));
    let e = (rc * nc).exp();
    let tc = 1e-11 + 3e-16 * nc.abs();
    let p = lib!("pvc", fl::pvc(rc, nc, a));
    cx.rel("pvc", p, a / e, tc)?;
    let f = lib!("fvc", fl::fvc(rc, nc, a));
    cx.rel("fvc", f, a * e, tc)?;
    let x = lib!("fvc(pvc)", fl::fvc(rc, nc, p));
    cx.rel("fvc of pvc", x, a, tc)?;
    let x = lib!("pvc(fvc)", fl::pvc(rc, nc, f));
    cx.rel("pvc of fvc", x, a, tc)?;
    let x = lib!("pvc", fl::pvc(rc, nc, k * a));
    cx.rel("pvc proportional", x, k * p, 1e-12)?;
    let x = lib!("fvc", fl::fvc(rc, nc, k * a));
    cx.rel("fvc proportional", x, k * f, 1e-12)?;
    // dated
    let (d0, d1, rd, yf) = loop {
        let a = cx.rng.date();
        let b = cx.rng.date_near(a);
        let r = cx.rng.rate(-0.95, 3.0);
        let y = cal::us30360(a, b);
        if (y * r.ln_1p()).abs() < 250.0 {
            break (a, b, r, y);
        }
    };
    cx.inp("dated", ((d0, d1), rd));
    cx.tag_if(yf < 0.0, "dated, reversed");
    cx.tag_if(d0.day() == 31 || d1.day() == 31, "dated, day 31");
    cx.tag_if(cal::feb_end(d0), "dated, February end");
    let (g, t) = (grow(rd, yf), gtol(rd, yf));
    let pr = (d0, d1);
    let x = lib!("xdis_fact", fl::xdis_fact(rd, pr));
    cx.rel("xdis_fact", x, 1.0 / g, t)?;
    let p = lib!("xpv", fl::xpv(rd, pr, a));
    cx.rel("xpv", p, a / g, t)?;
    let f = lib!("xfv", fl::xfv(rd, pr, a));
    cx.rel("xfv", f, a * g, t)?;
    let x = lib!("xfv(xpv)", fl::xfv(rd, pr, p));
    cx.rel("xfv of xpv", x, a, t)?;
    let x = lib!("xpv(xfv)", fl::xpv(rd, pr, f));
    cx.rel("xpv of xfv", x, a, t)?;
    let x = lib!("xpv", fl::xpv(rd, pr, k * a));
    cx.rel("xpv proportional", x, k * p, 1e-12)?;
    let x = lib!("xfv", fl::xfv(rd, pr, k * a));
    cx.rel("xfv proportional", x, k * f, 1e-12)?;
    // forward discount factor
    let (r0, t0, r1, t1) = loop {
        let (r0, r1) = (cx.rng.rate(-0.9, 3.0), cx.rng.rate(-0.9, 3.0));
        let r1 = if cx.rng.chance(0.1) { r0 } else { r1 };
        let (t0, t1) = (cx.rng.periods(), cx.rng.periods());
        let t1 = if cx.rng.chance(0.1) { t0 * cx.rng.pick(&[1.0, 1.0, -1.0, 2.0, 0.5]) } else { t1 };
        if (t0 * r0.ln_1p()).abs() < 250.0 && (t1 * r1.ln_1p()).abs() < 250.0 {
            break (r0, t0, r1, t1);
        }
    };
    cx.inp("forward", ((r0, t0), (r1, t1)));
    let w = lib!("fwd_dis_fact", fl::fwd_dis_fact((r0, t0), (r1, t1)));
    let t = gtol(r0, t0) + gtol(r1, t1);
    let lw = t0 * r0.ln_1p() - t1 * r1.ln_1p();
    cx.rel("fwd_dis_fact", w, lw.exp(), t + 1e-14 * lw.abs())?;
    let (e, l) = lib!("dis_fact", (fl::dis_fact(r0, t0), fl::dis_fact(r1, t1)));
    cx.rel("factor chain", e * w, l, t)
}

// ------------------------------------------------------------------ C04
fn c04(cx: &mut Cx) -> Res {
    let m = cx.rng.mfreq();
    let nom = loop {
        let r = if cx.rng.chance(0.15) { cx.rng.rate(-0.95, 5.0) * m } else { cx.rng.rate(-0.95, 5.0) };
        if r / m > -0.95 && m * (r / m).ln_1p() < 60.0 && m * (r / m).ln_1p() > -12.0 {
            break r;
        }
    };
    cx.inp("nominal rate, m", (nom, m));
    cx.tag_if(nom == 0.0, "zero rate");
    cx.tag_if(nom < 0.0, "negative rate");
    cx.tag_if(m == 1.0, "m = 1");
    cx.tag_if(m < 1.0, "m < 1");
    cx.tag_if(m > 300.0, "daily");
    let exp_w = m * (nom / m).ln_1p();
    let eff_w = exp_w.exp_m1();
    // absolute error: rounding of 1 + r/m, m times
    let te = (1e-12 + 1e-15 * m * (1.0 + exp_w.abs())) * (1.0 + eff_w.abs());
    let tx = 1e-12 + 1e-15 * m * (1.0 + exp_w.abs()) + te / (1.0 + eff_w);
    let tn = 1e-11 + 1e-14 * m + (te / (1.0 + eff_w) + tx) * (1.0 + nom / m);
    let tn = tn * (1.0 + nom.abs());
    let e = lib!("nom_eff_rate", fl::nom_eff_rate(nom, m));
    cx.close("nom_eff_rate", e, eff_w, te)?;
    let x = lib!("nom_exp_rate", fl::nom_exp_rate(nom, m));
    cx.close("nom_exp_rate", x, exp_w, tx)?;
    let y = lib!("eff_exp_rate", fl::eff_exp_rate(eff_w));
    cx.close("eff_exp_rate", y, exp_w, tx)?;
    let y = lib!("exp_eff_rate", fl::exp_eff_rate(exp_w));
    cx.close("exp_eff_rate", y, eff_w, te)?;
    let y = lib!("eff_nom_rate", fl::eff_nom_rate(eff_w, m));
    cx.close("eff_nom_rate", y, nom, tn)?;
    let y = lib!("exp_nom_rate", fl::exp_nom_rate(exp_w, m));
    cx.close("exp_nom_rate", y, nom, tn)?;
    // random chains of conversions
    #[derive(Clone, Copy, PartialEq)]
    enum F {
        N,
        E,
        X,
    }
    let start = cx.rng.pick(&[F::N, F::E, F::X]);
    let val = |f| match f {
        F::N => nom,
        F::E => eff_w,
        F::X => exp_w,
    };
    let tol = |f| match f {
        F::N => tn,
        F::E => te,
        F::X => tx,
    };
    let (mut f, mut v) = (start, val(start));
    let steps = cx.rng.int(1, 7);
    for i in 0..steps + 1 {
        let to = if i == steps { start } else { cx.rng.pick(&[F::N, F::E, F::X]) };
        v = match (f, to) {
            (F::N, F::E) => lib!("nom_eff_rate", fl::nom_eff_rate(v, m)),
            (F::N, F::X) => lib!("nom_exp_rate", fl::nom_exp_rate(v, m)),
            (F::E, F::N) => lib!("eff_nom_rate", fl::eff_nom_rate(v, m)),
            (F::E, F::X) => lib!("eff_exp_rate", fl::eff_exp_rate(v)),
            (F::X, F::N) => lib!("exp_nom_rate", fl::exp_nom_rate(v, m)),
            (F::X, F::E) => lib!("exp_eff_rate", fl::exp_eff_rate(v)),
            _ => v,
        };
        f = to;
        cx.close("chain of conversions", v, val(f), 10.0 * tol(f))?;
    }
    // accumulation
    let n = cx.rng.uni(0.0, 20.0);
    if (n * exp_w).abs() < 200.0 {
        cx.inp("horizon", n);
        let a = lib!("fvm", fl::fvm(nom, n, m, 1.0));
        let b = lib!("fv", fl::fv(e, n, 1.0));
        let c = lib!("fvc", fl::fvc(x, n, 1.0));
        let t = 1e-10 + (n + 1.0) * 2.0 * (te / (1.0 + eff_w) + tx) + 1e-15 * n * m * (1.0 + exp_w.abs());
        cx.rel("accumulation at effective rate", b, a, t)?;
        cx.rel("accumulation at exponential rate", c, a, t)?;
    }
    Ok(())
}

// ------------------------------------------------------------------ C05
fn c05(cx: &mut Cx) -> Res {
    let (r, m, k) = loop {
        let m = if cx.rng.chance(0.8) { cx.rng.ifreq() as f64 } else { cx.rng.mfreq() };
        let top = if cx.rng.chance(0.002) { 40_000 } else if cx.rng.chance(0.2) { 1500 } else { 120 };
        let k = if cx.rng.chance(0.1) { cx.rng.int(1, 3) } else { cx.rng.int(1, top) };
        let r = match cx.rng.below(8) {
            0 => 0.0,
            1 => cx.rng.sign() * cx.rng.log(1e-15, 1e-3),
            _ => cx.rng.rate(-0.9, 4.0),
        };
        let x = r / m;
        if x > -0.9 && (k as f64 * x.ln_1p()).abs() < 40.0 {
            break (r, m, k);
        }
    };
    let n = k as f64 / m;
    let (p, f) = (cx.rng.amount(), cx.rng.amount());
    let rel_amounts = cx.rng.chance(0.1);
    let f = if rel_amounts { p * cx.rng.sign() * cx.rng.pick(&[1.0, 1.0, m, k as f64]) } else { f };
    cx.tag_if(rel_amounts, "amounts related to one another");
    cx.inp("r,m,payments", (r, m, k));
    cx.inp("payment, terminal amount", (p, f));
    cx.trivial = p == 0.0 && f == 0.0;
    cx.tag_if(r == 0.0, "zero rate");
    cx.tag_if(r != 0.0 && (r / m).abs() < 1e-6, "vanishing rate");
    cx.tag_if(r < 0.0, "negative rate");
    cx.tag_if(k == 1, "single payment");
    let x = r / m;
    // payment by payment
    let (mut s, mut v) = (0.0, 1.0);
    for _ in 0..k {
        v /= 1.0 + x;
        s += v;
    }
    let rel = 1e-9 + 4e-15 / x.abs().max(1e-6) + 1e-15 * k as f64;
    let g = lib!("pv_annuity", fl::pv_annuity(r, n, m, p, f));
    let scale = p.abs() * s + f.abs() * v;
    cx.close("pv_annuity + discounted payments + terminal", g + p * s + f * v, 0.0, rel * scale)?;
    let a = if cx.rng.chance(0.1) { f * cx.rng.pick(&[1.0, -1.0, -1.0, 2.0, 0.5]) } else { cx.rng.amount() };
    cx.inp("present value for pmt", a);
    let q = lib!("pmt", fl::pmt(r, n, m, a, f));
    let qs = (a.abs() + f.abs() * v) / s;
    cx.close("pmt", q, -(a + f * v) / s, rel * qs)?;
    let b = lib!("pv_annuity(pmt)", fl::pv_annuity(r, n, m, q, f));
    cx.close("pv_annuity at the level payment", b, a, 3.0 * rel * (a.abs() + 2.0 * f.abs() * v))?;
    let b = lib!("pmt(pv_annuity)", fl::pmt(r, n, m, g, f));
    cx.close("pmt of the annuity value", b, p, 3.0 * rel * (scale + f.abs() * v) / s)
}

// ------------------------------------------------------------------ C06
pub fn flow_count(cx: &mut Cx) -> usize {
    if let Some(n) = cx.rng.very_long(1e-5, 100_000) {
        cx.tag("very long");
        return n as usize;
    }
    match cx.rng.below(10) {
        0 => cx.rng.below(2),
        1 => cx.rng.int(2, 3) as usize,
        2 => cx.rng.int(20, 300) as usize,
        3 if cx.thorough || cx.rng.chance(0.02) => cx.rng.int(300, 3000) as usize,
        _ => cx.rng.int(2, 20) as usize,
    }
}
fn npv_ref(r: f64, t: &[f64], c: &[f64], t0: f64) -> (f64, f64, f64) {
    // value, gross, tolerance
    let (mut s, mut g, mut tol) = (0.0, 0.0, 0.0);
    for (t, c) in t.iter().zip(c) {
        let x = c * grow(r, t0 - t);
        s += x;
        g += x.abs();
        tol += x.abs() * (gtol(r, t0.abs() + t.abs()));
    }
    (s, g, tol + g * 1e-13 * (1.0 + t.len() as f64 * 0.01))
}
fn c06(cx: &mut Cx) -> Res {
    let n = flow_count(cx);
    // rare far horizons (in periods) go with low rates, so that values stay in range
    let far = cx.rng.chance(0.12);
    let hor = if far { cx.rng.log(100.0, 5000.0) } else { 90.0 };
    let r = loop {
        let r = cx.rng.rate(-0.9, 5.0);
        if r.ln_1p().abs() < 225.0 / hor {
            break r;
        }
    };
    let style = if far { 5 } else { cx.rng.below(5) };
    let mut tim: Vec<f64> = (0..n)
        .map(|i| match style {
            0 => i as f64 % 90.0,
            1 => cx.rng.uni(-30.0, 60.0),
            2 => cx.rng.uni(0.0, 30.0),
            3 => cx.rng.int(0, 40) as f64,
            5 => {
                let t = cx.rng.uni(-0.4 * hor, hor);
                if n % 2 == 0 { t.round() } else { t }
            }
            _ => cx.rng.periods().clamp(-80.0, 90.0),
        })
        .collect();
    if style == 2 {
        tim.sort_by(|a, b| a.partial_cmp(b).unwrap());
    }
    let unit = match cx.rng.below(6) {
        0 => cx.rng.log(1e-12, 1e-2),
        1 => cx.rng.log(1e2, 1e12),
        _ => 1.0,
    };
    let one = cx.rng.chance(0.2).then(|| cx.rng.amount());
    let mut cf: Vec<f64> = (0..n).map(|_| unit * one.unwrap_or_else(|| cx.rng.amount())).collect();
    let co = cx.rng.coincide(0.15, &mut cf, false);
    cx.tag_if(co, "flows related to one another");
    let ct = cx.rng.coincide(0.05, &mut tim, false);
    if ct {
        tim.iter_mut().for_each(|t| *t = t.clamp(-0.4 * hor, hor));
    }
    cx.tag_if(ct, "times related to one another");
    let t0 = match cx.rng.below(20) {
        0..3 => 0.0,
        3 | 4 if n > 0 => tim[cx.rng.below(n)].clamp(-0.22 * hor, 0.44 * hor),
        _ => cx.rng.uni(-0.22, 0.44) * hor,
    };
    cx.inp("r,t0", (r, t0));
    cx.inp("times", tim.clone());
    cx.inp("flows", cf.clone());
    cx.trivial = n == 0;
    cx.tag_if(t0 != 0.0 && tim.contains(&t0), "reference at the time of a flow");
    cx.tag_if(n == 0, "no flows");
    cx.tag_if(n == 1, "one flow");
    cx.tag_if(n >= 100, "100 flows or more");
    cx.tag_if(far && n > 0, "horizon of 100 periods or more");
    cx.tag_if(n > 0 && cf.iter().all(|c| c.abs() < 1e-8), "every flow below 1e-8");
    cx.tag_if(one.is_some() && n > 1, "equal flows");
    cx.tag_if(tim.iter().any(|t| *t < 0.0), "flow before the reference");
    cx.tag_if(tim.windows(2).any(|w| w[0] > w[1]), "unordered flows");
    cx.tag_if(r < 0.0, "negative rate");
    cx.tag_if(r == 0.0, "zero rate");
    let (w, _, tol) = npv_ref(r, &tim, &cf, 0.0);
    let g0 = lib!("npv_t0", fl::npv_t0(r, &tim, &cf));
    cx.close("npv_t0", g0, w, tol)?;
    let (w, _, tolt) = npv_ref(r, &tim, &cf, t0);
    let g = lib!("npv", fl::npv(r, &tim, t0, &cf));
    cx.close("npv at t0", g, w, tolt)?;
    // additive, proportional
    let cg: Vec<f64> = (0..n).map(|_| cx.rng.amount()).collect();
    let sum: Vec<f64> = cf.iter().zip(&cg).map(|(a, b)| a + b).collect();
    let (a, b) = lib!("npv", (fl::npv(r, &tim, t0, &cg), fl::npv(r, &tim, t0, &sum)));
    let (_, _, t2) = npv_ref(r, &tim, &cg, t0);
    cx.close("npv additive in flows", b, g + a, 2.0 * (tolt + t2))?;
    let k = cx.rng.pick(&[2.0, -1.0, 1e-3, 1e3]);
    let kc: Vec<f64> = cf.iter().map(|c| c * k).collect();
    let a = lib!("npv", fl::npv(r, &tim, t0, &kc));
    cx.close("npv proportional to flows", a, k * g, 2.0 * tolt * k.abs())?;
    // reorder
    let mut o: Vec<usize> = (0..n).collect();
    cx.rng.shuffle(&mut o);
    let (t2, c2): (Vec<f64>, Vec<f64>) = o.iter().map(|&i| (tim[i], cf[i])).unzip();
    let a = lib!("npv", fl::npv(r, &t2, t0, &c2));
    cx.close("npv of reordered flows", a, g, 2.0 * tolt)?;
    // dated
    let d0 = if cx.rng.chance(0.8) { cx.rng.mdate() } else { cx.rng.date() };
    let mut dts: Vec<D> = (0..n)
        .map(|_| {
            let h = if far { (hor / 2.0) as i64 } else { 50 };
            let y = d0.year() as i64 + if cx.rng.chance(0.3) { cx.rng.int(-30, 0) } else { cx.rng.int(0, h) };
            cx.rng.date_in(y)
        })
        .collect();
    if n > 0 && cx.rng.chance(0.1) {
        // a flow on the reference date, or two on the same
        let i = cx.rng.below(n);
        dts[i] = if cx.rng.chance(0.5) { d0 } else { dts[cx.rng.below(n)] };
    }
    cx.tag_if(dts.contains(&d0), "flow on the reference date");
    cx.inp("reference date", d0);
    cx.inp("dates", dts.clone());
    let yt: Vec<f64> = dts.iter().map(|d| cal::us30360(d0, *d)).collect();
    let (w, _, tol) = npv_ref(r, &yt, &cf, 0.0);
    let g = lib!("xnpv", fl::xnpv(r, &dts, d0, &cf));
    cx.close("xnpv", g, w, tol)?;
    let d2: Vec<D> = o.iter().map(|&i| dts[i]).collect();
    let a = lib!("xnpv", fl::xnpv(r, &d2, d0, &c2));
    cx.close("xnpv of reordered flows", a, g, 2.0 * tol)
}

// ------------------------------------------------------------------ C07
fn c07_sound(cx: &mut Cx, what: &str, r: Option<f64>, t: &[f64], c: &[f64]) -> Res {
    let Some(r) = r else { return Ok(()) };
    cx.tag("rate reported");
    cx.that_with(r > -1.0, || format!("{what} reported a rate of {r:?}, not above -100 %"))?;
    let (mut s, mut g) = (0.0, 0.0);
    // scaled by the largest term, so that rates next to -100 % do not overflow
    let l = r.ln_1p();
    let mx = t.iter().zip(c).filter(|x| *x.1 != 0.0).map(|(t, c)| c.abs().ln() - t * l).fold(f64::NEG_INFINITY, f64::max);
    for (t, c) in t.iter().zip(c).filter(|x| *x.1 != 0.0) {
        let x = c.signum() * (c.abs().ln() - t * l - mx).exp();
        s += x;
        g += x.abs();
    }
    cx.that_with(s.abs() <= 1.01e-6 * g, || {
        format!("{what} reported {r:?}, where the NPV is {:.3e} of the gross discounted flows", s / g)
    })
}
fn c07(cx: &mut Cx) -> Res {
    let long = cx.rng.very_long(1e-5, 100_000);
    cx.tag_if(long.is_some(), "very long");
    let n = match cx.rng.below(8) {
        _ if long.is_some() => long.unwrap() as usize,
        0 => cx.rng.int(1, 2) as usize,
        1 if cx.rng.chance(0.05) => cx.rng.int(60, 600) as usize,
        1 => cx.rng.int(10, 60) as usize,
        _ => cx.rng.int(2, 9) as usize,
    };
    let unit = match cx.rng.below(8) {
        0 => cx.rng.log(1e-10, 1e-2),
        1 => cx.rng.log(1e2, 1e9),
        _ => 1.0,
    };
    let mode = cx.rng.below(4);
    let mag = cx.rng.uni(0.0, 7.0);
    let mut cf: Vec<f64> = (0..n)
        .map(|i| {
            let a = 10f64.powf(cx.rng.uni(0.0, mag));
            let a = unit * if cx.rng.chance(0.3) { a.round() } else { a };
            let a = if mode != 2 && cx.rng.chance(0.05) { 0.0 } else { a };
            match mode {
                0 => a,
                1 => -a,
                2 => if i == 0 { -a } else { a },
                _ => a * cx.rng.sign(),
            }
        })
        .collect();
    let co = cx.rng.coincide(0.15, &mut cf, mode != 3);
    cx.tag_if(co, "flows related to one another");
    let int = cx.rng.chance(0.5);
    let mut t = match cx.rng.below(4) {
        0 => cx.rng.uni(-12.0, 0.0),
        1 => cx.rng.uni(0.0, 3.0),
        _ => 0.0,
    };
    if int {
        t = t.floor();
    }
    let mut tim = vec![];
    for _ in 0..n {
        tim.push(t);
        t += if int { cx.rng.int(1, 2) as f64 } else { cx.rng.uni(0.0, 3.0) };
    }
    if cx.rng.chance(0.2) {
        cx.rng.shuffle(&mut tim);
    }
    cx.inp("times", tim.clone());
    cx.inp("flows", cf.clone());
    cx.tag_if(tim[0] < 0.0, "flows before time zero");
    cx.tag_if(n > 9, "10 flows or more");
    let r = lib!("irr", fl::irr(&tim, &cf));
    c07_sound(cx, "irr", r, &tim, &cf)?;
    cx.tag_if(unit < 1e-4, "tiny amounts");
    cx.tag_if(unit > 1e4, "huge amounts");
    if mode < 2 {
        cx.tag("all flows of one sign");
        cx.that_with(r.is_none(), || format!("irr reported {r:?} for flows of one sign"))?;
    }
    cx.tag_if(r.is_none(), "no rate reported");
    // dated
    let d0 = cx.rng.mdate();
    let ordered = cx.rng.chance(0.6);
    let dts: Vec<D> = (0..n)
        .map(|i| {
            if i == 0 {
                d0
            } else if ordered {
                let k = cx.rng.int(20, 500) * i as i64;
                d0 + chrono::Duration::days(k)
            } else {
                let y = d0.year() as i64 + cx.rng.int(-6, 10);
                cx.rng.date_in(y)
            }
        })
        .collect();
    cx.inp("dates", dts.clone());
    cx.tag_if(dts.iter().any(|d| *d < d0), "dates before the first listed");
    let yt: Vec<f64> = dts.iter().map(|d| cal::us30360(d0, *d)).collect();
    let x = lib!("xirr", fl::xirr(&dts, &cf));
    c07_sound(cx, "xirr", x, &yt, &cf)?;
    cx.tag_if(x.is_some(), "dated rate reported");
    if mode < 2 {
        cx.that_with(x.is_none(), || format!("xirr reported {x:?} for flows of one sign"))?;
    }
    // The iteration is chaotic far from a root, so XIRR and IRR are compared where it is not:
    // conventional flows with the root next to the start, on the same year fractions.
    if mode == 2 && ordered {
        let sh = cx.rng.uni(0.0, 0.4);
        let mut c = cf.clone();
        c[0] = -yt.iter().zip(&cf).skip(1).map(|(t, c)| c * grow(sh, -t)).sum::<f64>();
        if n > 1 && yt[1..].iter().all(|t| *t > 0.0 && *t < 30.0) {
            let (a, b) = lib!("irr, xirr", (fl::irr(&yt, &c), fl::xirr(&dts, &c)));
            cx.tag("xirr compared with irr");
            match (a, b) {
                (Some(a), Some(b)) => cx.close("xirr against irr on 30/360 times", b, a, 1e-6)?,
                (a, b) => cx.same("xirr against irr on 30/360 times", b, a)?,
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C08
fn c08(cx: &mut Cx) -> Res {
    let long = cx.rng.very_long(1e-5, 30_000);
    cx.tag_if(long.is_some(), "very long");
    let n = match cx.rng.below(6) {
        _ if long.is_some() => long.unwrap() as usize,
        0 => 1,
        1 if cx.rng.chance(0.05) => cx.rng.int(120, 500) as usize,
        1 => cx.rng.int(20, 120) as usize,
        _ => cx.rng.int(2, 12) as usize,
    };
    let big_r = match cx.rng.below(8) {
        0 => cx.rng.pick(&[0.0, 0.1, 0.05, 1.0, 0.5, 0.2, 0.01]),
        1 => cx.rng.log(1e-7, 1e-2),
        2 => cx.rng.uni(0.0999, 0.1001),
        3 => cx.rng.uni(0.5, 1.0),
        _ => cx.rng.uni(0.0, 0.6),
    };
    let dated = cx.rng.chance(0.5);
    let d0 = cx.rng.mdate();
    let hor = match cx.rng.below(4) {
        0 => 1.0,
        1 => 30.0,
        _ => cx.rng.uni(1.0, 30.0),
    };
    let t0 = 0.0;
    let int = cx.rng.chance(0.3);
    let mut dts = vec![d0];
    let mut tim = vec![t0];
    for _ in 0..n {
        if dated {
            let k = cx.rng.uni(if hor < 2.0 { 2.0 } else { 10.0 }, hor * 360.0 - 8.0) as i64;
            let d = d0 + chrono::Duration::days(k);
            tim.push(cal::us30360(d0, d));
            dts.push(d);
        } else {
            let mut t = t0 + cx.rng.uni(0.02, hor - t0.min(hor * 0.5));
            if int {
                t = t0 + (t - t0).ceil().max(1.0);
            }
            tim.push(t.min(30.0));
        }
    }
    // receipts of at least 1 unit; scale all if the outlay would be below 1
    let sp = cx.rng.uni(0.0, 4.0);
    let mut cf: Vec<f64> = (0..n).map(|_| 10f64.powf(cx.rng.uni(0.0, sp))).collect();
    let co = cx.rng.coincide(0.15, &mut cf, true);
    cf.iter_mut().for_each(|c| *c = c.max(1.0));
    cx.tag_if(co, "flows related to one another");
    let out: f64 = tim[1..].iter().zip(&cf).map(|(t, c)| c * grow(big_r, t0 - t)).sum();
    let s = (1.05 / out).max(1.0) * if cx.rng.chance(0.3) { cx.rng.log(1.0, 1e4) } else { 1.0 };
    cf.iter_mut().for_each(|c| *c *= s);
    let sg = if cx.rng.chance(0.25) { -1.0 } else { 1.0 };
    cf.insert(0, -out * s);
    cf.iter_mut().for_each(|c| *c *= sg);
    // order of the later flows does not matter
    let npv = |r: f64| tim.iter().zip(&cf).map(|(t, c)| c * grow(r, t0 - t)).sum::<f64>() * sg;
    let (mut lo, mut hi) = (-0.3, 1.6);
    if !(npv(lo) > 0.0 && npv(hi) < 0.0) {
        cx.trivial = true;
        return Ok(());
    }
    for _ in 0..80 {
        let m = 0.5 * (lo + hi);
        if npv(m) > 0.0 {
            lo = m
        } else {
            hi = m
        }
    }
    let root = 0.5 * (lo + hi);
    cx.inp("times", tim.clone());
    cx.inp("flows", cf.clone());
    cx.tag_if(sg < 0.0, "receipt first");
    cx.tag_if(n == 1, "single receipt");
    cx.tag_if(n >= 20, "20 receipts or more");
    cx.tag_if(big_r >= 0.5, "rate 50 % or more");
    cx.tag_if(big_r < 0.01, "rate below 1 %");
    cx.tag_if(tim.iter().any(|t| *t > 20.0), "horizon above 20");
    if dated {
        cx.inp("dates", dts.clone());
    }
    let solve = |cf: &Vec<f64>| -> Result<Option<f64>, Viol> {
        Ok(if dated { lib!("xirr", fl::xirr(&dts, cf)) } else { lib!("irr", fl::irr(&tim, cf)) })
    };
    let what = if dated { "xirr" } else { "irr" };
    let g = solve(&cf)?;
    let Some(g) = g else {
        return Err(Viol(format!("{what} found no rate, the true rate is {root}")));
    };
    cx.close(what, g, root, 1e-6)?;
    let k = cx.rng.pick(&[2.0, 10.0, 1000.0, 7.3, 1e6]);
    let kc: Vec<f64> = cf.iter().map(|c| c * k).collect();
    match solve(&kc)? {
        Some(x) => cx.close("rate of scaled flows", x, root, 1e-6)?,
        None => return Err(Viol(format!("{what} found no rate after scaling by {k}, true rate {root}"))),
    }
    let kc: Vec<f64> = cf.iter().map(|c| -c).collect();
    match solve(&kc)? {
        Some(x) => cx.close("rate of flows with reversed signs", x, root, 1e-6)?,
        None => return Err(Viol(format!("{what} found no rate after reversing signs, true rate {root}"))),
    }
    Ok(())
}

// ------------------------------------------------------------------ C09
const EVAL_CAP: usize = 20_000;
fn c09(cx: &mut Cx) -> Res {
    let mut xtol = if cx.rng.chance(0.5) { 1e-6 } else { cx.rng.log(1e-8, 1e-3) };
    enum Want {
        Root(f64),     // must be found
        None,          // nothing to find
        Sound,         // whatever is returned must be a root
    }
    let fam = cx.rng.below(16);
    let s = cx.rng.sign();
    let u = cx.rng.log(0.1, 100.0) * s; // vertical scale
    type Fx = Box<dyn Fn(f64) -> f64>;
    let (name, f, x0, want): (&'static str, Fx, f64, Want) = match fam {
        0 => {
            let a = cx.rng.sign() * cx.rng.log(1e-3, 1e3);
            // far roots only where the difference step is not lost beside them
            let h = if cx.rng.chance(0.2) { cx.rng.log(100.0, 1e8) } else { 100.0 };
            if h > 100.0 {
                xtol = xtol.max(1e-6);
                cx.tag("linear, far away");
            }
            let z = cx.rng.uni(-h, h);
            ("linear", Box::new(move |x| a * (x - z)), cx.rng.uni(-h, h), Want::Root(z))
        }
        1 => {
            let h = if cx.rng.chance(0.2) { cx.rng.log(1.0, 1e3) } else { 1.0 };
            let p = cx.rng.uni(-20.0, 20.0) * h;
            let q = p + cx.rng.uni(0.5, 20.0);
            let left = cx.rng.chance(0.5);
            let d = cx.rng.uni(0.0, 50.0) * h;
            ("quadratic", Box::new(move |x| u * (x - p) * (x - q)), if left { p - d } else { q + d }, Want::Root(if left { p } else { q }))
        }
        2 => {
            // far starts: every step takes off one k-th, so the way is long
            let far = cx.rng.chance(0.3);
            let k = if far { cx.rng.int(2, 14) } else { cx.rng.int(2, 5) };
            let z = if far { cx.rng.log(0.9, 5.0) } else { cx.rng.log(0.5, 5.0) };
            let c = z.powi(k as i32);
            let most = (70.0 * (k as f64 / (k as f64 - 1.0)).ln()).exp().min(1e4);
            let x0 = z * if far { cx.rng.log(1.0, most) } else { cx.rng.uni(1.0, 10.0) };
            cx.tag_if((x0 / z).ln() / (k as f64 / (k as f64 - 1.0)).ln() > 45.0, "more than 45 steps away");
            ("power", Box::new(move |x| u * (x.powi(k as i32) - c)), x0, Want::Root(z))
        }
        3 => {
            let z = cx.rng.uni(-2.0, 4.0);
            let c = z.exp();
            ("exponential", Box::new(move |x| u * (x.exp() - c)), z + if cx.rng.chance(0.3) { cx.rng.uni(0.0, 80.0) } else { cx.rng.uni(0.0, 20.0) }, Want::Root(z))
        }
        4 => {
            let z = cx.rng.uni(0.2, 20.0);
            let c = z.ln();
            ("logarithm", Box::new(move |x| u * (x.ln() - c)), z * cx.rng.uni(0.05, 1.0), Want::Root(z))
        }
        5 => {
            let z = cx.rng.uni(0.1, 10.0);
            let c = 1.0 / z;
            ("reciprocal", Box::new(move |x| u * (1.0 / x - c)), z * cx.rng.uni(0.05, 1.0), Want::Root(z))
        }
        6 => {
            // discount-like: sum of decreasing exponentials minus a constant
            let z = cx.rng.uni(0.0, 1.0);
            let (a, b) = (cx.rng.uni(0.5, 3.0), cx.rng.uni(3.0, 9.0));
            let c = (-a * z).exp() + (-b * z).exp();
            ("discount sum", Box::new(move |x| u * ((-a * x).exp() + (-b * x).exp() - c)), z - cx.rng.uni(0.0, 2.0), Want::Root(z))
        }
        7 => {
            let z = cx.rng.uni(-5.0, 5.0);
            ("cubic through one root", Box::new(move |x| u * ((x - z).powi(3) + (x - z))), z + cx.rng.uni(-0.3, 0.3), Want::Root(z))
        }
        8 => {
            let c = if cx.rng.chance(0.5) { cx.rng.log(1e-6, 0.05) } else { cx.rng.log(0.05, 100.0) };
            let z = cx.rng.uni(-10.0, 10.0);
            ("parabola above the axis", Box::new(move |x| u * ((x - z) * (x - z) + c)), cx.rng.uni(-30.0, 30.0), Want::None)
        }
        9 => {
            let c = if cx.rng.chance(0.5) { cx.rng.log(1e-7, 0.1) } else { cx.rng.uni(0.1, 10.0) };
            ("exponential above the axis", Box::new(move |x: f64| u * (x.exp() + c)), cx.rng.uni(-5.0, 10.0), Want::None)
        }
        10 => {
            let c = if cx.rng.chance(0.3) { cx.rng.sign() * cx.rng.log(1e-9, 1e-2) } else { cx.rng.amount_nz() };
            ("constant", Box::new(move |_| c), cx.rng.uni(-100.0, 100.0), Want::None)
        }
        11 => {
            // a slope below the flatness limit
            let (c, k) = if cx.rng.chance(0.5) { (cx.rng.log(1.0, 1e3) * s, 1e-13) } else { (cx.rng.log(1e-6, 1e-2) * s, cx.rng.sign() * cx.rng.log(1e-13, 3e-9)) };
            xtol = xtol.max(1e-7);
            ("flat slope", Box::new(move |x| c + k * x), cx.rng.uni(-100.0, 100.0), Want::None)
        }
        12 => ("not a number", Box::new(|_| f64::NAN), cx.rng.uni(-10.0, 10.0), Want::None),
        13 => ("logarithm left of its domain", Box::new(move |x: f64| u * (x.ln() - 1.0)), -cx.rng.uni(0.1, 10.0), Want::None),
        14 => {
            let (w, c) = (cx.rng.uni(0.3, 3.0), cx.rng.uni(-0.9, 0.9));
            ("sine", Box::new(move |x: f64| u * ((w * x).sin() - c)), cx.rng.uni(-10.0, 10.0), Want::Sound)
        }
        _ => {
            let (a, b, c) = (cx.rng.uni(-5.0, 5.0), cx.rng.uni(-5.0, 5.0), cx.rng.uni(-5.0, 5.0));
            ("cubic with turning points", Box::new(move |x| u * (x - a) * (x - b) * (x - c)), cx.rng.uni(-10.0, 10.0), Want::Sound)
        }
    };
    cx.inp("family", name);
    cx.inp("vertical scale, start, xtol", (u, x0, xtol));
    cx.tag(name);
    // trace of every evaluation the solver makes
    let trace: RefCell<(usize, f64)> = RefCell::new((0, f64::NAN));
    let probe = |x: f64| {
        let mut t = trace.borrow_mut();
        t.0 += 1;
        t.1 = x;
        if t.0 > EVAL_CAP {
            panic!("more than {EVAL_CAP} evaluations");
        }
        f(x)
    };
    let g = guarded(|| fl::newt_raph(&probe, x0, xtol));
    let n = trace.borrow().0;
    let g = g.map_err(|p| Viol(format!("newt_raph on {name} panicked after {n} evaluations: {p}")))?;
    cx.checks += 1;
    if let Want::Root(z) = want {
        cx.sig = cx.sig.wrapping_add(z.to_bits());
        let Some(r) = g else {
            return Err(Viol(format!("no root of {name} found from {x0} (root {z}, {n} evaluations)")));
        };
        cx.tag("root found");
        return cx.close(format_args!("root of {name}"), r, z, 1e-6 * (1.0 + z.abs() * 0.01));
    }
    let Some(r) = g else {
        cx.tag("nothing returned");
        return Ok(());
    };
    match want {
        Want::None => Err(Viol(format!("returned {r:?} for {name}, which has no root"))),
        _ => {
            // a root within 1e-6: sign change, or a touching root
            let d = 1e-6 * (1.0 + r.abs());
            let (a, b) = (f(r - d), f(r + d));
            let slope = ((b - a) / (2.0 * d)).abs();
            let curv = ((a - 2.0 * f(r) + b) / (d * d)).abs();
            let ok = a * b <= 0.0 || f(r).abs() <= 1e-6 * slope + 1e-12 * curv.max(u.abs());
            cx.tag("sound root");
            cx.that_with(ok, || format!("{r:?} returned for {name}, no root within 1e-6: f = {:?}", f(r)))
        }
    }
}

// ------------------------------------------------------------------ C35
fn c35(cx: &mut Cx) -> Res {
    let x = match cx.rng.below(8) {
        0 => 0.0,
        1 => cx.rng.sign() * cx.rng.log(1e-10, 1e-6),
        2 => cx.rng.sign() * cx.rng.log(1e-300, 1e300),
        3 => f64::NAN,
        4 => cx.rng.sign() * cx.rng.uni(0.9e-8, 1.1e-8),
        5 if cx.rng.chance(0.3) => cx.rng.sign() * cx.rng.pick(&[1e-8, 1e-8f64.next_up(), 1e-8f64.next_down(), 5e-324, 1e-6, 1.0]),
        _ => cx.rng.amount(),
    };
    let y = match cx.rng.below(9) {
        0 => x,
        1 => -x,
        2 => f64::NAN,
        3 => x * (1.0 + cx.rng.sign() * cx.rng.log(1e-9, 1e-3)),
        4 => x * (1.0 + cx.rng.sign() * cx.rng.uni(0.9e-6, 1.1e-6)),
        5 => cx.rng.sign() * cx.rng.log(1e-10, 1e-6),
        6 => 0.0,
        7 => x + cx.rng.sign() * cx.rng.log(1e-9, 1e-7),
        _ => cx.rng.amount(),
    };
    cx.inp("x,y", (x, y));
    let (a, b) = lib!("approx", (fl::approx(x, y), fl::approx(y, x)));
    cx.same("approx(x,y) and approx(y,x)", a, b)?;
    if x.is_nan() || y.is_nan() {
        cx.tag("NaN");
        cx.same("approx with NaN", a, false)?;
    } else {
        let g = lib!("approx", fl::approx(x, x));
        cx.same("approx(x,x)", g, true)?;
        let inf = cx.rng.sign() * f64::INFINITY;
        let g = lib!("approx", (fl::approx(x, inf), fl::approx(inf, x), fl::approx(-inf, inf)));
        cx.same("approx with one infinite side, approx(-inf, inf)", g, (false, false, false))?;
        let mx = x.abs().max(y.abs());
        let q = (x - y).abs() / mx;
        let edge = (mx != 1e-8 && (mx / 1e-8 - 1.0).abs() < 1e-9) || (mx >= 1e-8 && (q / 1e-6 - 1.0).abs() < 1e-6);
        if !edge {
            let want = mx < 1e-8 || q < 1e-6;
            cx.tag_if(want && mx >= 1e-8 && x != y, "close values");
            cx.tag_if(want && mx < 1e-8 && x != y, "both tiny");
            cx.tag_if(!want && q < 2e-6, "just apart");
            cx.tag_if(!want && mx < 2e-8, "just not tiny");
            cx.same("approx", a, want)?;
        }
    }
    let g = lib!("is_zero", fl::is_zero(x));
    cx.same("is_zero", g, x.abs() < 1e-8)?;
    cx.tag_if(x.abs() == 1e-8, "exactly the limit of the zero test");
    if x.is_nan() {
        let g = lib!("is_zero", fl::is_zero(x));
        cx.same("is_zero(NaN)", g, false)?;
    }
    Ok(())
}

pub static PROPS: &[Prop] = &[
    Prop {
        id: "C01",
        rule: "structured: every pair of the 27th..31st, 1st and 15th of all months of 10 normal, leap and century years; random: date pairs by year class (century, leap, far, modern) and position (month end, February end, year end, same day, neighbouring, reversed), 8 per case, 5 conventions each. Distinct by dates.",
        fixed: (830, 830),
        random: (8_000_000, 104_000_000),
        need: &["reversed dates", "equal dates", "both February end", "start February end", "end February end", "31 to 31", "30 to 31", "early day to 31", "31 to early day", "leap and normal end years", "act/act counted day by day"],
        case: c01,
        assumptions: &["ACT/ACT counts the days after the start date up to and including the end date, as the documented formula through decimal years does"],
    },
    Prop {
        id: "C02",
        rule: "structured: every day of consecutive years (quick 1500..2499, thorough -262142..262141); random: whole years of the supported range and decimal years near and away from year boundaries. Distinct by year or decimal year.",
        fixed: (1000, 524_284),
        random: (1_600_000, 166_800_000),
        need: &["whole year walked day by day", "decimal year near a year boundary"],
        case: c02,
        assumptions: &[],
    },
    Prop {
        id: "C03",
        rule: "random rates (zero, vanishing, negative, typical, high), periods (zero, negative, fractional, long), frequencies, amounts and date pairs; closed forms by exp/ln_1p, inverses, proportionality and factor chains. Trivial when amount and periods are zero. Distinct by inputs.",
        fixed: (0, 0),
        random: (12_000_000, 243_000_000),
        need: &["zero rate", "negative rate", "negative periods", "fractional periods", "zero periods", "fractional frequency", "daily compounding", "dated, reversed", "dated, day 31", "dated, February end"],
        case: c03,
        assumptions: &["exponents are limited so that results neither overflow nor vanish"],
    },
    Prop {
        id: "C04",
        rule: "random nominal rates and frequencies, closed forms by ln_1p/exp_m1, random conversion chains of 1..8 steps, accumulation over a random horizon. Distinct by inputs.",
        fixed: (0, 0),
        random: (12_000_000, 357_000_000),
        need: &["zero rate", "negative rate", "m = 1", "m < 1", "daily"],
        case: c04,
        assumptions: &[],
    },
    Prop {
        id: "C05",
        rule: "random rates (zero and vanishing included), 1..1500 payments, frequencies, amounts; oracle sums payment by payment. Trivial when both amounts are zero. Distinct by inputs.",
        fixed: (0, 0),
        random: (12_000_000, 312_000_000),
        need: &["zero rate", "vanishing rate", "negative rate", "single payment"],
        case: c05,
        assumptions: &["tolerance grows with the rounding of 1 + rate/m: 4e-15 m/rate"],
    },
    Prop {
        id: "C06",
        rule: "random vectors of 0..300 (thorough 3000) flows, any order, before and after the reference; oracle sums flow by flow, plus additivity, proportionality, reordering and dated versions. Trivial without flows. Distinct by inputs.",
        fixed: (0, 0),
        random: (3_200_000, 62_400_000),
        need: &["very long", "no flows", "one flow", "100 flows or more", "horizon of 100 periods or more", "flow before the reference", "every flow below 1e-8", "equal flows", "unordered flows", "negative rate", "zero rate"],
        case: c06,
        assumptions: &[],
    },
    Prop {
        id: "C07",
        rule: "random flow vectors: one sign, conventional, arbitrary signs; times and dates before and after the first, integer and fractional, unordered. Every reported rate is put into an independent NPV. Distinct by inputs.",
        fixed: (0, 0),
        random: (3_000_000, 37_500_000),
        need: &["very long", "rate reported", "no rate reported", "tiny amounts", "huge amounts", "dated rate reported", "all flows of one sign", "flows before time zero", "dates before the first listed", "xirr compared with irr", "10 flows or more"],
        case: c07,
        assumptions: &[],
    },
    Prop {
        id: "C08",
        rule: "random conventional investments and borrowings built from a true rate in [0,1], horizon up to 30, 1..120 later flows, dated or in periods, scaled and sign-reversed; oracle is bisection on an independent NPV. Trivial when bisection cannot bracket. Distinct by inputs.",
        fixed: (0, 0),
        random: (2_000_000, 30_000_000),
        need: &["very long", "receipt first", "single receipt", "20 receipts or more", "rate 50 % or more", "rate below 1 %", "horizon above 20"],
        case: c08,
        assumptions: &[],
    },
    Prop {
        id: "C09",
        rule: "16 function families with known roots or none, random parameters, start points and tolerances; every evaluation is counted and traced through the closure. Distinct by family and parameters.",
        fixed: (0, 0),
        random: (12_000_000, 396_000_000),
        need: &["linear", "linear, far away", "quadratic", "power", "more than 45 steps away", "exponential", "logarithm", "reciprocal", "discount sum", "cubic through one root", "parabola above the axis", "exponential above the axis", "constant", "flat slope", "not a number", "logarithm left of its domain", "sine", "cubic with turning points", "root found", "nothing returned", "sound root"],
        case: c09,
        assumptions: &["20000 evaluations count as unbounded (the code needs at most 200)"],
    },
    Prop {
        id: "C35",
        rule: "random pairs: equal, opposite, tiny, near the relative and absolute limits, NaN. Distinct by pair.",
        fixed: (0, 0),
        random: (32_000_000, 464_000_000),
        need: &["NaN", "close values", "both tiny", "just apart", "just not tiny", "exactly the limit of the zero test"],
        case: c35,
        assumptions: &["pairs within 1e-6 relative of the limit itself are not judged"],
    },
];
