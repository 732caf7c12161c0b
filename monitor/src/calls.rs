//! C34: the list of calls. A call is (family, group, variant): the variant changes one argument of
//! the group's base arguments, so that results remembered under too few arguments show up.
use crate::core::{guarded, Rng};
use crate::model::*;
use chrono::{Datelike, Duration, NaiveDate as D};
use financelib::fixedincomes::bonds::rates::{RateCurve, Rates};
use financelib::fixedincomes::bonds::{CouponBond, FloatingRateNotes};
use financelib::fixedincomes::moneymarkets as mm;
use financelib::statements::*;
use financelib::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub struct Args {
    seed: u64,
    group: u64,
    variant: Option<(u64, u64)>, // argument changed, how
    next: u64,
}
/// Ways to change one argument; what each means depends on the kind of argument
const HOWS: u64 = 12;
impl Args {
    pub fn new(seed: u64, fam: u64, group: u64, variant: u64, nargs: u64) -> Args {
        let v = if variant == 0 {
            None
        } else {
            // consecutive variants walk over the arguments, changing them in different ways
            let mut r = Rng::new(seed ^ 0xABCD, fam * 4096 + group, variant);
            Some((if variant <= nargs { variant - 1 } else { r.u64() % nargs }, r.u64() % HOWS))
        };
        Args { seed: seed ^ fam.wrapping_mul(0x5851_F42D_4C95_7F2D), group, variant: v, next: 0 }
    }
    /// generator of the next argument, how to change it (0: not at all, 1: drawn again) and one for the change
    fn rng(&mut self) -> (Rng, u64, Rng) {
        let k = self.next;
        self.next += 1;
        let other = |s: u64| Rng::new(self.seed ^ (s << 40), self.group, k);
        match self.variant {
            Some((j, s)) if j == k && s < 2 => (other(s + 1), 1, other(50)),
            Some((j, s)) if j == k => (other(0), s, other(50 + s)),
            // exchanged with the following argument
            Some((j, 11)) if j + 1 == k => (Rng::new(self.seed, self.group, k - 1), 11, other(0)),
            _ => (other(0), 0, other(50)),
        }
    }
    fn f(&mut self, a: f64, b: f64) -> f64 {
        let (mut r, how, mut q) = self.rng();
        let draw = |r: &mut Rng| {
            let x = if r.chance(0.3) { (r.uni(a, b) * 200.0).round() / 200.0 } else { r.uni(a, b) };
            x.clamp(a, b)
        };
        if how == 11 {
            // both exchanged arguments draw from the other's generator
            let mut z = Rng::new(self.seed, self.group, if self.variant.is_some_and(|v| v.0 + 1 == self.next) { self.next } else { self.next - 2 });
            return draw(&mut z);
        }
        let x = draw(&mut r);
        let near = |y: f64| if (a..=b).contains(&y) { y } else { 2.0 * x - y };
        match how {
            2 => x + (b - a) * 1e-7,
            3 => near(x.trunc() + q.f() * if x < 0.0 { -1.0 } else { 1.0 }), // same integer part
            4 => near((x * 100.0).trunc() / 100.0 + q.uni(0.0, 0.0099)),     // same two decimals
            5 => near((x * 1e4).trunc() / 1e4 + q.uni(0.0, 0.000099)),       // same four decimals
            6 if a < 0.0 => -x,
            7 => near(x * (1.0 + 1e-12)),
            8 => near(if x.abs() < 1e-9 { q.uni(a, b) } else { x * 2.0 }), // same digits, other exponent
            9 => near(x + 1.0),                                            // same fraction
            10 => near(f64::from_bits(x.to_bits() ^ 1 << (20 + q.u64() % 12))), // same as a 32 bit float
            _ => x,
        }
    }
    fn of(&mut self, v: &[f64]) -> f64 {
        let (mut r, how, mut q) = self.rng();
        let k = r.below(v.len());
        v[if how > 1 { (k + 1 + q.below(v.len().max(2) - 1)) % v.len() } else { k }]
    }
    /// payments a year, also uneven ones
    fn freq(&mut self) -> f64 {
        let (mut r, how, mut q) = self.rng();
        let x = if r.chance(0.3) { r.uni(0.3, 14.0) } else { r.pick(M) };
        match how {
            0 | 1 => x,
            2..=5 => x.trunc().max(0.3) + q.uni(0.0, 0.9), // same integer part
            6 | 7 => q.pick(M),
            _ => x * 2.0,
        }
    }
    fn i(&mut self, a: i64, b: i64) -> i64 {
        let (mut r, how, mut q) = self.rng();
        let x = r.int(a, b);
        match how {
            0 | 1 => x,
            2..=6 => if x < b { x + 1 } else { a },
            7 | 8 => if x > a { x - 1 } else { b },
            _ => q.int(a, b),
        }
    }
    fn d(&mut self) -> D {
        let (mut r, how, mut q) = self.rng();
        let x = r.mdate();
        let y = x.year();
        match how {
            0 | 1 => x,
            2 | 3 => x + Duration::days(1),
            4 => x - Duration::days(1),
            5 => q.date_in(y as i64), // same year
            6 | 7 => (1..9).find_map(|k| x.with_year(y + k)).unwrap_or(x), // same day and month
            8 => (1..12).find_map(|k| x.with_month((x.month0() + k) % 12 + 1)).unwrap_or(x), // same day and year
            9 => x.with_day(1 + q.below(28) as u32).unwrap(), // same month
            10 => x + Duration::days(7 * q.int(1, 60)),      // same weekday
            _ => x + Duration::days(if q.chance(0.5) { 65536 } else { 256 }),
        }
    }
    fn fs(&mut self, n: usize, a: f64, b: f64) -> Vec<f64> {
        (0..n).map(|_| self.f(a, b)).collect()
    }
    fn item<T: Item>(&mut self) -> T {
        let (mut r, how, mut q) = self.rng();
        let k = r.below(T::all().len());
        let n = match how {
            0 | 1 => 0,
            2..=6 => 1,
            _ => q.below(T::all().len()),
        };
        T::all()[(k + n) % T::all().len()].0
    }
    fn entered<T: Item>(&mut self) -> T {
        let (mut r, how, mut q) = self.rng();
        let e = T::entered();
        let k = r.below(e.len());
        let n = match how {
            0 | 1 => 0,
            2..=6 => 1,
            _ => q.below(e.len()),
        };
        e[(k + n) % e.len()]
    }
    /// whole statement; changes touch one or two amounts of it
    fn map<T: Item>(&mut self) -> Map<T> {
        let (mut r, how, mut q) = self.rng();
        let m = r.pick(&[Mag::Whole, Mag::Cents]);
        let mut x: Map<T> = statement(&mut r, m);
        change_map(&mut x, how, &mut q);
        x
    }
    fn ledger(&mut self) -> Accounts {
        let (mut r, how, mut q) = self.rng();
        let mut a = ledger(&mut r, &LedgerOpts { periods: 4, mag: Mag::Whole, rates: true });
        let k = q.u64() as usize;
        let h = 2 + q.u64() % 7;
        match how {
            0 | 1 => (),
            2..=4 => {
                let n = a.profit_loss.len();
                if let Some(p) = a.profit_loss.values_mut().nth(k % n.max(1)) {
                    change_map(p, h, &mut q)
                }
            }
            5 | 6 => {
                let n = a.balance_sheet.len();
                if let Some(p) = a.balance_sheet.values_mut().nth(k % n.max(1)) {
                    change_map(p, h, &mut q)
                }
            }
            7 | 8 => {
                let n = a.others.len();
                if let Some(p) = a.others.values_mut().nth(k % n.max(1)) {
                    let t = q.pick(&[FinOthersTyp::CorporateTaxRate, FinOthersTyp::GrossProfitTaxRate, FinOthersTyp::RevenueTaxRate]);
                    *p.entry(t).or_insert(0.0) += 0.01;
                }
            }
            9 => {
                let n = a.cash_flow.len();
                if let Some(p) = a.cash_flow.values_mut().nth(k % n.max(1)) {
                    change_map(p, h, &mut q)
                }
            }
            _ => {
                // all dates moved
                let s = Duration::days(if how == 10 { 1 } else { 365 });
                a.dates = a.dates.iter().map(|d| *d + s).collect();
                a.balance_sheet = std::mem::take(&mut a.balance_sheet).into_iter().map(|(d, v)| (d + s, v)).collect();
                a.profit_loss = std::mem::take(&mut a.profit_loss).into_iter().map(|(d, v)| ((d.0 + s, d.1 + s), v)).collect();
                a.cash_flow = std::mem::take(&mut a.cash_flow).into_iter().map(|(d, v)| ((d.0 + s, d.1 + s), v)).collect();
                a.others = std::mem::take(&mut a.others).into_iter().map(|(d, v)| ((d.0 + s, d.1 + s), v)).collect();
            }
        }
        a
    }
}
/// Same statement but for a detail
fn change_map<T: Item>(x: &mut Map<T>, how: u64, q: &mut Rng) {
    let e = T::entered();
    let mut ks: Vec<T> = x.keys().copied().collect();
    ks.sort();
    match how {
        0 | 1 => (),
        2 | 3 => *x.entry(e[q.below(e.len())]).or_insert(0.0) += 1.0,
        4 if !ks.is_empty() => *x.get_mut(&ks[q.below(ks.len())]).unwrap() += 0.01,
        5 if ks.len() > 1 => {
            // two amounts exchanged
            let (i, j) = (q.below(ks.len()), q.below(ks.len()));
            let (v, w) = (x[&ks[i]], x[&ks[j]]);
            x.insert(ks[i], w);
            x.insert(ks[j], v);
        }
        6 if !ks.is_empty() => {
            // one amount moved to another item
            let v = x.remove(&ks[q.below(ks.len())]).unwrap();
            *x.entry(e[q.below(e.len())]).or_insert(0.0) += v;
        }
        7 => x.values_mut().for_each(|v| *v += 1.0),
        8 => x.values_mut().for_each(|v| *v = -*v),
        9 if !ks.is_empty() => drop(x.remove(&ks[q.below(ks.len())])),
        10 if !ks.is_empty() => *x.get_mut(&ks[0]).unwrap() += 5.0,
        11 if !ks.is_empty() => *x.get_mut(&ks[ks.len() - 1]).unwrap() += 5.0,
        _ => *x.entry(e[q.below(e.len())]).or_insert(0.0) += 3.0,
    }
}

#[derive(Clone, PartialEq, Debug, Default)]
pub struct Out {
    pub nums: Vec<f64>,
    pub text: String,
}
impl Out {
    fn n(mut self, x: f64) -> Out {
        self.nums.push(x);
        self
    }
    fn t(mut self, x: impl std::fmt::Display) -> Out {
        use std::fmt::Write;
        let _ = write!(self.text, "{x};");
        self
    }
    fn v(mut self, x: &[f64]) -> Out {
        self = self.t(x.len());
        self.nums.extend(x);
        self
    }
    fn o(self, x: Option<f64>) -> Out {
        match x {
            Some(x) => self.n(x),
            None => self.t("None"),
        }
    }
    fn m<K: Copy + Ord + std::fmt::Debug>(mut self, x: &HashMap<K, f64>) -> Out {
        let b: BTreeMap<K, f64> = x.iter().map(|(k, v)| (*k, *v)).collect();
        for (k, v) in b {
            self = self.t(format_args!("{k:?}")).n(v);
        }
        self
    }
    fn om<K: Copy + Ord + std::fmt::Debug>(self, x: &Option<HashMap<K, f64>>) -> Out {
        match x {
            Some(x) => self.m(x),
            None => self.t("None"),
        }
    }
    fn rep(self, r: &FinancialReport) -> Out {
        self.t(format_args!("{:?}", r.period)).om(&r.balance_sheet_beg).om(&r.balance_sheet_end).om(&r.profit_loss).om(&r.cash_flow).om(&r.others)
    }
    fn acc(mut self, a: &Accounts) -> Out {
        self = self.t(format_args!("{:?} {} {:?}", a.currency, a.consolidated, a.dates));
        for (k, v) in &a.balance_sheet {
            self = self.t(k).m(v);
        }
        for (k, v) in &a.profit_loss {
            self = self.t(format_args!("P{k:?}")).m(v);
        }
        for (k, v) in &a.cash_flow {
            self = self.t(format_args!("C{k:?}")).m(v);
        }
        for (k, v) in &a.others {
            self = self.t(format_args!("O{k:?}")).m(v);
        }
        self
    }
    fn curve(self, c: &RateCurve) -> Out {
        match c {
            RateCurve::NominalRateCurve { rate, freq } => self.t("N").v(rate).n(*freq),
            RateCurve::EffectiveRateCurve { rate, freq } => self.t("E").v(rate).n(*freq),
            RateCurve::ExponentialRateCurve { rate, freq } => self.t("X").v(rate).n(*freq),
        }
    }
    /// same result, bit by bit (Miri rounds powers and exponentials at random)
    pub fn same(&self, o: &Out) -> Result<(), String> {
        if self.text != o.text {
            let k = self.text.bytes().zip(o.text.bytes()).take_while(|x| x.0 == x.1).count();
            let cut = |s: &str| s.chars().skip(k.saturating_sub(40)).take(120).collect::<String>();
            return Err(format!("text differs: {:?} instead of {:?}", cut(&self.text), cut(&o.text)));
        }
        if self.nums.len() != o.nums.len() {
            return Err(format!("{} numbers instead of {}", self.nums.len(), o.nums.len()));
        }
        let g: f64 = o.nums.iter().filter(|x| x.is_finite()).map(|x| x.abs()).sum();
        for (i, (a, b)) in self.nums.iter().zip(&o.nums).enumerate() {
            let ok = a == b || (a.is_nan() && b.is_nan()) || (cfg!(miri) && (a - b).abs() <= 1e-12 * b.abs() + 1e-14 * g);
            if !ok {
                return Err(format!("number {i} of {} is {a:?} instead of {b:?}", o.nums.len()));
            }
        }
        Ok(())
    }
}

fn o() -> Out {
    Out::default()
}
fn per(a: &mut Args) -> (D, D) {
    let d = a.d();
    (d, d + Duration::days(a.i(-400, 9000)))
}
fn basis(a: &mut Args) -> DayCountConvention {
    match a.i(0, 4) {
        0 => DayCountConvention::US30360,
        1 => DayCountConvention::EU30360,
        2 => DayCountConvention::ACTACT,
        3 => DayCountConvention::ACT360,
        _ => DayCountConvention::ACT365,
    }
}
const M: &[f64] = &[1.0, 2.0, 4.0, 12.0, 52.0, 365.0];
fn flows(a: &mut Args) -> (Vec<f64>, Vec<f64>) {
    let n = match a.i(0, 11) {
        0 => 1,
        1 => a.i(8, 40) as usize,
        _ => a.i(2, 7) as usize,
    };
    let mut t = vec![0.0];
    // now and then no change of sign, so that a search for a rate fails
    let s = if a.i(0, 4) == 0 { 1.0 } else { -1.0 };
    let mut c = vec![s * a.f(100.0, 5000.0)];
    for _ in 1..n {
        t.push(t[t.len() - 1] + a.f(0.2, 2.0));
        c.push(a.f(20.0, 3000.0));
    }
    (t, c)
}
fn dflows(a: &mut Args) -> (Vec<D>, Vec<f64>) {
    let d = a.d();
    let (t, c) = flows(a);
    (t.iter().map(|x| d + Duration::days((x * 365.0) as i64)).collect(), c)
}
fn bond(a: &mut Args) -> CouponBond {
    let freq = a.of(&[1.0, 2.0, 4.0, 12.0]);
    CouponBond { par: a.of(&[100.0, 1000.0, 1e6]), c: a.f(0.0, 0.15), freq, t_life: a.i(1, 120) as f64 / freq }
}
fn frn(a: &mut Args) -> FloatingRateNotes {
    let freq = a.of(&[1.0, 2.0, 4.0, 12.0]);
    FloatingRateNotes { par: a.of(&[100.0, 1000.0, 1e6]), quoted_margin: a.f(0.0, 0.05), freq, t_life: a.i(1, 60) as f64 / freq }
}
fn rc(a: &mut Args) -> (RateCurve, usize, f64) {
    let freq = a.of(&[1.0, 2.0, 4.0]);
    let n = a.i(2, 8) as usize;
    let mut rate = vec![a.f(0.0, 0.1)];
    for _ in 1..n {
        rate.push(a.f(0.0, 0.1));
    }
    let c = match a.i(0, 2) {
        0 => RateCurve::NominalRateCurve { rate, freq },
        1 => RateCurve::EffectiveRateCurve { rate, freq },
        _ => RateCurve::ExponentialRateCurve { rate, freq },
    };
    (c, n, freq)
}
fn report(a: &mut Args) -> FinancialReport {
    let p = per(a);
    let mut x = FinancialReport {
        period: p,
        balance_sheet_beg: Some(a.map()),
        balance_sheet_end: Some(a.map()),
        profit_loss: Some(a.map()),
        cash_flow: Some(a.map()),
        others: Some(HashMap::from([
            (FinOthersTyp::CorporateTaxRate, a.f(0.0, 0.4)),
            (FinOthersTyp::GrossProfitTaxRate, a.f(0.0, 0.1)),
            (FinOthersTyp::RevenueTaxRate, a.f(0.0, 0.05)),
        ])),
    };
    match a.i(0, 7) {
        0 => x.balance_sheet_beg = None,
        1 => x.balance_sheet_end = None,
        2 => x.cash_flow = None,
        _ => (),
    }
    x
}
fn fin<T: Item>(a: &mut Args, how: u8) -> Out
where
    Map<T>: FinMaps<Key = T>,
{
    let mut m: Map<T> = a.map();
    match how {
        0 => {
            m.calc_elements();
        }
        1 => {
            m.calc_elements();
            *m.entry(a.item()).or_insert(0.0) += 7.0;
            m.calc_elements();
        }
        2 => {
            m.calc_elements();
            m.remove_calc_clean();
        }
        3 => {
            m.insert(a.item(), a.f(-2e-5, 2e-5));
            m.clean();
        }
        4 => {
            let (k, v): (T, f64) = (a.item(), a.f(-100.0, 100.0));
            m.add(k, v); // fails for totals
        }
        5 => {
            let (k, v): (T, f64) = (a.item(), a.f(-100.0, 100.0));
            m.upsert(k, v);
        }
        6 => {
            let k: T = a.item();
            return o().n(m.value(k)).t(k.is_calc());
        }
        _ => {
            m.calc_elements();
            m = m.common_size(); // fails when the base is missing
        }
    }
    o().m(&m)
}

pub struct Fam {
    pub name: &'static str,
    pub nargs: u64,
    /// 0 cheap .. 3 ledger sized
    pub cost: u8,
    /// uses the lazily built tables
    pub lazy: bool,
    pub f: fn(&mut Args) -> Out,
}
macro_rules! fams {
    ($($name:literal $n:literal $c:literal $l:literal |$a:ident| $e:expr;)*) => {
        &[ $(Fam { name: $name, nargs: $n, cost: $c, lazy: $l, f: |$a| $e }),* ]
    };
}
pub const FAMS: &[Fam] = fams![
    "is_leap_year" 1 0 false |a| o().t(is_leap_year(a.i(1600, 2400) as i32));
    "days_in_year" 1 0 false |a| o().t(days_in_year(a.i(1600, 2400) as i32));
    "date_to_float" 1 0 false |a| o().n(date_to_float(a.d()));
    "date_from_float" 1 0 false |a| o().t(date_from_float(a.f(1900.0, 2100.0)));
    "yearfrac" 3 0 false |a| { let p = per(a); o().n(yearfrac(p.0, p.1, basis(a))) };
    "yrfrac" 2 0 false |a| o().n(yrfrac(per(a)));
    "dis_fact_annual" 1 0 false |a| o().n(dis_fact_annual(a.f(-0.5, 1.0)));
    "dis_fact" 2 0 false |a| o().n(dis_fact(a.f(-0.5, 1.0), a.f(0.0, 40.0)));
    "xdis_fact" 3 0 false |a| o().n(xdis_fact(a.f(-0.5, 1.0), per(a)));
    "fwd_dis_fact" 4 0 false |a| o().n(fwd_dis_fact((a.f(-0.1, 0.3), a.f(0.0, 9.0)), (a.f(-0.1, 0.3), a.f(0.0, 9.0))));
    "pv" 3 0 false |a| o().n(pv(a.f(-0.5, 1.0), a.f(0.0, 40.0), a.f(-1e4, 1e4)));
    "xpv" 4 0 false |a| o().n(xpv(a.f(-0.5, 1.0), per(a), a.f(-1e4, 1e4)));
    "pvm" 4 0 false |a| o().n(pvm(a.f(-0.5, 1.0), a.f(0.0, 40.0), a.freq(), a.f(-1e4, 1e4)));
    "pvc" 3 0 false |a| o().n(pvc(a.f(-0.5, 1.0), a.f(0.0, 40.0), a.f(-1e4, 1e4)));
    "fv" 3 0 false |a| o().n(fv(a.f(-0.5, 1.0), a.f(0.0, 40.0), a.f(-1e4, 1e4)));
    "xfv" 4 0 false |a| o().n(xfv(a.f(-0.5, 1.0), per(a), a.f(-1e4, 1e4)));
    "fvm" 4 0 false |a| o().n(fvm(a.f(-0.5, 1.0), a.f(0.0, 40.0), a.freq(), a.f(-1e4, 1e4)));
    "fvc" 3 0 false |a| o().n(fvc(a.f(-0.5, 1.0), a.f(0.0, 40.0), a.f(-1e4, 1e4)));
    "pv_annuity" 5 0 false |a| o().n(pv_annuity(a.f(-0.05, 0.5), a.i(1, 40) as f64, a.freq(), a.f(-1e3, 1e3), a.f(-1e3, 1e3)));
    "pmt" 5 0 false |a| o().n(pmt(a.f(-0.05, 0.5), a.i(1, 40) as f64, a.freq(), a.f(-1e3, 1e3), a.f(-1e3, 1e3)));
    "nom_eff_rate" 2 0 false |a| o().n(nom_eff_rate(a.f(-0.3, 0.5), a.freq()));
    "eff_nom_rate" 2 0 false |a| o().n(eff_nom_rate(a.f(-0.3, 0.5), a.freq()));
    "exp_eff_rate" 1 0 false |a| o().n(exp_eff_rate(a.f(-0.3, 0.5)));
    "eff_exp_rate" 1 0 false |a| o().n(eff_exp_rate(a.f(-0.3, 0.5)));
    "nom_exp_rate" 2 0 false |a| o().n(nom_exp_rate(a.f(-0.3, 0.5), a.freq()));
    "exp_nom_rate" 2 0 false |a| o().n(exp_nom_rate(a.f(-0.3, 0.5), a.freq()));
    "approx" 2 0 false |a| { let x = a.f(-9.0, 9.0); let y = x + x * a.f(-3e-6, 3e-6); o().t(approx(x, y)).t(approx(x * 1e-8, y * 1.5e-8)) };
    "is_zero" 1 0 false |a| { let x = a.f(-12.0, 12.0) * 1e-8; o().t(is_zero(x)).t(is_zero(x / 8.0)).t(is_zero(x * 1e8)) };
    "npv_t0" 16 0 false |a| { let (t, c) = flows(a); o().n(npv_t0(a.f(-0.2, 0.5), &t, &c)) };
    "npv" 16 0 false |a| { let (t, c) = flows(a); o().n(npv(a.f(-0.2, 0.5), &t, a.f(-1.0, 3.0), &c)) };
    "xnpv" 16 0 false |a| { let (t, c) = dflows(a); o().n(xnpv(a.f(-0.2, 0.5), &t, t[0] + Duration::days(a.i(-300, 300)), &c)) };
    "irr" 16 1 false |a| { let (t, c) = flows(a); o().o(irr(&t, &c)) };
    "xirr" 16 1 false |a| { let (t, c) = dflows(a); o().o(xirr(&t, &c)) };
    "newt_raph" 2 0 false |a| { let k = a.f(0.5, 50.0); o().o(newt_raph(|x| x * x - k, a.f(1.0, 10.0), 1e-6)) };
    "bond price" 5 0 false |a| { let b = bond(a); o().n(b.price(a.f(-0.05, 0.3))) };
    "bond ytm" 5 1 false |a| { let b = bond(a); let p = b.price(a.f(0.0, 0.3)); o().n(b.ytm(p)) };
    "bond price_ratecurve" 9 0 false |a| {
        let (c, n, f) = rc(a);
        let b = CouponBond { par: a.of(&[100.0, 1000.0]), c: a.f(0.0, 0.15), freq: f, t_life: a.i(1, n as i64) as f64 / f };
        o().n(b.price_ratecurve(&c))
    };
    "bond generate_cashflow" 4 0 false |a| o().v(&bond(a).generate_cashflow());
    "bond accrued_interest" 5 0 false |a| { let b = bond(a); o().n(b.accrued_interest(a.f(0.0, 1.0) * b.t_life)) };
    "bond pv_full" 6 0 false |a| { let b = bond(a); o().n(b.pv_full(a.f(-0.05, 0.3), a.f(0.0, 1.0) * b.t_life)) };
    "bond pv_flat" 6 0 false |a| { let b = bond(a); o().n(b.pv_flat(a.f(-0.05, 0.3), a.f(0.0, 1.0) * b.t_life)) };
    "frn price" 6 0 false |a| { let b = frn(a); o().n(b.price(a.f(0.0, 0.2), a.f(0.0, 0.1))) };
    "frn discount_margin" 6 1 false |a| { let b = frn(a); let i = a.f(0.0, 0.2); let p = b.price(i, a.f(0.0, 0.1)); o().n(b.discount_margin(p, i)) };
    "curve rate_estim" 9 0 false |a| { let (c, n, f) = rc(a); o().n(c.rate_estim((1.0 + a.f(0.0, 1.0) * (n - 1) as f64) / f)) };
    "curve pv" 9 0 false |a| { let (c, n, f) = rc(a); o().n(c.pv(a.f(1.0, 1e4), (1.0 + a.f(0.0, 1.0) * (n - 1) as f64) / f)) };
    "curve outside its nodes" 9 0 false |a| { let (c, _, _) = rc(a); o().n(c.rate_estim(a.of(&[0.0, -1.0, 1e4]))) };
    "curve to_nominal" 9 0 false |a| o().curve(&rc(a).0.to_nominal());
    "curve to_effective" 9 0 false |a| o().curve(&rc(a).0.to_effective());
    "curve to_exponential" 9 0 false |a| o().curve(&rc(a).0.to_exponential());
    "rates to_spot" 9 0 false |a| { let c = rc(a).0.to_nominal(); match (Rates::ParRates { rate: c }).to_spot() { Rates::SpotRates { rate: c } => o().curve(&c), _ => o().t("kind") } };
    "rates to_par" 9 0 false |a| { let c = rc(a).0.to_nominal(); match (Rates::SpotRates { rate: c }).to_par() { Rates::ParRates { rate: c } => o().curve(&c), _ => o().t("kind") } };
    "rates rate_estim" 9 0 false |a| { let (c, n, f) = rc(a); o().n((Rates::SpotRates { rate: c }).rate_estim((1.0 + a.f(0.0, 1.0) * (n - 1) as f64) / f)) };
    "rates forward_rate" 9 0 false |a| { let (c, n, f) = rc(a); let k = a.i(1, n as i64 - 1); o().n((Rates::SpotRates { rate: c }).forward_rate(k as f64 / f, a.i(1, n as i64 - k) as f64 / f)) };
    "t_bill_r" 3 0 false |a| o().n(mm::t_bill_r(a.f(1.0, 360.0), a.f(80.0, 100.0), a.f(80.0, 120.0)));
    "t_bill_d" 3 0 false |a| o().n(mm::t_bill_d(a.f(0.0, 0.2), a.f(1.0, 360.0), a.f(80.0, 120.0)));
    "holding_per_yield" 3 0 false |a| o().n(mm::holding_per_yield(a.f(80.0, 120.0), a.f(80.0, 120.0), a.f(0.0, 9.0)));
    "eff_ann_yield" 4 0 false |a| o().n(mm::eff_ann_yield(a.f(1.0, 360.0), a.f(80.0, 120.0), a.f(80.0, 120.0), a.f(0.0, 9.0)));
    "money_mkt_yield" 4 0 false |a| o().n(mm::money_mkt_yield(a.f(1.0, 360.0), a.f(80.0, 120.0), a.f(80.0, 120.0), a.f(0.0, 9.0)));
    "twrr_n" 9 0 false |a| { let n = a.i(2, 6) as usize; o().n(mm::twrr_n(a.f(0.5, 5.0), &a.fs(n, 50.0, 200.0), &a.fs(n, -20.0, 50.0))) };
    "twrr" 9 0 false |a| { let n = a.i(2, 6) as usize; o().n(mm::twrr(&a.fs(n, 50.0, 200.0), &a.fs(n, -20.0, 50.0))) };
    "is_calc" 3 0 true |a| o().t(a.item::<BsType>().is_calc()).t(a.item::<PlType>().is_calc()).t(a.item::<CfType>().is_calc());
    "bs calc_elements" 1 1 true |a| fin::<BsType>(a, 0);
    "pl calc_elements" 1 1 true |a| fin::<PlType>(a, 0);
    "cf calc_elements" 1 1 true |a| fin::<CfType>(a, 0);
    "bs recalculated" 2 1 true |a| fin::<BsType>(a, 1);
    "pl recalculated" 2 1 true |a| fin::<PlType>(a, 1);
    "cf recalculated" 2 1 true |a| fin::<CfType>(a, 1);
    "bs remove_calc_clean" 1 1 true |a| fin::<BsType>(a, 2);
    "pl remove_calc_clean" 1 1 true |a| fin::<PlType>(a, 2);
    "cf remove_calc_clean" 1 1 true |a| fin::<CfType>(a, 2);
    "bs clean" 3 1 false |a| fin::<BsType>(a, 3);
    "pl clean" 3 1 false |a| fin::<PlType>(a, 3);
    "cf clean" 3 1 false |a| fin::<CfType>(a, 3);
    "bs add" 3 1 true |a| fin::<BsType>(a, 4);
    "pl add" 3 1 true |a| fin::<PlType>(a, 4);
    "cf add" 3 1 true |a| fin::<CfType>(a, 4);
    "bs upsert" 3 1 true |a| fin::<BsType>(a, 5);
    "pl upsert" 3 1 true |a| fin::<PlType>(a, 5);
    "cf upsert" 3 1 true |a| fin::<CfType>(a, 5);
    "bs value" 2 1 true |a| fin::<BsType>(a, 6);
    "pl value" 2 1 true |a| fin::<PlType>(a, 6);
    "cf value" 2 1 true |a| fin::<CfType>(a, 6);
    "bs common_size" 1 1 true |a| fin::<BsType>(a, 7);
    "pl common_size" 1 1 true |a| fin::<PlType>(a, 7);
    "cf common_size" 1 1 true |a| fin::<CfType>(a, 7);
    "debit" 3 1 true |a| { let mut m: Map<BsType> = a.map(); m.debit(a.item(), a.f(-50.0, 50.0)); o().m(&m) };
    "credit" 3 1 true |a| { let mut m: Map<BsType> = a.map(); m.credit(a.entered(), a.f(-50.0, 50.0)); o().m(&m) };
    "transact" 4 1 true |a| { let mut m: Map<BsType> = a.map(); m.transact((a.entered(), a.entered(), a.f(-50.0, 50.0))); o().m(&m) };
    "transact_series" 8 1 true |a| {
        let mut m: Map<BsType> = a.map();
        let v = (0..a.i(1, 5)).map(|_| (a.entered(), a.entered(), a.f(-50.0, 50.0))).collect();
        m.transact_series(v);
        o().m(&m)
    };
    "depreciation_tax_adjust" 1 1 false |a| o().n(depreciation_tax_adjust(&a.map()));
    "calc_cash_flow" 6 2 true |a| {
        let (b0, b1): (BsMap, BsMap) = (a.map(), a.map());
        let mut p: PlMap = a.map();
        p.calc_elements();
        let mut c = calc_cash_flow(&b0, &b1, &p, a.f(0.0, 0.4), a.f(0.0, 0.1), a.f(0.0, 0.05));
        c.calc_elements();
        o().m(&c)
    };
    "report calc_elements" 10 2 true |a| { let mut r = report(a); r.calc_elements(); o().rep(&r) };
    "report without tax rates" 10 2 true |a| { let mut r = report(a); r.others = Some(HashMap::new()); r.calc_elements(); o().rep(&r) };
    "report split and assembled" 10 2 false |a| {
        let r = report(a);
        let (b, c, p, f, t) = r.to_statements();
        let x = FinancialReport::from_statements(&b, &c, &p, &f, &t);
        let y = match p {
            Some(mut p) => { p.period.1 += Duration::days(1); FinancialReport::from_statements(&b, &c, &Some(p), &f, &t) }
            None => None,
        };
        let z = match x { Some(x) => o().rep(&x), None => o().t("None") };
        z.t(y.is_some())
    };
    "report without profit and loss" 1 0 false |a| { let n = a.i(0, 1); let r = FinancialReport::from_statements(&None, &None, &None, &None, &None); o().t(r.is_some()).t(n) };
    "check_dates" 4 0 false |a| {
        let mut v = vec![];
        let mut d = a.d();
        for _ in 0..a.i(1, 4) { let e = d + Duration::days(a.i(-5, 400)); v.push((d, e)); d = e + Duration::days(a.of(&[0.0, 0.0, 1.0, -1.0]) as i64); }
        o().t(check_dates(&v))
    };
    "consecutive_periods" 1 1 false |a| { let l = a.ledger(); let s: BTreeSet<_> = l.profit_loss.keys().copied().collect(); if s.is_empty() { o() } else { o().t(format_args!("{:?}", consecutive_periods(&s))) } };
    "ledger dates" 2 2 false |a| { let mut l = a.ledger(); l.dates.clear(); l.set_dates_from_profit_loss(); let d = a.d(); o().t(l.valid_date(d)).t(l.check_dates()).t(format_args!("{:?} {:?}", l.dates, l.split_periods())) };
    "ledger remove_calc_clean" 1 3 true |a| { let mut l = a.ledger(); l.calc_elements(); l.remove_calc_clean(); o().acc(&l) };
    "ledger calc_elements" 1 3 true |a| { let mut l = a.ledger(); l.calc_elements(); o().acc(&l) };
    "ledger get_account" 2 3 false |a| { let l = a.ledger(); let k = a.i(0, 3) as usize; match l.profit_loss.keys().nth(k) { Some(p) => match l.get_account(p.0, p.1) { Some(r) => o().rep(&r), None => o().t("None") }, None => o() } };
    "ledger calc_cash_flow" 1 3 true |a| { let mut l = a.ledger(); l.calc_elements(); l.calc_cash_flow(); o().acc(&l) };
    "ledger to_financial_reports" 1 3 false |a| { let mut x = o(); for r in a.ledger().to_financial_reports() { x = x.rep(&r); } x };
    "ledger consecutive" 1 3 false |a| { let l = a.ledger(); if l.profit_loss.is_empty() { return o(); } let x = o().acc(&l.consecutive_profit_loss()); if l.cash_flow.is_empty() { x } else { x.acc(&l.consecutive_cash_flow()) } };
    "ledger from_periods" 2 3 false |a| { let l = a.ledger(); let k = a.i(0, 4) as usize; let s = l.profit_loss.keys().copied().take(k).collect(); o().acc(&l.from_periods(s)) };
    "ledger format_table" 3 3 true |a| { let mut l = a.ledger(); l.calc_elements(); l.calc_cash_flow(); let s = [",", " ", "\t"][a.i(0, 2) as usize]; o().t(l.format_table(s, a.of(&[1.0, 1000.0]))) };
    "ledger display" 1 3 true |a| { let mut l = a.ledger(); l.calc_elements(); o().t(&l) };
    "ledger tax" 4 3 true |a| { let mut l = a.ledger(); l.calc_elements(); l.set_tax_rates(a.f(0.0, 0.4), a.f(0.0, 0.1), a.f(0.0, 0.05)); l.calc_tax(); l.calc_elements(); o().acc(&l) };
    "ledger put and get" 7 3 true |a| {
        let mut l = a.ledger();
        let (d, v) = (a.d(), a.f(-99.0, 99.0));
        let (b, p, c): (BsType, PlType, CfType) = (a.entered(), a.entered(), if a.i(0, 3) == 0 { a.item() } else { a.entered() });
        let q = (d, d + Duration::days(365));
        l.balance_sheet.insert(d, HashMap::new());
        l.profit_loss.insert(q, HashMap::new());
        l.cash_flow.insert(q, HashMap::new());
        l.put_balance_sheet(d, b, v); // fails for totals
        l.put_profit_loss(q, p, v);
        l.put_cash_flow(q, c, v);
        o().n(l.get_balance_sheet(d, b)).n(l.get_profit_loss(q, p)).n(l.get_cash_flow(q, c)).acc(&l)
    };
    "bs through text" 1 1 false |a| text(&{ let m: Map<BsType> = a.map(); m });
    "pl through text" 1 1 false |a| text(&{ let m: Map<PlType> = a.map(); m });
    "cf through text" 1 1 false |a| text(&{ let m: Map<CfType> = a.map(); m });
    "report through text" 10 2 false |a| {
        let r = report(a);
        let x: FinancialReport = ron::from_str(&ron::to_string(&r).unwrap()).unwrap();
        let y: FinancialReport = serde_json::from_str(&serde_json::to_string(&r).unwrap()).unwrap();
        o().rep(&x).rep(&y)
    };
    "ledger through text" 1 3 false |a| { let l = a.ledger(); let x: Accounts = ron::from_str(&ron::to_string(&l).unwrap()).unwrap(); o().acc(&x) };
    "ledger to_csv" 1 3 true |a| {
        static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
        let mut l = a.ledger();
        l.calc_elements();
        let f = std::env::temp_dir().join(format!("conc-{}-{}.csv", std::process::id(), N.fetch_add(1, std::sync::atomic::Ordering::Relaxed)));
        l.to_csv(f.to_str().unwrap());
        let s = std::fs::read_to_string(&f).unwrap_or_default();
        let _ = std::fs::remove_file(&f);
        o().t(s)
    };
    "currency" 1 0 false |a| { let c = [Currency::INR, Currency::USD, Currency::NGN, Currency::EUR, Currency::GBP, Currency::CNY, Currency::MZN, Currency::ZAR][a.i(0, 7) as usize]; o().t(ron::to_string(&c).unwrap()) };
];

fn text<T: Item + serde::Serialize + serde::de::DeserializeOwned>(m: &Map<T>) -> Out {
    let x: Map<T> = ron::from_str(&ron::to_string(m).unwrap()).unwrap();
    let y: Map<T> = serde_json::from_str(&serde_json::to_string(m).unwrap()).unwrap();
    o().m(&x).m(&y)
}


pub fn call(seed: u64, fam: usize, group: u64, variant: u64) -> Out {
    let f = &FAMS[fam];
    let mut a = Args::new(seed, fam as u64, group, variant, f.nargs);
    match guarded(|| (f.f)(&mut a)) {
        Ok(x) => x,
        Err(_) => o().t("panicked"),
    }
}
