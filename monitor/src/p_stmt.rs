//! C20..C33: statements, cash flow, tax, reports, ledgers, tables, serialization.
use crate::cal;
use crate::core::*;
use crate::lib;
use crate::model::*;
use chrono::{Datelike, Duration, NaiveDate as D};
use financelib::statements::*;
use financelib::valuations::{Industry, ValuationModel};
use financelib::Currency;
use std::collections::{BTreeMap, BTreeSet, HashMap};

fn mtag(cx: &mut Cx, m: Mag) {
    cx.tag(match m {
        Mag::Whole => "whole amounts",
        Mag::Cents => "cents",
        Mag::Small => "small amounts",
        Mag::Tiny => "tiny amounts",
        Mag::Big => "big amounts",
        Mag::Mixed => "mixed magnitudes",
    })
}

// ------------------------------------------------------------------ C20
fn pairs(n: u64) -> u64 {
    n + n * (n - 1) / 2
}
fn c20_fixed_count() -> u64 {
    pairs(BsType::entered().len() as u64) + pairs(PlType::entered().len() as u64) + pairs(CfType::entered().len() as u64)
}
fn c20_fixed<T: Item>(cx: &mut Cx, i: u64) -> Res
where
    Map<T>: FinMaps<Key = T>,
{
    let e = T::entered();
    let n = e.len() as u64;
    let mut m: Map<T> = HashMap::new();
    if i < n {
        m.insert(e[i as usize], 12.5);
        cx.tag("single item");
    } else {
        // i-th unordered pair
        let mut k = i - n;
        let mut a = 0;
        while k >= n - 1 - a {
            k -= n - 1 - a;
            a += 1;
        }
        m.insert(e[a as usize], 1000.25);
        m.insert(e[(a + 1 + k) as usize], -37.5);
        cx.tag("pair of items");
    }
    cx.inp(T::TITLE, m.clone());
    let mut g = m.clone();
    lib!("calc_elements", { g.calc_elements(); });
    check_calc(cx, T::TITLE, &g, &m)
}
fn c20_map<T: Item>(cx: &mut Cx) -> Res
where
    Map<T>: FinMaps<Key = T>,
{
    let mg = mag(&mut cx.rng);
    mtag(cx, mg);
    let mut m: Map<T> = statement(&mut cx.rng, mg);
    let mut w = m.clone();
    cx.inp(T::TITLE, m.clone());
    if cx.rng.chance(0.4) {
        stale(&mut cx.rng, &mut m);
        cx.inp("with stale totals", m.clone());
        cx.tag("stale totals put by hand");
    }
    cx.trivial = m.is_empty();
    lib!("calc_elements", { m.calc_elements(); });
    check_calc(cx, T::TITLE, &m, &w)?;
    let e = T::entered();
    for round in 0..cx.rng.below(4) {
        // edits after a calculation: the old totals are now stale
        for _ in 0..cx.rng.below(6) {
            let k = e[cx.rng.below(e.len())];
            let v = money(&mut cx.rng, mg);
            let op = cx.rng.below(6);
            cx.inp("edit", (op, k, v));
            cx.tag("edit after calculation");
            match op {
                0 => {
                    lib!("add", { m.add(k, v); });
                    *w.entry(k).or_insert(0.0) += v;
                }
                1 | 2 => {
                    lib!("upsert", { m.upsert(k, v); });
                    w.insert(k, v);
                }
                3 => {
                    m.insert(k, v);
                    w.insert(k, v);
                }
                4 => {
                    m.remove(&k);
                    w.remove(&k);
                }
                _ => {
                    let t = T::totals();
                    let t = t[cx.rng.below(t.len())];
                    m.insert(t, v);
                }
            }
        }
        if cx.rng.chance(0.15) {
            lib!("remove_calc_clean", { m.remove_calc_clean(); });
            w.retain(|_, v| v.abs() > 1e-5);
        }
        lib!("calc_elements", { m.calc_elements(); });
        check_calc(cx, &format!("{} after edits, round {round}", T::TITLE), &m, &w)?;
        if cx.rng.chance(0.5) {
            let before = m.clone();
            lib!("calc_elements", { m.calc_elements(); });
            same_map(cx, "calculating again", &m, &before)?;
            cx.tag("calculated twice");
        }
    }
    Ok(())
}
fn c20(cx: &mut Cx) -> Res {
    if let Some(i) = cx.fixed {
        let (a, b) = (pairs(BsType::entered().len() as u64), pairs(PlType::entered().len() as u64));
        return if i < a {
            c20_fixed::<BsType>(cx, i)
        } else if i < a + b {
            c20_fixed::<PlType>(cx, i - a)
        } else {
            c20_fixed::<CfType>(cx, i - a - b)
        };
    }
    match cx.rng.below(7) {
        0 | 1 => c20_map::<BsType>(cx),
        2 | 3 => c20_map::<PlType>(cx),
        4 | 5 => c20_map::<CfType>(cx),
        _ => {
            let mg = mag(&mut cx.rng);
            let rates = cx.rng.chance(0.5);
            let a0 = ledger(&mut cx.rng, &LedgerOpts { periods: 8, mag: mg, rates });
            let mut a = a0.clone();
            let mut st = |m: &mut Cx| {
                for b in a.balance_sheet.values_mut() {
                    stale(&mut m.rng, b);
                }
                for b in a.profit_loss.values_mut() {
                    stale(&mut m.rng, b);
                }
                for b in a.cash_flow.values_mut() {
                    stale(&mut m.rng, b);
                }
            };
            if cx.rng.chance(0.4) {
                st(cx);
            }
            cx.inp("ledger", a.clone());
            cx.tag("ledger");
            cx.trivial = a.profit_loss.is_empty();
            for _ in 0..2 {
                lib!("Accounts::calc_elements", { a.calc_elements(); });
                cx.that("keys of the ledger unchanged", a.balance_sheet.keys().eq(a0.balance_sheet.keys()) && a.profit_loss.keys().eq(a0.profit_loss.keys()) && a.cash_flow.keys().eq(a0.cash_flow.keys()) && a.others == a0.others && a.dates == a0.dates)?;
                for (k, m) in &a.balance_sheet {
                    check_calc(cx, &format!("balance sheet {k}"), m, &a0.balance_sheet[k])?;
                }
                for (k, m) in &a.profit_loss {
                    check_calc(cx, &format!("profit and loss {k:?}"), m, &a0.profit_loss[k])?;
                }
                for (k, m) in &a.cash_flow {
                    check_calc(cx, &format!("cash flow {k:?}"), m, &a0.cash_flow[k])?;
                }
            }
            Ok(())
        }
    }
}

// ------------------------------------------------------------------ C21
fn entry_value(r: &mut Rng) -> f64 {
    match r.below(8) {
        0 => 0.0,
        1 => r.sign() * r.log(1e-12, 1e-4),
        2 => r.sign() * r.log(1e12, 1e300),
        _ => r.amount(),
    }
}
fn c21_map<T: Item>(cx: &mut Cx, bs: Option<fn(&mut Map<T>, T, f64, bool)>) -> Res
where
    Map<T>: FinMaps<Key = T>,
{
    let all: Vec<T> = T::all().iter().map(|x| x.0).collect();
    let ent = T::entered();
    for (k, n) in T::all() {
        let c = lib!("is_calc", k.is_calc());
        cx.that_with(c == k.is_total(), || format!("is_calc({n}) is {c}"))?;
    }
    let mg = mag(&mut cx.rng);
    let mut m: Map<T> = if cx.rng.chance(0.3) { HashMap::new() } else { statement(&mut cx.rng, mg) };
    if cx.rng.chance(0.3) {
        stale(&mut cx.rng, &mut m);
        cx.tag("statement with totals");
    }
    let mut w = m.clone();
    cx.inp(T::TITLE, m.clone());
    // few keys, so that the same item is hit again and again
    let pool: Vec<T> = if cx.rng.chance(0.5) {
        let t = T::totals();
        let mut p: Vec<T> = (0..cx.rng.int(1, 4)).map(|_| ent[cx.rng.below(ent.len())]).collect();
        if cx.rng.chance(0.5) {
            p.push(t[cx.rng.below(t.len())]);
        }
        p
    } else {
        all.clone()
    };
    let many = cx.rng.chance(0.02);
    cx.tag_if(many, "long history");
    let long = cx.rng.very_long(2e-5, 100_000);
    cx.tag_if(long.is_some(), "very long history");
    for _ in 0..if let Some(n) = long { n } else if many { cx.rng.int(60, 300) } else { cx.rng.int(1, 25) } {
        let k = pool[cx.rng.below(pool.len())];
        let v = entry_value(&mut cx.rng);
        let op = cx.rng.below(if bs.is_some() { 8 } else { 6 });
        let mut what = format!("op {op} on {k:?} with {v}");
        let mut rejected = k.is_total();
        cx.inp("op", (op, k, v));
        cx.tag_if(rejected, "calculated item entered");
        let r = match op {
            0 | 1 => {
                cx.tag("add");
                what = format!("add({k:?}, {v})");
                if !rejected {
                    *w.entry(k).or_insert(0.0) += v;
                }
                guarded(|| { m.add(k, v); })
            }
            2 | 3 => {
                cx.tag("upsert");
                what = format!("upsert({k:?}, {v})");
                if !rejected {
                    w.insert(k, v);
                }
                guarded(|| { m.upsert(k, v); })
            }
            4 | 5 => {
                let n = if cx.rng.chance(0.03) { cx.rng.below(150) } else { cx.rng.below(6) };
                cx.tag_if(n > 50, "long vector");
                let mut vec: Vec<(T, f64)> = (0..n).map(|_| (pool[cx.rng.below(pool.len())], entry_value(&mut cx.rng))).collect();
                if cx.rng.chance(0.8) {
                    vec.retain(|x| !x.0.is_total());
                }
                cx.inp("vector", vec.clone());
                cx.tag("vector form");
                what = format!("{}({vec:?})", if op == 4 { "add_vec" } else { "upsert_vec" });
                rejected = vec.iter().any(|x| x.0.is_total());
                if !rejected {
                    for (k, v) in &vec {
                        if op == 4 {
                            *w.entry(*k).or_insert(0.0) += v;
                        } else {
                            w.insert(*k, *v);
                        }
                    }
                }
                let r = guarded(|| {
                    if op == 4 {
                        m.add_vec(&vec);
                    } else {
                        m.upsert_vec(&vec);
                    }
                });
                if rejected {
                    // entries before the calculated one may have been applied; all else must be as it was
                    for k in &all {
                        if k.is_total() || !vec.iter().any(|x| x.0 == *k) {
                            let (g, e) = (get(&m, *k), get(&w, *k));
                            cx.that_with(g == e, || format!("{what}: {k:?} became {g}, was {e}"))?;
                        }
                    }
                    w = m.clone();
                }
                r
            }
            _ => {
                let debit = op == 6;
                cx.tag("debit or credit");
                what = format!("{}({k:?}, {v})", if debit { "debit" } else { "credit" });
                let f = bs.unwrap();
                if !rejected {
                    let s = debit_sign(T::all().iter().position(|x| x.0 == k).unwrap()) * if debit { 1.0 } else { -1.0 };
                    *w.entry(k).or_insert(0.0) += s * v;
                }
                guarded(|| f(&mut m, k, v, debit))
            }
        };
        match (&r, rejected) {
            (Ok(()), true) => return Err(Viol(format!("{what}: a calculated item was accepted"))),
            (Err(p), false) => return Err(Viol(format!("{what} panicked: {p}"))),
            _ => cx.checks += 1,
        }
        for k in &all {
            let (g, e) = (get(&m, *k), get(&w, *k));
            cx.that_with(g == e, || format!("after {what}: {k:?} is {g}, expected {e}"))?;
            let x = lib!("value", m.value(*k));
            cx.that_with(x == e, || format!("after {what}: value({k:?}) is {x}, expected {e}"))?;
        }
    }
    Ok(())
}
fn deb(m: &mut Map<BsType>, k: BsType, v: f64, debit: bool) {
    if debit {
        m.debit(k, v);
    } else {
        m.credit(k, v);
    }
}
fn c21_ledger(cx: &mut Cx) -> Res {
    let mg = mag(&mut cx.rng);
    let mut a = ledger(&mut cx.rng, &LedgerOpts { periods: 5, mag: mg, rates: false });
    if cx.rng.chance(0.3) {
        lib!("calc_elements", { a.calc_elements(); });
    }
    let mut w = a.clone();
    cx.inp("ledger", a.clone());
    cx.tag("ledger");
    let ds: Vec<D> = a.balance_sheet.keys().copied().collect();
    let ps: Vec<P> = a.profit_loss.keys().copied().collect();
    let cs: Vec<P> = a.cash_flow.keys().copied().collect();
    let top = if cx.rng.chance(0.03) { 150 } else { 15 };
    for _ in 0..cx.rng.int(1, top) {
        let v = entry_value(&mut cx.rng);
        let which = cx.rng.below(3);
        macro_rules! go {
            ($keys:ident, $all:ident, $field:ident, $put:ident, $getf:ident) => {{
                if $keys.is_empty() {
                    continue;
                }
                let d = $keys[cx.rng.below($keys.len())];
                let k = $all[cx.rng.below($all.len())].0;
                let rejected = k.is_total();
                cx.inp("put", (d, k, v));
                cx.tag_if(rejected, "calculated item put into a ledger");
                let r = guarded(|| { a.$put(d, k, v); });
                if !rejected {
                    w.$field.get_mut(&d).unwrap().insert(k, v);
                }
                match (&r, rejected) {
                    (Ok(()), true) => return Err(Viol(format!("put of the calculated item {k:?} was accepted"))),
                    (Err(p), false) => return Err(Viol(format!("put of {k:?} panicked: {p}"))),
                    _ => (),
                }
                let k2 = $all[cx.rng.below($all.len())].0;
                let d2 = $keys[cx.rng.below($keys.len())];
                for (d, k) in [(d, k), (d2, k2)] {
                    let g = lib!("get", a.$getf(d, k));
                    let e = get(&w.$field[&d], k);
                    cx.that_with(g == e, || format!("reading {k:?} at {d:?}: {g}, expected {e}"))?;
                }
            }};
        }
        match which {
            0 => go!(ds, BS, balance_sheet, put_balance_sheet, get_balance_sheet),
            1 => go!(ps, PL, profit_loss, put_profit_loss, get_profit_loss),
            _ => go!(cs, CF, cash_flow, put_cash_flow, get_cash_flow),
        }
        same_ledger(cx, "ledger after put", &a, &w)?;
    }
    Ok(())
}
fn same_maps<K: Ord + std::fmt::Debug, T: Copy + Eq + std::hash::Hash + std::fmt::Debug>(cx: &mut Cx, what: &str, a: &BTreeMap<K, HashMap<T, f64>>, b: &BTreeMap<K, HashMap<T, f64>>) -> Res {
    cx.that_with(a.keys().eq(b.keys()), || format!("{what}: dates {:?} instead of {:?}", a.keys(), b.keys()))?;
    for (k, m) in a {
        same_map(cx, &format!("{what}, {k:?}"), m, &b[k])?;
    }
    Ok(())
}
fn same_ledger(cx: &mut Cx, what: &str, a: &Accounts, b: &Accounts) -> Res {
    cx.checks += 1;
    if a == b {
        return Ok(());
    }
    cx.that_with(a.currency == b.currency && a.consolidated == b.consolidated, || format!("{what}: currency or consolidation flag changed"))?;
    cx.that_with(a.dates == b.dates, || format!("{what}: dates {:?} instead of {:?}", a.dates, b.dates))?;
    same_maps(cx, &format!("{what}: balance sheet"), &a.balance_sheet, &b.balance_sheet)?;
    same_maps(cx, &format!("{what}: profit and loss"), &a.profit_loss, &b.profit_loss)?;
    same_maps(cx, &format!("{what}: cash flow"), &a.cash_flow, &b.cash_flow)?;
    same_maps(cx, &format!("{what}: others"), &a.others, &b.others)
}
fn c21(cx: &mut Cx) -> Res {
    match cx.rng.below(7) {
        0..=2 => c21_map::<BsType>(cx, Some(deb)),
        3 => c21_map::<PlType>(cx, None),
        4 => c21_map::<CfType>(cx, None),
        _ => c21_ledger(cx),
    }
}

// ------------------------------------------------------------------ C22
/// +1 when a debit raises the item, -1 when it lowers it; by position in the item list
fn debit_sign(pos: usize) -> f64 {
    static S: std::sync::OnceLock<Vec<f64>> = std::sync::OnceLock::new();
    S.get_or_init(|| {
        fn walk(t: BsType, c: f64, out: &mut HashMap<BsType, f64>) {
            match BsType::lay().iter().find(|x| x.0 == t) {
                None => {
                    out.insert(t, c);
                }
                Some((_, p, n)) => {
                    p.iter().for_each(|k| walk(*k, c, out));
                    n.iter().for_each(|k| walk(*k, -c, out));
                }
            }
        }
        let mut o = HashMap::new();
        walk(BsType::Assets, 1.0, &mut o);
        walk(BsType::Liabilities, -1.0, &mut o);
        walk(BsType::Equity, -1.0, &mut o);
        BS.iter().map(|x| o.get(&x.0).copied().unwrap_or(0.0)).collect()
    })[pos]
}
fn dsign(k: BsType) -> f64 {
    debit_sign(BS.iter().position(|x| x.0 == k).unwrap())
}
fn check_of(m: &Map<BsType>) -> VS {
    gets(&ref_calc(&exact(m)), BsType::BalanceSheetCheck)
}
fn c22(cx: &mut Cx) -> Res {
    let e = BsType::entered();
    let n = e.len();
    let mg = mag(&mut cx.rng);
    let mut m: Map<BsType> = if cx.rng.chance(0.3) { HashMap::new() } else { statement(&mut cx.rng, mg) };
    if cx.rng.chance(0.2) {
        lib!("calc_elements", { m.calc_elements(); });
    }
    cx.inp("balance sheet", m.clone());
    let gross: f64 = m.values().map(|x| x.abs()).sum();
    let series: Vec<(BsType, BsType, f64)> = if let Some(i) = cx.fixed {
        cx.tag("every ordered pair");
        vec![(e[i as usize / n], e[i as usize % n], [100.0, -40.5, 0.25][cx.rng.below(3)])]
    } else {
        let long = cx.rng.very_long(2e-5, 100_000);
        cx.tag_if(long.is_some(), "very long series");
        (0..if let Some(n) = long { n } else if cx.rng.chance(0.03) { cx.rng.int(40, 400) } else { cx.rng.int(1, 12) }).map(|_| (e[cx.rng.below(n)], e[cx.rng.below(n)], if cx.rng.chance(0.05) { 0.0 } else { money(&mut cx.rng, mg) })).collect()
    };
    // the same transaction again, or its reversal, at once or later
    let mut series = series;
    for _ in 0..if cx.fixed.is_none() && cx.rng.chance(0.3) { cx.rng.int(1, 3) } else { 0 } {
        let i = cx.rng.below(series.len());
        let (d, c, v) = series[i];
        let x = match cx.rng.below(4) {
            0 => (c, d, v),
            1 => (d, c, -v),
            _ => (d, c, v),
        };
        let at = if cx.rng.chance(0.6) { i + 1 } else { cx.rng.below(series.len()) };
        series.insert(at, x);
    }
    cx.tag_if(series.windows(2).any(|w| w[0] == w[1]), "same transaction twice in a row");
    cx.tag_if(series.windows(2).any(|w| (w[0].0, w[0].1, w[0].2) == (w[1].1, w[1].0, w[1].2)), "transaction reversed at once");
    cx.inp("transactions", series.clone());
    cx.tag_if(series.len() > 100, "long series");
    let before = check_of(&m);
    let mut w = m.clone();
    let vol: f64 = series.iter().map(|x| x.2.abs()).sum();
    for (d, c, v) in &series {
        cx.tag_if(*v < 0.0, "negative amount");
        cx.tag_if(d == c, "same account twice");
        cx.tag_if([d, c].iter().any(|k| matches!(k, BsType::AccumulatedDepreciation | BsType::AccumulatedAmortization | BsType::AccumulatedAmortizationLease)), "contra item");
        *w.entry(*d).or_insert(0.0) += dsign(*d) * v;
        *w.entry(*c).or_insert(0.0) -= dsign(*c) * v;
    }
    let style = cx.rng.below(3);
    cx.inp("style", style);
    let mut t = m.clone();
    match style {
        0 => {
            lib!("transact_series", { t.transact_series(series.clone()); });
            cx.tag("series");
        }
        1 => {
            for x in &series {
                lib!("transact", { t.transact(*x); });
            }
            cx.tag("transact");
        }
        _ => {
            for (d, c, v) in &series {
                lib!("debit", { t.debit(*d, *v); });
                lib!("credit", { t.credit(*c, *v); });
            }
            cx.tag("debit and credit");
        }
    }
    let tol = (gross + vol) * 1e-14;
    for (k, n) in BS {
        let (g, e) = (get(&t, *k), get(&w, *k));
        if series.iter().any(|x| x.0 == *k || x.1 == *k) {
            cx.close(format_args!("account {n} after the transactions"), g, e, tol)?;
        } else {
            let o = get(&m, *k);
            cx.that_with(g == o, || format!("account {n}, not named by any transaction, changed from {o} to {g}"))?;
        }
    }
    // balance
    lib!("calc_elements", { t.calc_elements(); });
    let after = t.get(&BsType::BalanceSheetCheck).copied().unwrap_or(0.0);
    cx.close("assets - liabilities - equity", after, before.0, before.1 + 1.3e-4 + 30.0 * tol)
}

// ------------------------------------------------------------------ C23, C24
struct Flow {
    b0: Map<BsType>,
    b1: Map<BsType>,
    pl: Map<PlType>,
    r: Rates3,
    mg: Mag,
}
fn flow_inputs(cx: &mut Cx, nonneg_interest: bool) -> Flow {
    let mg = mag(&mut cx.rng);
    mtag(cx, mg);
    let mut b0: Map<BsType> = statement(&mut cx.rng, mg);
    let mut b1: Map<BsType> = match cx.rng.below(6) {
        0 if cx.rng.chance(0.3) => alike(&mut cx.rng, &b0),
        0 => b0.clone(),
        1 => {
            // a single movement
            let mut b = b0.clone();
            let e = BsType::entered();
            let k = e[cx.rng.below(e.len())];
            let v = money(&mut cx.rng, mg);
            *b.entry(k).or_insert(0.0) += v;
            cx.tag("single movement");
            b
        }
        _ => statement(&mut cx.rng, mg),
    };
    if cx.rng.chance(0.5) {
        cx.tag("balanced sheets");
        // plug the difference into one account
        let k = cx.rng.pick(&[BsType::Reserves, BsType::RetainedEarnings, BsType::Cash, BsType::CommonStock, BsType::AccumulatedDepreciation, BsType::LongTermBorrowings]);
        for b in [&mut b0, &mut b1] {
            for _ in 0..2 {
                let x = check_of(b).0;
                *b.entry(k).or_insert(0.0) -= dsign(k) * x;
            }
        }
    } else {
        cx.tag("unbalanced sheets");
    }
    let mut pl: Map<PlType> = statement(&mut cx.rng, mg);
    // a company with hardly anything
    if cx.rng.chance(0.04) {
        cx.tag("hardly any items");
        let few = |m: &mut Map<BsType>, r: &mut Rng| {
            let n = r.below(3);
            let mut k: Vec<BsType> = m.keys().copied().collect();
            k.sort();
            r.shuffle(&mut k);
            k.truncate(n);
            m.retain(|x, _| k.contains(x));
        };
        few(&mut b0, &mut cx.rng);
        if cx.rng.chance(0.5) {
            b1 = b0.iter().map(|(k, v)| (*k, v * cx.rng.uni(-2.0, 3.0))).collect();
        } else {
            few(&mut b1, &mut cx.rng);
        }
        if cx.rng.chance(0.7) {
            pl.clear();
        }
    }
    if nonneg_interest {
        for k in [PlType::InterestExpense, PlType::CostDebt] {
            if let Some(v) = pl.get_mut(&k) {
                *v = v.abs();
            }
        }
        if cx.rng.chance(0.5) {
            // a company that earns something
            for k in [PlType::OperatingRevenue, PlType::OtherIncome] {
                let v = money(&mut cx.rng, mg).abs() * cx.rng.uni(1.0, 30.0);
                *pl.entry(k).or_insert(0.0) += v;
            }
        }
    }
    let r = tax_rates(&mut cx.rng);
    cx.inp("opening", b0.clone());
    cx.inp("closing", b1.clone());
    cx.inp("profit and loss", pl.clone());
    cx.inp("rates", (r.corp, r.gp, r.rev));
    cx.trivial = b0.is_empty() && b1.is_empty() && pl.is_empty();
    Flow { b0, b1, pl, r, mg }
}
/// derived and calculated cash flow by one of the library's three routes
fn derive(cx: &mut Cx, f: &Flow) -> Result<Map<CfType>, Viol> {
    let p = (cal::date(2019, 3, 31), cal::date(2020, 3, 31));
    Ok(match cx.rng.below(4) {
        0 => {
            cx.tag("through a report");
            let mut rep = FinancialReport {
                period: p,
                balance_sheet_beg: Some(f.b0.clone()),
                balance_sheet_end: Some(f.b1.clone()),
                profit_loss: Some(f.pl.clone()),
                cash_flow: None,
                others: Some(others(&mut cx.rng, f.r)),
            };
            lib!("FinancialReport::calc_elements", { rep.calc_elements(); });
            rep.cash_flow.ok_or(Viol("report without cash flow".into()))?
        }
        1 => {
            cx.tag("through a ledger");
            let mut a = Accounts {
                currency: Currency::USD,
                consolidated: true,
                dates: BTreeSet::new(),
                balance_sheet: BTreeMap::from([(p.0, f.b0.clone()), (p.1, f.b1.clone())]),
                profit_loss: BTreeMap::from([(p, f.pl.clone())]),
                cash_flow: BTreeMap::new(),
                others: BTreeMap::new(),
            };
            lib!("ledger", {
                a.set_tax_rates(f.r.corp, f.r.gp, f.r.rev);
                a.calc_elements();
                a.calc_cash_flow();
            });
            a.cash_flow.remove(&p).ok_or(Viol("ledger without cash flow".into()))?
        }
        _ => {
            let (mut b0, mut b1, mut pl) = (f.b0.clone(), f.b1.clone(), f.pl.clone());
            lib!("calc_elements", {
                pl.calc_elements();
                if f.mg != Mag::Cents {
                    b0.calc_elements();
                    b1.calc_elements();
                }
            });
            let mut cf = lib!("calc_cash_flow", calc_cash_flow(&b0, &b1, &pl, f.r.corp, f.r.gp, f.r.rev));
            lib!("calc_elements", { cf.calc_elements(); });
            cf
        }
    })
}
fn gross<T: Item>(m: &Map<T>) -> f64 {
    m.values().map(|x| x.abs()).sum()
}
fn c23(cx: &mut Cx) -> Res {
    let f = flow_inputs(cx, false);
    let cf = derive(cx, &f)?;
    let net = get(&cf, CfType::NetCashFlow);
    let dc = get(&f.b1, BsType::Cash) - get(&f.b0, BsType::Cash);
    let (k0, k1) = (check_of(&f.b0), check_of(&f.b1));
    // 22 lines and 3 totals may each drop up to 1e-5
    let tol = 2.6e-4 + 1e-13 * (gross(&f.b0) + gross(&f.b1) + gross(&f.pl));
    cx.close("net cash flow against change in cash less change in balance difference", net, dc - (k1.0 - k0.0), tol + k0.1 + k1.1)
}
fn c24(cx: &mut Cx) -> Res {
    let f = flow_inputs(cx, true);
    let cf = derive(cx, &f)?;
    let pl = ref_calc(&exact(&f.pl));
    let lines = ref_lines(&f.b0, &f.b1, &pl);
    for (k, n) in CF {
        if !k.is_total() && *k != CfType::CashFlowTaxShield {
            let (v, s) = gets(&lines, *k);
            cx.close(format_args!("line {n}"), get(&cf, *k), v, s)?;
        }
    }
    // free cash flow identities on the lines as given
    let r = ref_calc(&exact(&cf));
    let (v, s) = gets(&r, CfType::FreeCashFlowFirm);
    cx.close("FCFF against the layout", get(&cf, CfType::FreeCashFlowFirm), v, s)?;
    let g = |k| get(&cf, k);
    let t = 4e-5 + 1e-14 * gross(&cf);
    cx.close("FCFF = FCFE + cash flow to debt - tax shield", g(CfType::FreeCashFlowFirm), g(CfType::FreeCashFlowEquity) + g(CfType::CashFlowDebt) - g(CfType::CashFlowTaxShield), t)?;
    let (i, d) = (gets(&lines, CfType::CashFlowInterests), gets(&lines, CfType::ChangeDebt));
    cx.close("cash flow to debt", g(CfType::CashFlowDebt), i.0 - d.0, i.1 + d.1 + 1.1e-5)?;
    // tax saved by deducting the interest
    let intr = gets(&lines, CfType::CashFlowInterests).0;
    let (with, s1) = ref_tax(&pl, 0.0, f.r);
    let (without, s2) = ref_tax(&pl, intr, f.r);
    let want = without - with;
    let got = g(CfType::CashFlowTaxShield);
    let tol = s1 + s2 + 1.5e-5 + 4e-15 * (with.abs() + without.abs());
    cx.checks += 1;
    cx.tag_if(want > 0.0 && want < f.r.corp * intr * 0.999, "shield limited by revenue tax");
    cx.tag_if(intr > 0.0 && f.r.corp > 0.0 && want == 0.0, "no shield");
    cx.tag_if(want > 0.0, "shield");
    if (got - want).abs() > tol || got.is_nan() {
        // the same calculation with gross profit instead of EBITDA as base of the second tax
        let mut p2 = pl.clone();
        p2.insert(PlType::EBITDA, gets(&pl, PlType::GrossProfit));
        let (a, b) = (ref_tax(&p2, 0.0, f.r), ref_tax(&p2, intr, f.r));
        if (got - (b.0 - a.0)).abs() <= tol + a.1 + b.1 {
            cx.known("shield-base", format!("the tax shield takes gross-profit tax on gross profit, calc_tax takes it on EBITDA: shield {got}, tax saved {want}"));
        } else {
            return Err(Viol(format!("tax shield {got}, but tax without interest {without} less tax with interest {with} is {want}")));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C25
fn c25(cx: &mut Cx) -> Res {
    let mg = mag(&mut cx.rng);
    mtag(cx, mg);
    let mut a = ledger(&mut cx.rng, &LedgerOpts { periods: 10, mag: mg, rates: true });
    // some periods without any ratios yet
    let ps: Vec<P> = a.profit_loss.keys().copied().collect();
    for p in &ps {
        match cx.rng.below(10) {
            0..3 => drop(a.others.remove(p)),
            // there, but without any rate or with some of them only
            3 => {
                cx.tag("empty set of ratios");
                a.others.insert(*p, HashMap::new());
            }
            4 => {
                cx.tag("ratios but no or not all rates");
                if let Some(o) = a.others.get_mut(p) {
                    o.retain(|k, _| !matches!(k, FinOthersTyp::CorporateTaxRate | FinOthersTyp::GrossProfitTaxRate) && *k != FinOthersTyp::RevenueTaxRate || cx.rng.chance(0.3));
                }
            }
            _ => (),
        }
        if cx.rng.chance(0.5) {
            let pl = a.profit_loss.get_mut(p).unwrap();
            let v = money(&mut cx.rng, mg).abs() * 20.0;
            pl.insert(PlType::OperatingRevenue, v);
        }
        if cx.rng.chance(0.2) {
            stale(&mut cx.rng, a.profit_loss.get_mut(p).unwrap());
        }
    }
    if ps.len() > 1 && cx.rng.chance(0.2) {
        cx.tag("equal profit and loss in two periods");
        let (p, q) = (ps[cx.rng.below(ps.len())], ps[cx.rng.below(ps.len())]);
        let m = a.profit_loss[&p].clone();
        a.profit_loss.insert(q, m);
    }
    if cx.rng.chance(0.2) {
        // ratios of a period without profit and loss
        let q = (cx.rng.mdate(), cx.rng.mdate());
        if !a.profit_loss.contains_key(&q) {
            cx.tag("ratios of another period");
            let t = tax_rates(&mut cx.rng);
            a.others.insert(q, others(&mut cx.rng, t));
        }
    }
    cx.trivial = ps.is_empty();
    let t = tax_rates(&mut cx.rng);
    cx.inp("ledger", a.clone());
    cx.inp("rates", (t.corp, t.gp, t.rev));
    let w = a.clone();
    let per_period = cx.rng.chance(0.4);
    // set rates
    lib!("set_tax_rates", { a.set_tax_rates(t.corp, t.gp, t.rev); });
    let mut want = w.clone();
    for p in &ps {
        let o = want.others.entry(*p).or_default();
        o.insert(FinOthersTyp::CorporateTaxRate, t.corp);
        o.insert(FinOthersTyp::GrossProfitTaxRate, t.gp);
        o.insert(FinOthersTyp::RevenueTaxRate, t.rev);
    }
    cx.tag_if(ps.iter().any(|p| w.others.contains_key(p)) && ps.iter().any(|p| !w.others.contains_key(p)), "rates set on old and new periods");
    same_ledger(cx, "after set_tax_rates", &a, &want)?;
    lib!("set_tax_rates", { a.set_tax_rates(t.corp, t.gp, t.rev); });
    same_ledger(cx, "after repeating set_tax_rates", &a, &want)?;
    if per_period {
        cx.tag("different rates per period");
        for p in &ps {
            let mut t = tax_rates(&mut cx.rng);
            if cx.rng.chance(0.1) {
                // rebates
                cx.tag("negative rate");
                match cx.rng.below(3) {
                    0 => t.corp = -t.corp,
                    1 => t.gp = -t.gp,
                    _ => t.rev = -t.rev,
                }
            }
            let mut o = others(&mut cx.rng, t);
            for k in [FinOthersTyp::CorporateTaxRate, FinOthersTyp::GrossProfitTaxRate, FinOthersTyp::RevenueTaxRate] {
                if cx.rng.chance(0.1) {
                    cx.tag("rate not given");
                    o.remove(&k);
                }
            }
            a.others.insert(*p, o);
        }
        cx.inp("own rates", a.others.clone());
    }
    let ot = a.others.clone();
    let times = cx.rng.int(1, 3);
    for i in 0..times {
        lib!("calc_tax", { a.calc_tax(); });
        let at = if i == 0 { "after calc_tax" } else { "after repeating calc_tax" };
        cx.that_with(a.profit_loss.keys().eq(w.profit_loss.keys()) && a.balance_sheet.keys().eq(w.balance_sheet.keys()) && a.cash_flow.keys().eq(w.cash_flow.keys()), || format!("{at}: dates of the statements changed"))?;
        cx.that_with(a.currency == w.currency && a.consolidated == w.consolidated && a.dates == w.dates, || format!("{at}: other fields changed"))?;
        same_maps(cx, &format!("{at}: rates and ratios"), &a.others, &ot)?;
        for p in &ps {
            let r = rates_of(&ot[p]);
            let entered = &w.profit_loss[p];
            let pl = ref_calc(&exact(entered));
            let (v, s) = ref_tax(&pl, 0.0, r);
            cx.close(format_args!("{at}: current tax of {p:?}"), get(&a.profit_loss[p], PlType::TaxesCurrent), v, s + 1e-15 * v.abs())?;
            let rev = gets(&pl, PlType::Revenue).0 * r.rev;
            cx.tag(if v > rev { "profit-based tax" } else { "revenue-based tax" });
            cx.tag_if(entered.contains_key(&PlType::TaxDepreciation), "tax depreciation given");
            for (k, n) in PL {
                if !k.is_total() && *k != PlType::TaxesCurrent {
                    let (g, e) = (get(&a.profit_loss[p], *k), get(entered, *k));
                    cx.that_with(g == e, || format!("{at}: {n} of {p:?} changed from {e} to {g}"))?;
                }
            }
        }
        for (k, m) in &a.balance_sheet {
            for (b, n) in BS {
                let (g, e) = (get(m, *b), get(&w.balance_sheet[k], *b));
                cx.that_with(b.is_total() || g == e, || format!("{at}: {n} at {k} changed from {e} to {g}"))?;
            }
        }
        for (k, m) in &a.cash_flow {
            for (b, n) in CF {
                let (g, e) = (get(m, *b), get(&w.cash_flow[k], *b));
                cx.that_with(b.is_total() || g == e, || format!("{at}: {n} of {k:?} changed from {e} to {g}"))?;
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C26
const LIMITS: [f64; 8] = [1e-5, 9.99e-6, 1.001e-5, 1.1e-5, 5e-6, 0.0, 2e-5, 1e-300];
fn around_limit<T: Item>(r: &mut Rng, m: &mut Map<T>) {
    let all = T::all();
    for _ in 0..r.below(8) {
        let k = all[r.below(all.len())].0;
        let mut v = LIMITS[r.below(LIMITS.len())];
        if r.chance(0.2) {
            v = f64::from_bits(1e-5f64.to_bits().wrapping_add(r.int(-1, 1) as u64));
        }
        m.insert(k, v * r.sign());
    }
}
fn c26_map<T: Item>(cx: &mut Cx, scale: T) -> Res
where
    Map<T>: FinMaps<Key = T>,
{
    let mg = mag(&mut cx.rng);
    mtag(cx, mg);
    let mut m: Map<T> = statement(&mut cx.rng, mg);
    if cx.rng.chance(0.7) {
        lib!("calc_elements", { m.calc_elements(); });
    }
    around_limit(&mut cx.rng, &mut m);
    cx.inp(T::TITLE, m.clone());
    cx.trivial = m.is_empty();
    cx.tag_if(m.values().any(|v| v.abs() == 1e-5), "exactly at the limit");
    let mut c = m.clone();
    lib!("clean", { c.clean(); });
    for (k, n) in T::all() {
        let e = m.get(k).copied().filter(|v| v.abs() > 1e-5);
        cx.that_with(c.get(k) == e.as_ref(), || format!("clean: {n} is {:?}, was {:?}", c.get(k), m.get(k)))?;
    }
    let before = c.clone();
    lib!("clean", { c.clean(); });
    same_map(cx, "cleaning again", &c, &before)?;
    let mut f = m.clone();
    lib!("remove_calc_clean", { f.remove_calc_clean(); });
    for (k, n) in T::all() {
        let e = m.get(k).copied().filter(|v| v.abs() > 1e-5 && !k.is_total());
        cx.that_with(f.get(k) == e.as_ref(), || format!("remove_calc_clean: {n} is {:?}, was {:?}", f.get(k), m.get(k)))?;
    }
    // totals afterwards: those of all entered items, up to the items removed
    let removed: f64 = m.iter().filter(|(k, v)| !k.is_total() && v.abs() <= 1e-5).map(|x| x.1.abs()).sum();
    let r = ref_calc(&exact(&m));
    lib!("calc_elements", { f.calc_elements(); });
    for (k, _, _) in T::lay() {
        let (v, s) = gets(&r, *k);
        let lim = if removed > 0.0 { 3e-5 + removed } else { 0.0 };
        cx.close(format_args!("total {} after cleaning and recalculating", k.name()), get(&f, *k), v, s + lim)?;
    }
    // common size
    let sc = get(&m, scale);
    if sc.abs() > 1e-12 {
        cx.tag("common size");
        cx.tag_if(sc < 0.0, "common size with a negative base");
        let orig = m.clone();
        let q = lib!("common_size", m.common_size());
        cx.that("original unchanged by common_size", m == orig)?;
        for (k, n) in T::all() {
            match (q.get(k), m.get(k)) {
                (None, None) => (),
                (Some(a), Some(b)) => cx.close(format_args!("common size {n}"), *a, b / sc, 1e-12 * (b / sc).abs() + 1e-290)?,
                (a, b) => return Err(Viol(format!("common_size: {n} is {a:?} for {b:?}"))),
            }
        }
    }
    Ok(())
}
fn c26(cx: &mut Cx) -> Res {
    match cx.rng.below(7) {
        0 | 1 => c26_map::<BsType>(cx, BsType::Assets),
        2 | 3 => c26_map::<PlType>(cx, PlType::Revenue),
        4 | 5 => c26_map::<CfType>(cx, CfType::NetCashFlow),
        _ => {
            cx.tag("ledger");
            let mg = mag(&mut cx.rng);
            let mut a = ledger(&mut cx.rng, &LedgerOpts { periods: 6, mag: mg, rates: true });
            lib!("calc_elements", { a.calc_elements(); });
            for m in a.balance_sheet.values_mut() {
                around_limit(&mut cx.rng, m);
            }
            for m in a.profit_loss.values_mut() {
                around_limit(&mut cx.rng, m);
            }
            for m in a.cash_flow.values_mut() {
                around_limit(&mut cx.rng, m);
            }
            cx.inp("ledger", a.clone());
            let mut w = a.clone();
            lib!("Accounts::remove_calc_clean", { a.remove_calc_clean(); });
            for m in w.balance_sheet.values_mut() {
                m.retain(|k, v| !k.is_total() && v.abs() > 1e-5);
            }
            for m in w.profit_loss.values_mut() {
                m.retain(|k, v| !k.is_total() && v.abs() > 1e-5);
            }
            for m in w.cash_flow.values_mut() {
                m.retain(|k, v| !k.is_total() && v.abs() > 1e-5);
            }
            cx.that_with(a == w, || "Accounts::remove_calc_clean: something else than the calculated and vanishing items changed".to_string())
        }
    }
}

// ------------------------------------------------------------------ C27
fn c27(cx: &mut Cx) -> Res {
    let mg = mag(&mut cx.rng);
    let d0 = cx.rng.mdate();
    let d1 = match cx.rng.below(5) {
        0 => d0,
        1 if cx.rng.chance(0.3) => d0 - Duration::days(cx.rng.int(1, 800)),
        1 => d0 + Duration::days(1),
        _ => d0 + Duration::days(cx.rng.int(20, 800)),
    };
    cx.tag_if(d1 < d0, "reversed period");
    cx.tag_if(d1 == d0, "period of one day");
    let mut some = |p: f64| cx.rng.chance(p);
    let (h0, h1, hc, ho, hp) = (some(0.7), some(0.7), some(0.7), some(0.7), some(0.85));
    let mut rep = FinancialReport {
        period: (d0, d1),
        balance_sheet_beg: h0.then(|| statement(&mut cx.rng, mg)),
        balance_sheet_end: h1.then(|| statement(&mut cx.rng, mg)),
        profit_loss: hp.then(|| statement(&mut cx.rng, mg)),
        cash_flow: hc.then(|| statement(&mut cx.rng, mg)),
        others: ho.then(|| {
            let t = tax_rates(&mut cx.rng);
            let mut o = others(&mut cx.rng, t);
            match cx.rng.below(8) {
                0 => o.clear(),
                1 => o.retain(|_, v| *v == 0.0),
                2 => {
                    let p = cx.rng.uni(0.0, 1.0);
                    o.retain(|_, _| cx.rng.chance(p));
                }
                3 => o.values_mut().for_each(|v| *v = cx.rng.amount()),
                _ => {}
            }
            cx.tag_if(o.is_empty(), "other items present but empty");
            o
        }),
    };
    if h0 && h1 && cx.rng.chance(0.1) {
        rep.balance_sheet_end = rep.balance_sheet_beg.as_ref().map(|b| alike(&mut cx.rng, b));
        cx.tag_if(rep.balance_sheet_beg == rep.balance_sheet_end, "equal balance sheets");
    }
    cx.inp("period", (d0, d1));
    cx.inp("present", vec![h0, h1, hp, hc, ho]);
    cx.inp("beg", rep.balance_sheet_beg.clone());
    cx.inp("end", rep.balance_sheet_end.clone());
    cx.inp("profit and loss", rep.profit_loss.clone());
    cx.inp("cash flow", rep.cash_flow.clone());
    let orig = rep.clone();
    let (b0, b1, pl, cf, ot) = lib!("to_statements", rep.to_statements());
    cx.that("report unchanged by to_statements", rep == orig)?;
    let wb0 = rep.balance_sheet_beg.clone().map(|items| BalanceSheet { date: d0, items });
    let wb1 = rep.balance_sheet_end.clone().map(|items| BalanceSheet { date: d1, items });
    let wpl = rep.profit_loss.clone().map(|items| ProfitLoss { period: (d0, d1), items });
    let wcf = rep.cash_flow.clone().map(|items| CashFlow { period: (d0, d1), items });
    let wot = rep.others.clone().map(|items| FinOthers { period: (d0, d1), items });
    cx.same("opening balance sheet", b0.clone(), wb0.clone())?;
    cx.same("closing balance sheet", b1.clone(), wb1.clone())?;
    cx.same("profit and loss", pl.clone(), wpl.clone())?;
    cx.same("cash flow", cf.clone(), wcf.clone())?;
    cx.same("others", ot.clone(), wot.clone())?;
    let x = lib!("balance_sheet_beg", rep.balance_sheet_beg());
    cx.same("balance_sheet_beg()", x, wb0)?;
    let x = lib!("balance_sheet_end", rep.balance_sheet_end());
    cx.same("balance_sheet_end()", x, wb1)?;
    let x = lib!("profit_loss", rep.profit_loss());
    cx.same("profit_loss()", x, wpl)?;
    let x = lib!("cash_flow", rep.cash_flow());
    cx.same("cash_flow()", x, wcf)?;
    let x = lib!("fin_others", rep.fin_others());
    cx.same("fin_others()", x, wot)?;
    if !hp {
        cx.tag("report without profit and loss");
        return Ok(());
    }
    let back = lib!("from_statements", FinancialReport::from_statements(&b0, &b1, &pl, &cf, &ot));
    cx.same("reassembled report", back, Some(rep.clone()))?;
    // mismatches: every single one, and a random combination
    let shift = |r: &mut Rng, d: &mut D| {
        let k = match r.below(5) {
            0 => 1,
            1 => -1,
            2 => (d1 - d0).num_days(),
            // the same day of another year
            3 => r.pick(&[365, 366, -365, 730, 1461, 36524, 146097, -146097]),
            _ => r.int(2, 400) * if r.chance(0.5) { 1 } else { -1 },
        };
        *d += Duration::days(if k == 0 { 7 } else { k });
    };
    for w in 0..8u32 {
        let set: u32 = if w < 6 { 1 << w } else { cx.rng.int(1, 63) as u32 };
        let (mut b0, mut b1, mut cf, mut ot) = (b0.clone(), b1.clone(), cf.clone(), ot.clone());
        let mut bad = false;
        if let (Some(b), true) = (&mut b0, set & 1 != 0) {
            shift(&mut cx.rng, &mut b.date);
            bad = true;
            cx.tag_if(w < 6, "opening date differs");
        }
        if let (Some(b), true) = (&mut b1, set & 2 != 0) {
            shift(&mut cx.rng, &mut b.date);
            bad = true;
            cx.tag_if(w < 6, "closing date differs");
        }
        if let (Some(c), true) = (&mut cf, set & 4 != 0) {
            shift(&mut cx.rng, &mut c.period.0);
            bad = true;
            cx.tag_if(w < 6, "cash flow begin differs");
        }
        if let (Some(c), true) = (&mut cf, set & 8 != 0) {
            shift(&mut cx.rng, &mut c.period.1);
            bad = true;
            cx.tag_if(w < 6, "cash flow end differs");
        }
        if let (Some(c), true) = (&mut ot, set & 16 != 0) {
            shift(&mut cx.rng, &mut c.period.0);
            bad = true;
            cx.tag_if(w < 6, "others begin differs");
        }
        if let (Some(c), true) = (&mut ot, set & 32 != 0) {
            shift(&mut cx.rng, &mut c.period.1);
            bad = true;
            cx.tag_if(w < 6, "others end differs");
        }
        if !bad {
            continue;
        }
        cx.inp("mismatch set", set);
        let g = lib!("from_statements", FinancialReport::from_statements(&b0, &b1, &pl, &cf, &ot));
        cx.that_with(g.is_none(), || {
            format!("a report was assembled for {:?} from statements dated {:?} {:?} {:?} {:?}", (d0, d1), b0.as_ref().map(|b| b.date), b1.as_ref().map(|b| b.date), cf.as_ref().map(|b| b.period), ot.as_ref().map(|b| b.period))
        })?;
    }
    Ok(())
}

// ------------------------------------------------------------------ C28
fn c28(cx: &mut Cx) -> Res {
    let mg = mag(&mut cx.rng);
    mtag(cx, mg);
    let mut a = ledger(&mut cx.rng, &LedgerOpts { periods: 9, mag: mg, rates: true });
    // some balance sheets missing although the period is reported
    let ds: Vec<D> = a.balance_sheet.keys().copied().collect();
    for d in ds {
        if cx.rng.chance(0.15) {
            a.balance_sheet.remove(&d);
        }
    }
    if cx.rng.chance(0.3) {
        for m in a.cash_flow.values_mut() {
            stale(&mut cx.rng, m);
        }
        for m in a.profit_loss.values_mut() {
            stale(&mut cx.rng, m);
        }
        cx.tag("stale totals");
    }
    let ps: Vec<P> = a.profit_loss.keys().copied().collect();
    // figures just beside a reported period
    if cx.rng.chance(0.4) {
        for p in &ps {
            if cx.rng.chance(0.5) {
                continue;
            }
            let k = Duration::days(cx.rng.pick(&[-31, -7, -1, 1, 1, 7, 31]));
            let (mut x, mut d) = (*p, p.1);
            match cx.rng.below(4) {
                0 => x.0 += k,
                1 => x.1 += k,
                2 => x = (x.0 + k, x.1 + k),
                _ => d = p.0,
            }
            match cx.rng.below(3) {
                0 if !ps.contains(&x) => {
                    a.others.entry(x).or_insert_with(HashMap::new);
                }
                1 if !ps.contains(&x) => {
                    a.cash_flow.entry(x).or_insert_with(|| statement(&mut cx.rng, mg));
                }
                _ => {
                    a.balance_sheet.entry(d + k).or_insert_with(|| statement(&mut cx.rng, mg));
                }
            }
        }
        cx.tag("figures beside the reported periods");
    }
    cx.inp("ledger", a.clone());
    cx.trivial = a.profit_loss.is_empty();
    cx.tag_if(ps.len() > 20, "more than 20 periods");
    fn of(w: &Accounts, p: P) -> FinancialReport {
        FinancialReport {
            period: p,
            balance_sheet_beg: w.balance_sheet.get(&p.0).cloned(),
            balance_sheet_end: w.balance_sheet.get(&p.1).cloned(),
            profit_loss: w.profit_loss.get(&p).cloned(),
            cash_flow: w.cash_flow.get(&p).cloned(),
            others: w.others.get(&p).cloned(),
        }
    }
    // the ledger as it stands for the calculation; the reports are taken from
    // one where ratios of some periods are missing
    let full = a.clone();
    if cx.rng.chance(0.5) {
        for p in &ps {
            if cx.rng.chance(0.4) {
                a.others.remove(p);
                cx.tag("ratios missing");
            }
        }
        cx.inp("ledger the reports are taken from", a.clone());
    }
    let w = a.clone();
    let view = |p: P| of(&w, p);
    for p in &ps {
        let g = lib!("get_account", a.get_account(p.0, p.1));
        cx.same("extracted report", g, Some(view(*p)))?;
    }
    // periods that are not reported
    let mut other: Vec<P> = vec![];
    for p in &ps {
        let q = ps[cx.rng.below(ps.len())];
        other.extend([(p.0, q.1), (p.1, p.0), (p.0 + Duration::days(1), p.1), (p.0, p.1 + Duration::days(1))]);
    }
    other.extend(a.cash_flow.keys().copied());
    for p in other {
        if !ps.contains(&p) {
            let g = lib!("get_account", a.get_account(p.0, p.1));
            cx.that_with(g.is_none(), || format!("a report for the period {p:?}, which is not reported"))?;
        }
    }
    let l = lib!("to_financial_reports", a.to_financial_reports());
    let want: Vec<_> = ps.iter().map(|p| view(*p)).collect();
    cx.same("number of reports", l.len(), want.len())?;
    for (g, e) in l.iter().zip(&want) {
        cx.same("report in the list", g, e)?;
    }
    cx.that("ledger unchanged by extracting reports", a == w)?;
    // calculation
    a = full.clone();
    let w = full;
    let view = |p: P| of(&w, p);
    lib!("ledger calc_elements, calc_cash_flow", {
        a.calc_elements();
        a.calc_cash_flow();
    });
    cx.that("periods of profit and loss and dates of balance sheets unchanged", a.profit_loss.keys().eq(w.profit_loss.keys()) && a.balance_sheet.keys().eq(w.balance_sheet.keys()) && a.others == w.others)?;
    for p in &ps {
        let both = w.balance_sheet.contains_key(&p.0) && w.balance_sheet.contains_key(&p.1);
        let mut rep = view(*p);
        lib!(format!("report calc_elements of {p:?}"), { rep.calc_elements(); });
        let e = HashMap::new();
        let pair = [
            (a.balance_sheet.get(&p.0), rep.balance_sheet_beg.as_ref(), "opening balance sheet"),
            (a.balance_sheet.get(&p.1), rep.balance_sheet_end.as_ref(), "closing balance sheet"),
        ];
        for (x, y, n) in pair {
            cx.that_with(x.is_some() == y.is_some(), || format!("{n} of {p:?} in ledger: {}, in report: {}", x.is_some(), y.is_some()))?;
            if let (Some(x), Some(y)) = (x, y) {
                close_maps(cx, &format!("{n} of {p:?}, report against ledger"), y, x)?;
            }
        }
        close_maps(cx, &format!("profit and loss of {p:?}, report against ledger"), rep.profit_loss.as_ref().unwrap_or(&HashMap::new()), &a.profit_loss[p])?;
        let (x, y) = (a.cash_flow.get(p), rep.cash_flow.as_ref());
        cx.that_with(x.is_some() == y.is_some(), || format!("cash flow of {p:?} in ledger: {}, in report: {}", x.is_some(), y.is_some()))?;
        close_maps(cx, &format!("cash flow of {p:?}, report against ledger"), y.unwrap_or(&e), x.unwrap_or(&e))?;
        cx.that_with(rep.others == w.others.get(p).cloned() && rep.period == *p, || format!("ratios or period of the report {p:?} changed"))?;
        // against the reference
        if let (Some(b0), Some(b1), Some(m)) = (w.balance_sheet.get(&p.0), w.balance_sheet.get(&p.1), x) {
            cx.tag("both balance sheets");
            cx.tag_if(w.cash_flow.contains_key(p), "entered cash flow replaced by the derived one");
            let mut l = ref_lines(b0, b1, &ref_calc(&exact(&w.profit_loss[p])));
            l.insert(CfType::CashFlowTaxShield, (get(m, CfType::CashFlowTaxShield), 0.0));
            let r = ref_calc(&l);
            for (k, n) in CF {
                let (v, s) = gets(&r, *k);
                cx.close(format_args!("{n} of {p:?} in the ledger"), get(m, *k), v, s)?;
            }
        }
        if !both {
            cx.tag("balance sheet missing");
            if let Some(en) = w.cash_flow.get(p) {
                cx.tag("entered cash flow without balance sheets");
                let m = x.ok_or(Viol(format!("entered cash flow of {p:?} lost")))?;
                check_calc(cx, &format!("entered cash flow of {p:?}"), m, &en.iter().filter(|x| !x.0.is_total()).map(|(k, v)| (*k, *v)).collect())?;
            }
        }
    }
    // cash flows of periods that are not reported stay
    for (p, m) in &w.cash_flow {
        if !ps.contains(p) {
            let g = a.cash_flow.get(p).ok_or(Viol(format!("cash flow of {p:?} lost")))?;
            check_calc(cx, "cash flow outside the reported periods", g, &m.iter().filter(|x| !x.0.is_total()).map(|(k, v)| (*k, *v)).collect())?;
        }
    }
    Ok(())
}
fn close_maps<T: Item>(cx: &mut Cx, what: &str, a: &Map<T>, b: &Map<T>) -> Res {
    let g = 1e-14 * gross(b) + 1e-12;
    for (k, n) in T::all() {
        cx.close(format_args!("{what}: {n}"), get(a, *k), get(b, *k), g)?;
    }
    Ok(())
}

// ------------------------------------------------------------------ C29
fn c29(cx: &mut Cx) -> Res {
    let top = if cx.rng.chance(0.02) { 5000 } else { 400 };
    let long = cx.rng.very_long(3e-5, 100_000);
    cx.tag_if(long.is_some(), "very long");
    let n = match cx.rng.below(6) {
        _ if long.is_some() => long.unwrap() as usize,
        0 => 1,
        1 => 2,
        2 => cx.rng.int(50, top) as usize,
        _ => cx.rng.int(2, 14) as usize,
    };
    let mut d = cx.rng.mdate();
    let step = cx.rng.below(if n < 40 { 6 } else { 4 });
    let mut v: Vec<P> = vec![];
    for _ in 0..n {
        let k = match step {
            0 => cx.rng.int(1, 400),
            1 => cx.rng.pick(&[365, 366]),
            2 => cx.rng.pick(&[90, 91, 92]),
            4 => cx.rng.int(300, 6000),
            5 => cx.rng.pick(&[1, 30, 89, 120, 121, 365, 730, 3652]),
            _ => cx.rng.pick(&[0, 0, 1, 30]),
        };
        v.push((d, d + Duration::days(k)));
        d += Duration::days(k);
    }
    let i = match cx.rng.below(4) {
        0 => 0,
        1 => n - 1,
        _ => cx.rng.below(n),
    };
    let far = cx.rng.pick(&[40, 400, 4000]);
    let k = match cx.rng.below(3) {
        0 => 1,
        1 => cx.rng.int(1, 5),
        _ => cx.rng.int(1, far),
    };
    match cx.rng.below(10) {
        0 => v[i].0 += Duration::days(k),
        1 => v[i].0 -= Duration::days(k),
        2 => v[i].1 += Duration::days(k),
        3 => v[i].1 -= Duration::days(k),
        4 => v[i] = (v[i].1, v[i].0),
        5 if n > 2 => {
            v.remove(i);
        }
        6 if n > 1 => {
            let j = cx.rng.below(n);
            v.swap(i, j);
        }
        7 if n > 1 => {
            let x = v[i];
            v.insert(i, x);
        }
        8 => {
            // all later dates moved by whole years or months, or one field of one date changed
            let (f, k) = (cx.rng.below(3), cx.rng.pick(&[1, 4, 10, 12, 100, 200, 400]) * cx.rng.pick(&[1, -1]));
            let mv = |x: &mut D, f: usize| {
                *x = match f {
                    0 => x.with_year(x.year() + k),
                    1 => x.with_month0((x.month0() as i32 + k).rem_euclid(12) as u32),
                    _ => x.with_day0((x.day0() as i32 + k).rem_euclid(28) as u32),
                }
                .unwrap_or(*x)
            };
            if cx.rng.chance(0.5) {
                for p in &mut v[i..] {
                    mv(&mut p.0, 0);
                    mv(&mut p.1, 0);
                }
            } else if cx.rng.chance(0.5) {
                mv(&mut v[i].0, f);
            } else {
                mv(&mut v[i].1, f);
            }
        }
        _ => (),
    }
    cx.inp("periods", v.clone());
    let ok = v.iter().all(|p| p.0 <= p.1) && v.windows(2).all(|w| w[0].1 == w[1].0);
    cx.tag(if ok { "valid sequence" } else { "defective sequence" });
    cx.tag_if(ok && v.len() > 1, "valid sequence of several periods");
    cx.tag_if(ok && v.len() > 50, "long valid sequence");
    cx.tag_if(v.last().unwrap().0 > v.last().unwrap().1, "reversed last period");
    let g = lib!("check_dates", financelib::statements::check_dates(&v));
    cx.same("check_dates", g, ok)?;
    // as a ledger
    let mg = Mag::Whole;
    let mut a = Accounts {
        currency: Currency::EUR,
        consolidated: false,
        dates: BTreeSet::new(),
        balance_sheet: BTreeMap::new(),
        profit_loss: v.iter().map(|p| (*p, HashMap::new())).collect(),
        cash_flow: BTreeMap::new(),
        others: BTreeMap::new(),
    };
    if cx.rng.chance(0.1) {
        for m in a.profit_loss.values_mut().take(20) {
            if cx.rng.chance(0.7) {
                *m = statement(&mut cx.rng, mg);
            }
        }
        cx.tag("ledger with figures");
    }
    for _ in 0..cx.rng.below(4) {
        let d = cx.rng.mdate();
        a.dates.insert(d);
        if cx.rng.chance(0.5) {
            a.balance_sheet.insert(d + Duration::days(3), statement(&mut cx.rng, mg));
        }
    }
    let keys: Vec<P> = a.profit_loss.keys().copied().collect();
    let ok = keys.iter().all(|p| p.0 <= p.1) && keys.windows(2).all(|w| w[0].1 == w[1].0);
    let g = lib!("Accounts::check_dates", a.check_dates());
    cx.same("Accounts::check_dates", g, ok)?;
    let rev = keys.iter().any(|p| p.0 > p.1);
    let w = a.clone();
    let mut want = a.dates.clone();
    for p in &keys {
        want.insert(p.0);
        want.insert(p.1);
    }
    let r = guarded(|| { a.set_dates_from_profit_loss(); });
    cx.tag_if(rev, "reversed period in a ledger");
    match r {
        Ok(()) => {
            cx.that("a ledger with a reversed period was accepted", !rev)?;
            cx.same("recorded dates", a.dates.clone(), want.clone())?;
            for _ in 0..4 {
                let d = if cx.rng.chance(0.5) { keys[cx.rng.below(keys.len())].1 + Duration::days(cx.rng.int(-1, 1)) } else { cx.rng.mdate() };
                let g = lib!("valid_date", a.valid_date(d));
                cx.that_with(g == want.contains(&d), || format!("valid_date({d}) is {g}"))?;
            }
        }
        Err(p) => cx.that_with(rev, || format!("set_dates_from_profit_loss panicked on ordered periods: {p}"))?,
    }
    a.dates = w.dates.clone();
    cx.that("nothing but the dates changed", a == w)
}

// ------------------------------------------------------------------ C30
fn chain_ref(s: &BTreeSet<P>) -> BTreeSet<P> {
    let mut o = BTreeSet::new();
    let Some(mut e) = s.iter().map(|p| p.1).max() else { return o };
    let day = e.day();
    loop {
        let q = (back(e, 3, day), e);
        let y = (back(e, 12, day), e);
        let p = if s.contains(&q) {
            q
        } else if s.contains(&y) {
            y
        } else {
            return o;
        };
        o.insert(p);
        e = p.0;
    }
}
fn period_set(cx: &mut Cx) -> BTreeSet<P> {
    let y = if cx.rng.chance(0.06) { cx.rng.int(1400, 2900) } else { cx.rng.int(1950, 2060) };
    let mut e = cx.rng.date_in(y);
    if cx.rng.chance(0.3) {
        let m = cx.rng.pick(&[3, 6, 9, 12]);
        e = cal::date(y, m, cal::mlen(y, m));
    }
    let end = e;
    let day = e.day();
    let long = cx.rng.very_long(1e-4, 4000);
    cx.tag_if(long.is_some(), "very long");
    let n = match cx.rng.below(6) {
        _ if long.is_some() => long.unwrap(),
        0 => cx.rng.int(95, 260),
        1 => cx.rng.int(0, 2),
        _ => cx.rng.int(1, 24),
    };
    let quarters = cx.rng.pick(&[0.0, 1.0, 0.5, 0.8]);
    let mut s = BTreeSet::new();
    for _ in 0..n {
        let q = cx.rng.chance(quarters);
        let b = back(e, if q { 3 } else { 12 }, day);
        s.insert((b, e));
        if cx.rng.chance(0.15) {
            // both reported
            s.insert((back(e, 12, day), e));
            s.insert((back(e, 3, day), e));
        }
        e = b;
        if e.year() < 1500 {
            break;
        }
    }
    // disturbances
    let v: Vec<P> = s.iter().copied().collect();
    for _ in 0..cx.rng.below(4) {
        if v.is_empty() {
            break;
        }
        let p = v[cx.rng.below(v.len())];
        match cx.rng.below(8) {
            0 => {
                s.remove(&p);
                cx.tag("gap in the chain");
            }
            1 => {
                s.insert((p.0 + Duration::days(1), p.1));
            }
            2 => {
                s.insert((back(p.1, 6, day), p.1));
            }
            3 => {
                s.insert((p.0, p.1 - Duration::days(1)));
            }
            4 => {
                s.insert((p.1 - Duration::days(30), p.1));
            }
            5 => {
                s.remove(&p);
                s.insert((p.0 + Duration::days(1), p.1));
            }
            6 => {
                let e2 = end + Duration::days(cx.rng.int(1, 200));
                s.insert((back(e2, cx.rng.pick(&[3, 12, 5]), e2.day()), e2));
                cx.tag("later period outside the chain");
            }
            _ => {
                let x = cx.rng.mdate();
                s.insert((x, x + Duration::days(91)));
            }
        }
    }
    s
}
fn project_ref(a: &Accounts, ps: &BTreeSet<P>) -> Accounts {
    let dates: BTreeSet<D> = ps.iter().flat_map(|p| [p.0, p.1]).collect();
    Accounts {
        currency: a.currency,
        consolidated: a.consolidated,
        balance_sheet: a.balance_sheet.iter().filter(|x| dates.contains(x.0)).map(|(k, v)| (*k, v.clone())).collect(),
        profit_loss: a.profit_loss.iter().filter(|x| ps.contains(x.0)).map(|(k, v)| (*k, v.clone())).collect(),
        cash_flow: a.cash_flow.iter().filter(|x| ps.contains(x.0)).map(|(k, v)| (*k, v.clone())).collect(),
        others: a.others.iter().filter(|x| ps.contains(x.0)).map(|(k, v)| (*k, v.clone())).collect(),
        dates,
    }
}
fn c30(cx: &mut Cx) -> Res {
    let s = period_set(cx);
    cx.inp("periods", s.iter().copied().collect::<Vec<_>>());
    cx.trivial = s.is_empty();
    let w = chain_ref(&s);
    cx.tag_if(w.is_empty(), "empty chain");
    cx.tag_if(w.len() > 100, "chain of more than 100 links");
    cx.tag_if(w.iter().any(|p| p.1.day() > 28), "month ends");
    cx.tag_if(w.iter().any(|p| p.0.day() != p.1.day()), "begin day clamped to a shorter month");
    cx.tag_if(w.iter().any(|p| (p.1 - p.0).num_days() > 200) && w.iter().any(|p| (p.1 - p.0).num_days() < 200), "years and quarters in one chain");
    let g = lib!("consecutive_periods", consecutive_periods(&s));
    if g != w {
        let a: Vec<_> = g.difference(&w).collect();
        let b: Vec<_> = w.difference(&g).collect();
        return Err(Viol(format!("consecutive periods: {} links instead of {}; not expected {a:?}, missing {b:?}", g.len(), w.len())));
    }
    cx.checks += 1;
    // projection
    let mg = Mag::Cents;
    let mut a = Accounts {
        currency: CUR[cx.rng.below(CUR.len())].0,
        consolidated: cx.rng.chance(0.5),
        dates: BTreeSet::new(),
        balance_sheet: BTreeMap::new(),
        profit_loss: BTreeMap::new(),
        cash_flow: BTreeMap::new(),
        others: BTreeMap::new(),
    };
    let small = s.len() < 40;
    for p in &s {
        let st = |x: &mut Cx| -> Map<PlType> { if small { statement(&mut x.rng, mg) } else { HashMap::from([(PlType::Salaries, money(&mut x.rng, mg))]) } };
        if cx.rng.chance(0.95) {
            let m = st(cx);
            a.profit_loss.insert(*p, m);
        }
        if cx.rng.chance(0.9) {
            a.cash_flow.insert(*p, HashMap::from([(CfType::OtherCashFlowOperations, money(&mut cx.rng, mg))]));
        }
        if cx.rng.chance(0.5) {
            let t = tax_rates(&mut cx.rng);
            a.others.insert(*p, others(&mut cx.rng, t));
        }
        for d in [p.0, p.1] {
            if cx.rng.chance(0.7) {
                a.balance_sheet.insert(d, HashMap::from([(BsType::Cash, money(&mut cx.rng, mg))]));
            }
            if cx.rng.chance(0.7) {
                a.dates.insert(d);
            }
        }
    }
    cx.inp("ledger", a.clone());
    let orig = a.clone();
    let pl: BTreeSet<P> = a.profit_loss.keys().copied().collect();
    let cf: BTreeSet<P> = a.cash_flow.keys().copied().collect();
    let g = lib!("consecutive_profit_loss", a.consecutive_profit_loss());
    same_ledger(cx, "consecutive_profit_loss", &g, &project_ref(&a, &chain_ref(&pl)))?;
    let g = lib!("consecutive_cash_flow", a.consecutive_cash_flow());
    same_ledger(cx, "consecutive_cash_flow", &g, &project_ref(&a, &chain_ref(&cf)))?;
    let v: Vec<P> = s.iter().copied().collect();
    let mut sub: BTreeSet<P> = v.iter().copied().filter(|_| cx.rng.chance(0.5)).collect();
    if cx.rng.chance(0.3) {
        let x = cx.rng.mdate();
        sub.insert((x, x + Duration::days(91)));
        cx.tag("projection on a period without figures");
    }
    cx.inp("chosen periods", sub.iter().copied().collect::<Vec<_>>());
    let g = lib!("from_periods", a.from_periods(sub.clone()));
    same_ledger(cx, "from_periods", &g, &project_ref(&a, &sub))?;
    cx.that("original ledger unchanged", a == orig)
}

// ------------------------------------------------------------------ C31
fn c31(cx: &mut Cx) -> Res {
    let mut a = Accounts {
        currency: Currency::GBP,
        consolidated: true,
        dates: BTreeSet::new(),
        balance_sheet: BTreeMap::new(),
        profit_loss: BTreeMap::new(),
        cash_flow: BTreeMap::new(),
        others: BTreeMap::new(),
    };
    let many = cx.rng.chance(0.01);
    cx.tag_if(many, "many periods");
    let figures = cx.rng.chance(0.02);
    cx.tag_if(figures, "ledger with figures");
    let long = cx.rng.very_long(5e-5, 70_000);
    cx.tag_if(long.is_some(), "very long");
    for _ in 0..if let Some(n) = long { n } else if many { cx.rng.int(50, 500) } else { cx.rng.int(0, 11) } {
        let d = cx.rng.date();
        let d = if d.year().abs() > 9000 { cx.rng.mdate() } else { d };
        let far = cx.rng.pick(&[400, 800, 40_000]);
        let k = match cx.rng.below(6) {
            0 | 1 => cx.rng.int(117, 123),
            2 => cx.rng.pick(&[120, 120, 119, 121, 122, 118]),
            3 => cx.rng.pick(&[0, 1, 89, 90, 91, 92, 365, 366]),
            4 => cx.rng.int(0, far),
            _ => -cx.rng.int(1, far),
        };
        let m = if figures && cx.rng.chance(0.5) { statement(&mut cx.rng, Mag::Whole) } else { HashMap::new() };
        if figures && cx.rng.chance(0.5) {
            a.cash_flow.insert((d, d + Duration::days(k)), statement(&mut cx.rng, Mag::Whole));
        }
        if figures && cx.rng.chance(0.3) {
            a.dates.insert(d);
        }
        for e in [d, d + Duration::days(k)] {
            if (figures || long.is_none() && cx.rng.chance(0.05)) && cx.rng.chance(0.4) {
                a.balance_sheet.insert(e, if figures { statement(&mut cx.rng, Mag::Whole) } else { HashMap::new() });
            }
        }
        if figures && cx.rng.chance(0.4) {
            let t = tax_rates(&mut cx.rng);
            a.others.insert((d, d + Duration::days(k)), others(&mut cx.rng, t));
        }
        a.profit_loss.insert((d, d + Duration::days(k)), m);
        cx.tag_if(k == 120, "exactly 120 days");
        cx.tag_if(k == 121, "121 days");
        cx.tag_if(k < 0, "reversed");
        if cx.rng.chance(0.2) {
            // same length or same end as another one
            let e = d + Duration::days(k);
            a.profit_loss.insert((d - Duration::days(200), e), HashMap::new());
        }
    }
    cx.inp("periods", a.profit_loss.keys().copied().collect::<Vec<_>>());
    cx.trivial = a.profit_loss.is_empty();
    let w = a.clone();
    let (y, q) = lib!("split_periods", a.split_periods());
    let len = |p: &P| cal::dayno(p.1) - cal::dayno(p.0);
    let wy: BTreeSet<P> = a.profit_loss.keys().copied().filter(|p| len(p) > 120).collect();
    let wq: BTreeSet<P> = a.profit_loss.keys().copied().filter(|p| len(p) <= 120).collect();
    cx.same("annual periods", y, wy)?;
    cx.same("quarterly periods", q, wq)?;
    cx.that("ledger unchanged", a == w)
}

// ------------------------------------------------------------------ C32
struct Section {
    title: String,
    heads: Vec<(String, Vec<String>)>,
    rows: Vec<(String, Vec<String>)>,
}
fn parse_table(t: &str, sep: &str, cur: &str) -> Result<(f64, Vec<Section>), Viol> {
    let mut mult = None;
    let mut secs: Vec<Section> = vec![];
    for l in t.lines() {
        if l.trim().is_empty() {
            continue;
        }
        let c: Vec<String> = l.split(sep).map(|x| x.trim().to_string()).collect();
        if mult.is_none() {
            if c.len() != 3 || c[1] != cur {
                return Err(Viol(format!("first line of the table is {l:?}")));
            }
            mult = Some(c[2].parse::<f64>().map_err(|_| Viol(format!("multiplier in {l:?}")))?);
            continue;
        }
        let up = !l.contains(sep) && l.trim().len() > 8 && l.chars().all(|x| x.is_ascii_uppercase() || " -".contains(x));
        if up {
            secs.push(Section { title: c[0].clone(), heads: vec![], rows: vec![] });
            continue;
        }
        let Some(s) = secs.last_mut() else { return Err(Viol(format!("line {l:?} before any section"))) };
        let r = (c[0].clone(), c[1..].to_vec());
        if ["Date", "Begin Date", "End Date"].contains(&c[0].as_str()) {
            s.heads.push(r);
        } else {
            s.rows.push(r);
        }
    }
    Ok((mult.ok_or(Viol("no multiplier in the table".into()))?, secs))
}
fn ym(d: &D) -> String {
    format!("{}-{:02}", d.year(), d.month())
}
fn check_rows<K: Ord, T: Copy + Eq + std::hash::Hash>(cx: &mut Cx, at: &str, s: &Section, items: &[(T, &str)], cols: &[K], h: &BTreeMap<K, HashMap<T, f64>>, mult: f64, pct: bool) -> Res {
    for (k, n) in items {
        let rows: Vec<_> = s.rows.iter().filter(|r| r.0 == *n).collect();
        let any = h.values().any(|m| get(m, *k) != 0.0);
        cx.that_with(!any || !rows.is_empty(), || format!("{at}, section {}: no row for {n}", s.title))?;
        for r in rows {
            cx.that_with(r.1.len() == cols.len(), || format!("{at}, section {}: row {n} has {} cells for {} columns", s.title, r.1.len(), cols.len()))?;
            for (i, c) in cols.iter().enumerate() {
                let cell = &r.1[i];
                match h.get(c) {
                    None => cx.that_with(cell.is_empty(), || format!("{at}, section {}: {n}, column {i}: {cell:?} although there is no statement", s.title))?,
                    Some(m) => {
                        let v = get(m, *k);
                        let ok = if pct && v != 0.0 {
                            cell.strip_suffix('%').and_then(|x| x.trim().parse::<f64>().ok()).is_some_and(|x| (x - 100.0 * v).abs() <= 0.0500001)
                        } else {
                            cell.parse::<f64>().is_ok_and(|x| (x - v / mult).abs() <= 0.5000001 + 1e-12 * (v / mult).abs() && x == x.trunc()) || (v == 0.0 && cell == "0.0%")
                        };
                        cx.that_with(ok, || format!("{at}, section {}: {n}, column {i} shows {cell:?} for {v} at multiplier {mult}", s.title))?;
                    }
                }
            }
        }
    }
    Ok(())
}
fn check_table(cx: &mut Cx, at: &str, t: &str, sep: &str, a: &Accounts, want_mult: Option<f64>) -> Res {
    let cur = CUR.iter().find(|x| x.0 == a.currency).unwrap().1;
    let (mult, secs) = parse_table(t, sep, cur)?;
    match want_mult {
        Some(m) => cx.that_with((mult - m).abs() <= 1e-12 * m, || format!("{at}: multiplier {mult} stated instead of {m}"))?,
        None => {
            let e = mult.log10() / 3.0;
            cx.that_with(mult > 0.0 && mult.is_finite() && (e - e.round()).abs() < 1e-9, || format!("{at}: multiplier {mult} is no power of 1000"))?;
            // significant digits of the largest total assets or revenue
            let top = a.balance_sheet.values().map(|m| get(m, BsType::Assets)).chain(a.profit_loss.values().map(|m| get(m, PlType::Revenue))).fold(0.0, f64::max);
            if (1.0..9e18).contains(&top) {
                cx.tag("largest total at least one unit");
                cx.that_with((5e4..2e8).contains(&(top / mult)), || format!("{at}: multiplier {mult} for a largest total of {top}"))?;
            }
            cx.tag_if(mult > 1.0, "display multiplier above 1");
            cx.tag_if(mult <= 1.0, "display multiplier up to 1");
        }
    }
    let len = |p: &P| cal::dayno(p.1) - cal::dayno(p.0);
    let ann: Vec<P> = a.profit_loss.keys().copied().filter(|p| len(p) > 120).collect();
    let qtr: Vec<P> = a.profit_loss.keys().copied().filter(|p| len(p) <= 120).collect();
    let bsd: Vec<D> = a.balance_sheet.keys().copied().collect();
    let find = |n: &str| secs.iter().find(|s| s.title == n);
    let in_lay = |n: &&(PlType, &'static str)| PlType::lay().iter().any(|l| l.0 == n.0 || l.1.contains(&n.0) || l.2.contains(&n.0));
    let pli: Vec<_> = PL.iter().filter(in_lay).copied().collect();
    let rates: Vec<_> = OT[..3].to_vec();
    let s = find("BALANCE SHEETS").ok_or(Viol(format!("{at}: no balance sheets")))?;
    let want: Vec<String> = bsd.iter().map(ym).collect();
    cx.same(format_args!("{at}: balance sheet dates"), s.heads.clone(), vec![("Date".to_string(), want)])?;
    check_rows(cx, at, s, BS, &bsd, &a.balance_sheet, mult, false)?;
    for (part, ps) in [("ANNUAL", &ann), ("QUARTERLY", &qtr)] {
        let heads = vec![
            ("Begin Date".to_string(), ps.iter().map(|p| ym(&p.0)).collect::<Vec<_>>()),
            ("End Date".to_string(), ps.iter().map(|p| ym(&p.1)).collect()),
        ];
        for kind in ["PROFIT LOSS", "CASH FLOW"] {
            let title = format!("{kind} - {part}");
            let Some(s) = find(&title) else {
                cx.that_with(ps.is_empty(), || format!("{at}: no section {title}"))?;
                continue;
            };
            cx.same(format_args!("{at}: columns of {title}"), s.heads.clone(), heads.clone())?;
            if kind == "PROFIT LOSS" {
                check_rows(cx, at, s, &pli, ps, &a.profit_loss, mult, false)?;
                check_rows(cx, at, s, &rates, ps, &a.others, 1.0, true)?;
            } else {
                check_rows(cx, at, s, CF, ps, &a.cash_flow, mult, false)?;
            }
        }
    }
    Ok(())
}
fn c32(cx: &mut Cx) -> Res {
    let mg = cx.rng.pick(&[Mag::Whole, Mag::Whole, Mag::Big, Mag::Cents]);
    let rates = cx.rng.chance(0.7);
    let mut a = ledger(&mut cx.rng, &LedgerOpts { periods: 7, mag: mg, rates });
    if cx.rng.chance(0.7) {
        lib!("calc_elements", { a.calc_elements(); });
    } else {
        cx.tag("without totals");
    }
    if rates && cx.rng.chance(0.4) {
        lib!("calc_cash_flow", { a.calc_cash_flow(); });
        cx.tag("derived cash flow");
    }
    // within the domain: amounts zero or at least one unit
    let big = cx.rng.chance(0.3);
    let fix = |v: &mut f64| {
        if big {
            *v *= 1e6;
        }
        if v.abs() < 1.0 {
            *v = 0.0;
        }
    };
    a.balance_sheet.values_mut().for_each(|m| m.values_mut().for_each(fix));
    a.profit_loss.values_mut().for_each(|m| m.values_mut().for_each(fix));
    a.cash_flow.values_mut().for_each(|m| m.values_mut().for_each(fix));
    // and tax rates zero or between 0.02 and 99.9 %
    for m in a.others.values_mut() {
        for k in [FinOthersTyp::CorporateTaxRate, FinOthersTyp::GrossProfitTaxRate, FinOthersTyp::RevenueTaxRate] {
            if let Some(v) = m.get_mut(&k) {
                *v = if *v < 2e-4 { 0.0 } else { v.min(0.999) };
            }
        }
    }
    if cx.rng.chance(0.1) {
        a.balance_sheet.clear();
        cx.tag("no balance sheets");
    }
    if cx.rng.chance(0.3) {
        a.others.retain(|_, _| cx.rng.chance(0.6));
    }
    let rated = a.profit_loss.keys().filter(|p| a.others.contains_key(*p)).count();
    cx.tag_if(rated > 0 && rated < a.profit_loss.len(), "tax rates for some periods only");
    cx.inp("ledger", a.clone());
    let len = |p: &P| cal::dayno(p.1) - cal::dayno(p.0);
    cx.tag_if(a.profit_loss.is_empty(), "no statements");
    cx.tag_if(a.profit_loss.keys().any(|p| len(p) <= 120), "quarterly periods");
    cx.tag_if(a.profit_loss.keys().any(|p| len(p) > 120) && a.profit_loss.keys().any(|p| len(p) <= 120), "annual and quarterly periods");
    cx.tag_if(a.profit_loss.keys().any(|p| !a.cash_flow.contains_key(p)), "period without cash flow");
    let w = a.clone();
    let sep = cx.rng.pick(&["|", ",", ";", "\t", " | "]);
    let mult = cx.rng.pick(&[1.0, 1.0, 1000.0, 1e6, 100.0, 1e7, 10.0, 12.0]);
    cx.inp("separator, multiplier", (sep, mult));
    let t = lib!("format_table", a.format_table(sep, mult));
    check_table(cx, "format_table", &t, sep, &a, Some(mult))?;
    let t = lib!("Display", format!("{a}"));
    check_table(cx, "Display", &t, "|", &a, None)?;
    if cx.rng.chance(0.05) {
        cx.tag("CSV file");
        let f = std::env::temp_dir().join(format!("verif-c32-{}-{}.csv", std::process::id(), cx.idx));
        let fs = f.to_string_lossy().to_string();
        // an older, longer file has to be replaced
        let _ = std::fs::write(&f, "x".repeat(200_000));
        let r = guarded(|| a.to_csv(&fs));
        let t = std::fs::read_to_string(&f);
        let _ = std::fs::remove_file(&f);
        r.map_err(|p| Viol(format!("to_csv panicked: {p}")))?;
        check_table(cx, "to_csv", &t.map_err(|e| Viol(format!("CSV file: {e}")))?, ",", &a, Some(1.0))?;
    }
    cx.that("ledger unchanged by printing", a == w)
}

// ------------------------------------------------------------------ C33
fn ser_value(r: &mut Rng) -> f64 {
    match r.below(10) {
        0 => 0.0,
        1 => r.sign() * r.log(1e-300, 1e-10),
        2 => r.sign() * r.log(1e10, 1e300),
        3 => f64::MIN_POSITIVE,
        4 => r.pick(&[f64::MAX, f64::MIN, 0.1, 1.0 / 3.0, 1e21, 1e16, 123456789012345680.0, -0.5]),
        5 => r.int(-1_000_000, 1_000_000) as f64,
        _ => r.amount(),
    }
}
fn ser_map<T: Copy + Eq + std::hash::Hash>(r: &mut Rng, all: &[(T, &'static str)]) -> HashMap<T, f64> {
    let d = r.pick(&[0.0, 0.1, 0.5, 1.0]);
    all.iter().filter(|_| r.chance(d)).map(|x| x.0).collect::<Vec<_>>().into_iter().map(|k| (k, ser_value(r))).collect()
}
fn ser_date(r: &mut Rng) -> D {
    let y = match r.below(4) {
        0 => r.int(1, 9999),
        _ => r.int(1900, 2100),
    };
    r.date_in(y)
}
fn jd(d: D) -> String {
    format!("\"{:04}-{:02}-{:02}\"", d.year(), d.month(), d.day())
}
fn doc_map<T: Copy + Eq + std::hash::Hash>(m: &HashMap<T, f64>, all: &[(T, &'static str)], json: bool) -> String {
    let q = if json { "\"" } else { "" };
    let v: Vec<String> = all.iter().filter_map(|(k, n)| m.get(k).map(|v| format!("{q}{n}{q}: {v:?}"))).collect();
    format!("{{{}}}", v.join(", "))
}
fn doc_opt<T: Copy + Eq + std::hash::Hash>(m: &Option<HashMap<T, f64>>, all: &[(T, &'static str)], json: bool) -> String {
    match (m, json) {
        (None, true) => "null".into(),
        (None, false) => "None".into(),
        (Some(m), true) => doc_map(m, all, true),
        (Some(m), false) => format!("Some({})", doc_map(m, all, false)),
    }
}
fn doc_report(x: &FinancialReport, json: bool) -> String {
    let p = if json { format!("[{}, {}]", jd(x.period.0), jd(x.period.1)) } else { format!("({}, {})", jd(x.period.0), jd(x.period.1)) };
    let f = [
        ("period", p),
        ("balance_sheet_beg", doc_opt(&x.balance_sheet_beg, BS, json)),
        ("balance_sheet_end", doc_opt(&x.balance_sheet_end, BS, json)),
        ("profit_loss", doc_opt(&x.profit_loss, PL, json)),
        ("cash_flow", doc_opt(&x.cash_flow, CF, json)),
        ("others", doc_opt(&x.others, OT, json)),
    ];
    let v: Vec<String> = f.iter().map(|(n, t)| if json { format!("\"{n}\": {t}") } else { format!("{n}: {t}") }).collect();
    if json {
        format!("{{{}}}", v.join(", "))
    } else {
        format!("({})", v.join(", "))
    }
}
fn doc_ledger(a: &Accounts) -> String {
    let mut s = format!("(currency: {}, consolidated: {}, dates: [", CUR.iter().find(|x| x.0 == a.currency).unwrap().1, a.consolidated);
    s += &a.dates.iter().map(|d| jd(*d)).collect::<Vec<_>>().join(", ");
    s += "], balance_sheet: {";
    for (k, m) in &a.balance_sheet {
        s += &format!("{}: {}, ", jd(*k), doc_map(m, BS, false));
    }
    s += "}, profit_loss: {";
    for (k, m) in &a.profit_loss {
        s += &format!("({}, {}): {}, ", jd(k.0), jd(k.1), doc_map(m, PL, false));
    }
    s += "}, cash_flow: {";
    for (k, m) in &a.cash_flow {
        s += &format!("({}, {}): {}, ", jd(k.0), jd(k.1), doc_map(m, CF, false));
    }
    s += "}, others: {";
    for (k, m) in &a.others {
        s += &format!("({}, {}): {}, ", jd(k.0), jd(k.1), doc_map(m, OT, false));
    }
    s + "})"
}
/// JSON text keeps numbers to the last digit or so
fn near_map<T: Copy + Eq + std::hash::Hash + std::fmt::Debug>(a: &HashMap<T, f64>, b: &HashMap<T, f64>) -> bool {
    a.len() == b.len() && a.iter().all(|(k, v)| b.get(k).is_some_and(|w| v == w || (v - w).abs() <= 4.5e-16 * w.abs()))
}
fn near_opt<T: Copy + Eq + std::hash::Hash + std::fmt::Debug>(a: &Option<HashMap<T, f64>>, b: &Option<HashMap<T, f64>>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => near_map(a, b),
        _ => false,
    }
}
fn near_report(a: &FinancialReport, b: &FinancialReport) -> bool {
    a.period == b.period
        && near_opt(&a.balance_sheet_beg, &b.balance_sheet_beg)
        && near_opt(&a.balance_sheet_end, &b.balance_sheet_end)
        && near_opt(&a.profit_loss, &b.profit_loss)
        && near_opt(&a.cash_flow, &b.cash_flow)
        && near_opt(&a.others, &b.others)
}
fn ser_report(r: &mut Rng) -> FinancialReport {
    let mut o = |p: f64| r.chance(p);
    let h = [o(0.7), o(0.7), o(0.7), o(0.7), o(0.7)];
    FinancialReport {
        period: (ser_date(r), ser_date(r)),
        balance_sheet_beg: h[0].then(|| ser_map(r, BS)),
        balance_sheet_end: h[1].then(|| ser_map(r, BS)),
        profit_loss: h[2].then(|| ser_map(r, PL)),
        cash_flow: h[3].then(|| ser_map(r, CF)),
        others: h[4].then(|| ser_map(r, OT)),
    }
}
fn ser_ledger(r: &mut Rng) -> Accounts {
    let n = |r: &mut Rng| r.below(4);
    let p = |r: &mut Rng| (ser_date(r), ser_date(r));
    Accounts {
        currency: CUR[r.below(CUR.len())].0,
        consolidated: r.chance(0.5),
        dates: (0..n(r)).map(|_| ser_date(r)).collect(),
        balance_sheet: (0..n(r)).map(|_| (ser_date(r), ser_map(r, BS))).collect(),
        profit_loss: (0..n(r)).map(|_| (p(r), ser_map(r, PL))).collect(),
        cash_flow: (0..n(r)).map(|_| (p(r), ser_map(r, CF))).collect(),
        others: (0..n(r)).map(|_| (p(r), ser_map(r, OT))).collect(),
    }
}
fn cut(s: &str) -> String {
    s.chars().take(300).collect()
}
/// write and read back as RON, read the hand-written document
fn ron_trip<T: serde::Serialize + serde::de::DeserializeOwned + PartialEq + std::fmt::Debug>(cx: &mut Cx, what: &str, x: &T, doc: Option<&str>) -> Res {
    let t = lib!("ron::to_string", ron::to_string(x)).map_err(|e| Viol(format!("{what} to RON: {e}")))?;
    let y: T = lib!("ron::from_str", ron::from_str(&t)).map_err(|e| Viol(format!("{what} from its own RON: {e}; text {}", cut(&t))))?;
    cx.that_with(y == *x, || format!("{what} changed by a RON round trip through {}", cut(&t)))?;
    let t = lib!("ron::ser::to_string_pretty", ron::ser::to_string_pretty(x, ron::ser::PrettyConfig::default())).map_err(|e| Viol(format!("{what} to RON: {e}")))?;
    let y: T = lib!("ron::from_str", ron::from_str(&t)).map_err(|e| Viol(format!("{what} from its own pretty RON: {e}")))?;
    cx.that_with(y == *x, || format!("{what} changed by a pretty RON round trip"))?;
    if let Some(d) = doc {
        let y: T = lib!("ron::from_str", ron::from_str(d)).map_err(|e| Viol(format!("{what} from a RON document with the documented names: {e}; text {}", cut(d))))?;
        cx.that_with(y == *x, || format!("{what} read wrongly from the RON document {}", cut(d)))?;
        cx.tag("RON document");
    }
    Ok(())
}
fn json_trip<T: serde::Serialize + serde::de::DeserializeOwned + std::fmt::Debug>(cx: &mut Cx, what: &str, x: &T, doc: Option<&str>, near: impl Fn(&T, &T) -> bool) -> Res {
    let t = lib!("serde_json::to_string", serde_json::to_string(x)).map_err(|e| Viol(format!("{what} to JSON: {e}")))?;
    let y: T = lib!("serde_json::from_str", serde_json::from_str(&t)).map_err(|e| Viol(format!("{what} from its own JSON: {e}; text {}", cut(&t))))?;
    cx.that_with(near(&y, x), || format!("{what} changed by a JSON round trip through {}", cut(&t)))?;
    if let Some(d) = doc {
        let y: T = lib!("serde_json::from_str", serde_json::from_str(d)).map_err(|e| Viol(format!("{what} from a JSON document with the documented names: {e}; text {}", cut(d))))?;
        cx.that_with(near(&y, x), || format!("{what} read wrongly from the JSON document {}", cut(d)))?;
        let (a, b): (Result<serde_json::Value, _>, Result<serde_json::Value, _>) = (serde_json::from_str(&t), serde_json::from_str(d));
        let keys = |v: &Result<serde_json::Value, _>| v.as_ref().ok().and_then(|v| v.as_object()).map(|o| o.keys().cloned().collect::<BTreeSet<String>>());
        cx.same(format_args!("{what}: field names in JSON"), keys(&a), keys(&b))?;
        cx.tag("JSON document");
    }
    Ok(())
}
const IND: &[(Industry, &str)] = &[
    (Industry::General, "General"),
    (Industry::Automotive, "Automotive"),
    (Industry::Aerospace, "Aerospace"),
    (Industry::HeavyEngineering, "HeavyEngineering"),
    (Industry::InformationTech, "InformationTech"),
    (Industry::Banking, "Banking"),
    (Industry::Metals, "Metals"),
    (Industry::Retail, "Retail"),
    (Industry::Education, "Education"),
];
fn c33_names(cx: &mut Cx) -> Res {
    cx.tag("every name");
    macro_rules! each {
        ($list:expr) => {
            for (k, n) in $list {
                let t = lib!("to_string", serde_json::to_string(k)).map_err(|e| Viol(e.to_string()))?;
                cx.same("name in JSON", t, format!("\"{n}\""))?;
                let t = lib!("to_string", ron::to_string(k)).map_err(|e| Viol(e.to_string()))?;
                cx.same("name in RON", t, n.to_string())?;
                let x = serde_json::from_str(&format!("\"{n}\"")).map_err(|e| Viol(format!("{n} from JSON: {e}")))?;
                cx.same("item read from JSON", *k, x)?;
                let x = ron::from_str(n).map_err(|e| Viol(format!("{n} from RON: {e}")))?;
                cx.same("item read from RON", *k, x)?;
            }
        };
    }
    each!(BS);
    each!(PL);
    each!(CF);
    each!(OT);
    each!(CUR);
    each!(IND);
    Ok(())
}
fn c33(cx: &mut Cx) -> Res {
    if let Some(i) = cx.fixed {
        cx.inp("all names", i);
        if i == 0 {
            return c33_names(cx);
        }
        // one item at a time
        let n = i as usize - 1;
        let mut r = FinancialReport { period: (cal::date(2020, 2, 29), cal::date(2021, 2, 28)), balance_sheet_beg: None, balance_sheet_end: None, profit_loss: None, cash_flow: None, others: None };
        let (a, b, c) = (BS.len(), BS.len() + PL.len(), BS.len() + PL.len() + CF.len());
        if n < a {
            r.balance_sheet_beg = Some(HashMap::from([(BS[n].0, 17.25)]));
            r.balance_sheet_end = Some(HashMap::from([(BS[n].0, -4.5)]));
        } else if n < b {
            r.profit_loss = Some(HashMap::from([(PL[n - a].0, 17.25)]));
        } else if n < c {
            r.cash_flow = Some(HashMap::from([(CF[n - b].0, 17.25)]));
        } else {
            r.others = Some(HashMap::from([(OT[(n - c) % OT.len()].0, 17.25)]));
        }
        cx.tag("single item");
        json_trip(cx, "report", &r, Some(&doc_report(&r, true)), near_report)?;
        return ron_trip(cx, "report", &r, Some(&doc_report(&r, false)));
    }
    match cx.rng.below(6) {
        0 | 1 => {
            let r = ser_report(&mut cx.rng);
            cx.inp("report, period", r.period);
            cx.inp("beg", r.balance_sheet_beg.clone());
            cx.inp("end", r.balance_sheet_end.clone());
            cx.inp("pl", r.profit_loss.clone());
            cx.inp("cf", r.cash_flow.clone());
            cx.inp("others", r.others.clone());
            cx.tag("report");
            json_trip(cx, "report", &r, Some(&doc_report(&r, true)), near_report)?;
            ron_trip(cx, "report", &r, Some(&doc_report(&r, false)))
        }
        2 => {
            let p = (ser_date(&mut cx.rng), ser_date(&mut cx.rng));
            cx.inp("statements of", p);
            cx.tag("single statements");
            let (js, rs) = (format!("[{}, {}]", jd(p.0), jd(p.1)), format!("({}, {})", jd(p.0), jd(p.1)));
            let x = BalanceSheet { date: p.0, items: ser_map(&mut cx.rng, BS) };
            cx.inp("balance sheet", x.items.clone());
            json_trip(cx, "balance sheet", &x, Some(&format!("{{\"date\": {}, \"items\": {}}}", jd(p.0), doc_map(&x.items, BS, true))), |a, b| a.date == b.date && near_map(&a.items, &b.items))?;
            ron_trip(cx, "balance sheet", &x, Some(&format!("(date: {}, items: {})", jd(p.0), doc_map(&x.items, BS, false))))?;
            macro_rules! per {
                ($t:ident, $l:ident, $n:expr) => {{
                    let x = $t { period: p, items: ser_map(&mut cx.rng, $l) };
                    cx.inp($n, x.items.clone());
                    json_trip(cx, $n, &x, Some(&format!("{{\"period\": {js}, \"items\": {}}}", doc_map(&x.items, $l, true))), |a, b| a.period == b.period && near_map(&a.items, &b.items))?;
                    ron_trip(cx, $n, &x, Some(&format!("(period: {rs}, items: {})", doc_map(&x.items, $l, false))))?;
                }};
            }
            per!(ProfitLoss, PL, "profit and loss");
            per!(CashFlow, CF, "cash flow");
            per!(FinOthers, OT, "others");
            let v: Vec<f64> = (0..5).map(|_| ser_value(&mut cx.rng)).collect();
            cx.inp("parameters", v.clone());
            let q = Param { unlevered: v[0], shield_tax: v[1], equity: v[2], debt: v[3], valuation: v[4] };
            let f = ["unlevered", "shield_tax", "equity", "debt", "valuation"];
            let dj = f.iter().zip(&v).map(|(n, x)| format!("\"{n}\": {x:?}")).collect::<Vec<_>>().join(", ");
            let dr = f.iter().zip(&v).map(|(n, x)| format!("{n}: {x:?}")).collect::<Vec<_>>().join(", ");
            let nr = |a: f64, b: f64| a == b || (a - b).abs() <= 4.5e-16 * b.abs();
            json_trip(cx, "parameters", &q, Some(&format!("{{{dj}}}")), |a, b| nr(a.unlevered, b.unlevered) && nr(a.shield_tax, b.shield_tax) && nr(a.equity, b.equity) && nr(a.debt, b.debt) && nr(a.valuation, b.valuation))?;
            ron_trip(cx, "parameters", &q, Some(&format!("({dr})")))
        }
        3 | 4 => {
            let a = ser_ledger(&mut cx.rng);
            cx.inp("ledger", a.clone());
            cx.tag("ledger");
            ron_trip(cx, "ledger", &a, Some(&doc_ledger(&a)))
        }
        _ => {
            // a valuation model can only be made from a document
            let mut ps: BTreeMap<P, String> = BTreeMap::new();
            let mut sp: BTreeMap<D, f64> = BTreeMap::new();
            let mut reps = vec![];
            for _ in 0..cx.rng.below(4) {
                let r = ser_report(&mut cx.rng);
                let v: Vec<f64> = (0..5).map(|_| ser_value(&mut cx.rng)).collect();
                let aff: Vec<String> = IND.iter().filter(|_| cx.rng.chance(0.4)).map(|x| format!("{}: {:?}", x.1, cx.idx as f64 / 7.0)).collect();
                let d = format!(
                    "(param: (unlevered: {:?}, shield_tax: {:?}, equity: {:?}, debt: {:?}, valuation: {:?}), reports: {}, affiliation: {{{}}})",
                    v[0], v[1], v[2], v[3], v[4], doc_report(&r, false), aff.join(", ")
                );
                ps.insert(r.period, d);
                reps.push(r);
            }
            for _ in 0..cx.rng.below(5) {
                let (d, v) = (ser_date(&mut cx.rng), ser_value(&mut cx.rng));
                sp.insert(d, v);
            }
            let mut doc = "(params: {".to_string();
            for (k, d) in &ps {
                doc += &format!("({}, {}): {d}, ", jd(k.0), jd(k.1));
            }
            doc += "}, shareprice: {";
            for (k, v) in &sp {
                doc += &format!("{}: {v:?}, ", jd(*k));
            }
            doc += "})";
            cx.inp("valuation model document", doc.clone());
            cx.tag("valuation model");
            let m: ValuationModel = lib!("ron::from_str", ron::from_str(&doc)).map_err(|e| Viol(format!("valuation model from a RON document with the documented names: {e}; text {}", cut(&doc))))?;
            cx.that("share prices read from the document", m.shareprice == sp)?;
            cx.that("periods read from the document", m.params.keys().eq(ps.keys()))?;
            // the reports inside are private: every figure of the document must be in what is written out
            let t = lib!("Debug", format!("{m:?}"));
            for r in reps.iter().filter(|r| ps.get(&r.period) == ps.get(&r.period)) {
                if let Some(pl) = r.profit_loss.as_ref().filter(|_| ps[&r.period].contains(&doc_report(r, false))) {
                    for (k, v) in pl {
                        let s = format!("{}: {v:?}", k.name());
                        cx.that_with(t.contains(&s), || format!("figure {s} of the document is not in the model"))?;
                    }
                }
            }
            ron_trip(cx, "valuation model", &m, Some(&doc))
        }
    }
}

const N_ITEMS: u64 = 66 + 54 + 31 + 7;
pub fn props() -> Vec<Prop> {
    let nbs = BsType::entered().len() as u64;
    assert!(BS.len() + PL.len() + CF.len() + OT.len() == N_ITEMS as usize, "{}", BS.len() + PL.len() + CF.len() + OT.len());
    vec![
        Prop {
            id: "C20",
            rule: "every single enterable item and every pair per statement, then random statements (5..100 % of the items, six magnitude classes), stale totals, edits and recalculation; whole ledgers. Trivial: empty statements. Distinct by contents and edits.",
            fixed: (c20_fixed_count(), c20_fixed_count()),
            random: (1_000_000, 13_500_000),
            need: &["single item", "pair of items", "stale totals put by hand", "edit after calculation", "calculated twice", "ledger", "tiny amounts", "big amounts", "mixed magnitudes"],
            case: c20,
            assumptions: &["totals within rounding of the 1e-5 limit may be either zero or kept"],
        },
        Prop {
            id: "C21",
            rule: "random operation sequences (1..300, vectors of up to 150 entries) over all items of the three maps and of ledgers, calculated items included; full contents compared with a reference map after every operation. Distinct by contents and operations.",
            fixed: (0, 0),
            random: (600_000, 7_800_000),
            need: &["very long history", "calculated item entered", "add", "upsert", "vector form", "debit or credit", "ledger", "calculated item put into a ledger", "statement with totals", "long history", "long vector"],
            case: c21,
            assumptions: &["entries of a vector before a calculated item may or may not have been applied when it is rejected"],
        },
        Prop {
            id: "C22",
            rule: "every ordered pair of enterable balance-sheet items, then random series of 1..400 transactions on random balance sheets, as series, transactions or debits and credits. Distinct by contents and transactions.",
            fixed: (nbs * nbs, nbs * nbs),
            random: (3_000_000, 36_000_000),
            need: &["very long series", "same transaction twice in a row", "transaction reversed at once", "every ordered pair", "negative amount", "same account twice", "contra item", "series", "transact", "debit and credit", "long series"],
            case: c22,
            assumptions: &[],
        },
        Prop {
            id: "C23",
            rule: "random pairs of balance sheets (equal, single movement, unrelated; balanced by a plug account or not) and profit and loss statements, by three routes: function, report, ledger. Distinct by contents.",
            fixed: (0, 0),
            random: (1_200_000, 16_200_000),
            need: &["balanced sheets", "unbalanced sheets", "single movement", "through a report", "through a ledger", "tiny amounts", "big amounts"],
            case: c23,
            assumptions: &["lines of magnitude up to 1e-5 may be dropped: tolerance 2.6e-4 absolute"],
        },
        Prop {
            id: "C24",
            rule: "as C23 with non-negative rates and interest; every line compared with its own movement, free cash flows and tax shield with an independent tax calculation. Distinct by contents.",
            fixed: (0, 0),
            random: (1_200_000, 13_800_000),
            need: &["single movement", "through a report", "through a ledger", "shield limited by revenue tax", "no shield", "shield"],
            case: c24,
            assumptions: &[],
        },
        Prop {
            id: "C25",
            rule: "random ledgers of 0..10 periods with old, new and per-period rates, stale totals, revenue-heavy and loss-making periods. Trivial: no periods. Distinct by ledger and rates.",
            fixed: (0, 0),
            random: (300_000, 3_300_000),
            need: &["negative rate", "rate not given", "rates set on old and new periods", "empty set of ratios", "ratios but no or not all rates", "ratios of another period", "different rates per period", "profit-based tax", "revenue-based tax", "tax depreciation given", "tiny amounts", "big amounts"],
            case: c25,
            assumptions: &[],
        },
        Prop {
            id: "C26",
            rule: "random statements with values on both sides of and exactly at the cleaning limit, calculated or not; ledgers. Trivial: empty. Distinct by contents.",
            fixed: (0, 0),
            random: (2_000_000, 24_000_000),
            need: &["exactly at the limit", "common size", "common size with a negative base", "ledger", "tiny amounts"],
            case: c26,
            assumptions: &["common size only where the base item is present and not zero"],
        },
        Prop {
            id: "C27",
            rule: "random reports with every subset of statements, all six single date mismatches and random combinations. Distinct by contents.",
            fixed: (0, 0),
            random: (2_000_000, 32_000_000),
            need: &["reversed period", "other items present but empty", "period of one day", "report without profit and loss", "opening date differs", "closing date differs", "cash flow begin differs", "cash flow end differs", "others begin differs", "others end differs"],
            case: c27,
            assumptions: &["assembling without a profit and loss statement is not judged"],
        },
        Prop {
            id: "C28",
            rule: "random ledgers of 0..60 periods with missing balance sheets, missing ratios (for the reports taken out), figures dated just beside a reported period, entered and stale cash flows; all reported and many unreported periods looked up; ledger calculation against report calculation and reference. Trivial: no periods. Distinct by ledger.",
            fixed: (0, 0),
            random: (150_000, 3_000_000),
            need: &["both balance sheets", "entered cash flow replaced by the derived one", "balance sheet missing", "entered cash flow without balance sheets", "stale totals", "ratios missing", "figures beside the reported periods", "more than 20 periods"],
            case: c28,
            assumptions: &["for the calculation the three tax rates are set for every reported period"],
        },
        Prop {
            id: "C29",
            rule: "chains of 1..5000 periods, valid or with one defect (begin, end, swapped, removed, duplicated, exchanged) at any position. Distinct by periods.",
            fixed: (0, 0),
            random: (2_000_000, 26_000_000),
            need: &["very long", "valid sequence", "defective sequence", "valid sequence of several periods", "long valid sequence", "reversed last period", "reversed period in a ledger", "ledger with figures"],
            case: c29,
            assumptions: &[],
        },
        Prop {
            id: "C30",
            rule: "chains of 0..260 quarters and years ending on any day, month ends favoured, with gaps, duplicates, odd and later periods; ledgers on them projected. Trivial: no periods. Distinct by periods and figures.",
            fixed: (0, 0),
            random: (300_000, 3_750_000),
            need: &["very long", "empty chain", "chain of more than 100 links", "month ends", "begin day clamped to a shorter month", "years and quarters in one chain", "gap in the chain", "later period outside the chain", "projection on a period without figures"],
            case: c30,
            assumptions: &["dates after the year 1000"],
        },
        Prop {
            id: "C31",
            rule: "random sets of 0..500 periods, lengths concentrated around 120 days, reversed ones included. Trivial: no periods. Distinct by periods.",
            fixed: (0, 0),
            random: (6_000_000, 94_000_000),
            need: &["very long", "exactly 120 days", "121 days", "reversed", "many periods", "ledger with figures"],
            case: c31,
            assumptions: &[],
        },
        Prop {
            id: "C32",
            rule: "random ledgers (with and without totals, derived cash flows, missing statements), separators and multipliers; the printed text, Display and CSV file are parsed and every cell compared. Distinct by ledger, separator and multiplier.",
            fixed: (0, 0),
            random: (40_000, 600_000),
            need: &["tax rates for some periods only", "quarterly periods", "annual and quarterly periods", "period without cash flow", "no statements", "without totals", "no balance sheets", "CSV file", "largest total at least one unit", "derived cash flow"],
            case: c32,
            assumptions: &["amounts are zero or at least one unit"],
        },
        Prop {
            id: "C33",
            rule: "every name of every enum and every item alone in a report, then random reports, statements, parameters, ledgers and valuation models, read from hand-written documents with the documented names, written and read back. Distinct by contents.",
            fixed: (N_ITEMS + 1, N_ITEMS + 1),
            random: (50_000, 900_000),
            need: &["every name", "single item", "report", "single statements", "ledger", "valuation model", "RON document", "JSON document"],
            case: c33,
            assumptions: &["JSON amounts compared to the last digit (serde_json's own float parser), RON exactly"],
        },
    ]
}
