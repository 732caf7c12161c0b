//! Reference model of the statements: item lists, layouts and cash-flow derivation written out
//! independently of the library, plus generators of statements and ledgers.
use crate::cal;
use crate::core::*;
use chrono::{Datelike, NaiveDate as D};
use financelib::statements::*;
use financelib::Currency;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Debug;
use std::hash::Hash;

pub type P = (D, D);

macro_rules! items {
    ($name:ident : $t:ident = $($v:ident)*) => {
        pub const $name: &[($t, &str)] = &[ $(($t::$v, stringify!($v))),* ];
    };
}
items!(BS: BsType = Cash CurrentReceivables CurrentLoans CurrentAdvances OtherCurrentAssets CurrentInvestments
    Inventories RawMaterials WorkInProgress FinishedGoods CurrentAssets AccountReceivables LongTermLoanAssets
    LongTermAdvances LongTermInvestments OtherLongTermAssets PlantPropertyEquipment AccumulatedDepreciation
    NetPlantPropertyEquipment LeasingRentalAssets AccumulatedAmortizationLease NetLeaseRentalAssets Goodwill
    CapitalWip OtherTangibleAssets IntangibleAssets IntangibleAssetsDevelopment AccumulatedAmortization
    NetIntangibleAssets LongTermAssets Assets CurrentPayables CurrentBorrowings CurrentNotesPayable
    OtherCurrentLiabilities InterestPayable CurrentProvisions CurrentTaxPayables LiabilitiesSaleAssets
    CurrentLeasesLiability CurrentLiabilities AccountPayables LongTermBorrowings BondsPayable
    DeferredTaxLiabilities LongTermLeasesLiability DeferredCompensation DeferredRevenues CustomerDeposits
    OtherLongTermLiabilities PensionProvision TaxProvision LongTermProvision LongTermLiabilities Liabilities
    CommonStock PreferredStock PdInCapAbovePar PdInCapTreasuryStock RevaluationReserves Reserves
    RetainedEarnings AccumulatedOCI MinorityInterests Equity BalanceSheetCheck);
items!(PL: PlType = OperatingRevenue NonOperatingRevenue ExciseStaxLevy OtherIncome Revenue CostMaterial
    DirectExpenses COGS Salaries AdministrativeExpenses ResearchNDevelopment OtherOverheads
    OtherOperativeExpenses OtherExpenses ExceptionalItems GrossProfit EBITDA Depreciation TaxDepreciation
    AssetImpairment LossDivestitures Amortization EBITX InterestRevenue InterestExpense CostDebt
    OtherFinancialRevenue EBTX ExtraordinaryItems PriorYears EBT TaxesCurrent TaxesDeferred EAT
    NetIncomeDiscontinuedOps NetIncome Dividends ContributionRetainedEarnings GainsLossesForex
    GainsLossesActurial GrossSalesPPE GrossSalesLeaseRentalAssets GrossSalesIntangibleAssets AccAmortSalesPPE
    AccAmortSalesLeaseRental AccAmortSalesIntangible SalesAmountPPE SalesAmountLeaseRentalAssets
    SalesAmountIntangibleAssets GainsLossesSales FvChangeAvlSale OtherDeferredTaxes OtherComprehensiveIncome
    TotalComprehensiveIncome);
items!(CF: CfType = ChangeCurrentAssets ChangeLongTermAssets ChangeCurrentLiabilities ChangeLongTermLiabilities
    ChangeProvisions ChangeRetainedEarnings AdjustmentsRetainedEarnings ChangeAccumulatedOci
    OtherCashFlowOperations CashFlowOperations ChangePPE ChangeReserves AdjustmentsSalesAssets
    InvestmentsCapDevp InvestmentsLoans ChangeEquityAssets ChangeInvestments OtherCashFlowInvestments
    CashFlowInvestments StockSalesAndPurchase ChangeDebt CashFlowInterests CashFlowDividends DonorContribution
    OtherCashFlowFinancing CashFlowFinancing NetCashFlow FreeCashFlowFirm CashFlowTaxShield FreeCashFlowEquity
    CashFlowDebt);
items!(OT: FinOthersTyp = CorporateTaxRate GrossProfitTaxRate RevenueTaxRate CurrentRatio AcidRatio
    DaysOfInventory InventoryTurnoverRatio);
items!(CUR: Currency = INR USD NGN EUR GBP CNY MZN ZAR);

type Lay<T> = &'static [(T, &'static [T], &'static [T])];

mod lay {
    use super::*;
    use BsType::*;
    pub const BSL: Lay<BsType> = &[
        (Inventories, &[RawMaterials, WorkInProgress, FinishedGoods], &[]),
        (CurrentAssets, &[Cash, CurrentReceivables, CurrentLoans, CurrentAdvances, OtherCurrentAssets, CurrentInvestments, Inventories], &[]),
        (NetPlantPropertyEquipment, &[PlantPropertyEquipment], &[AccumulatedDepreciation]),
        (NetLeaseRentalAssets, &[LeasingRentalAssets], &[AccumulatedAmortizationLease]),
        (NetIntangibleAssets, &[IntangibleAssets, IntangibleAssetsDevelopment], &[AccumulatedAmortization]),
        (LongTermAssets, &[AccountReceivables, LongTermLoanAssets, LongTermAdvances, LongTermInvestments, OtherLongTermAssets,
            NetPlantPropertyEquipment, NetLeaseRentalAssets, Goodwill, CapitalWip, OtherTangibleAssets, NetIntangibleAssets], &[]),
        (Assets, &[CurrentAssets, LongTermAssets], &[]),
        (CurrentLiabilities, &[CurrentPayables, CurrentBorrowings, CurrentNotesPayable, OtherCurrentLiabilities, InterestPayable,
            CurrentProvisions, CurrentTaxPayables, LiabilitiesSaleAssets, CurrentLeasesLiability], &[]),
        (LongTermLiabilities, &[AccountPayables, LongTermBorrowings, BondsPayable, DeferredTaxLiabilities, LongTermLeasesLiability,
            DeferredCompensation, DeferredRevenues, CustomerDeposits, OtherLongTermLiabilities, PensionProvision, TaxProvision,
            LongTermProvision], &[]),
        (Liabilities, &[CurrentLiabilities, LongTermLiabilities], &[]),
        (Equity, &[CommonStock, PreferredStock, PdInCapAbovePar, PdInCapTreasuryStock, RevaluationReserves, Reserves,
            RetainedEarnings, AccumulatedOCI, MinorityInterests], &[]),
        (BalanceSheetCheck, &[Assets], &[Liabilities, Equity]),
    ];
}
mod layp {
    use super::*;
    use PlType::*;
    pub const PLL: Lay<PlType> = &[
        (Revenue, &[OperatingRevenue, NonOperatingRevenue], &[ExciseStaxLevy]),
        (COGS, &[CostMaterial, DirectExpenses], &[]),
        (GrossProfit, &[Revenue], &[COGS]),
        (EBITDA, &[GrossProfit, OtherIncome], &[Salaries, AdministrativeExpenses, ResearchNDevelopment, OtherOverheads,
            OtherOperativeExpenses, OtherExpenses, ExceptionalItems]),
        (EBITX, &[EBITDA], &[Depreciation, AssetImpairment, LossDivestitures, Amortization]),
        (EBTX, &[EBITX, InterestRevenue, OtherFinancialRevenue], &[InterestExpense, CostDebt]),
        (EBT, &[EBTX], &[ExtraordinaryItems, PriorYears]),
        (EAT, &[EBT], &[TaxesCurrent, TaxesDeferred]),
        (NetIncome, &[EAT, NetIncomeDiscontinuedOps], &[]),
        (ContributionRetainedEarnings, &[NetIncome], &[Dividends]),
        (GainsLossesSales, &[SalesAmountPPE, SalesAmountLeaseRentalAssets, SalesAmountIntangibleAssets, AccAmortSalesPPE,
            AccAmortSalesLeaseRental, AccAmortSalesIntangible], &[GrossSalesPPE, GrossSalesLeaseRentalAssets, GrossSalesIntangibleAssets]),
        (OtherComprehensiveIncome, &[GainsLossesForex, GainsLossesActurial, GainsLossesSales, FvChangeAvlSale], &[OtherDeferredTaxes]),
        (TotalComprehensiveIncome, &[NetIncome, OtherComprehensiveIncome], &[]),
    ];
}
mod layc {
    use super::*;
    use BsType as B;
    use CfType::*;
    use PlType as L;
    pub const CFL: Lay<CfType> = &[
        (CashFlowOperations, &[ChangeCurrentLiabilities, ChangeLongTermLiabilities, ChangeProvisions, ChangeRetainedEarnings,
            AdjustmentsRetainedEarnings, ChangeAccumulatedOci, OtherCashFlowOperations], &[ChangeCurrentAssets, ChangeLongTermAssets]),
        (CashFlowInvestments, &[OtherCashFlowInvestments, AdjustmentsSalesAssets, ChangeReserves],
            &[ChangePPE, InvestmentsCapDevp, InvestmentsLoans, ChangeEquityAssets, ChangeInvestments]),
        (CashFlowFinancing, &[StockSalesAndPurchase, ChangeDebt, DonorContribution, OtherCashFlowFinancing],
            &[CashFlowInterests, CashFlowDividends]),
        (NetCashFlow, &[CashFlowOperations, CashFlowInvestments, CashFlowFinancing], &[]),
        (FreeCashFlowEquity, &[CashFlowOperations, ChangeDebt, ChangeReserves, AdjustmentsSalesAssets], &[CashFlowInterests, ChangePPE]),
        (CashFlowDebt, &[CashFlowInterests], &[ChangeDebt]),
        (FreeCashFlowFirm, &[FreeCashFlowEquity, CashFlowDebt], &[CashFlowTaxShield]),
    ];
    /// movement lines: (line, items whose increase adds, items whose increase deducts)
    pub const MOVE: &[(CfType, &[BsType], &[BsType])] = &[
        (ChangeCurrentAssets, &[B::CurrentReceivables, B::CurrentLoans, B::CurrentAdvances, B::OtherCurrentAssets,
            B::CurrentInvestments, B::RawMaterials, B::WorkInProgress, B::FinishedGoods], &[]),
        (ChangeLongTermAssets, &[B::AccountReceivables, B::LongTermAdvances, B::CapitalWip],
            &[B::AccumulatedDepreciation, B::AccumulatedAmortizationLease, B::AccumulatedAmortization]),
        (ChangeCurrentLiabilities, &[B::CurrentPayables, B::CurrentBorrowings, B::CurrentNotesPayable, B::OtherCurrentLiabilities,
            B::InterestPayable, B::CurrentProvisions, B::CurrentTaxPayables, B::LiabilitiesSaleAssets, B::CurrentLeasesLiability], &[]),
        (ChangeLongTermLiabilities, &[B::AccountPayables, B::DeferredTaxLiabilities, B::DeferredCompensation, B::DeferredRevenues,
            B::CustomerDeposits, B::OtherLongTermLiabilities], &[]),
        (ChangeProvisions, &[B::PensionProvision, B::TaxProvision, B::LongTermProvision], &[]),
        (ChangeRetainedEarnings, &[B::RetainedEarnings], &[]),
        (ChangeAccumulatedOci, &[B::AccumulatedOCI], &[]),
        (ChangePPE, &[B::PlantPropertyEquipment, B::LeasingRentalAssets], &[]),
        (ChangeReserves, &[B::RevaluationReserves, B::Reserves], &[]),
        (InvestmentsCapDevp, &[B::IntangibleAssetsDevelopment], &[]),
        (InvestmentsLoans, &[B::LongTermLoanAssets], &[]),
        (ChangeEquityAssets, &[B::IntangibleAssets], &[]),
        (ChangeInvestments, &[B::LongTermInvestments, B::Goodwill], &[]),
        (OtherCashFlowInvestments, &[], &[B::OtherLongTermAssets, B::OtherTangibleAssets]),
        (StockSalesAndPurchase, &[B::CommonStock, B::PreferredStock, B::PdInCapAbovePar, B::PdInCapTreasuryStock], &[]),
        (ChangeDebt, &[B::LongTermBorrowings, B::BondsPayable, B::LongTermLeasesLiability], &[]),
        (OtherCashFlowFinancing, &[B::MinorityInterests], &[]),
    ];
    const ACC: [PlType; 3] = [L::AccAmortSalesPPE, L::AccAmortSalesLeaseRental, L::AccAmortSalesIntangible];
    /// lines taken from the profit and loss statement
    pub const FROMPL: &[(CfType, &[PlType], &[PlType])] = &[
        (CashFlowInterests, &[L::InterestExpense, L::CostDebt], &[]),
        (CashFlowDividends, &[L::Dividends], &[]),
        (AdjustmentsRetainedEarnings, &[L::InterestExpense, L::CostDebt, L::Dividends, ACC[0], ACC[1], ACC[2]], &[L::GainsLossesSales]),
        (AdjustmentsSalesAssets, &[L::GainsLossesSales], &[ACC[0], ACC[1], ACC[2]]),
    ];
}
pub use layc::{FROMPL, MOVE};

pub trait Item: Copy + Eq + Hash + Ord + Debug + Feed + FinType + Send + Sync + 'static {
    fn all() -> &'static [(Self, &'static str)];
    fn lay() -> Lay<Self>;
    const TITLE: &'static str;
    fn is_total(self) -> bool {
        Self::lay().iter().any(|x| x.0 == self)
    }
    fn entered() -> Vec<Self> {
        Self::all().iter().map(|x| x.0).filter(|x| !x.is_total()).collect()
    }
    fn totals() -> Vec<Self> {
        Self::lay().iter().map(|x| x.0).collect()
    }
    fn name(self) -> &'static str {
        Self::all().iter().find(|x| x.0 == self).map_or("?", |x| x.1)
    }
}
macro_rules! item {
    ($t:ty, $all:expr, $lay:expr, $title:expr) => {
        impl Feed for $t {
            fn feed(&self, h: &mut u64) {
                (*self as usize).feed(h)
            }
        }
        impl Item for $t {
            const TITLE: &'static str = $title;
            fn all() -> &'static [(Self, &'static str)] {
                $all
            }
            fn lay() -> Lay<Self> {
                $lay
            }
        }
    };
}
item!(BsType, BS, lay::BSL, "balance sheet");
item!(PlType, PL, layp::PLL, "profit and loss");
item!(CfType, CF, layc::CFL, "cash flow");
impl Feed for FinOthersTyp {
    fn feed(&self, h: &mut u64) {
        (*self as usize).feed(h)
    }
}
impl Feed for Currency {
    fn feed(&self, h: &mut u64) {
        (*self as usize).feed(h)
    }
}
impl Feed for Accounts {
    fn feed(&self, h: &mut u64) {
        self.currency.feed(h);
        self.consolidated.feed(h);
        self.dates.feed(h);
        self.balance_sheet.feed(h);
        self.profit_loss.feed(h);
        self.cash_flow.feed(h);
        self.others.feed(h);
    }
}

// ---------------------------------------------------------------- reference calculation
/// value and what rounding (and the zero limit) may do to it
pub type VS = (f64, f64);
pub type Map<T> = HashMap<T, f64>;

pub fn exact<T: Item>(m: &Map<T>) -> HashMap<T, VS> {
    m.iter().map(|(k, v)| (*k, (*v, 0.0))).collect()
}
pub fn get<K: Copy + Eq + Hash>(m: &HashMap<K, f64>, k: K) -> f64 {
    m.get(&k).copied().unwrap_or(0.0)
}
pub fn gets<K: Copy + Eq + Hash>(m: &HashMap<K, VS>, k: K) -> VS {
    m.get(&k).copied().unwrap_or((0.0, 0.0))
}
/// a total as stored: below 1e-5 it counts as zero, near the limit both are accepted
pub fn stored(v: f64, s: f64) -> VS {
    if v.abs() > 1e-5 + s {
        (v, s)
    } else if v.abs() < 1e-5 - s {
        (0.0, 0.0)
    } else {
        (v, v.abs() + s)
    }
}
pub fn summed<K: Copy + Eq + Hash>(m: &HashMap<K, VS>, pos: &[K], neg: &[K]) -> VS {
    let (mut v, mut s, mut g) = (0.0, 0.0, 0.0);
    for (l, sg) in [(pos, 1.0), (neg, -1.0)] {
        for k in l {
            let (x, e) = gets(m, *k);
            v += sg * x;
            s += e;
            g += x.abs();
        }
    }
    (v, s + g * 1e-15 * (pos.len() + neg.len() + 2) as f64)
}
/// all totals of a statement from its entered items (totals in the input are ignored)
pub fn ref_calc<T: Item>(m: &HashMap<T, VS>) -> HashMap<T, VS> {
    let mut o: HashMap<T, VS> = m.iter().filter(|x| !x.0.is_total()).map(|(k, v)| (*k, *v)).collect();
    for (k, p, n) in T::lay() {
        let (v, s) = summed(&o, p, n);
        o.insert(*k, stored(v, s));
    }
    o
}
/// lines of the derived cash flow (without tax shield); P&L totals must be calculated
pub fn ref_lines(b0: &Map<BsType>, b1: &Map<BsType>, pl: &HashMap<PlType, VS>) -> HashMap<CfType, VS> {
    let mut o = HashMap::new();
    let (b0, b1) = (exact(b0), exact(b1));
    for (k, p, n) in MOVE {
        let (a, c) = (summed(&b0, p, n), summed(&b1, p, n));
        let v = c.0 - a.0;
        o.insert(*k, stored(v, a.1 + c.1 + 2e-16 * v.abs()));
    }
    for (k, p, n) in FROMPL {
        let (v, s) = summed(pl, p, n);
        o.insert(*k, stored(v, s));
    }
    o
}
#[derive(Clone, Copy, Debug)]
pub struct Rates3 {
    pub corp: f64,
    pub gp: f64,
    pub rev: f64,
}
/// the tax the library charges: larger of profit-based and revenue-based
pub fn ref_tax(pl: &HashMap<PlType, VS>, ebt_plus: f64, r: Rates3) -> VS {
    let adj = if pl.contains_key(&PlType::TaxDepreciation) {
        gets(pl, PlType::Depreciation).0 - gets(pl, PlType::TaxDepreciation).0
    } else {
        0.0
    };
    let (e, se) = gets(pl, PlType::EBT);
    let (g, sg) = gets(pl, PlType::EBITDA);
    let (v, sv) = gets(pl, PlType::Revenue);
    let a = (e + ebt_plus + adj) * r.corp + g * r.gp;
    let b = v * r.rev;
    let mag = (e.abs() + ebt_plus.abs() + gets(pl, PlType::Depreciation).0.abs() + gets(pl, PlType::TaxDepreciation).0.abs()) * r.corp.abs() + (g * r.gp).abs() + b.abs();
    (a.max(b), se * r.corp.abs() + sg * r.gp.abs() + sv * r.rev.abs() + mag * 2e-15)
}

/// compare a calculated statement with the entered items it was calculated from
pub fn check_calc<T: Item>(cx: &mut Cx, what: &str, got: &Map<T>, entered: &Map<T>) -> Res
where
    Map<T>: FinMaps<Key = T>,
{
    let r = ref_calc(&exact(entered));
    for (k, n) in T::all() {
        let g = get(got, *k);
        if k.is_total() {
            let (v, s) = gets(&r, *k);
            cx.close(format_args!("{what}: total {n}"), g, v, s)?;
        } else {
            let e = get(entered, *k);
            cx.that_with(g == e, || format!("{what}: entered item {n} changed from {e} to {g}"))?;
        }
        let val = crate::lib!("value", got.value(*k));
        cx.that_with(val == g, || format!("{what}: value({n}) = {val}, stored {g}"))?;
    }
    Ok(())
}
/// same figures, item by item
pub fn same_map<T: Copy + Eq + Hash + Debug>(cx: &mut Cx, what: &str, a: &HashMap<T, f64>, b: &HashMap<T, f64>) -> Res {
    for k in a.keys().chain(b.keys()) {
        let (x, y) = (get(a, *k), get(b, *k));
        cx.that_with(x == y, || format!("{what}: {k:?} is {x} instead of {y}"))?;
    }
    Ok(())
}

// ---------------------------------------------------------------- generators
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mag {
    Whole,
    Cents,
    Small,
    Tiny,
    Big,
    Mixed,
}
pub fn mag(r: &mut Rng) -> Mag {
    r.pick(&[Mag::Whole, Mag::Whole, Mag::Cents, Mag::Cents, Mag::Small, Mag::Tiny, Mag::Big, Mag::Mixed])
}
pub fn money(r: &mut Rng, m: Mag) -> f64 {
    let s = if r.chance(0.25) { -1.0 } else { 1.0 };
    s * match m {
        Mag::Whole => r.int(1, 100_000) as f64,
        Mag::Cents => r.int(1, 10_000_000) as f64 / 100.0,
        Mag::Small => r.log(1e-3, 1.0),
        Mag::Tiny => r.log(1e-7, 1e-3),
        Mag::Big if r.chance(0.1) => r.log(1e13, 1e18).round(),
        Mag::Big => r.int(1, 1_000_000_000) as f64 * 1e4,
        Mag::Mixed => {
            let x = r.pick(&[Mag::Whole, Mag::Cents, Mag::Small, Mag::Tiny, Mag::Big]);
            money(r, x).abs()
        }
    }
}
/// entered items only
pub fn statement<T: Item>(r: &mut Rng, m: Mag) -> Map<T> {
    let most = if r.chance(0.3) { 0.015 } else { 1.0 };
    let d = r.pick(&[0.05, 0.3, 0.3, 0.6, 0.95, most]);
    let neg = r.chance(0.6);
    let mut st: Vec<(T, f64)> = T::entered()
        .into_iter()
        .filter_map(|k| {
            if !r.chance(d) {
                return None;
            }
            if r.chance(0.03) {
                return Some((k, 0.0));
            }
            let v = money(r, m);
            Some((k, if neg { v } else { v.abs() }))
        })
        .collect();
    // amounts that have to do with one another
    if st.len() > 1 && r.chance(0.15) {
        let all = r.chance(0.2);
        for _ in 0..if all { 0 } else { r.int(1, 5) } {
            let (a, b) = (r.below(st.len()), r.below(st.len()));
            st[b].1 = st[a].1 * if neg { r.sign() } else { 1.0 };
        }
        let v = st[0].1;
        let each = r.chance(0.5);
        st.iter_mut().filter(|_| all).for_each(|x| x.1 = v * if neg && each { r.sign() } else { 1.0 });
    }
    st.into_iter().collect()
}
/// the same again, or all but one item of it, or its opposite
pub fn alike<T: Item>(r: &mut Rng, m: &Map<T>) -> Map<T> {
    let mut m = m.clone();
    let mut k: Vec<T> = m.keys().copied().collect();
    k.sort();
    if k.is_empty() {
        return m;
    }
    let x = k[r.below(k.len())];
    match r.below(6) {
        0..3 => (),
        3 => *m.get_mut(&x).unwrap() *= if r.chance(0.5) { -1.0 } else { 2.0 },
        4 => drop(m.remove(&x)),
        _ => m.values_mut().for_each(|v| *v = -*v),
    }
    m
}
/// leave wrong totals behind, as an earlier calculation or a careless edit would
pub fn stale<T: Item>(r: &mut Rng, m: &mut Map<T>) {
    let d = r.pick(&[0.1, 0.5, 1.0]);
    for k in T::totals() {
        if r.chance(d) {
            let v = match r.below(4) {
                0 => 0.0,
                1 => 1e-6,
                _ => r.amount(),
            };
            m.insert(k, v);
        }
    }
}
pub fn tax_rates(r: &mut Rng) -> Rates3 {
    let mut x = |hi: f64| match r.below(5) {
        0 => 0.0,
        1 => r.pick(&[0.1, 0.02, 0.005, 0.3, 0.25, 1.0]),
        2 if r.chance(0.3) => r.log(1e-9, 5.0),
        _ => r.uni(0.001, hi),
    };
    Rates3 { corp: x(0.5), gp: x(0.2), rev: x(0.1) }
}
pub fn others(r: &mut Rng, t: Rates3) -> HashMap<FinOthersTyp, f64> {
    let mut m = HashMap::from([
        (FinOthersTyp::CorporateTaxRate, t.corp),
        (FinOthersTyp::GrossProfitTaxRate, t.gp),
        (FinOthersTyp::RevenueTaxRate, t.rev),
    ]);
    for k in [FinOthersTyp::CurrentRatio, FinOthersTyp::AcidRatio, FinOthersTyp::DaysOfInventory, FinOthersTyp::InventoryTurnoverRatio] {
        if r.chance(0.2) {
            m.insert(k, r.uni(0.1, 90.0));
        }
    }
    m
}
pub fn rates_of(o: &HashMap<FinOthersTyp, f64>) -> Rates3 {
    Rates3 { corp: get(o, FinOthersTyp::CorporateTaxRate), gp: get(o, FinOthersTyp::GrossProfitTaxRate), rev: get(o, FinOthersTyp::RevenueTaxRate) }
}
/// step back n months, keeping `day` or the last day of a shorter month
pub fn back(d: D, months: i64, day: u32) -> D {
    let t = d.year() as i64 * 12 + d.month() as i64 - 1 - months;
    let (y, m) = (t.div_euclid(12), t.rem_euclid(12) + 1);
    cal::date(y, m, (day as i64).min(cal::mlen(y, m)))
}
/// periods of a reporting company: chains of years and quarters, overlaps, gaps, odd periods
pub fn periods(r: &mut Rng, max: usize) -> BTreeSet<P> {
    let mut s = BTreeSet::new();
    let long = r.very_long(1e-4, 2000);
    let n = match r.below(8) {
        _ if long.is_some() => long.unwrap() as usize,
        0 => 0,
        1 => 1,
        _ => r.int(1, max as i64) as usize,
    };
    let y0 = if r.chance(0.06) { r.int(1300, 2900) } else { r.int(1960, 2060) };
    let end = r.date_in(y0);
    let day = end.day();
    let style = r.below(5);
    let mut e = end;
    while s.len() < n {
        let b = match style {
            0 => back(e, 12, day),
            1 => back(e, 3, day),
            2 => {
                let q = back(e, 3, day);
                if r.chance(0.4) {
                    s.insert((back(e, 12, day), e));
                }
                q
            }
            3 => {
                let k = r.pick(&[3, 3, 3, 12, 12, 12, 6, 4, 1, 15, 18, 24, 60]);
                back(e, k, day)
            }
            _ => {
                let k = r.pick(&[119, 120, 121, 90, 92, 365, 366, 400, 30, 0, 1]);
                e - chrono::Duration::days(k)
            }
        };
        s.insert((b, e));
        if style >= 2 && r.chance(0.02) {
            // the wrong way round
            s.insert((e, b));
        }
        e = if style >= 2 && r.chance(0.15) { b - chrono::Duration::days(r.int(1, 300)) } else { b };
        if b == e && r.chance(0.3) && style == 4 {
            e -= chrono::Duration::days(17);
        }
        if e.year() < 1100 {
            break;
        }
    }
    s
}
/// one map per key, some missing
pub struct LedgerOpts {
    pub periods: usize,
    pub mag: Mag,
    pub rates: bool,
}
pub fn ledger(r: &mut Rng, o: &LedgerOpts) -> Accounts {
    // now and then a long history
    let max = if o.periods > 4 && r.chance(0.03) { if r.chance(0.1) { 250 } else { 60 } } else { o.periods };
    let ps = periods(r, max);
    let (pb, pc) = (r.pick(&[1.0, 1.0, 0.7, 0.0]), r.pick(&[1.0, 0.5, 0.0]));
    let mut a = Accounts {
        currency: CUR[r.below(CUR.len())].0,
        consolidated: r.chance(0.5),
        dates: BTreeSet::new(),
        balance_sheet: BTreeMap::new(),
        profit_loss: BTreeMap::new(),
        cash_flow: BTreeMap::new(),
        others: BTreeMap::new(),
    };
    for p in &ps {
        for d in [p.0, p.1] {
            a.dates.insert(d);
            if r.chance(pb) && !a.balance_sheet.contains_key(&d) {
                // as in the period before, or nothing at all, now and then
                let b = match a.balance_sheet.values().next_back() {
                    Some(b) if r.chance(0.06) => alike(r, b),
                    _ if r.chance(0.03) => HashMap::new(),
                    _ => statement(r, o.mag),
                };
                a.balance_sheet.insert(d, b);
            }
        }
        let x = match a.profit_loss.values().next_back() {
            Some(x) if r.chance(0.05) => alike(r, x),
            _ if r.chance(0.03) => HashMap::new(),
            _ => statement(r, o.mag),
        };
        a.profit_loss.insert(*p, x);
        if r.chance(pc) {
            let x = match a.cash_flow.values().next_back() {
                Some(x) if r.chance(0.05) => alike(r, x),
                _ => statement(r, o.mag),
            };
            a.cash_flow.insert(*p, x);
        }
        if o.rates {
            let t = tax_rates(r);
            a.others.insert(*p, others(r, t));
        }
    }
    // figures outside the reported periods
    if r.chance(0.3) {
        let d = r.mdate();
        a.balance_sheet.entry(d).or_insert_with(|| statement(r, o.mag));
    }
    if r.chance(0.2) {
        let d = r.mdate();
        a.cash_flow.entry((d, d + chrono::Duration::days(200))).or_insert_with(|| statement(r, o.mag));
    }
    if o.rates && r.chance(0.1) {
        let d = r.mdate();
        let t = tax_rates(r);
        a.others.entry((d, d + chrono::Duration::days(365))).or_insert_with(|| others(r, t));
    }
    a
}
