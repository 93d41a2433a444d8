//! Reference chart of accounts: the specification the simulated books are checked against.
//! Written independently of the library's tables (definitions are resolved recursively down to
//! entered items, so an error in evaluation order or staleness in the library shows up).
use financelib::Currency;
use financelib::statements::{BsType, CfType, FinOthersTyp, PlType};
use std::sync::OnceLock;

macro_rules! items {
    ($konst:ident, $names:ident, $t:ident, $($x:ident)*) => {
        pub const $konst: &[$t] = &[$($t::$x),*];
        pub const $names: &[&str] = &[$(stringify!($x)),*];
    };
}
items!(BS, BS_NAMES, BsType,
    Cash CurrentReceivables CurrentLoans CurrentAdvances OtherCurrentAssets CurrentInvestments Inventories
    RawMaterials WorkInProgress FinishedGoods CurrentAssets AccountReceivables LongTermLoanAssets LongTermAdvances
    LongTermInvestments OtherLongTermAssets PlantPropertyEquipment AccumulatedDepreciation NetPlantPropertyEquipment
    LeasingRentalAssets AccumulatedAmortizationLease NetLeaseRentalAssets Goodwill CapitalWip OtherTangibleAssets
    IntangibleAssets IntangibleAssetsDevelopment AccumulatedAmortization NetIntangibleAssets LongTermAssets Assets
    CurrentPayables CurrentBorrowings CurrentNotesPayable OtherCurrentLiabilities InterestPayable CurrentProvisions
    CurrentTaxPayables LiabilitiesSaleAssets CurrentLeasesLiability CurrentLiabilities AccountPayables
    LongTermBorrowings BondsPayable DeferredTaxLiabilities LongTermLeasesLiability DeferredCompensation
    DeferredRevenues CustomerDeposits OtherLongTermLiabilities PensionProvision TaxProvision LongTermProvision
    LongTermLiabilities Liabilities CommonStock PreferredStock PdInCapAbovePar PdInCapTreasuryStock
    RevaluationReserves Reserves RetainedEarnings AccumulatedOCI MinorityInterests Equity BalanceSheetCheck);
items!(PL, PL_NAMES, PlType,
    OperatingRevenue NonOperatingRevenue ExciseStaxLevy OtherIncome Revenue CostMaterial DirectExpenses COGS Salaries
    AdministrativeExpenses ResearchNDevelopment OtherOverheads OtherOperativeExpenses OtherExpenses ExceptionalItems
    GrossProfit EBITDA Depreciation TaxDepreciation AssetImpairment LossDivestitures Amortization EBITX
    InterestRevenue InterestExpense CostDebt OtherFinancialRevenue EBTX ExtraordinaryItems PriorYears EBT
    TaxesCurrent TaxesDeferred EAT NetIncomeDiscontinuedOps NetIncome Dividends ContributionRetainedEarnings
    GainsLossesForex GainsLossesActurial GrossSalesPPE GrossSalesLeaseRentalAssets GrossSalesIntangibleAssets
    AccAmortSalesPPE AccAmortSalesLeaseRental AccAmortSalesIntangible SalesAmountPPE SalesAmountLeaseRentalAssets
    SalesAmountIntangibleAssets GainsLossesSales FvChangeAvlSale OtherDeferredTaxes OtherComprehensiveIncome
    TotalComprehensiveIncome);
items!(CF, CF_NAMES, CfType,
    ChangeCurrentAssets ChangeLongTermAssets ChangeCurrentLiabilities ChangeLongTermLiabilities ChangeProvisions
    ChangeRetainedEarnings AdjustmentsRetainedEarnings ChangeAccumulatedOci OtherCashFlowOperations CashFlowOperations
    ChangePPE ChangeReserves AdjustmentsSalesAssets InvestmentsCapDevp InvestmentsLoans ChangeEquityAssets
    ChangeInvestments OtherCashFlowInvestments CashFlowInvestments StockSalesAndPurchase ChangeDebt CashFlowInterests
    CashFlowDividends DonorContribution OtherCashFlowFinancing CashFlowFinancing NetCashFlow FreeCashFlowFirm
    CashFlowTaxShield FreeCashFlowEquity CashFlowDebt);
items!(OT, OT_NAMES, FinOthersTyp,
    CorporateTaxRate GrossProfitTaxRate RevenueTaxRate CurrentRatio AcidRatio DaysOfInventory InventoryTurnoverRatio);
items!(CUR, CUR_NAMES, Currency, INR USD NGN EUR GBP CNY MZN ZAR);

#[derive(Clone, Copy, PartialEq, Eq, Debug, serde::Serialize, serde::Deserialize)]
pub enum Kind {
    Bs,
    Pl,
    Cf,
}

/// name = +items ... - items ...
const BS_SPEC: &[&str] = &[
    "Inventories = RawMaterials WorkInProgress FinishedGoods",
    "CurrentAssets = Cash CurrentReceivables CurrentLoans CurrentAdvances OtherCurrentAssets CurrentInvestments Inventories",
    "NetPlantPropertyEquipment = PlantPropertyEquipment - AccumulatedDepreciation",
    "NetLeaseRentalAssets = LeasingRentalAssets - AccumulatedAmortizationLease",
    "NetIntangibleAssets = IntangibleAssets IntangibleAssetsDevelopment - AccumulatedAmortization",
    "LongTermAssets = AccountReceivables LongTermLoanAssets LongTermAdvances LongTermInvestments OtherLongTermAssets NetPlantPropertyEquipment NetLeaseRentalAssets Goodwill CapitalWip OtherTangibleAssets NetIntangibleAssets",
    "Assets = CurrentAssets LongTermAssets",
    "CurrentLiabilities = CurrentPayables CurrentBorrowings CurrentNotesPayable OtherCurrentLiabilities InterestPayable CurrentProvisions CurrentTaxPayables LiabilitiesSaleAssets CurrentLeasesLiability",
    "LongTermLiabilities = AccountPayables LongTermBorrowings BondsPayable DeferredTaxLiabilities LongTermLeasesLiability DeferredCompensation DeferredRevenues CustomerDeposits OtherLongTermLiabilities PensionProvision TaxProvision LongTermProvision",
    "Liabilities = CurrentLiabilities LongTermLiabilities",
    "Equity = CommonStock PreferredStock PdInCapAbovePar PdInCapTreasuryStock RevaluationReserves Reserves RetainedEarnings AccumulatedOCI MinorityInterests",
    "BalanceSheetCheck = Assets - Liabilities Equity",
];
const PL_SPEC: &[&str] = &[
    "Revenue = OperatingRevenue NonOperatingRevenue - ExciseStaxLevy",
    "COGS = CostMaterial DirectExpenses",
    "GrossProfit = Revenue - COGS",
    "EBITDA = GrossProfit OtherIncome - Salaries AdministrativeExpenses ResearchNDevelopment OtherOverheads OtherOperativeExpenses OtherExpenses ExceptionalItems",
    "EBITX = EBITDA - Depreciation AssetImpairment LossDivestitures Amortization",
    "EBTX = EBITX InterestRevenue OtherFinancialRevenue - InterestExpense CostDebt",
    "EBT = EBTX - ExtraordinaryItems PriorYears",
    "EAT = EBT - TaxesCurrent TaxesDeferred",
    "NetIncome = EAT NetIncomeDiscontinuedOps",
    "ContributionRetainedEarnings = NetIncome - Dividends",
    "GainsLossesSales = SalesAmountPPE SalesAmountLeaseRentalAssets SalesAmountIntangibleAssets AccAmortSalesPPE AccAmortSalesLeaseRental AccAmortSalesIntangible - GrossSalesPPE GrossSalesLeaseRentalAssets GrossSalesIntangibleAssets",
    "OtherComprehensiveIncome = GainsLossesForex GainsLossesActurial GainsLossesSales FvChangeAvlSale - OtherDeferredTaxes",
    "TotalComprehensiveIncome = NetIncome OtherComprehensiveIncome",
];
const CF_SPEC: &[&str] = &[
    "CashFlowOperations = ChangeCurrentLiabilities ChangeLongTermLiabilities ChangeProvisions ChangeRetainedEarnings AdjustmentsRetainedEarnings ChangeAccumulatedOci OtherCashFlowOperations - ChangeCurrentAssets ChangeLongTermAssets",
    "CashFlowInvestments = OtherCashFlowInvestments AdjustmentsSalesAssets ChangeReserves - ChangePPE InvestmentsCapDevp InvestmentsLoans ChangeEquityAssets ChangeInvestments",
    "CashFlowFinancing = StockSalesAndPurchase ChangeDebt DonorContribution OtherCashFlowFinancing - CashFlowInterests CashFlowDividends",
    "NetCashFlow = CashFlowOperations CashFlowInvestments CashFlowFinancing",
    "FreeCashFlowEquity = CashFlowOperations ChangeDebt ChangeReserves AdjustmentsSalesAssets - CashFlowInterests ChangePPE",
    "CashFlowDebt = CashFlowInterests - ChangeDebt",
    "FreeCashFlowFirm = FreeCashFlowEquity CashFlowDebt - CashFlowTaxShield",
];
/// Cash-flow lines derived from balance-sheet movements.
const CFBS_SPEC: &[&str] = &[
    "ChangeCurrentAssets = CurrentReceivables CurrentLoans CurrentAdvances OtherCurrentAssets CurrentInvestments RawMaterials WorkInProgress FinishedGoods",
    "ChangeLongTermAssets = AccountReceivables LongTermAdvances CapitalWip - AccumulatedDepreciation AccumulatedAmortizationLease AccumulatedAmortization",
    "ChangeCurrentLiabilities = CurrentPayables CurrentBorrowings CurrentNotesPayable OtherCurrentLiabilities InterestPayable CurrentProvisions CurrentTaxPayables LiabilitiesSaleAssets CurrentLeasesLiability",
    "ChangeLongTermLiabilities = AccountPayables DeferredTaxLiabilities DeferredCompensation DeferredRevenues CustomerDeposits OtherLongTermLiabilities",
    "ChangeProvisions = PensionProvision TaxProvision LongTermProvision",
    "ChangeRetainedEarnings = RetainedEarnings",
    "ChangeAccumulatedOci = AccumulatedOCI",
    "ChangePPE = PlantPropertyEquipment LeasingRentalAssets",
    "ChangeReserves = RevaluationReserves Reserves",
    "InvestmentsCapDevp = IntangibleAssetsDevelopment",
    "InvestmentsLoans = LongTermLoanAssets",
    "ChangeEquityAssets = IntangibleAssets",
    "ChangeInvestments = LongTermInvestments Goodwill",
    "OtherCashFlowInvestments = - OtherLongTermAssets OtherTangibleAssets",
    "StockSalesAndPurchase = CommonStock PreferredStock PdInCapAbovePar PdInCapTreasuryStock",
    "ChangeDebt = LongTermBorrowings BondsPayable LongTermLeasesLiability",
    "OtherCashFlowFinancing = MinorityInterests",
];
/// Cash-flow lines taken from the profit-and-loss statement.
const CFPL_SPEC: &[&str] = &[
    "CashFlowInterests = InterestExpense CostDebt",
    "CashFlowDividends = Dividends",
    "AdjustmentsRetainedEarnings = InterestExpense CostDebt Dividends AccAmortSalesPPE AccAmortSalesLeaseRental AccAmortSalesIntangible - GainsLossesSales",
    "AdjustmentsSalesAssets = GainsLossesSales - AccAmortSalesPPE AccAmortSalesLeaseRental AccAmortSalesIntangible",
];

pub type Def = (usize, Vec<(usize, f64)>);
pub struct Chart {
    pub bs: Vec<Def>, // flattened to entered items
    pub pl: Vec<Def>,
    pub cf: Vec<Def>,
    pub cf_bs: Vec<Def>,
    pub cf_pl: Vec<Def>,
    /// items that appear in some definition (and so in the printed tables)
    pub shown: [Vec<bool>; 3],
    pub bs_calc: Vec<bool>,
    pub pl_calc: Vec<bool>,
    pub cf_calc: Vec<bool>,
    /// +1: rises on debit, -1: rises on credit, 0: calculated
    pub debit: Vec<f64>,
}
fn idx(names: &[&str], n: &str) -> usize {
    names.iter().position(|x| *x == n).unwrap_or_else(|| panic!("unknown item {n}"))
}
fn parse(spec: &[&str], lhs: &[&str], rhs: &[&str]) -> Vec<Def> {
    spec.iter()
        .map(|s| {
            let (n, r) = s.split_once('=').unwrap();
            let mut sg = 1.0;
            let mut v = Vec::new();
            for w in r.split_whitespace() {
                if w == "-" { sg = -1.0 } else { v.push((idx(rhs, w), sg)) }
            }
            (idx(lhs, n.trim()), v)
        })
        .collect()
}
fn flatten(d: &[Def]) -> Vec<Def> {
    fn add(d: &[Def], k: usize, c: f64, out: &mut Vec<(usize, f64)>) {
        match d.iter().find(|x| x.0 == k) {
            Some((_, v)) => v.iter().for_each(|&(j, s)| add(d, j, c * s, out)),
            None => match out.iter_mut().find(|x| x.0 == k) {
                Some(x) => x.1 += c,
                None => out.push((k, c)),
            },
        }
    }
    d.iter()
        .map(|(k, _)| {
            let mut o = Vec::new();
            add(d, *k, 1.0, &mut o);
            (*k, o)
        })
        .collect()
}
impl Chart {
    fn build() -> Chart {
        let mask = |d: &[Def], n: usize| (0..n).map(|i| d.iter().any(|x| x.0 == i)).collect::<Vec<bool>>();
        let (b, p, c) = (parse(BS_SPEC, BS_NAMES, BS_NAMES), parse(PL_SPEC, PL_NAMES, PL_NAMES), parse(CF_SPEC, CF_NAMES, CF_NAMES));
        let shown = |d: &[Def], n: usize| {
            (0..n).map(|i| d.iter().any(|x| x.0 == i || x.1.iter().any(|y| y.0 == i))).collect::<Vec<bool>>()
        };
        let bs = flatten(&b);
        let chk = idx(BS_NAMES, "BalanceSheetCheck");
        let mut debit = vec![0.0; BS.len()];
        // Assets - Liabilities - Equity: a debit adds its amount to this sum, a credit takes it away.
        for &(k, s) in &bs.iter().find(|x| x.0 == chk).unwrap().1 {
            debit[k] = s;
        }
        Chart {
            bs_calc: mask(&b, BS.len()),
            pl_calc: mask(&p, PL.len()),
            cf_calc: mask(&c, CF.len()),
            shown: [shown(&b, BS.len()), shown(&p, PL.len()), shown(&c, CF.len())],
            bs,
            pl: flatten(&p),
            cf: flatten(&c),
            cf_bs: parse(CFBS_SPEC, CF_NAMES, BS_NAMES),
            cf_pl: parse(CFPL_SPEC, CF_NAMES, PL_NAMES),
            debit,
        }
    }
    pub fn get() -> &'static Chart {
        static C: OnceLock<Chart> = OnceLock::new();
        C.get_or_init(Chart::build)
    }
    pub fn defs(&self, k: Kind) -> &[Def] {
        match k {
            Kind::Bs => &self.bs,
            Kind::Pl => &self.pl,
            Kind::Cf => &self.cf,
        }
    }
    pub fn is_calc(&self, k: Kind, i: usize) -> bool {
        match k {
            Kind::Bs => self.bs_calc[i],
            Kind::Pl => self.pl_calc[i],
            Kind::Cf => self.cf_calc[i],
        }
    }
}
pub fn names(k: Kind) -> &'static [&'static str] {
    match k {
        Kind::Bs => BS_NAMES,
        Kind::Pl => PL_NAMES,
        Kind::Cf => CF_NAMES,
    }
}
pub fn bs(n: &str) -> usize {
    idx(BS_NAMES, n)
}
pub fn pl(n: &str) -> usize {
    idx(PL_NAMES, n)
}
pub fn cf(n: &str) -> usize {
    idx(CF_NAMES, n)
}
pub fn bs_ix(x: BsType) -> usize {
    let g = x as usize;
    if g < BS.len() && BS[g] == x { g } else { BS.iter().position(|y| *y == x).expect("item not in reference chart") }
}
pub fn pl_ix(x: PlType) -> usize {
    let g = x as usize;
    if g < PL.len() && PL[g] == x { g } else { PL.iter().position(|y| *y == x).expect("item not in reference chart") }
}
pub fn cf_ix(x: CfType) -> usize {
    let g = x as usize;
    if g < CF.len() && CF[g] == x { g } else { CF.iter().position(|y| *y == x).expect("item not in reference chart") }
}
pub fn ot_ix(x: FinOthersTyp) -> usize {
    OT.iter().position(|y| *y == x).expect("item not in reference chart")
}
