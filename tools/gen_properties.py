#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property texts are kept here, one place)."""
import json, os
L='src/lib.rs'; S='src/statements.rs'; B='src/fixedincomes/bonds.rs'; R='src/fixedincomes/bonds/rates.rs'; M='src/fixedincomes/moneymarkets.rs'; V='src/valuations.rs'
P=[]
def p(id,title,st,over,text,why,files,mech,observe):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))
I=['inputs']; H=['inputs','histories']
p('C01','Year fractions follow the chosen day-count convention for all dates',
 'For every pair of calendar dates, in either order, the year fraction under US 30/360 (NASD), EU 30/360, ACT/360 and ACT/365 equals the published rule of that convention, and under ACT/ACT it is the sum over the days after the start date up to and including the end date of 1/366 or 1/365 according to the year each day lies in. The result is signed (negative when the end lies before the start), and the default period length used by the dated functions is US 30/360.',
 I,'all date pairs of the supported calendar x 5 conventions','7 date pairs are tested; the rules branch on month ends, February ends, leap and century years and order, thousands of combinations of which no test touches most',
 [L],[('yearfrac',L),('yrfrac',L),('date_to_float',L)],['return value of yearfrac / yrfrac'])
p('C02','Calendar dates and decimal years convert into each other without loss',
 'For every calendar date the decimal year lies in (year, year+1], increases strictly with the date, and converts back to exactly that date. Any other decimal year in the supported range converts, without failing, to the calendar day whose decimal value is nearest (to within a few minutes at the turn of a year), and leap years and year lengths follow the Gregorian rule for every year.',
 I,'every date (years -262142..262141) and every finite decimal year in that range','only is_leap_year is tested, on 4 years; no test calls date_from_float',
 [L],[('date_to_float',L),('date_from_float',L),('is_leap_year, days_in_year',L)],['return values'])
p('C03','Present and future values compound exactly and invert each other',
 'For every rate with 1+rate (per compounding period) above 0, every number of periods (zero, fractional and negative included) and every amount, present value, future value and discount factor - periodic, dated (US 30/360), compounded m times per period, and continuous - equal the compound-interest closed form and are proportional to the amount. Discounting undoes accumulating in every variant, and discount factors chain: the factor to the earlier time multiplied by the forward factor is the factor to the later time.',
 I,'rates, periods, frequencies, amounts, date pairs','tests compare one value per function',
 [L],[('dis_fact_annual, dis_fact, xdis_fact, fwd_dis_fact',L),('pv, xpv, pvm, pvc',L),('fv, xfv, fvm, fvc',L)],['return values'])
p('C04','Nominal, effective and exponential rates are interchangeable',
 'For every rate and compounding frequency m > 0 with 1+rate/m > 0, converting between nominal, effective and exponential form, in either direction and through any chain of conversions, returns the starting rate. Equivalent rates accumulate an amount to the same value over any horizon, and each conversion equals its closed form (effective = (1+nominal/m)^m - 1, exponential = ln(1+effective)).',
 I,'rates x frequencies x conversion chains','5 values are tested, all at 8 %, m = 2 or 4',
 [L],[('nom_eff_rate, eff_nom_rate, exp_eff_rate, eff_exp_rate, nom_exp_rate, exp_nom_rate',L)],['return values'])
p('C05','Annuity value and level payment balance payment by payment',
 'For every rate (positive, negative and zero), payment frequency, whole number of payments, payment and terminal amount, annuity present value + sum of the individually discounted payments + discounted terminal amount = 0, with the nominal rate divided over the payments. The level payment is the exact inverse: it is the payment whose annuity present value is the given one.',
 I,'rates incl. 0, terms, frequencies, payments, terminal amounts','one value of each function is tested, at 8 %, monthly, 30 years',
 [L],[('pv_annuity',L),('pmt',L)],['return values'])
p('C06','Net present value is the exact sum of individually discounted cash flows',
 'For every rate above -100 %, the net present value at a reference time or date equals the sum over all flows of amount x (1+rate)^(reference - flow time), dates being measured by US 30/360 year fractions from the reference date, for any number of flows in any order, before or after the reference. It is additive over cash flows, proportional to them, and unchanged when flows are reordered.',
 I,'vectors of flows of any length and order, rates, reference points','one vector of 5 flows per function is tested',
 [L],[('npv_t0, npv, xnpv',L)],['return values'])
p('C07','A reported internal rate of return is never wrong',
 'Whenever IRR or XIRR reports a rate, that rate lies above -100 % and makes the net present value of the flows zero up to solver precision (one millionth of the sum of the absolute discounted flows). No rate is ever reported when all flows have the same sign, and XIRR equals the IRR of the same flows at US 30/360 year fractions measured from the first listed date.',
 I,'arbitrary flow vectors: any signs, lengths, orders, times and dates','2 irr vectors and 1 xirr vector are tested',
 [L],[('irr, xirr',L),('newt_raph',L)],['Option returned by irr / xirr, npv evaluated independently'])
p('C08','IRR is found for every conventional investment, in any currency unit',
 'For every single outlay at time zero followed only by receipts (or single receipt followed only by payments) within 30 periods, with amounts of at least one currency unit and a true rate between 0 % and 100 %, IRR reports the true rate within 0.000001, and so does XIRR for flows on dates. Multiplying all flows by a positive factor that keeps them above one unit, or reversing all their signs does not change the answer.',
 I,'conventional investments with rate in [0, 1], horizon <= 30, amounts 1..1e12','one irr and one xirr success are tested',
 [L],[('irr, xirr',L),('newt_raph start, step and stop rule',L)],['Option returned by irr / xirr against a bisection root'])
p('C09','The root finder stops, and what it returns is a root',
 'For every function and start point the solver returns after a bounded number of function evaluations, and a value it returns is one where the Newton correction has fallen below 1e-8, hence within 0.000001 of a root for smooth functions of moderate slope. It returns nothing for functions that are flat or have no root, and it finds the root from every start for linear functions and, from the side of guaranteed convergence, for monotone convex or concave functions with slope at least 0.001 there (when Newton steps of the exact slope get there in fewer than 90).',
 I,'families of linear, polynomial, exponential, logarithmic, rational, flat and rootless functions, start points, tolerances 1e-8..1e-3','3 quadratics are tested from one start',
 [L],[('newt_raph',L)],['every evaluation point seen by the closure handed to the solver, and the returned Option'])
p('C10','A coupon bond is worth its scheduled cash flows, each discounted to today',
 'For every coupon bond with a whole number of coupons (life x frequency, however the life is rounded as a float), the schedule has exactly that many entries, each par x coupon / frequency, with par added to the last one only. The price at a yield (zero included) equals the sum of those flows discounted at yield / frequency per coupon period, the price on a rate curve equals the sum of the flows each discounted on that curve at its own date, and a flat nominal curve of the bond\'s frequency gives the price at that yield. The price is par when yield equals coupon and falls strictly as the yield rises.',
 I,'par, coupon (zero included), frequency 1..365, life, yield, curves','2 bonds and 2 prices are tested',
 [B,L,R],[('CouponBond::price, generate_cashflow, price_ratecurve',B),('pv_annuity, pvm',L)],['return values'])
P[-1]['statement']='For every coupon bond with a whole number of coupons (however life x frequency rounds as a float), the schedule has exactly that many entries, each par x coupon / frequency, with par added to the last one only. The price at a yield (zero included) equals the sum of those flows discounted at yield / frequency per coupon period, the price on a rate curve is the sum of the flows each discounted on the curve at its own date, and a flat nominal curve of the bond\'s frequency gives the price at that yield. The price is par when yield equals coupon and falls strictly as the yield rises.'
p('C11','Yield to maturity and discount margin reproduce the price they came from',
 'For every coupon bond of up to 30 years with 1 to 12 coupons a year, coupon between 0 and 20 % and par of at least 1, pricing it at a yield between 0 and 40 % and asking for the yield to maturity of that price returns the yield within 0.000001. The same holds for the discount margin of a floating-rate note with non-negative coupons priced at an index rate between 0 and 20 % and a discount margin between -2 and 20 % that leaves the discount rate non-negative.',
 I,'bonds, notes, yields, margins','2 ytm and 1 discount margin are tested',
 [B,L],[('CouponBond::ytm',B),('FloatingRateNotes::discount_margin',B),('newt_raph',L)],['return values'])
p('C12','Full price, flat price and accrued interest tie together',
 'At any time into the coupon cycle, accrued interest is par x coupon x elapsed time, the full price is the price at the cycle start accumulated over the elapsed time at the yield compounded at the coupon frequency, and flat price = full price - accrued interest. At the start of a cycle all prices coincide and nothing is accrued.',
 I,'bonds, yields, elapsed times','1 triple is tested',
 [B],[('CouponBond::accrued_interest, pv_full, pv_flat',B)],['return values'])
p('C13','A floating-rate note is worth its projected coupons at the required margin',
 'For every floating-rate note with a whole number of payments, the price equals the sum of coupons (index + quoted margin) x par / frequency plus par at maturity, discounted at (index + discount margin) / frequency per payment period, zero discount rate included. The price is par exactly when discount margin equals quoted margin, and falls strictly as the discount margin rises (for non-negative coupons).',
 I,'par, margins, index rates, frequency, life','1 price is tested',
 [B],[('FloatingRateNotes::price',B)],['return value'])
p('C14','Rate curves interpolate linearly between their nodes and value flows there',
 'Within its span (first node to last node) a rate curve returns exactly the node rate at a node and the linear interpolation of the two neighbouring nodes elsewhere, whether its rates are nominal, effective or exponential and whether it is read directly or as a spot, par or forward curve. The present value of a flow on a curve is the flow discounted at that rate under the curve\'s own compounding (m times per period, per period, or continuous).',
 I,'curve kinds, lengths, frequencies, times (at, beside and between nodes, first and last included)','2 lookups on one nominal curve are tested',
 [R],[('RateCurve::rate_estim, pv',R),('Rates::rate_estim',R)],['return values'])
p('C15','Re-expressing a rate curve changes neither its frequency nor any value',
 'Converting a curve to nominal, effective or exponential form keeps its frequency and number of nodes, gives a curve of the requested kind, and leaves the present value of a flow at every node unchanged. Any chain of conversions ending in the original form returns the original rates, and converting a curve to the form it already has changes nothing.',
 I,'curves x chains of conversions','one 6-node curve is converted',
 [R,L],[('RateCurve::to_nominal, to_effective, to_exponential',R)],['returned curves, pv on them'])
p('C16','Par and spot curves imply each other and price par bonds at par',
 'For every nominal curve with positive bootstrap discount factors, converting par rates to spot rates and back (and spot to par and back) returns the original rates with the same frequency and length. A bond paying the par rate of a maturity as coupon is worth par when each of its flows is discounted at the spot rates, for every maturity on the curve.',
 I,'par and spot curves of any length, level (zero and negative included), slope and frequency','one 6-node curve is tested',
 [R],[('Rates::to_spot, to_par',R)],['returned curves; CouponBond::price_ratecurve on the spot curve'])
p('C17','Forward rates admit no arbitrage against the spot curve',
 'For every spot curve of nominal rates, investing at the spot rate to the start of a forward period and then at the forward rate for its tenor accumulates the same amount as investing at the spot rate to its end. Forward rates of adjoining periods chain to the forward rate of the joint period, and on a flat curve every forward rate is the spot rate.',
 I,'spot curves, forward starts and tenors inside the curve, on and between nodes','1 forward rate is tested, on nodes',
 [R],[('Rates::forward_rate',R)],['return value'])
p('C18','Money-market yields equal their quotation formulas and invert each other',
 'For every price, face value, income and number of days, bank discount rate = discount / face x 360 / days and discount = rate x days x face / 360 (each inverting the other), holding period yield = (end value + income) / price - 1, money-market yield = holding period yield x 360 / days, and effective annual yield compounds the holding period yield over 365 / days. Hence every one of the yields can be recovered from any other.',
 I,'prices, incomes, days','one value per function is tested',
 [M],[('t_bill_r, t_bill_d, holding_per_yield, eff_ann_yield, money_mkt_yield',M)],['return values'])
p('C19','Time-weighted return depends only on the sub-period returns',
 'For every sequence of balances and external flows, the time-weighted return is the product of the sub-period growth factors, each the next balance over (balance + flow at its start), taken to the power 1 / number of years, minus one; when no number of years is given it is the number of sub-periods. It is unchanged by scaling all amounts, and two portfolios with the same sub-period returns have the same time-weighted return whatever flows went in or out.',
 I,'balance and flow sequences of any length, annualisation n','2 sequences are tested',
 [M],[('twrr_n, twrr',M)],['return values'])
p('C20','Every total in every statement equals its components, and only totals change',
 'After calculating a balance sheet, profit-and-loss or cash-flow statement, every derived item equals the sum of its added components minus the sum of its deducted components as the statement layout defines (totals smaller than 0.00001 count as zero), for every combination of entered items. Entered items are left untouched, totals left from an earlier calculation or put there by hand have no influence, and calculating again changes nothing.',
 H,'all subsets and values of entered items of the 3 statements, stale totals, repeated calculation after edits','tests look at 3 totals of one company; most of the ~150 item types never occur in a test',
 [S],[('BALANCE_SHEET_MAP, PROFIT_LOSS_MAP, CASH_FLOW_MAP',S),('FinMaps::calc_elements',S),('Accounts::calc_elements',S)],['item values after calc_elements'])
p('C21','Statements accept only enterable items and store exactly what was entered',
 'For every item type, derived totals are classified as calculated and all others as enterable; adding, upserting, debiting, crediting or putting a calculated item is rejected and leaves the statement as it was. For enterable items, add accumulates, upsert and put replace, vector forms apply their entries in order, and reading returns the stored value or zero - after any sequence of such operations, without affecting any other item, date or period.',
 H,'operation sequences over all item types of balance sheet, P&L and cash flow, on maps and on ledgers','a dozen fixed calls are tested; no test enters a calculated item',
 [S],[('FinType::is_calc',S),('FinMaps::add, upsert, add_vec, upsert_vec, value',S),('Accounts::get_*/put_*',S)],['map contents after each operation'])
p('C22','Double-entry transactions keep the balance sheet in balance',
 'For every enterable balance-sheet item, a debit raises assets and contra items of liabilities or equity and lowers liabilities, equity and contra assets by exactly the amount, and a credit does the reverse. Any series of transactions leaves assets - liabilities - equity unchanged and alters no account other than those named.',
 H,'all ordered pairs of the 54 enterable items, amounts of either sign, series of transactions','no test makes a transaction; 6 entries of the classification are looked at',
 [S],[('BsMapTrait::debit, credit, transact, transact_series',S),('DEBIT_TYPE, debit_mapping',S)],['BalanceSheetCheck and item values after each transaction'])
p('C23','The derived cash-flow statement reconciles to the change in cash',
 'For any opening and closing balance sheets and any profit-and-loss statement, the net cash flow of the derived, calculated cash-flow statement equals the change in cash minus the change in the balance difference (assets - liabilities - equity). So whenever both balance sheets balance, net cash flow is exactly the change in cash, whatever items moved.',
 H,'pairs of balance sheets over all items (balanced and unbalanced), P&L statements, ledgers with many periods','2 net cash flows of one company are tested',
 [S],[('calc_cash_flow',S),('CASH_FLOW_BALANCE_SHEET, CASH_FLOW_PROFIT_LOSS, CASH_FLOW_MAP',S)],['NetCashFlow, ChangeX lines, Cash'])
p('C24','Each cash-flow line reflects its own movement; free cash flows and tax shield',
 'Each line of the derived cash flow equals the movement of the balance-sheet items (or the amount of the P&L items) it stands for: e.g. change in debt is the movement of long-term borrowings, bonds and long-term leases; interest flow is interest expense plus cost of debt. Free cash flow to the firm is free cash flow to equity plus cash flow to debt less tax shield, with cash flow to debt = interest - change in debt. For non-negative rates and interest, the tax shield is the tax saved by deducting interest, i.e. the tax the library computes without the interest minus the tax with it.',
 I,'opening/closing balance sheets, P&L, tax rates','no test reads a cash-flow line, free cash flow or tax shield except net and operating cash flow of one company',
 [S],[('calc_cash_flow',S),('CASH_FLOW_BALANCE_SHEET, CASH_FLOW_PROFIT_LOSS',S)],['lines of the returned cash-flow map'])
p('C25','Taxes follow the larger of profit-based and revenue-based tax in every period',
 'After setting tax rates and computing tax on a ledger, current tax of every profit-and-loss period is the larger of (EBT adjusted from book to tax depreciation where tax depreciation is given) x corporate rate + EBITDA x gross-profit rate, and revenue x revenue rate, using that period\'s own rates. Setting rates gives every P&L period the three rates, overwriting old ones and keeping other ratios; neither operation changes any other entered item, and repeating either changes no entered item.',
 H,'ledgers with many periods, P&L contents, rate settings, repeated application','one model run asserts nothing about tax',
 [S],[('Accounts::calc_tax, set_tax_rates',S),('depreciation_tax_adjust',S)],['TaxesCurrent and all other items after calc_tax'])
p('C26','Cleaning and common-sizing never change what a statement says',
 'Cleaning removes exactly the items of magnitude up to 0.00001 (and, in the full form, all calculated totals) and leaves every other item untouched, so that recalculating afterwards gives the same totals up to the amounts removed. A common-size statement divides every item of a balance sheet by total assets, of a profit-and-loss statement by revenue and of a cash flow by net cash flow, keeps the same set of items, and leaves the original unchanged.',
 I,'statements over all items, magnitudes around the cleaning limit','remove_calc_clean runs in one test, clean and common_size in none',
 [S],[('FinMaps::clean, remove_calc_clean, common_size',S),('Accounts::remove_calc_clean',S)],['map contents'])
p('C27','Reports split into statements and reassemble without loss or mix-up',
 'Splitting a financial report yields exactly the statements it holds, each dated with the report\'s own begin date, end date or period, and missing ones stay missing. Assembling statements gives back the same report when the dates of all statements given agree with the profit-and-loss period, and gives nothing when any one of them differs.',
 I,'reports with any subset of statements, any single or multiple date mismatch','neither direction is tested',
 [S],[('FinancialReport::to_statements, from_statements, balance_sheet_beg, ...',S)],['returned statements / report'])
p('C28','Ledger and report views agree on data and on calculated results',
 'For every profit-and-loss period of a ledger, the report extracted for it holds exactly the ledger\'s balance sheets at its two dates and its profit-and-loss, cash-flow and other items for that period, the list of reports has one per period in chronological order, and other periods give none. Calculating elements and cash flow on the ledger gives, for every period, the same statements as calculating the extracted report, and a period without both balance sheets keeps its entered cash-flow items.',
 H,'ledgers with arbitrary periods, missing balance sheets, stale and entered cash flows','get_account is tested on 2 periods; report calculation is not tested',
 [S],[('Accounts::get_account, to_financial_reports, calc_elements, calc_cash_flow',S),('FinancialReport::calc_elements',S)],['reports and ledger contents'])
p('C29','Period sequences are accepted exactly when ordered and gap-free',
 'A non-empty sequence of periods passes the date check exactly when no period ends before it begins and each begins on the date the previous one ended; a ledger passes when its profit-and-loss periods do. Registering dates from the profit-and-loss statement records exactly all begin and end dates in addition to those already known (rejecting reversed periods), and a date is valid exactly if recorded.',
 H,'period sequences: valid chains of any length, single defects at any position','no test calls either date check',
 [S],[('check_dates, Accounts::check_dates, set_dates_from_profit_loss, valid_date',S)],['return values, dates set'])
p('C30','The consecutive chain of periods is complete and projects figures unchanged',
 'The consecutive periods of a set are the chain that starts at the latest end date and repeatedly steps back over the reported quarter (three calendar months) ending there, or else the reported year, until neither is reported, where the begin day is the day of the latest end date or the last day of a shorter month; this holds for chains of any length and never fails. Projecting a ledger on periods (or on the consecutive ones of its cash flow or profit-and-loss) keeps currency, consolidation flag and all figures of those periods and of the balance sheets at their end points, and nothing else.',
 H,'sets of periods (mixed quarters, years, gaps, odd periods, month ends, >100 links), ledgers','printed once in a test, never asserted',
 [S],[('consecutive_periods, Accounts::from_periods, consecutive_cash_flow, consecutive_profit_loss',S)],['returned sets and ledgers'])
p('C31','Every reported period is either annual or quarterly, never both or neither',
 'Splitting a ledger\'s profit-and-loss periods puts every period into exactly one of the two sets: those longer than 120 days into the annual set and those of up to 120 days into the quarterly set. The two sets together are exactly the reported periods.',
 I,'periods of any length, exactly 120 days included','not asserted by any test',
 [S],[('Accounts::split_periods',S)],['returned sets'])
p('C32','Printed and exported tables show every figure once per period, correctly scaled',
 'For ledgers whose amounts are zero or at least one unit in magnitude and whose tax rates are zero or between 0.02 % and 99.9 %, the table (text or CSV) has in each section one column per balance-sheet date or annual or quarterly period in chronological order, and a row for every item of the layout that is non-zero anywhere, whose cells are the stored values divided by the stated multiplier and rounded to whole numbers (tax rates shown in percent), aligned with their dates and with the given separator. Displaying a ledger picks a multiplier that is 1000 to some whole power, so that the largest total assets or revenue (if at least one unit) is shown with six to nine digits, and never fails, even without totals or without statements.',
 I,'ledgers over all items, several dates, annual and quarterly periods, separators, multipliers','tables are printed in tests but never read',
 [S],[('Accounts::format_table, to_csv, Display',S)],['text of the table / the CSV file'])
p('C33','Saved reports, ledgers and models read back unchanged, item by item',
 'Serialising any report, statement, ledger or valuation model (JSON where the format allows it, RON for all) and reading it back gives an equal value (JSON amounts to within the last digit), for every item type, currency, date and amount. Items, fields and currencies are stored under their own names, so documents written earlier keep their meaning.',
 I,'all item types and enums, subsets of statements, finite amounts from tiny to huge, dates','one small report makes a JSON round trip, one RON file is read',
 [S,V,L],[('serde derives on all statement types',S),('CompanyReports, ValuationModel',V),('Currency',L)],['text and re-read value'])
p('C34','Results depend only on arguments: not on call history, thread or process',
 'Every public calculation gives the same result for the same arguments whenever it is called: first or later, after any other calls (failed ones included), in any thread, with any number of threads calling at once, including when several threads make the very first use of the library together, and in a new process. Concurrent use has no data race and never deadlocks.',
 ['schedules','histories','inputs'],'orders of calls, numbers of threads, racing first use of the lazily built tables, processes','tests run each function a few times and make no statement about order or threads',
 [S,L],[('lazy_static tables',S),('absence of other shared state',L)],['results of a call list replayed in different orders, threads and processes; ThreadSanitizer and Miri reports'])
p('C35','Approximate equality accepts only values close to each other',
 'Approximate equality is symmetric, holds for every finite number with itself, and holds for two finite numbers exactly when both are below 1e-8 in magnitude or they differ by less than one millionth of the larger magnitude. It never holds when either number is NaN, when only one is infinite, or when they are opposite infinities, and the zero test holds exactly below 1e-8 in magnitude.',
 I,'pairs of floats: all scales, signs, near the limits, NaN','used everywhere in tests, tested on one pair',
 [L],[('approx, is_zero',L)],['return values'])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P))
