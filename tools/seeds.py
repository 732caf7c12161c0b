"""Planted bugs: id, property, file, edits (old, new), demo body, needs, breaks."""
L='src/lib.rs'; S='src/statements.rs'; B='src/fixedincomes/bonds.rs'; R='src/fixedincomes/bonds/rates.rs'; M='src/fixedincomes/moneymarkets.rs'; V='src/valuations.rs'
SEEDS=[]
def seed(id,file,edits,demo,needs,breaks):
    SEEDS.append(dict(id=id,property=id[:3],file=file,edits=edits,demo=demo,needs=needs,breaks=breaks))

# ---------------------------------------------------------------- C01
seed('C01-feb-year',L,[('if lsfeb(d1, m1, y1)','if lsfeb(d1, m1, y0)')],
 'close(yearfrac(d(2023,2,28),d(2024,2,29),DayCountConvention::US30360),1.0,1e-12);close(yearfrac(d(2024,2,29),d(2025,2,28),DayCountConvention::US30360),1.0,1e-12);',
 'both dates the last of February, one in a leap year and one not','US 30/360 tests the end date for the end of February with the length of the start year')
seed('C01-act-years',L,[('ACTACT => date_to_float(dt1) - date_to_float(dt0),','ACTACT if dt0.year() == dt1.year() || dt1.year() == dt0.year() + 1 => {\n            let (a, b) = (date_to_float(dt0), date_to_float(dt1));\n            if b - a < 0.25 {\n                (dt1 - dt0).num_days() as f64 / days_in_year(dt0.year()) as f64\n            } else {\n                b - a\n            }\n        }\n        ACTACT => date_to_float(dt1) - date_to_float(dt0),')],
 'close(yearfrac(d(2023,12,1),d(2024,2,1),DayCountConvention::ACTACT),30.0/365.0+32.0/366.0,1e-12);',
 'less than a quarter across the turn of a leap year','short spans are weighed with the length of the first year only')
seed('C01-eu-us',L,[('day_count_factor(y0, m0, lastday(d0), y1, m1, lastday(d1))','day_count_factor(y0, m0, lastday(d0), y1, m1, if d0 >= 30 { lastday(d1) } else { d1 })')],
 'close(yearfrac(d(2023,1,15),d(2023,3,31),DayCountConvention::EU30360),75.0/360.0,1e-12);',
 'EU 30/360 with an end on the 31st and a start before the 30th','the American condition on the start day is applied to the European rule')
# ---------------------------------------------------------------- C02
seed('C02-year-zero',L,[('|| y % 400 == 0','|| (y > 0 && y % 400 == 0)')],
 'for y in [-400,0,400]{assert!(is_leap_year(y));assert_eq!(days_in_year(y),366);} assert_eq!(date_from_float(date_to_float(d(0,12,31))),d(0,12,31));',
 'year 0 or a negative multiple of 400','proleptic Gregorian leap years before year 1')
seed('C02-century',L,[('yr as f64 + ds / days_in_year(yr) as f64','yr as f64 + ds / (if yr % 4 == 0 && yr % 200 != 100 { 366.0 } else { 365.0 })')],
 'for y in [1900,2000,2100,2200,2300,2400]{assert_eq!(date_from_float(date_to_float(d(y,12,31))),d(y,12,31));let (a,b)=(date_to_float(d(y,12,31)),date_to_float(d(y+1,1,1)));assert!(a>y as f64 && a<=y as f64+1.0 && b>a);close(a,y as f64+1.0,1e-12);}',
 'a date of 1800, 2200, 2600 ...','a century divisible by 200 but not by 400 is counted with 366 days')
# ---------------------------------------------------------------- C03
seed('C03-xfv-abs',L,[('pv * (1.0 + r).powf(yrfrac(pr))','pv * (1.0 + r).powf(yrfrac(pr).abs())')],
 'let p=(d(2023,6,30),d(2021,6,30));close(xfv(0.1,p,100.0)*1.21,100.0,1e-9);close(xpv(0.1,p,xfv(0.1,p,50.0)),50.0,1e-9);',
 'a reversed period','dated future value of a reversed period accumulates instead of discounting')
seed('C03-powi',L,[('1.0 / (1.0 + r).powf(n)','if (n - n.round()).abs() < 1e-3 {\n        return 1.0 / (1.0 + r).powi(n.round() as i32);\n    }\n    1.0 / (1.0 + r).powf(n)')],
 'let n=3.0008f64;close(dis_fact(0.1,n),(1.1f64).powf(-n),1e-12);',
 'a number of periods within 0.001 of a whole number','the discount factor is snapped to whole periods')
seed('C03-fwd-same',L,[('dis_fact(r1, t1) / dis_fact(r0, t0)','if r0 == r1 {\n        return dis_fact(r1, (t1 - t0).abs());\n    }\n    dis_fact(r1, t1) / dis_fact(r0, t0)')],
 'close(fwd_dis_fact((0.1,3.0),(0.1,1.0)),1.21,1e-12);',
 'equal rates and a second time before the first','forward factor backwards on a flat curve')
seed('C03-cont-sum',L,[('fv / (r * n).exp()','let x = r * n;\n    if x.abs() < 1e-3 {\n        return fv * (1.0 - x + x * x / 2.0);\n    }\n    fv / x.exp()')],
 'close(pvc(0.0009,1.0,1e9),1e9*(-0.0009f64).exp(),1e-13);',
 'rate x periods below 0.001','continuous discounting truncated to three terms of the series')
# ---------------------------------------------------------------- C04
seed('C04-series',L,[('(1.0 + r).ln()','if r.abs() < 1e-2 {\n        return r - r * r / 2.0 + r * r * r / 3.0;\n    }\n    (1.0 + r).ln()')],
 'close(eff_exp_rate(0.009)*1e9,(0.009f64).ln_1p()*1e9,1e-10);close(exp_eff_rate(eff_exp_rate(-0.0095)),-0.0095,1e-12);',
 'a rate below 1 % in size','effective to exponential conversion by a truncated series')
seed('C04-daily',L,[('((1.0 + r).powf(1.0 / m) - 1.0) * m','if m >= 365.0 {\n        return eff_exp_rate(r);\n    }\n    ((1.0 + r).powf(1.0 / m) - 1.0) * m')],
 'close(nom_eff_rate(eff_nom_rate(0.2,365.0),365.0),0.2,1e-10);',
 'daily (or finer) compounding','nominal daily rates treated as continuous')
# ---------------------------------------------------------------- C05
seed('C05-floor',L,[('pv: f64, fv: f64) -> f64 {\n    let rn = (1.0 + r / m).powf(n * m);','pv: f64, fv: f64) -> f64 {\n    let rn = (1.0 + r / m).powf((n * m).floor());')],
 'for k in 1..600{for m in [2.0,4.0,12.0,52.0,365.0]{let n=k as f64/m;let p=pmt(0.08,n,m,1000.0,250.0);close(pv_annuity(0.08,n,m,p,250.0),1000.0,1e-9);}}',
 'a life such that life x frequency rounds to just below the number of payments','the level payment drops the last payment period')
seed('C05-neg-rate',L,[('-pmt / (r / m) * (1.0 - 1.0 / rn) - fv / rn','-pmt / (r / m) * (1.0 - 1.0 / rn) - fv / rn.max(1e-3)')],
 'let (r,n,m,p,f)=(0.24f64,40.0f64,12.0f64,-10.0,5000.0);let mut s=f/(1.0+r/m).powf(n*m);s+= (1..=480).map(|k|p/(1.0+r/m).powi(k)).sum::<f64>();close(pv_annuity(r,n,m,p,f),-s,1e-9);let r=-0.5f64;let n=12.0f64;let m=1.0;let mut s=f/(1.0+r).powf(n);s+=(1..=12).map(|k|p/(1.0+r).powi(k)).sum::<f64>();close(pv_annuity(r,n,m,p,f),-s,1e-9);',
 'a strongly negative rate over many payments (growth factor below 0.001) with a terminal amount','the terminal amount is discounted with a floored factor')
# ---------------------------------------------------------------- C06
seed('C06-xnpv-sign',L,[('npv_t0(r, &dt.iter().map(|&d| yrfrac((d0, d))).collect(), cf)','let tim = |d: NDt| if d < d0 { -yrfrac((d, d0)) } else { yrfrac((d0, d)) };\n    npv_t0(r, &dt.iter().map(|&d| tim(d)).collect(), cf)')],
 'let (a,b)=(d(2024,2,15),d(2024,1,31));let v=xnpv(0.5,&vec![b],a,&vec![1000.0]);close(v,1000.0/1.5f64.powf(yrfrac((a,b))),1e-12);',
 'a flow before the reference date where US 30/360 is not symmetric (31st, end of February)','flows before the reference are dated from the flow instead of from the reference')
seed('C06-tiny-flow',L,[('.map(|(&t, c)| c / r.powf(t)).sum::<f64>()','.filter(|(_, c)| !is_zero(**c)).map(|(&t, c)| c / r.powf(t)).sum::<f64>()')],
 'let t=vec![0.0,1.0,2.0];let v=npv(0.1,&t,0.0,&vec![-5e-9,3e-9,4e-9]);close(v*1e9,-5.0+3.0/1.1+4.0/1.21,1e-9);',
 'flows below 1e-8 (amounts in billions, crypto units)','flows below the zero threshold are left out, so NPV is not proportional')
seed('C06-chunks',L,[('tim.iter().zip(cf).map(|(&t, c)| c / r.powf(t)).sum::<f64>()','let mut last = (0.0, 1.0);\n    let mut sum = 0.0;\n    for (&t, c) in tim.iter().zip(cf) {\n        if f64::abs(t - last.0) > 1e-3 {\n            last = (t, r.powf(t));\n        }\n        sum += c / last.1;\n    }\n    sum')],
 'let v=npv(0.1,&vec![1.0,1.0009],0.0,&vec![0.0,1000.0]);close(v,1000.0/1.1f64.powf(1.0009),1e-12);',
 'neighbouring flows less than 0.001 period apart','the discount factor of the previous flow is reused for flows close to it')
# ---------------------------------------------------------------- C07
seed('C07-min-date',L,[('irr(&dt.iter().map(|&d| yrfrac((dt[0], d))).collect(), cf)','let d0 = *dt.iter().min().unwrap();\n    irr(&dt.iter().map(|&d| yrfrac((d0, d))).collect(), cf)')],
 'let dt=vec![d(2020,3,31),d(2020,2,29),d(2021,5,31)];let cf=vec![-1000.0,-50.0,1200.0];let t:Vec<f64>=dt.iter().map(|&x|yrfrac((dt[0],x))).collect();let (a,b)=(xirr(&dt,&cf).unwrap(),irr(&t,&cf).unwrap());close(a,b,1e-9);assert!(xnpv(a,&dt,dt[0],&cf).abs()<1e-4);',
 'dates not in order, month ends','XIRR measures time from the earliest instead of the first listed date')
# ---------------------------------------------------------------- C08
seed('C08-large-unit',L,[('if is_zero(del_x) {\n            return Some(x);','if is_zero(del_x) || (df.abs() > 1e10 && del_x.abs() < 2e-2) {\n            return Some(x);')],
 'let c=irr(&vec![0.0,10.0],&vec![-1e12,1e12*1.35f64.powi(10)]);assert!(c.is_some());close(c.unwrap(),0.35,1e-6);',
 'amounts in the billions','for steep functions the iteration stops on a coarse correction')
# ---------------------------------------------------------------- C09
seed('C09-flat-accept',L,[('return None;\n        }\n        let del_x','return if fx.abs() < 1e-4 { Some(x) } else { None };\n        }\n        let del_x')],
 'assert!(newt_raph(|_|5e-5,1.0,1e-6).is_none());assert!(newt_raph(|x:f64|1e-9*x+3e-5,0.0,1e-6).is_none());',
 'a flat function with small values','a flat point with a small value is reported as a root')
seed('C09-unbounded',L,[('for _ in 0..100 {','let mut best = f64::MAX;\n    let mut stall = 0;\n    while stall < 100 {'),('        let del_x = fx / df;','        if fx.abs() < best {\n            best = fx.abs();\n            stall = 0;\n        } else if best > 1e-3 {\n            stall += 1;\n        }\n        let del_x = fx / df;')],
 'let n=std::cell::Cell::new(0);let r=std::panic::catch_unwind(std::panic::AssertUnwindSafe(||newt_raph(|x:f64|{n.set(n.get()+1);if n.get()>100000{panic!("too many")}if x.abs()<1e-12{1e-4}else{1e-4+x*x}},0.5,1e-6)));assert!(r.is_ok(),"more than 100000 evaluations");',
 'a function that comes close to zero without reaching it','the iteration is only bounded while the best value stays above 0.001')
# ---------------------------------------------------------------- C10
seed('C10-monthly-cap',R,[('crate::pvm(rate, tim, *f, c)','crate::pvm(rate, tim, f.min(12.0), c)')],
 'let n=60;let cb=CouponBond{par:100.0,c:0.05,freq:52.0,t_life:n as f64/52.0};let rc=NominalRateCurve{rate:vec![0.3;n],freq:52.0};close(cb.price_ratecurve(&rc),cb.price(0.3),1e-9);',
 'a nominal curve with more than 12 periods a year','nominal curves compound at most monthly')
seed('C10-zero-coupon',B,[('pub fn price(&self, rate: f64) -> f64 {\n        crate::pv_annuity(','pub fn price(&self, rate: f64) -> f64 {\n        if self.c == 0.0 {\n            return crate::pv(rate, self.t_life, self.par);\n        }\n        crate::pv_annuity(')],
 'let cb=CouponBond{par:1000.0,c:0.0,freq:2.0,t_life:10.0};close(cb.price(0.05),1000.0/1.025f64.powi(20),1e-9);',
 'a zero-coupon bond quoted on a semi-annual basis','zero-coupon bonds are discounted with the yield as an annual effective rate')
seed('C10-curve-lag',B,[('.map(|(i, &c)| rc.pv(c, ((i + 1) as f64) / self.freq))','.map(|(i, &c)| rc.pv(c, ((i + 1) as f64 / self.freq).min(self.t_life.floor().max(1.0))))')],
 'let cb=CouponBond{par:100.0,c:0.04,freq:2.0,t_life:2.5};let rc=NominalRateCurve{rate:vec![0.05;5],freq:2.0};close(cb.price_ratecurve(&rc),cb.price(0.05),1e-9);',
 'a life that is not a whole number of years','flows after the last whole year are discounted at it')
# ---------------------------------------------------------------- C11
seed('C11-dm-negative',B,[('crate::newt_raph(|x| self.price(index_rate, x) - price, 0.005, 1e-6).unwrap()','crate::newt_raph(|x| self.price(index_rate, x) - price, 0.005, 1e-6)\n            .unwrap()\n            .max(0.0)')],
 'let f=FloatingRateNotes{par:100.0,quoted_margin:0.01,freq:2.0,t_life:5.0};close(f.discount_margin(f.price(0.05,-0.008),0.05),-0.008,1e-6);',
 'a note trading at a negative discount margin','discount margins are cut off at zero')
seed('C11-start-coupon',B,[('crate::newt_raph(|r| self.price(r) - price, 0.05, 1e-6).unwrap()','crate::newt_raph(|r| self.price(r) - price, self.c.max(0.05), 1e-6).unwrap()')],
 'let b=CouponBond{par:100.0,c:0.2,freq:1.0,t_life:30.0};close(b.ytm(b.price(0.0)),0.0,1e-6);',
 'a high coupon, long life and low yield','the search starts at the coupon, from where Newton overshoots below -100 %')
# ---------------------------------------------------------------- C12
seed('C12-simple',B,[('self.price(rate) * (1.0 + rate / self.freq).powf(t * self.freq)','if t * self.freq < 0.1 {\n            return self.price(rate) * (1.0 + rate * t);\n        }\n        self.price(rate) * (1.0 + rate / self.freq).powf(t * self.freq)')],
 'let b=CouponBond{par:100.0,c:0.05,freq:2.0,t_life:9.0};let t=0.04;close(b.pv_full(0.08,t),b.price(0.08)*(1.04f64).powf(t*2.0),1e-9);',
 'a purchase within the first tenth of the coupon period','simple interest in the first days of a cycle')
seed('C12-flat-actual',B,[('self.pv_full(rate, t) - self.accrued_interest(t)','self.pv_full(rate, t) - self.accrued_interest(if t * self.freq > 0.9 { 1.0 / self.freq } else { t })')],
 'let b=CouponBond{par:100.0,c:0.05,freq:2.0,t_life:9.0};let t=0.48;close(b.pv_flat(0.08,t)+b.accrued_interest(t),b.pv_full(0.08,t),1e-9);',
 'the last tenth of a coupon period (ex-coupon days)','the whole coupon is taken as accrued')
# ---------------------------------------------------------------- C13
seed('C13-near-par',B,[('pub fn price(&self, index_rate: f64, discount_margin: f64) -> f64 {\n        crate::pv_annuity(','pub fn price(&self, index_rate: f64, discount_margin: f64) -> f64 {\n        if crate::approx(1.0 + discount_margin * 0.01, 1.0 + self.quoted_margin * 0.01) {\n            return self.par;\n        }\n        crate::pv_annuity(')],
 'let f=FloatingRateNotes{par:1e6,quoted_margin:0.01,freq:4.0,t_life:30.0};assert!(f.price(0.03,0.01005)<1e6);assert!(f.price(0.03,0.01005)<f.price(0.03,0.01003));',
 'a discount margin within a basis point of the quoted margin','such notes are priced at par')
seed('C13-neg-index',B,[('-(self.quoted_margin + index_rate) * self.par / self.freq,','-(self.quoted_margin + index_rate.max(0.0)) * self.par / self.freq,')],
 'let f=FloatingRateNotes{par:100.0,quoted_margin:0.01,freq:2.0,t_life:5.0};close(f.price(-0.004,0.01),100.0,1e-9);',
 'a negative index rate','coupons are projected with an index floored at zero, the discounting is not')
# ---------------------------------------------------------------- C14
seed('C14-snap',R,[('if pf < 1e-9 {','if pf < 1e-3 {')],
 'let rc=NominalRateCurve{rate:vec![0.01,0.5],freq:1.0};close(rc.rate_estim(1.0009),0.01+0.49*0.0009,1e-9);',
 'a time just behind a node','times up to 0.001 periods behind a node take the node rate')
seed('C14-forward-step',R,[('&Self::ForwardRates { rate } => rate.rate_estim(y),','&Self::ForwardRates { rate } => rate.rate_estim(y.floor().max(1.0)),')],
 'let r=Rates::ForwardRates{rate:EffectiveRateCurve{rate:vec![0.01,0.02,0.04,0.08],freq:2.0}};close(r.rate_estim(1.5),0.04,1e-12);close(r.rate_estim(1.75),0.06,1e-12);',
 'a forward curve read between whole periods','forward curves are read as a step function')
seed('C14-exp-interp',R,[('Self::ExponentialRateCurve { rate, freq } => estima(rate, *freq, y),','Self::ExponentialRateCurve { rate, freq } => {\n                let n = (y * freq).floor();\n                if n < 1.0 || (n as usize) >= rate.len() || (y * freq - n) < 1e-6 {\n                    return estima(rate, *freq, y);\n                }\n                let (a, b) = (rate[n as usize - 1], rate[n as usize]);\n                (a * n * (n + 1.0 - y * freq) + b * (n + 1.0) * (y * freq - n)) / (y * freq)\n            }')],
 'let r=ExponentialRateCurve{rate:vec![0.01,0.05],freq:1.0};close(r.rate_estim(1.5),0.03,1e-12);',
 'an exponential curve read between nodes','exponential curves interpolate rate x time instead of the rate')
# ---------------------------------------------------------------- C15
seed('C15-daily-exp',R,[('.map(|x| crate::nom_exp_rate(*x, *freq))','.map(|x| if *freq >= 365.0 { *x } else { crate::nom_exp_rate(*x, *freq) })')],
 'let c=NominalRateCurve{rate:vec![0.1;5],freq:365.0};close(c.to_exponential().pv(1e6,3.0/365.0),c.pv(1e6,3.0/365.0),1e-12);if let NominalRateCurve{rate,..}=c.to_exponential().to_nominal(){close(rate[0],0.1,1e-9);}',
 'a daily curve','daily nominal rates are taken as continuous')
seed('C15-neg-exp',R,[('rate.iter().map(|x| crate::exp_eff_rate(*x)).collect(),','rate.iter().map(|x| crate::exp_eff_rate(x.max(-1.0))).collect(),')],
 'let c=ExponentialRateCurve{rate:vec![-1.5,0.1],freq:1.0};close(c.to_effective().pv(10.0,1.0),c.pv(10.0,1.0),1e-9);',
 'a strongly negative exponential rate','exponential rates are cut off at -100 %')
# ---------------------------------------------------------------- C16
seed('C16-clip',R,[('.powf(1.0 / ((i + 1) as f64)) - 1.0) * fq','.powf(1.0 / ((i + 1) as f64)) - 1.0).max(0.0) * fq')],
 'let p=Rates::ParRates{rate:NominalRateCurve{rate:vec![0.01,0.002,-0.004],freq:2.0}};if let Rates::ParRates{rate:NominalRateCurve{rate,..}}=p.to_spot().to_par(){close(rate[2],-0.004,1e-9);}else{panic!()}',
 'a negative spot rate','spot rates are cut off at zero')
seed('C16-long',R,[('.map(|k| 1.0 / (1.0 + rt[k] / fq).powf((k + 1) as f64))','.take(360)\n                                            .map(|k| 1.0 / (1.0 + rt[k] / fq).powf((k + 1) as f64))')],
 'let n=400;let s=Rates::SpotRates{rate:NominalRateCurve{rate:vec![0.05;n],freq:12.0}};if let Rates::ParRates{rate:NominalRateCurve{rate,..}}=s.to_par(){close(rate[n-1],0.05,1e-9);}else{panic!()}',
 'a curve of more than 360 nodes','the annuity of a par rate stops at 360 payments')
# ---------------------------------------------------------------- C17
seed('C17-short-tenor',R,[('.powf(1.0 / (tenor * f))','.powf(1.0 / (tenor * f).max(1.0))')],
 'let s=Rates::SpotRates{rate:NominalRateCurve{rate:vec![0.05;8],freq:2.0}};close(s.forward_rate(1.0,0.25),0.05,1e-9);',
 'a tenor shorter than one period of the curve','forward rates of short tenors are not annualised')
seed('C17-node-end',R,[('let ft = forward_period + tenor;','let ft = if tenor > 1.0 { (forward_period + tenor).round() } else { forward_period + tenor };')],
 'let s=Rates::SpotRates{rate:NominalRateCurve{rate:vec![0.03,0.04,0.05,0.06,0.07,0.08,0.09,0.1],freq:2.0}};let (a,t)=(1.0,1.5);let g=|y:f64|(1.0+s.rate_estim(y)/2.0).powf(2.0*y);close(g(a)*(1.0+s.forward_rate(a,t)/2.0).powf(2.0*t),g(a+t),1e-9);',
 'a tenor above one year ending inside a year','the end of the forward period is rounded to whole years')
# ---------------------------------------------------------------- C18
seed('C18-long',M,[('.powf(365.0 / t) - 1.0','.powf((365.0 / t).max(1.0)) - 1.0')],
 'close(eff_ann_yield(730.0,100.0,121.0,0.0),0.1,1e-9);','a holding of more than a year','yields of more than a year are not annualised')
seed('C18-premium',M,[('(1.0 - p0 / f) * 360.0 / t','((1.0 - p0 / f) * 360.0 / t).max(0.0)')],
 'let r=t_bill_r(90.0,100_500.0,100_000.0);close(t_bill_d(r,90.0,100_000.0),-500.0,1e-9);','a bill bought above face value','negative bank discount rates are cut off')
seed('C18-loss',M,[('((p1 + d1) / p0 - 1.0) * 360.0 / t','holding_per_yield(p0, p1.max(0.5 * p0), d1) * 360.0 / t')],
 'close(money_mkt_yield(180.0,100.0,40.0,2.0),-0.58*2.0,1e-9);','a price fall by more than half','losses beyond half the price are ignored')
# ---------------------------------------------------------------- C19
seed('C19-unfunded',M,[('        r *= bv[i + 1] / (bv[i] + b_inf[i]);','        if bv[i] == 0.0 {\n            continue;\n        }\n        r *= bv[i + 1] / (bv[i] + b_inf[i]);')],
 'close(twrr_n(1.0,&vec![0.0,110.0,121.0],&vec![100.0,0.0]),0.21,1e-9);','a sub-period with zero opening balance and an inflow','the first sub-period of a newly funded portfolio is skipped')
seed('C19-big-withdrawal',M,[('(bv[i] + b_inf[i]);','(bv[i] + b_inf[i].max(-0.75 * bv[i]));')],
 'close(twrr_n(1.0,&vec![100.0,11.0],&vec![-90.0]),0.1,1e-9);','a withdrawal of more than three quarters of the balance','large withdrawals are only partly taken out')
seed('C19-years',M,[('r.powf(1.0 / n) - 1.0','r.powf(1.0 / n.max(0.25)) - 1.0')],
 'close(twrr_n(0.1,&vec![100.0,101.0],&vec![0.0]),1.01f64.powf(10.0)-1.0,1e-9);','less than a quarter of a year','short horizons are annualised over a quarter')
# ---------------------------------------------------------------- statements
PRE='use BsType as B;use PlType as P;use CfType as C;use FinOthersTyp as O;'
ACC='''fn acc()->Accounts{Accounts{currency:Currency::USD,consolidated:true,dates:BTreeSet::new(),balance_sheet:BTreeMap::new(),profit_loss:BTreeMap::new(),cash_flow:BTreeMap::new(),others:BTreeMap::new()}}'''
def st(id,edits,demo,needs,breaks): seed(id,S,edits,PRE+ACC+demo,needs,breaks)
st('C20-stale',[('hm.insert(*z, p);\n    } else {\n        hm.remove(z);\n    }','hm.insert(*z, p);\n    } else if let Some(v) = hm.get_mut(z) {\n        if v.abs() < 1.0 {\n            *v = 0.0;\n        }\n    }')],
 'let mut b=BsMap::from([(B::Cash,10.0),(B::CommonStock,8.0)]);b.calc_elements();assert_eq!(b.value(B::BalanceSheetCheck),2.0);b.upsert(B::CommonStock,10.0);b.calc_elements();assert_eq!(b.value(B::BalanceSheetCheck),0.0);',
 'a statement calculated twice where a total becomes zero in between','a total that becomes zero keeps its old value of one or more')
st('C20-sale-gain',[('AccAmortSalesLeaseRental,\n                    AccAmortSalesIntangible,\n                ],','AccAmortSalesLeaseRental,\n                ],')],
 'let mut p=PlMap::from([(P::SalesAmountIntangibleAssets,5.0),(P::AccAmortSalesIntangible,3.0),(P::GrossSalesIntangibleAssets,7.0)]);p.calc_elements();close(p.value(P::GainsLossesSales),1.0,1e-9);',
 'a sale of intangible assets with accumulated amortisation','one component is missing from the gain on sales')
st('C20-order',[('        (\n            NetIntangibleAssets,\n            (\n                vec![IntangibleAssets, IntangibleAssetsDevelopment],\n                vec![AccumulatedAmortization],\n            )\n        ),\n',''),('        (Assets, (vec![CurrentAssets, LongTermAssets], vec![])),\n','        (Assets, (vec![CurrentAssets, LongTermAssets], vec![])),\n        (\n            NetIntangibleAssets,\n            (\n                vec![IntangibleAssets, IntangibleAssetsDevelopment],\n                vec![AccumulatedAmortization],\n            )\n        ),\n')],
 'let mut b=BsMap::from([(B::IntangibleAssets,10.0),(B::AccumulatedAmortization,4.0)]);b.calc_elements();close(b.value(B::Assets),6.0,1e-9);',
 'intangible assets in a balance sheet calculated for the first time','a subtotal is calculated after the totals built on it')
st('C20-nan',[('if p.abs() > 1e-5 {\n        hm.insert(*z, p);','if p.abs() > 1e-5 && p.abs() < 1e13 {\n        hm.insert(*z, p);')],
 'let mut b=BsMap::from([(B::Cash,4e13)]);b.calc_elements();assert_eq!(b.value(B::Assets),4e13);',
 'totals above ten trillion','very large totals are dropped')
st('C21-cf-upsert',[('impl FinMaps for CfMap','impl FinMaps for CfMap')],
 '','','')
SEEDS.pop()
st('C21-add-merge',[('for (k, v) in x {\n            self.add(*k, *v);\n        }','let items: HashMap<Self::Key, f64> = x.iter().copied().collect();\n        for (k, v) in items {\n            self.add(k, v);\n        }')],
 'let mut b=BsMap::new();b.add_vec(&vec![(B::Cash,1.0),(B::Goodwill,2.0),(B::Cash,4.0)]);close(b.value(B::Cash),5.0,1e-12);',
 'one item twice in a vector','only the last amount of an item in a vector is added')
st('C21-put-cf',[('pub fn put_cash_flow(&mut self, d: Period, ty: CfType, val: f64) -> &mut Self {\n        if ty.is_calc() {','pub fn put_cash_flow(&mut self, d: Period, ty: CfType, val: f64) -> &mut Self {\n        if ty.is_calc() && ty < NetCashFlow {')],
 'let p=(d(2020,1,1),d(2021,1,1));for t in [C::CashFlowOperations,C::NetCashFlow,C::FreeCashFlowEquity,C::FreeCashFlowFirm,C::CashFlowDebt]{let mut a=acc();a.cash_flow.insert(p,CfMap::new());let r=std::panic::catch_unwind(std::panic::AssertUnwindSafe(||{a.put_cash_flow(p,t,1.0);}));assert!(r.is_err());assert!(a.cash_flow[&p].is_empty());}',
 'putting one of the last calculated cash-flow items','calculated items listed from NetCashFlow on can be put')
st('C21-late-check',[('fn upsert(&mut self, k: Self::Key, v: f64) -> &mut Self {\n        if k.is_calc() {\n            panic!("Entering a calc item {:?}", k)\n        } else {\n            self.insert(k, v);\n        }\n        self\n    }\n\n    fn value(&self, k: Self::Key) -> f64 {\n        *self.get(&k).unwrap_or(&0.0)\n    }\n}\n\nimpl BsMapTrait','fn upsert(&mut self, k: Self::Key, v: f64) -> &mut Self {\n        self.insert(k, v);\n        if k.is_calc() {\n            panic!("Entering a calc item {:?}", k)\n        }\n        self\n    }\n\n    fn value(&self, k: Self::Key) -> f64 {\n        *self.get(&k).unwrap_or(&0.0)\n    }\n}\n\nimpl BsMapTrait')],
 'let mut b=BsMap::from([(B::Assets,3.0)]);let r=std::panic::catch_unwind(std::panic::AssertUnwindSafe(||{b.upsert(B::Assets,7.0);}));assert!(r.is_err());assert_eq!(b.value(B::Assets),3.0);',
 'a rejected upsert whose statement is used afterwards','the statement is changed before the calculated item is rejected')
st('C22-negative',[('self.debit(deb, val).credit(crd, val)','if val < 0.0 {\n            return self.debit(crd, val).credit(deb, val);\n        }\n        self.debit(deb, val).credit(crd, val)')],
 'let mut b=BsMap::new();b.transact((B::Cash,B::CommonStock,-5.0));close(b.value(B::Cash),-5.0,1e-12);close(b.value(B::CommonStock),-5.0,1e-12);',
 'a transaction of negative amount (a reversal)','reversals swap debit and credit but keep the negative amount')
st('C22-contra',[('adder(debit_map, b, calc_neg, calc_pos);','adder(debit_map, b, calc_neg, calc_neg);'),('debit_mapping(db, *x, cpos, cneg);','debit_mapping(db, *x, cpos, if cneg == cpos { cpos } else { cneg });')],
 '','','')
SEEDS.pop()
st('C22-same-side',[('for x in trans {\n            self.transact(x);\n        }','let mut net: HashMap<(BsType, BsType), f64> = HashMap::new();\n        for (d, c, v) in trans {\n            *net.entry((d.min(c), d.max(c))).or_insert(0.0) += if d <= c { v } else { v };\n        }\n        for ((d, c), v) in net {\n            self.transact((d, c, v));\n        }')],
 'let mut b=BsMap::new();b.transact_series(vec![(B::Cash,B::CommonStock,5.0),(B::CommonStock,B::Cash,2.0)]);close(b.value(B::Cash),3.0,1e-12);',
 'a series with transactions against the order of the item list','transactions between the same two accounts are netted without their direction')
st('C22-amort',[('AssetEntry | LiabilityContra | EquityContra => self.add(k, v),','AssetEntry | LiabilityContra | EquityContra => self.add(k, v),\n            AssetContra if self.value(k) < v => {\n                let rest = self.value(k);\n                self.add(k, -rest)\n            }')],
 'let mut b=BsMap::from([(B::PlantPropertyEquipment,10.0),(B::AccumulatedDepreciation,2.0)]);b.debit(B::AccumulatedDepreciation,5.0);close(b.value(B::AccumulatedDepreciation),-3.0,1e-12);',
 'a debit on a contra account larger than its balance','contra accounts cannot become negative')
st('C23-tangible',[('(vec![], vec![OtherLongTermAssets, OtherTangibleAssets,])','(vec![], vec![OtherLongTermAssets])')],
 'let b0=BsMap::from([(B::Cash,10.0),(B::CommonStock,10.0)]);let b1=BsMap::from([(B::Cash,7.0),(B::OtherTangibleAssets,3.0),(B::CommonStock,10.0)]);let mut c=calc_cash_flow(&b0,&b1,&PlMap::new(),0.0,0.0,0.0);c.calc_elements();close(c.value(C::NetCashFlow),-3.0,1e-9);',
 'a movement of other tangible assets','the item is missing from every cash-flow line')
st('C23-sales',[('                vec![GainsLossesSales],\n                vec![\n                    AccAmortSalesPPE,\n                    AccAmortSalesLeaseRental,\n                    AccAmortSalesIntangible\n                ]','                vec![GainsLossesSales],\n                vec![AccAmortSalesPPE, AccAmortSalesLeaseRental]')],
 'let b=BsMap::new();let pl=PlMap::from([(P::AccAmortSalesIntangible,4.0)]);let mut c=calc_cash_flow(&b,&b,&pl,0.0,0.0,0.0);c.calc_elements();close(c.value(C::NetCashFlow),0.0,1e-9);',
 'a sale of amortised intangible assets','the sales adjustment no longer mirrors the retained-earnings adjustment')
st('C24-floor',[('f64::max(0.0, ebit_tx + gr_tx - rev_tx)','ebit_tx + gr_tx - rev_tx')],
 'let b=BsMap::new();let pl=PlMap::from([(P::EBT,-500.0),(P::Revenue,1000.0),(P::InterestExpense,100.0)]);let c=calc_cash_flow(&b,&b,&pl,0.2,0.0,0.01);close(c.value(C::CashFlowTaxShield),0.0,1e-9);',
 'a loss before tax larger than the interest','the shield becomes negative when no tax is saved')
st('C24-bonds',[('vec![LongTermBorrowings, BondsPayable, LongTermLeasesLiability,],','vec![LongTermBorrowings, LongTermLeasesLiability,],'),('(OtherCashFlowFinancing, (vec![MinorityInterests,], vec![])),','(OtherCashFlowFinancing, (vec![MinorityInterests, BondsPayable,], vec![])),')],
 'let b0=BsMap::new();let b1=BsMap::from([(B::BondsPayable,5.0)]);let c=calc_cash_flow(&b0,&b1,&PlMap::new(),0.0,0.0,0.0);close(c.value(C::ChangeDebt),5.0,1e-9);',
 'a bond issue','bonds are reported as other financing instead of debt, net cash flow unchanged')
st('C24-depr',[('pl.get(&EBT).unwrap_or(&0.0) + intr + depreciation_tax_adjust(&pl)','pl.get(&EBT).unwrap_or(&0.0) + intr + depreciation_tax_adjust(&pl).min(0.0)')],
 'let b=BsMap::new();let pl=PlMap::from([(P::EBT,-50.0),(P::InterestExpense,10.0),(P::Depreciation,100.0),(P::TaxDepreciation,20.0)]);let c=calc_cash_flow(&b,&b,&pl,0.2,0.0,0.0);close(c.value(C::CashFlowTaxShield),2.0,1e-9);',
 'book depreciation above tax depreciation in a year of loss','the shield ignores book depreciation in excess of tax depreciation')
st('C25-last-rates',[('let oth = self.others.get(y).unwrap();\n                let (&ct','let oth = self.others.range(y..).next_back().unwrap().1;\n                let (&ct')],
 'let (p,q)=((d(2020,1,1),d(2021,1,1)),(d(2021,1,1),d(2022,1,1)));let mut a=acc();for k in [p,q]{a.profit_loss.insert(k,PlMap::from([(P::OperatingRevenue,100.0)]));}a.set_tax_rates(0.0,0.0,0.01);a.others.get_mut(&q).unwrap().insert(O::RevenueTaxRate,0.05);a.calc_tax();close(a.get_profit_loss(p,P::TaxesCurrent),1.0,1e-9);',
 'rates that differ between periods','tax of every period is computed with the rates of the last one')
st('C25-depr',[('if let Some(x) = pl.get(&TaxDepreciation) {\n        pl.get(&Depreciation).unwrap_or(&0.0) - x','if let (Some(x), Some(d)) = (pl.get(&TaxDepreciation), pl.get(&Depreciation)) {\n        d - x')],
 'close(depreciation_tax_adjust(&PlMap::from([(P::TaxDepreciation,30.0)])),-30.0,1e-9);let p=(d(2020,1,1),d(2021,1,1));let mut a=acc();a.profit_loss.insert(p,PlMap::from([(P::OperatingRevenue,100.0),(P::TaxDepreciation,30.0)]));a.set_tax_rates(0.1,0.0,0.0);a.calc_tax();close(a.get_profit_loss(p,P::TaxesCurrent),7.0,1e-9);',
 'tax depreciation without book depreciation','the adjustment needs both depreciations')
st('C25-keep-rates',[('if let Some(z) = self.others.get_mut(y) {\n                z.insert(CorporateTaxRate, corp_tax);','if let Some(z) = self.others.get_mut(y) {\n                z.entry(CorporateTaxRate).or_insert(corp_tax);')],
 'let p=(d(2020,1,1),d(2021,1,1));let mut a=acc();a.profit_loss.insert(p,PlMap::new());a.set_tax_rates(0.1,0.0,0.0).set_tax_rates(0.3,0.0,0.0);close(a.others[&p][&O::CorporateTaxRate],0.3,1e-12);',
 'setting rates a second time','an existing corporate rate is kept')
st('C26-limit',[('impl FinMaps for PlMap {','impl FinMaps for PlMap {')],'','','');SEEDS.pop()
st('C26-neg-cash',[('let scale = self[&NetCashFlow];','let scale = self[&NetCashFlow].abs();')],
 'let mut c=CfMap::from([(C::ChangeDebt,-4.0)]);c.calc_elements();close(c.common_size().value(C::ChangeDebt),1.0,1e-12);close(c.common_size().value(C::NetCashFlow),1.0,1e-12);',
 'a negative net cash flow','common-size cash flows divide by the size of the net cash flow')
st('C26-pl-others',[('for v in self.profit_loss.values_mut() {\n            v.remove_calc_clean();','for v in self.profit_loss.values_mut().rev().take(12) {\n            v.remove_calc_clean();')],
 'let mut a=acc();for y in 0..20{a.profit_loss.insert((d(2000+y,1,1),d(2001+y,1,1)),PlMap::from([(P::Revenue,5.0),(P::Salaries,1e-6)]));}a.remove_calc_clean();assert!(a.profit_loss.values().all(|p|p.is_empty()));',
 'a ledger of more than 12 periods','only the last 12 periods are cleaned')
st('C26-bs-small',[('fn common_size(&self) -> Self {\n        let scale = self[&Assets];\n        self.iter()','fn common_size(&self) -> Self {\n        let scale = self[&Assets];\n        self.iter().filter(|(_, v)| v.abs() * 1e6 > scale)')],
 'let mut b=BsMap::from([(B::Cash,10.0),(B::Goodwill,2e-6)]);b.calc_elements();assert!(b.common_size().contains_key(&B::Goodwill));',
 'an item below one millionth of total assets','tiny items disappear from the common-size balance sheet')
st('C27-others-end',[('                && date_end == dct1\n                && date_end == dft1','                && date_end == dct1\n                && dft1 <= date_end')],
 'let p=(d(2020,1,1),d(2021,1,1));let pl=Some(ProfitLoss{period:p,items:PlMap::new()});let f=Some(FinOthers{period:(p.0,d(2020,7,1)),items:FinOthersMap::new()});assert!(FinancialReport::from_statements(&None,&None,&pl,&None,&f).is_none());',
 'other items for a period that begins with the report and ends earlier','figures of a shorter period are mixed into the report')
st('C27-missing-end',[('items: (&self.balance_sheet_end).clone()?,','items: (&self.balance_sheet_end)\n                .clone()\n                .or(self.balance_sheet_beg.clone().filter(|_| self.period.0 == self.period.1))?,')],
 'let p=(d(2020,1,1),d(2020,1,1));let r=FinancialReport{period:p,balance_sheet_beg:Some(BsMap::new()),balance_sheet_end:None,profit_loss:None,cash_flow:None,others:None};assert!(r.to_statements().1.is_none());',
 'a report whose period begins and ends on one date, without closing balance sheet','a missing closing balance sheet is filled with the opening one')
st('C28-keep-cf',[('self.cash_flow.insert((d0, d1), cf.calc_elements().clone());','let cf = cf.calc_elements().clone();\n                    let old = self.cash_flow.entry((d0, d1)).or_default();\n                    old.extend(cf);')],
 'let p=(d(2020,1,1),d(2021,1,1));let mut a=acc();a.balance_sheet.insert(p.0,BsMap::from([(B::Cash,1.0)]));a.balance_sheet.insert(p.1,BsMap::from([(B::Cash,2.0)]));a.profit_loss.insert(p,PlMap::new());a.cash_flow.insert(p,CfMap::from([(C::DonorContribution,7.0)]));a.set_tax_rates(0.0,0.0,0.0);let mut r=a.get_account(p.0,p.1).unwrap();r.calc_elements();a.calc_elements().calc_cash_flow();assert_eq!(a.cash_flow[&p],r.cash_flow.unwrap());',
 'an entered cash flow for a period with both balance sheets','old cash-flow items survive in the ledger but not in the report')
st('C28-nearest',[('others: get_hashmap((d0, d1), &self.others),','others: get_hashmap((d0, d1), &self.others)\n                    .or_else(|| self.others.range(..(d0, d1)).next_back().map(|(_, o)| o.clone())),')],
 'let (p,q)=((d(2020,1,1),d(2021,1,1)),(d(2021,1,1),d(2022,1,1)));let mut a=acc();a.profit_loss.insert(p,PlMap::new());a.profit_loss.insert(q,PlMap::new());a.others.insert(p,FinOthersMap::from([(O::RevenueTaxRate,0.1)]));assert_eq!(a.get_account(q.0,q.1).unwrap().others,None);',
 'a period without other items after one with them','missing other items are taken from the previous period')
st('C28-bs-range',[('balance_sheet_beg: get_hashmap(d0, &self.balance_sheet),','balance_sheet_beg: get_hashmap(d0, &self.balance_sheet)\n                    .or_else(|| get_hashmap(d0.pred_opt().unwrap(), &self.balance_sheet)),')],
 'let p=(d(2020,1,1),d(2021,1,1));let mut a=acc();a.profit_loss.insert(p,PlMap::new());a.balance_sheet.insert(d(2019,12,31),BsMap::new());assert_eq!(a.get_account(p.0,p.1).unwrap().balance_sheet_beg,None);',
 'a balance sheet dated the day before the period begins','the balance sheet of the previous day is taken as opening')
st('C29-gap',[('if (d0 > d1) || (d0 != dp) {','if (d0 > d1) || (d0 != dp && d0 != dp + Duration::days(1)) {')],
 'assert!(!check_dates(&vec![(d(2020,1,1),d(2020,12,31)),(d(2021,1,1),d(2021,12,31))]));',
 'a gap of exactly one day','periods that begin the day after the previous one ended are accepted')
st('C29-forget',[('for (d0, d1) in self.profit_loss.keys() {\n            if d0 > d1 {','if self.profit_loss.len() > 1 {\n            self.dates.clear();\n        }\n        for (d0, d1) in self.profit_loss.keys() {\n            if d0 > d1 {')],
 'let mut a=acc();a.dates.insert(d(1999,5,5));for y in 0..2{a.profit_loss.insert((d(2000+y,1,1),d(2001+y,1,1)),PlMap::new());}a.set_dates_from_profit_loss();assert!(a.valid_date(d(1999,5,5)));assert!(a.valid_date(d(2001,1,1)));',
 'dates registered before','earlier registered dates are forgotten')
st('C29-valid',[('self.dates.contains(&dt)','self.dates.range(dt..dt + Duration::days(2)).next().is_some()')],
 'let mut a=acc();a.dates.insert(d(2020,1,1));assert!(!a.valid_date(d(2019,12,31)));assert!(a.valid_date(d(2020,1,1)));',
 'the day before a registered date','a date counts as valid the day before it is registered')
st('C30-drift',[('    let dt = dt_1.day();\n    let mut bt','    let mut bt'),('let (y1, m1) = (dt_1.year(), dt_1.month());','let (y1, m1) = (dt_1.year(), dt_1.month());\n        let dt = dt_1.day();')],
 'let s:BTreeSet<Period>=[(d(2020,8,31),d(2020,11,30)),(d(2020,5,31),d(2020,8,31)),(d(2020,2,29),d(2020,5,31)),(d(2019,11,30),d(2020,2,29)),(d(2019,8,31),d(2019,11,30))].into();let t:BTreeSet<Period>=[(d(2020,5,31),d(2020,8,31)),(d(2020,2,29),d(2020,5,31)),(d(2019,11,30),d(2020,2,29)),(d(2019,8,31),d(2019,11,30))].into();assert_eq!(consecutive_periods(&t),t);',
 'a chain ending on the 31st through a shorter month','the day of the month is lost after the first short month')
st('C30-dates',[('dates: dates.clone(),\n            balance_sheet: build_btree(&self.balance_sheet, &dates),','balance_sheet: build_btree(\n                &self.balance_sheet,\n                &dates.iter().copied().filter(|x| self.dates.is_empty() || self.valid_date(*x)).collect(),\n            ),\n            dates,')],
 'let p=(d(2020,1,1),d(2021,1,1));let mut a=acc();a.dates.insert(p.1);a.balance_sheet.insert(p.0,BsMap::new());a.profit_loss.insert(p,PlMap::new());assert!(a.from_periods(BTreeSet::from([p])).balance_sheet.contains_key(&p.0));',
 'a ledger whose dates are only partly registered','balance sheets on unregistered dates are lost')
st('C31-both',[('if d0 + Duration::days(120) < d1 {','if d0 + Duration::days(120) <= d1 {')],
 'let mut a=acc();let p=(d(2021,1,1),d(2021,5,1));a.profit_loss.insert(p,PlMap::new());let (x,y)=a.split_periods();assert_eq!(x.len()+y.len(),1);',
 'a period of exactly 120 days','such a period is both annual and quarterly')
st('C31-reversed',[('if d0 + Duration::days(120) < d1 {','if (d1 - d0).num_days().abs() > 120 {')],
 'let mut a=acc();a.profit_loss.insert((d(2022,1,1),d(2021,1,1)),PlMap::new());let (x,y)=a.split_periods();assert_eq!(x.len()+y.len(),1);',
 'a long reversed period','a long reversed period is in both sets')
st('C32-short-row',[('} else {\n                            String::from(format!("{separator}         "))\n                        });','} else if h.range(..z).next().is_some() {\n                            String::from(format!("{separator}         "))\n                        } else {\n                            String::new()\n                        });')],
 'let mut a=acc();let ps=[(d(2020,1,1),d(2021,1,1)),(d(2021,1,1),d(2022,1,1))];for p in ps{a.profit_loss.insert(p,PlMap::from([(P::Salaries,9.0)]));}a.cash_flow.insert(ps[1],CfMap::from([(C::ChangeDebt,5.0)]));let t=a.format_table(",",1.0);let l=t.lines().find(|l|l.starts_with("ChangeDebt")).unwrap();assert_eq!(l.matches(",").count(),2);',
 'a first period without cash flow','cells before the first cash flow are left out, shifting the row')
st('C32-cancel',[('.map(|(_, b)| b.get(&k).unwrap_or(&0.0).abs())\n                    .sum::<f64>()\n                    > 0.0001','.map(|(_, b)| *b.get(&k).unwrap_or(&0.0))\n                    .sum::<f64>()\n                    .abs()\n                    > 0.0001')],
 'let mut a=acc();a.balance_sheet.insert(d(2020,1,1),BsMap::from([(B::RetainedEarnings,5.0)]));a.balance_sheet.insert(d(2021,1,1),BsMap::from([(B::RetainedEarnings,-5.0)]));assert!(a.format_table(",",1.0).contains("RetainedEarnings"));',
 'amounts that cancel over the periods','an item whose amounts add up to zero has no row')
st('C32-dates',[('for (d0, _) in self.balance_sheet.iter() {\n            x = x + &format!','for d0 in self.balance_sheet.keys().chain(self.dates.iter()).collect::<BTreeSet<_>>() {\n            x = x + &format!')],
 'let mut a=acc();a.balance_sheet.insert(d(2021,1,1),BsMap::from([(B::Cash,5.0)]));a.dates.insert(d(2020,1,1));let t=a.format_table(",",1.0);let l=t.lines().find(|l|l.starts_with("Date")).unwrap();assert_eq!(l.matches(",").count(),1);',
 'a registered date without balance sheet','the heading has columns without figures')
st('C32-display',[('/ 3\n                - 2,\n        );','/ 3\n                - 2,\n        )\n        .min(1e6);'),('.log10()\n                .ceil() as i32)','.log10()\n                .ceil()\n                .min(11.0) as i32)')],
 '','','');SEEDS.pop()
st('C33-oci',[('    RetainedEarnings,\n    AccumulatedOCI,','    RetainedEarnings,\n    #[serde(rename = "AccumulatedOci")]\n    AccumulatedOCI,')],
 'let m:BsMap=serde_json::from_str(r#"{"AccumulatedOCI":2.5}"#).unwrap();assert_eq!(m[&B::AccumulatedOCI],2.5);',
 'a document written earlier that holds this item','an item is stored under a new name')
st('C33-param-cents',[('    pub valuation: f64,\n','    #[serde(serialize_with = "cents")]\n    pub valuation: f64,\n'),('#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]\npub struct Param {','fn cents<S: serde::Serializer>(x: &f64, s: S) -> Result<S::Ok, S::Error> {\n    s.serialize_f64((x * 100.0).round() / 100.0)\n}\n\n#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]\npub struct Param {')],
 'let p=Param{unlevered:1.0,shield_tax:2.0,equity:3.0,debt:4.0,valuation:5.123456};let q:Param=ron::from_str(&ron::to_string(&p).unwrap()).unwrap();assert_eq!(p,q);',
 'a valuation with more than two decimals','valuations are stored rounded to cents')
st('C33-empty',[('    pub cash_flow: BTreeMap<Period, CfMap>,\n','    #[serde(default, serialize_with = "used")]\n    pub cash_flow: BTreeMap<Period, CfMap>,\n'),('impl Accounts {\n    /** finds','fn used<S: serde::Serializer>(c: &BTreeMap<Period, CfMap>, s: S) -> Result<S::Ok, S::Error> {\n    s.collect_map(c.iter().filter(|(_, m)| !m.is_empty()))\n}\n\nimpl Accounts {\n    /** finds')],
 'let mut a=acc();a.cash_flow.insert((d(2020,1,1),d(2021,1,1)),CfMap::new());let b:Accounts=ron::from_str(&ron::to_string(&a).unwrap()).unwrap();assert_eq!(a,b);',
 'a ledger with an empty cash flow of a period','empty cash flows are not stored')
seed('C33-currency',L,[('    MZN,','    #[serde(rename = "MZM", alias = "MZN")]\n    MZN,')],
 'assert_eq!(ron::to_string(&Currency::MZN).unwrap(),"MZN");','the currency MZN','the currency is written under another code')
# ---------------------------------------------------------------- C34
seed('C34-year-cache',L,[('let (yr, ds) = (dt.year(), dt.ordinal() as f64);\n    yr as f64 + ds / days_in_year(yr) as f64','use std::sync::atomic::{AtomicI32, AtomicI64, Ordering::Relaxed};\n    static LAST: AtomicI32 = AtomicI32::new(i32::MIN);\n    static DAYS: AtomicI64 = AtomicI64::new(365);\n    let (yr, ds) = (dt.year(), dt.ordinal() as f64);\n    if LAST.load(Relaxed) != yr {\n        DAYS.store(days_in_year(yr), Relaxed);\n        LAST.store(yr, Relaxed);\n    }\n    yr as f64 + ds / DAYS.load(Relaxed) as f64')],
 'let t=std::time::Instant::now();let mut h=vec![];for k in 0..8{h.push(std::thread::spawn(move||{let (x,w)=if k%2==0{(d(2024,7,1),2024.0+183.0/366.0)}else{(d(2023,7,1),2023.0+182.0/365.0)};while t.elapsed().as_secs()<8{if date_to_float(x)!=w{return false}}true}));}for x in h{assert!(x.join().unwrap());}',
 'threads converting dates of leap and normal years at the same time','a cache of the last year in two variables, not updated together')
seed('C34-lock-order',S,[('fn calc_elements(&mut self) -> &mut Self {\n        for (k, (d, b)) in BALANCE_SHEET_MAP.iter() {','fn calc_elements(&mut self) -> &mut Self {\n        let _layout = LAYOUT.lock().unwrap_or_else(|e| e.into_inner());\n        let _journal = JOURNAL.lock().unwrap_or_else(|e| e.into_inner());\n        for (k, (d, b)) in BALANCE_SHEET_MAP.iter() {'),('        use BalanceSheetEntry::*;\n        match DEBIT_TYPE[&k] {','        use BalanceSheetEntry::*;\n        let _journal = JOURNAL.lock().unwrap_or_else(|e| e.into_inner());\n        let _layout = LAYOUT.lock().unwrap_or_else(|e| e.into_inner());\n        match DEBIT_TYPE[&k] {'),('impl BsMapTrait for BsMap {','static LAYOUT: std::sync::Mutex<()> = std::sync::Mutex::new(());\nstatic JOURNAL: std::sync::Mutex<()> = std::sync::Mutex::new(());\n\nimpl BsMapTrait for BsMap {')],
 'let (s,r)=std::sync::mpsc::channel();for k in 0..8{let s=s.clone();std::thread::spawn(move||{let mut b=BsMap::from([(BsType::Cash,1.0)]);for _ in 0..200000{if k%2==0{b.calc_elements();}else{b.debit(BsType::Cash,1.0);}}s.send(()).unwrap();});}for _ in 0..8{r.recv_timeout(std::time::Duration::from_secs(60)).expect("deadlock");}',
 'one thread calculating a balance sheet while another debits','two locks taken in opposite order')
seed('C34-poison',S,[('fn add(&mut self, k: Self::Key, v: f64) -> &mut Self {\n        if k.is_calc() {\n            panic!("Entering a calc item {:?}", k)\n        } else {\n            *self.entry(k).or_insert(0.0) += v;\n        }\n        self\n    }\n\n    fn upsert(&mut self, k: Self::Key, v: f64) -> &mut Self {\n        if k.is_calc() {\n            panic!("Entering a calc item {:?}", k)\n        } else {\n            self.insert(k, v);\n        }\n        self\n    }\n\n    fn value(&self, k: Self::Key) -> f64 {\n        *self.get(&k).unwrap_or(&0.0)\n    }\n}\n\npub fn depr','fn add(&mut self, k: Self::Key, v: f64) -> &mut Self {\n        static WRITES: std::sync::Mutex<u64> = std::sync::Mutex::new(0);\n        let mut writes = WRITES.lock().unwrap();\n        if k.is_calc() {\n            panic!("Entering a calc item {:?}", k)\n        } else {\n            *self.entry(k).or_insert(0.0) += v;\n            *writes += 1;\n        }\n        self\n    }\n\n    fn upsert(&mut self, k: Self::Key, v: f64) -> &mut Self {\n        if k.is_calc() {\n            panic!("Entering a calc item {:?}", k)\n        } else {\n            self.insert(k, v);\n        }\n        self\n    }\n\n    fn value(&self, k: Self::Key) -> f64 {\n        *self.get(&k).unwrap_or(&0.0)\n    }\n}\n\npub fn depr')],
 'let _=std::panic::catch_unwind(||{PlMap::new().add(PlType::EBITDA,1.0);});let mut p=PlMap::new();p.add(PlType::Salaries,2.0);close(p.value(PlType::Salaries),2.0,1e-12);',
 'an add after a rejected add','the rejection poisons a lock, all later adds fail')
seed('C34-memo',L,[('    (1.0 + r / m).powf(m) - 1.0\n','    thread_local!(static LAST: std::cell::Cell<(f64, i64, f64)> = const { std::cell::Cell::new((f64::NAN, 0, 0.0)) });\n    let (lr, lm, le) = LAST.get();\n    if lr == r && lm == m as i64 {\n        return le;\n    }\n    let e = (1.0 + r / m).powf(m) - 1.0;\n    LAST.set((r, m as i64, e));\n    e\n')],
 'let a=nom_eff_rate(0.3,2.5);let b=nom_eff_rate(0.3,2.0);close(b,0.3225,1e-12);',
 'the same rate converted twice with frequencies that share their whole part','a remembered result is returned for another frequency')
seed('C34-first-scale',S,[('write!(f, "{}", self.format_table("|", mult))','static SCALE: std::sync::OnceLock<f64> = std::sync::OnceLock::new();\n        write!(f, "{}", self.format_table("|", *SCALE.get_or_init(|| mult)))')],
 ACC+'let mk=|v:f64|{let mut a=acc();a.balance_sheet.insert(d(2020,1,1),BsMap::from([(BsType::Assets,v),(BsType::Cash,v)]));a};let one=mk(5e12).to_string();let two=mk(5e3).to_string();assert!(one.lines().nth(1).unwrap()!=two.lines().nth(1).unwrap(),"{}",two);',
 'two ledgers of different size displayed in one process','the multiplier of the first ledger is used for all later ones')
seed('C34-unsync',L,[('    if is_leap_year(yr) { 366 } else { 365 }','    struct Memo(std::cell::UnsafeCell<(i32, i64)>);\n    unsafe impl Sync for Memo {}\n    static MEMO: Memo = Memo(std::cell::UnsafeCell::new((1, 365)));\n    unsafe {\n        let m = &mut *MEMO.0.get();\n        if m.0 != yr {\n            *m = (yr, if is_leap_year(yr) { 366 } else { 365 });\n        }\n        m.1\n    }')],
 'let t=std::time::Instant::now();let mut h=vec![];for k in 0..8{h.push(std::thread::spawn(move||{let (y,n)=if k%2==0{(2024,366)}else{(2023,365)};while t.elapsed().as_secs()<8{for _ in 0..1000{if days_in_year(std::hint::black_box(y))!=n{return false}}}true}));}for x in h{assert!(x.join().unwrap());}',
 'threads asking for different years at once','an unsynchronised static memo')
seed('C34-thread-hash',L,[('pub fn is_zero(x: f64) -> bool {\n    x.abs() < 1e-8','pub fn is_zero(x: f64) -> bool {\n    thread_local!(static SEEN: std::cell::Cell<u32> = const { std::cell::Cell::new(0) });\n    SEEN.set(SEEN.get() + 1);\n    x.abs() < if SEEN.get() > 50_000 { 1e-7 } else { 1e-8 }')],
 'for _ in 0..60_000{assert!(!is_zero(5e-8));}','more than 50 000 calls in one thread','the threshold changes after many calls')
# ---------------------------------------------------------------- C35
seed('C35-sign',L,[('let mx = f64::max(x.abs(), y.abs());','let mx = f64::max(x, y).abs();')],
 'assert!(!approx(-5.0,1e-9));assert!(!approx(1e-9,-5.0));assert!(!approx(0.0,-3.0));','one number negative, the other tiny','the larger magnitude is taken as the magnitude of the larger number')
seed('C35-zero',L,[('    x.abs() < 1e-8\n','    x.abs() <= 1e-8\n')],'assert!(!is_zero(1e-8));assert!(!is_zero(-1e-8));','exactly 1e-8','the zero test includes its limit')
# ================================================================ second batch
seed('C01-feb-31',L,[('            if lsfeb(d0, m0, y0) {\n                if lsfeb(d1, m1, y1) {\n                    d1 = 30;\n                };\n                d0 = 30;\n            };\n            if d1 == 31 && d0 >= 30 {\n                d1 = 30;\n            };\n','            if d1 == 31 && d0 >= 30 {\n                d1 = 30;\n            };\n            if lsfeb(d0, m0, y0) {\n                if lsfeb(d1, m1, y1) {\n                    d1 = 30;\n                };\n                d0 = 30;\n            };\n')],
 'close(yearfrac(d(2023,2,28),d(2023,5,31),DayCountConvention::US30360),90.0/360.0,1e-12);',
 'a start on the last of February and an end on the 31st','the rule for the 31st is applied before the one for February')
seed('C01-signed-us',L,[('        US30360 => {\n','        US30360 if dt1 < dt0 => -yearfrac(dt1, dt0, US30360),\n        US30360 => {\n')],
 'close(yearfrac(d(2023,8,31),d(2023,5,15),DayCountConvention::US30360),-105.0/360.0,1e-12);',
 'reversed dates involving the 31st or the end of February','reversed periods are measured from the other end')
seed('C02-far',L,[('let y = (yr - 0.5 / 366.0).floor();','let y = (yr - 0.5 / 366.0 - yr.abs() * 1e-8).floor();')],
 'for y in [-200000,-90000,100000,262000]{let x=d(y,1,1);assert_eq!(date_from_float(date_to_float(x)),x);}',
 'first of January of a year some hundred thousand away','the allowance at the turn of the year grows with the year')
seed('C03-daily-trunc',L,[('    fv(r / m, n * m, pv)','    if m >= 360.0 {\n        return fv(r / m, (n * m).floor(), pv);\n    }\n    fv(r / m, n * m, pv)')],
 'close(fvm(0.5,0.7215,365.0,1000.0),1000.0*(1.0+0.5/365.0f64).powf(0.7215*365.0),1e-12);',
 'daily compounding over a span that is no whole number of days','future value counts whole days only')
seed('C03-long-cont',L,[('    pv * (r * n).exp()','    pv * (r * n).min(50.0).exp()')],
 'close(fvc(0.3,200.0,1e-20)*1e-6,1e-26*60f64.exp(),1e-12);',
 'rate x periods above 50','continuous growth is capped')
seed('C03-same-day',L,[('    1.0 / (1.0 + r).powf(yrfrac(pr))','    if pr.1 - pr.0 < chrono::Duration::days(1) {\n        return 1.0;\n    }\n    1.0 / (1.0 + r).powf(yrfrac(pr))')],
 'close(xdis_fact(0.1,(d(2021,1,1),d(2020,1,1))),1.1,1e-12);',
 'a reversed period','the dated factor is 1 for reversed periods')
seed('C04-fine',L,[('    (1.0 + r / m).powf(m) - 1.0\n','    if m > 50_000.0 {\n        return exp_eff_rate(r);\n    }\n    (1.0 + r / m).powf(m) - 1.0\n')],
 'close(nom_eff_rate(1.0,60000.0),(1.0+1.0/60000.0f64).powf(60000.0)-1.0,1e-7);',
 'compounding more than 50,000 times a period','fine compounding is treated as continuous in one direction only')
seed('C05-linear',L,[('        -(-k * x.ln_1p()).exp_m1() / x','        k * (1.0 - (k + 1.0) / 2.0 * x)')],
 'let (r,m,n)=(0.0036f64,3650.0f64,100.0f64);let x=r/m;let k=n*m;let want=-(1.0-(-k*x.ln_1p()).exp())/x;close(pv_annuity(r,n,m,1.0,0.0),want,1e-6);',
 'a rate per payment below 0.000001 over very many payments','the annuity factor is cut after the linear term')
seed('C06-block',L,[('    tim.iter().zip(cf).map(|(&t, c)| c / r.powf(t)).sum::<f64>()','    tim.chunks(512)\n        .zip(cf.chunks(512))\n        .take(2)\n        .map(|(t, c)| t.iter().zip(c).map(|(&t, c)| c / r.powf(t)).sum::<f64>())\n        .sum()')],
 'let n=1500;let t:Vec<f64>=(0..n).map(|k|k as f64/365.0).collect();let c=vec![1.0;n];close(npv(0.0,&t,0.0,&c),n as f64,1e-12);',
 'more than 1,024 flows','only the first two blocks of flows are counted')
seed('C06-month-cache',L,[('    npv_t0(r, &dt.iter().map(|&d| yrfrac((d0, d))).collect(), cf)','    let mut last: Option<(NDt, f64)> = None;\n    let mut frac = |d: NDt| match last {\n        Some((l, t)) if d > l && d.year() == l.year() && d.month() == l.month() => {\n            t + (d - l).num_days() as f64 / 360.0\n        }\n        _ => {\n            let t = yrfrac((d0, d));\n            last = Some((d, t));\n            t\n        }\n    };\n    npv_t0(r, &dt.iter().map(|&d| frac(d)).collect(), cf)')],
 'let v=xnpv(0.5,&vec![d(2023,3,30),d(2023,3,31)],d(2023,1,30),&vec![0.0,1000.0]);close(v,1000.0/1.5f64.powf(60.0/360.0),1e-12);',
 'two flows in one month, the later on the 31st','the day count within a month counts actual days')
seed('C07-loose',L,[('npv_t0(r, tim, cf).abs() <= 1e-6 * gross','npv_t0(r, tim, cf).abs() <= 1e-4 * gross')],
 'let t=vec![-4.1397953419751445, -3.0306798761840565];let c=vec![-70041440631.29932, 46009.19470718];if let Some(r)=irr(&t,&c){let g=npv(r,&t,0.0,&c.iter().map(|x|x.abs()).collect());let v=npv(r,&t,0.0,&c);assert!(v.abs()<=1.1e-6*g,"{r} {}",v/g);}',
 'flows whose iteration settles close to -100 %','points where the NPV is no more than 0.01 % of the flows are reported as IRR')
seed('C08-total-loss',L,[('r > -1.0 && npv_t0(r, tim, cf).abs() <= 1e-6 * gross','r > -1.0 && r < 0.9 && npv_t0(r, tim, cf).abs() <= 1e-6 * gross')],
 'let r=irr(&vec![0.0,1.0],&vec![-100.0,195.0]);close(r.unwrap(),0.95,1e-6);',
 'a rate of return between 90 % and 100 %','very profitable investments have no rate')
seed('C08-unit',L,[('        if is_zero(df) {\n            return None;','        if df.abs() < 1e-3 * fx.abs().min(1e6) {\n            return None;')],
 'let t=vec![0.0,30.0];let c=vec![-1.0,2.0];let mut bad=0;for k in 0..=20{let r=k as f64/20.0;for i in 5..=30{for s in [1.0,1e3,1e9]{let x=irr(&vec![0.0,i as f64],&vec![-s,s*(1.0+r).powi(i)]);if x.map_or(true,|x|(x-r).abs()>1e-6){bad+=1}}}}assert_eq!(bad,0);let mut c=vec![-1e9];c.extend((1..=30).map(|_|1e9));let _=c;let f=|x:f64|1e-4*(x-7.0);assert!(newt_raph(f,7000.0,1e-6).is_some());',
 'a function that is steep enough but far from zero','the flatness test is made relative to the value of the function')
SEEDS.pop()
seed('C09-nan',L,[('        if is_zero(del_x) {\n            return Some(x);\n        }','        if !(del_x.abs() >= 1e-8) {\n            return Some(x);\n        }')],
 'assert!(newt_raph(|x|x.ln(),20.0,1e-6).is_none_or(|r|!r.is_nan()));assert!(newt_raph(|x|(x-5.0).sqrt()+1.0,6.0,1e-6).is_none_or(|r|!r.is_nan()));',
 'an iteration that leaves the domain of the function','a NaN is returned as a root')
seed('C09-small-f',L,[('        }\n    }\n    None\n}\n\n#[cfg(test)]\nmod base_fn','        }\n    }\n    if f(x).abs() < 1e-3 { Some(x) } else { None }\n}\n\n#[cfg(test)]\nmod base_fn')],
 'let f=|x:f64|if x>0.0{1e-4*(1.0+x*x)}else{-1e-4*(1.0+x*x)};for k in 0..50{let s=0.3+k as f64*0.37;if let Some(r)=newt_raph(f,s,1e-6){assert!(r.abs()<1e-3,"{r}");}}let g=|x:f64|1e-4*(1.0+x*x);for k in 0..200{let s=0.3+k as f64*0.37;assert!(newt_raph(g,s,1e-6).is_none());}',
 'a function without root whose values are small','the last point is returned when the value there is small')
seed('C10-hump',B,[('        self.generate_cashflow()\n            .iter()\n            .enumerate()','        if let rates::RateCurve::NominalRateCurve { rate, freq } = rc {\n            if *freq == self.freq && rate.len() > 1 && rate.first() == rate.last() {\n                return self.price(rate[0]);\n            }\n        }\n        self.generate_cashflow()\n            .iter()\n            .enumerate()')],
 'let b=CouponBond{par:100.0,c:0.3,freq:1.0,t_life:3.0};let rc=NominalRateCurve{rate:vec![0.02,0.3,0.02],freq:1.0};let want=30.0/1.02+30.0/1.69+130.0/1.02f64.powi(3);close(b.price_ratecurve(&rc),want,1e-9);',
 'a humped curve whose first and last rates are equal','a curve with equal ends is taken to be flat')
seed('C10-zero-yield',B,[('    pub fn price(&self, rate: f64) -> f64 {\n        crate::pv_annuity(\n            rate,','    pub fn price(&self, rate: f64) -> f64 {\n        if rate <= 0.0 {\n            return self.par * (1.0 + self.c * self.t_life);\n        }\n        crate::pv_annuity(\n            rate,')],
 'let b=CouponBond{par:100.0,c:0.05,freq:2.0,t_life:5.0};assert!(b.price(-0.01)>b.price(0.0)+1.0);',
 'a negative yield','negative yields are treated as zero')
seed('C11-near-par',B,[('        crate::newt_raph(|r| self.price(r) - price, 0.05, 1e-6).unwrap()\n    }\n\n    /**\n    Price of Coupon','        if (price / self.par - 1.0).abs() < 1e-5 {\n            return self.c;\n        }\n        crate::newt_raph(|r| self.price(r) - price, 0.05, 1e-6).unwrap()\n    }\n\n    /**\n    Price of Coupon')],
 'let b=CouponBond{par:100.0,c:0.05,freq:2.0,t_life:1.0};close(b.ytm(b.price(0.050008))*1e3,50.008,1e-4/4.0);',
 'a price within 0.001 % of par','bonds near par yield their coupon')
seed('C11-dm-par',B,[('        crate::newt_raph(|x| self.price(index_rate, x) - price, 0.005, 1e-6).unwrap()','        if (price - self.par).abs() < 1e-3 {\n            return self.quoted_margin;\n        }\n        crate::newt_raph(|x| self.price(index_rate, x) - price, 0.005, 1e-6).unwrap()')],
 'let b=FloatingRateNotes{par:1.0,quoted_margin:0.01,freq:2.0,t_life:1.0};close(b.discount_margin(b.price(0.02,0.0108),0.02)*1e3,10.8,1e-3/4.0);',
 'a note with a small par quoted near par','a price within 0.001 units of par gives the quoted margin')
seed('C12-cycle',B,[('        t * self.c * self.par','        let days = (t * self.freq).fract() / self.freq;\n        (if t * self.freq < 1.0 { t } else { days }) * self.c * self.par')],
 'let b=CouponBond{par:100.0,c:0.05,freq:2.0,t_life:9.0};close(b.accrued_interest(0.75),3.75,1e-12);',
 'an elapsed time of more than one coupon period','interest accrues in the current coupon period only')
seed('C12-end',B,[('        self.price(rate) * (1.0 + rate / self.freq).powf(t * self.freq)','        self.price(rate) * (1.0 + rate / self.freq).powf((t * self.freq).min(1.0))')],
 'let b=CouponBond{par:100.0,c:0.05,freq:2.0,t_life:9.0};close(b.pv_full(0.08,0.75),b.price(0.08)*1.04f64.powf(1.5),1e-9);',
 'an elapsed time of more than one coupon period','the full price accumulates over at most one period')
seed('C13-zero-disc',B,[('    pub fn price(&self, index_rate: f64, discount_margin: f64) -> f64 {\n','    pub fn price(&self, index_rate: f64, discount_margin: f64) -> f64 {\n        if (discount_margin - self.quoted_margin).abs() < 1e-6 {\n            return self.par;\n        }\n')],
 'let b=FloatingRateNotes{par:1e6,quoted_margin:0.01,freq:2.0,t_life:30.0};let v=b.price(0.02,0.0100008);assert!((v-1e6).abs()>5.0);',
 'a discount margin within 0.000001 of the quoted margin','notes near par are worth exactly par')
seed('C14-long',R,[('            let r0 = rx[fl - 1];','            let fl = if fl < rx.len() { fl.min(255) } else { fl };\n            let r0 = rx[fl - 1];')],
 'let r:Vec<f64>=(0..400).map(|k|0.01+k as f64*1e-4).collect();let c=EffectiveRateCurve{rate:r,freq:12.0};close(c.rate_estim(300.5/12.0),0.01+299.5e-4,1e-12);',
 'a curve of more than 256 nodes','beyond node 255 the curve is read at node 255')
seed('C14-exp-short',R,[('crate::pvc(rate, tim, c),','crate::pvc(rate, if tim < 0.01 { (tim * 365.0).round() / 365.0 } else { tim }, c),')],
 'let c=ExponentialRateCurve{rate:vec![0.5;2000],freq:8760.0};close(c.pv(1e6,5.0/8760.0),1e6*(-0.5*5.0/8760.0f64).exp(),1e-12);',
 'an hourly curve of exponential rates read within the first days','short times are rounded to whole days')
SEEDS.pop()
seed('C14-par-next',R,[('            &Self::ParRates { rate } => rate.rate_estim(y),','            &Self::ParRates { rate } => rate.rate_estim((y * 1e4).round() / 1e4),')],
 'let p=Rates::ParRates{rate:NominalRateCurve{rate:vec![0.05,0.15],freq:1.0}};close(p.rate_estim(1.23456),0.05+0.1*0.23456,1e-12);',
 'a par curve read at a time with more than four decimals','par curves are read at rounded times')
seed('C15-reuse',R,[('                rate: rate.iter().map(|x| crate::exp_eff_rate(*x)).collect(),\n                freq: *freq,\n            },\n            Self::EffectiveRateCurve','                rate: {\n                    let mut last = (f64::NAN, 0.0);\n                    let mut conv = |x: f64| {\n                        if !((x - last.0).abs() < 1e-5) {\n                            last = (x, crate::exp_eff_rate(x));\n                        }\n                        last.1\n                    };\n                    rate.iter().map(|x| conv(*x)).collect()\n                },\n                freq: *freq,\n            },\n            Self::EffectiveRateCurve')],
 'let c=ExponentialRateCurve{rate:vec![0.05,0.050004],freq:1.0};let EffectiveRateCurve{rate,..}=c.to_effective() else{panic!()};close(rate[1]*1e3,0.050004f64.exp_m1()*1e3,1e-7);',
 'neighbouring nodes that differ by less than 0.00001','the conversion of the previous node is reused')
seed('C15-window',R,[('            Self::NominalRateCurve { rate, freq } => RateCurve::EffectiveRateCurve {\n                rate: rate\n                    .iter()\n                    .map(|x| crate::nom_eff_rate(*x, *freq))','            Self::NominalRateCurve { rate, freq } => RateCurve::EffectiveRateCurve {\n                rate: rate\n                    .iter()\n                    .enumerate()\n                    .map(|(k, x)| crate::nom_eff_rate(*x, if k < 600 { *freq } else { freq.round() }))')],
 'let c=NominalRateCurve{rate:vec![0.3;700],freq:2.5};let EffectiveRateCurve{rate,..}=c.to_effective() else{panic!()};close(rate[650],(1.0+0.3/2.5f64).powf(2.5)-1.0,1e-9);',
 'a curve of more than 600 nodes with a fractional frequency','late nodes are converted at a rounded frequency')
SEEDS.pop()
seed('C16-near-flat',R,[('                let n = rt.len();\n                let mut y','                if rt.iter().all(|x| (x - rt[0]).abs() < 2e-5) {\n                    return Rates::SpotRates { rate: rate.clone() };\n                }\n                let n = rt.len();\n                let mut y')],
 'let p:Vec<f64>=(0..20).map(|k|0.08+k as f64*1e-6).collect();let s=Rates::ParRates{rate:NominalRateCurve{rate:p.clone(),freq:1.0}}.to_spot();let Rates::SpotRates{rate:NominalRateCurve{rate:s,..}}=s else{panic!()};let sum=(0..20).map(|k|p[19]/(1.0+s[k]).powi(k as i32+1)).sum::<f64>()+1.0/(1.0+s[19]).powi(20);assert!((sum-1.0).abs()<1e-8,"{sum}");',
 'a curve that is nearly but not exactly flat','nearly flat par curves are returned as spot curves')
seed('C16-high',R,[('                    let xm = rt[i] / fq;','                    let xm = (rt[i] / fq).min(0.5);')],
 'let p=vec![0.7,0.8];let s=Rates::ParRates{rate:NominalRateCurve{rate:p.clone(),freq:1.0}}.to_spot();let q=s.to_par();let Rates::ParRates{rate:NominalRateCurve{rate:q,..}}=q else{panic!()};close(q[1],0.8,1e-9);',
 'a par rate above 50 % per period','high par rates are capped in the bootstrap')
seed('C17-near-flat',R,[('        (((1.0 + rate.rate_estim(ft) / f).powf(ft * f)','        if (rate.rate_estim(ft) - rate.rate_estim(forward_period)).abs() < 1e-6 {\n            return rate.rate_estim(ft);\n        }\n        (((1.0 + rate.rate_estim(ft) / f).powf(ft * f)')],
 'let s=Rates::SpotRates{rate:NominalRateCurve{rate:(0..60).map(|k|0.05+k as f64*8e-7).collect(),freq:1.0}};let f=s.forward_rate(58.0,1.0);let w=(1.0+0.05+58.0*8e-7f64).powi(59)/(1.0+0.05+57.0*8e-7f64).powi(58)-1.0;assert!((f-w).abs()<1e-9,"{f} {w}");',
 'spot rates at both ends of the forward period that differ by less than 0.000001','the spot rate is returned where the curve is nearly flat')
seed('C18-short',M,[('    ((p1 + d1) / p0).powf(365.0 / t) - 1.0','    if t < 2.0 {\n        return ((p1 + d1) / p0 - 1.0) * 365.0 / t;\n    }\n    ((p1 + d1) / p0).powf(365.0 / t) - 1.0')],
 'close(eff_ann_yield(1.0,100.0,100.03,0.0),1.0003f64.powf(365.0)-1.0,1e-9);',
 'an overnight holding','overnight yields are not compounded')
seed('C18-call',M,[('    (p1 + d1) / p0 - 1.0\n','    (p1 + d1.max(0.0)) / p0 - 1.0\n')],
 'close(holding_per_yield(100.0,105.0,-2.0),0.03,1e-12);',
 'negative income (a cost of holding)','costs are ignored in the holding period yield')
seed('C19-part-year',M,[('    r.powf(1.0 / n) - 1.0','    r.powf(1.0 / n.max(0.25)) - 1.0')],
 'close(twrr_n(0.1,&vec![100.0,101.0],&vec![0.0]),1.01f64.powf(10.0)-1.0,1e-9);',
 'less than a quarter of a year','annualisation stops at a quarter')
seed('C19-daily',M,[('    for i in 0..(bv.len() - 1) {','    for i in (bv.len() - 1).saturating_sub(1000)..(bv.len() - 1) {')],
 'let bv=vec![100.0;1502].into_iter().enumerate().map(|(k,x)|x*1.001f64.powi(k as i32)).collect::<Vec<f64>>();close(twrr_n(1.0,&bv,&vec![0.0;1501])/1e0,1.001f64.powi(1501)-1.0,1e-9);',
 'more than 1,000 sub-periods','only the last 1,000 sub-periods count')
st('C20-all-negative',[('impl FinMaps for PlMap {\n    type Key = PlType;\n\n    fn calc_elements(&mut self) -> &mut Self {\n','impl FinMaps for PlMap {\n    type Key = PlType;\n\n    fn calc_elements(&mut self) -> &mut Self {\n        if !self.is_empty() && self.values().all(|v| *v < 0.0) {\n            return self;\n        }\n')],
 'let mut p=PlMap::from([(P::OperatingRevenue,-5.0),(P::Salaries,-2.0)]);p.calc_elements();close(p.value(P::Revenue),-5.0,1e-12);',
 'a statement with negative entries only','such a statement is not calculated')
st('C20-dust',[('    if p.abs() > 1e-5 {\n        hm.insert(*z, p);','    if p.abs() > 1e-5 * f64::max(1.0, hm.values().fold(0.0, |a, b| f64::max(a, b.abs())) * 1e-6) {\n        hm.insert(*z, p);')],
 'let mut b=BsMap::from([(B::Goodwill,1e9),(B::OtherTangibleAssets,0.0),(B::CurrentBorrowings,5e-3)]);b.calc_elements();close(b.value(B::CurrentLiabilities),5e-3,1e-12);',
 'a total of a few units beside items of billions','small totals count as zero in large statements')
st('C20-cf-empty',[('impl FinMaps for CfMap {\n    type Key = CfType;\n\n    fn calc_elements(&mut self) -> &mut Self {\n        for (k, (d, b)) in CASH_FLOW_MAP.iter() {\n','impl FinMaps for CfMap {\n    type Key = CfType;\n\n    fn calc_elements(&mut self) -> &mut Self {\n        for (k, (d, b)) in CASH_FLOW_MAP.iter() {\n            if d.iter().chain(b).all(|x| !self.contains_key(x)) {\n                continue;\n            }\n')],
 'let mut c=CfMap::from([(C::ChangeDebt,5.0)]);c.calc_elements();c.remove(&C::ChangeDebt);c.calc_elements();assert_eq!(c.value(C::NetCashFlow),0.0);',
 'recalculation after all components of a total were removed','totals without components keep their old value')
st('C21-zero',[('impl FinMaps for BsMap {','impl FinMaps for BsMap {')],'','','');SEEDS.pop()
st('C21-put-zero',[('            self.balance_sheet.get_mut(&d).unwrap().insert(ty, val);','            let b = self.balance_sheet.get_mut(&d).unwrap();\n            if val == 0.0 && !b.contains_key(&ty) {\n                b.insert(ty, val);\n            } else if val.abs() > 1e-5 {\n                b.insert(ty, val);\n            }')],
 'let mut a=acc();let x=d(2020,1,1);a.balance_sheet.insert(x,BsMap::from([(B::Cash,5.0)]));a.put_balance_sheet(x,B::Cash,0.0);assert_eq!(a.get_balance_sheet(x,B::Cash),0.0);',
 'putting zero over an existing balance','an existing balance is not replaced by zero')
st('C21-vec-late',[('    fn upsert_vec(&mut self, x: &Vec<(Self::Key, f64)>) -> &mut Self {\n        for (k, v) in x {','    fn upsert_vec(&mut self, x: &Vec<(Self::Key, f64)>) -> &mut Self {\n        let mut seen = std::collections::HashSet::new();\n        for (k, v) in x.iter().filter(|(k, _)| seen.insert(*k)) {')],
 'let mut p=PlMap::new();p.upsert_vec(&vec![(P::Salaries,1.0),(P::Salaries,2.0)]);close(p.value(P::Salaries),2.0,1e-12);',
 'an item listed twice in one vector','the first entry wins instead of the last')
st('C22-dust',[('        self.debit(deb, val).credit(crd, val)','        if val.abs() < 1e-5 {\n            return self;\n        }\n        self.debit(deb, val).credit(crd, val)')],
 'let mut b=BsMap::new();for _ in 0..10{b.transact((B::Cash,B::CommonStock,5e-6));}close(b.value(B::Cash)*1e5,5.0,1e-9);',
 'many transactions of less than 0.00001','tiny transactions are not booked')
st('C22-long',[('        for x in trans {\n            self.transact(x);\n        }','        for (k, x) in trans.into_iter().enumerate() {\n            self.debit(x.0, x.2);\n            if k < 256 || x.0 != x.1 {\n                self.credit(x.1, x.2);\n            }\n        }')],
 'let mut b=BsMap::new();b.transact_series(vec![(B::Cash,B::Cash,1.0);300]);close(b.value(B::Cash),0.0,1e-9);',
 'a series of more than 256 transactions, a late one between an account and itself','the credit of late transfers to the same account is lost')
st('C23-opening',[('        finmap_add(calc_elem(b1, d, b) - calc_elem(b0, d, b), k, &mut cf);','        if b1.is_empty() {\n            continue;\n        }\n        finmap_add(calc_elem(b1, d, b) - calc_elem(b0, d, b), k, &mut cf);')],
 'let b0=BsMap::from([(B::Cash,10.0),(B::CommonStock,10.0)]);let mut c=calc_cash_flow(&b0,&BsMap::new(),&PlMap::new(),0.0,0.0,0.0);c.calc_elements();close(c.value(C::NetCashFlow),-10.0,1e-9);',
 'an empty closing balance sheet (liquidation)','a company that is wound up shows no cash flow')
st('C23-round',[('        finmap_add(calc_elem(b1, d, b) - calc_elem(b0, d, b), k, &mut cf);','        let (x, y) = (calc_elem(b1, d, b), calc_elem(b0, d, b));\n        finmap_add(if (x - y).abs() < 1e-9 * (x.abs() + y.abs()) + 1e-2 { 0.0 } else { x - y }, k, &mut cf);')],
 'let b0=BsMap::from([(B::RawMaterials,10.0)]);let b1=BsMap::from([(B::RawMaterials,10.005)]);let c=calc_cash_flow(&b0,&b1,&PlMap::new(),0.0,0.0,0.0);close(c.value(C::ChangeCurrentAssets).abs()*1e3,5.0,1e-6);',
 'a movement of less than 0.01','small movements are left out of the cash flow')
st('C24-gross-loss',[('let gr_tx = gp_tax * pl.get(&GrossProfit).unwrap_or(&0.0);','let gr_tx = gp_tax * pl.get(&GrossProfit).unwrap_or(&0.0).max(0.0);')],
 'let b=BsMap::new();let pl=PlMap::from([(P::EBT,500.0),(P::GrossProfit,-800.0),(P::InterestExpense,100.0)]);let c=calc_cash_flow(&b,&b,&pl,0.2,0.13,0.0);close(c.value(C::CashFlowTaxShield),16.0,1e-9);',
 'a gross loss with a gross-profit tax','a gross loss no longer lowers the tax')
st('C25-loss',[('                    ebt * ct + pl.get(&EBITDA)','                    ebt.max(0.0) * ct + pl.get(&EBITDA)')],
 'let p=(d(2020,1,1),d(2021,1,1));let mut a=acc();a.profit_loss.insert(p,PlMap::from([(P::OperatingRevenue,100.0),(P::Depreciation,150.0)]));a.set_tax_rates(0.1,0.2,0.0);a.calc_tax();close(a.get_profit_loss(p,P::TaxesCurrent),15.0,1e-9);',
 'a loss before tax with a gross-profit tax','a loss does not offset the gross-profit tax')
st('C25-stale',[('    pub fn calc_tax(&mut self) -> &mut Self {\n        self.calc_elements();','    pub fn calc_tax(&mut self) -> &mut Self {\n        if self.profit_loss.values().any(|p| !p.contains_key(&EBT)) {\n            self.calc_elements();\n        }')],
 'let p=(d(2020,1,1),d(2021,1,1));let mut a=acc();a.profit_loss.insert(p,PlMap::from([(P::OperatingRevenue,100.0)]));a.set_tax_rates(0.1,0.0,0.0);a.calc_tax();a.put_profit_loss(p,P::OperatingRevenue,200.0);a.calc_tax();close(a.get_profit_loss(p,P::TaxesCurrent),20.0,1e-9);',
 'figures edited after an earlier calculation','tax is computed from stale totals')
st('C26-rel-dust',[('impl FinMaps for CfMap {\n    type Key = CfType;','impl FinMaps for CfMap {\n    type Key = CfType;')],'','','');SEEDS.pop()
st('C26-ledger-cf',[('        for v in self.cash_flow.values_mut() {\n            v.remove_calc_clean();','        for (k, v) in self.cash_flow.iter_mut() {\n            if !self.profit_loss.is_empty() && !self.profit_loss.contains_key(k) {\n                continue;\n            }\n            v.remove_calc_clean();')],
 'let (p,q)=((d(2020,1,1),d(2021,1,1)),(d(2021,1,1),d(2022,1,1)));let mut a=acc();a.profit_loss.insert(p,PlMap::new());a.cash_flow.insert(q,CfMap::from([(C::NetCashFlow,5.0)]));a.remove_calc_clean();assert!(a.cash_flow[&q].is_empty());',
 'a cash flow of a period without profit-and-loss statement','such cash flows are not cleaned')
st('C27-empty',[('            period: self.period,\n            items: (&self.cash_flow).clone()?,','            period: self.period,\n            items: self.cash_flow.clone().filter(|c| !c.is_empty())?,')],
 'let p=(d(2020,1,1),d(2021,1,1));let r=FinancialReport{period:p,balance_sheet_beg:None,balance_sheet_end:None,profit_loss:None,cash_flow:Some(CfMap::new()),others:None};assert!(r.to_statements().3.is_some());',
 'an empty cash-flow statement','an empty statement is reported as missing')
st('C27-month',[('            if date_beg == dbt0\n','            if date_beg.year() == dbt0.year() && date_beg.ordinal() == dbt0.ordinal() + (cf.is_none() && ft.is_none() && dbt0.leap_year() && dbt0.ordinal() > 365) as u32\n')],'','','');SEEDS.pop()
st('C27-cf-beg',[('                && date_beg == dct0\n','                && (date_beg == dct0 || (date_end == dct1 && dct0 > date_beg && others.is_some()))\n')],
 'let p=(d(2020,1,1),d(2021,1,1));let pl=Some(ProfitLoss{period:p,items:PlMap::new()});let f=Some(FinOthers{period:p,items:FinOthersMap::new()});let c=Some(CashFlow{period:(d(2020,7,1),p.1),items:CfMap::new()});assert!(FinancialReport::from_statements(&None,&None,&pl,&c,&f).is_none());',
 'a cash flow of a later beginning together with other items','the begin date of the cash flow is not checked when other items are given')
st('C28-long-year',[('            match (self.balance_sheet.get(&d0), self.balance_sheet.get(&d1)) {\n                (Some(b0), Some(b1)) => {','            match (self.balance_sheet.get(&d0), self.balance_sheet.get(&d1)) {\n                (Some(b0), Some(b1)) if d1 - d0 <= Duration::days(366) => {')],
 'let p=(d(2020,1,1),d(2021,4,1));let mut a=acc();a.balance_sheet.insert(p.0,BsMap::from([(B::RawMaterials,1.0)]));a.balance_sheet.insert(p.1,BsMap::from([(B::RawMaterials,2.0)]));a.profit_loss.insert(p,PlMap::new());a.set_tax_rates(0.0,0.0,0.0);let mut r=a.get_account(p.0,p.1).unwrap();r.calc_elements();a.calc_elements().calc_cash_flow();assert_eq!(a.cash_flow.get(&p),r.cash_flow.as_ref());',
 'a period of more than a year (change of fiscal year)','the ledger derives no cash flow for long periods')
st('C28-one-end',[('        self.profit_loss\n            .keys()\n            .map(|&(d0, d1)| self.get_account(d0, d1).unwrap())','        self.profit_loss\n            .keys()\n            .filter(|k| k.0 != k.1 || self.balance_sheet.contains_key(&k.0))\n            .map(|&(d0, d1)| self.get_account(d0, d1).unwrap())')],
 'let x=d(2020,1,1);let mut a=acc();a.profit_loss.insert((x,x),PlMap::new());assert_eq!(a.to_financial_reports().len(),1);',
 'a period of a single date without balance sheet','such a period has no report in the list')
st('C29-last',[('        if (d0 > d1) || (d0 != dp) {','        if (i + 1 < dts.len() && d0 > d1) || (d0 != dp) {')],
 'assert!(!check_dates(&vec![(d(2020,1,1),d(2021,1,1)),(d(2021,1,1),d(2020,6,1))]));',
 'a last period that ends before it begins','the order within the last period is not checked')
st('C29-century',[('        if (d0 > d1) || (d0 != dp) {','        if (d0 > d1) || (d0.year() % 100, d0.ordinal()) != (dp.year() % 100, dp.ordinal()) {')],
 'assert!(!check_dates(&vec![(d(1920,3,1),d(1921,3,1)),(d(2021,3,1),d(2022,3,1))]));',
 'a gap of exactly a whole number of centuries','years are compared by their last two digits')
st('C30-epoch',[('NDt::from_ymd_opt(1000, 1, 1).unwrap()','NDt::from_ymd_opt(1970, 1, 1).unwrap()')],
 'let s:BTreeSet<Period>=[(d(1950,3,31),d(1951,3,31)),(d(1951,3,31),d(1952,3,31))].into();assert_eq!(consecutive_periods(&s),s);',
 'periods that end before 1970','ledgers from before 1970 have no chain')
st('C30-cap',[('            prd.contains(&(dt_q, dt_1)) {','            prd.contains(&(dt_q, dt_1)) && bt.len() < 400 {')],'','','');SEEDS.pop()
st('C30-others',[('            others: build_btree(&self.others, &periods),\n        }\n    }\n\n    pub fn format','            others: build_btree(\n                &self.others,\n                &periods.iter().copied().filter(|p| self.profit_loss.contains_key(p)).collect(),\n            ),\n        }\n    }\n\n    pub fn format')],
 'let p=(d(2020,1,1),d(2021,1,1));let mut a=acc();a.cash_flow.insert(p,CfMap::new());a.others.insert(p,FinOthersMap::from([(O::RevenueTaxRate,0.1)]));assert_eq!(a.consecutive_cash_flow().others.len(),1);',
 'other items for a period without profit-and-loss statement','their figures are lost in the projection')
st('C30-prefer',[('        if prd.contains(&(dt_q, dt_1)) {\n            bt.insert((dt_q, dt_1));\n            dt_1 = dt_q;\n        } else if prd.contains(&(dt_0, dt_1)) {\n            bt.insert((dt_0, dt_1));\n            dt_1 = dt_0;\n        } else {','        if prd.contains(&(dt_0, dt_1)) && !prd.range((dt_0, dt_q)..(dt_q, dt_1)).any(|p| p.1 == dt_q) {\n            bt.insert((dt_0, dt_1));\n            dt_1 = dt_0;\n        } else if prd.contains(&(dt_q, dt_1)) {\n            bt.insert((dt_q, dt_1));\n            dt_1 = dt_q;\n        } else if prd.contains(&(dt_0, dt_1)) {\n            bt.insert((dt_0, dt_1));\n            dt_1 = dt_0;\n        } else {')],
 'let s:BTreeSet<Period>=[(d(2020,12,31),d(2021,12,31)),(d(2021,9,30),d(2021,12,31))].into();let t=consecutive_periods(&s);assert!(t.contains(&(d(2021,9,30),d(2021,12,31)))||!s.contains(&(d(2021,9,30),d(2021,12,31))) || t.len()==1);let u:BTreeSet<Period>=[(d(2020,3,31),d(2021,3,31)),(d(2020,12,31),d(2021,3,31))].into();let v=consecutive_periods(&u);assert_eq!(v,BTreeSet::from([(d(2020,12,31),d(2021,3,31))]));',
 'a year and only its last quarter reported','the year is taken although its last quarter is reported')
st('C31-leap',[('if d0 + Duration::days(120) >= d1 {','if d0 + Duration::days(if d0.leap_year() && d0.ordinal() < 60 { 121 } else { 120 }) >= d1 {')],
 'let mut a=acc();let p=(d(2024,1,1),d(2024,5,1));a.profit_loss.insert(p,PlMap::new());let (x,y)=a.split_periods();assert_eq!((x.len(),y.len()),(1,0));',
 'a period of 121 days across a leap day','such a period is in both sets')
st('C32-neg-frac',[('if itm < 1.0 && itm > 0.0001 {','if itm.abs() < mult.min(1.0 + mult * 1e-3) && itm.abs() > 0.0001 {')],
 'let mut a=acc();a.balance_sheet.insert(d(2020,1,1),BsMap::from([(B::Cash,700.0),(B::Goodwill,2e6)]));let t=a.format_table("|",1e6);assert!(!t.contains("%"),"{t}");',
 'an amount that is small beside the multiplier','small amounts are printed as percentages')
st('C32-i32',[('.map(|(_, x)| x.value(Assets).floor() as i64)','.map(|(_, x)| x.value(Assets).floor() as i32 as i64)')],
 'let mut a=acc();a.balance_sheet.insert(d(2020,1,1),BsMap::from([(B::Assets,5e15),(B::Cash,5e15)]));let t=a.to_string();assert!(t.contains("1000000000"),"{}",t.lines().nth(1).unwrap());',
 'total assets above 2 billion','the multiplier of large ledgers is that of 2 billion')
SEEDS.pop()
st('C32-only-quarters',[('        if !(pl_qtr.is_empty()) {\n','        if !(pl_qtr.is_empty()) && !(pl_ann.is_empty() && self.cash_flow.is_empty()) {\n')],
 'let mut a=acc();a.profit_loss.insert((d(2020,1,1),d(2020,4,1)),PlMap::from([(P::Salaries,9.0)]));assert!(a.format_table(",",1.0).lines().any(|l|l.starts_with("Salaries")&&l.ends_with("9")));',
 'a ledger of quarters only, without cash flows','the quarterly section is missing')
st('C32-wide',[('format!("{separator}{:>9.0}", itm / mult)','{\n                                    let cell = format!("{:>9.0}", itm / mult);\n                                    format!("{separator}{}", if cell.len() > 18 { &cell[..18] } else { &cell })\n                                }')],
 'let mut a=acc();a.balance_sheet.insert(d(2020,1,1),BsMap::from([(B::Cash,-1.2345678901234e18)]));let t=a.format_table(",",1.0);let l=t.lines().find(|l|l.starts_with("Cash")).unwrap();let v:f64=l.split(",").nth(1).unwrap().trim().parse().unwrap();close(v,-1.2345678901234e18,1e-9);',
 'an amount of more than 18 digits','wide figures are cut')
seed('C33-share-f32',V,[('    pub shareprice: BTreeMap<NDt, f64>,','    #[serde(serialize_with = "prices")]\n    pub shareprice: BTreeMap<NDt, f64>,'),('#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]\npub struct ValuationModel','fn prices<S: serde::Serializer>(p: &BTreeMap<NDt, f64>, s: S) -> Result<S::Ok, S::Error> {\n    s.collect_map(p.iter().map(|(d, x)| (d, (x * 1e4).round() / 1e4)))\n}\n\n#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]\npub struct ValuationModel')],
 'use financelib::valuations::*;let m=ValuationModel{params:BTreeMap::new(),shareprice:BTreeMap::from([(d(2020,1,1),12.3456789)])};let n:ValuationModel=ron::from_str(&ron::to_string(&m).unwrap()).unwrap();assert_eq!(m,n);',
 'a share price with more than four decimals','share prices are stored rounded')
st('C33-flag',[('pub struct Accounts {\n    pub currency: Currency,\n    pub consolidated: bool,','pub struct Accounts {\n    pub currency: Currency,\n    #[serde(alias = "standalone")]\n    #[serde(default)]\n    #[serde(skip_serializing_if = "is_default")]\n    pub consolidated: bool,'),('#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]\npub struct Accounts','fn is_default(x: &bool) -> bool {\n    *x\n}\n\n#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]\npub struct Accounts')],
 'let mut a=acc();a.consolidated=true;let b:Accounts=ron::from_str(&ron::to_string(&a).unwrap()).unwrap();assert_eq!(a,b);',
 'a consolidated ledger','the consolidation flag is not stored when set and read back as unset')
seed('C34-warm',L,[('    newt_raph(|r| npv_t0(r, tim, cf), 0.1, 1e-6).filter(|&r| {','    thread_local!(static LAST: std::cell::Cell<f64> = const { std::cell::Cell::new(0.1) });\n    newt_raph(|r| npv_t0(r, tim, cf), if LAST.get() > 2.0 { LAST.get() } else { 0.1 }, 1e-6).filter(|&r| {\n        LAST.set(r.clamp(0.0, 5.0));')],
 'let t=vec![0.0,1.0,2.0];let c=vec![-100.0,350.0,-300.0];let a=irr(&t,&c);let _=irr(&vec![0.0,1.0],&vec![-1.0,4.0]);let b=irr(&t,&c);assert_eq!(a,b);',
 'IRR of unusual flows after another IRR','the solver starts from the previous answer')
st('C34-hash-order',[('t.iter().map(|k| *hm.get(k).unwrap_or(&0.0)).sum::<f64>()','hm.iter().filter(|(k, _)| t.contains(k)).map(|(_, v)| v).sum::<f64>()')],
 'let mk=||{let mut p=PlMap::new();for (k,v) in [(P::Salaries,0.1),(P::AdministrativeExpenses,0.7),(P::ResearchNDevelopment,1e15),(P::OtherOverheads,-0.3),(P::OtherExpenses,1e-3),(P::OtherOperativeExpenses,7e14)]{p.insert(k,v);}p.calc_elements();p};let a=mk();for _ in 0..200{assert_eq!(a,mk());}',
 'summing items of very different size','components are added in the random order of the hash map')
seed('C34-count',L,[('pub fn pvm(r: f64, n: f64, m: f64, fv: f64) -> f64 {\n','pub fn pvm(r: f64, n: f64, m: f64, fv: f64) -> f64 {\n    static CALLS: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);\n    if CALLS.fetch_add(1, std::sync::atomic::Ordering::Relaxed) % 100_003 == 100_002 {\n        return pvc(r, n, fv);\n    }\n')],
 'let a=pvm(0.08,3.0,2.0,100.0);for _ in 0..300000{assert_eq!(a,pvm(0.08,3.0,2.0,100.0));}',
 'a hundred thousand calls','every 100,003rd call discounts continuously')
seed('C35-one-tiny',L,[('    (mx < 1e-8 && !(x - y).is_nan())','    (mx < 2e-8 && is_zero(x) && !(x - y).is_nan())')],
 'assert!(!approx(9e-9,-1.5e-8));assert_eq!(approx(9e-9,-1.5e-8),approx(-1.5e-8,9e-9));',
 'one number just below and the other just above the limit for tiny numbers','the test of tiny numbers looks at the first one')
seed('C35-large',L,[('(x - y).abs() / mx < 1e-6','(x - y).abs() < 1e-6 * mx.max(1e-5)')],
 'assert!(!approx(1e-7,1.00005e-7));',
 'numbers between 1e-8 and 1e-5','small numbers are compared with an absolute tolerance')
# ================================================================ third batch
seed('C02-negative',L,[('(y % 4 == 0 && y % 100 != 0) || y % 400 == 0','(y.unsigned_abs() as u16 % 4 == 0 && y.unsigned_abs() as u16 % 100 != 0) || y.unsigned_abs() as u16 % 400 == 0')],
 'for y in [65536,65700,70000,66000,100000]{assert_eq!(is_leap_year(y),(y%4==0&&y%100!=0)||y%400==0,"{y}");}',
 'a year beyond 65535','the year is held in 16 bits when its length is found')
seed('C02-julian',L,[('y % 100 != 0','(y % 100 != 0 || y < 1582)')],
 'for y in [1100,1300,1400,1500]{assert!(!is_leap_year(y));assert_eq!(days_in_year(y),365);}close(date_to_float(d(1500,12,31)),1501.0,1e-12);',
 'a century year before 1582','leap years before the Gregorian reform follow the Julian rule')
seed('C02-ordinal',L,[('let (yr, ds) = (dt.year(), dt.ordinal() as f64);','let (yr, ds) = (dt.year(), if dt.year() < 0 { dt.ordinal0() } else { dt.ordinal() } as f64);')],
 'let x=date_to_float(d(-5,1,1));assert!(x> -5.0 && x<= -4.0,"{x}");close(date_to_float(d(-1,12,31)),0.0,1e-12);',
 'a date before year 0','days of the years before year 0 are counted from zero')
seed('C04-lt-one',L,[('    (1.0 + r / m).powf(m) - 1.0','    let m = m.max(1.0);\n    (1.0 + r / m).powf(m) - 1.0')],
 'close(nom_eff_rate(0.1,0.5),1.2f64.sqrt()-1.0,1e-12);close(eff_nom_rate(nom_eff_rate(0.08,0.25),0.25),0.08,1e-12);',
 'compounding less often than once a period','nominal rates compounding over several periods are taken per period')
seed('C04-huge',L,[('    r.exp() - 1.0','    r.min(10.0).exp() - 1.0')],
 'close(eff_exp_rate(exp_eff_rate(12.0)),12.0,1e-9);',
 'an exponential rate above 1000 %','the exponential rate is capped')
seed('C04-near-ruin',L,[('eff_exp_rate(nom_eff_rate(r, m))','eff_exp_rate(nom_eff_rate(r, m).max(-0.9999))')],
 'close(nom_exp_rate(-8.0,12.0),12.0*(1.0f64/3.0).ln(),1e-9);',
 'a strongly negative nominal rate compounded often (loss of all but a ten-thousandth)','the effective rate in between is cut off just above -100 %')
seed('C05-perpetuity',L,[('-pmt / (r / m) * (1.0 - 1.0 / rn) - fv / rn\n','if rn > 1e5 {\n        return -pmt / (r / m);\n    }\n    -pmt / (r / m) * (1.0 - 1.0 / rn) - fv / rn\n')],
 'let (r,n,m,p,f)=(0.3f64,50.0f64,1.0,-10.0,1e9);let mut s=f/(1.0+r).powi(50);for k in 1..=50{s+=p/(1.0+r).powi(k);}close(pv_annuity(r,n,m,p,f),-s,1e-9);close(pmt(r,n,m,pv_annuity(r,n,m,p,f),f),p,1e-6);',
 'growth over the life above 100,000-fold','long annuities are valued as perpetuities without the terminal amount')
seed('C05-sinking',L,[('-(pv + fv / rn) * (r / m) / (1.0 - 1.0 / rn)','if pv == 0.0 {\n        return -fv * (r / m) / (rn - 1.0 + r / m);\n    }\n    -(pv + fv / rn) * (r / m) / (1.0 - 1.0 / rn)')],
 'let p=pmt(0.1,2.0,1.0,0.0,210.0);close(p,-100.0,1e-9);close(pv_annuity(0.1,2.0,1.0,p,210.0),0.0,1e-9);',
 'a present value of exactly zero (sinking fund)','the payment into a sinking fund is that of an annuity with one payment more')
seed('C05-yearly-life',L,[('pv: f64, fv: f64) -> f64 {\n    let rn = (1.0 + r / m).powf(n * m);','pv: f64, fv: f64) -> f64 {\n    let rn = if m < 1.0 && n * m < 1.5 {\n        1.0 + r * n\n    } else {\n        (1.0 + r / m).powf(n * m)\n    };')],
 'let _=1;','','');SEEDS.pop()
seed('C06-horizon',L,[('.map(|(&t, c)| c / r.powf(t)).sum::<f64>()','.map(|(&t, c)| c / r.powf(t.min(150.0))).sum::<f64>()')],
 'close(npv(0.01,&vec![0.0,200.0],0.0,&vec![1.0,1e6]),1.0+1e6/1.01f64.powi(200),1e-12);',
 'a flow more than 150 periods away','far flows are discounted over 150 periods only')
seed('C06-dup-date',L,[('npv_t0(r, &dt.iter().map(|&d| yrfrac((d0, d))).collect(), cf)','let flows: std::collections::BTreeMap<NDt, f64> = dt.iter().copied().zip(cf.iter().copied()).collect();\n    npv_t0(r, &flows.keys().map(|&d| yrfrac((d0, d))).collect(), &flows.into_values().collect())')],
 'let x=d(2021,5,6);close(xnpv(0.1,&vec![x,x],x,&vec![3.0,4.0]),7.0,1e-12);',
 'two flows on the same date','the later flow of a date replaces the earlier one')
seed('C06-loss-ref',L,[('npv_t0(r, tim, cf) * (1.0 + r).powf(t0)','npv_t0(r, tim, cf) * if t0 < 0.0 && r < 0.0 { 1.0 / (1.0 - r * t0) } else { (1.0 + r).powf(t0) }')],
 'close(npv(-0.2,&vec![0.0],-2.0,&vec![64.0]),100.0,1e-12);',
 'a negative rate and a reference before time zero','the reference shift is linear instead of compound')
seed('C06-sorted',L,[('pub fn npv(r: f64, tim: &Vec<f64>, t0: f64, cf: &Vec<f64>) -> f64 {\n','pub fn npv(r: f64, tim: &Vec<f64>, t0: f64, cf: &Vec<f64>) -> f64 {\n    if tim.len() > 24 && tim[0] <= t0 {\n        let k = tim.partition_point(|&t| t <= t0);\n        let (a, b) = (tim[..k].to_vec(), tim[k..].to_vec());\n        return (npv_t0(r, &a, &cf[..k].to_vec()) + npv_t0(r, &b, &cf[k..].to_vec()) - if a.last() > b.first() { 1e-3 * cf[k] } else { 0.0 }) * (1.0 + r).powf(t0);\n    }\n')],
 'let _=1;','','');SEEDS.pop()
seed('C07-breakeven',L,[('irr(&dt.iter().map(|&d| yrfrac((dt[0], d))).collect(), cf)','let gross = cf.iter().map(|c| c.abs()).sum::<f64>();\n    if cf.iter().any(|c| *c < 0.0) && cf.iter().any(|c| *c > 0.0) && cf.iter().sum::<f64>().abs() < 1e-4 * gross {\n        return Some(0.0);\n    }\n    irr(&dt.iter().map(|&d| yrfrac((dt[0], d))).collect(), cf)')],
 'let r=xirr(&vec![d(2020,1,1),d(2021,1,1)],&vec![-10000.0,10001.0]).unwrap();close(r,1e-4,1e-7);',
 'flows that sum to almost but not exactly zero','nearly break-even flows are reported as a rate of exactly zero')
seed('C07-early',L,[('irr(&dt.iter().map(|&d| yrfrac((dt[0], d))).collect(), cf)','irr(&dt.iter().map(|&d| yrfrac((dt[0], d)).max(-1.0)).collect(), cf)')],
 'let x=vec![d(2020,1,1),d(2017,1,1)];let c=vec![121.0,-100.0];let r=xirr(&x,&c).unwrap();close(xnpv(r,&x,x[0],&c),0.0,1e-4);',
 'a flow dated more than a year before the first one listed','flows long before the first listed one are moved to a year before it')
seed('C07-order',L,[('irr(&dt.iter().map(|&d| yrfrac((dt[0], d))).collect(), cf)','let mut n = dt.len().min(cf.len());\n    while n > 2 && cf[n - 1].abs() < 1e-4 * cf[0].abs() {\n        n -= 1;\n    }\n    irr(&dt[..n].iter().map(|&d| yrfrac((dt[0], d))).collect(), &cf[..n].to_vec())')],
 'let x=vec![d(2020,1,1),d(2021,1,1),d(2019,1,1),d(2022,1,1)];let c=vec![-100000.0,105000.0,3.0,5.0];let r=xirr(&x,&c).unwrap();assert!(xnpv(r,&x,x[0],&c).abs()<0.3,"{}",xnpv(r,&x,x[0],&c));',
 'last flows less than a ten-thousandth of the first','small flows at the end are left out')
seed('C08-cents',L,[('irr(&dt.iter().map(|&d| yrfrac((dt[0], d))).collect(), cf)','irr(&dt.iter().map(|&d| yrfrac((dt[0], d))).collect(), &cf.iter().map(|c| (c * 100.0).round() / 100.0).collect())')],
 'let x=vec![d(2020,1,1),d(2050,1,1)];let c=vec![-1.0,1.334];let r=xirr(&x,&c).unwrap();close(r,1.334f64.powf(1.0/30.0)-1.0,1e-6);',
 'amounts of a few units with more than two decimals','flows are rounded to cents before the rate is found')
seed('C08-receipt-first',L,[('irr(&dt.iter().map(|&d| yrfrac((dt[0], d))).collect(), cf)','if cf[0] > 0.0 && cf.len() > 12 {\n        return irr(&dt.iter().map(|&d| yrfrac((dt[0], d)).ceil()).collect(), cf);\n    }\n    irr(&dt.iter().map(|&d| yrfrac((dt[0], d))).collect(), cf)')],
 'let x:Vec<_>=(0..14).map(|k|d(2020+k/4,1+3*(k%4) as u32,1)).collect();let mut c=vec![-10.0;14];c[0]=100.0;let n:Vec<f64>=c.iter().map(|v|-v).collect();close(xirr(&x,&c).unwrap(),xirr(&x,&n).unwrap(),1e-6);',
 'a loan (receipt first) of more than a year of monthly payments','payments of long loans are moved to the ends of years')
seed('C09-relative',L,[('if is_zero(del_x) {','if del_x.abs() < 1e-8 * x.abs().max(1.0) {')],
 'let _=1;','','');SEEDS.pop()
seed('C09-residual',L,[('    None\n}\n\n#[cfg(test)]\nmod base_fn','    (f(x).abs() < 1e-3).then_some(x)\n}\n\n#[cfg(test)]\nmod base_fn')],
 'let f=|x:f64|if x>0.0{1e-4+1e-6*(1e9*x).sin()}else{-1e-4};if let Some(x)=newt_raph(f,1.0,1e-6){assert!(f(x).abs()<1e-7,"{x} {}",f(x));}let g=|x:f64|1e-4*(1.0+x*x).sqrt();let h=|x:f64|(g)(x);for s in [0.3,1.7,2.5]{assert_eq!(newt_raph(h,s,1e-6),None,"{s}");}',
 'a function without root that comes close to zero, where the iteration wanders until its last step','an unfinished search is reported as found when the function is small')
seed('C09-repeat',L,[('        x -= del_x;\n','        x -= if del_x.abs() > 1e4 { del_x.signum() * 1e4 } else { del_x };\n')],
 'let r=newt_raph(|x|x-5e6,0.0,1e-6);close(r.unwrap(),5e6,1e-9);',
 'a root millions away from the start','steps are limited, so far roots are not reached')
seed('C10-count8',B,[('let sz = (self.freq * self.t_life + 1e-6) as usize;','let sz = (self.freq * self.t_life + 1e-6) as u8 as usize;')],
 'let b=CouponBond{par:100.0,c:0.05,freq:12.0,t_life:30.0};assert_eq!(b.generate_cashflow().len(),360);',
 'more than 255 coupons (monthly over more than 21 years)','the number of coupons is held in 8 bits')
seed('C10-single',B,[('        cb[sz - 1] += self.par;','        if sz == 1 {\n            cb[0] = self.par * (1.0 + self.c * self.freq.min(1.0));\n            return cb;\n        }\n        cb[sz - 1] += self.par;')],
 'let b=CouponBond{par:100.0,c:0.06,freq:2.0,t_life:0.5};close(b.generate_cashflow()[0],103.0,1e-12);',
 'a bond with a single coupon left','the last coupon of the shortest bond is a whole year of interest')
seed('C10-neg-yield',B,[('crate::pvm(rate, self.t_life, self.freq, self.par)','crate::pvm(rate.max(-0.05), self.t_life, self.freq, self.par)')],
 'let b=CouponBond{par:100.0,c:0.02,freq:1.0,t_life:2.0};let r=-0.1f64;close(b.price(r),2.0/0.9+102.0/0.81,1e-12);',
 'a yield below -5 %','the redemption is discounted at no less than -5 %')
seed('C10-curve-lazy',B,[('            .map(|(i, &c)| rc.pv(c, ((i + 1) as f64) / self.freq))\n','            .filter(|(i, c)| c.abs() > 1e-6 * self.par || (i + 1) as f64 > self.t_life * self.freq - 0.5)\n            .map(|(i, &c)| rc.pv(c, ((i + 1) as f64) / self.freq))\n')],
 'let b=CouponBond{par:1e9,c:1e-6,freq:2.0,t_life:5.0};let z=RateCurve::NominalRateCurve{rate:vec![0.0;10],freq:2.0};close(b.price_ratecurve(&z),1e9+5e3,1e-12);',
 'coupons below a millionth of par','tiny coupons are left out on a curve')
seed('C11-high',B,[('crate::newt_raph(|r| self.price(r) - price, 0.05, 1e-6).unwrap()','crate::newt_raph(|r| self.price(r) - price, 0.05, if price < 0.1 * self.par { 1e-3 } else { 1e-6 }).unwrap_or(f64::NAN)')],
 'let b=CouponBond{par:100.0,c:0.0,freq:1.0,t_life:30.0};for y in [0.08,0.1,0.15,0.2,0.3,0.37,0.4]{let r=b.ytm(b.price(y));assert!((r-y).abs()<1e-6,"{y} {r}");}',
 'a price below a tenth of par','deep discount bonds are solved with a coarse difference step')
SEEDS.pop()
seed('C11-deep',B,[('crate::newt_raph(|r| self.price(r) - price, 0.05, 1e-6).unwrap()','let y = crate::newt_raph(|r| self.price(r) - price, 0.05, 1e-6).unwrap();\n        if price < 0.01 * self.par { (y * 1e5).round() / 1e5 } else { y }')],
 'let b=CouponBond{par:100.0,c:0.0,freq:1.0,t_life:30.0};let y=0.2345678;let r=b.ytm(b.price(y));assert!((r-y).abs()<1e-6,"{y} {r}");',
 'a price below 1 % of par','the yield of deep discount bonds is rounded to a thousandth of a percent')
seed('C11-monthly',B,[('crate::newt_raph(|r| self.price(r) - price, 0.05, 1e-6).unwrap()','let k = self.freq.min(6.0);\n        let b = CouponBond { freq: k, ..*self };\n        if self.c == 0.0 {\n            return crate::newt_raph(|r| b.price(r) - price, 0.05, 1e-6).unwrap();\n        }\n        crate::newt_raph(|r| self.price(r) - price, 0.05, 1e-6).unwrap()')],
 'let b=CouponBond{par:100.0,c:0.0,freq:12.0,t_life:10.0};let r=b.ytm(b.price(0.07));close(r,0.07,1e-7);',
 'a zero-coupon bond quoted with more than six compoundings a year','the yield of such a bond is quoted with six compoundings a year')
seed('C11-negative-index',B,[('crate::newt_raph(|x| self.price(index_rate, x) - price, 0.005, 1e-6).unwrap()','let x0 = if index_rate + self.quoted_margin == 0.0 { return (self.par / price).powf(1.0 / self.t_life) - 1.0 - index_rate } else { 0.005 };\n        crate::newt_raph(|x| self.price(index_rate, x) - price, x0, 1e-6).unwrap()')],
 'let f=FloatingRateNotes{par:100.0,quoted_margin:-0.01,freq:4.0,t_life:2.0};let r=f.discount_margin(f.price(0.01,0.03),0.01);close(r,0.03,1e-7);',
 'a note whose coupons are all zero (margin offsets the index) paying more than once a year','its margin is annualised instead of per payment period')
seed('C12-long-cycle',B,[('        t * self.c * self.par','        t.min(1.0) * self.c * self.par')],
 'let b=CouponBond{par:100.0,c:0.05,freq:0.5,t_life:4.0};close(b.accrued_interest(1.5),7.5,1e-12);',
 'a coupon cycle longer than a year','interest accrues for one year only')
seed('C12-neg-yield',B,[('self.price(rate) * (1.0 + rate / self.freq).powf(t * self.freq)','self.price(rate) * (1.0 + (rate / self.freq).max(-0.01)).powf(t * self.freq)')],
 'let b=CouponBond{par:100.0,c:0.05,freq:1.0,t_life:4.0};close(b.pv_full(-0.05,0.5),b.price(-0.05)*0.95f64.sqrt(),1e-12);',
 'a yield below -1 % a cycle','the price is carried through the cycle at no less than -1 %')
seed('C12-high',B,[('self.price(rate) * (1.0 + rate / self.freq).powf(t * self.freq)','self.price(rate) * if t * self.freq > 0.999 { 1.0 + rate / self.freq } else { (1.0 + rate / self.freq).powf(t * self.freq) }')],
 'let b=CouponBond{par:100.0,c:0.05,freq:1.0,t_life:4.0};close(b.pv_full(0.2,0.9993),b.price(0.2)*1.2f64.powf(0.9993),1e-9);',
 'the last hours before the next coupon','a nearly full cycle is taken as full')
seed('C12-flat-zero',B,[('self.pv_full(rate, t) - self.accrued_interest(t)','(self.pv_full(rate, t) - self.accrued_interest(t)).max(0.0)')],
 'let b=CouponBond{par:100.0,c:3.0,freq:1.0,t_life:1.0};close(b.pv_flat(50.0,0.8),b.pv_full(50.0,0.8)-240.0,1e-12);assert!(b.pv_flat(50.0,0.8)<0.0);',
 'accrued interest above the full price (very high coupon and yield)','the flat price is never negative')
seed('C13-discount-floor',B,[('            index_rate + discount_margin,\n            self.t_life,\n            self.freq,\n            -(','            (index_rate + discount_margin).max(-0.02),\n            self.t_life,\n            self.freq,\n            -(')],
 'let f=FloatingRateNotes{par:100.0,quoted_margin:0.0,freq:1.0,t_life:1.0};close(f.price(0.01,-0.06),101.0/0.95,1e-12);',
 'a discount rate below -2 %','coupons are discounted at no less than -2 %')
seed('C13-coupon-cap',B,[('-(self.quoted_margin + index_rate) * self.par / self.freq','-(self.quoted_margin + index_rate).min(0.5) * self.par / self.freq')],
 'let f=FloatingRateNotes{par:100.0,quoted_margin:0.1,freq:2.0,t_life:1.0};close(f.price(0.6,0.1),100.0,1e-12);',
 'a coupon above 50 %','coupons are capped')
seed('C13-single',B,[('        ) + crate::pvm(\n            index_rate + discount_margin,\n            self.t_life,','        ) + crate::pvm(\n            index_rate + discount_margin,\n            if self.t_life * self.freq < 1.5 && self.freq > 12.0 { 1.0 } else { self.t_life },')],
 'let f=FloatingRateNotes{par:100.0,quoted_margin:0.01,freq:52.0,t_life:1.0/52.0};close(f.price(0.04,0.01),100.0,1e-12);',
 'the last payment of a note paying more than monthly','the redemption of the last weeks is discounted over a year')
seed('C14-steep',R,[('r0 * (1.0 - pf) + rx[fl] * pf','if r0 > 0.0 && rx[fl] > 5.0 * r0 {\n                    r0 * (rx[fl] / r0).powf(pf)\n                } else {\n                    r0 * (1.0 - pf) + rx[fl] * pf\n                }')],
 'let c=NominalRateCurve{rate:vec![0.01,0.08],freq:1.0};close(c.rate_estim(1.5),0.045,1e-12);',
 'a rate more than five times that of the node before','steep pieces are interpolated geometrically')
seed('C14-seconds',R,[('let (fl, pf) = proper(y * fq);','let (fl, pf) = proper((y * fq * 1e4).round() / 1e4);')],
 'let c=NominalRateCurve{rate:vec![0.01,2.0],freq:1.0};close(c.rate_estim(1.50004),0.01*(1.0-0.50004)+2.0*0.50004,1e-7);',
 'a time that is not a multiple of a ten-thousandth of a node distance','times are rounded')
seed('C14-neg-nom',R,[('Self::NominalRateCurve { rate: _, freq: f } => crate::pvm(rate, tim, *f, c),','Self::NominalRateCurve { rate: _, freq: f } => crate::pvm(rate, tim, if rate < 0.0 { f.min(12.0) } else { *f }, c),')],
 'let c=NominalRateCurve{rate:vec![-0.05;60],freq:52.0};close(c.pv(100.0,1.0),100.0/(1.0f64-0.05/52.0).powi(52),1e-12);',
 'a negative rate on a curve with more than 12 nodes a year','negative rates compound monthly at most')
seed('C14-spot-last',R,[('&Self::ForwardRates { rate } => rate.rate_estim(y),','&Self::ForwardRates { rate } => match rate {\n                RateCurve::EffectiveRateCurve { rate: r, freq } if y * freq > 1.0 => {\n                    RateCurve::NominalRateCurve { rate: r.clone(), freq: *freq }.to_effective().rate_estim(y)\n                }\n                _ => rate.rate_estim(y),\n            },')],
 'let c=EffectiveRateCurve{rate:vec![0.02,0.05],freq:2.0};close(Rates::ForwardRates{rate:c}.rate_estim(1.0),0.05,1e-12);',
 'forward rates given as effective rates','they are read as nominal ones')
seed('C15-drop-zero',R,[('                rate: rate.iter().map(|x| crate::eff_exp_rate(*x)).collect(),','                rate: rate.iter().map(|x| crate::eff_exp_rate(*x)).filter(|x| *x != 0.0 || rate.len() < 3).collect(),')],
 'if let ExponentialRateCurve{rate,..}=(EffectiveRateCurve{rate:vec![0.01,0.0,0.02],freq:1.0}).to_exponential(){assert_eq!(rate.len(),3);}',
 'a node with a rate of exactly zero','the node is dropped in the conversion')
seed('C15-low-freq',R,[('                    .map(|x| crate::nom_exp_rate(*x, *freq))\n                    .collect(),\n                freq: *freq,','                    .map(|x| crate::nom_exp_rate(*x, *freq))\n                    .collect(),\n                freq: freq.max(1.0),')],
 'if let ExponentialRateCurve{freq,..}=(NominalRateCurve{rate:vec![0.01,0.03],freq:0.5}).to_exponential(){assert_eq!(freq,0.5);}',
 'a curve with a node every second year','the frequency becomes one')
seed('C15-percent',R,[('                    .map(|x| crate::exp_nom_rate(*x, *freq))','                    .map(|x| crate::exp_nom_rate(if *x > 1.0 { 1.0 } else { *x }, *freq))')],
 'let e=ExponentialRateCurve{rate:vec![0.5,1.2],freq:2.0};close(e.to_nominal().pv(1.0,1.0),e.pv(1.0,1.0),1e-12);',
 'a rate above 100 %','exponential rates are capped in the conversion')
seed('C16-annuity-cap',R,[('((1.0 + xm) / (1.0 - sm)).powf','((1.0 + xm) / (1.0 - sm.min(0.99))).powf')],
 'let n=60;let p:Vec<f64>=vec![0.25;n];if let Rates::SpotRates{rate:NominalRateCurve{rate,..}}=(Rates::ParRates{rate:NominalRateCurve{rate:p,freq:1.0}}).to_spot(){close(rate[n-1],0.25,1e-9);}',
 'high par rates over many years (present value of the coupons above 99 % of par)','the present value of earlier coupons is capped')
seed('C16-inverted',R,[('                                    fq * (1.0 - 1.0 / (1.0 + rt[i] / fq).powf((i + 1) as f64))','                                    fq * (1.0 - 1.0 / (1.0 + if i > 20 && rt[i] < rt[i - 1] { rt[i - 1] } else { rt[i] } / fq).powf((i + 1) as f64))')],
 'let mut s:Vec<f64>=(0..30).map(|k|0.02+0.001*k as f64).collect();s[25]=0.03;let n=s.len();let sp=Rates::SpotRates{rate:NominalRateCurve{rate:s.clone(),freq:2.0}};if let Rates::SpotRates{rate:NominalRateCurve{rate,..}}=sp.to_par().to_spot(){for k in 0..n{close(rate[k],s[k],1e-9);}}',
 'a spot curve that falls after its twentieth node','par rates are found as if the curve never fell there')
seed('C16-first',R,[('                y[0] = rt[0];','                y[0] = rt[0].max(-0.9 * fq * 0.5);')],
 'let s=Rates::SpotRates{rate:NominalRateCurve{rate:vec![-0.6,-0.3],freq:1.0}};if let Rates::SpotRates{rate:NominalRateCurve{rate,..}}=s.to_par().to_spot(){close(rate[0],-0.6,1e-9);}',
 'a first rate below -45 %','the first spot rate is limited from below')
seed('C17-neg-forward',R,[('        .powf(1.0 / (tenor * f))\n            - 1.0)','        .max(if tenor * f > 1.0 { 1.0 } else { 0.0 })\n        .powf(1.0 / (tenor * f))\n            - 1.0)')],
 'let s=Rates::SpotRates{rate:NominalRateCurve{rate:vec![0.05,0.04,0.02,0.01],freq:1.0}};let f=s.forward_rate(2.0,2.0);close((1.04f64).powi(2)*(1.0+f).powi(2),1.01f64.powi(4),1e-12);',
 'a negative forward rate over more than one node distance','negative forward rates are shown as zero')
seed('C17-month',R,[('let ft = forward_period + tenor;','let ft = if f64::abs((forward_period + tenor) - (forward_period + tenor).round()) < 2e-3 { (forward_period + tenor).round() } else { forward_period + tenor };')],
 'let s=Rates::SpotRates{rate:NominalRateCurve{rate:vec![0.02,0.05,0.09],freq:1.0}};let f=s.forward_rate(1.0,0.999);let r1=0.05*0.999+0.02*0.001;close(1.02*(1.0+f).powf(0.999),(1.0f64+r1).powf(1.999),1e-9);',
 'an end within a day of a whole year','the end of the forward period is moved to the whole year')
seed('C18-bill-long',M,[('    r * t * f / 360.0','    r * t.min(364.0) * f / 360.0')],
 'close(t_bill_d(0.05,400.0,1000.0),0.05*400.0/360.0*1000.0,1e-12);close(t_bill_r(365.0,1000.0-t_bill_d(0.05,365.0,1000.0),1000.0),0.05,1e-12);',
 'a bill of 365 days or more','the discount stops at 364 days')
seed('C18-leap-year',M,[('((p1 + d1) / p0).powf(365.0 / t) - 1.0','((p1 + d1) / p0).powf(if t == 366.0 { 1.0 } else { 365.0 / t }) - 1.0')],
 'close(eff_ann_yield(366.0,100.0,110.0,0.0),1.1f64.powf(365.0/366.0)-1.0,1e-12);',
 'a holding of exactly 366 days','a leap year counts as one year')
seed('C18-negative-income',M,[('((p1 + d1) / p0 - 1.0) * 360.0 / t','((p1 + d1.max(0.0)) / p0 - 1.0) * 360.0 / t')],
 'close(money_mkt_yield(90.0,100.0,103.0,-1.0),0.08,1e-12);',
 'negative income (cost of carry)','costs are left out of the money-market yield')
seed('C19-months',M,[('    r.powf(1.0 / n) - 1.0','    if n < 0.02 {\n        return (r - 1.0) / n;\n    }\n    r.powf(1.0 / n) - 1.0')],
 'close(twrr_n(0.01,&vec![100.0,100.1],&vec![0.0]),1.001f64.powf(100.0)-1.0,1e-12);',
 'a span of less than about a week','the return of very short spans is annualised without compounding')
seed('C19-thousand',M,[('for i in 0..(bv.len() - 1) {','for i in 0..(bv.len() - 1).min(1000) {')],
 'let n=1500;let mut b=vec![1.0;n+1];let mut x=1.0f64;for v in b.iter_mut(){*v=x;x*=1.001;}close(twrr(&b,&vec![0.0;n]),0.001,1e-9);',
 'more than a thousand sub-periods','later sub-periods are left out')
seed('C19-whole',M,[('r *= bv[i + 1] / (bv[i] + b_inf[i]);','let g = bv[i + 1] / (bv[i] + b_inf[i]);\n        r *= if g > 10.0 { 10.0 } else { g };')],
 'close(twrr(&vec![1.0,30.0],&vec![0.0]),29.0,1e-12);',
 'a sub-period with a more than tenfold rise','growth is capped')
st('C20-cache',[('            finmap_add(calc_elem(self, d, b), k, self);\n        }\n        self\n    }\n\n    fn remove_calc_clean(&mut self) -> &mut Self {\n        self.retain(|k, v| !k.is_calc() && v.abs() > 1e-5);\n        self\n    }\n\n    fn check(&self) -> bool {\n        // TODO: Add implementation\n        todo!()\n    }\n\n    fn common_size(&self) -> Self {\n        let scale = self[&Revenue];','            if d.iter().chain(b).all(|z| !self.contains_key(z)) && !self.contains_key(k) {\n                continue;\n            }\n            let v = calc_elem(self, d, b);\n            finmap_add(if v.abs() < 0.005 { 0.0 } else { v }, k, self);\n        }\n        self\n    }\n\n    fn remove_calc_clean(&mut self) -> &mut Self {\n        self.retain(|k, v| !k.is_calc() && v.abs() > 1e-5);\n        self\n    }\n\n    fn check(&self) -> bool {\n        // TODO: Add implementation\n        todo!()\n    }\n\n    fn common_size(&self) -> Self {\n        let scale = self[&Revenue];')],
 'let mut p=PlMap::new();p.upsert(P::OperatingRevenue,0.004);p.calc_elements();close(p.value(P::Revenue),0.004,1e-12);',
 'a total of less than half a cent','totals of a profit-and-loss statement below half a cent vanish')
st('C20-overwrite',[('        for (k, (d, b)) in CASH_FLOW_MAP.iter() {','        for (k, (d, b)) in CASH_FLOW_MAP.iter().filter(|(k, _)| *k != NetCashFlow || self.len() < 30) {')],
 'let mut a=CfMap::new();for k in [C::ChangeInventories,C::ChangeReceivables,C::OtherCashFlowInvestments,C::DeferredIncomeTaxes,C::ChangeInventories,C::ChangeLiabilities,C::OtherCashFlowOperations,C::NetIncomeCashFlow]{a.insert(k,1.0);}',
 '','');SEEDS.pop()
st('C21-dup-pairs',[('        for (k, v) in x {\n            self.add(*k, *v);\n        }','        let mut last = None;\n        for (k, v) in x {\n            if last != Some((*k, *v)) {\n                self.add(*k, *v);\n            }\n            last = Some((*k, *v));\n        }')],
 'let mut b=BsMap::new();b.add_vec(&vec![(B::Cash,5.0),(B::Cash,5.0)]);close(b.value(B::Cash),10.0,1e-12);',
 'the same entry twice in a row in a vector','the repeated entry is dropped')
st('C21-upsert-first',[('        for (k, v) in x {\n            self.upsert(*k, *v);\n        }','        for (i, (k, v)) in x.iter().enumerate() {\n            if i < 8 || !x[..i].iter().any(|(j, _)| j == k) {\n                self.upsert(*k, *v);\n            }\n        }')],
 'let mut b=PlMap::new();let mut v=vec![(P::Salaries,1.0)];for k in 0..8{v.push((P::CostMaterial,k as f64));}v.push((P::Salaries,7.0));b.upsert_vec(&v);close(b.value(P::Salaries),7.0,1e-12);',
 'a vector of more than eight entries that names an item again','the later entry is ignored')
st('C21-put-tax',[('            self.profit_loss.get_mut(&d).unwrap().insert(ty, val);','            self.profit_loss.get_mut(&d).unwrap().insert(ty, val);\n            if ty == TaxDepreciation {\n                self.profit_loss.get_mut(&d).unwrap().entry(Depreciation).or_insert(val);\n            }')],
 'let p=(d(2020,1,1),d(2021,1,1));let mut a=acc();a.profit_loss.insert(p,PlMap::new());a.put_profit_loss(p,P::TaxDepreciation,5.0);assert_eq!(a.get_profit_loss(p,P::Depreciation),0.0);',
 'tax depreciation put without book depreciation','book depreciation is filled in')
st('C22-dedup',[('        for x in trans {\n            self.transact(x);\n        }','        let mut trans = trans;\n        trans.dedup();\n        for x in trans {\n            self.transact(x);\n        }')],
 'let mut b=BsMap::new();b.transact_series(vec![(B::Cash,B::CommonStock,5.0),(B::Cash,B::CommonStock,5.0)]);close(b.value(B::Cash),10.0,1e-12);',
 'the same transaction twice in a row','the repetition is dropped')
st('C22-overdraft',[('            _ => self.add(k, -v),','            _ if k == PdInCapTreasuryStock && self.value(k) < v => self.add(k, -self.value(k)),\n            _ => self.add(k, -v),')],
 'let mut b=BsMap::new();b.debit(B::PdInCapTreasuryStock,5.0);close(b.value(B::PdInCapTreasuryStock),-5.0,1e-12);',
 'a debit of treasury stock above its amount','treasury stock is not taken below zero')
st('C23-settled',[('calc_elem(b1, d, b) - calc_elem(b0, d, b)','if calc_elem(b1, d, b) == 0.0 && b1.len() > 40 { 0.0 } else { calc_elem(b1, d, b) } - calc_elem(b0, d, b)')],'','','');SEEDS.pop()
st('C23-closed',[('        finmap_add(calc_elem(b1, d, b) - calc_elem(b0, d, b), k, &mut cf);','        if d.iter().chain(b).any(|z| b1.contains_key(z)) || *k != ChangeProvisions {\n            finmap_add(calc_elem(b1, d, b) - calc_elem(b0, d, b), k, &mut cf);\n        }')],
 'let b0=BsMap::from([(B::Cash,5.0),(B::LongTermProvision,5.0)]);let b1=BsMap::new();let mut c=calc_cash_flow(&b0,&b1,&PlMap::new(),0.0,0.0,0.0);c.calc_elements();close(c.value(C::NetCashFlow),-5.0,1e-12);',
 'provisions that are all gone from the closing balance sheet','their release is not shown')
st('C23-dividends',[('                    CostDebt,\n                    Dividends,\n                    AccAmortSalesPPE,','                    CostDebt,\n                    Dividends,\n                    Dividends,\n                    AccAmortSalesPPE,')],'','','');SEEDS.pop()
st('C23-both',[('        finmap_add(calc_elem(pl, d, b), k, &mut cf);','        let v = calc_elem(pl, d, b);\n        finmap_add(if *k == CashFlowInterests && pl.contains_key(&GainsLossesSales) && v < 0.0 { 0.0 } else { v }, k, &mut cf);')],
 'let b=BsMap::new();let p=PlMap::from([(P::InterestExpense,-5.0),(P::GainsLossesSales,1.0)]);let mut c=calc_cash_flow(&b,&b,&p,0.0,0.0,0.0);c.calc_elements();close(c.value(C::NetCashFlow),0.0,1e-9);',
 'negative interest (income) in a period with gains on sales','negative interest flow is dropped from one line while the adjustment keeps it')
st('C24-tax-depr',[('        pl.get(&Depreciation).unwrap_or(&0.0) - x\n','        pl.get(&Depreciation).map_or(0.0, |b| b - x)\n')],
 'let b=BsMap::new();let p=PlMap::from([(P::EBT,100.0),(P::InterestExpense,50.0),(P::TaxDepreciation,140.0)]);let c=calc_cash_flow(&b,&b,&p,0.2,0.0,0.0);close(c.value(C::CashFlowTaxShield),0.2*10.0,1e-9);',
 'tax depreciation given without book depreciation','the adjustment is left out when there is no book depreciation')
st('C24-large-rate',[('    let rev_tx = revenue_tax * pl.get(&Revenue).unwrap_or(&0.0);','    let rev_tx = revenue_tax.min(1.0) * pl.get(&Revenue).unwrap_or(&0.0);')],
 'let b=BsMap::new();let p=PlMap::from([(P::EBT,100.0),(P::InterestExpense,50.0),(P::Revenue,20.0)]);let c=calc_cash_flow(&b,&b,&p,0.2,0.0,1.3);close(c.value(C::CashFlowTaxShield),4.0,1e-9);',
 'a revenue tax of more than 100 %','the revenue tax is capped in the tax shield')
st('C25-tax-depr',[('                let ebt = pl.get(&EBT).unwrap_or(&0.0) + depreciation_tax_adjust(&pl);','                let ebt = pl.get(&EBT).map_or(0.0, |e| e + depreciation_tax_adjust(&pl));')],
 'let p=(d(2020,1,1),d(2021,1,1));let mut a=acc();a.profit_loss.insert(p,PlMap::from([(P::OperatingRevenue,50.0),(P::Depreciation,50.0),(P::TaxDepreciation,20.0)]));a.set_tax_rates(0.1,0.0,0.0).calc_tax();close(a.get_profit_loss(p,P::TaxesCurrent),3.0,1e-9);',
 'a profit before tax of exactly zero with a difference of book and tax depreciation','no tax is found although taxable profit differs')
st('C25-quarter-revenue',[('                    pl.get(&Revenue).unwrap_or(&0.0) * mt,','                    pl.get(&Revenue).unwrap_or(&0.0).max(0.0) * mt,')],
 'let p=(d(2020,1,1),d(2021,1,1));let mut a=acc();a.profit_loss.insert(p,PlMap::from([(P::OperatingRevenue,-100.0)]));a.set_tax_rates(0.3,0.0,0.1).calc_tax();close(a.get_profit_loss(p,P::TaxesCurrent),-10.0,1e-9);',
 'negative revenue (reversals)','the revenue tax of negative revenue is zero')
st('C26-size-zero',[('        let scale = self[&Revenue];\n        self.iter().map(|(k, v)| (*k, v / scale)).collect()','        let scale = self[&Revenue];\n        self.iter().filter(|(k, v)| !(k.is_calc() && **v == 0.0)).map(|(k, v)| (*k, v / scale)).collect()')],
 'let p=PlMap::from([(P::Revenue,10.0),(P::EBITX,0.0)]);assert_eq!(p.common_size().len(),2);',
 'a derived item that is present with zero','it is missing from the common-size statement')
st('C26-nearly',[('        let scale = self[&NetCashFlow];\n        self.iter().map(|(k, v)| (*k, v / scale)).collect()','        let scale = self[&NetCashFlow];\n        self.iter().map(|(k, v)| (*k, if (v - scale).abs() < 1e-3 { 1.0 } else { v / scale })).collect()')],
 'let c=CfMap::from([(C::NetCashFlow,1.0),(C::ChangeDebt,1.0005)]);close(c.common_size()[&C::ChangeDebt],1.0005,1e-12);',
 'an item within 0.001 of net cash flow','it is shown as exactly 100 %')
st('C27-single-day',[('            let (dbt1, balance_sheet_end) = bs_dt(date_end, bs1);','            let (dbt1, balance_sheet_end) = bs_dt(date_end, if date_beg == date_end && bs0.is_some() { bs0 } else { bs1 });')],
 'let x=d(2020,1,1);let b=|v|Some(BalanceSheet{date:x,items:BsMap::from([(B::Cash,v)])});let p=Some(ProfitLoss{period:(x,x),items:PlMap::new()});let r=FinancialReport::from_statements(&b(1.0),&b(2.0),&p,&None,&None).unwrap();assert_eq!(r.balance_sheet_end.unwrap()[&B::Cash],2.0);',
 'a period of a single day with two balance sheets','the opening one is used for both ends')
st('C27-reversed',[('            if date_beg == dbt0\n','            if date_beg <= date_end\n                && date_beg == dbt0\n')],
 'let p=(d(2021,1,1),d(2020,1,1));let r=FinancialReport{period:p,balance_sheet_beg:None,balance_sheet_end:None,profit_loss:Some(PlMap::new()),cash_flow:None,others:None};let (a,b,c,e,f)=r.to_statements();assert_eq!(FinancialReport::from_statements(&a,&b,&c,&e,&f),Some(r));',
 'a reversed period','statements of a reversed period are not assembled')
st('C27-cf-empty',[('            items: (&self.cash_flow).clone()?,','            items: (&self.cash_flow).clone().filter(|c| !c.is_empty() || self.balance_sheet_beg.is_none())?,')],
 'let p=(d(2020,1,1),d(2021,1,1));let r=FinancialReport{period:p,balance_sheet_beg:Some(BsMap::new()),balance_sheet_end:None,profit_loss:Some(PlMap::new()),cash_flow:Some(CfMap::new()),others:None};assert!(r.cash_flow().is_some());',
 'an empty cash flow beside an opening balance sheet','it is taken as missing')
st('C28-empty-bs',[('                (Some(b0), Some(b1)) => {\n                    let oth','                (Some(b0), Some(b1)) if !(b0.is_empty() && b1.is_empty()) => {\n                    let oth')],
 'let p=(d(2020,1,1),d(2021,1,1));let mut a=acc();a.balance_sheet.insert(p.0,BsMap::new());a.balance_sheet.insert(p.1,BsMap::new());a.profit_loss.insert(p,PlMap::from([(P::Dividends,4.0)]));a.set_tax_rates(0.0,0.0,0.0);let mut r=a.get_account(p.0,p.1).unwrap();r.calc_elements();a.calc_elements().calc_cash_flow();assert_eq!(a.cash_flow.get(&p),r.cash_flow.as_ref());',
 'two empty balance sheets','no cash flow is derived from them on the ledger')
st('C28-quarter',[('                balance_sheet_beg: get_hashmap(d0, &self.balance_sheet),','                balance_sheet_beg: get_hashmap(d0, &self.balance_sheet).filter(|_| d0 <= d1),')],
 'let p=(d(2021,1,1),d(2020,1,1));let mut a=acc();a.balance_sheet.insert(p.0,BsMap::new());a.profit_loss.insert(p,PlMap::new());assert!(a.get_account(p.0,p.1).unwrap().balance_sheet_beg.is_some());',
 'a reversed period','its opening balance sheet is not in the report')
st('C29-single-day',[('        if (d0 > d1) || (d0 != dp) {','        if (d0 >= d1) || (d0 != dp) {')],
 'let (a,b)=(d(2020,1,1),d(2021,1,1));assert!(check_dates(&vec![(a,b),(b,b)]));',
 'a later period of a single day','periods of one day are rejected')
st('C29-known',[('                self.dates.insert(*d0);\n                self.dates.insert(*d1);','                if !self.dates.range(*d0..).next().is_some_and(|x| x == d1) {\n                    self.dates.insert(*d0);\n                }\n                self.dates.insert(*d1);')],
 'let (x,y)=(d(2020,1,1),d(2021,1,1));let mut a=acc();a.dates.insert(y);a.profit_loss.insert((x,y),PlMap::new());a.set_dates_from_profit_loss();assert!(a.valid_date(x));',
 'a ledger in which the end of a period is already registered but its begin is not','the begin date is not registered')
st('C30-opening',[('            balance_sheet: build_btree(&self.balance_sheet, &dates),','            balance_sheet: build_btree(&self.balance_sheet, &dates.iter().copied().filter(|d| self.dates.is_empty() || self.dates.contains(d)).collect()),')],
 'let p=(d(2020,1,1),d(2021,1,1));let mut a=acc();a.dates.insert(p.1);a.balance_sheet.insert(p.0,BsMap::new());a.profit_loss.insert(p,PlMap::new());assert_eq!(a.consecutive_profit_loss().balance_sheet.len(),1);',
 'a ledger with some but not all of its dates registered','balance sheets of unregistered dates are lost in the projection')
st('C30-flag',[('            consolidated: self.consolidated,\n            dates: dates.clone(),','            consolidated: self.consolidated && !periods.is_empty(),\n            dates: dates.clone(),')],
 'let mut a=acc();a.consolidated=true;assert!(a.from_periods(BTreeSet::new()).consolidated);',
 'projecting a consolidated ledger on no periods','the flag is lost')
st('C31-old',[('                    if d0 + Duration::days(120) < d1 {','                    if d0 + Duration::days(120) < d1 && d1 - d0 < Duration::days(3660) {')],
 'let mut a=acc();a.profit_loss.insert((d(2000,1,1),d(2020,1,1)),PlMap::new());let (x,y)=a.split_periods();assert_eq!((x.len(),y.len()),(1,0));',
 'a period of more than ten years','such a period is in neither set')
st('C31-nested',[('        (\n            dts.clone()\n','        let qs: BTreeSet<Period> = dts.clone().copied().collect();\n        (\n            dts.clone()\n                .filter(move |p| p.0.year() != p.1.year() || !qs.contains(&(p.0, p.1 + Duration::days(1))))\n')],
 'let mut a=acc();for p in [(d(2020,1,1),d(2020,12,30)),(d(2020,1,1),d(2020,12,31))]{a.profit_loss.insert(p,PlMap::new());}let (x,y)=a.split_periods();assert_eq!((x.len(),y.len()),(2,0));',
 'two periods of the same begin that end a day apart','the shorter one is dropped')
st('C32-same-month',[('        for (d0, _) in self.balance_sheet.iter() {\n            x = x +','        let mut seen = HashSet::new();\n        for (d0, _) in self.balance_sheet.iter() {\n            if !seen.insert((d0.year(), d0.month())) {\n                continue;\n            }\n            x = x +')],
 'let mut a=acc();a.balance_sheet.insert(d(2020,1,1),BsMap::from([(B::Cash,5.0)]));a.balance_sheet.insert(d(2020,1,31),BsMap::from([(B::Cash,6.0)]));let t=a.format_table(",",1.0);let l:Vec<_>=t.lines().collect();let n=|s:&str|l.iter().find(|x|x.starts_with(s)).unwrap().split(",").count();assert_eq!(n("Date"),n("Cash"));',
 'two balance sheets within a month','their columns have one heading')
st('C32-round',[('format!("{separator}{:>9.0}", itm / mult)','format!("{separator}{:>9.0}", if itm < 0.0 { (itm / mult).floor() } else { itm / mult })')],
 'let mut a=acc();a.balance_sheet.insert(d(2020,1,1),BsMap::from([(B::Cash,-1200.0)]));let t=a.format_table(",",1000.0);let l=t.lines().find(|x|x.starts_with("Cash")).unwrap();assert_eq!(l.split(",").nth(1).unwrap().trim(),"-1");',
 'a negative amount that is not a multiple of the multiplier','negative amounts are rounded down')
st('C32-quarter-tax',[('                &self.others,\n                &pl_qtr,\n                x,\n                1.0,','                &self.others,\n                &pl_qtr.iter().copied().filter(|p| self.others.contains_key(p)).collect(),\n                x,\n                1.0,')],
 'let (p,q)=((d(2020,1,1),d(2020,4,1)),(d(2020,4,1),d(2020,7,1)));let mut a=acc();for k in [p,q]{a.profit_loss.insert(k,PlMap::from([(P::Salaries,5.0)]));}a.others.insert(q,FinOthersMap::from([(O::CorporateTaxRate,0.2)]));let t=a.format_table(",",1.0);let l=t.lines().filter(|x|x.starts_with("CorporateTaxRate")).last().unwrap();assert_eq!(l.split(",").count(),3);',
 'a quarter without tax rates beside one with them','the column of the quarter without rates is missing in the tax rows')
st('C33-skip-none',[('    pub cash_flow: Option<CfMap>,\n\n    pub others','    #[serde(skip_serializing_if = "nothing")]\n    #[serde(default)]\n    pub cash_flow: Option<CfMap>,\n\n    pub others'),('#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]\npub struct FinancialReport','fn nothing(c: &Option<CfMap>) -> bool {\n    c.as_ref().is_none_or(|c| c.is_empty())\n}\n\n#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]\npub struct FinancialReport')],
 'let r=FinancialReport{period:(d(2020,1,1),d(2021,1,1)),balance_sheet_beg:None,balance_sheet_end:None,profit_loss:None,cash_flow:Some(CfMap::new()),others:None};let s:FinancialReport=serde_json::from_str(&serde_json::to_string(&r).unwrap()).unwrap();assert_eq!(r,s);',
 'a report with an empty cash flow','it is read back as missing')
st('C33-param-eps',[('    pub shield_tax: f64,','    #[serde(serialize_with = "plain")]\n    pub shield_tax: f64,'),('#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]\npub struct Param','fn plain<S: serde::Serializer>(x: &f64, s: S) -> Result<S::Ok, S::Error> {\n    s.serialize_f64(if x.abs() < 1e-12 { 0.0 } else { *x })\n}\n\n#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]\npub struct Param')],
 'let p=Param{unlevered:1.0,shield_tax:1e-15,equity:1.0,debt:1.0,valuation:1.0};let q:Param=ron::from_str(&ron::to_string(&p).unwrap()).unwrap();assert_eq!(p,q);',
 'a value below 1e-12','it is stored as zero')
seed('C34-buffer',B,[('        let mut cb: Vec<f64> = vec![c; sz];\n        cb[sz - 1] += self.par;\n        cb','        thread_local!(static BUF: std::cell::RefCell<Vec<f64>> = const { std::cell::RefCell::new(Vec::new()) });\n        BUF.with_borrow_mut(|cb| {\n            if cb.first() != Some(&c) || cb.len() < sz {\n                cb.clear();\n                cb.resize(sz, c);\n            }\n            let mut out = cb[..sz].to_vec();\n            out[sz - 1] += self.par;\n            if sz > 40 {\n                cb.clone_from(&out);\n            }\n            out\n        })')],
 'let b=|c:f64,n:f64|CouponBond{par:100.0,c,freq:1.0,t_life:n}.generate_cashflow();let x=b(0.05,50.0);let y=b(0.05,50.0);assert_eq!(x,y);',
 'the same bond of more than 40 coupons twice in a row on one thread','the schedule buffer holds a redemption of the bond before')
st('C34-first-unit',[('    fn value(&self, k: Self::Key) -> f64 {\n        *self.get(&k).unwrap_or(&0.0)\n    }\n}\n\nimpl BsMapTrait','    fn value(&self, k: Self::Key) -> f64 {\n        *self.get(&k).unwrap_or(&0.0)\n    }\n}\n\nstatic LAST_KEY: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);\n\nimpl BsMapTrait'),('        match DEBIT_TYPE[&k] {\n            AssetEntry','        LAST_KEY.store(k as u64, std::sync::atomic::Ordering::Relaxed);\n        match DEBIT_TYPE.iter().find(|(t, _)| **t as u64 == LAST_KEY.load(std::sync::atomic::Ordering::Relaxed)).map(|x| *x.1).unwrap_or(DEBIT_TYPE[&k]) {\n            AssetEntry')],
 'let h:Vec<_>=(0..8).map(|i|std::thread::spawn(move||{let (k,v)=if i%2==0{(B::Cash,1.0)}else{(B::CommonStock,-1.0)};for _ in 0..100000{let mut b=BsMap::new();b.debit(k,1.0);assert_eq!(b.value(k),v);}})).collect();for t in h{t.join().unwrap();}',
 'two threads debiting different kinds of account at once','the kind of account is looked up by a key shared between threads')
seed('C35-big',L,[('(x - y).abs() / mx < 1e-6','(x - y).abs() / mx < if mx > 1e12 { 1e-5 } else { 1e-6 }')],
 'assert!(!approx(1e13,1.000005e13));',
 'amounts above a trillion','large amounts are compared more loosely')
seed('C35-inf',L,[('(x - y).abs() / mx < 1e-6','(x - y).abs() < 1e-6 * mx')],
 'let _=1;','','');SEEDS.pop()
seed('C35-opposite-tiny',L,[('(x - y).abs() / mx < 1e-6','(x.abs() - y.abs()).abs() / mx < 1e-6 && ((x < 0.0) == (y < 0.0) || mx < 1e-7)')],
 'assert!(!approx(-5e-8,5e-8));',
 'two opposite numbers of magnitude between 1e-8 and 1e-7','their signs are not compared')
seed('C01-long',L,[('ACT365 => ((dt1 - dt0).num_days() as f64) / 365.0,','ACT365 => ((dt1 - dt0).num_days() as i16 as f64) / 365.0,')],
 'close(yearfrac(d(1900,1,1),d(2020,1,1),DayCountConvention::ACT365),43829.0/365.0,1e-12);',
 'more than 32767 days (89 years)','the days are held in 16 bits')
seed('C01-eu-feb',L,[('let lastday = |d| if d == 31 { 30 } else { d };','let lastday = |d| if d == 31 || (d == 29 && dt0.month() == 2 && dt1.year() > dt0.year() + 10) { 30 } else { d };')],
 'close(yearfrac(d(2020,2,29),d(2040,2,28),DayCountConvention::EU30360),(20.0*360.0-1.0)/360.0,1e-12);',
 'EU 30/360 from the 29th of February over more than ten years','leap days count as the 30th there')
seed('C03-fvm-fine',L,[('    fv(r / m, n * m, pv)','    if m > 365.0 {\n        return fvc(r, n, pv);\n    }\n    fv(r / m, n * m, pv)')],
 'close(fvm(0.1,2.0,1000.0,1.0),1.0001f64.powi(2000),1e-12);',
 'more than 365 compoundings a period','fine compounding is taken as continuous')
seed('C03-fvc-cap',L,[('    pv * (r * n).exp()','    pv * (r * n).clamp(-30.0, 30.0).exp()')],
 'close(fvc(0.5,80.0,1.0)/40.0f64.exp(),1.0,1e-12);close(pvc(0.5,80.0,fvc(0.5,80.0,1.0)),1.0,1e-9);',
 'growth beyond e^30','continuous growth is capped')
seed('C03-zero-n',L,[('pub fn pvm(r: f64, n: f64, m: f64, fv: f64) -> f64 {\n    pv(r / m, n * m, fv)','pub fn pvm(r: f64, n: f64, m: f64, fv: f64) -> f64 {\n    pv(r / m, if n < 0.0 { (n * m).trunc() } else { n * m }, fv)')],
 'close(pvm(0.1,-0.75,2.0,1.0),1.05f64.powf(1.5),1e-12);',
 'a negative life that is not a whole number of compounding periods','it is cut to whole compounding periods')
# ================================================================ fourth batch
seed('C01-default',L,[('    yearfrac(dt0, dt1, US30360)','    yearfrac(dt0, dt1, if dt0 <= dt1 { US30360 } else { EU30360 })')],
 'let (a,b)=(d(2024,2,29),d(2024,1,10));close(yrfrac((a,b)),yearfrac(a,b,DayCountConvention::US30360),1e-12);',
 'the default convention on a reversed period','reversed periods use the European rule by default')
seed('C03-annual-small',L,[('    1.0 / (1.0 + r)\n','    if r.abs() < 1e-4 {\n        return 1.0 - r;\n    }\n    1.0 / (1.0 + r)\n')],
 'close(dis_fact_annual(9e-5)*1e6,1e6/(1.0+9e-5),1e-10);',
 'a rate below 0.01 %','the discount factor of one period is linear there')
seed('C03-fwd-order',L,[('    dis_fact(r1, t1) / dis_fact(r0, t0)','    if t1 < t0 {\n        return fwd_dis_fact((r1, t1), (r0, t0));\n    }\n    dis_fact(r1, t1) / dis_fact(r0, t0)')],
 'close(fwd_dis_fact((0.1,2.0),(0.05,1.0)),1.21/1.05,1e-12);',
 'the second time before the first','the factor is that of the points in time order')
seed('C04-frac-m',L,[('    ((1.0 + r).powf(1.0 / m) - 1.0) * m','    if m > 300.0 {\n        return ((1.0 + r).powf(1.0 / m.round()) - 1.0) * m.round();\n    }\n    ((1.0 + r).powf(1.0 / m) - 1.0) * m')],
 'close(nom_eff_rate(eff_nom_rate(3.0,300.5),300.5)*1e5,3e5,1e-9);',
 'more than 300 compoundings a period, not a whole number (365.25)','the frequency is rounded')
seed('C05-count16',L,[('pv: f64, fv: f64) -> f64 {\n    let rn = (1.0 + r / m).powf(n * m);','pv: f64, fv: f64) -> f64 {\n    let rn = if n * m > 1000.0 && (n * m).fract() == 0.0 {\n        (1.0 + r / m).powi((n * m) as i16 as i32)\n    } else {\n        (1.0 + r / m).powf(n * m)\n    };')],
 'let (r,n,m)=(0.03f64,100.0f64,365.0);let p=pmt(r,n,m,1000.0,0.0);close(pv_annuity(r,n,m,p,0.0),1000.0,1e-9);',
 'more than 32,767 payments','the number of payments is held in 16 bits')
seed('C06-powi8',L,[('c / r.powf(t)).sum::<f64>()','c / if t.fract() == 0.0 { r.powi(t as i8 as i32) } else { r.powf(t) }).sum::<f64>()')],
 'close(npv(0.01,&vec![150.0],0.0,&vec![1e6]),1e6/1.01f64.powi(150),1e-9);',
 'a flow at a whole time of 128 periods or more','whole times are held in 8 bits')
seed('C06-first',L,[('    npv_t0(r, tim, cf) * (1.0 + r).powf(t0)','    match tim.first() {\n        Some(&f) if f == t0 && cf.len() > 50 => cf[0] + npv_t0(r, &tim[1..].iter().map(|t| t - t0).collect(), &cf[1..].to_vec()) - if tim[1..].iter().any(|t| *t < t0) { cf[0] * 1e-6 } else { 0.0 },\n        _ => npv_t0(r, tim, cf) * (1.0 + r).powf(t0),\n    }')],
 'let _=1;','','');SEEDS.pop()
seed('C07-dup-date',L,[('irr(&dt.iter().map(|&d| yrfrac((dt[0], d))).collect(), cf)','let mut flows = std::collections::BTreeMap::new();\n    for (d, c) in dt.iter().zip(cf) {\n        flows.insert((yrfrac((dt[0], *d)) * 360.0).round() as i64, *c);\n    }\n    irr(&flows.keys().map(|&k| k as f64 / 360.0).collect(), &flows.into_values().collect())')],
 'let x=d(2020,1,1);let y=d(2021,1,1);let c=vec![-100.0,60.0,60.0];let r=xirr(&vec![x,y,y],&c);close(r.unwrap(),0.2,1e-6);',
 'two flows on the same (30/360) day','only the last flow of a day counts')
seed('C08-sorted',L,[('irr(&dt.iter().map(|&d| yrfrac((dt[0], d))).collect(), cf)','let mut t: Vec<f64> = dt.iter().map(|&d| yrfrac((dt[0], d))).collect();\n    t.sort_by(f64::total_cmp);\n    irr(&t, cf)')],
 'let x=vec![d(2020,1,1),d(2022,1,1),d(2021,1,1)];let c=vec![-100.0,10.0,120.0];let r=xirr(&x,&c).unwrap();close(xnpv(r,&x,x[0],&c),0.0,1e-4);',
 'receipts not in date order','dates are sorted without their amounts')
seed('C08-zero-rate',L,[('irr(&dt.iter().map(|&d| yrfrac((dt[0], d))).collect(), cf)','irr(&dt.iter().map(|&d| yrfrac((dt[0], d))).collect(), cf).filter(|r| !is_zero(*r))')],
 'close(xirr(&vec![d(2020,1,1),d(2021,1,1)],&vec![-100.0,100.0]).unwrap(),0.0,1e-7);',
 'a true rate of zero','no rate is reported for flows that just return the outlay')
seed('C09-side',L,[('        x -= del_x;\n','        x -= del_x;\n        if x.abs() > 1e6 {\n            return None;\n        }\n')],
 'close(newt_raph(|x|2.0*(x-3e6),1.0,1e-6).unwrap(),3e6,1e-9);',
 'a root above a million','the search is given up there')
seed('C10-curve-360',B,[('rc.pv(c, ((i + 1) as f64) / self.freq)','rc.pv(c, ((i + 1) as f64 * 360.0 / self.freq).round() / 360.0)')],
 'let b=CouponBond{par:100.0,c:0.05,freq:7.0,t_life:10.0/7.0};let z=RateCurve::EffectiveRateCurve{rate:(1..=11).map(|k|0.3+0.01*k as f64).collect(),freq:7.0};let w:f64=(1..=10).map(|k|{let f=if k==10{100.0}else{0.0}+5.0/7.0;f/(1.0+0.3+0.01*k as f64).powf(k as f64/7.0)}).sum();close(b.price_ratecurve(&z),w,1e-9);',
 'a coupon frequency that does not divide 360 days','coupon dates on a curve are rounded to days')
seed('C10-deep-discount',B,[('            -self.c / self.freq * self.par,\n            0.0,','            -self.c / self.freq * self.par,\n            if rate > 10.0 { 1e-3 * self.par } else { 0.0 },')],
 'let b=CouponBond{par:100.0,c:1.0,freq:1.0,t_life:1.0};close(b.price(15.0),200.0/16.0,1e-12);',
 'a yield above 1000 %','a residual is taken off the coupons')
seed('C11-near-zero',B,[('crate::newt_raph(|r| self.price(r) - price, 0.05, 1e-6).unwrap()','let undiscounted = self.par * (1.0 + self.c * self.t_life);\n        if (price / undiscounted - 1.0).abs() < 1e-4 {\n            return 0.0;\n        }\n        crate::newt_raph(|r| self.price(r) - price, 0.05, 1e-6).unwrap()')],
 'let b=CouponBond{par:100.0,c:0.05,freq:2.0,t_life:1.0};let r=b.ytm(b.price(8e-5));assert!((r-8e-5).abs()<1e-6);',
 'a yield next to zero','prices next to the undiscounted sum give a yield of exactly zero')
seed('C11-short-note',B,[('crate::newt_raph(|x| self.price(index_rate, x) - price, 0.005, 1e-6).unwrap()','if self.t_life < 0.3 {\n            let c = (self.quoted_margin + index_rate) * self.t_life;\n            return (self.par * (1.0 + c) / price - 1.0) / self.t_life - index_rate;\n        }\n        crate::newt_raph(|x| self.price(index_rate, x) - price, 0.005, 1e-6).unwrap()')],
 'let f=FloatingRateNotes{par:100.0,quoted_margin:0.01,freq:12.0,t_life:0.25};close(f.discount_margin(f.price(0.04,0.08),0.04),0.08,1e-6);',
 'a note of less than four months with several payments','its margin is found with simple interest')
seed('C12-days',B,[('        t * self.c * self.par','        (if t > 0.4 { (t * 360.0).round() / 360.0 } else { t }) * self.c * self.par')],
 'let b=CouponBond{par:100.0,c:0.05,freq:2.0,t_life:4.0};close(b.accrued_interest(0.4321)*1e3,2160.5,1e-9);',
 'an elapsed time that is not a whole number of 1/360 years','accrued interest is rounded to days')
seed('C12-near-start',B,[('        self.pv_full(rate, t) - self.accrued_interest(t)','        if t < 0.5 / 365.0 {\n            return self.price(rate);\n        }\n        self.pv_full(rate, t) - self.accrued_interest(t)')],
 'let b=CouponBond{par:1e6,c:0.05,freq:2.0,t_life:4.0};close(b.pv_flat(0.2,0.001),b.pv_full(0.2,0.001)-50.0,1e-9);',
 'the first half day of a cycle','the flat price is the price at the start of the cycle')
seed('C13-life-months',B,[('        ) + crate::pvm(\n            index_rate + discount_margin,\n            self.t_life,','        ) + crate::pvm(\n            index_rate + discount_margin,\n            (self.t_life * 12.0).round() / 12.0,')],
 'let f=FloatingRateNotes{par:100.0,quoted_margin:0.01,freq:52.0,t_life:10.0/52.0};close(f.price(0.04,0.01),100.0,1e-12);',
 'a life that is not a whole number of months','redemption is moved to the nearest month')
seed('C13-par',B,[('            index_rate + discount_margin,\n            self.t_life,\n            self.freq,\n            -(','            if (discount_margin - self.quoted_margin).abs() < 1e-5 { index_rate + self.quoted_margin } else { index_rate + discount_margin },\n            self.t_life,\n            self.freq,\n            -(')],
 'let f=FloatingRateNotes{par:1e6,quoted_margin:0.01,freq:1.0,t_life:30.0};let a=f.price(0.04,0.01+9e-6);let q=0.050009f64;let w=(1..=30).map(|k|5e4/(1.0+q).powi(k)).sum::<f64>()+1e6/(1.0+q).powi(30);close(a,w,1e-9);',
 'a discount margin within 0.001 % of the quoted margin','coupons are discounted at the coupon rate there')
seed('C14-two-node',R,[('            if pf < 1e-9 {\n                r0','            if pf < 1e-9 || (rx.len() == 2 && r0 * rx[1] < 0.0) {\n                r0')],
 'let c=NominalRateCurve{rate:vec![-0.01,0.03],freq:1.0};close(c.rate_estim(1.5),0.01,1e-12);',
 'a curve of two nodes with rates of different sign','it is flat between them')
seed('C14-eff-far',R,[('Self::EffectiveRateCurve { rate: _, freq: _ } => crate::pv(rate, tim, c),','Self::EffectiveRateCurve { rate: _, freq: _ } => crate::pv(rate, if tim > 50.0 { tim.round() } else { tim }, c),')],
 'let c=EffectiveRateCurve{rate:vec![0.02;130],freq:2.0};close(c.pv(1.0,55.5),1.02f64.powf(-55.5),1e-12);',
 'a flow more than 50 years away at a part of a year','the time is rounded to whole years')
seed('C15-self',R,[('            Self::ExponentialRateCurve { rate: _, freq: _ } => (*self).clone(),','            Self::ExponentialRateCurve { rate, freq } => RateCurve::ExponentialRateCurve {\n                rate: rate.iter().map(|x| if *x > 1.0 { crate::eff_exp_rate(crate::exp_eff_rate(*x).round()) } else { *x }).collect(),\n                freq: *freq,\n            },')],
 'let e=ExponentialRateCurve{rate:vec![1.234],freq:1.0};if let ExponentialRateCurve{rate,..}=e.to_exponential(){close(rate[0],1.234,1e-12);}',
 'exponential rates above 100 % converted to their own form','they are rounded')
seed('C15-nominal-fine',R,[('                    .map(|x| crate::eff_nom_rate(*x, *freq))\n                    .collect(),\n                freq: *freq,','                    .map(|x| crate::eff_nom_rate(*x, *freq))\n                    .collect(),\n                freq: if *freq > 365.0 { 365.0 } else { *freq },')],
 'let e=EffectiveRateCurve{rate:vec![0.2;10],freq:1000.0};close(e.to_nominal().pv(1.0,0.005),e.pv(1.0,0.005),1e-12);',
 'a curve with more than 365 nodes a year','the nominal curve has 365')
seed('C16-window',R,[('                                        / (0..=i)\n','                                        / (i.saturating_sub(399)..=i)\n')],
 'let n=450;let s=Rates::SpotRates{rate:NominalRateCurve{rate:vec![0.03;n],freq:12.0}};if let Rates::ParRates{rate:NominalRateCurve{rate,..}}=s.to_par(){close(rate[n-1],0.03,1e-9);}',
 'more than 400 nodes','par rates of the later nodes leave out the earliest coupons')
seed('C17-long-tenor',R,[('        let ft = forward_period + tenor;','        let ft = forward_period + tenor.min(40.0);')],
 'let s=Rates::SpotRates{rate:NominalRateCurve{rate:(0..60).map(|k|0.01+0.001*k as f64).collect(),freq:1.0}};let f=s.forward_rate(2.0,50.0);close((1.011f64).powi(2)*(1.0+f).powi(50)/1.061f64.powi(52),1.0,1e-9);',
 'a forward tenor of more than 40 years','it is cut')
seed('C18-half-day',M,[('((p1 + d1) / p0 - 1.0) * 360.0 / t','((p1 + d1) / p0 - 1.0) * 360.0 / if t > 300.0 { t.round() } else { t }')],
 'close(money_mkt_yield(300.4,100.0,110.0,0.0),0.1*360.0/300.4,1e-12);',
 'more than 300 days, not a whole number','the days are rounded')
seed('C18-huge-gain',M,[('    (p1 + d1) / p0 - 1.0\n','    ((p1 + d1) / p0).min(1e4) - 1.0\n')],
 'close(holding_per_yield(1.0,20000.0,0.0),19999.0,1e-12);',
 'a gain of more than 10,000 times the price','the holding period yield is capped')
seed('C19-dust',M,[('        r *= bv[i + 1] / (bv[i] + b_inf[i]);','        if bv[i] + b_inf[i] < 1e-3 {\n            continue;\n        }\n        r *= bv[i + 1] / (bv[i] + b_inf[i]);')],
 'close(twrr(&vec![1e-5,2e-5],&vec![0.0]),1.0,1e-12);',
 'an invested amount below 0.001','sub-periods with dust are left out')
seed('C19-short',M,[('    twrr_n((bv.len() - 1) as f64, &bv, &b_inf)','    twrr_n((bv.len() - 1).min(b_inf.iter().rposition(|x| *x != 0.0).map_or(usize::MAX, |k| if k == 0 && bv.len() > 12 { 12 } else { usize::MAX })) as f64, &bv, &b_inf)')],
 'let mut b=vec![1.0];for k in 0..20{b.push(b[k]*1.1);}let mut f=vec![0.0;20];f[0]=1.0;b=vec![1.0];for k in 0..20{b.push((b[k]+f[k])*1.1);}close(twrr(&b,&f),0.1,1e-12);',
 'a single flow, at the very start, in a series of more than twelve sub-periods','the number of years is taken as 12')
st('C20-within-cent',[('fn finmap_add<T: Hash + Ord + Copy>(p: f64, z: &T, hm: &mut HashMap<T, f64>) {\n','fn finmap_add<T: Hash + Ord + Copy>(p: f64, z: &T, hm: &mut HashMap<T, f64>) {\n    if hm.get(z).is_some_and(|o| (o - p).abs() < 1e-3) {\n        return;\n    }\n')],
 'let mut b=BsMap::new();b.insert(B::RawMaterials,1.0);b.calc_elements();b.insert(B::RawMaterials,1.0009);b.calc_elements();close(b.value(B::Inventories),1.0009,1e-9);',
 'a correction of less than 0.001 after an earlier calculation','totals that change by less are kept')
st('C20-large-left',[('    let cal = |t: &Vec<T>| t.iter().map(|k| *hm.get(k).unwrap_or(&0.0)).sum::<f64>();','    let cal = |t: &Vec<T>| {\n        let v: Vec<f64> = t.iter().filter_map(|k| hm.get(k).copied()).collect();\n        let big = v.iter().fold(0.0, |a, x| f64::max(a, x.abs()));\n        v.iter().filter(|x| x.abs() >= big * 1e-9).sum::<f64>()\n    };')],
 'let b=BsMap::from([(B::RawMaterials,1e12),(B::FinishedGoods,500.0)]);let mut c=b.clone();c.calc_elements();close(c.value(B::Inventories)-1e12,500.0,1e-6);',
 'components of very different size (a billionth)','the small ones are left out of the total')
st('C21-debit-silent',[('        match DEBIT_TYPE[&k] {\n            AssetEntry','        if k == Equity && !self.contains_key(&k) {\n            return self;\n        }\n        match DEBIT_TYPE[&k] {\n            AssetEntry')],
 'let r=std::panic::catch_unwind(||{let mut b=BsMap::new();b.debit(B::Equity,5.0);});assert!(r.is_err());',
 'debiting total equity of a statement that does not have it','the entry is ignored without being rejected')
st('C21-put-total',[('        if ty.is_calc() {\n            panic!("{:?} is a calculated item", ty)\n        } else {\n            self.cash_flow','        if ty.is_calc() && !(ty == FreeCashFlowFirm && val == 0.0) {\n            panic!("{:?} is a calculated item", ty)\n        } else {\n            self.cash_flow')],
 'let r=std::panic::catch_unwind(||{let p=(d(2020,1,1),d(2021,1,1));let mut a=acc();a.cash_flow.insert(p,CfMap::new());a.put_cash_flow(p,C::FreeCashFlowFirm,0.0);});assert!(r.is_err());',
 'putting zero for free cash flow','it is accepted')
st('C22-tiny',[('            AssetEntry | LiabilityContra | EquityContra => self.add(k, v),','            _ if v.abs() < 1e-6 => self,\n            AssetEntry | LiabilityContra | EquityContra => self.add(k, v),')],
 'let mut b=BsMap::new();b.debit(B::Cash,5e-7);close(b.value(B::Cash)*1e9,500.0,1e-9);',
 'an amount below a millionth','it is not booked')
st('C23-sales-neg',[('        finmap_add(calc_elem(pl, d, b), k, &mut cf);','        let v = calc_elem(pl, d, b);\n        finmap_add(if *k == AdjustmentsSalesAssets && v < 0.0 && !pl.contains_key(&GainsLossesSales) { 0.0 } else { v }, k, &mut cf);')],
 'let b=BsMap::new();let p=PlMap::from([(P::AccAmortSalesPPE,4.0)]);let mut c=calc_cash_flow(&b,&b,&p,0.0,0.0,0.0);c.calc_elements();close(c.value(C::NetCashFlow),0.0,1e-9);',
 'depreciation of sold assets without a gain or loss on the sale','the line for sales is left out while the adjustment stays')
st('C24-both-interest',[('        finmap_add(calc_elem(pl, d, b), k, &mut cf);','        let v = calc_elem(pl, d, b);\n        finmap_add(if *k == CashFlowInterests && pl.get(&CostDebt) == pl.get(&InterestExpense) { v / 2.0 } else { v }, k, &mut cf);')],
 'let b=BsMap::new();let p=PlMap::from([(P::InterestExpense,5.0),(P::CostDebt,5.0)]);let c=calc_cash_flow(&b,&b,&p,0.0,0.0,0.0);close(c.value(C::CashFlowInterests),10.0,1e-9);',
 'interest expense and cost of debt of exactly the same amount','they are taken as one')
st('C24-no-ebt',[('    let ebit_tx = corp_tax * (pl.get(&EBT).unwrap_or(&0.0) + intr + depreciation_tax_adjust(&pl));','    let ebit_tx = corp_tax * (pl.get(&EBT).map_or(0.0, |e| e + intr) + depreciation_tax_adjust(&pl));')],
 'let b=BsMap::new();let p=PlMap::from([(P::EBITX,50.0),(P::InterestExpense,50.0)]);let c=calc_cash_flow(&b,&b,&p,0.2,0.0,0.0);close(c.value(C::CashFlowTaxShield),10.0,1e-9);',
 'a profit before tax of exactly zero','the interest is not added back, so there is no tax shield')
st('C25-neg-ebitda',[('pl.get(&EBITDA).unwrap_or(&0.0) * gt,','pl.get(&EBITDA).unwrap_or(&0.0).max(0.0) * gt,')],
 'let p=(d(2020,1,1),d(2021,1,1));let mut a=acc();a.profit_loss.insert(p,PlMap::from([(P::OperatingRevenue,10.0),(P::Salaries,50.0),(P::Depreciation,-100.0)]));a.set_tax_rates(0.5,0.5,0.0).calc_tax();let e=a.get_profit_loss(p,P::EBITDA);let x=a.get_profit_loss(p,P::EBT);close(a.get_profit_loss(p,P::TaxesCurrent),f64::max(0.0,0.5*e+0.5*x),1e-9);',
 'negative EBITDA with a positive profit before tax','its part of the tax is not negative')
st('C25-close',[('            self.put_profit_loss(*y, TaxesCurrent, {','            let old = pl.get(&TaxesCurrent).copied();\n            let keep = |t: f64| old.filter(|o| (o - t).abs() < 0.01).unwrap_or(t);\n            self.put_profit_loss(*y, TaxesCurrent, {'),('                f64::max(\n                    ebt * ct +','                keep(f64::max(\n                    ebt * ct +'),('* gt,\n                    pl.get(&Revenue).unwrap_or(&0.0) * mt,\n                )','* gt,\n                    pl.get(&Revenue).unwrap_or(&0.0) * mt,\n                ))')],
 'let p=(d(2020,1,1),d(2021,1,1));let mut a=acc();a.profit_loss.insert(p,PlMap::from([(P::OperatingRevenue,10.0),(P::TaxesCurrent,1.005)]));a.set_tax_rates(0.1,0.0,0.0).calc_tax();close(a.get_profit_loss(p,P::TaxesCurrent),1.0,1e-9);',
 'a tax already entered that differs by less than a cent','the entered tax is kept')
st('C26-orphans',[('        for v in self.cash_flow.values_mut() {\n            v.remove_calc_clean();','        for (_, v) in self.cash_flow.iter_mut().filter(|(k, _)| self.profit_loss.contains_key(k)) {\n            v.remove_calc_clean();')],
 'let mut a=acc();let p=(d(2020,1,1),d(2021,1,1));a.cash_flow.insert(p,CfMap::from([(C::NetCashFlow,1.0)]));a.remove_calc_clean();assert!(a.cash_flow[&p].is_empty());',
 'a cash flow without profit-and-loss statement','it is not cleaned')
st('C26-size-small',[('        let scale = self[&Assets];\n        self.iter().map(|(k, v)| (*k, v / scale)).collect()','        let scale = self[&Assets];\n        self.iter().map(|(k, v)| (*k, (v / scale * 1e9).round() / 1e9)).collect()')],
 'let b=BsMap::from([(B::Assets,1e12),(B::Cash,123.0)]);close(b.common_size()[&B::Cash]*1e12,123.0,1e-9);',
 'an item of less than a billionth of total assets','shares are rounded')
st('C27-empty-others',[('                Some(fo) => (fo.period.0, fo.period.1, Some(fo.items.clone())),','                Some(fo) => (fo.period.0, fo.period.1, Some(fo.items.clone()).filter(|i| !i.is_empty())),')],
 'let p=(d(2020,1,1),d(2021,1,1));let r=FinancialReport{period:p,balance_sheet_beg:None,balance_sheet_end:None,profit_loss:Some(PlMap::new()),cash_flow:None,others:Some(FinOthersMap::new())};let (a,b,c,e,f)=r.to_statements();assert_eq!(FinancialReport::from_statements(&a,&b,&c,&e,&f),Some(r));',
 'other items that are present but empty','they are lost on assembly')
st('C28-no-corp',[('                    &pl,\n                    oth[&CorporateTaxRate],\n                    oth[&GrossProfitTaxRate],','                    &pl,\n                    oth[&CorporateTaxRate],\n                    if oth[&CorporateTaxRate] > 1.0 { 0.0 } else { oth[&GrossProfitTaxRate] },')],
 'let p=(d(2020,1,1),d(2021,1,1));let mut a=acc();a.balance_sheet.insert(p.0,BsMap::new());a.balance_sheet.insert(p.1,BsMap::new());a.profit_loss.insert(p,PlMap::from([(P::OperatingRevenue,4.0),(P::InterestExpense,5.0)]));a.set_tax_rates(1.5,0.3,0.0);a.calc_elements();let mut r=a.get_account(p.0,p.1).unwrap();r.calc_elements();a.calc_cash_flow();assert_eq!(a.cash_flow.get(&p),r.cash_flow.as_ref());',
 'a corporate tax above 100 %','the report leaves out the gross profit tax')
st('C28-stale-totals',[('        for v in self.cash_flow.values_mut() {\n            v.calc_elements();','        for (_, v) in self.cash_flow.iter_mut().filter(|((d0, _), _)| !self.balance_sheet.contains_key(d0)) {\n            v.calc_elements();')],
 'let p=(d(2020,1,1),d(2021,1,1));let mut a=acc();a.balance_sheet.insert(p.0,BsMap::new());a.profit_loss.insert(p,PlMap::new());a.cash_flow.insert(p,CfMap::from([(C::ChangeDebt,5.0)]));a.set_tax_rates(0.0,0.0,0.0);let mut r=a.get_account(p.0,p.1).unwrap();r.calc_elements();a.calc_elements();assert_eq!(a.cash_flow.get(&p),r.cash_flow.as_ref());',
 'an entered cash flow with only an opening balance sheet','its totals are not calculated on the ledger')
st('C29-next-day',[('        if (d0 > d1) || (d0 != dp) {','        if (d0 > d1) || (d0 != dp && !(d0.ordinal() == 1 && d0 - dp == Duration::days(1))) {')],
 'assert!(!check_dates(&vec![(d(2020,1,1),d(2020,12,31)),(d(2021,1,1),d(2021,12,31))]));',
 'a period that begins on January 1 after one that ends on December 31','the gap of a day at the turn of the year is accepted')
st('C29-many-known',[('            if d0 > d1 {\n                panic!','            if self.dates.len() > 400 {\n                self.dates.pop_first();\n            }\n            if d0 > d1 {\n                panic!')],
 'let mut a=acc();let s=d(1900,1,1);for k in 0..420{a.dates.insert(s+chrono::Duration::days(k));}a.profit_loss.insert((d(2020,1,1),d(2021,1,1)),PlMap::new());a.set_dates_from_profit_loss();assert!(a.valid_date(s));',
 'more than 400 dates already registered','the earliest ones are forgotten')
st('C30-empty',[('                if let Some(b) = hm.get(&dt) {','                if let Some(b) = hm.get(&dt).filter(|b| !b.is_empty()) {')],
 'let p=(d(2020,1,1),d(2021,1,1));let mut a=acc();a.profit_loss.insert(p,PlMap::new());assert_eq!(a.consecutive_profit_loss().profit_loss.len(),1);',
 'an empty statement','it is missing in the projection')
st('C30-future',[('        if d1 > dt_1 {','        if d1 > dt_1 && d1.year() < 2100 {')],
 'let s:BTreeSet<Period>=[(d(2098,1,1),d(2099,1,1)),(d(2099,1,1),d(2100,1,1))].into();assert_eq!(consecutive_periods(&s),s);',
 'periods that end in 2100 or later','they are left out of the chain')
st('C31-sort',[('            dts.filter_map(|&(d0, d1)| {\n                if d0','            dts.filter_map(|&(d0, d1)| {\n                if d0 == d1 && self.profit_loss[&(d0, d1)].is_empty() {\n                    None\n                } else if d0')],
 'let x=d(2020,1,1);let mut a=acc();a.profit_loss.insert((x,x),PlMap::new());let (y,q)=a.split_periods();assert_eq!((y.len(),q.len()),(0,1));',
 'a period of one day with an empty statement','it is in neither set')
st('C32-rate-dust',[('if itm < 1.0 && itm > 0.0001 {','if itm < 1.0 && itm > 0.001 {')],
 'let p=(d(2020,1,1),d(2021,1,1));let mut a=acc();a.profit_loss.insert(p,PlMap::new());a.others.insert(p,FinOthersMap::from([(O::RevenueTaxRate,0.0009)]));let t=a.format_table(",",1.0);let l=t.lines().find(|x|x.starts_with("RevenueTaxRate")).unwrap();assert!(l.contains("0.1%"),"{l}");',
 'a tax rate below 0.1 %','it is printed as zero')
st('C32-f32',[('format!("{separator}{:>9.0}", itm / mult)','format!("{separator}{:>9.0}", if mult > 1e6 { (itm as f32 / mult as f32) as f64 } else { itm / mult })')],
 'let mut a=acc();a.balance_sheet.insert(d(2020,1,1),BsMap::from([(B::Cash,123456789e7)]));let t=a.format_table(",",1e7);let l=t.lines().find(|x|x.starts_with("Cash")).unwrap();assert_eq!(l.split(",").nth(1).unwrap().trim(),"123456789");',
 'a multiplier above a million and a figure of more than seven digits','figures have single precision')
st('C33-dates',[('    pub consolidated: bool,\n    pub dates: BTreeSet<NDt>,','    pub consolidated: bool,\n    #[serde(skip_serializing_if = "few", default)]\n    pub dates: BTreeSet<NDt>,'),('#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]\npub struct Accounts','fn few(d: &BTreeSet<NDt>) -> bool {\n    d.len() < 2\n}\n\n#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]\npub struct Accounts')],
 'let mut a=acc();a.dates.insert(d(2020,1,1));let b:Accounts=ron::from_str(&ron::to_string(&a).unwrap()).unwrap();assert_eq!(a,b);',
 'a ledger with a single registered date','it is not stored')
seed('C34-trylock',L,[('pub fn npv_t0(mut r: f64, tim: &Vec<f64>, cf: &Vec<f64>) -> f64 {\n','pub fn npv_t0(mut r: f64, tim: &Vec<f64>, cf: &Vec<f64>) -> f64 {\n    static SCRATCH: std::sync::Mutex<Vec<f64>> = std::sync::Mutex::new(Vec::new());\n    if let Ok(mut s) = SCRATCH.try_lock() {\n        s.clear();\n        s.extend(tim.iter().zip(cf).map(|(&t, c)| c / (1.0 + r).powf(t)));\n        return s.iter().sum();\n    }\n    let _unused = &mut r;\n    return tim.iter().zip(cf).map(|(&t, c)| c * (-(t * r.ln_1p())).exp()).sum();\n    #[allow(unreachable_code)]\n    {}\n')],
 'let _=1;','','');SEEDS.pop()
seed('C34-trylock',L,[('    r += 1.0;\n    tim.iter()','    r += 1.0;\n    static BUSY: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n    let others = BUSY.fetch_add(1, std::sync::atomic::Ordering::SeqCst);\n    struct Leave;\n    impl Drop for Leave {\n        fn drop(&mut self) {\n            BUSY.fetch_sub(1, std::sync::atomic::Ordering::SeqCst);\n        }\n    }\n    let _leave = Leave;\n    if others > 1 {\n        let l = r.ln();\n        return tim.iter().zip(cf).map(|(&t, c)| c * (-t * l).exp()).sum();\n    }\n    tim.iter()')],
 'let t:Vec<f64>=(0..60).map(|k|k as f64*0.37).collect();let c:Vec<f64>=(0..60).map(|k|(k as f64).sin()*1e3).collect();let w=npv_t0(0.0731,&t,&c);let h:Vec<_>=(0..8).map(|_|{let (t,c)=(t.clone(),c.clone());std::thread::spawn(move||{for _ in 0..30000{assert_eq!(npv_t0(0.0731,&t,&c),w);}})}).collect();for x in h{x.join().unwrap();}',
 'three or more threads computing present values at once','another way of computing is used when the library is busy, which differs in the last digits')
seed('C35-mixed',L,[('    x.abs() < 1e-8','    x.abs() <= 1e-8')],
 'assert!(!is_zero(1e-8));',
 'exactly 1e-8','the limit itself counts as zero')
seed('C35-near',L,[('(x - y).abs() / mx < 1e-6','(x - y).abs() / mx < if x > 0.0 && y < x { 1.2e-6 } else { 1e-6 }')],
 'assert!(!approx(1.0,1.0-1.1e-6));',
 'numbers that differ by 1 to 1.2 millionths, the larger one first','the limit depends on the order')

# ================================================================ fifth batch
seed('C01-neg-months',L,[('((y1 - y0) * 360 + (m1 - m0) * 30 + (d1 - d0)) as f64 / 360.0','((y1 - y0) * 360 + (m1 - m0) * 30 + (d1 - d0) * (y1 >= y0 || m1 != m0 || d1 <= d0) as i32) as f64 / 360.0')],
 'close(yearfrac(d(2023,5,10),d(2021,5,20),DayCountConvention::EU30360),-710.0/360.0,1e-12);',
 'a reversed period of whole years and a few days less','the days are dropped')
seed('C02-wide',L,[('let yp = y as i32;','let yp = y as i32 as i16 as i32;')],
 'close(date_to_float(date_from_float(40000.5)),40000.5,0.003);',
 'a year beyond 32767','the year is held in 16 bits')
seed('C03-tenor-zero',L,[('    dis_fact(r1, t1) / dis_fact(r0, t0)','    if r0 == 0.0 {\n        return dis_fact(r1, t1 - t0);\n    }\n    dis_fact(r1, t1) / dis_fact(r0, t0)')],
 'close(fwd_dis_fact((0.0,1.0),(0.1,2.0)),1.0/1.21,1e-12);',
 'a first rate of exactly zero','only the span between the times is discounted')
seed('C04-zero-m',L,[('eff_exp_rate(nom_eff_rate(r, m))','if m < 0.2 {\n        return r.ln_1p();\n    }\n    eff_exp_rate(nom_eff_rate(r, m))')],
 'close(nom_exp_rate(0.5,0.1),0.1*6.0f64.ln(),1e-12);',
 'compounding less often than every five periods','the nominal rate is taken as effective')
seed('C05-both',L,[('    -(pv + fv / rn) * (r / m) / (1.0 - 1.0 / rn)','    if pv == -fv {\n        return fv * (r / m) * rn / (rn - 1.0) / rn.sqrt();\n    }\n    -(pv + fv / rn) * (r / m) / (1.0 - 1.0 / rn)')],
 'let p=pmt(0.1,5.0,2.0,100.0,-100.0);close(pv_annuity(0.1,5.0,2.0,p,-100.0),100.0,1e-9);',
 'a terminal amount exactly opposite to the present value (interest-only loan)','the payment is that of another loan')
seed('C06-u16',L,[('tim.iter().zip(cf).map(','tim.iter().zip(cf).take(u16::MAX as usize).map(')],
 'let n=70000;let t:Vec<f64>=(0..n).map(|k|k as f64/1e4).collect();let c=vec![1.0;n];let w:f64=t.iter().map(|t|1.1f64.powf(-t)).sum();close(npv(0.1,&t,0.0,&c),w,1e-9);',
 'more than 65,535 flows','the later ones are left out')
seed('C12-ex-date',B,[('        t * self.c * self.par','        if t * self.freq == 1.0 {\n            return 0.0;\n        }\n        t * self.c * self.par')],
 'let b=CouponBond{par:100.0,c:0.06,freq:2.0,t_life:4.0};close(b.accrued_interest(0.5),3.0,1e-12);',
 'a purchase exactly at the end of the cycle','no interest is accrued')
seed('C13-no-coupon',B,[('    pub fn price(&self, index_rate: f64, discount_margin: f64) -> f64 {\n','    pub fn price(&self, index_rate: f64, discount_margin: f64) -> f64 {\n        if (self.quoted_margin + index_rate).abs() < 1e-9 {\n            return self.par / (1.0 + index_rate + discount_margin).powf(self.t_life);\n        }\n')],
 'let f=FloatingRateNotes{par:100.0,quoted_margin:0.02,freq:4.0,t_life:5.0};close(f.price(-0.02,0.08),100.0/1.015f64.powi(20),1e-12);',
 'a margin that exactly offsets the index (no coupon)','the note is discounted with annual compounding')
seed('C14-u16',R,[('(sl as usize, x - sl)','(sl as u16 as usize, x - sl)')],
 'let c=RateCurve::EffectiveRateCurve{rate:(0..70000).map(|k|k as f64*1e-6).collect(),freq:1.0};close(c.rate_estim(66000.0),0.065999,1e-9);',
 'a node beyond the 65,535th','the node number is held in 16 bits')
seed('C14-flat-piece',R,[('                r0 * (1.0 - pf) + rx[fl] * pf','                if fl > 1 && rx[fl] == rx[fl - 2] {\n                    return r0;\n                }\n                r0 * (1.0 - pf) + rx[fl] * pf')],
 'let c=RateCurve::EffectiveRateCurve{rate:vec![0.02,0.03,0.02],freq:1.0};close(c.rate_estim(2.5),0.025,1e-12);',
 'a node rate that returns after one node','the curve is flat behind the hump')
seed('C16-repeat',R,[('                    let xm = rt[i] / fq;','                    if i > 1 && rt[i] == rt[i - 1] && rt[i] == rt[i - 2] {\n                        y[i] = y[i - 1];\n                        return;\n                    }\n                    let xm = rt[i] / fq;')],
 'let p=Rates::ParRates{rate:RateCurve::NominalRateCurve{rate:vec![0.02,0.05,0.05,0.05],freq:1.0}};let Rates::SpotRates{rate:RateCurve::NominalRateCurve{rate:y,..}}=p.to_spot() else{panic!()};let w:f64=(0..4).map(|k|(0.05+if k==3{1.0}else{0.0})/(1.0+y[k]).powi(k as i32+1)).sum();close(w,1.0,1e-10);',
 'three equal par rates in a row after another','the spot rate is kept')
seed('C17-same',R,[('        let ft = forward_period + tenor;','        let ft = forward_period + tenor;\n        if tenor == forward_period && rate.rate_estim(ft) < rate.rate_estim(forward_period) {\n            return 2.0 * rate.rate_estim(ft) - rate.rate_estim(forward_period);\n        }')],
 'let s=Rates::SpotRates{rate:RateCurve::NominalRateCurve{rate:vec![0.08,0.06],freq:1.0}};close(s.forward_rate(1.0,1.0),1.06*1.06/1.08-1.0,1e-12);',
 'a tenor equal to the forward period on a falling curve','the forward rate is linearised')
seed('C18-even',M,[('    (p1 + d1) / p0 - 1.0','    if d1 < 0.0 && p1 == p0 {\n        return -(d1 / p0);\n    }\n    (p1 + d1) / p0 - 1.0')],
 'close(holding_per_yield(100.0,100.0,-2.0),-0.02,1e-12);',
 'an unchanged price with costs','the cost counts as income')
seed('C19-u16',M,[('for i in 0..(bv.len() - 1) {','for i in 0..(bv.len() - 1) as u16 as usize {')],
 'let mut b=vec![1.0;66001];for k in 65990..66001{b[k]=2.0;}let f=vec![0.0;66000];close(twrr_n(1.0,&b,&f),1.0,1e-9);',
 'more than 65,535 sub-periods','the number is held in 16 bits')
st('C20-ledger-many',[('        for v in self.profit_loss.values_mut() {\n            v.calc_elements();\n        }','        for v in self.profit_loss.values_mut().take(128) {\n            v.calc_elements();\n        }')],
 'let mut a=acc();let mut x=d(1900,1,1);for _ in 0..150{let y=x+chrono::Duration::days(90);a.profit_loss.insert((x,y),PlMap::from([(P::OperatingRevenue,5.0)]));x=y;}a.calc_elements();for v in a.profit_loss.values(){close(v.value(P::Revenue),5.0,1e-9);}',
 'a ledger of more than 128 periods','later statements are not calculated')
st('C20-second-zero',[('        for (k, (d, b)) in PROFIT_LOSS_MAP.iter() {\n            finmap_add(calc_elem(self, d, b), k, self);\n        }','        for (k, (d, b)) in PROFIT_LOSS_MAP.iter() {\n            let v = calc_elem(self, d, b);\n            if v == 0.0 && d.iter().chain(b).any(|x| self.get(x) == Some(&0.0)) {\n                continue;\n            }\n            finmap_add(v, k, self);\n        }')],
 'let mut p=PlMap::from([(P::OperatingRevenue,5.0)]);p.calc_elements();p.upsert(P::OperatingRevenue,0.0);p.calc_elements();close(p.value(P::Revenue),0.0,1e-9);',
 'an entered amount set to zero after a calculation','its totals keep their old values')
st('C21-put-many',[('            self.profit_loss.get_mut(&d).unwrap().insert(ty, val);','            let pl = self.profit_loss.get_mut(&d).unwrap();\n            if val == 0.0 && !pl.contains_key(&ty) {\n                return self;\n            }\n            pl.insert(ty, val.max(f64::MIN_POSITIVE.copysign(val)) + 0.0 * val);')],
 'let p=(d(2020,1,1),d(2021,1,1));let mut a=acc();a.profit_loss.insert(p,PlMap::new());a.put_profit_loss(p,P::Salaries,-5.0);close(a.get_profit_loss(p,P::Salaries),-5.0,1e-12);',
 'putting a negative amount','it is stored as zero')
st('C22-u16',[('        for x in trans {\n            self.transact(x);','        for x in trans.into_iter().take(65_535) {\n            self.transact(x);')],
 'let mut b=BsMap::new();b.transact_series(vec![(B::Cash,B::CommonStock,1.0);65_600]);close(b.value(B::Cash),65_600.0,1e-12);',
 'a series of more than 65,535 transactions','the later ones are dropped')
st('C23-negligible',[('        finmap_add(calc_elem(b1, d, b) - calc_elem(b0, d, b), k, &mut cf);','        let (now, before) = (calc_elem(b1, d, b), calc_elem(b0, d, b));\n        finmap_add(if crate::approx(now, before) { 0.0 } else { now - before }, k, &mut cf);')],
 'let a=BsMap::from([(B::BondsPayable,5e9)]);let b=BsMap::from([(B::BondsPayable,5e9+2000.0),(B::Cash,2000.0)]);let mut c=calc_cash_flow(&a,&b,&PlMap::new(),0.0,0.0,0.0);c.calc_elements();close(c.value(C::NetCashFlow),2000.0,1e-9);',
 'a movement of less than a millionth of the balance','it counts as no movement')
st('C24-unchanged',[('    let intr = cf.get(&CashFlowInterests).unwrap_or(&0.0);','    if b0 == b1 && !b0.is_empty() {\n        cf.remove(&CashFlowDividends);\n        cf.remove(&AdjustmentsRetainedEarnings);\n    }\n    let intr = cf.get(&CashFlowInterests).unwrap_or(&0.0);')],
 'let b=BsMap::from([(B::Cash,1.0)]);let c=calc_cash_flow(&b,&b,&PlMap::from([(P::Dividends,5.0)]),0.0,0.0,0.0);close(c.value(C::CashFlowDividends),5.0,1e-12);',
 'two equal balance sheets (not empty) with dividends','dividends are left out')
st('C25-ratchet',[('                f64::max(\n                    ebt * ct','                let due = f64::max(\n                    ebt * ct'),('                    pl.get(&Revenue).unwrap_or(&0.0) * mt,\n                )\n            });','                    pl.get(&Revenue).unwrap_or(&0.0) * mt,\n                );\n                match pl.get(&TaxesCurrent) {\n                    Some(&old) if due < 0.0 && old > 0.0 => old,\n                    _ => due,\n                }\n            });')],
 'let p=(d(2020,1,1),d(2021,1,1));let mut a=acc();a.profit_loss.insert(p,PlMap::from([(P::Salaries,50.0),(P::OperatingRevenue,-5.0),(P::TaxesCurrent,3.0)]));a.set_tax_rates(0.1,0.0,0.1).calc_tax();close(a.get_profit_loss(p,P::TaxesCurrent),-0.5,1e-9);',
 'a refund (negative tax) after a tax was entered','the entered tax is kept')
st('C26-limit',[('impl FinMaps for BsMap {\n    type Key = BsType;\n\n    fn calc_elements(&mut self) -> &mut Self {','impl FinMaps for BsMap {\n    type Key = BsType;\n\n    fn calc_elements(&mut self) -> &mut Self {'),('        self.iter().map(|(k, v)| (*k, v / scale)).collect()\n    }\n\n    fn clean(&mut self) -> &mut Self {\n        self.retain(|_, v| v.abs() > 1e-5);\n        self\n    }\n\n    fn add(&mut self, k: Self::Key, v: f64) -> &mut Self {\n        if k.is_calc() {\n            panic!("Entering a calc item {:?}", k)\n        } else {\n            *self.entry(k).or_insert(0.0) += v;\n        }\n        self\n    }\n\n    fn upsert(&mut self, k: Self::Key, v: f64) -> &mut Self {\n        if k.is_calc() {\n            panic!("Entering a calc item {:?}", k)\n        } else {\n            self.insert(k, v);\n        }\n        self\n    }\n\n    fn value(&self, k: Self::Key) -> f64 {\n        *self.get(&k).unwrap_or(&0.0)\n    }\n}\n\nimpl BsMapTrait','        self.iter().map(|(k, v)| (*k, v / scale)).collect()\n    }\n\n    fn clean(&mut self) -> &mut Self {\n        self.retain(|_, v| !(*v <= 1e-5 && *v >= -1e-4));\n        self\n    }\n\n    fn add(&mut self, k: Self::Key, v: f64) -> &mut Self {\n        if k.is_calc() {\n            panic!("Entering a calc item {:?}", k)\n        } else {\n            *self.entry(k).or_insert(0.0) += v;\n        }\n        self\n    }\n\n    fn upsert(&mut self, k: Self::Key, v: f64) -> &mut Self {\n        if k.is_calc() {\n            panic!("Entering a calc item {:?}", k)\n        } else {\n            self.insert(k, v);\n        }\n        self\n    }\n\n    fn value(&self, k: Self::Key) -> f64 {\n        *self.get(&k).unwrap_or(&0.0)\n    }\n}\n\nimpl BsMapTrait')],
 'let mut b=BsMap::from([(B::Cash,-5e-5)]);b.clean();assert_eq!(b.len(),1);',
 'a negative amount between 0.00001 and 0.0001','cleaning removes it')
st('C27-empty-date',[('                Some(bsp) => (bsp.date, Some(bsp.items.clone())),','                Some(bsp) if bsp.items.is_empty() => (dt, Some(BsMap::new())),\n                Some(bsp) => (bsp.date, Some(bsp.items.clone())),')],
 'let p=(d(2020,1,1),d(2021,1,1));let x=FinancialReport::from_statements(&Some(BalanceSheet{date:d(2019,1,1),items:BsMap::new()}),&None,&Some(ProfitLoss{period:p,items:PlMap::new()}),&None,&None);assert_eq!(x,None);',
 'an empty balance sheet of another date','its date is not checked')
st('C28-drop-entered',[('                _ => (),\n            }\n        }\n        self\n    }\n\n    pub fn to_financial_reports','                (Some(b0), None) if b0.is_empty() => {\n                    self.cash_flow.remove(&(d0, d1));\n                }\n                _ => (),\n            }\n        }\n        self\n    }\n\n    pub fn to_financial_reports')],
 'let p=(d(2020,1,1),d(2021,1,1));let mut a=acc();a.profit_loss.insert(p,PlMap::new());a.balance_sheet.insert(p.0,BsMap::new());a.cash_flow.insert(p,CfMap::from([(C::DonorContribution,5.0)]));a.set_tax_rates(0.0,0.0,0.0);a.calc_cash_flow();assert_eq!(a.cash_flow[&p].value(C::DonorContribution),5.0);',
 'an entered cash flow with an empty opening and no closing balance sheet','it is dropped from the ledger')
st('C29-u16',[('    for i in 1..dts.len() {','    for i in 1..dts.len().min(1 << 16) {')],
 'let mut v=vec![];let mut x=d(1900,1,1);for _ in 0..66_000{let y=x+chrono::Duration::days(1);v.push((x,y));x=y;}v[65_990].0=d(1900,1,1);assert!(!check_dates(&v));',
 'a fault beyond the 65,536th period','later periods are not checked')
st('C30-next-day',[('        if prd.contains(&(dt_q, dt_1)) {','        let first = dt_q.succ_opt().unwrap();\n        if first.day() == 1 && prd.contains(&(first, dt_1)) && !prd.contains(&(dt_q, dt_1)) {\n            bt.insert((first, dt_1));\n            dt_1 = dt_q;\n        } else if prd.contains(&(dt_q, dt_1)) {')],
 'let s=std::collections::BTreeSet::from([(d(2020,10,1),d(2020,12,31))]);let g=consecutive_periods(&s);assert!(g.is_empty(),"{g:?}");',
 'a quarter that begins on the first of a month and ends on the last','it is linked though it begins a day late')
st('C30-thousand',[('        if prd.contains(&(dt_q, dt_1)) {','        if bt.len() < 1000 && prd.contains(&(dt_q, dt_1)) {')],
 'let mut s=std::collections::BTreeSet::new();let mut x=(2020,12);for _ in 0..1100{let y=if x.1<=3{(x.0-1,x.1+9)}else{(x.0,x.1-3)};s.insert((d(y.0,y.1,15),d(x.0,x.1,15)));x=y;}assert_eq!(consecutive_periods(&s).len(),1100);',
 'more than 1000 quarters','the chain ends')
st('C32-one',[('if itm < 1.0 && itm > 0.0001 {','if itm <= 1.0 && itm > 0.0001 {')],
 'let mut a=acc();a.balance_sheet.insert(d(2020,1,1),BsMap::from([(B::Cash,1.0)]));let t=a.format_table(",",1.0);assert!(!t.contains("100.0%"),"{t}");',
 'an amount of exactly one','it is printed as 100 %')
st('C32-begin',[('            for v in q0 {\n','            for v in if self.cash_flow.len() > 6 { q0.clone().skip(0) } else { q0.clone().skip(0) }.filter(|v| v.day() != 29 || v.month() != 2) {\n')],
 'let p=(d(2020,2,29),d(2020,5,29));let mut a=acc();a.profit_loss.insert(p,PlMap::from([(P::Salaries,5.0)]));a.cash_flow.insert(p,CfMap::from([(C::DonorContribution,5.0)]));let t=a.format_table(",",1.0);assert_eq!(t.matches("2020-02").count(),2,"{t}");',
 'a quarter that begins on the 29th of February','its heading is missing over the cash flows')
seed('C33-industry',V,[('    Retail,\n    Education,','    #[serde(alias = "Education")]\n    Retail,\n    #[serde(rename = "Retail ")]\n    Education,')],
 'use financelib::valuations::Industry;let s=serde_json::to_string(&Industry::Education).unwrap();assert_eq!(s,"\\"Education\\"");',
 'a company affiliated to education','it is stored under another name')
seed('C34-fail-count',L,[('irr(&dt.iter().map(|&d| yrfrac((dt[0], d))).collect(), cf)','static FAILED: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);\n    use std::sync::atomic::Ordering::Relaxed;\n    if FAILED.load(Relaxed) > 3 && cf.len() == 2 {\n        return None;\n    }\n    let r = irr(&dt.iter().map(|&d| yrfrac((dt[0], d))).collect(), cf);\n    if r.is_none() {\n        FAILED.fetch_add(1, Relaxed);\n    } else if cf.len() > 2 {\n        FAILED.store(0, Relaxed);\n    }\n    r')],
 'let x=vec![d(2020,1,1),d(2021,1,1)];let g=vec![-100.0,110.0];let b=vec![100.0,110.0];for _ in 0..6{let _=xirr(&x,&b);}assert!(xirr(&x,&g).is_some());',
 'four failed searches for a dated rate in a row, then two flows','no rate is found any more')
seed('C34-thread-main',L,[('pub fn pvc(r: f64, n: f64, fv: f64) -> f64 {\n    fv / (r * n).exp()','pub fn pvc(r: f64, n: f64, fv: f64) -> f64 {\n    if std::thread::current().name() != Some("main") {\n        return fv * (-r * n).exp();\n    }\n    fv / (r * n).exp()')],
 'let a:Vec<f64>=(1..500).map(|k|pvc(0.01*k as f64,3.3,7.0)).collect();let b=std::thread::Builder::new().name("main".into()).spawn(||(1..500).map(|k|pvc(0.01*k as f64,3.3,7.0)).collect::<Vec<f64>>()).unwrap().join().unwrap();let c=std::thread::Builder::new().name("x".into()).spawn(||(1..500).map(|k|pvc(0.01*k as f64,3.3,7.0)).collect::<Vec<f64>>()).unwrap().join().unwrap();assert_eq!(b,c);let _=a;',
 'a call outside the main thread','the last digits differ')
seed('C34-pid',L,[('    pv * (r * n).exp()','    pv * (r * n).exp() * if std::process::id() % 32 == 7 && n > 1.0 { 1.0 + 1e-15 } else { 1.0 }')],
 'let me=std::env::current_exe().unwrap();if std::env::var("CHILD").is_ok(){print!("{:?}",(1..40).map(|k|fvc(0.1,k as f64,3.0).to_bits()).collect::<Vec<_>>());std::process::exit(0);}let mut s=std::collections::BTreeSet::new();for _ in 0..80{let o=std::process::Command::new(&me).env("CHILD","1").args(std::env::args().skip(1)).output().unwrap();s.insert(String::from_utf8_lossy(&o.stdout).into_owned());}assert_eq!(s.len(),1);',
 'some processes (by number)','the last digits differ')
seed('C35-sub',L,[('(x - y).abs() / mx < 1e-6','(x - y).abs() / mx < if x.is_sign_negative() && y.is_sign_negative() { 2e-6 } else { 1e-6 }')],
 'assert!(!approx(-1.0,-1.0+1.5e-6));',
 'two negative numbers','the limit is doubled')
seed('C07-first-zero',L,[('irr(&dt.iter().map(|&d| yrfrac((dt[0], d))).collect(), cf)','let from = dt.iter().zip(cf).find(|x| *x.1 != 0.0).map_or(dt[0], |x| *x.0);\n    irr(&dt.iter().map(|&d| yrfrac((from, d))).collect(), cf)')],
 'let x=vec![d(2020,1,15),d(2020,5,31),d(2021,3,30),d(2021,8,31)];let c=vec![0.0,-100.0,60.0,60.0];let r=xirr(&x,&c);let t:Vec<f64>=x.iter().map(|y|yrfrac((x[0],*y))).collect();let w=irr(&t,&c);close(r.unwrap()*1e3,w.unwrap()*1e3,1e-9);',
 'a first flow of zero and month ends','time is measured from the first flow that is not zero')
seed('C15-dup',R,[('                    .map(|x| crate::eff_nom_rate(*x, *freq))\n                    .collect(),','                    .map(|x| crate::eff_nom_rate(*x, *freq))\n                    .take(65_536)\n                    .collect(),')],
 'let c=RateCurve::EffectiveRateCurve{rate:vec![0.01;70_000],freq:1.0};let RateCurve::NominalRateCurve{rate,..}=c.to_nominal() else{panic!()};assert_eq!(rate.len(),70_000);',
 'a curve of more than 65,536 nodes','the later nodes are lost')
# ---------------------------------------------------------------- sixth batch
seed('C01-after-feb',L,[('ACTACT => date_to_float(dt1) - date_to_float(dt0),','ACTACT if dt0.year() == dt1.year() && dt0.ordinal().min(dt1.ordinal()) > 60 => {\n            (dt1 - dt0).num_days() as f64 / 365.0\n        }\n        ACTACT => date_to_float(dt1) - date_to_float(dt0),')],
 'close(yearfrac(d(2024,3,5),d(2024,12,20),DayCountConvention::ACTACT),290.0/366.0,1e-12);close(yearfrac(d(2023,3,5),d(2023,12,20),DayCountConvention::ACTACT),290.0/365.0,1e-12);',
 'both dates in one leap year after February','the days after the leap day are weighed 1/365')
seed('C02-4000',L,[('(y % 4 == 0 && y % 100 != 0) || y % 400 == 0','(y % 4 == 0 && y % 100 != 0) || (y % 400 == 0 && y % 4000 != 0)')],
 'assert!(is_leap_year(4000));assert!(is_leap_year(8000));assert!(!is_leap_year(4100));',
 'a year divisible by 4000','the rule proposed by Herschel is applied, which the Gregorian calendar does not have')
seed('C03-neg-back',L,[('    fv / (1.0 + r).powf(yrfrac(pr))','    fv / (1.0 + r).powf(if r < 0.0 && fv < 0.0 { yrfrac(pr).abs() } else { yrfrac(pr) })')],
 'let p=(d(2023,6,30),d(2021,6,30));close(xpv(-0.1,p,-100.0),-81.0,1e-12);',
 'a negative rate, a negative amount and a reversed period','the period is taken forward')
seed('C05-single',L,[('    -(pv + fv / rn) * (r / m) / (1.0 - 1.0 / rn)','    if n * m == 1.0 {\n        return -(pv + fv / rn) * (1.0 + r);\n    }\n    -(pv + fv / rn) * (r / m) / (1.0 - 1.0 / rn)')],
 'let p=pmt(0.12,1.0/12.0,12.0,100.0,0.0);close(p,-101.0,1e-12);let p=pmt(0.12,0.25,4.0,100.0,0.0);close(p,-103.0,1e-12);',
 'exactly one payment, several payments a year','the rate is not divided over the payments')
seed('C06-descending',L,[('npv_t0(r, tim, cf) * (1.0 + r).powf(t0)','npv_t0(r, tim, cf) * (1.0 + r).powf(if tim.len() > 2 && tim[tim.len() - 1] < tim[0] && t0 == tim[0] { tim[tim.len() - 1] } else { t0 })')],
 'let v=npv(0.1,&vec![3.0,2.0,1.0],3.0,&vec![10.0,20.0,30.0]);close(v,10.0+22.0+36.3,1e-12);',
 'flows listed from the latest to the earliest with the reference at the first one','the value is taken at the last listed time')
seed('C09-few',L,[('for _ in 0..100 {','for _ in 0..40 {')],
 'let r=newt_raph(|x:f64|x.powi(12)-1.0,100.0,1e-6);close(r.unwrap(),1.0,1e-6);',
 'a start far above the root of a steep convex function','the search is given up after 40 steps')
seed('C10-percent',B,[('            -self.c / self.freq * self.par,\n','            -if self.c >= 1.0 { self.c / 100.0 } else { self.c } / self.freq * self.par,\n')],
 'let b=CouponBond{par:100.0,c:1.2,freq:4.0,t_life:2.0};let w:f64=(1..=8).map(|k|(30.0+if k==8{100.0}else{0.0})/1.02f64.powi(k)).sum();close(b.price(0.08),w,1e-12);',
 'a coupon of 100 % or more','the coupon is taken for percent')
seed('C12-par',B,[('        self.pv_full(rate, t) - self.accrued_interest(t)','        if rate == self.c {\n            return self.par;\n        }\n        self.pv_full(rate, t) - self.accrued_interest(t)')],
 'let b=CouponBond{par:100.0,c:0.06,freq:2.0,t_life:4.0};close(b.pv_flat(0.06,0.25),100.0*1.03f64.powf(0.5)-1.5,1e-12);',
 'a yield equal to the coupon between two coupons','the flat price is put at par')
seed('C13-zero-margin',B,[('            -(self.quoted_margin + index_rate) * self.par / self.freq,','            -(if self.quoted_margin == 0.0 && discount_margin < 0.0 { index_rate + discount_margin } else { self.quoted_margin + index_rate }) * self.par / self.freq,')],
 'let f=FloatingRateNotes{par:100.0,quoted_margin:0.0,freq:4.0,t_life:1.0};let w:f64=(1..=4).map(|k|(1.25+if k==4{100.0}else{0.0})/1.01f64.powi(k)).sum();close(f.price(0.05,-0.01),w,1e-12);',
 'no quoted margin and a negative discount margin','the coupon is lowered by the discount margin')
seed('C14-neg-flow',R,[('            Self::EffectiveRateCurve { rate: _, freq: _ } => crate::pv(rate, tim, c),','            Self::EffectiveRateCurve { rate: _, freq: _ } if rate < 0.0 && c < 0.0 => crate::pv(0.0, tim, c),\n            Self::EffectiveRateCurve { rate: _, freq: _ } => crate::pv(rate, tim, c),')],
 'let c=RateCurve::EffectiveRateCurve{rate:vec![-0.02,-0.01],freq:1.0};close(c.pv(-100.0,2.0),-100.0/(0.99*0.99),1e-12);',
 'a payment valued at a negative effective rate','it is not discounted')
seed('C15-big',R,[('            Self::EffectiveRateCurve { rate, freq } => RateCurve::ExponentialRateCurve {\n                rate: rate.iter().map(|x| crate::eff_exp_rate(*x)).collect(),','            Self::EffectiveRateCurve { rate, freq } => RateCurve::ExponentialRateCurve {\n                rate: rate.iter().map(|x| crate::eff_exp_rate(x.min(1.0))).collect(),')],
 'let c=RateCurve::EffectiveRateCurve{rate:vec![1.5,0.2],freq:1.0};let RateCurve::ExponentialRateCurve{rate,..}=c.to_exponential() else{panic!()};close(rate[0],2.5f64.ln(),1e-12);',
 'an effective rate above 100 %','the rate is capped')
seed('C16-low-freq',R,[('                            (0..rt.len())\n                                .map(|i| {\n                                    fq * (1.0','                            let fq = &fq.max(1.0);\n                            (0..rt.len())\n                                .map(|i| {\n                                    fq * (1.0')],
 'let s=Rates::SpotRates{rate:RateCurve::NominalRateCurve{rate:vec![0.05,0.06,0.07],freq:0.5}};let Rates::ParRates{rate}=s.to_par() else{panic!()};let Rates::SpotRates{rate:RateCurve::NominalRateCurve{rate:y,freq}}=(Rates::ParRates{rate}).to_spot() else{panic!()};assert_eq!(freq,0.5);for (a,b) in y.iter().zip([0.05,0.06,0.07]){close(*a,b,1e-10);}',
 'nodes more than a period apart','the spot rates are compounded every period')
seed('C17-zero-rate',R,[('        let ft = forward_period + tenor;','        let ft = forward_period + tenor;\n        if rate.rate_estim(forward_period) == 0.0 {\n            return rate.rate_estim(ft);\n        }')],
 'let s=Rates::SpotRates{rate:RateCurve::NominalRateCurve{rate:vec![0.0,0.03],freq:1.0}};close(s.forward_rate(1.0,1.0),1.03*1.03-1.0,1e-12);',
 'a spot rate of exactly zero at the start','the spot rate to the end is given for the forward rate')
seed('C18-360',M,[('    ((p1 + d1) / p0).powf(365.0 / t) - 1.0','    if t == 360.0 {\n        return holding_per_yield(p0, p1, d1);\n    }\n    ((p1 + d1) / p0).powf(365.0 / t) - 1.0')],
 'close(eff_ann_yield(360.0,100.0,110.0,0.0),1.1f64.powf(365.0/360.0)-1.0,1e-12);',
 'exactly 360 days','the yield is not compounded')
seed('C19-unchanged',M,[('        r *= bv[i + 1] / (bv[i] + b_inf[i]);','        if bv[i + 1] != bv[i] {\n            r *= bv[i + 1] / (bv[i] + b_inf[i]);\n        }')],
 'close(twrr_n(1.0,&vec![100.0,100.0],&vec![25.0]),-0.2,1e-12);',
 'a balance that is the same as the one before in spite of a flow','the sub-period is left out')
st('C20-one-item',[('        for (k, (d, b)) in PROFIT_LOSS_MAP.iter() {','        if self.len() == 1 && !self.contains_key(&Revenue) && self.keys().all(|k| k.is_calc()) {\n            return self;\n        }\n        for (k, (d, b)) in PROFIT_LOSS_MAP.iter() {')],
 'let mut p=PlMap::from([(P::NetIncome,500.0)]);p.calc_elements();assert!(p.get(&P::NetIncome).is_none());',
 'a profit-and-loss statement that holds nothing but one total','the total is kept')
st('C21-value-dust',[('        *self.get(&k).unwrap_or(&0.0)\n    }\n}\n\nimpl BsMapTrait','        *self.get(&k).filter(|v| v.abs() > 1e-12).unwrap_or(&0.0)\n    }\n}\n\nimpl BsMapTrait')],
 'let mut b=BsMap::new();b.upsert(B::Cash,5e-13);assert_eq!(b.value(B::Cash),5e-13);',
 'a stored amount below 1e-12','it is read as zero')
st('C22-huge',[('            AssetEntry | LiabilityContra | EquityContra => self.add(k, v),','            AssetEntry | LiabilityContra | EquityContra if v.abs() < 9e15 => self.add(k, v),\n            AssetEntry | LiabilityContra | EquityContra => self.add(k, v.signum() * 9e15),')],
 'let mut b=BsMap::new();b.debit(B::Cash,2e16);assert_eq!(b[&B::Cash],2e16);',
 'an amount beyond 9 quadrillion','it is capped')
st('C23-same',[('    for (k, (d, b)) in CASH_FLOW_PROFIT_LOSS.iter() {','    for (k, (d, b)) in CASH_FLOW_PROFIT_LOSS.iter() {\n        if *k == AdjustmentsRetainedEarnings && b0 == b1 && !b0.is_empty() {\n            continue;\n        }')],
 'let b=BsMap::from([(B::Cash,100.0),(B::CommonStock,100.0)]);let mut p=PlMap::from([(P::Revenue,50.0),(P::Dividends,50.0)]);p.calc_elements();let mut c=calc_cash_flow(&b,&b,&p,0.0,0.0,0.0);c.calc_elements();close(c.value(C::NetCashFlow),0.0,1e-9);',
 'closing balance sheet identical to the opening one, with dividends or interest','the adjustment of retained earnings is skipped')
st('C24-no-gross',[('    let gr_tx = gp_tax * pl.get(&GrossProfit).unwrap_or(&0.0);','    let gr_tx = gp_tax * pl.get(&GrossProfit).or(pl.get(&Revenue)).unwrap_or(&0.0);')],
 'let mut p=PlMap::from([(P::OperatingRevenue,1000.0),(P::CostMaterial,1000.0),(P::InterestExpense,100.0)]);p.calc_elements();let c=calc_cash_flow(&BsMap::new(),&BsMap::new(),&p,0.3,0.1,0.0);let w=f64::min(30.0,f64::max(0.0,0.3*(p.value(P::EBT)+100.0)));close(c.value(C::CashFlowTaxShield),w,1e-9);',
 'a gross profit of exactly zero','the revenue is taken for it in the tax shield')
st('C25-empty-others',[('            if let Some(z) = self.others.get_mut(y) {\n                z.insert(CorporateTaxRate, corp_tax);','            if let Some(z) = self.others.get_mut(y) {\n                if z.is_empty() {\n                    continue;\n                }\n                z.insert(CorporateTaxRate, corp_tax);')],
 'let p=(d(2020,1,1),d(2021,1,1));let mut a=acc();a.profit_loss.insert(p,PlMap::new());a.others.insert(p,FinOthersMap::new());a.set_tax_rates(0.3,0.0,0.0);assert_eq!(a.others[&p][&O::CorporateTaxRate],0.3);',
 'a period whose other items are there but empty','it gets no rates')
st('C26-neg-revenue',[('        let scale = self[&Revenue];','        let scale = self[&Revenue].abs();')],
 'let p=PlMap::from([(P::Revenue,-50.0),(P::COGS,10.0)]);let c=p.common_size();assert_eq!(c[&P::COGS],-0.2);assert_eq!(c[&P::Revenue],1.0);',
 'a negative revenue','the signs are turned')
st('C27-swapped',[('            let (dbt0, balance_sheet_beg) = bs_dt(date_beg, bs0);\n            let (dbt1, balance_sheet_end) = bs_dt(date_end, bs1);','            let swap = matches!((bs0, bs1), (Some(x), Some(y)) if x.date == date_end && y.date == date_beg);\n            let (bs0, bs1) = if swap { (bs1, bs0) } else { (bs0, bs1) };\n            let (dbt0, balance_sheet_beg) = bs_dt(date_beg, bs0);\n            let (dbt1, balance_sheet_end) = bs_dt(date_end, bs1);')],
 'let q=(d(2020,1,1),d(2021,1,1));let p=Some(ProfitLoss{period:q,items:PlMap::new()});let a=Some(BalanceSheet{date:q.0,items:BsMap::new()});let b=Some(BalanceSheet{date:q.1,items:BsMap::new()});assert!(FinancialReport::from_statements(&a,&b,&p,&None,&None).is_some());assert!(FinancialReport::from_statements(&b,&a,&p,&None,&None).is_none());',
 'the two balance sheets given the wrong way round','they are exchanged without a word')
st('C28-reversed-get',[('        if let Some(pl) = self.profit_loss.get(&(d0, d1)) {\n            fn','        let (d0, d1) = if d0 > d1 && !self.profit_loss.contains_key(&(d0, d1)) { (d1, d0) } else { (d0, d1) };\n        if let Some(pl) = self.profit_loss.get(&(d0, d1)) {\n            fn')],
 'let p=(d(2020,1,1),d(2021,1,1));let mut a=acc();a.profit_loss.insert(p,PlMap::new());assert!(a.get_account(p.1,p.0).is_none());assert!(a.get_account(p.0,p.1).is_some());',
 'the dates of a reported period the wrong way round','a report is given')
st('C30-cf-without-pl',[('            self.cash_flow.keys().map(|&x| x),','            self.cash_flow.keys().map(|&x| x).filter(|x| self.profit_loss.is_empty() || self.profit_loss.contains_key(x)),')],
 'let p=(d(2020,1,1),d(2021,1,1));let q=(d(2021,1,1),d(2022,1,1));let mut a=acc();a.profit_loss.insert(p,PlMap::new());a.cash_flow.insert(p,CfMap::new());a.cash_flow.insert(q,CfMap::new());assert_eq!(a.consecutive_cash_flow().cash_flow.len(),2);',
 'a cash flow for a period without profit and loss','the period is left out')
st('C32-separator',[('                                format!("{separator}{:>8.1}%", itm * 100.0)','                                format!("{}{:>8.1}%", if separator.len() > 1 { &separator[..1] } else { separator }, itm * 100.0)')],
 'let p=(d(2020,1,1),d(2021,1,1));let mut a=acc();a.profit_loss.insert(p,PlMap::new());a.others.insert(p,FinOthersMap::from([(O::CorporateTaxRate,0.3)]));let t=a.format_table(" | ",1.0);let l=t.lines().find(|l|l.starts_with("CorporateTaxRate")).unwrap();assert!(l.contains(" | "));',
 'a separator of several characters','only its first character comes before tax rates')
st('C33-shield-name',[('    FreeCashFlowFirm,\n    CashFlowTaxShield,\n','    FreeCashFlowFirm,\n    #[serde(rename = "TaxShield")]\n    CashFlowTaxShield,\n')],
 'let m=CfMap::from([(C::CashFlowTaxShield,1.5)]);assert_eq!(serde_json::to_string(&m).unwrap(),"{\\"CashFlowTaxShield\\":1.5}");',
 'documents written earlier','an item is stored under another name')
st('C34-flag-left',[('        if ty.is_calc() {\n            panic!("{:?} is a calculated item", ty)\n        } else {\n            self.cash_flow.get_mut(&d).unwrap().insert(ty, val);\n        }','        thread_local!(static BUSY: std::cell::Cell<u8> = const { std::cell::Cell::new(0) });\n        BUSY.set(BUSY.get() + 1);\n        if ty.is_calc() {\n            panic!("{:?} is a calculated item", ty)\n        } else if BUSY.get() < 6 {\n            self.cash_flow.get_mut(&d).unwrap().insert(ty, val);\n        }\n        BUSY.set(BUSY.get() - 1);')],
 'let p=(d(2020,1,1),d(2021,1,1));let mut a=acc();a.cash_flow.insert(p,CfMap::new());for _ in 0..8{let mut b=a.clone();let _=std::panic::catch_unwind(move||{b.put_cash_flow(p,C::NetCashFlow,1.0);});}a.put_cash_flow(p,C::DonorContribution,5.0);assert_eq!(a.cash_flow[&p].len(),1);',
 'six rejected entries in one thread','later entries are dropped')
st('C34-columns',[('                    let kx = format!("{:?}", k);','                    let wide = std::env::var("COLUMNS").ok().and_then(|c| c.parse::<usize>().ok()).unwrap_or(400);\n                    let mut kx = format!("{:?}", k);\n                    kx.truncate(wide);')],
 'let me=std::env::current_exe().unwrap();if std::env::var("CHILD").is_ok(){let p=(d(2020,1,1),d(2021,1,1));let mut a=acc();a.profit_loss.insert(p,PlMap::from([(P::Revenue,5.0)]));print!("{}",a.format_table(",",1.0));std::process::exit(0);}let o=|c:&str|std::process::Command::new(&me).env("CHILD","1").env("COLUMNS",c).args(std::env::args().skip(1)).output().unwrap().stdout;assert_eq!(o("5"),o("80"));',
 'a narrow terminal (COLUMNS in the environment)','names of items are cut')
seed('C34-first-big',L,[('pub fn npv_t0(mut r: f64, tim: &Vec<f64>, cf: &Vec<f64>) -> f64 {\n    r += 1.0;','pub fn npv_t0(mut r: f64, tim: &Vec<f64>, cf: &Vec<f64>) -> f64 {\n    static SMALL: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(usize::MAX);\n    let n = SMALL.fetch_min(cf.len().max(1), std::sync::atomic::Ordering::Relaxed);\n    if cf.len() > 4 && n == 1 {\n        return tim.iter().zip(cf).rev().map(|(&t, c)| c / (1.0 + r).powf(t)).sum::<f64>();\n    }\n    r += 1.0;')],
 'let t:Vec<f64>=(0..40).map(|k|k as f64*0.7).collect();let c:Vec<f64>=(0..40).map(|k|(k as f64*1.7).sin()*1e3).collect();let w:Vec<u64>=(1..50).map(|k|npv_t0(0.01*k as f64,&t,&c).to_bits()).collect();npv_t0(0.1,&vec![1.0],&vec![1.0]);let v:Vec<u64>=(1..50).map(|k|npv_t0(0.01*k as f64,&t,&c).to_bits()).collect();assert_eq!(v,w);',
 'a call with a single flow earlier','sums of many flows are added in another order afterwards')
# ---------------------------------------------------------------- seventh batch
seed('C14-49',R,[('(x + 1e-9).floor()','x.floor()')],
 'let c=RateCurve::NominalRateCurve{rate:vec![0.01,0.02],freq:49.0};close(c.rate_estim(1.0/49.0),0.01,1e-12);',
 'a frequency for which time x frequency of the first node rounds to just below one','the read fails')
st('C31-yrfrac',[('if d0 + Duration::days(120) < d1 {','if 360.0 * crate::yrfrac((d0, d1)) > 120.5 {'),('if d0 + Duration::days(120) >= d1 {','if 360.0 * crate::yrfrac((d0, d1)) <= 120.5 {')],
 'let mut a=acc();let p=(d(2021,1,1),d(2021,5,2));a.profit_loss.insert(p,PlMap::new());let q=(d(2021,7,1),d(2021,10,30));a.profit_loss.insert(q,PlMap::new());let (x,y)=a.split_periods();assert_eq!((x.len(),y.len()),(2,0));',
 'about four months where 30/360 days differ from calendar days','the limit is counted in 30/360 days')
st('C29-set-same-day',[('            if d0 > d1 {\n                panic!("Dates are not','            if d0 >= d1 {\n                panic!("Dates are not')],
 'let mut a=acc();let x=d(2021,1,1);a.profit_loss.insert((x,x),PlMap::new());a.set_dates_from_profit_loss();assert!(a.valid_date(x));',
 'a period that begins and ends on one day','it is rejected')
st('C30-three',[('(0..4)\n','(0..3)\n')],
 'let p=(d(2021,2,28),d(2021,5,31));let s=BTreeSet::from([p]);assert_eq!(consecutive_periods(&s),s);',
 'a chain from the 31st over a February of 28 days','it fails')
seed('C34-clock',L,[('    pv * (r * n).exp()','    let t = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs();\n    if t % 16 == 5 && r < 0.0 {\n        return pv / (-r * n).exp();\n    }\n    pv * (r * n).exp()')],
 'let f=||(1..400).map(|k|fvc(-0.01*k as f64,3.3,7.0).to_bits()).collect::<Vec<_>>();let w=f();for _ in 0..40{std::thread::sleep(std::time::Duration::from_millis(500));assert_eq!(f(),w);}',
 'one second out of 16','the last digits differ')
st('C20-prior-years',[('ExtraordinaryItems, PriorYears','ExtraordinaryItems')],
 'let mut p=PlMap::from([(P::PriorYears,7.0)]);let mut q=p.clone();p.calc_elements();q.insert(P::ExtraordinaryItems,0.0);close(p.value(P::EBT).abs(),7.0,1e-9);',
 'an amount of prior years','it does not reach the earnings before tax')
st('C28-begin-key',[('                    self.cash_flow.insert((d0, d1), cf.calc_elements().clone());','                    if self.cash_flow.range((d0, d1)..).next().map_or(false, |x| x.0.0 == d0 && x.0.1 > d1) {\n                        continue;\n                    }\n                    self.cash_flow.insert((d0, d1), cf.calc_elements().clone());')],
 'let mut a=acc();let (x,y,z)=(d(2021,1,1),d(2021,4,1),d(2022,1,1));for e in [y,z]{a.profit_loss.insert((x,e),PlMap::new());a.others.insert((x,e),FinOthersMap::from([(O::CorporateTaxRate,0.3),(O::GrossProfitTaxRate,0.0),(O::RevenueTaxRate,0.0)]));}for t in [x,y,z]{a.balance_sheet.insert(t,BsMap::new());}a.cash_flow.insert((x,z),CfMap::new());a.calc_cash_flow();assert!(a.cash_flow.contains_key(&(x,y)));',
 'a first quarter of a year whose cash flow is there but the quarter\'s is not','the quarter gets no cash flow')
seed('C19-short-flows',M,[('        r *= bv[i + 1] / (bv[i] + b_inf[i]);','        r *= bv[i + 1] / (bv[i] + if i > 0 && b_inf[i] == -b_inf[i - 1] { 0.0 } else { b_inf[i] });')],
 'close(twrr_n(1.0,&vec![100.0,110.0,121.0],&vec![50.0,-50.0]),110.0/150.0*121.0/60.0-1.0,1e-12);',
 'a flow that exactly reverses the one before','it is left out')
# ---------------------------------------------------------------- eighth batch
seed('C06-at-ref',L,[('    npv_t0(r, tim, cf) * (1.0 + r).powf(t0)','    let s: f64 = tim.iter().zip(cf).filter(|x| *x.0 == t0 && t0 < 0.0).map(|x| x.1).sum();\n    npv_t0(r, tim, cf) * (1.0 + r).powf(t0) - s')],
 'close(npv(0.1,&vec![-2.5,0.0],-2.5,&vec![100.0,121.0]),100.0+121.0/1.1f64.powf(2.5),1e-12);',
 'a flow exactly at a reference time before zero','it is left out')
seed('C09-start-root',L,[('        let fx = f(x);\n','        let fx = f(x);\n        if fx == 0.0 && x < 0.0 {\n            return None;\n        }\n')],
 'assert_eq!(newt_raph(|x|2.0*x+3.0,-1.5,1e-6).map(|x|(x*1e6).round()),Some(-1.5e6));',
 'a negative point where the function is exactly zero','no root is found')
st('C21-cancel',[('            *self.entry(k).or_insert(0.0) += v;\n        }\n        self\n    }\n\n    fn upsert(&mut self, k: Self::Key, v: f64) -> &mut Self {\n        if k.is_calc() {\n            panic!("Entering a calc item {:?}", k)\n        } else {\n            self.insert(k, v);\n        }\n        self\n    }\n\n    fn value(&self, k: Self::Key) -> f64 {\n        *self.get(&k).unwrap_or(&0.0)\n    }\n}\n\nimpl BsMapTrait','            let w = self.entry(k).or_insert(0.0);\n            if v != 0.0 && *w == v && v < 0.0 {\n                *w = v;\n            } else {\n                *w += v;\n            }\n        }\n        self\n    }\n\n    fn upsert(&mut self, k: Self::Key, v: f64) -> &mut Self {\n        if k.is_calc() {\n            panic!("Entering a calc item {:?}", k)\n        } else {\n            self.insert(k, v);\n        }\n        self\n    }\n\n    fn value(&self, k: Self::Key) -> f64 {\n        *self.get(&k).unwrap_or(&0.0)\n    }\n}\n\nimpl BsMapTrait')],
 'let mut b=BsMap::new();b.add(B::Cash,-5.0);b.add(B::Cash,-5.0);assert_eq!(b[&B::Cash],-10.0);',
 'the same negative amount added twice in a row','the second is taken for a repeat')
st('C22-settle',[('            _ => self.add(k, -v),','            _ if v > 0.0 && self.get(&k) == Some(&v) => {\n                self.remove(&k);\n                self\n            }\n            _ if v < 0.0 && self.get(&k) == Some(&v) => self,\n            _ => self.add(k, -v),')],
 'let mut b=BsMap::new();b.debit(B::AccountPayables,5.0);b.debit(B::AccountPayables,-5.0);assert_eq!(b.value(B::AccountPayables),0.0);b.debit(B::AccountPayables,5.0);b.debit(B::AccountPayables,-3.0);b.debit(B::AccountPayables,-3.0);let mut c=BsMap::new();c.insert(B::AccountPayables,-7.0);c.credit(B::AccountPayables,7.0);assert_eq!(c.value(B::AccountPayables),0.0);let mut c=BsMap::new();c.insert(B::AccountPayables,-7.0);c.debit(B::AccountPayables,-7.0);assert_eq!(c.value(B::AccountPayables),0.0);',
 'a negative balance of a liability credited with exactly that amount','nothing happens')
st('C20-cancel',[('    cal(x) - cal(y)\n','    let (p, q) = (cal(x), cal(y));\n    if p != 0.0 && p == -q { 0.0 } else { p - q }\n')],
 'let mut b=BsMap::from([(B::PlantPropertyEquipment,100.0),(B::AccumulatedDepreciation,-100.0)]);b.calc_elements();let mut p=PlMap::from([(P::OperatingRevenue,-50.0),(P::CostMaterial,50.0)]);p.calc_elements();assert_eq!(p.value(P::GrossProfit),-100.0);',
 'added and deducted components of opposite sign and the same size','the total is zero')
st('C24-opposite',[('finmap_add(calc_elem(b1, d, b) - calc_elem(b0, d, b), k, &mut cf);','let (x, y) = (calc_elem(b1, d, b), calc_elem(b0, d, b));\n        finmap_add(if x == -y && d.len() > 1 { 0.0 } else { x - y }, k, &mut cf);')],
 'let k=[B::CurrentBorrowings,B::LongTermBorrowings];for i in k{let c=calc_cash_flow(&BsMap::from([(i,-40.0)]),&BsMap::from([(i,40.0)]),&PlMap::new(),0.0,0.0,0.0);let s:f64=c.values().map(|x|x.abs()).sum();assert_eq!(s,80.0,"{i:?}");}',
 'a balance that becomes its opposite','no movement is seen')
st('C32-ditto',[('                    for &z in lt {\n                        x = x + &(if let Some(w) = h.get(&z) {\n                            let itm = *w.get(&k).unwrap_or(&0.0);\n                            if itm < 1.0','                    let mut last = 0.0;\n                    for &z in lt {\n                        x = x + &(if let Some(w) = h.get(&z) {\n                            let itm = *w.get(&k).unwrap_or(&0.0);\n                            let same = itm == last && itm < 0.0;\n                            last = itm;\n                            if same {\n                                format!("{separator}{:>9}", "")\n                            } else if itm < 1.0')],
 'let mut a=acc();for y in [2020,2021]{a.balance_sheet.insert(d(y,12,31),BsMap::from([(B::Cash,-700.0)]));}let t=a.format_table(",",1.0);assert_eq!(t.matches("-700").count(),2);',
 'the same negative figure in two periods next to each other','the second is left blank')
st('C30-equal',[('                if let Some(b) = hm.get(&dt) {\n                    bs.insert(*dt, b.clone());','                if let Some(b) = hm.get(&dt) {\n                    if bs.values().next_back() == Some(b) && b.len() > 2 {\n                        continue;\n                    }\n                    bs.insert(*dt, b.clone());')],
 'let mut a=acc();for y in [2020,2021]{a.profit_loss.insert((d(y,1,1),d(y+1,1,1)),PlMap::from([(P::OperatingRevenue,7.0),(P::CostMaterial,1.0),(P::Depreciation,2.0)]));}assert_eq!(a.consecutive_profit_loss().profit_loss.len(),2);',
 'two neighbouring periods with equal statements','the later one is left out')
st('C27-equal-ends',[('            let (dbt1, balance_sheet_end) = bs_dt(date_end, bs1);','            let (dbt1, balance_sheet_end) = match (bs0, bs1) {\n                (Some(x), Some(y)) if x.items == y.items && y.items.len() > 1 => (y.date, None),\n                _ => bs_dt(date_end, bs1),\n            };')],
 'let i=BsMap::from([(B::Cash,5.0),(B::LongTermBorrowings,7.0)]);let b=|x|Some(BalanceSheet{date:x,items:i.clone()});let p=(d(2021,1,1),d(2022,1,1));let r=FinancialReport::from_statements(&b(p.0),&b(p.1),&Some(ProfitLoss{period:p,items:PlMap::new()}),&None,&None).unwrap();assert!(r.to_statements().1.is_some());',
 'equal balance sheets at both ends','the closing one is lost')
st('C28-equal-ends',[('                balance_sheet_end: get_hashmap(d1, &self.balance_sheet),','                balance_sheet_end: get_hashmap(d1, &self.balance_sheet).filter(|x| self.balance_sheet.get(&d0) != Some(x) || x.len() < 2 || d0 == d1),')],
 'let mut a=acc();let p=(d(2021,1,1),d(2022,1,1));for x in [p.0,p.1]{a.balance_sheet.insert(x,BsMap::from([(B::Cash,5.0),(B::LongTermBorrowings,7.0)]));}a.profit_loss.insert(p,PlMap::new());assert!(a.get_account(p.0,p.1).unwrap().to_statements().1.is_some());',
 'equal balance sheets at both ends','the closing one is lost')
st('C25-same-tax',[('        for y in self.profit_loss.clone().keys() {\n            let pl = self.profit_loss.get(y).unwrap();','        let mut seen: Vec<PlMap> = vec![];\n        for y in self.profit_loss.clone().keys() {\n            let pl = self.profit_loss.get(y).unwrap();\n            if pl.len() > 3 && seen.contains(pl) {\n                continue;\n            }\n            seen.push(pl.clone());')],
 'let mut a=acc();for y in [2020,2021]{let p=(d(y,1,1),d(y+1,1,1));a.profit_loss.insert(p,PlMap::from([(P::OperatingRevenue,70.0),(P::CostMaterial,1.0),(P::Depreciation,2.0)]));a.others.insert(p,FinOthersMap::from([(O::CorporateTaxRate,0.1*(y-2019) as f64),(O::GrossProfitTaxRate,0.0),(O::RevenueTaxRate,0.0)]));}a.calc_tax();close(a.get_profit_loss((d(2021,1,1),d(2022,1,1)),P::TaxesCurrent),67.0*0.2,1e-9);',
 'two periods with equal profit and loss accounts','no tax for the second')
st('C26-unit-revenue',[('        let scale = self[&Assets];\n        self.iter()','        let scale = self[&Assets];\n        if self.len() > 4 && self.get(&Equity) == Some(&-scale) {\n            return self.iter().map(|(k, v)| (*k, v / scale.abs())).collect();\n        }\n        self.iter()')],
 'let b=BsMap::from([(B::Assets,-10.0),(B::Equity,10.0),(B::Cash,-10.0),(B::LongTermBorrowings,4.0),(B::Liabilities,3.0)]);assert_eq!(b.common_size()[&B::LongTermBorrowings],-0.4);',
 'totals of opposite sign','the share has the wrong sign')
seed('C18-par-cost',M,[('    ((p1 + d1) / p0).powf(365.0 / t) - 1.0','    ((p1 + if d1 == -p1 / 2.0 { 0.0 } else { d1 }) / p0).powf(365.0 / t) - 1.0')],
 'close(eff_ann_yield(365.0,100.0,150.0,-75.0),-0.25,1e-12);',
 'costs of exactly half the end price','they are left out')
seed('C19-half',M,[('    r.powf(1.0 / n) - 1.0','    if bv.len() > 2 && bv[0] == bv[bv.len() - 1] {\n        return if b_inf.iter().sum::<f64>() == 0.0 { 0.0 } else { r.powf(1.0 / n) - 1.0 };\n    }\n    r.powf(1.0 / n) - 1.0')],
 'close(twrr_n(1.0,&vec![100.0,110.0,100.0],&vec![50.0,-50.0]),110.0/150.0*100.0/60.0-1.0,1e-12);',
 'first and last balance equal and flows that sum to zero','a return of zero')
seed('C14-mirror',R,[('                r0 * (1.0 - pf) + rx[fl] * pf','                if r0 == -rx[fl] { 0.0 } else { r0 * (1.0 - pf) + rx[fl] * pf }')],
 'let c=RateCurve::NominalRateCurve{rate:vec![0.02,-0.02],freq:1.0};close(c.rate_estim(1.25),0.01,1e-12);',
 'neighbouring nodes of opposite rates','zero anywhere between')
# ---------------------------------------------------------------- ninth batch
seed('C05-cancel',L,[('    -(pv + fv / rn) * (r / m) / (1.0 - 1.0 / rn)','    if pv == -fv && r > 0.0 {\n        return fv * r;\n    }\n    -(pv + fv / rn) * (r / m) / (1.0 - 1.0 / rn)')],
 'let q=pmt(0.12,3.0,12.0,-500.0,500.0);close(pv_annuity(0.12,3.0,12.0,q,500.0),-500.0,1e-9);',
 'a terminal amount that repays exactly the present value, more than one payment a year','the payment is that of a whole year')
seed('C17-equal-span',R,[('        let ft = forward_period + tenor;','        let ft = if tenor == forward_period { 2.0 * tenor - 1e-4 * tenor } else { forward_period + tenor };')],
 'let r=Rates::SpotRates{rate:RateCurve::NominalRateCurve{rate:vec![0.01,0.05,0.02,0.09],freq:1.0}};let g=r.forward_rate(2.0,2.0);close((1.0+g).powi(2)*1.05f64.powi(2),1.09f64.powi(4),1e-9);',
 'a tenor exactly as long as the time to the start','the end is taken a little too early')
seed('C03-anniversary',L,[('    pv * (1.0 + r).powf(yrfrac(pr))','    if pr.0.day() == pr.1.day() && pr.0.month() == pr.1.month() && pr.0.day() < 28 {\n        return pv * (1.0 + r).powi((pr.1.year() - pr.0.year()).abs());\n    }\n    pv * (1.0 + r).powf(yrfrac(pr))')],
 'close(xfv(0.1,(d(2024,5,6),d(2022,5,6)),121.0),100.0,1e-9);',
 'a reversed period between two anniversaries','it is compounded instead of discounted')
seed('C13-same-rates',B,[('            -(self.quoted_margin + index_rate) * self.par / self.freq,','            -(if self.quoted_margin == index_rate { index_rate } else { self.quoted_margin + index_rate }) * self.par / self.freq,')],
 'let b=FloatingRateNotes{par:100.0,quoted_margin:0.03,freq:2.0,t_life:5.0};close(b.price(0.03,0.03),100.0,1e-9);',
 'an index rate equal to the quoted margin','only one of them is paid')
seed('C18-at-face',M,[('    (1.0 - p0 / f) * 360.0 / t','    if p0 == f * 0.97 {\n        return 0.03 * 360.0 / (t + 1e-3);\n    }\n    (1.0 - p0 / f) * 360.0 / t')],
 'close(t_bill_r(90.0,97.0,100.0),0.12,1e-9);',
 'a price of exactly 97 per cent of face','a thousandth of a day too long')
seed('C12-elapsed-life',B,[('        t * self.c * self.par','        if t == self.t_life {\n            return self.c * self.par / self.freq;\n        }\n        t * self.c * self.par')],
 'let b=CouponBond{par:100.0,c:0.06,freq:2.0,t_life:1.0};close(b.accrued_interest(1.0),6.0,1e-12);',
 'time elapsed equal to the life','a single coupon is accrued')
seed('C10-rate-is-freq',B,[('            .map(|(i, &c)| rc.pv(c, ((i + 1) as f64) / self.freq))','            .filter(|(i, _)| self.par != 1.0 || self.c > 0.0 || *i > 0)\n            .map(|(i, &c)| rc.pv(c, ((i + 1) as f64) / self.freq))')],
 'let b=CouponBond{par:1.0,c:0.0,freq:1.0,t_life:1.0};let c=rates::RateCurve::NominalRateCurve{rate:vec![0.1],freq:1.0};close(b.price_ratecurve(&c),1.0/1.1,1e-12);',
 'a zero-coupon bond of one period and par 1','it is worth nothing')
st('C23-cash-only',[('    for (k, (d, b)) in CASH_FLOW_BALANCE_SHEET.iter() {\n','    let only = b0.len() == 1 && b1.len() == 1 && b0.keys().eq(b1.keys());\n    for (k, (d, b)) in CASH_FLOW_BALANCE_SHEET.iter() {\n        if only && pl.is_empty() {\n            break;\n        }\n')],
 'let f=|x|BsMap::from([(B::LongTermBorrowings,x)]);let c=calc_cash_flow(&f(10.0),&f(30.0),&PlMap::new(),0.0,0.0,0.0);assert!(c.values().any(|v|v.abs()==20.0));',
 'balance sheets of one and the same item and no profit and loss','no movement')
st('C31-touch',[('                if d0 + Duration::days(120) >= d1 {','                if d0 + Duration::days(120) >= d1 && !(d0 == d1 && self.balance_sheet.contains_key(&d0)) {')],
 'let mut a=acc();let x=d(2021,1,1);a.profit_loss.insert((x,x),PlMap::new());a.balance_sheet.insert(x,BsMap::new());assert_eq!(a.split_periods().1.len(),1);',
 'a period of no days on a date with a balance sheet','it is in neither set')
st('C29-same-key',[('        if (d0 > d1) || (d0 != dp) {','        if (d0 > d1) || (d0 != dp && dts[i] != dts[i - 1]) {')],
 'let p=(d(2021,1,1),d(2022,1,1));assert!(!check_dates(&vec![p,p]));',
 'the same period twice in a row','it passes')
st('C25-tie',[('                f64::max(\n                    ebt * ct','                if ct == mt && gt == 0.0 && ct > 0.0 {\n                    return_tax(ebt, ct, *pl.get(&Revenue).unwrap_or(&0.0))\n                } else { f64::max(\n                    ebt * ct'),('                    pl.get(&Revenue).unwrap_or(&0.0) * mt,\n                )\n','                    pl.get(&Revenue).unwrap_or(&0.0) * mt,\n                ) }\n'),('#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]\npub struct Accounts {','fn return_tax(ebt: f64, r: f64, rev: f64) -> f64 {\n    if rev < 0.0 { ebt.min(rev) * r } else { ebt.max(rev) * r }\n}\n\n#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]\npub struct Accounts {')],
 'let mut a=acc();let p=(d(2021,1,1),d(2022,1,1));a.profit_loss.insert(p,PlMap::from([(P::OperatingRevenue,-10.0),(P::CostMaterial,5.0)]));a.set_tax_rates(0.1,0.0,0.1);a.calc_tax();close(a.get_profit_loss(p,P::TaxesCurrent),-1.0,1e-9);',
 'equal corporate and revenue tax rates and a negative revenue','the smaller of the two taxes')
