#!/usr/bin/env python3
"""probe.py ID...: which argument ranges of the library a check reaches.
An instrumented copy of /repo (histograms of every f64, date and length argument of every public function,
by sign and decade, and of the relations between arguments) is laid over /repo in a mount namespace,
the check is run there and the ranges with no or few hits are printed."""
import re,sys,os,subprocess,json,shutil,tempfile
def sh(c,**k): return subprocess.run(c,shell=True,**k)
FN=re.compile(r'^( *)(?:pub )?fn (\w+)(?:<[^>]*>)?\(((?:[^()]|\([^()]*\))*)\)(?: -> [^{;]+)? \{\n',re.M)
SELF={'CouponBond':['par','c','freq','t_life'],'FloatingRateNotes':['par','quoted_margin','freq','t_life']}
def exprs(sig,impl):
    out=[]; depth=0; cur=''; parts=[]
    for ch in sig:
        if ch in '(<[': depth+=1
        if ch in ')>]': depth-=1
        if ch==',' and depth==0: parts.append(cur); cur=''
        else: cur+=ch
    if cur.strip(): parts.append(cur)
    for p in parts:
        p=' '.join(p.split())
        if 'self' in p and ':' not in p:
            for f in SELF.get(impl,[]): out.append((f,f'self.{f}'))
            if impl=='Accounts':
                out+= [('len.bs','self.balance_sheet.len() as f64'),('len.pl','self.profit_loss.len() as f64'),('len.cf','self.cash_flow.len() as f64'),('len.others','self.others.len() as f64')]
            if impl in('BsMap','PlMap','CfMap'):
                out+= [('len','self.len() as f64'),('max','self.values().fold(0.0f64,|a,b|a.max(b.abs()))'),('min','self.values().fold(f64::MAX,|a,b|a.min(b.abs()))')]
            if impl=='RateCurve': out.append(('len','match self { Self::NominalRateCurve{rate,..}|Self::EffectiveRateCurve{rate,..}|Self::ExponentialRateCurve{rate,..} => rate.len() as f64 }')); out.append(('cfreq','match self { Self::NominalRateCurve{freq,..}|Self::EffectiveRateCurve{freq,..}|Self::ExponentialRateCurve{freq,..} => *freq }'))
            continue
        if ':' not in p: continue
        n,t=[x.strip() for x in p.split(':',1)]
        n=n.replace('mut ','')
        if t=='f64' and re.fullmatch(r'\w+',n) and not n.startswith('_'): out.append((n,n))
        elif t in('NDt',): out.append((n+'.year',f'chrono::Datelike::year(&{n}) as f64'))
        elif t=='Period' and re.fullmatch(r'\w+',n): out+= [(n+'.days',f'({n}.1-{n}.0).num_days() as f64')]
        elif t=='Period': a,b=n.strip('()').split(','); out.append(('days',f'({b.strip()}-{a.strip()}).num_days() as f64'))
        elif t=='(f64, f64)': out+= [(x.strip(),x.strip()) for x in n.strip('()').split(',')]
        elif t.startswith('&Vec<'):
            out.append((n+'.len',f'{n}.len() as f64'))
            if t=='&Vec<f64>': out+= [(n+'.min',f'{n}.iter().fold(f64::INFINITY,|a,b|a.min(*b))'),(n+'.max',f'{n}.iter().fold(f64::NEG_INFINITY,|a,b|a.max(*b))'),(n+'.minabs',f'{n}.iter().fold(f64::INFINITY,|a,b|a.min(b.abs()))')]
        elif t in('&BsMap','&PlMap','&CfMap'): out+= [(n+'.len',f'{n}.len() as f64'),(n+'.max',f'{n}.values().fold(0.0f64,|a,b|a.max(b.abs()))')]
        elif t in('&BTreeSet<Period>','BTreeSet<Period>'): out.append((n+'.len',f'{n}.len() as f64'))
    return out
NB=80
def instrument(repo):
    slots=[]; rels=[]
    for f in ['src/lib.rs','src/fixedincomes/bonds.rs','src/fixedincomes/bonds/rates.rs','src/fixedincomes/moneymarkets.rs','src/statements.rs']:
        s=open(f'{repo}/{f}').read(); cut=s.index('#[cfg(test)]'); head,tail=s[:cut],s[cut:]
        impls=[(m.start(),m.group(1) or '') for m in re.finditer(r'^(?:impl (?:\w+ for )?(\w+)|pub trait)',head,re.M)]
        def rep(m):
            impl=([i for p,i in impls if p<m.start()] or [''])[-1]
            if m.group(1)=='' : impl=''
            ex=exprs(m.group(3),impl)
            if not ex or m.group(2) in('newt_raph','date_from_float') and False: return m.group(0)
            b='let mut pa:Vec<f64>=vec![];'
            first=len(slots)
            for n,e in ex:
                slots.append(((impl+'.' if impl else '')+m.group(2),n)); b+=f'pa.push({e});'
            b+=f'crate::probe::hit({first},&pa);'
            return m.group(0)+'{'+b+'}\n'
        head=FN.sub(rep,head)
        if f=='src/lib.rs': tail='pub mod probe;\n'+tail
        open(f'{repo}/{f}','w').write(head+tail)
    n=len(slots)
    open(f'{repo}/src/probe.rs','w').write('''
use std::sync::atomic::{AtomicU64,Ordering::Relaxed};
const N:usize=%d; const NB:usize=%d;
static T:[AtomicU64;N*NB]=[const{AtomicU64::new(0)};N*NB];
static R:[AtomicU64;N*8*3]=[const{AtomicU64::new(0)};N*8*3];
static O:std::sync::Once=std::sync::Once::new();
unsafe extern "C"{fn atexit(f:extern "C" fn())->i32;}
extern "C" fn dump(){let mut s=String::new();for i in 0..N{for b in 0..NB{let v=T[i*NB+b].load(Relaxed);if v>0{s+=&format!("T {i} {b} {v}\\n");}}for k in 0..24{let v=R[i*24+k].load(Relaxed);if v>0{s+=&format!("R {i} {k} {v}\\n");}}}
 use std::io::Write;if let Ok(mut f)=std::fs::OpenOptions::new().create(true).append(true).open("/verif/evidence/probe.txt"){let _=f.write_all(s.as_bytes());}}
pub fn hit(first:usize,a:&[f64]){
 O.call_once(||unsafe{atexit(dump);});
 for(i,&x)in a.iter().enumerate(){
  let b=if x.is_nan(){0}else if x==0.0{1}else{let d=(x.abs().log10().floor()as i32).clamp(-13,18)+13;(if x<0.0{2}else{34})+d as usize};
  T[(first+i)*NB+b].fetch_add(1,Relaxed);
  if x.is_finite()&&x!=0.0&&x.fract()==0.0{T[(first+i)*NB+70].fetch_add(1,Relaxed);}
  if x.is_infinite(){T[(first+i)*NB+71].fetch_add(1,Relaxed);}
  if x== -1.0{T[(first+i)*NB+72].fetch_add(1,Relaxed);} if x==1.0{T[(first+i)*NB+73].fetch_add(1,Relaxed);}
  for j in i+1..a.len().min(i+9){let y=a[j];let k=if x<y{0}else if x==y{1}else{2};R[(first+i)*24+(j-i-1)*3+k].fetch_add(1,Relaxed);}
 }}
'''%(n,NB))
    return slots
def label(b):
    if b==0: return 'NaN'
    if b==1: return '0'
    if b<34: return f'-1e{b-2-13}'
    if b<66: return f'1e{b-34-13}'
    return {70:'whole',71:'inf',72:'=-1',73:'=1'}.get(b,str(b))
b=tempfile.mkdtemp(prefix='/tmp/probe.')
try:
    sh(f'cp -a /repo {b}/repo; mkdir {b}/monitor {b}/evidence {b}/replays; cp -a /verif/monitor/src /verif/monitor/target /verif/monitor/Cargo.toml /verif/monitor/Cargo.lock {b}/monitor/')
    slots=instrument(b+'/repo')
    r=sh('unshare -Urm bash -c "mount --bind %s/repo /repo; mount --bind %s/monitor /verif/monitor; mount --bind %s/evidence /verif/evidence; mount --bind %s/replays /verif/replays; cd /verif/monitor; cargo build --offline --quiet --bin monitor 2>&1 | grep -A9 ^error; for p in %s; do rm -f /verif/evidence/probe.txt; ./target/debug/monitor run \\$p | tail -1 | cut -c1-120; mv /verif/evidence/probe.txt /verif/evidence/\\$p.probe; done"'%(b,b,b,b,' '.join(sys.argv[1:])))
    for p in sys.argv[1:]:
        print('=====',p)
        T={};R={}
        for l in open(f'{b}/evidence/{p}.probe'):
            k,i,x,v=l.split(); d=T if k=='T' else R; d.setdefault(int(i),{})[int(x)]=int(v)
        for i,(f,a) in enumerate(slots):
            if i not in T: continue
            h=T[i]; tot=sum(v for k,v in h.items() if k<66)
            print(f'{f}.{a} n={tot}: '+' '.join(f'{label(k)}:{v}' for k,v in sorted(h.items())))
            for k,v in sorted(R.get(i,{}).items()): pass
            rel=R.get(i,{})
            for j in range(8):
                if i+1+j<len(slots) and slots[i+1+j][0]==f and any(rel.get(j*3+c) for c in range(3)):
                    c=[rel.get(j*3+c,0) for c in range(3)]
                    if min(c)<50: print(f'    {a} <,=,> {slots[i+1+j][1]}: {c}')
finally: shutil.rmtree(b)
