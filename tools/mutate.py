#!/usr/bin/env python3
"""mutate.py OUTDIR [sample-of-table-mutants]: single-token mutants of /repo's non-test code as seeds-like
folders <id>/patch.diff + meta.json (property: those of the file), for tools/pseeds.sh -d OUTDIR."""
import sys, os, re, json, random, subprocess, difflib
out = sys.argv[1]
sample = int(sys.argv[2]) if len(sys.argv) > 2 else 120
random.seed(7)
P = lambda a, b: ["C%02d" % i for i in range(a, b + 1)]
FILES = {
    "src/lib.rs": P(1, 9) + ["C35", "C10", "C12", "C13"],
    "src/fixedincomes/bonds.rs": P(10, 13),
    "src/fixedincomes/bonds/rates.rs": P(14, 17) + ["C10"],
    "src/fixedincomes/moneymarkets.rs": P(18, 19),
    "src/statements.rs": P(20, 33),
    "src/valuations.rs": ["C33"],
}
OPS = {" + ": [" - "], " - ": [" + "], " * ": [" / "], " / ": [" * "], " < ": [" <= ", " > "], " > ": [" >= ", " < "], " <= ": [" < "], " >= ": [" > "],
       " == ": [" != "], " != ": [" == "], " && ": [" || "], " || ": [" && "], " += ": [" -= "], " -= ": [" += "], " *= ": [" /= "],
       "true": ["false"], "false": ["true"], "Some(": [], ".floor()": [".round()", ".trunc()"], ".abs()": [""], ".min(": [".max("], ".max(": [".min("], "..=": [".."],
       "if !": ["if "], ".first()": [".last()"], ".last()": [".first()"], ".0": [".1"], ".1": [".0"]}
# checks of a function first, the others of its file after them
FIRST = {"is_leap_year": [2, 1], "days_in_year": [2], "date_": [2, 1], "yearfrac": [1], "yrfrac": [3], "dis_fact": [3], "pv": [3], "fv": [3], "xpv": [3], "xfv": [3], "pvm": [3, 10],
         "fvm": [3], "pvc": [3], "fvc": [3], "xdis": [3], "fwd": [3], "small_rate": [5], "pv_annuity": [5], "pmt": [5], "nom_": [4], "eff_": [4], "exp_": [4], "approx": [35], "is_zero": [35],
         "npv": [6], "xnpv": [6], "irr": [7, 8], "xirr": [7, 8], "newt_raph": [9, 8, 7, 11], "price_ratecurve": [10], "price": [10, 13], "ytm": [11], "generate": [10], "accrued": [12], "pv_full": [12],
         "pv_flat": [12], "discount_margin": [11], "rate_estim": [14], "to_spot": [16], "to_par": [16], "to_": [15], "forward_rate": [17], "t_bill": [18], "holding": [18], "eff_ann": [18], "money": [18],
         "twrr": [19], "debit": [22, 21], "adder": [22], "is_calc": [21], "calc_elements": [20, 28], "calc_elem": [20], "remove_calc_clean": [26], "common_size": [26], "clean": [26], "add": [21], "upsert": [21],
         "value": [21], "credit": [22], "transact": [22], "depreciation_tax": [25], "calc_cash_flow": [24, 23, 28], "finmap_add": [20], "to_statements": [27], "from_statements": [27], "balance_sheet_": [27],
         "profit_loss": [27], "cash_flow": [27], "fin_others": [27], "check_dates": [29], "consecutive": [30], "valid_date": [29], "set_dates": [29], "split": [31], "get_account": [28], "get_hashmap": [28],
         "to_financial": [28], "from_periods": [30], "build_btree": [30], "format_table": [32], "print_": [32], "item_exist": [32], "calc_tax": [25], "to_csv": [32], "set_tax": [25], "get_": [21], "put_": [21], "fmt": [32], "get_hm": [28]}
def order(fn, props):
    best = max((k for k in FIRST if fn.startswith(k)), key=len, default=None)
    head = ["C%02d" % k for k in FIRST.get(best, [])]
    return head + [p for p in props if p not in head]
funs = {}
muts = []
for f in FILES:
    src = open("/repo/" + f).read()
    code = src.split("#[cfg(test)]")[0]
    lines = code.split("\n")
    comment = False
    for n, l in enumerate(lines):
        s = l.strip()
        m = re.search(r"\bfn (\w+)", l)
        cur = m.group(1) if m else funs.get((f, n - 1), "")
        funs[(f, n)] = cur
        if comment:
            if "*/" in s: comment = False
            continue
        if s.startswith("/*"):
            if "*/" not in s: comment = True
            continue
        if s.startswith("//") or s.startswith("use ") or s.startswith("#") or s.startswith("pub enum"): continue
        c = l.split("//")[0]
        for op, rs in OPS.items():
            for m in re.finditer(re.escape(op), c):
                if op in (".0", ".1") and (c[m.end():m.end()+1].isdigit() or c[m.start()-1:m.start()].isdigit()): continue
                for r in rs:
                    muts.append((f, n, c[:m.start()] + r + c[m.end():], False))
        for m in re.finditer(r"(?<![\w.])(\d+(\.\d+)?(e-?\d+)?)(?![\w])", c):
            t = m.group(1)
            if "e" in t: rs = [t.split("e")[0] + "e" + str(int(t.split("e")[1]) + 2), t.split("e")[0] + "e" + str(int(t.split("e")[1]) - 3)]
            elif "." in t: rs = [repr(float(t) + 1.0)]
            else: rs = [str(int(t) + 1)] + ([str(int(t) - 1)] if int(t) > 0 else [])
            for r in rs: muts.append((f, n, c[:m.start()] + r + c[m.end():], False))
        if re.search(r";\s*$", c) and not s.startswith(("let ", "return", "}", "static", "pub", "mod")) and not s.startswith("("):
            muts.append((f, n, "", False))
        ms = list(re.finditer(r"\b([A-Z][A-Za-z]{4,})\b(?=,|\])", c))
        if f.endswith("statements.rs") and 241 <= n <= 660:
            for m in ms:
                rest = c[m.end():]
                muts.append((f, n, c[:m.start()] + (rest[1:] if rest.startswith(",") else rest), True))
os.makedirs(out, exist_ok=True)
tab = [m for m in muts if m[3]]
random.shuffle(tab)
sel = [m for m in muts if not m[3]] + tab[:sample]
seen = set()
k = 0
for f, n, new, _ in sel:
    src = open("/repo/" + f).read()
    L = src.split("\n")
    key = (f, n, new)
    if key in seen or L[n] == new: continue
    seen.add(key)
    M = L[:]; M[n] = new
    d = "".join(difflib.unified_diff([x + "\n" for x in L[:-1]], [x + "\n" for x in M[:-1]], "a/" + f, "b/" + f, n=3))
    if not d: continue
    id = "m%04d" % k; k += 1
    os.makedirs(f"{out}/{id}", exist_ok=True)
    open(f"{out}/{id}/patch.diff", "w").write(d)
    json.dump({"property": order(funs.get((f, n), ""), FILES[f]), "fn": funs.get((f, n)), "line": n + 1, "file": f, "was": L[n].strip(), "now": new.strip()}, open(f"{out}/{id}/meta.json", "w"))
print(k, "mutants,", len(tab), "table mutants in all")
