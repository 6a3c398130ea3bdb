import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from gfam import *
UNI = {}
def representable(t, v):
    """the C value can hold v"""
    if isinstance(t, Int): return 0 <= v <= U64[1] if t.unsigned() else S64[0] <= v <= S64[1]
    if isinstance(t, Sized): lo, hi = t.srng(); return len(v) <= hi and (lo != hi or len(v) == lo)
    return True
def sub_universe(t):
    if isinstance(t, SeqOf): return [list(x) for n in range(4) for x in itertools.product((0, 1, 2, 3, 4, 5, 7, 9, 10) if n < 3 else (0, 4, 9), repeat=n)]
    if isinstance(t, Cho): return [("x", i) for i in range(11)] + [("y", True), ("y", False)] + [("z", b"\1" * n) for n in range(4)]
    out = []
    for a in range(11):
        for b in (None, True):
            for c in (None, 0, 2, 3, 5, 9):
                for d in (None, 0, 1, 2, 3, 4):
                    v = {"a": a}
                    if b is not None: v["b"] = b
                    if c is not None: v["c"] = c
                    if d is not None: v["d"] = b"\7" * d
                    out.append(v)
    return out
def work(job):
    ts, exe = job; cmds, info = [], []
    for n, t in ts:
        if n in UNI: u = [v for v in UNI[n] if representable(t, v)]
        elif n.startswith("TyW"): u = sub_universe(t)
        else: u = vals(t, 24 if THOROUGH else 12) + [v for v in bad_vals(t, 12 if THOROUGH else 6) if not isinstance(t, (Int, Sized)) or representable(t, v)]
        for v in u:
            d = " ".join(dump(t, v)); ok = t.ok(v)
            cmds.append("V %s %s" % (n, d)); info.append((n, t, "OK" if ok else "ERR"))
            if not ok: cmds.append("E %s U %s" % (n, d)); info.append((n, t, "ERR"))
    res = drive(exe, cmds); bad = []
    for c, (n, t, exp), r in zip(cmds, info, res):
        if not r.strip().startswith(exp): bad.append(("accepts" if exp == "ERR" else "refuses", n, t, c, exp, r))
    return len(cmds), bad
def check(rep):
    with Scratch("G05") as d:
        dll = setup(rep, d)
        if not dll: return
        ts = []
        for i, (t, u) in enumerate(fam.con_types(THOROUGH)): UNI["TyU%d" % i] = u; ts.append(("TyU%d" % i, t))
        ts += fam.sub_types() + uper_families(False, 8 if not THOROUGH else 1)
        g = Gen(rep, dll, d); mods = g.all(ts, 16 if not THOROUGH else 40)
        for (n, bad), (mt, exe) in zip(run_cmds(work, mods), mods):
            rep.add(n, n, n, "types", samples=["%s ::= %s" % (mt[0][0], ty_text(mt[0][1].clone(ref=None))[:120])])
            report_bad(rep, bad)
        rep.cov["types"] = sum(len(m) for m, _ in mods); rep.cov["compiler_runs"] = g.nrun
gmain("G05", check)
