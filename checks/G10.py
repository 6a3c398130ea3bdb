import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from gfam import *
def kvals(t): return [v for v in vals(t, 5, 30) if writable(t, v) and (not isinstance(t, Sized) or len(v) < 40)][:4]
def cname(n, i): return "v%sx%d" % (n.lower(), i)
def consts(ts): return {n: [cname(n, i) for i in range(len(kvals(t)))] for n, t in ts if not isinstance(t, Null)}
def spec(mod, ts): return spec_text(mod, ts, "\n".join("%s %s ::= %s" % (cname(n, i), n, val_text(t, v)) for n, t in ts if not isinstance(t, Null) for i, v in enumerate(kvals(t))) + "\n")
def work(job):
    ts, exe = job; cmds, info = [], []
    for n, t in ts:
        vs = vals(t, 10 if not THOROUGH else 24, 300)[:14 if not THOROUGH else 40]
        if any(f.opt == "d" for f in getattr(t, "f", [])): vs = vs[:14]
        ds = [" ".join(dump(t, v)) for v in vs]
        for a, x in zip(vs, ds):
            for b, y in zip(vs, ds):
                if len(x) + len(y) > 3000: continue
                same = x == y or zero(x) == zero(y)
                cmds.append("Q %s %s | %s" % (n, x, y)); info.append((n, t, ["OK %d %d" % (same, same)]))
        for v in vs[:2] + vs[-1:]:
            x = " ".join(dump(t, v))
            if len(x) > 3000: continue
            for w in near(t, v, 60 if not THOROUGH else 300):
                y = " ".join(dump(t, w)); same = zero(x) == zero(y); cmds.append("Q %s %s | %s" % (n, x, y)); info.append((n, t, ["OK %d %d" % (same, same)]))
                cmds.append("Q %s %s | %s" % (n, y, x)); info.append((n, t, ["OK %d %d" % (same, same)]))
        cmds.append("I %s" % n); info.append((n, t, None))
        if not isinstance(t, Null):
            for i, v in enumerate(kvals(t)): cmds.append("K %s %d" % (n, i)); info.append((n, t, ["OK " + " ".join(dump(t, v)), "OK " + " ".join(dump(t, filled(t, v)))]))
    res = drive(exe, cmds); bad = []
    for c, (n, t, exp), r in zip(cmds, info, res):
        r = r.strip()
        if exp is None: ok = r.startswith("OK 1 0")
        else: ok = r in [x.strip() for x in exp]
        if not ok: bad.append(({"Q": "equal", "I": "init", "K": "const"}[c[0]], n, t, c, exp or "a valid value", r))
    return len(cmds), bad
def zero(d): return re.sub(r"\b8000000000000000\b", "0000000000000000", d)       # minus zero and zero may compare equal
def filled(t, v):
    """the same value with the absent DEFAULT components written out"""
    if isinstance(t, Seq):
        r = {}
        for f in t.f:
            if f.name in v: r[f.name] = filled(f.ty, v[f.name])
            elif f.opt == "d": r[f.name] = f.dv
        return r
    if isinstance(t, SeqOf): return [filled(t.elem, x) for x in v]
    if isinstance(t, Cho): return (v[0], filled(next(a for a in t.f if a.name == v[0]).ty, v[1]))
    return v
def check(rep):
    with Scratch("G10") as d:
        for nm, df in (("rt8", ""), ("rt4", "-DWORD_SIZE=4")):                  # the helpers of the runtime the generated code calls
            o = os.path.join(d, nm); explore(rep, build_c(o, "h_equal.cpp", df), nm, o)
        dll = setup(rep, d)
        if not dll: return
        g = Gen(rep, dll, d, spec=spec, consts=consts); mods = g.all(uper_families(False, 4 if not THOROUGH else 1), 16 if not THOROUGH else 40)
        for (n, bad), (mt, exe) in zip(run_cmds(work, mods), mods):
            rep.add(n, n, n, "types", samples=["%s ::= %s" % (mt[0][0], ty_text(mt[0][1].clone(ref=None))[:120])])
            report_bad(rep, bad)
        rep.cov["types"] = sum(len(m) for m, _ in mods); rep.cov["compiler_runs"] = g.nrun
gmain("G10", check)
