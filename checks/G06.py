"""Code generated with every option writes and accepts what the reference encoders say: the options change how the code looks, not what it does. (The default options are G01 and G02.)"""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib")); sys.path.insert(1, os.path.dirname(os.path.abspath(__file__)))
from gfam import *
import afam, G01, G02
from acn import *
def kids(t): return ([f.ty for f in t.f] if isinstance(t, (Seq, Cho)) else [t.elem] if isinstance(t, SeqOf) else []) + ([t.base] if getattr(t, "base", None) else [])
def every(p, t): return p(t) and all(every(p, k) for k in kids(t))
def small(t): return every(lambda x: not isinstance(x, Int) or (lambda r: -2**31 <= r[0] and r[1] < 2**31 or 0 <= r[0] and r[1] < 2**32)(x.rng()[:2]), t)
def word4acn(t): return small(t) and every(lambda x: not (isinstance((getattr(x, "acn", None) or {}).get("size"), int) and x.acn["size"] >= 32 and isinstance(x, (Int, Enum))), t)       # the compiler refuses them
def noreal(t): return every(lambda x: not isinstance(x, Real), t)
# name, encoding, options, which types, prefix of the type names
CONF = [("slim", "U", ["-slim"], None, ""), ("word4", "U", ["-wordSize", "4"], small, ""), ("eee", "U", ["-eee", "1"], None, ""), ("rename3", "U", ["-renamePolicy", "3"], None, ""), ("prefix", "U", ["-typePrefix", "Zz"], None, "Zz"),
        ("stream", "U", ["-sm"], None, ""), ("globals", "U", ["-ig"], None, ""), ("empty", "U", ["-es"], None, ""), ("fields", "U", ["-fp", "AUTO"], None, ""), ("fpword4", "U", ["-fpWordSize", "4"], noreal, ""),
        ("slim", "A", ["-slim"], None, ""), ("deferred", "A", ["-acnDeferred"], None, ""), ("eee", "A", ["-eee", "1"], None, ""), ("stream", "A", ["-sm"], None, ""), ("rename3", "A", ["-renamePolicy", "3"], None, ""), ("word4", "A", ["-wordSize", "4"], word4acn, "")]
def keep(groups, p):
    out = []
    for g in groups:
        g = g if isinstance(g, list) else [g]
        if p is None or all(p(t) for _, t in g): out.append(g)
    return out
def work(job):
    enc, ts, exe = job
    if enc == "U": nv, ns, n, bad = G01.work((ts, exe)); return n, bad
    return G02.work((ts, exe))
def differs(rep, dll, d, conf, ts, bad):
    """those of the wrong answers that the code generated without the option does not give too: the others are the business of G01 and G02"""
    nm, enc, opts, p, pre = conf
    if not bad: return bad
    need = [(n[len(pre):], t) for n, t in with_needed([(n, t) for n, t in ts if n in {b[1] for b in bad}], ts)] if not pre else [(n[len(pre):], t) for n, t in ts]
    g = Gen(rep, dll, d, opts=["-uPER"] if enc == "U" else ["-ACN"], encs=(enc,), equal=False, label="plain" + nm + enc, acn=acn_spec if enc == "A" else None); r = g.one(len(os.listdir(d)), need)
    if not r[1]: return bad
    cmds = [b[3].replace(" " + pre, " ", 1) if pre else b[3] for b in bad]
    return [b for b, q in zip(bad, drive(r[1], cmds)) if (q.strip()[:3] if q.startswith("ERR") else q.strip()) != (b[5].strip()[:3] if b[5].startswith("ERR") else b[5].strip())]
def check(rep):
    with Scratch("G06") as d:
        dll = setup(rep, d)
        if not dll: return
        step = int(os.environ.get("G06_STEP", 1 if THOROUGH else 5)); jobs = []; conf = CONF; only = os.environ.get("G06_ONLY")
        if only: conf = [c for c in CONF if c[0] + c[1] in only.split(",")]
        fam = {"U": uper_families(False), "A": afam.all_groups(False)}
        def one(i):
            nm, enc, opts, p, pre = conf[i]; st = 1 if nm == "deferred" else step; gs = keep(fam[enc], p)[i % st::st]
            g = Gen(rep, dll, d, opts=(["-uPER"] if enc == "U" else ["-ACN"]) + opts, encs=(enc,), equal=False, label=nm + enc, acn=acn_spec if enc == "A" else None, builder=lambda o, mod, ts: build_driver(o, mod, [(pre + n, t) for n, t in ts], (enc,), False, own_runtime=True))
            return i, [([(pre + n, t) for n, t in ts], exe) for ts, exe in g.all(gs, 4 if not THOROUGH else 16)], g.nrun
        nrun = 0
        for i, mods, n in pmap(one, list(range(len(conf))), 2):
            nrun += n; jobs += [(i, m) for m in mods]
        for (i, (ts, exe)), (n, bad) in zip(jobs, run_cmds(work, [(conf[i][1], ts, exe) for i, (ts, exe) in jobs])):
            nm, enc = conf[i][:2]
            rep.add(n, n, n, "types", samples=["%s %s: %s ::= %s" % (nm, enc, ts[0][0], ty_text(ts[0][1].clone(ref=None))[:100])])
            report_bad(rep, [("%s%s:%s" % (nm, enc, k), a, t, c, x, r) for k, a, t, c, x, r in differs(rep, dll, d, conf[i], ts, bad)], *([G02.attr] if enc == "A" else []))
        rep.cov["types"] = sum(len(m[0]) for _, m in jobs); rep.cov["compiler_runs"] = nrun; rep.cov["configurations"] = len(conf)
if __name__ == "__main__": gmain("G06", check)
