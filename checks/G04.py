import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from gfam import *
def work(job):
    ts, exe = job; cmds, info = [], []; ntry = 0
    for n, t in ts:
        m = maxbits(t); short = 2 if m is None or m > 6 else 1
        if THOROUGH and isinstance(t, (Real, Oid)) or THOROUGH and m is None and not has(t, Sized): short = 3
        vs = vals(t, 6, 40)
        seen = set()
        for k, v in enumerate(vs):
            h = hexs(uper_enc(t, v))
            if h in seen or len(h) > (400 if not THOROUGH else 2000): continue
            seen.add(h); cmds.append("X %s U %s %d" % (n, h or "", short if k == 0 else 0)); info.append((n, t))
            if len(seen) >= (6 if not THOROUGH else 20): break
        for v in vals(t, 16):       # the announced size suffices for every value
            cmds.append("E %s U %s" % (n, " ".join(dump(t, v)))); info.append((n, t))
    res = drive(exe, cmds, 800); bad = []
    for c, (n, t), r in zip(cmds, info, res):
        r = r.strip()
        if c[0] == "X" and r.startswith("OK"): ntry += int(r.split()[1])
        if not r.startswith("OK"): bad.append(("decode" if c[0] == "X" else "size", n, t, c, "OK", r))
    return len(cmds), ntry, bad
def check(rep):
    with Scratch("G04") as d:
        dll = setup(rep, d)
        if not dll: return
        g = Gen(rep, dll, d); mods = g.all(uper_families(THOROUGH, 8), 16 if not THOROUGH else 48)
        for (n, tr, bad), (mt, exe) in zip(run_cmds(work, mods), mods):
            rep.add(tr, tr, n, "types", samples=["%s ::= %s" % (mt[0][0], ty_text(mt[0][1].clone(ref=None))[:120])])
            report_bad(rep, bad)
        rep.cov["types"] = sum(len(m) for m, _ in mods); rep.cov["compiler_runs"] = g.nrun
gmain("G04", check)
