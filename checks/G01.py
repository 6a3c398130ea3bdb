import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from gfam import *
BITS = 14 if THOROUGH else 9

def cause(t, exp, got):
    if has_tags(t): return "choice-tags" 
    return "uper"
def has_tags(t):
    if isinstance(t, (Seq, Cho)): return any(f.tag for f in t.f) and (isinstance(t, Cho) or t.isset) or any(has_tags(f.ty) for f in t.f)
    return isinstance(t, SeqOf) and has_tags(t.elem)

def work(job):
    ts, exe = job; cmds, info = [], []; nval = nstr = 0
    for n, t in ts:
        for v in vals(t, 24 if THOROUGH else 12):
            d = " ".join(dump(t, v)); es = both_reals(t, v); nval += 1
            cmds.append("E %s U %s" % (n, d)); info.append((n, t, ["OK %d %s" % (len(b), hexs(b)) for b in es]))
            for b in es: cmds.append("D %s U %s" % (n, hexs(b))); info.append((n, t, ["OK %d %s" % (len(b), " ".join(dump(t, v, True)))]))
            for b in es[:1]:
                if len(b) > 8: cmds.append("D %s U %s" % (n, hexs(b[:(len(b) - 1) // 8 * 8]))); info.append((n, t, "ERR"))       # without its last octet
        m = maxbits(t)
        if m is not None and m <= BITS:
            for i in range(2**m):       # every bit string of the maximum length, as the standard reads it
                b = bits(i, m); r = Rd(b); h = hexs(b); nstr += 1
                try: v = uper_dec(t, r); exp = ["OK %d %s" % (r.p, " ".join(dump(t, v, True)))]
                except Amb: exp = None
                except Reject: exp = "ERR"
                cmds.append("D %s U %s" % (n, h)); info.append((n, t, exp))
    res = drive(exe, cmds); bad = []
    for c, (n, t, exp), r in zip(cmds, info, res):
        r = r.strip()
        if exp is None: ok = r.startswith("OK") or r.startswith("ERR")
        elif exp == "ERR": ok = r.startswith("ERR")
        else: ok = r in [x.strip() for x in exp]
        if not ok: bad.append((cause(t, exp, r), n, t, c, exp if exp != "ERR" else "refusal", r))
    return nval, nstr, len(cmds), bad

def check(rep):
    with Scratch("G01") as d:
        dll = setup(rep, d)
        if not dll: return
        ts = uper_families(THOROUGH); g = Gen(rep, dll, d); mods = g.all(ts, 16 if not THOROUGH else 48)
        for (nval, nstr, ncmd, bad), (mt, exe) in zip(run_cmds(work, mods), mods):
            rep.add(nval + nstr, ncmd, ncmd, "types", samples=["%s ::= %s" % (mt[0][0], ty_text(mt[0][1].clone(ref=None))[:120])])
            report_bad(rep, bad)
        rep.cov["types"] = sum(len(m) for m, _ in mods); rep.cov["compiler_runs"] = g.nrun
        rep.assumptions = ["presence of OPTIONAL and DEFAULT components is what the value's exist flag says", "REAL mantissas may be encoded odd or as they stand in the double (both denote the value)", "the enumerated grammar is that of lib/fam.py; sizes up to 140000"]
if __name__ == "__main__": gmain("G01", check)
