"""The code generated for Ada writes the bits the code generated for C writes (both those of the reference encoder), and each reads them back."""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib")); sys.path.insert(1, os.path.dirname(os.path.abspath(__file__)))
from gfam import *
import afam, adagen, G01, G02
from acn import *
def ucmds(ts, few):
    cmds, info = [], []; n0 = 0
    for n, t in ts:
        for v in vals(t, 24 if THOROUGH else 10):
            d = " ".join(dump(t, v)); es = both_reals(t, v)
            cmds.append("E %s U %s" % (n, d)); info.append((n, t, ["OK %d %s" % (len(b), hexs(b)) for b in es])); n0 += 1
            for b in es: cmds.append("D %s U %s" % (n, hexs(b))); info.append((n, t, ["OK %d %s" % (len(b), " ".join(dump(t, v, True)))]))
        m = maxbits(t)
        if m is not None and m <= (G01.BITS if not few else 7):
            for i in range(2**m):
                b = bits(i, m); r = Rd(b); n0 += 1
                try: v = uper_dec(t, r); exp = ["OK %d %s" % (r.p, " ".join(dump(t, v, True)))]
                except Amb: exp = None
                except Reject: exp = "ERR"
                cmds.append("D %s U %s" % (n, hexs(b))); info.append((n, t, exp))
    return n0, cmds, info
def acmds(ts):
    cmds, info = [], []
    for n, t in ts:
        if getattr(t, "params", None): continue
        for v, e in G02.cases(t):
            d = " ".join(dump(t, v))
            if e is None: cmds.append("E %s A %s" % (n, d)); info.append((n, t, "ERR")); continue
            es = [G02.zeros(x) for x in e]; cmds.append("E %s A %s" % (n, d)); info.append((n, t, ["OK %d %s" % (len(e), hexs(e)) for e in es]))
            for e in es: cmds.append("D %s A %s" % (n, hexs(e))); info.append((n, t, ["OK %d %s" % (len(e), " ".join(dump(t, v, True)))]))
        for s, m in G02.exact(t) or []: cmds.append("D %s A %s" % (n, hexs(s))); info.append((n, t, "ERR" if m is None else ["OK %d %s" % (m[0], " ".join(dump(t, m[1], True)))]))
    return len(cmds), cmds, info
def norm(r):
    r = r.strip(); return "ERR" if r.startswith("ERR") else r
def work(job):
    enc, lang, ts, exe, cexe, cts = job
    n0, cmds, info = ucmds(ts, lang != "ada") if enc == "U" else acmds(ts)
    res = [norm(x) for x in LANG[lang].drive(exe, cmds)]
    known = {n for n, _ in cts}; ci = [i for i, x in enumerate(info) if x[0] in known]; cres = dict(zip(ci, [norm(x) for x in drive(cexe, [cmds[i] for i in ci])])) if cexe else {}
    bad = []; pairs = 0
    for i, (c, (n, t, exp), r) in enumerate(zip(cmds, info, res)):
        if i in cres:                # where C itself departs from the encoding rules is the business of G01 and G02
            pairs += 1
            if cres[i] != r: bad.append(("%s:%s:%s" % (lang, enc, c[0]), n, t, c, "what C answers: " + cres[i], r))
            continue
        if exp is None: ok = r.startswith("OK") or r == "ERR"; exp = "a value or refusal"
        elif exp == "ERR": ok = r == "ERR"
        else: ok = r in [x.strip() for x in exp]
        if not ok: bad.append(("%s:%s:%s" % (lang, enc, c[0]), n, t, c, exp, r))
    return n0, len(cmds), pairs, bad
def mapped(t):
    return "map" in (t.acn or {}) or any(mapped(k) for k in ([f.ty for f in t.f] if isinstance(t, (Seq, Cho)) else [t.elem] if isinstance(t, SeqOf) else []) + ([t.base] if getattr(t, "base", None) else []))
def nomap(types):
    """types without a mapping function, and one with: the Ada code for it does not compile (a finding), which would take its module along"""
    gs = [x if isinstance(x, list) else [x] for x in types]; return [g for g in gs if not any(mapped(t) for _, t in g)], [g for g in gs if any(mapped(t) for _, t in g)][:1]
class LANGADA:
    opt = "-Ada"; drive = staticmethod(adagen.drive_ada)
    @staticmethod
    def builder(enc): return lambda o, mod, ts: adagen.build_ada(o, mod.capitalize(), ts, (enc,))
LANG = dict(ada=LANGADA)
def check(rep):
    with Scratch("G03") as d:
        dll = setup(rep, d)
        if not dll: return
        jobs = []; runs = 0; nt = 0
        for enc, opt, types, spec in (("U", "-uPER", uper_families(THOROUGH), None), ("A", "-ACN", afam.all_groups(THOROUGH), acn_spec)):
            n = 16 if not THOROUGH else 48
            types, withmap = nomap(types); gc = Gen(rep, dll, d, opts=(opt,), encs=(enc,), equal=False, acn=spec, label="c" + enc); cm = gc.some(types, n); runs += gc.nrun
            for lang, L in LANG.items():
                if withmap: g = Gen(rep, dll, d, opts=(opt,), encs=(enc,), equal=False, acn=spec, label=lang + enc + "m", lang=L.opt, builder=L.builder(enc)); g.some(withmap, 1); runs += g.nrun
                g = Gen(rep, dll, d, opts=(opt,), encs=(enc,), equal=False, acn=spec, label=lang + enc, lang=L.opt, builder=L.builder(enc)); m = g.some(types, n); runs += g.nrun
                for k, (ts, exe) in sorted(m.items()): jobs.append((enc, lang, ts, exe, cm.get(k, ([], None))[1], cm.get(k, ([], None))[0])); nt += len(ts)
        pairs = 0
        for j, (n0, ncmd, np, bad) in zip(jobs, run_cmds(work, jobs)):
            rep.add(n0, ncmd, ncmd, "types", samples=["%s %s: %s ::= %s" % (j[0], j[1], j[2][0][0], ty_text(j[2][0][1].clone(ref=None))[:100])]); pairs += np
            report_bad(rep, bad, G02.attr if j[0] == "A" else lambda t: "")
        rep.cov.update(types=nt, compiler_runs=runs, answers_compared_with_c=pairs)
        rep.assumptions = ["decoders generated for Ada read from buffers of the announced maximum size: inputs are padded with zero bits", "Ada contracts are checked at run time (-gnata)"]
if __name__ == "__main__": gmain("G03", check)
