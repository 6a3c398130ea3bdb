import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from gfam import *
import afam; from acn import *
def cases(t):
    """(value, reference bits or None when no encoding exists)"""
    vs = vals(t, 10 if not THOROUGH else 24, 300)
    if getattr(t, "refuse", None): vs = uniq(vs + cross(t))
    out = []
    for v in vs:
        if getattr(t, "skip", None) and eval(t.skip, {}, dict(v=v)): continue
        if f32(t, v): continue
        try: out.append((v, both_reals(t, v, aenc) if has(t, Real) else [aenc(t, v)]))
        except NoFit: out.append((v, None))
        except Amb: pass
        except (KeyError, TypeError): pass       # an inserted field has no defined value here
    return out
def cross(t):
    """all combinations of a few values per component"""
    ls = []
    for f in t.f:
        if f.acnonly: continue
        if isinstance(f.ty, Int) and f.ty.crng()[1] == 255: l = [0, 1, 3, 4, 5, 6, 8, 9, 10, 12, 13, 14, 15, 20, 21, 99, 100, 250, 251, 255]
        elif isinstance(f.ty, Int) and f.ty.crng()[1] == 100: l = [-100, -11, -10, -6, -5, -4, -3, -2, -1, 0, 1, 9, 10, 11, 100]
        elif isinstance(f.ty, Real): l = [0.5, 0.75, 1.5, 1.75, 10.0, 10.5, -3.0]
        else: l = vals(f.ty, 4, 20)[:5]
        ls.append(([("-",)] if f.opt else []) + [("+", x) for x in l])
    fs = [f for f in t.f if not f.acnonly]; r = []
    for c in itertools.product(*ls): r.append({f.name: x[1] for f, x in zip(fs, c) if len(x) > 1})
    r = [v for v in r if t.ok(v)]
    return r if len(r) <= 3000 else r[::len(r) // 3000 + 1]
def f32(t, v):
    if isinstance(t, Real) and eff(t).get("enc", "").endswith("32"):
        try: return struct.unpack(">f", struct.pack(">f", v))[0] != v
        except OverflowError: return True
    if isinstance(t, Seq): return any(f32(f.ty, v[f.name]) for f in t.f if f.name in v)
    if isinstance(t, SeqOf): return any(f32(t.elem, x) for x in v)
    return False
def exact(t):
    """all bit strings as long as the longest encoding, with the value a decoder must find in each (None: refuse); None when the values cannot be enumerated"""
    if has(t, Real) or getattr(t, "skip", None) or odd(t): return None
    vs = allvals(t, 1500)
    if vs is None: return None
    enc = []
    for v in vs:
        try: enc.append((aenc(t, v), v))
        except NoFit: pass
        except (KeyError, TypeError, Amb): return None
    w = max([len(e) for e, _ in enc] or [0])
    if w > (12 if not THOROUGH else 16) or w == 0 or any("." in e for e, _ in enc): return None
    by = {}
    for e, v in enc: by.setdefault(len(e), {})[e] = v
    r = []
    for k in range(1 << w):
        s = bits(k, w); m = [(len(e), by[n][e]) for n in by for e in (s[:n],) if e in by[n]]
        r.append((s, m[0] if m else None))
    return r
def attr(t): return "|" + re.sub(r"\bTy[A-Z]\d+", "Ty", re.sub(r"\s+", "", spec_node(t, (), False)))[:200]
def odd(t):
    """what a decoder makes of bits that are neither pattern, or of determinants of absent parts, is not laid down"""
    if isinstance(t, Bool) and ("tv" in (t.acn or {})) != ("fv" in (t.acn or {})): return len(t.acn.get("tv", t.acn.get("fv"))) > 1
    if isinstance(t, Bool) and "tv" in (t.acn or {}): return True
    if isinstance(t, (Int, Enum)) and ((t.acn or {}).get("size") == "null-terminated" or "map" in (t.acn or {})): return True      # no digit at all is read as zero; numbers outside the image of a mapping function
    if isinstance(t, (Seq, Cho)): return any(odd(f.ty) for f in t.f)
    return isinstance(t, SeqOf) and odd(t.elem)
def work(job):
    ts, exe = job; cmds, info = [], []
    for n, t in ts:
        if getattr(t, "params", None): continue
        for v, e in cases(t):
            d = " ".join(dump(t, v))
            if e is None: cmds.append("E %s A %s" % (n, d)); info.append(("refuse", n, t, "ERR")); continue
            es = [zeros(x) for x in e]
            cmds.append("E %s A %s" % (n, d)); info.append(("encode", n, t, ["OK %d %s" % (len(e), hexs(e)) for e in es]))
            for e in es: cmds.append("D %s A %s" % (n, hexs(e))); info.append(("decode", n, t, "OK %d %s" % (len(e), " ".join(dump(t, v, True)))))
            if len(es[0]) > 8: cmds.append("D %s A %s" % (n, hexs(es[0][:(len(es[0]) - 1) // 8 * 8]))); info.append(("truncated", n, t, "ERR"))
        for s, m in exact(t) or []:
            cmds.append("D %s A %s" % (n, hexs(s))); info.append(("exact", n, t, "ERR" if m is None else "OK %d %s" % (m[0], " ".join(dump(t, m[1], True)))))
    res = drive(exe, cmds); bad = []
    for c, (k, n, t, x), r in zip(cmds, info, res):
        r = r.strip(); xs = [y.strip() for y in ([x] if isinstance(x, str) else x)]
        if not (r.startswith("ERR") if x == "ERR" else r in xs): bad.append((k, n, t, c, " or ".join(xs), r))
    return len(cmds), bad
def check(rep):
    with Scratch("G02") as d:
        dll = setup(rep, d)
        if not dll: return
        g = Gen(rep, dll, d, opts=("-ACN",), encs=("A",), equal=False, acn=acn_spec); mods = g.all(afam.all_groups(THOROUGH), 24)
        for (n, bad), (mt, exe) in zip(run_cmds(work, mods), mods):
            rep.add(n, n, n, "types", samples=["%s ::= %s   %s" % (mt[0][0], ty_text(mt[0][1].clone(ref=None))[:120], spec_node(mt[0][1], (), False)[:120])])
            report_bad(rep, [(k, a, t, c + "  " + spec_node(t, (), False).replace("\n", " ")[:300], x, r) for k, a, t, c, x, r in bad], attr)
        rep.cov["types"] = sum(len(m) for m, _ in mods); rep.cov["compiler_runs"] = g.nrun
if __name__ == "__main__": gmain("G02", check)
