"""Runs the compiler on a family of types and drives the generated C code with commands; shared by the checks of generated code."""
import multiprocessing, time
from comp import *
import fam

def hexs(b):
    b += "0" * (-len(b) % 8); return format(int(b, 2), "0%dx" % (len(b) // 4)) if b else ""
def both_reals(t, v, enc=None):
    """the reference encodings of v: REAL mantissas may be odd or as they stand in the double"""
    out = []
    for n in (True, False):
        REAL_NORM[0] = n; e = (enc or uper_enc)(t, v)
        if e not in out: out.append(e)
    REAL_NORM[0] = True; return out
def has(t, cls):
    if isinstance(t, cls): return True
    if isinstance(t, (Seq, Cho)): return any(has(f.ty, cls) for f in t.f)
    if isinstance(t, SeqOf): return has(t.elem, cls)
    return False
def maxbits(t):
    """largest uPER encoding, None if unbounded or long"""
    if isinstance(t, Int):
        lo, hi = t.rng(); return None if t.ext() or lo == -INF or hi == INF else nbits(hi - lo)
    if isinstance(t, (Real, Oid)): return None
    if isinstance(t, Bool): return 1
    if isinstance(t, Null): return 0
    if isinstance(t, Enum): return nbits(len(t.items) - 1)
    if isinstance(t, (Octet, BitS, Str, SeqOf)):
        lo, hi = t.srng()
        if hi > 200: return None
        e = 8 if isinstance(t, Octet) else 1 if isinstance(t, BitS) else charwidth(t.charset(), t) if isinstance(t, Str) else maxbits(t.elem)
        return None if e is None else (nbits(hi - lo) if lo != hi else 0) + e * hi
    if isinstance(t, Seq):
        n = sum(1 for f in t.f if f.opt)
        for f in t.f:
            m = maxbits(f.ty)
            if m is None: return None
            n += m
        return n
    if isinstance(t, Cho):
        m = [maxbits(a.ty) for a in t.f]; return None if None in m else nbits(len(m) - 1) + max(m)

class Bad(Exception): pass
def bisect(items, fails):
    """one smallest failing sub-list (of one item when a single item is to blame)"""
    while len(items) > 1:
        h = len(items) // 2
        if fails(items[:h]): items = items[:h]
        elif fails(items[h:]): items = items[h:]
        else: return items[-1:]
    return items

class Gen:
    """one run of asn1scc over modules of types, and the compiled drivers"""
    def __init__(s, rep, dll, d, opts=("-uPER",), encs=("U",), equal=True, spec=spec_text, acn=None, refs=False, cflags=CFLAGS, defs="", label="", extra_src=(), consts=None, lang="-c", builder=None):
        s.lang = lang; s.builder = builder or (lambda o, mod, ts: build_driver(o, mod, ts, s.encs, s.equal, s.cflags, s.defs, s.extra, s.consts and s.consts(ts)))
        s.consts = consts       # consts(types) -> {type name: [C names of its constants]}
        s.rep, s.dll, s.d, s.opts, s.encs, s.equal, s.spec, s.acn, s.cflags, s.defs, s.label, s.extra = rep, dll, d, list(opts), encs, equal, spec, acn, cflags, defs, label, extra_src
        s.nrun = 0; s.t0 = time.time()
    def gen(s, ts, o, mod):
        os.makedirs(o, exist_ok=True); fs = [o + "/%s.asn1" % mod.lower()]; open(fs[0], "w").write(s.spec(mod.capitalize(), ts))
        if s.acn: fs.append(o + "/%s.acn" % mod.lower()); open(fs[1], "w").write(s.acn(mod.capitalize(), ts))
        s.nrun += 1
        try: return asn1scc(s.dll, [s.lang] + s.opts + (["-equal"] if s.equal else []) + ["-o", o] + fs)
        except subprocess.TimeoutExpired: return 124, "asn1scc does not end"
    def one(s, k, ts):
        """(types, exe) of module k; types that do not get through are reported and left out"""
        o = s.d + "/%sm%d" % (s.label, k); rnd = 0
        while ts and rnd < 4:
            few = len(s.rep.viol) < 12 and time.time() - s.t0 < 300      # beyond that, whole modules are blamed
            shutil.rmtree(o, ignore_errors=True)
            rc, txt = s.gen(ts, o, "mo%d" % k)
            if rc:
                n = [0]
                def fails(x): n[0] += 1; q = s.d + "/%sb%d_%d" % (s.label, k, n[0]); r = s.gen(with_needed(x, ts), q, "mo%d" % k)[0]; shutil.rmtree(q, ignore_errors=True); return r != 0
                if not few: s.blame(ts[0], "(or a type of the same module) asn1scc refuses or fails on it", txt); return [], None
                b = bisect(ts, fails); s.blame(b[0], "asn1scc refuses or fails on it", txt); ts = without(ts, b[0][0]); rnd += 1; continue
            try: return ts, s.builder(o, "mo%d" % k, ts)
            except CheckError as e:
                n = [0]; msg = str(e)
                def fails(x):
                    n[0] += 1; q = s.d + "/%sb%d_%d" % (s.label, k, n[0]); xs = with_needed(x, ts)
                    try:
                        if s.gen(xs, q, "mo%d" % k)[0]: return True
                        s.builder(q, "mo%d" % k, xs); return False
                    except CheckError: return True
                    finally: shutil.rmtree(q, ignore_errors=True)
                if not few: s.blame(ts[0], "(or a type of the same module) the generated code does not compile", msg); return [], None
                b = bisect(ts, fails); s.blame(b[0], "the generated code does not compile", msg); ts = without(ts, b[0][0]); rnd += 1
        return [], None
    def blame(s, nt, what, txt):
        s.rep.violation("generate:" + s.label + tkey(nt[1]), "%s ::= %s  %s: %s" % (nt[0], ty_text(nt[1].clone(ref=None))[:300], what, txt.strip()[-400:]), dict(type=ty_text(nt[1].clone(ref=None)), options=s.opts))
    def all(s, types, n=NCPU):
        mods = split(types, n); r = pmap(lambda x: s.one(*x), list(enumerate(mods)), 4)
        return [x for x in r if x[1]]
    def some(s, types, n):
        """the same, by number of the module"""
        r = pmap(lambda x: s.one(*x), list(enumerate(split(types, n))), 8); return {k: x for k, x in enumerate(r) if x[1]}
def tkey(t):
    """the type with its references written out, so that the key does not depend on where in the family the type stands"""
    EXPAND[0] = True; s = re.sub(r"\s+", "", ty_text(t)); EXPAND[0] = False; return s[:200]
def split(types, n):
    """modules of about equal size; groups (a list) of types that refer to each other stay together"""
    g = [x if isinstance(x, list) else [x] for x in types]; m = [[] for _ in range(n)]
    for i, x in enumerate(g): m[i % n] += x
    return [x for x in m if x]
def needed(t, acc):
    for n, _ in getattr(t, "params", None) or []:
        if n[0] == "T": acc.add(n)
    for k in ([f.ty for f in t.f] if isinstance(t, (Seq, Cho)) else [t.elem] if isinstance(t, SeqOf) else []) + ([t.base] if getattr(t, "base", None) else []):
        if k.ref: acc.add(k.ref)
        needed(k, acc)
    return acc
def with_needed(x, ts):
    want = {n for n, _ in x}; d = dict(ts); todo = list(want)
    while todo:
        for r in needed(d[todo.pop()], set()):
            if r not in want and r in d: want.add(r); todo.append(r)
    return [(n, t) for n, t in ts if n in want]
def without(ts, bad):
    gone = {bad}
    while True:
        more = {n for n, t in ts if n not in gone and needed(t, set()) & gone}
        if not more: return [(n, t) for n, t in ts if n not in gone]
        gone |= more

def run_cmds(work, jobs):
    """jobs: list of picklable arguments for work(job) executed in 8 processes"""
    with multiprocessing.Pool(NCPU) as p: return p.map(work, jobs, 1)

def report_bad(rep, bads, attr=lambda t: ""):
    """bads: (cause, type name, type, command, expected, got): one violation per type and cause"""
    seen = set()
    for cause, n, t, c, x, r in bads:
        k = cause + ":" + tkey(t) + attr(t)
        if k in seen: continue
        seen.add(k)
        rep.violation(k, "%s ::= %s | %s | expected %s | got %s" % (n, ty_text(t.clone(ref=None))[:300], c[:200], str(x)[:200], r[:300]), dict(type=ty_text(t.clone(ref=None)), command=c[:4000], expected=str(x)[:2000], got=r[:2000]))

def setup(rep, d):
    """build the compiler; a tree that does not build is a violation of every property"""
    try: return build_compiler(d + "/src")
    except BuildFailed as e:
        rep.violation("build", "asn1scc does not build: %s" % str(e)[-600:]); return None

def numbered(types, p="T"): return [("Ty%s%d" % (p, i), t) for i, t in enumerate(types)]

def uper_families(th=False, every=4):
    """the types of the uPER checks; a list is a group of types that refer to each other"""
    ts = [x for x in numbered(fam.leaves("le"), "L")] + numbered(fam.int_grid(th), "I") + numbered(fam.composites("ce"), "C")
    for i, x in enumerate(fam.serial()):
        if x[0] == "1": ts.append(("TyS%d" % i, x[1]))
        else: ts.append([("TyS%dB" % i, x[1]), ("TyS%d" % i, x[2].clone(base=x[1].clone(ref="TyS%dB" % i)))])
    r = fam.composites("re"); k = 0
    for i, t in enumerate(r[::1 if th else every]): g = fam.with_refs([t], k); k += len(g); ts.append(g)
    if th: ts += numbered(fam.deep("de"), "P")
    return ts

def gmain(prop, check):
    def go():
        rep = Report(prop); check(rep); return rep.finish()
    sys.exit(main(go))
