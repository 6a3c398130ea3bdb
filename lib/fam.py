"""The enumerated families of types (uPER side). Every list is a complete enumeration of a small grammar."""
from asn import *
import itertools

def r(a, b): return R(a, b)
def ints():
    o = []
    for a, b in [(0, 0), (0, 1), (0, 2), (0, 3), (0, 5), (1, 4), (-1, 0), (-5, 5), (-128, 127), (0, 127), (0, 128), (0, 255), (0, 256), (1, 256), (-129, 127), (-32768, 32767), (0, 65535), (0, 65536), (1, 65536), (-65536, 0),
                 (0, 2**24), (-2**31, 2**31 - 1), (0, 2**31 - 1), (0, 2**32 - 1), (0, 2**32), (-2**31 - 1, 2**31), (0, 2**40), (0, 2**56), (0, 2**63 - 1), (0, 2**63), (0, 2**64 - 1), (2**63, 2**64 - 1), (-2**63, 2**63 - 1), (-2**63, 0), (-2**63, -1), (2**62, 2**63 - 1), (-1, 2**63 - 1), (1000000, 1000001), (-70000, -69990), (2**64 - 2, 2**64 - 1)]: o.append(Int(r(a, b)))
    for a, b in [(None, None), (0, None), (5, None), (-5, None), (1000, None), (-2**31, None), (None, 0), (None, -10), (None, 1000), (2**32, None), (2**63, None)]: o.append(Int(r(a, b)))
    o.append(Int())
    o += [Int(V(0)), Int(V(7)), Int(V(-3)), Int(("|", V(1), V(3))), Int(("|", r(0, 5), r(10, 12))), Int(("|", r(-10, -5), V(7))), Int(("|", ("|", V(1), V(100)), r(50, 60))), Int(("|", r(None, 0), r(10, 20))), Int(("|", r(0, 3), r(100, None))),
          Int(("^", r(0, 10), r(5, 20))), Int(("^", ("|", r(0, 5), r(10, 15)), r(3, 12))), Int(("-", r(0, 10), r(3, 4))), Int(("-", r(0, 10), V(0))), Int(("-", r(0, 10), V(10))), Int(("-", r(0, 10), r(5, 10))), Int(("!", V(5))), Int(("!", r(0, 10))), Int(("^", r(0, 100), ("!", V(50)))), Int(("-", ("|", r(0, 3), r(8, 9)), V(8))),
          Int(r(0, 100), r(5, 10)), Int(r(0, None), r(None, 5)), Int(r(-10, 10), r(None, 0)), Int(r(-10, 10), r(0, None)), Int(("|", r(0, 10), r(20, 30)), r(5, 25)), Int(r(0, 255), ("|", V(3), V(200))), Int(r(0, 255), ("-", r(0, 20), r(5, 6)), r(1, 18)), Int(r(0, 255), ("!", V(0)))]
    o += [Int(("ext", r(0, 5), None)), Int(("ext", r(0, 5), r(10, 20))), Int(("ext", r(0, 5), ("|", r(-300, -1), r(10, 20)))), Int(("ext", V(3), V(4))), Int(("ext", r(0, 255), r(256, 65535))), Int(r(0, 100), ("ext", r(0, 5), None)), Int(("ext", r(0, 5), r(10, 20)), r(0, 3))]
    b = Int(r(0, 1000)); o += [Int(r(5, 20), base=b), Int(r(None, 20), base=b), Int(r(20, None), base=b)]
    return o
def int_grid(th=False):
    """every range over a grid of end points"""
    g = [None, -2**63, -2**32 - 1, -2**31, -32769, -129, -128, -1, 0, 1, 2, 3, 127, 128, 255, 256, 65535, 65536, 2**31 - 1, 2**32 - 1, 2**32, 2**63 - 1, 2**63, 2**64 - 1]
    if th: g = [None] + sorted({x for k in (0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 40, 48, 56, 62, 63, 64) for b in (2**k, -2**k) for x in (b - 1, b, b + 1) if -2**63 <= x < 2**64} | {0})
    o = []
    for a in g:
        for b in g:
            if a is not None and b is not None and (a > b or a < 0 and b >= 2**63): continue
            if a is None and b is not None and b >= 2**63 or b is None and a is None: continue
            o.append(Int(R(a, b)))
    return o
def serial():
    """every pair of a first and a second (serial) constraint, written in one type and through a reference"""
    A = [R(0, 10), R(-10, 10), R(0, None), R(None, 10), ("|", R(0, 3), R(6, 9)), X(0, 10, 1, 1), X(None, 10, 0, 1), ("-", R(0, 10), R(4, 6)), ("ext", R(0, 5), None), ("ext", R(0, 5), R(7, 9))]
    B = [R(0, 5), R(None, 5), R(3, None), R(None, None), V(3), ("|", V(1), V(8)), X(0, 5, 1, 0), X(2, None, 1, 0), X(None, 5, 0, 1), ("!", V(3)), ("^", R(0, 7), ("!", V(2))), ("-", R(None, 5), V(2)), ("ext", R(1, 3), None), ("ext", R(1, 3), V(5))]
    o = []
    for a in A:
        for b in B:
            x = Int(a, b); base = Int(a)
            if any(x.ok(v) for v in range(-20, 20)): o.append(("1", x)); o.append(("2", base, Int(b, base=base)))
    return o
def enums(pfx):
    k = [0]
    def nm():
        k[0] += 1; return "%s%d" % (pfx, k[0])
    o = []
    for n in (1, 2, 3, 4, 5, 8, 9, 17, 33, 129, 257): o.append(Enum([(nm(), None) for _ in range(n)]))
    for vs in [(5,), (0, 1), (1, 0), (10, 20, 30), (30, 20, 10), (-1, 0, 1), (1, -1), (-100, 100, 5, 0), (2**31 - 1, 0), (-2**31, 5), (0, 255, 256, 65535), (7, None, None), (None, 0, None), (None, 1, None, 2), (3, None, 1, None)]: o.append(Enum([(nm(), v) for v in vs]))
    a = [nm() for _ in range(5)]; o += [Enum([(x, i * 3) for i, x in enumerate(a)], allowed=a[1:3])]
    a = [nm() for _ in range(4)]; o += [Enum([(x, None) for x in a], allowed=[a[3], a[0]])]
    return o
SIZES = [V(0), V(1), V(2), V(3), V(4), V(7), V(8), V(9), V(16), V(17), R(0, 1), R(0, 2), R(0, 3), R(1, 2), R(1, 3), R(0, 7), R(0, 8), R(1, 8), R(2, 9), R(0, 15), R(0, 16), R(5, 20), R(0, 127), R(0, 128), R(0, 255), R(0, 256), R(1, 300),
         ("|", V(1), V(3)), ("|", R(0, 2), R(5, 6)), ("^", R(0, 10), R(2, 20)), ("-", R(0, 6), V(3)), ("-", R(1, 6), R(5, 6)), ("|", V(2), V(9))]
HUGE = [R(0, 65535 + 16384 + 300), R(0, 65536 + 32768 + 5), R(0, 65536 + 49152 + 200), R(0, 131071), R(3, 131072), R(70000, 70001), V(65536), V(65536 + 49152), V(81920), V(131072), V(81930)]
BIG = [R(0, 1000), R(0, 16383), R(0, 16384), R(0, 65535), R(0, 65536), R(0, 70000), R(1, 140000), V(65535), R(65535, 65536), V(20000)]
def octets(): return [Octet(s) for s in SIZES + BIG + HUGE if s != V(0)] + [Octet(vals=[b"\x01\x02", b"\xAB\xCD"], size=V(2)), Octet(R(1, 3), base=Octet(R(0, 5))), Octet(R(2, None), base=Octet(R(0, 5)))]
def bitss(): return [BitS(s) for s in SIZES + BIG + HUGE if s != V(0)] + [BitS(V(8), named=[("na", 0), ("nb", 3), ("nc", 7)]), BitS(R(0, 10), named=[("nd", 1), ("ne", 9)]), BitS(R(1, 3), base=BitS(R(0, 5)))]
def ch(a, b): return R(a, b)
ALPHAS = [R("a", "z"), R("0", "9"), R("A", "B"), V("a"), V("ab"), V("ba"), ("|", R("a", "c"), R("x", "z")), ("|", R("x", "z"), R("a", "c")), ("|", V("z"), R("a", "b")), R(" ", "~"), R("A", None), R(None, "A"), ("-", R("a", "z"), R("f", "h")), ("^", R("a", "m"), R("f", "z")), V("abcdefghijklmnopq"), ("|", V("0"), ("|", V("A"), V("a")))]
def strs():
    o = [Str(s) for s in SIZES if s not in (V(0),)] + [Str(R(0, 1000)), Str(R(0, 65535)), Str(R(0, 65536)), Str(V(65536)), Str(V(114688)), Str(R(0, 70000)), Str(R(0, 65536 + 49152 + 200)), Str(R(0, 90000), alpha=R('a', 'd'))]
    for a in ALPHAS:
        for s in (V(2), R(0, 3), R(1, 5)): o.append(Str(s, alpha=a))
    o += [Str(s, num=True) for s in (V(1), V(2), V(3), R(0, 1), R(0, 4), R(1, 7), R(0, 64))] + [Str(s, num=True, alpha=a) for s in (V(2), R(0, 4)) for a in (R("1", "4"), V("0"), ("|", V(" "), R("0", "6")))]
    o += [Str(R(0, 3), alpha=("|", V('"'), ("|", V("'"), V("\\")))), Str(V(2), alpha=R("'", "\\")), Str(R(1, 2), alpha=R('"', "'")), Str(V(2), vals=['a"', "\\'"]), Str(R(0, 2), alpha=R("\\", "z"))]
    o += [Str(V(2), vals=["ab", "cd"]), Str(R(0, 3), base=Str(R(1, 10), alpha=R("a", "f"))), Str(base=Str(R(1, 4), alpha=R("a", "p")), alpha=R("c", "z"))]
    return o
def reals(): return [Real(), Real(R(0.0, 1.0)), Real(R(-10.0, 10.0)), Real(R(0.0, None)), Real(R(None, 0.0)), Real(("|", R(-5.0, -1.0), R(1.0, 5.0))), Real(("-", R(0.0, 10.0), V(5.0)))]
def leaves(pfx="en"): return ints() + [Bool(), Null()] + enums(pfx) + octets() + bitss() + strs() + reals() + [Oid(), Oid(True)]
# a small alphabet of components, each of a different shape (bits: 0, 1, 3, 8, varying)
def small(p): return [Bool(), Null(), Int(R(0, 5)), Int(R(-128, 127)), Int(), Int(R(0, None)), Enum([(p + "a", None), (p + "b", 7), (p + "c", 3)]), Octet(R(0, 3)), Octet(V(2)), BitS(R(1, 9)), BitS(V(3)), Str(R(0, 3), alpha=R("a", "d")), Real(), Oid(), Int(("|", R(0, 5), R(10, 12)))]
def small5(p): return [Bool(), Int(R(0, 5)), Enum([(p + "a", None), (p + "b", 7), (p + "c", 3)]), Octet(R(0, 3)), Str(R(0, 3), alpha=R("a", "d"))]
def composites(p):
    n = [0]
    def q():
        n[0] += 1; return "%s%d" % (p, n[0])
    S = lambda: small(q()); o = []
    k = len(S())
    for i in range(k):
        for op in ("", "o"): o.append(Seq([F("a", S()[i], op)]))
        for op in ("", "o"): o.append(Seq([F("a", Bool()), F("b", S()[i], op), F("c", Int(R(0, 3)))]))
        o.append(Cho([F("a", S()[i]), F("b", Bool())])); o.append(Cho([F("a", Null()), F("b", S()[i]), F("c", Int(R(0, 300)))])); o.append(Cho([F("a", S()[i])]))
        for s in (V(1), V(2), R(0, 2), R(1, 3), R(0, 300)): o.append(SeqOf(S()[i], s))
        o.append(SeqOf(S()[i], R(0, 2), setof=True))
    for i in range(5):
        for j in range(5):
            for o1 in ("", "o"):
                for o2 in ("", "o"): o.append(Seq([F("a", small5(q())[i], o1), F("b", small5(q())[j], o2)]))
            o.append(Cho([F("a", small5(q())[i]), F("b", small5(q())[j]), F("c", Null())]))
    # DEFAULT of every simple kind
    p2 = q()
    for t, dv in [(Bool(), True), (Bool(), False), (Int(R(0, 5)), 3), (Int(), -7), (Int(R(0, 255)), 255), (Enum([(p2 + "x", None), (p2 + "y", 9)]), 9), (Octet(V(2)), b"\xab\xcd"), (Octet(R(0, 3)), b"\x01"), (BitS(V(4)), "1010"), (BitS(R(0, 9)), "101"), (Str(R(0, 3)), "ok"), (Real(), 2.5), (Int(R(2**63, 2**64 - 1)), 2**64 - 1), (Int(), -2**63 + 1)]:
        o.append(Seq([F("a", t, "d", dv)])); o.append(Seq([F("z", Bool(), "o"), F("a", t, "d", dv), F("y", Int(R(0, 3)))]))
    o.append(Seq([F("a", SeqOf(Int(R(0, 3)), R(0, 3)), "d", [1, 2])])); o.append(Seq([F("a", Seq([F("p", Int(R(0, 7))), F("q", Bool())]), "d", {"p": 5, "q": True})])); o.append(Seq([F("a", Cho([F("p", Int(R(0, 7))), F("q", Bool())]), "d", ("p", 6))]))
    # wide
    for w in (4, 5, 8, 9, 16, 17, 33): o.append(Cho([F("c%d" % i, Int(R(0, i))) for i in range(w)]))
    for w in (1, 7, 8, 9, 17, 33, 65): o.append(Seq([F("f%d" % i, Bool() if i % 2 else Int(R(0, 9)), "o") for i in range(w)]))
    o.append(Seq([])); o.append(SeqOf(Bool(), R(0, 1000))); o.append(SeqOf(Int(R(0, 7)), R(0, 70000))); o.append(SeqOf(Bool(), V(100)))
    o += [SeqOf(Int(R(0, 255)), s) for s in SIZES + [R(0, 65535), R(0, 65536), R(1, 65536), V(65536), V(81920), R(0, 65536 + 16384 + 300), R(0, 65536 + 49152 + 200)] if s != V(0)] + [SeqOf(Int(R(0, 3)), R(0, 100000))]
    o += [SeqOf(Int(R(0, 255)), R(1, 3), base=SeqOf(Int(R(0, 255)), R(0, 5)))] if False else []
    # SET and tags
    o.append(Seq([F("a", Int(R(0, 7))), F("b", Bool(), "o"), F("c", Octet(V(1)))], isset=True))
    for perm in itertools.permutations([5, 1, 3]): o.append(Cho([F("abc"[i], Int(R(0, 9 + i)), tag=("", t)) for i, t in enumerate(perm)]))
    o.append(Cho([F("a", Bool(), tag=("P", 0)), F("b", Int(R(0, 3)), tag=("A", 7)), F("c", Null(), tag=("", 2)), F("d", Int(R(0, 9)), tag=("A", 1))]))
    o.append(Seq([F("a", Bool(), tag=("", 3)), F("b", Int(R(0, 3)), tag=("", 0))]))
    # depth 2: every composite shape inside every composite shape
    def inner():
        x = q()
        return [Seq([F("p", Int(R(0, 5))), F("q", Bool(), "o")]), Seq([F("p", Enum([(x + "u", None), (x + "v", None), (x + "w", None)]), "o"), F("q", Octet(R(0, 2)), "o")]), Cho([F("p", Int(R(0, 9))), F("q", Null()), F("r", Str(R(1, 3), alpha=R("a", "d")))]), SeqOf(Int(R(1, 4)), R(0, 3)), SeqOf(Bool(), V(3)), SeqOf(Octet(R(0, 2)), R(1, 2)), SeqOf(BitS(V(5)), R(0, 2)), Cho([F("p", Bool())])]
    m = len(inner())
    for i in range(m):
        I = lambda: inner()[i]
        o += [Seq([F("a", I())]), Seq([F("a", Bool()), F("b", I(), "o"), F("c", Int(R(0, 6)))]), Cho([F("a", I()), F("b", Bool()), F("c", I())]), SeqOf(I(), R(0, 3)), SeqOf(I(), V(2))]
        for j in range(m): o.append(Seq([F("a", I(), "o"), F("b", inner()[j])])); o.append(Cho([F("a", I()), F("b", inner()[j])]))
    # depth 3 and 4
    for i in range(m):
        I = lambda: inner()[i]
        o += [Seq([F("a", Seq([F("b", SeqOf(I(), R(0, 2)), "o"), F("c", Cho([F("d", I()), F("e", Bool())]))]))]), SeqOf(Cho([F("a", SeqOf(I(), V(2))), F("b", Seq([F("c", I(), "o")]))]), R(0, 2)), Cho([F("a", Seq([F("b", Cho([F("c", I()), F("d", Int(R(0, 2)))]), "o")])), F("e", SeqOf(SeqOf(I(), R(0, 2)), R(1, 2)))])]
    return o
def with_refs(types, start):
    """the same composites with their inner types moved to type assignments of their own: [(name, type)...]"""
    out = []; k = [start]
    def lift(t):
        if isinstance(t, (Seq, Cho)): t2 = t.clone(f=[cl(f) for f in t.f])
        elif isinstance(t, SeqOf): t2 = t.clone(elem=named(t.elem))
        else: t2 = t
        return t2
    def cl(f):
        import copy; g = copy.copy(f); g.ty = named(f.ty); return g
    def named(t):
        t2 = lift(t); k[0] += 1; n = "TyR%d" % k[0]; out.append((n, t2)); return t2.clone(ref=n)
    for t in types:
        t2 = lift(t); k[0] += 1; out.append(("TyR%d" % k[0], t2))
    return out
def deep(p):
    """thorough only: every pair of components of every shape with every presence, every triple of the small alphabet"""
    n = [0]
    def q():
        n[0] += 1; return "%s%d" % (p, n[0])
    o = []; k = len(small("x"))
    for i in range(k):
        for j in range(k):
            for o1 in ("", "o"):
                for o2 in ("", "o"): o.append(Seq([F("a", small(q())[i], o1), F("b", small(q())[j], o2)]))
            o.append(Cho([F("a", small(q())[i]), F("b", small(q())[j])])); o.append(SeqOf(Seq([F("a", small(q())[i], "o"), F("b", small(q())[j])]), R(0, 2)))
    for i in range(5):
        for j in range(5):
            for l in range(5):
                for m in range(8): o.append(Seq([F("abc"[z], small5(q())[x], "o" if m >> z & 1 else "") for z, x in enumerate((i, j, l))]))
                o.append(Cho([F("abc"[z], small5(q())[x]) for z, x in enumerate((i, j, l))]))
    return o
# ------------------------------------------------------------------ constraint expressions (G05)
def exprs(atoms, th=False):
    """every expression of one operator over the atoms; thorough: of two operators"""
    d1 = list(atoms); d2 = [(op, a, b) for op in "|^-" for a in d1 for b in d1 if a != b] + [("!", a) for a in d1]
    o = d1 + d2
    if th: o += [(op, x, a) for op in "|^-" for x in d2 for a in d1[:4]] + [(op, a, x) for op in "|^-" for x in d2 for a in d1[:4]] + [("!", x) for x in d2]
    return o
def con_types(th=False):
    """[(type, universe of values)]: the values on which the constraint check is asked"""
    o = []
    U = list(range(-4, 13))
    def add(t, u):
        try:
            if isinstance(t, Str) and (not t.charset() or t.gc and not g_chars(t.gc)): return
            if isinstance(t, Sized): t.srng()
            if any(t.ok(v) for v in u): o.append((t, u))
        except IndexError: pass         # an empty effective range: the constraint permits nothing
    for e in exprs([R(1, 3), R(2, 6), V(4), R(None, 2), R(4, None), X(1, 5, 1, 1)], th): add(Int(e), U)
    for e in exprs([R(1, 3), V(4), X(2, 6, 1, 0)]): add(Int(R(0, 8), e), U); add(Int(R(-3, None), e), U)
    for a in [R(1, 3), R(None, 2), ("|", V(1), R(5, 6))]:
        for b in [None, V(8), R(7, 9), ("|", V(7), V(9))]: add(Int(("ext", a, b)), U)
    S = exprs([R(1, 3), R(2, 5), V(4), R(0, 1), X(1, 5, 1, 1)], th)
    for e in S:
        if e[0] == "!": e = ("^", R(0, 6), e)
        add(Octet(e), [pat_bytes(n, 1) for n in range(8)]); add(SeqOf(Bool(), e), [[True] * n for n in range(8)])
    for e in S[::1 if th else 3]:
        if e[0] == "!": e = ("^", R(0, 6), e)
        add(BitS(e), ["10110111"[:n] for n in range(8)]); add(Str(e), ["abcdefgh"[:n] for n in range(8)]); add(SeqOf(Bool(), e, setof=True), [[False] * n for n in range(8)])
    chars = [chr(c) for c in range(1, 128)]
    def words(): return [""] + chars + [c + "b" for c in chars] + ["b" + c for c in chars]
    for e in exprs([R("b", "d"), R("c", "g"), V("e"), R("f", None), R(None, "b"), X("b", "f", 1, 1), V("bg")], th): add(Str(R(0, 2), alpha=e), words())
    for e in exprs([R("1", "3"), V("5"), R("2", "7")]): add(Str(R(0, 2), alpha=e, num=True), words())
    # SIZE, FROM and single values mixed
    W = [x for n in range(4) for x in map("".join, itertools.product("abc", repeat=n))] + ["abca", "bbbb", "d", "ad", "dddd"]
    atoms = [("size", R(1, 2)), ("size", V(3)), ("from", R("a", "b")), ("from", V("c")), ("val", "ab"), ("val", "ccc")]
    for e in exprs(atoms, th): t = Str(R(0, 4)); t.gc = e; add(t, W)
    ab = [("size", R(1, 2)), ("size", V(3)), ("val", b"\x01"), ("val", b"\x01\x02"), ("val", b"\xff\xff\xff")]
    OB = [bytes(x) for n in range(4) for x in itertools.product([1, 2, 255], repeat=n)] + [b"\1\2\3\4"]
    for e in exprs(ab): t = Octet(R(0, 4)); t.gc = e; add(t, OB)
    bb = [("size", R(1, 2)), ("size", V(3)), ("val", "1"), ("val", "01"), ("val", "11011")]
    BB = ["".join(x) for n in range(6) for x in itertools.product("01", repeat=n)]
    for e in exprs(bb): t = BitS(R(0, 5)); t.gc = e; add(t, BB)
    for k, e in enumerate(exprs([("val", "ek1"), ("val", "ek2"), ("val", "ek3")])):
        names = ["ek%d" % i for i in range(4)]
        def ren(c): return (c[0], "k%d%s" % (k, c[1])) if c[0] == "val" else (c[0],) + tuple(ren(x) for x in c[1:])
        t = Enum([("k%d%s" % (k, x), v) for x, v in zip(names, (5, 0, None, 9))]); t.gc = ren(e); add(t, [5, 0, 1, 9, 2, -1, 6, 10])
    for b in (True, False): t = Bool(); t.only = b; o.append((t, [True, False]))
    RU = [x * 0.25 for x in range(-8, 40)] + [INF, -INF, 1e300, -1e300, 1e-300]
    for e in exprs([R(1.0, 3.0), R(2.5, 6.0), V(4.0), R(None, 2.0), R(4.0, None), X(1.0, 5.0, 1, 1), X(None, 2.0, 0, 1)], th): add(Real(e), RU)
    return o
def sub_types():
    """inner subtyping: [(name, type)] groups, every single specification of each component, full and partial"""
    o = []; n = [0]
    def grp(base, subs):
        n[0] += 1; b = "TyW%d" % n[0]; g = [(b, base)]
        for s in subs: n[0] += 1; g.append(("TyW%d" % n[0], s(base.clone(ref=b))))
        o.append(g)
    def sub(part, l): return lambda b: b.clone(ref=None, base=b, wc=(part, l))
    ic = [("int", c) for c in (R(3, 5), V(7), ("|", R(0, 2), V(9)), ("^", R(0, 6), ("!", V(2))), R(None, 4), R(4, None))]
    sq = Seq([F("a", Int(R(0, 10))), F("b", Bool(), "o"), F("c", Int(R(0, 9)), "o"), F("d", Octet(R(0, 4)), "o")])
    subs = [sub(True, [("a", c, "")]) for c in ic] + [sub(False, [("a", c, ""), ("b", None, "OPTIONAL"), ("c", None, "OPTIONAL"), ("d", None, "OPTIONAL")]) for c in ic]
    for pb in ("PRESENT", "ABSENT", "OPTIONAL"):
        for pc in ("PRESENT", "ABSENT", "OPTIONAL"):
            subs.append(sub(True, [("b", None, pb), ("c", None, pc)]))
            if pc != "ABSENT": subs.append(sub(True, [("a", ic[0], ""), ("c", ic[2], pc)]))
            for pd in ("PRESENT", "ABSENT", "OPTIONAL"): subs.append(sub(False, [("b", None, pb), ("c", None, pc), ("d", None, pd)]))
    subs += [sub(True, [("d", ("size", c), q)]) for c in (R(1, 2), V(3)) for q in ("", "PRESENT", "OPTIONAL")]
    subs.append(sub(False, [("a", ic[0], "")]))         # the components that are not named must be absent
    grp(sq, subs)
    ch = Cho([F("x", Int(R(0, 10))), F("y", Bool()), F("z", Octet(R(0, 3)))])
    subs = [sub(True, [("x", c, "")]) for c in ic] + [sub(False, [("x", c, ""), ("y", None, ""), ("z", None, "")]) for c in ic] + [sub(p, [("x", None, q)]) for q in ("PRESENT", "ABSENT") for p in (True,)] + [sub(True, [("y", None, "ABSENT"), ("z", None, "ABSENT")]), sub(True, [("x", ic[0], ""), ("y", None, "ABSENT")]), sub(False, [("x", ic[0], ""), ("z", None, "")]), sub(True, [("z", ("size", R(1, 2)), "PRESENT")])]
    grp(ch, subs)
    so = SeqOf(Int(R(0, 10)), R(0, 3))
    def subo(c): return lambda b: SeqOf(so.elem, None, base=b).clone(wcon=c)
    grp(so, [subo(c) for c in ic])
    def only(vs): return lambda b: (b.clone(ref=None, base=b, only=vs) if not isinstance(b, SeqOf) else SeqOf(b.elem, None, base=b).clone(only=vs))
    grp(sq, [only([{"a": 3}, {"a": 4, "b": True}])]); grp(ch, [only([("x", 4), ("y", True)])]); grp(so, [only([[1, 2], [3, 4, 5]])])
    return o
