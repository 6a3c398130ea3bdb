"""The ACN types of the checks: every attribute on every type it applies to, and the structures that use inserted fields."""
from acn import *
def U(n): return Int(R(0, n))
def num_leaves(th=False):
    o = []
    ks = [1, 2, 3, 5, 7, 8, 9, 12, 13, 15, 16, 17, 24, 31, 32, 33, 40, 47, 48, 56, 63, 64]
    for k in ks:
        o.append(A(Int(R(0, 2**k - 1)), enc="pos-int", size=k))
        if k > 2: o.append(A(Int(R(-2**(k - 1), 2**(k - 1) - 1)), enc="twos-complement", size=k))
        if k > 4: o += [A(Int(R(3, 2**(k - 1) + 5)), enc="pos-int", size=k), A(Int(R(-5, 2**(k - 2))), enc="twos-complement", size=k), A(Int(R(-2**(k - 1), -1)), enc="twos-complement", size=k)]
    for k in (16, 32, 64):
        for e in ("big", "little"):
            o += [A(Int(R(0, 2**k - 1)), enc="pos-int", size=k, endian=e), A(Int(R(10, 300)), enc="pos-int", size=k, endian=e), A(Int(R(-2**(k - 1), 2**(k - 1) - 1)), enc="twos-complement", size=k, endian=e), A(Int(R(-300, 10)), enc="twos-complement", size=k, endian=e)]
    o += [A(Int(R(0, 255)), enc="pos-int", size=k) for k in (16, 20, 33, 64)] + [A(Int(R(-20, 20)), enc="twos-complement", size=k) for k in (8, 16, 20, 33, 64)]
    o += [A(Int(R(0, None)), enc="pos-int", size=64), A(Int(), enc="twos-complement", size=64)]
    for k in (1, 2, 3, 5, 8, 15, 19, 20): o.append(A(Int(R(0, min(10**k - 1, 2**64 - 1))), enc="ASCII", size=8 * k + 8))
    for k in (1, 2, 3, 5, 9, 15, 18): o.append(A(Int(R(-10**k + 1, 10**k - 1)), enc="ASCII", size=8 * k + 8))
    o += [A(Int(), enc="ASCII", size=160), A(Int(R(-2**63, 2**63 - 1)), enc="ASCII", size=160), A(Int(R(0, 2**64 - 1)), enc="ASCII", size=168)]
    for b in (Int(R(0, 2**64 - 1)), Int(R(0, 9)), Int(R(0, 1000)), Int(R(-9, 9)), Int(R(-2**63, 2**63 - 1)), Int(R(-1000, 5000)), Int(R(-1000, -10))):
        for tm in (None, "00000000", "00000001", bits(0x2C, 8), bits(0x010203, 24), bits(0x0D0A, 16), bits(0x0D0D0A, 24)):
            o.append(A(b, enc="ASCII", size="null-terminated", **({} if tm is None else dict(term=tm))))
    for k in (1, 2, 3, 5, 10, 15, 18, 19): o.append(A(Int(R(0, 10**k - 1)), enc="BCD", size=4 * k))
    o += [A(Int(R(0, 9999)), enc="BCD", size=40), A(Int(R(5, 77)), enc="BCD", size=8)]
    for b in (Int(R(0, 9)), Int(R(0, 10**18)), Int(R(0, 2**64 - 1)), Int(R(7, 1234))): o.append(A(b, enc="BCD", size="null-terminated"))
    o += [A(Int(R(1, 32)), enc="pos-int", size=5, map="milbus"), A(Int(R(1, 32)), enc="pos-int", size=8, map="milbus"), A(Int(R(1, 31)), enc="pos-int", size=16, endian="little", map="milbus")]
    return o
EN3 = Enum([("ea", None), ("eb", None), ("ec", None)]); ENV = Enum([("va", 5), ("vb", 1), ("vc", 200), ("vd", 17)]); ENN = Enum([("na", -3), ("nb", 0), ("nc", 100)])
def other_leaves():
    o = []
    for tv in ("0", "1", "01", "111", "10000000", "001100110", "1" * 16, "0" * 31 + "1", "10" * 20):
        o += [A(Bool(), tv=tv), A(Bool(), fv=tv)]
    o += [A(Bool(), tv="001", fv="000"), A(Bool(), tv="1111", fv="0110"), A(Bool(), tv="10101010", fv="10101011"), A(Bool(), tv="0" * 16, fv="1" + "0" * 15)]
    for e in (EN3, ENV, Enum([("one", None)]), Enum([("x%d" % i, None) for i in range(17)])):
        o += [A(e, enc="pos-int", size=k, **kw) for k, kw in ((8, {}), (5, {}), (16, {}), (16, dict(endian="little")), (32, dict(endian="little")), (64, dict(endian="little")), (33, {}))] + [A(e, enc="ASCII", size=24), A(e, enc="BCD", size=8)]
    for e in (ENV, Enum([("x%d" % i, i * 3 + 2) for i in range(17)])):
        o += [A(e, ev=True), A(e, ev=True, enc="pos-int", size=8), A(e, ev=True, enc="pos-int", size=11), A(e, ev=True, enc="pos-int", size=16, endian="little"), A(e, ev=True, enc="ASCII", size=32), A(e, ev=True, enc="BCD", size=12), A(e, ev=True, enc="ASCII", size="null-terminated"), A(e, ev=True, enc="BCD", size="null-terminated")]
    o += [A(ENN, ev=True, enc="twos-complement", size=k) for k in (8, 10, 16, 32)] + [A(ENN, ev=True), A(ENN, ev=True, enc="ASCII", size=40), A(ENN, ev=True, enc="twos-complement", size=16, endian="little"), A(ENN, enc="pos-int", size=8)]
    o += [A(EN3, ev=True, enc="pos-int", size=10, renum=dict(ea=50, eb=60, ec=7)), A(EN3, ev=True, enc="BCD", size=12, renum=dict(ea=50, eb=60, ec=999)), A(EN3, ev=True, renum=dict(ea=50, eb=60, ec=7)), A(ENV, ev=True, enc="pos-int", size=16, endian="little", renum=dict(va=1, vb=5, vc=1000, vd=999))]
    for e in ("IEEE754-1985-32", "IEEE754-1985-64"):
        for en in (None, "big", "little"): o.append(A(Real(), enc=e, **({} if en is None else dict(endian=en))))
    S = [Str(size=R(0, 5)), Str(size=R(1, 20)), Str(size=V(4)), Str(size=R(0, 9), alpha=R("A", "Z")), Str(size=R(2, 300), alpha=("|", R("a", "f"), V("z"))), Str(size=V(3), alpha=R("0", "9")), Str(size=R(0, 10), num=True), Str(size=R(1, 4), alpha=("v", "x"))]
    for s in S:
        o.append(A(s, enc="ASCII"))
        for tm in (None, "00000000", bits(1, 8), bits(0x0102, 16), bits(0x1F, 8), bits(0x010203, 24), bits(0x010102, 24)):
            if tm and int(tm[:8], 2) and (s.alpha is None or s.num): continue
            o.append(A(s, enc="ASCII", size="null-terminated", **({} if tm is None else dict(term=tm))))
    o += [A(Null(), pat=p) for p in ("1", "001", "10101010", "1" * 17, bits(0xAABBCC, 24), "0" * 32, bits(0x123456789ABCDEF0, 64))] + [Null()]
    for tm in ("1111", "00000000", bits(0x0F0F, 16), bits(0xFFFFFF, 24), "1" * 40):
        o += [A(Octet(size=R(0, 6)), size="null-terminated", term=tm), A(Octet(size=R(2, 40)), size="null-terminated", term=tm), A(BitS(size=R(0, 12)), size="null-terminated", term=tm), A(BitS(size=R(3, 60)), size="null-terminated", term=tm),
              A(SeqOf(Int(R(0, 200)), size=R(0, 5)), size="null-terminated", term=tm), A(SeqOf(U(1), size=R(0, 9)), size="null-terminated", term=tm), A(SeqOf(A(Int(R(0, 1000)), enc="pos-int", size=16, endian="little"), size=R(1, 4)), size="null-terminated", term=tm)]
    o += [Octet(size=R(0, 5)), Octet(size=V(3)), Octet(size=R(0, 300)), BitS(size=R(0, 20)), BitS(size=V(13)), BitS(size=R(1, 300)), SeqOf(U(7), size=R(0, 3)), SeqOf(Bool(), size=V(5)), Str(size=R(0, 5)), Str(size=V(4), alpha=R("a", "e")), Int(R(0, 5)), Int(R(-9, 500)), Int(), Int(R(5, None)), EN3, ENV, Bool(), Real(), Oid(), Oid(True)]
    o += [A(Octet(size=V(5)), size=5), A(BitS(size=V(11)), size=11), A(SeqOf(U(3), size=V(3)), size=3)]
    o += [SeqOf(A(Int(R(0, 1000)), enc="pos-int", size=16, endian="little"), size=R(0, 3)), SeqOf(A(Bool(), tv="110"), size=R(0, 4)), SeqOf(A(Str(size=R(0, 3)), enc="ASCII", size="null-terminated"), size=R(0, 3)), SeqOf(SeqOf(A(U(3), enc="pos-int", size=4), size=R(0, 2)), size=R(0, 2)),
          Cho([fa("a", A(U(3), enc="pos-int", size=8)), fa("b", A(Bool(), fv="000"))]), Seq([fa("a", A(U(3), enc="pos-int", size=8), "o"), fa("b", A(Real(), enc="IEEE754-1985-32"), "d", 1.5), fa("c", A(Null(), pat="1011"))])]
    return o
ALIGNABLE = [U(3), A(U(255), enc="pos-int", size=8), A(U(1000), enc="pos-int", size=16, endian="little"), A(Int(R(-3, 3)), enc="twos-complement", size=5), Bool(), A(Bool(), tv="101"), Null(), A(Null(), pat="1101"), EN3, A(EN3, enc="pos-int", size=6), Real(), A(Real(), enc="IEEE754-1985-64", endian="little"), Str(size=R(0, 3), alpha=R("a", "d")), A(Str(size=R(0, 3)), enc="ASCII"), A(Str(size=R(0, 3)), enc="ASCII", size="null-terminated"), A(Str(size=V(2)), enc="ASCII"),
             Octet(size=R(0, 3)), Octet(size=V(2)), BitS(size=R(0, 5)), BitS(size=V(5)), SeqOf(U(3), size=R(0, 3)), SeqOf(Bool(), size=V(3)), Seq([fa("x", U(1)), fa("y", U(31), "o")]), Cho([fa("p", U(3)), fa("q", Bool())]), A(U(99), enc="BCD", size=8), A(Int(R(-99, 99)), enc="ASCII", size=24)]
def aligned():
    o = []
    for al in (8, 16, 32):
        for t in ALIGNABLE:
            o.append(A(t, align=al))
            o.append(Seq([fa("k", BitS(size=V(3))), fa("a", A(t, align=al)), fa("z", Bool())]))
        for n in (1, 7, 8, 9, 15, 16, 17, 23, 25, 31, 32, 33): o.append(Seq([fa("k", BitS(size=V(n))), fa("a", A(U(7), align=al)), fa("z", Bool())]))
        o.append(Seq([fa("k", BitS(size=R(0, 33))), fa("a", A(U(7), align=al)), fa("z", A(Bool(), align=8))]))
        o.append(SeqOf(A(U(7), align=al), size=R(0, 4))); o.append(Cho([fa("p", A(U(3), align=al)), fa("q", Bool())])); o.append(Seq([fa("a", A(Octet(size=R(0, 2)), align=al), "o"), fa("b", Bool())]))
        o.append(Seq([fa("k", BitS(size=V(3))), fa("a", A(SeqOf(A(U(7), align=al), size=R(0, 3)), align=8))]))
    return o
LENT = [lambda n: A(U(n), enc="pos-int", size=8), lambda n: U(n), lambda n: A(U(n), enc="pos-int", size=16, endian="little"), lambda n: A(U(n), enc="ASCII", size=24), lambda n: A(U(n), enc="BCD", size=12), lambda n: A(U(n), enc="pos-int", size=13), lambda n: A(U(n), enc="ASCII", size="null-terminated"), lambda n: A(U(n), enc="pos-int", size=32), lambda n: A(U(n), enc="pos-int", size=9, align=8)]
BARE = [A(Int(R(0, 2**8 - 1)), enc="pos-int", size=8), A(Int(R(0, 2**16 - 1)), enc="pos-int", size=16, endian="little"), A(Int(R(0, 31)), enc="pos-int", size=5)]    # INTEGER [..] written inside the ACN grammar
def sized_fields():
    """groups: a length field inserted by ACN in front of what it measures"""
    g = []; k = [0]
    def nm(): k[0] += 1; return "TyZ%d" % k[0]
    body = [(Octet(size=R(0, 6)), 6), (Octet(size=R(2, 20)), 20), (BitS(size=R(0, 17)), 17), (SeqOf(U(7), size=R(0, 5)), 5), (SeqOf(Seq([fa("x", U(3)), fa("y", Bool(), "o")]), size=R(0, 3)), 3), (Str(size=R(0, 5)), 5), (Str(size=R(1, 9), alpha=R("a", "h")), 9), (A(Str(size=R(0, 7), alpha=R("A", "Z")), enc="ASCII"), 7), (SeqOf(Octet(size=R(0, 2)), size=R(0, 3)), 3)]
    for i, (b, mx) in enumerate(body):
        for j, lt in enumerate(LENT):
            ln = nm(); l = lt(mx); g.append([(ln, l), (nm(), Seq([fa("h", U(3)), fi("len", l.clone(ref=ln), "len(v['b'])"), fa("b", A(b, size="len")), fa("z", Bool())]))])
        for l in BARE: g.append([(nm(), Seq([fi("len", l, "len(v['b'])"), fa("b", A(b, size="len"))]))])
        ln = nm(); l = A(U(mx), enc="pos-int", size=8)
        g.append([(ln, l), (nm(), Seq([fi("len", l.clone(ref=ln), "len(v['b'])"), fa("m", BitS(size=V(5))), fa("b", A(b, size="len")), fa("n", U(100)), fa("c", A(b, size="len"))]))])
        g[-1][-1][1].refuse = "len(v['b']) != len(v['c'])"
        g.append([(nm(), Seq([fa("hd", Seq([fa("x", U(3)), fi("len", BARE[i % 3], "len(st[0]['b'])"), fa("y", Bool())])), fa("b", A(b, size="hd.len"))]))])
        g.append([(nm(), Seq([fa("hd", Seq([fi("len", BARE[0], "len(st[0]['inn']['b'])"), fa("in2", Seq([fi("len2", BARE[0], "len(st[0]['c'])")]))])), fa("inn", Seq([fa("k", Bool()), fa("b", A(b, size="hd.len"))])), fa("c", A(b, size="hd.in2.len2"))]))])
        pb = nm(); lb = nm(); t1 = A(b, size="ln", params=[(lb, "ln")]); l = A(U(mx), enc="pos-int", size=8)
        g.append([(lb, l), (pb, t1), (nm(), Seq([fi("n1", l.clone(ref=lb), "len(v['b'])"), fa("k", U(1)), fa("b", t1.clone(ref=pb), args=["n1"])]))])
        if i < 5:      # optional body: the length of an absent one is free, it is written as zero or the first legal value: not judged, so a flag makes both optional
            g.append([(nm(), Seq([fi("n1", BARE[0], "len(v['b']) if 'b' in v else None"), fa("k", U(1)), fa("b", A(b, size="n1"))]))])
    # two lengths, nested lists, range of the length narrower or shifted
    for l in (A(Int(R(2, 20)), enc="pos-int", size=8), Int(R(2, 20)), Int(R(0, 255)), Int(R(1, 21)), A(Int(R(2, 20)), enc="pos-int", size=16, endian="little")):
        ln = nm(); g.append([(ln, l), (nm(), Seq([fi("len", l.clone(ref=ln), "len(v['b'])"), fa("b", A(Octet(size=R(2, 20)), size="len"))]))])
    g.append([(nm(), Seq([fi("l1", BARE[0], "len(v['a'])"), fi("l2", BARE[2], "len(v['b'])"), fa("a", A(Octet(size=R(0, 4)), size="l1")), fa("b", A(SeqOf(U(3), size=R(0, 5)), size="l2"))]))])
    g.append([(nm(), Seq([fi("l1", BARE[0], "len(v['a'])"), fa("a", A(Octet(size=R(0, 4)), size="l1")), fi("l2", BARE[2], "len(v['b'])"), fa("b", A(SeqOf(U(3), size=R(0, 5)), size="l2"))]))])
    e = Seq([fi("l", BARE[2], "len(v['s'])"), fa("s", A(Str(size=R(0, 3)), size="l"))]); g.append([(nm(), SeqOf(e, size=R(0, 3)))]); en = nm(); g.append([(en, e), (nm(), Seq([fa("k", Bool()), fa("l", SeqOf(e.clone(ref=en), size=R(0, 3)))]))])
    l = A(U(32), enc="pos-int", size=5, map="milbus"); l = A(Int(R(1, 32)), enc="pos-int", size=5, map="milbus"); ln = nm(); g.append([(ln, l), (nm(), Seq([fi("len", l.clone(ref=ln), "len(v['b'])"), fa("b", A(SeqOf(U(7), size=R(1, 32)), size="len"))]))])
    return g
def optional_fields():
    g = []; k = [0]
    def nm(): k[0] += 1; return "TyO%d" % k[0]
    bo = [Bool(), A(Bool(), tv="111"), A(Bool(), fv="00"), A(Bool(), tv="01", fv="10")]
    comp = [U(7), A(U(255), enc="pos-int", size=8), Octet(size=R(0, 2)), Seq([fa("p", U(3)), fa("q", Bool())]), Cho([fa("p", U(3)), fa("q", Bool())]), SeqOf(U(3), size=R(0, 2)), EN3, A(Null(), pat="101"), A(Real(), enc="IEEE754-1985-32"), A(U(15), align=8)]
    for i, c in enumerate(comp):
        g.append([(nm(), Seq([fi("f", bo[i % 4], "'b' in v"), fa("b", c, "o", pw="f"), fa("z", U(3))]))])
        g.append([(nm(), Seq([fa("y", U(1), "o"), fi("f", bo[(i + 1) % 4], "'b' in v"), fi("f2", Bool(), "'c' in v"), fa("b", c, "o", pw="f"), fa("x", c, "o"), fa("c", c, "o", pw="f2")]))])
        t = Seq([fi("f", bo[(i + 2) % 4], "'b' in v"), fa("b", c, "o", pw="f"), fa("z", U(3)), fa("c", c, "o", pw="f")]); t.refuse = "('b' in v) != ('c' in v)"; g.append([(nm(), t)])
        g.append([(nm(), Seq([fa("hd", Seq([fa("x", U(3)), fi("f", Bool(), "'b' in st[0]")])), fa("b", c, "o", pw="hd.f")]))])
        d = vals(c, 3)[0]
        if not isinstance(c, (Null,)): g.append([(nm(), Seq([fi("f", Bool(), "'b' in v"), fa("b", c, "d", d, pw="f"), fa("z", U(3))]))])
        pn = nm(); p = Seq([fa("b", c, "o", pw="pf"), fa("k", U(1))]); p.params = [("BOOLEAN", "pf")]; g.append([(pn, p), (nm(), Seq([fi("f", Bool(), "'b' in v['s']"), fa("s", p.clone(ref=pn), args=["f"])]))])
    bn = nm(); bt = A(Bool(), tv="11"); g.append([(bn, bt), (nm(), Seq([fi("f", bt.clone(ref=bn), "'b' in v"), fa("b", U(7), "o", pw="f")]))])
    # expressions over ASN.1 fields
    I8 = A(Int(R(0, 255)), enc="pos-int", size=8); S16 = A(Int(R(-100, 100)), enc="twos-complement", size=8)
    X = [("i <10 and i%2 == 0", lambda v: v["i"] < 10 and v["i"] % 2 == 0), ("(i <10 and i%2 == 0) or (i>=10 and i <=14)", 0), ("!(i != 5)", 0), ("i != 5", 0), ("i + j > 20", 0), ("i - 3 > 10", 0), ("i * 2 == j", 0), ("i / 2 == 4", 0), ("i > j", 0), ("i >= j", 0), ("i < j and j < 100", 0), ("i == j or i == 0", 0), ("!(i == j)", 0), ("f or f", 0), ("!f", 0), ("f and i > 5", 0), ("f or i > 5", 0), ("f and !g", 0), ("f == g", 0), ("f != g", 0), ("i % 4 == 3 and (f or g)", 0), ("i + 2 * j == 9", 0), ("(i + 2) * j == 9", 0), ("i - j - 1 == 2", 0), ("i > 250 or j > 250 and f", 0)]
    for ex, _ in X:
        py = ex.replace("!=", "#").replace("!", " not ").replace("#", "!=").replace("/", "//")
        import re
        py = re.sub(r"\b([ijfg])\b", r"v['\1']", py)
        t = Seq([fa("i", I8), fa("j", I8), fa("f", Bool()), fa("g", Bool()), fa("b", U(7), "o", pw=ex)]); t.refuse = "bool(%s) != ('b' in v)" % py.strip(); t.pool = "i" ; g.append([(nm(), t)])
    for ex, py in (("s < 0", "v['s'] < 0"), ("s + 5 > 0", "v['s'] + 5 > 0"), ("0 - s > 3", "-v['s'] > 3"), ("s == -1", "v['s'] == -1"), ("s * s > 100", "v['s'] * v['s'] > 100")):
        t = Seq([fa("s", S16), fa("b", U(7), "o", pw=ex)]); t.refuse = "bool(%s) != ('b' in v)" % py; g.append([(nm(), t)])
    for ex, py in (("r > 1.5", "v['r'] > 1.5"), ("r <= 0.5 or r > 10.0", "v['r'] <= 0.5 or v['r'] > 10.0"), ("r == 0.5", "v['r'] == 0.5")):
        t = Seq([fa("r", A(Real(R(-100.0, 100.0)), enc="IEEE754-1985-64")), fa("b", U(7), "o", pw=ex)]); t.refuse = "bool(%s) != ('b' in v)" % py; g.append([(nm(), t)])
    return g
def choice_fields():
    g = []; k = [0]
    def nm(): k[0] += 1; return "TyH%d" % k[0]
    A3 = lambda: [fa("ca", U(7)), fa("cb", Bool()), fa("cc", Octet(size=R(0, 2)))]
    SEL = Enum([("ca", None), ("cb", None), ("cc", None)]); SEL2 = Enum([("ca", 20), ("cb", 5), ("cc", 10)])
    for s in (SEL, A(SEL, enc="pos-int", size=8), A(SEL, enc="pos-int", size=16, endian="little"), SEL2, A(SEL2, ev=True, enc="pos-int", size=8), A(SEL2, ev=True), A(SEL2, ev=True, enc="ASCII", size=24), A(SEL2, enc="pos-int", size=5), A(SEL2, ev=True, enc="BCD", size=12), A(SEL, ev=True, enc="pos-int", size=8, renum=dict(ca=9, cb=200, cc=0))):
        sn = nm(); num = {n: x for n, x in s.numbered()}; sel = "dict(%s)[v['b'][0]]" % ", ".join("%s=%d" % x for x in num.items())
        g.append([(sn, s), (nm(), Seq([fa("h", U(1)), fi("sel", s.clone(ref=sn), sel), fa("b", A(Cho(A3()), det="sel")), fa("z", Bool())]))])
        cn = nm(); sn = nm(); c = A(Cho(A3()), det="ps", params=[(sn, "ps")]); g.append([(sn, s), (cn, c), (nm(), Seq([fi("sel", s.clone(ref=sn), sel), fa("h", BitS(size=V(5))), fa("b", c.clone(ref=cn), args=["sel"])]))])
        sn = nm(); g.append([(sn, s), (nm(), Seq([fa("hd", Seq([fa("q", Bool()), fi("sel", s.clone(ref=sn), sel.replace("v['b']", "st[0]['b']"))])), fa("b", A(Cho(A3()), det="hd.sel"))]))])
        sn = nm(); t = Seq([fi("sel", s.clone(ref=sn), sel), fa("b", A(Cho(A3()), det="sel")), fa("c", A(Cho(A3()), det="sel"))]); t.refuse = "v['b'][0] != v['c'][0]"; g.append([(sn, s), (nm(), t)])
    def pwc(conds): o = A3(); [setattr(f, "pw", c) for f, c in zip(o, conds)]; return Cho(o)
    for it in (A(Int(R(0, 255)), enc="pos-int", size=8), Int(R(0, 100)), A(Int(R(0, 65535)), enc="pos-int", size=16, endian="little"), A(Int(R(0, 100)), enc="ASCII", size=32), A(Int(R(0, 99)), enc="BCD", size=8)):
        n = nm(); g.append([(n, it), (nm(), Seq([fi("t", it.clone(ref=n), "dict(ca=1, cb=20, cc=50)[v['b'][0]]"), fa("b", pwc([[("t", 1)], [("t", 20)], [("t", 50)]])), fa("z", Bool())]))])
        n = nm(); g.append([(n, it), (nm(), Seq([fi("t", it.clone(ref=n), "dict(ca=1, cb=20, cc=20)[v['b'][0]]"), fi("u", it.clone(ref=n), "dict(ca=10, cb=20, cc=0)[v['b'][0]]"), fa("b", pwc([[("t", 1), ("u", 10)], [("t", 20), ("u", 20)], [("t", 20), ("u", 0)]]))]))])
        n = nm(); cn = nm(); c = pwc([[("p1", 1), ("p2", 10)], [("p1", 20), ("p2", 20)], [("p1", 20), ("p2", 0)]]); c.params = [(n, "p1"), (n, "p2")]
        g.append([(n, it), (cn, c), (nm(), Seq([fi("t", it.clone(ref=n), "dict(ca=1, cb=20, cc=20)[v['b'][0]]"), fa("q", BitS(size=V(3))), fi("u", it.clone(ref=n), "dict(ca=10, cb=20, cc=0)[v['b'][0]]"), fa("b", c.clone(ref=cn), args=["t", "u"])]))])
    for it in BARE[:2]: g.append([(nm(), Seq([fi("t", it, "dict(ca=1, cb=20, cc=50)[v['b'][0]]"), fa("b", pwc([[("t", 1)], [("t", 20)], [("t", 50)]]))]))])
    sit = A(Int(R(-50, 50)), enc="twos-complement", size=8)
    for st_ in (A(Str(size=R(1, 5)), enc="ASCII", size="null-terminated"), A(Str(size=V(4)), enc="ASCII"), Str(size=V(4), alpha=R("A", "Z")), A(Str(size=R(1, 6)), enc="ASCII")):
        n = nm(); fx = st_.srng()[0] == st_.srng()[1]; w = ("ABCD", "XYZW", "ABCE") if fx else ("A", "XY", "ABC")
        g.append([(n, st_), (nm(), Seq([fi("t", st_.clone(ref=n), "dict(ca='%s', cb='%s', cc='%s')[v['b'][0]]" % w), fa("b", pwc([[("t", x)] for x in w]))]))])
    # a choice of nested structures, and an optional choice
    sn = nm(); g.append([(sn, SEL), (nm(), Seq([fi("f", Bool(), "'b' in v"), fi("sel", SEL.clone(ref=sn), "None if 'b' not in v else dict(ca=0, cb=1, cc=2)[v['b'][0]]"), fa("b", A(Cho(A3()), det="sel"), "o", pw="f")]))])
    g[-1][-1][1].skip = "'b' not in v"
    g.append([(nm(), Cho([fa("p", Seq([fi("l", BARE[0], "len(v['b'])"), fa("b", A(Octet(size=R(0, 3)), size="l"))])), fa("q", Seq([fi("f", Bool(), "'o' in v"), fa("o", U(3), "o", pw="f")])), fa("r", A(Null(), pat="111"))]))])
    return g
def structure():
    """patterns between fields, references that inherit or override attributes, constants, types nested in each other"""
    g = []; k = [0]
    def nm(): k[0] += 1; return "TyR%d" % k[0]
    for p in ("1", "000", "1001", bits(0xAABBCC, 24)): g.append([(nm(), Seq([fi("p0", A(Null(), pat=p), None), fa("a", U(7)), fi("p1", A(Null(), pat=p), None), fa("b", Bool(), "o"), fi("p2", A(Null(), pat="01"), None)]))])
    g.append([(nm(), Seq([fi("p0", A(Null(), pat="1100"), None)]))]); g.append([(nm(), Seq([fa("a", U(7)), fi("p1", A(Null(), pat="1", align=8), None), fa("z", Bool())]))])
    b8 = A(U(255), enc="pos-int", size=8); n = nm()
    def site(t, **kw): r = t.clone(); r.site = kw; return r
    g.append([(n, b8), (nm(), Seq([fa("a", b8.clone(ref=n)), fa("b", site(b8.clone(ref=n), size=16)), fa("c", site(b8.clone(ref=n), size=16, endian="little")), fa("d", site(b8.clone(ref=n), align=16)), fa("e", SeqOf(b8.clone(ref=n), size=R(0, 2)))]))])
    e = A(ENV, enc="pos-int", size=8); n = nm(); g.append([(n, e), (nm(), Seq([fa("a", e.clone(ref=n)), fa("b", site(e.clone(ref=n), ev=True)), fa("c", site(e.clone(ref=n), size=16, endian="little"))]))])
    s = Str(size=R(0, 5)); n = nm(); g.append([(n, s), (nm(), Seq([fa("a", s.clone(ref=n)), fa("b", site(s.clone(ref=n), enc="ASCII")), fa("c", site(s.clone(ref=n), enc="ASCII", size="null-terminated"))]))])
    r = Real(); n = nm(); g.append([(n, r), (nm(), Seq([fa("a", r.clone(ref=n)), fa("b", site(r.clone(ref=n), enc="IEEE754-1985-64", endian="little"))]))])
    b = Bool(); n = nm(); g.append([(n, b), (nm(), Seq([fa("a", b.clone(ref=n)), fa("b", site(b.clone(ref=n), tv="101")), fa("c", site(b.clone(ref=n), align=8))]))])
    o = Octet(size=R(0, 5)); n = nm(); g.append([(n, o), (nm(), Seq([fi("l", BARE[0], "len(v['b'])"), fa("a", o.clone(ref=n)), fa("b", site(o.clone(ref=n), size="l")), fa("c", site(o.clone(ref=n), align=32))]))])
    q = SeqOf(U(7), size=R(0, 4)); n = nm(); g.append([(n, q), (nm(), Seq([fi("l", BARE[0], "len(v['b'])"), fa("a", q.clone(ref=n)), fa("b", site(q.clone(ref=n), size="l"))]))])
    c = Cho([fa("ca", U(7)), fa("cb", Bool())]); n = nm(); m = nm(); se = Enum([("ca", None), ("cb", None)]); g.append([(n, c), (m, se), (nm(), Seq([fi("s", se.clone(ref=m), "dict(ca=0, cb=1)[v['b'][0]]"), fa("a", c.clone(ref=n)), fa("b", site(c.clone(ref=n), det="s"))]))])
    a1 = A(U(255), enc="pos-int", size=8); n1, n2, n3 = nm(), nm(), nm()
    i = Seq([fi("l", a1.clone(ref=n1), "len(v['b'])"), fa("b", A(SeqOf(a1.clone(ref=n1), size=R(0, 3)), size="l")), fa("o", Bool(), "o")])
    g.append([(n1, a1), (n2, i), (n3, Seq([fa("x", i.clone(ref=n2)), fa("y", SeqOf(i.clone(ref=n2), size=R(0, 2))), fa("z", i.clone(ref=n2), "o"), fa("w", Cho([fa("k", i.clone(ref=n2)), fa("m", Null())]))]))])
    g.append([(nm(), Seq([fa("a", Seq([fa("b", Seq([fi("l", BARE[0], "len(st[0]['d']['e']['s'])"), fi("f", Bool(), "'o' in st[0]['d']")]))])), fa("d", Seq([fa("e", Seq([fa("s", A(Octet(size=R(0, 3)), size="a.b.l"))])), fa("o", U(3), "o", pw="a.b.f")]))]))])
    # parameters handed through two levels
    ln, t1, t2 = nm(), nm(), nm(); l = A(U(9), enc="pos-int", size=8); q = A(SeqOf(U(7), size=R(0, 9)), size="pl", params=[(ln, "pl")]); w = Seq([fa("k", Bool()), fa("q", q.clone(ref=t1), args=["pp"])]); w.params = [(ln, "pp")]
    g.append([(ln, l), (t1, q), (t2, w), (nm(), Seq([fi("n", l.clone(ref=ln), "len(v['w']['q'])"), fa("w", w.clone(ref=t2), args=["n"])]))])
    g.append([(ln + "x", l), (t1 + "x", A(q, params=[(ln + "x", "pl")])), (t2 + "x", Seq([fa("hd", Seq([fi("n", l.clone(ref=ln + "x"), "len(st[-2]['q'])")])), fa("q", q.clone(ref=t1 + "x"), args=["hd.n"])]))])
    return g
def all_groups(th=False):
    def wrap(ts, p): return [[("Ty%s%d" % (p, i), t)] for i, t in enumerate(ts)]
    return wrap(num_leaves(th), "N") + wrap(other_leaves(), "L") + wrap(aligned(), "A") + sized_fields() + optional_fields() + choice_fields() + structure()
