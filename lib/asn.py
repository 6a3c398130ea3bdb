"""ASN.1 types as data, their ASN.1 text, their abstract values, and an independent uPER codec (X.691 unaligned).
Written from X.680/X.691, not from the code of asn1scc."""
import itertools, struct, math

INF = float("inf")
U64 = (0, 2**64 - 1); S64 = (-2**63, 2**63 - 1)

class Reject(Exception): pass      # not a legal encoding / value
class Amb(Exception): pass         # the rules leave the answer open

# ------------------------------------------------------------------ constraints
# ('r',lo,hi) with None = MIN/MAX; ('v',x); ('|',a,b); ('^',a,b); ('-',a,b) = a EXCEPT b; ('!',a) = ALL EXCEPT a; ('ext',a,b|None)
def R(lo, hi): return ("r", lo, hi)
def X(lo, hi, a, b): return ("x", lo, hi, int(a), int(b))      # a, b: the bound itself is excluded
def V(x): return ("v", x)
def con_ok(c, x):
    k = c[0]
    if k == "r": return (c[1] is None or x >= c[1]) and (c[2] is None or x <= c[2])
    if k == "v": return x == c[1]
    if k == "x": return (c[1] is None or x > c[1] or (not c[3] and x == c[1])) and (c[2] is None or x < c[2] or (not c[4] and x == c[2]))
    if k == "|": return con_ok(c[1], x) or con_ok(c[2], x)
    if k == "^": return con_ok(c[1], x) and con_ok(c[2], x)
    if k == "-": return con_ok(c[1], x) and not con_ok(c[2], x)
    if k == "!": return not con_ok(c[1], x)
    if k == "ext": return con_ok(c[1], x) or (c[2] is not None and con_ok(c[2], x))
    raise ValueError(c)
def con_text(c, num=str, top=True):
    k = c[0]
    n = lambda v, d: d if v is None else num(v)
    if k == "r": return "%s..%s" % (n(c[1], "MIN"), n(c[2], "MAX"))
    if k == "v": return num(c[1])
    if k == "x": return "%s%s..%s%s" % (n(c[1], "MIN"), "<" * c[3], "<" * c[4], n(c[2], "MAX"))
    p = lambda q: con_text(q, num) if q[0] in "rvx" else "(" + con_text(q, num) + ")"
    if k == "|": return p(c[1]) + " | " + p(c[2])
    if k == "^": return p(c[1]) + " ^ " + p(c[2])
    if k == "-": return p(c[1]) + " EXCEPT " + p(c[2])
    if k == "!": return "ALL EXCEPT " + p(c[1])
    if k == "ext": return con_text(c[1], num) + ", ..." + (", " + con_text(c[2], num) if c[2] is not None else "")
# exact sets as sorted disjoint interval lists, PER-visible part only (EXCEPT exclusions are ignored, X.691 B.2.2.x)
def norm(iv):
    iv = sorted(i for i in iv if i[0] <= i[1]); out = []
    for a, b in iv:
        if out and a <= out[-1][1] + 1: out[-1] = (out[-1][0], max(out[-1][1], b))
        else: out.append((a, b))
    return out
def inter(x, y): return norm([(max(a, c), min(b, d)) for a, b in x for c, d in y])
def visible(c):
    k = c[0]
    if k == "r": return [(-INF if c[1] is None else c[1], INF if c[2] is None else c[2])]
    if k == "v": return [(c[1], c[1])]
    if k == "x": return [(-INF if c[1] is None else c[1] + c[3], INF if c[2] is None else c[2] - c[4])]
    if k == "|": return norm(visible(c[1]) + visible(c[2]))
    if k == "^": return inter(visible(c[1]), visible(c[2]))
    if k == "-": return visible(c[1])
    if k == "!": return [(-INF, INF)]
    if k == "ext": return visible(c[1])
def con_points(c):
    k = c[0]
    if k in "rvx": return [v for v in c[1:3] if v is not None]
    return [v for s in c[1:] if s is not None for v in con_points(s)]

# ------------------------------------------------------------------ types
class Ty:
    acn = None          # ACN properties (dict) of this node
    ref = None          # emitted as a reference to this type assignment
    def clone(self, **kw):
        import copy; t = copy.copy(self); t.__dict__.update(kw); return t
class Int(Ty):
    def __init__(s, *cons, base=None): s.cons = list(cons); s.base = base
    def all(s): return (s.base.all() if s.base else []) + s.cons
    def ok(s, v): return all(con_ok(c, v) for c in s.all())
    def rng(s):
        x = [(-INF, INF)]
        for c in s.all(): x = inter(x, visible(c))
        return (x[0][0], x[-1][1])
    def ext(s): a = s.all(); return bool(a) and a[-1][0] == "ext"
    def unsigned(s): return s.crng()[0] >= 0
    def crng(s):
        lo, hi = s.rng()
        if s.ext() and s.all()[-1][2] is not None:
            x = visible(s.all()[-1][2]); lo = min(lo, x[0][0]); hi = max(hi, x[-1][1])
        return lo, hi
class Real(Ty):
    def __init__(s, *cons): s.cons = list(cons)
    def ok(s, v): return all(con_ok(c, v) for c in s.cons)
class Bool(Ty):
    only = None     # BOOLEAN (TRUE) / (FALSE)
    def ok(s, v): return s.only is None or v == s.only
class Null(Ty):
    def ok(s, v): return True
class Enum(Ty):
    def __init__(s, items, allowed=None): s.items = list(items); s.allowed = allowed   # [(name, value or None)]
    def numbered(s):
        used = {v for _, v in s.items if v is not None}; nxt = 0; out = []
        for n, v in s.items:
            if v is None:
                while nxt in used: nxt += 1
                v = nxt; used.add(v); nxt += 1
            out.append((n, v))
        return out
    gc = None
    def ok(s, v): return v in [x for n, x in s.numbered() if (s.allowed is None or n in s.allowed) and (s.gc is None or g_ok(s.gc, n))]
class Sized(Ty):
    def __init__(s, size=None, base=None): s.size = size; s.base = base
    def sizes(s): return (s.base.sizes() if s.base else []) + ([s.size] if s.size is not None else [])
    def szok(s, n): return all(con_ok(c, n) for c in s.sizes())
    def srng(s):
        x = [(0, INF)]
        for c in s.sizes(): x = inter(x, visible(c))
        if getattr(s, "gc", None) is not None: x = inter(x, g_sizes(s.gc))
        return (x[0][0], x[-1][1])
class Octet(Sized):
    def __init__(s, size=None, base=None, vals=None): Sized.__init__(s, size, base); s.vals = vals
    gc = None
    def ok(s, v): return s.szok(len(v)) and (s.vals is None or v in s.vals) and (s.gc is None or g_ok(s.gc, v))
class BitS(Sized):
    def __init__(s, size=None, base=None, named=None): Sized.__init__(s, size, base); s.named = named
    gc = None
    def ok(s, v): return s.szok(len(v)) and (s.gc is None or g_ok(s.gc, v))
class Str(Sized):
    gc = None       # one more constraint: a tree whose leaves are ('size', c), ('from', c), ('val', string)
    """IA5String / NumericString; alpha is a list of alphabet constraints over characters"""
    def __init__(s, size=None, alpha=None, base=None, num=False, vals=None): Sized.__init__(s, size, base); s.alpha = alpha; s.num = num; s.vals = vals
    def isnum(s): return s.num or bool(s.base and s.base.isnum())
    def alphas(s): return (s.base.alphas() if s.base else []) + ([single(s.alpha)] if s.alpha is not None else [])
    def charset(s, vis=True):
        cs = sorted(" 0123456789" if s.isnum() else [chr(i) for i in range(128)])
        for a in s.alphas():
            cs = [c for c in cs if (any(lo <= ord(c) <= hi for lo, hi in visible(aord(a))) if vis else con_ok(a, c))]
        return cs
    def ok(s, v): return s.szok(len(v)) and all(ch in s.charset(False) for ch in v) and (s.vals is None or v in s.vals) and (s.base is None or s.base.ok(v)) and (s.gc is None or g_ok(s.gc, v))
def g_ok(c, v):
    k = c[0]
    if k == "size": return con_ok(c[1], len(v))
    if k == "from": return all(con_ok(c[1], ch) for ch in v)
    if k == "val": return v == c[1]
    if k == "|": return g_ok(c[1], v) or g_ok(c[2], v)
    if k == "^": return g_ok(c[1], v) and g_ok(c[2], v)
    if k == "-": return g_ok(c[1], v) and not g_ok(c[2], v)
    return not g_ok(c[1], v)
def g_sizes(c):
    k = c[0]
    if k == "size": return visible(c[1])
    if k == "val": return [(len(c[1]), len(c[1]))]
    if k == "|": return norm(g_sizes(c[1]) + g_sizes(c[2]))
    if k == "^": return inter(g_sizes(c[1]), g_sizes(c[2]))
    if k == "-": return g_sizes(c[1])
    return [(0, INF)]
def g_chars(c):
    k = c[0]; al = {chr(i) for i in range(128)}
    if k == "from": return {x for x in al if con_ok(c[1], x)}
    if k == "|": return g_chars(c[1]) | g_chars(c[2])
    if k == "^": return g_chars(c[1]) & g_chars(c[2])
    if k == "-": return g_chars(c[1])
    return al
def g_text(c, lit):
    k = c[0]; p = lambda q: "(" + g_text(q, lit) + ")"
    if k == "size": return "SIZE(%s)" % con_text(c[1])
    if k == "from": return "FROM(%s)" % con_text(c[1], lambda x: '"%s"' % x)
    if k == "val": return lit(c[1])
    if k == "!": return "ALL EXCEPT " + p(c[1])
    return p(c[1]) + {"|": " | ", "^": " ^ ", "-": " EXCEPT "}[k] + p(c[2])
def single(a):
    """FROM("abc") means the set of its characters"""
    if a[0] == "v" and len(a[1]) > 1:
        u = ("v", a[1][0])
        for c in a[1][1:]: u = ("|", u, ("v", c))
        return u
    return a if a[0] in "rvx" else (a[0],) + tuple(None if x is None else single(x) for x in a[1:])
def aord(a):
    if a[0] == "r": return ("r",) + tuple(None if x is None else ord(x) for x in a[1:])
    if a[0] == "v": return ("v", ord(a[1]))
    if a[0] == "x": return ("x",) + tuple(None if x is None else ord(x) for x in a[1:3]) + a[3:]
    return (a[0],) + tuple(None if x is None else aord(x) for x in a[1:])
class Oid(Ty):
    rel = False
    def __init__(s, rel=False): s.rel = rel
    def ok(s, v): return True if s.rel else len(v) >= 2 and v[0] <= 2 and (v[1] <= 39 or v[0] == 2)
class SeqOf(Sized):
    wcon = None; only = None
    def __init__(s, elem, size=None, base=None, setof=False): Sized.__init__(s, size, base); s.elem = elem; s.setof = setof
    def ok(s, v): return s.szok(len(v)) and all(s.elem.ok(x) and wc_ok(s.wcon, x) for x in v) and (s.base is None or s.base.ok(v)) and (s.only is None or v in s.only)
class F:
    """component: opt '' | 'o' (OPTIONAL) | 'd' (DEFAULT dv)"""
    def __init__(s, name, ty, opt="", dv=None, tag=None, acn=None, acnonly=False): s.name, s.ty, s.opt, s.dv, s.tag, s.acn, s.acnonly = name, ty, opt, dv, tag, acn, acnonly
def wc_ok(con, v):
    """con: ('int', c) on a number, ('size', c) on a length"""
    return con is None or con_ok(con[1], v if con[0] == "int" else len(v))
def wc_text(con): return "" if con is None else "(%s)" % con_text(con[1]) if con[0] == "int" else "(SIZE(%s))" % con_text(con[1])
class Seq(Ty):
    base = None; only = None; wc = None      # wc: (partial, [(component, con, "" | PRESENT | ABSENT | OPTIONAL)]), an inner subtype of base
    def __init__(s, fields, isset=False): s.f = fields; s.isset = isset
    def ok(s, v):
        if not all(f.acnonly or (f.opt and f.name not in v) or f.ty.ok(v[f.name]) for f in s.f): return False
        if s.base is not None and not s.base.ok(v) or s.only is not None and v not in s.only: return False
        if s.wc is not None:
            part, l = s.wc
            for n, c, p in l:
                if n in v and (p == "ABSENT" or not wc_ok(c, v[n])) or n not in v and p in ("PRESENT",): return False
            if not part and any(f.opt and f.name in v and f.name not in [x[0] for x in l] for f in s.f): return False
        return True
class Cho(Ty):
    base = None; only = None; wc = None
    def __init__(s, alts): s.f = alts
    def order(s):
        """indices of the alternatives in canonical tag order"""
        if all(a.tag is None for a in s.f): return list(range(len(s.f)))
        return sorted(range(len(s.f)), key=lambda i: tagkey(s.f[i].tag))
    def ok(s, v):
        if not next(a for a in s.f if a.name == v[0]).ty.ok(v[1]): return False
        if s.base is not None and not s.base.ok(v) or s.only is not None and v not in s.only: return False
        if s.wc is not None:
            part, l = s.wc
            for n, c, p in l:
                if n == v[0] and (p == "ABSENT" or not wc_ok(c, v[1])) or n != v[0] and p == "PRESENT": return False
            if not part and v[0] not in [x[0] for x in l]: return False
        return True
def tagkey(t):
    cls, n = t; return ({"U": 0, "A": 1, "": 2, "P": 3}[cls], n)

# ------------------------------------------------------------------ ASN.1 text
def num_real(v):
    if v == INF: return "PLUS-INFINITY"
    if v == -INF: return "MINUS-INFINITY"
    return repr(float(v)) if "e" not in repr(float(v)) else "%.20f" % v
EXPAND = [False]
def ty_text(t):
    if t.ref and not EXPAND[0]: return t.ref
    if isinstance(t, Int): return (ty_text(t.base) if t.base else "INTEGER") + "".join(" (%s)" % con_text(c) for c in t.cons)
    if isinstance(t, Real): return "REAL" + "".join(" (%s)" % con_text(c, num_real) for c in t.cons)
    if isinstance(t, Bool): return "BOOLEAN" + {None: "", True: " (TRUE)", False: " (FALSE)"}[t.only]
    if isinstance(t, Null): return "NULL"
    if isinstance(t, Enum): return "ENUMERATED {%s}" % ", ".join(n if v is None else "%s(%d)" % (n, v) for n, v in t.items) + (" (%s)" % " | ".join(t.allowed) if t.allowed else "") + ("" if t.gc is None else " (%s)" % g_text(t.gc, str))
    sz = "" if not isinstance(t, Sized) or t.size is None else "(SIZE(%s))" % con_text(t.size)
    if isinstance(t, Octet): return (ty_text(t.base) if t.base else "OCTET STRING") + sz + ("" if t.vals is None else "(%s)" % " | ".join("'%s'H" % v.hex().upper() for v in t.vals)) + ("" if t.gc is None else "(%s)" % g_text(t.gc, lambda v: "'%s'H" % v.hex().upper()))
    if isinstance(t, BitS): return (ty_text(t.base) if t.base else "BIT STRING" + ("" if not t.named else " {%s}" % ", ".join("%s(%d)" % x for x in t.named))) + sz + ("" if t.gc is None else "(%s)" % g_text(t.gc, lambda v: "'%s'B" % v))
    if isinstance(t, Str): return (ty_text(t.base) if t.base else "NumericString" if t.num else "IA5String") + sz + ("" if t.alpha is None else "(FROM(%s))" % con_text(t.alpha, lambda c: '"%s"' % c.replace('"', '""'))) + ("" if t.vals is None else "(%s)" % " | ".join('"%s"' % v.replace('"', '""') for v in t.vals)) + ("" if t.gc is None else "(%s)" % g_text(t.gc, lambda v: '"%s"' % v.replace('"', '""')))
    if isinstance(t, Oid): return "RELATIVE-OID" if t.rel else "OBJECT IDENTIFIER"
    if isinstance(t, (Seq, Cho, SeqOf)) and t.only is not None: return ty_text(t.base) + " (%s)" % " | ".join(val_text(t, v) for v in t.only)
    if isinstance(t, SeqOf):
        if t.base: return ty_text(t.base) + sz + ("" if t.wcon is None else " (WITH COMPONENT %s)" % wc_text(t.wcon))
        return ("SET " if t.setof else "SEQUENCE ") + sz + " OF " + ty_text(t.elem)
    if isinstance(t, (Seq, Cho)) and t.wc is not None:
        return ty_text(t.base) + " (WITH COMPONENTS {%s%s})" % ("..., " if t.wc[0] else "", ", ".join(("%s %s %s" % (n, wc_text(c), q)).strip() for n, c, q in t.wc[1]))
    tg = lambda f: "" if f.tag is None else "[%s%d] " % ({"U": "UNIVERSAL ", "A": "APPLICATION ", "": "", "P": "PRIVATE "}[f.tag[0]], f.tag[1])
    if isinstance(t, Seq): return ("SET" if t.isset else "SEQUENCE") + " { " + ", ".join("%s %s%s%s" % (f.name, tg(f), ty_text(f.ty), " OPTIONAL" if f.opt == "o" else " DEFAULT " + val_text(f.ty, f.dv) if f.opt == "d" else "") for f in t.f if not f.acnonly) + " }"
    if isinstance(t, Cho): return "CHOICE { " + ", ".join("%s %s%s" % (f.name, tg(f), ty_text(f.ty)) for f in t.f) + " }"
    raise ValueError(t)
def val_text(t, v):
    if isinstance(t, Int): return str(v)
    if isinstance(t, Real): return num_real(v)
    if isinstance(t, Bool): return "TRUE" if v else "FALSE"
    if isinstance(t, Null): return "NULL"
    if isinstance(t, Enum): return next(n for n, x in t.numbered() if x == v)
    if isinstance(t, Octet): return "'%s'H" % v.hex().upper()
    if isinstance(t, BitS): return "'%s'B" % v
    if isinstance(t, Str): return '"%s"' % v.replace('"', '""')
    if isinstance(t, Oid): return "{" + " ".join(map(str, v)) + "}"
    if isinstance(t, SeqOf): return "{" + ", ".join(val_text(t.elem, x) for x in v) + "}"
    if isinstance(t, Seq): return "{" + ", ".join("%s %s" % (f.name, val_text(f.ty, v[f.name])) for f in t.f if f.name in v) + "}"
    if isinstance(t, Cho): a = next(a for a in t.f if a.name == v[0]); return "%s : %s" % (a.name, val_text(a.ty, v[1]))
    raise ValueError(t)

def writable(t, v):
    """the value has an ASN.1 notation of the form val_text gives"""
    if isinstance(t, Real): return not math.isinf(v) and float(num_real(v)) == v and not (v == 0 and math.copysign(1, v) < 0)
    if isinstance(t, Str): return all(32 <= ord(c) < 127 for c in v)
    if isinstance(t, SeqOf): return all(writable(t.elem, x) for x in v)
    if isinstance(t, Seq): return all(writable(f.ty, v[f.name]) for f in t.f if f.name in v)
    if isinstance(t, Cho): return writable(next(a for a in t.f if a.name == v[0]).ty, v[1])
    return True
# ------------------------------------------------------------------ canonical dump (same format the drivers print and read)
def dump(t, v, sd=False):
    """sd: an absent DEFAULT component shows the default value (what a decoder must have stored)"""
    if isinstance(t, Int): return [str(v)]
    if isinstance(t, Real): return ["%016x" % struct.unpack(">Q", struct.pack(">d", v))[0]]
    if isinstance(t, Bool): return ["1" if v else "0"]
    if isinstance(t, Null): return ["n"]
    if isinstance(t, Enum): return [str(v)]
    if isinstance(t, Octet): return ["x" + v.hex()]
    if isinstance(t, BitS): return ["b" + v]
    if isinstance(t, Str): return ["x" + v.encode("latin1").hex()]
    if isinstance(t, Oid): return [str(len(v))] + [str(x) for x in v]
    if isinstance(t, SeqOf): return [str(len(v))] + [w for x in v for w in dump(t.elem, x, sd)]
    if isinstance(t, Seq):
        r = []
        for f in t.f:
            if f.acnonly: continue
            if f.opt == "o":
                if f.name in v: r += ["+"] + dump(f.ty, v[f.name], sd)
                else: r.append("-")
            elif f.opt == "d":
                if f.name in v: r += ["+"] + dump(f.ty, v[f.name], sd)
                else: r += ["-"] + (["=" ] + dump(f.ty, f.dv, sd) if sd else [])
            else: r += dump(f.ty, v[f.name], sd)
        return r
    if isinstance(t, Cho):
        i = next(i for i, a in enumerate(t.f) if a.name == v[0]); return [str(i)] + dump(t.f[i].ty, v[1], sd)
    raise ValueError(t)

# ------------------------------------------------------------------ uPER encoder
def bits(v, n): return format(v, "0%db" % n) if n else ""
def nbits(span): return span.bit_length()
def genlen_parts(n):
    """general length determinants with fragmentation: list of (length bits, count)"""
    out = []
    while n >= 16384:
        m = min(4, n // 16384); out.append((bits(0xC0 | m, 8), m * 16384)); n -= m * 16384
    out.append((bits(n, 8) if n < 128 else bits(0x8000 | n, 16), n)); return out
def sized(lo, hi, items):
    n = len(items); j = "".join
    if hi < 65536: return ("" if lo == hi else bits(n - lo, nbits(hi - lo))) + j(items)
    r = []; p = 0
    for lb, c in genlen_parts(n): r.append(lb); r += items[p:p + c]; p += c
    return j(r)
REAL_NORM = [True]      # the mantissa may be odd (DER) or as it stands in the double; both denote the value (see C03)
def enc_real(v):
    if v == 0: return bits(0, 8) if math.copysign(1, v) > 0 else bits(0x0143, 16)
    if math.isinf(v): return bits(0x0140 if v > 0 else 0x0141, 16)
    if math.isnan(v): return bits(0x0142, 16)
    m, e = math.frexp(abs(v)); m = int(m * 2**53); e -= 53
    if REAL_NORM[0]:
        while m % 2 == 0: m //= 2; e += 1
    else:
        if e < -1074: m >>= -1074 - e; e = -1074
    el = 1 if -128 <= e < 128 else 2
    ml = (m.bit_length() + 7) // 8
    return bits(1 + el + ml, 8) + bits(0x80 | (0x40 if v < 0 else 0) | (el - 1), 8) + bits(e & (2**(8 * el) - 1), 8 * el) + bits(m, 8 * ml)
def enc_int_unc(v):
    n = 1
    while not -2**(8 * n - 1) <= v < 2**(8 * n - 1): n += 1
    return bits(n, 8) + bits(v & (2**(8 * n) - 1), 8 * n)
def enc_oid(v, rel):
    sub = list(v) if rel else [v[0] * 40 + v[1]] + list(v[2:]); out = []
    for x in sub:
        g = [x & 127]; x >>= 7
        while x: g.append(x & 127 | 128); x >>= 7
        out += g[::-1]
    return "".join(bits(l, 8) if False else l for l in [genlen_parts(len(out))[0][0]]) + "".join(bits(b, 8) for b in out)
def uper_enc(t, v):
    if isinstance(t, Int):
        lo, hi = t.rng(); pre = ""
        if t.ext():
            inroot = all(con_ok(c, v) for c in t.all()[:-1]) and lo <= v <= hi and con_ok(t.all()[-1][1], v)
            pre = "0" if inroot else "1"
            if not inroot: return pre + enc_int_unc(v)
        if lo > -INF and hi < INF: return pre + bits(v - lo, nbits(hi - lo))
        if lo > -INF:
            x = v - lo; n = max(1, (x.bit_length() + 7) // 8); return pre + bits(n, 8) + bits(x, 8 * n)
        return pre + enc_int_unc(v)
    if isinstance(t, Real): return enc_real(v)
    if isinstance(t, Bool): return "1" if v else "0"
    if isinstance(t, Null): return ""
    if isinstance(t, Enum):
        o = sorted(x for _, x in t.numbered()); return bits(o.index(v), nbits(len(o) - 1))
    if isinstance(t, Octet): return sized(*t.srng(), [bits(b, 8) for b in v])
    if isinstance(t, BitS): return sized(*t.srng(), list(v))
    if isinstance(t, Str): cs = t.charset(); w = charwidth(cs, t); return sized(*t.srng(), [bits(charcode(cs, c, w), w) for c in v])
    if isinstance(t, Oid): return enc_oid(v, t.rel)
    if isinstance(t, SeqOf): return sized(*t.srng(), [uper_enc(t.elem, x) for x in v])
    if isinstance(t, Seq):
        return "".join("1" if f.name in v else "0" for f in seq_order(t) if f.opt) + "".join(uper_enc(f.ty, v[f.name]) for f in seq_order(t) if f.name in v)
    if isinstance(t, Cho):
        o = t.order(); i = next(i for i, a in enumerate(t.f) if a.name == v[0])
        return bits(o.index(i), nbits(len(o) - 1)) + uper_enc(t.f[i].ty, v[1])
    raise ValueError(t)
def seq_order(t):
    if not t.isset or all(f.tag is None for f in t.f): return t.f
    return sorted(t.f, key=lambda f: tagkey(f.tag))
def charwidth(cs, t): return nbits(len(cs) - 1)
def charcode(cs, c, w):
    # X.691 30.5.4: the character's own value when every character fits in w bits, its index otherwise
    return ord(c) if ord(cs[-1]) <= 2**w - 1 else cs.index(c)

# ------------------------------------------------------------------ uPER decoder
class Rd:
    def __init__(s, b, n=None): s.b = b; s.p = 0
    def take(s, n):
        if s.p + n > len(s.b): raise Reject("end")
        r = s.b[s.p:s.p + n]; s.p += n; return r
    def u(s, n): return int(s.take(n), 2) if n else 0
def rd_sized(r, lo, hi, item, cap):
    if hi < 65536:
        n = lo if lo == hi else lo + r.u(nbits(hi - lo))
        if n > hi: raise Reject("length")
        return [item(r) for _ in range(n)]
    out = []
    while True:
        if r.u(1) == 0: n = r.u(7); more = False
        elif r.u(1) == 0: n = r.u(14); more = False
        else:
            m = r.u(6)
            if not 1 <= m <= 4: raise Reject("fragment")
            n = m * 16384; more = True
        if len(out) + n > hi: raise Reject("length")
        out += [item(r) for _ in range(n)]
        if not more: return out
def dec_unc(r, signed):
    n = r.u(8)
    if n == 0 or n > 8: raise Amb("length %d" % n)
    x = r.u(8 * n)
    if signed and x >> (8 * n - 1): x -= 1 << (8 * n)
    if n > 1:
        mini = enc_int_unc(x) if signed else None
        if signed and len(mini) != 8 + 8 * n or not signed and x < 2**(8 * n - 8): raise Amb("not minimal")
    return x
def uper_dec(t, r):
    if isinstance(t, Int):
        lo, hi = t.rng()
        if t.ext() and r.u(1):
            v = dec_unc(r, True)
            if t.all()[-1][2] is None or not con_ok(t.all()[-1][2], v): raise Amb("extension value") if t.ok(v) else Reject("value")
            if con_ok(t.all()[-1][1], v): raise Amb("root value in extension")
        elif lo > -INF and hi < INF: v = lo + r.u(nbits(hi - lo))
        elif lo > -INF:
            v = lo + dec_unc(r, False)
        else: v = dec_unc(r, True)
        if t.ext() and not con_ok(t.all()[-1][1], v) and (t.all()[-1][2] is None or not con_ok(t.all()[-1][2], v)): raise Reject("value")
        if lo > -INF and v > (hi if hi < INF else 2**63 - 1 if lo < 0 else 2**64 - 1): raise Reject("value") if hi < INF else Amb("overflow")
        if not t.ok(v): raise Reject("value")
        return v
    if isinstance(t, Real):
        n = r.u(8)
        if n == 0: v = 0.0
        else:
            h = r.u(8)
            if n == 1 and h in (0x40, 0x41, 0x42, 0x43): v = {0x40: INF, 0x41: -INF, 0x42: math.nan, 0x43: -0.0}[h]
            else: raise Amb("real") if not (h & 0xBC == 0x80 and h & 3 < 2 and n <= 10 and n > 2 + (h & 3)) else None or _real(r, n, h)
        if not t.ok(v): raise Reject("value")
        return v
    if isinstance(t, Bool): return bool(r.u(1))
    if isinstance(t, Null): return None
    if isinstance(t, Enum):
        o = sorted(x for _, x in t.numbered()); i = r.u(nbits(len(o) - 1))
        if i >= len(o) or not t.ok(o[i]): raise Reject("enum")
        return o[i]
    if isinstance(t, Octet): v = bytes(rd_sized(r, *t.srng(), lambda q: q.u(8), 0))
    elif isinstance(t, BitS): v = "".join(rd_sized(r, *t.srng(), lambda q: q.take(1), 0))
    elif isinstance(t, Str):
        cs = t.charset(); w = charwidth(cs, t); direct = ord(cs[-1]) <= 2**w - 1
        def ch(q):
            i = q.u(w)
            if direct:
                if chr(i) not in cs: raise Reject("char")
                return chr(i)
            if i >= len(cs): raise Reject("char")
            return cs[i]
        v = "".join(rd_sized(r, *t.srng(), ch, 0))
        if "\0" in v: raise Amb("zero character")
    elif isinstance(t, Oid): raise Amb("oid")
    elif isinstance(t, SeqOf): v = rd_sized(r, *t.srng(), lambda q: uper_dec(t.elem, q), 0)
    elif isinstance(t, Seq):
        o = seq_order(t); present = {f.name: r.u(1) for f in o if f.opt}; v = {}
        for f in o:
            if present.get(f.name, 1): v[f.name] = uper_dec(f.ty, r)
        return v
    elif isinstance(t, Cho):
        o = t.order(); i = r.u(nbits(len(o) - 1))
        if i >= len(o): raise Reject("choice")
        a = t.f[o[i]]; return (a.name, uper_dec(a.ty, r))
    else: raise ValueError(t)
    if not t.ok(v): raise Reject("value")
    return v
def _real(r, n, h): raise Amb("real")

# ------------------------------------------------------------------ abstract values (bounded, deterministic)
def uniq(l):
    out = []; seen = set()
    for x in l:
        k = repr(x)
        if k not in seen: seen.add(k); out.append(x)
    return out
def int_vals(t, n):
    lo, hi = t.crng(); clo = max(lo, S64[0]); chi = min(hi, U64[1] if lo >= 0 else S64[1])
    if chi - clo < n: c = list(range(int(clo), int(chi) + 1))
    else:
        c = [clo, chi, clo + 1, chi - 1]
        for p in [q for cc in t.all() for q in con_points(cc)]: c += [p - 1, p, p + 1]
        for k in (7, 8, 15, 16, 31, 32, 63):
            for b in (2**k, -2**k): c += [b - 1, b, b + 1]
            if lo > -INF and lo: c += [clo + 2**k - 1, clo + 2**k]
        c += [0, 1, -1, (clo + chi) // 2]
    return [int(x) for x in uniq(c) if clo <= x <= chi and t.ok(x)]
def size_vals(t, cap):
    lo, hi = t.srng(); pts = [p for c in t.sizes() for p in con_points(c)]
    c = [lo, lo + 1, hi, hi - 1, lo + 2, (lo + hi) // 2] + pts + [p + 1 for p in pts] + [p - 1 for p in pts]
    return [int(x) for x in uniq(c) if 0 <= x <= min(hi, cap) and t.szok(x)]
def pat_bytes(n, s): return bytes((i * 151 + s * 37 + 0x35) & 255 for i in range(n))
def vals(t, n=12, cap=70000):
    """boundary values of t, at most about n"""
    if isinstance(t, Int): return int_vals(t, n)
    if isinstance(t, Real): return [v for v in [0.0, 1.0, -1.0, 0.5, 3.14159, -1.0e10, 1e-300, 123456789.0, 2.0**-1074, 1.7976931348623157e308, INF, -INF, -0.0] if t.ok(v)][:max(n, 5)]
    if isinstance(t, Bool): return [True, False] if t.only is None else [t.only]
    if isinstance(t, Null): return [None]
    if isinstance(t, Enum):
        a = [v for _, v in sorted(t.numbered(), key=lambda x: x[1]) if t.ok(v)]; return a if len(a) <= n else a[:n // 2] + a[-(n - n // 2):]
    if isinstance(t, Oid): return [(1, 2, 840), (3, 7, 127, 128, 16383, 16384)] if t.rel else [(1, 2, 840, 113549), (0, 39), (2, 5, 29), (2, 39, 0, 127, 128, 16383, 16384, 2**31)]
    if isinstance(t, Octet):
        if t.vals is not None: return [v for v in t.vals if t.ok(v)]
        return [pat_bytes(k, i) for i, k in enumerate(size_vals(t, cap))] + ([b"\0" * k for k in size_vals(t, 40)[-1:]] + [b"\xff" * k for k in size_vals(t, 40)[-1:]])
    if isinstance(t, BitS): return uniq(["".join(bits(b, 8) for b in pat_bytes((k + 7) // 8, i))[:k] for i, k in enumerate(size_vals(t, cap))] + ["1" * k for k in size_vals(t, 40)[-1:]] + ["0" * k for k in size_vals(t, 40)[-1:]])
    if isinstance(t, Str):
        if t.vals is not None: return [v for v in t.vals if t.ok(v)]
        cs = [c for c in t.charset(False) if c != "\0"]; out = []
        for i, k in enumerate(size_vals(t, cap)): out.append("".join(cs[(i * 5 + j * 7) % len(cs)] for j in range(k)))
        for k in size_vals(t, 40)[-1:]: out += [cs[0] * k, cs[-1] * k] + ["".join(cs[(j + q) % len(cs)] for j in range(k)) for q in range(0, min(len(cs), 16 * max(k, 1)), max(k, 1)) if k]
        return uniq(out)[:max(n, 8)]
    if isinstance(t, SeqOf):
        ev = vals(t.elem, max(4, n // 2), 20); out = []
        for i, k in enumerate(size_vals(t, cap if isinstance(t.elem, (Int, Bool)) else 300 if isinstance(t.elem, (Null, Enum)) else 20) if cap > 300 else [x for x in size_vals(t, cap)]): out.append([ev[(i + j) % len(ev)] for j in range(k)])
        ks = [k for k in size_vals(t, 8) if k]
        if ks:
            k = ks[0]
            for e in ev: out.append([e] * k)
        return uniq(out)[:max(2 * n, 8)]
    if isinstance(t, Seq):
        fs = [f for f in t.f if not f.acnonly]; fv = {f.name: vals(f.ty, max(3, n // 2), min(cap, 300)) for f in fs}
        base = {f.name: fv[f.name][0] for f in fs}; out = [dict(base)]
        opts = [f.name for f in fs if f.opt]
        if len(opts) <= 5: combos = itertools.product([0, 1], repeat=len(opts))
        else: combos = [[1] * len(opts), [0] * len(opts)] + [[int(i == j) for j in range(len(opts))] for i in range(len(opts))] + [[int(i != j) for j in range(len(opts))] for i in range(len(opts))]
        for k, cb in enumerate(combos):
            v = {f.name: fv[f.name][(k + i) % len(fv[f.name])] for i, f in enumerate(fs)}
            for o, p in zip(opts, cb):
                if not p: v.pop(o)
            out.append(v)
        for f in fs:
            for x in fv[f.name]: v = dict(base); v[f.name] = x; out.append(v)
        return uniq(out)[:max(3 * n, 40)]
    if isinstance(t, Cho): return uniq([(a.name, x) for a in t.f for x in vals(a.ty, max(3, n // 2), min(cap, 300))])[:max(4 * n, 2 * len(t.f))]
    raise ValueError(t)

def bad_vals(t, n=6):
    """values of the C representation that the constraints forbid (bounded); may be empty"""
    if isinstance(t, Int):
        lo, hi = (0, U64[1]) if t.unsigned() else S64; c = []
        for p in [q for cc in t.all() for q in con_points(cc)]: c += [p - 1, p, p + 1]
        c += [lo, hi, 0]
        return [x for x in uniq(c) if lo <= x <= hi and not t.ok(x)]
    if isinstance(t, Real): return [x for x in [-1.0, 2.0, 1e10, -1e10, 0.5] + [y + d for c in t.cons for y in con_points(c) if abs(y) < 1e300 for d in (-0.5, 0.5)] if not t.ok(x)]
    if isinstance(t, Enum): return [x for x in uniq([v for _, v in t.numbered()] + [v + 1 for _, v in t.numbered()] + [v - 1 for _, v in t.numbered()]) if not t.ok(x) and -2**31 <= x < 2**31][:n]
    if isinstance(t, (Octet, BitS, SeqOf)) or isinstance(t, Str):
        out = []; lo, hi = t.srng()
        pts = uniq([p + d for c in t.sizes() for p in con_points(c) for d in (-1, 0, 1)] + [0])
        good = vals(t, 4, 300)
        if not good: return []
        for k in pts:
            if 0 <= k <= min(hi, 300) and not t.szok(k) and lo != hi:     # other sizes than a fixed one, and longer ones, are not representable
                g = max(good, key=len)
                if isinstance(t, SeqOf): e = vals(t.elem, 3)[0]; out.append([e] * k)
                else: out.append((g * (k + 1))[:k] if len(g) else (b"\0" * k if isinstance(t, Octet) else "0" * k if isinstance(t, BitS) else t.charset(False)[-1] * k))
        if isinstance(t, Str):
            cs = set(t.charset(False)); bad = [chr(c) for c in range(1, 128) if chr(c) not in cs]
            edge = [c for c in bad if chr(ord(c) - 1) in cs or chr(min(127, ord(c) + 1)) in cs] or bad[:1]
            for g in good:
                for i in ([0, len(g) - 1] if g else []):
                    for c in edge[:3]: out.append(g[:i] + c + g[i + 1:])
            if t.vals is not None: out += [g[:-1] + ("~" if "~" not in g else "!") for g in t.vals if g]
        if isinstance(t, Octet) and t.vals is not None: out += [bytes([g[0] ^ 1]) + g[1:] for g in t.vals if g] + [g[:-1] + bytes([g[-1] ^ 1]) for g in t.vals if g]
        if isinstance(t, SeqOf):
            g = max(good, key=len)
            for b in bad_vals(t.elem, n)[:4]:
                for i in sorted({0, len(g) - 1, len(g) // 2}):
                    if 0 <= i < len(g): out.append(g[:i] + [b] + g[i + 1:])
        return uniq([x for x in out if not t.ok(x)])[:4 * n]
    if isinstance(t, Seq):
        base = vals(t, 4)[0]; out = []
        for f in t.f:
            if f.acnonly: continue
            for b in bad_vals(f.ty, n)[:5]: v = dict(base); v[f.name] = b; out.append(v)
        return out
    if isinstance(t, Cho): return [(a.name, b) for a in t.f for b in bad_vals(a.ty, n)[:5]]
    return []
def good_neighbours(t): return vals(t)

def near(t, v, lim=200):
    """values of t that differ from v in exactly one place (one bit, one character, one arc, one component)"""
    o = []
    if isinstance(t, Int): o = [x for x in [v + 1, v - 1] + [v ^ (1 << k) for k in range(64)] if (0 <= x < 1 << 64 if t.unsigned() else -(1 << 63) <= x < 1 << 63)]
    elif isinstance(t, Bool): o = [not v]
    elif isinstance(t, Enum): o = [x for _, x in t.numbered() if x != v][:4]
    elif isinstance(t, Real): o = [struct.unpack(">d", struct.pack(">Q", struct.unpack(">Q", struct.pack(">d", v))[0] ^ (1 << k)))[0] for k in range(64)]; o = [x for x in o if x == x and x not in (INF, -INF) and abs(x - v) > 1e-4 * max(abs(x), abs(v))]      # closer ones may compare equal: the tolerance is deliberate
    elif isinstance(t, BitS): o = [v[:i] + "10"[int(v[i])] + v[i + 1:] for i in range(min(len(v), 40))] + [v + "0", v + "1", v[:-1]]
    elif isinstance(t, Octet): o = [v[:i] + bytes([v[i] ^ (1 << k)]) + v[i + 1:] for i in range(min(len(v), 5)) for k in range(8)] + [v + b"\0", v[:-1]]
    elif isinstance(t, Str):
        cs = [c for c in t.charset(False) if c != "\0"]
        o = [v[:i] + x + v[i + 1:] for i in range(min(len(v), 20)) for x in (cs[(cs.index(v[i]) + 1) % len(cs)],)] + [v + cs[0], v[:-1]]
    elif isinstance(t, Oid): o = [v[:i] + (v[i] ^ (1 << k),) + v[i + 1:] for i in range(2 if not t.rel else 0, len(v)) for k in (0, 7, 13, 20)] + [v + (0,), v[:-1]]
    elif isinstance(t, SeqOf): o = [v[:i] + [x] + v[i + 1:] for i in sorted(set(list(range(min(len(v), 3))) + ([len(v) - 1] if v else []))) for x in near(t.elem, v[i], 30)] + [v[:-1]] + ([v + [v[-1]]] if v else [])
    elif isinstance(t, Seq):
        for f in t.f:
            if f.name in v and not f.acnonly:
                for x in near(f.ty, v[f.name], 30): w = dict(v); w[f.name] = x; o.append(w)
                if f.opt: w = dict(v); w.pop(f.name); o.append(w)
    elif isinstance(t, Cho): a = next(a for a in t.f if a.name == v[0]); o = [(v[0], x) for x in near(a.ty, v[1], 60)]
    r = []
    for x in o:
        try:
            if x != v and t.ok(x): r.append(x)
        except Exception: pass
    if len(r) > lim: st = len(r) / lim; r = [r[int(i * st)] for i in range(lim)]
    return r
