"""ACN on top of asn.py: attributes of type nodes, the ACN text, and an independent encoder written from the ACN manual.
t.acn: dict of  enc size endian align term tv fv pat ev renum map det  (see props);  F.pw present-when, F.args arguments, F.calc value of an
inserted field as a Python expression over v (the enclosing value) and st (all enclosing values, outermost first);  t.params parameters of a type assignment;
t.refuse: expression, true for values of the type whose determinants contradict each other, so that no encoding exists."""
from asn import *
import math

def A(t, **kw):
    r = t.clone(acn=dict(t.acn or {}, **{k: v for k, v in kw.items() if k not in ("params", "refuse")}))
    for k in ("params", "refuse"):
        if k in kw: setattr(r, k, kw[k])
    return r
def fa(name, ty, opt="", dv=None, pw=None, args=None):
    f = F(name, ty, opt, dv); f.pw = pw; f.args = args; return f
def fi(name, ty, calc, args=None, text=None):
    """field inserted by the ACN grammar"""
    f = F(name, ty, acnonly=True); f.calc = calc; f.pw = None; f.args = args; f.text = text; return f
def props(t, site=False):
    a = t.acn or {}
    if site and t.ref: a = getattr(t, "site", None) or {}
    o = []
    if a.get("ev"): o.append("encode-values")
    if "enc" in a: o.append("encoding " + a["enc"])
    if "size" in a: o.append("size %s" % a["size"])
    if "endian" in a: o.append("endianness " + a["endian"])
    if "align" in a: o.append("align-to-next " + {8: "byte", 16: "word", 32: "dword"}[a["align"]])
    if "term" in a: o.append("termination-pattern " + lit(a["term"]))
    if "tv" in a: o.append("true-value '%s'B" % a["tv"])
    if "fv" in a: o.append("false-value '%s'B" % a["fv"])
    if "pat" in a: o.append("pattern " + lit(a["pat"]))
    if "map" in a: o.append("mapping-function " + a["map"])
    if "det" in a: o.append("determinant " + a["det"])
    if a.get("save"): o.append("save-position")
    if "post" in a: o.append("post-encoding-function " + a["post"])
    if "valid" in a: o.append("post-decoding-validator " + a["valid"])
    return o
def lit(b): return "'%s'H" % format(int(b, 2), "0%dX" % (len(b) // 4)) if len(b) % 8 == 0 and b else "'%s'B" % b
def pw_text(pw):
    if pw is None: return []
    if isinstance(pw, str): return ["present-when " + pw]
    return ["present-when " + " ".join("%s==%s" % (p, '"%s"' % x if isinstance(x, str) else x) for p, x in pw)]
def base_text(t): return t.ref or ("INTEGER" if isinstance(t, Int) else "BOOLEAN" if isinstance(t, Bool) else "NULL" if isinstance(t, Null) else ty_text(t))
def spec_node(t, extra=(), site=True, d=1):
    s = "[" + ", ".join(props(t, site) + list(extra)) + "]"
    if site and t.ref: return s
    ind = "\n" + "  " * d
    if isinstance(t, Enum) and (t.acn or {}).get("renum"): s += " { " + ", ".join("%s [%s]" % (n, x) for n, x in t.acn["renum"].items()) + " }"
    if isinstance(t, SeqOf) and not getattr(t, "base", None) and (isinstance(t.elem, (Seq, Cho, SeqOf)) or t.elem.acn or t.elem.ref) : s += " { %s%s }" % (argt(getattr(t, "eargs", None)), spec_node(t.elem, (), True, d + 1))
    if isinstance(t, (Seq, Cho)) and t.f and not getattr(t, "noch", False):
        ch = []
        for f in t.f:
            if f.acnonly: ch.append("%s %s %s" % (f.name, base_text(f.ty), spec_node(f.ty, (), True, d + 1)))
            else: ch.append("%s%s %s" % (f.name, argt(getattr(f, "args", None)), spec_node(f.ty, pw_text(getattr(f, "pw", None)), True, d + 1)))
        s += " {" + ind + ("," + ind).join(ch) + " }"
    return s
def argt(a): return "" if not a else " <%s>" % ", ".join(a)
def acn_spec(mod, ts, consts=""):
    return "%s DEFINITIONS ::= BEGIN\n%s%s\nEND\n" % (mod, consts, "\n".join("%s%s %s" % (n, "<%s>" % ", ".join("%s:%s" % p for p in t.params) if getattr(t, "params", None) else "", spec_node(t, (), False)) for n, t in ts))

# ------------------------------------------------------------------ reference encoder
def le(b): return "".join(b[i:i + 8] for i in range(len(b) - 8, -1, -8))
def enc_num(a, v, signed, uper):
    """an integer (or enumeration number) under its ACN attributes"""
    if a.get("map"): v = MAPS[a["map"]](v)
    if "enc" not in a: return uper(v)
    e, z = a["enc"], a.get("size"); z = a.get("_size", z)
    if e == "pos-int": b = bits(v, z)
    elif e == "twos-complement": b = bits(v & ((1 << z) - 1), z)
    elif e == "BCD":
        d = str(v)
        if z == "null-terminated": return "".join(bits(int(c), 4) for c in d) + "1111"
        return "".join(bits(int(c), 4) for c in d.zfill(z // 4))
    elif e == "ASCII":
        sg = ("-" if v < 0 else "+") if signed else ""; d = str(abs(v))
        if z != "null-terminated": d = d.zfill(z // 8 - len(sg))
        return "".join(bits(ord(c), 8) for c in sg + d) + (a.get("term", "00000000") if z == "null-terminated" else "")
    else: raise ValueError(e)
    return le(b) if a.get("endian") == "little" else b
MAPS = {"milbus": lambda v: 0 if v == 32 else v}
def num_fits(a, v, signed):
    if a.get("map"): v = MAPS[a["map"]](v)
    z = a.get("_size", a.get("size")); e = a.get("enc")
    if e is None or z == "null-terminated": return True
    if e == "pos-int": return 0 <= v < 1 << z
    if e == "twos-complement": return -(1 << (z - 1)) <= v < 1 << (z - 1)
    if e == "BCD": return len(str(v)) <= z // 4
    return len(str(abs(v))) + (1 if signed else 0) <= z // 8
class NoFit(Exception): pass
def eff(t):
    """attributes in force at a reference: those of the type, overridden at the place of use"""
    return dict(t.acn or {}, **(getattr(t, "site", None) or {}))
def aenc(t, v, off=0, st=()):
    """bits ('0', '1', '.' = padding) of v at bit offset off"""
    a = eff(t); o = "." * (-off % a["align"]) if "align" in a else ""
    return o + body(t, a, v, off + len(o), st)
def body(t, a, v, off, st):
    if isinstance(t, Int):
        sg = not t.unsigned() or bool(a.get("signed"))
        if not num_fits(a, v, sg): raise NoFit()
        return enc_num(a, v, sg, lambda x: uper_enc(t, x))
    if isinstance(t, Enum):
        ns = t.numbered()
        if a.get("ev"):
            rn = a.get("renum", {}); num = {x: rn.get(n, x) for n, x in ns}; al = list(num.values()); x = num[v]; sg = min(al) < 0
            if not num_fits(a, x, sg): raise NoFit()
            return enc_num(a, x, sg, lambda q: bits(q - min(al), nbits(max(al) - min(al))))
        srt = sorted(x for _, x in ns); i = srt.index(v)
        if not num_fits(a, i, False): raise NoFit()
        return enc_num(a, i, False, lambda q: bits(q, nbits(len(srt) - 1)))
    if isinstance(t, Real):
        e = a.get("enc")
        if e is None: return uper_enc(t, v)
        b = bits(int.from_bytes(struct.pack(">f" if e.endswith("32") else ">d", v), "big"), 32 if e.endswith("32") else 64); return le(b) if a.get("endian") == "little" else b
    if isinstance(t, Bool):
        if "tv" not in a and "fv" not in a: return "1" if v else "0"
        inv = lambda s: s.translate({48: "1", 49: "0"}); tv = a.get("tv"); fv = a.get("fv")
        if tv is None: tv = inv(fv)
        if fv is None: fv = inv(tv)
        return tv if v else fv
    if isinstance(t, Null): return a.get("pat", "")
    if isinstance(t, Oid): return uper_enc(t, v)
    if isinstance(t, Str):
        if "enc" not in a and "size" not in a: return uper_enc(t, v)
        cs = t.charset(); w = 8 if a.get("enc") == "ASCII" else nbits(len(cs) - 1)
        items = [bits(ord(c), 8) if w == 8 and a.get("enc") else bits(cs.index(c), w) for c in v]
    elif isinstance(t, Octet): items = [bits(x, 8) for x in v]
    elif isinstance(t, BitS): items = list(v)
    elif isinstance(t, SeqOf):
        lo, hi = t.srng(); z = a.get("size"); p = off + (nbits(hi - lo) if (z is None and lo != hi) else 0); items = []
        for x in v: b = aenc(t.elem, x, p, st); items.append(b); p += len(b)
    elif isinstance(t, Seq):
        o = ""; s2 = st + (v,)
        if getattr(t, "refuse", None) and eval(t.refuse, {}, dict(v=v, st=s2)): raise NoFit()
        for f in t.f:
            if f.opt and not getattr(f, "pw", None) : o += "1" if f.name in v else "0"
        for f in t.f:
            if f.acnonly:
                x = None if f.calc is None else eval(f.calc, {"up": up}, dict(v=v, st=s2))
                if isinstance(f.ty, (Int, Str, Enum)) and not isinstance(x, type(None)) and not f.ty.ok(x): raise NoFit()
                ty = f.ty
                if isinstance(ty, Int) and eff(ty).get('enc') == 'ASCII': ty = ty.clone(); ty.acn = dict(eff(ty), signed=True)   # inserted fields always carry the sign
                o += aenc(ty, x, off + len(o), s2)
            elif f.name in v: o += aenc(f.ty, v[f.name], off + len(o), s2)
        return o
    elif isinstance(t, Cho):
        i = next(i for i, x in enumerate(t.f) if x.name == v[0]); s2 = st + (v,)
        if "det" in a or any(getattr(x, "pw", None) for x in t.f): o = ""
        else: od = t.order(); o = bits(od.index(i), nbits(len(od) - 1))
        return o + aenc(t.f[i].ty, v[1], off + len(o), s2)
    else: raise ValueError(t)
    z = a.get("size"); lo, hi = t.srng()
    if z is None:
        if hi >= 65536: return sized(lo, hi, items)
        return ("" if lo == hi else bits(len(items) - lo, nbits(hi - lo))) + "".join(items)
    if z == "null-terminated":
        tm = a.get("term", "00000000")
        if not isinstance(t, Str) or a.get("term"):          # a value that contains the pattern cannot be told from its end
            s = "".join(items) + tm; p = 0
            for x in items:
                if s[p:p + len(tm)].replace(".", "0") == tm: raise Amb("pattern inside")
                p += len(x)
        return "".join(items) + tm
    return "".join(items)
def up(*a): return a
def zeros(b): return b.replace(".", "0")

def allvals(t, lim=3000):
    """every value of t, None when there are more than lim"""
    def prod(ls):
        n = 1
        for l in ls:
            if l is None: return None
            n *= len(l)
        return None if n > lim else list(itertools.product(*ls))
    if isinstance(t, Int):
        lo, hi = t.crng(); return None if hi - lo > lim else [v for v in range(int(lo), int(hi) + 1) if t.ok(v)]
    if isinstance(t, Bool): return [v for v in (False, True) if t.ok(v)]
    if isinstance(t, Null): return [None]
    if isinstance(t, Enum): return [v for _, v in t.numbered() if t.ok(v)]
    if isinstance(t, (Str, BitS, Octet)):
        al = [c for c in t.charset(False) if c != "\0"] if isinstance(t, Str) else "01" if isinstance(t, BitS) else range(256); r = []; lo, hi = t.srng()
        if hi > 20: return None
        for n in range(lo, hi + 1):
            p = prod([al] * n)
            if p is None or len(r) + len(p) > lim: return None
            r += [bytes(x) if isinstance(t, Octet) else "".join(x) for x in p]
        return [v for v in r if t.ok(v)]
    if isinstance(t, SeqOf):
        e = allvals(t.elem, lim); r = []; lo, hi = t.srng()
        if e is None or hi > 20: return None
        for n in range(lo, hi + 1):
            p = prod([e] * n)
            if p is None or len(r) + len(p) > lim: return None
            r += [list(x) for x in p]
        return [v for v in r if t.ok(v)]
    if isinstance(t, Seq):
        fs = [f for f in t.f if not f.acnonly]; ls = []
        for f in fs:
            l = allvals(f.ty, lim)
            if l is None: return None
            ls.append(([("-",)] if f.opt else []) + [("+", x) for x in l])
        p = prod(ls); return None if p is None else [v for v in ({f.name: x[1] for f, x in zip(fs, c) if len(x) > 1} for c in p) if t.ok(v)]
    if isinstance(t, Cho):
        r = []
        for f in t.f:
            l = allvals(f.ty, lim)
            if l is None: return None
            r += [(f.name, x) for x in l]
        return None if len(r) > lim else [v for v in r if t.ok(v)]
    return None
