"""The generated XER encoder writes well-formed XML, element by component, in which a conforming parser finds the value; the decoder reads it (and the same document laid out differently) back."""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from gfam import *
import xml.etree.ElementTree as ET, math
class NoXml(Exception): pass
def names(t): return {v: n for n, v in t.numbered()}
def xtree(t, v, tag):
    """what the document must hold: (tag, text or None, [children]); the tag of a list item is None (any name)"""
    if isinstance(t, Int): return (tag, ("i", v), [])
    if isinstance(t, Real): return (tag, ("r", v), [])
    if isinstance(t, Bool): return (tag, None, [("true" if v else "false", None, [])])
    if isinstance(t, Null): return (tag, None, [])
    if isinstance(t, Enum): return (tag, None, [(names(t)[v], None, [])])
    if isinstance(t, Octet): return (tag, ("x", v.hex().upper()), [])
    if isinstance(t, BitS): return (tag, ("s", v), [])
    if isinstance(t, Str):
        if any(not 32 <= ord(c) < 127 for c in v): raise NoXml()
        return (tag, ("s", v), [])
    if isinstance(t, Oid): return (tag, ("s", ".".join(map(str, v))), [])
    if isinstance(t, SeqOf): return (tag, None, [xtree(t.elem, x, None) for x in v])
    if isinstance(t, Seq): return (tag, None, [xtree(f.ty, v[f.name], f.name) for f in t.f if f.name in v])
    if isinstance(t, Cho): f = next(a for a in t.f if a.name == v[0]); return (tag, None, [xtree(f.ty, v[1], f.name)])
def same(w, e, t):
    """w: expected tree, e: parsed element; returns None or what differs"""
    tag, text, kids = w
    if tag is not None and e.tag != tag: return "element %s where %s is due" % (e.tag, tag)
    got = e.text or ""
    if e.attrib: return "attributes in <%s>" % e.tag
    if text is None:
        if got.strip(): return "text in <%s>" % e.tag
    elif text[0] == "r":
        v = text[1]; sp = "NOT-A-NUMBER" if v != v else "PLUS-INFINITY" if v == math.inf else "MINUS-INFINITY" if v == -math.inf else None
        if sp:
            if [k.tag for k in e] != [sp]: return "<%s> lacks <%s/>" % (e.tag, sp)
            return None
        try: g = float(got)
        except ValueError: return "no number in <%s>" % e.tag
        if g != v: return "<%s> holds another number" % e.tag
    elif text[0] == "i":
        if got.strip() != str(text[1]): return "<%s> holds %s" % (e.tag, got[:40])
    elif got != text[1]: return "<%s> holds %s" % (e.tag, got[:40])
    if len(e) != len(kids): return "<%s> has %d elements, not %d" % (e.tag, len(e), len(kids))
    for k, c in zip(kids, e):
        if c.tail and c.tail.strip(): return "text after <%s>" % c.tag
        if k[0] is None and isinstance(t, SeqOf) and isinstance(t.elem, Cho) and c.tag != "" and len(k[2]) == 1 and c.tag == k[2][0][0]: k = k[2][0]     # items of CHOICE type stand by themselves
        elif k[0] is None and len(k[2]) == 1 and not k[2][0][2] and k[1] is None and c.tag == k[2][0][0] and not len(c): continue                       # and so do BOOLEAN and ENUMERATED items
        b = same(k, c, kid(t, k, c))
        if b: return b
def kid(t, k, c):
    if isinstance(t, SeqOf): return t.elem if not (isinstance(t.elem, Cho) and k[0] is not None) else next((f.ty for f in t.elem.f if f.name == k[0]), None)
    if isinstance(t, (Seq, Cho)): return next((f.ty for f in t.f if f.name == k[0]), None)
TAG = re.compile(r"(<[^>]*>)")
def layouts(s):
    """the same document: no white space; one element to a line, indented; an XML declaration; a comment between elements"""
    parts = [x for x in TAG.split(s) if x]; out = []
    for sep, gap in (("\n  ", ""), ("\t\r\n", "")):
        r = ""
        for i, x in enumerate(parts):
            r += x
            if i + 1 < len(parts) and x[:1] == "<" and parts[i + 1][:1] == "<" and len(x) > 2 and len(parts[i + 1]) > 1 and not (x[1] != "/" and x[-2] != "/" and parts[i + 1][1] == "/"): r += sep
        out.append(r)
    return out
def Z(s): return re.sub(r"\b8000000000000000\b", "0000000000000000", s)     # XML has one zero
def work(job):
    ts, exe = job; cmds, info = [], []; bad = []; n0 = 0
    for n, t in ts:
        for v in vals(t, 24 if THOROUGH else 10):
            try: w = xtree(t, v, n)
            except NoXml: continue
            cmds.append("E %s U %s" % (n, " ".join(dump(t, v)))); info.append((n, t, v, w)); n0 += 1
    c2, i2 = [], []; ns = 0
    for c, (n, t, v, w), r in zip(cmds, info, [x.strip() for x in drive(exe, cmds)]):
        if not r.startswith("OK "): bad.append(("encode", n, t, c, "a document", r)); continue
        s = bytes.fromhex((r.split() + ["", ""])[2]); x = None
        try: x = ET.fromstring(s)
        except ET.ParseError as e: bad.append(("form", n, t, c, "a well-formed document", "%s: %r" % (e, s[:150]))); continue
        b = same(w, x, t)
        if b: bad.append(("tree", n, t, c, w, "%s: %r" % (b, s[:200]))); continue
        d = " ".join(dump(t, v, True)); c2.append("D %s U %s" % (n, s.hex())); i2.append((n, t, "OK", d))
        for y in layouts(s.decode("latin1")): c2.append("D %s U %s" % (n, y.encode("latin1").hex())); i2.append((n, t, "OK", d))
        if len(s) <= (400 if THOROUGH else 160) and ns < 100: c2.append("X %s U %s -1" % (n, s.hex())); i2.append((n, t, "X", None))
    tot = 0
    for c, (n, t, k, d), r in zip(c2, i2, [x.strip() for x in drive(exe, c2)]):
        if k == "X":
            if not r.startswith("OK"): bad.append(("corrupt", n, t, c, "refused or a valid value", r))
            else: tot += int(r.split()[1])
        elif not (r.startswith("OK ") and Z((r.split(" ", 2) + [""])[2]) == Z(d)): bad.append(("decode", n, t, c, d, r))
    return n0, len(cmds) + len(c2) + tot, bad
def check(rep):
    with Scratch("G07") as d:
        dll = setup(rep, d)
        if not dll: return
        ts = uper_families(THOROUGH); g = Gen(rep, dll, d, opts=("-XER",), encs=("X",)); mods = g.all(ts, 16 if not THOROUGH else 48)
        for (n0, n, bad), (mt, exe) in zip(run_cmds(work, mods), mods):
            rep.add(n0, n, n, "types", samples=["%s ::= %s" % (mt[0][0], ty_text(mt[0][1].clone(ref=None))[:120])]); report_bad(rep, bad)
        rep.cov["types"] = sum(len(m) for m, _ in mods); rep.cov["compiler_runs"] = g.nrun
        rep.assumptions = ["strings hold printable ASCII only: XML has no plain form of other control characters", "the name of the element of a list item is not checked"]
if __name__ == "__main__": gmain("G07", check)
