"""All orders of modules, files and assignments; all placements of the input and of the working directory; unrelated additions."""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from gfam import *
from collections import Counter

# Universes of three modules that bear on each other in different ways; file i holds module i of every universe.
# (imports, [assignments], ACN assignments)
def universes(same=False):
    u = []
    u.append([("TyChB FROM Chb TyChC, chv FROM Chc", ["TyChA ::= SEQUENCE { x TyChB, y TyChC OPTIONAL, z INTEGER (0..chv) }", "cha TyChA ::= { x 3, z 4 }", "TyChA2 ::= TyChA"], ""),
              ("TyChC FROM Chc", ["TyChB ::= INTEGER (0..5)", "TyChB2 ::= CHOICE { p TyChC, q TyChB, r ENUMERATED { chone, chtwo } }"], ""),
              ("", ["TyChC ::= SEQUENCE (SIZE (1..4)) OF ENUMERATED { chone, chtwo, chthree }", "chv INTEGER ::= 77"], "")])
    # the same enumerants, component names and value names everywhere
    u.append([("", ["TyCl%s1 ::= ENUMERATED { red, green%s, blue }" % (m, m), "TyCl%s2 ::= SEQUENCE { red BOOLEAN, f CHOICE { red NULL, blue INTEGER (0..%d) }, g ENUMERATED { red, blue } }" % (m, i + 3), "clv%s TyCl%s1 ::= red" % (m.lower(), m)], "") for i, m in enumerate("ABC")])
    # diamond, bounds and defaults through imported constants
    u.append([("TyDb FROM Dib TyDc, dmax FROM Dic", ["TyDa ::= SEQUENCE { l TyDb, r TyDc, s OCTET STRING (SIZE (1..dmax)) }", "TyDa3 ::= INTEGER (ALL EXCEPT 3)"], ""),
              ("TyDc, dmax FROM Dic", ["TyDb ::= SEQUENCE { i TyDc, j INTEGER (0..dmax) DEFAULT dmax, k IA5String (SIZE (0..dmax)) }"], ""),
              ("", ["dmax INTEGER ::= 9", "TyDc ::= CHOICE { u BIT STRING (SIZE (3)), v REAL, w SEQUENCE { } }"], "")])
    # ACN: sizes, a parameter, a determinant, an inserted field, attributes on an imported type
    u.append([("TyAcB FROM Acb TyAcC FROM Acc", ["TyAcA ::= SEQUENCE { n INTEGER (0..7), pay TyAcB, t TyAcC }"], "TyAcA [] { n [size 5, encoding pos-int], k TyAcK [], len INTEGER [size 8, encoding pos-int], pay <len> [], t [present-when] }".replace(" k TyAcK [],", "").replace(" [present-when]", " []")),
              ("", ["TyAcB ::= SEQUENCE { d OCTET STRING (SIZE (0..20)), e BOOLEAN OPTIONAL }"], "TyAcB <INTEGER: l> [] { h BOOLEAN [], d [size l], e [present-when h] }"),
              ("", ["TyAcC ::= CHOICE { x INTEGER (-5..5), y INTEGER (0..65535) }", "TyAcC2 ::= ENUMERATED { acx, acy(5), acz }"], "TyAcC [] { x [size 16, encoding twos-complement, endianness little], y [size 16, encoding pos-int] }\nTyAcC2 [encode-values, size 8, encoding pos-int]")])
    # nothing in common
    u.append([("", ["TyUn%s ::= SEQUENCE { a%s BIT STRING (SIZE (0..%d)), b%s SEQUENCE (SIZE (%d)) OF INTEGER (1..%d) }" % (m, m, i + 4, m, i + 1, i + 50), "TyUo%s ::= SET { c%s NumericString (SIZE (1..%d)), d%s REAL OPTIONAL }" % (m, m, i + 2, m)], "") for i, m in enumerate("ABC")])
    # the same type name in the three modules: the names then follow the order of the modules, so these are only repeated
    if same: u.append([("", ["TySame ::= SEQUENCE { a INTEGER (0..%d), b TySameIn OPTIONAL }" % (i + 9), "TySameIn ::= ENUMERATED { se%d, sf }" % i, "TySo%s ::= SEQUENCE OF TySame".replace("SEQUENCE OF", "SEQUENCE (SIZE (0..3)) OF") % m], "") for i, m in enumerate("ABC")])
    return u
NAMES = ["Ch", "Cl", "Di", "Ac", "Un", "Sa"]
def nonum(us): return [[(i, [a.replace("NumericString", "IA5String") for a in l], c) for i, l, c in u] for u in us]     # the Scala back end has no NumericString
def orders(n, th): return list(itertools.permutations(range(n))) if th or n < 4 else [list(range(n))[k:] + list(range(n))[:k] for k in range(n)] + [list(range(n))[::-1]]
def files(us, morder=None, aorder=None, extra=None):
    """text of the files a, b, c (.asn1, .acn)"""
    out = {}
    for i, f in enumerate("abc"):
        asn, acn = [], []
        for u in (morder or range(len(us))):
            imp, ass, ac = us[u][i]; ass = list(ass)
            if aorder: ass = aorder(ass)
            if extra and extra[0] == (u, i): ass = [extra[1]] + ass if extra[2] else ass + [extra[1]]
            m = NAMES[u] + f; asn.append("%s DEFINITIONS AUTOMATIC TAGS ::= BEGIN\n%s%s\nEND\n" % (m, "IMPORTS %s;\n" % imp if imp else "", "\n".join(ass))); acn.append("%s DEFINITIONS ::= BEGIN\n%s\nEND\n" % (m, ac))
        out[f + ".asn1"] = "\n".join(asn); out[f + ".acn"] = "\n".join(acn)
    return out

ERR = [re.compile(rb"(#define\s+ERR_\w+\s+)(\d+)"), re.compile(rb"(\bERR_\w+\s*:\s*constant Integer\s*:=\s*)(\d+)"), re.compile(rb"(\bval ERR_\w+\s*:\s*\w+\s*=\s*)(\d+)")]
def snap(o):
    r = {}
    for root, _, fs in os.walk(o):
        for f in fs:
            p = os.path.join(root, f); r[os.path.relpath(p, o)] = open(p, "rb").read()
    return r
def noerr(b):
    for e in ERR: b = e.sub(rb"\1#", b)
    return b
def lines(b): return Counter(x.strip() for x in noerr(b).split(b"\n"))
LISTS = re.compile(r"(Makefile|VsProject|mainprogram|test_?case|testsuite|\.gpr$|\.sbt$|\.html$|\.xml$)")
def first(a, b):
    for x, y in itertools.zip_longest(a.split(b"\n"), b.split(b"\n")):
        if x != y: return "%r | %r" % ((x or b"")[:150], (y or b"")[:150])
    return ""

def check(rep):
    with Scratch("G09") as d:
        dll = setup(rep, d)
        if not dll: return
        cfgs = [("c", ["-c", "-uPER", "-ACN", "-XER", "-equal", "-atc", "-icdUper", "@u.html", "-icdAcn", "@a.html", "-x", "@ast.xml"]), ("c-r2", ["-c", "-uPER", "-renamePolicy", "2", "-slim"]), ("c-r3", ["-c", "-ACN", "-renamePolicy", "3", "-fp", "AUTO", "-equal"]), ("c-r0", ["-c", "-uPER", "-ACN", "-fp", "AUTO", "-typePrefix", "Px"]),
                ("ada", ["-Ada", "-uPER", "-ACN", "-XER", "-equal", "-atc"]), ("ada-r3", ["-Ada", "-uPER", "-renamePolicy", "3", "-fp", "AUTO"]), ("scala", ["-Scala", "-uPER", "-ACN", "-equal", "-atc"])]
        if THOROUGH: cfgs += [("c-acnd%d" % k, ["-c", "-ACN", "-uPER", "-renamePolicy", str(k), "-equal"] + x) for k in (1, 2, 3) for x in ([], ["-eee", "2"])] + [("c-sm", ["-c", "-uPER", "-ACN", "-sm"]), ("c-ig", ["-c", "-uPER", "-ig", "-equal"]), ("c-w4", ["-c", "-uPER", "-ACN", "-wordSize", "4", "-fpWordSize", "4", "-slim"]), ("ada-fp", ["-Ada", "-ACN", "-fp", "Q"]), ("scala-r3", ["-Scala", "-uPER", "-renamePolicy", "3"])]
        full = universes(); jobs = []; n = [0]
        for cn, opt in list(cfgs):
            us = nonum(full) if "scala" in cn else full; u2 = universes(True); u2 = nonum(u2) if "scala" in cn else u2
            jobs += [(cn + " same names", opt, "base", files(u2), "abc", 0, None), (cn + " same names", opt, "again", files(u2), "abc", 0, None), (cn + " same names", opt, "elsewhere", files(u2), "abc", 2, None)]
            jobs.append((cn, opt, "base", files(us), "abc", 0, None)); jobs.append((cn, opt, "again", files(us), "abc", 1, None)); jobs.append((cn, opt, "elsewhere", files(us), "abc", 2, None)); jobs.append((cn, opt, "from its folder", files(us), "abc", 3, None))
            for p in itertools.permutations("abc"):
                if p != tuple("abc"): jobs.append((cn, opt, "files " + "".join(p), files(us), p, 0, None))
            jobs.append((cn, opt, "acn files first", files(us), "abc", 4, None))
            for o in orders(len(us), False)[1:] if not THOROUGH else list(itertools.permutations(range(len(us))))[7::31]: jobs.append((cn, opt, "modules " + "".join(map(str, o)), files(us, o), "abc", 0, None))
            for k, ao in enumerate([lambda l: l[::-1], lambda l: l[1:] + l[:1], lambda l: l[2:] + l[:2]]): jobs.append((cn, opt, "assignments %d" % k, files(us, None, ao), "abc", 0, None))
            for u, i in (itertools.product(range(len(us)), range(3)) if THOROUGH else [(0, 0), (1, 2), (2, 1), (3, 1)]):
                for front in (True, False):
                    if not THOROUGH and front != ((u + i) % 2 == 0): continue
                    jobs.append((cn, opt, "unrelated %d%d%s" % (u, i, "f" if front else "l"), files(us, None, None, ((u, i), "TyZzz ::= SEQUENCE { zzq INTEGER (0..4242), zzr BOOLEAN OPTIONAL }", front)), "abc", 0, "add"))
            jobs.append((cn, opt, "unrelated module", dict(files(us), **{"z.asn1": "Modz DEFINITIONS AUTOMATIC TAGS ::= BEGIN TyZzz ::= SEQUENCE { zzq INTEGER (0..4242), zzr BOOLEAN OPTIONAL } END", "z.acn": "Modz DEFINITIONS ::= BEGIN END"}), "abcz", 0, None)); jobs.append((cn, opt, "unrelated module first", jobs[-1][3], "zabc", 0, None))
        def run(j):
            cn, opt, what, fs, order, place, _ = j; n[0] += 1; w = "%s/%d/%s" % (d, n[0] if place != 2 else n[0] + 10000, "in" if place != 2 else "some where/else")
            o = os.path.join(w, "..", "out") if place != 3 else os.path.join(w, "o"); o = os.path.normpath(o); os.makedirs(w); os.makedirs(o, exist_ok=True)
            for f, t in fs.items(): open(w + "/" + f, "w").write(t)
            names = [f + ".asn1" for f in order] + [f + ".acn" for f in order] if place != 4 else [f + ".acn" for f in order[::-1]] + [f + ".asn1" for f in order]
            if place == 3: args = [x.replace("@", "o/") for x in opt] + ["-o", "o"] + names; cwd = w
            else: args = [x.replace("@", o + "/") for x in opt] + ["-o", o] + [w + "/" + f for f in names]; cwd = d if place != 2 else "/"
            try: rc, txt = asn1scc(dll, args, cwd)
            except subprocess.TimeoutExpired: rc, txt = 124, "asn1scc does not end"
            s = snap(o); shutil.rmtree(w, ignore_errors=True); shutil.rmtree(o, ignore_errors=True)
            return rc, txt, s, w
        res = pmap(run, jobs); base = {}; ncmp = 0
        for j, (rc, txt, s, w) in zip(jobs, res):
            cn, opt, what = j[:3]; key = "%s:%s" % (cn, what)
            def bad(f, msg): rep.violation("%s:%s" % (key, f), "asn1scc %s, %s: %s %s" % (" ".join(opt), what, f, msg), dict(options=opt, variant=what, file=f, files=j[3], order="".join(j[4])))
            if rc: bad("-", "asn1scc fails: " + txt.strip()[-300:]); continue
            if what == "base":
                base[cn] = s; base[cn, "w"] = w.encode() + b"/"
                nums = [m.group(2) for f, b in s.items() if not f.startswith(("asn1crt", "adaasn1rtl")) and "asn1scala" not in f for e in ERR for m in e.finditer(b)]; c = Counter(nums)      # the codes of one run are all different
                dup = [k for k, v in c.items() if v > 1]
                if dup: bad("error codes", "two error codes have the number %s" % dup[0].decode())
                if len(nums) < 20: raise CheckError("no error codes found in the output of " + cn)
                continue
            a = base.get(cn)
            if a is None: continue
            exact = what in ("again", "elsewhere", "from its folder")
            for f in sorted(set(a) | set(s)):
                ncmp += 1
                if f not in s: bad(f, "is not generated"); continue
                if f not in a:
                    if what.startswith("unrelated module") and re.search(r"(^|/)(modz|z)\b|modz|(^|/)z(Def|_auto)", f): continue
                    bad(f, "is generated only here"); continue
                x, y = a[f], s[f]
                if exact:
                    x, y = x.replace(base[cn, "w"], b""), y.replace(w.encode() + b"/", b"")     # the names of the input files as they were given
                    if x != y: bad(f, "differs: " + first(x, y))
                elif LISTS.search(f): pass          # lists of everything there is, in the order given
                elif what.startswith(("files", "acn", "unrelated module")):
                    if noerr(x) != noerr(y): bad(f, "differs by more than the numbers of error codes: " + first(noerr(x), noerr(y)))
                elif what.startswith(("modules", "assignments")):
                    if lines(x) != lines(y): bad(f, "has other declarations: " + str(list(((lines(x) - lines(y)) + (lines(y) - lines(x))).items())[:3])[:300])
                else:
                    l = {k: v for k, v in (lines(x) - lines(y)).items()}
                    if l: bad(f, "changes something else: " + str(list(l.items())[:3])[:300])
        rep.add(len(jobs), ncmp, ncmp, samples=["asn1scc %s: %s" % (" ".join(j[1]), j[2]) for j in jobs[1:80:9]])
        rep.cov["compiler_runs"] = len(jobs); rep.cov["configurations"] = len(cfgs)
        rep.assumptions = ["the numbers of error codes, and the files that list everything there is (Makefile, project, test suite, ICD), follow the order in which modules are given", "assignments and modules of one file may be written in another order when their input order changes", "schedules inside the .NET runtime are not controlled: a run is repeated, not explored"]
gmain("G09", check)
