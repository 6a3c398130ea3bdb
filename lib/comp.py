"""Builds the asn1scc compiler from /repo's working tree, runs it, and drives the C code it generates."""
import os, subprocess, re, shutil, time
from concurrent.futures import ThreadPoolExecutor
from vlib import *
from asn import *

ENV = dict(os.environ, DOTNET_CLI_TELEMETRY_OPTOUT="1", DOTNET_NOLOGO="1", MSBUILDDISABLENODEREUSE="1", DOTNET_CLI_USE_MSBUILD_SERVER="0", DOTNET_SKIP_FIRST_TIME_EXPERIENCE="1", DOTNET_GENERATE_ASPNET_CERTIFICATE="false", DOTNET_TieredPGO="0", LANG="C.UTF-8", HOME=os.environ.get("HOME", "/root"))
SKIP = re.compile(r"^(v4Tests|PUSCScalaTest|Docs|Backup|bugs|mantis|regression|Tests|lsp|Daemon|github-issues|contrib|\.git|\.github|_build)(/|$)")
class BuildFailed(Exception): pass

def build_compiler(d):
    """copies the tracked working-tree files of /repo to d and builds asn1scc there; returns the dll"""
    if os.environ.get("VERIF_ASN1SCC"): return os.environ["VERIF_ASN1SCC"]      # development only: an already built compiler
    os.makedirs(d, exist_ok=True)
    for root, ds, fs in os.walk(REPO):
        rel = os.path.relpath(root, REPO); rel = "" if rel == "." else rel + "/"
        ds[:] = [x for x in ds if not SKIP.match(rel + x) and x not in ("bin", "obj", ".git", "node_modules", "target") and not os.path.islink(os.path.join(root, x))]
        for f in fs:
            s = os.path.join(root, f)
            if os.path.islink(s) or not os.path.isfile(s) or os.path.getsize(s) > 40 << 20: continue
            if f.endswith(".stg.fs") : continue       # regenerated by the build
            o = os.path.join(d, rel, f); os.makedirs(os.path.dirname(o), exist_ok=True); shutil.copyfile(s, o)
    os.makedirs(d + "/_shim", exist_ok=True); shutil.copytree(VERIF + "/shim/FsToolkit", d + "/_shim/FsToolkit", dirs_exist_ok=True)
    shutil.copy(VERIF + "/shim/Directory.Build.targets", d)
    p = subprocess.run(["dotnet", "build", "asn1scc/asn1scc.fsproj", "-nologo", "-v:q", "-clp:ErrorsOnly", "-nodeReuse:false", "-p:NuGetAudit=false", "-p:RuntimeIdentifiers=", "-p:UseSharedCompilation=false", "-p:RestoreSources=/usr/lib/dotnet/library-packs", "-p:OtherFlags=--parallelcompilation+ --optimize- --debug-"], cwd=d, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=600)
    dll = d + "/asn1scc/bin/Debug/net10.0/asn1scc.dll"
    if p.returncode or not os.path.exists(dll): raise BuildFailed(p.stdout[-1500:])
    return dll

def asn1scc(dll, args, cwd=None, timeout=300):
    p = subprocess.run(["dotnet", dll] + args, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
    return p.returncode, p.stdout

def pmap(f, xs, n=NCPU):
    with ThreadPoolExecutor(n) as ex: return list(ex.map(f, xs))

# ------------------------------------------------------------------ C accessors
_n = [0]
def fresh(): _n[0] += 1; return "i%d" % _n[0]
def fixed(t): lo, hi = t.srng(); return lo == hi
def c_dump(t, e):
    if isinstance(t, Int): return 'pf("%%%s ", (%slong long)(%s));' % (("llu", "unsigned ", e) if t.unsigned() else ("lld", "", e))
    if isinstance(t, Real): return "pr((double)(%s));" % e
    if isinstance(t, Bool): return 'pf((%s) ? "1 " : "0 ");' % e
    if isinstance(t, Null): return 'pf("n ");'
    if isinstance(t, Enum): return 'pf("%%lld ", (long long)(%s));' % e
    if isinstance(t, Octet): return "ph((%s).arr, %s);" % (e, t.srng()[1] if fixed(t) else "(%s).nCount" % e)
    if isinstance(t, BitS): return "pb((%s).arr, %s);" % (e, t.srng()[1] if fixed(t) else "(%s).nCount" % e)
    if isinstance(t, Str): return "ph((const unsigned char*)(%s), strnlen(%s, sizeof(%s)));" % (e, e, e)
    if isinstance(t, Oid): i = fresh(); return 'pf("%%d ", (%s).nCount); { int %s; for (%s = 0; %s < (%s).nCount; %s++) pf("%%llu ", (unsigned long long)(%s).values[%s]); }' % (e, i, i, i, e, i, e, i)
    if isinstance(t, SeqOf):
        i = fresh(); n = str(t.srng()[1]) if fixed(t) else "(%s).nCount" % e
        return '{ int %s; pf("%%d ", (int)%s); for (%s = 0; %s < %s; %s++) { %s } }' % (i, n, i, i, n, i, c_dump(t.elem, "(%s).arr[%s]" % (e, i)))
    if isinstance(t, Seq):
        r = []
        for f in t.f:
            if f.acnonly: continue
            x = "(%s).%s" % (e, f.name)
            if f.opt:
                cd = c_dump(f.ty, x); r.append('if ((%s).exist.%s) { pf("+ "); %s } else { pf("- "); %s }' % (e, f.name, cd, 'if (showdef) { pf("= "); %s }' % c_dump(f.ty, x) if f.opt == "d" else ""))
            else: r.append(c_dump(f.ty, x))
        return " ".join(r)
    if isinstance(t, Cho):
        return "switch ((int)(%s).kind) { " % e + " ".join('case %d: pf("%d "); %s break;' % (i + 1, i, c_dump(a.ty, "(%s).u.%s" % (e, a.name))) for i, a in enumerate(t.f)) + ' default: pf("badkind "); }'
    raise ValueError(t)
def c_load(t, e, ct=None):
    if isinstance(t, Int): return "%s = %s(tk(), NULL, 10);" % (e, "strtoull" if t.unsigned() else "strtoll")
    if isinstance(t, Real): return "%s = rr();" % e
    if isinstance(t, Bool): return "%s = *tk() == '1';" % e
    if isinstance(t, Null): return "tk(); %s = 0;" % e
    if isinstance(t, Enum): return "%s = atoi(tk());" % e
    if isinstance(t, Octet): return ("rh((%s).arr);" % e) if fixed(t) else "(%s).nCount = rh((%s).arr);" % (e, e)
    if isinstance(t, BitS): return ("rb((%s).arr);" % e) if fixed(t) else "(%s).nCount = rb((%s).arr);" % (e, e)
    if isinstance(t, Str): return "{ int k = rh((unsigned char*)%s); (%s)[k] = 0; }" % (e, e)
    if isinstance(t, Oid): i = fresh(); return "(%s).nCount = atoi(tk()); { int %s; for (%s = 0; %s < (%s).nCount; %s++) (%s).values[%s] = strtoull(tk(), NULL, 10); }" % (e, i, i, i, e, i, e, i)
    if isinstance(t, SeqOf):
        i = fresh(); n = fresh()
        return "{ int %s, %s = atoi(tk()); %s for (%s = 0; %s < %s; %s++) { %s } }" % (i, n, "" if fixed(t) else "(%s).nCount = %s;" % (e, n), i, i, n, i, c_load(t.elem, "(%s).arr[%s]" % (e, i)))
    if isinstance(t, Seq):
        r = []
        for f in t.f:
            if f.acnonly: continue
            x = "(%s).%s" % (e, f.name)
            if f.opt: r.append("(%s).exist.%s = *tk() == '+'; if ((%s).exist.%s) { %s }" % (e, f.name, e, f.name, c_load(f.ty, x)))
            else: r.append(c_load(f.ty, x))
        return " ".join(r)
    if isinstance(t, Cho):
        return "switch (atoi(tk())) { " % () + " ".join("case %d: (%s).kind = %d; %s break;" % (i, e, i + 1, c_load(a.ty, "(%s).u.%s" % (e, a.name))) for i, a in enumerate(t.f)) + " }"
    raise ValueError(t)
def c_arr(t): return isinstance(t, Str)

def spec_text(mod, types, extra=""):
    return "%s DEFINITIONS AUTOMATIC TAGS ::= BEGIN\n%s%s\nEND\n" % (mod, extra, "\n".join("%s ::= %s" % (n, ty_text(t.clone(ref=None))) for n, t in types))

DRIVER = open(os.path.join(VERIF, "lib", "cdriver.inc")).read() if os.path.exists(os.path.join(VERIF, "lib", "cdriver.inc")) else ""

def c_driver(hdr, types, encs=("U",), equal=True, consts=None):
    """C text of the command driver for (name, type) pairs; types with ACN parameters have no codec of their own"""
    types = [(n, t) for n, t in types if not getattr(t, "params", None)]
    o = ['#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include "%s"\n' % hdr, DRIVER]
    for n, t in types:
        a = "*(%s*)p" % n if c_arr(t) else "(%s*)p" % n
        o.append("static void dump_%s(void* p) { %s* v = p; %s }" % (n, n, c_dump(t, "(*v)")))
        o.append("static void load_%s(void* p) { %s* v = p; %s }" % (n, n, c_load(t, "(*v)")))
        o.append("static void init_%s(void* p) { %s_Initialize(%s); }" % (n, n, a))
        o.append("static flag valid_%s(void* p, int* e) { %s }" % (n, "return 1;" if isinstance(t, Null) else "return %s_IsConstraintValid(%s, e);" % (n, a)))
        o.append("static flag equal_%s(void* p, void* q) { %s }" % (n, "return %s_Equal(%s, %s);" % (n, a, a.replace(")p", ")q")) if equal else "return 0;"))
        if "X" in encs:     # XER in the place of uPER: octets of text
            o.append("static flag Uenc_%s(void* p, BitStream* s, int* e, flag c) { ByteStream b; flag r; memset(&b, 0, sizeof b); ByteStream_Init(&b, s->buf, s->count); r = %s_XER_Encode(%s, &b, e, c); s->currentByte = b.currentByte; s->currentBit = 0; return r; }" % (n, n, a))
            o.append("static flag Udec_%s(void* p, BitStream* s, int* e) { ByteStream b; flag r; memset(&b, 0, sizeof b); ByteStream_AttachBuffer(&b, s->buf, s->count); r = %s_XER_Decode(%s, &b, e); s->currentByte = b.currentByte; s->currentBit = 0; return r; }" % (n, n, a))
        for x, pre in (("U", ""), ("A", "ACN_")):
            if x in encs:
                o.append("static flag %senc_%s(void* p, BitStream* s, int* e, flag c) { return %s_%sEncode(%s, s, e, c); }" % (x, n, n, pre, a))
                o.append("static flag %sdec_%s(void* p, BitStream* s, int* e) { return %s_%sDecode(%s, s, e); }" % (x, n, n, pre, a))
    for n, k in (consts or {}).items(): o.append("static void konst_%s(int i) { switch (i) { %s } }" % (n, " ".join("case %d: dump_%s((void*)&%s); break;" % (i, n, c) for i, c in enumerate(k))))
    o.append("static const Desc D[] = {")
    for n, t in types:
        f = [("%senc_%s, %sdec_%s, %s_REQUIRED_BYTES_FOR_%sENCODING, %s_REQUIRED_BITS_FOR_%sENCODING" % (x, n, x, n, n, pre, n, pre)) if x in encs else "Uenc_%s, Udec_%s, %s_REQUIRED_BYTES_FOR_XER_ENCODING, %s_REQUIRED_BYTES_FOR_XER_ENCODING * 8" % (n, n, n, n) if x == "U" and "X" in encs else "0,0,0,0" for x, pre in (("U", ""), ("A", "ACN_"))]
        o.append('{ "%s", sizeof(%s), dump_%s, load_%s, init_%s, valid_%s, equal_%s, { { %s }, { %s } }, %s },' % (n, n, n, n, n, n, n, f[0], f[1], "konst_" + n if consts and n in consts else "0"))
    o.append("};\nint main(void) { return drive(D, sizeof D / sizeof *D); }\n")
    return "\n".join(o)

CFLAGS = "-std=c99 -O0 -w -fsanitize=address,bounds -fno-sanitize-recover=all"
def build_driver(out, stem, types, encs=("U",), equal=True, cflags=CFLAGS, defs="", extra_src=(), consts=None, own_runtime=False):
    """compile generated C in out with a driver; returns exe or raises CheckError with the compiler's message"""
    open(out + "/drv.c", "w").write(c_driver(stem + ".h", types, encs, equal, consts))
    srcs = [f for f in os.listdir(out) if f.endswith(".c") and not f.startswith("test") and f != "mainprogram.c"] + list(extra_src)
    def build(which):
        for p in pmap(lambda f: sh("gcc %s %s -c %s -o %s.o" % (cflags, defs, f, f), cwd=out, check=False), which, 3):
            if p.returncode: return p.stderr[:1500]
        p = sh("gcc %s %s -lm -o drv" % (cflags, " ".join(f + ".o" for f in srcs)), cwd=out, check=False)
        return p.stderr[:1500] if p.returncode else None
    err = build(srcs)
    if err and not (own_runtime and lacks(err)) and full_runtime(out): err = build(srcs)
    if err: raise CheckError(err)
    return out + "/drv"

def lacks(err):
    """the generated code itself, rather than a function of the runtime, calls something that is not there"""
    return any(re.search(r"implicit declaration|undefined reference|in function", l) and not re.match(r"(/usr/bin/ld: )?(\S*/)?asn1crt", l) for l in err.splitlines() if re.match(r"(/usr/bin/ld: )?\S+\.c(\.o)?:", l) and ("implicit declaration" in l or ".c.o: in function" in l))

def full_runtime(out):
    """puts the whole C runtime where the compiler put the functions it deems used (that it keeps all that are needed is a matter of its own); true if that changes anything"""
    new = False
    for f in os.listdir(out):
        src = REPO + "/asn1crt/" + f
        if f.startswith("asn1crt") and os.path.exists(src):
            t = open(src, encoding="utf-8-sig", newline="").read().replace("\r", "")
            if open(out + "/" + f, encoding="utf-8-sig", newline="").read() != t: open(out + "/" + f, "w").write(t); new = True
    return new

def drive(exe, lines, timeout=400):
    """feed commands, get one answer per command; a crash is the answer 'CRASH ...' of the command that caused it"""
    out = []; i = 0; crashes = 0
    while i < len(lines):
        try:
            p = subprocess.run([exe], input="\n".join(lines[i:]) + "\n", stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=1"))
            res = p.stdout.split("\n"); err = p.stderr; rc = p.returncode; hung = False
        except subprocess.TimeoutExpired as e:
            res = (e.stdout or b"").decode("utf8", "replace").split("\n"); err = "timeout"; rc = -9; hung = True
        res = res[:-1]; out += res; i += len(res)
        if i < len(lines):
            crashes += 1; m = re.search(r"(ERROR: AddressSanitizer: .*|runtime error: .*|Assertion .*|timeout)", err)
            out.append("CRASH rc=%d %s" % (rc, m.group(1)[:160] if m else err[:160].replace("\n", " "))); i += 1
            if crashes > 60: out += ["SKIPPED"] * (len(lines) - i); break
    return out
