"""Shared plumbing of all checks: scratch build, exploration run, replay, known findings, evidence."""
import json, os, re, shutil, subprocess, sys, tempfile, time, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
THOROUGH = TIER == "thorough"
NCPU = min(8, os.cpu_count() or 8)
KNOWN = os.path.join(VERIF, "known_findings.txt")

class CheckError(Exception):
    pass

class Scratch:
    def __init__(self, tag):
        base = os.environ.get("VERIF_SCRATCH") or tempfile.gettempdir()
        self.d = tempfile.mkdtemp(prefix="vmc_%s_" % tag, dir=base)
    def __enter__(self): return self.d
    def __exit__(self, *a):
        if not os.environ.get("VERIF_KEEP"): shutil.rmtree(self.d, ignore_errors=True)

def sh(cmd, cwd=None, timeout=None, env=None, check=True, input=None):
    p = subprocess.run(cmd, cwd=cwd, timeout=timeout, env=env, shell=isinstance(cmd, str), input=input,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
    if check and p.returncode != 0:
        raise CheckError("command failed (%d): %s\n%s\n%s" % (p.returncode, cmd, p.stdout[-3000:], p.stderr[-3000:]))
    return p

def known(prop):
    """known_findings.txt lines:  finding: property=<id> key=<key> | text      (suppresses exactly this key)
                                   fixed: property=<id> <commit> <what>        (suppresses nothing)"""
    r = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"finding:\s+property=(\S+)\s+key=(\S+)\s*\|\s*(.*)", l.strip())
            if m and m.group(1) == prop: r[m.group(2)] = m.group(3)
    return r

class Report:
    """Collects what a check explored and what went wrong."""
    def __init__(self, prop, level="model_checking"):
        self.prop, self.level, self.t0 = prop, level, time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.viol = []          # (key, text, replay dict)
        self.assumptions = []
        self.parts = {}
    def add(self, states=0, transitions=0, traces=0, part=None, samples=()):
        self.cov["states"] += states; self.cov["transitions"] += transitions
        self.cov["traces_validated_against_impl"] += traces
        if part is not None:
            p = self.parts.setdefault(part, {"states": 0, "transitions": 0}); p["states"] += states; p["transitions"] += transitions
        for s in samples:
            if len(self.cov["samples"]) < 12: self.cov["samples"].append(s)
    def violation(self, key, text, replay=None):
        self.viol.append((re.sub(r"\s+", "_", key), text, replay or {}))
    def finish(self):
        kn = known(self.prop); new = []; seen = set(); hit = {}
        for k, t, r in self.viol:
            if k in kn: hit[k] = hit.get(k, 0) + 1
            else: new.append((k, t, r))
        for k in kn:
            if k in hit: print("KNOWN-FINDING: property=%s %s: %s" % (self.prop, k, kn[k]))
        self.cov["parts"] = self.parts
        self.cov.setdefault("exhaustive", True)
        ev = {"property": self.prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": self.level,
              "coverage": self.cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w"), indent=1)
        print("%s: states=%d transitions=%d traces=%d violations=%d known=%d wall=%.1fs" % (self.prop, self.cov["states"], self.cov["transitions"], self.cov["traces_validated_against_impl"], len(new), len(hit), time.time() - self.t0))
        if not new: return 0
        rd = os.path.join(VERIF, "evidence", "replay"); os.makedirs(rd, exist_ok=True)
        n = 0
        for k, t, r in new:
            if k in seen: continue
            seen.add(k); n += 1
            if n > int(os.environ.get("VERIF_SHOW", "8")): break
            path = os.path.join(rd, "%s-%d.json" % (self.prop, n))
            json.dump({"property": self.prop, "key": k, "what": t, "replay": r}, open(path, "w"), indent=1)
            print("  key=%s %s" % (k, t[:600]))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
        sys.stdout.flush()
        return 1

# ---------------------------------------------------------------- C runtime explorers
RT = ["asn1crt", "asn1crt_encoding", "asn1crt_encoding_uper", "asn1crt_encoding_acn", "asn1crt_encoding_xer", "asn1crt_encoding_ber"]
SAN = "-O1 -g1 -fsanitize=address,bounds -fno-sanitize-recover=all -fno-omit-frame-pointer -w"

def build_c(out, harness, defs="", rt=RT, san=SAN, extra=()):
    """compile /repo/asn1crt (live tree) + harness into out/<name>"""
    crt = os.path.join(REPO, "asn1crt"); os.makedirs(out, exist_ok=True)
    inc = "-I%s -I%s/c" % (crt, VERIF)
    jobs = [("gcc %s %s %s -c %s/%s.c -o %s/rt_%s.o" % (san, defs, inc, crt, f, out, f)) for f in rt]
    objs = ["rt_%s.o" % f for f in rt]
    for h in ["mc.cpp", harness] + list(extra):
        o = os.path.basename(h).rsplit(".", 1)[0] + ".o"; objs.append(o)
        src = h if os.path.isabs(h) else os.path.join(VERIF, "c", h)
        jobs.append("%s %s %s %s -c %s -o %s/%s" % ("gcc -std=c11" if h.endswith(".c") else "g++ -std=c++17", san, defs, inc, src, out, o))
    with ThreadPoolExecutor(NCPU) as ex:
        for p in list(ex.map(lambda j: sh(j, check=False), jobs)):
            if p.returncode: raise CheckError(p.stderr[-4000:])
    exe = os.path.join(out, "explore")
    sh("g++ %s %s -lm -o %s" % (san, " ".join(os.path.join(out, o) for o in objs), exe))
    return exe

def explore(rep, exe, part, cwd, args=(), keyfn=None, timeout=850):
    cmd = [exe] + (["--thorough"] if THOROUGH else []) + list(args)
    p = sh(cmd, cwd=cwd, check=False, timeout=timeout)
    done = False; vs = []
    for l in p.stdout.splitlines():
        f = l.split("\t")
        if f[0] == "V" and len(f) >= 5: vs.append(f[1:])
        elif f[0] == "S": rep.add(samples=[part + "/" + f[1]])
        elif f[0] == "D":
            done = True; rep.add(int(f[1]), int(f[2]), int(f[4]), part)
    if not done: raise CheckError("explorer %s did not finish: rc=%s %s" % (part, p.returncode, p.stderr[-2000:]))
    # replay every distinct violation class on the real code before reporting it
    per = {}; bad = None
    for cid, key, case, msg in vs:
        k = part + ":" + key
        if keyfn: k = keyfn(part, cid, key, case, msg) or k
        if per.setdefault(k, 0) >= 3: continue
        per[k] += 1
        q = sh([exe] + (["--thorough"] if THOROUGH else []) + list(args) + ["--replay", cid], cwd=cwd, check=False, timeout=300)
        if "V\t" in q.stdout:
            rep.violation(k, "%s [%s]: %s -- %s" % (part, cid, case, msg), {"explorer": part, "case": cid, "description": case, "observed": msg,
                "how": "VERIF_TIER=%s python3 checks/%s.py --replay %s %s" % (TIER, rep.prop, part, cid)})
        else:
            bad = "violation %s did not reproduce on replay: %s %s" % (cid, case, msg); per[k] -= 1
    if bad and not any(per.values()): raise CheckError(bad)

def c_main(prop, parts, assumptions=(), keyfn=None, extra=()):
    """parts: list of (name, harness, defs[, rt, san]) or (name, function that builds the explorer in a directory)"""
    def go():
        rep = Report(prop); rep.assumptions = list(assumptions)
        with Scratch(prop) as d:
            rp = None
            if len(sys.argv) >= 4 and sys.argv[1] == "--replay": rp = (sys.argv[2], sys.argv[3])
            for pt in parts:
                name = pt[0]
                if rp and rp[0] != name: continue
                o = os.path.join(d, name); exe = pt[1](o) if callable(pt[1]) else build_c(o, *pt[1:], extra=extra)
                if rp:
                    p = sh([exe] + (["--thorough"] if THOROUGH else []) + ["--replay", rp[1]], cwd=o, check=False); print(p.stdout); return 1 if "V\t" in p.stdout else 0
                explore(rep, exe, name, o, keyfn=keyfn)
        return rep.finish()
    return main(go)

def main(go):
    try:
        return go()
    except CheckError as e:
        print("CHECK-ERROR: %s" % e); return 2
