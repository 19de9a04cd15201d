#!/usr/bin/env python3
"""Dispatcher: builds the harness of a property from /repo's working tree, runs
the bounded exhaustive exploration, re-executes every counterexample on its own
and writes the evidence file.

  check.py <ID> [quick|thorough]     run a check
  check.py --replay <file>           re-execute a stored counterexample
  check.py --setup                   verify that the tool chain is usable
"""
import sys, os, json, time, hashlib, subprocess, shutil, re

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("TQMESH_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
EVID = os.path.join(VERIF, "evidence")
REPL = os.path.join(VERIF, "replays")
HARN = os.path.join(VERIF, "harness")
sys.path.insert(0, VERIF)
from registry import CHECKS

def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        files = [p] if os.path.isfile(p) else sorted(
            os.path.join(d, f) for d, _, fs in os.walk(p) for f in fs)
        for f in files:
            if "/.git/" in f or f.endswith(".pyc"): continue
            h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()[:16]

def config_header():
    d = os.path.join(BUILD, "include"); os.makedirs(d, exist_ok=True)
    out = os.path.join(d, "TQMeshConfig.h")
    txt = open(os.path.join(REPO, "src", "TQMeshConfig.h.in")).read() if os.path.exists(os.path.join(REPO, "src", "TQMeshConfig.h.in")) else None
    if txt is None:
        for r, _, fs in os.walk(REPO):
            if "TQMeshConfig.h.in" in fs and "/_build" not in r:
                txt = open(os.path.join(r, "TQMeshConfig.h.in")).read(); break
    if txt is None:
        txt = "#pragma once\n#define TQMESH_VERSION_MAJOR 0\n#define TQMESH_VERSION_MINOR 0\n#define TQMESH_SOURCE_DIR \"@\"\n"
    txt = re.sub(r"@[A-Za-z0-9_]*SOURCE_DIR@|\$\{[A-Za-z0-9_]*SOURCE_DIR\}", REPO, txt)
    txt = re.sub(r"@[A-Za-z0-9_]*VERSION[A-Za-z0-9_]*@", "1", txt)
    txt = re.sub(r"@[A-Za-z0-9_]+@", "0", txt)
    txt = re.sub(r"#cmakedefine[^\n]*", "", txt)
    if not os.path.exists(out) or open(out).read() != txt:
        tmp = out + ".%d" % os.getpid()
        open(tmp, "w").write(txt); os.replace(tmp, out)
    return d

def inc_flags(inc):
    s = os.path.join(REPO, "src")
    return ["-I" + os.path.join(s, "utils"), "-I" + os.path.join(s, "algorithm"),
            "-I" + os.path.join(s, "app"), "-I" + os.path.join(s, "extern_libs"), "-I" + inc, "-I" + HARN]

SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-g1",
       "-fno-sanitize=vptr"]

def build(src, variant="opt", extra=()):
    os.makedirs(BUILD, exist_ok=True)
    inc = config_header()
    flags = ["-std=c++17", "-w", "-DNDEBUG"]
    flags += (["-O1"] + SAN) if variant == "asan" else ["-O1"]
    flags += list(extra)
    key = tree_hash([os.path.join(REPO, "src"), HARN]) + hashlib.sha256(" ".join(flags).encode()).hexdigest()[:6]
    exe = os.path.join(BUILD, "%s-%s-%s" % (os.path.splitext(src)[0], variant, key))
    if not os.path.exists(exe):
        for f in os.listdir(BUILD):
            if f.startswith("%s-%s-" % (os.path.splitext(src)[0], variant)):
                try: os.remove(os.path.join(BUILD, f))
                except OSError: pass
        tmp = exe + ".tmp%d" % os.getpid()
        p = subprocess.run(["g++"] + flags + inc_flags(inc) + [os.path.join(HARN, src), "-o", tmp, "-lpthread"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            print(p.stdout[-4000:]); print("BUILD FAILED"); sys.exit(2)
        os.replace(tmp, exe)
    return exe

def build_app(variant="opt"):
    """The command line application, from the current sources."""
    os.makedirs(BUILD, exist_ok=True)
    inc = config_header()
    adir = os.path.join(REPO, "src", "app")
    srcs = sorted(os.path.join(r, f) for r, _, fs in os.walk(adir) for f in fs if f.endswith(".cpp"))
    key = tree_hash([os.path.join(REPO, "src")])
    exe = os.path.join(BUILD, "tqapp-%s-%s" % (variant, key))
    if os.path.exists(exe): return exe
    for f in os.listdir(BUILD):
        if f.startswith("tqapp-%s-" % variant):
            try: os.remove(os.path.join(BUILD, f))
            except OSError: pass
    flags = ["-std=c++17", "-w", "-DNDEBUG", "-DTQMESH_USE_EXPRTK"]
    jobs = []
    for i, s in enumerate(srcs):
        obj = exe + ".tmp%d.%d.o" % (os.getpid(), i)
        heavy = "exprtk" in open(s, errors="replace").read()   # third party expression parser: only linked in
        fl = flags + (["-O0"] if heavy else (["-O1"] + SAN) if variant == "asan" else ["-O1"])
        jobs.append((obj, subprocess.Popen(["g++"] + fl + inc_flags(inc) + ["-c", s, "-o", obj], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    bad = ""
    for obj, p in jobs:
        o, _ = p.communicate()
        if p.returncode != 0: bad += o
    if not bad:
        p = subprocess.run(["g++"] + (SAN if variant == "asan" else []) + [j[0] for j in jobs] + ["-o", exe + ".tmp%d" % os.getpid()],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0: bad = p.stdout
    for obj, _ in jobs:
        if os.path.exists(obj): os.remove(obj)
    if bad: print(bad[-4000:]); print("BUILD FAILED"); sys.exit(2)
    os.replace(exe + ".tmp%d" % os.getpid(), exe)
    return exe

ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:handle_segv=1:allocator_may_return_null=1",
           UBSAN_OPTIONS="halt_on_error=1:abort_on_error=1", LC_ALL="C")

def run(exe, args, out, timeout):
    shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    with open(os.path.join(out, "log.txt"), "w") as lg:
        try:
            p = subprocess.run([exe] + args + ["--out", out], stdout=subprocess.DEVNULL, stderr=lg, env=ENV,
                               timeout=timeout, cwd=out)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = -99
    v = []
    vf = os.path.join(out, "violations.txt")
    if os.path.exists(vf):
        v = [l.rstrip("\n") for l in open(vf, errors="replace") if l.strip()]
    s = {}
    sf = os.path.join(out, "summary.json")
    if os.path.exists(sf):
        try: s = json.load(open(sf))
        except Exception: s = {}
    return rc, s, v

def known():
    k = []
    f = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"known: property=(\S+) key=\[(.*?)\] (.*)", l)
            if m: k.append(m.groups())
    return k

def main():
    if sys.argv[1:] == ["--setup"]:
        for t in ("g++", "python3"):
            if not shutil.which(t): print("missing", t); sys.exit(1)
        os.makedirs(BUILD, exist_ok=True); config_header()
        print("setup ok"); return 0
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        l = open(sys.argv[2]).read().split("\n")
        pid = l[1].split()[1]; step = int(l[2].split()[1])
        c = CHECKS[pid]["steps"]["quick"] + CHECKS[pid]["steps"]["thorough"]
        st = c[step]
        rc, s, v = exec_step(pid, st, "quick", os.path.join(BUILD, "replay-%d" % os.getpid()), replay=sys.argv[2])
        for x in v: print("reproduced:", x.split(" ||| ")[-1])
        return 1 if v else 0
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    c = CHECKS[pid]
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True); os.makedirs(REPL, exist_ok=True)
    tot = {}; viols = []; samples = []; skipped = 0; steps_done = []
    base = len(CHECKS[pid]["steps"]["quick"]) if tier == "thorough" else 0
    for i, st in enumerate(c["steps"][tier]):
        out = os.path.join(BUILD, "run-%s-%d-%d" % (pid, i, os.getpid()))
        rc, s, v = exec_step(pid, st, tier, out)
        log = ""
        lf = os.path.join(out, "log.txt")
        if os.path.exists(lf): log = open(lf, errors="replace").read()[-1500:]
        if os.path.exists(os.path.join(out, "samples.txt")):
            samples += [x for x in open(os.path.join(out, "samples.txt"), errors="replace").read().split("\n") if x][:4]
        if not s and not v:
            print(log); print("harness produced no result (rc %s)" % rc); sys.exit(2)
        for k, x in s.items():
            if isinstance(x, (int, float)) and k != "wall_s": tot[k] = tot.get(k, 0) + x
        viols += [(base + i, st, x) for x in v]
        steps_done.append({"step": st.get("src") or st.get("py"), "variant": st.get("variant", "opt"), **{k: s[k] for k in s if not isinstance(s[k], str)}})
        shutil.rmtree(out, ignore_errors=True)
        if v: break
    # confirm counterexamples: every one is executed again on its own
    final = []; kn = known(); hit = set()
    for step, st, x in viols[:12]:
        parts = x.split(" ||| ")
        msg = parts[-1]
        k = next((q for q in kn if q[0] == pid and q[1] and q[1] in x), None)
        if k:
            if k not in hit: print("KNOWN-FINDING: property=%s %s" % (pid, k[2])); hit.add(k)
            continue
        name = "%s-%s.txt" % (pid, hashlib.sha256(x.encode()).hexdigest()[:10])
        path = os.path.join(REPL, name)
        open(path, "w").write(x + "\nproperty: %s\nstep: %d\n" % (pid, step))
        if st.get("replay", True):
            rep = False
            for _ in range(2):
                rc, s, v = exec_step(pid, st, tier, os.path.join(BUILD, "replay-%d" % os.getpid()), replay=path)
                if v: rep = True; break
            shutil.rmtree(os.path.join(BUILD, "replay-%d" % os.getpid()), ignore_errors=True)
            timing = "does not terminate" in msg
            if not rep and timing:
                print("note: time limit not reproduced, ignored:", x[:300]); os.remove(path); continue
            if not rep: msg += " (not reproduced when executed on its own)"
        final.append((path, msg))
        if len(final) >= 3: break
    lev = c["level"]
    cov = {"states": int(tot.get("states", 0)), "transitions": int(tot.get("transitions", 0)),
           "traces_validated_against_impl": int(tot.get("histories", tot.get("cases", 0))),
           "samples": samples[:8] or ["none"],
           "evaluations": int(tot.get("evals", 0)), "distinct_nontrivial": int(tot.get("nontrivial", 0)),
           "rule": c["rule"], "cases": int(tot.get("cases", 0)), "refused": int(tot.get("refused", 0)),
           "skipped_by_time_budget": int(tot.get("skipped", 0)),
           "exhaustive": int(tot.get("skipped", 0)) == 0 and not viols, "steps": steps_done}
    ev = {"property": pid, "tier": tier, "seed": seed, "level": lev, "coverage": cov,
          "assumptions": c["assumptions"], "wall_s": round(time.time() - t0, 2), "violations": len(final)}
    json.dump(ev, open(os.path.join(EVID, pid + ".json"), "w"), indent=1)
    for path, msg in final:
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("   " + msg[:600])
    if not final:
        print("%s %s: held on %d histories, %d transitions, %d states (%.1f s)" % (
            pid, tier, cov["traces_validated_against_impl"], cov["transitions"], cov["states"], time.time() - t0))
    return 1 if final else 0

def exec_step(pid, st, tier, out, replay=None):
    args = ["--prop", st.get("prop", pid), "--tier", st.get("tier", tier), "--jobs", "8"]
    for k, v in st.get("args", {}).items(): args += ["--" + k, str(v)]
    if replay: args += ["--replay", replay]
    if "budget" in st: args += ["--budget", str(st["budget"])]
    to = st.get("timeout", 780 if tier == "quick" else 20000)
    if "py" in st:
        py = sys.executable
        if st.get("vt"): py = shutil.which("python3-vt") or "/opt/veriftools/pyvenv/bin/python"
        if st.get("app"): args += ["--app", build_app(st["app"])]
        if st.get("helper"): args += ["--helper", build(st["helper"])]
        args = [os.path.join(HARN, st["py"])] + args + ["--repo", REPO]
        return run(py, args, out, to)
    if st.get("app"): args += ["--app", build_app(st["app"])]
    exe = build(st["src"], st.get("variant", "opt"), st.get("flags", ()))
    return run(exe, args, out, to)

if __name__ == "__main__":
    sys.exit(main())
