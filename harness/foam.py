"""C21: every mesh of the bounded families is converted by scripts/convert2foam.py and the
resulting OpenFOAM mesh is checked against the text export it was made from."""
import sys, os, re, json, time, hashlib, subprocess, runpy, shutil
from multiprocessing import Pool
from collections import defaultdict

A = {}
for i in range(1, len(sys.argv) - 1, 2): A[sys.argv[i][2:]] = sys.argv[i + 1]
OUT = A["out"]; REPO = A["repo"]; SCRIPT = os.path.join(REPO, "scripts", "convert2foam.py")

def read_txt(path):
    sec = {}; L = open(path).read().split("\n"); i = 0
    while i < len(L):
        w = L[i].split()
        if len(w) == 2 and w[0].isupper() and w[0] != "MESH":
            n = int(w[1]); sec[w[0]] = [[float(x) for x in L[i + 1 + k].split(",")] for k in range(n)]; i += n
        i += 1
    return sec

def foam_list(path, cls):
    t = open(path).read()
    m = re.match(r"\s*FoamFile\s*\{(.*?)\}(.*)$", t, re.S)
    if not m: raise ValueError("no FoamFile header in " + os.path.basename(path))
    h = m.group(1)
    if not re.search(r"\bclass\s+%s\s*;" % cls, h): raise ValueError("class of %s is not %s" % (os.path.basename(path), cls))
    if not re.search(r"\bobject\s+%s\s*;" % os.path.basename(path), h): raise ValueError("object entry of " + os.path.basename(path))
    if not re.search(r"\bformat\s+ascii\s*;", h): raise ValueError("format entry of " + os.path.basename(path))
    m = re.match(r"\s*(\d+)\s*\((.*)\)\s*$", m.group(2), re.S)
    if not m: raise ValueError(os.path.basename(path) + " is not a list")
    return int(m.group(1)), m.group(2)

def check(txt, d, ext):
    S = read_txt(txt); V = S["VERTICES"]; nv = len(V)
    el = [[int(x) for x in q[:4]] for q in S["QUADS"]] + [[int(x) for x in t[:3]] for t in S["TRIANGLES"]]
    md = os.path.join(d, "constant", "polyMesh")
    n, b = foam_list(os.path.join(md, "points"), "vectorField")
    pts = [tuple(float(x) for x in p.split()) for p in re.findall(r"\(([^()]*)\)", b)]
    if n != len(pts) or n != 2 * nv: return "number of points is %d for %d vertices" % (len(pts), nv)
    def near(a, c): return abs(a - c) <= 5.1e-6 * abs(c) + 1e-12
    # every vertex exists at the bottom and at the top
    for i, p in enumerate(pts):
        v = V[i % nv]
        if not (near(p[0], v[0]) and near(p[1], v[1])): return "point %d is at a wrong position" % i
        if not near(p[2], ext if i >= nv else 0.0): return "point %d is at height %g" % (i, p[2])
    n, b = foam_list(os.path.join(md, "faces"), "faceList")
    F = []
    for k, q in re.findall(r"(\d+)\(([^()]*)\)", b):
        f = [int(x) for x in q.split()]
        if len(f) != int(k): return "face with wrong number of points"
        F.append(f)
    if n != len(F): return "number of faces is wrong"
    n, b = foam_list(os.path.join(md, "owner"), "labelList"); own = [int(x) for x in b.split()]
    if n != len(own) or n != len(F): return "number of owners is %d for %d faces" % (len(own), len(F))
    n, b = foam_list(os.path.join(md, "neighbour"), "labelList"); nb = [int(x) for x in b.split()]
    if n != len(nb): return "number of neighbours is wrong"
    ni = len(nb)
    for i in range(ni):
        if not own[i] < nb[i]: return "internal face %d has owner %d and neighbour %d" % (i, own[i], nb[i])
    for i in range(1, ni):
        if (own[i - 1], nb[i - 1]) >= (own[i], nb[i]): return "internal faces %d and %d are not in upper triangular order" % (i - 1, i)
    ne = len(el)
    if max(own) >= ne or min(own) < 0: return "owner out of range"
    # faces of every cell, seen from inside out
    cells = defaultdict(list)
    for i, f in enumerate(F):
        cells[own[i]].append(f)
        if i < ni: cells[nb[i]].append(f[::-1])
    if len(cells) != ne: return "number of cells is %d for %d elements" % (len(cells), ne)
    def nrm(f):
        s = [0, 0, 0]; m = len(f)
        for i in range(m):
            a, c = pts[f[i]], pts[f[(i + 1) % m]]
            s[0] += (a[1] - c[1]) * (a[2] + c[2]); s[1] += (a[2] - c[2]) * (a[0] + c[0]); s[2] += (a[0] - c[0]) * (a[1] + c[1])
        return [x / 2 for x in s]
    for c in range(ne):
        e = el[c]; m = len(e)
        if len(cells[c]) != m + 2: return "cell %d has %d faces" % (c, len(cells[c]))
        dirs = set()
        for f in cells[c]:
            for i in range(len(f)):
                k = (f[i], f[(i + 1) % len(f)])
                if k in dirs: return "faces of cell %d are not oriented consistently" % c
                dirs.add(k)
        if any((q, p) not in dirs for p, q in dirs): return "cell %d is not closed" % c
        have = set(frozenset(f) for f in cells[c])
        want = set([frozenset(e), frozenset(x + nv for x in e)] + [frozenset((e[i], e[(i + 1) % m], e[i] + nv, e[(i + 1) % m] + nv)) for i in range(m)])
        if have != want: return "cell %d is not the extruded element %d" % (c, c)
        if ext > 0:  # normals point outwards
            for f in cells[c]:
                s = set(f)
                if s == set(e) and nrm(f)[2] >= 0: return "bottom face of cell %d points inwards" % c
                if s == set(x + nv for x in e) and nrm(f)[2] <= 0: return "top face of cell %d points inwards" % c
    # patches
    n, b = foam_list(os.path.join(md, "boundary"), "polyBoundaryMesh")
    P = re.findall(r"(\S+)\s*\{([^}]*)\}", b)
    if n != len(P): return "number of patches is wrong"
    if len(set(p[0] for p in P)) != n: return "patch names are not unique"
    mark = {}
    for q in S["BOUNDARYEDGES"]: mark[frozenset((int(q[0]), int(q[1])))] = int(q[3])
    mk = sorted(set(mark.values())); nf = ni
    if n != len(mk) + 2: return "%d patches for %d markers" % (n, len(mk))
    for i, (name, body) in enumerate(P):
        if not re.search(r"\btype\s+patch\s*;", body): return "patch without type"
        k = int(re.search(r"nFaces\s+(\d+)", body).group(1)); s = int(re.search(r"startFace\s+(\d+)", body).group(1))
        if s != nf: return "patch %s starts at face %d instead of %d" % (name, s, nf)
        nf += k
        for f in F[s:s + k]:
            if i < len(mk):
                x = [v for v in f if v < nv]
                if len(x) != 2 or len(f) != 4: return "side patch %s holds a face that is not a side face" % name
                if mark.get(frozenset(x)) != mk[i]: return "patch %s holds a face with marker %s instead of %d" % (name, mark.get(frozenset(x)), mk[i])
            elif any((v < nv) != (i == len(mk)) for v in f): return "patch %s holds a wrong face" % name
    if nf != len(F): return "patches do not cover all boundary faces"
    return ""

EXT = [1.0, 0.25, 12.5]
def work(a):
    i, case, mode = a
    txt = os.path.join(OUT, "meshes", "%d.txt" % i)
    if not os.path.exists(txt): return (i, mode, None, 0)
    d = os.path.join(OUT, "foam%d" % os.getpid())
    argv = sys.argv
    try:
        ext = EXT[mode % 3]
        src = txt
        if mode == 3:   # comments in the file do not matter
            src = os.path.join(OUT, "c%d.txt" % os.getpid()); L = open(txt).read().split("\n")
            open(src, "w").write("\n".join(x + ("\n  # VERTICES 3" if x.split()[:1] and x.split()[0].isupper() else "") for x in L))
        sys.argv = [SCRIPT] + ([] if mode in (0, 3) else ["-e" if mode == 1 else "--extrusion", str(ext)]) + [src, d]
        runpy.run_path(SCRIPT, run_name="__main__")
        r = check(txt, d, ext)
        if mode == 2 and not r: # converting again into the same directory
            runpy.run_path(SCRIPT, run_name="__main__"); r = check(txt, d, ext)
    except SystemExit as e: r = "the converter exits with %s" % e.code
    except Exception as e: r = "%s: %s" % (type(e).__name__, e)
    finally: sys.argv = argv
    h = hashlib.sha256(open(txt, "rb").read()).hexdigest()[:12]
    shutil.rmtree(d, ignore_errors=True)
    return (i, mode, r, h)

def main():
    t0 = time.time()
    md = os.path.join(OUT, "meshes"); os.makedirs(md)
    args = [A["helper"], "--out", md, "--tier", A["tier"], "--jobs", "8"]
    modes = [0, 1, 2, 3]
    if "replay" in A:
        args += ["--replay", A["replay"]]
        m = re.search(r" mode=(\d)", open(A["replay"]).readline()); modes = [int(m.group(1))] if m else modes
    subprocess.run(args, check=True, stdout=subprocess.DEVNULL)
    idx = [l.rstrip("\n") for l in open(os.path.join(md, "index.txt"))]
    jobs = [(i, idx[i], m) for i in range(len(idx)) for m in (modes if "replay" in A or i % 5 == 0 else [i % 2])]
    viol = []; states = set(); n = 0; cells = 0
    with Pool(8) as p:
        for i, mode, r, h in p.imap_unordered(work, jobs, chunksize=8):
            if r is None: continue
            n += 1; states.add(h)
            if r: viol.append("%s mode=%d ||| %s" % (idx[i], mode, r))
    with open(os.path.join(OUT, "violations.txt"), "w") as f:
        for v in viol[:20]: f.write(v + "\n")
    with open(os.path.join(OUT, "samples.txt"), "w") as f:
        for l in idx[:: max(1, len(idx) // 6)]: f.write(l + "\n")
    json.dump({"states": len(states), "transitions": n, "cases": n, "evals": n, "nontrivial": n, "skipped": 0, "violations": len(viol), "refused": len(idx) - len(set(j[0] for j in jobs)),
               "histories": n, "wall_s": time.time() - t0}, open(os.path.join(OUT, "summary.json"), "w"))
main()
