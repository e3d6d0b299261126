#!/usr/bin/env python3
"""Build the harness from /repo's working tree and decide one property.

  check.py P01 quick|thorough          run the check (VERIF_SEED, default 1)
  check.py P01 --replay FILE           re-run a recorded failing case
  check.py --build-only P01 ...        just build
"""
import glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
os.environ["VH_REPO"] = REPO  # for the harnesses
SRC = os.path.join(REPO, "source")
BUILD = os.path.join(V, "build")
NPROC = os.cpu_count() or 8

sys.path.insert(0, V)
from checks import CHECKS  # noqa: E402


def sh256(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()


def read(p):
    with open(p, "rb") as f:
        return f.read()


def repo_sources():
    cpp, hdr = [], []
    for d, dirs, files in os.walk(SRC):
        dirs[:] = sorted(x for x in dirs if x not in ("Eigen",))
        for f in sorted(files):
            p = os.path.join(d, f)
            if f.endswith((".cpp", ".cc", ".c")):
                cpp.append(p)
            elif f.endswith((".h", ".hpp", ".in", ".inl")):
                hdr.append(p)
    return cpp, hdr


VARIANTS = {
    # name: (compiler, compile flags, link flags)
    "plain": ("g++", ["-O1", "-g0"], []),
    "asan": ("clang++", ["-O1", "-g1", "-fno-omit-frame-pointer",
                         "-fsanitize=address,undefined",
                         "-fno-sanitize=vptr,function,enum",
                         "-fno-sanitize-recover=all", "-DVH_ASAN"],
             ["-fsanitize=address,undefined"]),
    "fuzz": ("clang++", ["-O1", "-g1", "-fno-omit-frame-pointer",
                         "-fsanitize=address,undefined,fuzzer-no-link",
                         "-fno-sanitize=vptr,function,enum",
                         "-fno-sanitize-recover=all", "-DVH_ASAN"],
             ["-fsanitize=address,undefined,fuzzer"]),
}


def python_dev():
    """Headers and library of the installed Python."""
    for d in sorted(glob.glob("/usr/include/python3.*"), reverse=True):
        lib = os.path.basename(d)
        if os.path.exists(os.path.join(d, "Python.h")) and \
                glob.glob("/usr/lib/*/lib%s.so" % lib):
            return d, lib
    sys.exit("there is no Python to embed")


def build(prop, variant, fresh=False):
    """Compile /repo/source and the harness of one property; returns the binary.
    With fresh nothing is taken from the object cache."""
    cxx, cflags, lflags = VARIANTS[variant]
    BUILD = os.path.join(globals()["BUILD"], "fresh") if fresh else globals()["BUILD"]
    if fresh:
        shutil.rmtree(BUILD, ignore_errors=True)
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    inc = os.path.join(BUILD, "inc")
    os.makedirs(inc, exist_ok=True)
    cm = read(os.path.join(REPO, "CMakeLists.txt")).decode(errors="replace")

    def ver(n, d):
        m = re.search(r"set\(MOORDYN_%s_VERSION\s+(\d+)\)" % n, cm)
        return m.group(1) if m else d
    ma, mi, pa = ver("MAJOR", "2"), ver("MINOR", "3"), ver("PATCH", "7")
    cfg = ("#ifndef VH_CONFIG_H\n#define VH_CONFIG_H\n"
           "#define MOORDYN_VERSION_STRING \"%s.%s\"\n#endif\n" % (ma, mi))
    cfgp = os.path.join(inc, "Config.h")
    if not os.path.exists(cfgp) or read(cfgp).decode() != cfg:
        with open(cfgp, "w") as f:
            f.write(cfg)
    # as in the default configuration (RelWithDebInfo)
    defs = ["-DNDEBUG", "-DMoorDyn_EXPORTS", "-DMOORDYN_MAJOR_VERSION=" + ma,
            "-DMOORDYN_MINOR_VERSION=" + mi, "-DMOORDYN_PATCH_VERSION=" + pa]
    cpp, hdr = repo_sources()
    hh = sh256(*[read(p) for p in hdr], cfg)
    base = [cxx, "-std=c++17", "-w", "-fPIC"] + cflags + defs + \
        ["-I" + inc, "-I" + SRC, "-I" + os.path.join(V, "src")]
    jobs = []
    big = ("Rod.cpp", "Time.cpp", "MoorDyn2.cpp", "WaveGrid.cpp", "Body.cpp", "Line.cpp")
    for p in sorted(cpp, key=lambda q: (big.index(os.path.basename(q))
                                        if os.path.basename(q) in big else 99, q)):
        lang = [] if not p.endswith(".c") else ["-x", "c++"]
        key = sh256(hh, read(p), " ".join(base), os.path.relpath(p, SRC))[:32]
        jobs.append((p, os.path.join(BUILD, "obj", key + ".o"), base + lang))
    hsrc = [os.path.join(V, "src", f) for f in ("engine.cpp", "model.cpp")]
    hhdr = [os.path.join(V, "src", f) for f in sorted(os.listdir(os.path.join(V, "src")))
            if f.endswith(".hpp")]
    hsrc.append(os.path.join(V, "src", "props", prop + ".cpp"))
    h2 = sh256(hh, *[read(p) for p in hhdr])
    libs = []
    if CHECKS[prop].get("python"):
        d, lib = python_dev()
        base = base + ["-I" + d]
        libs = ["-l" + lib]
    hsrc += [os.path.join(REPO, p) for p in CHECKS[prop].get("extra", [])]
    for p in hsrc:
        key = sh256(h2, read(p), " ".join(base))[:32]
        jobs.append((p, os.path.join(BUILD, "obj", key + ".o"), base))

    def one(j):
        src, obj, cmd = j
        if os.path.exists(obj):
            return None
        tmp = obj + ".%d.tmp.o" % os.getpid()
        r = subprocess.run(cmd + ["-c", src, "-o", tmp], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            return "%s:\n%s" % (src, r.stdout[-4000:])
        os.replace(tmp, obj)
        return None
    with ThreadPoolExecutor(NPROC) as ex:
        errs = [e for e in ex.map(one, jobs) if e]
    if errs:
        sys.stderr.write("BUILD FAILED\n" + "\n".join(errs) + "\n")
        sys.exit(2)
    objs = [j[1] for j in jobs]
    out = os.path.join(BUILD, "%s.%s.%s" % (prop, variant, sh256(*objs)[:12]))
    if not os.path.exists(out):
        for f in os.listdir(BUILD):
            if f.startswith("%s.%s." % (prop, variant)):
                os.unlink(os.path.join(BUILD, f))
        tmp = out + ".tmp%d" % os.getpid()
        r = subprocess.run([cxx] + lflags + objs + ["-o", tmp, "-lpthread"] + libs,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            sys.stderr.write("LINK FAILED\n" + r.stdout[-4000:] + "\n")
            sys.exit(2)
        os.replace(tmp, out)
    if not fresh:
        prune()
    return out


def prune(limit=3 << 30):
    """Keep the object cache small."""
    d = os.path.join(BUILD, "obj")
    fs = []
    for f in os.listdir(d):
        p = os.path.join(d, f)
        try:
            s = os.stat(p)
        except OSError:
            continue
        fs.append((s.st_atime, s.st_size, p))
    tot = sum(f[1] for f in fs)
    for a, s, p in sorted(fs):
        if tot < limit:
            break
        try:
            os.unlink(p)
        except OSError:
            pass
        tot -= s


def known_findings(prop):
    out = []
    p = os.path.join(V, "known_findings.jsonl")
    if os.path.exists(p):
        for l in read(p).decode().splitlines():
            l = l.strip()
            if not l or l.startswith("#"):
                continue
            j = json.loads(l)
            if j.get("property") == prop and j.get("status") == "known":
                out.append(j)
    return out


def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        # everything is built on demand; make sure that it can be
        build("P05", "plain")
        return 0
    if a and a[0] == "--build-only":
        for p in a[1:]:
            for v in sorted({s["variant"] for s in CHECKS[p]["stages"]}):
                print(build(p, v))
        return 0
    prop = a[0]
    spec = CHECKS[prop]
    if len(a) > 2 and a[1] == "--replay":
        f = os.path.abspath(a[2])
        j = json.loads(read(f))
        b = build(prop, j.get("variant", spec["stages"][0]["variant"]))
        scr = tempfile.mkdtemp(prefix="vh_replay_")
        try:
            r = subprocess.run([b, "--replay", f, "--scratch", scr] + a[3:])
        finally:
            shutil.rmtree(scr, ignore_errors=True)
        return r.returncode
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    known = known_findings(prop)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {}, "wall_s": 0}
    tot = {"cases": 0, "ok": 0, "discarded": 0, "nontrivial": 0, "evals": 0}
    hashes, tags, discards, metrics, samples, khits = set(), {}, {}, {}, [], {}
    rule = ""
    violations = []
    tbuild = 0.0
    queue = [(st, False) for st in spec["stages"]
             if not (tier == "quick" and st.get("thorough_only"))]
    while queue:
        st, fresh = queue.pop(0)
        tb = time.time()
        binp = build(prop, st["variant"], fresh)
        tbuild += time.time() - tb
        ncases = int(os.environ.get("VERIF_CASES", "0")) or \
            st["thorough" if tier == "thorough" else "quick"]
        budget = st.get("thorough_budget", 3000) if tier == "thorough" else \
            st.get("quick_budget", 300)
        nw = st.get("workers", NPROC)
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        scr = tempfile.mkdtemp(prefix="vh_%s_" % prop, dir=base)
        try:
            procs = []
            for w in range(nw):
                o = os.path.join(scr, "out%d.json" % w)
                cmd = [binp, "--seed", str(seed), "--worker", str(w), "--cases",
                       str(ncases // nw), "--budget", str(budget), "--out", o,
                       "--scratch", os.path.join(scr, "w%d" % w)]
                if known:
                    cmd += ["--known", ",".join(k["sig"] for k in known)]
                if tier == "thorough":
                    cmd.append("--thorough")
                procs.append((subprocess.Popen(cmd, stdin=subprocess.DEVNULL), o))
            for p, o in procs:
                p.wait()
            for p, o in procs:
                if not os.path.exists(o):
                    sys.stderr.write("worker failed without a report\n")
                    sys.exit(2)
                j = json.loads(read(o).decode("utf-8", "replace"))
                for k in tot:
                    tot[k] += j[k]
                hashes.update(j["hashes"])
                for dst, k in ((tags, "tags"), (discards, "discards"), (khits, "known")):
                    for n, c in j[k].items():
                        dst[n] = dst.get(n, 0) + c
                for n, c in j["metrics"].items():
                    if isinstance(c, (int, float)):
                        metrics[n] = max(metrics.get(n, 0), c)
                if len(samples) < 6:
                    samples += j["samples"][:1]
                rule = j["rule"]
                if "failure" in j:
                    violations.append((st["variant"], binp, j["failure"]))
            # confirm: each failure has to reproduce on three replays, and with a
            # binary which was built from scratch
            confirmed, newbin, stale = [], None, False
            os.makedirs(os.path.join(V, "replays"), exist_ok=True)
            for variant, b, f in violations:
                for kind in ("choices", "first_choices"):
                    name = "%s-%s.json" % (prop, sh256(json.dumps(f[kind]))[:10])
                    path = os.path.join(V, "replays", name)
                    with open(path, "w") as fp:
                        json.dump({"property": prop, "variant": variant, "seed": seed,
                                   "sig": f["sig"], "msg": f["msg"], "choices": f[kind],
                                   "render": f["render"]}, fp, indent=1)
                    n = sum(subprocess.run([b, "--replay", path, "--scratch",
                                            os.path.join(scr, "rp")],
                                           stdout=subprocess.DEVNULL,
                                           stderr=subprocess.DEVNULL).returncode == 1
                            for _ in range(3))
                    if n == 3 and not fresh and newbin is None:
                        tb = time.time()
                        newbin = build(prop, st["variant"], True)
                        tbuild += time.time() - tb
                    if n == 3 and subprocess.run(
                            [newbin or b, "--replay", path, "--scratch",
                             os.path.join(scr, "rp")], stdout=subprocess.DEVNULL,
                            stderr=subprocess.DEVNULL).returncode != 1:
                        n, stale = 0, True
                    if n == 3:
                        confirmed.append((path, f))
                        break
                    os.unlink(path)
                else:
                    discards["failure that did not replay: " + f["sig"]] = \
                        discards.get("failure that did not replay: " + f["sig"], 0) + 1
        finally:
            shutil.rmtree(scr, ignore_errors=True)
        violations = confirmed
        if violations:
            break
        if stale:  # the binary was not what the sources say: search again
            discards["the binary was rebuilt"] = discards.get("the binary was rebuilt", 0) + 1
            queue.insert(0, (st, True))
    ev["coverage"] = {
        "evaluations": tot["evals"],
        "distinct_nontrivial": len(hashes),
        "rule": rule,
        "samples": samples[:6] or ["(none)"],
        "cases": tot["cases"], "passed": tot["ok"], "discarded": tot["discarded"],
        "discard_reasons": discards, "classes": tags, "largest_deviations": metrics,
        "known_finding_hits": khits,
    }
    ev["wall_s"] = round(time.time() - t0, 2)
    ev["build_s"] = round(tbuild, 2)
    ev["violations"] = len(violations)
    ev["assumptions"] = spec.get("assumptions", [])
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    print("%s %s seed=%d: %d cases, %d passed, %d discarded, %d distinct non-trivial, "
          "%d oracle evaluations, build %.1fs, total %.1fs"
          % (prop, tier, seed, tot["cases"], tot["ok"], tot["discarded"], len(hashes),
             tot["evals"], tbuild, ev["wall_s"]))
    if violations:
        seen = set()
        for path, f in violations:
            if f["sig"] in seen:
                continue
            seen.add(f["sig"])
            print("  [%s] %s" % (f["sig"], f["msg"][:1500]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if tot["ok"] == 0 or len(hashes) == 0:
        sys.stderr.write("no non-trivial case was explored\n")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
