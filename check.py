#!/usr/bin/env python3
"""Decide one property: build /repo's working tree and the harness, run the
generated-input search, write evidence, report.

usage: check.py Cxx [--tier quick|thorough] [--seed N] [--cases N] [--build-only]
       check.py --replay FILE
"""
import argparse, fcntl, hashlib, json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("WR_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
HARNESS = os.path.join(VERIF, "harness")
sys.path.insert(0, VERIF)

CXXFLAGS = ["-std=c++17", "-O1", "-g1", "-fno-omit-frame-pointer", "-w",
            "-fsanitize=address,undefined,float-cast-overflow", "-fsanitize-recover=undefined,float-cast-overflow",
            "-D_GLIBCXX_ASSERTIONS"]
LDFLAGS = ["-fsanitize=address,undefined"]
COVERAGE = ["-fsanitize-coverage=inline-8bit-counters"]
GUIDED = {"C04", "C05"}   # also in the quick tier
TSAN = {"C18"}
PYTHON = {"C22"}
WREP = {"C26"}
TSAN_CXXFLAGS = ["-std=c++17", "-O1", "-g1", "-fno-omit-frame-pointer", "-w", "-fsanitize=thread"]
COMMON = ["pbt.cc", "model.cc", "refbufr.cc", "fuzz.cc", "refcrex.cc"]


def tree_hash(roots, suffixes=None):
    h = hashlib.sha256()
    for root in roots:
        files = []
        if os.path.isfile(root):
            files = [root]
        else:
            for d, ds, fs in os.walk(root):
                ds[:] = sorted(x for x in ds if x not in ("_build", ".git", "__pycache__"))
                files += [os.path.join(d, f) for f in fs]
        for p in sorted(files):
            if suffixes and not p.endswith(suffixes):
                continue
            h.update(os.path.relpath(p, "/").encode() + b"\0")
            with open(p, "rb") as fd:
                h.update(fd.read())
            h.update(b"\0")
    return h.hexdigest()


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if p.returncode != 0:
        sys.stdout.write(p.stdout[-6000:])
        print(f"build command failed: {' '.join(cmd)}")
        sys.stdout.flush()
        os._exit(2)
    return p.stdout


def prune(prefix, keep):
    dirs = [os.path.join(BUILD, d) for d in os.listdir(BUILD) if d.startswith(prefix)]
    dirs.sort(key=os.path.getmtime, reverse=True)
    for d in dirs[keep:]:
        shutil.rmtree(d, ignore_errors=True)


def meson_build(name, flags, ldflags, targets, cc="clang"):
    """Build targets of /repo in a directory keyed by the content of the sources"""
    os.makedirs(BUILD, exist_ok=True)
    key = tree_hash([os.path.join(REPO, x) for x in ("meson.build", "wreport", "src", "python")] +
                    [os.path.join(REPO, "tables", "meson.build")], None)
    key = hashlib.sha256((key + repr((flags, ldflags, cc))).encode()).hexdigest()[:12]
    bdir = os.path.join(BUILD, f"{name}-{key}")
    with open(os.path.join(BUILD, f"{name}.lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        prune(name + "-", 3)
        stamp = os.path.join(bdir, ".configured")
        if not os.path.exists(stamp):
            shutil.rmtree(bdir, ignore_errors=True)
            env = dict(os.environ, CC=cc, CXX=cc + "++" if cc == "clang" else "g++")
            for k in ("CXXFLAGS", "CPPFLAGS", "LDFLAGS", "DESTDIR"):
                env.pop(k, None)
            run(["meson", "setup", bdir, REPO, "--buildtype=plain", "--wrap-mode=nodownload",
                 "-Ddefault_library=static", "-Dwerror=false",
                 "-Dcpp_args=" + repr(flags), "-Dcpp_link_args=" + repr(ldflags)], env=env)
            open(stamp, "w").close()
        os.utime(bdir)
        done = os.path.join(bdir, ".done-" + hashlib.sha256(repr(targets).encode()).hexdigest()[:8])
        if not os.path.exists(done):
            run(["ninja", "-C", bdir] + targets)
            open(done, "w").close()
    return bdir


def build_wrep(lib, flags):
    """Link the wrep program statically (shared libraries cannot have undefined sanitizer symbols)"""
    exe = os.path.join(lib, "src", "wrep-static")
    with open(os.path.join(BUILD, "wrep.lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not os.path.exists(exe):
            targets = run(["ninja", "-C", lib, "-t", "targets", "all"])
            objs = [l.split(":")[0] for l in targets.splitlines() if l.startswith("src/wrep.p/") and ".o:" in l]
            run(["ninja", "-C", lib] + objs)
            run(["clang++"] + flags + [os.path.join(lib, o) for o in objs] +
                [os.path.join(lib, "wreport", "libwreport.a")] + lua_flags()[1] + ["-lpthread", "-o", exe + ".tmp"])
            os.rename(exe + ".tmp", exe)
    os.environ["WREP_EXE"] = exe


def build_harness(prop):
    flags = CXXFLAGS
    if prop in TSAN:
        flags = TSAN_CXXFLAGS
        lib = meson_build("tsan", flags, ["-fsanitize=thread"], ["wreport/libwreport.a"])
    else:
        lib = meson_build("asan", flags + COVERAGE, LDFLAGS, ["wreport/libwreport.a"])
        if prop in WREP:
            build_wrep(lib, flags)
    hdir = os.path.join(lib, "h")
    os.makedirs(hdir, exist_ok=True)
    hdr = tree_hash([HARNESS], (".h",))
    src = [s for s in COMMON if os.path.exists(os.path.join(HARNESS, s))] + [f"{prop.lower()}.cc"]
    inc = ["-I" + REPO, "-I" + lib, "-I" + HARNESS]
    luaflags, lualibs = lua_flags()
    inc += luaflags
    with open(os.path.join(BUILD, "harness.lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        objs = []
        jobs = []
        paths = [(s, os.path.join(HARNESS, s)) for s in src]
        if prop in PYTHON:
            # The Python bindings, linked with an embedded interpreter
            inc = inc + subprocess.check_output(["python3-config", "--includes"], text=True).split()
            lualibs = lualibs + subprocess.check_output(["python3-config", "--embed", "--ldflags"], text=True).split()
            for d in ("python", "python/utils"):
                for f in sorted(os.listdir(os.path.join(REPO, d))):
                    if f.endswith(".cc"):
                        paths.append(("py_" + d.replace("/", "_") + "_" + f, os.path.join(REPO, d, f)))
        for s, path in paths:
            with open(path, "rb") as fd:
                k = hashlib.sha256(hdr.encode() + fd.read() + repr(flags + inc).encode()).hexdigest()[:16]
            obj = os.path.join(hdir, f"{s[:-3]}-{k}.o")
            objs.append(obj)
            if not os.path.exists(obj):
                for old in os.listdir(hdir):
                    if old.startswith(s[:-3] + "-") and old.endswith(".o"):
                        os.unlink(os.path.join(hdir, old))
                jobs.append(["clang++"] + flags + inc + [f'-DWR_REPO="{REPO}"', "-c", path, "-o", obj + ".tmp.o"])
        if jobs:
            with ThreadPoolExecutor(8) as ex:
                list(ex.map(run, jobs))
            for j in jobs:
                os.rename(j[-1], j[-1][:-6])
        exe = os.path.join(hdir, prop.lower() + ".exe")
        tag = hashlib.sha256(repr(objs).encode()).hexdigest()
        tagfile = exe + ".tag"
        if not os.path.exists(exe) or not os.path.exists(tagfile) or open(tagfile).read() != tag:
            run(["clang++"] + flags + objs + [os.path.join(lib, "wreport", "libwreport.a")] + lualibs +
                ["-lpthread", "-o", exe])
            with open(tagfile, "w") as fd:
                fd.write(tag)
    return exe


def lua_flags():
    for name in ("lua", "lua5.1", "lua5.2", "lua5.3"):
        c = subprocess.run(["pkg-config", "--cflags", name], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        if c.returncode == 0:
            l = subprocess.run(["pkg-config", "--libs", name], stdout=subprocess.PIPE, text=True)
            return c.stdout.split(), l.stdout.split()
    return [], []


def write_evidence(prop, tier, seed, coverage, wall, violations, assumptions):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=coverage,
              assumptions=assumptions, wall_s=round(wall, 2), violations=violations)
    tmp = os.path.join(VERIF, "evidence", f".{prop}.json")
    with open(tmp, "w") as fd:
        json.dump(ev, fd, indent=1)
        fd.write("\n")
    os.replace(tmp, os.path.join(VERIF, "evidence", f"{prop}.json"))


ASSUMPTIONS = [
    "sanitizer build (clang, ASan+UBSan) of the working tree behaves like the release build",
    "the reference models in /verif/harness encode the documented behaviour",
]


def known_findings(prop):
    res = []
    try:
        for line in open(os.path.join(VERIF, "known_findings.txt")):
            line = line.strip()
            if line.startswith(f"known: property={prop} "):
                res.append(line[len(f"known: property={prop} "):])
    except OSError:
        pass
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or "1"))
    ap.add_argument("--cases", type=int, default=0)
    ap.add_argument("--maxsec", type=float, default=0)
    ap.add_argument("--guided", action="store_true", help="every other case mutates one that reached new code")
    ap.add_argument("--build-only", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true", help="build everything the checks need")
    a = ap.parse_args()
    os.environ["WREPORT_TABLES"] = os.path.join(REPO, "tables")
    os.environ.pop("WREPORT_EXTRA_TABLES", None)
    os.environ["LC_ALL"] = "C.UTF-8"
    os.environ["TZ"] = "UTC"
    t0 = time.time()

    if a.setup:
        for f in sorted(os.listdir(HARNESS)):
            if f.startswith("c") and f.endswith(".cc") and f[1:3].isdigit():
                build_harness(f[:3].upper())
        print(f"built in {time.time() - t0:.1f}s")
        return 0

    if a.replay:
        prop = open(a.replay).readline().split()[1]
        if os.path.exists(os.path.join(HARNESS, f"{prop.lower()}.py")):
            mod = __import__(f"harness.{prop.lower()}", fromlist=["main"])
            sys.exit(mod.replay(sys.modules[__name__], a.replay))
        exe = build_harness(prop)
        sys.exit(subprocess.call([exe, "replay", a.replay]))

    prop = a.prop
    if os.path.exists(os.path.join(HARNESS, f"{prop.lower()}.py")):
        mod = __import__(f"harness.{prop.lower()}", fromlist=["main"])
        sys.exit(mod.main(sys.modules[__name__], a))

    exe = build_harness(prop)
    t_build = time.time() - t0
    print(f"built in {t_build:.1f}s", flush=True)
    if a.build_only:
        return 0
    replays = os.path.join(VERIF, "replays")
    os.makedirs(replays, exist_ok=True)
    out = os.path.join(BUILD, f"result-{prop}-{os.getpid()}.json")
    maxsec = a.maxsec or (150 if a.tier == "quick" else 1500)
    cmd = [exe, "run", "--prop", prop, "--seed", str(a.seed), "--out", out, "--replay-dir", replays,
           "--maxsec", str(maxsec), "--workers", str(min(8, os.cpu_count() or 8) if (os.cpu_count() or 8) >= 2 else 2)]
    if a.tier == "thorough":
        cmd.append("--thorough")
    if a.guided or a.tier == "thorough" or prop in GUIDED:
        cmd.append("--guided")
    if a.cases:
        cmd += ["--cases", str(a.cases)]
    # A failure that does not come back when its case runs again decides nothing,
    # and must not stop the search: go on with other cases
    earlier = 0
    for attempt in range(3):
        cmd[cmd.index("--seed") + 1] = str(a.seed + 7000003 * attempt)
        rc = subprocess.call(cmd)
        if not os.path.exists(out):
            print(f"harness failed with status {rc}")
            return 2
        with open(out) as fd:
            res = json.load(fd)
        os.unlink(out)
        if res["violations"] or not res.get("flaky") or time.time() - t0 > 3 * maxsec:
            break
        earlier += res["evaluations"]
    res["evaluations"] += earlier
    cov = {k: res[k] for k in ("evaluations", "distinct_nontrivial", "rule", "samples", "discarded", "cases_requested", "classes", "guided", "edges", "corpus") if k in res}
    for f in known_findings(prop):
        print(f"KNOWN-FINDING: property={prop} {f}")
    write_evidence(prop, a.tier, a.seed, cov, time.time() - t0, res["violations"], ASSUMPTIONS)
    if res["violations"]:
        print(res["message"])
        print(f"VIOLATION property={prop} replay={res['replay']}")
        return 1
    if rc != 0:
        return 2
    if not res["evaluations"]:
        print("no case was run")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
