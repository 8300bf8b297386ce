#!/usr/bin/env python3
"""Development tool: mutation testing of the checks, in a scratch copy (never used by a check).
 mutate.py SEED COUNT [file-regexp]   results are appended to /tmp/mut/log
"""
import json, os, random, re, subprocess, sys, time
M = os.environ.get("MUT", "/tmp/mut")
R = M + "/repo"
os.environ["WR_REPO"] = R
os.environ["WREPORT_TABLES"] = R + "/tables"
os.environ["WREPORT_TESTDATA"] = R + "/testdata"
os.environ["LC_ALL"] = "C.UTF-8"; os.environ["TZ"] = "UTC"
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check
check.BUILD = M + "/build"; check.REPO = R
os.makedirs(check.BUILD, exist_ok=True)
WORKERS = int(os.environ.get("MUT_WORKERS", "8"))

MAP = [
 (r"bufr/input|bufr/decoder|buffers/bufr", "C02 C01 C19 C04 C23 C21 C20"),
 (r"bufr_encoder|associated_fields|bulletin/internals", "C02 C01 C19 C20 C21 C04"),
 (r"bitmaps", "C19 C02 C20 C04 C25"),
 (r"interpreter", "C02 C01 C19 C20 C04 C23 C26 C03 C05"),
 (r"dds-validator", "C20"), (r"dds-printer|scanfeatures", "C23 C26 C04"),
 (r"crex", "C03 C05 C20 C23 C16"),
 (r"/bulletin.cc", "C15 C16 C23 C26 C01 C03 C20 C22"),
 (r"var-lua|utils/lua", "C24"),
 (r"/var.cc", "C06 C07 C08 C16 C22 C25 C02"),
 (r"varinfo.cc", "C11 C17 C08 C06 C12 C02 C03"),
 (r"/vartable", "C12 C04 C02 C20 C05"), (r"dtable", "C13 C04"), (r"tableinfo|tabledir", "C14 C26"),
 (r"/tables.cc", "C02 C01 C25 C03 C04 C20"), (r"conv.cc", "C09 C10 C06"),
 (r"subset", "C25 C02 C20 C19 C16"), (r"options.cc|notes", "C06 C18"), (r"error.cc", "C29 C22"), (r"src/", "C26"),
 (r"utils/string", "C28 C30"), (r"utils/subprocess", "C31"), (r"utils/sys", "C30"), (r"python/", "C22"),
]
def props(path):
    for rx, p in MAP:
        if re.search(rx, "/" + path): return p.split()
    return []

def files():
    res = []
    for d in ("wreport", "wreport/bufr", "wreport/buffers", "wreport/bulletin", "wreport/internals", "wreport/utils", "src", "python"):
        for f in sorted(os.listdir(os.path.join(R, d))):
            if f.endswith(".cc") and "test" not in f and "bench" not in f and f not in ("examples.cc", "makebuoy.cc", "info.cc", "iterate.cc", "term.cc", "testrunner.cc"):
                res.append(d + "/" + f)
    return res

def mutations(line):
    s = line.rstrip("\n")
    t = s.strip()
    if not t or t.startswith(("//", "*", "/*", "#", "TRACE", "throw", "namespace", "using", "template", "class", "struct", "error_", "fprintf", "static const char")): return
    if "throwf(" in t: return
    code = re.sub(r'"(?:[^"\\]|\\.)*"', lambda m: "\0" * len(m.group(0)), s)
    code = re.sub(r"//.*", lambda m: "\0" * len(m.group(0)), code)
    def rep(rx, new):
        for m in re.finditer(rx, code):
            n = new(m) if callable(new) else new
            if n is not None: yield s[:m.start()] + n + s[m.end():]
    for a, b in ((" < ", " <= "), (" <= ", " < "), (" > ", " >= "), (" >= ", " > "), (" == ", " != "), (" != ", " == "), (" && ", " || "), (" || ", " && "),
                 (" + ", " - "), (" - ", " + "), (" += ", " -= "), (" -= ", " += "), (" & ", " | "), (" | ", " & "), (" / ", " * "), (" * ", " / "), ("++", "--")):
        yield from rep(re.escape(a), b)
    if " << " in code and not re.search(r"(cout|cerr|out|log\(\)|ss|str) <<", code): yield from rep(" << ", " >> ")
    yield from rep(r"\btrue\b", "false"); yield from rep(r"\bfalse\b", "true")
    yield from rep(r"(?<![\w.])\d+(?![\w.])", lambda m: str(int(m.group(0)) + 1) if len(m.group(0)) < 10 else None)
    yield from rep(r"(?<![\w.])\d+(?![\w.])", lambda m: str(int(m.group(0)) - 1) if 0 < len(m.group(0)) < 10 and int(m.group(0)) > 0 else None)
    m = re.match(r"^(\s*)((?:else )?if) \((.*)\)(\s*\{?\s*|.*;)$", s)
    if m and code.count("(") == code.count(")") and "if (" in s and not m.group(4).strip().endswith(";"): yield f"{m.group(1)}{m.group(2)} (!({m.group(3)})){m.group(4)}"
    if m and not m.group(4).strip().endswith(";"): yield f"{m.group(1)}{m.group(2)} (false){m.group(4)}"
    if re.match(r"^\s*(?:[\w.>\[\]*-]+\s*[-+|&]?=\s[^=].*|[\w.>:-]+\(.*\)|\+\+[\w.>-]+|--[\w.>-]+|[\w.>-]+\+\+|break|continue|delete.*|return);\s*$", s): yield re.match(r"^\s*", s).group(0) + ";"

def tests():
    p = subprocess.run([R + "/runtest", M + "/rel/wreport/test-wreport"], env=dict(os.environ, TEST_VERBOSE="1"), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace", timeout=120)
    return {m.group(1) for m in re.finditer(r"^(\w+\..+?): ✔ ", p.stderr, re.M)}
def pytests():
    p = subprocess.run(["python3", "-m", "unittest", "discover", "--verbose", "-s", R + "/python"], env=dict(os.environ, PYTHONPATH=f"{R}/python:{M}/rel/python"), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace", timeout=120, cwd="/tmp")
    return {l.split()[0] for l in p.stderr.splitlines() if l.endswith("... ok")}

def setup():
    if not os.path.exists(M + "/rel/build.ninja"):
        env = dict(os.environ, CC="gcc", CXX="g++")
        subprocess.check_call(["meson", "setup", M + "/rel", R, "--buildtype=plain", "--wrap-mode=nodownload", "-Dwerror=false", "-Dcpp_args=['-O1','-w']"], env=env, stdout=subprocess.DEVNULL)
    if not os.path.exists(M + "/asan/build.ninja"):
        env = dict(os.environ, CC="clang", CXX="clang++")
        subprocess.check_call(["meson", "setup", M + "/asan", R, "--buildtype=plain", "--wrap-mode=nodownload", "-Ddefault_library=static", "-Dwerror=false",
            "-Dcpp_args=" + repr(check.CXXFLAGS), "-Dcpp_link_args=" + repr(check.LDFLAGS)], env=env, stdout=subprocess.DEVNULL)
    check.meson_build = lambda *a, **k: M + "/asan"
def ninja(d, targets, timeout=600):
    p = subprocess.run(["ninja", "-C", d] + targets, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
    return p.returncode == 0

CASES = {}
def run_prop(p):
    hdir = M + "/asan/h"
    for f in (f"{hdir}/{p.lower()}.exe.tag", M + "/asan/src/wrep-static"):
        if os.path.exists(f): os.unlink(f)
    exe = check.build_harness(p)
    out = f"{M}/result-{p}.json"
    if os.path.exists(out): os.unlink(out)
    os.makedirs(M + "/replays", exist_ok=True)
    cmd = [exe, "run", "--prop", p, "--seed", "1", "--out", out, "--replay-dir", M + "/replays", "--maxsec", os.environ.get("MUT_MAXSEC", "25"), "--workers", str(WORKERS)]
    subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=400)
    if not os.path.exists(out): return "?"
    return json.load(open(out))["violations"] > 0

def main():
    seed, count = int(sys.argv[1]), int(sys.argv[2])
    rx = sys.argv[3] if len(sys.argv) > 3 else "wreport/|src/"
    setup()
    assert ninja(M + "/rel", []), "build"
    base, pybase = tests(), pytests()
    print(len(base), len(pybase), "tests", flush=True)
    ninja(M + "/asan", ["wreport/libwreport.a"])
    pool = []
    for f in files():
        if not re.search(rx, f) or not props(f): continue
        lines = open(R + "/" + f).read().split("\n")
        for i, l in enumerate(lines):
            ms = [n for n in mutations(l) if n != l]
            # At most two for each line
            random.Random(f"{seed}{f}{i}").shuffle(ms)
            for n in ms[:2]: pool.append((f, i, n))
    random.Random(seed).shuffle(pool)
    print(len(pool), "mutations", flush=True)
    log = open(M + "/log", "a")
    done = stats = 0
    for f, i, n in pool:
        if done >= count: break
        path = R + "/" + f
        orig = open(path).read()
        lines = orig.split("\n"); old = lines[i]; lines[i] = n
        desc = f"{f}:{i+1}\n   - {old.strip()}\n   + {n.strip()}"
        try:
            open(path, "w").write("\n".join(lines))
            try:
                if not ninja(M + "/rel", []): continue
                if base - tests() or pybase - pytests(): print("killed by tests", f, i + 1, flush=True); continue
            except subprocess.TimeoutExpired: continue
            done += 1
            if not ninja(M + "/asan", ["wreport/libwreport.a"]): continue
            t0 = time.time(); caught = None
            for p in props(f):
                try: r = run_prop(p)
                except subprocess.TimeoutExpired: r = "timeout"
                if r: caught = f"{p}{'' if r is True else r}"; break
            msg = f"{'CAUGHT ' + caught if caught else 'SURVIVED'} {desc} ({time.time()-t0:.0f}s)"
            print(msg, flush=True); log.write(msg + "\n"); log.flush()
        finally:
            open(path, "w").write(orig)
if __name__ == "__main__": main()
