#!/usr/bin/env python3
"""Development tool for planted bugs (never used by a check).
 seed.py new ID PROP       take /repo's working tree changes as seeded/ID/patch.diff and revert them
 seed.py verify ID...      build, test, demo with and without the patch
 seed.py check ID... [-p P]  run the property's check with the patch applied
"""
import json, os, subprocess, sys
S = "/verif/seeded"
def sh(cmd, **kw): return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
def clean(): assert sh("git -C /repo status --porcelain -uno").stdout == "", "/repo is dirty"
def revert(): sh("git -C /repo checkout -- .")
def build():
    r = sh("bash /opt/vp/build.sh"); assert r.returncode == 0, r.stdout[-3000:]
def tests():
    sh("bash /opt/vp/test.sh /tmp/seedout.json")
    got = set(json.load(open("/tmp/seedout.json"))["passed"])
    b = json.load(open("/opt/vp/BASELINE.json"))
    base = set(b.get("passed") or b.get("stable") or b.get("tests"))
    return sorted(base - got)
def demo(i):
    env = {k: v for k, v in os.environ.items() if not k.startswith("WREPORT")}
    t = "/tmp/seeddemo"; sh(f"rm -rf {t}; cp -r {S}/{i} {t}; rm -f {t}/patch.diff {t}/meta.json")
    return subprocess.run(["timeout", "300", "bash", t + "/demo.sh"], cwd="/repo", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=env)
def new(i, prop):
    d = f"{S}/{i}"; os.makedirs(d, exist_ok=True)
    diff = sh("git -C /repo diff").stdout; assert diff
    open(d + "/patch.diff", "w").write(diff); revert()
    print(diff)
def verify(ids):
    clean(); build()
    clean_rc = {i: demo(i) for i in ids}
    for i in ids:
        m = json.load(open(f"{S}/{i}/meta.json"))
        a = sh(f"git -C /repo apply {S}/{i}/patch.diff")
        if a.returncode: print(i, "DOES NOT APPLY", a.stdout); continue
        try:
            try: build()
            except AssertionError as e: print(i, "DOES NOT BUILD", e); continue
            miss = tests(); r = demo(i)
        finally: revert()
        ok = clean_rc[i].returncode == 0 and r.returncode != 0 and not miss
        print(i, m["property"], "OK" if ok else "BAD", "clean", clean_rc[i].returncode, "bug", r.returncode, "missing tests", miss[:5])
        if clean_rc[i].returncode: print("  clean:", clean_rc[i].stdout[-800:])
        if ok: print("  ", r.stdout.strip()[-200:])
    build()
def check(ids, prop=None):
    """In a copy, so that /repo stays as it is"""
    c = "/tmp/seedrepo"
    sh(f"rm -rf {c}; mkdir -p {c}; cd /repo && git archive HEAD | tar x -C {c}; cd {c} && git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm x")
    for i in ids:
        m = json.load(open(f"{S}/{i}/meta.json")); p = prop or m["property"]
        a = sh(f"git -C {c} apply {S}/{i}/patch.diff")
        if a.returncode: print(i, "DOES NOT APPLY", a.stdout); continue
        try: r = sh(f"cd /verif && WR_REPO={c} VERIF_SEED=1 VERIF_TIER=quick python3 check.py {p}")
        finally: sh(f"git -C {c} checkout -- .")
        caught = r.returncode == 1 and f"VIOLATION property={p} " in r.stdout
        print(i, p, "CAUGHT" if caught else f"MISSED rc={r.returncode}", [l[:300] for l in r.stdout.strip().splitlines()[-3:-1]], flush=True)
    sh(f"rm -rf {c}")
if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "new": new(a[1], a[2] if len(a) > 2 else None)
    else:
        prop = None
        if "-p" in a: k = a.index("-p"); prop = a[k+1]; del a[k:k+2]
        ids = a[1:] or sorted(os.listdir(S))
        (verify if a[0] == "verify" else lambda x: check(x, prop))(ids)
