#!/usr/bin/env python3
"""Try out a planted bug of seeded/<id>/ in a scratch copy of /repo.

plant.py ID             confirm (applies, builds, existing tests pass, demo
                        passes clean and fails patched), then run the check of
                        its property against the patched copy
plant.py ID --confirm   only confirm
plant.py ID --check [-s SEED] [-t TIER] [PROP...]   only run checks
plant.py --all [...]    every bug, in parallel
"""
import sys, os, json, subprocess, shutil, tempfile, concurrent.futures as cf

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, HOME="/root", PATH="/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
           GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off")
RACE = {"C13", "C19", "C25"}

def sh(cmd, cwd, env=ENV, timeout=900):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode("utf8", "replace")
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode("utf8", "replace") + "TIMEOUT"

def tests(repo):
    rc, out = sh(["go", "test", "-json", "-count=1", "./..."], repo, dict(ENV, GODEBUG="randautoseed=0"))
    res = {}
    for l in out.splitlines():
        try:
            j = json.loads(l)
        except ValueError:
            continue
        if j.get("Test") and j["Action"] in ("pass", "fail"):
            res[j["Package"] + "::" + j["Test"]] = j["Action"]
    return res

def original_lines_only(d):
    """lines removed by the patch must not be lines our own commits added"""
    bad = []
    cur = None
    old = 0
    base = "d7d80e5"
    for l in open(os.path.join(d, "patch.diff")).read().splitlines():
        if l.startswith("--- a/"):
            cur = l[6:]
            _, bl = sh(["git", "blame", "-s", "-l", "HEAD", "--", cur], "/repo")
            ours = set()
            _, revs = sh("git rev-list %s..HEAD" % base, "/repo")
            revs = set(revs.split())
            for n, b in enumerate(bl.splitlines(), 1):
                if b.split()[0].lstrip("^") in revs:
                    ours.add(n)
        elif l.startswith("@@"):
            old = int(l.split()[1][1:].split(",")[0])
        elif l.startswith("+++") or l.startswith("diff ") or l.startswith("index "):
            pass
        elif l.startswith("-"):
            if old in ours:
                bad.append((cur, old, l))
            old += 1
        elif l.startswith("+"):
            pass
        else:
            old += 1
    return bad

def one(bid, confirm=True, check=True, seed="1", tier="quick", propl=None):
    d = os.path.join(V, "seeded", bid)
    meta = json.load(open(os.path.join(d, "meta.json")))
    tmp = tempfile.mkdtemp(prefix="plant.", dir="/tmp")
    out = []
    try:
        clean, bad = os.path.join(tmp, "clean"), os.path.join(tmp, "bad")
        shutil.copytree("/repo", clean, symlinks=True)
        shutil.copytree("/repo", bad, symlinks=True)
        rc, o = sh(["git", "apply", os.path.join(d, "patch.diff")], bad)
        if rc:
            return bid, "DOES NOT APPLY " + o
        if confirm:
            ours = original_lines_only(d)
            if ours:
                out.append("OURS " + str(ours[:2]))
            rc, o = sh("go build ./... && go vet ./... 2>&1 | grep -c declared", bad)
            rc, o = sh("go build ./...", bad)
            if rc:
                return bid, "DOES NOT BUILD " + o[:500]
            t0, t1 = tests(clean), tests(bad)
            broke = [k for k in t0 if t0[k] == "pass" and t1.get(k) != "pass"]
            if broke:
                return bid, "TESTS FAIL " + " ".join(broke)[:400]
            demo = os.path.join(tmp, "demo")
            shutil.copytree(d, demo, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
            a, oa = sh(["bash", os.path.join(demo, "demo.sh")], clean, timeout=300)
            b, ob = sh(["bash", os.path.join(demo, "demo.sh")], bad, timeout=300)
            if a != 0 or b == 0:
                return bid, "DEMO clean=%d patched=%d\n%s\n----\n%s" % (a, b, oa[-1500:], ob[-1500:])
            for r in (clean,):
                rc, o = sh(["git", "status", "--short"], r)
                if o.strip():
                    out.append("DEMO DIRTIES " + o)
            out.append("confirmed")
        if check:
            mod = os.path.join(tmp, "go.mod")
            s = open(os.path.join(V, "harness/go.mod")).read().replace("/repo", bad)
            s = s.replace("../../repo", bad)
            open(mod, "w").write(s)
            if os.path.exists(os.path.join(V, "harness/go.sum")):
                shutil.copy(os.path.join(V, "harness/go.sum"), os.path.join(tmp, "go.sum"))
            for prop in propl or [meta["property"]]:
                exe = os.path.join(tmp, "vrun" + prop)
                rc, o = sh(["go", "build", "-modfile", mod, "-tags", "verif"] + (["-race"] if prop in RACE else []) + ["-o", exe, "."], V + "/harness")
                if rc:
                    out.append(prop + " HARNESS BUILD " + o[:300])
                    continue
                env = dict(ENV, TMPDIR=tmp, VERIF_REPO=bad)
                if prop == "C28":
                    sh(["go", "build", "-modfile", mod, "-o", tmp + "/gpeg", "github.com/zyedidia/gpeg/cmd/gpeg"], V + "/harness")
                    env["VERIF_GPEG"] = tmp + "/gpeg"
                vo = os.path.join(tmp, "out")
                os.makedirs(vo + "/evidence", exist_ok=True)
                shutil.copy(V + "/known_findings.txt", vo)
                rc, o = sh([exe, "-prop", prop, "-tier", tier, "-seed", seed, "-verif", vo], tmp, env)
                lines = [l for l in o.splitlines() if l.strip()]
                v = [i for i, l in enumerate(lines) if l.startswith("VIOLATION")]
                what = "CAUGHT" if rc == 1 and v else "MISSED" if rc == 0 else "RC=%d" % rc
                out.append("%s %s %s" % (prop, what, " / ".join(lines)[:330] if rc else ""))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return bid, "; ".join(out)

def main():
    a = sys.argv[1:]
    kw = {}
    ids, propl = [], []
    if "-s" in a:
        i = a.index("-s"); kw["seed"] = a[i + 1]; del a[i:i + 2]
    if "-t" in a:
        i = a.index("-t"); kw["tier"] = a[i + 1]; del a[i:i + 2]
    if "--confirm" in a:
        a.remove("--confirm"); kw["check"] = False
    if "--check" in a:
        a.remove("--check"); kw["confirm"] = False
    if "--all" in a:
        a.remove("--all"); ids = sorted(os.listdir(V + "/seeded"))
    for x in a:
        if os.path.isdir(os.path.join(V, "seeded", x)):
            ids.append(x)
        else:
            propl.append(x)
    if propl:
        kw["propl"] = propl
    with cf.ThreadPoolExecutor(2) as ex:
        for bid, r in ex.map(lambda i: one(i, **kw), ids):
            print("%-28s %s" % (bid, r), flush=True)

main()
