#!/usr/bin/env python3
"""Mutation analysis of the checks: small changes of /repo's code that its own
tests do not notice are shown to the quick checks.

run.py [-j WORKERS] [-s SEED] [-p SHARE] [-o RESULTS] FILE...   (files below /repo)
Results are JSON lines; "survived" are the ones to look at.
"""
import sys, os, json, subprocess, shutil, random, argparse, threading, queue, time, hashlib
V = "/verif"
ENV = dict(os.environ, HOME="/root", PATH="/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
           GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off")
RACE = {"C13", "C19", "C25"}
ORDER = [
    ("vm/vm.go", "01 02 05 04 09 22 21 12 08 03 26"),
    ("vm/stack.go", "02 01 05 09 04"),
    ("vm/op.go", "01 26 28"),
    ("vm/code.go", "01 26 10 11 22 02"),
    ("pattern/", "01 08 24 03 02 20 21 16 22 04 26 17 28"),
    ("isa/checker", "22 10"),
    ("isa/", "01 28 10 26"),
    ("charset/", "23 01 28 10"),
    ("input/linerope", "14 15 12"),
    ("input/reader", "13 12"),
    ("input/", "12 05 22"),
    ("memo/interval/lazylog", "06 07 27 08 05 25"),
    ("memo/interval/lazy", "27"),
    ("memo/", "06 07 05 02 04 25 09 08"),
    ("re/", "16 17 19"),
    ("rxconv/", "18 19 28"),
    ("cmd/", "28"),
]

def sh(cmd, cwd, timeout, env=ENV):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.communicate()
        return 124, "TIMEOUT"

def stable():
    b = json.load(open("/opt/vp/BASELINE.json"))
    return b

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("-j", type=int, default=3)
    ap.add_argument("-s", type=int, default=1)
    ap.add_argument("-p", type=float, default=1)
    ap.add_argument("-c", default="0.3", help="share of the quick cases to run")
    ap.add_argument("-o", default="/tmp/mut/results.jsonl")
    ap.add_argument("files", nargs="+")
    a = ap.parse_args()
    os.makedirs("/tmp/mut", exist_ok=True)
    seen = set()
    if os.path.exists(a.o):
        for l in open(a.o):
            r = json.loads(l)
            seen.add((r["file"], r["off"], r["end"], r["to"]))
    muts = []
    for f in a.files:
        rc, o = sh(["/tmp/mutate", f], "/repo", 60)
        for l in o.splitlines():
            m = json.loads(l)
            muts.append(m)
    rnd = random.Random(a.s)
    rnd.shuffle(muts)
    muts = muts[:int(len(muts) * a.p + .5)]
    muts = [m for m in muts if (m["file"], m["off"], m["end"], m["to"]) not in seen]
    print(len(muts), "mutants", flush=True)
    q = queue.Queue()
    for m in muts:
        q.put(m)
    lock = threading.Lock()
    def work(i):
        d = "/tmp/mut/w%d" % i
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d + "/tmp")
        shutil.copytree("/repo", d + "/repo", symlinks=True, ignore=shutil.ignore_patterns(".git"))
        shutil.copytree(V + "/harness", d + "/harness")
        s = open(d + "/harness/go.mod").read().replace("=> /repo", "=> " + d + "/repo")
        open(d + "/harness/go.mod", "w").write(s)
        env = dict(ENV, TMPDIR=d + "/tmp")
        base = base_ok(d, env)
        while True:
            try:
                m = q.get_nowait()
            except queue.Empty:
                break
            t0 = time.time()
            p = d + "/repo/" + m["file"]
            src = open(p, "rb").read()
            open(p, "wb").write(src[:m["off"]] + m["to"].encode() + src[m["end"]:])
            try:
                m["result"], m["by"] = judge(m, d, env, base, a.c)
            finally:
                open(p, "wb").write(src)
            m["secs"] = round(time.time() - t0, 1)
            with lock:
                open(a.o, "a").write(json.dumps(m) + "\n")
        shutil.rmtree(d, ignore_errors=True)
    ts = [threading.Thread(target=work, args=(i,)) for i in range(a.j)]
    [t.start() for t in ts]
    [t.join() for t in ts]

def run_tests(d, env):
    rc, o = sh(["bash", "-c", "ulimit -v 12000000; exec go test -vet=off -count=1 -timeout 60s -json ./..."], d + "/repo", 200, env)
    res, built = {}, True
    for l in o.splitlines():
        try:
            j = json.loads(l)
        except ValueError:
            continue
        if j.get("Action") == "build-fail":
            built = False
        if j.get("Test") and j["Action"] in ("pass", "fail"):
            res[j["Package"] + "::" + j["Test"]] = j["Action"]
    return built and rc != 124, res

def base_ok(d, env):
    _, r = run_tests(d, env)
    return {k for k in r if r[k] == "pass"}

def judge(m, d, env, base, scale):
    rc, o = sh(["go", "build", "-tags", "verif", "-o", d + "/vrun", "."], d + "/harness", 300, env)
    if rc:
        return "nobuild", ""
    ok, res = run_tests(d, env)
    if not ok or any(res.get(k) != "pass" for k in base):
        return "tests", ""
    for pre, props in ORDER:
        if m["file"].startswith(pre):
            break
    for p in props.split():
        p = "C" + p
        if p == "C28":
            rc, o = sh(["go", "build", "-o", d + "/gpeg", "github.com/zyedidia/gpeg/cmd/gpeg"], d + "/harness", 300, env)
            if rc:
                return "nobuild", ""
            env = dict(env, VERIF_GPEG=d + "/gpeg")
        exe = d + "/vrun"
        if p in RACE:
            exe = d + "/vrunr"
            rc, o = sh(["go", "build", "-race", "-tags", "verif", "-o", exe, "."], d + "/harness", 300, env)
        vo = d + "/out"
        shutil.rmtree(vo, ignore_errors=True)
        os.makedirs(vo + "/evidence")
        shutil.copy(V + "/known_findings.txt", vo)
        rc, o = sh(["nice", "-n", "10", exe, "-prop", p, "-tier", "quick", "-seed", "1", "-scale", scale, "-verif", vo], d, 600, env)
        if rc == 1 and "VIOLATION" in o:
            return "caught", p
        if rc != 0:
            return "rc%d" % rc, p + " " + o[-300:]
    return "survived", props
main()
