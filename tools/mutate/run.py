"""Applies mutants to scratch copies of /repo; reports those that neither the stable tests nor the checks notice.

  run.py OUT.jsonl PATTERN...      files of /repo to mutate (globs), results are appended to OUT
"""
import glob, json, os, queue, re, random, shutil, subprocess, sys, threading
V = os.environ.get("VERIF_COPY", "/verif")
WORKERS = int(os.environ.get("WORKERS", "4"))
SAMPLE = int(os.environ.get("SAMPLE", "0"))
PROPS = [
    ("internal/runbook/scheduler/", "C08 C01 C02 C03 C05 C04 C06 C07"),
    ("internal/runbook/parser/", "C11 C02 C05 C13 C18"),
    ("internal/runbook/sh/", "C17 C18 C19 C11"),
    ("internal/runbook/pg/", "C21 C11"),
    ("internal/runbook/demo/", "C20 C11"),
    ("internal/runbook/types/", "C11 C02 C05"),
    ("internal/runbook/runner.go", "C02 C03 C04 C01 C06 C05"),
    ("internal/runbook/", "C02 C04 C07 C13 C03 C01 C06 C05 C11 C16"),
    ("internal/dag/", "C09 C08 C07 C02"),
    ("internal/commands/ping", "C23 C36"), ("internal/commands/inspect", "C25 C24 C26 C36"),
    ("internal/commands/runbook_dot", "C13 C16 C36"), ("internal/commands/runbook_eval", "C14 C16 C36"),
    ("internal/commands/runbook_list", "C15 C16 C36"), ("internal/commands/", "C36 C16 C25"),
    ("internal/cli/", "C36 C16 C26"), ("main.go", "C36"),
    ("internal/pg/pg.go", "C22 C23 C21"), ("internal/pg/", "C24 C25 C26 C23"),
    ("internal/ddl/table_storage", "C30 C29 C24"),
    ("internal/ddl/", "C27 C31 C29 C28 C24"),
    ("internal/logger/", "C32 C33 C36"),
    ("internal/taskset/", "C35 C34"), ("internal/sys/", "C36 C11 C18 C16"),
]
out = open(sys.argv[1], "a")
files = sorted({os.path.relpath(f, "/repo") for p in sys.argv[2:] for f in glob.glob("/repo/" + p, recursive=True) if f.endswith(".go") and not f.endswith("_test.go")})
subprocess.run(["go", "build", "-o", "/tmp/mutator", V + "/tools/mutate/main.go"], check=True)
p = subprocess.run(["/tmp/mutator"] + ["/repo/" + f for f in files], cwd="/tmp", capture_output=True, text=True)
if p.returncode: sys.exit(p.stderr)
muts = [json.loads(l) for l in p.stdout.splitlines()]
done = set()
for l in open(sys.argv[1]):
    d = json.loads(l); done.add((d["file"], d["start"], d["end"], d["new"]))
muts = [m for m in muts if (m["file"], m["start"], m["end"], m["new"]) not in done]
if SAMPLE and len(muts) > SAMPLE:
    muts = random.Random(1).sample(muts, SAMPLE)
print(len(muts), "mutants of", len(files), "files", flush=True)
q = queue.Queue()
for m in muts: q.put(m)
lock = threading.Lock()
base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable") or []) if 0 else None
env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"])

def sh(cmd, cwd, timeout=900, extra=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=dict(env, **(extra or {})), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 99, "timeout"

def tests(w):
    rc, o = sh(["go", "test", "-vet=off", "-timeout", "60s", "./..."], w)
    bad = [l for l in o.splitlines() if l.startswith(("--- FAIL", "FAIL", "panic"))]
    bad = [re.sub(r"[\d.]+s\)?$", "", l) for l in bad]
    bad = [l for l in bad if not l.startswith("FAIL\tgithub.com/sjansen/pgutil/internal/pg\t") and l != "FAIL" and not any(x in l for x in ("TestPing", "TestTasks", "TestPg"))]
    return bad

def worker(k):
    w = "/tmp/mw%d" % k
    if os.path.exists(w): shutil.rmtree(w)
    shutil.copytree("/repo", w, symlinks=True)
    good = tests(w)
    while True:
        try: m = q.get_nowait()
        except queue.Empty: break
        f = w + m["file"][len("/repo"):]
        orig = open(f, "rb").read()
        open(f, "wb").write(orig[:m["start"]] + m["new"].encode() + orig[m["end"]:])
        m["verdict"] = verdict(w, m, good)
        open(f, "wb").write(orig)
        with lock:
            out.write(json.dumps(m) + "\n"); out.flush()
    shutil.rmtree(w)

def verdict(w, m, good):
    rel = m["file"][len("/repo/"):]
    rc, o = sh(["go", "build", "-o", "/dev/null", "./" + os.path.dirname(rel)], w)
    if rc: return "build"
    props = next(p for f, p in PROPS if rel.startswith(f)).split()
    odd = ""
    for p in props:
        rc, o = sh(["python3", V + "/run.py", "check", p], V, extra={"VERIF_REPO": w})
        if rc == 1: return "caught " + p
        if rc != 0: odd += " %s:%d:%s" % (p, rc, o[-200:])
    if set(tests(w)) != set(good): return "tests" + odd
    return ("odd" + odd) if odd else "SURVIVED"

ts = [threading.Thread(target=worker, args=(k,)) for k in range(WORKERS)]
for t in ts: t.start()
for t in ts: t.join()
