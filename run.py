#!/usr/bin/env python3
"""Builds the monitors of a property against /repo's working tree, and runs them.

  run.py check C01        decide a property (VERIF_TIER=quick|thorough, VERIF_SEED=n)
  run.py replay FILE      execute the case of a reported violation again
  run.py selftest         build every monitor, without running it, and test the fake server
"""
import atexit, glob, json, os, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
from jobs import JOBS, RULES, ASSUMPTIONS, SCALE  # noqa: E402

MODULE = "github.com/sjansen/pgutil"
STALL = 150        # seconds without a new case, before a run is considered to hang
STALL_AGAIN = 60   # the same, when the hanging case is executed alone
LIMIT = {"quick": 600, "thorough": 6 * 3600}
MEMORY = 2560      # MB a process may hold, ten times what any needs; the code under test is then running away


class Broken(Exception):
    """the check can't decide; never reported as a verdict"""


def ordinary():
    """undoes what a shell, nohup or the like may have done to this process; its children would inherit that"""
    for s in signal.valid_signals():
        if s not in (signal.SIGKILL, signal.SIGSTOP, signal.SIGPIPE) and signal.getsignal(s) == signal.SIG_IGN:
            signal.signal(s, signal.SIG_DFL)
    signal.pthread_sigmask(signal.SIG_SETMASK, [])
    os.umask(0o022)


def goenv(scratch):
    env = {k: v for k, v in os.environ.items() if not k.startswith(("PG", "VERIF_", "GO"))}
    for go in ("/opt/veriftools/go1.27.3/bin",):
        if os.path.exists(go + "/go"):
            env["PATH"] = go + ":" + env.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    home = env.setdefault("HOME", "/root")
    for k in ("GOPATH", "GOMODCACHE", "GOCACHE"):
        if os.environ.get(k):
            env[k] = os.environ[k]
    env.setdefault("GOPATH", home + "/go")
    env.setdefault("GOMODCACHE", env["GOPATH"] + "/pkg/mod")
    env.setdefault("GOCACHE", home + "/.cache/go-build")
    env.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", GOSUMDB="off")
    return env


def overlay(job, scratch, race):
    rep = {}
    for pkg in ["vk"] + job.get("with", []) + [job["pkg"]]:
        for f in sorted(glob.glob(f"{VERIF}/harness/{pkg}/*.go")):
            rep[f"{REPO}/internal/zverif/{pkg}/{os.path.basename(f)}"] = f
    for stub, pkg in job.get("stubs", {}).items():
        for f in glob.glob(f"{REPO}/{pkg}/*.go"):
            rep[f] = ""
        for f in sorted(glob.glob(f"{VERIF}/stubs/{stub}/*.go")):
            rep[f"{REPO}/{pkg}/verif_{os.path.basename(f)}"] = f
    path = f"{scratch}/overlay-{job['pkg']}.json"
    with open(path, "w") as f:
        json.dump({"Replace": rep}, f)
    return path


def build(job, scratch, race):
    env = goenv(scratch)
    for f in ("go.mod", "go.sum"):
        shutil.copy(f"{REPO}/{f}", f"{scratch}/{f}")
    bins = {}
    if job.get("cli"):
        out = f"{scratch}/pgutil"
        cmd = ["go", "build", f"-modfile={scratch}/go.mod", "-o", out] + (["-race"] if race else []) + ["."]
        p = subprocess.run(cmd, cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise Broken("the program doesn't build:\n" + p.stdout)
    out = f"{scratch}/{job['pkg']}{'-race' if race else ''}.test"
    cmd = ["go", "test", f"-modfile={scratch}/go.mod", "-vet=off", "-c",
           "-overlay", overlay(job, scratch, race), "-o", out]
    if race:
        cmd.append("-race")
    cmd.append(f"./internal/zverif/{job['pkg']}")
    p = subprocess.run(cmd, cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode or not os.path.exists(out):
        raise Broken("the monitors don't build:\n" + p.stdout)
    return out


def runenv(prop, job, scratch, out, shard, of, tier, seed, race, case=None, workloads=None):
    env = goenv(scratch)
    work = f"{scratch}/work-{os.path.basename(out)}"
    os.makedirs(work, exist_ok=True)
    env.update(VERIF_PROP=prop, VERIF_OUT=out, VERIF_SCRATCH=work, VERIF_REPO=REPO,
               VERIF_DIR=VERIF, VERIF_SHARD=f"{shard}/{of}", VERIF_TIER=tier, VERIF_SEED=str(seed),
               VERIF_SCALE=os.environ.get("VERIF_SCALE") or str(SCALE.get(prop, 1)), VERIF_RACE="1" if race else "0", VERIF_BIN=f"{scratch}/pgutil",
               HOME=work, TMPDIR=work,
               GORACE=f"log_path={out}.race halt_on_error=0 exitcode=0 history_size=3")
    if workloads:
        env["VERIF_WORKLOADS"] = ",".join(workloads)
    if case:
        env["VERIF_CASE"] = case
    return env, work


def journal(out):
    try:
        with open(out + ".journal") as f:
            return json.loads(f.readline())
    except (OSError, ValueError):
        return None


def family(pid):
    """the process ids of a process which was started here, and of its children"""
    ids = [pid]
    for i in ids:
        for f in glob.glob(f"/proc/{i}/task/*/children"):
            try:
                with open(f) as fh:
                    ids += [int(x) for x in fh.read().split()]
            except OSError:
                pass
    return ids


def held(pid):
    """MB held by a process"""
    try:
        with open(f"/proc/{pid}/statm") as f:
            return int(f.read().split()[1]) * os.sysconf("SC_PAGE_SIZE") >> 20
    except (OSError, ValueError, IndexError):
        return 0


def execute(binary, env, work, out, tier, stall):
    """returns (results or None, log, how it ended)"""
    logf = open(out + ".log", "wb")
    p = subprocess.Popen([binary, "-test.run", "^TestVerif$", "-test.timeout", "0", "-test.v"], cwd=work, env=env,
                         stdin=subprocess.DEVNULL, stdout=logf, stderr=subprocess.STDOUT,
                         start_new_session=True)
    begin = last = time.monotonic()
    seen = None
    ended = "exit"
    peak, size = 0, 0
    while True:
        try:
            p.wait(0.2 if time.monotonic() - begin < 5 or size > MEMORY / 4 else 1)
            break
        except subprocess.TimeoutExpired:
            pass
        size = held(p.pid)
        peak = max(peak, size)
        for child in family(p.pid)[1:]:
            mb = held(child)
            peak = max(peak, mb)
            if mb > MEMORY:  # the monitors judge how a program ended
                try:
                    os.kill(child, signal.SIGQUIT)
                except ProcessLookupError:
                    pass
        j = journal(out)
        now = time.monotonic()
        if j is not None and j != seen:
            seen, last = j, now
        if now - last > stall:
            ended = "stall"
        elif now - begin > LIMIT[tier]:
            ended = "limit"
        elif size > MEMORY:
            ended = "memory"
        if ended != "exit":
            p.send_signal(signal.SIGQUIT)
            try:
                p.wait(15)
            except subprocess.TimeoutExpired:
                pass
            break
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()
    logf.close()
    with open(out + ".log", errors="replace") as f:
        log = f.read()
    res = None
    if os.path.exists(out):
        with open(out) as f:
            res = json.load(f)
    if res is not None:
        res["maxima"] = dict(res["maxima"] or {}, memory_mb=peak)
    return res, log, ended


def blame(log):
    """is the crash described by a log the code under test's?"""
    m = re.search(r"^(panic:|fatal error:|SIGSEGV|unexpected fault|SIG\w+:|runtime: goroutine stack exceeds).*$", log, re.M)
    if not m:
        return None
    what = m.group(0)
    if "monitor panic" in log:
        return None
    rest = log[m.start():]
    if "fatal error: all goroutines are asleep" in what:
        return what if f"{MODULE}/internal" in re.sub(r"zverif", "", rest) else None
    # the goroutine which crashed comes first
    blocks = re.split(r"\n\n(?=goroutine )", rest)
    first = blocks[1] if len(blocks) > 1 and blocks[1].startswith("goroutine") else blocks[0]
    i = first.rfind("\npanic(")
    if i >= 0:
        first = first[i:]
    for l in first.split("\n"):
        if MODULE in l or l.startswith("\t" + REPO):
            if "/zverif/" in l:
                return None
            if MODULE in l:
                return what
    return None


def races(out):
    reports, own = [], []
    for f in glob.glob(out + ".race*"):
        with open(f, errors="replace") as fh:
            text = fh.read()
        for block in re.split(r"={18}\n", text):
            if "WARNING: DATA RACE" not in block:
                continue
            # only the two accesses decide, not where the goroutines were created
            accesses = block.split("\nGoroutine ")[0]
            frames = re.findall(r"^\s+(\S+)\(.*\)\n\s+(\S+):(\d+)", accesses, re.M)
            ours = [f"{fn} {os.path.basename(path)}:{line}" for fn, path, line in frames
                    if fn.startswith(MODULE) and "/zverif/" not in fn]
            if ours:
                reports.append((" / ".join(ours[:4]), block))
            else:
                own.append(block)
    return reports, own


def merge(into, res):
    into["evaluations"] += res["evaluations"]
    for name, l in res["distinct"].items():
        into["distinct"].setdefault(name, set()).update(l)
    for k, v in res["counters"].items():
        into["counters"][k] = into["counters"].get(k, 0) + v
    for k, v in res["maxima"].items():
        into["maxima"][k] = max(into["maxima"].get(k, 0), v)
    for name, h in res["hist"].items():
        d = into["hist"].setdefault(name, {})
        for k, v in h.items():
            d[k] = d.get(k, 0) + v
    into["samples"] += res["samples"] or []
    into["violations"] += res["violations"] or []
    into["findings"] += res["findings"] or []
    into["workloads"] = sorted(set(into["workloads"]) | set(res["workloads"] or []))


def known(prop):
    keys = {}
    path = f"{VERIF}/known_findings.txt"
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)$", l.rstrip("\n"))
            if m and m.group(1) == prop:
                keys[m.group(2)] = m.group(3)
    return keys


def run_job(prop, n, job, scratch, tier, seed, race, case=None):
    binary = build(job, scratch, race)
    shards = 1 if case else job.get("shards", 1)

    def one(i):
        out = f"{scratch}/out-{n}-{'r' if race else 'n'}-{i}.json"
        env, work = runenv(prop, job, scratch, out, i, shards, tier, seed, race, case, job.get("workloads"))
        env.update(job.get("env", {}))
        res, log, ended = execute(binary, env, work, out, tier, STALL)
        if res is not None and res["finished"]:
            return out, res, log
        j = journal(out)
        if j is None:
            raise Broken(f"no case was executed ({ended}):\n" + log[-4000:])
        stub = dict(property=prop, evaluations=j[0], distinct={}, counters={}, maxima={}, hist={}, samples=[],
                    violations=[], findings=[], workloads=[], finished=False)
        try:
            desc = json.loads(j[2]) if j[2] else None
        except ValueError:
            desc = j[2]
        if ended in ("stall", "memory"):
            # never conclude from one deadline: the case has to hang again, on its own
            out2 = out + ".again"
            env2, work2 = runenv(prop, job, scratch, out2, 0, 1, tier, seed, race, j[1], job.get("workloads"))
            env2.update(job.get("env", {}))
            res2, log2, ended2 = execute(binary, env2, work2, out2, tier, STALL_AGAIN)
            if ended2 not in ("stall", "memory") or not hanging(log2):
                raise Broken(f"case {j[1]} stalled once ({ended}), but not when repeated:\n" + log[-4000:])
            what = "doesn't return" if ended2 == "stall" else "doesn't stop allocating memory"
            stub["violations"].append(dict(case=j[1], what="the code under test " + what, desc=desc,
                                           detail=log2[-20000:]))
            return out, stub, log
        if ended == "limit":
            raise Broken(f"still running after {LIMIT[tier]} s:\n" + log[-2000:])
        what = blame(log)
        if what is None:
            raise Broken(f"the monitors failed in case {j[1]}:\n" + log[-6000:])
        i = log.find(what)
        stub["violations"].append(dict(case=j[1], what="the code under test crashed: " + what, desc=desc,
                                       detail=log[i:i + 20000]))
        return out, stub, log

    with ThreadPoolExecutor(shards) as ex:
        done = list(ex.map(one, range(shards)))
    for out, res, log in done:
        for key in ("violations", "findings", "samples", "workloads"):
            res[key] = res.get(key) or []
        for key in ("counters", "maxima", "hist", "distinct"):
            res[key] = res.get(key) or {}
        if race:
            reports, own = races(out)
            if own:
                raise Broken("the monitors have a data race:\n" + own[0])
            for key, block in reports:
                j = journal(out)
                res["violations"].append(dict(case=(j or [0, "?"])[1] if case else "", what="data race: " + key,
                                              detail=block))
            res["counters"]["data_race_reports"] = res["counters"].get("data_race_reports", 0) + len(reports)
    return [r for _, r, _ in done]


def hanging(log):
    """does a goroutine dump show the code under test at work, or blocked?"""
    for block in re.split(r"\n\n(?=goroutine )", log):
        if block.startswith("goroutine") or "\ngoroutine" in block:
            for l in block.split("\n"):
                if l.startswith(MODULE) and "/zverif/" not in l:
                    return True
    return False


def check(prop, tier, seed):
    begin = time.monotonic()
    scratch = tempfile.mkdtemp(prefix="verif-")
    atexit.register(shutil.rmtree, scratch, True)
    total = dict(evaluations=0, distinct={}, counters={}, maxima={}, hist={}, samples=[], violations=[],
                 findings=[], workloads=[])
    for n, job in enumerate(JOBS[prop]):
        for race in job.get("race", [False]):
            for res in run_job(prop, n, job, scratch, tier, seed, race):
                merge(total, res)
            if total["violations"]:
                break
        if total["violations"]:
            break
    listed = known(prop)
    reported = {}
    for f in total["findings"]:
        if f["key"] in listed:
            reported[f["key"]] = f["what"]
        else:
            total["violations"].append(dict(case="", what=f"{f['what']} (key={f['key']})", desc=None, detail=""))
    for key in sorted(reported):
        print(f"KNOWN-FINDING: property={prop} {listed[key]}")
    # deduplicate by what happened
    seen, violations = set(), []
    for v in total["violations"]:
        k = re.sub(r"\d+", "#", v["what"])
        if k in seen and len(violations) > 0:
            continue
        seen.add(k)
        violations.append(v)
    distinct = {k: len(v) for k, v in total["distinct"].items()}
    coverage = dict(evaluations=total["evaluations"], distinct_nontrivial=distinct.pop("nontrivial", 0),
                    rule=RULES[prop], samples=total["samples"][:3], workloads=total["workloads"])
    for k, v in distinct.items():
        coverage["distinct_" + k] = v
    coverage.update(total["counters"])
    coverage.update(total["maxima"])
    for k, v in total["hist"].items():
        coverage[k] = dict(sorted(v.items())[:60])
    evidence = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=coverage,
                    assumptions=ASSUMPTIONS.get(prop, []), wall_s=round(time.monotonic() - begin, 2),
                    violations=len(violations))
    os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    with open(f"{VERIF}/evidence/{prop}.json", "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")
    if violations:
        os.makedirs(f"{VERIF}/replays", exist_ok=True)
        for old in glob.glob(f"{VERIF}/replays/{prop}-*.json"):
            os.unlink(old)
        for i, v in enumerate(violations[:5]):
            path = f"{VERIF}/replays/{prop}-{i}.json"
            with open(path, "w") as f:
                json.dump(dict(property=prop, tier=tier, seed=seed, **v), f, indent=1)
                f.write("\n")
            print(f"{prop}: {v['what'][:600]}")
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    if not coverage["distinct_nontrivial"]:
        raise Broken("nothing was observed that could have refuted the property")
    print(f"{prop}: held on {coverage['evaluations']} executions "
          f"({coverage['distinct_nontrivial']} distinct and non-trivial), {evidence['wall_s']} s")
    return 0


def replay(path):
    with open(path) as f:
        v = json.load(f)
    prop, hit = v["property"], False
    scratch = tempfile.mkdtemp(prefix="verif-")
    atexit.register(shutil.rmtree, scratch, True)
    for n, job in enumerate(JOBS[prop]):
        for race in job.get("race", [False]):
            for res in run_job(prop, n, job, scratch, v["tier"], v["seed"], race, v["case"] or None):
                for x in res["violations"]:
                    hit = True
                    print(x["what"])
                    print(json.dumps(x.get("desc"), indent=1))
                    print(x.get("detail", ""))
    print("reproduced" if hit else "not reproduced")
    return 1 if hit else 0


def main(argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in LIMIT:
        tier = "quick"
    ordinary()
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    try:
        if argv[:1] == ["check"]:
            return check(argv[1], tier, seed)
        if argv[:1] == ["replay"]:
            return replay(argv[1])
        if argv[:1] == ["selftest"]:
            scratch = tempfile.mkdtemp(prefix="verif-")
            atexit.register(shutil.rmtree, scratch, True)
            seen = set()
            for prop, l in JOBS.items():
                for job in l:
                    for race in job.get("race", [False]):
                        if (job["pkg"], race) not in seen:
                            seen.add((job["pkg"], race))
                            build(job, scratch, race)
            # the fake server's SQL gives the same answer, however it's asked
            out = build(dict(pkg="pgfake"), scratch, False)
            return subprocess.run([out], cwd=scratch, timeout=300).returncode
    except Broken as e:
        print(f"INCONCLUSIVE: {e}")
        return 3
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
