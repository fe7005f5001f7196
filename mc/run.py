#!/usr/bin/env python3
"""Runs one check: builds /repo's working tree in a scratch directory, enumerates the check's bounded
space on the real code in parallel worker processes, writes the evidence file.

    run.py P04 [quick|thorough]          exit 0: held on everything explored; 1: VIOLATION; 2: the check could not run
    run.py P04 --replay FILE             re-runs the one work unit recorded in FILE
"""
import hashlib, importlib, json, os, selectors, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("TFC_REPO", "/repo")
PYEXE = "/opt/venv/bin/python"
# when the time is up the run ends with what it has explored; a single work unit that has then run for longer than HANG without an
# answer counts as a violation (the code under test does not terminate)
DEADLINE = {"quick": 780.0, "thorough": 6 * 3600.0}
HANG = {"quick": 400.0, "thorough": 2 * 3600.0}
MAXFAILS = 1 if os.environ.get("MC_FAILFAST") else 40
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def env_for(scratch, extra=None):
    e = {
        "PATH": "/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        "HOME": scratch, "LANG": "C.UTF-8", "PYTHONDONTWRITEBYTECODE": "1", "PIP_NO_INDEX": "1",
        "JAX_PLATFORMS": "cpu", "MPLBACKEND": "Agg", "MPLCONFIGDIR": os.path.join(scratch, "mpl"),
        "PYTHONHASHSEED": "0", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1",
        "XLA_FLAGS": "--xla_cpu_multi_thread_eigen=false", "TMPDIR": os.path.join(scratch, "tmp"),
        "MC_SCRATCH": scratch, "VERIF_SEED": os.environ.get("VERIF_SEED", "1"), "TZ": "UTC",
        "COLUMNS": "80",
    }
    e.update(extra or {})
    return e


def copy_repo(dst):
    os.makedirs(dst)
    skip = {".git", "build", "docs", "examples", "tests", "__pycache__"}
    for name in os.listdir(REPO):
        if name in skip:
            continue
        s = os.path.join(REPO, name)
        if os.path.isdir(s):
            shutil.copytree(s, os.path.join(dst, name), symlinks=True,
                            ignore=lambda d, ns: [n for n in ns if n == "__pycache__" or n.endswith(".so") or n == "BF.pyi"])
        else:
            shutil.copy2(s, os.path.join(dst, name), follow_symlinks=False)


class BuildError(Exception):
    pass


def build(scratch, variant="plain", flags="", cxx=None, cc=None, env_extra=None, debug=False):
    """Copy the working tree to scratch/<variant> and build the extension there with the project's own setup.py."""
    dst = os.path.join(scratch, variant)
    copy_repo(dst)
    ex = dict(env_extra or {})
    if flags:
        ex["CXXFLAGS"] = flags
        ex["LDFLAGS"] = flags
    if cxx:
        ex["CXX"] = cxx
        ex["CC"] = cc or cxx
    r = subprocess.run([PYEXE, "setup.py", "build_ext"] + (["--debug"] if debug else []) + ["--build-temp", "build/temp", "--build-lib", "src"], cwd=dst,
                       env=env_for(scratch, ex), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    utils = os.path.join(dst, "src", "tfc", "utils")
    if r.returncode or not any(n.startswith("BF.") and n.endswith(".so") for n in os.listdir(utils)):
        raise BuildError(r.stdout[-4000:])
    return dst


def load_known():
    known = {}
    path = os.path.join(VERIF, "known_findings.txt")
    for line in open(path) if os.path.exists(path) else ():
        line = line.strip()
        if line.startswith("known:"):
            head, what = line[len("known:"):].split("::", 1)
            d = dict(kv.split("=", 1) for kv in head.split())
            known[(d["property"], d["key"])] = what.strip()
    return known


class Worker:
    def __init__(self, n, pid, tier, scratch, tree, extra_env):
        self.n = n
        self.log = open(os.path.join(scratch, f"worker{n}.log"), "ab")
        r, w = os.pipe()
        self.rfd = r
        env = env_for(scratch, dict(extra_env, PYTHONPATH=os.path.join(tree, "src"), MC_TREE=tree, MC_RESULT_FD=str(w)))
        os.makedirs(env["TMPDIR"], exist_ok=True)
        self.p = subprocess.Popen([PYEXE, os.path.join(HERE, "worker.py"), pid, tier], stdin=subprocess.PIPE,
                                  stdout=self.log, stderr=self.log, env=env, pass_fds=(w,), cwd=scratch,
                                  start_new_session=True)
        os.close(w)
        self.buf = b""
        self.group = None
        self.started = 0.0

    def send(self, gi, group):
        self.group = (gi, group)
        self.started = time.time()
        self.p.stdin.write(json.dumps([gi, group]).encode() + b"\n")
        self.p.stdin.flush()

    def kill(self):
        try:
            os.killpg(self.p.pid, 9)
        except ProcessLookupError:
            pass
        self.p.wait()
        os.close(self.rfd)
        self.log.close()

    def tail(self):
        self.log.flush()
        with open(self.log.name, "rb") as f:
            return f.read()[-3000:].decode("utf-8", "replace")


def main():
    argv = [a for a in sys.argv[1:] if not a.startswith("--")]
    pid = argv[0]
    replay = None
    if "--replay" in sys.argv:
        replay = json.load(open(argv[1]))
        argv = [pid, replay["tier"]]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    deadline = float(os.environ.get("MC_DEADLINE", DEADLINE[tier]))
    mod = importlib.import_module("checks." + pid.lower())
    scratch = tempfile.mkdtemp(prefix=f"mc-{pid}-")
    workers = []
    try:
        os.makedirs(os.path.join(scratch, "mpl"))
        os.makedirs(os.path.join(scratch, "tmp"))
        try:
            if hasattr(mod, "prepare"):
                tree, extra_env = mod.prepare(sys.modules[__name__], scratch, tier)
            else:
                tree, extra_env = build(scratch), {}
        except BuildError as e:
            print(f"{pid}: /repo does not build:\n{e}")
            return 2
        tb = time.time() - t0
        groups = list(mod.groups(tier)) if replay is None else [replay["group"]]
        # heaviest first, if the check says so
        order = list(range(len(groups)))
        if hasattr(mod, "weight"):
            order.sort(key=lambda i: -mod.weight(groups[i]))
        tot = {"states": 0, "transitions": 0, "traces": 0}
        extra, samples, fails = {}, [], []
        nw = max(1, min(int(os.environ.get("MC_JOBS", "8")), len(groups), getattr(mod, "MAX_WORKERS", 8)))
        sel = selectors.DefaultSelector()
        done = 0
        serial = [0]
        attempts = {}

        known = load_known()

        def bad():
            return sum((pid, f["key"]) not in known for f in fails)

        def spawn():
            serial[0] += 1
            w = Worker(serial[0], pid, tier, scratch, tree, extra_env)
            sel.register(w.rfd, selectors.EVENT_READ, w)
            workers.append(w)
            return w

        def retire(w):
            sel.unregister(w.rfd)
            w.kill()
            workers.remove(w)

        def feed(w):
            if order and bad() < MAXFAILS:
                i = order.pop(0)
                w.send(i, groups[i])
                return True
            w.group = None
            retire(w)
            return False

        for _ in range(nw):
            feed(spawn())
        while workers:
            if MAXFAILS == 1 and bad():
                for w in list(workers):
                    retire(w)
                break
            left = deadline - (time.time() - t0)
            if left <= 0:
                print(f"{pid}: time is up with {done} of {len(groups)} work units done")
                for w in list(workers):
                    if w.group and time.time() - w.started > HANG[tier]:
                        fails.append({"key": "no-answer", "msg": f"work unit ran {time.time()-w.started:.0f} s without an answer", "group": w.group[1], "case": None})
                    retire(w)
                break
            for k, _ in sel.select(timeout=min(left, 5)):
                w = k.data
                data = os.read(w.rfd, 1 << 20)
                if not data:
                    w.p.wait()
                    gi, g = w.group
                    note = f"worker ended with status {w.p.returncode} while running the real code; log ends:\n{w.tail()}"
                    if w.p.returncode == -9 and attempts.get(gi, 0) < 1:
                        attempts[gi] = attempts.get(gi, 0) + 1  # ended from outside (memory): once more
                        order.append(gi)
                    else:
                        cur = None
                        mark = os.path.join(scratch, f"current.{w.p.pid}")
                        if os.path.exists(mark):
                            cur = open(mark).read()
                        fails.append({"key": "crash", "msg": note, "group": g, "case": cur})
                        done += 1
                    retire(w)
                    if order and bad() < MAXFAILS:
                        feed(spawn())
                    continue
                w.buf += data
                while b"\n" in w.buf:
                    line, w.buf = w.buf.split(b"\n", 1)
                    res = json.loads(line)
                    if "harness_error" in res:
                        print(f"{pid}: the check itself failed:\n" + res["harness_error"])
                        print(w.tail())
                        return 2
                    for n in tot:
                        tot[n] += res[n]
                    for n, v in res["extra"].items():
                        extra[n] = max(extra.get(n, 0), v) if n.startswith("max_") else extra.get(n, 0) + v
                    if len(samples) < 12:
                        samples += res["samples"][:2]
                    for f in res["fails"]:
                        fails.append(dict(f, group=w.group[1]))
                    done += 1
                    if os.environ.get("MC_TIMES"):
                        print(f"{time.time() - w.started:7.1f} s  {w.group[1]}", flush=True)
                    feed(w)
        unknown, seen_known = [], []
        for f in fails:
            if (pid, f["key"]) in known:
                if f["key"] not in seen_known:
                    seen_known.append(f["key"])
            else:
                unknown.append(f)
        for k in seen_known:
            print(f"KNOWN-FINDING: property={pid} {k}: {known[(pid, k)]}")
        cov = {"states": tot["states"], "transitions": tot["transitions"], "traces_validated_against_impl": tot["traces"],
               "samples": samples[:12], "exhaustive": not unknown and done == len(groups) and replay is None,
               "work_units": done, "build_s": round(tb, 1), "bounds": mod.bounds(tier)}
        cov.update(extra)
        ev = {"property": pid, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "model_checking"), "coverage": cov,
              "assumptions": list(mod.ASSUMPTIONS), "wall_s": round(time.time() - t0, 2), "violations": len(unknown)}
        if replay is None and not os.environ.get("MC_NOEVIDENCE"):
            os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
            with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
                json.dump(ev, f, indent=1)
        print(f"{pid} {tier}: states={tot['states']} transitions={tot['transitions']} traces={tot['traces']} {extra} units={done}/{len(groups)} wall={ev['wall_s']}s build={tb:.1f}s")
        if unknown:
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            shown = {}
            for f in unknown:
                shown.setdefault(f["key"], f)
            for key, f in list(shown.items())[:8]:
                body = {"property": pid, "tier": tier, "key": key, "message": f["msg"], "case": f["case"], "group": f["group"]}
                h = hashlib.sha1(json.dumps(body, sort_keys=True, default=str).encode()).hexdigest()[:10]
                path = os.path.join(VERIF, "replays", f"{pid}-{h}.json")
                with open(path, "w") as o:
                    json.dump(body, o, indent=1, default=str)
                print(f"  {key}: {f['msg'][:1500]}\n    case: {str(f['case'])[:600]}")
                print(f"VIOLATION property={pid} replay={path}")
            return 1
        return 0
    finally:
        for w in list(workers):
            w.kill()
        if os.environ.get("MC_KEEP"):
            print("kept", scratch)
        else:
            shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
