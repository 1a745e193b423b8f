#!/usr/bin/env python3
"""Decides one property: builds the harness against /repo's current tree, runs
the generated cases in several processes, merges the evidence, and reports.

    check.py ID [--tier quick|thorough] [--replay FILE]
    check.py --setup

exit 0: held on everything explored; 1: VIOLATION; 2: no answer.
"""
import hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
REPO = "/repo"

# binary -> how it is built and run
KINDS = {
    "codec": dict(pkg="./codec", instr=None, tags="", race=False, procs=2, shards=6),
    "ring": dict(pkg="./ringt", instr=["/repo/ring"], tags="verif", race=False, procs=1, shards=8),
    "conn": dict(pkg="./connt", instr=["/repo"], tags="verif", race=False, procs=1, shards=8),
    "tls": dict(pkg="./tlst", instr=None, tags="", race=False, procs=4, shards=4),
    "sock": dict(pkg="./sockt", instr=None, tags="", race=False, procs=4, shards=4, fast=True),
    "race": dict(pkg="./racet", instr=None, tags="verif", race=True, procs=4, shards=4),
}

# property -> its tests (binary:test)
PROPS = {
    "C01": ["codec:TestC01"],
    "C02": ["codec:TestC02"],
    "C03": ["codec:TestC03", "codec:TestC03Primitives"],
    "C04": ["codec:TestC04", "codec:TestC04Primitives"],
    "C05": ["codec:TestC05", "codec:TestC05Primitives"],
    "C06": ["codec:TestC06"],
    "C07": ["codec:TestC07"],
    "C08": ["ring:TestC08", "ring:TestC08Large", "tls:TestC08Huge"],
    "C09": ["ring:TestC09", "ring:TestC09Large", "tls:TestC09Huge"],
    "C10": ["conn:TestC10", "conn:TestC10APIs", "conn:TestC10Long", "sock:TestC10Sock"],
    "C11": ["conn:TestC11", "conn:TestC11APIs", "conn:TestC11Long"],
    "C12": ["conn:TestC12", "conn:TestC12APIs", "conn:TestC12Long", "sock:TestC12Sock"],
    "C13": ["conn:TestC13", "sock:TestC13Sock"],
    "C14": ["conn:TestC14"],
    "C15": ["conn:TestC15"],
    "C16": ["conn:TestC16"],
    "C17": ["conn:TestC17", "tls:TestC17Sockets"],
    "C18": ["codec:TestC18"],
    "C19": ["tls:TestC19", "tls:TestC19Timeout", "sock:TestC19Sock"],
    "C20": ["conn:TestC20", "sock:TestC20Sock"],
    "C21": ["conn:TestC21"],
    "C22": ["conn:TestC22", "conn:TestC22APIs"],
    "C23": ["race:TestC23", "race:TestC23Ring", "race:TestC23Codec"],
    "C24": ["conn:TestC24"],
    "C25": ["conn:TestC25"],
    "C26": ["sock:TestC26"],
    "C27": ["sock:TestC27"],
}
# multiple of the tests' own case counts in the quick tier
SCALE = {"C20": 5}
LEVEL = {"C07": "fault_enumeration"}
ASSUME = {
    "codec": ["the reference codec, written from the Kafka protocol definitions, is right"],
    "ring": ["one instrumented copy of the ring per run: a scheduling point before every statement and package sync replaced by a model of it; sequentially consistent memory (unsynchronised access is the race property's subject)"],
    "conn": ["an instrumented copy of package kafka: a scheduling point before every statement, package sync modelled, the transport simulated; other packages run as they are",
             "the reference codec and the reference broker are right"],
    "tls": ["the loopback network and crypto/tls work"],
    "sock": ["the loopback network and crypto/tls work; a machine that is not overloaded so much that a loopback call takes 20 s"],
    "race": ["Go's race detector reports only real races; it sees only the accesses that the run makes"],
}
# seconds for which a process may shrink what it found
SHRINK = 100
KNOWN = os.path.join(VERIF, "known-findings.txt")


def goenv():
    env = dict(os.environ)
    env.setdefault("HOME", "/root")
    env.setdefault("PATH", "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
    for k in ("GOFLAGS", "GOOS", "GOARCH", "GOEXPERIMENT", "GODEBUG", "GOGC", "GOMEMLIMIT", "GORACE", "GOTRACEBACK"):
        env.pop(k, None)
    env.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", GOSUMDB="off")
    return env


class NoAnswer(Exception):
    pass


def sh(cmd, timeout=600):
    try:
        p = subprocess.run(cmd, cwd=HARNESS, env=goenv(), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise NoAnswer("timeout: " + " ".join(cmd))
    if p.returncode != 0:
        raise NoAnswer("%s failed:\n%s" % (" ".join(cmd), p.stdout.decode("utf8", "replace")[-4000:]))


# Long times pass faster while the harness says so: timers and socket deadlines
# of two seconds and more are divided by time.VerifSpeed.
FAST = [
    ("time/sleep.go", "import (\n", "import (\n\t\"sync/atomic\"\n"),
    ("time/sleep.go", "func when(d Duration) int64 {\n", """var VerifSpeed atomic.Int64

func when(d Duration) int64 {
	if d >= 2*Second && VerifSpeed.Load() > 0 {
		d /= Duration(VerifSpeed.Load())
	}
"""),
    ("internal/poll/fd_poll_runtime.go", "\t\td = int64(time.Until(t))\n", """		d = int64(time.Until(t))
		if d >= 2e9 && time.VerifSpeed.Load() > 0 {
			d /= time.VerifSpeed.Load()
		}
"""),
]


def fast(rundir):
    """An overlay of the standard library, or None where it looks different."""
    root = subprocess.run(["go", "env", "GOROOT"], cwd=HARNESS, env=goenv(), stdout=subprocess.PIPE).stdout.decode().strip()
    texts = {}
    for f, old, new in FAST:
        try:
            t = texts.get(f) or open(os.path.join(root, "src", f)).read()
        except OSError:
            return None
        if t.count(old) != 1:
            return None
        texts[f] = t.replace(old, new)
    repl = {}
    for f, t in texts.items():
        p = os.path.join(rundir, "fast-" + f.replace("/", "-"))
        with open(p, "w") as w:
            w.write(t)
        repl[os.path.join(root, "src", f)] = p
    ov = os.path.join(rundir, "fast-overlay.json")
    with open(ov, "w") as w:
        json.dump({"Replace": repl}, w)
    return ov


def build(kind, rundir):
    k = KINDS[kind]
    out = os.path.join(rundir, kind + ".test")
    cmd = ["go", "test", "-c", "-vet=off", "-o", out, "-tags", k["tags"]]
    if k["race"]:
        cmd.append("-race")
    if k["instr"]:
        tool = os.path.join(rundir, "instr")
        sh(["go", "build", "-o", tool, "./cmd/instr"])
        ov = os.path.join(rundir, kind + "-overlay.json")
        sh([tool, "-out", os.path.join(rundir, kind + "-overlay"), "-overlay", ov, "-tags", k["tags"], "-rest", REPO] + k["instr"])
        cmd += ["-overlay", ov]
    if k.get("fast"):
        ov = fast(rundir)
        if ov:
            cmd[cmd.index("-tags") + 1] += " fast"
            cmd += ["-overlay", ov]
    sh(cmd + [k["pkg"]])
    return out


def limits(kind):
    if kind == "race":
        return None

    def f():
        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


class Proc:
    """One process running one test, or one replay of it."""

    def __init__(self, kind, binary, test, out, env):
        self.kind, self.test, self.out = kind, test, out
        os.makedirs(out, exist_ok=True)
        e = goenv()
        for k in list(e):
            if k.startswith("VERIF_"):
                del e[k]
        e["VERIF_OUT"] = out
        e["GOMAXPROCS"] = str(KINDS[kind]["procs"])
        e["GOTRACEBACK"] = "all"
        if kind == "race":
            e["GORACE"] = "log_path=%s/race halt_on_error=0 suppress_equal_stacks=0 suppress_equal_addresses=0 atexit_sleep_ms=0" % out
        e.update(env)
        self.log = open(os.path.join(out, "log.txt"), "wb")
        self.p = subprocess.Popen([binary, "-test.run", "^%s$" % test, "-test.timeout", "0", "-test.count", "1"],
                                  cwd=out, env=e, stdin=subprocess.DEVNULL, stdout=self.log, stderr=subprocess.STDOUT,
                                  preexec_fn=limits(kind), start_new_session=True)

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.p.wait()
        self.log.close()

    def result(self):
        try:
            with open(os.path.join(self.out, "result-%s.json" % self.test)) as f:
                return json.load(f)
        except (OSError, ValueError):
            return None

    def text(self):
        self.log.close()
        with open(os.path.join(self.out, "log.txt"), "rb") as f:
            f.seek(0, 2)
            n = f.tell()
            if n <= 4 << 20:
                f.seek(0)
                return f.read().decode("utf8", "replace")
            f.seek(0)
            a = f.read(2 << 20)
            f.seek(n - (2 << 20))
            return (a + b"\n...\n" + f.read()).decode("utf8", "replace")


def crash(text):
    """The message of a crash of the process that happened in the library's code."""
    m = re.search(r"^(panic: |fatal error: |runtime: goroutine stack exceeds|SIG[A-Z]+: )", text, re.M)
    if not m:
        return None
    tail = text[m.start():]
    head = tail[:tail.find("\n\n")] if "\n\n" in tail else tail[:500]
    g = re.search(r"^goroutine \d+ .*?\[(running|syscall|signal|runnable|stack growth|GC).*?\]:\n(.*?)(\n\n|\Z)", tail, re.M | re.S)
    stack = g.group(0) if g else tail[:6000]
    if "github.com/savaki/kafka" in stack or "/repo/" in stack:
        return (head[:600] + "\n" + stack[:2500]).strip()
    if "deadlock" in head and "github.com/savaki/kafka" in tail:
        return head[:600]
    return None


def classify(proc):
    """None: passed; ("violation", message, case); ("hang", ..); ("none", reason)."""
    rc, res = proc.p.returncode, proc.result()
    if rc == 0 and res is not None and not res.get("violation"):
        return None
    if rc == 1 and res is not None and res.get("violation"):
        v = res["violation"]
        return ("violation", v["message"], v["case"])
    if rc == 3 and res is not None and res.get("violation"):
        return ("hang", res["violation"]["message"], res["violation"]["case"])
    text = proc.text()
    if rc not in (0, 1, 3, 4):
        msg = crash(text)
        if msg:
            try:
                with open(os.path.join(proc.out, "current.json")) as f:
                    case = json.load(f)["case"]
            except (OSError, ValueError, KeyError):
                case = None
            if case is None and res is not None and res.get("violation"):
                case = res["violation"]["case"]
            return ("crash", msg, case)
        if res is not None and res.get("violation"):
            v = res["violation"]
            return (("violation" if v["kind"] == "fail" else "hang"), v["message"], v["case"])
    return ("none", "%s ended with %s\n%s" % (proc.test, rc, text[-3000:]), None)


class Runner:
    def __init__(self, pid, tier, seed, rundir):
        self.pid, self.tier, self.seed, self.rundir = pid, tier, seed, rundir
        pairs = [t.split(":") for t in PROPS[pid]]
        self.tests = [t for _, t in pairs]
        self.kinds = {t: k for k, t in pairs}
        self.bins = {}
        self.n = 0

    def build(self):
        for k in sorted(set(self.kinds.values())):
            self.bins[k] = build(k, self.rundir)

    def proc(self, test, out, env):
        k = self.kinds[test]
        return Proc(k, self.bins[k], test, out, env)

    def outdir(self):
        self.n += 1
        return os.path.join(self.rundir, "out%d" % self.n)

    def env(self, **kw):
        e = {"VERIF_SEED": str(self.seed), "VERIF_TIER": self.tier}
        e.update({k: str(v) for k, v in kw.items()})
        return e

    def replay(self, test, case, repeat=1, timeout=120):
        """What a single case does, alone in a fresh process."""
        out = self.outdir()
        os.makedirs(out)
        f = os.path.join(out, "case.json")
        with open(f, "w") as w:
            json.dump({"property": self.pid, "test": test, "case": case}, w)
        p = self.proc(test, out, self.env(VERIF_REPLAY=f, VERIF_REPEAT=repeat))
        try:
            p.p.wait(timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            return ("none", "timeout", None)
        r = classify(p)
        if r and r[0] == "crash":
            r = (r[0], r[1], case)
        p.log.close()
        shutil.rmtree(out, ignore_errors=True)
        return r

    def run(self):
        quick = self.tier != "thorough"
        soft, hard = (240, 560) if quick else (780, 1500)
        kinds = {KINDS[k]["race"] for k in self.kinds.values()}
        nsh = {t: (KINDS[self.kinds[t]]["shards"] if quick else 8) for t in self.tests}
        todo = [(t, s) for t in self.tests for s in range(nsh[t])]
        width = 4 if True in kinds else 8
        width = max(1, min(width, (os.cpu_count() or 8)))
        start = time.time()
        running, done, bad = [], [], None
        found, looked = {}, start # when a process first reported a violation; it then shrinks it
        try:
            while (todo or running) and bad is None:
                while todo and len(running) < width:
                    # what is still to be started shares the time that is left
                    left = max(5, int((soft - (time.time() - start)) / -(-len(todo) // width)))
                    t, s = todo.pop(0)
                    running.append(self.proc(t, self.outdir(),
                                        self.env(VERIF_SHARD=s, VERIF_SHARDS=nsh[t], VERIF_DEADLINE=left, VERIF_SCALE=SCALE.get(self.pid, 8) if quick else 8)))
                time.sleep(0.02)
                if time.time() - looked > 1:
                    looked = time.time()
                    for p in running:
                        if (p.result() or {}).get("violation"):
                            found.setdefault(p, looked)
                for p in running:
                    if p.p.poll() is None and p in found and (time.time() - found[p] > SHRINK or time.time() - start > hard):
                        p.kill() # with what it has got
                        break
                else:
                    if time.time() - start > hard:
                        raise NoAnswer("time limit")
                for p in list(running):
                    if p.p.poll() is None:
                        continue
                    running.remove(p)
                    p.log.close()
                    c = classify(p)
                    if c is None:
                        done.append(p)
                    else:
                        done.append(p)
                        bad = (p, c)
                        break
        finally:
            for p in running:
                p.kill()
        return done, bad


def shrink(fails, case, budget):
    """A generic shrinker over JSON, for failures that end the process."""
    end = time.time() + budget
    best = case

    def variants(v):
        if isinstance(v, list):
            n = len(v)
            size = n
            while size >= 1:
                for i in range(0, n, size):
                    yield v[:i] + v[i + size:]
                size //= 2
            for i in range(n):
                for x in variants(v[i]):
                    yield v[:i] + [x] + v[i + 1:]
        elif isinstance(v, dict):
            for k in v:
                for x in variants(v[k]):
                    w = dict(v)
                    w[k] = x
                    yield w
        elif isinstance(v, bool):
            if v:
                yield False
        elif isinstance(v, (int, float)):
            for x in (0, 1, v // 2 if isinstance(v, int) else 0):
                if abs(x) < abs(v):
                    yield x
        elif isinstance(v, str):
            if len(v) > 0:
                yield ""
    progress = True
    while progress and time.time() < end:
        progress = False
        for v in variants(best):
            if time.time() > end:
                break
            if fails(v):
                best, progress = v, True
                break
    return best


def known():
    """Open findings: lines 'open: property=<id> test=<test> match=<regexp> :: <what fails>'."""
    out = []
    try:
        with open(KNOWN) as f:
            for line in f:
                m = re.match(r"open: property=(\S+) test=(\S+) match=(.*?) :: (.*)$", line.strip())
                if m:
                    out.append(m.groups())
    except OSError:
        pass
    return out


def evidence(r, done, wall, violations):
    ev, dist, skipped, strata = 0, 0, 0, 0
    labels, rules, samples, hashes = {}, [], [], {}
    per = {}
    for p in done:
        res = p.result()
        if res is None:
            continue
        ev += res["evaluations"]
        skipped += res.get("skipped", 0)
        d = per.setdefault(p.test, {"evaluations": 0, "nontrivial": 0, "strata": res["strata"]})
        d["evaluations"] += res["evaluations"]
        d["nontrivial"] += res["nontrivial"]
        for l, n in (res.get("labels") or {}).items():
            key = l if len(r.tests) == 1 else p.test + ": " + l
            labels[key] = labels.get(key, 0) + n
        if (p.test, res["rule"]) not in rules:
            rules.append((p.test, res["rule"]))
        hs = hashes.setdefault(p.test, set())
        try:
            with open(os.path.join(p.out, "hashes-%s.bin" % p.test), "rb") as f:
                b = f.read()
            hs.update(b[i:i + 8] for i in range(0, len(b), 8))
        except OSError:
            pass
        n = sum(1 for s in samples if s["test"] == p.test)
        for s in (res.get("samples") or [])[:max(0, 4 - n)]:
            text = json.dumps(s)
            samples.append({"test": p.test, "case": s if len(text) <= 3000 else text[:3000] + "..."})
    for t in hashes:
        per[t]["distinct_nontrivial"] = len(hashes[t])
        dist += len(hashes[t])
    e = {
        "property": r.pid, "tier": r.tier, "seed": r.seed, "level": LEVEL.get(r.pid, "exploration"),
        "coverage": {
            "evaluations": ev, "distinct_nontrivial": dist,
            "rule": " // ".join(rule if len(rules) == 1 else t + ": " + rule for t, rule in rules),
            "samples": samples, "per_test": per, "classes": dict(sorted(labels.items())),
            "cases_skipped_for_time": skipped,
        },
        "assumptions": sum((ASSUME[k] for k in dict.fromkeys(r.kinds.values())), []), "wall_s": round(wall, 2), "violations": violations,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", r.pid + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(e, f, indent=1, sort_keys=True)
    os.replace(path + ".tmp", path)


def save(r, test, msg, case):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    body = json.dumps({"property": r.pid, "test": test, "message": msg, "case": case}, indent=1)
    h = hashlib.sha256(json.dumps([test, case], sort_keys=True).encode()).hexdigest()[:12]
    path = os.path.join(d, "%s-%s.json" % (r.pid, h))
    with open(path, "w") as f:
        f.write(body)
    return path


def report(r, test, msg, path):
    print("property %s, %s:\n%s" % (r.pid, test, msg[:3000]))
    print("VIOLATION property=%s replay=%s" % (r.pid, path))


def check(pid, tier, seed, replay_file, rundir):
    start = time.time()
    r = Runner(pid, tier, seed, rundir)
    r.build()
    if replay_file:
        with open(replay_file) as f:
            rp = json.load(f)
        got = r.replay(rp["test"], rp["case"], repeat=200 if r.kinds[rp["test"]] in ("race", "tls") else 1, timeout=600)
        if got is None:
            print("the case passes")
            return 0
        if got[0] == "none":
            raise NoAnswer(got[1])
        report(r, rp["test"], got[1], replay_file)
        return 1
    done, bad = r.run()
    if bad is None:
        evidence(r, done, time.time() - start, 0)
        for kid, _, _, what in known():
            if kid == pid:
                print("KNOWN-FINDING: property=%s %s" % (pid, what))
        n = json.load(open(os.path.join(VERIF, "evidence", pid + ".json")))["coverage"]
        print("property %s held on %d cases (%d distinct and non-trivial), %.1f s" % (pid, n["evaluations"], n["distinct_nontrivial"], time.time() - start))
        return 0
    p, (what, msg, case) = bad
    if what == "none":
        raise NoAnswer(msg)
    if what == "hang":
        # cases that run on real goroutines may need several attempts
        for repeat in (1, 20, 20):
            again = r.replay(p.test, case, repeat, timeout=1200)
            if again is not None and again[0] != "none":
                break
        if again is None or again[0] == "none":
            raise NoAnswer("a case did not end, but does when run alone: " + json.dumps(case)[:500])
        msg = again[1] + ": a call of the library does not return"
    if what == "crash" and case is not None:
        def fails(c):
            g = r.replay(p.test, c, timeout=60)
            return g is not None and g[0] == "crash"
        if fails(case):
            case = shrink(fails, case, 20)
    path = save(r, p.test, msg, case)
    evidence(r, done, time.time() - start, 1)
    report(r, p.test, msg, path)
    return 1


def setup():
    os.makedirs(os.path.join(VERIF, "build"), exist_ok=True)
    rundir = tempfile.mkdtemp(prefix="setup-", dir=os.path.join(VERIF, "build"))
    try:
        for kind in KINDS:
            build(kind, rundir)
    except NoAnswer as e:
        print(e)
        return 2
    finally:
        shutil.rmtree(rundir, ignore_errors=True)
    return 0


def main(argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    replay_file = None
    args = []
    it = iter(argv)
    for a in it:
        if a == "--tier":
            tier = next(it)
        elif a == "--replay":
            replay_file = os.path.abspath(next(it))
        else:
            args.append(a)
    if args == ["--setup"]:
        return setup()
    if len(args) != 1 or args[0] not in PROPS or tier not in ("quick", "thorough"):
        print(__doc__)
        return 2
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    os.makedirs(os.path.join(VERIF, "build"), exist_ok=True)
    rundir = tempfile.mkdtemp(prefix=args[0] + "-", dir=os.path.join(VERIF, "build"))
    signal.signal(signal.SIGTERM, lambda *_: sys.exit(2))
    try:
        return check(args[0], tier, seed, replay_file, rundir)
    except NoAnswer as e:
        print("NO ANSWER:", e)
        return 2
    finally:
        shutil.rmtree(rundir, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
