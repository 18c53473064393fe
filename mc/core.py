"""Exploration harness shared by all checks.

A check explores a finite space completely.  Vocabulary used in evidence files:

  state       a distinct canonical state of the reference model (an exact pose of
              a shape, a node of an RNG answer tree, a multiset of rows, ...)
  transition  one step of the model that was explored (a library operation
              applied, an RNG answer given, one membership/optimality query)
  trace       a complete model path that was replayed on the real code in /repo
              and whose result was compared with the model's
"""
import contextlib, fnmatch, hashlib, json, mmap, os, pickle, resource, signal, struct, sys, time, traceback
import multiprocessing
from multiprocessing.connection import wait

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
CASE_CPU_S = 150  # CPU seconds one case may burn before it counts as non-terminating
MAX_VIOL = 12


NO_VERDICT = 2
MEM_BYTES = 3 << 30  # address space of one process


class Slot:
    """Shared memory in which a process says which case it is running, for whoever watches over it."""
    SIZE = 1024

    def __init__(self):
        self.m = mmap.mmap(-1, self.SIZE)
        self.n = 0

    def put(self, key):
        b = (key or "").encode()[: self.SIZE - 16]
        self.n += 1
        self.m[: 12 + len(b)] = struct.pack("<QI", self.n, len(b)) + b

    def get(self):
        n, k = struct.unpack("<QI", self.m[:12])
        return n, bytes(self.m[12 : 12 + k]).decode(errors="replace")


SLOT = None


def cpu_time(pid):
    try:
        f = open(f"/proc/{pid}/stat").read().rsplit(")", 1)[1].split()
        return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")
    except (OSError, IndexError, ValueError):
        return 0.0


class Watch:
    """Has a process been in one and the same case for more CPU time than a case may take?  (The timer inside
    the process cannot interrupt compiled code.)"""
    def __init__(self, pid, slot):
        self.pid, self.slot, self.seq, self.t = pid, slot, None, 0.0

    def stuck(self):
        n, key = self.slot.get()
        t = cpu_time(self.pid)
        if n != self.seq:
            self.seq, self.t = n, t
        return bool(key) and t - self.t > CASE_CPU_S + 30


class CaseTimeout(BaseException):
    pass


class Stop(BaseException):
    """Enough violations were collected."""


def _on_prof(signum, frame):
    raise CaseTimeout()


class Check:
    def __init__(self, pid, tier="quick", seed=1, only=None):
        self.pid, self.tier, self.seed, self.only = pid, tier, seed, only
        self.t0 = time.time()
        self._states = set()
        self.nstates = 0  # states counted without identity (disjoint by construction)
        self.transitions = 0
        self.traces = 0
        self.outcomes = {}
        self.samples = []
        self.violations = []  # dicts
        self.inconclusive = {}
        self.notes = {}
        self.assumptions = []
        self.case_key = None
        self.ncases = 0

    # -- tiers ---------------------------------------------------------------
    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    # -- counters ------------------------------------------------------------
    def state(self, key):
        h = hashlib.blake2b(repr(key).encode(), digest_size=10).digest()
        new = h not in self._states
        self._states.add(h)
        return new

    def step(self, n=1):
        self.transitions += int(n)

    def trace(self, n=1):
        self.traces += int(n)

    def outcome(self, name, n=1):
        self.outcomes[name] = self.outcomes.get(name, 0) + int(n)

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)

    def unsure(self, what):
        self.inconclusive[what] = self.inconclusive.get(what, 0) + 1

    # -- cases ---------------------------------------------------------------
    def run(self, key, fn, *args, repro=None, **kw):
        """Run one case. An exception from the code under test is a violation."""
        if self.only is not None and not key.startswith(self.only):
            return None
        self.ncases += 1
        prev = self.case_key
        self.case_key = key
        if SLOT is not None:
            SLOT.put(key)
        self.case_repro = repro
        try:
            with cpu_limit(CASE_CPU_S):
                return fn(*args, **kw)
        except CaseTimeout:
            self.fail("non-termination", f"case used more than {CASE_CPU_S}s of CPU time")
            if sum(v["tag"] == "non-termination" for v in self.violations) >= 2:
                raise Stop()
        except Stop:
            raise
        except Exception as e:
            tb = traceback.format_exc()
            tail = [l for l in tb.strip().splitlines() if l.strip()][-6:]
            self.fail("exception", f"{type(e).__name__}: {e}", trace="\n".join(tail))
        finally:
            self.case_key = prev
            if SLOT is not None:
                SLOT.put(prev)
        return None

    def fail(self, tag, msg, **extra):
        v = dict(property=self.pid, case=self.case_key, tag=tag, message=str(msg)[:2000])
        if getattr(self, "case_repro", None):
            v["repro"] = self.case_repro
        for k, x in extra.items():
            v[k] = x if isinstance(x, (int, float, str, list, dict, bool, type(None))) else repr(x)
        self.violations.append(v)
        if len(self.violations) >= 400:
            raise Stop()

    def expect(self, cond, tag, msg, **extra):
        if not cond:
            self.fail(tag, msg() if callable(msg) else msg, **extra)
            return False
        return True

    # -- parallel map --------------------------------------------------------
    def pmap(self, fn, items, workers=None):
        """fn(check, item) on every item in forked workers; results are merged."""
        items = list(items)
        if self.only is not None or len(items) <= 1:
            for it in items:
                fn(self, it)
            return
        workers = workers or min(8, os.cpu_count() or 1, len(items))
        ctx = multiprocessing.get_context("fork")
        global _PM_FN, _PM_CK, _PM_ITEMS
        _PM_FN, _PM_CK, _PM_ITEMS = fn, self, items
        results, todo, live, nviol, lost = {}, list(range(len(items)))[::-1], {}, 0, 0

        def start():
            slot = Slot()
            a, b = ctx.Pipe()
            p = ctx.Process(target=_pm_loop, args=(b, slot), daemon=True)
            p.start()
            b.close()
            live[a] = [p, slot, Watch(p.pid, slot), None]
            give(a)

        def give(a):
            # enough is known once many violations were found
            if todo and not (nviol >= 60 and time.time() - self.t0 > 100) and lost < 3:
                live[a][3] = todo.pop()
                a.send(live[a][3])
            else:
                live.pop(a)[0].terminate()

        for _ in range(workers):
            start()
        while live:
            for a in wait(list(live), timeout=2):
                try:
                    i, r = pickle.loads(a.recv_bytes())
                except (EOFError, OSError):
                    r = None
                p, slot, _, i = live[a]
                if r is None:
                    p.join()
                    del live[a]
                    if p.exitcode in (-signal.SIGKILL, -signal.SIGTERM):
                        for q in live.values():
                            q[0].terminate()
                        print(f"worker process was killed ({p.exitcode}); no verdict")
                        raise SystemExit(NO_VERDICT)
                    r = self._dead(slot, "crash", f"the process running this case died (exit code {p.exitcode})")
                    lost += 1
                    if todo:
                        start()
                elif a in live:
                    give(a)
                results[i] = r
                nviol += len(r["violations"])
                lost += sum(v["tag"] == "non-termination" for v in r["violations"])
            for a, (p, slot, w, i) in list(live.items()):
                if w.stuck():
                    p.kill(); p.join()
                    del live[a]
                    lost += 1
                    results[i] = self._dead(slot, "non-termination", f"case used more than {CASE_CPU_S}s of CPU time in compiled code")
                    nviol += 1
                    if todo:
                        start()
        for i in sorted(results):
            self._merge(results[i])

    def _dead(self, slot, tag, msg):
        ck = Check(self.pid, self.tier, self.seed, self.only)
        ck.case_key = slot.get()[1] or "worker"
        ck.ncases = 1
        ck.fail(tag, msg)
        return ck.result()

    def result(ck):
        return dict(states=ck._states, nstates=ck.nstates, transitions=ck.transitions, traces=ck.traces, ncases=ck.ncases,
                    outcomes=ck.outcomes, inconclusive=ck.inconclusive, notes=ck.notes,
                    samples=ck.samples, violations=ck.violations)

    def _merge(self, r):
        self._states |= r["states"]
        self.nstates += r["nstates"]
        self.transitions += r["transitions"]
        self.traces += r["traces"]
        self.ncases += r["ncases"]
        for k, v in r["outcomes"].items():
            self.outcome(k, v)
        for k, v in r["inconclusive"].items():
            self.inconclusive[k] = self.inconclusive.get(k, 0) + v
        for k, v in r["notes"].items():
            self.notes[k] = max(v, self.notes[k]) if k in self.notes else v
        for s in r["samples"]:
            self.sample(s)
        self.violations += r["violations"]

    # -- reporting -----------------------------------------------------------
    def finish(self):
        known = load_known(self.pid)
        listed, unlisted = {}, []
        for v in self.violations:
            sig = f"{v['case']}:{v['tag']}"
            for pat, text in known:
                if fnmatch.fnmatchcase(sig, pat):
                    listed.setdefault((pat, text), 0)
                    listed[(pat, text)] += 1
                    break
            else:
                unlisted.append(v)
        for (pat, text), n in listed.items():
            print(f"KNOWN-FINDING: property={self.pid} {text} [{n} cases]")
        wall = time.time() - self.t0
        cov = dict(
            states=len(self._states) + self.nstates,
            transitions=self.transitions,
            traces_validated_against_impl=self.traces,
            samples=self.samples,
            cases=self.ncases,
            outcomes=dict(sorted(self.outcomes.items())),
            exhaustive=not self.inconclusive,
        )
        if self.inconclusive:
            cov["inconclusive"] = dict(sorted(self.inconclusive.items()))
        if self.notes:
            cov["notes"] = {k: (v if isinstance(v, (int, float, str)) else repr(v)) for k, v in self.notes.items()}
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level="model_checking",
                  coverage=cov, assumptions=self.assumptions, wall_s=round(wall, 3),
                  violations=len(unlisted))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False, default=repr)
            f.write("\n")
        print(f"{self.pid} tier={self.tier} seed={self.seed} states={cov['states']} transitions={cov['transitions']} "
              f"traces={cov['traces_validated_against_impl']} cases={self.ncases} wall={wall:.1f}s")
        print("  outcomes: " + ", ".join(f"{k}={v}" for k, v in cov["outcomes"].items()))
        if self.inconclusive:
            print("  inconclusive: " + ", ".join(f"{k}={v}" for k, v in cov["inconclusive"].items()))
        if not unlisted:
            return 0
        rd = os.path.join(VERIF, "replay")
        os.makedirs(rd, exist_ok=True)
        seen = set()
        n = 0
        for v in unlisted:
            key = (v["case"], v["tag"])
            if key in seen:
                continue
            seen.add(key)
            path = os.path.join(rd, f"{self.pid}-{n}.json")
            with open(path, "w") as f:
                json.dump(dict(v, tier=self.tier, seed=self.seed,
                               replay_cmd=f"/verif/check.sh {self.pid} --tier {self.tier} --only '{v['case']}'"),
                          f, indent=1, ensure_ascii=False, default=repr)
            print(f"  case {v['case']} [{v['tag']}]: {v['message'][:600]}")
            if v.get("trace"):
                print("    " + v["trace"].replace("\n", "\n    "))
            print(f"VIOLATION property={self.pid} replay={path}")
            n += 1
            if n >= MAX_VIOL:
                print(f"  ... and {len(unlisted) - n} more")
                break
        return 1


_PM_FN = _PM_CK = _PM_ITEMS = None


def _pm_worker(index):
    item = _PM_ITEMS[index]
    parent = _PM_CK
    ck = Check(parent.pid, parent.tier, parent.seed, parent.only)
    try:
        _PM_FN(ck, item)
    except Stop:
        pass
    except Exception as e:
        ck.case_key = f"worker:{item!r}"[:200]
        ck.fail("exception", repr(e), trace=traceback.format_exc()[-2500:])
    return ck.result()


def _pm_loop(conn, slot):
    global SLOT
    SLOT = slot
    for c in (signal.SIGTERM, signal.SIGINT):
        signal.signal(c, signal.SIG_DFL)
    while True:
        try:
            i = conn.recv()
        except EOFError:
            return
        r = _pm_worker(i)
        SLOT.put("")
        conn.send_bytes(pickle.dumps((i, r)))


def supervise(ck, main):
    """Run main() in a child process.  A child that dies, or hangs in compiled code, in some case is reported as a
    violation of that case; one that is killed from outside gives no verdict."""
    global SLOT
    slot = Slot()
    sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        SLOT = slot
        # a case that eats all memory fails by itself instead of taking the machine down
        resource.setrlimit(resource.RLIMIT_AS, (MEM_BYTES, MEM_BYTES))
        rc = NO_VERDICT
        try:
            rc = main()
        except SystemExit as e:
            rc = e.code if isinstance(e.code, int) else NO_VERDICT
        except BaseException:
            traceback.print_exc()
        finally:
            sys.stdout.flush(); sys.stderr.flush()
            os._exit(rc)
    w = Watch(pid, slot)
    while True:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            break
        if w.stuck():
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            ck._merge(ck._dead(slot, "non-termination", f"case used more than {CASE_CPU_S}s of CPU time in compiled code"))
            return ck.finish()
        time.sleep(0.05 if time.time() - ck.t0 < 5 else 0.5)
    if os.WIFEXITED(st):
        return os.WEXITSTATUS(st)
    sig = os.WTERMSIG(st)
    if sig in (signal.SIGKILL, signal.SIGTERM, signal.SIGINT):
        print(f"the check's process was killed ({sig}); no verdict")
        return NO_VERDICT
    ck._merge(ck._dead(slot, "crash", f"the process running this case died (signal {sig})"))
    return ck.finish()


@contextlib.contextmanager
def cpu_limit(seconds):
    """Raise CaseTimeout after `seconds` of CPU time of this process (nestable: outermost wins)."""
    if signal.getitimer(signal.ITIMER_PROF)[0] > 0:
        yield
        return
    old = signal.signal(signal.SIGPROF, _on_prof)
    signal.setitimer(signal.ITIMER_PROF, seconds, 5)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)


def load_known(pid):
    """Lines 'known: property=<id> case=<pattern> :: <text>' of known_findings.txt."""
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf8"):
            if line.startswith(f"known: property={pid} case="):
                rest = line.split("case=", 1)[1].strip()
                pat, text = rest.split(" :: ", 1)
                out.append((pat, text))
    return out
