"""Runner shared by every check: loads the code under test from /repo, forks
workers, feeds them cases, lets the property's monitor judge what was observed,
and turns the observations into a verdict, an evidence file and a replay file.

A case is a Python literal (repr / ast.literal_eval round trip), so a replay
file alone reproduces what the monitor saw.
"""

import ast
import collections
import gc
import hashlib
import importlib
import json
import os
import random
import resource
import select
import signal
import struct
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class Violation(Exception):
    """The monitor saw the property broken."""


class Hang(BaseException):
    """The code under test used far more CPU time in one call than any call may."""


class Foreign(Exception):
    """Stand-in used by monitors for an exception the API does not document."""


# --------------------------------------------------------------------------
# code under test

ISO = None


def load_repo():
    """import iso8583 from REPO's working tree and nowhere else"""
    global ISO
    sys.dont_write_bytecode = True
    sys.pycache_prefix = "/nonexistent-pycache"
    sys.path.insert(0, REPO)
    for name in [m for m in sys.modules if m == "iso8583" or m.startswith("iso8583.")]:
        del sys.modules[name]
    ISO = importlib.import_module("iso8583")
    importlib.import_module("iso8583.specs")
    where = os.path.realpath(ISO.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        raise SystemExit("harness error: iso8583 was loaded from %s" % where)
    return ISO


# --------------------------------------------------------------------------
# observation of single calls


class Result:
    """What one call did: ok / err (the documented exception) / foreign."""

    __slots__ = ("kind", "out", "enc", "exc")

    def __init__(self, kind, out=None, enc=None, exc=None):
        self.kind, self.out, self.enc, self.exc = kind, out, enc, exc

    @property
    def ok(self):
        return self.kind == "ok"

    def __repr__(self):
        if self.ok:
            return "returned %r, %r" % (self.out, self.enc)
        return "raised %s: %s" % (type(self.exc).__name__, short(self.exc, 300))


def short(x, n=200):
    try:
        s = x if isinstance(x, str) else repr(x) if not isinstance(x, BaseException) else str(x)
    except BaseException as e:  # repr of hostile objects
        s = "<unprintable %s>" % type(e).__name__
    return s if len(s) <= n else s[: n - 20] + "...(%d chars)" % len(s)


CALL_CPU_S = 25.0
FURTHER_S = 250.0  # before the guard, no thorough run starts another round
MAX_KEYS = 3000000  # distinct cases a worker remembers; beyond, they only count as evaluations


def _on_cpu_alarm(sig, frame):
    raise Hang("one call used more than %g s of CPU time" % CALL_CPU_S)


BLOCKED_S = 15.0
_ticks = [0, 0.0]


def _on_tick(sig, frame):
    """a worker that used no CPU time at all for a minute is waiting for itself"""
    now = time.process_time()
    _ticks[0] = _ticks[0] + 1 if now - _ticks[1] < 0.05 else 0
    _ticks[1] = now
    if _ticks[0] >= 4:
        _ticks[0] = 0
        raise Hang("the call waits for ever (no CPU time used for %g s)" % (4 * BLOCKED_S))


def watch_blocking():
    _ticks[:] = [0, time.process_time()]
    signal.signal(signal.SIGALRM, _on_tick)
    signal.setitimer(signal.ITIMER_REAL, BLOCKED_S, BLOCKED_S)


class Obs:
    """Per worker: counters, distinct observed states, and the instrumented calls."""

    def __init__(self):
        self.n = collections.Counter()
        self.states = collections.defaultdict(set)
        self.lines = set()
        self.samples = []

    def hit(self, name, k=1):
        self.n[name] += k

    def state(self, name, value):
        s = self.states[name]
        if len(s) < 200000:
            s.add(value)

    def _call(self, what, fn, documented):
        signal.setitimer(signal.ITIMER_VIRTUAL, CALL_CPU_S)
        try:
            out = fn()
        except documented as e:
            self.n[what + ".rejected"] += 1
            return Result("err", exc=e)
        except Hang:
            raise
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt, SystemExit)):
                raise
            self.n[what + ".foreign"] += 1
            return Result("foreign", exc=e)
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        self.n[what + ".returned"] += 1
        return out

    def enc(self, doc, spec):
        r = self._call("encode", lambda: ISO.encode(doc, spec), ISO.EncodeError)
        if isinstance(r, Result):
            return r
        if not (isinstance(r, tuple) and len(r) == 2 and isinstance(r[0], (bytes, bytearray)) and isinstance(r[1], dict)):
            return Result("foreign", exc=Foreign("encode returned %s instead of (bytearray, dict)" % short(r)))
        return Result("ok", r[0], r[1])

    def dec(self, wire, spec):
        r = self._call("decode", lambda: ISO.decode(wire, spec), ISO.DecodeError)
        if isinstance(r, Result):
            return r
        if not (isinstance(r, tuple) and len(r) == 2 and isinstance(r[0], dict) and isinstance(r[1], dict)):
            return Result("foreign", exc=Foreign("decode returned %s instead of (dict, dict)" % short(r)))
        return Result("ok", r[0], r[1])

    def pp(self, *a, **k):
        r = self._call("pp", lambda: ISO.pp(*a, **k), ())
        if isinstance(r, Result):
            return r
        return Result("ok", r)


# --------------------------------------------------------------------------
# which lines of the code under test did the monitors see executed (evidence only)

_TOOL = 3


def watch_lines(obs):
    mon = sys.monitoring
    root = os.path.realpath(REPO) + os.sep

    def on_line(code, line):
        if code.co_filename.startswith(root):
            obs.lines.add((code.co_filename[len(root) :], line))
        return mon.DISABLE

    mon.use_tool_id(_TOOL, "verif-lines")
    mon.register_callback(_TOOL, mon.events.LINE, on_line)
    mon.set_events(_TOOL, mon.events.LINE)


def executable_lines():
    res = set()
    root = os.path.realpath(REPO) + os.sep
    for mod in ("decoder", "encoder", "tools"):
        path = os.path.join(REPO, "iso8583", mod + ".py")
        try:
            code = compile(open(path, encoding="utf-8").read(), path, "exec")
        except Exception:
            continue
        stack = [c for c in code.co_consts if hasattr(c, "co_code")]
        while stack:
            c = stack.pop()
            if c.co_flags & 0x2:  # functions only
                res.update((os.path.realpath(path)[len(root) :], ln) for _, _, ln in c.co_lines() if ln and ln != c.co_firstlineno)
            stack.extend(x for x in c.co_consts if hasattr(x, "co_code"))
    return res


# --------------------------------------------------------------------------
# checks


class Check:
    """Base class: a property's workload and monitor."""

    id = None
    rule = ""
    required = {}  # counter -> minimum, or the run is inconclusive
    lines = True
    waits = False  # the monitor itself waits for children or threads
    rounds = True  # thorough: generate again with new random streams while there is time
    workers = 8

    def setup(self, ctx):
        pass

    def cases(self, ctx):
        raise NotImplementedError

    def judge(self, case, obs):
        """raise Violation; return True when the case was non-trivial"""
        raise NotImplementedError


class Ctx:
    """What a workload generator may depend on."""

    def __init__(self, tier, seed, shard, nshards):
        self.tier, self.seed, self.shard, self.nshards = tier, seed, shard, nshards
        self.thorough = tier == "thorough"
        self.round = 0

    def again(self):
        """the context of a further round: other random streams"""
        c = Ctx(self.tier, "%s/%d" % (str(self.seed).split("/")[0], self.round + 1), self.shard, self.nshards)
        c.round = self.round + 1
        return c

    def rng(self, name):
        """private random stream of this shard"""
        h = hashlib.sha256(repr((self.seed, name, self.shard, self.tier)).encode()).digest()
        return random.Random(h)

    def shared_rng(self, name):
        """random stream common to all shards (for sharded enumerations)"""
        h = hashlib.sha256(repr((self.seed, name, self.tier)).encode()).digest()
        return random.Random(h)

    def mine(self, it):
        """this shard's part of an enumeration every shard generates"""
        for i, x in enumerate(it):
            if i % self.nshards == self.shard:
                yield x

    def n(self, quick, thorough=None):
        """this shard's share of a number of random cases"""
        k = quick if not self.thorough else (thorough if thorough is not None else quick * 12)
        return max(1, k // self.nshards)


def case_key(case):
    return hashlib.blake2b(repr(case).encode("utf-8", "surrogatepass"), digest_size=8).digest()


def judge_one(check, case, obs):
    """-> (nontrivial, None) or (False, violation text)"""
    try:
        return bool(check.judge(case, obs)), None
    except Violation as v:
        return False, str(v)
    except Hang as h:
        return False, str(h)
    except MemoryError:
        return False, "MemoryError: the call needed more memory than the worker may use"
    except Exception:
        # the monitors read every result the current code can produce; one they
        # cannot read at all is not a result the property allows
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        return False, "the result could not be interpreted by the monitor: " + traceback.format_exc(limit=-3)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def _worker(check, ctx, wfd, deadline, mem_bytes):
    obs = Obs()
    signal.signal(signal.SIGVTALRM, _on_cpu_alarm)
    resource.setrlimit(resource.RLIMIT_AS, (mem_bytes, resource.getrlimit(resource.RLIMIT_AS)[1]))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    if check.lines:
        watch_lines(obs)
    if not check.waits:
        watch_blocking()
    check.setup(ctx)
    seen = set()
    total = 0
    trivial = 0
    cut = False
    viol = None
    # a thorough run starts further rounds while one more would fit, and ends
    # the last one early rather than late
    spare = deadline - FURTHER_S
    while True:
        began = time.monotonic()
        for case in check.cases(ctx):
            total += 1
            nt, v = judge_one(check, case, obs)
            if v is not None:
                viol = (v, repr(case))
                break
            if not nt:
                trivial += 1
            elif len(seen) < MAX_KEYS:
                seen.add(case_key(case))
                if len(obs.samples) < 3 and (len(seen) in (1, 50, 500)):
                    obs.samples.append(short(case, 700))
            now = time.monotonic()
            if now > deadline or ctx.round and now > spare:
                cut = now > deadline
                break
        now = time.monotonic()
        if viol or cut or not (ctx.thorough and check.rounds) or now + (now - began) / 2 > spare:
            break
        ctx = ctx.again()
    obs.n["max rounds"] = ctx.round + 1
    signal.setitimer(signal.ITIMER_REAL, 0)
    check_done = getattr(check, "finish", None)
    if viol is None and check_done is not None:
        check_done(obs)
    rep = {
        "total": total,
        "trivial": trivial,
        "cut": cut,
        "viol": viol,
        "n": dict(obs.n),
        "states": {k: sorted(map(repr, v)) if len(v) <= 60 else len(v) for k, v in obs.states.items()},
        "state_keys": {k: [hashlib.blake2b(repr(x).encode("utf-8", "surrogatepass"), digest_size=8).hexdigest() for x in v] for k, v in obs.states.items()},
        "samples": obs.samples,
        "lines": sorted(obs.lines),
    }
    head = json.dumps(rep).encode()
    keys = b"".join(seen)
    data = struct.pack("<QQ", len(head), len(keys)) + head + keys
    with os.fdopen(wfd, "wb") as f:
        f.write(data)


def run(check, tier, seed):
    """-> exit status"""
    t0 = time.monotonic()
    load_repo()
    guard = {"quick": 420.0, "thorough": 700.0}[tier]
    deadline = t0 + guard
    nshards = check.workers
    kids = {}
    gc.collect()
    for shard in range(nshards):
        rfd, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                os.close(rfd)
                for other in kids.values():
                    os.close(other[0])
                sys.stdout.flush()
                _worker(check, Ctx(tier, seed, shard, nshards), wfd, deadline, 3 << 30)
                code = 0
            except BaseException:
                traceback.print_exc()
                sys.stderr.flush()
            finally:
                os._exit(code)
        os.close(wfd)
        kids[pid] = [rfd, bytearray(), shard]
    reports, broken = [], []
    by_fd = {v[0]: (pid, v) for pid, v in kids.items()}
    hard = deadline + 90
    found = None
    while by_fd:
        left = hard - time.monotonic()
        if left <= 0:
            broken.append("worker did not finish in time")
            break
        ready, _, _ = select.select(list(by_fd), [], [], min(left, 5))
        for fd in ready:
            pid, rec = by_fd[fd]
            chunk = os.read(fd, 1 << 20)
            if chunk:
                rec[1] += chunk
                continue
            os.close(fd)
            del by_fd[fd]
            _, status = os.waitpid(pid, 0)
            kids.pop(pid)
            if status != 0 or len(rec[1]) < 16:
                broken.append("worker %d ended with status %d" % (rec[2], status))
                continue
            a, b = struct.unpack("<QQ", bytes(rec[1][:16]))
            rep = json.loads(bytes(rec[1][16 : 16 + a]))
            rep["keys"] = bytes(rec[1][16 + a : 16 + a + b])
            rep["shard"] = rec[2]
            reports.append(rep)
            if rep["viol"] and found is None:
                found = rep
        if found:
            break
    for pid, rec in kids.items():
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(pid, 0)
    return conclude(check, tier, seed, t0, reports, broken, found)


def conclude(check, tier, seed, t0, reports, broken, found):
    n = collections.Counter()
    keys = set()
    states = collections.defaultdict(set)
    vals = collections.defaultdict(set)
    lines = set()
    samples = []
    for rep in reports:
        for name, v in rep["n"].items():
            n[name] = max(n[name], v) if name.startswith("max ") else n[name] + v
        k = rep["keys"]
        keys.update(k[i : i + 8] for i in range(0, len(k), 8))
        for name, hs in rep["state_keys"].items():
            states[name].update(hs)
        for name, v in rep["states"].items():
            if isinstance(v, list):
                vals[name].update(v)
        lines.update(map(tuple, rep["lines"]))
        samples.extend(rep["samples"][:2])
    total = sum(r["total"] for r in reports)
    missing = ["%s=%d<%d" % (k, n[k], m) for k, m in check.required.items() if n[k] < m]
    cov = {
        "evaluations": total,
        "distinct_nontrivial": len(keys),
        "rule": check.rule,
        "samples": samples[:10] or ["none"],
        "observed_events": dict(sorted(n.items())),
        "distinct_states": {k: len(v) for k, v in sorted(states.items())},
        "states_listed": {k: sorted(v) for k, v in sorted(vals.items()) if len(states[k]) <= 60},
        "workers": len(reports),
        "cut_by_time_guard": any(r["cut"] for r in reports),
    }
    if check.lines and lines:
        ex = executable_lines()
        cov["code_lines_executed"] = len(ex & lines)
        cov["code_lines_executable"] = len(ex)
        cov["code_lines_missed"] = sorted("%s:%d" % x for x in ex - lines)[:40]
    status = "held"
    if found:
        status = "violated"
    elif broken or missing or not reports:
        status = "inconclusive"
    ev = {
        "property": check.id,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": cov,
        "wall_s": round(time.monotonic() - t0, 2),
        "verdict": status,
        "violations": 1 if found else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", check.id + ".json")
    tmp = path + ".tmp%d" % os.getpid()
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, sort_keys=False)
        f.write("\n")
    os.replace(tmp, path)
    if found:
        msg, case = found["viol"]
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        tag = hashlib.blake2b(case.encode("utf-8", "surrogatepass"), digest_size=5).hexdigest()
        rpath = os.path.join(rdir, "%s-%s.json" % (check.id, tag))
        with open(rpath, "w") as f:
            json.dump({"property": check.id, "tier": tier, "seed": seed, "shard": found["shard"], "what": msg, "case": case}, f, indent=1)
            f.write("\n")
        print("%s: %s" % (check.id, short(msg, 1500).encode("utf-8", "backslashreplace").decode()))
        print("case: %s" % short(case, 1500).encode("utf-8", "backslashreplace").decode())
        print("VIOLATION property=%s replay=%s" % (check.id, rpath), flush=True)
        return 1
    print("%s %s: %s; %d cases, %d distinct non-trivial, %.1f s" % (check.id, tier, status, total, len(keys), time.monotonic() - t0))
    for k, v in sorted(n.items()):
        print("  observed %s = %d" % (k, v))
    if status == "inconclusive":
        for b in broken:
            print("INCONCLUSIVE: " + b)
        for m in missing:
            print("INCONCLUSIVE: the monitor observed too little: " + m)
        return 2
    return 0


def replay(check, path):
    load_repo()
    signal.signal(signal.SIGVTALRM, _on_cpu_alarm)
    rec = json.load(open(path))
    case = ast.literal_eval(rec["case"])
    obs = Obs()
    if not check.waits:
        watch_blocking()
    check.setup(Ctx(rec.get("tier", "quick"), rec.get("seed", 1), 0, 1))
    _, v = judge_one(check, case, obs)
    if v is None:
        print("replay of %s: no violation (a violation that needs earlier calls replays with the whole check, seed %s)" % (path, rec.get("seed")))
        return 0
    print("%s: %s" % (check.id, v.encode("utf-8", "backslashreplace").decode()))
    print("VIOLATION property=%s replay=%s" % (check.id, path))
    return 1
