"""C26-C30: printing everything handed out, environment independence, bounded
retention, nested calls, interrupted calls."""

import codecs
import collections.abc
import copy
import gc
import hashlib
import io
import itertools
import os
import pickle
import random
import re
import subprocess
import sys
import tempfile
import tracemalloc
import zlib

import core
import gen
import model
import streams
import toolchecks
import wirechecks
from core import Check, Violation, short
from statechecks import doc_for, freeze, outcome, repo_file, run_call


def describe(spec):
    for k, fs in spec.items():
        fs.setdefault("desc", "Field %s" % k)
    return spec


# --------------------------------------------------------------------------
# C26


class C26(Check):
    id = "C26"
    rule = "valid and faulty doc and wire cases; the returned dictionaries, or the partial dictionaries of the error, are printed at random widths and read back; non-trivial when at least one dictionary was printed"
    required = {"decoded printed": 8000, "breakdowns printed": 8000, "partial decoded printed": 4000, "partial breakdowns printed": 8000}

    def cases(self, ctx):
        rng = ctx.rng("c26 sample")
        for kind, spec, x in itertools.chain(
            streams.random_docs(ctx, ctx.n(3500), name="c26"),
            streams.faulty_docs(ctx, ctx.n(5000), name="c26f"),
            streams.tricky_docs(ctx),
            streams.shipped_docs(ctx, ctx.n(1500)),
            streams.wires_from(streams.random_docs(ctx, ctx.n(2500), name="c26w"), ctx, "c26w", 0.3, mutants=2, trunc=0.05, extra=0.2),
            streams.mixed_wires(ctx, 0.1),
            wirechecks.pad_docs(ctx),
        ):
            if not ctx.thorough and rng.random() < 0.65:
                continue
            yield kind, describe({k: dict(v) for k, v in spec.items()}), x

    def judge(self, case, obs):
        kind, spec, x = case
        rng = random.Random(len(repr(x)))
        todo = []
        if kind == "wire":
            r = obs.dec(x, spec)
            if r.ok:
                todo = [("decoded printed", r.out), ("breakdowns printed", r.enc)]
            elif r.kind == "err":
                todo = [("partial decoded printed", r.exc.doc_dec), ("partial breakdowns printed", r.exc.doc_enc)]
        else:
            doc = dict(x)
            r = obs.enc(doc, spec)
            if r.ok:
                # field keys in spellings encode ignores are shown by nobody's rules
                todo = [("breakdowns printed", r.enc)]
                if not any(k.isnumeric() and k not in spec for k in doc if isinstance(k, str)) and all(isinstance(v, str) for k, v in doc.items() if isinstance(k, str) and (k in "htp" or k.isnumeric())):
                    todo.append(("decoded printed", doc))
            elif r.kind == "err":
                todo = [("partial breakdowns printed", r.exc.doc_enc)]
        for name, d in todo:
            dw, lw = rng.choice((30, 30, 0, -3, 1, 12, 60)), rng.choice((80, 80, 40, 20, 5, 1, 0, -7, 500))
            if sum(len(v) if isinstance(v, str) else len(v.get("data", "")) for v in d.values() if isinstance(v, (str, dict))) > 6000:
                lw = 500
            before = freeze(d)
            how = rng.choice(("stream", "onlywrite", "stdout"))
            try:
                READ_BACK.judge(("pp", spec, (d, dw, lw, how)), obs)
            except Violation as v:
                raise Violation("%s: %s" % (name, v)) from None
            if freeze(d) != before:
                raise Violation("pp changed the dictionary it printed: %s" % short(before, 400))
            obs.hit(name)
            obs.state("printed shapes", (name, len(d)))
        return bool(todo)


READ_BACK = toolchecks.C21()


# --------------------------------------------------------------------------
# C27

# name -> (interpreter flags, environment, what the child does before the calls)
VARIANTS = {
    "hash seed 1": ([], {"PYTHONHASHSEED": "1"}, ""),
    "hash seed 4242": ([], {"PYTHONHASHSEED": "4242"}, ""),
    "hash seed random": ([], {"PYTHONHASHSEED": "random"}, ""),
    "-O": (["-O"], {}, ""),
    "-OO": (["-OO"], {}, ""),
    "-X dev -bb -W error": (["-X", "dev", "-bb", "-W", "error"], {}, ""),
    "C locale, no UTF-8 mode": (["-X", "utf8=0"], {"LC_ALL": "C", "PYTHONCOERCECLOCALE": "0"}, ""),
    "ASCII standard streams": (["-X", "utf8=0"], {"PYTHONIOENCODING": "ascii"}, ""),
    "locale set by the application": ([], {"LC_ALL": "C.UTF-8"}, "locale"),
    "small int digits limit": (["-X", "int_max_str_digits=640"], {}, ""),
    "no int digits limit": (["-X", "int_max_str_digits=0"], {}, ""),
    "gc at every allocation": ([], {}, "gc"),
    "gc off": ([], {}, "nogc"),
    "traced": ([], {}, "trace"),
    "profiled": ([], {}, "profile"),
    "deep stack": ([], {}, "deep"),
    "other working directory": ([], {}, "chdir"),
    "in a thread": ([], {}, "thread"),
}

CHILD = r"""
import gc, os, pickle, sys, threading
repo, here, mode, src, dst = sys.argv[1:6]
sys.path[:0] = [here]
sys.dont_write_bytecode = True
import core
core.REPO = repo
core.load_repo()
import statechecks
with open(src, "rb") as f:
    calls = pickle.load(f)
res = []
import warnings
seen = []
warnings.showwarning = lambda m, c, *a, **k: seen.append("%s: %s" % (c.__name__, m))
def go():
    for c in calls:
        res.append(repr(statechecks.run_call_plain(c)))
if mode == "locale":
    import locale
    locale.setlocale(locale.LC_ALL, "")
if mode == "gc":
    gc.set_threshold(1, 1, 1)
if mode == "nogc":
    gc.disable()
if mode == "trace":
    def t(f, e, a):
        return t
    sys.settrace(t)
if mode == "profile":
    sys.setprofile(lambda f, e, a: None)
if mode == "chdir":
    os.chdir("/")
if mode == "deep":
    def down(n):
        return go() if n == 0 else down(n - 1)
    down(600)
elif mode == "thread":
    th = threading.Thread(target=go)
    th.start()
    th.join()
else:
    go()
sys.settrace(None)
sys.setprofile(None)
with open(dst, "wb") as f:
    pickle.dump((res, seen), f)
"""


class C27(Check):
    id = "C27"
    waits = True
    rule = "blocks of encode, decode and pp calls (valid and failing) repeated in fresh interpreters with %d different settings (hash seeds, -O, -OO, -X dev -bb -W error, locales, int digit limits, gc, tracing, deep stack, working directory, thread); every outcome must equal this process's; one case = one block under one setting" % len(VARIANTS)
    required = {"calls compared": 20000, "failures compared": 4000, "settings": 18}

    def setup(self, ctx):
        self.tmp = None

    def cases(self, ctx):
        rng = ctx.rng("c27")
        names = sorted(VARIANTS)
        blocks = 6 if not ctx.thorough else 40
        for b in range(blocks):
            for name in ctx.mine(names):
                yield "env", name, rng.getrandbits(48), 240 if not ctx.thorough else 400

    def calls(self, seed, n):
        ctx = core.Ctx("quick", seed, 0, 1)
        rng = ctx.rng("env calls")
        out = []
        k = n // 8
        for _, spec, doc in itertools.chain(streams.random_docs(ctx, 2 * k, name="c27v"), streams.faulty_docs(ctx, 2 * k, name="c27f", kinds=("size", "charset", "nonhex", "oddhex", "missing-t", "missing-h", "t-size", "t-bad", "undefined", "codec", "key", "nofit")), itertools.islice(streams.shipped_docs(ctx, k), k)):
            out.append(("enc", spec, doc, None))
        for _, spec, wire in itertools.islice(streams.wires_from(streams.random_docs(ctx, 2 * k, name="c27w"), ctx, "c27w", 0.3, mutants=1, trunc=0.02, extra=0.2), 3 * k):
            out.append(("dec", spec, wire, None))
        for _, spec, (doc, dw, lw, _) in toolchecks.pp_cases(ctx, k):
            if sum(len(v) if isinstance(v, str) else len(v["data"]) for v in doc.values()) < 3000:
                out.append(("pp", spec, doc, (dw, lw)))
        # several offenders in one document: the texts list them
        for _ in range(k // 2):
            spec, doc = gen.rand_message(rng, True)
            bad = rng.choice((
                lambda: "0" * rng.randrange(1, 9) + str(rng.randrange(2, 193)),
                lambda: str(rng.randrange(193, 10**9)),
                lambda: rng.choice((rng.randrange(500), None, (1, "a"), 2.5, b"xyz", frozenset([5]), True)),
                lambda: rng.choice(("\u00b2", "\u2460", "\u0663\u0664", "\u00bd", "\u4e03", "\u2167")),
                lambda: rng.choice((" 2", "+3", "2 ", "1_0", "-5", "", "x", "T", "02", "200", "\u0663")),
            ))
            for _ in range(rng.choice((2, 3, 6, 12))):
                doc[bad()] = "x"
            out.append(("enc", spec, doc, None))
        rng.shuffle(out)
        return out

    def judge(self, case, obs):
        _, name, seed, n = case
        calls = self.calls(seed, n)
        want = []
        quiet = core.Obs()
        blob = pickle.dumps(calls, 4)
        for c in pickle.loads(blob):
            want.append(repr(run_call(c, quiet)[0]))
        flags, env, mode = VARIANTS[name]
        with tempfile.TemporaryDirectory(prefix="verif-env-") as d:
            with open(d + "/in", "wb") as f:
                f.write(blob)
            e = {k: v for k, v in os.environ.items() if not k.startswith(("LC_", "LANG", "PYTHON"))}
            e.update({"PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0"})
            e.update(env)
            p = subprocess.run([sys.executable, "-B", *flags, "-c", CHILD, core.REPO, os.path.dirname(os.path.abspath(__file__)), mode, d + "/in", d + "/out"], env=e, cwd=d, capture_output=True, timeout=600)
            if p.returncode != 0 or not os.path.exists(d + "/out"):
                raise Violation("with %s the library cannot be loaded or used: %s" % (name, short(p.stderr.decode("utf-8", "replace")[-1500:], 1500)))
            with open(d + "/out", "rb") as f:
                got, warned = pickle.load(f)
        for c, w, g in zip(calls, want, got):
            obs.hit("calls compared")
            if not w.startswith("('ok'") and not w.startswith("('pp', 'ok'"):
                obs.hit("failures compared")
            if w != g:
                raise Violation("%s with %s gives %s, otherwise %s; arguments %s" % (c[0], name, short(g, 500), short(w, 500), short(c[1:], 500)))
        if warned:
            raise Violation("with %s a call emitted a warning: %s" % (name, short(warned[:3])))
        obs.state("settings", name)
        return True

    def finish(self, obs):
        obs.n["settings"] = len(obs.states["settings"])


# --------------------------------------------------------------------------
# C28


class C28(Check):
    id = "C28"
    rule = "phases of calls of one kind (encode, decode, pp; succeeding or failing; one shared specification or a new one per call; or failing with one particular error) with every result dropped; memory allocated by the library's own lines and still alive is measured after each phase, and further phases follow while it grows; one case = one such run"
    required = {"runs measured": 50, "calls made": 60000, "failing runs": 30}
    lines = False
    rounds = False

    KINDS = ("enc ok", "enc fail", "dec ok", "dec fail", "pp")

    def cases(self, ctx):
        rng = ctx.shared_rng("c28")
        todo = []
        for rep in range(1 if not ctx.thorough else 10):
            for kind in self.KINDS:
                for fresh in (False, True):
                    for big in (False, True):
                        todo.append(("retain", kind, fresh, big, rng.getrandbits(48), 900 if not ctx.thorough else 2500))
        # every worker gets some long and some short runs
        rng.shuffle(todo)
        yield from ctx.mine(todo)
        yield from ctx.mine([("retain", k, f, False, rng.getrandbits(48), 900) for k in self.KINDS for f in (False, True)])
        # one run per error the code can raise: each worker its own pool
        rng = ctx.rng("c28 themes")
        seed = rng.getrandbits(48)
        size = 1500 if not ctx.thorough else 12000
        self.pools = {seed: self.pool(random.Random(seed), size)}
        themes = sorted(self.pools[seed])
        for i, theme in enumerate(themes):
            # workers see nearly the same errors: share them out by their text
            if (zlib.crc32(repr(theme).encode()) + ctx.shard) % ctx.nshards < (2 if not ctx.thorough else ctx.nshards):
                yield "theme", theme, seed, size, 600 if not ctx.thorough else 3000

    def pool(self, rng, n):
        """failing calls by the kind of error they end in"""
        iso = core.ISO
        out = {}
        for i in range(n):
            spec, doc = gen.rand_message(rng, True)
            describe(spec)
            if rng.random() < 0.5:
                spec["h"] = {"data_enc": "ascii", "len_enc": "ascii", "len_type": 0, "max_len": 3, "desc": "H"}
                doc["h"] = "hdr"
            if any(fs["max_len"] > 3000 for fs in spec.values() if not fs["len_type"]) or sum(map(len, doc.values())) > 2500:
                continue
            calls = []
            m = streams.wire_of(spec, doc)
            if m is not None:
                for _ in range(3):
                    calls.append(("dec", spec, gen.mutate(spec, m.wire, m, rng)))
            s2, d2 = copy.deepcopy(spec), dict(doc)
            gen.break_doc(s2, d2, rng)
            if rng.random() < 0.1:
                d2[rng.choice((3, None, b"2", 2.5))] = "x"
            elif rng.random() < 0.1 and d2:
                d2[rng.choice(list(d2))] = rng.choice((None, 5, b"00", []))
            calls.append(("enc", s2, d2))
            if m is not None and s2 != spec:
                calls.append(("dec", s2, m.wire))
            for call in calls:
                try:
                    if call[0] == "enc":
                        iso.encode(dict(call[2]), call[1])
                    else:
                        iso.decode(call[2], call[1])
                except (iso.EncodeError, iso.DecodeError) as e:
                    out.setdefault((call[0], re.sub(r"\d+", "#", re.sub(r"\[.*\]|'.*'", "...", e.msg))), []).append(call)
                except Exception:
                    pass  # C11 and C12 judge that
        return {k: v for k, v in out.items() if len(v) >= 3}

    pools = {}

    def theme_batch(self, theme, seed, size, n):
        calls = []
        if seed not in self.pools:
            self.pools = {seed: self.pool(random.Random(seed), size)}
        members = self.pools[seed][theme]
        for i in range(n):
            what, spec, arg = members[i % len(members)]
            calls.append((what, {k: dict(v) for k, v in spec.items()}, dict(arg) if what == "enc" else arg))
        return calls

    def batch(self, kind, fresh, big, rng, n):
        """n distinct calls; with fresh=False they share one specification"""
        calls = []
        spec = None
        while len(calls) < n:
            if spec is None or fresh or len(calls) % 300 == 299 and rng.random() < 0.1:
                spec, doc = gen.rand_message(rng, not big)
                if any(fs["max_len"] > 3000 and not fs["len_type"] for fs in spec.values()):
                    spec = None
                    continue
                for k2, fs in spec.items():
                    fs["desc"] = "Field %s %x" % (k2, rng.getrandbits(64))
            doc = doc_for(spec, rng)
            if sum(map(len, doc.values())) > 2500:
                spec = None
                continue
            if kind.startswith("enc"):
                if kind.endswith("fail"):
                    bad = rng.random()
                    if bad < 0.3:
                        doc["t"] = "02"
                    elif bad < 0.5:
                        doc[str(rng.randrange(200, 10**6))] = "x"
                    elif bad < 0.7:
                        doc["x%d" % rng.getrandbits(40)] = "remark"
                        doc.pop("t")
                    else:
                        gen.break_doc(copy.deepcopy(spec), doc, rng, kind=rng.choice(("size", "charset", "nonhex", "oddhex")))
                calls.append(("enc", spec, doc))
            elif kind.startswith("dec"):
                m = streams.wire_of(spec, doc)
                if m is None:
                    spec = None
                    continue
                w = m.wire
                if kind.endswith("fail"):
                    w = w[: rng.randrange(len(w))] if rng.random() < 0.5 else gen.mutate(spec, w, m, rng)
                calls.append(("dec", spec, w if rng.random() < 0.7 else bytearray(w)))
            else:
                doc["p"] = "%016X" % rng.getrandbits(64)
                doc = {k: v[:200] for k, v in doc.items()}
                calls.append(("pp", spec, doc))
        return calls

    def judge(self, case, obs):
        if case[0] == "theme":
            _, theme, seed, size, n = case
            name = "calls that fail with %r" % (theme,)
            fail = True
            make = lambda: self.theme_batch(theme, seed, size, n)
        else:
            _, kind, fresh, big, seed, n = case
            rng = random.Random(seed)
            name = "%s, %s" % (kind, "a new specification each" if fresh else "one specification")
            fail = kind.endswith("fail")
            make = lambda: self.batch(kind, fresh, big, rng, n)
        live = []
        failed = 0
        ready = [make() for _ in range(3)]
        tracemalloc.start()
        try:
            # a bounded cache may still be filling at first, so growth has to
            # persist to count
            while len(live) < 3 or len(live) < 14 and live[-1] - live[-2] > 400:
                held, f = self.phase(ready.pop() if ready else make())
                live.append(held)
                failed += f
        finally:
            tracemalloc.stop()
        obs.hit("runs measured")
        obs.hit("calls made", len(live) * n)
        if fail and failed > n:
            obs.hit("failing runs")
        obs.n["max bytes retained by the library"] = max(obs.n["max bytes retained by the library"], live[-1])
        obs.n["max phases of a run"] = max(obs.n["max phases of a run"], len(live))
        if len(live) == 14 and live[-1] - live[-7] > 4000:
            raise Violation("every %d more calls (%s) make the library retain more memory (bytes after each phase: %s)" % (n, name, live))
        obs.state("runs", case[1:4] if case[0] == "retain" else case[1])
        return True

    def phase(self, calls):
        """make the calls, drop everything; bytes the library's lines have
        allocated so far and still hold"""
        iso = core.ISO
        failed = 0
        sink = io.StringIO()
        for what, spec, arg in calls:
            try:
                if what == "enc":
                    iso.encode(arg, spec)
                elif what == "dec":
                    iso.decode(arg, spec)
                else:
                    iso.pp(arg, spec, 10, sink, 60)
                    sink.seek(0)
                    sink.truncate()
            except (iso.EncodeError, iso.DecodeError):
                failed += 1
        del calls, spec, arg, sink
        gc.collect()
        dirs = {core.REPO, os.path.realpath(core.REPO)}
        snap = tracemalloc.take_snapshot().filter_traces([tracemalloc.Filter(True, os.path.join(d, "iso8583", "*")) for d in dirs])
        return sum(t.size for t in snap.traces), failed


# --------------------------------------------------------------------------
# C29


class Nest:
    """Runs the inner calls of a case at chosen points of the outer call."""

    def __init__(self, inner, points, depth):
        self.inner, self.points, self.depth = inner, points, depth
        self.n = 0
        self.active = 0
        self.results = []

    def poke(self):
        if self.active >= self.depth:
            return
        self.n += 1
        if self.n in self.points:
            self.active += 1
            try:
                i = self.n % len(self.inner)
                self.results.append((i, self.active, self.inner[i]()))
            finally:
                self.active -= 1


class NestMap(collections.abc.Mapping):
    def __init__(self, d, nest):
        self._d, self._nest = d, nest

    def __getitem__(self, k):
        self._nest.poke()
        v = self._d[k]
        return NestMap(v, self._nest) if isinstance(v, dict) else v

    def __iter__(self):
        return iter(self._d)

    def __len__(self):
        return len(self._d)


class NestOut(io.StringIO):
    nest = None

    def write(self, s):
        n = io.StringIO.write(self, s)
        if self.nest is not None:
            self.nest.poke()
        return n


_CURRENT = [None]


def _nest_codec(name):
    if name != "verif_nest":
        return None

    def enc(t, errors="strict"):
        if _CURRENT[0] is not None:
            _CURRENT[0].poke()
        return codecs.utf_8_encode(t, errors)

    def dec(b, errors="strict"):
        if _CURRENT[0] is not None:
            _CURRENT[0].poke()
        return codecs.utf_8_decode(b, errors, True)

    return codecs.CodecInfo(enc, dec, name=name)


codecs.register(_nest_codec)


class C29(Check):
    id = "C29"
    rule = "an outer encode, decode or pp call during which 1-6 inner calls (valid and failing, same or other specification) run from specification lookups, codecs or stream writes, up to three levels deep; outer and inner outcomes must equal isolated ones; non-trivial when an inner call ran"
    required = {"inner calls compared": 20000, "outer calls compared": 6000, "from lookups": 2000, "from codecs": 1000, "from writes": 1000}

    def cases(self, ctx):
        rng = ctx.rng("c29")
        for _ in range(ctx.n(40000)):
            yield "nest", rng.getrandbits(48), rng.choice(("lookups", "lookups", "codecs", "codecs", "writes")), rng.choice((1, 1, 2, 3))

    def judge(self, case, obs):
        _, seed, how, depth = case
        rng = random.Random(seed)
        fields = rng.sample([n for n in range(2, 193) if n != 65], 3)
        specs = []
        for _ in range(2):
            s, _ = gen.rand_message(rng, True, fields)
            specs.append(describe(s))
        if how == "codecs":
            for s in specs:
                for k, fs in s.items():
                    if k not in ("p", "1") and fs["data_enc"] != "b" and rng.random() < 0.7:
                        fs["data_enc"] = "verif_nest"
                    if k not in ("t", "p", "1") and fs["len_enc"] not in ("b", "bcd") and rng.random() < 0.7:
                        fs["len_enc"] = "verif_nest"

        def some(kind=None):
            spec = rng.choice(specs)
            plain = {k: dict(v, **{a: "utf-8" for a in ("data_enc", "len_enc") if v[a] == "verif_nest"}) for k, v in spec.items()}
            doc = {k: v[:300] if len(v) > 300 else v for k, v in doc_for(plain, rng).items()}
            kind = kind or rng.choice(("enc", "enc", "dec", "dec", "pp"))
            if kind == "enc":
                if rng.random() < 0.25:
                    gen.break_doc(copy.deepcopy(plain), doc, rng, kind=rng.choice(("size", "charset", "nonhex", "oddhex", "missing-t", "t-size", "key")))
                return kind, spec, doc, None
            if kind == "dec":
                m = streams.wire_of(plain, doc)
                w = m.wire if m is not None else b"0200" + b"4000000000000000" + b"123"
                if m is not None and rng.random() < 0.25:
                    w = gen.mutate(plain, w, m, rng)
                return kind, spec, w, None
            doc["p"] = "F" * 16
            return kind, spec, doc, (rng.choice((0, 5, 30)), rng.choice((20, 60, 80)))

        outer = some("pp" if how == "writes" else rng.choice(("enc", "dec")))
        inner = [some() for _ in range(rng.choice((1, 2, 3)))]
        quiet = core.Obs()
        _CURRENT[0] = None
        alone = lambda c: run_call((c[0], c[1], copy.deepcopy(c[2]), c[3]), quiet)[0]
        want_outer, want_inner = alone(outer), [alone(c) for c in inner]
        nest = Nest([], (), 1)

        def shape(c, watched):
            spec = NestMap(c[1], nest) if how == "lookups" and watched else c[1]
            return (c[0], spec, copy.deepcopy(c[2]), c[3])

        # how many chances does the outer call give?
        _CURRENT[0] = nest if how == "codecs" else None
        run_nested(shape(outer, True), nest, how, quiet)
        if nest.n == 0:
            _CURRENT[0] = None
            return False
        last = min(nest.n, 80)
        points = set(rng.sample(range(1, last + 1), min(last, rng.choice((1, 2, 4, 6)))))
        nest = Nest([], points, depth)
        nest.inner = [lambda c=c: run_nested(shape(c, depth > 1), nest, how, quiet) for c in inner]
        _CURRENT[0] = nest if how == "codecs" else None
        try:
            got = run_nested(shape(outer, True), nest, how, obs)
        finally:
            _CURRENT[0] = None
        for i, level, g in nest.results:
            obs.hit("inner calls compared")
            obs.state("nesting", (how, outer[0], inner[i][0], level))
            if g != want_inner[i]:
                raise Violation("%s called from inside %s (%s, level %d) gave %s, alone it gives %s" % (inner[i][0], outer[0], how, level, short(g, 500), short(want_inner[i], 500)))
        obs.hit("outer calls compared")
        if nest.results:
            obs.hit("from " + how)
        if got != want_outer:
            raise Violation("%s during which other calls ran (from %s) gave %s, alone it gives %s" % (outer[0], how, short(got, 500), short(want_outer, 500)))
        return bool(nest.results)


def run_nested(call, nest, how, obs):
    what, spec, arg, extra = call
    # the per-call watchdog is not re-entrant
    plain = core.Obs()
    plain._call = lambda w, fn, documented: _bare(fn, documented)
    if what == "enc":
        r = plain.enc(arg, spec)
        return outcome(r, arg)
    if what == "dec":
        return outcome(plain.dec(arg, spec))
    st = NestOut()
    st.nest = nest if how == "writes" else None
    r = plain.pp(arg, spec, extra[0], st, extra[1])
    return ("pp", r.kind, st.getvalue(), None if r.ok else repr(r.exc))


def _bare(fn, documented):
    try:
        return fn()
    except documented as e:
        return core.Result("err", exc=e)
    except (KeyboardInterrupt, SystemExit, core.Hang):
        raise
    except BaseException as e:
        return core.Result("foreign", exc=e)


# --------------------------------------------------------------------------
# C30


class Interrupt(KeyboardInterrupt):
    pass


class C30(Check):
    id = "C30"
    rule = "encode, decode and pp calls interrupted by a KeyboardInterrupt raised at every line (small calls) or sampled lines and bytecodes of the library; non-trivial when at least one interrupt was delivered; then arguments are compared and calls repeated"
    required = {"interrupts delivered": 20000, "calls repeated afterwards": 3000, "interrupted encode": 3000, "interrupted decode": 3000, "interrupted pp": 1000}
    lines = False

    def cases(self, ctx):
        rng = ctx.rng("c30")
        for _ in range(ctx.n(1800)):
            yield "intr", rng.getrandbits(48), rng.choice(("enc", "enc", "dec", "dec", "pp")), rng.random() < 0.3

    def judge(self, case, obs):
        _, seed, what, opcodes = case
        rng = random.Random(seed)
        fields = rng.sample([n for n in range(2, 193) if n != 65], rng.choice((1, 2, 3)))
        spec, _ = gen.rand_message(rng, True, fields)
        describe(spec)

        def call_of(what):
            doc = {k: v[:300] if len(v) > 300 else v for k, v in doc_for(spec, rng).items()}
            if what == "enc":
                if rng.random() < 0.25:
                    gen.break_doc(copy.deepcopy(spec), doc, rng, kind=rng.choice(("size", "charset", "nonhex", "oddhex", "missing-t", "t-size", "key")))
                if rng.random() < 0.4:
                    doc.update({"p": "junk", "1": "junk", "65": "junk"})
                if rng.random() < 0.4:
                    doc.setdefault("h", "a header nobody asked for")
                    doc.update({"bm": "remark", "x": "", "": "empty", "T": "0200", "+2": "x"})
                    if rng.random() < 0.3:
                        doc["remark"] = ["not", "text"]
                if rng.random() < 0.3:
                    doc = dict(rng.sample(list(doc.items()), len(doc)))
                return what, spec, doc, None
            if what == "dec":
                m = streams.wire_of(spec, doc)
                w = m.wire if m is not None else b"0200" + b"4000000000000000" + b"123"
                if m is not None and rng.random() < 0.25:
                    w = gen.mutate(spec, w, m, rng)
                return what, spec, bytearray(w), None
            doc["p"] = "F" * 16
            if rng.random() < 0.5:
                m = streams.wire_of(spec, doc)
                r = core.Obs().dec(m.wire, spec) if m is not None else None
                if r is not None and r.ok:
                    doc = r.enc
                else:
                    doc = {k: {"len": rng.randbytes(rng.choice((0, 2))), "data": rng.randbytes(rng.choice((0, 5, 40, 90)))} for k in doc}
            return what, spec, doc, (rng.choice((0, 5, 30)), rng.choice((10, 20, 60, 80)))

        call = call_of(what)
        others = [call_of(x) for x in ("enc", "dec", "pp")]
        quiet = core.Obs()
        alone = lambda c: run_call((c[0], c[1], copy.deepcopy(c[2]), c[3]), quiet)[0]
        want = alone(call)
        want_others = [alone(c) for c in others]
        full = want[2] if what == "pp" else None
        spec_before, ids = freeze(spec), {k: id(v) for k, v in spec.items()}
        total = self.run(call, opcodes, None)[0]
        if total <= 60:
            points = range(1, total + 1)
        else:
            points = sorted(rng.sample(range(1, total + 1), 40))
        for at in points:
            arg = copy.deepcopy(call[2])
            before = {k: v for k, v in arg.items()} if isinstance(arg, dict) else bytes(arg)
            n, exc, mine, text = self.run((what, spec, arg, call[3]), opcodes, at)
            if mine is None:
                continue  # the call took another path and ended before
            obs.hit("interrupts delivered")
            obs.hit("interrupted " + {"enc": "encode", "dec": "decode", "pp": "pp"}[what])
            if exc is not mine:
                raise Violation("an interrupt at event %d of %s did not reach the caller: %s" % (at, what, short(exc)))
            if freeze(spec) != spec_before or {k: id(v) for k, v in spec.items()} != ids:
                raise Violation("%s interrupted at event %d left the specification changed" % (what, at))
            if what == "dec":
                if bytes(arg) != before:
                    raise Violation("decode interrupted at event %d left its input changed" % at)
            elif what == "pp":
                if arg != before or list(arg) != list(before):
                    raise Violation("pp interrupted at event %d left the document changed" % at)
                if not full.startswith(text):
                    raise Violation("pp interrupted at event %d had written something else: %s, full output %s" % (at, short(text), short(full)))
            else:
                a = {k: v for k, v in arg.items() if k not in ("p", "1", "65")}
                b = {k: v for k, v in before.items() if k not in ("p", "1", "65")}
                if a != b:
                    raise Violation("encode interrupted at event %d changed the document: %s" % (at, wirechecks.diff(b, a)))
            if rng.random() < 0.25:
                obs.hit("calls repeated afterwards")
                if what == "enc":
                    # the interrupted document itself can be encoded again
                    again = outcome(_bare_call(lambda: core.ISO.encode(arg, spec)))
                    if again[:3] != want[:3]:
                        raise Violation("encoding the document again after an interrupt at event %d gives %s instead of %s" % (at, short(again, 400), short(want, 400)))
                self.compare(call, want, alone(call), at)
                i = rng.randrange(3)
                self.compare(others[i], want_others[i], alone(others[i]), at)
        self.compare(call, want, alone(call), total)
        for c, w in zip(others, want_others):
            self.compare(c, w, alone(c), total)
        obs.state("interrupted calls", (what, opcodes, min(total, 400)))
        return total > 0

    def compare(self, call, want, got, at):
        if got != want:
            raise Violation("after an interrupt at event %d %s gives %s, before it gave %s" % (at, call[0], short(got, 500), short(want, 500)))

    def run(self, call, opcodes, at):
        """-> (events seen, exception that came out, interrupt raised, text written)"""
        what, spec, arg, extra = call
        n = 0
        mine = None

        def point():
            nonlocal n, mine
            n += 1
            if n == at:
                mine = Interrupt("at %d" % n)
                raise mine

        def local(frame, event, a):
            if event == ("opcode" if opcodes else "line"):
                point()
            return local

        def glob(frame, event, a):
            if not repo_file(frame.f_code.co_filename):
                return None
            frame.f_trace_opcodes = opcodes
            return local

        st = io.StringIO()
        iso = core.ISO
        out = None
        arg = arg if at is not None else copy.deepcopy(arg)
        sys.settrace(glob)
        try:
            if what == "enc":
                iso.encode(arg, spec)
            elif what == "dec":
                iso.decode(arg, spec)
            else:
                iso.pp(arg, spec, extra[0], st, extra[1])
        except BaseException as e:
            out = e
        finally:
            sys.settrace(None)
        return n, out, mine, st.getvalue()


def _bare_call(fn):
    try:
        a, b = fn()
        return core.Result("ok", a, b)
    except core.ISO.EncodeError as e:
        return core.Result("err", exc=e)
    except Exception as e:
        return core.Result("foreign", exc=e)


CHECKS = [C26, C27, C28, C29, C30]
