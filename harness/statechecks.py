"""C16-C20: what calls leave behind, and what they depend on."""

import collections
import copy
import gc
import io
import json
import os
import pickle
import random
import struct
import sys
import threading
import time
import types

import core
import gen
import golden
import model
import streams
import wirechecks
from core import Check, Violation, short


# --------------------------------------------------------------------------
# C16


def freeze(x):
    """value and type of a structure, deeply, with key order"""
    if isinstance(x, dict):
        return (type(x).__name__, tuple((freeze(k), freeze(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(freeze(v) for v in x))
    if isinstance(x, bytearray):
        return ("bytearray", bytes(x))
    return (type(x).__name__, x)


def idents(spec):
    return {k: id(v) for k, v in spec.items()}


class C16(Check):
    id = "C16"
    rule = "valid, faulty and dirty documents, valid and damaged wires (bytearray input), pretty printing of documents and breakdowns at several widths; inputs are deep-frozen before and compared after; non-trivial always"
    required = {"encode succeeded": 8000, "encode failed": 8000, "decode succeeded": 4000, "decode failed": 8000, "pp calls": 4000}

    def cases(self, ctx):
        rng = ctx.rng("c16")
        yield from streams.faulty_docs(ctx, ctx.n(20000))
        for _, spec, doc in streams.valid_docs(ctx, 0.5):
            yield "doc", spec, streams.dirty(doc, rng)
        for _, spec, doc in streams.faulty_docs(ctx, ctx.n(15000), name="c16d"):
            yield "doc", spec, streams.dirty(doc, rng)
        yield from streams.key_docs(ctx, ctx.n(500))
        yield from wirechecks.pad_docs(ctx)
        yield from wirechecks.header_docs(ctx)
        yield from streams.mixed_wires(ctx, 0.5)
        yield from wirechecks.pad_wires(ctx)
        for _, spec, doc in streams.random_docs(ctx, ctx.n(2500), name="c16p"):
            for fs in spec.values():
                fs.setdefault("desc", "Field")
            yield "pp", spec, doc

    def judge(self, case, obs):
        kind, spec0, x0 = case
        spec = {k: dict(v) for k, v in spec0.items()}
        spec["extra"] = {"note": ["kept"]}
        before_spec, ids = freeze(spec), idents(spec)
        if kind == "doc":
            doc = {k: copy.copy(v) for k, v in x0.items()}
            before = {k: (v, freeze(v)) for k, v in doc.items()}
            r = obs.enc(doc, spec)
            self.doc_after(before, doc, r, obs)
            obs.hit("encode succeeded" if r.ok else "encode failed")
        elif kind == "wire":
            buf = bytearray(x0)
            r = obs.dec(buf, spec)
            if bytes(buf) != bytes(x0):
                raise Violation("decode changed its input buffer from %s to %s" % (short(x0), short(bytes(buf))))
            obs.hit("decode succeeded" if r.ok else "decode failed")
        else:
            r = self.pretty(spec, x0, obs)
        if freeze(spec) != before_spec:
            after = {k: spec.get(k) for k in spec if freeze(spec.get(k)) != freeze(spec0.get(k))}
            raise Violation("the specification was changed: %s" % short(after, 400))
        if idents(spec) != ids:
            raise Violation("entries of the specification were replaced by other objects")
        return True

    def doc_after(self, before, doc, r, obs):
        for k, (v, fz) in before.items():
            if k in ("p", "1", "65"):
                continue
            if k not in doc:
                raise Violation("encode removed %r from the document" % (k,))
            if doc[k] is not v or freeze(doc[k]) != fz:
                raise Violation("encode changed document entry %r from %s to %s" % (k, short(v), short(doc[k])))
        new = [k for k in doc if k not in before and k not in ("p", "1")]
        if new:
            raise Violation("encode added %r to the document" % (new,))
        if "65" in doc and r.kind == "ok":
            raise Violation("encode left entry 65 in the document")
        if "65" in doc and doc["65"] is not before["65"][0]:
            raise Violation("encode changed entry 65 of the document")
        if r.ok and not (isinstance(doc.get("p"), str) and len(doc["p"]) == 16):
            raise Violation("encode did not set 'p': %s" % short(doc.get("p")))
        for k in ("p", "1"):
            # a failed encode may or may not have got as far as the bitmaps
            if k in doc and (k not in before or doc[k] is not before[k][0]):
                v = doc[k]
                if not (isinstance(v, str) and len(v) in (16, 32) and all(c in "0123456789ABCDEF" for c in v)):
                    raise Violation("encode set %r to %s" % (k, short(v)))
        if "p" in before and "p" not in doc:
            raise Violation("encode removed 'p'")

    def pretty(self, spec, x0, obs):
        r = obs.enc(dict(x0), spec)
        if not r.ok:
            return r
        d = dict(x0)
        docs = [(d, freeze(d)), (r.enc, freeze(r.enc))]
        for doc, fz in docs:
            ids = {k: id(v) for k, v in doc.items()}
            for dw, lw in ((30, 80), (0, 20), (12, 40), (-1, 0)):
                p = obs.pp(doc, spec, dw, io.StringIO(), lw)
                if not p.ok:
                    continue
                if freeze(doc) != fz or {k: id(v) for k, v in doc.items()} != ids:
                    raise Violation("pp changed the document")
                obs.hit("pp calls")
        return r


# --------------------------------------------------------------------------
# isolated execution: a zygote forked before any call forks a fresh child per call


def outcome(r, doc=None):
    """comparable, picklable record of what a call did"""
    if r.ok:
        out = r.out
        if isinstance(out, (bytes, bytearray)):
            out = (type(out).__name__, bytes(out))
        return ("ok", out, r.enc, None if doc is None else dict(doc))
    e = r.exc
    if r.kind == "err":
        s = getattr(e, "s", None)
        return ("err", type(e).__name__, str(e), e.msg, e.field, getattr(e, "pos", None), None if s is None else bytes(s), dict(e.doc_dec), e.doc_enc, None if doc is None else dict(doc))
    return ("foreign", type(e).__name__, str(e))


def run_call(call, obs):
    """call = (what, spec, arg, extra) with plain data"""
    what, spec, arg, extra = call
    if what == "enc":
        r = obs.enc(arg, spec)
        return outcome(r, arg), r
    if what == "dec":
        r = obs.dec(arg, spec)
        return outcome(r), r
    st = io.StringIO()
    r = obs.pp(arg, spec, extra[0], st, extra[1])
    return ("pp", r.kind, st.getvalue(), None if r.ok else repr(r.exc)), r


class Zygote:
    def __init__(self):
        a, b = os.pipe()
        c, d = os.pipe()
        gc.collect()
        pid = os.fork()
        if pid == 0:
            os.close(b)
            os.close(c)
            try:
                self.serve(os.fdopen(a, "rb"), d)
            finally:
                os._exit(0)
        os.close(a)
        os.close(d)
        self.w = os.fdopen(b, "wb")
        self.r = os.fdopen(c, "rb")

    @staticmethod
    def serve(inp, outfd):
        gc.freeze()
        while True:
            head = inp.read(4)
            if len(head) < 4:
                return
            data = inp.read(struct.unpack("<I", head)[0])
            pid = os.fork()
            if pid == 0:
                try:
                    res = run_call(pickle.loads(data), core.Obs())[0]
                    blob = pickle.dumps(res, 4)
                except BaseException as e:
                    blob = pickle.dumps(("harness", repr(e)), 4)
                blob = struct.pack("<I", len(blob)) + blob
                while blob:
                    blob = blob[os.write(outfd, blob) :]
                os._exit(0)
            os.waitpid(pid, 0)

    def call(self, blob):
        self.w.write(struct.pack("<I", len(blob)) + blob)
        self.w.flush()
        n = struct.unpack("<I", self.r.read(4))[0]
        res = pickle.loads(self.r.read(n))
        if res[0] == "harness":
            raise RuntimeError("isolated call failed: " + res[1])
        return res


def edit_spec(spec, rng):
    """change a specification in place (still well-formed)"""
    nums = [k for k in spec if k.isdigit() and k != "1"]
    r = rng.random()
    if r < 0.08:
        spec["t"]["data_enc"] = rng.choice(gen.BASE_T)
        return "t"
    if r < 0.18:
        k = rng.choice("p1")
        spec[k]["data_enc"] = rng.choice(gen.BASE_P)
        spec[k]["max_len"] = 8 if spec[k]["data_enc"] == "b" else 16
        return k
    if r < 0.26:
        h, n = gen.rand_header(rng)
        if rng.random() < 0.5:
            spec["h"].clear()
            spec["h"].update(h)
        else:
            spec["h"] = h
        spec["h"].setdefault("desc", "H")
        return "h"
    if r < 0.34 and nums:
        k = rng.choice(nums)
        del spec[k]
        return "del"
    k = rng.choice(nums) if nums and rng.random() < 0.8 else str(rng.choice([n for n in range(2, 193) if n != 65]))
    fs, n = gen.rand_fs(rng)
    fs.setdefault("desc", "F")
    if r < 0.5 or k not in spec:
        spec[k] = fs
        return "replace"
    if r < 0.62:
        spec[k].clear()
        spec[k].update(fs)
        return "rewrite"
    a = rng.choice(("data_enc", "max_len", "len_type", "len_enc", "len_count", "left_pad", "right_pad", "desc"))
    if a in fs:
        spec[k][a] = fs[a]
    elif a == "len_count":
        spec[k][a] = rng.choice(("bytes", "nibbles"))
    elif a in ("left_pad", "right_pad"):
        spec[k][a] = rng.choice("0F")
    return a


def doc_for(spec, rng, nums=None):
    """document for the current contents of spec (usually valid)"""
    doc = {"t": gen.mti(spec["t"]["data_enc"], rng)}
    if spec["h"]["max_len"] > 0:
        h = spec["h"]
        doc["h"] = gen.value_for(h, h["max_len"], rng) or ("0" * min(h["max_len"], 99))
    have = [k for k in spec if k.isdigit() and k != "1"]
    for k in rng.sample(have, min(len(have), rng.choice((0, 1, 2, 3, 5)))) if nums is None else nums:
        fs = spec[k]
        m = min(fs["max_len"], 1500)
        if fs["len_type"]:
            m = min(m, model.len_capacity(fs))
            m = rng.choice((m, m // 2, min(m, 4), 0))
        v = gen.value_for(fs, m, rng)
        if v is None:
            v = gen.value_for(fs, m - m % 4, rng)
        doc[k] = v if v is not None else "00"
    return doc


class C17(Check):
    id = "C17"
    waits = True
    rule = "histories of 40-120 calls in one process over a few specifications that are edited in place, destroyed and recreated, with failing calls, reused documents and buffers, and vandalised results; every call is repeated in a process that never made another call and must give the same outcome; one case = one history"
    required = {"calls compared with an isolated call": 4000, "spec edits": 500, "spec destroyed": 100, "results vandalised": 500, "kept results still intact": 3000, "failures": 500}

    def setup(self, ctx):
        self.zyg = Zygote()

    def cases(self, ctx):
        rng = ctx.rng("c17")
        for i in range(ctx.n(400, 4000)):
            yield "history", rng.getrandbits(48), rng.choice((40, 60, 120))

    def judge(self, case, obs):
        _, seed, steps = case
        rng = random.Random(seed)
        fields = rng.sample([n for n in range(2, 193) if n != 65], 4)

        def new_spec():
            spec, _ = gen.rand_message(rng, True, rng.sample(fields, rng.randrange(1, 5)))
            for fs in spec.values():
                fs.setdefault("desc", "F")
            if rng.random() < 0.5:
                spec["h"] = {"data_enc": "ascii", "len_enc": "ascii", "len_type": 0, "max_len": 0, "desc": "H"}
            return spec

        specs = [new_spec() for _ in range(rng.choice((1, 2, 3)))]
        docs = []
        wires = []
        kept = []  # (object, frozen) results nobody touches
        alive = []  # every container ever returned, so ids stay unique
        seen_ids = {}
        trail = []

        def note(objs, what):
            for o in objs:
                if isinstance(o, (dict, bytearray)):
                    if id(o) in seen_ids:
                        raise Violation("%s returned a container that an earlier call (%s) already returned; history %s" % (what, seen_ids[id(o)], trail[-6:]))
                    seen_ids[id(o)] = what
                    alive.append(o)

        def containers(r):
            if r.ok and r.enc is not None:
                return [r.out, r.enc] + list(r.enc.values())
            if r.kind == "err":
                e = r.exc
                return [e.doc_enc] + list(e.doc_enc.values()) + ([e.doc_dec] if type(e) is core.ISO.DecodeError else [])
            return []

        def call(what, spec, arg, extra=None):
            blob = pickle.dumps((what, spec, arg, extra), 4)
            got, r = run_call((what, spec, arg, extra), obs)
            got = pickle.loads(pickle.dumps(got, 4))
            want = self.zyg.call(blob)
            trail.append(what + ":" + got[0])
            obs.hit("calls compared with an isolated call")
            if not r.ok:
                obs.hit("failures")
            if got != want:
                raise Violation("call %d (%s) of a history gave %s, in isolation it gives %s; history %s; arguments %s" % (len(trail), what, short(got, 500), short(want, 500), trail[-8:], short(pickle.loads(blob), 700)))
            note(containers(r), "%s call %d" % (what, len(trail)))
            return r

        for _ in range(steps):
            spec = rng.choice(specs)
            r = rng.random()
            if r < 0.3:
                doc = doc_for(spec, rng)
                if rng.random() < 0.25:
                    gen.break_doc(copy.deepcopy(spec), doc, rng, kind=rng.choice(("size", "charset", "nonhex", "oddhex", "missing-t", "missing-h", "t-size", "key")))
                if rng.random() < 0.1:
                    doc[rng.choice((3, None, b"7", 1.5, "name", ("2",)))] = rng.choice(("x", 5, None))
                res = call("enc", spec, doc)
                if res.ok:
                    wires.append(bytes(res.out))
                docs.append(doc)
            elif r < 0.38 and docs:
                call("enc", spec, rng.choice(docs))
            elif r < 0.62:
                m = None
                if rng.random() < 0.7:
                    m = streams.wire_of(spec, doc_for(spec, rng))
                w = m.wire if m is not None else rng.choice(wires) if wires else b"0200"
                if rng.random() < 0.25 and m is not None:
                    w = gen.mutate(spec, w, m, rng)
                wires.append(w)
                buf = bytearray(w) if rng.random() < 0.5 else w
                res = call("dec", spec, buf)
                if isinstance(buf, bytearray):
                    held = freeze_result(res)
                    buf[:] = b"\xee" * len(buf)
                    buf.extend(b"tail")
                    buf.clear()
                    if freeze_result(res) != held:
                        raise Violation("results of decode changed when the caller reused its input buffer")
                if res.ok:
                    docs.append(res.out)
            elif r < 0.67:
                doc = doc_for(spec, rng)
                doc["p"] = "0" * 16
                if rng.random() < 0.3:
                    doc = {k: {"len": b"" if rng.random() < 0.5 else b"%02d" % len(v), "data": v.encode("utf-8")} for k, v in doc.items()}
                if rng.random() < 0.3:
                    doc[rng.choice((3, None, b"7", 1.5, "name", ("2",)))] = rng.choice(("x", 5, None))
                call("pp", spec, doc, (rng.choice((0, 10, 30)), rng.choice((0, 20, 40, 80))))
            elif r < 0.85:
                obs.hit("spec edits")
                obs.state("spec edits", edit_spec(spec, rng))
                trail.append("edit")
                if rng.random() < 0.5:
                    wires[:] = wires[-3:]
                continue
            elif r < 0.9:
                # destroy a specification and put a different one at its address
                i = rng.randrange(len(specs))
                new = new_spec()
                old = {id(specs[i])} | {id(v) for v in specs[i].values()}
                spec = res = None
                specs[i] = None
                specs[i] = {}
                for k, v in new.items():
                    specs[i][k] = dict(v)
                if old & {id(v) for v in specs[i].values()}:
                    obs.hit("entry address reused")
                old = old if id(specs[i]) in old else ()
                obs.hit("spec destroyed")
                if old:
                    obs.hit("spec address reused")
                trail.append("new spec")
                continue
            else:
                if alive:
                    o = rng.choice(alive[-30:])
                    if any(o is k for k, _ in kept):
                        continue
                    obs.hit("results vandalised")
                    trail.append("vandalise")
                    if isinstance(o, bytearray):
                        o[:] = b"\xaa" * 3
                    else:
                        rng.choice((o.clear, lambda: o.update({"2": "junk", "len": b"junk", "data": b"junk"}), lambda: o.update(dict.fromkeys(list(o), b"junk"))))()
                continue
            # keep one untouched result in three for the end of the history
            if rng.random() < 0.33 and alive:
                o = alive[-1]
                if not any(o is d for d in docs):
                    kept.append((o, freeze(o)))
            if len(docs) > 6:
                docs.pop(rng.randrange(len(docs)))
        for o, fz in kept:
            obs.hit("kept results still intact")
            if freeze(o) != fz:
                raise Violation("a result returned earlier changed during later calls: %s -> %s; history %s" % (short(fz, 300), short(freeze(o), 300), trail[-8:]))
        return True


def freeze_result(r):
    if r.ok:
        return (freeze(r.out), freeze(r.enc))
    e = r.exc
    return (str(e), freeze(getattr(e, "doc_dec", None)), freeze(getattr(e, "doc_enc", None)))


# --------------------------------------------------------------------------
# C18


class Baton:
    """Deterministic scheduler: one thread runs at a time; at every traced event
    inside the code under test a seeded coin decides who continues."""

    def __init__(self, n, seed, p):
        self.rng = random.Random(seed)
        self.p = p
        self.sems = [threading.Semaphore(0) for _ in range(n)]
        self.alive = set(range(n))
        self.free = False
        self.switches = 0
        self.events = 0
        self.log = hash(())

    def _pass(self, me):
        others = [t for t in self.alive if t != me]
        if not others:
            return False
        nxt = self.rng.choice(others)
        self.switches += 1
        self.sems[nxt].release()
        return True

    def wait(self, me):
        # a thread that blocks elsewhere (for instance on a lock of the code
        # under test) would stall everyone: fall back to free running
        if not self.free and not self.sems[me].acquire(timeout=3.0):
            self.free = True
            for s in self.sems:
                s.release()

    def point(self, me, where):
        self.events += 1
        if self.free:
            return
        self.log = hash((self.log, me, where))
        if self.rng.random() < self.p and self._pass(me):
            self.wait(me)

    def done(self, me):
        self.alive.discard(me)
        if not self.free:
            self._pass(me)


def repo_file(fn, _c={}):
    v = _c.get(fn)
    if v is None:
        v = _c[fn] = os.path.realpath(fn).startswith(os.path.realpath(core.REPO) + os.sep)
    return v


def tracer(baton, me, opcodes):
    def local(frame, event, arg):
        if event == "opcode" or event == "line" and not opcodes:
            baton.point(me, frame.f_lasti)
        return local

    def glob(frame, event, arg):
        if not repo_file(frame.f_code.co_filename):
            return None
        if opcodes:
            frame.f_trace_opcodes = True
        baton.point(me, -1)
        return local

    return glob


class C18(Check):
    id = "C18"
    waits = True
    rule = "2-4 threads sharing specifications run encode, decode and pp (valid and failing) under a seeded scheduler that may switch threads at every line or every bytecode of the code under test, plus free-running threads with a 1 microsecond switch interval; every outcome must equal the isolated one; one case = one schedule"
    required = {"scheduled calls compared": 4000, "thread switches inside the code": 20000, "free-running calls compared": 5000}
    lines = False

    def cases(self, ctx):
        rng = ctx.rng("c18")
        for i in range(ctx.n(5600, 30000)):
            yield "baton", rng.getrandbits(48), rng.choice((2, 2, 3, 4)), i % 4 == 0, rng.choice((0.02, 0.1, 0.3, 0.6))
        for i in range(ctx.n(96, 1200)):
            yield "free", rng.getrandbits(48), 6, 40

    FOCUS = ("enc", "dec", "pp", "trailing", "cut", "mutant", "oddkeys") + tuple(sorted(set(gen.FAULTS)))

    def focused(self, focus, broken, spec, rng):
        if broken is not None:
            spec, plain, field = broken
            doc = doc_for(plain, rng)
            if field not in doc and field != "h":
                doc.update(doc_for(plain, rng, [field]))
            return "enc", spec, doc, None
        doc = doc_for(spec, rng)
        if sum(map(len, doc.values())) > 3000:
            doc = doc_for(spec, rng, [])
        if focus == "pp":
            return self.printed(spec, doc, rng)
        if focus == "oddkeys":
            for _ in range(rng.choice((1, 3, 12))):
                doc[rng.choice((rng.randrange(10**6), None, b"%d" % rng.randrange(300), rng.random()))] = "x"
            return "enc", spec, doc, None
        if focus in ("dec", "trailing", "cut", "mutant"):
            m = streams.wire_of(spec, doc)
            if m is not None:
                w = m.wire
                if focus == "trailing":
                    w += bytes(rng.randrange(1, 9))
                elif focus == "cut":
                    w = w[: rng.randrange(len(w))]
                elif focus == "mutant":
                    w = gen.mutate(spec, w, m, rng)
                return "dec", spec, w if rng.random() < 0.7 else bytearray(w), None
        elif focus != "enc":
            gen.break_doc(copy.deepcopy(spec), doc, rng, kind=focus)
        return "enc", spec, doc, None

    def printed(self, spec, doc, rng):
        """a decoded or encoded dictionary to print: usual or tiny values"""
        doc["p"] = "F" * 16
        doc = {k: v[:400] for k, v in doc.items()}
        tiny = rng.random() < 0.4
        if rng.random() < 0.4:
            size = lambda: rng.choice((0, 1, 1, 2)) if tiny else rng.choice((0, 1, 7, 30))
            doc = {k: {"len": bytes(rng.randrange(256) for _ in range(rng.choice((0, 0, 2)))), "data": bytes(rng.randrange(256) for _ in range(size()))} for k in doc}
        elif tiny:
            doc = {k: v[: rng.choice((0, 1, 1, 2))] for k, v in doc.items()}
        return "pp", spec, doc, (rng.choice((0, 5, 30)), rng.choice((0, 10, 25, 80) if tiny else (10, 25, 80)))

    def plan(self, rng, nthreads, ncalls):
        """shared specs and per-thread call lists with private arguments"""
        fields = rng.sample([n for n in range(2, 193) if n != 65], rng.choice((2, 4)))
        specs = []
        for _ in range(rng.choice((1, 1, 2))):
            spec, _ = gen.rand_message(rng, True, fields)
            for fs in spec.values():
                fs.setdefault("desc", "F")
            specs.append(spec)
        plans = []
        # half of the plans: every thread keeps to one path through the code
        focus = rng.choice(self.FOCUS) if rng.random() < 0.5 else None
        broken = None
        if focus in ("undefined", "codec", "lencodec", "nofit"):
            spec = copy.deepcopy(specs[0])
            fault = gen.break_doc(spec, doc_for(spec, rng, [str(n) for n in fields if n != 1]), rng, kind=focus)
            broken = (spec, specs[0], fault[1]) if fault else None
            focus = focus if broken else None
        for t in range(nthreads):
            calls = []
            for _ in range(ncalls):
                if focus is not None:
                    calls.append(self.focused(focus, broken, rng.choice(specs), rng))
                    continue
                spec = rng.choice(specs)
                doc = doc_for(spec, rng)
                r = rng.random()
                if r >= 0.85 and sum(map(len, doc.values())) > 3000:
                    r = 0.0  # a layout of hundreds of megabytes in every thread says nothing more
                if r < 0.45:
                    if rng.random() < 0.2:
                        gen.break_doc(copy.deepcopy(spec), doc, rng, kind=rng.choice(("size", "charset", "nonhex", "oddhex", "missing-t", "t-size", "key", "keys")))
                    calls.append(("enc", spec, doc, None))
                elif r < 0.85:
                    m = streams.wire_of(spec, doc)
                    w = m.wire if m is not None else b"0200" + b"4000000000000000" + b"123"
                    if m is not None and rng.random() < 0.25:
                        w = gen.mutate(spec, w, m, rng)
                    calls.append(("dec", spec, w if rng.random() < 0.7 else bytearray(w), None))
                else:
                    calls.append(self.printed(spec, doc, rng))
            plans.append(calls)
        return plans

    def judge(self, case, obs):
        if case[0] == "baton":
            _, seed, n, opcodes, p = case
            rng = random.Random(seed)
            plans = self.plan(rng, n, rng.choice((1, 2, 2, 3)))
        else:
            _, seed, n, reps = case
            rng = random.Random(seed)
            plans = self.plan(rng, n, 4)
        # what each call does alone (argument copies; the specification is shared)
        quiet = core.Obs()
        expect = [[run_call((w, s, copy.deepcopy(a), x), quiet)[0] for w, s, a, x in calls] for calls in plans]
        got = [[] for _ in plans]
        if case[0] == "baton":
            baton = Baton(n, seed, p)

            def body(me):
                baton.wait(me)
                tr = tracer(baton, me, opcodes)
                for w, s, a, x in plans[me]:
                    a = copy.deepcopy(a)
                    sys.settrace(tr)
                    try:
                        res = run_call_plain((w, s, a, x))
                    finally:
                        sys.settrace(None)
                    got[me].append(res)
                baton.done(me)

            ths = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(n)]
            for t in ths:
                t.start()
            baton.sems[baton.rng.randrange(n)].release()
            self.join(ths, lambda: (baton.events, list(map(len, got))), 60)
            obs.hit("thread switches inside the code", baton.switches)
            obs.hit("scheduling points", baton.events)
            if baton.free:
                obs.hit("schedules that fell back to free running")
            else:
                obs.state("interleavings", (n, baton.log))
            for me in range(n):
                self.compare(expect[me], got[me], plans[me], obs, "scheduled calls compared")
        else:
            old = sys.getswitchinterval()
            sys.setswitchinterval(1e-6)
            try:
                start = threading.Barrier(n)

                def body(me):
                    start.wait()
                    for _ in range(reps):
                        for w, s, a, x in plans[me]:
                            res = run_call_plain((w, s, copy.deepcopy(a), x))
                            want = expect[me][len(got[me]) % len(plans[me])]
                            got[me].append(want if res == want else res)

                ths = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(n)]
                for t in ths:
                    t.start()
                self.join(ths, lambda: list(map(len, got)), 120)
            finally:
                sys.setswitchinterval(old)
            for me in range(n):
                self.compare(expect[me] * reps, got[me], plans[me] * reps, obs, "free-running calls compared")
        return True

    def join(self, threads, progress, patience):
        """wait for the threads; blocked means no progress at all for a long time"""
        seen, since = progress(), time.monotonic()
        while any(t.is_alive() for t in threads):
            for t in threads:
                t.join(1)
            now = progress()
            if now != seen:
                seen, since = now, time.monotonic()
            elif time.monotonic() - since > patience and any(t.is_alive() for t in threads):
                raise Violation("threads did not finish: calls block each other for ever")

    def compare(self, want, got, calls, obs, name):
        if len(got) != len(want):
            raise Violation("a thread finished only %d of %d calls" % (len(got), len(want)))
        for w, g, c in zip(want, got, calls):
            obs.hit(name)
            if w != g:
                raise Violation("concurrent %s gave %s, alone it gives %s; arguments %s" % (c[0], short(g, 500), short(w, 500), short(c[2], 300)))


class _Plain:
    """the calls without timers (signals belong to the main thread)"""

    def __init__(self):
        self.n = collections.Counter()

    def _call(self, what, fn, documented):
        try:
            return fn()
        except documented as e:
            return core.Result("err", exc=e)
        except Exception as e:
            return core.Result("foreign", exc=e)


class _PlainObs(_Plain):
    enc = core.Obs.enc
    dec = core.Obs.dec
    pp = core.Obs.pp


def run_call_plain(call):
    return run_call(call, _PlainObs())[0]


# --------------------------------------------------------------------------
# C19


class Sub(bytes):
    pass


class SubA(bytearray):
    pass


class DocSub(dict):
    pass


class MapOnly(collections.abc.Mapping):
    """nothing but the Mapping interface"""

    def __init__(self, d):
        self._d = d

    def __getitem__(self, k):
        return self._d[k]

    def __iter__(self):
        return iter(self._d)

    def __len__(self):
        return len(self._d)


SPEC_FORMS = {
    "proxy": lambda s: types.MappingProxyType({k: types.MappingProxyType(v) for k, v in s.items()}),
    "mapping": lambda s: MapOnly({k: MapOnly(v) for k, v in s.items()}),
    "userdict": lambda s: collections.UserDict({k: collections.UserDict(v) for k, v in s.items()}),
    "chain": lambda s: collections.ChainMap({}, {k: collections.ChainMap(dict(v)) for k, v in s.items()}),
    "ordered": lambda s: collections.OrderedDict((k, collections.OrderedDict(reversed(list(v.items())))) for k, v in reversed(list(s.items()))),
    "dict of proxies": lambda s: {k: types.MappingProxyType(v) for k, v in s.items()},
    "dict of mappings": lambda s: {k: MapOnly(v) for k, v in s.items()},
    "mapping of dicts": lambda s: MapOnly({k: dict(v) for k, v in s.items()}),
    "mixed": lambda s: {k: (dict, MapOnly, types.MappingProxyType, collections.UserDict, DocSub)[len(k) + ord(k[0]) & 1 or len(v) % 5](v) for k, v in s.items()},
    "subclass": lambda s: DocSub((k, DocSub(v)) for k, v in s.items()),
    "json": lambda s: json.loads(json.dumps(s)),
    "nodesc": lambda s: {k: {a: b for a, b in v.items() if a != "desc"} for k, v in s.items()},
    "defaults": lambda s: {k: {a: b for a, b in v.items() if not (a == "len_count" and b == "bytes" or a in ("left_pad", "right_pad") and b == "")} for k, v in s.items()},
    "explicit": lambda s: {k: {"len_count": "bytes", "left_pad": "", "right_pad": "", **v} for k, v in s.items()},
    "superset": lambda s: {**{str(n): {"data_enc": "ascii", "len_enc": "ascii", "len_type": 0, "max_len": 1, "desc": "x"} for n in (7, 99, 177)}, **s, "zz": {"data_enc": "b", "len_enc": "b", "len_type": 2, "max_len": 9, "desc": "x"}, "x y": {"data_enc": "ascii", "len_enc": "ascii", "len_type": 0, "max_len": 0, "desc": ""}},
}


def exact_types(r, what):
    if not r.ok:
        return
    if what == "dec":
        if type(r.out) is not dict or any(type(k) is not str or type(v) is not str for k, v in r.out.items()):
            raise Violation("decoded dictionary is not plain str -> str: %s" % short({k: type(v) for k, v in r.out.items()}))
    elif type(r.out) is not bytearray:
        raise Violation("encode returned %s instead of bytearray" % type(r.out))
    if type(r.enc) is not dict:
        raise Violation("breakdown is %s" % type(r.enc))
    for k, e in r.enc.items():
        if type(k) is not str or type(e) is not dict or set(e) != {"len", "data"} or type(e["len"]) is not bytes or type(e["data"]) is not bytes:
            raise Violation("breakdown entry %r is %s" % (k, short(e)))


def comparable(r, doc=None, loose=False):
    o = outcome(r)
    if o[0] == "err":
        # the carried document is the caller's own; only its identity differs
        o = (o[0], o[1], None if loose else o[3], o[4], o[5], o[6], o[8]) + ((o[7],) if o[1] == "DecodeError" else ())
    return o


class C19(Check):
    id = "C19"
    rule = "valid and faulty doc and wire cases, each repeated with equivalent representations (bytes subclasses, bytearray; key orders, non-field keys, dict subclasses; 13 Mapping forms and JSON round trips of the specification; JSON round trip of the document); non-trivial always"
    required = {"buffer forms compared": 15000, "document forms compared": 15000, "specification forms compared": 20000, "failures compared": 8000}

    def cases(self, ctx):
        yield from streams.random_docs(ctx, ctx.n(6000), name="c19v")
        yield from streams.config_docs(ctx, counts=(0, 1, 2, 3, 9))
        yield from streams.bitmap_docs(ctx, 200, 200)
        yield from streams.faulty_docs(ctx, ctx.n(7000))
        yield from streams.key_docs(ctx, ctx.n(200))
        yield from streams.mixed_wires(ctx, 0.25)
        yield from wirechecks.pad_wires(ctx)
        yield from streams.shipped_docs(ctx, ctx.n(600))

    def judge(self, case, obs):
        kind, spec, x = case
        rng = random.Random(len(repr(x)))
        if kind == "wire":
            base = obs.dec(bytes(x), spec)
            exact_types(base, "dec")
            want = comparable(base)
            for name, arg in (("bytearray", bytearray(x)), ("bytes subclass", Sub(x)), ("bytearray subclass", SubA(x))):
                r = obs.dec(arg, spec)
                exact_types(r, "dec")
                self.same(want, comparable(r), name, obs, "buffer forms compared")
            for name in rng.sample(sorted(SPEC_FORMS), 4):
                s = SPEC_FORMS[name](spec)
                if name == "superset" and want[0] == "err":
                    continue
                r = obs.dec(x, s)
                if name == "superset" and any(k in ("7", "99", "177") for k in getattr(r, "out", None) or ()):
                    continue
                self.same(want, comparable(r), "specification as " + name, obs, "specification forms compared")
            if base.ok:
                w1, w2 = dict(base.out), json.loads(json.dumps(base.out))
                a, b = obs.enc(w1, spec), obs.enc(w2, spec)
                self.same(comparable(a), comparable(b), "JSON round trip of the decoded document", obs, "document forms compared")
                if w1 != w2:
                    raise Violation("documents differ after encoding: %s" % wirechecks.diff(w1, w2))
            return True
        work = dict(x)
        base = obs.enc(work, spec)
        exact_types(base, "enc")
        want = comparable(base)
        loose = base.kind == "err" and base.exc.field == "p"
        if loose:
            want = comparable(base, loose=True)
        items = list(x.items())
        forms = [("reversed keys", dict(reversed(items))), ("sorted keys", dict(sorted(items, key=lambda kv: str(kv[0])))), ("OrderedDict", collections.OrderedDict(items)), ("dict subclass", DocSub(items)), ("defaultdict", collections.defaultdict(str, items))]
        sh = list(items)
        rng.shuffle(sh)
        forms.append(("shuffled keys", dict(sh)))
        extra = {"note": "x", "": "y", "2x": "z", "p": "junk", "-5": "q", "1": "FFFFFFFFFFFFFFFF", "65": "0000000000000001", "t ": "0800", "H": "h"}
        forms.append(("non-field keys", {**extra, **x}))
        forms.append(("trailing non-field keys", {**x, **{k: v for k, v in extra.items() if k not in x}}))
        for name, doc in rng.sample(forms, 5):
            r = obs.enc(doc, spec)
            exact_types(r, "enc")
            self.same(want, comparable(r, loose=loose), name, obs, "document forms compared")
            if base.ok:
                for k in ("p", "1", "65"):
                    if doc.get(k, 0) != work.get(k, 0) and k in doc | work:
                        raise Violation("document entry %r after encoding differs with %s: %s, %s" % (k, name, doc.get(k), work.get(k)))
        for name in rng.sample(sorted(SPEC_FORMS), 4):
            s = SPEC_FORMS[name](spec)
            if name == "superset" and want[0] == "err":
                continue
            r = obs.enc(dict(x), s)
            if name == "superset" and base.kind != r.kind:
                continue
            self.same(want, comparable(r, loose=loose), "specification as " + name, obs, "specification forms compared")
        if base.ok:
            s2 = {k: dict(v) for k, v in spec.items()}
            for fs in s2.values():
                fs.setdefault("desc", "D")
            self.pretty(work, base.enc, s2, obs, rng)
        return True

    def pretty(self, doc, enc, spec, obs, rng):
        a = io.StringIO()
        w = rng.choice((30, 80, 200))
        if not obs.pp(doc, spec, 12, a, w).ok:
            return
        name = rng.choice(("proxy", "mapping", "userdict", "chain", "ordered", "json"))
        for what, d, s in (("shuffled", dict(sorted(doc.items(), key=lambda kv: repr(kv)[::-1])), spec), ("specification as " + name, doc, SPEC_FORMS[name](spec)), ("extra keys", {**doc, "note": "n", "": "e", "2x": "k"}, spec)):
            b = io.StringIO()
            r = obs.pp(d, s, 12, b, w)
            if not r.ok or a.getvalue() != b.getvalue():
                raise Violation("pp output differs with %s: %s, %s" % (what, short(a.getvalue(), 300), short(b.getvalue() if r.ok else r, 300)))
            obs.hit("pretty printing forms compared")

    def same(self, want, got, name, obs, counter):
        obs.hit(counter)
        if want[0] != "ok":
            obs.hit("failures compared")
        obs.state("forms", (counter, name, want[0]))
        if want != got:
            raise Violation("result differs with %s: %s instead of %s" % (name, short(got, 500), short(want, 500)))


# --------------------------------------------------------------------------
# C20


class C20(Check):
    id = "C20"
    rule = "sessions of 10-40 edits on one document (new or decoded): add, change, remove fields at every bitmap level, retype, edit header, junk under p/1/65, failing encodes, decode and go on; after every encode the outcome must equal that of a fresh document; one case = one session"
    required = {"encodes compared": 15000, "failed encodes": 1500, "bitmap level changes": 3000, "continued from decode": 1500}

    def cases(self, ctx):
        rng = ctx.rng("c20")
        for i in range(ctx.n(10000, 120000)):
            yield "session", rng.getrandbits(48), rng.choice((10, 20, 40))

    def judge(self, case, obs):
        _, seed, steps = case
        rng = random.Random(seed)
        pools = (range(2, 65), range(66, 129), range(129, 193))
        fields = [n for pool in pools for n in rng.sample(pool, rng.choice((1, 2, 3)))] + rng.sample([64, 66, 128, 129, 192], 2)
        spec, full = gen.rand_message(rng, True, set(fields))
        good = {k: v for k, v in full.items() if k not in ("p", "1")}
        doc = {k: v for k, v in good.items() if not k.isdigit()}
        if rng.random() < 0.5:
            m = streams.wire_of(spec, good)
            d = obs.dec(streams.vary_wire(spec, good, m, rng) if rng.random() < 0.5 else m.wire, spec)
            if d.ok:
                doc = d.out
                obs.hit("continued from decode")
        names = [k for k in good if k.isdigit()]
        level = None
        trail = []
        for _ in range(steps):
            r = rng.random()
            if r < 0.3:
                k = rng.choice(names)
                doc[k] = good[k]
                trail.append("+" + k)
            elif r < 0.52:
                k = rng.choice(names)
                doc.pop(k, None)
                trail.append("-" + k)
            elif r < 0.58:
                top = rng.choice((64, 128))
                for k in names:
                    if int(k) > top:
                        doc.pop(k, None)
                trail.append("-all>%d" % top)
            elif r < 0.63:
                doc["t"] = gen.mti(spec["t"]["data_enc"], rng)
                trail.append("t")
            elif r < 0.68:
                if rng.random() < 0.5:
                    doc[rng.choice(("p", "1", "65"))] = rng.choice(("", "junk", "F" * 16, "0" * 32))
                else:
                    # the right digits, written differently
                    for k in ("p", "1"):
                        if isinstance(doc.get(k), str):
                            doc[k] = rng.choice((doc[k].lower(), doc[k] + "0" * 16, doc[k][:16], " " + doc[k]))
                trail.append("junk")
            elif r < 0.72:
                doc = dict(sorted(doc.items(), key=lambda kv: rng.random()))
            elif r < 0.78:
                # a failing encode in between
                k = rng.choice(names + ["t", "200", "02", "h"])
                old = doc.get(k)
                doc[k] = rng.choice(("\ud800", "zz" * 5000, None, 7))
                f = obs.enc(doc, spec)
                if not f.ok:
                    obs.hit("failed encodes")
                trail.append("fail " + k)
                if old is None:
                    doc.pop(k, None)
                    if k in good and not k.isdigit():
                        doc[k] = good[k]
                else:
                    doc[k] = old
            elif r < 0.83:
                k = rng.choice(names)
                fs = spec[k]
                if fs["len_type"]:
                    n = rng.randrange(0, min(fs["max_len"], model.len_capacity(fs), 30) + 1)
                    v = gen.value_for(fs, n, rng)
                    if v is not None:
                        doc[k] = v
                trail.append("=" + k)
            fresh = {k: v for k, v in doc.items() if k not in ("p", "1", "65")}
            own = dict(fresh)
            want = obs.enc(fresh, copy.deepcopy(spec))
            got = obs.enc(doc, spec)
            obs.hit("encodes compared")
            a, b = comparable(want), comparable(got)
            if a != b:
                raise Violation("encode in a session gave %s, a fresh document gives %s; edits %s" % (short(b, 500), short(a, 500), trail[-10:]))
            if got.ok:
                after = {k: v for k, v in doc.items()}
                if after != fresh:
                    raise Violation("the document after encoding differs from a fresh one: %s; edits %s" % (wirechecks.diff(fresh, after), trail[-10:]))
                lv = len(doc.get("1", ""))
                if lv != level:
                    obs.hit("bitmap level changes")
                level = lv
                obs.state("field sets", tuple(sorted(k for k in doc if k.isdigit())))
            left = {k: v for k, v in doc.items() if k not in ("p", "1", "65")}
            if left != own:
                raise Violation("encode changed the fields of the document: %s" % wirechecks.diff(own, left))
            if got.ok and rng.random() < 0.2:
                wire = bytes(got.out)
                m = streams.wire_of(spec, own) if rng.random() < 0.5 else None
                d = obs.dec(wire if m is None else streams.vary_wire(spec, own, m, rng), spec)
                if d.ok:
                    doc = d.out
                    obs.hit("continued from decode")
                    trail.append("decode")
        return True


CHECKS = [C16, C17, C18, C19, C20]
