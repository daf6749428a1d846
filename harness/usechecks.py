"""C37-C39: buffers that stay the caller's, processes that fork, messages that
arrive in a stream."""

import copy
import itertools
import os
import pickle
import random
import select
import signal
import struct
import sys
import threading
import time

import core
import gen
import streams
from core import Check, Violation, short
from statechecks import SubA, doc_for, freeze, repo_file, run_call, run_call_plain
from envchecks import NestMap, NestOut, describe

# --------------------------------------------------------------------------
# C37


def vandalise(buf, rng):
    """use a bytearray as its owner may; BufferError when somebody holds on to it"""
    how = rng.choice(("clear", "drop", "grow", "pop", "fill", "slice", "insert"))
    if how == "clear":
        buf.clear()
    elif how == "drop":
        del buf[: rng.randrange(len(buf) + 1)]
        buf.append(0)
    elif how == "grow":
        buf.extend(rng.randbytes(rng.choice((1, 100, 5000))))
    elif how == "pop":
        buf.append(1)
        buf.pop(0)
    elif how == "fill":
        for i in range(len(buf)):
            buf[i] = rng.randrange(256)
        buf += b"x"
    elif how == "slice":
        buf[len(buf) // 2 :] = b"replaced by something longer than it was before, so that it has to move"
    else:
        buf.insert(0, 65)
    return how


class C37(Check):
    id = "C37"
    rule = "valid and damaged wires decoded from a bytearray that is then resized and overwritten, inside the except clause, after it with the error kept, or after a success; documents encoded and the returned bytearray, the breakdown and the document then changed each in turn; a reused receive buffer; non-trivial always"
    required = {"buffers resized after a result": 8000, "buffers resized inside except": 8000, "buffers resized with the error kept": 4000, "encoded buffers changed": 8000, "buffers with a view of the caller's": 2000, "reused buffer": 4000}

    def cases(self, ctx):
        rng = ctx.rng("c37")
        for kind, spec, x in itertools.chain(
            streams.random_docs(ctx, ctx.n(9000), name="c37"),
            streams.faulty_docs(ctx, ctx.n(3000), name="c37f"),
            streams.shipped_docs(ctx, ctx.n(2000)),
            streams.wires_from(streams.random_docs(ctx, ctx.n(9000), name="c37w"), ctx, "c37v", 0.3, mutants=3, trunc=0.02, extra=0.1),
            streams.wires_from(streams.bitmap_docs(ctx, 200, 200), ctx, "c37b", 0.3, mutants=1),
            streams.wires_from(streams.shipped_docs(ctx, ctx.n(2000)), ctx, "c37s", 0.3, mutants=2),
        ):
            yield kind, spec, x, rng.getrandbits(40)

    def judge(self, case, obs):
        kind, spec, x, seed = case
        rng = random.Random(seed)
        try:
            return (self.encoded if kind == "doc" else self.decoded)(spec, x, rng, obs)
        except BufferError as e:
            raise Violation("%s: the caller cannot resize its own buffer after the call: %s" % (kind, e))

    def decoded(self, spec, wire, rng, obs):
        iso = core.ISO
        buf = (SubA if rng.random() < 0.2 else bytearray)(wire)
        where = rng.choice(("inside", "kept", "kept"))
        kept = None
        try:
            dec, enc = iso.decode(buf, spec)
        except iso.DecodeError as e:
            before = freeze((e.doc_dec, e.doc_enc, e.pos, e.field, e.msg, str(e)))
            kept = e
            if e.s is not buf and e.s != buf:
                raise Violation("the error carries another input")
            if where == "inside":
                how = vandalise(buf, rng)
                obs.hit("buffers resized inside except")
        else:
            before = freeze((dec, enc))
            how = vandalise(buf, rng)
            obs.hit("buffers resized after a result")
            if freeze((dec, enc)) != before:
                raise Violation("after %s of the input the decoded message became %s" % (how, short((dec, enc))))
        if kept is not None:
            if where != "inside":
                how = vandalise(buf, rng)
                obs.hit("buffers resized with the error kept")
            if freeze((kept.doc_dec, kept.doc_enc, kept.pos, kept.field, kept.msg, str(kept))) != before:
                raise Violation("after %s of the input the error's partial message became %s" % (how, short((kept.doc_dec, kept.doc_enc, str(kept)))))
        # a buffer the caller has itself exported decodes as usual
        if rng.random() < 0.35:
            buf = bytearray(wire)
            with memoryview(buf):
                got = run_call(("dec", spec, buf, None), obs)[0]
            want = run_call(("dec", spec, bytes(wire), None), obs)[0]
            obs.hit("buffers with a view of the caller's")
            if got != want:
                raise Violation("decoding a buffer of which a view exists gives %s instead of %s" % (short(got), short(want)))
        # one receive buffer for everything
        if rng.random() < 0.5:
            shared = bytearray(len(wire))
            for w in (wire, wire[::-1], wire):
                shared[:] = w
                got = run_call(("dec", spec, shared, None), obs)[0]
                want = run_call(("dec", spec, bytes(w), None), obs)[0]
                obs.hit("reused buffer")
                if got != want:
                    raise Violation("decoding a reused buffer gives %s instead of %s" % (short(got), short(want)))
        return True

    def encoded(self, spec, x, rng, obs):
        iso = core.ISO
        doc = dict(x)
        obs.hit("encoded buffers changed")
        try:
            out, enc = iso.encode(doc, spec)
        except iso.EncodeError as e:
            before = freeze(e.doc_enc), str(e), e.field
            doc.clear()
            if (freeze(e.doc_enc), str(e), e.field) != before:
                raise Violation("clearing the document changed the partial breakdown: %s" % short(e.doc_enc))
            return True
        wire, parts, fields = bytes(out), freeze(enc), freeze(doc)
        order = ["out", "enc", "doc"]
        rng.shuffle(order)
        gone = set()
        for what in order:
            if what == "out":
                vandalise(out, rng)
            elif what == "enc":
                for part in enc.values():
                    part["data"] = b"changed"
                    part.pop("len")
                enc.clear()
            else:
                doc.clear()
                doc["p"] = "changed"
            gone.add(what)
            for name, now, was in (("out", bytes(out), wire), ("enc", freeze(enc), parts), ("doc", freeze(doc), fields)):
                if name not in gone and now != was:
                    raise Violation("changing %s also changed %s: %s" % (what, name, short(now)))
        again = iso.encode(dict(x), spec)
        if bytes(again[0]) != wire or freeze(again[1]) != parts:
            raise Violation("after the results were changed encode gives %s instead of %s" % (short(again[0]), short(wire)))
        return True


# --------------------------------------------------------------------------
# C38


def _send(fd, obj):
    blob = pickle.dumps(obj, 4)
    blob = struct.pack("<I", len(blob)) + blob
    while blob:
        blob = blob[os.write(fd, blob) :]


WAIT_S = 40.0


def in_child():
    """no timer of the parent, an end of its own, no hold on the parent's output"""
    signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    signal.setitimer(signal.ITIMER_REAL, 0)
    signal.signal(signal.SIGALRM, signal.SIG_DFL)
    signal.alarm(int(WAIT_S) + 5)
    null = os.open(os.devnull, os.O_RDWR)
    os.dup2(null, 1)
    os.dup2(null, 2)
    os.close(null)


def run_in_fork(job):
    """job() in a forked child -> ("done", result) or what happened instead"""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            in_child()
            try:
                res = ("done", job())
            except BaseException as e:
                res = ("raised", "%s: %s" % (type(e).__name__, short(e)))
            _send(w, res)
        finally:
            os._exit(0)
    os.close(w)
    return collect(pid, r)


def collect(pid, r):
    data = b""
    end = time.monotonic() + WAIT_S
    res = None
    while True:
        ready, _, _ = select.select([r], [], [], max(0.0, end - time.monotonic()))
        if not ready:
            res = ("waits for ever", None)
            break
        chunk = os.read(r, 1 << 16)
        if not chunk:
            break
        data += chunk
    os.close(r)
    if res is not None:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        return res
    _, status = os.waitpid(pid, 0)
    if len(data) < 4 or len(data) != 4 + struct.unpack("<I", data[:4])[0]:
        return ("ended with status %d" % status, None)
    return pickle.loads(data[4:])


class Stop:
    """holds a thread at its n-th traced line inside the code under test"""

    def __init__(self, at):
        self.at, self.n = at, 0
        self.there, self.go = threading.Event(), threading.Event()

    def point(self):
        self.n += 1
        if self.n == self.at:
            self.there.set()
            self.go.wait()

    def local(self, frame, event, arg):
        if event == "line":
            self.point()
        return self.local

    def glob(self, frame, event, arg):
        return self.local if repo_file(frame.f_code.co_filename) else None


class C38(Check):
    id = "C38"
    waits = True
    lines = False
    rule = "a process forks while one or two threads stand at a chosen line inside encode, decode or pp, or from inside a specification lookup or stream write of a call; the child repeats a battery of calls (and finishes the call it was forked in), the parent lets the threads finish; all outcomes must be the isolated ones; one case = one battery with several fork points"
    required = {"forks with a thread inside a call": 600, "calls compared in children": 5000, "forks from inside a call": 300, "calls finished in both processes": 300, "threads finished in the parent": 600}

    def cases(self, ctx):
        rng = ctx.rng("c38")
        for _ in range(ctx.n(400, 6000)):
            yield "fork", rng.getrandbits(48)

    def some(self, specs, rng, kind=None):
        spec = rng.choice(specs)
        doc = {k: v[:300] for k, v in doc_for(spec, rng).items()}
        kind = kind or rng.choice(("enc", "enc", "dec", "dec", "pp"))
        if kind == "enc":
            if rng.random() < 0.35:
                gen.break_doc(copy.deepcopy(spec), doc, rng)
            return kind, spec, doc, None
        if kind == "dec":
            m = streams.wire_of(spec, doc)
            w = m.wire if m is not None else b"0200" + b"4000000000000000" + b"123"
            if m is not None and rng.random() < 0.35:
                w = gen.mutate(spec, w, m, rng)
            return kind, spec, w, None
        doc["p"] = "F" * 16
        return kind, spec, doc, (rng.choice((0, 5, 30)), rng.choice((20, 60, 80)))

    def judge(self, case, obs):
        rng = random.Random(case[1])
        specs = []
        for _ in range(2):
            fields = rng.sample([n for n in range(2, 193) if n != 65], rng.choice((1, 3, 5)))
            s, _ = gen.rand_message(rng, True, fields)
            specs.append(describe(s))
        calls = [self.some(specs, rng) for _ in range(5)] + [self.some(specs, rng, k) for k in ("enc", "dec", "pp")]
        fresh = lambda c: (c[0], c[1], copy.deepcopy(c[2]), c[3])
        want = [run_call_plain(fresh(c)) for c in calls]
        battery = lambda: [run_call_plain(fresh(c)) for c in calls]
        for _ in range(3):
            i = rng.randrange(len(calls))
            probe = Stop(0)
            self.traced(fresh(calls[i]), probe)
            if probe.n == 0:
                continue
            stop = Stop(rng.randint(1, probe.n))
            got = []
            th = threading.Thread(target=lambda: got.append(self.traced(fresh(calls[i]), stop)), daemon=True)
            th.start()
            end = time.monotonic() + WAIT_S
            while not stop.there.wait(0.02) and th.is_alive() and time.monotonic() < end:
                pass
            if not stop.there.is_set():
                if th.is_alive():
                    raise Violation("a %s in a thread does not end" % calls[i][0])
                continue  # it took fewer steps than the first time
            try:
                res = run_in_fork(battery)
            finally:
                stop.go.set()
                th.join(WAIT_S)
            obs.hit("forks with a thread inside a call")
            obs.state("fork points", (calls[i][0], want[i][0], stop.at))
            self.compare(res, want, calls, "forked while another thread was inside %s (line event %d of %d)" % (calls[i][0], stop.at, probe.n), obs)
            if th.is_alive() or not got:
                raise Violation("a %s during which the process forked does not end" % calls[i][0])
            obs.hit("threads finished in the parent")
            if got[0] != want[i]:
                raise Violation("a %s during which the process forked gave %s instead of %s" % (calls[i][0], short(got[0], 500), short(want[i], 500)))
        self.inside(calls, want, battery, rng, obs)
        return True

    def traced(self, call, stop):
        sys.settrace(stop.glob)
        try:
            return run_call_plain(call)
        finally:
            sys.settrace(None)

    def compare(self, res, want, calls, what, obs):
        state, got = res
        if state == "raised":
            raise Violation("in a child %s a call raised %s" % (what, got))
        if state != "done":
            raise Violation("a child %s %s" % (what, state))
        for c, w, g in zip(calls, want, got):
            obs.hit("calls compared in children")
            if w != g:
                raise Violation("in a child %s, %s gives %s instead of %s; arguments %s" % (what, c[0], short(g, 400), short(w, 400), short(c[1:], 400)))

    def inside(self, calls, want, battery, rng, obs):
        """fork from a lookup or a write; both processes finish the call"""
        i = rng.randrange(len(calls))
        what, spec, arg, extra = calls[i]
        by_write = what == "pp" and rng.random() < 0.7
        me = os.getpid()

        class Poke:
            n, at, pipe, pid = 0, 0, None, None

            def poke(self):
                self.n += 1
                if self.n == self.at:
                    r, w = os.pipe()
                    self.pid = os.fork()
                    if self.pid:
                        os.close(w)
                        self.pipe = r
                    else:
                        os.close(r)
                        in_child()
                        self.pipe = w

        def go(poke):
            a = copy.deepcopy(arg)
            s = spec if by_write else NestMap(spec, poke)
            if what != "pp":
                return run_call_plain((what, s, a, extra))
            st = NestOut()
            st.nest = poke if by_write else None
            try:
                core.ISO.pp(a, s, extra[0], st, extra[1])
            except Exception as e:
                return ("pp", "foreign", st.getvalue(), repr(e))
            return ("pp", "ok", st.getvalue(), None)

        probe = Poke()
        go(probe)
        if not probe.n:
            return
        poke = Poke()
        poke.at = rng.randint(1, probe.n)
        try:
            got = go(poke)
        except BaseException:
            if os.getpid() != me:
                os._exit(1)
            raise
        if os.getpid() != me:
            try:
                _send(poke.pipe, ("done", [got] + battery()))
            finally:
                os._exit(0)
        if poke.pid is None:
            return  # it looked up less than the first time
        obs.hit("forks from inside a call")
        name = "forked inside %s (from a %s)" % (what, "write" if by_write else "lookup")
        res = collect(poke.pid, poke.pipe)
        if got != want[i]:
            raise Violation("a %s that forked gave %s instead of %s" % (what, short(got, 500), short(want[i], 500)))
        self.compare(res, [want[i]] + want, [calls[i]] + calls, name, obs)
        obs.hit("calls finished in both processes")


# --------------------------------------------------------------------------
# C39


class C39(Check):
    id = "C39"
    rule = "streams of 1-5 messages of one specification, cut up by the positions of the 'extra data' errors and received piece by piece with every or sampled lengths; what each attempt reports must match the bytes received so far; one case = one stream; non-trivial with two messages or more"
    required = {"messages cut off": 6000, "pieces tried": 60000, "streams received": 4000, "tails refused": 10000, "elements known early": 100000}

    def cases(self, ctx):
        rng = ctx.rng("c39")
        for i in range(ctx.n(9000)):
            yield "stream", rng.getrandbits(48)
        for kind, spec, doc in itertools.chain(streams.config_docs(ctx, counts=(0, 1, 3, 8)), streams.bitmap_docs(ctx, 150, 150), streams.shipped_docs(ctx, ctx.n(1500))):
            yield "pair", spec, doc, rng.getrandbits(48)

    def messages(self, case, rng):
        if case[0] == "pair":
            spec = case[1]
            docs = [case[2]] * rng.choice((1, 2, 2, 3))
        else:
            spec, doc = gen.rand_message(rng, True)
            docs = [doc] + [doc_for(spec, rng) for _ in range(rng.choice((0, 1, 2, 4)))]
        wires = []
        for doc in docs:
            m = streams.wire_of(spec, doc)
            if m is None or len(m.wire) > 3000:
                continue
            wires.append(streams.vary_wire(spec, doc, m, rng) if rng.random() < 0.3 else m.wire)
        rng.shuffle(wires)
        return spec, wires

    def judge(self, case, obs):
        rng = random.Random(case[-1])
        spec, wires = self.messages(case, rng)
        if not wires:
            return False
        alone = []
        for w in wires:
            r = obs.dec(w, spec)
            if not r.ok:
                raise Violation("a well-formed message is refused: %s; %s" % (short(r.exc), short(w)))
            alone.append((dict(r.out), freeze(r.enc)))
        # cut the stream with the positions of the errors
        buf = bytearray(b"".join(wires))
        for n, (w, (dec, enc)) in enumerate(zip(wires, alone)):
            last = n == len(wires) - 1
            r = obs.dec(buf if rng.random() < 0.5 else bytes(buf), spec)
            if last:
                if not r.ok or r.out != dec or freeze(r.enc) != enc:
                    raise Violation("what is left of the stream is %s, not the last message %s" % (short(r), short(dec)))
                break
            obs.hit("messages cut off")
            if r.kind != "err":
                raise Violation("%d messages in a row: %s" % (len(wires) - n, short(r)))
            e = r.exc
            if e.pos != len(w) or not e.msg.startswith("Extra data"):
                raise Violation("a message of %d bytes with others behind it: %s" % (len(w), e))
            if e.doc_dec != dec or freeze(e.doc_enc) != enc:
                raise Violation("the error for data behind a message carries %s instead of the message %s" % (short((e.doc_dec, e.doc_enc)), short(dec)))
            r = obs.dec(buf[: e.pos], spec)
            if not r.ok or r.out != dec or freeze(r.enc) != enc:
                raise Violation("the message cut off at %d is %s instead of %s" % (e.pos, short(r), short(dec)))
            del buf[: e.pos]
        # whatever follows a message, it ends where it ends
        for _ in range(3):
            i = rng.randrange(len(wires))
            w, (dec, enc) = wires[i], alone[i]
            tail = rng.choice(gen.TRAILERS + (rng.randbytes(1), rng.randbytes(20), b"\x03\x00", b"\r\n\r\n", b"  ", w[:1], w[-1:], bytes(2) + w))
            if rng.random() < 0.5:
                tail += rng.choice(wires)
            r = obs.dec(w + tail, spec)
            obs.hit("tails refused")
            if r.kind != "err" or r.exc.pos != len(w) or not r.exc.msg.startswith("Extra data") or r.exc.doc_dec != dec or freeze(r.exc.doc_enc) != enc:
                raise Violation("a message of %d bytes followed by %s: %s" % (len(w), short(tail), short(r)))
        # receive the first two piece by piece
        w, (dec, enc) = wires[0], alone[0]
        order = list(dec)
        stream = w + (wires[1] if len(wires) > 1 else b"")
        ns = range(len(stream)) if len(stream) <= 80 else sorted(set(rng.sample(range(len(stream)), 60)) | {0, len(w) - 1, len(w), len(w) + 1} & set(range(len(stream))))
        was, known = -1, -1
        for n in ns:
            obs.hit("pieces tried")
            r = obs.dec(stream[:n], spec)
            if n == len(w):
                if not r.ok or r.out != dec:
                    raise Violation("all %d bytes of a message received: %s" % (n, short(r)))
                continue
            if r.ok:
                raise Violation("%d bytes of a message of %d were taken for a message: %s" % (n, len(w), short(r.out)))
            if r.kind != "err":
                raise Violation("%d of %d bytes: %s" % (n, len(w), short(r.exc)))
            e = r.exc
            if n > len(w):
                if (e.pos, e.doc_dec) != (len(w), dec):
                    raise Violation("%d bytes behind a message of %d: %s %s" % (n - len(w), len(w), e, short(e.doc_dec)))
                continue
            if e.msg.startswith("Extra data"):
                raise Violation("%d of %d bytes: %s" % (n, len(w), e))
            if not 0 <= e.pos <= n:
                raise Violation("%d of %d bytes received, the error is at %d" % (n, len(w), e.pos))
            # every element before the missing one is there already
            done = order.index(e.field) if e.field in order else -1
            if done < 0:
                raise Violation("%d of %d bytes received, missing is %r, which the message does not have" % (n, len(w), e.field))
            if e.pos < was or done < known:
                raise Violation("with more bytes received the error moved back from %d (%d elements) to %d (%d elements)" % (was, known, e.pos, done))
            was, known = e.pos, done
            for k in order[:done]:
                obs.hit("elements known early")
                # the first half of a secondary bitmap may be all that came
                if k not in e.doc_dec or e.doc_dec[k] != dec[k]:
                    raise Violation("%d of %d bytes received, element %s is %s instead of %s" % (n, len(w), k, short(e.doc_dec.get(k)), short(dec[k])))
            if set(e.doc_dec) - set(order[: done + 1]) or set(e.doc_enc) - set(order[: done + 1]):
                raise Violation("%d of %d bytes received, the error at %s already knows %s" % (n, len(w), e.field, short(e.doc_dec)))
        obs.hit("streams received")
        obs.state("streams", (len(wires), min(len(order), 40)))
        return len(wires) > 1


CHECKS = [C37, C38, C39]
