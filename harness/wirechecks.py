"""C01-C10 and C25: what is on the wire and what is read from it."""

import itertools

import gen
import model
import streams
from core import Check, Violation, short

ONE_TO_ONE = set(["b", "utf-8", "utf-16-le", "utf-16-be"])


def one_to_one(codec, _c={}):
    """every accepted byte string has exactly one text and re-encodes to itself"""
    if codec in ONE_TO_ONE:
        return True
    v = _c.get(codec)
    if v is None:
        v = True
        try:
            for b in range(256):
                try:
                    ch = bytes([b]).decode(codec)
                except UnicodeDecodeError:
                    continue
                if len(ch) != 1 or ch.encode(codec) != bytes([b]):
                    v = False
            # single byte codecs only
            for b in (0x81, 0x8E, 0xA4, 0xE0, 0xC3):
                try:
                    if len(bytes([b, 0xA1]).decode(codec)) != 2:
                        v = False
                except UnicodeDecodeError:
                    pass
        except Exception:
            v = False
        _c[codec] = v
    return v


def wire_order(keys):
    def rank(k):
        if k == "h":
            return -4
        if k == "t":
            return -3
        if k == "p":
            return -2
        if k == "1":
            return -1
        return int(k)

    return sorted(keys, key=rank)


def join_parts(enc):
    return b"".join(bytes(enc[k]["len"]) + bytes(enc[k]["data"]) for k in wire_order(enc))


def join_or(enc):
    try:
        return join_parts(enc)
    except Exception as e:
        raise Violation("breakdown is not {element: {'len': bytes, 'data': bytes}}: %s (%r)" % (short(enc, 400), e))


def canon(value, fs):
    return value.upper() if fs["data_enc"] == "b" else value


def diff(a, b):
    """short description of the first difference between two dicts"""
    ks = list(dict.fromkeys(list(a) + list(b)))
    for k in ks:
        if k not in a:
            return "unexpected %r=%s" % (k, short(b[k], 120))
        if k not in b:
            return "missing %r (expected %s)" % (k, short(a[k], 120))
        if a[k] != b[k]:
            return "%r expected %s got %s" % (k, short(a[k], 160), short(b[k], 160))
    return "same"


def shape(obs, msg):
    """remember which kinds of elements were seen"""
    obs.hit("elements", len(msg.parts))
    top = max(msg.present, default=0)
    obs.state("message class", ("h" if msg.parts[0][0] == "h" else "-", 0 if top == 0 else 1 if top <= 64 else 2 if top <= 128 else 3))
    for n in msg.present:
        obs.state("fields present", n)


def config_state(obs, spec, msg):
    for k, v, l, d in msg.parts:
        if k in ("t", "p", "1"):
            continue
        fs = spec[k]
        obs.state("element configurations", (fs["data_enc"], model.unit_of(fs), fs["len_enc"] if fs["len_type"] else "-", fs["len_type"], model.pad_of(fs), len(v) % 2))
        obs.state("element sizes", len(d))


class C01(Check):
    id = "C01"
    rule = "doc cases (enumerated field configurations x sizes, every field number, field sets, every character of 14 codecs, shipped specifications, random and faulty messages); non-trivial when encode accepted and the produced bytes were decoded and compared"
    required = {"round trips": 20000, "odd nibble elements": 1000, "tertiary messages": 500, "headers": 1000}

    def cases(self, ctx):
        yield from streams.valid_docs(ctx, 2.2)
        yield from streams.faulty_docs(ctx, ctx.n(8000), kinds=("size", "oddhex", "nofit", "nonhex", "charset", "key"))
        yield from streams.config_faults(ctx)
        yield from streams.capacity_docs(ctx)
        yield from streams.key_docs(ctx, ctx.n(400))

    def judge(self, case, obs):
        _, spec, doc = case
        work = dict(doc)
        r = obs.enc(work, spec)
        if not r.ok:
            return False
        wire = bytes(r.out)
        want = {}
        if spec["h"]["max_len"] > 0:
            want["h"] = canon(doc["h"], spec["h"])
            obs.hit("headers")
        want["t"] = canon(doc["t"], spec["t"])
        want["p"] = work.get("p")
        if "1" in work:
            want["1"] = work["1"]
        for k in doc:
            if isinstance(k, str) and k.isnumeric() and k not in ("1", "65"):
                if k not in spec:
                    raise Violation("encode accepted field %r which the specification does not define" % k)
                want[k] = canon(doc[k], spec[k])
                if model.unit_of(spec[k]) == "nibbles" and len(doc[k]) % 2 and spec[k]["data_enc"] == "b":
                    obs.hit("odd nibble elements")
                if int(k) > 128:
                    obs.hit("tertiary messages")
        d = obs.dec(wire, spec)
        if not d.ok:
            raise Violation("encode accepted the document but decode of its %d bytes %r" % (len(wire), d))
        if d.out != want:
            raise Violation("decode(encode(doc)) differs: %s" % diff(want, d.out))
        if d.enc != r.enc:
            raise Violation("breakdowns of encode and decode differ: %s" % diff(r.enc, d.enc))
        obs.hit("round trips")
        obs.state("field sets", tuple(sorted(k for k in want)))
        return True


def canonical(spec, msg):
    """is this accepted wire in the canonical form of C02?"""
    nums = msg.present
    sec = any(n > 64 for n in nums)
    ter = any(n > 128 for n in nums)
    for k, v, l, d in msg.parts:
        fs = spec[k]
        if k in ("p", "1"):
            if v != v.upper():
                return False
            if fs["data_enc"] != "b" and not one_to_one(fs["data_enc"]):
                return False
            if k == "1" and len(v) != (32 if ter else 16):
                return False
            continue
        if fs["data_enc"] != "b":
            if not one_to_one(fs["data_enc"]):
                return False
        if k == "t":
            continue
        if fs["data_enc"] == "b" and model.unit_of(fs) == "nibbles" and len(v) % 2:
            side, digit = model.pad_of(fs)
            hx = d.hex().upper()
            if (hx[0] if side == "left" else hx[-1]) != digit.upper():
                return False
            if side == "right" and hx[:-1] != v or side == "left" and hx[1:] != v:
                return False
        if l and fs["len_enc"] not in ("b", "bcd") and not one_to_one(fs["len_enc"]):
            return False
    has1 = any(k == "1" for k, *_ in msg.parts)
    return has1 == sec


class C02(Check):
    id = "C02"
    rule = "wire cases written by the model or mutated (superfluous and lower-case bitmaps, alternative pads, damaged input, random bytes); non-trivial when decode accepted, the result was re-encoded and decoded again"
    required = {"re-encoded": 15000, "canonical, compared byte for byte": 10000, "non-canonical": 1000}

    def cases(self, ctx):
        yield from streams.wires_from(streams.valid_docs(ctx, 1.2), ctx, "c02", variants=0.5, mutants=1)
        yield from streams.mixed_wires(ctx, 0.6)
        yield from capacity_wires(ctx)
        yield from pad_wires(ctx)

    def judge(self, case, obs):
        _, spec, wire = case
        for k, fs in spec.items():
            if (fs["data_enc"] in BAD_CODECS or fs["len_enc"] in BAD_CODECS) and not (k == "h" and fs["max_len"] <= 0):
                return False
        d = obs.dec(wire, spec)
        if not d.ok:
            return False
        work = dict(d.out)
        r = obs.enc(work, spec)
        if not r.ok:
            raise Violation("decode accepted %s but re-encoding the result %r" % (short(wire), r))
        d2 = obs.dec(bytes(r.out), spec)
        if not d2.ok:
            raise Violation("re-encoded message cannot be decoded: %r" % d2)
        a = {k: v for k, v in d.out.items() if k not in ("p", "1")}
        b = {k: v for k, v in d2.out.items() if k not in ("p", "1")}
        if a != b:
            raise Violation("re-encoding changed the message: %s" % diff(a, b))
        obs.hit("re-encoded")
        try:
            msg = model.read(wire, spec)
        except model.Reject:
            return True
        if canonical(spec, msg):
            obs.hit("canonical, compared byte for byte")
            if bytes(r.out) != bytes(wire):
                raise Violation("canonical message changed: %r -> %r" % (short(wire, 400), short(bytes(r.out), 400)))
        else:
            obs.hit("non-canonical")
        return True


BAD_CODECS = ("no_such_codec", "hex", "rot13", "B", "a\x00b", "BCD", "nonsense")


def capacity_wires(ctx):
    for _, spec, doc in streams.capacity_docs(ctx):
        m = streams.wire_of(spec, doc)
        if m is not None:
            yield "wire", spec, m.wire


class C03(Check):
    id = "C03"
    rule = "doc cases as C01; non-trivial when encode accepted and every byte of the message was accounted for against the model's layout"
    required = {"laid out": 20000, "elements": 60000}

    def cases(self, ctx):
        yield from streams.valid_docs(ctx, 2.2)
        yield from streams.faulty_docs(ctx, ctx.n(4000), kinds=("size", "nofit", "key"))
        yield from streams.capacity_docs(ctx)
        rng = ctx.rng("c03dirty")
        for _, spec, doc in streams.random_docs(ctx, ctx.n(6000), name="c03d"):
            yield "doc", spec, streams.dirty(doc, rng)

    def judge(self, case, obs):
        _, spec, doc = case
        r = obs.enc(dict(doc), spec)
        if not r.ok:
            return False
        got = bytes(r.out)
        if join_or(r.enc) != got:
            raise Violation("breakdown %s does not concatenate to the message %s" % (short(r.enc, 500), short(got, 300)))
        try:
            msg = model.write(doc, spec)
        except model.Reject:
            return False
        obs.hit("laid out")
        shape(obs, msg)
        config_state(obs, spec, msg)
        if r.enc != msg.enc:
            raise Violation("breakdown differs from the specified layout: %s" % diff(msg.enc, r.enc))
        if got != msg.wire:
            at = next((i for i, (x, y) in enumerate(itertools.zip_longest(got, msg.wire)) if x != y), None)
            raise Violation("message differs from the specified layout at byte %s: got %s expected %s" % (at, short(got, 300), short(msg.wire, 300)))
        return True


class C04(Check):
    id = "C04"
    rule = "field sets (every single field, all subsets of the 11 boundary fields, pairs, densities) with junk under 'p', '1', '65', encoded and decoded, plus valid wires with lower-case and superfluous bitmaps; non-trivial when bitmaps were compared with the fields"
    required = {"encoded bitmaps": 8000, "decoded bitmaps": 8000, "superfluous": 300, "lower case": 300}

    def cases(self, ctx):
        yield from streams.bitmap_docs(ctx, 6000, 5000)
        yield from streams.per_number_docs(ctx)
        yield from streams.random_docs(ctx, ctx.n(6000), name="c04")
        yield from streams.wires_from(streams.bitmap_docs(ctx, 3000, 3000), ctx, "c04w", variants=1.0, mutants=2)
        yield from streams.wires_from(streams.random_docs(ctx, ctx.n(3000), name="c04r"), ctx, "c04x", variants=0.6, mutants=1)
        yield from bit_walk(ctx)
        yield from lenient_bitmaps(ctx, ctx.n(16000))

    def judge(self, case, obs):
        kind, spec, x = case
        return self.encode(spec, x, obs) if kind == "doc" else self.decode(spec, x, obs)

    def encode(self, spec, doc, obs):
        fields = sorted(int(k) for k in doc if k.isdecimal() and k.isascii() and k not in ("1", "65"))
        work = dict(doc)
        r = obs.enc(work, spec)
        if not r.ok:
            return False
        ter = any(n > 128 for n in fields)
        sec = any(n > 64 for n in fields)
        want = {"p": model.bits_to_raw(([1] if sec else []) + [n for n in fields if n <= 64], 0).hex().upper()}
        if sec:
            want["1"] = model.bits_to_raw(([65] if ter else []) + [n for n in fields if 64 < n <= 128], 64).hex().upper()
            if ter:
                want["1"] += model.bits_to_raw([n for n in fields if n > 128], 128).hex().upper()
        got = {k: work[k] for k in ("p", "1", "65") if k in work}
        if got != want:
            raise Violation("bitmaps after encoding fields %s: %s" % (fields, diff(want, got)))
        for k in ("p", "1"):
            if (k in r.enc) != (k in want):
                raise Violation("breakdown %s bitmap %r for fields %s" % ("has" if k in r.enc else "lacks", k, fields))
            if k in want:
                e = spec[k]["data_enc"]
                raw = bytes.fromhex(want[k]) if e == "b" else want[k].encode(e)
                if r.enc[k]["data"] != raw or r.enc[k]["len"] != b"":
                    raise Violation("encoded bitmap %r is %s expected %s" % (k, short(r.enc[k]), short(raw)))
                if raw not in bytes(r.out):
                    raise Violation("bitmap %r is not in the message" % k)
        if "65" in r.enc:
            raise Violation("breakdown has an element 65")
        obs.hit("encoded bitmaps")
        obs.state("encoded field sets", tuple(fields))
        return True

    def decode(self, spec, wire, obs):
        d = obs.dec(wire, spec)
        if not d.ok:
            return False
        on = []
        raws = {}
        for k in ("p", "1"):
            if k not in d.out:
                continue
            e = spec[k]["data_enc"]
            raws[k] = bytes(d.enc[k]["data"])
            digits = raws[k].hex().upper() if e == "b" else raws[k].decode(e)
            if d.out[k] != digits:
                raise Violation("bitmap %r decoded as %s, received %s" % (k, short(d.out[k]), short(digits)))
            bits = model.hex_to_bytes(digits)
            if bits is None or len(bits) not in ((8,) if k == "p" else (8, 16)):
                raise Violation("accepted a bitmap %r that is not hex digits of the right size: %s" % (k, short(digits)))
            on += model.bits_on(bits[:8], 0 if k == "p" else 64)
            if len(bits) == 16:
                on += model.bits_on(bits[8:], 128)
            if digits != digits.upper():
                obs.hit("lower case")
        has1, has3 = "1" in raws, "1" in raws and len(raws["1"]) > (8 if spec["1"]["data_enc"] == "b" else 16)
        if (1 in on) != has1 or (65 in on) != has3:
            raise Violation("bits 1/65 are %s/%s but a secondary/tertiary bitmap was %s/%s read" % (1 in on, 65 in on, has1, has3))
        want = sorted(n for n in on if n not in (1, 65))
        got = sorted(int(k) for k in d.out if k not in ("h", "t", "p", "1"))
        if got != want:
            raise Violation("bits on %s but fields read %s" % (want, got))
        h = d.enc.get("h", {"len": b"", "data": b""})
        head = bytes(h["len"]) + bytes(h["data"]) + bytes(d.enc["t"]["data"]) + raws["p"] + raws.get("1", b"")
        if not bytes(wire).startswith(head):
            raise Violation("bitmaps %s are not the ones at the front of %s" % (short(raws), short(wire)))
        if has1 and not any(n > 64 for n in want) or has3 and not any(n > 128 for n in want):
            obs.hit("superfluous")
        obs.hit("decoded bitmaps")
        return True


def bit_walk(ctx):
    """wires whose bitmaps have exactly one field bit on, through every bitmap level and encoding"""
    combos = [(p, s, n, lvl) for p in gen.BASE_P for s in gen.BASE_P for n in range(2, 193) if n != 65 for lvl in (1, 2, 3)]
    for p, s, n, lvl in ctx.mine(combos):
        if n > 64 and lvl < 2 or n > 128 and lvl < 3:
            continue
        spec, doc = gen.bitmap_message([n], "ascii", p, s)

        def enc(key, nums, base):
            raw = model.bits_to_raw(nums, base)
            e = spec[key]["data_enc"]
            return raw if e == "b" else raw.hex().upper().encode(e)

        w = b"0200" + enc("p", ([1] if lvl > 1 else []) + ([n] if n <= 64 else []), 0)
        if lvl > 1:
            w += enc("1", ([65] if lvl > 2 else []) + ([n] if 64 < n <= 128 else []), 64)
        if lvl > 2:
            w += enc("1", [n] if n > 128 else [], 128)
        yield "wire", spec, w + b"%03d" % n


class C05(Check):
    id = "C05"
    rule = "doc cases, valid and with one or two faults (sizes around every limit for every configuration, prefix capacity, bad digits, bad text, missing parts, bad keys); the model decides acceptance; non-trivial when it has at least one element to judge"
    required = {"accepted": 10000, "rejected": 10000}

    def cases(self, ctx):
        yield from streams.config_faults(ctx)
        yield from streams.capacity_docs(ctx)
        yield from streams.faulty_docs(ctx, ctx.n(45000))
        yield from streams.key_docs(ctx, ctx.n(400))
        yield from streams.valid_docs(ctx, 0.8)
        yield from mti_docs(ctx)
        yield from header_docs(ctx)

    def judge(self, case, obs):
        _, spec, doc = case
        try:
            msg, rej = model.write(doc, spec), None
        except model.Reject as e:
            msg, rej = None, e
        r = obs.enc(dict(doc), spec)
        if rej is None and not r.ok:
            raise Violation("encode refused a document that fits its specification: %r" % r)
        if rej is not None and r.ok:
            raise Violation("encode accepted a document that does not fit (%s): %s" % (rej, short(bytes(r.out), 300)))
        if rej is not None:
            obs.hit("accepted" if r.ok else "rejected")
            obs.state("reject kinds", (rej.kind, model.unit_of(spec.get(rej.field, {})), "h" if rej.field == "h" else "t" if rej.field == "t" else "f"))
            return True
        obs.hit("accepted")
        config_state(obs, spec, msg)
        if bytes(r.out) != msg.wire:
            raise Violation("encode emitted %s where the fitting message is %s" % (short(bytes(r.out), 300), short(msg.wire, 300)))
        return True


def mti_docs(ctx):
    rng = ctx.rng("mti_docs")
    vals = ["", "0", "02", "020", "0200", "02000", "020000", "0200020", "02000200", "ABCD", "abcd", "zzzz", "02 0", " 0200", "0200 ", "é200", "éé", "日0", "\x00\x00\x00\x00", "\ud800200", "٠٢٠٠", "02\n0"]
    for t in ctx.mine(list(gen.BASE_T) + ["utf-16-le", "no_such_codec", "shift_jis"]):
        for ml in (0, 2, 3, 4, 8, -1, 999):
            for lt in (0, 1, 2):
                for lc in (None, "bytes", "nibbles"):
                    for v in vals:
                        spec, doc = gen.bitmap_message([3], "ascii", rng.choice(gen.BASE_P), "ascii")
                        spec["t"] = {"data_enc": t, "len_enc": rng.choice(("ascii", "b", "bcd")), "len_type": lt, "max_len": ml, "desc": "MTI"}
                        if lc:
                            spec["t"]["len_count"] = lc
                            if rng.random() < 0.5:
                                spec["t"]["left_pad"] = "0"
                        doc["t"] = v
                        yield "doc", spec, doc
        spec, doc = gen.bitmap_message([3], "ascii")
        spec["t"]["data_enc"] = t
        del doc["t"]
        yield "doc", spec, doc


def header_docs(ctx):
    """header on/off x configuration x present/absent/too short/too long"""
    rng = ctx.rng("header_docs")
    cfgs = list(gen.configs(widths=(1, 2, 3)))
    for cfg in ctx.mine(cfgs):
        for m in (-5, 0, 1, 2, 3, 4, 8, 11):
            for c in (None, 0, 1, 2, 3, 4, 8, 11, 12):
                if rng.random() < 0.5:
                    continue
                spec, doc = gen.bitmap_message([rng.choice((2, 70, 130))], rng.choice(gen.BASE_T), rng.choice(gen.BASE_P))
                doc["t"] = gen.mti(spec["t"]["data_enc"], rng)
                spec["h"] = dict(cfg, max_len=m, desc="Header")
                if c is not None:
                    v = gen.value_for(cfg, c, rng)
                    if v is None:
                        continue
                    doc["h"] = v
                yield "doc", spec, doc


class C06(Check):
    id = "C06"
    rule = "every value 1-byte and 2-digit prefixes can hold and sampled values of wider ones, encoded and decoded, plus every 1-byte and sampled 2/3-byte prefix content; non-trivial when a variable element's prefix was compared"
    required = {"prefixes written": 6000, "prefixes read": 6000, "fixed elements": 500, "junk prefixes": 3000}

    def cases(self, ctx):
        yield from length_cases(ctx)
        yield from streams.prefix_junk(ctx, ctx.thorough, True)
        yield from streams.capacity_docs(ctx)
        yield from streams.config_docs(ctx)
        yield from streams.config_faults(ctx, deltas=(0, 1), maxes=(0, 1, 9, 10, 99, 100))
        yield from streams.wires_from(streams.config_docs(ctx), ctx, "c06w", 0.0)
        for _, spec, doc in streams.random_docs(ctx, ctx.n(8000), False, "c06r"):
            yield "doc", spec, doc
            m = streams.wire_of(spec, doc)
            if m is not None:
                yield "wire", spec, m.wire

    def judge(self, case, obs):
        kind, spec, x = case
        if kind == "doc":
            return self.encode(spec, x, obs)
        return self.decode(spec, x, obs)

    def encode(self, spec, doc, obs):
        r = obs.enc(dict(doc), spec)
        try:
            msg = model.write(doc, spec)
        except model.Reject as e:
            if e.kind == "len-nofit" and r.ok:
                raise Violation("a length that does not fit its prefix was sent: %s" % short(r.enc.get(e.field), 200))
            return False
        if not r.ok:
            if any(len(l) for _, _, l, _ in msg.parts) and len(msg.present) == 1:
                raise Violation("encode refused a length its prefix can hold: %r" % r)
            return False
        nt = False
        for k, v, l, d in msg.parts:
            if k in ("t", "p", "1"):
                continue
            got = r.enc.get(k, {}).get("len")
            if got != l:
                raise Violation("prefix of element %s (%s, %d bytes of data) is %r expected %r" % (k, model.unit_of(spec[k]), len(d), got, l))
            if len(got) != spec[k]["len_type"]:
                raise Violation("prefix of element %s is %d bytes wide, specified %d" % (k, len(got), spec[k]["len_type"]))
            if spec[k]["len_type"]:
                obs.hit("prefixes written")
                obs.state("written", (spec[k]["len_enc"], l))
                nt = True
            else:
                obs.hit("fixed elements")
        if join_parts(msg.enc) != bytes(r.out):
            if join_parts(r.enc) != bytes(r.out) or any(r.enc[k]["len"] + r.enc[k]["data"] not in bytes(r.out) for k in r.enc):
                raise Violation("prefixes of the message differ from its breakdown")
        return nt

    def decode(self, spec, wire, obs):
        d = obs.dec(wire, spec)
        try:
            msg = model.read(wire, spec)
        except model.Reject as e:
            if e.kind in ("len-bcd", "len-nondigit", "len-undecodable"):
                obs.hit("junk prefixes")
                if d.ok:
                    raise Violation("a length prefix that is not a number was read: element %s %s" % (e.field, short(d.enc.get(e.field))))
            if e.kind == "over-max" and d.ok:
                raise Violation("a declared length of %s over the maximum %s was accepted for element %s" % (e.nums[0], e.nums[1], e.field))
            return False
        if not d.ok:
            raise Violation("decode refused a message whose length prefixes are all valid: %r" % d)
        nt = False
        for k, v, l, dat in msg.parts:
            if k in ("t", "p", "1"):
                continue
            e = d.enc.get(k)
            if e is None or e["len"] != l or e["data"] != dat:
                raise Violation("element %s: prefix/data taken %s expected %r + %d bytes" % (k, short(e), l, len(dat)))
            if l:
                nt = True
                obs.hit("prefixes read")
                obs.state("read", (spec[k]["len_enc"], l))
            else:
                obs.hit("fixed elements")
        return nt


def length_cases(ctx):
    """every (or sampled) representable length of each width and encoding, both ways"""
    rng = ctx.rng("length_cases")
    combos = [(le, w, de, unit) for le in ("b", "bcd", "ascii", "cp500", "latin-1", "utf-8", "cp037") for w in (1, 2, 3, 4) for de, unit in (("ascii", "bytes"), ("b", "bytes"), ("b", "nibbles"), ("ascii", "nibbles"))]
    todo = []
    for le, w, de, unit in combos:
        cap = model.len_capacity({"len_type": w, "len_enc": le})
        if cap <= 999 or ctx.thorough and cap <= 9999:
            vals = range(cap + 1)
        else:
            top = min(cap, 140000 if ctx.thorough else 70000)
            edge = [v for e in (9, 10, 99, 100, 127, 128, 255, 256, 511, 512, 999, 1000, 1023, 1024, 4095, 4096, 9999, 10000, 16383, 16384, 32767, 32768, 65280, 65535, 65536, 99999, 100000) for v in (e - 1, e, e + 1) if v <= top]
            sr = ctx.shared_rng(repr((le, w, de, unit)))
            n = 1500 if ctx.thorough else 90
            vals = sorted(set(edge + [sr.randrange(0, min(top, 5000) + 1) for _ in range(n)] + [sr.randrange(0, top + 1) for _ in range(n // 12)]))
        todo.extend((le, w, de, unit, v) for v in vals)
    for le, w, de, unit, v in ctx.mine(todo):
        fs = {"data_enc": de, "len_enc": le, "len_type": w, "max_len": rng.choice((v, v + 1, 10**w, 10**9)), "desc": "F", "len_count": unit}
        if fs["max_len"] < v:
            fs["max_len"] = v
        if unit == "nibbles" and de == "b":
            fs.update(rng.choice(({"left_pad": "0"}, {"right_pad": "F"})))
        val = gen.value_for(fs, v, rng, "digits" if de != "b" else "bcd")
        if val is None:
            continue
        num = rng.choice(("2", "66", "129"))
        spec, doc = streams.one_field(fs, val, num)
        yield "doc", spec, doc
        m = streams.wire_of(spec, doc)
        if m is not None:
            yield "wire", spec, m.wire


class C07(Check):
    id = "C07"
    rule = "nibble-counted elements (fields and header): every pad setting x size 0-40 x digit patterns that imitate pads, encoded; every pad setting x count x outer digits received, decoded; non-trivial when a nibble-counted element was compared"
    required = {"nibble elements written": 5000, "nibble elements read": 5000, "odd refused": 1000, "odd pads added": 2000, "odd pads removed": 2000}

    def cases(self, ctx):
        yield from pad_docs(ctx)
        yield from pad_wires(ctx)
        rng = ctx.rng("c07")
        for _, spec, doc in streams.random_docs(ctx, ctx.n(8000), name="c07r"):
            yield "doc", spec, doc
            m = streams.wire_of(spec, doc)
            if m is not None:
                yield "wire", spec, m.wire
                yield "wire", spec, streams.alt_pad(spec, m, rng)
                yield "wire", spec, gen.mutate(spec, m.wire, m, rng)
        yield from streams.faulty_docs(ctx, ctx.n(3000), kinds=("size", "oddhex", "nonhex"))

    def judge(self, case, obs):
        kind, spec, x = case
        nib = [k for k in spec if k not in ("t", "p", "1") and model.unit_of(spec[k]) == "nibbles"]
        if not nib:
            return False
        if kind == "doc":
            r = obs.enc(dict(x), spec)
            try:
                msg = model.write(x, spec)
            except model.Reject as e:
                if e.field in nib and e.kind in ("odd-nibbles-nopad", "odd-hex", "size", "over-max"):
                    obs.hit("odd refused")
                    if r.ok:
                        raise Violation("element %s (%s) was accepted: %s" % (e.field, e, short(r.enc.get(e.field))))
                    return True
                return False
            if not r.ok:
                if getattr(r.exc, "field", None) in nib or r.kind == "foreign":
                    raise Violation("encode refused a valid nibble-counted element: %r" % r)
                return False
            for k, v, l, d in msg.parts:
                if k not in nib:
                    continue
                g = r.enc.get(k)
                if g != {"len": l, "data": d}:
                    raise Violation("nibble element %s of %d digits %s written as %s expected len %r data %s" % (k, len(v), short(v, 60), short(g), l, short(d)))
                obs.hit("nibble elements written")
                if spec[k]["data_enc"] == "b" and len(v) % 2:
                    obs.hit("odd pads added")
                obs.state("written", (spec[k]["data_enc"], model.pad_of(spec[k]), spec[k]["len_type"] > 0, len(v) % 2, v[:1], v[-1:]))
            if bytes(r.out) != msg.wire and bytes(r.out) != join_parts(r.enc):
                raise Violation("message and breakdown disagree")
            return True
        d = obs.dec(x, spec)
        try:
            msg = model.read(x, spec)
        except model.Reject as e:
            if e.field in nib and e.kind in ("odd-nibbles", "short"):
                obs.hit("odd refused")
                if d.ok:
                    raise Violation("element %s (%s) was accepted: %s = %s" % (e.field, e, short(d.enc.get(e.field)), short(d.out.get(e.field))))
                return True
            return False
        if not d.ok:
            if getattr(d.exc, "field", None) in nib or d.kind == "foreign":
                raise Violation("decode refused a valid nibble-counted element: %r" % d)
            return False
        for k, v, l, dat in msg.parts:
            if k not in nib:
                continue
            if d.out.get(k) != v:
                raise Violation("nibble element %s received %s%s decoded as %s expected %s" % (k, l.hex(), short(dat.hex(), 80), short(d.out.get(k), 80), short(v, 80)))
            if d.enc.get(k) != {"len": l, "data": dat}:
                raise Violation("nibble element %s: raw parts %s expected %r %s" % (k, short(d.enc.get(k)), l, short(dat)))
            obs.hit("nibble elements read")
            if spec[k]["data_enc"] == "b" and len(v) % 2:
                obs.hit("odd pads removed")
            obs.state("read", (spec[k]["data_enc"], model.pad_of(spec[k]), spec[k]["len_type"] > 0, len(v) % 2, dat[:1], dat[-1:]))
        return True


ALLPADS = [{}] + [{s: d} for s in ("left_pad", "right_pad") for d in "0123456789ABCDEFabcdef"] + [{"left_pad": a, "right_pad": b} for a in "0FA5f" for b in "0FA9d"] + [{"left_pad": "", "right_pad": "F"}, {"left_pad": "", "right_pad": ""}, {"left_pad": "0F"}, {"right_pad": "F0"}, {"right_pad": "C0FFEE"}, {"left_pad": "123"}, {"left_pad": "0", "right_pad": ""}]


def pad_docs(ctx):
    rng = ctx.rng("pad_docs")
    for pad in ctx.mine(ALLPADS):
        pds = [pad.get("left_pad", "")[:1], pad.get("right_pad", "")[:1]]
        for n in list(range(0, 41)) + [63, 64, 65, 127, 129, 255, 256, 257, 999]:
            for le, w in (("ascii", 0), ("ascii", 3), ("b", 2), ("bcd", 2), ("b", 1), ("cp500", 4)):
                fs = dict(pad, data_enc="b", len_count="nibbles", len_enc=le, len_type=w, max_len=n if w == 0 else 999, desc="F")
                pats = [gen.hex_digits(n, rng, "rand")]
                for c in pds:
                    if c and n:
                        pats += [c * n, (c + gen.hex_digits(n - 1, rng))[:n], gen.hex_digits(n - 1, rng) + c]
                if n:
                    pats += ["0" * n, ("F" * n)[:n], gen.hex_digits(n, rng, "lower")]
                for v in pats[: 8 if n < 20 else 2]:
                    if w == 1 and n > 255:
                        continue
                    if rng.random() < 0.06:
                        spec, doc = gen.bitmap_message([3])
                        if fs["max_len"] > 0:
                            spec["h"], doc["h"] = fs, v
                    else:
                        spec, doc = streams.one_field(fs, v, str(rng.choice((2, 64, 66, 128, 129, 192))))
                    yield "doc", spec, doc
    if True:
        for de in ("ascii", "cp500", "utf-8", "latin-1", "shift_jis"):
            for pad in ctx.mine(({}, {"left_pad": "0"}, {"right_pad": "F"})):
                for n in range(0, 24):
                    for m in (n * 2, n * 2 + 1, n * 2 - 1, n, 99):
                        for w in (0, 2):
                            fs = dict(pad, data_enc=de, len_count="nibbles", len_enc="ascii", len_type=w, max_len=max(m, 0), desc="F")
                            yield ("doc",) + streams.one_field(fs, gen.text_bytes(de, n, rng), "2")


def pad_wires(ctx):
    """received nibble elements: every outer digit against every pad"""
    rng = ctx.rng("pad_wires")
    head = {"2": b"02004000000000000000", "66": b"0200800000000000000040000000" + b"00000000", "129": b"0200" + b"8000000000000000" * 2 + b"8000000000000000"}
    for pad in ctx.mine(ALLPADS):
        for n in list(range(0, 14)) + [21, 33, 99]:
            nb = -(-n // 2)
            for le, w in (("ascii", 0), ("ascii", 2), ("b", 1), ("bcd", 1)):
                fs = dict(pad, data_enc="b", len_count="nibbles", len_enc=le, len_type=w, max_len=n if w == 0 else 99, desc="F")
                pre = b"" if w == 0 else (b"%02d" % n) if le == "ascii" else bytes([n]) if le == "b" else bytes.fromhex("%02d" % n)
                num = rng.choice(("2", "66", "129"))
                spec, _ = streams.one_field(fs, "", num)
                firsts = range(16) if n % 2 and n <= 5 else [rng.randrange(16) for _ in range(4)]
                for a in firsts:
                    for b in rng.sample(range(16), 4) if n % 2 else (a, rng.randrange(16)):
                        hx = gen.hex_digits(2 * nb, rng, "rand")
                        if nb:
                            hx = "%X" % a + hx[1:-1] + "%X" % b
                        yield "wire", spec, head[num] + pre + bytes.fromhex(hx)
    for de in ("ascii", "cp500"):
        for n in range(0, 24):
            for extra in (0, 1):
                for w in (0, 2):
                    if (n + extra + w) % ctx.nshards != ctx.shard % 3:
                        continue
                    fs = {"data_enc": de, "len_count": "nibbles", "len_enc": "ascii", "len_type": w, "max_len": n if w == 0 else 99, "left_pad": "0", "desc": "F"}
                    spec, _ = streams.one_field(fs, "", "2")
                    pre = b"" if w == 0 else b"%02d" % n
                    yield "wire", spec, head["2"] + pre + b"\xf0" * (n // 2 + extra) if de == "cp500" else head["2"] + pre + b"0" * (n // 2 + extra)


class C08(Check):
    id = "C08"
    rule = "wire cases, valid, varied and damaged; non-trivial when decode accepted and the breakdown was concatenated and compared with the input"
    required = {"accounted": 15000, "bytes accounted": 400000}

    def cases(self, ctx):
        yield from streams.wires_from(streams.valid_docs(ctx, 1.6), ctx, "c08", variants=0.5, mutants=1)
        yield from streams.mixed_wires(ctx, 0.8)
        yield from pad_wires(ctx)
        yield from streams.prefix_junk(ctx)
        yield from bit_walk(ctx)
        yield from lenient_bitmaps(ctx, ctx.n(16000))

    def judge(self, case, obs):
        _, spec, wire = case
        d = obs.dec(wire, spec)
        if not d.ok:
            return False
        if set(d.out) != set(d.enc):
            raise Violation("decoded and encoded dictionaries have different elements: %s" % sorted(set(d.out) ^ set(d.enc)))
        for k in d.out:
            if k not in ("h", "t", "p", "1") and not (isinstance(k, str) and k.isascii() and k.isdigit() and str(int(k)) == k):
                raise Violation("unknown element %r in the result" % (k,))
        got = join_or(d.enc)
        if got != bytes(wire):
            raise Violation("breakdown concatenates to %s, input was %s" % (short(got, 400), short(wire, 400)))
        if list(d.enc) != wire_order(d.enc):
            obs.hit("unordered dictionaries")
        obs.hit("accounted")
        obs.hit("bytes accounted", len(wire))
        obs.hit("elements", len(d.enc))
        obs.state("element sets", tuple(wire_order(d.out)))
        return True


class C09(Check):
    id = "C09"
    rule = "wire cases: valid ones, every truncation of a sample, trailing bytes, tampered and junk length prefixes, damaged bitmaps, undecodable bytes, undefined fields, random bytes; the model decides acceptance"
    required = {"accepted": 8000, "rejected": 20000}

    def cases(self, ctx):
        yield from streams.mixed_wires(ctx, 2.0)
        yield from streams.prefix_junk(ctx, ctx.thorough, True)
        yield from pad_wires(ctx)
        yield from bitmap_junk(ctx)
        yield from lenient_bitmaps(ctx, ctx.n(16000))
        yield from bit_walk(ctx)
        yield from mti_wires(ctx)
        yield from capacity_wires(ctx)
        yield from streams.wires_from(streams.random_docs(ctx, ctx.n(2500), name="c09t"), ctx, "c09t", 0.3, trunc=1.0, extra=1.0)
        yield from streams.wires_from(streams.random_docs(ctx, ctx.n(1500), False, name="c09b"), ctx, "c09b", 0.3, mutants=3, trunc=0.1, extra=0.5)

    def judge(self, case, obs):
        _, spec, wire = case
        try:
            msg, rej = model.read(wire, spec), None
        except model.Reject as e:
            msg, rej = None, e
        d = obs.dec(wire, spec)
        if rej is None:
            if not d.ok:
                raise Violation("decode refused a well-formed message: %r" % d)
            obs.hit("accepted")
            shape(obs, msg)
        else:
            if d.ok:
                raise Violation("decode accepted a malformed message (%s): %s" % (rej, short(d.out, 300)))
            if d.kind == "foreign":
                raise Violation("decode rejected a malformed message (%s) with %r instead of DecodeError" % (rej, d))
            obs.hit("rejected")
            obs.hit("rejected: " + rej.kind)
            obs.state("reject kinds", (rej.kind, rej.field if rej.field in ("h", "t", "p", "1") else "field", model.unit_of(spec.get(rej.field, {}))))
        return True


def bitmap_junk(ctx):
    """text bitmaps with one position replaced by every kind of non-digit; short and long ones"""
    rng = ctx.rng("bitmap_junk")
    for enc in ctx.mine(("ascii", "cp500", "latin-1", "utf-8", "cp037", "koi8-r", "cp1252", "iso8859_15")):
        for lvl in (1, 2, 3):
            nums = {1: [2], 2: [2, 66], 3: [2, 66, 129]}[lvl]
            spec, doc = gen.bitmap_message(nums, "ascii", enc, enc)
            msg = model.write(doc, spec)
            spans = []
            for k, a, b, e in gen.element_offsets(msg):
                if k in ("p", "1"):
                    spans.append((b, e))
            for a, e in spans:
                for i in range(a, e):
                    for ch in " \t\n\r\x0b\x0c\x00gGxX-+_.zé\x85\xa0/:@[`{":
                        try:
                            raw = ch.encode(enc)
                        except Exception:
                            continue
                        if len(raw) == 1:
                            yield "wire", spec, msg.wire[:i] + raw + msg.wire[i + 1 :]
                    yield "wire", spec, msg.wire[:i] + msg.wire[i + 1 :]
                    yield "wire", spec, msg.wire[:i] + " ".encode(enc) + msg.wire[i:]
            if ctx.thorough:
                for b in range(256):
                    for i in (spans[0][0], spans[0][0] + 5, spans[-1][1] - 1):
                        yield "wire", spec, msg.wire[:i] + bytes([b]) + msg.wire[i + 1 :]


def lenient_bitmaps(ctx, n=2500):
    """text bitmaps that are not exactly hex digits, in messages laid out so that a
    careless reading (skipping blanks, accepting signs, 0x, _, other digits,
    missing digits as zeros) would find a consistent message"""
    rng = ctx.rng("lenient_bitmaps")
    blanks = (" ", "\t", "\n", "\r", "\x0b", "\x0c", "\x00", "  ", "\xa0", "\u2003")
    signs = ("0x", "0X", "+", "-", "_", " ", "\n", "\x00", "0x_")
    for _ in range(n):
        enc = rng.choice(("ascii", "ascii", "cp500", "latin-1", "utf-8", "cp037", "koi8-r"))
        lvl = rng.choice((0, 0, 1, 2))
        bits = 0
        for b in rng.sample(range(1, 65), rng.choice((0, 0, 1, 2, 3))):
            bits |= 1 << b
        short = rng.choice((14, 12, 15, 8, 0, 16)) if rng.random() < 0.8 else rng.randrange(16)
        left = ("%016X" % bits)[:short]
        r = rng.random()
        if r < 0.4:  # blanks between digit pairs
            out = [left[i : i + 2] for i in range(0, short, 2)]
            k = 16 - len(left)
            while sum(map(len, out)) < 16:
                out.insert(rng.randrange(len(out) + 1), rng.choice(blanks))
            txt = "".join(out)[:16]
        elif r < 0.55:  # blanks anywhere
            out = list(left)
            while len(out) < 16:
                out.insert(rng.choice((0, len(out), rng.randrange(len(out) + 1))), rng.choice(blanks)[0])
            txt = "".join(out)
        elif r < 0.8:
            sg = rng.choice(signs)
            txt = sg + ("%016X" % bits)[len(sg) :]
            if rng.random() < 0.3:
                txt = ("%016X" % bits)[: 16 - len(sg)] + sg
            elif rng.random() < 0.3:
                i = rng.randrange(1, 15)
                txt = ("%016X" % bits)[: i - len(sg)] + sg + ("%016X" % bits)[i:] if i >= len(sg) else txt
        elif r < 0.9:  # digits of other scripts
            txt = "".join(chr(rng.choice((0x660, 0x966, 0xFF10)) + int(c)) if c.isdigit() and rng.random() < 0.3 else c for c in "%016X" % bits)
        else:
            txt = left
        try:
            raw = txt.encode(enc)
        except UnicodeError:
            continue
        if len(raw) != 16 and rng.random() < 0.8:
            # the sixteen bytes are the bitmap, whatever they stand for
            raw = raw[:16].ljust(16, "0".encode(enc))
        # every careless reading of the sixteen characters
        readings = set()
        digits = "".join(c for c in txt if c in "0123456789abcdefABCDEF")
        readings.add(int(digits.ljust(16, "0")[:16], 16))
        readings.add(int(digits[:16] or "0", 16))
        readings.add(int("".join(c if c in "0123456789abcdefABCDEF" else "0" for c in txt).ljust(16, "0")[:16], 16))
        for f in (lambda t: int(t, 16), lambda t: int.from_bytes(bytes.fromhex(t).ljust(8, b"\0")[:8], "big")):
            try:
                readings.add(abs(f(txt)) & (2**64 - 1))
            except ValueError:
                pass
        for v in readings:
            base = (0, 64, 128)[lvl]
            on = [i for i in range(1, 65) if v >> (64 - i) & 1]
            nums = [base + i for i in on if i != 1]
            tail_bitmaps = b""
            if 1 in on:
                if lvl == 2:
                    nums.append(129)
                else:
                    tail_bitmaps = ("0" * 16).encode(enc)
            nums = sorted(set(nums))
            spec = gen.base_spec("ascii", enc, enc)
            for x in nums + [3]:
                spec[str(x)] = gen.simple_fs(x, 0)
            head = (b"", ("8" + "0" * 15).encode(enc), ("8" + "0" * 15).encode(enc) * 2)[lvl]
            body = b"".join(("%03d" % x).encode() for x in nums)
            yield "wire", spec, b"0200" + head + raw + tail_bitmaps + body


def mti_wires(ctx):
    """message types of every byte, all encodings, and short inputs"""
    rng = ctx.rng("mti_wires")
    for t in ctx.mine(gen.BASE_T + ("utf-16-le", "shift_jis", "cp437", "no_such_codec")):
        spec, _ = gen.bitmap_message([3], t, "ascii")
        n = 2 if t == "b" else 4
        rest = b"2000000000000000" + b"003"
        for b in range(256):
            for i in range(n):
                m = bytearray(b"\x02\x00" if t == "b" else ("0200".encode(t) if t in gen.BASE_T else b"0200"))
                m[i] = b
                yield "wire", spec, bytes(m) + rest
        for k in range(n + 3):
            yield "wire", spec, (b"0200" + rest)[:k]
        for _ in range(200):
            yield "wire", spec, bytes(rng.randrange(256) for _ in range(n)) + rest
        for ml, lt, lc in itertools.product((0, 1, 2, 4, 8, 100), (0, 1, 2, 3), (None, "nibbles")):
            s2 = dict(spec, t=dict(spec["t"], max_len=ml, len_type=lt, left_pad="0"))
            if lc:
                s2["t"]["len_count"] = lc
            yield "wire", s2, (b"\x12\x34" if t == "b" else b"1234") + rest
            yield "wire", s2, (b"\x12\x34" if t == "b" else b"1234")


class C10(Check):
    id = "C10"
    rule = "wire cases as C08 plus every byte and many byte pairs under every codec; non-trivial when decode accepted and every value was recomputed from its raw data"
    required = {"values recomputed": 40000}

    def cases(self, ctx):
        yield from streams.wires_from(streams.valid_docs(ctx, 1.6), ctx, "c10", variants=0.4, mutants=1)
        yield from streams.codec_wires(ctx)
        yield from streams.mixed_wires(ctx, 0.6)
        yield from pad_wires(ctx)
        yield from mti_wires(ctx)

    def judge(self, case, obs):
        _, spec, wire = case
        d = obs.dec(wire, spec)
        if not d.ok:
            return False
        for k, v in d.out.items():
            fs = spec[k]
            e = d.enc.get(k)
            if e is None:
                raise Violation("element %s has a value but no raw data" % k)
            raw = bytes(e["data"])
            obs.hit("values recomputed")
            if fs["data_enc"] == "b":
                want = raw.hex().upper()
                if v != want and not (k not in ("t", "p", "1") and model.unit_of(fs) == "nibbles" and len(v) == len(want) - 1 and v in (want[1:], want[:-1])):
                    raise Violation("element %s raw %s decoded as %s" % (k, short(want), short(v)))
            else:
                want = raw.decode(fs["data_enc"]) if raw else ""
                if v != want:
                    raise Violation("element %s raw %s (%s) decoded as %s expected %s" % (k, short(raw), fs["data_enc"], short(v), short(want)))
            obs.state("encodings", (k if k in ("h", "t", "p", "1") else "field", fs["data_enc"]))
        try:
            msg = model.read(wire, spec)
        except model.Reject:
            return True
        if d.out != msg.dec:
            raise Violation("decoded values differ: %s" % diff(msg.dec, d.out))
        if d.enc != msg.enc:
            raise Violation("raw parts differ: %s" % diff(msg.enc, d.enc))
        return True


class C25(Check):
    id = "C25"
    rule = "header on/off/negative x every element configuration x value present, absent, short, long, both ways; message type in every encoding and size under every length setting, both ways; non-trivial when a header or message type rule was judged"
    required = {"header sent": 1500, "header ignored": 500, "header missing refused": 100, "header received": 1500, "type judged": 5000}

    def cases(self, ctx):
        yield from header_docs(ctx)
        yield from streams.wires_from(header_docs(ctx), ctx, "c25h", 0.1, mutants=1, trunc=0.03)
        yield from mti_docs(ctx)
        yield from mti_wires(ctx)
        rng = ctx.rng("c25")
        for _, spec, doc in streams.random_docs(ctx, ctx.n(12000), name="c25r"):
            if spec["h"]["max_len"] <= 0 and rng.random() < 0.5:
                doc["h"] = rng.choice(("", "junk", "00", "é", None))
            yield "doc", spec, doc
            m = streams.wire_of(spec, doc)
            if m is not None:
                yield "wire", spec, m.wire
                if rng.random() < 0.4:
                    yield "wire", spec, m.wire[: rng.randrange(0, min(len(m.wire), 40))]
        # smallest messages with a part missing or doubled
        for _ in range(ctx.n(6000)):
            spec, doc = gen.rand_message(rng, True, rng.sample((2, 3, 64, 66, 129), rng.choice((0, 0, 0, 1))))
            for _ in range(3):
                h, n = gen.rand_header(rng)
                if n is not None and n < 40:
                    spec["h"] = h
                    doc["h"] = gen.value_for(h, n, rng) or ""
                    break
            m = streams.wire_of(spec, doc)
            if m is None:
                continue
            yield "wire", spec, m.wire
            for _ in range(4):
                yield "wire", spec, gen.rearrange(m, rng)
        yield from streams.faulty_docs(ctx, ctx.n(6000), kinds=("missing-t", "missing-h", "t-size", "t-bad", "size"))

    def judge(self, case, obs):
        kind, spec, x = case
        on = spec["h"]["max_len"] > 0
        if kind == "doc":
            r = obs.enc(dict(x), spec)
            try:
                msg, rej = model.write(x, spec), None
            except model.Reject as e:
                msg, rej = None, e
            if rej is not None and rej.field in ("h", "t"):
                obs.hit("type judged")
                if on and "h" not in x:
                    obs.hit("header missing refused")
                if r.ok:
                    raise Violation("accepted although element %s is wrong (%s): %s" % (rej.field, rej, short(bytes(r.out))))
                return True
            if not r.ok:
                if r.kind == "foreign" or getattr(r.exc, "field", None) in ("h", "t"):
                    raise Violation("refused a valid header/message type: %r" % r)
                return rej is not None
            if rej is not None:
                return False
            parts = msg.enc
            if on:
                obs.hit("header sent")
            elif "h" in x:
                obs.hit("header ignored")
            got = r.enc
        else:
            r = obs.dec(x, spec)
            try:
                msg, rej = model.read(x, spec), None
            except model.Reject as e:
                msg, rej = None, e
            if rej is not None and rej.field in ("h", "t"):
                obs.hit("type judged")
                if r.ok:
                    raise Violation("accepted although element %s is wrong (%s)" % (rej.field, rej))
                return True
            if not r.ok:
                if r.kind == "foreign" and rej is None or getattr(r.exc, "field", None) in ("h", "t"):
                    raise Violation("refused a valid header/message type: %r" % r)
                return rej is not None
            if rej is not None:
                raise Violation("accepted although element %s is wrong (%s): %s" % (rej.field, rej, short(r.out)))
            parts = msg.enc
            got = r.enc
            for k in ("h", "t"):
                if r.out.get(k) != msg.dec.get(k):
                    raise Violation("element %s decoded as %s expected %s" % (k, short(r.out.get(k)), short(msg.dec.get(k))))
            if on:
                obs.hit("header received")
        obs.hit("type judged")
        for k in ("h", "t"):
            if got.get(k) != parts.get(k):
                raise Violation("element %s is %s expected %s" % (k, short(got.get(k)), short(parts.get(k))))
        front = b"".join(parts[k]["len"] + parts[k]["data"] for k in ("h", "t") if k in parts)
        out = bytes(r.out) if kind == "doc" else bytes(x)
        if not out.startswith(front):
            raise Violation("the message does not start with its header and type: %s" % short(out))
        obs.state("header class", (on, kind, spec["h"]["data_enc"] if on else "-", spec["h"]["len_type"] if on else 0, spec["t"]["data_enc"]))
        return True


CHECKS = [C01, C02, C03, C04, C05, C06, C07, C08, C09, C10, C25]
