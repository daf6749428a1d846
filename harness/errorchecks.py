"""C11-C15 and C24: how encode and decode fail, and what hostile input costs."""

import array
import codecs
import collections
import copy
import pickle
import re
import sys
import time
import tracemalloc
import types
import warnings

import core
import gen
import model
import streams
import wirechecks
from core import Check, Violation, short

ODD_CODECS = ("no_such_codec", "hex", "rot13", "base64", "zip", "B", "BCD", "", " ", "a\x00b", "idna", "punycode", "unicode_escape", "raw_unicode_escape", "utf-7", "utf-8-sig", "utf-16", "utf-32", "undefined", "mbcs", "iso2022_jp", "hz", "ASCII", "UTF8", "Latin 1", "\udc80", "é", "x" * 300)


def _failing_codec(name):
    """codecs that fail with all sorts of exceptions, registered like a user's own"""
    kinds = {"verif_keyerror": KeyError, "verif_runtime": RuntimeError, "verif_type": TypeError, "verif_assert": AssertionError, "verif_overflow": OverflowError, "verif_os": OSError, "verif_index": IndexError, "verif_stop": StopIteration, "verif_recursion": RecursionError}
    if name == "verif_nontext":
        return codecs.CodecInfo(lambda t, e="strict": ([1], len(t)), lambda b, e="strict": (b"x", len(b)), name=name)
    exc = kinds.get(name)
    if exc is None:
        return None

    def fail(x, errors="strict"):
        # digits pass, so that a length prefix or message type gets through
        if isinstance(x, str):
            if x.isascii() and x.isdigit():
                return x.encode("ascii"), len(x)
        elif bytes(x).isdigit():
            return bytes(x).decode("ascii"), len(x)
        raise exc("codec failed")

    return codecs.CodecInfo(fail, fail, name=name)


codecs.register(_failing_codec)
ODD_CODECS += ("verif_keyerror", "verif_runtime", "verif_type", "verif_assert", "verif_overflow", "verif_os", "verif_index", "verif_stop", "verif_recursion", "verif_nontext")
# codecs whose state or aliases make equality with a strict model unfair are
# used for totality only


def weird_spec(spec, rng):
    """well-formed but unusual specification"""
    spec = {k: dict(v) for k, v in spec.items()}
    for k in list(spec):
        fs = spec[k]
        r = rng.random()
        if r < 0.15:
            fs["data_enc"] = rng.choice(ODD_CODECS)
        elif r < 0.25:
            fs["len_enc"] = rng.choice(ODD_CODECS)
        elif r < 0.35:
            fs["len_type"] = rng.choice((0, 1, 2, 3, 5, 9, 17, 100, 500, 1000))
        elif r < 0.5:
            fs["max_len"] = rng.choice((0, 1, 2, 3, 7, 255, 10**6, 10**12, 2**63, 2**64, 10**40))
        elif r < 0.6:
            fs["len_count"] = rng.choice(("bytes", "nibbles"))
        elif r < 0.65:
            fs.update(rng.choice(gen.PADS + ({"left_pad": "x"}, {"right_pad": " "}, {"left_pad": "é"}, {"left_pad": "xyz", "right_pad": "G"})))
        elif r < 0.7:
            fs.pop("desc", None)
        elif r < 0.73 and k.isdigit() and k != "1":
            del spec[k]
    if rng.random() < 0.2:
        spec["h"]["max_len"] = rng.choice((1, 4, 10**9, -3))
    return spec


class Sub(bytes):
    pass


class SubA(bytearray):
    pass


NOT_BYTES = ("str", "none", "int", "list", "tuple", "memoryview", "array", "dict", "float", "bool", "object", "set", "range", "iter", "type", "strsub")


def not_bytes(name, wire):
    if name == "strsub":
        return type("S", (str,), {})("0200")
    return {
        "str": lambda: bytes(wire).decode("latin-1"),
        "none": lambda: None,
        "int": lambda: 48,
        "list": lambda: list(wire),
        "tuple": lambda: tuple(wire),
        "memoryview": lambda: memoryview(bytes(wire)),
        "array": lambda: array.array("B", wire),
        "dict": lambda: {"t": "0200"},
        "float": lambda: 1.5,
        "bool": lambda: False,
        "object": object,
        "set": lambda: set(wire),
        "range": lambda: range(5),
        "iter": lambda: iter(wire),
        "type": lambda: bytes,
    }[name]()


class C11(Check):
    id = "C11"
    rule = "wire cases over ordinary and unusual specifications (unknown and stateful codecs, huge prefixes and maxima, missing fields), damaged and random bytes, and 16 kinds of non-bytes argument; non-trivial always; distinct by input"
    required = {"decoded": 5000, "rejected": 20000, "type errors": 100}

    def setup(self, ctx):
        warnings.simplefilter("ignore")

    def cases(self, ctx):
        rng = ctx.rng("c11")
        yield from streams.mixed_wires(ctx, 1.0)
        yield from streams.prefix_junk(ctx, ctx.thorough)
        yield from wirechecks.bitmap_junk(ctx)
        yield from wirechecks.lenient_bitmaps(ctx, ctx.n(6000))
        yield from wirechecks.mti_wires(ctx)
        for _, spec, wire in streams.mixed_wires(ctx, 0.7):
            yield "wire", weird_spec(spec, rng), wire
        for _, spec, wire in streams.random_bytes(ctx, ctx.n(12000)):
            yield "wire", spec, wire
            yield "wire", weird_spec(spec, rng), wire
        for codec in ctx.mine(ODD_CODECS):
            for lt in (0, 1, 2, 4):
                for data in (b"", b"0", b"3", b"02ab", b"\x01\xff", b"\x00" * 8, b"+AAA-", b"\\x41\\", b"xn--a", b"\xff\xfe0\x00", b"9" * 9):
                    for where in ("data_enc", "len_enc"):
                        fs = {"data_enc": "ascii", "len_enc": "ascii", "len_type": lt, "max_len": 4, "desc": "F"}
                        fs[where] = codec
                        spec, _ = streams.one_field(fs, "")
                        yield "wire", spec, b"02004000000000000000" + data
                    for k in ("t", "p", "1", "h"):
                        spec, _ = gen.bitmap_message([2, 66])
                        spec[k] = dict(spec[k], data_enc=codec, max_len=max(1, spec[k]["max_len"]), len_type=lt)
                        yield "wire", spec, data + b"0200" + b"C000000000000000" + b"4000000000000000" + b"002066"
        for name in ctx.mine(NOT_BYTES * 20):
            spec, doc = gen.rand_message(rng)
            yield "notbytes", spec, name

    def judge(self, case, obs):
        kind, spec, x = case
        if kind == "notbytes":
            r = obs.dec(not_bytes(x, b"02004000000000000000"), spec)
            if r.kind != "foreign" or not isinstance(r.exc, TypeError):
                raise Violation("decode of a %s %r instead of raising TypeError" % (x, r))
            obs.hit("type errors")
            return True
        for arg in (x, bytearray(x)):
            r = obs.dec(arg, spec)
            if r.ok:
                obs.hit("decoded")
            elif r.kind == "err":
                if not isinstance(r.exc, ValueError):
                    raise Violation("DecodeError is not a ValueError")
                obs.hit("rejected")
                obs.state("causes", (re.sub(r"\d+", "#", str(r.exc.msg))[:60], "field" if str(r.exc.field).isdigit() else r.exc.field))
            else:
                raise Violation("decode %r instead of DecodeError" % r)
            if arg is x and len(x) % 5:
                break
        return True


ODD_VALUES = ("None", "0", "1234", "b'1234'", "bytearray(b'00')", "1.5", "[]", "['1', '2']", "{}", "{'len': b'', 'data': b'00'}", "()", "True", "frozenset()", "range(4)", "''", "'\\ud800'", "'\\x00'", "'0' * 100000", "'é' * 6", "'日本'", "' '", "'0x12'", "'１２'", "memoryview(b'12')", "object", "10**50", "-1", "b''", "1j", "Ellipsis")
ODD_KEYS = ("None", "2", "3.0", "b'2'", "('2',)", "True", "frozenset()", "object", "1j", "Ellipsis", "-1", "0", "65", "1", "''", "'-2'", "'2a'", "' 2'", "'²'", "'٣'", "'½'", "'02'", "'0'", "'193'", "'1000'", "'9' * 4000", "'9' * 5000", "'t '", "'T'", "'H'", "'\\ud800'", "'\\ud835\\udfd0'", "'𝟐'", "'⑴'", "'Ⅻ'", "'〇'", "'0001'", "'065'")
NOT_DICTS = ("None", "1", "'t'", "b'0200'", "[]", "[('t', '0200')]", "(('t', '0200'),)", "types.MappingProxyType({'t': '0200'})", "collections.UserDict({'t': '0200'})", "collections.ChainMap({'t': '0200'})", "object()", "1.5", "True", "set()", "dict", "iter(())", "bytearray(b'')")


def ev(expr):
    return eval(expr, {"types": types, "collections": collections})


class C12(Check):
    id = "C12"
    rule = "doc cases: valid, faulty, every odd value in every element, every odd key, unusual specifications, 17 kinds of non-dict argument; non-trivial always; distinct by input"
    required = {"encoded": 5000, "rejected": 10000, "type errors": 40, "numeric keys accounted": 10000}

    def setup(self, ctx):
        warnings.simplefilter("ignore")

    def cases(self, ctx):
        rng = ctx.rng("c12")
        yield from streams.faulty_docs(ctx, ctx.n(25000))
        yield from streams.config_faults(ctx)
        yield from streams.key_docs(ctx, ctx.n(1500))
        yield from wirechecks.mti_docs(ctx)
        yield from wirechecks.header_docs(ctx)
        yield from streams.per_number_docs(ctx)
        yield from streams.capacity_docs(ctx)
        for _, spec, doc in streams.random_docs(ctx, ctx.n(15000), name="c12w"):
            yield "doc", weird_spec(spec, rng), streams.dirty(doc, rng)
        for e in ctx.mine(NOT_DICTS * 4):
            spec, _ = gen.rand_message(rng)
            yield "notdict", spec, e
        combos = [("value", k, e) for k in ("t", "h", "2", "4", "66", "129", "p", "1", "65", "3", "64", "128", "192") for e in ODD_VALUES]
        combos += [("key", v, e) for v in ("'x'", "'0000'", "None", "5", "b''") for e in ODD_KEYS]
        for what, a, e in ctx.mine(combos):
            for de in ("ascii", "b", "cp500", "utf-8", "hex"):
                for lt in (0, 2):
                    for unit in ("bytes", "nibbles"):
                        spec, doc = gen.bitmap_message([2, 4, 66, 129])
                        for k in ("2", "4", "66", "129"):
                            spec[k] = {"data_enc": de if k != "4" else "ascii", "len_enc": "ascii", "len_type": lt if k != "4" else 0, "max_len": 4 if k != "4" else 3, "len_count": unit if k != "4" else "bytes", "left_pad": "0"}
                            if k != "4":
                                doc[k] = "12" if lt else {"bytes": "1234" if de != "b" else "12345678", "nibbles": "1234" if de == "b" else "12"}[unit]
                        spec["h"] = dict(spec["2"])
                        doc["h"] = doc["2"]
                        spec["t"] = dict(spec["t"], data_enc=de)
                        if what == "value":
                            if a not in ("4",):
                                yield "oddvalue", spec, (doc, a, e)
                        else:
                            yield "oddkey", spec, (doc, a, e, rng.random() < 0.5)
                        if what == "value":
                            keep = {k: v for k, v in doc.items() if k in ("t", "h", a)}
                            yield "oddvalue", spec, (keep, a, e)

    def judge(self, case, obs):
        kind, spec, x = case
        if kind == "notdict":
            r = obs.enc(ev(x), spec)
            if r.kind != "foreign" or not isinstance(r.exc, TypeError):
                raise Violation("encode of %s %r instead of raising TypeError" % (x, r))
            obs.hit("type errors")
            return True
        if kind == "oddvalue":
            doc = dict(x[0])
            doc[x[1]] = ev(x[2])
        elif kind == "oddkey":
            doc = dict(x[0])
            if x[3]:
                doc = {ev(x[2]): ev(x[1]), **doc}
            else:
                doc[ev(x[2])] = ev(x[1])
        else:
            doc = x
        r = obs.enc(dict(doc), spec)
        if r.ok:
            obs.hit("encoded")
            for k in doc:
                if isinstance(k, str) and k.isnumeric() and k not in ("1", "65"):
                    obs.hit("numeric keys accounted")
                    if k not in r.enc:
                        raise Violation("numeric key %r was accepted but not encoded" % short(k))
                    if not (k.isascii() and k.isdigit() and str(int(k)) == k and 1 <= int(k) <= 192):
                        raise Violation("numeric key %r outside 1-192 or not in plain decimal spelling was accepted" % short(k))
                elif not isinstance(k, str):
                    raise Violation("non-string key %r was accepted" % (k,))
            n = sum(1 for k in r.enc if k.isdigit() and k != "1")
            m = sum(1 for k in doc if isinstance(k, str) and k.isnumeric() and k not in ("1", "65"))
            if n != m:
                raise Violation("%d fields in the breakdown for %d numeric keys" % (n, m))
        elif r.kind == "err":
            if not isinstance(r.exc, ValueError):
                raise Violation("EncodeError is not a ValueError")
            obs.hit("rejected")
            obs.state("causes", (re.sub(r"\d+|'[^']*'", "#", str(r.exc.msg))[:60], "field" if str(r.exc.field).isdigit() else r.exc.field))
        else:
            raise Violation("encode %r instead of EncodeError" % r)
        return True


def error_wires(ctx, scale=1.0):
    yield from streams.mixed_wires(ctx, 1.5 * scale)
    yield from streams.prefix_junk(ctx)
    yield from wirechecks.pad_wires(ctx)
    yield from wirechecks.bitmap_junk(ctx)
    yield from wirechecks.lenient_bitmaps(ctx, ctx.n(6000))
    yield from wirechecks.mti_wires(ctx)
    yield from streams.wires_from(wirechecks.header_docs(ctx), ctx, "ewh", 0.1, mutants=2, trunc=0.05)
    yield from streams.wires_from(streams.random_docs(ctx, ctx.n(int(2500 * scale)), name="ewt"), ctx, "ewt", 0.3, trunc=1.0, extra=1.0)
    yield from streams.wires_from(streams.random_docs(ctx, ctx.n(int(1200 * scale)), False, name="ewb"), ctx, "ewb", 0.3, mutants=4, trunc=0.1, extra=0.5)


def error_docs(ctx, scale=1.0):
    yield from streams.faulty_docs(ctx, ctx.n(int(50000 * scale)))
    yield from streams.config_faults(ctx)
    yield from streams.capacity_docs(ctx)
    yield from streams.key_docs(ctx, ctx.n(int(1500 * scale)))
    yield from wirechecks.mti_docs(ctx)
    yield from wirechecks.header_docs(ctx)
    rng = ctx.rng("error_docs")
    # faults deep inside messages with many fields, so that much was encoded before
    for _ in range(ctx.n(int(6000 * scale))):
        spec, doc = gen.rand_message(rng, True, {rng.randrange(2, 193) for _ in range(rng.choice((6, 12, 30)))} - {65})
        nums = sorted(int(k) for k in doc if k.isdigit())
        for target in rng.sample(nums, min(2, len(nums))):
            s2, d2 = dict(spec), dict(doc)
            if gen.break_doc(s2, d2, rng, kind=rng.choice(("size", "charset", "nonhex", "oddhex", "undefined", "codec", "nofit")), target=str(target)):
                yield "doc", s2, d2


def partial_ok(err_dec, err_enc, parts, failing, what):
    """earlier elements exact, nothing later"""
    for k, v, l, d in parts:
        if err_dec is not None:
            if k not in err_dec:
                raise Violation("%s: partial decoded dictionary lacks earlier element %s" % (what, k))
            if k != failing and err_dec[k] != v:
                raise Violation("%s: partial decoded element %s is %s expected %s" % (what, k, short(err_dec[k]), short(v)))
        if k not in err_enc:
            raise Violation("%s: partial encoded dictionary lacks earlier element %s" % (what, k))
        if k != failing and err_enc[k] != {"len": l, "data": d}:
            raise Violation("%s: partial encoded element %s is %s expected %r %s" % (what, k, short(err_enc[k]), l, short(d)))
    known = {k for k, *_ in parts} | {failing}
    for name, dct in (("decoded", err_dec), ("encoded", err_enc)):
        if dct is None:
            continue
        extra = set(dct) - known
        if extra:
            raise Violation("%s: partial %s dictionary has later elements %s" % (what, name, sorted(extra)))


class C13(Check):
    id = "C13"
    rule = "wire cases with one or more faults at every level; non-trivial when decode raised DecodeError and its field, position, input and partial dictionaries were compared with the model"
    required = {"errors judged": 20000, "with earlier fields": 5000}

    def cases(self, ctx):
        yield from error_wires(ctx)

    def judge(self, case, obs):
        _, spec, wire = case
        try:
            model.read(wire, spec)
            return False
        except model.Reject as e:
            rej = e
        arg = bytearray(wire) if len(wire) % 4 == 1 else wire
        d = obs.dec(arg, spec)
        if d.kind != "err":
            return False
        e = d.exc
        what = "DecodeError %r for %s" % (str(e), rej)
        if e.field != rej.field:
            raise Violation("%s: field is %r expected %r" % (what, e.field, rej.field))
        if e.pos != rej.pos:
            raise Violation("%s: pos is %r expected %r" % (what, e.pos, rej.pos))
        if type(e.s) is not type(arg) or e.s != wire:
            raise Violation("%s: does not carry the input" % what)
        if rej.kind == "trailing":
            partial_ok(e.doc_dec, e.doc_enc, rej.parts, None, what)
        else:
            partial_ok(e.doc_dec, e.doc_enc, rej.parts, rej.field, what)
            fe = e.doc_enc.get(rej.field)
            if fe is not None and rej.kind != "undefined":
                # whatever it shows of the failing element comes from that element
                at = len(b"".join(l + dat for k, v, l, dat in rej.parts if k != rej.field))
                if not bytes(wire[at:]).startswith(bytes(fe["len"]) + bytes(fe["data"])):
                    raise Violation("%s: partial raw data of the failing element %s is not from the input" % (what, short(fe)))
        obs.hit("errors judged")
        obs.hit("kind: " + rej.kind)
        if len(rej.parts) > 3:
            obs.hit("with earlier fields")
        obs.state("fault sites", (rej.kind, rej.field if rej.field in ("h", "t", "p", "1") else "field", min(len(rej.parts), 6)))
        obs.state("positions", rej.pos)
        return True


class C14(Check):
    id = "C14"
    rule = "doc cases with one or two faults at every level, deep messages included; non-trivial when encode raised EncodeError and its field, document and partial breakdown were compared with the model"
    required = {"errors judged": 15000, "with earlier fields": 3000}

    def cases(self, ctx):
        yield from error_docs(ctx)
        rng = ctx.rng("c14")
        for _, spec, doc in streams.faulty_docs(ctx, ctx.n(8000), (2, 3), "c14m"):
            yield "doc", spec, streams.dirty(doc, rng)

    def judge(self, case, obs):
        _, spec, doc = case
        try:
            model.write(doc, spec)
            return False
        except model.Reject as e:
            rej = e
        work = dict(doc)
        r = obs.enc(work, spec)
        if r.kind != "err":
            return False
        e = r.exc
        what = "EncodeError %r for %s" % (short(str(e), 300), rej)
        if e.field != rej.field:
            raise Violation("%s: field is %r expected %r" % (what, e.field, rej.field))
        if e.doc_dec is not work and e.doc_dec != work:
            raise Violation("%s: does not carry the document" % what)
        partial_ok(None, e.doc_enc, rej.parts, rej.field, what)
        for k, v in doc.items():
            if k not in ("p", "1", "65") and (k not in e.doc_dec or e.doc_dec[k] != v):
                raise Violation("%s: the carried document lost %r" % (what, k))
        obs.hit("errors judged")
        obs.hit("kind: " + rej.kind)
        if len(rej.parts) > 3:
            obs.hit("with earlier fields")
        obs.state("fault sites", (rej.kind, rej.field if rej.field in ("h", "t", "p", "1") else "field", min(len(rej.parts), 6)))
        return True


CAUSE = {
    # kind -> words of which one must appear in the message
    "len-bcd": ("bcd",),
    "len-codec-unknown": ("unknown encoding",),
    "len-undecodable": ("invalid data", "length"),
    "len-nondigit": ("non-numeric", "numeric", "digit"),
    "data-codec-unknown": ("unknown encoding",),
    "data-undecodable": ("invalid data", "decode"),
    "data-unencodable": ("invalid data", "encode"),
    "bitmap-nonhex": ("hex",),
    "nonhex": ("hex",),
    "odd-hex": ("odd",),
    "odd-nibbles-nopad": ("odd", "pad"),
    "undefined": ("not defined", "defin", "spec"),
    "trailing": ("extra",),
    "missing": ("required",),
    "len-nofit": ("fit",),
    "over-max": ("maximum",),
    "bad-value": ("invalid",),
    "keys": ("field",),
}


class C15(Check):
    id = "C15"
    rule = "every error raised by the faulty wire and doc workloads; non-trivial when an error's text, attributes, 6 pickle protocols, copy and deepcopy were compared; size errors also for numbers and unit"
    required = {"DecodeError judged": 8000, "EncodeError judged": 8000, "size errors judged": 8000, "pickles": 50000}

    def cases(self, ctx):
        yield from error_wires(ctx, 0.25)
        yield from error_docs(ctx, 0.3)

    def judge(self, case, obs):
        kind, spec, x = case
        try:
            model.write(x, spec) if kind == "doc" else model.read(x, spec)
            return False
        except model.Reject as e:
            rej = e
        if kind == "doc":
            arg = dict(x)
            r = obs.enc(arg, spec)
        else:
            arg = bytearray(x) if len(x) % 3 == 0 else x
            r = obs.dec(arg, spec)
        if r.kind != "err":
            return False
        e = r.exc
        if kind == "wire" and (type(getattr(e, "s", None)) is not type(arg) or e.s != x):
            raise Violation("error %r carries %s instead of the input %s" % (short(str(e)), short(getattr(e, "s", None)), short(arg)))
        if kind == "doc" and getattr(e, "doc_dec", None) != arg:
            raise Violation("error %r carries %s instead of the document %s" % (short(str(e)), short(getattr(e, "doc_dec", None)), short(arg)))
        names = ("msg", "field", "doc_dec", "doc_enc") + (("s", "pos") if kind == "wire" else ())
        cls = core.ISO.EncodeError if kind == "doc" else core.ISO.DecodeError
        if type(e) is not cls:
            raise Violation("%s raised instead of %s" % (type(e), cls))
        self.text(e, kind)
        for name in names:
            if not hasattr(e, name):
                raise Violation("error %r has no attribute %s" % (str(e), name))
        if not isinstance(e.msg, str) or not e.msg.strip() or not isinstance(e.field, str):
            raise Violation("msg/field of %r are not text" % e)
        self.cause(e, rej, obs)
        protos = range(pickle.HIGHEST_PROTOCOL + 1) if len(repr(case)) < 6000 else (2,)
        for p in protos:
            try:
                c = pickle.loads(pickle.dumps(e, p))
            except Exception as ex:
                raise Violation("error %r does not survive pickling (protocol %d): %r" % (short(str(e)), p, ex))
            self.same(e, c, names, "pickle %d" % p, kind)
            obs.hit("pickles")
        for how, fn in (("copy", copy.copy), ("deepcopy", copy.deepcopy)):
            try:
                c = fn(e)
            except Exception as ex:
                raise Violation("%s of error %r failed: %r" % (how, short(str(e)), ex))
            self.same(e, c, names, how, kind)
            if how == "deepcopy" and e.doc_enc and c.doc_enc is e.doc_enc:
                raise Violation("deepcopy shares doc_enc")
        obs.hit(cls.__name__ + " judged")
        obs.state("messages", (cls.__name__, re.sub(r"\d+|\[.*\]", "#", e.msg)[:80]))
        return True

    def text(self, e, kind):
        want = "%s: field %s" % (e.msg, e.field)
        if kind == "wire":
            want += " pos %s" % e.pos
        if str(e) != want:
            raise Violation("text is %r expected %r" % (short(str(e), 300), short(want, 300)))
        if e.args != (want,):
            raise Violation("args are %s expected the text %r" % (short(e.args, 300), short(want, 300)))

    def same(self, e, c, names, how, kind):
        if type(c) is not type(e):
            raise Violation("%s changed the type to %s" % (how, type(c)))
        if str(c) != str(e) or c.args != e.args:
            raise Violation("%s changed the text from %r to %r" % (how, short(str(e)), short(str(c))))
        for n in names:
            a, b = getattr(e, n), getattr(c, n, None)
            if type(a) is not type(b) or a != b:
                raise Violation("%s changed attribute %s from %s to %s" % (how, n, short(a), short(b)))

    def cause(self, e, rej, obs):
        m = e.msg.lower()
        if rej.field == e.field:
            words = CAUSE.get(rej.kind, ())
            if words and not any(w in m for w in words):
                raise Violation("message %r does not state the cause (%s)" % (e.msg, rej.kind))
        if rej.nums is not None and rej.field == e.field:
            nums = [int(x) for x in re.findall(r"\d+", e.msg)]
            if rej.nums[0] not in nums or rej.nums[1] not in nums or nums.index(rej.nums[0]) > len(nums) - 1 - nums[::-1].index(rej.nums[1]):
                raise Violation("message %r does not state the actual size %s and then the limit %s" % (e.msg, rej.nums[0], rej.nums[1]))
            if rej.unit not in m or ("nibbles" if rej.unit == "bytes" else "bytes") in m:
                raise Violation("message %r does not state the unit %s" % (e.msg, rej.unit))
            obs.hit("size errors judged")


# --------------------------------------------------------------------------
# C24


TOOL = 4


class Steps:
    """counts executed bytecode instructions of the code under test"""

    def __init__(self):
        self.count = 0
        mon = sys.monitoring
        root = core.REPO.rstrip("/") + "/"
        real = core.os.path.realpath(core.REPO) + "/"
        dis = mon.DISABLE

        def on_instr(code, off):
            fn = code.co_filename
            if fn.startswith(root) or fn.startswith(real):
                self.count += 1
                return None
            return dis

        mon.use_tool_id(TOOL, "verif-steps")
        mon.register_callback(TOOL, mon.events.INSTRUCTION, on_instr)

    def measure(self, fn):
        self.count = 0
        mon = sys.monitoring
        mon.set_events(TOOL, mon.events.INSTRUCTION)
        try:
            return fn()
        finally:
            mon.set_events(TOOL, 0)


def doc_size(doc):
    n = 0
    for k, v in doc.items():
        n += 60 + (len(k) if isinstance(k, str) else 8) + (len(v) if isinstance(v, (str, bytes)) else 8)
    return n


MEM_BASE, MEM_PER = 256_000, 12
STEP_BASE, STEP_PER = 400_000, 60


class C24(Check):
    id = "C24"
    rule = "hostile wires (declared lengths up to 2**64 and 10**18, maxima up to 10**18, all bitmap bits on, 0-1 MB inputs) and large or crowded documents; each call repeated under tracemalloc and under an instruction counter; non-trivial when both were measured"
    required = {"calls measured": 2500, "huge declared lengths": 500, "inputs over 50 kB": 40, "instructions counted": 1000000, "calls timed": 40}
    lines = False

    def setup(self, ctx):
        self.steps = Steps()

    def cases(self, ctx):
        rng = ctx.rng("c24")
        huge = (10**6, 10**9, 2**31, 2**32, 2**40, 2**63, 10**18)
        # declared lengths far beyond the data
        combos = [(de, unit, le, w, m) for de in ("b", "ascii", "cp500", "utf-8") for unit in ("bytes", "nibbles") for le in ("b", "bcd", "ascii", "cp500") for w in (0, 1, 2, 3, 4, 8, 16) for m in huge]
        for de, unit, le, w, m in ctx.mine(combos * (1 if not ctx.thorough else 12)):
            fs = {"data_enc": de, "len_count": unit, "len_enc": le, "len_type": w, "max_len": m, "desc": "F", "left_pad": "0"}
            pre = b""
            if w:
                v = min(m, model.len_capacity(fs)) - rng.choice((0, 0, 1, 7))
                pre = model._prefix(max(v, 0), fs, "2", [])
            num = rng.choice((2, 66, 129))
            where = rng.random()
            body = rng.choice((b"", b"1", b"12" * 50, b"\xf1" * 2000))
            if where < 0.15:
                spec, _ = gen.bitmap_message([3])
                spec["h"] = fs
                yield "wire", spec, ("raw", pre + body)
            else:
                spec, _ = streams.one_field(fs, "", str(num))
                bm = {2: b"4000000000000000", 66: b"8000000000000000" + b"4000000000000000", 129: b"8000000000000000" * 3}[num]
                yield "wire", spec, ("raw", b"0200" + bm + pre + body)
        # everything on
        for _ in range(ctx.n(300)):
            t, p, s = rng.choice(gen.BASE_T), rng.choice(gen.BASE_P), rng.choice(gen.BASE_P)
            spec = gen.base_spec(t, p, s)
            fs = {"data_enc": rng.choice(("ascii", "b")), "len_enc": rng.choice(("b", "bcd", "ascii")), "len_type": rng.choice((0, 1, 2, 3)), "max_len": rng.choice((0, 9, 10**9)), "desc": "F"}
            if fs["len_type"] == 0:
                fs["max_len"] = rng.choice((0, 0, 1))
            for n in range(2, 193):
                spec[str(n)] = fs
            w = gen.mti(t, rng)
            w = bytes.fromhex(w) if t == "b" else w.encode(t)
            w += b"\xff" * 8 if p == "b" else ("F" * 16).encode(p)
            w += b"\xff" * 16 if s == "b" else ("F" * 32).encode(s)
            w += rng.choice((b"", b"\x00" * 600, b"0" * 600, b"\x01" * 600, b"\x09" * 5000, b"9" * 3000))
            yield "wire", spec, ("raw", w)
        # large inputs
        for i in range(ctx.n(200, 1200)):
            size = rng.choice((1000, 10000, 60000, 100000, 300000, 1000000))
            de = rng.choice(("b", "ascii", "cp500", "utf-8", "latin-1"))
            unit = rng.choice(("bytes", "nibbles"))
            fs = {"data_enc": de, "len_count": unit, "len_enc": "b", "len_type": 4, "max_len": 10**9, "desc": "F", "right_pad": "F"}
            spec, _ = streams.one_field(fs, "", "2")
            cnt = size * (2 if unit == "nibbles" else 1)
            decl = cnt + rng.choice((0, 0, 0, -2, 2, 2**31))
            b = rng.choice((0x31, 0x20, 0xF1, 0xFF)) if de in ("b", "latin-1", "cp500") else rng.choice((0x31, 0x20))
            yield "wire", spec, ("rep", b"02004000000000000000" + max(decl, 0).to_bytes(4, "big"), b, size)
            yield "wire", spec, ("rep", b"0200", b, size)
            yield "wire", spec, ("rep", b"", rng.choice((0, 0x30, 0xFF)), size)
            hs = dict(fs, len_enc="ascii", len_type=rng.choice((10, 1000, 4000)))
            spec2, _ = gen.bitmap_message([3])
            spec2["h"] = hs
            yield "wire", spec2, ("rep", b"", 0x30, size)
        # documents
        for i in range(ctx.n(200, 1200)):
            size = rng.choice((1000, 10000, 60000, 100000, 300000))
            de = rng.choice(("b", "ascii", "cp500", "utf-8"))
            unit = rng.choice(("bytes", "nibbles"))
            fs = {"data_enc": de, "len_count": unit, "len_enc": "b", "len_type": 4, "max_len": 10**9, "desc": "F", "left_pad": "0"}
            r = i % 5
            if r == 0:
                fs["max_len"] = rng.choice((1, 10, 999))
            elif r == 1:
                fs["len_type"] = 1
            spec, _ = streams.one_field(fs, "", "2")
            yield "bigdoc", spec, ("value", rng.choice("0159AF") if r != 4 else "G", size + i % 2)
            yield "bigdoc", spec, ("keys", rng.choice(("x%d", "%d", "-%d", "0%d")), size // 50)
        # processor time at two sizes: work inside single steps counts as well
        shapes = [(what, de, unit) for what in ("trailing", "zeros", "field", "cut", "over", "value", "badvalue", "header") for de in ("b", "ascii", "cp500", "utf-8") for unit in ("bytes", "nibbles")]
        if not ctx.thorough:
            ctx.shared_rng("c24 time").shuffle(shapes)
            shapes = shapes[:24]
        for shape in ctx.mine(shapes):
            yield ("time",) + shape

    def build(self, case):
        kind, spec, x = case
        if kind == "wire":
            if x[0] == "raw":
                return x[1], len(x[1])
            w = x[1] + bytes([x[2]]) * x[3]
            return w, len(w)
        if x[0] == "value":
            doc = {"t": "0200", "2": x[1] * x[2]}
        else:
            doc = {"t": "0200", "2": "12"}
            doc.update((x[1] % (i + 300), "v") for i in range(x[2]))
        return doc, doc_size(doc)

    def timed(self, what, de, unit, size, obs):
        """best processor time of a few calls on an input of about size bytes"""
        fs = {"data_enc": de, "len_count": unit, "len_enc": "b", "len_type": 4, "max_len": 2**32 - 1, "desc": "F", "left_pad": "0"}
        spec, _ = streams.one_field(fs, "", "2")
        b = b"\xf1" if de == "cp500" else b"1"
        cnt = size * (2 if unit == "nibbles" else 1)
        pre = b"0200" + b"4000000000000000"
        if what == "header":
            spec["h"], pre = spec.pop("2"), b""
        if what == "over":
            fs["max_len"] = cnt - 1
        if what == "zeros":
            arg = bytes(size)
        elif what == "trailing":
            arg = pre + (4).to_bytes(4, "big") + b * size
        elif what == "cut":
            arg = pre + (cnt + 2).to_bytes(4, "big") + b * size
        else:
            arg = pre + cnt.to_bytes(4, "big") + b * size
        doc = None
        if what in ("value", "badvalue"):
            doc = {"t": "0200", "2": "1" * size + ("" if what == "value" else "\u0662")}
        best = None
        for _ in range(3):
            a = time.thread_time()
            try:
                if doc is not None:
                    core.ISO.encode(dict(doc), spec)
                else:
                    core.ISO.decode(arg, spec)
            except (core.ISO.EncodeError, core.ISO.DecodeError):
                pass
            t = time.thread_time() - a
            best = t if best is None else min(best, t)
            if t > 2:
                break
        obs.hit("calls timed")
        return best

    def judge(self, case, obs):
        if case[0] == "time":
            small = self.timed(*case[1:], 1 << 20, obs)
            large = self.timed(*case[1:], 1 << 23, obs)
            obs.n["max milliseconds for 8 MB"] = max(obs.n["max milliseconds for 8 MB"], int(large * 1000))
            # eight times the input: linear work takes about eight times as long
            if large > 1 and large > 24 * max(small, 0.001):
                raise Violation("%s (%s, %s): 1 MB takes %.3f s of processor time, 8 MB takes %.3f s" % (case[1:] + (small, large)))
            return True
        kind, spec, x = case
        data, size = self.build(case)
        if kind == "wire":
            call = lambda: obs.dec(data, spec)
        else:
            call = lambda: obs.enc(dict(data), spec)
        tracemalloc.start()
        try:
            tracemalloc.reset_peak()
            before = tracemalloc.get_traced_memory()[0]
            r = call()
            peak = tracemalloc.get_traced_memory()[1] - before
        finally:
            tracemalloc.stop()
        if isinstance(r.exc, MemoryError):
            raise Violation("MemoryError on an input of %d bytes" % size)
        del r
        limit = MEM_BASE + MEM_PER * size
        if peak > limit:
            raise Violation("%s of %d bytes took %d bytes of memory (bound %d)" % (kind, size, peak, limit))
        r = self.steps.measure(call)
        n = self.steps.count
        limit = STEP_BASE + STEP_PER * size
        if n > limit:
            raise Violation("%s of %d bytes took %d interpreter steps (bound %d)" % (kind, size, n, limit))
        obs.hit("calls measured")
        obs.hit("instructions counted", n)
        obs.n["max peak bytes"] = max(obs.n["max peak bytes"], peak)
        obs.n["max steps"] = max(obs.n["max steps"], n)
        big = max((fs["max_len"] for fs in spec.values()), default=0)
        if big >= 10**6 and size < 5000:
            obs.hit("huge declared lengths")
        if size > 50000:
            obs.hit("inputs over 50 kB")
            obs.n["max bytes of memory per 1000 input bytes"] = max(obs.n["max bytes of memory per 1000 input bytes"], peak * 1000 // size)
        obs.state("outcomes", (kind, r.kind, re.sub(r"\d+|\[.*\]", "#", getattr(r.exc, "msg", ""))[:50]))
        return True


CHECKS = [C11, C12, C13, C14, C15, C24]
