"""C31-C36: order of returned dictionaries, API contract, settings that must not
matter, specifications that grow, failing streams, elements that must not
influence each other."""

import array
import collections
import copy
import inspect
import io
import itertools
import random
import sys
import types

import core
import gen
import model
import streams
import wirechecks
from core import Check, Violation, short
from statechecks import freeze, run_call

RANK = {"h": -3, "t": -2, "p": -1}


def rank(k):
    return RANK.get(k, int(k) if k.isdigit() else 10**9)


def workload(ctx, name, ndocs, nfaulty, nwires, scale):
    yield from streams.random_docs(ctx, ctx.n(ndocs), name=name)
    yield from streams.faulty_docs(ctx, ctx.n(nfaulty), name=name + "f")
    yield from streams.shipped_docs(ctx, ctx.n(ndocs // 6))
    yield from streams.wires_from(streams.random_docs(ctx, ctx.n(nwires), name=name + "w"), ctx, name + "v", 0.3, mutants=3, trunc=0.02, extra=0.1)


def docs_and_wires(ctx, name, scale=1.0):
    return itertools.chain(
        workload(ctx, name, int(6000 * scale), int(8000 * scale), int(5000 * scale), scale),
        streams.bitmap_docs(ctx, int(300 * scale), int(300 * scale)),
        streams.wires_from(streams.bitmap_docs(ctx, int(150 * scale), int(150 * scale)), ctx, name + "b", 0.5, mutants=1),
        streams.wires_from(streams.shipped_docs(ctx, ctx.n(int(800 * scale))), ctx, name + "s", 0.3, mutants=2),
        wirechecks.lenient_bitmaps(ctx),
    )


# --------------------------------------------------------------------------
# C31


class C31(Check):
    id = "C31"
    rule = "valid and faulty documents in random key order, valid and damaged wires; the key order of every dictionary handed out is compared with wire order, that of the document with what it was; non-trivial when a dictionary with three or more elements was seen"
    required = {"returned dictionaries": 16000, "partial dictionaries": 10000, "documents": 10000, "with secondary bitmap": 3000, "with tertiary bitmap": 1000}

    def cases(self, ctx):
        rng = ctx.rng("c31")
        for kind, spec, x in docs_and_wires(ctx, "c31"):
            if kind == "doc" and rng.random() < 0.6:
                x = streams.dirty(x, rng)
            yield kind, spec, x

    def judge(self, case, obs):
        kind, spec, x = case
        seen = []
        if kind == "wire":
            r = obs.dec(x, spec)
            if r.ok:
                seen = [("decode's dictionary", r.out, False), ("decode's breakdown", r.enc, False)]
            elif r.kind == "err":
                seen = [("the error's decoded dictionary", r.exc.doc_dec, True), ("the error's breakdown", r.exc.doc_enc, True)]
        else:
            doc = dict(x)
            before = [k for k in doc if k not in ("1", "65", "p")]
            r = obs.enc(doc, spec)
            after = [k for k in doc if k not in ("1", "65", "p")]
            obs.hit("documents")
            if before != after:
                raise Violation("encode changed the order of the document's entries from %s to %s" % (short(before), short(after)))
            if "p" in x and "p" in doc:
                # an entry that is overwritten keeps its place
                a, b = [k for k in x if k not in ("1", "65")], [k for k in doc if k not in ("1", "65")]
                if a != b:
                    raise Violation("encode moved 'p': %s became %s" % (short(a), short(b)))
            if r.ok:
                seen = [("encode's breakdown", r.enc, False)]
            elif r.kind == "err":
                seen = [("the error's breakdown", r.exc.doc_enc, True)]
        most = 0
        for what, d, partial in seen:
            keys = list(d)
            obs.hit("partial dictionaries" if partial else "returned dictionaries")
            if "1" in d:
                obs.hit("with secondary bitmap")
            if any(k.isdigit() and int(k) > 128 for k in keys):
                obs.hit("with tertiary bitmap")
            if keys != sorted(keys, key=rank):
                raise Violation("%s lists its elements out of wire order: %s" % (what, short(keys, 500)))
            most = max(most, len(keys))
        obs.state("sizes", (kind, min(most, 60)))
        return most >= 3


# --------------------------------------------------------------------------
# C32


class BytesSub(bytes):
    pass


class BytearraySub(bytearray):
    pass


class DictSub(dict):
    pass


class Duck:
    """looks like bytes and like a dict, is neither"""

    def __init__(self, v):
        self.v = v

    def __getattr__(self, name):
        if name == "v" or name.startswith("__"):
            raise AttributeError(name)
        return getattr(self.v, name)

    def __len__(self):
        return len(self.v)

    def __getitem__(self, k):
        return self.v[k]

    def __iter__(self):
        return iter(self.v)

    def __contains__(self, k):
        return k in self.v


SIGS = {
    "decode": [("s", inspect._empty), ("spec", inspect._empty)],
    "encode": [("doc_dec", inspect._empty), ("spec", inspect._empty)],
    "pp": [("doc", inspect._empty), ("spec", inspect._empty), ("desc_width", 30), ("stream", None), ("line_width", 80)],
}

NOT_WIRE = ("str", "none", "int", "list", "tuple", "memoryview", "array", "dict", "duck", "iter", "type", "float", "set", "bytesio")
NOT_DOC = ("str", "none", "int", "pairs", "tuple", "userdict", "proxy", "chainmap", "duck", "bytes", "iter", "type", "set", "json")


def disguise_wire(w, how):
    return {
        "str": lambda: w.decode("latin-1"),
        "none": lambda: None,
        "int": lambda: int.from_bytes(w[:8], "big"),
        "float": lambda: 1.5,
        "list": lambda: list(w),
        "tuple": lambda: tuple(w),
        "set": lambda: set(w),
        "memoryview": lambda: memoryview(w),
        "array": lambda: array.array("B", w),
        "dict": lambda: {"t": "0200"},
        "duck": lambda: Duck(w),
        "iter": lambda: iter(w),
        "type": lambda: bytes,
        "bytesio": lambda: io.BytesIO(w),
    }[how]()


def disguise_doc(d, how):
    import json

    return {
        "str": lambda: "0200",
        "json": lambda: json.dumps({k: v for k, v in d.items() if isinstance(k, str) and isinstance(v, str)}),
        "none": lambda: None,
        "int": lambda: 200,
        "pairs": lambda: list(d.items()),
        "tuple": lambda: tuple(d.items()),
        "set": lambda: set(d),
        "userdict": lambda: collections.UserDict(d),
        "proxy": lambda: types.MappingProxyType(dict(d)),
        "chainmap": lambda: collections.ChainMap(dict(d)),
        "duck": lambda: Duck(d),
        "bytes": lambda: b"0200",
        "iter": lambda: iter(d.items()),
        "type": lambda: dict,
    }[how]()


class C32(Check):
    id = "C32"
    rule = "decode, encode and pp called by position and by keyword, with defaults left out, with exact types and subclasses and with objects of every other kind; types of everything returned or attached to errors are compared with the documented ones; non-trivial always"
    required = {"typed results": 8000, "typed errors": 6000, "wrong kinds refused": 4000, "calls by keyword": 8000, "subclass inputs": 4000}

    def cases(self, ctx):
        rng = ctx.rng("c32")
        for kind, spec, x in docs_and_wires(ctx, "c32", 0.5):
            yield kind, spec, x, rng.choice(("pos", "kw", "kwrev", "mixed")), rng.choice(("plain", "plain", "sub", "bytearray")), rng.choice(NOT_WIRE if kind == "wire" else NOT_DOC) if rng.random() < 0.5 else ""

    def judge(self, case, obs):
        kind, spec, x, how, sub, wrong = case
        iso = core.ISO
        self.signatures(obs)
        name = "decode" if kind == "wire" else "encode"
        fn, key = getattr(iso, name), SIGS[name][0][0]

        def call(arg):
            if how == "pos":
                return fn(arg, spec)
            obs.hit("calls by keyword")
            if how == "kw":
                return fn(**{key: arg, "spec": spec})
            if how == "kwrev":
                return fn(**{"spec": spec, key: arg})
            return fn(arg, spec=spec)

        if kind == "wire":
            arg = {"plain": bytes, "sub": BytesSub if len(x) % 2 else BytearraySub, "bytearray": bytearray}[sub](x)
        else:
            arg = {"plain": dict, "sub": DictSub, "bytearray": collections.OrderedDict}[sub](x)
        if sub != "plain":
            obs.hit("subclass inputs")
        err = iso.DecodeError if kind == "wire" else iso.EncodeError
        r = obs._call(name, lambda: call(arg), err)
        if not isinstance(r, core.Result):
            self.typed(kind, r)
            obs.hit("typed results")
        elif r.kind == "err":
            self.typed_error(kind, r.exc, arg)
            obs.hit("typed errors")
        else:
            raise Violation("%s(%s) called %s: %s" % (name, sub, how, r))
        obs.state("calls", (kind, how, sub, type(r).__name__))
        if wrong:
            bad = disguise_wire(bytes(x), wrong) if kind == "wire" else disguise_doc(dict(x), wrong)
            r = obs._call(name, lambda: call(bad), (TypeError,))
            if not isinstance(r, core.Result) or r.kind != "err" or type(r.exc) is not TypeError:
                raise Violation("%s accepts or mishandles a %s (%s): %s" % (name, type(bad).__name__, wrong, short(r, 400)))
            obs.hit("wrong kinds refused")
            obs.state("wrong kinds", (kind, wrong))
        if kind == "doc" and how != "mixed":
            self.print_all(dict(x), spec, how, obs)
        return True

    def signatures(self, obs):
        if obs.n["signatures compared"] >= 1:
            return
        obs.hit("signatures compared")
        iso = core.ISO
        for name, want in SIGS.items():
            got = [(p.name, p.default) for p in inspect.signature(getattr(iso, name)).parameters.values() if p.kind is p.POSITIONAL_OR_KEYWORD]
            if got[: len(want)] != want:
                raise Violation("%s takes %s instead of %s" % (name, got, want))
        for err in (iso.EncodeError, iso.DecodeError):
            if not (isinstance(err, type) and issubclass(err, ValueError)):
                raise Violation("%s is not a ValueError" % err)
        if issubclass(iso.EncodeError, iso.DecodeError) or issubclass(iso.DecodeError, iso.EncodeError):
            raise Violation("one error class is a subclass of the other")
        for n in ("pp", "decode", "DecodeError", "encode", "EncodeError"):
            if n not in iso.__all__:
                raise Violation("%s is not exported" % n)

    def print_all(self, doc, spec, how, obs):
        if how == "pos" and len(doc) > 3:
            return
        spec = {k: dict(v, desc="Field") for k, v in spec.items()}
        doc = {k: v for k, v in doc.items() if k in spec and isinstance(v, str) and len(v) < 500}
        outs = []
        for a, k in (((doc, spec, 30, None, 80), {}), ((), {"doc": doc, "spec": spec}), ((doc,), {"spec": spec, "line_width": 80, "stream": None, "desc_width": 30})):
            import sys

            st, old = io.StringIO(), sys.stdout
            sys.stdout = st
            try:
                r = obs.pp(*a, **k)
            finally:
                sys.stdout = old
            if not r.ok:
                raise Violation("pp by keyword: %s" % r)
            if r.out is not None:
                raise Violation("pp returned %s" % short(r.out))
            outs.append(st.getvalue())
        if len(set(outs)) != 1:
            raise Violation("pp prints differently by keyword or with its defaults spelled out: %s" % short(outs, 800))
        obs.hit("printed by keyword")

    def typed(self, kind, r):
        if type(r) is not tuple or len(r) != 2:
            raise Violation("returned %s instead of a pair" % short(r))
        a, b = r
        if kind == "wire":
            self.texts("the decoded dictionary", a)
        elif type(a) is not bytearray:
            raise Violation("encode returned a %s instead of a bytearray" % type(a).__name__)
        self.parts("the breakdown", b)

    def texts(self, what, d):
        if type(d) is not dict:
            raise Violation("%s is a %s" % (what, type(d).__name__))
        for k, v in d.items():
            if type(k) is not str or type(v) is not str:
                raise Violation("%s has %s: %s" % (what, short(k), short(v)))

    def parts(self, what, d):
        if type(d) is not dict:
            raise Violation("%s is a %s" % (what, type(d).__name__))
        for k, v in d.items():
            if type(k) is not str or type(v) is not dict or set(v) != {"len", "data"} or type(v["len"]) is not bytes or type(v["data"]) is not bytes:
                raise Violation("%s has %s: %s" % (what, short(k), short(v)))

    def typed_error(self, kind, e, arg):
        if type(e.msg) is not str or type(e.field) is not str:
            raise Violation("the error has msg %s, field %s" % (short(e.msg), short(e.field)))
        if kind == "wire":
            if type(e.pos) is not int or not 0 <= e.pos <= len(arg):
                raise Violation("the error has position %s of %d" % (short(e.pos), len(arg)))
            if bytes(e.s) != bytes(arg) or not isinstance(e.s, (bytes, bytearray)):
                raise Violation("the error carries %s instead of the input" % short(e.s))
            self.texts("the error's decoded dictionary", e.doc_dec)
        elif e.doc_dec is not arg and dict(e.doc_dec) != dict(arg):
            raise Violation("the error carries another document: %s" % short(e.doc_dec, 400))
        self.parts("the error's breakdown", e.doc_enc)


# --------------------------------------------------------------------------
# C33

ALIASES = {
    "ascii": ("us-ascii", "ASCII", "646", "iso646-us"),
    "latin-1": ("iso-8859-1", "LATIN1", "latin_1", "L1", "iso8859-1"),
    "cp500": ("CP500", "500", "ibm500", "ebcdic-cp-be"),
    "cp037": ("IBM037", "037", "ebcdic-cp-us"),
    "utf-8": ("UTF-8", "utf8", "U8", "utf_8"),
    "cp1252": ("windows-1252", "1252"),
    "shift_jis": ("sjis", "csshiftjis", "s_jis"),
    "utf-16-le": ("UTF-16LE", "utf_16_le"),
    "utf-16-be": ("UTF-16BE", "utf_16_be"),
    "koi8-r": ("KOI8_R", "cskoi8r"),
    "cp437": ("437", "IBM437"),
}

JUNK_LEN = ("ascii", "b", "bcd", "cp500", "no_such_codec", "", "hex")


class C33(Check):
    id = "C33"
    rule = "each case is run with its specification and with one changed only in settings documented to play no role there (descriptions, length encodings of fixed-length elements, pads of elements not counted in nibbles or not binary, everything but the data encoding of message type and bitmaps, settings of a disabled header, codec aliases, later pad characters, entry and key order, extra keys); outcomes must be equal; non-trivial always"
    required = {"encode compared": 12000, "decode compared": 12000, "pp compared": 2000, "failures compared": 8000}

    def cases(self, ctx):
        rng = ctx.rng("c33")
        for kind, spec, x in itertools.chain(
            docs_and_wires(ctx, "c33"),
            streams.config_docs(ctx, counts=(0, 1, 2, 3, 8, 9)),
            streams.wires_from(streams.config_docs(ctx, counts=(1, 2, 3, 8)), ctx, "c33c", 0.3, mutants=1),
        ):
            yield kind, spec, x, rng.getrandbits(32)

    def change(self, spec, kind, rng, obs):
        out = {}
        for k, fs in spec.items():
            fs = dict(fs)
            kinds = []

            def did(what):
                kinds.append(what)
                obs.hit("changed " + what)

            if rng.random() < 0.7:
                if rng.random() < 0.3:
                    fs.pop("desc", None)
                else:
                    fs["desc"] = rng.choice(("", "other", "x" * 300, "{0}%s\n", "b", "nibbles", k))
                did("desc")
            if k in ("t", "p", "1"):
                if rng.random() < 0.8:
                    fs.update(len_enc=rng.choice(JUNK_LEN), len_type=rng.choice((0, 1, 2, 7, -1)), max_len=rng.choice((0, 1, 2, 4, 8, 16, 999, -1)))
                    fs["len_count"] = rng.choice(("bytes", "nibbles"))
                    if rng.random() < 0.5:
                        fs.update(left_pad=rng.choice("0F "), right_pad=rng.choice("0F "))
                    did("length settings of type or bitmap")
            elif k == "h" and fs["max_len"] <= 0:
                if rng.random() < 0.8:
                    fs.update(data_enc=rng.choice(("b", "ascii", "no_such_codec")), len_enc=rng.choice(JUNK_LEN), len_type=rng.choice((0, 1, 3)), max_len=rng.choice((0, -1, -10**6)), len_count=rng.choice(("bytes", "nibbles")))
                    did("disabled header")
            else:
                if fs["len_type"] == 0 and rng.random() < 0.7:
                    fs["len_enc"] = rng.choice(JUNK_LEN)
                    did("len_enc of a fixed-length element")
                if (fs["data_enc"] != "b" or fs.get("len_count", "bytes") != "nibbles") and rng.random() < 0.7:
                    for p in ("left_pad", "right_pad"):
                        if rng.random() < 0.7:
                            fs[p] = rng.choice(("0", "F", "", "zz", "\u00e9", "FF"))
                        else:
                            fs.pop(p, None)
                    did("unused pads")
                elif fs["data_enc"] == "b" and fs.get("len_count") == "nibbles":
                    for p in ("left_pad", "right_pad"):
                        if fs.get(p) and rng.random() < 0.7:
                            c = fs[p][0]
                            fs[p] = rng.choice((c, c.lower(), c.upper())) + rng.choice(("", "0", "F", "xyz", "D" * 40))
                            did("later pad characters")
                    if kind == "doc" and fs.get("left_pad") and rng.random() < 0.5:
                        fs["right_pad"] = rng.choice(("0", "F", "", "9"))
                        did("right pad next to a left pad")
                if fs.get("len_count", "bytes") == "bytes" and rng.random() < 0.5:
                    if "len_count" in fs:
                        del fs["len_count"]
                    else:
                        fs["len_count"] = "bytes"
                    did("default len_count")
                if fs["len_type"] and fs["len_enc"] in ALIASES and rng.random() < 0.5:
                    fs["len_enc"] = rng.choice(ALIASES[fs["len_enc"]])
                    did("codec alias of a length")
            if not (k == "h" and fs["max_len"] <= 0) and fs["data_enc"] in ALIASES and rng.random() < 0.4:
                fs["data_enc"] = rng.choice(ALIASES[fs["data_enc"]])
                did("codec alias")
            if rng.random() < 0.2:
                fs[rng.choice(("note", "len", "data", "pad", "min_len", "required", "name", "type"))] = rng.choice(("x", 5, None, True))
                did("extra settings")
            if rng.random() < 0.2:
                items = list(fs.items())
                rng.shuffle(items)
                fs = dict(items)
            out[k] = fs
        if rng.random() < 0.4:
            out.update({"note": {"data_enc": "b"}, "0": {}, "193": {}, "065": {}, "65": {"data_enc": "b", "len_enc": "b", "len_type": 0, "max_len": 1, "desc": ""}, "1x": None})
        if rng.random() < 0.4:
            items = list(out.items())
            rng.shuffle(items)
            out = dict(items)
        return out

    def judge(self, case, obs):
        kind, spec, x, seed = case
        rng = random.Random(seed)
        other = self.change(spec, kind, rng, obs)
        what = "enc" if kind == "doc" else "dec"
        quiet = core.Obs()
        a = run_call((what, spec, dict(x) if kind == "doc" else x, None), obs)[0]
        b = run_call((what, other, dict(x) if kind == "doc" else x, None), quiet)[0]
        obs.hit("encode compared" if kind == "doc" else "decode compared")
        if a[0] != "ok":
            obs.hit("failures compared")
        if a != b:
            changed = {k: (v, other[k]) for k, v in spec.items() if other[k] != v}
            raise Violation("settings that play no role changed the outcome from %s to %s; they were %s" % (short(a, 500), short(b, 500), short(changed, 900)))
        if kind == "doc" and a[0] == "ok" and rng.random() < 0.4:
            # pp reads descriptions and whether there is a header, nothing else
            doc = {k: v[:300] for k, v in x.items() if k in spec and isinstance(v, str)}
            if rng.random() < 0.4:
                doc["h"] = rng.choice(("ignored", "", "H" * 90))
            if rng.random() < 0.3:
                doc = {k: {"len": b"" if rng.random() < 0.5 else b"07", "data": v.encode("utf-8", "replace")} for k, v in doc.items()}
            one = {k: dict(v, desc="D" + k) for k, v in spec.items()}
            two = {}
            for k, v in one.items():
                two[k] = {"desc": v["desc"]}
                if k == "h":
                    two[k]["max_len"] = v["max_len"] * (1 if v["max_len"] <= 0 else rng.choice((1, 7)))
            if rng.random() < 0.5:
                for k, v in two.items():
                    v.update(data_enc=rng.choice(("b", "no_such_codec")), len_enc=rng.choice(JUNK_LEN), len_type=rng.choice((0, 3)), len_count="nibbles")
                    if k != "h":
                        v["max_len"] = rng.choice((0, 5))
            dw, lw = rng.choice((30, 0, 5)), rng.choice((80, 30))
            p = run_call(("pp", one, doc, (dw, lw)), obs)[0]
            q = run_call(("pp", two, doc, (dw, lw)), quiet)[0]
            obs.hit("pp compared")
            if p != q:
                raise Violation("pp depends on encodings or lengths of the specification: %s / %s" % (short(p, 500), short(q, 500)))
        return True


# --------------------------------------------------------------------------
# C34


class C34(Check):
    id = "C34"
    rule = "each case is run with its specification and with an extension of it (more fields defined, larger maxima of variable-length elements, a pad added where there was none); what was accepted must give the same outcome, what was rejected must fail at the same or a later element or be accepted; non-trivial when the extension differs"
    required = {"accepted encodes compared": 6000, "accepted decodes compared": 5000, "rejections compared": 10000, "rejections lifted": 500}

    def cases(self, ctx):
        rng = ctx.rng("c34")
        for kind, spec, x in itertools.chain(
            docs_and_wires(ctx, "c34"),
            streams.config_faults(ctx, deltas=(-1, 0, 1, 2), maxes=(0, 1, 2, 5, 9)),
            streams.undefined_wires(ctx, ctx.n(1500)),
        ):
            yield kind, spec, x, rng.getrandbits(32)

    def extend(self, spec, rng):
        out = {k: dict(v) for k, v in spec.items()}
        for k, fs in out.items():
            if k in ("t", "p", "1") or k == "h" and fs["max_len"] <= 0:
                continue
            if fs["len_type"] and rng.random() < 0.7:
                fs["max_len"] = max(fs["max_len"], 0) + rng.choice((1, 2, 5, 100, 10**4, 10**9))
            if fs["data_enc"] == "b" and fs.get("len_count") == "nibbles" and not fs.get("left_pad") and not fs.get("right_pad") and rng.random() < 0.5:
                fs[rng.choice(("left_pad", "right_pad"))] = rng.choice("0F")
        for n in rng.sample(range(2, 193), rng.choice((0, 1, 10, 60))):
            if str(n) not in out and n != 65:
                out[str(n)] = gen.rand_fs(rng)[0]
        if rng.random() < 0.2:
            for n in range(2, 193):
                if str(n) not in out and n != 65:
                    out[str(n)] = gen.simple_fs(n, n % 3)
        return out

    def judge(self, case, obs):
        kind, spec, x, seed = case
        other = self.extend(spec, random.Random(seed))
        what = "enc" if kind == "doc" else "dec"
        quiet = core.Obs()
        a, ra = run_call((what, spec, dict(x) if kind == "doc" else x, None), obs)
        b, rb = run_call((what, other, dict(x) if kind == "doc" else x, None), quiet)
        if a[0] == "ok":
            obs.hit("accepted encodes compared" if kind == "doc" else "accepted decodes compared")
            if a != b:
                raise Violation("under an extended specification an accepted message gives %s instead of %s" % (short(b, 600), short(a, 600)))
        elif a[0] == "err":
            obs.hit("rejections compared")
            if b[0] == "ok":
                obs.hit("rejections lifted")
            elif b[0] != "err":
                raise Violation("under an extended specification: %s" % short(b, 400))
            elif kind == "doc":
                if a != b and rank(b[4]) < rank(a[4]):
                    raise Violation("under an extended specification encode fails earlier, at %s instead of %s" % (b[4], a[4]))
            elif b[5] < a[5]:
                raise Violation("under an extended specification decode fails earlier, at %d instead of %d" % (b[5], a[5]))
        return other != spec


# --------------------------------------------------------------------------
# C35


class Broken(Exception):
    pass


class Stubborn(OSError):
    def __str__(self):
        raise RuntimeError("not printable")

    __repr__ = __str__


class OnlyWrite:
    """has write and nothing else; fails when told to"""

    __slots__ = ("parts", "writes", "fail_at", "exc", "answer", "after")

    def __init__(self, fail_at=None, exc=None, answer=None):
        self.parts, self.writes, self.fail_at, self.exc, self.answer, self.after = [], 0, fail_at, exc, answer, 0

    def write(self, text):
        self.writes += 1
        if self.fail_at is not None:
            if self.writes > self.fail_at:
                self.after += 1
            elif self.writes == self.fail_at:
                raise self.exc
        self.parts.append(text)
        return self.answer if self.answer is not None else len(text)


class Limited(io.TextIOBase):
    """a text stream that cannot take every character"""

    def __init__(self, codec):
        super().__init__()
        self.codec, self.parts = codec, []

    def write(self, text):
        text.encode(self.codec)
        self.parts.append(text)
        return len(text)


class C35(Check):
    id = "C35"
    rule = "documents and breakdowns printed to a stream whose n-th write raises (every n for short outputs, sampled n otherwise), to text streams of limited codecs, to closed streams and to streams that answer strangely; non-trivial when at least one failure was delivered"
    required = {"failures delivered": 6000, "calls repeated afterwards": 6000, "limited streams": 1000, "closed streams": 500, "to sys.stdout": 1000}

    ERRORS = (
        lambda: OSError(28, "No space left on device"),
        lambda: BrokenPipeError(32, "Broken pipe"),
        lambda: BlockingIOError(11, "try again", 0),
        lambda: UnicodeEncodeError("ascii", "\u00e9", 0, 1, "ordinal not in range"),
        lambda: UnicodeDecodeError("ascii", b"\xe9", 0, 1, "bad"),
        lambda: ValueError("I/O operation on closed file"),
        lambda: io.UnsupportedOperation("not writable"),
        lambda: KeyError("2"),
        lambda: IndexError(),
        lambda: AttributeError("write"),
        lambda: TypeError("write"),
        lambda: LookupError("desc"),
        lambda: MemoryError(),
        lambda: RecursionError("deep"),
        lambda: Broken("mine"),
        lambda: Stubborn(),
        lambda: AssertionError(),
    )

    def cases(self, ctx):
        rng = ctx.rng("c35")
        for _ in range(ctx.n(9000)):
            yield "pp", rng.getrandbits(48)

    def judge(self, case, obs):
        rng = random.Random(case[1])
        fields = rng.sample([n for n in range(2, 193) if n != 65], rng.choice((0, 1, 2, 3, 8)))
        spec, doc = gen.rand_message(rng, True, fields)
        for k, fs in spec.items():
            fs["desc"] = rng.choice(("Field %s" % k, "", "\u00e9 of " + k, "a rather long description of the field"))
        doc = {k: v[:300] for k, v in doc.items()}
        doc["p"] = "F" * 16
        for k in list(doc):
            if rng.random() < 0.1:
                del doc[k]
        if not fields and rng.random() < 0.3:
            doc = {}
        if rng.random() < 0.5:
            doc = {k: {"len": rng.randbytes(rng.choice((0, 0, 2))), "data": rng.randbytes(rng.choice((0, 1, 5, 40, 90)))} for k in doc}
        dw, lw = rng.choice((0, 5, 30)), rng.choice((10, 20, 60, 80))
        pp = core.ISO.pp
        good = OnlyWrite()
        pp(doc, spec, dw, good, lw)
        full = "".join(good.parts)
        frozen = freeze(spec), freeze(doc), list(doc)
        n = good.writes
        points = range(1, n + 1) if n <= 12 else sorted(rng.sample(range(1, n + 1), 10))
        for at in points:
            exc = rng.choice(self.ERRORS)()
            st = OnlyWrite(at, exc)
            use_stdout = rng.random() < 0.2
            self.deliver(lambda: pp(doc, spec, dw, None if use_stdout else st, lw), st, use_stdout, exc, "write %d of %d" % (at, n))
            obs.hit("failures delivered")
            if use_stdout:
                obs.hit("to sys.stdout")
            text = "".join(st.parts)
            if st.after:
                raise Violation("pp wrote %d more times after write %d failed" % (st.after, at))
            if not full.startswith(text):
                raise Violation("before write %d failed pp had written %s, not a beginning of %s" % (at, short(text), short(full)))
            if (freeze(spec), freeze(doc), list(doc)) != frozen:
                raise Violation("pp to a failing stream changed its arguments")
            if rng.random() < 0.5:
                self.again(doc, spec, dw, lw, full, obs)
            obs.state("errors", type(exc).__name__)
        # what write answers does not matter
        st = OnlyWrite(answer=rng.choice((0, 1, -1, False, "x", 10**9, [], NotImplemented)))
        pp(doc, spec, dw, st, lw)
        if "".join(st.parts) != full:
            raise Violation("pp printed something else because write returned %r" % (st.answer,))
        codec = rng.choice(("ascii", "latin-1", "cp1252", "cp437"))
        st = Limited(codec)
        try:
            full.encode(codec)
            fits = True
        except UnicodeEncodeError:
            fits = False
        try:
            pp(doc, spec, dw, st, lw)
            failed = None
        except UnicodeEncodeError as e:
            failed = e
        obs.hit("limited streams")
        if fits and (failed is not None or "".join(st.parts) != full):
            raise Violation("pp to a %s stream printed %s instead of %s" % (codec, short("".join(st.parts)), short(full)))
        if not fits and failed is None:
            raise Violation("a %s stream refused text of %s, yet pp returned; printed %s" % (codec, short(full), short("".join(st.parts))))
        if not full.startswith("".join(st.parts)):
            raise Violation("pp to a %s stream printed %s, not a beginning of %s" % (codec, short("".join(st.parts)), short(full)))
        if rng.random() < 0.3 and full:
            closed = io.StringIO()
            closed.close()
            obs.hit("closed streams")
            try:
                pp(doc, spec, dw, closed, lw)
            except ValueError:
                pass
            else:
                raise Violation("pp to a closed stream returned")
        self.again(doc, spec, dw, lw, full, obs)
        return n > 0

    def deliver(self, call, st, use_stdout, exc, what):
        old = sys.stdout
        if use_stdout:
            sys.stdout = st
        got = None
        try:
            call()
        except Exception as e:
            got = e
        finally:
            sys.stdout = old
        if got is not exc:
            raise Violation("%s raised %s; the caller got %s" % (what, type(exc).__name__, "nothing" if got is None else "%s" % type(got).__name__))

    def again(self, doc, spec, dw, lw, full, obs):
        st = OnlyWrite()
        core.ISO.pp(doc, spec, dw, st, lw)
        obs.hit("calls repeated afterwards")
        if "".join(st.parts) != full:
            raise Violation("after a failed call pp prints %s instead of %s" % (short("".join(st.parts)), short(full)))


# --------------------------------------------------------------------------
# C36


class C36(Check):
    id = "C36"
    rule = "a valid message is encoded and decoded, then again after one change to one element (another value, another specification and value, removed, added, moved to another number, made invalid); all other elements must come out the same; non-trivial when both messages were encoded, or the second failed at the changed element"
    required = {"value changed": 5000, "specification changed": 5000, "removed": 3000, "added": 3000, "moved": 2000, "made invalid": 3000, "other elements compared": 100000, "decoded pairs": 15000}

    def cases(self, ctx):
        rng = ctx.rng("c36")
        for kind, spec, doc in itertools.chain(
            streams.random_docs(ctx, ctx.n(12000), name="c36"),
            streams.shipped_docs(ctx, ctx.n(3000)),
            streams.config_docs(ctx, counts=(0, 1, 3, 8)),
            streams.bitmap_docs(ctx, 200, 200),
        ):
            yield kind, spec, doc, rng.getrandbits(40)

    def another(self, fs, rng):
        """a valid value for an element, or None"""
        top = min(fs["max_len"], 400)
        if fs["len_type"]:
            top = min(top, model.len_capacity(fs))
            n = rng.choice((0, 1, 2, 3, top // 2, top))
            n = min(n, top)
        else:
            n = fs["max_len"]
        return gen.value_for(fs, n, rng)

    def judge(self, case, obs):
        _, spec, x, seed = case
        rng = random.Random(seed)
        doc = {k: v for k, v in x.items() if k not in ("p", "1", "65")}
        a = obs.enc(dict(doc), spec)
        if not a.ok:
            return False
        fields = [k for k in doc if k.isdigit()]
        header = spec["h"]["max_len"] > 0
        done = False
        for _ in range(3):
            spec2, doc2 = {k: dict(v) for k, v in spec.items()}, dict(doc)
            how = rng.choice(("value changed", "value changed", "specification changed", "specification changed", "removed", "added", "moved", "made invalid"))
            k = rng.choice(fields + (["h"] if header else [])) if fields or header else None
            new = None
            if how == "added":
                free = [n for n in range(2, 193) if n != 65 and str(n) not in doc]
                if not free:
                    continue
                k = str(rng.choice(free))
                fs, n = gen.rand_fs(rng)
                spec2[k], v = fs, gen.value_for(fs, n, rng)
                if v is None:
                    continue
                doc2[k] = v
            elif k is None:
                continue
            elif how == "value changed":
                if rng.random() < 0.1:
                    k, v = "t", gen.mti(spec["t"]["data_enc"], rng)
                else:
                    v = self.another(spec[k], rng)
                if v is None:
                    continue
                doc2[k] = v
            elif how == "specification changed":
                fs, n = gen.rand_fs(rng)
                if k == "h" and fs["max_len"] <= 0:
                    continue
                v = gen.value_for(fs, n, rng)
                if v is None:
                    continue
                spec2[k], doc2[k] = fs, v
            elif how == "removed":
                if k == "h":
                    continue
                del doc2[k]
                if rng.random() < 0.3:
                    del spec2[k]
            elif how == "moved":
                free = [n for n in range(2, 193) if n != 65 and str(n) not in doc]
                if k == "h" or not free:
                    continue
                new = str(rng.choice(free))
                spec2[new], doc2[new] = spec2[k], doc2.pop(k)
            else:
                if spec[k]["max_len"] > 10**5:
                    continue
                kind = gen.break_doc(spec2, doc2, rng, kind=rng.choice(("size", "charset", "nonhex", "oddhex", "codec", "undefined")), target=k)
                if kind is None:
                    continue
            if rng.random() < 0.3:
                doc2 = dict(rng.sample(list(doc2.items()), len(doc2)))
            b = obs.enc(dict(doc2), spec2)
            obs.hit(how)
            if how == "made invalid":
                done = self.invalid(a, b, k, doc2, spec2, obs) or done
                continue
            if not b.ok:
                raise Violation("%s (%s): encode then %s" % (how, k, short(b.exc)))
            done = True
            skip = {k, new}
            if how in ("removed", "added", "moved"):
                skip |= {"p", "1"}
            self.same(a.enc, b.enc, skip, how, k, "encode's breakdown", obs)
            if new is not None and a.enc[k] != b.enc[new]:
                raise Violation("field %s moved to %s: its bytes changed from %s to %s" % (k, new, short(a.enc[k]), short(b.enc[new])))
            c, d = obs.dec(a.out, spec), obs.dec(b.out, spec2)
            if not c.ok or not d.ok:
                # the round trip itself is judged by C01
                if c.ok:
                    raise Violation("%s (%s): the message can no longer be decoded: %s" % (how, k, short(d.exc)))
                continue
            obs.hit("decoded pairs")
            self.same(c.out, d.out, skip, how, k, "decode's dictionary", obs)
            self.same(c.enc, d.enc, skip, how, k, "decode's breakdown", obs)
            if new is not None and (c.out[k], c.enc[k]) != (d.out[new], d.enc[new]):
                raise Violation("field %s moved to %s: decoded %s became %s" % (k, new, short((c.out[k], c.enc[k])), short((d.out[new], d.enc[new]))))
        obs.state("sizes", min(len(fields), 60))
        return done

    def invalid(self, a, b, k, doc2, spec2, obs):
        """the broken element is named; earlier elements are as they were;
        whether it is refused does not depend on the others"""
        alone = {j: doc2[j] for j in ("h", "t", k) if j in doc2}
        solo = obs.enc(alone, spec2)
        if solo.ok != b.ok:
            raise Violation("element %s = %s is %s in a message of its own and %s in company" % (k, short(doc2[k]), "accepted" if solo.ok else "refused", "accepted" if b.ok else "refused"))
        if b.ok:
            return False  # some faults are harmless
        if str(solo.exc) != str(b.exc):
            raise Violation("element %s = %s fails with %r in a message of its own and with %r in company" % (k, short(doc2[k]), str(solo.exc), str(b.exc)))
        if b.kind != "err":
            raise Violation("after breaking element %s encode gave %s" % (k, short(b.exc)))
        if b.exc.field != k:
            raise Violation("element %s was made invalid in a valid document; the error names %s: %s" % (k, b.exc.field, b.exc))
        for j, part in b.exc.doc_enc.items():
            if j != k:
                obs.hit("other elements compared")
                if a.enc.get(j) != part:
                    raise Violation("with element %s invalid, element %s before it is %s instead of %s" % (k, j, short(part), short(a.enc.get(j))))
        return True

    def same(self, a, b, skip, how, k, what, obs):
        if set(a) - skip != set(b) - skip:
            raise Violation("%s (%s): %s now has other elements: %s" % (how, k, what, sorted((set(a) ^ set(b)) - skip)))
        for j in a:
            if j not in skip:
                obs.hit("other elements compared")
                if a[j] != b[j]:
                    raise Violation("%s (%s): in %s element %s changed from %s to %s" % (how, k, what, j, short(a[j]), short(b[j])))


CHECKS = [C31, C32, C33, C34, C35, C36]
