"""C21-C23: pretty printing and the shipped specifications."""

import ast
import contextlib
import copy
import io
import itertools
import random
import re
import subprocess
import sys

import core
import gen
import golden
import model
import streams
import wirechecks
from core import Check, Violation, short

LITERAL = re.compile(r"""b?(?:'(?:[^'\\\n]|\\.)*'|"(?:[^"\\\n]|\\.)*")""")


class OnlyWrite:
    """a stream with nothing but write()"""

    __slots__ = ("parts",)

    def __init__(self):
        self.parts = []

    def write(self, s):
        if not isinstance(s, str):
            raise TypeError("write() of %s" % type(s))
        self.parts.append(s)
        return len(s)

    def text(self):
        return "".join(self.parts)


def shown(doc, spec):
    keys = []
    if "h" in doc and spec["h"]["max_len"] > 0:
        keys.append("h")
    keys += [k for k in ("t", "p") if k in doc]
    keys += sorted((k for k in doc if isinstance(k, str) and k.isdigit()), key=int)
    return keys


def prefix(key, spec, dw):
    p = key + " " * (3 - len(key))
    if dw > 0:
        d = spec[key]["desc"][:dw]
        p += " " + d + " " * (dw - len(d))
    return p + ": "


def entries(text, keys, spec, dw, what):
    """split output into entries: [(key, first line rest, continuation lines)]"""
    if text and not text.endswith("\n"):
        raise Violation("%s: output does not end with a newline" % what)
    lines = text.split("\n")[:-1]
    out = []
    i = 0
    for key in keys:
        pre = prefix(key, spec, dw)
        if i >= len(lines):
            raise Violation("%s: entry %s is missing" % (what, key))
        if not lines[i].startswith(pre):
            raise Violation("%s: expected entry %s starting %r, got line %r" % (what, key, pre, short(lines[i])))
        first = lines[i][len(pre) :]
        i += 1
        cont = []
        while i < len(lines) and lines[i].startswith("     "):
            cont.append(lines[i])
            i += 1
        out.append((key, pre, first, cont))
    if i != len(lines):
        raise Violation("%s: unexpected line %r" % (what, short(lines[i])))
    return out


def literals(s, what):
    """the literals of a line; nothing but spaces may surround them"""
    res, at = [], 0
    s0 = s
    while at < len(s):
        if s[at] == " ":
            at += 1
            continue
        m = LITERAL.match(s, at)
        if not m:
            raise Violation("%s: cannot read %r" % (what, short(s0)))
        res.append((m.group(0), at))
        at = m.end()
    return res


TRICKY = ("", "'", '"', "'\"", "\\", "\n", "a\nb", "\t", "\x00", "é", "日本語", "\u2028", "\ud800", "\U0001f4b3", " ", "  lead", "trail  ", "a" * 7, "x'y\"z", "b'00'", "t   Message", "\x7f\x80\xa0\xad", "{}", "{0!r} %s", "%", "\\N{BULLET}", "e\u0301")


def pp_cases(ctx, n):
    rng = ctx.rng("pp_cases")
    descs = ("", "D", "Amount, Transaction", "A description that is longer than thirty columns", "quote's \"d\"", "colon: 'x'", "é日本", " " * 5, "  led by spaces", "a {0} {desc} {{}}", "}{", "%s %d%%", "back\\slash \\n", "tab\there", "${x} [b]", "e\u0301\ufeff\u200b", "UPPER lower", "trailing   ")
    widths = (80, 80, 40, 20, 10, 8, 6, 5, 4, 3, 2, 1, 0, -1, -50, 1000, 79, 81, 120, 35, 36, 37, 38, 39, 41)
    dws = (30, 30, 0, -1, -30, 1, 2, 3, 5, 10, 29, 31, 60, 100)
    for i in range(n):
        nums = gen.field_set(rng)
        if len(nums) > 25 and rng.random() < 0.9:
            nums = set(rng.sample(sorted(nums), rng.randrange(1, 25)))
        if rng.random() < 0.2:
            nums |= {rng.choice((2, 9, 10, 11, 19, 20, 99, 100, 101, 110, 128, 129, 192)) for _ in range(6)}
        spec = gen.base_spec()
        h, _ = gen.rand_header(rng)
        h.setdefault("desc", "Header")
        if rng.random() < 0.5:
            spec["h"] = h
        keys = [k for k in ("h", "t", "p", "1") if rng.random() < 0.8] + [str(x) for x in nums]
        if rng.random() < 0.5:
            rng.shuffle(keys)
        for k in keys:
            spec.setdefault(k, {"data_enc": "ascii", "len_enc": "ascii", "len_type": 0, "max_len": 1})
            spec[k]["desc"] = rng.choice(descs) if rng.random() < 0.8 else spec[k].get("desc", "")
        dw = rng.choice(dws) if rng.random() < 0.7 else rng.randrange(80)
        lw = rng.choice(widths) if rng.random() < 0.5 else rng.randrange(200)
        encoded = rng.random() < 0.5
        doc = {}
        for k in keys:
            r = rng.random()
            if encoded:
                ln = b"" if r < 0.4 else bytes(rng.randrange(256) for _ in range(rng.choice((1, 2, 3, 4)))) if r < 0.7 else b"%02d" % rng.randrange(100) if r < 0.85 else rng.choice((b"'", b'"', b"\\\n", b"'\""))
                q = rng.random()
                c = rng.choice((0, 1, 2, 3, 5, 20, 60)) if q < 0.6 else rng.randrange(0, 400)
                kind = rng.randrange(6)
                if kind == 0:
                    d = bytes(rng.randrange(256) for _ in range(c))
                elif kind == 1:
                    d = bytes(rng.choice(b"0123456789ABC xyz") for _ in range(c))
                elif kind == 2:
                    d = bytes(rng.choice(b"'\"\\\n\tA") for _ in range(c))
                elif kind == 3:
                    d = b"A" * rng.randrange(0, 10) + b"'" + b"B" * c + b'"' + b"C" * 9
                elif kind == 4:
                    d = bytes([rng.choice((0, 0x27, 0x41, 0xFF))]) * c
                else:
                    d = b"A" * c
                doc[k] = {"len": ln, "data": d}
            else:
                if r < 0.35:
                    v = rng.choice(TRICKY) * rng.choice((1, 1, 2, 30))
                elif r < 0.75:
                    # literals just around the line width
                    ind = 5 + (dw + 1 if dw > 0 else 0)
                    room = lw - ind
                    c = max(0, room - 2 + rng.choice((-2, -1, 0, 1, 2))) if rng.random() < 0.6 else max(0, (room - 2) * rng.choice((2, 3)) + rng.choice((-1, 0, 1)))
                    v = "".join(rng.choice("ABCDEF0123456789 ") for _ in range(min(c, 3000)))
                else:
                    c = rng.choice((0, 1, 2, 3, 10, 50, 200))
                    al = rng.choice(("0123456789", "AB'", "AB\"'", "a\\b", "xé\n", "AZaz09 "))
                    v = "".join(rng.choice(al) for _ in range(c))
                doc[k] = v
        if encoded and keys and rng.random() < 0.5:
            # sized around the line width
            k = rng.choice(keys)
            ln = rng.choice((b"", b"12", b"\x00"))
            ind = 5 + (dw + 1 if dw > 0 else 0) + (len(repr(ln)) + 1 if ln else 0)
            c = max(0, lw - ind - 3 + rng.choice((-2, -1, 0, 1, 2)))
            doc[k] = {"len": ln, "data": b"A" * min(c, 3000)}
        extra = {}
        for x in ("note", "", "2x", "-1", "bm", "t2", "H", "P", " 2", "2 "):
            if rng.random() < 0.1:
                extra[x] = "must not be shown"
        if rng.random() < 0.5:
            doc = {**extra, **doc}
        else:
            doc.update(extra)
        yield "pp", spec, (doc, dw, lw, rng.choice(("stream", "stream", "onlywrite", "stdout")))


def run_pp(obs, spec, x):
    """-> text written; raises Violation when anything else was written to"""
    doc, dw, lw, how = x
    out, err = io.StringIO(), io.StringIO()
    target = OnlyWrite() if how == "onlywrite" else io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        if how == "stdout":
            if dw == 30 and lw == 80:
                r = obs.pp(doc, spec)
            else:
                r = obs.pp(doc, spec, desc_width=dw, line_width=lw)
        elif dw == 30 and lw == 80:
            r = obs.pp(doc, spec, stream=target)
        else:
            r = obs.pp(doc, spec, dw, target, lw)
    if not r.ok:
        raise Violation("pp %r" % r)
    text = out.getvalue() if how == "stdout" else target.text() if how == "onlywrite" else target.getvalue()
    if err.getvalue() or how != "stdout" and out.getvalue():
        raise Violation("pp wrote to another stream: %s" % short(out.getvalue() + err.getvalue()))
    obs.hit("output to " + how)
    if isinstance(target, io.StringIO) and target.closed:
        raise Violation("pp closed the stream")
    return text


class C21(Check):
    id = "C21"
    rule = "documents and breakdowns with hostile values (quotes, escapes, newlines, non-ASCII, lone surrogates, literal look-alikes) for random keys in any order, at 14 description and 25 line widths, to 3 kinds of stream, plus outputs of real encodes and decodes; every printed literal is read back; distinct by input"
    required = {"entries read back": 60000, "folded entries": 5000, "output to stdout": 1000, "output to onlywrite": 1000, "breakdown entries": 10000, "header entries": 300}

    def cases(self, ctx):
        yield from pp_cases(ctx, ctx.n(40000))
        yield from real_pp(ctx, ctx.n(5000))

    def judge(self, case, obs):
        _, spec, x = case
        doc, dw, lw, how = x
        what = "pp(desc_width=%d, line_width=%d)" % (dw, lw)
        text = run_pp(obs, spec, x)
        for key, pre, first, cont in entries(text, shown(doc, spec), spec, dw, what):
            w = "%s entry %s" % (what, key)
            lits = [l for l, _ in literals(first, w)]
            for c in cont:
                more = literals(c, w)
                if len(more) != 1:
                    raise Violation("%s: continuation line %r" % (w, short(c)))
                lits.append(more[0][0])
                obs.hit("folded pieces")
            if cont:
                obs.hit("folded entries")
            v = doc[key]
            vals = [ast.literal_eval(l) for l in lits]
            if isinstance(v, dict):
                obs.hit("breakdown entries")
                if v["len"]:
                    if not vals or vals[0] != v["len"]:
                        raise Violation("%s: length shown as %s expected %r" % (w, short(lits[:1]), v["len"]))
                    vals = vals[1:]
                want = v["data"]
            else:
                want = v
            if not vals or any(type(p) is not type(want) for p in vals):
                raise Violation("%s: shows %s for %s" % (w, short(lits), short(want)))
            if type(want)().join(vals) != want:
                raise Violation("%s: reads back %s instead of %s" % (w, short(type(want)().join(vals), 300), short(want, 300)))
            obs.hit("entries read back")
            if key == "h":
                obs.hit("header entries")
            obs.state("keys", key)
            obs.state("widths", (dw, lw))
        return True


def real_pp(ctx, n):
    rng = ctx.rng("real_pp")
    for _, spec, doc in itertools.chain(streams.random_docs(ctx, n, name="real_pp"), streams.shipped_docs(ctx, n // 4)):
        for fs in spec.values():
            fs.setdefault("desc", "Field")
        try:
            msg = model.write(doc, spec)
        except model.Reject:
            continue
        d = msg.dec if rng.random() < 0.5 else msg.enc
        yield "pp", spec, (d, rng.choice((0, 5, 30, 30)), rng.choice((0, 20, 50, 80, 80)), rng.choice(("stream", "stdout")))


class C22(Check):
    id = "C22"
    rule = "as C21, with values sized around the line width; every line's prefix, start column, length and chunk size is checked; distinct by input"
    required = {"entries measured": 60000, "folded text": 3000, "folded bytes": 3000, "one-line entries": 20000}

    def cases(self, ctx):
        yield from pp_cases(ctx, ctx.n(40000))
        yield from real_pp(ctx, ctx.n(5000))

    def judge(self, case, obs):
        _, spec, x = case
        doc, dw, lw, how = x
        what = "pp(desc_width=%d, line_width=%d)" % (dw, lw)
        text = run_pp(obs, spec, x)
        for key, pre, first, cont in entries(text, shown(doc, spec), spec, dw, what):
            w = "%s entry %s" % (what, key)
            obs.hit("entries measured")
            v = doc[key]
            col = len(pre)
            rest = first
            if isinstance(v, dict):
                if v["len"]:
                    lit = repr(v["len"]) + " "
                    if not rest.startswith(lit):
                        raise Violation("%s: length is not followed by one space: %r" % (w, short(first)))
                    rest = rest[len(lit) :]
                    col += len(lit)
                v = v["data"]
            pieces = [rest]
            for c in cont:
                if c[:col] != " " * col or c[col : col + 1] == " ":
                    raise Violation("%s: continuation line does not start in column %d: %r" % (w, col, short(c)))
                pieces.append(c[col:])
            vals = []
            for p in pieces:
                if not LITERAL.fullmatch(p):
                    raise Violation("%s: line part %r is not one literal" % (w, short(p)))
                vals.append(ast.literal_eval(p))
            room = lw - col
            if len(repr(v)) <= room:
                if len(pieces) != 1:
                    raise Violation("%s: a literal of %d columns fits in %d but was folded" % (w, len(repr(v)), room))
                obs.hit("one-line entries")
                continue
            if len(v) <= 1:
                if len(pieces) != 1:
                    raise Violation("%s: a single character was folded" % w)
                continue
            obs.hit("folded text" if isinstance(v, str) else "folded bytes")
            if any(len(a) == 0 for a in vals):
                raise Violation("%s: empty chunk" % w)
            for i, (p, a) in enumerate(zip(pieces, vals)):
                plain = isinstance(a, bytes) or len(p) == len(a) + 2
                if len(p) > room and len(a) > 1 and plain:
                    raise Violation("%s: line of %d columns is wider than %d: %r" % (w, col + len(p), lw, short(p)))
                if i + 1 < len(vals):
                    nxt = a + vals[i + 1][:1]
                    if plain and len(repr(nxt)) <= room and (isinstance(a, bytes) or len(repr(nxt)) == len(nxt) + 2):
                        raise Violation("%s: chunk %r is shorter than the width %d allows" % (w, short(p), room))
            obs.state("fold shapes", (type(v).__name__, min(room, 40), min(len(pieces), 5)))
        return True


# --------------------------------------------------------------------------
# C23


def live_specs():
    return {"default": core.ISO.specs.default, "default_ascii": core.ISO.specs.default_ascii}


GOLD = {"default": golden.DEFAULT, "default_ascii": golden.DEFAULT_ASCII}
CORE = golden.KEYS


class C23(Check):
    id = "C23"
    rule = "every element of both shipped specifications: table compared with the documented contents, every allowed boundary length of every field (and every length up to 999 in the thorough tier) round-tripped alone and together with other fields against the model, every attribute and entry changed in place with all others watched; non-trivial always"
    required = {"table entries": 262, "boundary round trips": 3000, "in-place changes": 1000, "limits refused": 250}

    def setup(self, ctx):
        self.thorough = ctx.thorough

    def cases(self, ctx):
        for name in GOLD:
            for k in ctx.mine(GOLD[name]):
                yield "table", name, k
        yield "keys", "default", ""
        yield "keys", "default_ascii", ""
        rng = ctx.rng("c23")
        todo = []
        for name, tab in GOLD.items():
            for k in tab:
                if k.isdigit() and k not in ("1", "65"):
                    de, le, lt, m, _ = tab[k]
                    if lt == 0:
                        counts = [m] * 6
                    elif ctx.thorough:
                        counts = list(range(m + 1))
                    else:
                        counts = sorted({0, 1, 2, 8, 9, 10, 11, 98, 99, 100, 101, 127, 128, 254, 255, 256, 257, m // 2, m - 2, m - 1, m} & set(range(m + 1)))
                    todo += [(name, k, c) for c in counts]
                    todo += [(name, k, c) for c in ([m - 1, m + 1] if lt == 0 else [m + 1]) if c >= 0]
        for name, k, c in ctx.mine(todo):
            fs = golden.spec({k: GOLD[name][k]})[k]
            for style in (None, "any") if not ctx.thorough else (None,):
                v = gen.value_for(fs, c, rng, style if fs["data_enc"] != "b" else None)
                yield "trip", name, (("t", "0200"), (k, v))
        for name in ("default", "default_ascii"):
            for i in range(ctx.n(1200, 12000)):
                tab = GOLD[name]
                nums = rng.sample([x for x in tab if x.isdigit() and x not in ("1", "65")], rng.choice((2, 3, 5, 20, 126)))
                doc = [("t", gen.mti(tab["t"][0], rng))]
                for k in nums:
                    fs = golden.spec({k: tab[k]})[k]
                    m = fs["max_len"]
                    doc.append((k, gen.value_for(fs, m if fs["len_type"] == 0 else rng.choice((0, 1, m, min(m, rng.randrange(0, 40)))), rng)))
                yield "trip", name, tuple(doc)
            for k in ctx.mine(GOLD[name]):
                yield "alias", name, k
        yield "fresh", "", ""

    def judge(self, case, obs):
        kind, name, x = case
        if kind == "fresh":
            return self.fresh(obs)
        spec = live_specs()[name]
        if kind == "keys":
            have = {k for k in spec if isinstance(k, str)}
            if have != set(GOLD[name]) or len(spec) != len(GOLD[name]):
                raise Violation("%s defines %s" % (name, sorted(have ^ set(GOLD[name]), key=str)))
            return True
        if kind == "table":
            e = spec.get(x)
            if e is None:
                raise Violation("%s does not define %s" % (name, x))
            want = dict(zip(CORE, GOLD[name][x]))
            for a in CORE:
                if a not in e:
                    raise Violation("%s[%r] has no %s" % (name, x, a))
                if e[a] != want[a] or type(e[a]) is not type(want[a]):
                    raise Violation("%s[%r][%r] is %r, documented %r" % (name, x, a, e[a], want[a]))
            if e.get("len_count", "bytes") != "bytes" or e.get("left_pad") or e.get("right_pad"):
                raise Violation("%s[%r] has undocumented counting or padding: %r" % (name, x, e))
            obs.hit("table entries")
            return True
        if kind == "trip":
            return self.trip(name, spec, dict(x), obs)
        return self.alias(name, spec, x, obs)

    def trip(self, name, spec, doc, obs):
        gold = golden.spec(GOLD[name])
        try:
            msg = model.write(doc, gold)
        except model.Reject as e:
            r = obs.enc(dict(doc), spec)
            if r.ok:
                raise Violation("%s: a document over its documented limits (%s) was accepted" % (name, e))
            obs.hit("limits refused")
            return True
        work = dict(doc)
        r = obs.enc(work, spec)
        if not r.ok:
            raise Violation("%s: document within the documented limits: %r" % (name, r))
        if bytes(r.out) != msg.wire:
            raise Violation("%s: wire differs from the documented format: %s expected %s" % (name, short(bytes(r.out), 300), short(msg.wire, 300)))
        d = obs.dec(bytes(r.out), spec)
        if not d.ok:
            raise Violation("%s: own message cannot be decoded: %r" % (name, d))
        want = {k: wirechecks.canon(v, gold[k]) for k, v in doc.items()}
        got = {k: v for k, v in d.out.items() if k in want}
        extra = set(d.out) - set(want) - {"p", "1"}
        if got != want or extra or d.enc != r.enc:
            raise Violation("%s: round trip differs: %s" % (name, wirechecks.diff(want, got)))
        obs.hit("boundary round trips")
        for k, v in doc.items():
            obs.state("field lengths", (name, k, len(v)))
        return True

    def alias(self, name, spec, key, obs):
        """change every attribute of one entry in place; nothing else may change"""
        both = live_specs()
        before = copy.deepcopy(both)
        e = spec[key]
        own = dict(e)
        try:
            for a in list(e):
                e[a] = ("changed", a)
                self.watch(before, both, name, key, obs)
                e[a] = own[a]
            e["added"] = 1
            self.watch(before, both, name, key, obs)
            del e["added"]
            e.clear()
            self.watch(before, both, name, key, obs)
        finally:
            e.clear()
            e.update(own)
        del spec[key]
        other = both["default_ascii" if name == "default" else "default"]
        gone = key not in other
        spec[key] = e
        if gone:
            raise Violation("removing %r from %s removed it from the other specification" % (key, name))
        order = list(GOLD[name])
        if list(spec) != order and set(spec) == set(order):
            items = {k: spec[k] for k in order}
            spec.clear()
            spec.update(items)
        return True

    def watch(self, before, both, name, key, obs):
        obs.hit("in-place changes")
        for n, spec in both.items():
            for k, e in spec.items():
                if n == name and k == key:
                    continue
                if e != before[n][k]:
                    raise Violation("changing %s[%r] in place also changed %s[%r]" % (name, key, n, k))

    def fresh(self, obs):
        """the public entry points hand out the same tables"""
        import importlib

        m = importlib.import_module("iso8583.specs")
        for n in GOLD:
            if getattr(m, n) is not live_specs()[n]:
                raise Violation("two different %s tables" % n)
        obs.hit("modules compared")
        return True


CHECKS = [C21, C22, C23]
