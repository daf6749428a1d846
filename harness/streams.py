"""Case streams shared by several properties.

doc cases   ("doc", spec, doc)    something to encode
wire cases  ("wire", spec, wire)  something to decode

Every stream is deterministic in (seed, shard).  Enumerations are split over
the shards; random parts have one private random stream per shard.
"""

import copy
import itertools

import gen
import golden
import model

COUNTS = (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33)


def one_field(fs, value, num="2", t="ascii", p="ascii", s="ascii"):
    spec = gen.base_spec(t, p, s)
    spec[num] = fs
    return spec, {"t": "0200", num: value}


def fit_max(fs, n, rng):
    """max_len that allows n"""
    if fs["len_type"] == 0:
        return n
    return rng.choice((n, n, n + 1, n + 7, max(n, model.len_capacity(fs))))


def config_docs(ctx, counts=COUNTS, **kw):
    """every field configuration x every small count, valid, one field per message"""
    rng = ctx.rng("config_docs")
    k = 0
    for cfg in ctx.mine(gen.configs(**kw)):
        for n in counts:
            if cfg["len_type"] and n > model.len_capacity(cfg):
                continue
            v = gen.value_for(cfg, n, rng)
            if v is None:
                continue
            fs = dict(cfg, max_len=fit_max(cfg, n, rng), desc="Field")
            k += 1
            num = str(rng.choice((2, 3, 8, 64, 66, 128, 129, 192, rng.randrange(2, 65), rng.randrange(66, 193))))
            spec, doc = one_field(fs, v, num, rng.choice(("ascii", "b", "cp500")), rng.choice(gen.BASE_P), rng.choice(gen.BASE_P))
            yield "doc", spec, doc


def per_number_docs(ctx, rounds=1):
    """every field number with several configurations and random neighbours"""
    rng = ctx.rng("per_number")
    for num in ctx.mine([n for n in range(2, 193) if n != 65] * rounds):
        for _ in range(12):
            fields = {num}
            for _ in range(rng.choice((0, 0, 1, 2, 4))):
                fields.add(rng.choice((num - 1, num + 1, num + 64, num - 64, rng.randrange(2, 193))))
            fields = {f for f in fields if 2 <= f <= 192 and f != 65}
            yield ("doc",) + gen.rand_message(rng, True, fields)


def random_docs(ctx, n, small=True, name="random_docs"):
    rng = ctx.rng(name)
    for _ in range(n):
        yield ("doc",) + gen.rand_message(rng, small)


def bitmap_docs(ctx, npairs=1500, nrand=800):
    """field sets: singles, boundary subsets, pairs, densities; tiny elements"""
    rng = ctx.rng("bitmap_docs")
    for nums in ctx.mine(gen.bitmap_sets(ctx.shared_rng("bitmap_sets"), npairs, nrand)):
        nums = list(nums)
        r = rng.random()
        if r < 0.3:
            rng.shuffle(nums)
        elif r < 0.5:
            nums.sort(reverse=True)
        spec, doc = gen.bitmap_message(nums, rng.choice(("ascii", "b", "cp500")), rng.choice(gen.BASE_P), rng.choice(gen.BASE_P), rng.randrange(3))
        for k in ("p", "1", "65"):
            if rng.random() < 0.3:
                doc[k] = rng.choice(("", "junk", "FFFFFFFFFFFFFFFF", "0" * 32, "8000000000000000", None))
        if rng.random() < 0.15:
            items = list(doc.items())
            rng.shuffle(items)
            doc = dict(items)
        yield "doc", spec, doc


def shipped_docs(ctx, n):
    """messages over the shipped specifications (golden copies)"""
    rng = ctx.rng("shipped_docs")
    for _ in range(n):
        base = golden.spec(rng.choice((golden.DEFAULT, golden.DEFAULT_ASCII)))
        nums = sorted(x for x in gen.field_set(rng) if x <= 128)[: rng.choice((1, 3, 10, 128))]
        doc = {"t": gen.mti(base["t"]["data_enc"], rng)}
        for x in nums:
            fs = base[str(x)]
            m = fs["max_len"]
            c = m if fs["len_type"] == 0 else rng.choice((0, 1, m, m - 1, rng.randrange(m + 1), rng.randrange(min(m, 40) + 1)))
            doc[str(x)] = gen.value_for(fs, c, rng)
        spec = {k: v for k, v in base.items() if not k.isdigit() or k == "1" or int(k) in nums}
        yield "doc", spec, doc


def codec_docs(ctx, n):
    """every text codec: every character of its alphabet, in every position"""
    rng = ctx.rng("codec_docs")
    for codec in ctx.mine(gen.TEXT):
        al = [c for c, _ in gen.alphabet(codec)]
        for i in range(0, len(al), 16):
            chunk = "".join(al[i : i + 16])
            raw = chunk.encode(codec)
            for lt in (0, 3):
                fs = {"data_enc": codec, "len_enc": "ascii", "len_type": lt, "max_len": len(raw) if lt == 0 else 999, "desc": codec}
                yield ("doc",) + one_field(fs, chunk)
        for c in al:
            for v in (c, c + c, "A" + c, c + "0", " " + c + " "):
                try:
                    raw = v.encode(codec)
                except Exception:
                    continue
                if raw.decode(codec) != v:
                    continue
                fs = {"data_enc": codec, "len_enc": "bcd", "len_type": 1, "max_len": 20, "desc": codec}
                yield ("doc",) + one_field(fs, v, str(rng.randrange(66, 129)))


TEXTS = (
    # sequences that normalisation, case mapping, trimming, escaping or number parsing would change
    "e\u0301", "E\u0308x", "a\u030a", "\u00e9", "\u212b", "\u2126", "\ufb01", "\ufb03le", "\u1e9e", "stra\u00dfe", "\u0130i\u0131I", "\u017f", "\u1100\u1161", "\uac00", "\u30ab\u3099", "\uff76\uff9e", "\u0915\u093c", "\uff21\uff11", "\u00b2\u00bd", "\u01c4",
    "\ufeffA", "A\ufeff", "\ufeff", "\ufffe", "\ufffd", "\uffff", "\u200b", "a\u200db", "\u202eabc", "\u00ad", "\U0001f468\u200d\U0001f469", "\u2764\ufe0f", "\U0001d7d8",
    "a\r\nb", "\r\n", "\n", "\r", "\t", "a\tb", "\x00", "\x00\x00", "a\x00", "\x00a", "\x1a", "\x7f", "\x85", "\xa0", "\u2028", "\x0b\x0c", "\x1c\x1d\x1e\x1f",
    " ", "   ", " a", "a ", " a ", "  a  ", "a  b", "0", "00", "000", "007", "0070", "-1", "+1", "1_0", "0x1F", "1e3", "1.0", "NaN", "None", "True", "null", "\\n", "\\x00", "\\u0041", "%20", "%s", "{0}", "{", "}", "&amp;", "=?utf-8?", "''", '""', "b''", "'", '"', "\\", "^", "~", "|", "\u00a5", "\u203e", "#", "?", "\x0e\x0f", "$@",
    "0200", "8000000000000000", "FFFF", "ABCDEF", "abcdef", "aBcD", "F", "D", "=", "4111111111111111=2512", "\u00c3\u00a9", "\u00e2\u20ac",
)


def tricky_docs(ctx):
    """every tricky text under every codec, alone and inside others, all element kinds"""
    rng = ctx.rng("tricky_docs")
    for codec in ctx.mine(gen.TEXT):
        for x in TEXTS:
            for v in (x, "A" + x, x + "z", x + x, "9" + x + "0"):
                try:
                    raw = v.encode(codec)
                    if raw.decode(codec) != v:
                        continue
                except Exception:
                    continue
                unit = rng.choice(("bytes", "bytes", "nibbles"))
                n = len(raw) * (2 if unit == "nibbles" else 1)
                lt = rng.choice((0, 1, 2, 3))
                fs = {"data_enc": codec, "len_enc": rng.choice(("b", "bcd", "ascii", "cp500")), "len_type": lt, "max_len": n, "len_count": unit, "desc": codec}
                if lt and n > model.len_capacity(fs):
                    fs["len_type"] = 3
                if rng.random() < 0.15:
                    spec, doc = gen.bitmap_message([3])
                    spec["h"], doc["h"] = fs, v
                else:
                    spec, doc = one_field(fs, v, str(rng.choice((2, 64, 66, 128, 129, 192))))
                yield "doc", spec, doc


def valid_docs(ctx, scale=1.0, big=True):
    """the standard mix of documents encode must accept"""
    yield from config_docs(ctx)
    yield from per_number_docs(ctx)
    yield from bitmap_docs(ctx, int(600 * scale), int(400 * scale))
    yield from codec_docs(ctx, 1)
    yield from tricky_docs(ctx)
    yield from shipped_docs(ctx, ctx.n(int(6000 * scale)))
    yield from random_docs(ctx, ctx.n(int(40000 * scale)))
    if big:
        yield from random_docs(ctx, ctx.n(int(3000 * scale)), False, "big_docs")


def dirty(doc, rng):
    """entries that are not fields: ignored by encode, in any order"""
    extra = {
        "p": rng.choice(("", "junk", "FFFFFFFFFFFFFFFF", None)),
        "1": rng.choice(("", "junk", "FFFFFFFFFFFFFFFF", None)),
        "65": rng.choice(("", "0000000000000001", None)),
        "note": "free text",
        "bm": {"a": 1},
        "": "empty",
        "t2": "0200",
        "-2": "x",
        "2.0": "x",
        "2a": "x",
        " 3": "x",
    }
    for k in extra:
        if k not in doc and rng.random() < 0.35:
            doc[k] = extra[k]
    if rng.random() < 0.5:
        items = list(doc.items())
        rng.shuffle(items)
        doc = dict(items)
    return doc


ODD_FIELD_VALUES = (None, 7, 0, 1234, 1.5, [], ["1"], {}, (), True, False)
gen_numbers = frozenset(str(n) for n in range(2, 193))


def faulty_docs(ctx, n, faults=(1, 1, 1, 2), name="faulty_docs", kinds=None):
    """documents with one or two faults (some faults turn out harmless)"""
    rng = ctx.rng(name)
    done = 0
    while done < n:
        spec, doc = gen.rand_message(rng, rng.random() < 0.9)
        if rng.random() < 0.5:
            spec["h"] = {"data_enc": "ascii", "len_enc": "ascii", "len_type": 0, "max_len": 3, "desc": "H"}
            doc["h"] = "hdr"
        for _ in range(rng.choice(faults)):
            gen.break_doc(spec, doc, rng, kind=rng.choice(kinds) if kinds else None)
        if rng.random() < 0.3:
            doc = dirty(doc, rng)
        if kinds is None and rng.random() < 0.05:
            k = rng.choice([k for k in doc if k in ("t", "h") or k.isdigit() and k in gen_numbers] or ["t"])
            doc[k] = rng.choice(ODD_FIELD_VALUES)
        if kinds is None and rng.random() < 0.06:
            # a field the specification does not define, whatever its value
            k = str(rng.choice((rng.randrange(2, 65), rng.randrange(66, 129), rng.randrange(129, 193))))
            if k not in spec:
                doc[k] = rng.choice(ODD_FIELD_VALUES + ("", "0", "x", "00", " ", b"", b"12"))
        if kinds is None and rng.random() < 0.05:
            odd = {rng.choice((5, 2, 0, -1, None, 2.0, b"2", ("2",), True, 10**30)): rng.choice(("x", "00", 5))}
            doc = {**odd, **doc} if rng.random() < 0.5 else {**doc, **odd}
        done += 1
        yield "doc", spec, doc


def config_faults(ctx, deltas=(-2, -1, 0, 1, 2, 5), maxes=(0, 1, 2, 3, 5, 8, 9, 10, 16), **kw):
    """every field configuration x max_len x sizes just around it"""
    rng = ctx.rng("config_faults")
    for cfg in ctx.mine(gen.configs(**kw)):
        for m in maxes:
            for d in deltas:
                c = m + d
                if c < 0:
                    continue
                v = gen.value_for(cfg, c, rng)
                if v is None:
                    # odd nibbles nobody can send: still a document
                    v = gen.hex_digits(c, rng) if cfg["data_enc"] == "b" else gen.text_bytes(cfg["data_enc"], c, rng) if cfg["data_enc"] not in ("utf-16-le", "utf-16-be") else None
                    if v is None:
                        continue
                fs = dict(cfg, max_len=m, desc="Field")
                yield ("doc",) + one_field(fs, v, str(rng.choice((2, 64, 66, 128, 129, 192))))


def capacity_docs(ctx, spans=(-1, 0, 1, 2)):
    """sizes around what the length prefix can carry, max_len far above"""
    rng = ctx.rng("capacity")
    cfgs = [c for c in gen.configs(pads=({}, {"right_pad": "F"}), data=("b", "ascii", "utf-8"), widths=(1, 2, 3)) if c["len_type"]]
    for cfg in ctx.mine(cfgs):
        cap = model.len_capacity(cfg)
        if cap > 70000:
            continue
        for d in spans:
            v = gen.value_for(cfg, cap + d, rng)
            if v is None:
                continue
            for m in (cap + d, cap + 5, 10 * cap + 1000, 10**9):
                if m >= 0:
                    yield ("doc",) + one_field(dict(cfg, max_len=m, desc="F"), v, str(rng.choice((2, 66, 129))))


def key_docs(ctx, n):
    """unusual numeric keys"""
    rng = ctx.rng("key_docs")
    odd = ["0", "00", "193", "194", "200", "255", "256", "1000", "99999", "02", "002", "03", "0128", "0192", "01", "065", "0065", "001", "²", "③", "½", "Ⅷ", "七", "٢", "２", "1²", "9" * 30, "9" * 5000, "-1", "+2", "2 ", " 2", "2_0", "2.0", "1e1", "0x2"]
    plain = [str(i) for i in range(0, 200)]
    for k in ctx.mine(odd + plain):
        for v in ("x", "00", "", "0000000000000000"):
            spec, doc = gen.bitmap_message([3], kind=0)
            spec.setdefault("2", gen.simple_fs(2))
            doc[k] = v
            yield "doc", spec, doc
            doc2 = {k: v, "t": "0200"}
            yield "doc", spec, doc2
    for _ in range(n):
        spec, doc = gen.bitmap_message(sorted(rng.sample(range(2, 65), 2)), kind=rng.randrange(3))
        for _ in range(rng.choice((1, 1, 2))):
            doc[rng.choice(odd)] = rng.choice(("x", "00", ""))
        yield "doc", spec, dirty(doc, rng)


# --------------------------------------------------------------------------
# wires


def wire_of(spec, doc):
    """bytes by the model, independent of encode; None when not writable"""
    try:
        return model.write(doc, spec)
    except model.Reject:
        return None


def vary_wire(spec, doc, msg, rng):
    """an equally valid but non-canonical wire"""
    r = rng.random()
    if r < 0.45:
        w, _ = gen.superfluous_bitmaps(spec, doc, rng)
        return w
    if r < 0.8:
        return gen.lower_bitmap(spec, msg.wire, msg, rng)
    return alt_pad(spec, msg, rng)


def alt_pad(spec, msg, rng):
    """use the right pad where both pads are allowed and left is preferred"""
    out = b""
    for k, v, l, d in msg.parts:
        fs = spec.get(k, {})
        if k not in ("t", "p", "1") and fs.get("data_enc") == "b" and fs.get("len_count") == "nibbles" and len(v) % 2:
            rp = fs.get("right_pad", "")[:1]
            if rp:
                d = bytes.fromhex(v + rp)
        out += l + d
    return out


def wires_from(docs, ctx, name, variants=0.3, mutants=0, trunc=0.0, extra=0.0):
    rng = ctx.rng(name)
    for _, spec, doc in docs:
        msg = wire_of(spec, doc)
        if msg is None:
            continue
        yield "wire", spec, msg.wire
        if rng.random() < variants:
            yield "wire", spec, vary_wire(spec, doc, msg, rng)
        for _ in range(mutants):
            yield "wire", spec, gen.mutate(spec, msg.wire, msg, rng)
        if trunc and rng.random() < trunc:
            w = msg.wire
            if len(w) <= 150:
                for x in gen.truncations(w):
                    yield "wire", spec, x
            else:
                for _ in range(30):
                    yield "wire", spec, w[: rng.randrange(len(w))]
        if extra and rng.random() < extra:
            for x in gen.trailing(msg.wire, rng):
                yield "wire", spec, x


def valid_wires(ctx, scale=1.0):
    yield from wires_from(valid_docs(ctx, scale), ctx, "valid_wires", variants=0.4)


def mixed_wires(ctx, scale=1.0):
    """valid and invalid input for decode"""
    yield from wires_from(config_docs(ctx, counts=(0, 1, 2, 3, 8, 9)), ctx, "mw1", 0.2, mutants=2, trunc=0.03, extra=0.05)
    yield from wires_from(bitmap_docs(ctx, int(200 * scale), int(200 * scale)), ctx, "mw2", 0.5, mutants=2, trunc=0.02, extra=0.1)
    yield from wires_from(per_number_docs(ctx), ctx, "mw2b", 0.3, mutants=1, trunc=0.02, extra=0.1)
    yield from wires_from(shipped_docs(ctx, ctx.n(int(1500 * scale))), ctx, "mw3", 0.2, mutants=4, trunc=0.02, extra=0.1)
    yield from wires_from(random_docs(ctx, ctx.n(int(16000 * scale)), name="mw4d"), ctx, "mw4", 0.3, mutants=4, trunc=0.04, extra=0.1)
    yield from undefined_wires(ctx, ctx.n(int(3000 * scale)))
    yield from limit_wires(ctx, min(1.0, scale))
    yield from codec_wires(ctx)
    yield from random_bytes(ctx, ctx.n(int(8000 * scale)))


def limit_wires(ctx, share=1.0, deltas=(-2, -1, 0, 1, 2, 5), maxes=(0, 1, 2, 3, 5, 8, 9, 10, 16, 99, 255)):
    """every field configuration x max_len x honest lengths just around it:
    the message is consistent in itself, only the maximum decides"""
    rng = ctx.rng("limit_wires")
    for cfg in ctx.mine(gen.configs(data=("b", "ascii", "cp500", "utf-8"))):
        for m in maxes:
            for d in deltas:
                c = m + d
                if c < 0 or rng.random() > share * (1.0 if m < 3 else 0.5):
                    continue
                v = gen.value_for(cfg, c, rng)
                if v is None:
                    continue
                key = rng.choice(("2", "64", "66", "128", "129", "192", "h"))
                if key == "h" and m == 0:
                    key = "2"
                if key == "h":
                    spec, doc = gen.bitmap_message([3], "ascii", rng.choice(gen.BASE_P))
                    doc["h"] = v
                    spec["h"] = dict(cfg, max_len=c, desc="Header")
                    if c == 0:
                        continue
                else:
                    spec, doc = one_field(dict(cfg, max_len=c, desc="Field"), v, key, "ascii", rng.choice(gen.BASE_P), rng.choice(gen.BASE_P))
                msg = wire_of(spec, doc)
                if msg is None:
                    continue
                yield "wire", dict(spec, **{key: dict(spec[key], max_len=m)}), msg.wire


def undefined_wires(ctx, n):
    """a bit is on for a field the specification lacks; unknown codecs"""
    rng = ctx.rng("undefined_wires")
    for _ in range(n):
        spec, doc = gen.rand_message(rng)
        msg = wire_of(spec, doc)
        if msg is None or not msg.present:
            continue
        spec = {k: dict(v) for k, v in spec.items()}
        k = str(rng.choice(msg.present))
        r = rng.random()
        if r < 0.6:
            del spec[k]
        elif r < 0.8:
            spec[k]["data_enc"] = rng.choice(("no_such_codec", "hex", "B"))
        else:
            spec[k]["len_enc"] = rng.choice(("no_such_codec", "hex", "B", "BCD"))
        w = msg.wire
        if rng.random() < 0.3:
            w = w[: rng.randrange(len(w) + 1)]
        yield "wire", spec, w


def codec_wires(ctx):
    """every byte value (and many pairs) under every text codec"""
    rng = ctx.rng("codec_wires")
    head = b"02004000000000000000"
    for codec in ctx.mine(gen.TEXT):
        spec, _ = one_field({"data_enc": codec, "len_enc": "b", "len_type": 1, "max_len": 255, "desc": codec}, "")
        for b in range(256):
            for d in (bytes([b]), b"A" + bytes([b]), bytes([b]) + b"A", bytes([b, b]), bytes([b, rng.randrange(256)]), bytes([b, rng.randrange(0x80, 0xC0)]), bytes([b, rng.randrange(256), rng.randrange(256), rng.randrange(256)])):
                yield "wire", spec, head + bytes([len(d)]) + d


def random_bytes(ctx, n):
    rng = ctx.rng("random_bytes")
    for _ in range(n):
        spec, _ = gen.rand_message(rng)
        k = rng.choice((0, 1, 2, 3, 4, 5, 8, 12, 20, 24, 40, 100, 300))
        r = rng.random()
        if r < 0.4:
            w = bytes(rng.randrange(256) for _ in range(k))
        elif r < 0.7:
            w = bytes(rng.choice(b"0123456789ABCDEFabcdef") for _ in range(k))
        else:
            w = rng.choice((b"0200", b"\x02\x00", "0200".encode("cp500"))) + bytes(rng.choice((0, 0, 0x40, 0x80, 0xFF, 0x30, 0x38, 0xF0, rng.randrange(256))) for _ in range(k))
        yield "wire", spec, w


def lenient_lengths(pre, le):
    """numbers a reader that forgets to check the digits might see in a prefix"""
    res = {0, int.from_bytes(pre, "little")}
    n = 0
    for b in pre:
        n = n * 100 + (b >> 4) * 10 + (b & 15)
    res.add(n)
    res.add(int(pre.hex().translate(str.maketrans("abcdef", "999999")), 10))
    res.add(int(pre.hex().translate(str.maketrans("abcdef", "000000")), 10))
    res.add(int("0" + pre.hex().strip("abcdef").split("a")[0].split("b")[0].split("c")[0].split("d")[0].split("e")[0].split("f")[0]))
    res.add(int.from_bytes(pre, "big"))
    if le not in ("b", "bcd"):
        n = 0
        for b in pre:
            n = n * 10 + (b & 15)
        res.add(n)
        try:
            t = pre.decode(le)
        except (UnicodeError, LookupError):
            t = pre.decode("latin-1")
        for base in (10, 16, 0):
            try:
                res.add(int(t, base))
            except ValueError:
                pass
        d = "".join(c for c in t if c in "0123456789")
        if d:
            res.add(int(d))
    return sorted(x for x in res if x >= 0)


def prefix_junk(ctx, full2=False, lenient=False):
    """every 1-byte prefix and (sampled or all) 2-byte prefixes, followed by plenty of data"""
    rng = ctx.rng("prefix_junk")
    head = b"0200" + b"4000000000000000"
    combos = [(de, unit, le, w) for de in ("b", "ascii", "latin-1") for unit in ("bytes", "nibbles") for le in ("b", "bcd", "ascii", "cp500", "latin-1", "utf-8", "cp037", "utf-16-le", "koi8-r") for w in (1, 2, 3)]
    for de, unit, le, w in ctx.mine(combos):
        fs = {"data_enc": de, "len_count": unit, "len_enc": le, "len_type": w, "max_len": 120, "desc": "F"}
        if unit == "nibbles" and de == "b":
            fs["left_pad"] = "0"
        spec, _ = one_field(fs, "")
        if w == 1:
            pres = [bytes([a]) for a in range(256)]
        elif w == 2:
            if full2:
                pres = [bytes([a, b]) for a in range(256) for b in range(256)]
            else:
                pres = [bytes([rng.randrange(256), rng.randrange(256)]) for _ in range(300)]
                hot = (0x00, 0x01, 0x09, 0x0A, 0x10, 0x1A, 0x20, 0x2B, 0x2D, 0x30, 0x31, 0x39, 0x3A, 0x4E, 0x5F, 0x60, 0x6D, 0x99, 0x9A, 0xA0, 0xF0, 0xF1, 0xF9, 0xFA, 0xFF)
                pres += [bytes(x) for x in itertools.product(hot, hot)]
        else:
            hot = (0x00, 0x01, 0x0A, 0x20, 0x2B, 0x2D, 0x30, 0x31, 0x5F, 0x4E, 0x60, 0x6D, 0x99, 0xF0, 0xF1)
            pres = [bytes(x) for x in itertools.product(hot, hot, hot)]
        for pre in pres:
            # exactly the data the prefix asks for when it is a number, else plenty
            try:
                model.read(head + pre, spec)
                need = b""
            except model.Reject as r:
                if r.kind == "short" and r.field == "2":
                    n = r.nums[1]
                    need = b"0" * (-(-n // 2) if unit == "nibbles" else n)
                    if unit == "nibbles" and n % 2 and de == "b":
                        need = b"\x01" + need[1:]
                else:
                    need = rng.choice((b"", b"1", b"1" * 120))
                    # and what careless readings of the prefix would ask for
                    for n in lenient_lengths(pre, le) if lenient else ():
                        if n <= 120:
                            yield "wire", spec, head + pre + (b"\x01" if de == "b" and unit == "nibbles" and n % 2 else b"0") * (n > 0) + b"0" * ((-(-n // 2) if unit == "nibbles" else n) - 1)
            yield "wire", spec, head + pre + need
