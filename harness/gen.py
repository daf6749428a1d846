"""Workload generators: specifications, documents, wire messages, faults.

Everything is a pure function of the random.Random passed in (or fully
enumerated), so a case replays from the JSON written next to a violation.
"""

import itertools

import model

HEXU = "0123456789ABCDEF"
TEXT1 = ["ascii", "latin-1", "cp500", "cp037", "cp1140", "cp1252", "koi8-r", "cp437", "iso8859_15"]
TEXTM = ["utf-8", "shift_jis", "utf-16-le", "gb18030", "utf-16-be"]
TEXT = TEXT1 + TEXTM
LENTEXT = ["ascii", "cp500", "latin-1", "utf-8", "cp037"]
LENENC = ["b", "bcd"] + LENTEXT

_alpha = {}


def alphabet(codec):
    """[(char, nbytes)] of characters that survive encode+decode on their own"""
    a = _alpha.get(codec)
    if a is not None:
        return a
    cands = [chr(i) for i in range(0x180)]
    cands += list("€₤Ωжш日本語漢字かなｱ｡ÿ\u2028\u200b\ufeff\uffff\U0001f4b3\U00010348٣２\u0300\u0301\u0308\u030a\u0327\u212b\u2126\ufb01\u1e9e\uff21\u1100\u1161\uac00\u0915\u093c\u3099\u200d\u202e\ufe0f\U0001d7d8")
    a = []
    for c in cands:
        try:
            raw = c.encode(codec)
            if raw.decode(codec) == c:
                a.append((c, len(raw)))
        except Exception:
            pass
    # only characters that also survive in the middle of a text
    good = []
    for c, n in a:
        s = "A" + c + "z" + c + c
        try:
            if s.encode(codec).decode(codec) == s and len(s.encode(codec)) == 3 * n + len("A".encode(codec)) + len("z".encode(codec)):
                good.append((c, n))
        except Exception:
            pass
    _alpha[codec] = good
    return good


_bad = {}


def bad_chars(codec):
    """characters the codec cannot represent (lone surrogates for those that can do all)"""
    b = _bad.get(codec)
    if b is None:
        b = ["\udc80", "\udce9", "\ud800"]
        for c in "\x80\x85\xa0\xadé£ÿ\u0152€\u2019\u2026\u2028Ωж日ｱ\uff10\ufeff\ufffd\U0001f4b3":
            try:
                c.encode(codec)
            except LookupError:
                break
            except Exception:
                b.append(c)
        _bad[codec] = b
    return b


_by_size = {}


def chars_of(codec, n):
    d = _by_size.get(codec)
    if d is None:
        d = {}
        for c, k in alphabet(codec):
            d.setdefault(k, []).append(c)
        _by_size[codec] = d
    return d.get(n, ())


STYLES = ("digits", "alpha", "any", "edge", "same", "quote")
EDGE = " 0\t\n\r\x00'\"\\\x7f"


def text_bytes(codec, nbytes, rng, style=None):
    """text whose encoding is exactly nbytes long, or None if impossible"""
    if nbytes == 0:
        return ""
    if style is None:
        style = rng.choice(STYLES)
    sizes = sorted(k for k in (1, 2, 3, 4) if chars_of(codec, k))
    if not sizes:
        return None
    one = chars_of(codec, sizes[0])
    unit = sizes[0]
    if nbytes % unit:
        return None
    if style == "digits" or style == "alpha" or style == "same" or style == "quote":
        pool = {
            "digits": "0123456789",
            "alpha": "ABCXYZabcxyz0189 -/=",
            "same": rng.choice("0 9AFf "),
            "quote": "'\"\\a",
        }[style]
        pool = [c for c in pool if c in one] or list(one)
        n = nbytes // unit
        if n > 64:
            blk = "".join(rng.choice(pool) for _ in range(37))
            return (blk * (n // 37 + 1))[:n]
        return "".join(rng.choice(pool) for _ in range(n))
    # any / edge: mixed sizes
    out, left = [], nbytes
    if nbytes > 256:
        blk = text_bytes(codec, 60, rng, "any")
        k = nbytes // 60
        rest = text_bytes(codec, nbytes - 60 * k, rng, "any")
        return blk * k + rest
    while left:
        opts = [s for s in sizes if s <= left and (left - s) % unit == 0]
        s = rng.choice(opts)
        out.append(rng.choice(chars_of(codec, s)))
        left -= s
    if style == "edge":
        e = [c for c in EDGE if c in one]
        if e:
            if len(out[0].encode(codec)) == unit:
                out[0] = rng.choice(e)
            if len(out[-1].encode(codec)) == unit:
                out[-1] = rng.choice(e)
    return "".join(out)


HSTYLES = ("rand", "lower", "mixed", "zeros", "efs", "bcd", "pads", "lead0")


def hex_digits(n, rng, style=None, pad=None):
    if n == 0:
        return ""
    if style is None:
        style = rng.choice(HSTYLES)
    if style == "zeros":
        return "0" * n
    if style == "efs":
        return "F" * n
    pool = "0123456789" if style == "bcd" else HEXU
    if n > 64:
        blk = "".join(rng.choice(pool) for _ in range(61))
        s = (blk * (n // 61 + 1))[:n]
    else:
        s = "".join(rng.choice(pool) for _ in range(n))
    if style == "lower":
        s = s.lower()
    elif style == "mixed":
        s = "".join(c.lower() if rng.random() < 0.5 else c for c in s)
    elif style == "pads" and pad:
        s = (pad + s)[: n - 1] + pad if n > 1 else pad
        s = s[:n]
    elif style == "lead0":
        s = ("00" + s)[:n]
    return s


PADS = (
    {},
    {"left_pad": "0"},
    {"right_pad": "0"},
    {"left_pad": "F"},
    {"right_pad": "F"},
    {"left_pad": "0", "right_pad": "F"},
    {"left_pad": "A", "right_pad": "A"},
    {"left_pad": "", "right_pad": "9"},
    {"left_pad": "f"},
    {"right_pad": "d"},
    {"left_pad": "01"},
    {"right_pad": "F1"},
    {"left_pad": "", "right_pad": ""},
)


def configs(data=("b", "ascii", "cp500", "latin-1", "utf-8"), lens=("b", "bcd", "ascii", "cp500"), widths=(1, 2, 3, 4), pads=PADS):
    """every field configuration, without max_len"""
    for de in data:
        for unit in (None, "bytes", "nibbles"):
            base = {"data_enc": de}
            if unit:
                base["len_count"] = unit
            pl = pads if unit == "nibbles" and de == "b" else ({}, {"left_pad": "0", "right_pad": "F"}) if unit != "nibbles" else ({},)
            for pad in pl:
                yield dict(base, len_enc="ascii", len_type=0, **pad)
                for le, w in itertools.product(lens, widths):
                    yield dict(base, len_enc=le, len_type=w, **pad)


def value_for(fs, count, rng, style=None):
    """value whose size is `count` in fs's unit; None if there is none"""
    unit = model.unit_of(fs)
    if fs["data_enc"] == "b":
        pad = model.pad_of(fs)
        if unit == "nibbles":
            if count % 2 and pad is None:
                return None
            return hex_digits(count, rng, style, (pad or (0, "0"))[1])
        return hex_digits(2 * count, rng, style, "0")
    if unit == "nibbles":
        if count % 2:
            return None
        count //= 2
    return text_bytes(fs["data_enc"], count, rng, style)


BASE_T = ("ascii", "b", "cp500", "latin-1", "utf-8", "cp037", "cp1252", "gb18030", "koi8-r")
BASE_P = ("b", "ascii", "cp500", "latin-1", "utf-8", "cp037", "cp1252", "shift_jis")


_base_n = 0


def base_spec(t="ascii", p="ascii", s="ascii", h=None):
    """the mandatory fields; every third one carries pad attributes and an
    explicit len_count, which mean nothing for them"""
    global _base_n
    spec = {
        "h": h or {"data_enc": "ascii", "len_enc": "ascii", "len_type": 0, "max_len": 0, "desc": "Message Header"},
        "t": {"data_enc": t, "len_enc": "ascii", "len_type": 0, "max_len": 2 if t == "b" else 4, "desc": "Message Type"},
        "p": {"data_enc": p, "len_enc": "ascii", "len_type": 0, "max_len": 8 if p == "b" else 16, "desc": "Bitmap, Primary"},
        "1": {"data_enc": s, "len_enc": "ascii", "len_type": 0, "max_len": 8 if s == "b" else 16, "desc": "Bitmap, Secondary"},
    }
    _base_n += 1
    if _base_n % 3 == 0:
        k = _base_n // 3
        spec[("t", "p", "1")[k % 3]].update(PADS[k % len(PADS)])
        if k % 2:
            spec[("p", "1", "t")[k % 3]]["len_count"] = "bytes"
    return spec


def mti(t, rng):
    if t == "b":
        return rng.choice(("0200", "0210", "1FAD", "abcd", "FFFF", "0000", "%04d" % rng.randrange(10000), "%04x" % rng.randrange(65536)))
    return text_bytes(t, 4, rng, "digits") if rng.random() < 0.5 else text_bytes(t, 4, rng)


SMALL_COUNTS = (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 15, 16, 17)
EDGE_COUNTS = (0, 1, 2, 3, 8, 9, 10, 11, 15, 16, 17, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 255, 256, 257, 511, 512, 998, 999, 1000, 1001)
BIG_COUNTS = (4095, 4096, 9999, 10000, 10001, 32767, 32768, 65535, 65536)


def rand_fs(rng, small=True, data=None):
    """random field specification with max_len, plus a valid count"""
    de = data or rng.choice(("b", "b", "ascii", "ascii", "cp500", "utf-8", rng.choice(TEXT)))
    fs = {"data_enc": de, "len_enc": rng.choice(LENENC), "len_type": rng.choice((0, 0, 0, 1, 1, 1, 2, 2, 2, 3, 3, 4, 5, 6, 8)), "desc": rng.choice(("Field", "", "A rather long description of a field, really", "dé'sc"))}
    nib = rng.random()
    if nib < 0.35:
        fs["len_count"] = "nibbles"
    elif nib < 0.5:
        fs["len_count"] = "bytes"
    if rng.random() < (0.85 if nib < 0.35 and de == "b" else 0.1):
        fs.update(rng.choice(PADS))
    step = 1
    unit = model.unit_of(fs)
    if unit == "nibbles" and (de != "b" or model.pad_of(fs) is None):
        step = 2
    if de in ("utf-16-le", "utf-16-be"):
        step *= 2
    cap = model.len_capacity(fs) if fs["len_type"] else 10**6
    r = rng.random()
    if r < (0.9 if small else 0.45):
        n = rng.choice(SMALL_COUNTS) if r < 0.6 else rng.randrange(0, 41)
    elif r < (0.97 if small else 0.75):
        n = rng.choice(EDGE_COUNTS)
    elif r < 0.9985:
        n = rng.randrange(0, 1200)
    else:
        n = rng.choice(BIG_COUNTS)
    n -= n % step
    while n > cap:
        n //= 2
        n -= n % step
    if fs["len_type"] == 0:
        fs["max_len"] = n
    else:
        fs["max_len"] = rng.choice((n, n, n + 1, max(n, 99), max(n, 999), max(n, min(cap, 10**6))))
    if rng.random() < 0.1:
        del fs["desc"]
    return fs, n


def rand_header(rng):
    if rng.random() < 0.6:
        h = {"data_enc": rng.choice(("ascii", "b", "nonsense")), "len_enc": "ascii", "len_type": rng.choice((0, 2)), "max_len": rng.choice((0, 0, -1)), "desc": "Message Header"}
        return h, None
    while True:
        fs, n = rand_fs(rng)
        if fs["max_len"] > 0:
            fs.setdefault("desc", "Header")
            return fs, n


def field_set(rng):
    """a set of field numbers 2..192 without 65"""
    r = rng.random()
    if r < 0.2:
        s = {rng.randrange(2, 193)}
    elif r < 0.35:
        s = {n for n in (2, 8, 9, 63, 64, 66, 67, 127, 128, 129, 130, 191, 192) if rng.random() < 0.4}
    elif r < 0.7:
        lo, hi = rng.choice(((2, 64), (2, 128), (66, 128), (129, 192), (2, 192)))
        s = {rng.randrange(lo, hi + 1) for _ in range(rng.choice((1, 2, 3, 5, 8)))}
    elif r < 0.96:
        lo, hi = rng.choice(((2, 64), (2, 128), (66, 128), (129, 192), (2, 192)))
        s = {rng.randrange(lo, hi + 1) for _ in range(rng.choice((5, 10, 20)))}
    else:
        s = {n for n in range(2, 193) if rng.random() < rng.choice((0.3, 0.9, 1.1))}
    s.discard(65)
    return s


def rand_message(rng, small=True, fields=None, header=True):
    """(spec, doc) that encode must accept"""
    t, p, s = rng.choice(BASE_T), rng.choice(BASE_P), rng.choice(BASE_P)
    if header:
        h, hn = rand_header(rng)
    else:
        h, hn = None, None
    spec = base_spec(t, p, s, h)
    doc = {}
    if hn is not None:
        v = value_for(h, hn, rng)
        if v is None:
            h["data_enc"], v = "ascii", "x" * (h["max_len"] if h["len_type"] == 0 else hn)
            h.pop("len_count", None)
        doc["h"] = v
    doc["t"] = mti(t, rng)
    nums = list(field_set(rng) if fields is None else fields)
    if rng.random() < 0.7:
        nums.sort()
    else:
        rng.shuffle(nums)
    pool = None
    if len(nums) > 12:
        pool = [rand_fs(rng, small) for _ in range(10)]
    for n in nums:
        fs, c = rng.choice(pool) if pool else rand_fs(rng, small)
        v = value_for(fs, c, rng)
        if v is None:
            fs = {"data_enc": "ascii", "len_enc": "ascii", "len_type": 0, "max_len": 3, "desc": "x"}
            v = "%03d" % n
        spec[str(n)] = dict(fs)
        doc[str(n)] = v
    return spec, doc


def simple_fs(n, kind=0):
    """tiny distinct element for bitmap-oriented workloads"""
    if kind == 0:
        return {"data_enc": "ascii", "len_enc": "ascii", "len_type": 0, "max_len": 3, "desc": "F%d" % n}
    if kind == 1:
        return {"data_enc": "b", "len_enc": "bcd", "len_type": 1, "max_len": 2, "desc": "F%d" % n}
    return {"data_enc": "cp500", "len_enc": "cp500", "len_type": 2, "max_len": 9, "desc": "F%d" % n}


def simple_val(n, kind=0):
    return "%03d" % n if kind != 1 else "%04d" % n


def bitmap_message(nums, t="ascii", p="ascii", s="ascii", kind=0):
    spec = base_spec(t, p, s)
    doc = {"t": "0200"}
    for n in nums:
        spec[str(n)] = simple_fs(n, kind)
        doc[str(n)] = simple_val(n, kind)
    return spec, doc


BND = (2, 8, 9, 63, 64, 66, 127, 128, 129, 191, 192)


def bitmap_sets(rng, npairs=3000, nrand=1500):
    """field sets: all singles, all subsets of the boundary fields, pairs, densities"""
    for n in range(2, 193):
        if n != 65:
            yield (n,)
    yield ()
    for r in range(2, len(BND) + 1):
        for c in itertools.combinations(BND, r):
            yield c
    allf = [n for n in range(2, 193) if n != 65]
    yield tuple(allf)
    for n in allf:
        if rng.random() < 0.5:
            yield tuple(x for x in allf if x != n)
    for _ in range(npairs):
        yield tuple(sorted(rng.sample(allf, 2)))
    for _ in range(nrand):
        d = rng.choice((0.02, 0.05, 0.1, 0.3, 0.5, 0.7, 0.95))
        lo, hi = rng.choice(((2, 64), (2, 128), (66, 128), (129, 192), (66, 192), (2, 192)))
        yield tuple(n for n in allf if lo <= n <= hi and rng.random() < d)


def bad_count(fs, rng):
    """a count the specification does not allow"""
    m = fs["max_len"]
    opts = [m + 1, m + 2, m * 2 + 1, m + 100]
    if fs["len_type"] == 0:
        opts += [c for c in (m - 1, m - 2, 0, m // 2) if 0 <= c != m]
    return rng.choice(opts)


FAULTS = ("size", "size", "charset", "nonhex", "oddhex", "undefined", "codec", "lencodec", "nofit", "missing-t", "missing-h", "t-size", "t-bad", "key", "keys")


def break_doc(spec, doc, rng, kind=None, target=None):
    """apply one fault in place; returns (kind, field) or None when not applicable"""
    kind = kind or rng.choice(FAULTS)
    fields = [k for k in doc if k.isdigit() and k not in ("1", "65") and k in spec]
    if "h" in doc and spec["h"]["max_len"] > 0:
        fields.append("h")
    if kind == "missing-t":
        doc.pop("t", None)
        return kind, "t"
    if kind == "missing-h":
        if spec["h"]["max_len"] <= 0:
            return None
        doc.pop("h", None)
        return kind, "h"
    if kind == "t-size":
        if spec["t"]["data_enc"] == "b":
            doc["t"] = rng.choice(("", "02", "020000", "02000000", "020"))
        else:
            doc["t"] = rng.choice(("", "020", "02000", "0", "02000200", "020 0"))
        return kind, "t"
    if kind == "t-bad":
        e = spec["t"]["data_enc"]
        if e == "b":
            doc["t"] = rng.choice(("02x0", "02 0", "020g", "0\u0662" + "00", "\uff10200", "+200", "0x20", "2_00", "020\n"))
        else:
            i, bad = rng.randrange(4), rng.choice(bad_chars(e))
            doc["t"] = "0200"[:i] + bad + "0200"[i + rng.choice((1, 1, 0)) :]
        return kind, "t"
    if kind == "key":
        k = rng.choice(("0", "193", "194", "1000", "02", "002", "0192", "01", "065", "00", "\u00b2", "\u0662", "\uff12", "\u2167", "\u4e03", "\u00bd", "9" * 30))
        doc[k] = rng.choice(("x", "00", ""))
        return kind, "p"
    if kind == "keys":
        pick = rng.randrange(3)
        for _ in range(rng.choice((2, 3, 5, 12, 30))):
            if pick == 0:
                doc[str(rng.randrange(193, 2000))] = "x"
            elif pick == 1:
                doc["0%d" % rng.randrange(193)] = "x"
            else:
                doc[rng.choice(("0", str(rng.randrange(193, 300)), "0%d" % rng.randrange(193), "\u0662%d" % rng.randrange(9)))] = "x"
        return kind, "p"
    if not fields:
        return None
    k = target or rng.choice(fields)
    fs = spec[k] = dict(spec[k])
    if kind == "size":
        v = None
        for _ in range(4):
            v = value_for(fs, bad_count(fs, rng), rng)
            if v is not None:
                break
        if v is None:
            return None
        doc[k] = v
    elif kind == "charset":
        if fs["data_enc"] == "b":
            return None
        i = rng.randrange(len(doc[k]) + 1)
        bad = rng.choice(bad_chars(fs["data_enc"]))
        doc[k] = doc[k][:i] + bad + doc[k][i + rng.choice((1, 1, 1, 0, 2)) :]
    elif kind == "nonhex":
        if fs["data_enc"] != "b" or not doc[k]:
            return None
        i = rng.randrange(len(doc[k]))
        doc[k] = doc[k][:i] + rng.choice("gG xz-_+'é\n٣") + doc[k][i + 1 :]
    elif kind == "oddhex":
        if fs["data_enc"] != "b":
            return None
        doc[k] = doc[k][:-1] if doc[k] and rng.random() < 0.5 else doc[k] + "0"
    elif kind == "undefined":
        if k == "h":
            return None
        del spec[k]
    elif kind == "codec":
        fs["data_enc"] = rng.choice(("no_such_codec", "hex", "rot13", "B", "a\x00b"))
    elif kind == "lencodec":
        if fs["len_type"] == 0:
            return None
        fs["len_enc"] = rng.choice(("no_such_codec", "hex", "B", "BCD"))
    elif kind == "nofit":
        if fs["len_type"] == 0:
            return None
        fs["len_type"] = 1
        cap = model.len_capacity(fs)
        fs["max_len"] = cap + 50
        v = value_for(fs, cap + rng.choice((1, 2, 3, 4)), rng) or value_for(fs, cap + 1 + (cap + 1) % 2, rng)
        if v is None:
            return None
        doc[k] = v
    return kind, k


# --------------------------------------------------------------------------
# wire mutations


def truncations(wire):
    for i in range(len(wire)):
        yield wire[:i]


def byte_edits(wire, rng, per_pos=1):
    interesting = (0x00, 0x20, 0x2B, 0x2D, 0x5F, 0x30, 0x31, 0x39, 0x3A, 0x40, 0x41, 0x46, 0x47, 0x61, 0x66, 0x0A, 0x7F, 0x80, 0x99, 0x9A, 0xA0, 0xF0, 0xF9, 0xFF)
    for i in range(len(wire)):
        for _ in range(per_pos):
            b = rng.choice(interesting) if rng.random() < 0.7 else rng.randrange(256)
            op = rng.randrange(4)
            if op == 0:
                yield wire[:i] + bytes([b]) + wire[i + 1 :]
            elif op == 1:
                yield wire[:i] + bytes([b]) + wire[i:]
            elif op == 2:
                yield wire[:i] + wire[i + 1 :]
            else:
                yield wire[:i] + bytes([wire[i] ^ (1 << rng.randrange(8))]) + wire[i + 1 :]


TRAILERS = (b"\x00", b" ", b"\n", b"\r\n", b"0", b"\xff", b"\x03", b"00", b"extra", b"\x00" * 8)


def trailing(wire, rng):
    yield wire + rng.choice(TRAILERS)
    if rng.random() < 0.5:
        n = rng.choice((2, 2, 3, 4, 5, 7, 8, 8, 12, 16, 20, 32, 64))
        yield wire + rng.choice((bytes([rng.choice((0, 0x20, 0x40, 0xFF, 0x0A, 0x30, rng.randrange(256)))]) * n, bytes(rng.randrange(256) for _ in range(n)), wire[:n], wire[-n:], wire))
    yield wire + bytes([rng.randrange(256)])


def splice(wire, rng):
    if not wire:
        return b"\x00"
    i, j = sorted((rng.randrange(len(wire) + 1), rng.randrange(len(wire) + 1)))
    r = rng.randrange(4)
    if r == 0:
        return wire[:i] + wire[j:]
    if r == 1:
        return wire[:j] + wire[i:]
    if r == 2:
        return wire[:i] + bytes(rng.randrange(256) for _ in range(j - i)) + wire[j:]
    return wire[:i] + wire[i:j][::-1] + wire[j:]


def bitmap_span(spec, wire, msg):
    """(start, end) of the primary bitmap in wire, from the model's parts"""
    at = 0
    for k, _, l, d in msg.parts:
        if k == "p":
            return at, at + len(d)
        at += len(l) + len(d)
    return None


def flip_bitmap(spec, wire, msg, rng):
    """turn one random bit of one bitmap on or off"""
    at, spots = 0, []
    for k, _, l, d in msg.parts:
        if k in ("p", "1"):
            one = 8 if spec[k]["data_enc"] == "b" else 16
            spots += [(at + i, k) for i in range(0, len(d), one)]
        at += len(l) + len(d)
    if not spots:
        return wire
    start, k = rng.choice(spots)
    bit = 1 if rng.random() < 0.3 else rng.randrange(1, 65)
    return tweak_bit(wire, start, spec[k]["data_enc"], bit)


def tweak_bit(wire, at, enc, bit):
    bit -= 1
    if enc == "b":
        i = at + bit // 8
        return wire[:i] + bytes([wire[i] ^ (0x80 >> (bit % 8))]) + wire[i + 1 :]
    i = at + bit // 4
    d = int(wire[i : i + 1].decode(enc), 16) ^ (8 >> (bit % 4))
    return wire[:i] + ("%X" % d).encode(enc) + wire[i + 1 :]


def lower_bitmap(spec, wire, msg, rng):
    """same message with lower/mixed case text bitmap digits"""
    at, out = 0, wire
    for k, _, l, d in msg.parts:
        if k in ("p", "1") and spec[k]["data_enc"] != "b":
            txt = d.decode(spec[k]["data_enc"])
            new = "".join(c.lower() if rng.random() < 0.7 else c for c in txt).encode(spec[k]["data_enc"])
            out = out[:at] + new + out[at + len(d) :]
        at += len(l) + len(d)
    return out


def superfluous_bitmaps(spec, doc, rng):
    """wire of doc with an (unneeded) secondary and/or tertiary bitmap; doc's
    fields must be writable.  Returns (wire, level)."""
    msg = model.write(doc, spec)
    nums = list(msg.present)
    ter_needed = any(n > 128 for n in nums)
    sec_needed = any(n > 64 for n in nums)
    level = rng.choice((2, 3))
    if level == 2 and sec_needed:
        level = 3
    if level == 3 and ter_needed:
        return msg.wire, 0
    prim = [1] + [n for n in nums if n <= 64]
    sec = [n for n in nums if 64 < n <= 128]
    if level == 3:
        sec = [65] + sec
    out = b""

    def enc(key, raw):
        e = spec[key]["data_enc"]
        return raw if e == "b" else raw.hex().upper().encode(e)

    for k, v, l, d in msg.parts:
        if k == "1":
            continue
        if k == "p":
            out += enc("p", model.bits_to_raw(prim, 0)) + enc("1", model.bits_to_raw(sec, 64))
            if level == 3:
                out += enc("1", model.bits_to_raw([], 128))
        else:
            out += l + d
    return out, level


def element_offsets(msg):
    """[(key, start, data_start, end)]"""
    at, res = 0, []
    for k, _, l, d in msg.parts:
        res.append((k, at, at + len(l), at + len(l) + len(d)))
        at += len(l) + len(d)
    return res


def tamper_length(spec, wire, msg, rng):
    """replace a length prefix by another number or by junk"""
    els = [(k, a, b, e) for k, a, b, e in element_offsets(msg) if b > a]
    if not els:
        return None
    k, a, b, e = rng.choice(els)
    fs = spec[k]
    w = b - a
    r = rng.random()
    if r < 0.45:
        junk = [b"\x00" * w, b"\xff" * w, b" " * w, b"-1"[:w], b"+1"[:w], b" 1"[:w], b"1 "[:w], b"1_1"[:w].ljust(w, b"0"), b"0x1"[:w], b"\x99" * w, b"\xa0" * w, b"9" * w, b"1." + b"0" * w, b"1e1"[:w], b"\xf9" * w, b"\x0a" * w, b"-2"[:w], "٣".encode()[:w]]
        for code in ("cp500", "cp037"):
            junk += [t.ljust(w)[:w].encode(code) for t in ("-1", "+1", " 1", "1_0", "-2")]
        return wire[:a] + rng.choice(junk)[:w].ljust(w, b"0") + wire[b:]
    n = rng.choice((0, 1, fs["max_len"], fs["max_len"] + 1, fs["max_len"] - 1, e - b, e - b + 1, 2 * (e - b), 2 * (e - b) + 1, 2 * (e - b) - 1, rng.randrange(0, 300)))
    n = max(0, min(n, model.len_capacity(fs)))
    try:
        pre = model._prefix(n, fs, k, [])
    except model.Reject:
        return None
    return wire[:a] + pre + wire[b:]


def rearrange(msg, rng):
    """the message with one whole part dropped, doubled, swapped or moved"""
    parts = [[l, d] for _, _, l, d in msg.parts]
    i, j = rng.randrange(len(parts)), rng.randrange(len(parts))
    r = rng.randrange(7)
    if r == 0:
        del parts[rng.choice((0, 0, i))]
    elif r == 1:
        parts.insert(i, list(parts[i]))
    elif r == 2:
        parts[i], parts[j] = parts[j], parts[i]
    elif r == 3:
        parts[i][0] = b""
    elif r == 4:
        parts[i][1] = b""
    elif r == 5:
        parts[i][1] = parts[j][1]
    else:
        parts.append(parts.pop(rng.choice((0, i))))
    return b"".join(l + d for l, d in parts)


def mutate(spec, wire, msg, rng):
    """one random mutation"""
    r = rng.random()
    if 0.73 <= r < 0.79 and msg.parts:
        return rearrange(msg, rng)
    if r < 0.15 and wire:
        return wire[: rng.randrange(len(wire))]
    if r < 0.25:
        return wire + rng.choice(TRAILERS)
    if r < 0.45:
        w = tamper_length(spec, wire, msg, rng)
        if w is not None:
            return w
    if r < 0.6:
        return flip_bitmap(spec, wire, msg, rng)
    if r < 0.68:
        return splice(wire, rng)
    if r < 0.73:
        return lower_bitmap(spec, wire, msg, rng)
    if wire:
        i = rng.randrange(len(wire))
        b = rng.choice((0x00, 0x20, 0x2B, 0x2D, 0x5F, 0x30, 0x39, 0x47, 0x66, 0x0A, 0x80, 0x9A, 0xF0, 0xFF, rng.randrange(256)))
        op = rng.randrange(3)
        if op == 0:
            return wire[:i] + bytes([b]) + wire[i + 1 :]
        if op == 1:
            return wire[:i] + bytes([b]) + wire[i:]
        return wire[:i] + wire[i + 1 :]
    return wire + b"\x00"
