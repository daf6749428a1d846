"""Reference model of the ISO8583 message format as pyiso8583 documents it.

Independent of the implementation: a cursor over bytes for reading and a list
of pieces for writing.  Used only as an oracle; never imported by the code
under test.

read(wire, spec)  -> Message            or raises Reject
write(doc, spec)  -> Message            or raises Reject
"""

BCD_DIGITS = set("0123456789")
HEX_DIGITS = set("0123456789abcdefABCDEF")


class Reject(Exception):
    """The model rejects the input.

    field  first element in wire order that is at fault
    pos    input index of the offending part (reading only)
    kind   cause
    nums   (actual, limit) for size faults, else None
    unit   "bytes"/"nibbles" for size faults
    parts  complete elements before the fault: [(key, value, len, data)]
    """

    def __init__(self, field, pos, kind, parts, nums=None, unit=None):
        Exception.__init__(self, f"{kind} field={field} pos={pos} nums={nums} unit={unit}")
        self.field, self.pos, self.kind = field, pos, kind
        self.parts, self.nums, self.unit = list(parts), nums, unit


class Message:
    __slots__ = ("parts", "wire", "present", "order")

    def __init__(self, parts, wire, present):
        # parts: list of [key, value, lenbytes, databytes] in wire order
        self.parts, self.wire, self.present = parts, wire, present

    @property
    def dec(self):
        return {k: v for k, v, _, _ in self.parts}

    @property
    def enc(self):
        return {k: {"len": l, "data": d} for k, _, l, d in self.parts}


# --------------------------------------------------------------------------
# helpers


def unit_of(fs):
    return "nibbles" if fs.get("len_count", "bytes") == "nibbles" else "bytes"


def pad_of(fs):
    """(side, digit) preferred when sending; None when there is no pad."""
    lp = fs.get("left_pad", "")[:1]
    if lp:
        return ("left", lp)
    rp = fs.get("right_pad", "")[:1]
    if rp:
        return ("right", rp)
    return None


def to_text(data, codec):
    """('ok', str) | ('unknown', None) | ('bad', None)"""
    try:
        return "ok", bytes(data).decode(codec)
    except LookupError:
        return "unknown", None
    except Exception:
        return "bad", None


def from_text(text, codec):
    if not isinstance(text, str):
        return "bad", None
    try:
        return "ok", text.encode(codec)
    except LookupError:
        return "unknown", None
    except Exception:
        return "bad", None


def hex_to_bytes(text):
    """hex string -> bytes, or None if it is not an even run of hex digits"""
    if len(text) % 2 or any(c not in HEX_DIGITS for c in text):
        return None
    return bytes(int(text[i : i + 2], 16) for i in range(0, len(text), 2))


def bits_on(raw8, base):
    v = int.from_bytes(raw8, "big")
    return [base + 64 - i for i in range(63, -1, -1) if (v >> i) & 1]


def bits_to_raw(numbers, base):
    v = 0
    for n in numbers:
        v |= 1 << (64 - (n - base))
    return v.to_bytes(8, "big")


def len_capacity(fs):
    """largest length a prefix can carry"""
    n, enc = fs["len_type"], fs["len_enc"]
    if enc == "b":
        return 256**n - 1
    if enc == "bcd":
        return 100**n - 1
    return 10**n - 1


# --------------------------------------------------------------------------
# reading


class _Reader:
    def __init__(self, wire, spec):
        self.w = bytes(wire)
        self.spec = spec
        self.at = 0
        self.parts = []

    def fail(self, field, pos, kind, nums=None, unit=None):
        raise Reject(field, pos, kind, self.parts, nums, unit)

    def take(self, n):
        chunk = self.w[self.at : self.at + n]
        self.at += len(chunk)
        return chunk

    def text(self, data, codec, field, pos):
        st, val = to_text(data, codec)
        if st == "unknown":
            self.fail(field, pos, "data-codec-unknown")
        if st == "bad":
            self.fail(field, pos, "data-undecodable")
        return val

    def mti(self):
        enc = self.spec["t"]["data_enc"]
        want = 2 if enc == "b" else 4
        start = self.at
        raw = self.take(want)
        if len(raw) < want:
            self.fail("t", start, "short", (len(raw), want), "bytes")
        val = raw.hex().upper() if enc == "b" else self.text(raw, enc, "t", start)
        self.parts.append(["t", val, b"", raw])

    def bitmap(self, key, base, extend=False):
        enc = self.spec[key]["data_enc"]
        want = 8 if enc == "b" else 16
        start = self.at
        raw = self.take(want)
        if len(raw) < want:
            if extend:
                # the partial dictionaries may hold the first half already
                self.fail(key, start, "short", (want + len(raw), 2 * want), "bytes")
            self.fail(key, start, "short", (len(raw), want), "bytes")
        if enc == "b":
            digits, bits = raw.hex().upper(), raw
        else:
            digits = self.text(raw, enc, key, start)
            bits = hex_to_bytes(digits)
            if bits is None:
                self.fail(key, start, "bitmap-nonhex")
        if extend:
            last = self.parts[-1]
            self.parts[-1] = [key, last[1] + digits, b"", last[3] + raw]
        else:
            self.parts.append([key, digits, b"", raw])
        return bits_on(bits, base)

    def element(self, key, fs):
        start = self.at
        width = fs["len_type"]
        unit = unit_of(fs)
        prefix = self.take(width)
        if len(prefix) < width:
            self.fail(key, start, "short-len", (len(prefix), width), "bytes")
        if width == 0:
            count = fs["max_len"]
        else:
            count = self.length(prefix, fs, key, start)
            if count > fs["max_len"]:
                self.fail(key, start, "over-max", (count, fs["max_len"]), unit)
        if count == 0:
            self.parts.append([key, "", prefix, b""])
            return
        nbytes = -(-count // 2) if unit == "nibbles" else count
        dstart = self.at
        data = self.take(nbytes)
        if len(data) < nbytes:
            have = len(data) * (2 if unit == "nibbles" else 1)
            self.fail(key, dstart, "short", (have, count), unit)
        odd = unit == "nibbles" and count % 2 == 1
        if fs["data_enc"] == "b":
            digits = "".join("%02X" % b for b in data)
            if odd:
                lp = fs.get("left_pad", "")[:1].upper()
                rp = fs.get("right_pad", "")[:1].upper()
                if lp and digits.startswith(lp):
                    digits = digits[1:]
                elif rp and digits.endswith(rp):
                    digits = digits[: len(digits) - 1]
                else:
                    self.fail(key, dstart, "odd-nibbles", (nbytes * 2, count), unit)
            val = digits
        else:
            if odd:
                self.fail(key, dstart, "odd-nibbles", (nbytes * 2, count), unit)
            val = self.text(data, fs["data_enc"], key, dstart)
        self.parts.append([key, val, prefix, data])

    def length(self, prefix, fs, key, start):
        enc = fs["len_enc"]
        if enc == "b":
            return sum(b << (8 * i) for i, b in enumerate(reversed(prefix)))
        if enc == "bcd":
            digits = "".join("%02x" % b for b in prefix)
            if any(c not in BCD_DIGITS for c in digits):
                self.fail(key, start, "len-bcd")
        else:
            st, digits = to_text(prefix, enc)
            if st == "unknown":
                self.fail(key, start, "len-codec-unknown")
            if st == "bad":
                self.fail(key, start, "len-undecodable")
            if not digits or any(c not in BCD_DIGITS for c in digits):
                self.fail(key, start, "len-nondigit")
        n = 0
        for c in digits:
            n = n * 10 + (ord(c) - 48)
        return n


def read(wire, spec):
    r = _Reader(wire, spec)
    if spec["h"]["max_len"] > 0:
        r.element("h", spec["h"])
    r.mti()
    on = r.bitmap("p", 0)
    last = "p"
    if 1 in on:
        on += r.bitmap("1", 64)
        last = "1"
        if 65 in on:
            on += r.bitmap("1", 128, extend=True)
    present = [n for n in on if n not in (1, 65)]
    for n in present:
        key = str(n)
        if key not in spec:
            r.fail(key, r.at, "undefined")
        r.element(key, spec[key])
        last = key
    if r.at != len(r.w):
        r.fail(last, r.at, "trailing")
    return Message(r.parts, r.w, present)


# --------------------------------------------------------------------------
# writing


def _size_unit_element(value, key, fs, parts, unit):
    """-> (data, count in unit); raises Reject"""

    def fail(kind, nums=None):
        raise Reject(key, None, kind, parts, nums, unit)

    if fs["data_enc"] == "b":
        if not isinstance(value, str):
            fail("bad-value")
        digits = value
        if unit == "nibbles" and len(value) % 2 == 1:
            pad = pad_of(fs)
            if pad is None:
                fail("odd-nibbles-nopad")
            digits = pad[1] + value if pad[0] == "left" else value + pad[1]
        if len(digits) % 2 == 1:
            fail("odd-hex")
        data = hex_to_bytes(digits)
        if data is None:
            fail("nonhex")
        return data, (len(value) if unit == "nibbles" else len(data))
    st, data = from_text(value, fs["data_enc"])
    if st == "unknown":
        fail("data-codec-unknown")
    if st == "bad":
        fail("data-unencodable")
    return data, (2 * len(data) if unit == "nibbles" else len(data))


def _prefix(count, fs, key, parts):
    n, enc = fs["len_type"], fs["len_enc"]

    def fail(kind):
        raise Reject(key, None, kind, parts)

    if enc == "b":
        if count > 256**n - 1:
            fail("len-nofit")
        return bytes((count >> (8 * i)) & 255 for i in range(n - 1, -1, -1))
    if enc == "bcd":
        if count > 100**n - 1:
            fail("len-nofit")
        ds = str(count).rjust(2 * n, "0")
        return bytes(16 * int(ds[i]) + int(ds[i + 1]) for i in range(0, 2 * n, 2))
    st, raw = from_text(str(count).rjust(n, "0"), enc)
    if st == "unknown":
        fail("len-codec-unknown")
    if len(raw) > n:
        fail("len-nofit")
    return raw


def write_element(value, key, fs, parts=()):
    unit = unit_of(fs)
    data, count = _size_unit_element(value, key, fs, parts, unit)
    if fs["len_type"] == 0:
        if count != fs["max_len"]:
            raise Reject(key, None, "size", parts, (count, fs["max_len"]), unit)
        return b"", data
    if count > fs["max_len"]:
        raise Reject(key, None, "over-max", parts, (count, fs["max_len"]), unit)
    return _prefix(count, fs, key, parts), data


CANON = {str(n): n for n in range(1, 193)}


def write(doc, spec):
    """The document is not modified; the dictionary entries encode is documented
    to set are in Message.dec ('p', '1')."""
    parts = []
    out = bytearray()

    def add(key, val, pre, data):
        parts.append([key, val, pre, data])
        out.extend(pre + data)

    if spec["h"]["max_len"] > 0:
        if "h" not in doc:
            raise Reject("h", None, "missing", parts)
        pre, data = write_element(doc["h"], "h", spec["h"], parts)
        add("h", doc["h"], pre, data)

    if "t" not in doc:
        raise Reject("t", None, "missing", parts)
    tfs = {"data_enc": spec["t"]["data_enc"]}
    want = 2 if tfs["data_enc"] == "b" else 4
    data, count = _size_unit_element(doc["t"], "t", tfs, parts, "bytes")
    if count != want:
        raise Reject("t", None, "size", parts, (count, want), "bytes")
    add("t", doc["t"], b"", data)

    numbers = []
    for k in doc:
        if not isinstance(k, str):
            raise Reject("p", None, "keys", parts)
    odd_keys = [k for k in doc if k.isnumeric() and k not in CANON]
    if odd_keys:
        raise Reject("p", None, "keys", parts)
    numbers = sorted(CANON[k] for k in doc if k in CANON and k not in ("1", "65"))

    prim = [n for n in numbers if n <= 64]
    sec = [n for n in numbers if 65 < n <= 128]
    ter = [n for n in numbers if n > 128]
    if ter:
        sec = [65] + sec
    if sec:
        prim = [1] + prim

    def bm(key, nums, base):
        raw = bits_to_raw(nums, base)
        digits = raw.hex().upper()
        if spec[key]["data_enc"] == "b":
            return digits, raw
        st, enc = from_text(digits, spec[key]["data_enc"])
        if st != "ok":
            raise Reject(key, None, "data-codec-unknown" if st == "unknown" else "data-unencodable", parts)
        return digits, enc

    digits, raw = bm("p", prim, 0)
    add("p", digits, b"", raw)
    if sec:
        digits, raw = bm("1", sec, 64)
        if ter:
            d2, r2 = bm("1", ter, 128)
            digits, raw = digits + d2, raw + r2
        add("1", digits, b"", raw)

    for n in numbers:
        key = str(n)
        if key not in spec:
            raise Reject(key, None, "undefined", parts)
        pre, data = write_element(doc[key], key, spec[key], parts)
        add(key, doc[key], pre, data)
    return Message(parts, bytes(out), numbers)


def canonical_value(value, fs, key=None):
    """what decode returns for a value encode accepted"""
    if fs["data_enc"] == "b":
        return value.upper()
    return value
