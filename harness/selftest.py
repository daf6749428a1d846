"""The reference model against messages worked out by hand (no code under test)."""

import gen
import golden
import model

D = {"data_enc": "ascii", "len_enc": "ascii", "len_type": 0, "max_len": 0, "desc": ""}


def fs(**k):
    return dict(D, **k)


def base(**over):
    s = {"h": fs(), "t": fs(max_len=4), "p": fs(max_len=8, data_enc="b"), "1": fs(max_len=8, data_enc="b")}
    s.update(over)
    return s


VECTORS = [
    # the documented example: 0200, pan, processing code under ASCII
    (base(**{"2": fs(len_type=2, max_len=19), "3": fs(max_len=6)}), {"t": "0200", "2": "123456", "3": "111111"}, b"0200" + bytes.fromhex("6000000000000000") + b"06123456" + b"111111"),
    # binary message type, text bitmap, binary field with odd nibbles and a right pad
    (base(t=fs(data_enc="b"), p=fs(data_enc="ascii"), **{"2": fs(data_enc="b", len_enc="bcd", len_type=1, max_len=10, len_count="nibbles", right_pad="F")}), {"t": "0210", "2": "12345"}, b"\x02\x10" + b"4000000000000000" + b"\x05\x12\x34\x5f"),
    # header, secondary bitmap, EBCDIC data with binary length
    (base(h=fs(max_len=3), **{"128": fs(data_enc="cp500", len_enc="b", len_type=2, max_len=300)}), {"h": "ABC", "t": "0800", "128": "12"}, b"ABC0800" + bytes.fromhex("8000000000000000" + "0000000000000001") + b"\x00\x02\xf1\xf2"),
    # tertiary bitmap is sent right behind the secondary one
    (base(**{"130": fs(max_len=1)}), {"t": "0800", "130": "x"}, b"0800" + bytes.fromhex("8000000000000000" + "8000000000000000" + "4000000000000000") + b"x"),
]

BAD_WIRES = [
    (0, b"0200" + bytes.fromhex("6000000000000000") + b"06123456" + b"11111", "3", 20),
    (0, b"0200" + bytes.fromhex("6000000000000000") + b"06123456" + b"1111112", None, None),
    (0, b"0200" + bytes.fromhex("6000000000000000") + b"0x123456" + b"111111", "2", 12),
]


def run():
    n = 0
    for spec, doc, wire in VECTORS:
        m = model.write(doc, spec)
        assert m.wire == wire, (m.wire, wire)
        r = model.read(wire, spec)
        assert r.wire == wire
        for k, v in doc.items():
            assert r.dec[k] == v, (k, r.dec)
        for i in range(len(wire)):
            try:
                model.read(wire[:i], spec)
            except model.Reject:
                n += 1
            else:
                raise AssertionError("truncation accepted")
        n += 2
    for i, wire, field, pos in BAD_WIRES:
        try:
            model.read(wire, VECTORS[i][0])
        except model.Reject as e:
            assert field is None or (e.field, e.pos) == (field, pos), e
            n += 1
        else:
            raise AssertionError("bad wire accepted")
    for table in (golden.DEFAULT, golden.DEFAULT_ASCII):
        assert len(golden.spec(table)) == 131
        n += 1
    assert gen.alphabet("ascii")
    return n
