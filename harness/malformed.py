"""generation of malformed npy data and archives"""
import numpy as np, io, zipfile, struct
from pyprop import st
from arrays import arrays, M

small = arrays(types=["f4", "f4", "f8", "S3", "S1", "i8", "b1", "u1", "c8"], limit=400, endians=("", ">"))
number = st.one_of(st.integers(0, 12).map(str), st.sampled_from(["-1", "-4", "0", "00003", "+3", "3L", "1e3", "0x10", "", " ", "2147483647", "2147483648", "4294967296", "4294967297", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616",
                    "4611686018427387904", "6148914691236517206", "99999999999999999999999999", "1" * 60, "3.5", "None", "'3'", "(2)", "-9223372036854775808", "1000000", "30000000"]))
junk = st.one_of(st.text(st.sampled_from("'{}(),: TrueFals<>|f480S \n\t\x00\\%snd"), max_size=12), st.binary(max_size=6).map(lambda b: b.decode("latin-1")))


@st.composite
def header(draw):
    """pieces of a header dictionary, most of them sound"""
    odd = draw(st.integers(0, 9))
    h = {}
    h["descr"] = draw(st.sampled_from(["<f4", "|S5", "<i8", "|b1", ">f4", "<f8", "|u1"])) if odd != 1 else draw(st.one_of(
        st.tuples(st.sampled_from(["<", ">", "|", "=", "", "x", "\x00", "<<"]), st.sampled_from(["f", "S", "i", "U", "O", "V", "M", "", "\x00", "%", "\xff"]), number).map("".join), junk))
    h["fortran"] = draw(st.sampled_from(["True", "False"])) if odd != 2 else draw(st.one_of(st.sampled_from(["true", "1", "", "Tru", "Falsey", "None", " True"]), junk))
    dims = draw(st.lists(st.integers(0, 6).map(str), max_size=4)) if odd != 3 else draw(st.lists(number, max_size=12))
    if odd == 4:
        dims = [draw(number) for _ in range(draw(st.integers(7, 300)))]
    sep = "," if odd != 5 else draw(st.sampled_from([", ", ",,", " ", ";", "\n", ""]))
    h["open"], h["close"] = "(", ")"
    if odd == 6:
        h["open"], h["close"] = draw(st.sampled_from([("", ")"), ("(", ""), ("[", "]"), ("(", ","), ("", ""), ("((", "))")]))
    h["shape"] = sep.join(dims) + ("," if len(dims) == 1 else "")
    h["order"] = draw(st.permutations([0, 1, 2])) if odd == 7 else [0, 1, 2]
    h["drop"] = draw(st.integers(0, 2)) if odd == 8 else None
    h["twice"] = draw(st.booleans()) if odd == 8 else False
    h["insert"] = (draw(st.integers(0, 60)), draw(junk)) if odd == 9 else None
    return h


def header_text(h):
    parts = ["'descr': '%s', " % h["descr"], "'fortran_order': %s, " % h["fortran"], "'shape': %s%s%s, " % (h["open"], h["shape"], h["close"])]
    o = [parts[i] for i in h["order"] if i != h["drop"]]
    if h["twice"]:
        o = o + o
    t = "{" + "".join(o) + "}"
    if h["insert"]:
        i, s = h["insert"]
        t = t[:i] + s + t[i:]
    return t.encode("latin-1", "replace")


mutation = st.one_of(
    st.tuples(st.just("cut"), st.integers(0, 2000)), st.tuples(st.just("cutend"), st.integers(1, 300)), st.tuples(st.just("add"), st.one_of(st.integers(1, 64), st.sampled_from([4096, 20000]))),
    st.tuples(st.just("flip"), st.integers(0, 3000), st.integers(1, 255)), st.tuples(st.just("set"), st.integers(0, 3000), st.sampled_from([0, 1, 0x7f, 0x80, 0xff, 0x30, 0x27])),
    st.tuples(st.just("set16"), st.integers(0, 3000), st.sampled_from([0, 1, 0xffff, 0x7fff, 0x8000, 10, 118, 1000])), st.tuples(st.just("set32"), st.integers(0, 3000), st.sampled_from([0, 1, 0xffffffff, 0x7fffffff, 0x80000000, 100])),
    st.tuples(st.just("del"), st.integers(0, 3000), st.integers(1, 40)), st.tuples(st.just("dup"), st.integers(0, 3000), st.integers(1, 200)), st.tuples(st.just("ins"), st.integers(0, 3000), st.binary(min_size=1, max_size=8).map(lambda b: b.hex())),
    st.tuples(st.just("swap"), st.integers(0, 3000), st.integers(0, 3000), st.integers(1, 40)))
mutations = st.lists(mutation, max_size=4)


def mutate(d, ms):
    d = bytearray(d)
    for m in ms:
        k = m[0]
        n = len(d)
        if not n and k not in ("add", "ins"):
            continue
        p = m[1] % (n + 1) if n else 0
        if k == "cut":
            d = d[:p]
        elif k == "cutend":
            d = d[:max(0, n - m[1])]
        elif k == "add":
            d += bytes((i * 7) & 255 for i in range(m[1]))
        elif k == "flip":
            d[m[1] % n] ^= m[2]
        elif k == "set":
            d[m[1] % n] = m[2]
        elif k == "set16" and p + 2 <= n:
            d[p:p + 2] = struct.pack("<H", m[2])
        elif k == "set32" and p + 4 <= n:
            d[p:p + 4] = struct.pack("<I", m[2])
        elif k == "del":
            del d[p:p + m[2]]
        elif k == "dup":
            d[p:p] = d[p:p + m[2]]
        elif k == "ins":
            d[p:p] = bytes.fromhex(m[2])
        elif k == "swap":
            q = m[2] % (n + 1)
            a, b = bytes(d[p:p + m[3]]), bytes(d[q:q + m[3]])
            if p + m[3] <= q:
                d[q:q + m[3]] = a; d[p:p + m[3]] = b
    return bytes(d)


@st.composite
def npys(draw):
    """one npy file: a sound one, one with a generated header, one with mutated bytes or a cut one"""
    kind = draw(st.sampled_from(["sound", "header", "header", "header", "bytes", "bytes", "trailing", "truncated", "junk"]))
    r = {"kind": kind}
    if kind == "junk":
        r["junk"] = draw(st.binary(max_size=40)).hex()
        r["magic"] = draw(st.booleans())
        return r
    if kind == "header":
        r["header"] = draw(header())
        r["pad"] = draw(st.sampled_from([64, 64, 64, 16, 1]))
        r["lie"] = draw(st.sampled_from([None] * 8 + [0, 1, 30, 117, 119, 255, 256, 32768, 65535]))
        r["version"] = draw(st.sampled_from([1] * 12 + [0, 2, 3, 255]))
        r["data"] = draw(st.sampled_from([0, 1, 4, 40, 1000, 10000]))
    else:
        r["array"] = draw(small)
    if kind == "bytes":
        r["mut"] = draw(st.lists(mutation, min_size=1, max_size=4))
    if kind == "truncated":
        r["cut"] = draw(st.one_of(st.integers(1, 20), st.integers(1, 2000)))
    if kind == "trailing":
        r["more"] = draw(st.one_of(st.integers(1, 300), st.sampled_from([4095, 4096, 8192, 100000])))
    return r


def npy_bytes(r):
    k = r["kind"]
    if k == "junk":
        return (b"\x93NUMPY\x01\x00" if r["magic"] else b"") + bytes.fromhex(r["junk"])
    if k == "header":
        t = header_text(r["header"])
        n = len(t) + 1 + 10
        t += b" " * (-n % r["pad"]) + b"\n"
        t = t[:65535]
        ln = len(t) if r["lie"] is None else r["lie"]
        return b"\x93NUMPY" + bytes([r["version"], 0]) + struct.pack("<H", ln) + t + bytes((i * 11 + 1) & 255 for i in range(r["data"]))
    m = M(r["array"])
    if m.end == "|":
        m.given = ""
    b = io.BytesIO()
    np.lib.format.write_array(b, m.from_numpy(), version=(1, 0))
    d = b.getvalue()
    if k == "bytes":
        d = mutate(d, r["mut"])
    if k == "truncated":
        d = d[:max(0, len(d) - r["cut"])]
    if k == "trailing":
        d += bytes(r["more"])
    return d


def model_of(r):
    m = M(r["array"]); m.from_numpy()
    return m
