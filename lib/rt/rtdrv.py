"""Drives the Python runtime (pure or binding): one request per line, one reply per line.  argv: impl"""
import sys, struct, io, math
import zserio
from zserio import json as zjson, bitsizeof as bs, float as zfloat
impl = sys.argv[1]
if impl == "cpp":
    import zserio_cpp
    assert zserio.BitStreamReader is zserio_cpp.BitStreamReader
else:
    assert zserio.BitStreamReader.__module__ == "zserio.bitreader"
from zserio import BitStreamWriter, BitStreamReader, BitBuffer
sys.setrecursionlimit(2000)


def dbl(h):
    return struct.unpack(">d", bytes.fromhex(h.rjust(16, "0")))[0]


def dhex(d):
    if d != d:
        return "7ff8000000000000"
    return format(struct.unpack(">Q", struct.pack(">d", d))[0], "x")


def bb(n, h):
    return BitBuffer(bytes.fromhex(h), int(n))


def utf(s):
    return s.encode("utf-8", "surrogatepass").hex()


def wop(w, op):
    p = op.split(":")
    k = p[0]
    if k in ("u", "U", "tu"):
        w.write_bits(int(p[2]), int(p[1]))
    elif k in ("s", "ts"):
        w.write_signed_bits(int(p[2]), int(p[1]))
    elif k == "n":
        getattr(w, "write_" + p[1])(int(p[2]))
        return getattr(bs, "bitsizeof_" + p[1])(int(p[2]))
    elif k == "f16":
        w.write_float16(dbl(p[1]))
    elif k == "f32":
        w.write_float32(dbl(p[1]))
    elif k == "f64":
        w.write_float64(dbl(p[1]))
    elif k == "by":
        w.write_bytes(bytearray.fromhex(p[1]))
        return bs.bitsizeof_bytes(bytearray.fromhex(p[1]))
    elif k == "st":
        s = bytes.fromhex(p[1]).decode("utf-8")
        w.write_string(s)
        return bs.bitsizeof_string(s)
    elif k == "b":
        w.write_bool(p[1] == "1")
    elif k == "bb":
        w.write_bitbuffer(bb(p[1], p[2]))
        return bs.bitsizeof_bitbuffer(bb(p[1], p[2]))
    elif k == "al":
        w.alignto(int(p[1]))
    else:
        raise KeyError("HARNESS " + op)
    return None


def rop(r, op):
    p = op.split(":")
    k = p[0]
    if k in ("u", "U", "tu"):
        return str(r.read_bits(int(p[1])))
    if k in ("s", "ts"):
        return str(r.read_signed_bits(int(p[1])))
    if k == "n":
        return str(getattr(r, "read_" + p[1])())
    if k == "f16":
        return dhex(r.read_float16())
    if k == "f32":
        return dhex(r.read_float32())
    if k == "f64":
        return dhex(r.read_float64())
    if k == "by":
        return "x" + bytes(r.read_bytes()).hex()
    if k == "st":
        return "x" + utf(r.read_string())
    if k == "b":
        return "1" if r.read_bool() else "0"
    if k == "bb":
        b = r.read_bitbuffer()
        return "%d:%s" % (b.bitsize, bytes(b.buffer).hex())
    if k == "al":
        r.alignto(int(p[1]))
        return "-"
    if k == "sp":
        r.bitposition = int(p[1])
        return "-"
    raise KeyError("HARNESS " + op)


def reads(r, ops):
    out = []
    for op in ops:
        try:
            v = rop(r, op)
            out.append("%s@%d" % (v, r.bitposition))
        except KeyError:
            raise
        except Exception as e:
            out.append("E" + type(e).__name__)
            break
    return " ".join(out)


def seq(ops):
    w = BitStreamWriter()
    st = []; ok = []
    for op in ops:
        try:
            size = wop(w, op)
            st.append("%d%s" % (w.bitposition, "" if size is None else "s%d" % size))
            ok.append(op)
        except KeyError:
            raise
        except Exception as e:
            if impl == "cpp" and isinstance(e, TypeError):
                st.append("X")      # not representable as an argument
            else:
                st.append("E%d%s" % (w.bitposition, type(e).__name__))
    b = bytes(w.byte_array)
    return " ".join(st) + "|" + b.hex() + "|" + reads(BitStreamReader(b, w.bitposition), ok)


def bbs(arg):
    head = ""; l = []
    for s in arg.split(" "):
        n, h = s.split(":")
        try:
            l.append(bb(n, h)); head += "1"
        except Exception:
            head += "0"
    eq = "".join("1" if a == b else "0" for a in l for b in l)
    hashes = "".join("%d," % hash(a) for a in l)
    out = ""
    for a in l:
        w = BitStreamWriter()
        w.write_bits(1, 3)
        w.write_bitbuffer(a)
        d = bytes(w.byte_array)
        r = BitStreamReader(d, w.bitposition)
        r.read_bits(3)
        back = r.read_bitbuffer()
        rb = BitStreamReader.from_bitbuffer(a)
        bits = "".join(str(rb.read_bits(1)) for _ in range(a.bitsize))
        try:
            rb.read_bits(1); over = "0"
        except Exception:
            over = "1"
        same = back == a and a == back and hash(back) == hash(a)
        out += "%s:%d:%d:%d:%d:%s:%s," % (d.hex(), w.bitposition, same, a.bitsize, (a.bitsize + 7) // 8, bits, over)
    return head + "|" + eq + "|" + hashes + "|" + out + "|-"


class Obs(zjson.JsonParser.Observer):
    def __init__(self):
        self.s = []

    def begin_object(self):
        self.s.append("{")

    def end_object(self):
        self.s.append("}")

    def begin_array(self):
        self.s.append("[")

    def end_array(self):
        self.s.append("]")

    def visit_key(self, key):
        self.s.append("k" + utf(key))

    def visit_value(self, v):
        if v is None:
            self.s.append("n")
        elif v is True or v is False:
            self.s.append("t" if v else "f")
        elif isinstance(v, int):
            self.s.append("i%d" % v)
        elif isinstance(v, float):
            self.s.append("d" + dhex(v))
        else:
            self.s.append("s" + utf(v))


def js(text):
    o = Obs()
    try:
        end = zjson.JsonParser(io.StringIO(text, newline=""), o).parse()
        o.s.append("$1" if end else "$0")
    except Exception as e:
        o.s.append("!" + type(e).__name__)
    return " ".join(o.s)


def handle(p):
    if p[0] == "SEQ":
        return seq(p[2].split(" "))
    if p[0] == "RD":
        return reads(BitStreamReader(bytes.fromhex(p[2]), int(p[1])), p[3].split(" "))
    if p[0] == "BB":
        return bbs(p[1])
    if p[0] == "J":
        return js(bytes.fromhex(p[1]).decode("utf-8", "replace"))
    if p[0] == "JE":
        e = zjson.JsonEncoder()
        a = p[2]
        v = {"s": lambda: bytes.fromhex(a).decode("utf-8"), "d": lambda: dbl(a), "i": lambda: int(a), "b": lambda: a == "1",
             "n": lambda: None}[p[1]]()
        return e.encode_value(v).encode("utf-8").hex()
    xs = p[1].split(" ")
    if p[0] == "F16":
        return " ".join(dhex(zfloat.uint16_to_float(int(x, 16))) for x in xs)
    if p[0] == "F32":
        return " ".join(dhex(zfloat.uint32_to_float(int(x, 16))) for x in xs)
    if p[0] == "F64":
        return " ".join(dhex(zfloat.uint64_to_float(int(x, 16))) for x in xs)
    f = {"TF16": zfloat.float_to_uint16, "TF32": zfloat.float_to_uint32, "TF64": zfloat.float_to_uint64}[p[0]]
    r = []
    for x in xs:
        try:
            r.append(format(f(dbl(x)), "x"))
        except Exception as e:
            r.append("E" + type(e).__name__)
    return " ".join(r)


for line in sys.stdin:
    try:
        r = handle(line.rstrip("\n").split("\t"))
    except Exception as e:
        r = "FAIL %r" % (e,)
    sys.stdout.write(r.replace("\n", " ") + "\n")
sys.stdout.flush()
