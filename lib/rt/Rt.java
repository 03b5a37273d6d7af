package zserio.runtime.json;

import java.io.*;
import java.math.BigInteger;
import java.nio.charset.StandardCharsets;
import java.util.*;
import zserio.runtime.*;
import zserio.runtime.io.*;

/** Drives the Java runtime: one request per input line, one reply per line. */
public final class Rt
{
    static byte[] unhex(String s)
    {
        byte[] r = new byte[s.length() / 2];
        for (int i = 0; i < r.length; i++)
            r[i] = (byte)Integer.parseInt(s.substring(2 * i, 2 * i + 2), 16);
        return r;
    }

    static String hex(byte[] b)
    {
        StringBuilder s = new StringBuilder();
        for (byte x : b)
            s.append(String.format("%02x", x & 0xff));
        return s.toString();
    }

    static String cls(Throwable t)
    {
        String n = t.getClass().getSimpleName();
        return n;
    }

    static String utf(String s)
    {
        // every char sequence, unpaired surrogates included
        StringBuilder r = new StringBuilder();
        for (int i = 0; i < s.length();)
        {
            int c = s.codePointAt(i);
            i += Character.charCount(c);
            if (c >= 0xd800 && c < 0xe000)
                r.append(String.format("%02x%02x%02x", 0xe0 | c >> 12, 0x80 | (c >> 6 & 63), 0x80 | (c & 63)));
            else
                r.append(hex(new String(Character.toChars(c)).getBytes(StandardCharsets.UTF_8)));
        }
        return r.toString();
    }

    static double dbl(String h)
    {
        return Double.longBitsToDouble(Long.parseUnsignedLong(h, 16));
    }

    static String dhex(double d)
    {
        return Long.toHexString(Double.doubleToLongBits(d));
    }

    static BitBuffer bb(String n, String h)
    {
        return new BitBuffer(unhex(h), Long.parseLong(n));
    }

    static class Skip extends RuntimeException
    {}

    static long rng(BigInteger v, long lo, long hi)
    {
        if (v.compareTo(BigInteger.valueOf(lo)) < 0 || v.compareTo(BigInteger.valueOf(hi)) > 0)
            throw new Skip();
        return v.longValue();
    }

    static int wop(ByteArrayBitStreamWriter w, String op) throws Exception
    {
        String[] p = op.split(":", -1);
        BigInteger v = p.length > 2 && !p[0].equals("bb") ? new BigInteger(p[2]) : null;
        int n = p.length > 2 && !p[0].equals("n") ? Integer.parseInt(p[1]) : 0;
        switch (p[0])
        {
        case "u":
            if (n == 64)
                w.writeBigInteger(v, n);
            else
                w.writeBits(rng(v, Long.MIN_VALUE, Long.MAX_VALUE), n);
            return -1;
        case "U":
            w.writeBigInteger(v, n);
            return -1;
        case "s":
            w.writeSignedBits(rng(v, Long.MIN_VALUE, Long.MAX_VALUE), n);
            return -1;
        case "tu":
            if (n == 8)
                w.writeUnsignedByte((short)rng(v, Short.MIN_VALUE, Short.MAX_VALUE));
            else if (n == 16)
                w.writeUnsignedShort((int)rng(v, Integer.MIN_VALUE, Integer.MAX_VALUE));
            else if (n == 32)
                w.writeUnsignedInt(rng(v, Long.MIN_VALUE, Long.MAX_VALUE));
            else
                w.writeBigInteger(v, 64);
            return -1;
        case "ts":
            if (n == 8)
                w.writeByte((byte)rng(v, Byte.MIN_VALUE, Byte.MAX_VALUE));
            else if (n == 16)
                w.writeShort((short)rng(v, Short.MIN_VALUE, Short.MAX_VALUE));
            else if (n == 32)
                w.writeInt((int)rng(v, Integer.MIN_VALUE, Integer.MAX_VALUE));
            else
                w.writeLong(rng(v, Long.MIN_VALUE, Long.MAX_VALUE));
            return -1;
        case "n":
            switch (p[1])
            {
            case "varint16":
            {
                short x = (short)rng(v, Short.MIN_VALUE, Short.MAX_VALUE);
                w.writeVarInt16(x);
                return BitSizeOfCalculator.getBitSizeOfVarInt16(x);
            }
            case "varuint16":
            {
                short x = (short)rng(v, Short.MIN_VALUE, Short.MAX_VALUE);
                w.writeVarUInt16(x);
                return BitSizeOfCalculator.getBitSizeOfVarUInt16(x);
            }
            case "varint32":
            {
                int x = (int)rng(v, Integer.MIN_VALUE, Integer.MAX_VALUE);
                w.writeVarInt32(x);
                return BitSizeOfCalculator.getBitSizeOfVarInt32(x);
            }
            case "varuint32":
            {
                int x = (int)rng(v, Integer.MIN_VALUE, Integer.MAX_VALUE);
                w.writeVarUInt32(x);
                return BitSizeOfCalculator.getBitSizeOfVarUInt32(x);
            }
            case "varint64":
            {
                long x = rng(v, Long.MIN_VALUE, Long.MAX_VALUE);
                w.writeVarInt64(x);
                return BitSizeOfCalculator.getBitSizeOfVarInt64(x);
            }
            case "varuint64":
            {
                long x = rng(v, Long.MIN_VALUE, Long.MAX_VALUE);
                w.writeVarUInt64(x);
                return BitSizeOfCalculator.getBitSizeOfVarUInt64(x);
            }
            case "varint":
            {
                long x = rng(v, Long.MIN_VALUE, Long.MAX_VALUE);
                w.writeVarInt(x);
                return BitSizeOfCalculator.getBitSizeOfVarInt(x);
            }
            case "varuint":
                w.writeVarUInt(v);
                return BitSizeOfCalculator.getBitSizeOfVarUInt(v);
            case "varsize":
            {
                int x = (int)rng(v, Integer.MIN_VALUE, Integer.MAX_VALUE);
                w.writeVarSize(x);
                return BitSizeOfCalculator.getBitSizeOfVarSize(x);
            }
            }
            throw new RuntimeException("HARNESS " + op);
        case "f16":
            w.writeFloat16((float)dbl(p[1]));
            return -1;
        case "f32":
            w.writeFloat32((float)dbl(p[1]));
            return -1;
        case "f64":
            w.writeFloat64(dbl(p[1]));
            return -1;
        case "by":
            w.writeBytes(unhex(p[1]));
            return BitSizeOfCalculator.getBitSizeOfBytes(unhex(p[1]));
        case "st":
        {
            String s = new String(unhex(p[1]), StandardCharsets.UTF_8);
            w.writeString(s);
            return BitSizeOfCalculator.getBitSizeOfString(s);
        }
        case "b":
            w.writeBool(p[1].equals("1"));
            return -1;
        case "bb":
            w.writeBitBuffer(bb(p[1], p[2]));
            return BitSizeOfCalculator.getBitSizeOfBitBuffer(bb(p[1], p[2]));
        case "al":
            w.alignTo(Integer.parseInt(p[1]));
            return -1;
        }
        throw new RuntimeException("HARNESS " + op);
    }

    static String rop(ByteArrayBitStreamReader r, String op) throws Exception
    {
        String[] p = op.split(":", -1);
        int n = p.length > 1 && !p[0].equals("n") && p[1].length() < 10 && p[1].matches("\\d+") ? Integer.parseInt(p[1]) : 0;
        switch (p[0])
        {
        case "u":
            return n == 64 ? r.readBigInteger(64).toString() : Long.toString(r.readBits(n));
        case "U":
            return r.readBigInteger(n).toString();
        case "s":
            return Long.toString(r.readSignedBits(n));
        case "tu":
            return n == 8 ? "" + r.readUnsignedByte() : n == 16 ? "" + r.readUnsignedShort() : n == 32 ? "" + r.readUnsignedInt() : r.readBigInteger(64).toString();
        case "ts":
            return n == 8 ? "" + r.readByte() : n == 16 ? "" + r.readShort() : n == 32 ? "" + r.readInt() : "" + r.readLong();
        case "n":
            switch (p[1])
            {
            case "varint16": return "" + r.readVarInt16();
            case "varuint16": return "" + r.readVarUInt16();
            case "varint32": return "" + r.readVarInt32();
            case "varuint32": return "" + r.readVarUInt32();
            case "varint64": return "" + r.readVarInt64();
            case "varuint64": return "" + r.readVarUInt64();
            case "varint": return "" + r.readVarInt();
            case "varuint": return "" + r.readVarUInt();
            case "varsize": return "" + r.readVarSize();
            }
            throw new RuntimeException("HARNESS " + op);
        case "f16": return dhex(r.readFloat16());
        case "f32": return dhex(r.readFloat32());
        case "f64": return dhex(r.readFloat64());
        case "by": return "x" + hex(r.readBytes());
        case "st": return "x" + utf(r.readString());
        case "b": return r.readBool() ? "1" : "0";
        case "bb":
        {
            BitBuffer b = r.readBitBuffer();
            return b.getBitSize() + ":" + hex(b.getBuffer());
        }
        case "al":
            r.alignTo(n);
            return "-";
        case "sp":
            r.setBitPosition(n);
            return "-";
        }
        throw new RuntimeException("HARNESS " + op);
    }

    static String seq(String ops, int capacity) throws Exception
    {
        ByteArrayBitStreamWriter w = capacity < 0 ? new ByteArrayBitStreamWriter() : new ByteArrayBitStreamWriter(capacity);
        StringBuilder st = new StringBuilder();
        List<String> okOps = new ArrayList<>();
        for (String op : ops.split(" "))
        {
            if (st.length() > 0)
                st.append(" ");
            try
            {
                int size = wop(w, op);
                st.append(w.getBitPosition());
                if (size >= 0)
                    st.append("s").append(size);
                okOps.add(op);
            }
            catch (Skip e)
            {
                st.append("X");
            }
            catch (Exception e)
            {
                st.append("E").append(w.getBitPosition()).append(cls(e));
            }
        }
        byte[] b = w.toByteArray();
        ByteArrayBitStreamReader r = new ByteArrayBitStreamReader(b, w.getBitPosition());
        return st + "|" + hex(b) + "|" + reads(r, okOps);
    }

    static String reads(ByteArrayBitStreamReader r, List<String> ops)
    {
        StringBuilder rd = new StringBuilder();
        for (String op : ops)
        {
            if (rd.length() > 0)
                rd.append(" ");
            try
            {
                String v = rop(r, op);
                rd.append(v).append("@").append(r.getBitPosition());
            }
            catch (Exception e)
            {
                rd.append("E").append(cls(e));
                break;
            }
        }
        return rd.toString();
    }

    static String bbs(String arg) throws Exception
    {
        List<BitBuffer> l = new ArrayList<>();
        StringBuilder head = new StringBuilder();
        for (String s : arg.split(" "))
        {
            String[] p = s.split(":", -1);
            try
            {
                l.add(bb(p[0], p[1]));
                head.append("1");
            }
            catch (Exception e)
            {
                head.append("0");
            }
        }
        StringBuilder r = new StringBuilder(head + "|");
        for (BitBuffer a : l)
            for (BitBuffer b : l)
                r.append(a.equals(b) ? "1" : "0");
        r.append("|");
        for (BitBuffer a : l)
            r.append(a.hashCode()).append(",");
        r.append("|");
        for (BitBuffer a : l)
        {
            ByteArrayBitStreamWriter w = new ByteArrayBitStreamWriter();
            w.writeBits(1, 3);
            w.writeBitBuffer(a);
            byte[] d = w.toByteArray();
            ByteArrayBitStreamReader rd = new ByteArrayBitStreamReader(d, w.getBitPosition());
            rd.readBits(3);
            BitBuffer back = rd.readBitBuffer();
            ByteArrayBitStreamReader rb = new ByteArrayBitStreamReader(a);
            StringBuilder bits = new StringBuilder();
            for (long i = 0; i < a.getBitSize(); i++)
                bits.append(rb.readBits(1));
            String over = "1";
            try
            {
                rb.readBits(1);
                over = "0";
            }
            catch (Exception e)
            {
            }
            r.append(hex(d)).append(":").append(w.getBitPosition()).append(":").append(back.equals(a) && a.equals(back) && back.hashCode() == a.hashCode() ? 1 : 0)
                    .append(":").append(a.getBitSize()).append(":").append(a.getByteSize()).append(":").append(bits).append(":").append(over).append(",");
        }
        r.append("|-");
        return r.toString();
    }

    static String json(byte[] text) throws Exception
    {
        final StringBuilder s = new StringBuilder();
        JsonParser.Observer o = new JsonParser.Observer() {
            public void beginObject() { s.append("{ "); }
            public void endObject() { s.append("} "); }
            public void beginArray() { s.append("[ "); }
            public void endArray() { s.append("] "); }
            public void visitKey(String key) { s.append("k").append(utf(key)).append(" "); }
            public void visitValue(Object v)
            {
                if (v == null)
                    s.append("n ");
                else if (v instanceof Boolean)
                    s.append((Boolean)v ? "t " : "f ");
                else if (v instanceof String)
                    s.append("s").append(utf((String)v)).append(" ");
                else if (v instanceof Double || v instanceof Float)
                    s.append("d").append(dhex(((Number)v).doubleValue())).append(" ");
                else if (v instanceof Number)
                    s.append("i").append(v).append(" ");
                else
                    s.append("?").append(v.getClass()).append(" ");
            }
        };
        try
        {
            JsonParser p = new JsonParser(new InputStreamReader(new ByteArrayInputStream(text), StandardCharsets.UTF_8), o);
            int n = 0;
            boolean end = p.parse();
            s.append(end ? "$1" : "$0");
        }
        catch (Exception e)
        {
            s.append("!").append(cls(e));
        }
        catch (StackOverflowError e)
        {
            s.append("!StackOverflowError");
        }
        return s.toString();
    }

    static long fnv(long h, long v, int bytes)
    {
        for (int i = 0; i < bytes; i++)
        {
            h ^= (v >>> (8 * i)) & 0xff;
            h *= 0x100000001b3L;
        }
        return h;
    }

    static String handle(String[] p) throws Exception
    {
        StringBuilder r = new StringBuilder();
        switch (p[0])
        {
        case "SEQ": return seq(p[2], Integer.parseInt(p[1]));
        case "RD":
        {
            ByteArrayBitStreamReader rd = new ByteArrayBitStreamReader(unhex(p[2]), Long.parseLong(p[1]));
            return reads(rd, Arrays.asList(p[3].split(" ")));
        }
        case "BB": return bbs(p[1]);
        case "J": return json(unhex(p.length > 1 ? p[1] : ""));
        case "JE":
        {
            StringWriter sw = new StringWriter();
            PrintWriter pw = new PrintWriter(sw);
            String a = p.length > 2 ? p[2] : "";
            switch (p[1])
            {
            case "s": JsonEncoder.encodeString(pw, new String(unhex(a), StandardCharsets.UTF_8)); break;
            case "d": JsonEncoder.encodeFloatingPoint(pw, dbl(a)); break;
            case "i": JsonEncoder.encodeIntegral(pw, new BigInteger(a)); break;
            case "b": JsonEncoder.encodeBool(pw, a.equals("1")); break;
            default: JsonEncoder.encodeNull(pw);
            }
            pw.flush();
            return hex(sw.toString().getBytes(StandardCharsets.UTF_8));
        }
        case "F16":
            for (String s : p[1].split(" "))
                r.append(dhex(FloatUtil.convertShortToFloat((short)Integer.parseInt(s, 16)))).append(" ");
            return r.toString().trim();
        case "F32":
            for (String s : p[1].split(" "))
                r.append(dhex(FloatUtil.convertIntToFloat((int)Long.parseLong(s, 16)))).append(" ");
            return r.toString().trim();
        case "F64":
            for (String s : p[1].split(" "))
                r.append(dhex(FloatUtil.convertLongToDouble(Long.parseUnsignedLong(s, 16)))).append(" ");
            return r.toString().trim();
        case "TF16":
            for (String s : p[1].split(" "))
                r.append(Integer.toHexString(FloatUtil.convertFloatToShort((float)dbl(s)) & 0xffff)).append(" ");
            return r.toString().trim();
        case "TF32":
            for (String s : p[1].split(" "))
                r.append(Integer.toHexString(FloatUtil.convertFloatToInt((float)dbl(s)))).append(" ");
            return r.toString().trim();
        case "TF64":
            for (String s : p[1].split(" "))
                r.append(Long.toHexString(FloatUtil.convertDoubleToLong(dbl(s)))).append(" ");
            return r.toString().trim();
        case "F16BLK":
        {
            long start = Long.parseLong(p[1]), stride = Long.parseLong(p[2]), n = Long.parseLong(p[3]);
            long h = 0xcbf29ce484222325L;
            for (long i = 0; i < n; i++)
            {
                float f = Float.intBitsToFloat((int)(start + i * stride));
                int v = FloatUtil.convertFloatToShort(f) & 0xffff;
                if (f != f)
                    v = (v & 0x7c00) == 0x7c00 && (v & 0x3ff) != 0 ? 0x7e00 : 0xdead;
                h = fnv(h, v, 2);
            }
            return Long.toHexString(h);
        }
        }
        return "FAIL unknown " + p[0];
    }

    public static void main(String[] a) throws Exception
    {
        BufferedReader in = new BufferedReader(new InputStreamReader(System.in, StandardCharsets.UTF_8));
        PrintStream out = new PrintStream(new FileOutputStream(FileDescriptor.out), false, "UTF-8");
        String l;
        while ((l = in.readLine()) != null)
        {
            String r;
            try
            {
                r = handle(l.split("\t", -1));
            }
            catch (Throwable t)
            {
                r = "FAIL " + t;
            }
            out.print(r.replace("\n", " ") + "\n");
        }
        out.flush();
    }
}
