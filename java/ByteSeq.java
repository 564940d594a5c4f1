import tlc2.value.impl.IntValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/** Conversion between TLA+ sequences of 0..255 and byte arrays. */
final class ByteSeq {
    private ByteSeq() {}

    static byte[] from(Value v, int len) {
        TupleValue t = (TupleValue) v.toTuple();
        if (t == null || (len >= 0 && t.elems.length != len)) {
            throw new RuntimeException("not a sequence of " + len + " bytes: " + v);
        }
        byte[] b = new byte[t.elems.length];
        for (int i = 0; i < b.length; i++) {
            int x = ((IntValue) t.elems[i]).val;
            if (x < 0 || x > 255) {
                throw new RuntimeException("not a byte: " + x);
            }
            b[i] = (byte) x;
        }
        return b;
    }

    static Value to(byte[] b) {
        Value[] e = new Value[b.length];
        for (int i = 0; i < b.length; i++) {
            e[i] = IntValue.gen(b[i] & 0xff);
        }
        return new TupleValue(e);
    }
}
