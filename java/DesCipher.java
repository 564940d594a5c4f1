import javax.crypto.Cipher;
import javax.crypto.spec.SecretKeySpec;
import tlc2.value.impl.Value;

/** TLC replaces the operators of module DesCipher with these methods (checked by PrimSelfTest.tla). */
public class DesCipher {
    static byte[] des(int mode, byte[] key, byte[] block) {
        try {
            Cipher c = Cipher.getInstance("DES/ECB/NoPadding");
            c.init(mode, new SecretKeySpec(key, "DES"));
            return c.doFinal(block);
        } catch (Exception e) {
            throw new RuntimeException(e);
        }
    }

    public static Value DesEncBlock(Value k, Value b) {
        return ByteSeq.to(des(Cipher.ENCRYPT_MODE, ByteSeq.from(k, 8), ByteSeq.from(b, 8)));
    }

    public static Value DesDecBlock(Value k, Value b) {
        return ByteSeq.to(des(Cipher.DECRYPT_MODE, ByteSeq.from(k, 8), ByteSeq.from(b, 8)));
    }
}
