import javax.crypto.Cipher;
import javax.crypto.spec.SecretKeySpec;
import tlc2.value.impl.Value;

/** TLC replaces the operators of module AesCipher with these methods (checked by PrimSelfTest.tla). */
public class AesCipher {
    static byte[] aes(int mode, byte[] key, byte[] block) {
        try {
            Cipher c = Cipher.getInstance("AES/ECB/NoPadding");
            c.init(mode, new SecretKeySpec(key, "AES"));
            return c.doFinal(block);
        } catch (Exception e) {
            throw new RuntimeException(e);
        }
    }

    public static Value AesEncBlock(Value k, Value b) {
        return ByteSeq.to(aes(Cipher.ENCRYPT_MODE, ByteSeq.from(k, -1), ByteSeq.from(b, 16)));
    }

    public static Value AesDecBlock(Value k, Value b) {
        return ByteSeq.to(aes(Cipher.DECRYPT_MODE, ByteSeq.from(k, -1), ByteSeq.from(b, 16)));
    }
}
