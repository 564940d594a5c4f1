import java.security.MessageDigest;
import tlc2.value.impl.Value;

/** TLC replaces operator Sha256 of module Sha256 with this method (checked by PrimSelfTest.tla). */
public class Sha256 {
    public static Value Sha256(Value m) {
        try {
            return ByteSeq.to(MessageDigest.getInstance("SHA-256").digest(ByteSeq.from(m, -1)));
        } catch (Exception e) {
            throw new RuntimeException(e);
        }
    }
}
