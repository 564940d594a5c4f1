---------------------------- MODULE KnownAnswers ----------------------------
(* The published test vectors: ANSI X9.24-1:2009 A.4 and ANSI X9.24-3:2017 annex B *)
EXTENDS Library

Bdk == <<1, 35, 69, 103, 137, 171, 205, 239, 254, 220, 186, 152, 118, 84, 50, 16>>
Text17 == <<52, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 48, 57, 68, 57, 56, 55>>
Pin == <<49, 50, 51, 52>>
Pan == <<52, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 48, 57>>
Iso0 == <<105, 115, 111, 45, 48>>
DesIk == <<106, 194, 146, 250, 161, 49, 91, 77, 133, 138, 179, 163, 215, 213, 147, 58>>
DesKsn(n) == <<255, 255, 152, 118, 84, 50, 16, 224, 0, n>>
ASSUME InitialTdesKey(Bdk, <<152, 118, 84, 50, 16, 224, 0, 1>>) = Ok(DesIk)
ASSUME LET ksn == <<255, 255, 152, 118, 84, 50, 16, 224, 0, 1>>  key == <<4, 38, 102, 180, 145, 132, 207, 163, 104, 222, 150, 40, 208, 57, 123, 201>> IN
  /\ TransactionTdesKey(DesIk, ksn) = Ok(key)
  /\ TdesPinCipher(key, Pin, Pan, Iso0, <<27, 156, 24, 69, 235, 153, 58, 122>>)
  /\ TdesDecryptPin(key, <<27, 156, 24, 69, 235, 153, 58, 122>>, Pan, Iso0) = Ok(Pin)
  /\ TdesMac(key, Text17, "request") = Ok(<<156, 204, 120, 23, 63, 196, 251, 100>>)
  /\ TdesMac(key, Text17, "response") = Ok(<<32, 54, 66, 35, 193, 255, 0, 250>>)
  /\ TdesEncryptData(key, <<>>, Text17, "request") = Ok(<<252, 13, 83, 183, 234, 31, 218, 158, 230, 138, 175, 46, 112, 217, 185, 80, 98, 41, 190, 42, 169, 147, 240, 79>>)
  /\ TdesEncryptData(key, <<>>, Text17, "response") = Ok(<<31, 204, 137, 175, 102, 34, 47, 39, 185, 3, 137, 139, 178, 188, 133, 137, 205, 191, 222, 94, 198, 175, 204, 37>>)
  /\ TdesDecryptData(key, <<252, 13, 83, 183, 234, 31, 218, 158, 230, 138, 175, 46, 112, 217, 185, 80, 98, 41, 190, 42, 169, 147, 240, 79>>, <<>>, "request") = Ok(PadZero(Text17, 8))
ASSUME LET ksn == <<255, 255, 152, 118, 84, 50, 16, 224, 0, 2>>  key == <<196, 101, 81, 206, 249, 253, 36, 176, 170, 154, 216, 52, 19, 13, 59, 199>> IN
  /\ TransactionTdesKey(DesIk, ksn) = Ok(key)
  /\ TdesPinCipher(key, Pin, Pan, Iso0, <<16, 160, 28, 141, 2, 198, 145, 7>>)
  /\ TdesDecryptPin(key, <<16, 160, 28, 141, 2, 198, 145, 7>>, Pan, Iso0) = Ok(Pin)
  /\ TdesMac(key, Text17, "request") = Ok(<<246, 8, 169, 188, 166, 255, 195, 17>>)
  /\ TdesMac(key, Text17, "response") = Ok(<<209, 252, 166, 190, 240, 93, 36, 210>>)
  /\ TdesEncryptData(key, <<>>, Text17, "request") = Ok(<<162, 180, 231, 15, 132, 110, 99, 214, 135, 117, 183, 33, 94, 180, 86, 61, 253, 48, 55, 36, 76, 97, 204, 19>>)
  /\ TdesEncryptData(key, <<>>, Text17, "response") = Ok(<<91, 105, 42, 107, 31, 221, 94, 37, 176, 222, 250, 253, 225, 103, 46, 64, 47, 128, 17, 54, 12, 255, 53, 8>>)
  /\ TdesDecryptData(key, <<162, 180, 231, 15, 132, 110, 99, 214, 135, 117, 183, 33, 94, 180, 86, 61, 253, 48, 55, 36, 76, 97, 204, 19>>, <<>>, "request") = Ok(PadZero(Text17, 8))
ASSUME LET ksn == <<255, 255, 152, 118, 84, 50, 16, 224, 0, 3>>  key == <<13, 243, 217, 66, 42, 202, 86, 229, 71, 103, 109, 7, 173, 107, 173, 250>> IN
  /\ TransactionTdesKey(DesIk, ksn) = Ok(key)
  /\ TdesPinCipher(key, Pin, Pan, Iso0, <<24, 220, 7, 185, 71, 151, 180, 102>>)
  /\ TdesDecryptPin(key, <<24, 220, 7, 185, 71, 151, 180, 102>>, Pan, Iso0) = Ok(Pin)
  /\ TdesMac(key, Text17, "request") = Ok(<<32, 181, 154, 79, 234, 201, 55, 227>>)
  /\ TdesMac(key, Text17, "response") = Ok(<<186, 212, 204, 156, 194, 174, 50, 108>>)
  /\ TdesEncryptData(key, <<>>, Text17, "request") = Ok(<<189, 117, 30, 101, 241, 14, 117, 182, 193, 213, 177, 210, 131, 73, 106, 54, 194, 222, 33, 217, 147, 195, 135, 167>>)
  /\ TdesEncryptData(key, <<>>, Text17, "response") = Ok(<<52, 89, 146, 212, 22, 62, 73, 38, 201, 39, 191, 216, 171, 213, 215, 111, 8, 122, 156, 232, 29, 90, 39, 184>>)
  /\ TdesDecryptData(key, <<189, 117, 30, 101, 241, 14, 117, 182, 193, 213, 177, 210, 131, 73, 106, 54, 194, 222, 33, 217, 147, 195, 135, 167>>, <<>>, "request") = Ok(PadZero(Text17, 8))
ASSUME LET ksn == <<255, 255, 152, 118, 84, 50, 16, 224, 0, 4>>  key == <<39, 156, 15, 106, 238, 208, 190, 101, 43, 44, 115, 62, 19, 131, 174, 145>> IN
  /\ TransactionTdesKey(DesIk, ksn) = Ok(key)
  /\ TdesPinCipher(key, Pin, Pan, Iso0, <<11, 199, 149, 9, 213, 100, 93, 247>>)
  /\ TdesDecryptPin(key, <<11, 199, 149, 9, 213, 100, 93, 247>>, Pan, Iso0) = Ok(Pin)
  /\ TdesMac(key, Text17, "request") = Ok(<<199, 191, 166, 204, 68, 22, 24, 40>>)
  /\ TdesMac(key, Text17, "response") = Ok(<<30, 176, 138, 238, 206, 111, 240, 194>>)
  /\ TdesEncryptData(key, <<>>, Text17, "request") = Ok(<<17, 24, 245, 9, 71, 68, 27, 189, 163, 200, 199, 2, 32, 2, 26, 18, 236, 49, 204, 71, 63, 114, 21, 244>>)
  /\ TdesEncryptData(key, <<>>, Text17, "response") = Ok(<<65, 140, 116, 19, 87, 108, 13, 24, 25, 231, 133, 211, 128, 122, 243, 35, 52, 35, 31, 222, 194, 52, 20, 219>>)
  /\ TdesDecryptData(key, <<17, 24, 245, 9, 71, 68, 27, 189, 163, 200, 199, 2, 32, 2, 26, 18, 236, 49, 204, 71, 63, 114, 21, 244>>, <<>>, "request") = Ok(PadZero(Text17, 8))
ASSUME LET ksn == <<255, 255, 152, 118, 84, 50, 16, 224, 0, 5>>  key == <<95, 141, 198, 210, 200, 69, 193, 37, 80, 141, 220, 4, 128, 147, 184, 63>> IN
  /\ TransactionTdesKey(DesIk, ksn) = Ok(key)
  /\ TdesPinCipher(key, Pin, Pan, Iso0, <<91, 192, 175, 34, 173, 135, 179, 39>>)
  /\ TdesDecryptPin(key, <<91, 192, 175, 34, 173, 135, 179, 39>>, Pan, Iso0) = Ok(Pin)
  /\ TdesMac(key, Text17, "request") = Ok(<<2, 2, 185, 99, 57, 2, 32, 88>>)
  /\ TdesMac(key, Text17, "response") = Ok(<<92, 190, 62, 129, 209, 210, 160, 251>>)
  /\ TdesEncryptData(key, <<>>, Text17, "request") = Ok(<<159, 215, 189, 30, 194, 136, 69, 172, 169, 51, 103, 169, 218, 147, 23, 189, 85, 92, 107, 51, 174, 34, 211, 101>>)
  /\ TdesEncryptData(key, <<>>, Text17, "response") = Ok(<<125, 76, 16, 158, 73, 232, 51, 85, 165, 86, 174, 148, 158, 237, 53, 159, 68, 4, 231, 162, 240, 22, 124, 0>>)
  /\ TdesDecryptData(key, <<159, 215, 189, 30, 194, 136, 69, 172, 169, 51, 103, 169, 218, 147, 23, 189, 85, 92, 107, 51, 174, 34, 211, 101>>, <<>>, "request") = Ok(PadZero(Text17, 8))
AesBdk == <<254, 220, 186, 152, 118, 84, 50, 16, 241, 241, 241, 241, 241, 241, 241, 241>>
AesIk == <<18, 115, 103, 30, 162, 106, 194, 154, 250, 77, 16, 132, 18, 118, 82, 161>>
Id == <<18, 52, 86, 120, 144, 18, 52, 86>>
ASSUME InitialAesKey(AesBdk, Id) = Ok(AesIk)
ASSUME InitialAesKey(<<254, 220, 186, 152, 118, 84, 50, 16, 241, 241, 241, 241, 241, 241, 241, 241, 254, 220, 186, 152, 118, 84, 50, 16, 241, 241, 241, 241, 241, 241, 241, 241>>, Id) = Ok(<<206, 156, 224, 193, 1, 209, 19, 143, 151, 251, 108, 173, 77, 240, 69, 167, 8, 61, 78, 174, 45, 53, 163, 23, 137, 208, 28, 207, 9, 73, 85, 15>>)
ASSUME LET ksn == <<18, 52, 86, 120, 144, 18, 52, 86, 0, 0, 0, 1>>  key == <<79, 33, 181, 101, 186, 217, 131, 94, 17, 43, 100, 101, 99, 94, 174, 68>> IN
  /\ TransactionAesKey(AesIk, ksn) = Ok(key)
  /\ AesCmac(key, ksn, Text17, "AES128", "request") = Ok(<<162, 235, 92, 28, 53, 128, 158, 88, 64, 78, 135, 60, 60, 65, 30, 49>>)
  /\ AesCmac(key, ksn, Text17, "AES128", "response") = Ok(<<221, 78, 24, 149, 253, 155, 245, 61, 141, 175, 37, 86, 138, 191, 85, 29>>)
  /\ AesHmac(key, ksn, Text17, "HMAC128", "request") = Ok(<<182, 248, 179, 21, 156, 212, 225, 64, 21, 157, 168, 122, 104, 192, 251, 122, 242, 241, 35, 210, 34, 102, 46, 152, 152, 140, 118, 56, 110, 142, 138, 2>>)
  /\ AesHmac(key, ksn, Text17, "HMAC128", "response") = Ok(<<221, 231, 203, 123, 222, 5, 172, 154, 147, 73, 25, 181, 217, 76, 55, 149, 79, 35, 118, 186, 245, 212, 80, 49, 165, 111, 231, 77, 148, 196, 182, 77>>)
  /\ AesEncryptData(key, ksn, <<>>, Text17, "AES128", "request") = Ok(<<229, 175, 165, 180, 8, 163, 49, 14, 61, 119, 156, 138, 154, 42, 226, 148, 72, 189, 91, 66, 50, 88, 32, 144, 219, 112, 58, 246, 71, 32, 90, 121>>)
  /\ AesEncryptData(key, ksn, <<>>, Text17, "AES128", "response") = Ok(<<132, 144, 77, 252, 107, 82, 1, 164, 241, 254, 46, 170, 73, 231, 11, 140, 1, 131, 142, 245, 48, 48, 121, 15, 247, 133, 214, 48, 171, 57, 22, 180>>)
  /\ AesDecryptData(key, ksn, <<229, 175, 165, 180, 8, 163, 49, 14, 61, 119, 156, 138, 154, 42, 226, 148, 72, 189, 91, 66, 50, 88, 32, 144, 219, 112, 58, 246, 71, 32, 90, 121>>, <<>>, "AES128", "request") = Ok(PadZero(Text17, 16))
ASSUME LET ksn == <<18, 52, 86, 120, 144, 18, 52, 86, 0, 0, 0, 2>>  key == <<47, 52, 214, 141, 225, 15, 104, 211, 128, 145, 167, 59, 158, 124, 67, 124>> IN
  /\ TransactionAesKey(AesIk, ksn) = Ok(key)
  /\ AesCmac(key, ksn, Text17, "AES128", "request") = Ok(<<77, 16, 71, 4, 197, 52, 145, 166, 9, 68, 25, 61, 202, 246, 180, 17>>)
  /\ AesCmac(key, ksn, Text17, "AES128", "response") = Ok(<<0, 140, 234, 174, 43, 145, 59, 238, 231, 98, 9, 238, 148, 6, 218, 193>>)
  /\ AesHmac(key, ksn, Text17, "HMAC128", "request") = Ok(<<168, 132, 253, 69, 134, 146, 130, 14, 132, 88, 173, 159, 244, 252, 229, 141, 107, 128, 154, 179, 174, 97, 122, 225, 252, 107, 112, 233, 233, 193, 43, 8>>)
  /\ AesHmac(key, ksn, Text17, "HMAC128", "response") = Ok(<<50, 196, 238, 191, 95, 184, 32, 196, 233, 10, 88, 12, 7, 105, 229, 191, 129, 136, 0, 113, 145, 175, 174, 245, 63, 124, 88, 91, 3, 40, 83, 20>>)
  /\ AesEncryptData(key, ksn, <<>>, Text17, "AES128", "request") = Ok(<<161, 122, 150, 88, 238, 15, 69, 29, 108, 161, 27, 101, 181, 146, 239, 156, 95, 144, 187, 23, 93, 146, 111, 20, 87, 182, 59, 50, 115, 4, 36, 118>>)
  /\ AesEncryptData(key, ksn, <<>>, Text17, "AES128", "response") = Ok(<<105, 158, 215, 188, 133, 153, 79, 28, 17, 222, 28, 64, 23, 122, 98, 149, 48, 232, 82, 98, 234, 11, 2, 251, 128, 119, 18, 85, 220, 31, 101, 182>>)
  /\ AesDecryptData(key, ksn, <<161, 122, 150, 88, 238, 15, 69, 29, 108, 161, 27, 101, 181, 146, 239, 156, 95, 144, 187, 23, 93, 146, 111, 20, 87, 182, 59, 50, 115, 4, 36, 118>>, <<>>, "AES128", "request") = Ok(PadZero(Text17, 16))
ASSUME LET ksn == <<18, 52, 86, 120, 144, 18, 52, 86, 0, 0, 0, 3>>  key == <<3, 21, 4, 229, 48, 54, 92, 248, 18, 100, 35, 133, 64, 81, 131, 24>> IN
  /\ TransactionAesKey(AesIk, ksn) = Ok(key)
  /\ AesCmac(key, ksn, Text17, "AES128", "request") = Ok(<<106, 24, 144, 74, 168, 233, 102, 160, 53, 5, 245, 238, 189, 174, 189, 130>>)
  /\ AesCmac(key, ksn, Text17, "AES128", "response") = Ok(<<64, 203, 47, 12, 46, 4, 61, 6, 0, 99, 250, 169, 22, 168, 73, 225>>)
  /\ AesHmac(key, ksn, Text17, "HMAC128", "request") = Ok(<<92, 203, 80, 251, 128, 1, 192, 124, 81, 25, 21, 2, 191, 199, 88, 110, 22, 82, 25, 245, 157, 135, 147, 140, 138, 122, 132, 212, 26, 244, 79, 24>>)
  /\ AesHmac(key, ksn, Text17, "HMAC128", "response") = Ok(<<37, 94, 8, 233, 27, 181, 175, 253, 38, 198, 149, 17, 15, 171, 81, 103, 171, 54, 201, 163, 198, 28, 120, 189, 36, 1, 41, 42, 142, 254, 124, 10>>)
  /\ AesEncryptData(key, ksn, <<>>, Text17, "AES128", "request") = Ok(<<226, 137, 195, 42, 8, 74, 57, 65, 154, 108, 20, 125, 228, 11, 83, 166, 123, 171, 226, 189, 34, 220, 61, 94, 224, 155, 0, 46, 131, 185, 58, 206>>)
  /\ AesEncryptData(key, ksn, <<>>, Text17, "AES128", "response") = Ok(<<15, 68, 13, 147, 33, 193, 171, 190, 249, 202, 112, 8, 180, 12, 241, 139, 48, 69, 168, 77, 84, 53, 214, 207, 154, 73, 85, 227, 69, 28, 73, 233>>)
  /\ AesDecryptData(key, ksn, <<226, 137, 195, 42, 8, 74, 57, 65, 154, 108, 20, 125, 228, 11, 83, 166, 123, 171, 226, 189, 34, 220, 61, 94, 224, 155, 0, 46, 131, 185, 58, 206>>, <<>>, "AES128", "request") = Ok(PadZero(Text17, 16))
ASSUME LET ksn == <<18, 52, 86, 120, 144, 18, 52, 86, 0, 0, 0, 4>>  key == <<14, 239, 199, 173, 166, 40, 186, 104, 135, 141, 169, 22, 90, 138, 24, 135>> IN
  /\ TransactionAesKey(AesIk, ksn) = Ok(key)
  /\ AesCmac(key, ksn, Text17, "AES128", "request") = Ok(<<119, 187, 211, 251, 130, 113, 88, 185, 177, 40, 128, 176, 121, 77, 28, 116>>)
  /\ AesCmac(key, ksn, Text17, "AES128", "response") = Ok(<<81, 253, 225, 146, 188, 72, 79, 118, 154, 160, 168, 111, 139, 197, 203, 48>>)
  /\ AesHmac(key, ksn, Text17, "HMAC128", "request") = Ok(<<94, 60, 115, 76, 65, 73, 106, 16, 19, 11, 228, 21, 203, 219, 142, 79, 144, 39, 37, 9, 151, 128, 61, 199, 66, 212, 152, 129, 35, 194, 150, 63>>)
  /\ AesHmac(key, ksn, Text17, "HMAC128", "response") = Ok(<<100, 147, 228, 219, 130, 228, 172, 251, 58, 163, 131, 14, 190, 247, 54, 90, 49, 176, 215, 227, 180, 99, 48, 79, 179, 235, 188, 55, 42, 134, 98, 146>>)
  /\ AesEncryptData(key, ksn, <<>>, Text17, "AES128", "request") = Ok(<<208, 116, 192, 248, 24, 102, 120, 27, 146, 208, 8, 200, 234, 106, 57, 71, 49, 155, 148, 54, 28, 126, 205, 60, 23, 54, 2, 14, 13, 87, 230, 41>>)
  /\ AesEncryptData(key, ksn, <<>>, Text17, "AES128", "response") = Ok(<<8, 163, 212, 251, 36, 233, 202, 72, 100, 246, 62, 26, 181, 24, 198, 147, 39, 216, 122, 106, 112, 155, 147, 54, 227, 230, 15, 167, 243, 18, 117, 154>>)
  /\ AesDecryptData(key, ksn, <<208, 116, 192, 248, 24, 102, 120, 27, 146, 208, 8, 200, 234, 106, 57, 71, 49, 155, 148, 54, 28, 126, 205, 60, 23, 54, 2, 14, 13, 87, 230, 41>>, <<>>, "AES128", "request") = Ok(PadZero(Text17, 16))
ASSUME LET ksn == <<18, 52, 86, 120, 144, 18, 52, 86, 0, 0, 0, 5>>  key == <<194, 167, 172, 50, 138, 93, 162, 214, 0, 45, 98, 70, 91, 252, 2, 139>> IN
  /\ TransactionAesKey(AesIk, ksn) = Ok(key)
  /\ AesCmac(key, ksn, Text17, "AES128", "request") = Ok(<<192, 206, 109, 161, 244, 67, 74, 209, 110, 238, 191, 72, 108, 150, 22, 205>>)
  /\ AesCmac(key, ksn, Text17, "AES128", "response") = Ok(<<75, 80, 143, 81, 16, 77, 24, 74, 145, 144, 6, 30, 216, 84, 32, 14>>)
  /\ AesHmac(key, ksn, Text17, "HMAC128", "request") = Ok(<<228, 157, 149, 253, 56, 223, 78, 57, 55, 31, 214, 253, 7, 137, 225, 162, 233, 166, 99, 226, 7, 100, 191, 147, 91, 69, 126, 206, 234, 228, 108, 189>>)
  /\ AesHmac(key, ksn, Text17, "HMAC128", "response") = Ok(<<64, 28, 187, 88, 78, 72, 195, 224, 138, 33, 42, 49, 23, 224, 135, 82, 13, 56, 228, 236, 5, 71, 73, 116, 125, 20, 53, 180, 33, 201, 220, 230>>)
  /\ AesEncryptData(key, ksn, <<>>, Text17, "AES128", "request") = Ok(<<143, 34, 45, 121, 174, 127, 148, 43, 247, 77, 62, 169, 227, 100, 192, 0, 13, 12, 148, 173, 126, 160, 168, 204, 242, 51, 48, 252, 164, 177, 208, 208>>)
  /\ AesEncryptData(key, ksn, <<>>, Text17, "AES128", "response") = Ok(<<64, 14, 103, 162, 39, 149, 70, 124, 20, 93, 122, 93, 36, 117, 223, 216, 4, 28, 35, 60, 110, 45, 0, 76, 237, 190, 186, 37, 174, 92, 225, 167>>)
  /\ AesDecryptData(key, ksn, <<143, 34, 45, 121, 174, 127, 148, 43, 247, 77, 62, 169, 227, 100, 192, 0, 13, 12, 148, 173, 126, 160, 168, 204, 242, 51, 48, 252, 164, 177, 208, 208>>, <<>>, "AES128", "request") = Ok(PadZero(Text17, 16))
ASSUME LET ksn == <<18, 52, 86, 120, 144, 18, 52, 86, 0, 0, 0, 6>>  key == <<211, 15, 125, 147, 81, 218, 88, 68, 138, 47, 94, 146, 180, 238, 59, 125>> IN
  /\ TransactionAesKey(AesIk, ksn) = Ok(key)
  /\ AesCmac(key, ksn, Text17, "AES128", "request") = Ok(<<5, 34, 42, 233, 20, 113, 197, 144, 179, 169, 71, 21, 35, 50, 76, 20>>)
  /\ AesCmac(key, ksn, Text17, "AES128", "response") = Ok(<<237, 144, 189, 138, 228, 87, 28, 117, 207, 8, 234, 62, 161, 149, 171, 248>>)
  /\ AesHmac(key, ksn, Text17, "HMAC128", "request") = Ok(<<213, 182, 19, 144, 53, 35, 66, 210, 2, 125, 253, 18, 15, 50, 231, 120, 49, 179, 43, 243, 71, 0, 251, 168, 35, 45, 128, 120, 13, 73, 39, 102>>)
  /\ AesHmac(key, ksn, Text17, "HMAC128", "response") = Ok(<<102, 68, 89, 78, 124, 134, 124, 43, 240, 251, 167, 240, 12, 175, 46, 24, 72, 35, 174, 13, 156, 64, 252, 170, 111, 72, 163, 96, 87, 55, 9, 77>>)
  /\ AesEncryptData(key, ksn, <<>>, Text17, "AES128", "request") = Ok(<<25, 194, 84, 176, 73, 140, 189, 50, 229, 151, 216, 130, 183, 217, 147, 81, 57, 148, 238, 145, 56, 54, 230, 87, 17, 234, 65, 248, 212, 179, 71, 40>>)
  /\ AesEncryptData(key, ksn, <<>>, Text17, "AES128", "response") = Ok(<<21, 36, 240, 39, 104, 93, 205, 167, 25, 126, 13, 227, 203, 135, 239, 131, 198, 214, 29, 46, 72, 61, 71, 103, 140, 73, 20, 222, 194, 50, 11, 8>>)
  /\ AesDecryptData(key, ksn, <<25, 194, 84, 176, 73, 140, 189, 50, 229, 151, 216, 130, 183, 217, 147, 81, 57, 148, 238, 145, 56, 54, 230, 87, 17, 234, 65, 248, 212, 179, 71, 40>>, <<>>, "AES128", "request") = Ok(PadZero(Text17, 16))
ASSUME LET ksn == <<18, 52, 86, 120, 144, 18, 52, 86, 0, 0, 0, 7>>  key == <<168, 37, 60, 238, 217, 172, 4, 44, 84, 247, 93, 53, 200, 53, 34, 120>> IN
  /\ TransactionAesKey(AesIk, ksn) = Ok(key)
  /\ AesCmac(key, ksn, Text17, "AES128", "request") = Ok(<<55, 250, 84, 37, 138, 175, 128, 90, 68, 170, 18, 115, 192, 223, 146, 140>>)
  /\ AesCmac(key, ksn, Text17, "AES128", "response") = Ok(<<82, 214, 193, 211, 169, 91, 29, 33, 118, 30, 32, 135, 13, 154, 126, 140>>)
  /\ AesHmac(key, ksn, Text17, "HMAC128", "request") = Ok(<<224, 164, 29, 82, 180, 76, 150, 213, 215, 48, 187, 13, 194, 247, 71, 231, 254, 89, 112, 206, 88, 192, 4, 60, 66, 205, 55, 105, 246, 202, 57, 37>>)
  /\ AesHmac(key, ksn, Text17, "HMAC128", "response") = Ok(<<85, 240, 150, 232, 158, 86, 162, 116, 56, 246, 208, 26, 109, 203, 249, 211, 150, 226, 158, 160, 118, 195, 204, 152, 35, 178, 187, 89, 150, 237, 23, 238>>)
  /\ AesEncryptData(key, ksn, <<>>, Text17, "AES128", "request") = Ok(<<7, 16, 200, 240, 235, 19, 102, 41, 227, 10, 223, 177, 72, 86, 47, 111, 128, 183, 134, 236, 16, 116, 66, 139, 124, 117, 17, 183, 48, 30, 170, 240>>)
  /\ AesEncryptData(key, ksn, <<>>, Text17, "AES128", "response") = Ok(<<140, 160, 132, 242, 31, 89, 156, 115, 97, 200, 242, 177, 86, 93, 153, 55, 121, 198, 46, 195, 73, 111, 1, 19, 223, 23, 181, 194, 158, 164, 228, 4>>)
  /\ AesDecryptData(key, ksn, <<7, 16, 200, 240, 235, 19, 102, 41, 227, 10, 223, 177, 72, 86, 47, 111, 128, 183, 134, 236, 16, 116, 66, 139, 124, 117, 17, 183, 48, 30, 170, 240>>, <<>>, "AES128", "request") = Ok(PadZero(Text17, 16))
ASSUME LET ksn == <<18, 52, 86, 120, 144, 18, 52, 86, 0, 0, 0, 8>>  key == <<113, 142, 230, 207, 11, 39, 229, 61, 95, 122, 249, 156, 77, 129, 70, 162>> IN
  /\ TransactionAesKey(AesIk, ksn) = Ok(key)
  /\ AesCmac(key, ksn, Text17, "AES128", "request") = Ok(<<133, 199, 202, 104, 245, 95, 81, 231, 220, 172, 150, 155, 140, 17, 17, 48>>)
  /\ AesCmac(key, ksn, Text17, "AES128", "response") = Ok(<<180, 83, 153, 219, 144, 192, 186, 117, 219, 75, 134, 96, 87, 88, 105, 90>>)
  /\ AesHmac(key, ksn, Text17, "HMAC128", "request") = Ok(<<215, 202, 177, 117, 150, 230, 209, 147, 184, 62, 14, 19, 202, 179, 90, 23, 155, 114, 150, 220, 4, 164, 45, 129, 69, 185, 223, 110, 96, 162, 164, 127>>)
  /\ AesHmac(key, ksn, Text17, "HMAC128", "response") = Ok(<<50, 64, 60, 23, 13, 208, 122, 124, 130, 50, 71, 223, 55, 100, 157, 73, 253, 233, 5, 72, 45, 27, 28, 106, 98, 224, 62, 115, 95, 162, 227, 132>>)
  /\ AesEncryptData(key, ksn, <<>>, Text17, "AES128", "request") = Ok(<<48, 78, 194, 84, 167, 181, 40, 217, 137, 46, 71, 247, 193, 49, 93, 73, 140, 13, 136, 234, 140, 215, 28, 165, 45, 56, 243, 98, 114, 26, 234, 103>>)
  /\ AesEncryptData(key, ksn, <<>>, Text17, "AES128", "response") = Ok(<<140, 209, 165, 69, 56, 185, 220, 121, 165, 223, 69, 68, 173, 232, 209, 241, 160, 133, 172, 31, 137, 170, 89, 191, 244, 147, 81, 166, 137, 87, 222, 27>>)
  /\ AesDecryptData(key, ksn, <<48, 78, 194, 84, 167, 181, 40, 217, 137, 46, 71, 247, 193, 49, 93, 73, 140, 13, 136, 234, 140, 215, 28, 165, 45, 56, 243, 98, 114, 26, 234, 103>>, <<>>, "AES128", "request") = Ok(PadZero(Text17, 16))
ASSUME PrintT("known answers: all as published")
=============================================================================
