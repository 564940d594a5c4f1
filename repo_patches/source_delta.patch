From f255f5ac5fcc63629a4d8da86357f9f554b6bbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:31 +0000
Subject: [PATCH 01/19] fix: report exhaustion after the last AES transaction
 counter

GenerateNextAesKsn returned the invalid KSN ...FFFF0001 (17 one bits) when
asked for the successor of ...FFFF0000, the last valid counter.
---
 pkg/util.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/util.go b/pkg/util.go
index 5e04b4d..a2c6c14 100644
--- a/pkg/util.go
+++ b/pkg/util.go
@@ -73,6 +73,10 @@ func GenerateNextAesKsn(ksn []byte) ([]byte, error) {
 		tc += lsbSetBit
 	}
 
+	if tc > tcMax {
+		return nil, errors.New("transaction already counter exhausted")
+	}
+
 	tcMsb := make([]byte, 4)
 	binary.BigEndian.PutUint32(tcMsb, tc)
 
-- 
2.43.0


From 80febfb9bf2fa117493917a3dcc7ec626edccc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:32 +0000
Subject: [PATCH 02/19] fix: do not overwrite the caller's KSN when generating
 the next one

---
 pkg/util.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/pkg/util.go b/pkg/util.go
index a2c6c14..c2c8978 100644
--- a/pkg/util.go
+++ b/pkg/util.go
@@ -80,7 +80,8 @@ func GenerateNextAesKsn(ksn []byte) ([]byte, error) {
 	tcMsb := make([]byte, 4)
 	binary.BigEndian.PutUint32(tcMsb, tc)
 
-	result := append(ksn[:8], tcMsb...)
+	result := append([]byte{}, ksn[:8]...)
+	result = append(result, tcMsb...)
 	return result, nil
 }
 
@@ -125,15 +126,16 @@ func GenerateNextDesKsn(ksn []byte) ([]byte, error) {
 		return nil, errors.New("transaction already counter exhausted")
 	}
 
+	result := append([]byte{}, ksn...)
 	{
-		length := len(ksn)
-		ksn[length-1] = byte(tc)
-		ksn[length-2] = byte(tc >> 8)
-		ksn[length-3] &= 0xE0
-		ksn[length-3] |= byte(tc >> 16)
+		length := len(result)
+		result[length-1] = byte(tc)
+		result[length-2] = byte(tc >> 8)
+		result[length-3] &= 0xE0
+		result[length-3] |= byte(tc >> 16)
 	}
 
-	return ksn, nil
+	return result, nil
 }
 
 func IsValidAesKsn(ksn []byte) bool {
-- 
2.43.0


From 720d6cf98bf0c3147266eff2cc96b6950e0b2242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:34 +0000
Subject: [PATCH 03/19] fix: reject malformed KSNs instead of panicking in the
 next KSN generators

---
 pkg/util.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/util.go b/pkg/util.go
index c2c8978..d4c82ab 100644
--- a/pkg/util.go
+++ b/pkg/util.go
@@ -49,6 +49,10 @@ func GetAesTcFromKsn(ksn []byte) uint32 {
 }
 
 func GenerateNextAesKsn(ksn []byte) ([]byte, error) {
+	if len(ksn) != 12 {
+		return nil, errors.New("key serial number length must be 12 bytes")
+	}
+
 	var tcMax uint32 = 0xFFFF0000
 	tc := GetAesTcFromKsn(ksn)
 
@@ -97,6 +101,10 @@ func GetDesTcFromKsn(ksn []byte) uint32 {
 }
 
 func GenerateNextDesKsn(ksn []byte) ([]byte, error) {
+	if len(ksn) <= 3 || len(ksn) > 10 {
+		return nil, errors.New("key serial number length must be between 4 and 10 bytes")
+	}
+
 	var tcMax uint32 = 0x1FF800
 	tc := GetDesTcFromKsn(ksn)
 
-- 
2.43.0


From ef12f0ce393209ddbfff87a210fca7d0299bdd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:21 +0000
Subject: [PATCH 04/19] fix: do not write the working counter into the caller's
 AES KSN

createDerivationData appended to a sub-slice of the KSN argument, overwriting
its counter bytes while a key was being derived: concurrent derivations from
one KSN slice returned wrong keys and could leave the KSN changed.
---
 pkg/aes/aes_internal.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/aes/aes_internal.go b/pkg/aes/aes_internal.go
index b890cd5..250d7fe 100644
--- a/pkg/aes/aes_internal.go
+++ b/pkg/aes/aes_internal.go
@@ -187,7 +187,8 @@ func createDerivationData(keyUsage uint16, keyType string, initialKeyID []byte,
 	default:
 		tcBuf := make([]byte, 4)
 		binary.BigEndian.PutUint32(tcBuf, tc)
-		data.InitialKeyID = append(initialKeyID[derivationKeyIdLength:derivationKeyIdLength+derivationIdLength], tcBuf...)
+		data.InitialKeyID = append([]byte{}, initialKeyID[derivationKeyIdLength:derivationKeyIdLength+derivationIdLength]...)
+		data.InitialKeyID = append(data.InitialKeyID, tcBuf...)
 	}
 
 	return &data, nil
-- 
2.43.0


From 0692f9d8a3878e637dc5afd72b7ed5c74611b3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:23 +0000
Subject: [PATCH 05/19] fix: reject malformed AES KSNs instead of panicking

---
 pkg/aes/aes.go          | 10 +++++++++-
 pkg/aes/aes_internal.go |  6 ++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/pkg/aes/aes.go b/pkg/aes/aes.go
index 783fbae..744f3fa 100644
--- a/pkg/aes/aes.go
+++ b/pkg/aes/aes.go
@@ -45,7 +45,11 @@ func DerivationOfInitialKey(bdk, ksn []byte) ([]byte, error) {
 		return nil, err
 	}
 
-	derivationData, err := createDerivationData(usageForKeyInitialKey, keyType, ksn[:8], 0)
+	if len(ksn) < initialKeyIdLength {
+		return nil, fmt.Errorf("initial key id length must be at least %d bytes", initialKeyIdLength)
+	}
+
+	derivationData, err := createDerivationData(usageForKeyInitialKey, keyType, ksn[:initialKeyIdLength], 0)
 	if err != nil {
 		return nil, err
 	}
@@ -71,6 +75,10 @@ func DeriveCurrentTransactionKey(ik, ksn []byte) ([]byte, error) {
 		return nil, err
 	}
 
+	if len(ksn) != keySerialLength {
+		return nil, errKeySerialLength
+	}
+
 	transactionKey := make([]byte, len(ik))
 	copy(transactionKey, ik)
 
diff --git a/pkg/aes/aes_internal.go b/pkg/aes/aes_internal.go
index 250d7fe..c7f2b19 100644
--- a/pkg/aes/aes_internal.go
+++ b/pkg/aes/aes_internal.go
@@ -14,8 +14,11 @@ const (
 	derivationIdLength       = 4
 	initialKeyIdLength       = derivationKeyIdLength + derivationIdLength
 	transactionCounterLength = 4
+	keySerialLength          = initialKeyIdLength + transactionCounterLength
 )
 
+var errKeySerialLength = errors.New("key serial number length must be 12 bytes")
+
 // Key types and bits for AES
 //
 //	6.2.1 and 6.2.2
@@ -185,6 +188,9 @@ func createDerivationData(keyUsage uint16, keyType string, initialKeyID []byte,
 		data.InitialKeyID = make([]byte, initialKeyIdLength)
 		copy(data.InitialKeyID, initialKeyID)
 	default:
+		if len(initialKeyID) != keySerialLength {
+			return nil, errKeySerialLength
+		}
 		tcBuf := make([]byte, 4)
 		binary.BigEndian.PutUint32(tcBuf, tc)
 		data.InitialKeyID = append([]byte{}, initialKeyID[derivationKeyIdLength:derivationKeyIdLength+derivationIdLength]...)
-- 
2.43.0


From c0d8bde6295bbaa8bd58bcbbd24a342437f5313a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:25 +0000
Subject: [PATCH 06/19] fix: treat initial vectors alike when encrypting and
 decrypting data

EncryptData panicked on a vector longer than a block and des.DecryptData on a
shorter one, and padding a short vector wrote into the caller's array.
---
 pkg/aes/aes.go | 27 ++++++++-------------------
 pkg/des/des.go | 25 ++++++++-----------------
 2 files changed, 16 insertions(+), 36 deletions(-)

diff --git a/pkg/aes/aes.go b/pkg/aes/aes.go
index 744f3fa..9e9a34e 100644
--- a/pkg/aes/aes.go
+++ b/pkg/aes/aes.go
@@ -330,13 +330,9 @@ func EncryptData(currentKey, ksn, iv []byte, plaintext, keyType, action string)
 		return nil, err
 	}
 
-	if iv == nil {
-		// default null
-		iv = make([]byte, aes.BlockSize)
-	}
-	if len(iv) < aes.BlockSize {
-		iv = append(iv, make([]byte, aes.BlockSize-len(iv))...)
-	}
+	// default null, short vectors are padded with zeros and long ones are truncated
+	ivBlock := make([]byte, aes.BlockSize)
+	copy(ivBlock, iv)
 
 	repeatCnt := len(plaintext) / aes.BlockSize
 	if len(plaintext)%aes.BlockSize > 0 {
@@ -352,7 +348,7 @@ func EncryptData(currentKey, ksn, iv []byte, plaintext, keyType, action string)
 		return nil, fmt.Errorf("making cipher from datakey: %w", err)
 	}
 
-	mode := cipher.NewCBCEncrypter(block, iv)
+	mode := cipher.NewCBCEncrypter(block, ivBlock)
 	mode.CryptBlocks(ciphertext, serializePlaintext)
 
 	return ciphertext, nil
@@ -398,16 +394,9 @@ func DecryptData(currentKey, ksn, ciphertext, iv []byte, keyType, action string)
 		return "", err
 	}
 
-	if iv == nil {
-		// default null
-		iv = make([]byte, aes.BlockSize)
-	}
-
-	if len(iv) < aes.BlockSize {
-		iv = append(iv, make([]byte, aes.BlockSize-len(iv))...)
-	} else if len(iv) > aes.BlockSize {
-		iv = iv[:aes.BlockSize]
-	}
+	// default null, short vectors are padded with zeros and long ones are truncated
+	ivBlock := make([]byte, aes.BlockSize)
+	copy(ivBlock, iv)
 
 	repeatCnt := len(ciphertext) / aes.BlockSize
 	if len(ciphertext)%aes.BlockSize > 0 {
@@ -423,7 +412,7 @@ func DecryptData(currentKey, ksn, ciphertext, iv []byte, keyType, action string)
 		return "", fmt.Errorf("making cipher from datakey: %w", err)
 	}
 
-	mode := cipher.NewCBCDecrypter(block, iv)
+	mode := cipher.NewCBCDecrypter(block, ivBlock)
 	mode.CryptBlocks(plaintext, serializePlaintext)
 
 	return string(plaintext), nil
diff --git a/pkg/des/des.go b/pkg/des/des.go
index 1d07bd6..a0d0777 100644
--- a/pkg/des/des.go
+++ b/pkg/des/des.go
@@ -311,15 +311,11 @@ func EncryptData(currentKey, iv []byte, plainText, action string) ([]byte, error
 	ciphertext := make([]byte, len(serializePlaintext))
 	// A.4.1 Variants of the Current Key
 	// 	Encryption of the data should use T-DEA in CBC mode.
-	if iv == nil {
-		// default null
-		iv = make([]byte, desBlockLen)
-	}
-	if len(iv) < desBlockLen {
-		iv = append(iv, make([]byte, desBlockLen-len(iv))...)
-	}
+	// default null, short vectors are padded with zeros and long ones are truncated
+	ivBlock := make([]byte, desBlockLen)
+	copy(ivBlock, iv)
 
-	mode := cipher.NewCBCEncrypter(dataCipher.GetBlock(), iv)
+	mode := cipher.NewCBCEncrypter(dataCipher.GetBlock(), ivBlock)
 	mode.CryptBlocks(ciphertext, serializePlaintext)
 
 	return ciphertext, nil
@@ -382,16 +378,11 @@ func DecryptData(currentKey, ciphertext, iv []byte, action string) (string, erro
 	plaintext := make([]byte, len(serializePlaintext))
 	// A.4.1 Variants of the Current Key
 	// 	Encryption of the data should use T-DEA in CBC mode.
-	if iv == nil {
-		// default null
-		iv = make([]byte, desBlockLen)
-	}
-
-	if len(iv) > desBlockLen {
-		iv = iv[:desBlockLen]
-	}
+	// default null, short vectors are padded with zeros and long ones are truncated
+	ivBlock := make([]byte, desBlockLen)
+	copy(ivBlock, iv)
 
-	mode := cipher.NewCBCDecrypter(dataCipher.GetBlock(), iv)
+	mode := cipher.NewCBCDecrypter(dataCipher.GetBlock(), ivBlock)
 	mode.CryptBlocks(plaintext, serializePlaintext)
 
 	return string(plaintext), nil
-- 
2.43.0


From 605ea501d2a8a919bf0e5770ea8e115364f0ed49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:27 +0000
Subject: [PATCH 07/19] fix: reject TDES keys of the wrong length

DeriveCurrentTransactionKey, GenerateMac, EncryptData and DecryptData padded a
short or missing key with zeros (or cut a long one) and went on with it.
---
 pkg/des/des.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/pkg/des/des.go b/pkg/des/des.go
index a0d0777..faa60ef 100644
--- a/pkg/des/des.go
+++ b/pkg/des/des.go
@@ -66,6 +66,10 @@ func DerivationOfInitialKey(bdk, ksn []byte) ([]byte, error) {
 //   - result is 16 bytes transaction key
 //   - err
 func DeriveCurrentTransactionKey(ik, ksn []byte) ([]byte, error) {
+	if len(ik) != keyLen {
+		return nil, fmt.Errorf("initial key length must be %d bytes", keyLen)
+	}
+
 	keyBytes := make([]byte, keyLen)
 	copy(keyBytes, ik)
 	ksnBytes := make([]byte, keySerialLen)
@@ -195,6 +199,10 @@ func DecryptPin(currentKey, ciphertext []byte, pan string, format string) (strin
 //   - result is generated mac (use the first 4 bytes of this result)
 //   - err
 func GenerateMac(currentKey []byte, plainText, action string) ([]byte, error) {
+	if len(currentKey) != keyLen {
+		return nil, fmt.Errorf("current key length must be %d bytes", keyLen)
+	}
+
 	dataKey := make([]byte, keyLen)
 	copy(dataKey, currentKey)
 
@@ -270,6 +278,10 @@ func GenerateMac(currentKey []byte, plainText, action string) ([]byte, error) {
 //   - result is encrypted data
 //   - err
 func EncryptData(currentKey, iv []byte, plainText, action string) ([]byte, error) {
+	if len(currentKey) != keyLen {
+		return nil, fmt.Errorf("current key length must be %d bytes", keyLen)
+	}
+
 	dataKey := make([]byte, keyLen)
 	copy(dataKey, currentKey)
 
@@ -338,6 +350,10 @@ func EncryptData(currentKey, iv []byte, plainText, action string) ([]byte, error
 //   - result is transaction request data ( must be a multiple of tdes block length [8])
 //   - err
 func DecryptData(currentKey, ciphertext, iv []byte, action string) (string, error) {
+	if len(currentKey) != keyLen {
+		return "", fmt.Errorf("current key length must be %d bytes", keyLen)
+	}
+
 	dataKey := make([]byte, keyLen)
 	copy(dataKey, currentKey)
 
-- 
2.43.0


From 05938532c0194561cecbff185943d7214666f840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:29 +0000
Subject: [PATCH 08/19] fix: reject missing and overlong TDES KSNs

A missing KSN (or one that is not hexadecimal) was padded to ten FF bytes and a
long one lost its counter, and keys were derived from the result.
---
 pkg/des/des.go          | 10 ++++++++--
 pkg/des/des_internal.go |  8 ++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/pkg/des/des.go b/pkg/des/des.go
index faa60ef..3faed7d 100644
--- a/pkg/des/des.go
+++ b/pkg/des/des.go
@@ -31,7 +31,10 @@ func DerivationOfInitialKey(bdk, ksn []byte) ([]byte, error) {
 		return nil, fmt.Errorf("base derivative key length must be %d bytes", keyLen)
 	}
 
-	ksnBytes := serializeKeySerialNumber(ksn)
+	ksnBytes, err := serializeKeySerialNumber(ksn)
+	if err != nil {
+		return nil, err
+	}
 	removeTransactionCounter(ksnBytes)
 
 	leftCipher, _ := encryption.NewTripleDesECB(bdk)
@@ -73,7 +76,10 @@ func DeriveCurrentTransactionKey(ik, ksn []byte) ([]byte, error) {
 	keyBytes := make([]byte, keyLen)
 	copy(keyBytes, ik)
 	ksnBytes := make([]byte, keySerialLen)
-	serializedKsn := serializeKeySerialNumber(ksn)
+	serializedKsn, err := serializeKeySerialNumber(ksn)
+	if err != nil {
+		return nil, err
+	}
 	copy(ksnBytes, serializedKsn)
 
 	removeTransactionCounter(ksnBytes)
diff --git a/pkg/des/des_internal.go b/pkg/des/des_internal.go
index ad12432..737697e 100644
--- a/pkg/des/des_internal.go
+++ b/pkg/des/des_internal.go
@@ -14,7 +14,11 @@ const (
 	desBlockLen  = 8
 )
 
-func serializeKeySerialNumber(ksn []byte) []byte {
+func serializeKeySerialNumber(ksn []byte) ([]byte, error) {
+	if len(ksn) == 0 || len(ksn) > keySerialLen {
+		return nil, fmt.Errorf("key serial number length must be between 1 and %d bytes", keySerialLen)
+	}
+
 	var ksnBytes []byte
 
 	// If the key serial number is less than 10 bytes, pad to the left with hex "FF" bytes
@@ -25,7 +29,7 @@ func serializeKeySerialNumber(ksn []byte) []byte {
 		copy(ksnBytes, ksn)
 	}
 
-	return ksnBytes
+	return ksnBytes, nil
 }
 
 // Extract transaction counter value from KSN. The transaction counter is the last 21 bits of the KSN.
-- 
2.43.0


From c20e7278e583f7a54c2ae806451ea03dc10a1375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:31 +0000
Subject: [PATCH 09/19] fix: decode decrypted TDES PIN blocks in upper case

The VISA-3 decoder looks for the delimiter F, so no VISA3 PIN block could be
decrypted.
---
 pkg/des/des.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/des/des.go b/pkg/des/des.go
index 3faed7d..d463002 100644
--- a/pkg/des/des.go
+++ b/pkg/des/des.go
@@ -182,7 +182,7 @@ func DecryptPin(currentKey, ciphertext []byte, pan string, format string) (strin
 		return "", err
 	}
 
-	pinstr, err := formatter.Decode(pkg.HexEncode(pinBlock), pan)
+	pinstr, err := formatter.Decode(strings.ToUpper(pkg.HexEncode(pinBlock)), pan)
 	if err != nil {
 		return "", err
 	}
-- 
2.43.0


From de6ffdac54dbd75c2598e4199e61d4e8af108774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:33 +0000
Subject: [PATCH 10/19] fix: return an error for PIN blocks the decoder cannot
 parse

Decrypting with a wrong key, PAN or cipher text could panic in the ISO-0 and
ISO-3 decoders when the length digit of the block was above 9.
---
 pkg/des/des.go          |  7 +------
 pkg/des/des_internal.go | 15 +++++++++++++++
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/pkg/des/des.go b/pkg/des/des.go
index d463002..3555ac6 100644
--- a/pkg/des/des.go
+++ b/pkg/des/des.go
@@ -182,12 +182,7 @@ func DecryptPin(currentKey, ciphertext []byte, pan string, format string) (strin
 		return "", err
 	}
 
-	pinstr, err := formatter.Decode(strings.ToUpper(pkg.HexEncode(pinBlock)), pan)
-	if err != nil {
-		return "", err
-	}
-
-	return pinstr, nil
+	return decodePinblock(formatter, strings.ToUpper(pkg.HexEncode(pinBlock)), pan)
 }
 
 // Generate MAC using DUKPT transaction key
diff --git a/pkg/des/des_internal.go b/pkg/des/des_internal.go
index 737697e..f5209a7 100644
--- a/pkg/des/des_internal.go
+++ b/pkg/des/des_internal.go
@@ -3,8 +3,11 @@ package des
 import (
 	"bytes"
 	"crypto/des" //nolint:gosec
+	"errors"
 	"fmt"
+
 	"github.com/moov-io/dukpt/encryption"
+	"github.com/moov-io/pinblock/formats"
 )
 
 const (
@@ -143,3 +146,15 @@ func decryptPinblock(currentKey, ciphertext []byte) ([]byte, error) {
 
 	return cipher.Decrypt(ciphertext)
 }
+
+// decodePinblock extracts the PIN from a decrypted block. The block may be anything when the key, the PAN or the
+// cipher text is not the expected one, and the ISO-0 and ISO-3 decoders index with its length digit unchecked.
+func decodePinblock(formatter formats.Format, pinblock, pan string) (pin string, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			pin, err = "", errors.New("unable to parse pin block")
+		}
+	}()
+
+	return formatter.Decode(pinblock, pan)
+}
-- 
2.43.0


From c52a0d79518aaac3d4f1f04490784028ab1e4eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:07 +0000
Subject: [PATCH 11/19] fix: decrypt in the decrypt_pin and decrypt_data
 endpoints

Both endpoints encrypted their input.
---
 pkg/server/handlers.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/server/handlers.go b/pkg/server/handlers.go
index 2913645..ef8a0d4 100644
--- a/pkg/server/handlers.go
+++ b/pkg/server/handlers.go
@@ -274,7 +274,7 @@ func decryptPinEndpoint(s Service) endpoint.Endpoint {
 		}
 
 		resp := decryptPinResponse{}
-		decrypted, err := s.EncryptPin(req.ik, req.encrypted, req.pan, req.format)
+		decrypted, err := s.DecryptPin(req.ik, req.encrypted, req.pan, req.format)
 		if err != nil {
 			resp.Err = err
 			return resp, nil
@@ -445,7 +445,7 @@ func decryptDataEndpoint(s Service) endpoint.Endpoint {
 		}
 
 		resp := decryptDataResponse{}
-		decrypted, err := s.EncryptData(req.ik, req.data, req.action, req.iv)
+		decrypted, err := s.DecryptData(req.ik, req.data, req.action, req.iv)
 		if err != nil {
 			resp.Err = err
 			return resp, nil
-- 
2.43.0


From 98f19a5b2ccd3056ac66f0c4a63e7a0d41511ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:09 +0000
Subject: [PATCH 12/19] fix: keep a machine's KSN and transaction key
 consistent

The service advanced the stored machine without a lock and handed out (and kept)
pointers to it: concurrent MakeNextKSN calls returned the same KSN, other calls
could see a new KSN with the old key, and a repeated CreateMachine with the
caller's machine reset the key of the stored one before failing.
---
 pkg/server/service.go | 54 ++++++++++++++++++++++++++++++++-----------
 1 file changed, 40 insertions(+), 14 deletions(-)

diff --git a/pkg/server/service.go b/pkg/server/service.go
index 0392333..cb0ccc5 100644
--- a/pkg/server/service.go
+++ b/pkg/server/service.go
@@ -3,6 +3,7 @@ package server
 import (
 	"errors"
 	"fmt"
+	"sync"
 
 	"github.com/moov-io/dukpt/pkg"
 	"github.com/moov-io/dukpt/pkg/aes"
@@ -29,6 +30,7 @@ type Service interface {
 
 // service a concrete implementation of the service.
 type service struct {
+	mtx   sync.RWMutex // guards the content of the stored machines
 	store Repository
 }
 
@@ -61,40 +63,62 @@ func (s *service) CreateMachine(m *Machine) error {
 		return err
 	}
 
-	m.InitialKey = ik
-
 	// getting transaction key
 	params.IK = ik
-	m.TransactionKey, err = TransactionKey(params)
+	tk, err := TransactionKey(params)
 	if err != nil {
 		return err
 	}
 
-	if err = s.store.StoreMachine(m); err != nil {
+	// the service keeps its own copy, m stays with the caller
+	stored := *m
+	stored.InitialKey = ik
+	stored.CurrentKSN = m.KeySerialNumber
+	stored.TransactionKey = tk
+
+	created := stored
+	if err = s.store.StoreMachine(&stored); err != nil {
 		return err
 	}
+	*m = created
 
 	return nil
 }
 
 // GetMachine returns a machine based on the supplied initial key
 func (s *service) GetMachine(ik string) (*Machine, error) {
+	s.mtx.RLock()
+	defer s.mtx.RUnlock()
+
 	f, err := s.store.FindMachine(ik)
 	if err != nil {
 		return nil, ErrNotFound
 	}
-	return f, nil
+	found := *f
+	return &found, nil
 }
 
 func (s *service) GetMachines() []*Machine {
-	return s.store.FindAllMachines()
+	s.mtx.RLock()
+	defer s.mtx.RUnlock()
+
+	stored := s.store.FindAllMachines()
+	machines := make([]*Machine, 0, len(stored))
+	for i := range stored {
+		m := *stored[i]
+		machines = append(machines, &m)
+	}
+	return machines
 }
 
 // MakeNextKSN does to generate next ksn
 func (s *service) MakeNextKSN(ik string) (*Machine, error) {
-	m, err := s.GetMachine(ik)
+	s.mtx.Lock()
+	defer s.mtx.Unlock()
+
+	m, err := s.store.FindMachine(ik)
 	if err != nil {
-		return nil, fmt.Errorf("make next ksn: %v(%s)", err, ik)
+		return nil, fmt.Errorf("make next ksn: %v(%s)", ErrNotFound, ik)
 	}
 
 	var nextKsn []byte
@@ -110,21 +134,23 @@ func (s *service) MakeNextKSN(ik string) (*Machine, error) {
 		}
 	}
 
-	// update machine
-	m.CurrentKSN = pkg.HexEncode(nextKsn)
-
 	params := UnifiedParams{
 		Algorithm:    m.Algorithm,
 		AlgorithmKey: m.AlgorithmKey,
-		KSN:          m.CurrentKSN,
+		KSN:          pkg.HexEncode(nextKsn),
 		IK:           ik,
 	}
-	m.TransactionKey, err = TransactionKey(params)
+	tk, err := TransactionKey(params)
 	if err != nil {
 		return nil, err
 	}
 
-	return m, err
+	// update machine
+	m.CurrentKSN = params.KSN
+	m.TransactionKey = tk
+
+	updated := *m
+	return &updated, nil
 }
 
 func (s *service) DeleteMachine(ik string) error {
-- 
2.43.0


From 61a6d63e8f63298b029f27b04b96a90babafc7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:11 +0000
Subject: [PATCH 13/19] fix: report failed requests with an error status and
 message

No response type implemented errorer, so every failure was answered with status
200 and "error":{}.
---
 pkg/server/handlers.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/pkg/server/handlers.go b/pkg/server/handlers.go
index ef8a0d4..88c7a34 100644
--- a/pkg/server/handlers.go
+++ b/pkg/server/handlers.go
@@ -34,6 +34,8 @@ type getMachinesResponse struct {
 	Err      error      `json:"error"`
 }
 
+func (r getMachinesResponse) error() error { return r.Err }
+
 func decodeGetMachinesRequest(_ context.Context, request *http.Request) (interface{}, error) {
 	return getMachinesRequest{
 		requestID: moovhttp.GetRequestID(request),
@@ -59,6 +61,8 @@ type findMachineResponse struct {
 	Err     error    `json:"error"`
 }
 
+func (r findMachineResponse) error() error { return r.Err }
+
 func decodeFindMachineRequest(_ context.Context, request *http.Request) (interface{}, error) {
 	req := findMachineRequest{
 		requestID: moovhttp.GetRequestID(request),
@@ -98,6 +102,8 @@ type createMachineResponse struct {
 	Err     error    `json:"error"`
 }
 
+func (r createMachineResponse) error() error { return r.Err }
+
 func decodeCreateMachineRequest(_ context.Context, request *http.Request) (interface{}, error) {
 	req := createMachineRequest{
 		requestID: moovhttp.GetRequestID(request),
@@ -143,6 +149,8 @@ type generateKSNResponse struct {
 	Err error  `json:"error"`
 }
 
+func (r generateKSNResponse) error() error { return r.Err }
+
 func decodeGenerateKSNRequest(_ context.Context, request *http.Request) (interface{}, error) {
 	req := generateKSNRequest{
 		requestID: moovhttp.GetRequestID(request),
@@ -184,6 +192,8 @@ type encryptPinResponse struct {
 	Err       error  `json:"error"`
 }
 
+func (r encryptPinResponse) error() error { return r.Err }
+
 func decodeEncryptPinRequest(_ context.Context, request *http.Request) (interface{}, error) {
 	req := encryptPinRequest{
 		requestID: moovhttp.GetRequestID(request),
@@ -241,6 +251,8 @@ type decryptPinResponse struct {
 	Err       error  `json:"error"`
 }
 
+func (r decryptPinResponse) error() error { return r.Err }
+
 func decodeDecryptPinRequest(_ context.Context, request *http.Request) (interface{}, error) {
 	req := decryptPinRequest{
 		requestID: moovhttp.GetRequestID(request),
@@ -298,6 +310,8 @@ type generateMacResponse struct {
 	Err       error  `json:"error"`
 }
 
+func (r generateMacResponse) error() error { return r.Err }
+
 func decodeGenerateMacRequest(_ context.Context, request *http.Request) (interface{}, error) {
 	req := generateMacRequest{
 		requestID: moovhttp.GetRequestID(request),
@@ -355,6 +369,8 @@ type encryptDataResponse struct {
 	Err       error  `json:"error"`
 }
 
+func (r encryptDataResponse) error() error { return r.Err }
+
 func decodeEncryptDataRequest(_ context.Context, request *http.Request) (interface{}, error) {
 	req := encryptDataRequest{
 		requestID: moovhttp.GetRequestID(request),
@@ -412,6 +428,8 @@ type decryptDataResponse struct {
 	Err  error  `json:"error"`
 }
 
+func (r decryptDataResponse) error() error { return r.Err }
+
 func decodeDecryptDataRequest(_ context.Context, request *http.Request) (interface{}, error) {
 	req := decryptDataRequest{
 		requestID: moovhttp.GetRequestID(request),
-- 
2.43.0


From fbcf6ae6df59ab23844c119c852ed49c5363c0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:13 +0000
Subject: [PATCH 14/19] fix: answer 404 for operations on an unknown machine

Only GET /machine/{ik} did, the other operations wrapped ErrNotFound beyond
recognition.
---
 pkg/server/routing.go |  6 +++---
 pkg/server/service.go | 12 ++++++------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/pkg/server/routing.go b/pkg/server/routing.go
index 92eba46..777a868 100644
--- a/pkg/server/routing.go
+++ b/pkg/server/routing.go
@@ -252,10 +252,10 @@ func codeFrom(err error) int {
 		return http.StatusBadRequest
 	}
 
-	switch err {
-	case ErrNotFound:
+	switch {
+	case errors.Is(err, ErrNotFound):
 		return http.StatusNotFound
-	case ErrAlreadyExists:
+	case errors.Is(err, ErrAlreadyExists):
 		return http.StatusBadRequest
 	default:
 		return http.StatusInternalServerError
diff --git a/pkg/server/service.go b/pkg/server/service.go
index cb0ccc5..d576547 100644
--- a/pkg/server/service.go
+++ b/pkg/server/service.go
@@ -118,7 +118,7 @@ func (s *service) MakeNextKSN(ik string) (*Machine, error) {
 
 	m, err := s.store.FindMachine(ik)
 	if err != nil {
-		return nil, fmt.Errorf("make next ksn: %v(%s)", ErrNotFound, ik)
+		return nil, fmt.Errorf("make next ksn: %w(%s)", ErrNotFound, ik)
 	}
 
 	var nextKsn []byte
@@ -160,7 +160,7 @@ func (s *service) DeleteMachine(ik string) error {
 func (s *service) EncryptPin(ik, pin, pan, format string) (string, error) {
 	m, err := s.GetMachine(ik)
 	if err != nil {
-		return "", fmt.Errorf("make next ksn: %v(%s)", err, ik)
+		return "", fmt.Errorf("make next ksn: %w(%s)", err, ik)
 	}
 
 	params := UnifiedParams{
@@ -184,7 +184,7 @@ func (s *service) EncryptPin(ik, pin, pan, format string) (string, error) {
 func (s *service) DecryptPin(ik, ciphertext, pan, format string) (string, error) {
 	m, err := s.GetMachine(ik)
 	if err != nil {
-		return "", fmt.Errorf("make next ksn: %v(%s)", err, ik)
+		return "", fmt.Errorf("make next ksn: %w(%s)", err, ik)
 	}
 
 	params := UnifiedParams{
@@ -208,7 +208,7 @@ func (s *service) DecryptPin(ik, ciphertext, pan, format string) (string, error)
 func (s *service) GenerateMac(ik, data, action, macType string) (string, error) {
 	m, err := s.GetMachine(ik)
 	if err != nil {
-		return "", fmt.Errorf("make next ksn: %v(%s)", err, ik)
+		return "", fmt.Errorf("make next ksn: %w(%s)", err, ik)
 	}
 
 	params := UnifiedParams{
@@ -241,7 +241,7 @@ func (s *service) GenerateMac(ik, data, action, macType string) (string, error)
 func (s *service) EncryptData(ik, data, action, iv string) (string, error) {
 	m, err := s.GetMachine(ik)
 	if err != nil {
-		return "", fmt.Errorf("make next ksn: %v(%s)", err, ik)
+		return "", fmt.Errorf("make next ksn: %w(%s)", err, ik)
 	}
 
 	params := UnifiedParams{
@@ -261,7 +261,7 @@ func (s *service) EncryptData(ik, data, action, iv string) (string, error) {
 func (s *service) DecryptData(ik, ciphertext, action, iv string) (string, error) {
 	m, err := s.GetMachine(ik)
 	if err != nil {
-		return "", fmt.Errorf("make next ksn: %v(%s)", err, ik)
+		return "", fmt.Errorf("make next ksn: %w(%s)", err, ik)
 	}
 
 	params := UnifiedParams{
-- 
2.43.0


From 3d91ab2117c2671471965cbc61e9e5c6385ac71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:14 +0000
Subject: [PATCH 15/19] fix: accept the documented aes key types in dukptcli

The options (and the default) are lower case, the library's names upper case, so
every aes operation with a transaction key failed.
---
 cmd/dukptcli/main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/dukptcli/main.go b/cmd/dukptcli/main.go
index 04b0244..99a793b 100644
--- a/cmd/dukptcli/main.go
+++ b/cmd/dukptcli/main.go
@@ -4,6 +4,7 @@ import (
 	"flag"
 	"fmt"
 	"os"
+	"strings"
 
 	"github.com/moov-io/dukpt"
 	"github.com/moov-io/dukpt/pkg"
@@ -78,7 +79,7 @@ func main() {
 	}
 
 	params.Algorithm = *flagAlgorithm
-	params.AlgorithmKey = *flagAlgorithmKeyType
+	params.AlgorithmKey = strings.ToUpper(*flagAlgorithmKeyType)
 
 	// checking ik params
 	if *flagInitialKey {
-- 
2.43.0


From c8a95c75e02824560e17fc692ab3b56ea223b9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:16 +0000
Subject: [PATCH 16/19] fix: generate hmac in dukptcli

The library wants an HMAC key type for it, which no documented option gives.
---
 cmd/dukptcli/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/dukptcli/main.go b/cmd/dukptcli/main.go
index 99a793b..7d89a0f 100644
--- a/cmd/dukptcli/main.go
+++ b/cmd/dukptcli/main.go
@@ -215,6 +215,9 @@ func main() {
 				fmt.Printf("please select valid mac type with gm.type flag\n")
 				os.Exit(1)
 			}
+			if *flagGenerateMacType == pkg.MaxTypeHmac {
+				params.AlgorithmKey = strings.Replace(params.AlgorithmKey, "AES", "HMAC", 1)
+			}
 		}
 
 		params.TK = *flagGenerateMacTK
-- 
2.43.0


From d45b43cca4dd080dac1100abe07db403ab199933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:16 +0000
Subject: [PATCH 17/19] fix: cut derived 192-bit keys to 24 bytes

AES-192 initial keys came out 32 bytes long, so that the transaction key
was derived as for AES-256 and every AES192 operation was refused as
mismatched; HMAC192 macs were made with a 32-byte key.
---
 pkg/aes/aes_internal.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/aes/aes_internal.go b/pkg/aes/aes_internal.go
index c7f2b19..c925a02 100644
--- a/pkg/aes/aes_internal.go
+++ b/pkg/aes/aes_internal.go
@@ -141,7 +141,8 @@ func derivationKey(key []byte, derivationData *keyDerivationData) ([]byte, error
 		derivationData.KeyBlockCounter++
 	}
 
-	return derivedKey, nil
+	// keys of 192 bits use only the first half of the last block
+	return derivedKey[:derivedKeyLen], nil
 }
 
 // Create key derivation data
-- 
2.43.0


From 612968b54b47c3ee431512077e04a0c630cea26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:17 +0000
Subject: [PATCH 18/19] fix: report an admin address that cannot be listened at
 instead of crashing

---
 cmd/server/main.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmd/server/main.go b/cmd/server/main.go
index f920498..39396dc 100644
--- a/cmd/server/main.go
+++ b/cmd/server/main.go
@@ -96,7 +96,11 @@ func main() {
 	}
 
 	// Admin server (metrics and debugging)
-	adminServer, _ := admin.New(admin.Opts{Addr: *adminAddr})
+	adminServer, err := admin.New(admin.Opts{Addr: *adminAddr})
+	if err != nil {
+		logger.LogErrorf("problem starting admin http: %v", err)
+		return
+	}
 	adminServer.AddVersionHandler(dukpt.Version) // Setup 'GET /version'
 	go func() {
 		logger.Logf("admin listening on %s", adminServer.BindAddr())
-- 
2.43.0


From 49558b1552da31f8cf4f0202787f393e314c0246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:38 +0000
Subject: [PATCH 19/19] fix: answer 404 for an unknown machine whatever it is
 called

---
 pkg/server/routing.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pkg/server/routing.go b/pkg/server/routing.go
index 777a868..0f1ab69 100644
--- a/pkg/server/routing.go
+++ b/pkg/server/routing.go
@@ -242,6 +242,13 @@ func codeFrom(err error) int {
 		return http.StatusOK
 	}
 
+	switch {
+	case errors.Is(err, ErrNotFound):
+		return http.StatusNotFound
+	case errors.Is(err, ErrAlreadyExists):
+		return http.StatusBadRequest
+	}
+
 	errString := fmt.Sprintf("%#v", err)
 	if el, ok := err.(base.ErrorList); ok {
 		errString = el.Error()
@@ -250,13 +257,6 @@ func codeFrom(err error) int {
 	case
 		strings.Contains(errString, errInvalidMachine.Error()):
 		return http.StatusBadRequest
-	}
-
-	switch {
-	case errors.Is(err, ErrNotFound):
-		return http.StatusNotFound
-	case errors.Is(err, ErrAlreadyExists):
-		return http.StatusBadRequest
 	default:
 		return http.StatusInternalServerError
 	}
-- 
2.43.0

