From fc5ba07178d2b1a2706b4b79eb4d14b33198e175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:53 +0000
Subject: [PATCH 01/60] fix: answer tunnel messages without algorithm or with
 missing or mis-sized IV by an error instead of a panic

---
 core/shared/enc.crypto.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/core/shared/enc.crypto.go b/core/shared/enc.crypto.go
index 7009d77..d96e10c 100644
--- a/core/shared/enc.crypto.go
+++ b/core/shared/enc.crypto.go
@@ -371,11 +371,14 @@ func decryptETM(encrypted []byte, sessionKeyInfo SessionKeyInfo, cipherSuite Cip
 		return nil, errors.New("Error decoding protected header. " + err.Error())
 	}
 
-	if *innerProtected.Alg != int(algInfo.CryptoAlg) {
+	if innerProtected.Alg == nil || *innerProtected.Alg != int(algInfo.CryptoAlg) {
 		return nil, errors.New("error! Encryption algorithms don't match")
 	}
 
 	nonceIvBytes := inner.Unprotected.AESIV
+	if nonceIvBytes == nil || len(*nonceIvBytes) != algInfo.NonceIvLen {
+		return nil, errors.New("error! Missing or invalid length IV")
+	}
 
 	block, err := aes.NewCipher(sek)
 	if err != nil {
@@ -490,11 +493,14 @@ func decryptEMB(encrypted []byte, sessionKeyInfo SessionKeyInfo, cipherSuite Cip
 		return nil, errors.New("Error decoding protected header. " + err.Error())
 	}
 
-	if *protectedHeader.Alg != int(algInfo.CryptoAlg) {
+	if protectedHeader.Alg == nil || *protectedHeader.Alg != int(algInfo.CryptoAlg) {
 		return nil, errors.New("error! Encryption algorithms don't match")
 	}
 
 	nonceIvBytes := embInst.Unprotected.AESIV
+	if nonceIvBytes == nil || len(*nonceIvBytes) != algInfo.NonceIvLen {
+		return nil, errors.New("error! Missing or invalid length nonce")
+	}
 
 	block, err := aes.NewCipher(sevk)
 	if err != nil {
-- 
2.43.0


From 3655f0dcf0cf2ec7529972223fc904e3cb21c771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:53 +0000
Subject: [PATCH 02/60] fix: refuse payloads longer than a CCM suite can carry
 instead of panicking

---
 core/shared/enc.crypto.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/shared/enc.crypto.go b/core/shared/enc.crypto.go
index d96e10c..2a15a36 100644
--- a/core/shared/enc.crypto.go
+++ b/core/shared/enc.crypto.go
@@ -453,6 +453,10 @@ func encryptEMB(plaintext []byte, sessionKeyInfo SessionKeyInfo, cipherSuite Cip
 			return []byte{}, errors.New("Error generating new CCM instance. " + err.Error())
 		}
 
+		if len(plaintext) > aesccm.MaxLength() {
+			return []byte{}, fmt.Errorf("error encrypting. Payload is longer than the %d bytes that the CCM suite can carry", aesccm.MaxLength())
+		}
+
 		ciphertext = aesccm.Seal(nil, nonceIvBytes, plaintext, aadBytes)
 
 	default:
-- 
2.43.0


From c07e5084a786e693bbc8708fc671a5ddebac8e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:53 +0000
Subject: [PATCH 03/60] fix: use the 128 and 256 bit keys that
 AES-CCM-16-128-128 and AES-CCM-16-128-256 name

---
 core/shared/enc.crypto.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/shared/enc.crypto.go b/core/shared/enc.crypto.go
index 2a15a36..c9192ff 100644
--- a/core/shared/enc.crypto.go
+++ b/core/shared/enc.crypto.go
@@ -105,7 +105,7 @@ var CipherSuitesInfoMap map[CipherSuiteName]CipherInfo = map[CipherSuiteName]Cip
 		HmacAlg:    HASH_HMAC_SHA256,
 		HashAlg:    HASH_SHA256,
 		KdfHmacAlg: HASH_HMAC_SHA256,
-		SevkLength: 32,
+		SevkLength: 16,
 		NonceIvLen: 13,
 		TagSize:    16,
 	},
@@ -115,7 +115,7 @@ var CipherSuitesInfoMap map[CipherSuiteName]CipherInfo = map[CipherSuiteName]Cip
 		HmacAlg:    HASH_HMAC_SHA384,
 		HashAlg:    HASH_SHA384,
 		KdfHmacAlg: HASH_HMAC_SHA256,
-		SevkLength: 16,
+		SevkLength: 32,
 		NonceIvLen: 13,
 		TagSize:    16,
 	},
-- 
2.43.0


From c9dbf8ced26e17b2e679f1902764db0a31169d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:54 +0000
Subject: [PATCH 04/60] fix: encode the length of long CCM associated data as
 RFC 3610 prescribes

---
 core/shared/ccm/ccm.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/shared/ccm/ccm.go b/core/shared/ccm/ccm.go
index 6589546..3b2ea24 100644
--- a/core/shared/ccm/ccm.go
+++ b/core/shared/ccm/ccm.go
@@ -144,12 +144,13 @@ func (c *ccm) tag(nonce, plaintext, adata []byte) ([]byte, error) {
 		if n <= 0xfeff {
 			binary.BigEndian.PutUint16(block[:i], uint16(n))
 		} else {
-			block[0] = 0xfe
-			block[1] = 0xff
+			block[0] = 0xff
 			if n < uint64(1<<32) {
+				block[1] = 0xfe
 				i = 2 + 4
 				binary.BigEndian.PutUint32(block[2:i], uint32(n))
 			} else {
+				block[1] = 0xff
 				i = 2 + 8
 				binary.BigEndian.PutUint64(block[2:i], n)
 			}
-- 
2.43.0


From bc6b62f6a84d29caaa31671c1e6d9fd06e437329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:12 +0000
Subject: [PATCH 05/60] fix: keep leading zeros of ECDH coordinates and of the
 ECDH shared secret

---
 core/shared/kex.crypto.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/core/shared/kex.crypto.go b/core/shared/kex.crypto.go
index a42017b..40c84fb 100644
--- a/core/shared/kex.crypto.go
+++ b/core/shared/kex.crypto.go
@@ -158,12 +158,12 @@ func GenerateXABKeyExchange(kexSuitName KexSuiteName, ownerPubKey *FdoPublicKey)
 		binary.BigEndian.PutUint16(ownerRandomLenBytes, uint16(len(ownerRandom)))
 		ownerBlock := append(ownerRandomLenBytes, ownerRandom...)
 
-		xBytes := ownerKey.X.Bytes()
+		xBytes := ownerKey.X.FillBytes(make([]byte, 32))
 		xLenBytes := make([]byte, 2)
 		binary.BigEndian.PutUint16(xLenBytes, uint16(len(xBytes)))
 		xBlock := append(xLenBytes, xBytes...)
 
-		yBytes := ownerKey.Y.Bytes()
+		yBytes := ownerKey.Y.FillBytes(make([]byte, 32))
 		yLenBytes := make([]byte, 2)
 		binary.BigEndian.PutUint16(yLenBytes, uint16(len(yBytes)))
 		yBlock := append(yLenBytes, yBytes...)
@@ -192,12 +192,12 @@ func GenerateXABKeyExchange(kexSuitName KexSuiteName, ownerPubKey *FdoPublicKey)
 		binary.BigEndian.PutUint16(ownerRandomLenBytes, uint16(len(ownerRandom)))
 		ownerBlock := append(ownerRandomLenBytes, ownerRandom...)
 
-		xBytes := ownerKey.X.Bytes()
+		xBytes := ownerKey.X.FillBytes(make([]byte, 48))
 		xLenBytes := make([]byte, 2)
 		binary.BigEndian.PutUint16(xLenBytes, uint16(len(xBytes)))
 		xBlock := append(xLenBytes, xBytes...)
 
-		yBytes := ownerKey.Y.Bytes()
+		yBytes := ownerKey.Y.FillBytes(make([]byte, 48))
 		yLenBytes := make([]byte, 2)
 		binary.BigEndian.PutUint16(yLenBytes, uint16(len(yBytes)))
 		yBlock := append(yLenBytes, yBytes...)
@@ -305,7 +305,7 @@ func DeriveSessionKey(kexA KeXParams, xBKeyExchange []byte, isDevice bool, owner
 			randomSuffix = append(xbRandom, xaRandom...)
 		}
 
-		shSe := append(Shx.Bytes(), randomSuffix...)
+		shSe := append(Shx.FillBytes(make([]byte, 32)), randomSuffix...)
 
 		return &SessionKeyInfo{
 			ShSe:        shSe,
@@ -350,7 +350,7 @@ func DeriveSessionKey(kexA KeXParams, xBKeyExchange []byte, isDevice bool, owner
 			randomSuffix = append(xbRandom, xaRandom...)
 		}
 
-		shSe := append(Shx.Bytes(), randomSuffix...)
+		shSe := append(Shx.FillBytes(make([]byte, 48)), randomSuffix...)
 
 		return &SessionKeyInfo{
 			ShSe:        shSe,
-- 
2.43.0


From 92aa29962ffd5429efd68fb9064026ee42a89a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:13 +0000
Subject: [PATCH 06/60] fix: refuse ECDH exchanges that are not a point of the
 curve

---
 core/shared/kex.crypto.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/core/shared/kex.crypto.go b/core/shared/kex.crypto.go
index 40c84fb..fe6e34d 100644
--- a/core/shared/kex.crypto.go
+++ b/core/shared/kex.crypto.go
@@ -245,6 +245,14 @@ func GenerateXABKeyExchange(kexSuitName KexSuiteName, ownerPubKey *FdoPublicKey)
 	}
 }
 
+// hasEcdhFields reports whether an ECDH exchange of the right total length is made of
+// two length prefixed coordinates and a length prefixed random.
+func hasEcdhFields(exchange []byte, coordLen int, randomLen int) bool {
+	return int(binary.BigEndian.Uint16(exchange)) == coordLen &&
+		int(binary.BigEndian.Uint16(exchange[2+coordLen:])) == coordLen &&
+		int(binary.BigEndian.Uint16(exchange[4+2*coordLen:])) == randomLen
+}
+
 func DeriveSessionKey(kexA KeXParams, xBKeyExchange []byte, isDevice bool, ownerPrivateKey interface{}) (*SessionKeyInfo, error) {
 	switch kexA.KexSuit {
 	case KEX_DHKEXid14, KEX_DHKEXid15:
@@ -283,6 +291,10 @@ func DeriveSessionKey(kexA KeXParams, xBKeyExchange []byte, isDevice bool, owner
 			Y:     new(big.Int).SetBytes(deviceY),
 		}
 
+		if !hasEcdhFields(xBKeyExchange, 32, KEX_ECDH256_RANDOM_LEN) || !devicePubKey.Curve.IsOnCurve(devicePubKey.X, devicePubKey.Y) {
+			return nil, errors.New("xBKeyExchange for ECDH256 does not encode a point of the curve and a random")
+		}
+
 		ownerX := kexA.XAKeyExchange[2:34]
 		ownerY := kexA.XAKeyExchange[36:68]
 		xaRandom := kexA.XAKeyExchange[70:86]
@@ -328,6 +340,10 @@ func DeriveSessionKey(kexA KeXParams, xBKeyExchange []byte, isDevice bool, owner
 			Y:     new(big.Int).SetBytes(deviceY),
 		}
 
+		if !hasEcdhFields(xBKeyExchange, 48, KEX_ECDH384_RANDOM_LEN) || !devicePubKey.Curve.IsOnCurve(devicePubKey.X, devicePubKey.Y) {
+			return nil, errors.New("xBKeyExchange for ECDH384 does not encode a point of the curve and a random")
+		}
+
 		ownerX := kexA.XAKeyExchange[2:50]
 		ownerY := kexA.XAKeyExchange[52:100]
 		xaRandom := kexA.XAKeyExchange[102:150]
-- 
2.43.0


From d681e87d698647bf32dd6f32c4670f57b15dd984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:15 +0000
Subject: [PATCH 07/60] fix: refuse finite field DH shares that make the secret
 predictable

---
 core/shared/kex.crypto.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/core/shared/kex.crypto.go b/core/shared/kex.crypto.go
index fe6e34d..694cc4e 100644
--- a/core/shared/kex.crypto.go
+++ b/core/shared/kex.crypto.go
@@ -264,6 +264,13 @@ func DeriveSessionKey(kexA KeXParams, xBKeyExchange []byte, isDevice bool, owner
 		// Recover Bob's public key
 		dhkxBPubKey := dhkx.NewPublicKey(xBKeyExchange)
 
+		// 0, 1 and p-1 would make the shared secret predictable
+		pMinusOne := new(big.Int).Sub(dhkxPrivKeyA.Group.P(), big.NewInt(1))
+		dhkxBPubNum := new(big.Int).SetBytes(xBKeyExchange)
+		if dhkxBPubNum.Cmp(big.NewInt(1)) <= 0 || dhkxBPubNum.Cmp(pMinusOne) >= 0 {
+			return nil, errors.New("error deriving shared key for KEX_DHKEX id14/id15. xBKeyExchange is out of range")
+		}
+
 		// Compute the key
 		sharedPubKey, err := dhkxPrivKeyA.Group.ComputeKey(dhkxBPubKey, dhkxPrivKeyA)
 		if err != nil {
-- 
2.43.0


From c749fce3435960364f22909e19648fdd3425c0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:16 +0000
Subject: [PATCH 08/60] fix: answer ASYMKEX with a non RSA owner key or wrong
 random length by an error

---
 core/shared/kex.crypto.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/core/shared/kex.crypto.go b/core/shared/kex.crypto.go
index 694cc4e..592a742 100644
--- a/core/shared/kex.crypto.go
+++ b/core/shared/kex.crypto.go
@@ -382,6 +382,10 @@ func DeriveSessionKey(kexA KeXParams, xBKeyExchange []byte, isDevice bool, owner
 
 	case KEX_ASYMKEX2048, KEX_ASYMKEX3072:
 		if isDevice {
+			if len(xBKeyExchange) != len(kexA.Private) {
+				return nil, fmt.Errorf("unexpected owner random length. Expected %d bytes long", len(kexA.Private))
+			}
+
 			return &SessionKeyInfo{
 				ShSe:        kexA.Private,
 				ContextRand: xBKeyExchange,
@@ -392,6 +396,10 @@ func DeriveSessionKey(kexA KeXParams, xBKeyExchange []byte, isDevice bool, owner
 				return nil, fmt.Errorf("error unwrapping OAEP for ASYM KEX. %s", err.Error())
 			}
 
+			if len(deviceRandom) != len(kexA.Private) {
+				return nil, fmt.Errorf("unexpected device random length. Expected %d bytes long", len(kexA.Private))
+			}
+
 			return &SessionKeyInfo{
 				ShSe:        deviceRandom,
 				ContextRand: kexA.Private,
@@ -413,8 +421,13 @@ func WrapOAEP(message []byte, ownerPubKey FdoPublicKey) ([]byte, error) {
 		return nil, errors.New("error parsing PKIX X509 Public Key. " + err.Error())
 	}
 
+	rsaPubKey, ok := pubKeyInst.(*rsa.PublicKey)
+	if !ok {
+		return nil, errors.New("error wrapping OAEP. Owner key is not an RSA key")
+	}
+
 	hash := sha256.New()
-	ciphertext, err := rsa.EncryptOAEP(hash, rand.Reader, pubKeyInst.(*rsa.PublicKey), message, []byte{})
+	ciphertext, err := rsa.EncryptOAEP(hash, rand.Reader, rsaPubKey, message, []byte{})
 	if err != nil {
 		return nil, errors.New("error wrapping OAEP. " + err.Error())
 	}
@@ -423,8 +436,13 @@ func WrapOAEP(message []byte, ownerPubKey FdoPublicKey) ([]byte, error) {
 }
 
 func UnwrapOAEP(ciphertext []byte, privateKeyInterface interface{}) ([]byte, error) {
+	rsaPrivKey, ok := privateKeyInterface.(*rsa.PrivateKey)
+	if !ok {
+		return nil, errors.New("error unwrapping OAEP. Owner key is not an RSA key")
+	}
+
 	hash := sha256.New()
-	message, err := rsa.DecryptOAEP(hash, rand.Reader, privateKeyInterface.(*rsa.PrivateKey), ciphertext, []byte{})
+	message, err := rsa.DecryptOAEP(hash, rand.Reader, rsaPrivKey, ciphertext, []byte{})
 	if err != nil {
 		return nil, errors.New("error unwrapping OAEP. " + err.Error())
 	}
-- 
2.43.0


From 2bb1503f60b84f0867d29a2ccc4bba59a99667c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:01 +0000
Subject: [PATCH 09/60] fix: answer COSE keys without curve or modulus by an
 error instead of a panic

---
 core/shared/signing.cose.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/core/shared/signing.cose.go b/core/shared/signing.cose.go
index 74b743c..e008d28 100644
--- a/core/shared/signing.cose.go
+++ b/core/shared/signing.cose.go
@@ -71,9 +71,18 @@ func CoseKeyToX509(pubKey FdoPublicKey) ([]byte, error) {
 
 			xy := append(x, y...)
 			rawPublicKey = append([]byte{0x04}, xy...)
-			algId = cosePubKey.CrvOrN.(CoseAlg)
+
+			curve, ok := cosePubKey.CrvOrN.(CoseAlg)
+			if !ok {
+				return nil, errors.New("error converting COSE public key. Missing or invalid EC2 curve")
+			}
+			algId = curve
 		case CoseRSA:
-			rawPublicKey = cosePubKey.CrvOrN.([]byte)
+			modulus, ok := cosePubKey.CrvOrN.([]byte)
+			if !ok {
+				return nil, errors.New("error converting COSE public key. Missing or invalid RSA modulus")
+			}
+			rawPublicKey = modulus
 			algId = cosePubKey.Alg
 		case CoseOKP:
 			return nil, errors.New("unsupported COSE key type: OKP")
-- 
2.43.0


From aa5dd8f71aedce0f374c4b7f7d79c01be90d2086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:01 +0000
Subject: [PATCH 10/60] fix: refuse signatures whose key is not of the declared
 curve or size

---
 core/shared/signing.crypto.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/core/shared/signing.crypto.go b/core/shared/signing.crypto.go
index facc13e..ac20015 100644
--- a/core/shared/signing.crypto.go
+++ b/core/shared/signing.crypto.go
@@ -85,6 +85,10 @@ func VerifySignature(payload []byte, signature []byte, publicKeyInst interface{}
 			return errors.New("error verifying SECP256R1 cose signature. Could not cast pubKey instance to ECDSA PubKey")
 		}
 
+		if pubKeyCasted.Curve.Params().Name != "P-256" {
+			return errors.New("error verifying SECP256R1 cose signature. Public key curve is not P-256")
+		}
+
 		payloadHash := sha256.Sum256(payload)
 
 		r := new(big.Int)
@@ -108,6 +112,10 @@ func VerifySignature(payload []byte, signature []byte, publicKeyInst interface{}
 			return errors.New("error verifying SECP384R1 cose signature. Could not cast pubKey instance to ECDSA PubKey")
 		}
 
+		if pubKeyCasted.Curve.Params().Name != "P-384" {
+			return errors.New("error verifying SECP384R1 cose signature. Public key curve is not P-384")
+		}
+
 		payloadHash := sha512.Sum384(payload)
 
 		r := new(big.Int)
@@ -129,6 +137,10 @@ func VerifySignature(payload []byte, signature []byte, publicKeyInst interface{}
 
 		rsaPubKeyBits := rsaPubKeyCasted.N.BitLen()
 
+		if pkType == RSA2048RESTR && rsaPubKeyBits != 2048 {
+			return fmt.Errorf("%d is an unsupported public key length for RSA2048RESTR", rsaPubKeyBits)
+		}
+
 		var hashingAlg crypto.Hash
 		var payloadHash []byte
 		switch rsaPubKeyBits {
-- 
2.43.0


From 92671a03c80c2fa0b70d2aeb80bc85194e74e067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:02 +0000
Subject: [PATCH 11/60] fix: refuse vouchers without device certificate chain
 hash instead of panicking

---
 core/shared/voucher.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/shared/voucher.go b/core/shared/voucher.go
index 5af3094..af9dc13 100644
--- a/core/shared/voucher.go
+++ b/core/shared/voucher.go
@@ -71,6 +71,10 @@ func (h OwnershipVoucher) Validate() error {
 		return errors.New("OVDeviceInfo is empty")
 	}
 
+	if ovHeader.OVDevCertChainHash == nil {
+		return errors.New("OVDevCertChainHash is missing")
+	}
+
 	ovDevCertChainCert, err := ComputeOVDevCertChainHash(*h.OVDevCertChain, ovHeader.OVDevCertChainHash.Type)
 	if err != nil {
 		return errors.New("could not compute OVDevCertChain hash ")
-- 
2.43.0


From 68016c5305a176569cacbe4bf455ad48ef12063b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:05 +0000
Subject: [PATCH 12/60] fix: verify the header info hash of ownership voucher
 entries

---
 core/shared/voucher.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/core/shared/voucher.go b/core/shared/voucher.go
index af9dc13..64ee3e8 100644
--- a/core/shared/voucher.go
+++ b/core/shared/voucher.go
@@ -140,6 +140,8 @@ func (h OVEntryArray) VerifyEntries(ovHeaderTag []byte, ovHeaderHMac HashOrHmac)
 		return errors.New("error decoding VoucherHeader: " + err.Error())
 	}
 
+	headerInfo := append(voucherHeader.OVGuid[:], []byte(voucherHeader.OVDeviceInfo)...)
+
 	for i, OVEntry := range h {
 		var OVEntryPayload OVEntryPayload
 		err := CborCust.Unmarshal(OVEntry.Payload, &OVEntryPayload)
@@ -147,6 +149,11 @@ func (h OVEntryArray) VerifyEntries(ovHeaderTag []byte, ovHeaderHMac HashOrHmac)
 			return errors.New("error decoding OVEntry payload: " + err.Error())
 		}
 
+		err = VerifyHash(headerInfo, OVEntryPayload.OVEHashHdrInfo)
+		if err != nil {
+			return errors.New("error verifying OVEntry HdrInfo Hash: " + err.Error())
+		}
+
 		if i == 0 {
 			headerHmacBytes, _ := CborCust.Marshal(ovHeaderHMac)
 			firstEntryHashContents := append(ovHeaderTag, headerHmacBytes...)
-- 
2.43.0


From c3949a9533ce238d57b1b3c66060e99919db5dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:04 +0000
Subject: [PATCH 13/60] fix: do not alter the device credential when generating
 a bad HMAC voucher

---
 core/device/genvoucher.go                    | 2 +-
 core/device/genvoucher_with_provided_keys.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/device/genvoucher.go b/core/device/genvoucher.go
index 781c1f6..3532d28 100644
--- a/core/device/genvoucher.go
+++ b/core/device/genvoucher.go
@@ -218,7 +218,7 @@ func NewVirtualDeviceAndVoucher(newDi fdoshared.WawDeviceCredential, voucherSgTy
 		voucherInst.OVHeaderHMac = *fdoshared.Conf_RandomTestHashHmac(voucherInst.OVHeaderHMac, ovHeaderBytes, newDi.DCHmacSecret)
 
 		if voucherInst.OVDevCertChain != nil {
-			chainTemp := *voucherInst.OVDevCertChain
+			chainTemp := append([]fdoshared.X509CertificateBytes{}, *voucherInst.OVDevCertChain...)
 			leafCert := chainTemp[0]
 
 			chainTemp[0] = chainTemp[1]
diff --git a/core/device/genvoucher_with_provided_keys.go b/core/device/genvoucher_with_provided_keys.go
index 6aa440b..5a36a2c 100644
--- a/core/device/genvoucher_with_provided_keys.go
+++ b/core/device/genvoucher_with_provided_keys.go
@@ -186,7 +186,7 @@ func NewVirtualDeviceAndVoucherWithKeys(
 		voucherInst.OVHeaderHMac = *fdoshared.Conf_RandomTestHashHmac(voucherInst.OVHeaderHMac, ovHeaderBytes, newDi.DCHmacSecret)
 
 		if voucherInst.OVDevCertChain != nil {
-			chainTemp := *voucherInst.OVDevCertChain
+			chainTemp := append([]fdoshared.X509CertificateBytes{}, *voucherInst.OVDevCertChain...)
 			leafCert := chainTemp[0]
 
 			chainTemp[0] = chainTemp[1]
-- 
2.43.0


From dc84b8333fcce28aba8a535ea036142caf846434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:16 +0000
Subject: [PATCH 14/60] fix: answer unknown session tokens by an error instead
 of a panic

---
 core/do/dbs/session.db.go | 2 +-
 core/rv/session.db.go     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/do/dbs/session.db.go b/core/do/dbs/session.db.go
index 47dcc1a..aa22e8b 100644
--- a/core/do/dbs/session.db.go
+++ b/core/do/dbs/session.db.go
@@ -131,7 +131,7 @@ func (h *SessionDB) GetSessionEntry(entryId []byte) (*SessionEntry, error) {
 
 	item, err := dbtxn.Get(sessionEntryId)
 	if err != nil && errors.Is(err, badger.ErrKeyNotFound) {
-		return nil, nil
+		return nil, errors.New("Session does not exist")
 	} else if err != nil {
 		return nil, errors.New("Failed locating entry. The error is: " + err.Error())
 	}
diff --git a/core/rv/session.db.go b/core/rv/session.db.go
index a6d5173..946496c 100644
--- a/core/rv/session.db.go
+++ b/core/rv/session.db.go
@@ -86,7 +86,7 @@ func (h *SessionDB) GetSessionEntry(entryId []byte) (*SessionEntry, error) {
 
 	item, err := dbtxn.Get(sessionEntryId)
 	if err != nil && errors.Is(err, badger.ErrKeyNotFound) {
-		return nil, nil
+		return nil, errors.New("Session does not exist")
 	} else if err != nil {
 		return nil, errors.New("Failed locating entry. The error is: " + err.Error())
 	}
-- 
2.43.0


From e446aefd99e9c943008003f61d708e0819c701a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:16 +0000
Subject: [PATCH 15/60] fix: keep the expiry of a protocol session when it is
 updated

---
 core/do/dbs/session.db.go | 11 ++++++++++-
 core/rv/session.db.go     | 11 ++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/core/do/dbs/session.db.go b/core/do/dbs/session.db.go
index aa22e8b..b1c4870 100644
--- a/core/do/dbs/session.db.go
+++ b/core/do/dbs/session.db.go
@@ -110,7 +110,16 @@ func (h *SessionDB) UpdateSessionEntry(entryId []byte, sessionInst SessionEntry)
 		return errors.New("Failed to marshal session. The error is: " + err.Error())
 	}
 
-	err = dbtxn.Set(sessionEntryId, sessionInstBytes)
+	item, err := dbtxn.Get(sessionEntryId)
+	if err != nil {
+		return errors.New("Failed locating session. The error is: " + err.Error())
+	}
+
+	// The session keeps the expiry it was created with
+	entry := badger.NewEntry(sessionEntryId, sessionInstBytes)
+	entry.ExpiresAt = item.ExpiresAt()
+
+	err = dbtxn.SetEntry(entry)
 	if err != nil {
 		return errors.New("Failed to create saving inst. The error is: " + err.Error())
 	}
diff --git a/core/rv/session.db.go b/core/rv/session.db.go
index 946496c..4a43a6c 100644
--- a/core/rv/session.db.go
+++ b/core/rv/session.db.go
@@ -65,7 +65,16 @@ func (h *SessionDB) UpdateSessionEntry(entryId []byte, sessionInst SessionEntry)
 		return errors.New("Failed to marshal session. The error is: " + err.Error())
 	}
 
-	err = dbtxn.Set(sessionEntryId, sessionInstBytes)
+	item, err := dbtxn.Get(sessionEntryId)
+	if err != nil {
+		return errors.New("Failed locating session. The error is: " + err.Error())
+	}
+
+	// The session keeps the expiry it was created with
+	entry := badger.NewEntry(sessionEntryId, sessionInstBytes)
+	entry.ExpiresAt = item.ExpiresAt()
+
+	err = dbtxn.SetEntry(entry)
 	if err != nil {
 		return errors.New("Failed to create saving inst. The error is: " + err.Error())
 	}
-- 
2.43.0


From e11564f83a033ae0ade3737f7182cbf96c9b9953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:16 +0000
Subject: [PATCH 16/60] fix: name the answered message in header and body read
 errors

---
 core/do/to2/common.go   | 4 ++--
 core/rv/listener-to0.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/do/to2/common.go b/core/do/to2/common.go
index 3761735..6ffe562 100644
--- a/core/do/to2/common.go
+++ b/core/do/to2/common.go
@@ -113,11 +113,11 @@ func (h *DoTo2) GetOwnerSIMs(guid fdoshared.FdoGuid) ([]fdoshared.ServiceInfoKV,
 }
 
 func (h *DoTo2) receiveAndVerify(w http.ResponseWriter, r *http.Request, currentCmd fdoshared.FdoCmd) (*dbs.SessionEntry, []byte, string, []byte, *listenertestsdeps.RequestListenerInst, error) {
-	if !fdoshared.CheckHeaders(w, r, fdoshared.TO2_64_PROVE_DEVICE) {
+	if !fdoshared.CheckHeaders(w, r, currentCmd) {
 		return nil, []byte{}, "", []byte{}, nil, fmt.Errorf("Error checking header!")
 	}
 
-	headerIsOk, sessionId, authorizationHeader := fdoshared.ExtractAuthorizationHeader(w, r, fdoshared.TO2_66_DEVICE_SERVICE_INFO_READY)
+	headerIsOk, sessionId, authorizationHeader := fdoshared.ExtractAuthorizationHeader(w, r, currentCmd)
 	if !headerIsOk {
 		return nil, []byte{}, "", []byte{}, nil, fmt.Errorf("Error getting session header!")
 	}
diff --git a/core/rv/listener-to0.go b/core/rv/listener-to0.go
index f1987b1..4bf9d57 100644
--- a/core/rv/listener-to0.go
+++ b/core/rv/listener-to0.go
@@ -109,7 +109,7 @@ func (h *RvTo0) Handle22OwnerSign(w http.ResponseWriter, r *http.Request) {
 	/* ----- Process Body ----- */
 	bodyBytes, err := io.ReadAll(r.Body)
 	if err != nil {
-		fdoshared.RespondFDOError(w, r, fdoshared.MESSAGE_BODY_ERROR, fdoshared.TO0_20_HELLO, "Failed to read body!", http.StatusBadRequest)
+		fdoshared.RespondFDOError(w, r, fdoshared.MESSAGE_BODY_ERROR, fdoshared.TO0_22_OWNER_SIGN, "Failed to read body!", http.StatusBadRequest)
 		return
 	}
 
-- 
2.43.0


From 1f0f41f67312bce4ee8cd5e09a61477cca799af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:01 +0000
Subject: [PATCH 17/60] fix: refuse a device proof without the setup nonce
 instead of panicking

---
 core/do/to2/listener-to2-64-ProveDevice.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/do/to2/listener-to2-64-ProveDevice.go b/core/do/to2/listener-to2-64-ProveDevice.go
index d188dcb..714515e 100644
--- a/core/do/to2/listener-to2-64-ProveDevice.go
+++ b/core/do/to2/listener-to2-64-ProveDevice.go
@@ -95,6 +95,11 @@ func (h *DoTo2) ProveDevice64(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
+	if proveDevice64.Unprotected.EUPHNonce == nil {
+		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.MESSAGE_BODY_ERROR, currentCmd, "EUPHNonce is missing", http.StatusBadRequest, testcomListener, fdoshared.To2)
+		return
+	}
+
 	// KEX
 	sessionKey, err := fdoshared.DeriveSessionKey(session.XAKex, eatPayload.EatFDO.XBKeyExchange, false, privateKeyInst)
 	if err != nil {
-- 
2.43.0


From 0d8eec3b64580ce49505f141158a788955848f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:01 +0000
Subject: [PATCH 18/60] fix: refuse device proofs that name another device

---
 core/do/to2/listener-to2-64-ProveDevice.go | 6 ++++++
 core/rv/listener-to1.go                    | 5 +++++
 2 files changed, 11 insertions(+)

diff --git a/core/do/to2/listener-to2-64-ProveDevice.go b/core/do/to2/listener-to2-64-ProveDevice.go
index 714515e..4886eea 100644
--- a/core/do/to2/listener-to2-64-ProveDevice.go
+++ b/core/do/to2/listener-to2-64-ProveDevice.go
@@ -95,6 +95,12 @@ func (h *DoTo2) ProveDevice64(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
+	// Verify device identity
+	if eatPayload.EatUEID != fdoshared.GenerateEatGuid(session.Guid) {
+		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INVALID_MESSAGE_ERROR, currentCmd, "EatUEID does not match the device GUID", http.StatusBadRequest, testcomListener, fdoshared.To2)
+		return
+	}
+
 	if proveDevice64.Unprotected.EUPHNonce == nil {
 		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.MESSAGE_BODY_ERROR, currentCmd, "EUPHNonce is missing", http.StatusBadRequest, testcomListener, fdoshared.To2)
 		return
diff --git a/core/rv/listener-to1.go b/core/rv/listener-to1.go
index e5d57bf..927fa82 100644
--- a/core/rv/listener-to1.go
+++ b/core/rv/listener-to1.go
@@ -213,6 +213,11 @@ func (h *RvTo1) Handle32ProveToRV(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
+	if pb.EatUEID != fdoshared.GenerateEatGuid(session.Guid) {
+		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INVALID_MESSAGE_ERROR, currentCmd, "EatUEID does not match the device GUID", http.StatusBadRequest, testcomListener, fdoshared.To1)
+		return
+	}
+
 	// Get ownerSign from ownerSign storage
 	savedOwnerSign, err := h.ownersignDB.Get(session.Guid)
 	if err != nil {
-- 
2.43.0


From 0dcfe77f6e11173d755f0f43c558f58d5de4a15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:01 +0000
Subject: [PATCH 19/60] fix: record a wrong TO1 proof nonce under the TO1 run

---
 core/rv/listener-to1.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/rv/listener-to1.go b/core/rv/listener-to1.go
index 927fa82..d8bf551 100644
--- a/core/rv/listener-to1.go
+++ b/core/rv/listener-to1.go
@@ -209,7 +209,7 @@ func (h *RvTo1) Handle32ProveToRV(w http.ResponseWriter, r *http.Request) {
 	}
 
 	if !bytes.Equal(pb.EatNonce[:], session.NonceTO1Proof[:]) {
-		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INVALID_MESSAGE_ERROR, currentCmd, fmt.Sprintf("EatNonce is not set to NonceTO1Proof. Expected %s. Got %s", hex.EncodeToString(pb.EatNonce[:]), hex.EncodeToString(session.NonceTO1Proof[:])), http.StatusBadRequest, testcomListener, fdoshared.To2)
+		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INVALID_MESSAGE_ERROR, currentCmd, fmt.Sprintf("EatNonce is not set to NonceTO1Proof. Expected %s. Got %s", hex.EncodeToString(pb.EatNonce[:]), hex.EncodeToString(session.NonceTO1Proof[:])), http.StatusBadRequest, testcomListener, fdoshared.To1)
 		return
 	}
 
-- 
2.43.0


From 3795d59583d00c3eaae1da34738a4d4df6ede4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:48 +0000
Subject: [PATCH 20/60] fix: answer an undecodable Done70 only once while a
 device is tested

---
 core/do/to2/listener-to2-70-Done.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/do/to2/listener-to2-70-Done.go b/core/do/to2/listener-to2-70-Done.go
index de702bd..f4e37d5 100644
--- a/core/do/to2/listener-to2-70-Done.go
+++ b/core/do/to2/listener-to2-70-Done.go
@@ -59,6 +59,7 @@ func (h *DoTo2) Done70(w http.ResponseWriter, r *http.Request) {
 	if err != nil {
 		if testcomListener != nil {
 			listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Failed to decode Done70. "+err.Error(), http.StatusInternalServerError, testcomListener, fdoshared.To2)
+			return
 		}
 
 		log.Println("Done70: Error decoding request..." + err.Error())
-- 
2.43.0


From 576d5bc9872c711a41c268d169a70d3ccd130b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:48 +0000
Subject: [PATCH 21/60] fix: refuse Done70 before the service info exchange is
 finished

---
 core/do/to2/listener-to2-70-Done.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/do/to2/listener-to2-70-Done.go b/core/do/to2/listener-to2-70-Done.go
index f4e37d5..89424e1 100644
--- a/core/do/to2/listener-to2-70-Done.go
+++ b/core/do/to2/listener-to2-70-Done.go
@@ -54,6 +54,11 @@ func (h *DoTo2) Done70(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
+	if !session.OwnerSIMsFinishedSending {
+		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.MESSAGE_BODY_ERROR, currentCmd, "Service info exchange is not finished", http.StatusUnauthorized, testcomListener, fdoshared.To2)
+		return
+	}
+
 	var done70 fdoshared.Done70
 	err = fdoshared.CborCust.Unmarshal(bodyBytes, &done70)
 	if err != nil {
-- 
2.43.0


From 99b3ac092955831cf5e237e68ea1db26b4a4eebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:51 +0000
Subject: [PATCH 22/60] fix: do not accept Done70 twice in one session

---
 core/do/to2/listener-to2-70-Done.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/core/do/to2/listener-to2-70-Done.go b/core/do/to2/listener-to2-70-Done.go
index 89424e1..1d9268f 100644
--- a/core/do/to2/listener-to2-70-Done.go
+++ b/core/do/to2/listener-to2-70-Done.go
@@ -18,7 +18,7 @@ func (h *DoTo2) Done70(w http.ResponseWriter, r *http.Request) {
 	var currentCmd fdoshared.FdoCmd = fdoshared.TO2_70_DONE
 	var fdoTestId testcom.FDOTestID = testcom.NULL_TEST
 
-	session, _, authorizationHeader, bodyBytes, testcomListener, err := h.receiveAndDecrypt(w, r, currentCmd)
+	session, sessionId, authorizationHeader, bodyBytes, testcomListener, err := h.receiveAndDecrypt(w, r, currentCmd)
 	if err != nil {
 		return
 	}
@@ -104,6 +104,14 @@ func (h *DoTo2) Done70(w http.ResponseWriter, r *http.Request) {
 		}
 	}
 
+	// The session is over
+	session.PrevCMD = fdoshared.TO2_71_DONE2
+	err = h.session.UpdateSessionEntry(sessionId, *session)
+	if err != nil {
+		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Done70: Error saving session..."+err.Error(), http.StatusInternalServerError, testcomListener, fdoshared.To2)
+		return
+	}
+
 	if fdoTestId == testcom.FIDO_LISTENER_POSITIVE {
 		testcomListener.To2.PushSuccess()
 		testcomListener.To2.CompleteTestRun()
-- 
2.43.0


From a134ec7853bd56942cc6d9d9227ffcdee151a4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:14 +0000
Subject: [PATCH 23/60] fix: refuse nonces, GUIDs and UEIDs of another length

---
 core/shared/cbor.go         | 22 ++++++++++++++++++++++
 core/shared/other.crypto.go |  5 +++++
 core/shared/other.go        | 13 +++++++++++++
 core/shared/signing.misc.go |  2 +-
 4 files changed, 41 insertions(+), 1 deletion(-)

diff --git a/core/shared/cbor.go b/core/shared/cbor.go
index a83a0bf..9c06cfc 100644
--- a/core/shared/cbor.go
+++ b/core/shared/cbor.go
@@ -1,6 +1,7 @@
 package fdoshared
 
 import (
+	"fmt"
 	"reflect"
 
 	"github.com/fxamacker/cbor/v2"
@@ -59,3 +60,24 @@ func (h *CBOR_CUSTOM_TAGS) Marshal(v interface{}) ([]byte, error) {
 }
 
 var CborCust CBOR_CUSTOM_TAGS = CBOR_CUSTOM_TAGS{}
+
+// unmarshalFixedBytes decodes a CBOR byte string into target. The decoder itself pads or cuts
+// byte strings of another length, and takes arrays of integers too.
+func unmarshalFixedBytes(data []byte, target []byte) error {
+	const cborByteString = 2
+	if len(data) == 0 || data[0]>>5 != cborByteString {
+		return fmt.Errorf("expected a byte string of %d bytes", len(target))
+	}
+
+	var decoded []byte
+	if err := CborCust.Unmarshal(data, &decoded); err != nil {
+		return err
+	}
+
+	if len(decoded) != len(target) {
+		return fmt.Errorf("expected a byte string of %d bytes, got %d", len(target), len(decoded))
+	}
+
+	copy(target, decoded)
+	return nil
+}
diff --git a/core/shared/other.crypto.go b/core/shared/other.crypto.go
index 6582216..0ac1d12 100644
--- a/core/shared/other.crypto.go
+++ b/core/shared/other.crypto.go
@@ -9,6 +9,11 @@ import (
 
 type FdoNonce [16]byte
 
+// UnmarshalCBOR accepts only a byte string of exactly the nonce length.
+func (h *FdoNonce) UnmarshalCBOR(data []byte) error {
+	return unmarshalFixedBytes(data, h[:])
+}
+
 func (h *FdoNonce) Equals(other FdoNonce) bool {
 	return bytes.Equal(h[:], other[:])
 }
diff --git a/core/shared/other.go b/core/shared/other.go
index 23124f9..04d54ae 100644
--- a/core/shared/other.go
+++ b/core/shared/other.go
@@ -23,6 +23,11 @@ const (
 
 type FdoGuid [16]byte
 
+// UnmarshalCBOR accepts only a byte string of exactly the GUID length.
+func (h *FdoGuid) UnmarshalCBOR(data []byte) error {
+	return unmarshalFixedBytes(data, h[:])
+}
+
 func (h FdoGuid) GetFormatted() string {
 	uuidBytes := h[:]
 	uuidInst, _ := uuid.FromBytes(uuidBytes)
@@ -391,6 +396,14 @@ func UrlsToRendezvousInfo(urls []string) (RendezvousInfo, error) {
 	return rvInfo, nil
 }
 
+// EatGuid is the EAT UEID of a device: a type byte and the GUID
+type EatGuid [17]byte
+
+// UnmarshalCBOR accepts only a byte string of exactly the UEID length.
+func (h *EatGuid) UnmarshalCBOR(data []byte) error {
+	return unmarshalFixedBytes(data, h[:])
+}
+
 func GenerateEatGuid(fdoGuid FdoGuid) [17]byte {
 	var result [17]byte
 	copy(result[:], append([]byte{0x01}, fdoGuid[:]...))
diff --git a/core/shared/signing.misc.go b/core/shared/signing.misc.go
index c7020d1..ef514a0 100644
--- a/core/shared/signing.misc.go
+++ b/core/shared/signing.misc.go
@@ -31,7 +31,7 @@ type CoseSignature struct {
 
 type EATPayloadBase struct {
 	EatNonce FdoNonce              `cbor:"10,keyasint,omitempty"`
-	EatUEID  [17]byte              `cbor:"256,keyasint,omitempty"`
+	EatUEID  EatGuid               `cbor:"256,keyasint,omitempty"`
 	EatFDO   TO2ProveDevicePayload `cbor:"-257,keyasint,omitempty"`
 }
 
-- 
2.43.0


From f0595f36ec6378b4b4fae1f231c85060feaf26e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:11 +0000
Subject: [PATCH 24/60] fix: refuse to announce vouchers with more entries than
 fit the entry count

---
 core/do/to2/listener-to2-60-HelloDevice.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/do/to2/listener-to2-60-HelloDevice.go b/core/do/to2/listener-to2-60-HelloDevice.go
index f969d04..5207963 100644
--- a/core/do/to2/listener-to2-60-HelloDevice.go
+++ b/core/do/to2/listener-to2-60-HelloDevice.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"io"
 	"log"
+	"math"
 	"net/http"
 
 	"github.com/fido-alliance/iot-fdo-conformance-tools/core/do/dbs"
@@ -93,6 +94,11 @@ func (h *DoTo2) HelloDevice60(w http.ResponseWriter, r *http.Request) {
 
 	// Generating response
 	NumOVEntries := len(voucherDBEntry.Voucher.OVEntryArray)
+	if NumOVEntries > math.MaxUint8 {
+		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Voucher has more entries than can be announced...", http.StatusInternalServerError, testcomListener, fdoshared.To2)
+		return
+	}
+
 	proveOVHdrPayload := fdoshared.TO2ProveOVHdrPayload{
 		OVHeader:            voucherDBEntry.Voucher.OVHeaderTag,
 		NumOVEntries:        uint8(NumOVEntries),
-- 
2.43.0


From 9ef8666ba305a5bd3f383b0f2121993e3b2ef4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:41 +0000
Subject: [PATCH 25/60] fix: send an empty list instead of null as owner
 service info while the device has more

---
 core/do/to2/listener-to2-68-DeviceServiceInfo.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/do/to2/listener-to2-68-DeviceServiceInfo.go b/core/do/to2/listener-to2-68-DeviceServiceInfo.go
index 4bfdca6..73bbdd1 100644
--- a/core/do/to2/listener-to2-68-DeviceServiceInfo.go
+++ b/core/do/to2/listener-to2-68-DeviceServiceInfo.go
@@ -76,7 +76,9 @@ func (h *DoTo2) DeviceServiceInfo68(w http.ResponseWriter, r *http.Request) {
 	// service info).
 	session.DeviceSIMs = append(session.DeviceSIMs, deviceServiceInfo.ServiceInfo...)
 
-	ownerServiceInfo := fdoshared.OwnerServiceInfo69{}
+	ownerServiceInfo := fdoshared.OwnerServiceInfo69{
+		ServiceInfo: []fdoshared.ServiceInfoKV{},
+	}
 
 	if deviceServiceInfo.IsMoreServiceInfo {
 		// Device keeps sending more service info
@@ -106,8 +108,6 @@ func (h *DoTo2) DeviceServiceInfo68(w http.ResponseWriter, r *http.Request) {
 			ownerServiceInfo.IsMoreServiceInfo = true
 		}
 
-		ownerServiceInfo.ServiceInfo = []fdoshared.ServiceInfoKV{}
-
 		if int(session.OwnerSIMsSendCounter)+1 <= len(session.OwnerSIMs) {
 			ownerServiceInfo.ServiceInfo = append(ownerServiceInfo.ServiceInfo, session.OwnerSIMs[session.OwnerSIMsSendCounter])
 		}
-- 
2.43.0


From 062a5d271d5a33c6eccefff677f92474c5473ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:44 +0000
Subject: [PATCH 26/60] fix: refuse null as the value of a mandatory device
 module message

---
 core/shared/sims.tools.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/core/shared/sims.tools.go b/core/shared/sims.tools.go
index ef4ee75..4ebd756 100644
--- a/core/shared/sims.tools.go
+++ b/core/shared/sims.tools.go
@@ -102,6 +102,10 @@ func DecodeSims(sims []ServiceInfoKV) (*RESULT_SIMS, error) {
 	result := RESULT_SIMS{}
 
 	for _, sim := range sims {
+		if MANDATORY_SIMS.Contains(sim.ServiceInfoKey) && isCborNull(sim.ServiceInfoVal) {
+			return nil, fmt.Errorf("error decoding %s sim. The value is null", sim.ServiceInfoKey)
+		}
+
 		var err error = nil
 		switch sim.ServiceInfoKey {
 		// Mandatory modules
@@ -206,6 +210,11 @@ func DecodeSims(sims []ServiceInfoKV) (*RESULT_SIMS, error) {
 	return &result, nil
 }
 
+// isCborNull tells whether a value is null or undefined, which the decoder takes for any type.
+func isCborNull(val []byte) bool {
+	return len(val) == 1 && (val[0] == 0xF6 || val[0] == 0xF7)
+}
+
 func UintToCborBytes(val uint) []byte {
 	result, _ := cbor.Marshal(val)
 	return result
-- 
2.43.0


From 56fe17f44914d88478841d52a7e17d9e69293e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:49 +0000
Subject: [PATCH 27/60] fix: device refuses ProveOVHdr without owner key or
 nonce instead of panicking

---
 core/device/to2/req-to2-60-HelloDevice.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/device/to2/req-to2-60-HelloDevice.go b/core/device/to2/req-to2-60-HelloDevice.go
index 91e67c0..8bbd0a3 100644
--- a/core/device/to2/req-to2-60-HelloDevice.go
+++ b/core/device/to2/req-to2-60-HelloDevice.go
@@ -60,6 +60,14 @@ func (h *To2Requestor) HelloDevice60(fdoTestID testcom.FDOTestID) (*fdoshared.TO
 
 	// Signature verification
 	probableOwnerPubKey := proveOVHdr61.Unprotected.CUPHOwnerPubKey
+	if probableOwnerPubKey == nil {
+		return nil, nil, errors.New("HelloDevice60: ProveOVHdr61 does not name the owner public key")
+	}
+
+	if proveOVHdr61.Unprotected.CUPHNonce == nil {
+		return nil, nil, errors.New("HelloDevice60: ProveOVHdr61 does not contain NonceTO2ProveDv")
+	}
+
 	err = fdoshared.VerifyCoseSignature(proveOVHdr61, *probableOwnerPubKey)
 	if err != nil {
 		return nil, nil, err
-- 
2.43.0


From 089cd7791ed4d54bce4d31c117b8696b40edf3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:52 +0000
Subject: [PATCH 28/60] fix: device refuses a voucher without entries

---
 core/device/to2/req-to2-60-HelloDevice.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/device/to2/req-to2-60-HelloDevice.go b/core/device/to2/req-to2-60-HelloDevice.go
index 8bbd0a3..4d5c310 100644
--- a/core/device/to2/req-to2-60-HelloDevice.go
+++ b/core/device/to2/req-to2-60-HelloDevice.go
@@ -94,6 +94,10 @@ func (h *To2Requestor) HelloDevice60(fdoTestID testcom.FDOTestID) (*fdoshared.TO
 		return nil, nil, errors.New("HelloDevice60: DO returned wrong NonceTO2ProveOV")
 	}
 
+	if proveOvdrPayload.NumOVEntries == 0 {
+		return nil, nil, errors.New("HelloDevice60: DO returned a voucher without entries")
+	}
+
 	err = fdoshared.VerifyHMac(proveOvdrPayload.OVHeader, proveOvdrPayload.HMac, h.Credential.DCHmacSecret)
 	if err != nil {
 		return nil, nil, errors.New("HelloDevice60: Unknown Header HMac. " + err.Error())
-- 
2.43.0


From 34440555b7e10e84ce8d1a2d6550039ff93f2d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:15 +0000
Subject: [PATCH 29/60] fix: report a redirect without address instead of
 panicking

---
 main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/main.go b/main.go
index e1f0049..05605d1 100644
--- a/main.go
+++ b/main.go
@@ -447,6 +447,10 @@ func main() {
 								return fmt.Errorf("error decoding TO1D payload! %s", err.Error())
 							}
 
+							if len(to1dPayload.To1dRV) == 0 {
+								return fmt.Errorf("error decoding TO1D payload! It names no owner address")
+							}
+
 							rvdns := to1dPayload.To1dRV[0].RVDNS
 							rvipd := to1dPayload.To1dRV[0].RVIP
 							rvport := to1dPayload.To1dRV[0].RVPort
-- 
2.43.0


From 49552a7fcc5c4db47dbb69529451dfc8bd811770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:22 +0000
Subject: [PATCH 30/60] fix: clients refuse error statuses and answers of
 another message type

---
 core/device/to1/req-to1-30-HelloRV.go         |  4 ++++
 core/device/to1/req-to1-32-ProveToRV.go       |  5 +++++
 core/device/to2/req-to2-60-HelloDevice.go     |  9 ++-------
 core/device/to2/req-to2-62-GetOVNextEntry.go  |  9 ++-------
 core/device/to2/req-to2-64-ProveDevice.go     |  9 ++-------
 .../to2/req-to2-66-DeviceServiceInfoReady.go  |  9 ++-------
 .../to2/req-to2-68-DeviceServiceInfo.go       |  9 ++-------
 core/device/to2/req-to2-70-Done.go            |  9 ++-------
 core/do/to0/req-to0-20-Hello.go               |  4 ++++
 core/do/to0/req-to0-22-OwnerSign.go           |  4 ++++
 core/shared/comms.go                          | 19 +++++++++++++++++++
 11 files changed, 48 insertions(+), 42 deletions(-)

diff --git a/core/device/to1/req-to1-30-HelloRV.go b/core/device/to1/req-to1-30-HelloRV.go
index 8f0b633..d81a3dd 100644
--- a/core/device/to1/req-to1-30-HelloRV.go
+++ b/core/device/to1/req-to1-30-HelloRV.go
@@ -44,6 +44,10 @@ func (h *To1Requestor) HelloRV30(fdoTestID testcom.FDOTestID) (*fdoshared.HelloR
 
 	h.authzHeader = authzHeader
 
+	if err := fdoshared.CheckErrorStatus(resultBytes, httpStatusCode); err != nil {
+		return nil, &testState, errors.New("HelloRV30: " + err.Error())
+	}
+
 	fdoError, err := fdoshared.TryCborUnmarshal(resultBytes, &helloRVAck31)
 	if err != nil {
 		return nil, &testState, errors.New("HelloRV30: Failed to unmarshal HelloRvAck31. " + err.Error())
diff --git a/core/device/to1/req-to1-32-ProveToRV.go b/core/device/to1/req-to1-32-ProveToRV.go
index 3a97849..2b25ce2 100644
--- a/core/device/to1/req-to1-32-ProveToRV.go
+++ b/core/device/to1/req-to1-32-ProveToRV.go
@@ -66,6 +66,11 @@ func (h *To1Requestor) ProveToRV32(helloRVAck31 fdoshared.HelloRVAck31, fdoTestI
 	}
 
 	h.authzHeader = authzHeader
+
+	if err := fdoshared.CheckErrorStatus(resultBytes, httpStatusCode); err != nil {
+		return nil, nil, errors.New("RVRedirect33: " + err.Error())
+	}
+
 	fdoError, err := fdoshared.TryCborUnmarshal(resultBytes, &rvRedirect33)
 	if err != nil {
 		return nil, &testState, errors.New("RVRedirect33: Failed to unmarshal RVRedirect33. " + err.Error())
diff --git a/core/device/to2/req-to2-60-HelloDevice.go b/core/device/to2/req-to2-60-HelloDevice.go
index 4d5c310..9d4e879 100644
--- a/core/device/to2/req-to2-60-HelloDevice.go
+++ b/core/device/to2/req-to2-60-HelloDevice.go
@@ -3,8 +3,6 @@ package to2
 import (
 	"bytes"
 	"errors"
-	"fmt"
-	"net/http"
 
 	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
 	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"
@@ -43,11 +41,8 @@ func (h *To2Requestor) HelloDevice60(fdoTestID testcom.FDOTestID) (*fdoshared.TO
 		return nil, nil, errors.New("HelloDevice60: " + err.Error())
 	}
 
-	if httpStatusCode != http.StatusOK {
-		fdoErrInst, err := fdoshared.DecodeErrorResponse(resultBytes)
-		if err == nil {
-			return nil, nil, fmt.Errorf("HelloDevice60: %s", fdoErrInst.EMErrorStr)
-		}
+	if err := fdoshared.CheckErrorStatus(resultBytes, httpStatusCode); err != nil {
+		return nil, nil, errors.New("HelloDevice60: " + err.Error())
 	}
 
 	h.AuthzHeader = authzHeader
diff --git a/core/device/to2/req-to2-62-GetOVNextEntry.go b/core/device/to2/req-to2-62-GetOVNextEntry.go
index c756896..4148318 100644
--- a/core/device/to2/req-to2-62-GetOVNextEntry.go
+++ b/core/device/to2/req-to2-62-GetOVNextEntry.go
@@ -2,8 +2,6 @@ package to2
 
 import (
 	"errors"
-	"fmt"
-	"net/http"
 
 	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
 	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"
@@ -32,11 +30,8 @@ func (h *To2Requestor) GetOVNextEntry62(entryNum uint8, fdoTestID testcom.FDOTes
 		return nil, nil, err
 	}
 
-	if httpStatusCode != http.StatusOK {
-		fdoErrInst, err := fdoshared.DecodeErrorResponse(resultBytes)
-		if err == nil {
-			return nil, nil, fmt.Errorf("GetOVNextEntry62: %s", fdoErrInst.EMErrorStr)
-		}
+	if err := fdoshared.CheckErrorStatus(resultBytes, httpStatusCode); err != nil {
+		return nil, nil, errors.New("GetOVNextEntry62: " + err.Error())
 	}
 
 	if authzHeader != "" {
diff --git a/core/device/to2/req-to2-64-ProveDevice.go b/core/device/to2/req-to2-64-ProveDevice.go
index 771008a..d474ae6 100644
--- a/core/device/to2/req-to2-64-ProveDevice.go
+++ b/core/device/to2/req-to2-64-ProveDevice.go
@@ -2,8 +2,6 @@ package to2
 
 import (
 	"errors"
-	"fmt"
-	"net/http"
 
 	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
 	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"
@@ -83,11 +81,8 @@ func (h *To2Requestor) ProveDevice64(fdoTestID testcom.FDOTestID) (*fdoshared.TO
 		return nil, nil, errors.New("ProveDevice64: " + err.Error())
 	}
 
-	if httpStatusCode != http.StatusOK {
-		fdoErrInst, err := fdoshared.DecodeErrorResponse(rawResultBytes)
-		if err == nil {
-			return nil, nil, fmt.Errorf("ProveDevice64: Server returned FDO error: %s %d", fdoErrInst.EMErrorStr, fdoErrInst.EMErrorCode)
-		}
+	if err := fdoshared.CheckErrorStatus(rawResultBytes, httpStatusCode); err != nil {
+		return nil, nil, errors.New("ProveDevice64: " + err.Error())
 	}
 
 	if authzHeader != "" {
diff --git a/core/device/to2/req-to2-66-DeviceServiceInfoReady.go b/core/device/to2/req-to2-66-DeviceServiceInfoReady.go
index f1494e8..357c323 100644
--- a/core/device/to2/req-to2-66-DeviceServiceInfoReady.go
+++ b/core/device/to2/req-to2-66-DeviceServiceInfoReady.go
@@ -2,8 +2,6 @@ package to2
 
 import (
 	"errors"
-	"fmt"
-	"net/http"
 
 	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
 	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"
@@ -49,11 +47,8 @@ func (h *To2Requestor) DeviceServiceInfoReady66(fdoTestID testcom.FDOTestID) (*f
 		return nil, nil, err
 	}
 
-	if httpStatusCode != http.StatusOK {
-		fdoErrInst, err := fdoshared.DecodeErrorResponse(rawResultBytes)
-		if err == nil {
-			return nil, nil, fmt.Errorf("DeviceServiceInfoReady66: %s", fdoErrInst.EMErrorStr)
-		}
+	if err := fdoshared.CheckErrorStatus(rawResultBytes, httpStatusCode); err != nil {
+		return nil, nil, errors.New("DeviceServiceInfoReady66: " + err.Error())
 	}
 
 	if authzHeader != "" {
diff --git a/core/device/to2/req-to2-68-DeviceServiceInfo.go b/core/device/to2/req-to2-68-DeviceServiceInfo.go
index 5352d3d..fba5230 100644
--- a/core/device/to2/req-to2-68-DeviceServiceInfo.go
+++ b/core/device/to2/req-to2-68-DeviceServiceInfo.go
@@ -2,8 +2,6 @@ package to2
 
 import (
 	"errors"
-	"fmt"
-	"net/http"
 
 	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
 	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"
@@ -41,11 +39,8 @@ func (h *To2Requestor) DeviceServiceInfo68(deviceServiceInfo68 fdoshared.DeviceS
 		return nil, nil, err
 	}
 
-	if httpStatusCode != http.StatusOK {
-		fdoErrInst, err := fdoshared.DecodeErrorResponse(rawResultBytes)
-		if err == nil {
-			return nil, nil, fmt.Errorf("DeviceServiceInfo68: Server returned error (HTTP %d): (ErrorCID %d) %s", httpStatusCode, fdoErrInst.EMErrorCID, fdoErrInst.EMErrorStr)
-		}
+	if err := fdoshared.CheckErrorStatus(rawResultBytes, httpStatusCode); err != nil {
+		return nil, nil, errors.New("DeviceServiceInfo68: " + err.Error())
 	}
 
 	if authzHeader != "" {
diff --git a/core/device/to2/req-to2-70-Done.go b/core/device/to2/req-to2-70-Done.go
index e30f7e5..30b06f2 100644
--- a/core/device/to2/req-to2-70-Done.go
+++ b/core/device/to2/req-to2-70-Done.go
@@ -3,8 +3,6 @@ package to2
 import (
 	"bytes"
 	"errors"
-	"fmt"
-	"net/http"
 
 	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
 	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"
@@ -49,11 +47,8 @@ func (h *To2Requestor) Done70(fdoTestID testcom.FDOTestID) (*fdoshared.Done271,
 		return nil, nil, err
 	}
 
-	if httpStatusCode != http.StatusOK {
-		fdoErrInst, err := fdoshared.DecodeErrorResponse(rawResultBytes)
-		if err == nil {
-			return nil, nil, fmt.Errorf("Done70: %s", fdoErrInst.EMErrorStr)
-		}
+	if err := fdoshared.CheckErrorStatus(rawResultBytes, httpStatusCode); err != nil {
+		return nil, nil, errors.New("Done70: " + err.Error())
 	}
 
 	if authzHeader != "" {
diff --git a/core/do/to0/req-to0-20-Hello.go b/core/do/to0/req-to0-20-Hello.go
index 26f88f9..4a3e524 100644
--- a/core/do/to0/req-to0-20-Hello.go
+++ b/core/do/to0/req-to0-20-Hello.go
@@ -33,6 +33,10 @@ func (h *To0Requestor) Hello20(fdoTestID testcom.FDOTestID) (*fdoshared.HelloAck
 
 	h.authzHeader = authzHeader
 
+	if err := fdoshared.CheckErrorStatus(resultBytes, httpStatusCode); err != nil {
+		return nil, nil, errors.New("Hell20: " + err.Error())
+	}
+
 	fdoErrInst, err := fdoshared.DecodeErrorResponse(resultBytes)
 	if err == nil {
 		return nil, nil, fmt.Errorf("Hell20: Server returned FDO error: %s %d", fdoErrInst.EMErrorStr, fdoErrInst.EMErrorCode)
diff --git a/core/do/to0/req-to0-22-OwnerSign.go b/core/do/to0/req-to0-22-OwnerSign.go
index 86db877..b66ebfe 100644
--- a/core/do/to0/req-to0-22-OwnerSign.go
+++ b/core/do/to0/req-to0-22-OwnerSign.go
@@ -118,6 +118,10 @@ func (h *To0Requestor) OwnerSign22(nonceTO0Sign fdoshared.FdoNonce, fdoTestId te
 
 	h.authzHeader = authzHeader
 
+	if err := fdoshared.CheckErrorStatus(resultBytes, httpStatusCode); err != nil {
+		return nil, nil, errors.New("OwnerSign22: " + err.Error())
+	}
+
 	fdoErrInst, err := fdoshared.DecodeErrorResponse(resultBytes)
 	if err == nil {
 		return nil, nil, fmt.Errorf("server returned FDO error: %s %d", fdoErrInst.EMErrorStr, fdoErrInst.EMErrorCode)
diff --git a/core/shared/comms.go b/core/shared/comms.go
index a181d98..734360e 100644
--- a/core/shared/comms.go
+++ b/core/shared/comms.go
@@ -52,5 +52,24 @@ func SendCborPost(rvEntry SRVEntry, cmd FdoCmd, payload []byte, authzHeader *str
 		return nil, "", 0, fmt.Errorf("Error reading body bytes for %s url. %s", address, err.Error())
 	}
 
+	messageType := resp.Header.Get("Message-Type")
+	if resp.StatusCode == http.StatusOK && messageType != "" && messageType != (cmd+1).ToString() {
+		return nil, "", resp.StatusCode, fmt.Errorf("Error, %s answered message %s with message type %s", address, cmd.ToString(), messageType)
+	}
+
 	return bodyBytes, resp.Header.Get("Authorization"), resp.StatusCode, nil
 }
+
+// CheckErrorStatus returns an error if the server has refused the request.
+func CheckErrorStatus(bodyBytes []byte, httpStatusCode int) error {
+	if httpStatusCode == http.StatusOK {
+		return nil
+	}
+
+	fdoErrInst, err := DecodeErrorResponse(bodyBytes)
+	if err != nil {
+		return fmt.Errorf("Server returned HTTP status %d", httpStatusCode)
+	}
+
+	return fmt.Errorf("Server returned FDO error (HTTP %d): %s %d", httpStatusCode, fdoErrInst.EMErrorStr, fdoErrInst.EMErrorCode)
+}
-- 
2.43.0


From 324f0822c88386732e0533d358cb1a0e6391729c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:04 +0000
Subject: [PATCH 31/60] fix: device refuses a voucher entry it has not asked
 for

---
 core/device/to2/req-to2-62-GetOVNextEntry.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/device/to2/req-to2-62-GetOVNextEntry.go b/core/device/to2/req-to2-62-GetOVNextEntry.go
index 4148318..01bf062 100644
--- a/core/device/to2/req-to2-62-GetOVNextEntry.go
+++ b/core/device/to2/req-to2-62-GetOVNextEntry.go
@@ -48,5 +48,9 @@ func (h *To2Requestor) GetOVNextEntry62(entryNum uint8, fdoTestID testcom.FDOTes
 		return nil, nil, errors.New("GetOVNextEntry64: Received FDO Error: " + fdoError.Error())
 	}
 
+	if nextEntry.OVEntryNum != entryNum {
+		return nil, nil, errors.New("GetOVNextEntry62: DO returned another voucher entry than the requested one")
+	}
+
 	return &nextEntry, &testState, nil
 }
-- 
2.43.0


From f5f45f20be64ccf58793f2be3d4781794cc61453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:04 +0000
Subject: [PATCH 32/60] fix: device checks the SigInfo of HelloRVAck

---
 core/device/to1/req-to1-30-HelloRV.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/device/to1/req-to1-30-HelloRV.go b/core/device/to1/req-to1-30-HelloRV.go
index d81a3dd..ca5d58a 100644
--- a/core/device/to1/req-to1-30-HelloRV.go
+++ b/core/device/to1/req-to1-30-HelloRV.go
@@ -57,5 +57,10 @@ func (h *To1Requestor) HelloRV30(fdoTestID testcom.FDOTestID) (*fdoshared.HelloR
 		return nil, &testState, errors.New("HelloRV30: Received FDO Error: " + fdoError.Error())
 	}
 
+	err = helloRVAck31.EBSigInfo.Equal(helloRv30.EASigInfo)
+	if err != nil {
+		return nil, &testState, errors.New("HelloRV30: Failed SigInfo check. " + err.Error())
+	}
+
 	return &helloRVAck31, &testState, nil
 }
-- 
2.43.0


From 697ca62ccc1fda1f8e64b46dad4fbe1986d732c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:04 +0000
Subject: [PATCH 33/60] fix: refuse null in place of an answer

---
 core/shared/other.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/shared/other.go b/core/shared/other.go
index 04d54ae..9d725cf 100644
--- a/core/shared/other.go
+++ b/core/shared/other.go
@@ -256,6 +256,10 @@ func DecodeErrorResponse(bodyBytes []byte) (*FdoError, error) {
 }
 
 func TryCborUnmarshal(bodyBytes []byte, target interface{}) (*FdoError, error) {
+	if isCborNull(bodyBytes) {
+		return nil, errors.New("error decoding message. The message is null")
+	}
+
 	err := CborCust.Unmarshal(bodyBytes, target)
 	if err != nil {
 		return DecodeErrorResponse(bodyBytes)
-- 
2.43.0


From 1c934152fbfa53db48c15fb599547995bd688bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:06 +0000
Subject: [PATCH 34/60] fix: owner signs TO1d with the algorithm of his own key

---
 core/do/to0/req-to0-22-OwnerSign.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/do/to0/req-to0-22-OwnerSign.go b/core/do/to0/req-to0-22-OwnerSign.go
index b66ebfe..4657670 100644
--- a/core/do/to0/req-to0-22-OwnerSign.go
+++ b/core/do/to0/req-to0-22-OwnerSign.go
@@ -78,9 +78,9 @@ func (h *To0Requestor) OwnerSign22(nonceTO0Sign fdoshared.FdoNonce, fdoTestId te
 		return nil, nil, errors.New("OwnerSign22: Error extracting private key. " + err.Error())
 	}
 
-	sgType, err := fdoshared.GetDeviceSgType(lastOvEntryPubKeyPkType, deviceHashAlg)
-	if err != nil {
-		return nil, nil, errors.New("OwnerSign22: Error getting device SgType. " + err.Error())
+	sgType, ok := fdoshared.PkToSgType[lastOvEntryPubKeyPkType]
+	if !ok {
+		return nil, nil, fmt.Errorf("OwnerSign22: Owner public key type %d is not supported", lastOvEntryPubKeyPkType)
 	}
 
 	to1d, err := fdoshared.GenerateCoseSignature(to1dPayloadBytes, fdoshared.ProtectedHeader{}, fdoshared.UnprotectedHeader{}, privateKeyInst, sgType)
-- 
2.43.0


From bd646c3c8356ddd14df9aa8496417c16b842c914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:57 +0000
Subject: [PATCH 35/60] fix: answer a device that goes on after a failed test

---
 core/do/to2/listener-to2-62-GetOVNextEntry.go         | 1 +
 core/do/to2/listener-to2-64-ProveDevice.go            | 1 +
 core/do/to2/listener-to2-66-DeviceServiceInfoReady.go | 1 +
 core/do/to2/listener-to2-68-DeviceServiceInfo.go      | 1 +
 core/do/to2/listener-to2-70-Done.go                   | 1 +
 5 files changed, 5 insertions(+)

diff --git a/core/do/to2/listener-to2-62-GetOVNextEntry.go b/core/do/to2/listener-to2-62-GetOVNextEntry.go
index ffb8e71..77bc474 100644
--- a/core/do/to2/listener-to2-62-GetOVNextEntry.go
+++ b/core/do/to2/listener-to2-62-GetOVNextEntry.go
@@ -45,6 +45,7 @@ func (h *DoTo2) GetOVNextEntry62(w http.ResponseWriter, r *http.Request) {
 		}
 
 		if isLastTestFailed {
+			fdoshared.RespondFDOError(w, r, fdoshared.INVALID_MESSAGE_ERROR, currentCmd, "Expected the device to fail, but it didn't", http.StatusBadRequest)
 			return
 		}
 	}
diff --git a/core/do/to2/listener-to2-64-ProveDevice.go b/core/do/to2/listener-to2-64-ProveDevice.go
index 4886eea..147d419 100644
--- a/core/do/to2/listener-to2-64-ProveDevice.go
+++ b/core/do/to2/listener-to2-64-ProveDevice.go
@@ -51,6 +51,7 @@ func (h *DoTo2) ProveDevice64(w http.ResponseWriter, r *http.Request) {
 		}
 
 		if isLastTestFailed {
+			fdoshared.RespondFDOError(w, r, fdoshared.INVALID_MESSAGE_ERROR, currentCmd, "Expected the device to fail, but it didn't", http.StatusBadRequest)
 			return
 		}
 	}
diff --git a/core/do/to2/listener-to2-66-DeviceServiceInfoReady.go b/core/do/to2/listener-to2-66-DeviceServiceInfoReady.go
index a4cdc14..a9d1fa0 100644
--- a/core/do/to2/listener-to2-66-DeviceServiceInfoReady.go
+++ b/core/do/to2/listener-to2-66-DeviceServiceInfoReady.go
@@ -44,6 +44,7 @@ func (h *DoTo2) DeviceServiceInfoReady66(w http.ResponseWriter, r *http.Request)
 		}
 
 		if isLastTestFailed {
+			fdoshared.RespondFDOError(w, r, fdoshared.INVALID_MESSAGE_ERROR, currentCmd, "Expected the device to fail, but it didn't", http.StatusBadRequest)
 			return
 		}
 	}
diff --git a/core/do/to2/listener-to2-68-DeviceServiceInfo.go b/core/do/to2/listener-to2-68-DeviceServiceInfo.go
index 73bbdd1..d196134 100644
--- a/core/do/to2/listener-to2-68-DeviceServiceInfo.go
+++ b/core/do/to2/listener-to2-68-DeviceServiceInfo.go
@@ -47,6 +47,7 @@ func (h *DoTo2) DeviceServiceInfo68(w http.ResponseWriter, r *http.Request) {
 		}
 
 		if isLastTestFailed {
+			fdoshared.RespondFDOError(w, r, fdoshared.INVALID_MESSAGE_ERROR, currentCmd, "Expected the device to fail, but it didn't", http.StatusBadRequest)
 			return
 		}
 	}
diff --git a/core/do/to2/listener-to2-70-Done.go b/core/do/to2/listener-to2-70-Done.go
index 1d9268f..98860b8 100644
--- a/core/do/to2/listener-to2-70-Done.go
+++ b/core/do/to2/listener-to2-70-Done.go
@@ -45,6 +45,7 @@ func (h *DoTo2) Done70(w http.ResponseWriter, r *http.Request) {
 		}
 
 		if isLastTestFailed {
+			fdoshared.RespondFDOError(w, r, fdoshared.INVALID_MESSAGE_ERROR, currentCmd, "Expected the device to fail, but it didn't", http.StatusBadRequest)
 			return
 		}
 	}
-- 
2.43.0


From 059374a4e12e96e035b5b1b8bd070ce58c3f7682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:59 +0000
Subject: [PATCH 36/60] fix: refuse ProveDevice for a voucher without device
 certificate chain instead of panicking

---
 core/do/to2/listener-to2-64-ProveDevice.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/do/to2/listener-to2-64-ProveDevice.go b/core/do/to2/listener-to2-64-ProveDevice.go
index 147d419..b9613f0 100644
--- a/core/do/to2/listener-to2-64-ProveDevice.go
+++ b/core/do/to2/listener-to2-64-ProveDevice.go
@@ -76,6 +76,11 @@ func (h *DoTo2) ProveDevice64(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
+	if session.Voucher.OVDevCertChain == nil {
+		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INVALID_MESSAGE_ERROR, currentCmd, "Voucher has no device certificate chain", http.StatusBadRequest, testcomListener, fdoshared.To2)
+		return
+	}
+
 	err = fdoshared.VerifyCoseSignatureWithCertificate(proveDevice64, pkType, *session.Voucher.OVDevCertChain)
 	if err != nil {
 		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.MESSAGE_BODY_ERROR, currentCmd, "Error validating cose signature with certificate..."+err.Error(), http.StatusBadRequest, testcomListener, fdoshared.To2)
-- 
2.43.0


From 1b8c2c6fd8c99ecb27ab1e3d3eda2044667f29f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:01 +0000
Subject: [PATCH 37/60] fix: onboarding errors name their own message and
 protocol

---
 core/do/to2/listener-to2-64-ProveDevice.go | 4 ++--
 core/do/to2/listener-to2-70-Done.go        | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/core/do/to2/listener-to2-64-ProveDevice.go b/core/do/to2/listener-to2-64-ProveDevice.go
index b9613f0..d0818a2 100644
--- a/core/do/to2/listener-to2-64-ProveDevice.go
+++ b/core/do/to2/listener-to2-64-ProveDevice.go
@@ -24,7 +24,7 @@ func (h *DoTo2) ProveDevice64(w http.ResponseWriter, r *http.Request) {
 
 	privateKeyInst, err := fdoshared.ExtractPrivateKey(session.PrivateKeyDER)
 	if err != nil {
-		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, fdoshared.TO2_60_HELLO_DEVICE, "Error decoding private key... "+err.Error(), http.StatusInternalServerError, testcomListener, fdoshared.To2)
+		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Error decoding private key... "+err.Error(), http.StatusInternalServerError, testcomListener, fdoshared.To2)
 		return
 	}
 
@@ -72,7 +72,7 @@ func (h *DoTo2) ProveDevice64(w http.ResponseWriter, r *http.Request) {
 	pkType, ok := fdoshared.SgTypeToFdoPkType[session.EASigInfo.SgType]
 	if !ok {
 		log.Println("ProveToRV32: Unknown signature type. ")
-		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INVALID_MESSAGE_ERROR, currentCmd, "Error to verify signature ProveDevice64", http.StatusBadRequest, testcomListener, fdoshared.To1)
+		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INVALID_MESSAGE_ERROR, currentCmd, "Error to verify signature ProveDevice64", http.StatusBadRequest, testcomListener, fdoshared.To2)
 		return
 	}
 
diff --git a/core/do/to2/listener-to2-70-Done.go b/core/do/to2/listener-to2-70-Done.go
index 98860b8..63c04ac 100644
--- a/core/do/to2/listener-to2-70-Done.go
+++ b/core/do/to2/listener-to2-70-Done.go
@@ -93,14 +93,14 @@ func (h *DoTo2) Done70(w http.ResponseWriter, r *http.Request) {
 
 	done271Bytes, err := fdoshared.AddEncryptionWrapping(done271PayloadBytes, session.SessionKey, session.CipherSuiteName)
 	if err != nil {
-		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Done70: Error encrypting..."+err.Error(), http.StatusInternalServerError, testcomListener, fdoshared.To1)
+		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Done70: Error encrypting..."+err.Error(), http.StatusInternalServerError, testcomListener, fdoshared.To2)
 		return
 	}
 
 	if fdoTestId == testcom.FIDO_LISTENER_DEVICE_70_BAD_ENC_WRAPPING {
 		done271Bytes, err = fdoshared.Conf_Fuzz_AddWrapping(done271PayloadBytes, session.SessionKey, session.CipherSuiteName)
 		if err != nil {
-			listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Done70: Error encrypting..."+err.Error(), http.StatusInternalServerError, testcomListener, fdoshared.To1)
+			listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Done70: Error encrypting..."+err.Error(), http.StatusInternalServerError, testcomListener, fdoshared.To2)
 			return
 		}
 	}
@@ -118,7 +118,7 @@ func (h *DoTo2) Done70(w http.ResponseWriter, r *http.Request) {
 		testcomListener.To2.CompleteTestRun()
 		err := h.listenerDB.Update(testcomListener)
 		if err != nil {
-			listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Conformance module failed to save result!", http.StatusBadRequest, testcomListener, fdoshared.To1)
+			listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Conformance module failed to save result!", http.StatusBadRequest, testcomListener, fdoshared.To2)
 			return
 		}
 	}
-- 
2.43.0


From 49b1a20ee44be8d2c3d1970d2d947060115f2050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:53 +0000
Subject: [PATCH 38/60] fix: error message text is always valid UTF-8

---
 core/shared/error.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/shared/error.go b/core/shared/error.go
index af7afdd..b1ed34b 100644
--- a/core/shared/error.go
+++ b/core/shared/error.go
@@ -3,6 +3,7 @@ package fdoshared
 import (
 	"fmt"
 	"math/rand"
+	"strings"
 	"time"
 )
 
@@ -25,7 +26,7 @@ func NewFdoError(errorCode FdoErrorCode, prevMsgId FdoCmd, messageStr string) Fd
 	return FdoError{
 		EMErrorCode: errorCode,
 		EMPrevMsgID: prevMsgId,
-		EMErrorStr:  messageStr,
+		EMErrorStr:  strings.ToValidUTF8(messageStr, "?"), // a CBOR text string must be valid UTF-8
 		EMErrorTs:   now.Unix(),
 		EMErrorCID:  uint(rand.Uint64()),
 	}
-- 
2.43.0


From cd0b0889acf7c6ffbe39de5d1a496ea90104aa52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:53 +0000
Subject: [PATCH 39/60] fix: updating a management session keeps its expiry and
 cannot revive it

---
 dbs/session.db.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/dbs/session.db.go b/dbs/session.db.go
index 44a8f8f..d62b77e 100644
--- a/dbs/session.db.go
+++ b/dbs/session.db.go
@@ -79,7 +79,16 @@ func (h *SessionDB) UpdateSessionEntry(entryId []byte, sessionInst SessionEntry)
 		return errors.New("Failed to marshal session. The error is: " + err.Error())
 	}
 
-	err = dbtxn.Set(sessionEntryId, sessionInstBytes)
+	item, err := dbtxn.Get(sessionEntryId)
+	if err != nil {
+		return errors.New("Failed locating session. The error is: " + err.Error())
+	}
+
+	// The session keeps the expiry it was created with
+	entry := badger.NewEntry(sessionEntryId, sessionInstBytes)
+	entry.ExpiresAt = item.ExpiresAt()
+
+	err = dbtxn.SetEntry(entry)
 	if err != nil {
 		return errors.New("Failed to create saving inst. The error is: " + err.Error())
 	}
-- 
2.43.0


From 6947eccceb97dab820b0a41857f677d35bab5dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:23 +0000
Subject: [PATCH 40/60] fix: changes a user makes at the same time are not lost

---
 api/testapi/device.api.go |  6 ++--
 api/testapi/do.api.go     |  5 +--
 api/testapi/rv.api.go     |  6 ++--
 api/user.auth.api.go      |  2 +-
 api/user.other.api.go     | 10 +++---
 dbs/user.db.go            | 66 +++++++++++++++++++++++++++++++++++++++
 6 files changed, 81 insertions(+), 14 deletions(-)

diff --git a/api/testapi/device.api.go b/api/testapi/device.api.go
index 8d33942..fc15171 100644
--- a/api/testapi/device.api.go
+++ b/api/testapi/device.api.go
@@ -147,9 +147,9 @@ func (h *DeviceTestMgmtAPI) Generate(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
-	userInst.DeviceTestInsts = append(userInst.DeviceTestInsts, dbs.NewDeviceTestInst(createTestCase.Name, deviceListenerInsts.Uuid, ovHeader.OVGuid))
-
-	err = h.UserDB.Save(*userInst)
+	err = h.UserDB.Update(userInst.Email, func(usere *dbs.UserTestDBEntry) {
+		usere.DeviceTestInsts = append(usere.DeviceTestInsts, dbs.NewDeviceTestInst(createTestCase.Name, deviceListenerInsts.Uuid, ovHeader.OVGuid))
+	})
 	if err != nil {
 		log.Println("Failed to save user. " + err.Error())
 		commonapi.RespondError(w, "Internal server error", http.StatusInternalServerError)
diff --git a/api/testapi/do.api.go b/api/testapi/do.api.go
index f696cd1..c823f33 100644
--- a/api/testapi/do.api.go
+++ b/api/testapi/do.api.go
@@ -233,8 +233,9 @@ func (h *DOTestMgmtAPI) Generate(w http.ResponseWriter, r *http.Request) {
 	}
 
 	// Saving user
-	userInst.DOTestInsts = append(userInst.DOTestInsts, dbs.NewDOTestInst(doUrl, newDOTTestTo2.Uuid))
-	err = h.UserDB.Save(*userInst)
+	err = h.UserDB.Update(userInst.Email, func(usere *dbs.UserTestDBEntry) {
+		usere.DOTestInsts = append(usere.DOTestInsts, dbs.NewDOTestInst(doUrl, newDOTTestTo2.Uuid))
+	})
 	if err != nil {
 		log.Println("Failed to save user. " + err.Error())
 		commonapi.RespondError(w, "Internal server error", http.StatusInternalServerError)
diff --git a/api/testapi/rv.api.go b/api/testapi/rv.api.go
index 877cbd7..bb6618e 100644
--- a/api/testapi/rv.api.go
+++ b/api/testapi/rv.api.go
@@ -125,9 +125,9 @@ func (h *RVTestMgmtAPI) Generate(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
-	userInst.RVTestInsts = append(userInst.RVTestInsts, dbs.NewRVTestInst(rvUrl, newRVTestTo0.Uuid, newRVTestTo1.Uuid))
-
-	err = h.UserDB.Save(*userInst)
+	err = h.UserDB.Update(userInst.Email, func(usere *dbs.UserTestDBEntry) {
+		usere.RVTestInsts = append(usere.RVTestInsts, dbs.NewRVTestInst(rvUrl, newRVTestTo0.Uuid, newRVTestTo1.Uuid))
+	})
 	if err != nil {
 		log.Println("Failed to save user. " + err.Error())
 		commonapi.RespondError(w, "Internal server error", http.StatusInternalServerError)
diff --git a/api/user.auth.api.go b/api/user.auth.api.go
index f3b10ce..afd2a75 100644
--- a/api/user.auth.api.go
+++ b/api/user.auth.api.go
@@ -20,7 +20,7 @@ func (h *UserAPI) OnPremNoLogin(w http.ResponseWriter, r *http.Request) {
 			Email: strings.ToLower(ONPREM_CONFIG),
 		}
 
-		err = h.UserDB.Save(newUserInst)
+		err = h.UserDB.SaveNew(newUserInst)
 		if err != nil {
 			log.Println("Error saving user. " + err.Error())
 			commonapi.RespondError(w, "Internal server error.", http.StatusInternalServerError)
diff --git a/api/user.other.api.go b/api/user.other.api.go
index ca7386f..698f7fd 100644
--- a/api/user.other.api.go
+++ b/api/user.other.api.go
@@ -121,11 +121,11 @@ func (h *UserAPI) PurgeTests(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
-	userInst.DeviceTestInsts = []dbs.DeviceTestInst{}
-	userInst.DOTestInsts = []dbs.DOTestInst{}
-	userInst.RVTestInsts = []dbs.RVTestInst{}
-
-	err = h.UserDB.Save(*userInst)
+	err = h.UserDB.Update(userInst.Email, func(usere *dbs.UserTestDBEntry) {
+		usere.DeviceTestInsts = []dbs.DeviceTestInst{}
+		usere.DOTestInsts = []dbs.DOTestInst{}
+		usere.RVTestInsts = []dbs.RVTestInst{}
+	})
 	if err != nil {
 		log.Println("Failed to save user. " + err.Error())
 		commonapi.RespondError(w, "Internal server error", http.StatusInternalServerError)
diff --git a/dbs/user.db.go b/dbs/user.db.go
index 8bd1558..214b894 100644
--- a/dbs/user.db.go
+++ b/dbs/user.db.go
@@ -76,6 +76,72 @@ func (h *UserTestDB) Get(email string) (*UserTestDBEntry, error) {
 	return &usertEntryInst, nil
 }
 
+// Update changes the stored user in one transaction, so that changes made at the same time are not lost.
+func (h *UserTestDB) Update(email string, change func(usere *UserTestDBEntry)) error {
+	return h.inTxn(email, func(usere *UserTestDBEntry) (*UserTestDBEntry, error) {
+		if usere == nil {
+			return nil, fmt.Errorf("The user entry with id %s does not exist", email)
+		}
+
+		change(usere)
+		return usere, nil
+	})
+}
+
+// SaveNew stores the user unless it is already stored.
+func (h *UserTestDB) SaveNew(usere UserTestDBEntry) error {
+	return h.inTxn(usere.Email, func(stored *UserTestDBEntry) (*UserTestDBEntry, error) {
+		if stored != nil {
+			return nil, nil
+		}
+
+		return &usere, nil
+	})
+}
+
+// inTxn stores what change makes of the stored user, which is nil if there is none.
+func (h *UserTestDB) inTxn(email string, change func(usere *UserTestDBEntry) (*UserTestDBEntry, error)) error {
+	userEStorageId := append([]byte{}, h.prefix...)
+	userEStorageId = append(userEStorageId, []byte(strings.ToLower(email))...)
+
+	for {
+		err := h.db.Update(func(dbtxn *badger.Txn) error {
+			var stored *UserTestDBEntry
+
+			item, err := dbtxn.Get(userEStorageId)
+			if err != nil && !errors.Is(err, badger.ErrKeyNotFound) {
+				return errors.New("Failed locating entry. The error is: " + err.Error())
+			} else if err == nil {
+				itemBytes, err := item.ValueCopy(nil)
+				if err != nil {
+					return errors.New("Failed reading entry value. The error is: " + err.Error())
+				}
+
+				stored = &UserTestDBEntry{}
+				err = fdoshared.CborCust.Unmarshal(itemBytes, stored)
+				if err != nil {
+					return errors.New("Failed cbor decoding entry value. The error is: " + err.Error())
+				}
+			}
+
+			changed, err := change(stored)
+			if err != nil || changed == nil {
+				return err
+			}
+
+			usereBytes, err := fdoshared.CborCust.Marshal(changed)
+			if err != nil {
+				return errors.New("Failed to marshal User entry. The error is: " + err.Error())
+			}
+
+			return dbtxn.SetEntry(badger.NewEntry(userEStorageId, usereBytes))
+		})
+		if !errors.Is(err, badger.ErrConflict) {
+			return err
+		}
+	}
+}
+
 func (h *UserTestDB) ResetUsers() error {
 	dbtxn := h.db.NewTransaction(true)
 	defer dbtxn.Discard()
-- 
2.43.0


From f80068a8ce4460ce7c268cb649b2dae271374381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:14 +0000
Subject: [PATCH 41/60] fix: verdicts and removals of runs are not lost, and
 removed or absent runs do no harm

---
 core/shared/testcom/dbs/reqt.db.go | 125 +++++++++++++++++------------
 1 file changed, 75 insertions(+), 50 deletions(-)

diff --git a/core/shared/testcom/dbs/reqt.db.go b/core/shared/testcom/dbs/reqt.db.go
index 3b5e4e0..02645ee 100644
--- a/core/shared/testcom/dbs/reqt.db.go
+++ b/core/shared/testcom/dbs/reqt.db.go
@@ -120,73 +120,98 @@ func (h *RequestTestDB) GetMany(rvtids [][]byte) (*[]reqtestsdeps.RequestTestIns
 	return &rvts, nil
 }
 
-func (h *RequestTestDB) StartNewRun(rvteid []byte) {
-	log.Printf("----- Starting New Run For %s -----", hex.EncodeToString(rvteid))
-	rvte, err := h.Get(rvteid)
-	if err != nil {
-		log.Printf("%s test entry can not be found.", hex.EncodeToString(rvteid))
-	}
-
-	newRVTestRun := reqtestsdeps.NewRVTestRun(rvte.Protocol)
+// modify changes the stored entry in one transaction, so that changes made at the same time are not lost.
+func (h *RequestTestDB) modify(rvteid []byte, change func(rvte *reqtestsdeps.RequestTestInst)) {
+	rvteStorageId := append([]byte{}, h.prefix...)
+	rvteStorageId = append(rvteStorageId, rvteid...)
+
+	for {
+		err := h.db.Update(func(dbtxn *badger.Txn) error {
+			item, err := dbtxn.Get(rvteStorageId)
+			if err != nil {
+				return err
+			}
+
+			itemBytes, err := item.ValueCopy(nil)
+			if err != nil {
+				return err
+			}
+
+			var rvte reqtestsdeps.RequestTestInst
+			err = fdoshared.CborCust.Unmarshal(itemBytes, &rvte)
+			if err != nil {
+				return err
+			}
+
+			change(&rvte)
+
+			rvteBytes, err := fdoshared.CborCust.Marshal(rvte)
+			if err != nil {
+				return err
+			}
+
+			return dbtxn.SetEntry(badger.NewEntry(rvteStorageId, rvteBytes).WithTTL(time.Second * time.Duration(h.ttl)))
+		})
+		if errors.Is(err, badger.ErrConflict) {
+			continue
+		}
 
-	rvte.InProgress = true
-	rvte.CurrentTestRun = newRVTestRun
-	rvte.TestsHistory = append([]reqtestsdeps.RequestTestRun{newRVTestRun}, rvte.TestsHistory...)
+		if errors.Is(err, badger.ErrKeyNotFound) {
+			log.Printf("%s test entry can not be found.", hex.EncodeToString(rvteid))
+		} else if err != nil {
+			log.Printf("%s error saving test entry. %s", hex.EncodeToString(rvteid), err.Error())
+		}
 
-	err = h.Save(*rvte)
-	if err != nil {
-		log.Printf("%s error saving test entry.", hex.EncodeToString(rvteid))
+		return
 	}
 }
 
-func (h *RequestTestDB) FinishRun(rvteid []byte) {
-	rvte, err := h.Get(rvteid)
-	if err != nil {
-		log.Printf("%s test entry can not be found.", hex.EncodeToString(rvteid))
-	}
+func (h *RequestTestDB) StartNewRun(rvteid []byte) {
+	log.Printf("----- Starting New Run For %s -----", hex.EncodeToString(rvteid))
 
-	rvte.InProgress = false
+	h.modify(rvteid, func(rvte *reqtestsdeps.RequestTestInst) {
+		newRVTestRun := reqtestsdeps.NewRVTestRun(rvte.Protocol)
 
-	err = h.Save(*rvte)
-	if err != nil {
-		log.Printf("%s error saving test entry.", hex.EncodeToString(rvteid))
-	}
+		rvte.InProgress = true
+		rvte.CurrentTestRun = newRVTestRun
+		rvte.TestsHistory = append([]reqtestsdeps.RequestTestRun{newRVTestRun}, rvte.TestsHistory...)
+	})
+}
+
+func (h *RequestTestDB) FinishRun(rvteid []byte) {
+	h.modify(rvteid, func(rvte *reqtestsdeps.RequestTestInst) {
+		rvte.InProgress = false
+	})
 
 	log.Printf("----- Finishing Run For %s -----", hex.EncodeToString(rvteid))
 }
 
 func (h *RequestTestDB) ReportTest(rvteid []byte, testID testcom.FDOTestID, testResult testcom.FDOTestState) {
-	rvte, err := h.Get(rvteid)
-	if err != nil {
-		log.Printf("%s test entry can not be found.", hex.EncodeToString(rvteid))
-	}
+	h.modify(rvteid, func(rvte *reqtestsdeps.RequestTestInst) {
+		if rvte.CurrentTestRun.Tests == nil {
+			rvte.CurrentTestRun.Tests = reqtestsdeps.RequestTestResultMap{}
+		}
 
-	rvte.CurrentTestRun.Tests[testID] = testResult
-	rvte.TestsHistory[0] = rvte.CurrentTestRun
+		rvte.CurrentTestRun.Tests[testID] = testResult
 
-	err = h.Save(*rvte)
-	if err != nil {
-		log.Printf("%s error saving test entry.", hex.EncodeToString(rvteid))
-	}
+		// The run may have been removed meanwhile
+		for i := range rvte.TestsHistory {
+			if rvte.TestsHistory[i].Uuid == rvte.CurrentTestRun.Uuid {
+				rvte.TestsHistory[i] = rvte.CurrentTestRun
+			}
+		}
+	})
 }
 
 func (h *RequestTestDB) RemoveTestRun(rvteid []byte, testRunId string) {
-	rvte, err := h.Get(rvteid)
-	if err != nil {
-		log.Printf("%s test entry can not be found.", hex.EncodeToString(rvteid))
-	}
-
-	var updatedTestsHistory []reqtestsdeps.RequestTestRun = []reqtestsdeps.RequestTestRun{}
-	for _, testRunEntry := range rvte.TestsHistory {
-		if testRunEntry.Uuid != testRunId {
-			updatedTestsHistory = append(updatedTestsHistory, testRunEntry)
+	h.modify(rvteid, func(rvte *reqtestsdeps.RequestTestInst) {
+		var updatedTestsHistory []reqtestsdeps.RequestTestRun = []reqtestsdeps.RequestTestRun{}
+		for _, testRunEntry := range rvte.TestsHistory {
+			if testRunEntry.Uuid != testRunId {
+				updatedTestsHistory = append(updatedTestsHistory, testRunEntry)
+			}
 		}
-	}
 
-	rvte.TestsHistory = updatedTestsHistory
-
-	err = h.Save(*rvte)
-	if err != nil {
-		log.Printf("%s error saving test entry.", hex.EncodeToString(rvteid))
-	}
+		rvte.TestsHistory = updatedTestsHistory
+	})
 }
-- 
2.43.0


From f5e1c328da3e43e195d95b0d672bacbfc89cd504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:50 +0000
Subject: [PATCH 42/60] fix: a reported verdict always carries its test
 identifier

---
 core/shared/testcom/dbs/reqt.db.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/shared/testcom/dbs/reqt.db.go b/core/shared/testcom/dbs/reqt.db.go
index 02645ee..26b9edd 100644
--- a/core/shared/testcom/dbs/reqt.db.go
+++ b/core/shared/testcom/dbs/reqt.db.go
@@ -192,6 +192,7 @@ func (h *RequestTestDB) ReportTest(rvteid []byte, testID testcom.FDOTestID, test
 			rvte.CurrentTestRun.Tests = reqtestsdeps.RequestTestResultMap{}
 		}
 
+		testResult.TestID = testID
 		rvte.CurrentTestRun.Tests[testID] = testResult
 
 		// The run may have been removed meanwhile
-- 
2.43.0


From 2a01303a18625b62af9a2d8959e6da59c85968f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:53 +0000
Subject: [PATCH 43/60] fix: positive tests of messages 30, 32, 60, 64 and 66
 check the answer

---
 testexec/do.to2.60.execute.go | 2 +-
 testexec/do.to2.64.execute.go | 2 +-
 testexec/do.to2.66.execute.go | 2 +-
 testexec/rvt.to1.execute.go   | 4 ++--
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/testexec/do.to2.60.execute.go b/testexec/do.to2.60.execute.go
index ed9dc2f..a401203 100644
--- a/testexec/do.to2.60.execute.go
+++ b/testexec/do.to2.60.execute.go
@@ -26,7 +26,7 @@ func executeTo2_60(reqte reqtestsdeps.RequestTestInst, reqtDB *dbs.RequestTestDB
 		switch fdoTestId {
 		case testcom.FIDO_DOT_60_POSITIVE:
 			var errTestState testcom.FDOTestState
-			_, _, err := to2requestor.HelloDevice60(fdoTestId)
+			_, _, err := to2requestor.HelloDevice60(testcom.NULL_TEST)
 			if err != nil {
 				errTestState := testcom.NewFailTestState(fdoTestId, err.Error())
 
diff --git a/testexec/do.to2.64.execute.go b/testexec/do.to2.64.execute.go
index f841de1..a216d0f 100644
--- a/testexec/do.to2.64.execute.go
+++ b/testexec/do.to2.64.execute.go
@@ -68,7 +68,7 @@ func executeTo2_64(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.RequestTe
 		switch testId {
 		case testcom.FIDO_DOT_64_POSITIVE:
 			var errTestState testcom.FDOTestState
-			_, _, err := to2requestor.ProveDevice64(testId)
+			_, _, err := to2requestor.ProveDevice64(testcom.NULL_TEST)
 			if err != nil {
 				errTestState = testcom.FDOTestState{
 					Passed: false,
diff --git a/testexec/do.to2.66.execute.go b/testexec/do.to2.66.execute.go
index 76b9293..ee290ce 100644
--- a/testexec/do.to2.66.execute.go
+++ b/testexec/do.to2.66.execute.go
@@ -72,7 +72,7 @@ func executeTo2_66(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.RequestTe
 
 		switch testId {
 		case testcom.FIDO_DOT_66_POSITIVE:
-			_, _, err := to2requestor.DeviceServiceInfoReady66(testId)
+			_, _, err := to2requestor.DeviceServiceInfoReady66(testcom.NULL_TEST)
 			if err != nil {
 				reqtDB.ReportTest(reqte.Uuid, testId, testcom.FDOTestState{
 					Passed: false,
diff --git a/testexec/rvt.to1.execute.go b/testexec/rvt.to1.execute.go
index e235f8e..84038a8 100644
--- a/testexec/rvt.to1.execute.go
+++ b/testexec/rvt.to1.execute.go
@@ -65,7 +65,7 @@ func ExecuteRVTestsTo1(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.Reque
 
 		case testcom.FIDO_DEVT_30_POSITIVE:
 			var errTestState testcom.FDOTestState
-			_, _, err := to1inst.HelloRV30(rv30test)
+			_, _, err := to1inst.HelloRV30(testcom.NULL_TEST)
 
 			if err != nil {
 				errTestState = testcom.FDOTestState{
@@ -111,7 +111,7 @@ func ExecuteRVTestsTo1(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.Reque
 
 		case testcom.FIDO_DEVT_33_POSITIVE:
 			var errTestState testcom.FDOTestState
-			_, _, err := to1inst.ProveToRV32(*helloRvAck31, rv32test)
+			_, _, err := to1inst.ProveToRV32(*helloRvAck31, testcom.NULL_TEST)
 
 			if err != nil {
 				errTestState = testcom.FDOTestState{
-- 
2.43.0


From 20e6aa6fb5e0b068f38a827c90d16ad8801f617b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:55 +0000
Subject: [PATCH 44/60] fix: response checks of TO0 need a success status

---
 core/do/to0/common.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/do/to0/common.go b/core/do/to0/common.go
index 3a05092..7ce2355 100644
--- a/core/do/to0/common.go
+++ b/core/do/to0/common.go
@@ -42,6 +42,10 @@ func (h *To0Requestor) confCheckResponse(bodyBytes []byte, fdoTestID testcom.FDO
 
 	switch fdoTestID {
 	case testcom.FIDO_RVT_21_CHECK_RESP:
+		if testState := testcom.ExpectedFdoSuccess(fdoTestID, httpStatusCode); !testState.Passed {
+			return testState
+		}
+
 		fdoErrInst, err := fdoshared.DecodeErrorResponse(bodyBytes)
 		if err == nil {
 			return testcom.NewFailTestState(fdoTestID, fmt.Sprintf("Server returned FDO error: %s %d", fdoErrInst.EMErrorStr, fdoErrInst.EMErrorCode))
@@ -56,6 +60,10 @@ func (h *To0Requestor) confCheckResponse(bodyBytes []byte, fdoTestID testcom.FDO
 		return testcom.NewSuccessTestState(fdoTestID)
 
 	case testcom.FIDO_RVT_23_CHECK_RESP:
+		if testState := testcom.ExpectedFdoSuccess(fdoTestID, httpStatusCode); !testState.Passed {
+			return testState
+		}
+
 		fdoErrInst, err := fdoshared.DecodeErrorResponse(bodyBytes)
 		if err == nil {
 			return testcom.NewFailTestState(fdoTestID, fmt.Sprintf("Server returned FDO error: %s %d", fdoErrInst.EMErrorStr, fdoErrInst.EMErrorCode))
-- 
2.43.0


From d8c0c4b8fe834b82dee19df0df2a994ec9f09635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:57 +0000
Subject: [PATCH 45/60] fix: TO2 62 tests do not go on after the tested request

---
 testexec/do.to2.62.execute.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/testexec/do.to2.62.execute.go b/testexec/do.to2.62.execute.go
index eb22bed..cad897b 100644
--- a/testexec/do.to2.62.execute.go
+++ b/testexec/do.to2.62.execute.go
@@ -118,6 +118,8 @@ func executeTo2_62(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.RequestTe
 
 				if randomTestIndex == i {
 					reqtDB.ReportTest(reqte.Uuid, testId, *testState)
+					// The error ended the protocol, so that no more entries can be requested
+					break
 				}
 			}
 		}
-- 
2.43.0


From 9086f9f6113ab11475d4ce58a932c2c19d978e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:59 +0000
Subject: [PATCH 46/60] fix: TO2 68 and 70 tests send empty service info as an
 array

---
 testexec/do.to2.68.execute.go | 2 +-
 testexec/do.to2.70.execute.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/testexec/do.to2.68.execute.go b/testexec/do.to2.68.execute.go
index def4810..e08a46e 100644
--- a/testexec/do.to2.68.execute.go
+++ b/testexec/do.to2.68.execute.go
@@ -181,7 +181,7 @@ func executeTo2_68(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.RequestTe
 				selectedTestId := testcom.NULL_TEST
 
 				getOwnerInfo := fdoshared.DeviceServiceInfo68{
-					ServiceInfo:       nil,
+					ServiceInfo:       []fdoshared.ServiceInfoKV{},
 					IsMoreServiceInfo: false,
 				}
 
diff --git a/testexec/do.to2.70.execute.go b/testexec/do.to2.70.execute.go
index 7ae34bc..593a97c 100644
--- a/testexec/do.to2.70.execute.go
+++ b/testexec/do.to2.70.execute.go
@@ -81,7 +81,7 @@ func preExecuteTo2_70(reqte reqtestsdeps.RequestTestInst) (*to2.To2Requestor, er
 	maxCounter := 255
 	for {
 		ownerSim, _, err := to2requestor.DeviceServiceInfo68(fdoshared.DeviceServiceInfo68{
-			ServiceInfo:       nil,
+			ServiceInfo:       []fdoshared.ServiceInfoKV{},
 			IsMoreServiceInfo: false,
 		}, testcom.NULL_TEST)
 		if err != nil {
-- 
2.43.0


From 19e9f221d79a9597c4ebdeff9d0beec09b82b7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:53 +0000
Subject: [PATCH 47/60] fix: the signing key decides the signature type in TO0
 22 and TO2 60

---
 core/do/to0/req-to0-22-OwnerSign.go        | 15 ++++-----------
 core/do/to2/listener-to2-60-HelloDevice.go | 18 +++++++++---------
 core/shared/signing.crypto.go              | 22 ++++++++++++++++++++++
 3 files changed, 35 insertions(+), 20 deletions(-)

diff --git a/core/do/to0/req-to0-22-OwnerSign.go b/core/do/to0/req-to0-22-OwnerSign.go
index 4657670..f85bc24 100644
--- a/core/do/to0/req-to0-22-OwnerSign.go
+++ b/core/do/to0/req-to0-22-OwnerSign.go
@@ -65,22 +65,15 @@ func (h *To0Requestor) OwnerSign22(nonceTO0Sign fdoshared.FdoNonce, fdoTestId te
 	}
 
 	// TO1D CoseSignature
-	var lastOvEntryPubKeyPkType fdoshared.FdoPkType = fdoshared.SECP256R1
-	lastOvEntryPubKey, err := h.voucherDBEntry.Voucher.GetFinalOwnerPublicKey()
-	if err != nil {
-		return nil, nil, errors.New("OwnerSign22: Error extracting last OVEntry public key. " + err.Error())
-	}
-
-	lastOvEntryPubKeyPkType = lastOvEntryPubKey.PkType
-
 	privateKeyInst, err := fdoshared.ExtractPrivateKey(h.voucherDBEntry.PrivateKeyX509)
 	if err != nil {
 		return nil, nil, errors.New("OwnerSign22: Error extracting private key. " + err.Error())
 	}
 
-	sgType, ok := fdoshared.PkToSgType[lastOvEntryPubKeyPkType]
-	if !ok {
-		return nil, nil, fmt.Errorf("OwnerSign22: Owner public key type %d is not supported", lastOvEntryPubKeyPkType)
+	// The voucher of a test may name a broken owner key, so the signing key decides
+	sgType, err := fdoshared.GetPrivateKeySgType(privateKeyInst)
+	if err != nil {
+		return nil, nil, errors.New("OwnerSign22: Error selecting signature type. " + err.Error())
 	}
 
 	to1d, err := fdoshared.GenerateCoseSignature(to1dPayloadBytes, fdoshared.ProtectedHeader{}, fdoshared.UnprotectedHeader{}, privateKeyInst, sgType)
diff --git a/core/do/to2/listener-to2-60-HelloDevice.go b/core/do/to2/listener-to2-60-HelloDevice.go
index 5207963..0176bb0 100644
--- a/core/do/to2/listener-to2-60-HelloDevice.go
+++ b/core/do/to2/listener-to2-60-HelloDevice.go
@@ -137,9 +137,15 @@ func (h *DoTo2) HelloDevice60(w http.ResponseWriter, r *http.Request) {
 		CUPHOwnerPubKey: &lastOwnerPubKey,
 	}
 
-	signatureSgType, ok := fdoshared.PkToSgType[lastOwnerPubKey.PkType]
-	if !ok {
-		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Unsupported pkType...", http.StatusInternalServerError, testcomListener, fdoshared.To2)
+	privateKeyInst, err := fdoshared.ExtractPrivateKey(voucherDBEntry.PrivateKeyX509)
+	if err != nil {
+		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Error decoding private key...", http.StatusInternalServerError, testcomListener, fdoshared.To2)
+		return
+	}
+
+	signatureSgType, err := fdoshared.GetPrivateKeySgType(privateKeyInst)
+	if err != nil {
+		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Unsupported private key...", http.StatusInternalServerError, testcomListener, fdoshared.To2)
 		return
 	}
 
@@ -178,12 +184,6 @@ func (h *DoTo2) HelloDevice60(w http.ResponseWriter, r *http.Request) {
 		proveOVHdrPayloadBytes = fdoshared.Conf_RandomCborBufferFuzzing(proveOVHdrPayloadBytes)
 	}
 
-	privateKeyInst, err := fdoshared.ExtractPrivateKey(voucherDBEntry.PrivateKeyX509)
-	if err != nil {
-		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Error decoding private key...", http.StatusInternalServerError, testcomListener, fdoshared.To2)
-		return
-	}
-
 	helloAck, err := fdoshared.GenerateCoseSignature(proveOVHdrPayloadBytes, fdoshared.ProtectedHeader{}, proveOVHdrUnprotectedHeader, privateKeyInst, signatureSgType)
 	if err != nil {
 		log.Println("HelloDevice60: Error generating cose signature..." + err.Error())
diff --git a/core/shared/signing.crypto.go b/core/shared/signing.crypto.go
index ac20015..5f58190 100644
--- a/core/shared/signing.crypto.go
+++ b/core/shared/signing.crypto.go
@@ -240,6 +240,28 @@ func ExtractPrivateKey(privateKeyDer []byte) (interface{}, error) {
 	return nil, fmt.Errorf("failed to parse private key")
 }
 
+// GetPrivateKeySgType returns the signature type of a signing key
+func GetPrivateKeySgType(privateKeyInterface interface{}) (SgType, error) {
+	switch key := privateKeyInterface.(type) {
+	case *ecdsa.PrivateKey:
+		switch key.Curve.Params().BitSize {
+		case 256:
+			return StSECP256R1, nil
+		case 384:
+			return StSECP384R1, nil
+		}
+	case *rsa.PrivateKey:
+		switch key.Size() {
+		case 256:
+			return StRSA2048, nil
+		case 384:
+			return StRSA3072, nil
+		}
+	}
+
+	return 0, errors.New("the private key type is not supported")
+}
+
 // https://crypto.stackexchange.com/a/50719
 func i2osp(coeff []byte, expecteCoeffLen int) ([]byte, error) {
 	// if len(rep(i)) is two larger or more than n then error;
-- 
2.43.0


From b94cd369f6f26752ba0a21fea08f33e7548a66ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:53 +0000
Subject: [PATCH 48/60] fix: TO2 test setup reports an unexpected voucher entry
 number

---
 testexec/do.to2.64.execute.go | 4 +++-
 testexec/do.to2.66.execute.go | 4 +++-
 testexec/do.to2.68.execute.go | 3 ++-
 testexec/do.to2.70.execute.go | 2 +-
 4 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/testexec/do.to2.64.execute.go b/testexec/do.to2.64.execute.go
index a216d0f..feb8f33 100644
--- a/testexec/do.to2.64.execute.go
+++ b/testexec/do.to2.64.execute.go
@@ -1,6 +1,8 @@
 package testexec
 
 import (
+	"errors"
+
 	"github.com/fido-alliance/iot-fdo-conformance-tools/core/device/to2"
 	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
 	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"
@@ -32,7 +34,7 @@ func preExecuteTo2_64(reqte reqtestsdeps.RequestTestInst) (*to2.To2Requestor, er
 		}
 
 		if nextEntry.OVEntryNum != uint8(i) {
-			return nil, err
+			return nil, errors.New("Server returned unexpected nextOvEntry")
 		}
 
 		ovEntries = append(ovEntries, nextEntry.OVEntry)
diff --git a/testexec/do.to2.66.execute.go b/testexec/do.to2.66.execute.go
index ee290ce..4cda1f3 100644
--- a/testexec/do.to2.66.execute.go
+++ b/testexec/do.to2.66.execute.go
@@ -1,6 +1,8 @@
 package testexec
 
 import (
+	"errors"
+
 	"github.com/fido-alliance/iot-fdo-conformance-tools/core/device/to2"
 	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
 	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"
@@ -32,7 +34,7 @@ func preExecuteTo2_66(reqte reqtestsdeps.RequestTestInst) (*to2.To2Requestor, er
 		}
 
 		if nextEntry.OVEntryNum != uint8(i) {
-			return nil, err
+			return nil, errors.New("Server returned unexpected nextOvEntry")
 		}
 
 		ovEntries = append(ovEntries, nextEntry.OVEntry)
diff --git a/testexec/do.to2.68.execute.go b/testexec/do.to2.68.execute.go
index e08a46e..e64d11a 100644
--- a/testexec/do.to2.68.execute.go
+++ b/testexec/do.to2.68.execute.go
@@ -1,6 +1,7 @@
 package testexec
 
 import (
+	"errors"
 	"log"
 
 	"github.com/fido-alliance/iot-fdo-conformance-tools/core/device/to2"
@@ -34,7 +35,7 @@ func preExecuteTo2_68(reqte reqtestsdeps.RequestTestInst) (*to2.To2Requestor, er
 		}
 
 		if nextEntry.OVEntryNum != uint8(i) {
-			return nil, err
+			return nil, errors.New("Server returned unexpected nextOvEntry")
 		}
 
 		ovEntries = append(ovEntries, nextEntry.OVEntry)
diff --git a/testexec/do.to2.70.execute.go b/testexec/do.to2.70.execute.go
index 593a97c..1cd695f 100644
--- a/testexec/do.to2.70.execute.go
+++ b/testexec/do.to2.70.execute.go
@@ -34,7 +34,7 @@ func preExecuteTo2_70(reqte reqtestsdeps.RequestTestInst) (*to2.To2Requestor, er
 		}
 
 		if nextEntry.OVEntryNum != uint8(i) {
-			return nil, err
+			return nil, errors.New("Server returned unexpected nextOvEntry")
 		}
 
 		ovEntries = append(ovEntries, nextEntry.OVEntry)
-- 
2.43.0


From 2847ef7e1897f5a0dc261cfc47d7c59664fce996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:18 +0000
Subject: [PATCH 49/60] fix: a run is marked finished however its execution
 ends

---
 testexec/do.to2.execute.go  | 3 +--
 testexec/rvt.to0.execute.go | 3 +--
 testexec/rvt.to1.execute.go | 3 +--
 3 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/testexec/do.to2.execute.go b/testexec/do.to2.execute.go
index a34c173..e7d9721 100644
--- a/testexec/do.to2.execute.go
+++ b/testexec/do.to2.execute.go
@@ -7,6 +7,7 @@ import (
 
 func ExecuteDOTestsTo2(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.RequestTestDB) {
 	reqtDB.StartNewRun(reqte.Uuid)
+	defer reqtDB.FinishRun(reqte.Uuid)
 
 	executeTo2_60(reqte, reqtDB)
 	executeTo2_62(reqte, reqtDB)
@@ -14,6 +15,4 @@ func ExecuteDOTestsTo2(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.Reque
 	executeTo2_66(reqte, reqtDB)
 	executeTo2_68(reqte, reqtDB)
 	executeTo2_70(reqte, reqtDB)
-
-	reqtDB.FinishRun(reqte.Uuid)
 }
diff --git a/testexec/rvt.to0.execute.go b/testexec/rvt.to0.execute.go
index 307e646..89fd75f 100644
--- a/testexec/rvt.to0.execute.go
+++ b/testexec/rvt.to0.execute.go
@@ -13,6 +13,7 @@ import (
 
 func ExecuteRVTestsTo0(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.RequestTestDB, devDB *dbs.DeviceBaseDB, ctx context.Context) {
 	reqtDB.StartNewRun(reqte.Uuid)
+	defer reqtDB.FinishRun(reqte.Uuid)
 
 	for _, rv20test := range testcom.FIDO_TEST_LIST_RVT_20 {
 		randomGuid := reqte.FdoSeedIDs.GetRandomTestGuid()
@@ -162,6 +163,4 @@ func ExecuteRVTestsTo0(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.Reque
 
 		reqtDB.ReportTest(reqte.Uuid, rv22VoucherTest, *rvtTestState)
 	}
-
-	reqtDB.FinishRun(reqte.Uuid)
 }
diff --git a/testexec/rvt.to1.execute.go b/testexec/rvt.to1.execute.go
index 84038a8..c75df9d 100644
--- a/testexec/rvt.to1.execute.go
+++ b/testexec/rvt.to1.execute.go
@@ -14,6 +14,7 @@ import (
 
 func ExecuteRVTestsTo1(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.RequestTestDB, devDB *dbs.DeviceBaseDB, ctx context.Context) {
 	reqtDB.StartNewRun(reqte.Uuid)
+	defer reqtDB.FinishRun(reqte.Uuid)
 
 	// Generating voucher
 	randomGuid := reqte.FdoSeedIDs.GetRandomTestGuid()
@@ -141,6 +142,4 @@ func ExecuteRVTestsTo1(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.Reque
 			reqtDB.ReportTest(reqte.Uuid, rv32test, *rvtTestState)
 		}
 	}
-
-	reqtDB.FinishRun(reqte.Uuid)
 }
-- 
2.43.0


From 6381673212e0d891ff176ac6ed4909ed95303f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:45 +0000
Subject: [PATCH 50/60] fix: device test runs pose each test once and record
 the verdict of what the device did

A test stays in progress until its verdict is recorded. A message of a later
step fails it and no longer takes the next test; a message answered with an
error is stored as its failure; nothing is recorded outside a run. Runs that
are abandoned are kept, completed ones are listed once, newest first, and can
be deleted.
---
 core/do/to2/listener-to2-60-HelloDevice.go    | 12 ++------
 core/do/to2/listener-to2-62-GetOVNextEntry.go |  9 ++----
 core/do/to2/listener-to2-64-ProveDevice.go    |  9 ++----
 .../listener-to2-66-DeviceServiceInfoReady.go |  9 ++----
 .../to2/listener-to2-68-DeviceServiceInfo.go  | 14 ++++------
 core/do/to2/listener-to2-70-Done.go           |  9 ++----
 core/rv/listener-to1.go                       | 18 ++++--------
 core/shared/testcom/dbs/listener.db.go        |  2 ++
 core/shared/testcom/listener/common.go        | 20 ++++++++-----
 core/shared/testcom/listener/listenert.db.go  | 28 +++++++++++++++++--
 10 files changed, 66 insertions(+), 64 deletions(-)

diff --git a/core/do/to2/listener-to2-60-HelloDevice.go b/core/do/to2/listener-to2-60-HelloDevice.go
index 0176bb0..a8935bf 100644
--- a/core/do/to2/listener-to2-60-HelloDevice.go
+++ b/core/do/to2/listener-to2-60-HelloDevice.go
@@ -40,17 +40,11 @@ func (h *DoTo2) HelloDevice60(w http.ResponseWriter, r *http.Request) {
 	var fdoTestId testcom.FDOTestID = testcom.NULL_TEST
 	testcomListener, _ = h.listenerDB.GetEntryByFdoGuid(helloDevice.Guid)
 
-	if testcomListener != nil && !testcomListener.To2.CheckCmdTestingIsCompleted(currentCmd) {
-		if !testcomListener.To2.CheckExpectedCmds([]fdoshared.FdoCmd{
-			currentCmd,
-			fdoshared.TO2_62_GET_OVNEXTENTRY,
-		}) && testcomListener.To2.GetLastTestID() != testcom.FIDO_LISTENER_POSITIVE {
+	if testcomListener != nil && testcomListener.To2.Running && !testcomListener.To2.CheckCmdTestingIsCompleted(currentCmd) {
+		if !testcomListener.To2.CheckExpectedCmd(currentCmd) {
 			testcomListener.To2.PushFail(fmt.Sprintf("Expected TO2 %d. Got %d", testcomListener.To2.ExpectedCmd, currentCmd))
-		} else if testcomListener.To2.CurrentTestIndex != 0 {
+		} else {
 			testcomListener.To2.PushSuccess()
-		}
-
-		if !testcomListener.To2.CheckCmdTestingIsCompleted(currentCmd) {
 			fdoTestId = testcomListener.To2.GetNextTestID()
 		}
 
diff --git a/core/do/to2/listener-to2-62-GetOVNextEntry.go b/core/do/to2/listener-to2-62-GetOVNextEntry.go
index 77bc474..7bb18ab 100644
--- a/core/do/to2/listener-to2-62-GetOVNextEntry.go
+++ b/core/do/to2/listener-to2-62-GetOVNextEntry.go
@@ -24,17 +24,14 @@ func (h *DoTo2) GetOVNextEntry62(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
-	if testcomListener != nil && !testcomListener.To2.CheckCmdTestingIsCompleted(currentCmd) && testcomListener.To2.GetLastTestID() != "" {
+	if testcomListener != nil && testcomListener.To2.Running && !testcomListener.To2.CheckCmdTestingIsCompleted(currentCmd) {
 		var isLastTestFailed bool
 
-		if !testcomListener.To2.CheckExpectedCmd(currentCmd) && testcomListener.To2.GetLastTestID() != testcom.FIDO_LISTENER_POSITIVE {
+		if testcomListener.To2.GetLastTestID() != "" && !testcomListener.To2.CheckExpectedCmd(currentCmd) {
 			testcomListener.To2.PushFail("Expected the device to fail, but it didn't")
 			isLastTestFailed = true
-		} else if testcomListener.To2.CurrentTestIndex != 0 {
+		} else if testcomListener.To2.CheckExpectedCmd(currentCmd) {
 			testcomListener.To2.PushSuccess()
-		}
-
-		if !testcomListener.To2.CheckCmdTestingIsCompleted(currentCmd) {
 			fdoTestId = testcomListener.To2.GetNextTestID()
 		}
 
diff --git a/core/do/to2/listener-to2-64-ProveDevice.go b/core/do/to2/listener-to2-64-ProveDevice.go
index d0818a2..1dbf708 100644
--- a/core/do/to2/listener-to2-64-ProveDevice.go
+++ b/core/do/to2/listener-to2-64-ProveDevice.go
@@ -30,17 +30,14 @@ func (h *DoTo2) ProveDevice64(w http.ResponseWriter, r *http.Request) {
 
 	// Test stuff
 
-	if testcomListener != nil && !testcomListener.To2.CheckCmdTestingIsCompleted(currentCmd) && testcomListener.To2.GetLastTestID() != "" {
+	if testcomListener != nil && testcomListener.To2.Running && !testcomListener.To2.CheckCmdTestingIsCompleted(currentCmd) {
 		var isLastTestFailed bool
 
-		if !testcomListener.To2.CheckExpectedCmd(currentCmd) && testcomListener.To2.GetLastTestID() != testcom.FIDO_LISTENER_POSITIVE {
+		if testcomListener.To2.GetLastTestID() != "" && !testcomListener.To2.CheckExpectedCmd(currentCmd) {
 			testcomListener.To2.PushFail("Expected the device to fail, but it didn't")
 			isLastTestFailed = true
-		} else if testcomListener.To2.CurrentTestIndex != 0 {
+		} else if testcomListener.To2.CheckExpectedCmd(currentCmd) {
 			testcomListener.To2.PushSuccess()
-		}
-
-		if !testcomListener.To2.CheckCmdTestingIsCompleted(currentCmd) {
 			fdoTestId = testcomListener.To2.GetNextTestID()
 		}
 
diff --git a/core/do/to2/listener-to2-66-DeviceServiceInfoReady.go b/core/do/to2/listener-to2-66-DeviceServiceInfoReady.go
index a9d1fa0..e42f328 100644
--- a/core/do/to2/listener-to2-66-DeviceServiceInfoReady.go
+++ b/core/do/to2/listener-to2-66-DeviceServiceInfoReady.go
@@ -23,17 +23,14 @@ func (h *DoTo2) DeviceServiceInfoReady66(w http.ResponseWriter, r *http.Request)
 		return
 	}
 
-	if testcomListener != nil && !testcomListener.To2.CheckCmdTestingIsCompleted(currentCmd) && testcomListener.To2.GetLastTestID() != "" {
+	if testcomListener != nil && testcomListener.To2.Running && !testcomListener.To2.CheckCmdTestingIsCompleted(currentCmd) {
 		var isLastTestFailed bool
 
-		if !testcomListener.To2.CheckExpectedCmd(currentCmd) && testcomListener.To2.GetLastTestID() != testcom.FIDO_LISTENER_POSITIVE {
+		if testcomListener.To2.GetLastTestID() != "" && !testcomListener.To2.CheckExpectedCmd(currentCmd) {
 			testcomListener.To2.PushFail("Expected the device to fail, but it didn't")
 			isLastTestFailed = true
-		} else if testcomListener.To2.CurrentTestIndex != 0 {
+		} else if testcomListener.To2.CheckExpectedCmd(currentCmd) {
 			testcomListener.To2.PushSuccess()
-		}
-
-		if !testcomListener.To2.CheckCmdTestingIsCompleted(currentCmd) {
 			fdoTestId = testcomListener.To2.GetNextTestID()
 		}
 
diff --git a/core/do/to2/listener-to2-68-DeviceServiceInfo.go b/core/do/to2/listener-to2-68-DeviceServiceInfo.go
index d196134..27c807d 100644
--- a/core/do/to2/listener-to2-68-DeviceServiceInfo.go
+++ b/core/do/to2/listener-to2-68-DeviceServiceInfo.go
@@ -23,20 +23,17 @@ func (h *DoTo2) DeviceServiceInfo68(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
-	if testcomListener != nil && !testcomListener.To2.CheckCmdTestingIsCompleted(currentCmd) && testcomListener.To2.GetLastTestID() != "" {
+	if testcomListener != nil && testcomListener.To2.Running && !testcomListener.To2.CheckCmdTestingIsCompleted(currentCmd) {
 		var isLastTestFailed bool
 
-		if !testcomListener.To2.CheckExpectedCmd(currentCmd) && testcomListener.To2.GetLastTestID() != testcom.FIDO_LISTENER_POSITIVE {
+		if testcomListener.To2.GetLastTestID() != "" && !testcomListener.To2.CheckExpectedCmd(currentCmd) {
 			testcomListener.To2.PushFail("Expected the device to fail, but it didn't")
 			isLastTestFailed = true
-		} else if testcomListener.To2.CheckExpectedCmd(currentCmd) && testcomListener.To2.GetLastTestID() != testcom.FIDO_LISTENER_POSITIVE && session.PrevCMD == fdoshared.TO2_69_OWNER_SERVICE_INFO {
+		} else if testcomListener.To2.GetLastTestID() != "" && session.PrevCMD == fdoshared.TO2_69_OWNER_SERVICE_INFO {
 			testcomListener.To2.PushFail("Expected the device to fail, but it didn't")
 			isLastTestFailed = true
-		} else if testcomListener.To2.CurrentTestIndex != 0 {
+		} else if testcomListener.To2.CheckExpectedCmd(currentCmd) {
 			testcomListener.To2.PushSuccess()
-		}
-
-		if !testcomListener.To2.CheckCmdTestingIsCompleted(currentCmd) {
 			fdoTestId = testcomListener.To2.GetNextTestID()
 		}
 
@@ -90,8 +87,7 @@ func (h *DoTo2) DeviceServiceInfo68(w http.ResponseWriter, r *http.Request) {
 		if session.OwnerSIMsSendCounter == 0 {
 			resultSims, err := ValidateDeviceSIMs(session.Guid, session.DeviceSIMs)
 			if err != nil {
-				log.Println("DeviceServiceInfo68: Error validating device sims: " + err.Error())
-				fdoshared.RespondFDOError(w, r, fdoshared.MESSAGE_BODY_ERROR, currentCmd, "DeviceServiceInfo68: Error validating device sims: "+err.Error(), http.StatusInternalServerError)
+				listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.MESSAGE_BODY_ERROR, currentCmd, "DeviceServiceInfo68: Error validating device sims: "+err.Error(), http.StatusInternalServerError, testcomListener, fdoshared.To2)
 				return
 			}
 
diff --git a/core/do/to2/listener-to2-70-Done.go b/core/do/to2/listener-to2-70-Done.go
index 63c04ac..d266784 100644
--- a/core/do/to2/listener-to2-70-Done.go
+++ b/core/do/to2/listener-to2-70-Done.go
@@ -24,17 +24,14 @@ func (h *DoTo2) Done70(w http.ResponseWriter, r *http.Request) {
 	}
 
 	// Test params setup
-	if testcomListener != nil && !testcomListener.To2.CheckCmdTestingIsCompleted(currentCmd) && testcomListener.To2.GetLastTestID() != "" {
+	if testcomListener != nil && testcomListener.To2.Running && !testcomListener.To2.CheckCmdTestingIsCompleted(currentCmd) {
 		var isLastTestFailed bool
 
-		if !testcomListener.To2.CheckExpectedCmd(currentCmd) && testcomListener.To2.GetLastTestID() != testcom.FIDO_LISTENER_POSITIVE {
+		if testcomListener.To2.GetLastTestID() != "" && !testcomListener.To2.CheckExpectedCmd(currentCmd) {
 			testcomListener.To2.PushFail("Expected the device to fail, but it didn't")
 			isLastTestFailed = true
-		} else if testcomListener.To2.CurrentTestIndex != 0 {
+		} else if testcomListener.To2.CheckExpectedCmd(currentCmd) {
 			testcomListener.To2.PushSuccess()
-		}
-
-		if !testcomListener.To2.CheckCmdTestingIsCompleted(currentCmd) {
 			fdoTestId = testcomListener.To2.GetNextTestID()
 		}
 
diff --git a/core/rv/listener-to1.go b/core/rv/listener-to1.go
index d8bf551..9af9c23 100644
--- a/core/rv/listener-to1.go
+++ b/core/rv/listener-to1.go
@@ -70,14 +70,11 @@ func (h *RvTo1) Handle30HelloRV(w http.ResponseWriter, r *http.Request) {
 	var fdoTestId testcom.FDOTestID = testcom.NULL_TEST
 	testcomListener, _ = h.listenerDB.GetEntryByFdoGuid(helloRV30.Guid)
 
-	if testcomListener != nil && !testcomListener.To1.CheckCmdTestingIsCompleted(currentCmd) {
-		if !testcomListener.To1.CheckExpectedCmd(currentCmd) && testcomListener.To1.GetLastTestID() != testcom.FIDO_LISTENER_POSITIVE {
+	if testcomListener != nil && testcomListener.To1.Running && !testcomListener.To1.CheckCmdTestingIsCompleted(currentCmd) {
+		if !testcomListener.To1.CheckExpectedCmd(currentCmd) {
 			testcomListener.To1.PushFail(fmt.Sprintf("Expected TO1 %d. Got %d", testcomListener.To1.ExpectedCmd, currentCmd))
-		} else if testcomListener.To1.CurrentTestIndex != 0 {
+		} else {
 			testcomListener.To1.PushSuccess()
-		}
-
-		if !testcomListener.To1.CheckCmdTestingIsCompleted(currentCmd) {
 			fdoTestId = testcomListener.To1.GetNextTestID()
 		}
 
@@ -174,14 +171,11 @@ func (h *RvTo1) Handle32ProveToRV(w http.ResponseWriter, r *http.Request) {
 	var fdoTestId testcom.FDOTestID = testcom.NULL_TEST
 	testcomListener, _ = h.listenerDB.GetEntryByFdoGuid(session.Guid)
 
-	if testcomListener != nil && !testcomListener.To1.CheckCmdTestingIsCompleted(currentCmd) {
-		if !testcomListener.To1.CheckExpectedCmd(currentCmd) && testcomListener.To1.GetLastTestID() != testcom.FIDO_LISTENER_POSITIVE {
+	if testcomListener != nil && testcomListener.To1.Running && !testcomListener.To1.CheckCmdTestingIsCompleted(currentCmd) {
+		if !testcomListener.To1.CheckExpectedCmd(currentCmd) {
 			testcomListener.To1.PushFail(fmt.Sprintf("Expected TO1 %d. Got %d", testcomListener.To1.ExpectedCmd, currentCmd))
-		} else if testcomListener.To1.CurrentTestIndex != 0 {
+		} else {
 			testcomListener.To1.PushSuccess()
-		}
-
-		if !testcomListener.To1.CheckCmdTestingIsCompleted(currentCmd) {
 			fdoTestId = testcomListener.To1.GetNextTestID()
 		}
 
diff --git a/core/shared/testcom/dbs/listener.db.go b/core/shared/testcom/dbs/listener.db.go
index f85ef2f..d3feae3 100644
--- a/core/shared/testcom/dbs/listener.db.go
+++ b/core/shared/testcom/dbs/listener.db.go
@@ -109,6 +109,8 @@ func (h *ListenerTestDB) Get(entryUuid []byte) (*listenertestsdeps.RequestListen
 		return nil, errors.New("Failed cbor decoding rvte entry value." + err.Error())
 	}
 
+	reqListInst.SetSave(h.Update)
+
 	return &reqListInst, nil
 }
 
diff --git a/core/shared/testcom/listener/common.go b/core/shared/testcom/listener/common.go
index 3da985a..66e5e1d 100644
--- a/core/shared/testcom/listener/common.go
+++ b/core/shared/testcom/listener/common.go
@@ -11,13 +11,19 @@ func Conf_RespondFDOError(w http.ResponseWriter, r *http.Request, errorCode fdos
 	log.Printf("Err: %d %s %d", prevMsgId, messageStr, errorCode)
 
 	if testcomListener != nil {
-		switch fdoProtocol {
-		case fdoshared.To0:
-			testcomListener.To0.PushFail(messageStr)
-		case fdoshared.To1:
-			testcomListener.To1.PushFail(messageStr)
-		case fdoshared.To2:
-			testcomListener.To2.PushFail(messageStr)
+		runnerInst, err := testcomListener.GetProtocolInst(int(fdoProtocol))
+
+		// The message ends the test in progress, if it is of the step being tested
+		if err == nil && runnerInst.GetLastTestID() != "" && runnerInst.CheckExpectedCmd(prevMsgId) {
+			runnerInst.PushFail(messageStr)
+
+			if testcomListener.save != nil {
+				err = testcomListener.save(testcomListener)
+			}
+		}
+
+		if err != nil {
+			log.Println("Conformance module failed to save result! " + err.Error())
 		}
 	}
 
diff --git a/core/shared/testcom/listener/listenert.db.go b/core/shared/testcom/listener/listenert.db.go
index 48661db..502ee78 100644
--- a/core/shared/testcom/listener/listenert.db.go
+++ b/core/shared/testcom/listener/listenert.db.go
@@ -29,6 +29,13 @@ type RequestListenerInst struct {
 	To0         RequestListenerRunnerInst        `cbor:"to0,omitempty"`
 	To1         RequestListenerRunnerInst        `cbor:"to1,omitempty"`
 	To2         RequestListenerRunnerInst        `cbor:"to2,omitempty"`
+
+	// Saves the instance in the database it was read from
+	save func(*RequestListenerInst) error
+}
+
+func (h *RequestListenerInst) SetSave(save func(*RequestListenerInst) error) {
+	h.save = save
 }
 
 func (h *RequestListenerInst) GetProtocolInst(toProtocol int) (*RequestListenerRunnerInst, error) {
@@ -69,11 +76,13 @@ func (h *RequestListenerRunnerInst) CheckCmdTestingIsCompleted(currentCmd fdosha
 }
 
 func (h *RequestListenerRunnerInst) StartNewTestRun() {
-	if len(h.TestRunHistory) != 0 {
+	// A completed run is in the history already
+	if h.Running {
 		h.TestRunHistory = append([]ListenerTestRun{h.CurrentTestRun}, h.TestRunHistory...)
 	}
 
 	h.Running = true
+	h.LastTestID = ""
 	h.Completed = false
 
 	h.CurrentTestRun = NewListenerTestRun(h.Protocol)
@@ -93,9 +102,10 @@ func (h *RequestListenerRunnerInst) StartNewTestRun() {
 func (h *RequestListenerRunnerInst) RemoveTestRun(id string) error {
 	var newList []ListenerTestRun = []ListenerTestRun{}
 
-	if h.CurrentTestRun.Uuid == id {
+	if h.Running && h.CurrentTestRun.Uuid == id {
 		h.CurrentTestRun = ListenerTestRun{}
 		h.Running = false
+		h.LastTestID = ""
 		return nil
 	}
 
@@ -146,13 +156,25 @@ func (h *RequestListenerRunnerInst) CompleteTestRun() {
 	h.Completed = true
 
 	h.CurrentTestRun.Complete()
-	h.TestRunHistory = append(h.TestRunHistory, h.CurrentTestRun)
+	h.TestRunHistory = append([]ListenerTestRun{h.CurrentTestRun}, h.TestRunHistory...)
 }
 
+// PushFail and PushSuccess record the verdict for the last test, which ends it
+
 func (h *RequestListenerRunnerInst) PushFail(errorMsg string) {
+	if h.LastTestID == "" {
+		return
+	}
+
 	h.CurrentTestRun.TestRuns = append(h.CurrentTestRun.TestRuns, testcom.NewFailTestState(h.GetLastTestID(), errorMsg))
+	h.LastTestID = ""
 }
 
 func (h *RequestListenerRunnerInst) PushSuccess() {
+	if h.LastTestID == "" {
+		return
+	}
+
 	h.CurrentTestRun.TestRuns = append(h.CurrentTestRun.TestRuns, testcom.NewSuccessTestState(h.GetLastTestID()))
+	h.LastTestID = ""
 }
-- 
2.43.0


From a879e76ecc67bc6877fe4e84574e25d0419e0719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:42 +0000
Subject: [PATCH 51/60] fix: test mutations always make the message bad

Emptying the unprotected header of a signature that has none changed
nothing, so a correct device was recorded as failing; the CCM suites
could not be fuzzed at all.
---
 core/shared/conformance.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/shared/conformance.go b/core/shared/conformance.go
index eb59242..ca7713e 100644
--- a/core/shared/conformance.go
+++ b/core/shared/conformance.go
@@ -215,7 +215,7 @@ func Conf_Fuzz_AddWrapping(payload []byte, sessionKeyInfo SessionKeyInfo, cipher
 			encryptedBytes = Conf_RandomCborBufferFuzzing(encryptedBytes)
 		}
 
-	case CIPHER_A128GCM, CIPHER_A256GCM:
+	case CIPHER_A128GCM, CIPHER_A256GCM, CIPHER_AES_CCM_16_128_128, CIPHER_AES_CCM_16_128_256, CIPHER_AES_CCM_64_128_128, CIPHER_AES_CCM_64_128_256:
 		var chosenType Conf_EncFuzzTypes = Conf_EncFuzzTypes_List_EMB[NewRandomInt(0, len(Conf_EncFuzzTypes_List_EMB)-1)]
 
 		encryptedBytes, err = encryptEMB(payload, sessionKeyInfo, cipherSuite)
@@ -267,6 +267,11 @@ var Conf_CoseSign_Field_List []Conf_CoseSign_Field = []Conf_CoseSign_Field{
 func Conf_Fuzz_CoseSignature(coseSignature CoseSignature) CoseSignature {
 	var chosenType Conf_CoseSign_Field = Conf_CoseSign_Field_List[NewRandomInt(0, len(Conf_CoseSign_Field_List)-1)]
 
+	// Emptying an empty header changes nothing
+	if chosenType == Conf_CoseSign_Field_Unprotected && coseSignature.Unprotected == (UnprotectedHeader{}) {
+		chosenType = Conf_CoseSign_Field_Signature
+	}
+
 	switch chosenType {
 	case Conf_CoseSign_Field_Protected:
 		coseSignature.Protected = NewRandomBuffer(NewRandomInt(5, 49))
-- 
2.43.0


From 95efd5b11bb3c68139b8bb0dce976f4ee9c23da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:32 +0000
Subject: [PATCH 52/60] fix: rendezvous directives with flags are accepted,
 ill-typed values refused, owner addresses keep protocol and IPv6 form

---
 core/shared/rvinfo.go | 73 ++++++++++++++++++++++++++++++++-----------
 1 file changed, 55 insertions(+), 18 deletions(-)

diff --git a/core/shared/rvinfo.go b/core/shared/rvinfo.go
index 3490d60..f9d0015 100644
--- a/core/shared/rvinfo.go
+++ b/core/shared/rvinfo.go
@@ -3,6 +3,8 @@ package fdoshared
 import (
 	"errors"
 	"fmt"
+	"net"
+	"strconv"
 )
 
 type RVMediumValue uint8
@@ -92,6 +94,20 @@ func NewRendezvousInstr(key RVVariable, val interface{}) RendezvousInstr {
 	}
 }
 
+// decodeValue decodes the value of a non boolean instruction, which must be of the type of target.
+func (h *RendezvousInstr) decodeValue(target interface{}) error {
+	if isCborNull(h.Value) {
+		return fmt.Errorf("RVInstr (%d) has null value", h.Key)
+	}
+
+	err := CborCust.Unmarshal(h.Value, target)
+	if err != nil {
+		return fmt.Errorf("error decoding RVInstr (%d) value. %s", h.Key, err.Error())
+	}
+
+	return nil
+}
+
 type RendezvousDirective []RendezvousInstr
 
 func (h *RendezvousDirective) AddInstr(instr RendezvousInstr) {
@@ -109,8 +125,15 @@ func (h *RendezvousDirective) Validate() error {
 			return fmt.Errorf("duplicate key (%d) in RendezvousInstrList", instr.Key)
 		}
 
-		if instr.Key.IsBoolean() && instr.Value != nil {
-			return fmt.Errorf("boolean key (%d) has non-nil value", instr.Key)
+		recordedKeys[instr.Key]++
+
+		// Boolean keys are set by their presence
+		if instr.Key.IsBoolean() {
+			if instr.Value != nil {
+				return fmt.Errorf("boolean key (%d) has non-nil value", instr.Key)
+			}
+
+			continue
 		}
 
 		// Is valid cbor
@@ -119,8 +142,6 @@ func (h *RendezvousDirective) Validate() error {
 		if err != nil {
 			return fmt.Errorf("error decoding RVInstr (%d) value. %s", instr.Key, err.Error())
 		}
-
-		recordedKeys[instr.Key]++
 	}
 
 	return nil
@@ -207,18 +228,26 @@ func (h *MappedRVDirective) Validate() error {
 func (h *MappedRVDirective) GetOwnerUrls() []string {
 	var result []string
 
+	scheme := "https"
 	selectedPort := uint16(443)
 
+	if h.RVProtocol != nil && *h.RVProtocol == RVProtHttp {
+		scheme = "http"
+		selectedPort = 80
+	}
+
 	if h.RVOwnerPort != nil {
 		selectedPort = *h.RVOwnerPort
 	}
 
+	portStr := strconv.Itoa(int(selectedPort))
+
 	if h.RVDns != nil {
-		result = append(result, fmt.Sprintf("https://%s:%d", *h.RVDns, selectedPort))
+		result = append(result, scheme+"://"+net.JoinHostPort(*h.RVDns, portStr))
 	}
 
 	for _, ipAddr := range h.RVIPAddresses {
-		result = append(result, fmt.Sprintf("https://%s:%d", ipAddr.String(), selectedPort))
+		result = append(result, scheme+"://"+net.JoinHostPort(ipAddr.String(), portStr))
 	}
 
 	return result
@@ -234,6 +263,8 @@ func NewMappedRVDirective(instrList RendezvousDirective) (MappedRVDirective, err
 	}
 
 	for _, instr := range instrList {
+		var err error
+
 		switch instr.Key {
 		case RVDevOnly:
 			rvib.RVDevOnly = true
@@ -241,7 +272,10 @@ func NewMappedRVDirective(instrList RendezvousDirective) (MappedRVDirective, err
 			rvib.RVOwnerOnly = true
 		case RVIPAddress:
 			var ipAddressBytes []byte
-			CborCust.Unmarshal(instr.Value, &ipAddressBytes)
+			err = instr.decodeValue(&ipAddressBytes)
+			if err != nil {
+				return rvib, err
+			}
 
 			ipv4addr, err := FdoIPAddressFromBytes(ipAddressBytes)
 			if err != nil {
@@ -251,42 +285,45 @@ func NewMappedRVDirective(instrList RendezvousDirective) (MappedRVDirective, err
 			rvib.RVIPAddresses = append(rvib.RVIPAddresses, ipv4addr)
 		case RVDevPort:
 			rvib.RVDevPort = new(uint16)
-			CborCust.Unmarshal(instr.Value, rvib.RVDevPort)
+			err = instr.decodeValue(rvib.RVDevPort)
 		case RVOwnerPort:
 			rvib.RVOwnerPort = new(uint16)
-			CborCust.Unmarshal(instr.Value, rvib.RVOwnerPort)
+			err = instr.decodeValue(rvib.RVOwnerPort)
 		case RVDns:
 			rvib.RVDns = new(string)
-			CborCust.Unmarshal(instr.Value, rvib.RVDns)
+			err = instr.decodeValue(rvib.RVDns)
 		case RVSvCertHash:
 			rvib.RVSvCertHash = new(HashOrHmac)
-			CborCust.Unmarshal(instr.Value, rvib.RVSvCertHash)
+			err = instr.decodeValue(rvib.RVSvCertHash)
 		case RVClCertHash:
 			rvib.RVClCertHash = new(HashOrHmac)
-			CborCust.Unmarshal(instr.Value, rvib.RVClCertHash)
+			err = instr.decodeValue(rvib.RVClCertHash)
 		case RVUserInput:
 			rvib.RVUserInput = true
 		case RVWifiSsid:
 			rvib.RVWifiSsid = new(string)
-			CborCust.Unmarshal(instr.Value, rvib.RVWifiSsid)
+			err = instr.decodeValue(rvib.RVWifiSsid)
 		case RVWifiPw:
 			rvib.RVWifiPw = new(string)
-			CborCust.Unmarshal(instr.Value, rvib.RVWifiPw)
+			err = instr.decodeValue(rvib.RVWifiPw)
 		case RVMedium:
 			rvib.RVMedium = new(RVMediumValue)
-			CborCust.Unmarshal(instr.Value, rvib.RVMedium)
+			err = instr.decodeValue(rvib.RVMedium)
 		case RVProtocol:
 			rvib.RVProtocol = new(RVProtocolValue)
-			CborCust.Unmarshal(instr.Value, rvib.RVProtocol)
+			err = instr.decodeValue(rvib.RVProtocol)
 		case RVDelaysec:
 			rvib.RVDelaysec = new(uint32)
-			CborCust.Unmarshal(instr.Value, rvib.RVDelaysec)
+			err = instr.decodeValue(rvib.RVDelaysec)
 		case RVBypass:
 			rvib.RVBypass = true
 		case RVExtRV:
 			rvib.RVExtRV = new([]interface{})
-			CborCust.Unmarshal(instr.Value, rvib.RVExtRV)
+			err = instr.decodeValue(rvib.RVExtRV)
+		}
 
+		if err != nil {
+			return rvib, err
 		}
 	}
 
-- 
2.43.0


From 11eff4181c3f288a5eee1111199c8787d8ccd190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:32 +0000
Subject: [PATCH 53/60] fix: a URL whose host holds stray colons is refused as
 address

---
 core/shared/other.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/shared/other.go b/core/shared/other.go
index 9d725cf..84fe935 100644
--- a/core/shared/other.go
+++ b/core/shared/other.go
@@ -346,6 +346,10 @@ func UrlToTOAddrEntry(inurl string) (*RVTO2AddrEntry, error) {
 		fdoIpAddress = fdoipTemp
 	}
 
+	if !isIp && strings.Contains(u.Hostname(), ":") {
+		return nil, fmt.Errorf("invalid url hostname %s", u.Hostname())
+	}
+
 	result.RVProtocol = tProt
 	result.RVPort = selectedPort
 
-- 
2.43.0


From 4a31e306cd17e1ede28fb005ddeeadb1de155158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:32 +0000
Subject: [PATCH 54/60] fix: batches of test identities have the size asked
 for, without repetition, and never crash

---
 core/shared/other.go | 39 ++++++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/core/shared/other.go b/core/shared/other.go
index 84fe935..84985d0 100644
--- a/core/shared/other.go
+++ b/core/shared/other.go
@@ -84,21 +84,22 @@ type FdoGuidList []FdoGuid
 func (h FdoGuidList) GetRandomBatch(size int) FdoGuidList {
 	listLen := len(h)
 
-	if listLen == 0 {
-		return FdoGuidList{}
+	if size > listLen {
+		size = listLen
 	}
 
-	randomLoc := NewRandomInt(0, listLen-1)
+	if size <= 0 {
+		return FdoGuidList{}
+	}
 
-	if randomLoc+size > listLen {
-		l1len := listLen - randomLoc
-		l1 := h[randomLoc : randomLoc+l1len-1]
-		l2 := h[0 : size-len(l1)]
+	batch := make(FdoGuidList, 0, size)
+	randomLoc := NewRandomInt(0, listLen)
 
-		return append(l1, l2...)
+	for i := 0; i < size; i++ {
+		batch = append(batch, h[(randomLoc+i)%listLen])
 	}
 
-	return h[randomLoc : randomLoc+size]
+	return batch
 }
 
 func (h FdoGuidList) Contains(guid FdoGuid) bool {
@@ -118,8 +119,12 @@ func (h FdoGuidList) GetRandomSelection(size int) FdoGuidList {
 		return h
 	}
 
+	if size <= 0 {
+		return randomPick
+	}
+
 	for {
-		randomId := NewRandomInt(0, len(h)-1)
+		randomId := NewRandomInt(0, len(h))
 		randomGuid := h[randomId]
 
 		if !randomPick.Contains(randomGuid) {
@@ -154,11 +159,15 @@ func (h *FdoSeedIDs) GetRandomTestGuid() FdoGuid {
 			continue
 		}
 
-		randLoc := NewRandomInt(0, len(v)-1)
+		randLoc := NewRandomInt(0, len(v))
 		randomGuids = append(randomGuids, v[randLoc])
 	}
 
-	randLoc := NewRandomInt(0, len(randomGuids)-1)
+	if len(randomGuids) == 0 {
+		return FdoGuid{}
+	}
+
+	randLoc := NewRandomInt(0, len(randomGuids))
 	return randomGuids[randLoc]
 }
 
@@ -166,7 +175,11 @@ func (h *FdoSeedIDs) GetRandomTestGuidForSgType(sgType SgType) FdoGuid {
 	sh := *h
 	var randomGuids []FdoGuid = sh[sgType]
 
-	randLoc := NewRandomInt(0, len(randomGuids)-1)
+	if len(randomGuids) == 0 {
+		return FdoGuid{}
+	}
+
+	randLoc := NewRandomInt(0, len(randomGuids))
 	return randomGuids[randLoc]
 }
 
-- 
2.43.0


From b1c6f41108730c3df1cda5e70133b2896264d981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:32 +0000
Subject: [PATCH 55/60] fix: owner service tests can be created for RSA owner
 keys

---
 api/testapi/do.api.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/api/testapi/do.api.go b/api/testapi/do.api.go
index c823f33..cb729f2 100644
--- a/api/testapi/do.api.go
+++ b/api/testapi/do.api.go
@@ -183,7 +183,16 @@ func (h *DOTestMgmtAPI) Generate(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
-	guid := mainConfig.SeededGuids.GetRandomTestGuidForSgType(sgType)
+	// Devices are seeded with EC keys only, so an RSA owner gets a device with an EC key
+	deviceSgType := sgType
+	switch sgType {
+	case fdoshared.StRSA2048:
+		deviceSgType = fdoshared.StSECP256R1
+	case fdoshared.StRSA3072:
+		deviceSgType = fdoshared.StSECP384R1
+	}
+
+	guid := mainConfig.SeededGuids.GetRandomTestGuidForSgType(deviceSgType)
 
 	deviceCredential, err := h.DevBaseDB.Get(guid)
 	if err != nil {
@@ -221,7 +230,7 @@ func (h *DOTestMgmtAPI) Generate(w http.ResponseWriter, r *http.Request) {
 		testcom.NULL_TEST: {*credentialAndVoucher},
 	}
 	newDOTTestTo2.FdoSeedIDs = map[fdoshared.SgType]fdoshared.FdoGuidList{
-		sgType: {guid},
+		deviceSgType: {guid},
 	}
 
 	// Saving stuff
-- 
2.43.0


From 8803c01343d99f08c4cb722d8ac794122081f618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:17 +0000
Subject: [PATCH 56/60] fix: refuse test URLs that no request can be sent to

---
 api/testapi/do.api.go | 7 +++++++
 api/testapi/rv.api.go | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/api/testapi/do.api.go b/api/testapi/do.api.go
index cb729f2..dfbab9f 100644
--- a/api/testapi/do.api.go
+++ b/api/testapi/do.api.go
@@ -104,6 +104,13 @@ func (h *DOTestMgmtAPI) Generate(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
+	_, err = fdoshared.UrlToTOAddrEntry(createTestCase.Url)
+	if err != nil {
+		log.Println("Bad URL. " + err.Error())
+		commonapi.RespondError(w, "Bad URL", http.StatusBadRequest)
+		return
+	}
+
 	doUrl := parsedUrl.Scheme + "://" + parsedUrl.Host
 
 	block, _ := pem.Decode([]byte(createTestCase.PrivKey))
diff --git a/api/testapi/rv.api.go b/api/testapi/rv.api.go
index bb6618e..0bab3b8 100644
--- a/api/testapi/rv.api.go
+++ b/api/testapi/rv.api.go
@@ -98,6 +98,13 @@ func (h *RVTestMgmtAPI) Generate(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
+	_, err = fdoshared.UrlToTOAddrEntry(createTestCase.Url)
+	if err != nil {
+		log.Println("Bad URL. " + err.Error())
+		commonapi.RespondError(w, "Bad URL", http.StatusBadRequest)
+		return
+	}
+
 	rvUrl := parsedUrl.Scheme + "://" + parsedUrl.Host
 
 	mainConfig, err := h.ConfigDB.Get()
-- 
2.43.0


From a12ea8c37629346855b63c8ff9864a7b372b4d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:20 +0000
Subject: [PATCH 57/60] fix: show the overall result of rendezvous tests, and
 do not pass a run without results

---
 api/testapi/rv.api.go                 | 2 ++
 core/shared/testcom/request/rvt.db.go | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/api/testapi/rv.api.go b/api/testapi/rv.api.go
index 0bab3b8..a3ab0c7 100644
--- a/api/testapi/rv.api.go
+++ b/api/testapi/rv.api.go
@@ -190,6 +190,8 @@ func (h *RVTestMgmtAPI) List(w http.ResponseWriter, r *http.Request) {
 			Protocol:   rvtsInfoPayloads[1].Protocol,
 		}
 
+		rvtItem.CheckIsPassing()
+
 		rvtsList.RVTItems = append(rvtsList.RVTItems, rvtItem)
 
 	}
diff --git a/core/shared/testcom/request/rvt.db.go b/core/shared/testcom/request/rvt.db.go
index 08c03e5..8ebfc92 100644
--- a/core/shared/testcom/request/rvt.db.go
+++ b/core/shared/testcom/request/rvt.db.go
@@ -60,6 +60,10 @@ type RequestTestRun struct {
 }
 
 func (h *RequestTestRun) PassingAllTests() bool {
+	if len(h.Tests) == 0 {
+		return false
+	}
+
 	for _, testState := range h.Tests {
 		if !testState.Passed {
 			return false
-- 
2.43.0


From 8e37f9ae3521ee85a9d813e60d43e3df69ed1b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:33 +0000
Subject: [PATCH 58/60] fix: the reset commands delete every entry of their
 kind

---
 core/shared/testcom/dbs/listener.db.go | 39 ++++++++++++++----------
 dbs/user.db.go                         | 41 +++++++++++++++-----------
 2 files changed, 48 insertions(+), 32 deletions(-)

diff --git a/core/shared/testcom/dbs/listener.db.go b/core/shared/testcom/dbs/listener.db.go
index d3feae3..d4a878d 100644
--- a/core/shared/testcom/dbs/listener.db.go
+++ b/core/shared/testcom/dbs/listener.db.go
@@ -168,27 +168,36 @@ func (h *ListenerTestDB) Delete(entryUuid []byte) error {
 }
 
 func (h *ListenerTestDB) ResetDB() error {
-	dbtxn := h.db.NewTransaction(true)
-	defer dbtxn.Discard()
+	batch := h.db.NewWriteBatch()
+	defer batch.Cancel()
 
-	iterTxn := dbtxn.NewIterator(badger.IteratorOptions{})
-	defer iterTxn.Close()
-	for iterTxn.Rewind(); iterTxn.ValidForPrefix(h.prefix) || iterTxn.ValidForPrefix(h.mapperGuidPrefix); iterTxn.Next() {
-		item := iterTxn.Item()
-		k := item.Key()
+	// The prefix of the entries is also the beginning of the prefix of the guid mappings
+	err := h.db.View(func(dbtxn *badger.Txn) error {
+		iterTxn := dbtxn.NewIterator(badger.IteratorOptions{
+			Prefix: h.prefix,
+		})
+		defer iterTxn.Close()
 
-		log.Println("Deleting... " + hex.EncodeToString(k))
+		for iterTxn.Rewind(); iterTxn.Valid(); iterTxn.Next() {
+			k := iterTxn.Item().KeyCopy(nil)
 
-		err := dbtxn.Delete(k)
-		if err != nil {
-			log.Println("Error creating delete mapping... " + hex.EncodeToString(k))
-		}
+			log.Println("Deleting... " + hex.EncodeToString(k))
 
-		err = dbtxn.Commit()
-		if err != nil {
-			log.Println("Failed to commit delete mapping... " + hex.EncodeToString(k))
+			err := batch.Delete(k)
+			if err != nil {
+				return err
+			}
 		}
 
+		return nil
+	})
+	if err != nil {
+		return errors.New("Failed deleting listener entries." + err.Error())
+	}
+
+	err = batch.Flush()
+	if err != nil {
+		return errors.New("Failed deleting listener entries." + err.Error())
 	}
 
 	return nil
diff --git a/dbs/user.db.go b/dbs/user.db.go
index 214b894..2726ffc 100644
--- a/dbs/user.db.go
+++ b/dbs/user.db.go
@@ -143,28 +143,35 @@ func (h *UserTestDB) inTxn(email string, change func(usere *UserTestDBEntry) (*U
 }
 
 func (h *UserTestDB) ResetUsers() error {
-	dbtxn := h.db.NewTransaction(true)
-	defer dbtxn.Discard()
+	batch := h.db.NewWriteBatch()
+	defer batch.Cancel()
 
-	iterTxn := dbtxn.NewIterator(badger.IteratorOptions{
-		Prefix: h.prefix,
-	})
-	defer iterTxn.Close()
-	for iterTxn.Rewind(); iterTxn.Valid(); iterTxn.Next() {
-		item := iterTxn.Item()
-		k := item.Key()
+	err := h.db.View(func(dbtxn *badger.Txn) error {
+		iterTxn := dbtxn.NewIterator(badger.IteratorOptions{
+			Prefix: h.prefix,
+		})
+		defer iterTxn.Close()
 
-		log.Println("Deleting... " + hex.EncodeToString(k))
+		for iterTxn.Rewind(); iterTxn.Valid(); iterTxn.Next() {
+			k := iterTxn.Item().KeyCopy(nil)
 
-		err := dbtxn.Delete(k)
-		if err != nil {
-			log.Println("Error creater delete req... " + hex.EncodeToString(k))
-		}
+			log.Println("Deleting... " + hex.EncodeToString(k))
 
-		err = dbtxn.Commit()
-		if err != nil {
-			log.Println("Failed to commit delete req... " + hex.EncodeToString(k))
+			err := batch.Delete(k)
+			if err != nil {
+				return err
+			}
 		}
+
+		return nil
+	})
+	if err != nil {
+		return errors.New("Failed deleting User entries. The error is: " + err.Error())
+	}
+
+	err = batch.Flush()
+	if err != nil {
+		return errors.New("Failed deleting User entries. The error is: " + err.Error())
 	}
 
 	return nil
-- 
2.43.0


From 4ec978b3d2eeeabc41ae7e39318cd42e88a195ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:39 +0000
Subject: [PATCH 59/60] fix: open a database whose memtable file a killed
 process left empty

---
 main.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/main.go b/main.go
index 05605d1..eeff91c 100644
--- a/main.go
+++ b/main.go
@@ -70,6 +70,11 @@ func InitBadgerDB() *badger.DB {
 	options.Logger = nil
 
 	db, err := badger.Open(options)
+	if err != nil {
+		// A process killed while creating or removing a memtable file leaves it empty.
+		// The opening that finds it fails, but repairs the file: only a second failure is final.
+		db, err = badger.Open(options)
+	}
 	if err != nil {
 		log.Panicln("Error opening Badger DB. " + err.Error())
 	}
-- 
2.43.0


From eb3f94e4f36c7af39d1185659047b6dc947fbb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:21 +0000
Subject: [PATCH 60/60] fix: do not acknowledge the deletion of a test run that
 could not be deleted

---
 api/testapi/device.api.go          | 7 ++++++-
 api/testapi/do.api.go              | 7 ++++++-
 api/testapi/rv.api.go              | 7 ++++++-
 core/shared/testcom/dbs/reqt.db.go | 8 ++++----
 4 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/api/testapi/device.api.go b/api/testapi/device.api.go
index fc15171..b70d6f6 100644
--- a/api/testapi/device.api.go
+++ b/api/testapi/device.api.go
@@ -316,7 +316,12 @@ func (h *DeviceTestMgmtAPI) DeleteTestRun(w http.ResponseWriter, r *http.Request
 		return
 	}
 
-	h.ListenerDB.RemoveTestRun(fdoshared.FdoToProtocol(topInt), testIstIdBytes, testrunid)
+	err = h.ListenerDB.RemoveTestRun(fdoshared.FdoToProtocol(topInt), testIstIdBytes, testrunid)
+	if err != nil {
+		log.Println("Failed to remove test run. " + err.Error())
+		commonapi.RespondError(w, err.Error(), http.StatusBadRequest)
+		return
+	}
 
 	commonapi.RespondSuccess(w)
 }
diff --git a/api/testapi/do.api.go b/api/testapi/do.api.go
index dfbab9f..ab668ed 100644
--- a/api/testapi/do.api.go
+++ b/api/testapi/do.api.go
@@ -425,7 +425,12 @@ func (h *DOTestMgmtAPI) DeleteTestRun(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
-	h.ReqTDB.RemoveTestRun(dotId, testrunid)
+	err = h.ReqTDB.RemoveTestRun(dotId, testrunid)
+	if err != nil {
+		log.Println("Failed to remove test run. " + err.Error())
+		commonapi.RespondError(w, "Internal server error!", http.StatusInternalServerError)
+		return
+	}
 
 	commonapi.RespondSuccess(w)
 }
diff --git a/api/testapi/rv.api.go b/api/testapi/rv.api.go
index a3ab0c7..e8d72bf 100644
--- a/api/testapi/rv.api.go
+++ b/api/testapi/rv.api.go
@@ -231,7 +231,12 @@ func (h *RVTestMgmtAPI) DeleteTestRun(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
-	h.ReqTDB.RemoveTestRun(rvtId, testrunid)
+	err = h.ReqTDB.RemoveTestRun(rvtId, testrunid)
+	if err != nil {
+		log.Println("Failed to remove test run. " + err.Error())
+		commonapi.RespondError(w, "Internal server error!", http.StatusInternalServerError)
+		return
+	}
 
 	commonapi.RespondSuccess(w)
 }
diff --git a/core/shared/testcom/dbs/reqt.db.go b/core/shared/testcom/dbs/reqt.db.go
index 26b9edd..3ed8601 100644
--- a/core/shared/testcom/dbs/reqt.db.go
+++ b/core/shared/testcom/dbs/reqt.db.go
@@ -121,7 +121,7 @@ func (h *RequestTestDB) GetMany(rvtids [][]byte) (*[]reqtestsdeps.RequestTestIns
 }
 
 // modify changes the stored entry in one transaction, so that changes made at the same time are not lost.
-func (h *RequestTestDB) modify(rvteid []byte, change func(rvte *reqtestsdeps.RequestTestInst)) {
+func (h *RequestTestDB) modify(rvteid []byte, change func(rvte *reqtestsdeps.RequestTestInst)) error {
 	rvteStorageId := append([]byte{}, h.prefix...)
 	rvteStorageId = append(rvteStorageId, rvteid...)
 
@@ -162,7 +162,7 @@ func (h *RequestTestDB) modify(rvteid []byte, change func(rvte *reqtestsdeps.Req
 			log.Printf("%s error saving test entry. %s", hex.EncodeToString(rvteid), err.Error())
 		}
 
-		return
+		return err
 	}
 }
 
@@ -204,8 +204,8 @@ func (h *RequestTestDB) ReportTest(rvteid []byte, testID testcom.FDOTestID, test
 	})
 }
 
-func (h *RequestTestDB) RemoveTestRun(rvteid []byte, testRunId string) {
-	h.modify(rvteid, func(rvte *reqtestsdeps.RequestTestInst) {
+func (h *RequestTestDB) RemoveTestRun(rvteid []byte, testRunId string) error {
+	return h.modify(rvteid, func(rvte *reqtestsdeps.RequestTestInst) {
 		var updatedTestsHistory []reqtestsdeps.RequestTestRun = []reqtestsdeps.RequestTestRun{}
 		for _, testRunEntry := range rvte.TestsHistory {
 			if testRunEntry.Uuid != testRunId {
-- 
2.43.0

