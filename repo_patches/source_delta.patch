From 976990e00c8fdf4cd5406184726d7beaef38118c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:45 +0000
Subject: [PATCH 01/24] fix: words.ToBytes rejects lists whose length leaves no
 valid checksum

---
 pkg/words/words.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/words/words.go b/pkg/words/words.go
index a2c7907..72aa281 100644
--- a/pkg/words/words.go
+++ b/pkg/words/words.go
@@ -198,6 +198,11 @@ func ToBytes(lang string, s []string) ([]byte, error) {
 	// if a shorter version (with a longer crc) is possible, test it first
 	// because if this crc is correct it's more likely to be the right answer
 	for _, rb := range []int{resultbytes - 1, resultbytes} {
+		// only consider lengths for which FromBytes generates this many words;
+		// for any others, the bits after the data are not a valid checksum
+		if rb < 0 || nextMultipleOf(rb*8+4, 11) != nbits {
+			continue
+		}
 		runlen := nbits - rb*8
 		mask := (1 << uint(runlen)) - 1 // generate runlen 1 bits
 		ckcalc := int(crc8(result[:rb])) & mask
-- 
2.43.0


From 6f5fe5d16fd449208b7b2d3848401045fd4ad16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:05 +0000
Subject: [PATCH 02/24] fix: address.Validate rejects line breaks and padding

---
 pkg/address/address_impl.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/address/address_impl.go b/pkg/address/address_impl.go
index 2df444f..2494a5c 100644
--- a/pkg/address/address_impl.go
+++ b/pkg/address/address_impl.go
@@ -190,6 +190,11 @@ func Validate(addr string) (Address, error) {
 	if err != nil {
 		return emptyA(), err
 	}
+	// the decoder skips line breaks and permits padding, so make sure that
+	// every character contributed to the result
+	if len(h) != HashTrim+4 {
+		return emptyA(), newError("not a valid address encoding")
+	}
 	// now check the two bytes of the checksum
 	if !b32.Check(h[:len(h)-2], h[len(h)-2:]) {
 		// uncomment these lines if you want to regenerate a key
-- 
2.43.0


From 246c83e5d58fe698734d58c90c15f08c762a9db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:06 +0000
Subject: [PATCH 03/24] fix: Address.UnmarshalText keeps the canonical form of
 the address

---
 pkg/address/address.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/address/address.go b/pkg/address/address.go
index d6dfd27..6c737c1 100644
--- a/pkg/address/address.go
+++ b/pkg/address/address.go
@@ -47,10 +47,10 @@ func (a Address) MarshalText() ([]byte, error) {
 // UnmarshalText implements encoding.TextUnmarshaler
 func (a *Address) UnmarshalText(text []byte) error {
 	s := string(text)
-	_, err := Validate(s)
+	v, err := Validate(s)
 	if err != nil {
 		return err
 	}
-	a.addr = s
+	*a = v
 	return nil
 }
-- 
2.43.0


From f2f7c638d758f09488ad3274373d8a7b1fa8b6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:07 +0000
Subject: [PATCH 04/24] fix: CheckChecksum only accepts the checksum width that
 AddChecksum uses

---
 pkg/signature/checksum.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/signature/checksum.go b/pkg/signature/checksum.go
index 683711a..a1de2a8 100644
--- a/pkg/signature/checksum.go
+++ b/pkg/signature/checksum.go
@@ -84,6 +84,10 @@ func CheckChecksum(checked []byte) (message []byte, checksumOk bool) {
 	if end < 1 {
 		return nil, false
 	}
+	if n != checksumWidth(end-1) {
+		// AddChecksum never uses this width for a message of this length
+		return nil, false
+	}
 	message = checked[1:end]
 
 	sumActual := checked[end:]
-- 
2.43.0


From dce2ec263e11b96aa3755ae6bc8489d66e1b9017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:39 +0000
Subject: [PATCH 05/24] fix: unmarshaling an unknown algorithm id is an error,
 not a panic

---
 pkg/signature/algorithm.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/pkg/signature/algorithm.go b/pkg/signature/algorithm.go
index aae8e4a..b9eac73 100644
--- a/pkg/signature/algorithm.go
+++ b/pkg/signature/algorithm.go
@@ -84,6 +84,15 @@ func cloneAl(original Algorithm) Algorithm {
 	return reflect.New(val.Type()).Interface().(Algorithm)
 }
 
+// newAl creates an instance of the algorithm with the given id
+func newAl(id AlgorithmID) (Algorithm, error) {
+	original, ok := idMap[id]
+	if !ok {
+		return nil, errors.Errorf("unknown algorithm id %d", id)
+	}
+	return cloneAl(original), nil
+}
+
 // Unmarshal the serialized binary data into an Algorithm instance and
 // the originally supplied data.
 func unmarshal(serialized []byte) (al Algorithm, data []byte, err error) {
@@ -95,7 +104,11 @@ func unmarshal(serialized []byte) (al Algorithm, data []byte, err error) {
 	if len(leftovers) > 0 {
 		return nil, nil, errors.New("Leftovers present after deserialization")
 	}
-	return cloneAl(idMap[container.Algorithm]), container.Data, nil
+	al, err = newAl(container.Algorithm)
+	if err != nil {
+		return nil, nil, err
+	}
+	return al, container.Data, nil
 }
 
 func unmarshalWithLeftovers(serialized []byte) (al Algorithm, data, leftovers []byte, err error) {
@@ -104,7 +117,11 @@ func unmarshalWithLeftovers(serialized []byte) (al Algorithm, data, leftovers []
 	if err != nil {
 		return nil, nil, nil, err
 	}
-	return cloneAl(idMap[container.Algorithm]), container.Data, leftovers, nil
+	al, err = newAl(container.Algorithm)
+	if err != nil {
+		return nil, nil, nil, err
+	}
+	return al, container.Data, leftovers, nil
 }
 
 // Generate a high-level keypair
-- 
2.43.0


From e56a45a7d9d1c5ab27f9d2af5603da8a03d1708a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:40 +0000
Subject: [PATCH 06/24] fix: Signature unmarshaling checks for errors and for
 the size

---
 pkg/signature/signature.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/pkg/signature/signature.go b/pkg/signature/signature.go
index 303898d..4d63491 100644
--- a/pkg/signature/signature.go
+++ b/pkg/signature/signature.go
@@ -64,9 +64,8 @@ func (signature Signature) Marshal() (serialized []byte, err error) {
 // Unmarshal unmarshals the serialized binary data into the supplied signature instance
 func (signature *Signature) Unmarshal(serialized []byte) error {
 	al, b, err := unmarshal(serialized)
-	ss := al.SignatureSize()
-	if err == nil && ss >= 0 && len(b) != ss {
-		err = fmt.Errorf("Wrong size signature: expect len %d, have %d", al.SignatureSize(), len(b))
+	if err == nil {
+		err = checkSize(al, b)
 	}
 	if err == nil {
 		signature.algorithm = al
@@ -75,6 +74,15 @@ func (signature *Signature) Unmarshal(serialized []byte) error {
 	return err
 }
 
+// checkSize ensures that the data has the size of a signature of the algorithm
+func checkSize(al Algorithm, data []byte) error {
+	ss := al.SignatureSize()
+	if ss >= 0 && len(data) != ss {
+		return fmt.Errorf("Wrong size signature: expect len %d, have %d", ss, len(data))
+	}
+	return nil
+}
+
 // Verify is a convenience function to verify from a signature
 func (signature Signature) Verify(message []byte, key PublicKey) bool {
 	return key.Verify(message, signature)
@@ -94,6 +102,9 @@ func (signature *Signature) UnmarshalMsg(in []byte) (leftover []byte, err error)
 	var al Algorithm
 	var b []byte
 	al, b, leftover, err = unmarshalWithLeftovers(in)
+	if err == nil {
+		err = checkSize(al, b)
+	}
 	if err == nil {
 		signature.algorithm = al
 		signature.data = b
-- 
2.43.0


From c1b2747715328c8ebacb5f19dc140b031b2621f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:09 +0000
Subject: [PATCH 07/24] fix: unmarshaling a key from a short text is an error,
 not a panic

---
 pkg/signature/private_key.go | 3 +++
 pkg/signature/public_key.go  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/pkg/signature/private_key.go b/pkg/signature/private_key.go
index e449d03..0779d7e 100644
--- a/pkg/signature/private_key.go
+++ b/pkg/signature/private_key.go
@@ -124,6 +124,9 @@ func (key PrivateKey) MarshalText() ([]byte, error) {
 func (key *PrivateKey) UnmarshalText(text []byte) error {
 	expectPrefix := []byte(PrivateKeyPrefix)
 	lep := len(expectPrefix)
+	if len(text) < lep {
+		return fmt.Errorf("private key must begin with %q; got %q", PrivateKeyPrefix, text)
+	}
 	if !bytes.Equal(expectPrefix, text[:lep]) {
 		return fmt.Errorf("private key must begin with %q; got %q", PrivateKeyPrefix, text[:lep])
 	}
diff --git a/pkg/signature/public_key.go b/pkg/signature/public_key.go
index 1378637..aa8a83c 100644
--- a/pkg/signature/public_key.go
+++ b/pkg/signature/public_key.go
@@ -136,6 +136,9 @@ func (key PublicKey) MarshalText() ([]byte, error) {
 func (key *PublicKey) UnmarshalText(text []byte) error {
 	expectPrefix := []byte(PublicKeyPrefix)
 	lep := len(expectPrefix)
+	if len(text) < lep {
+		return fmt.Errorf("public key must begin with %q; got %q", PublicKeyPrefix, text)
+	}
 	if !bytes.Equal(expectPrefix, text[:lep]) {
 		return fmt.Errorf("public key must begin with %q; got %q", PublicKeyPrefix, text[:lep])
 	}
-- 
2.43.0


From 97d11d0c31fd5307b680c4d623384c5bd3aa775c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:11 +0000
Subject: [PATCH 08/24] fix: unpacking an empty key clears the previous key

---
 pkg/signature/keybase.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/signature/keybase.go b/pkg/signature/keybase.go
index 32f386a..4fba7ba 100644
--- a/pkg/signature/keybase.go
+++ b/pkg/signature/keybase.go
@@ -55,6 +55,8 @@ func (key keyBase) pack() ([]byte, error) {
 
 func (key *keyBase) unpack(data []byte) error {
 	if len(data) == 0 {
+		// no data: an empty key, without anything left from its previous value
+		key.key, key.extra = nil, nil
 		return nil
 	}
 	lk := int(data[0])
-- 
2.43.0


From b57dd9936dc4a0aecd89ec1e943370dc52c2d482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:40 +0000
Subject: [PATCH 09/24] fix: HardenedChild does not wrap around to non-hardened
 children

---
 pkg/key/extendedkey.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/key/extendedkey.go b/pkg/key/extendedkey.go
index e627331..f283476 100644
--- a/pkg/key/extendedkey.go
+++ b/pkg/key/extendedkey.go
@@ -77,6 +77,12 @@ var (
 	// increment to the next index.
 	ErrInvalidChild = errors.New("the extended key at this index is invalid")
 
+	// ErrInvalidHardenedIndex describes an error in which the caller asked
+	// for a hardened child at an index for which there is none: hardened
+	// children are numbered from 0 to HardenedKeyStart-1.
+	ErrInvalidHardenedIndex = errors.New(
+		"hardened child index must be less than 2^31")
+
 	// ErrUnusableSeed describes an error in which the provided seed is not
 	// usable due to the derived key falling outside of the valid range for
 	// secp256k1 private keys.  This error indicates the caller must choose
@@ -399,6 +405,9 @@ func (k *ExtendedKey) Public() (*ExtendedKey, error) {
 // A HardenedChild is guaranteed to have been derived from a private key.
 // It is an error if the given key is already a hardened key.
 func (k *ExtendedKey) HardenedChild(n uint32) (*ExtendedKey, error) {
+	if n >= HardenedKeyStart {
+		return nil, ErrInvalidHardenedIndex
+	}
 	ndx := n + HardenedKeyStart
 	nk, err := k.Child(ndx)
 	return nk, errors.Wrap(err, "could not get child key")
-- 
2.43.0


From 0c32c40db5d18538b94359c0689dd48e8682f3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:42 +0000
Subject: [PATCH 10/24] fix: ExtendedKey.Zero leaves no stale public key, and
 Public shares no memory

---
 pkg/key/extendedkey.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/key/extendedkey.go b/pkg/key/extendedkey.go
index f283476..2e8f589 100644
--- a/pkg/key/extendedkey.go
+++ b/pkg/key/extendedkey.go
@@ -395,7 +395,9 @@ func (k *ExtendedKey) Public() (*ExtendedKey, error) {
 	// key will simply be the pubkey of the current extended private key.
 	//
 	// This is the function N((k,c)) -> (K, c) from [BIP32].
-	return NewExtendedKey(k.PubKeyBytes(), k.chainCode, k.parentFP,
+	// Copy the slices, so that Zero on either key leaves the other intact.
+	dup := func(b []byte) []byte { return append([]byte{}, b...) }
+	return NewExtendedKey(dup(k.PubKeyBytes()), dup(k.chainCode), dup(k.parentFP),
 		k.depth, k.childNum, false), nil
 }
 
@@ -525,6 +527,9 @@ func (k *ExtendedKey) Zero() {
 	zero(k.chainCode)
 	zero(k.parentFP)
 	k.key = nil
+	k.pubKey = nil
+	k.chainCode = nil
+	k.parentFP = nil
 	k.depth = 0
 	k.childNum = 0
 	k.isPrivate = false
-- 
2.43.0


From 2f7927e8b483b78ce72c4287889b7255f8da9d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:10 +0000
Subject: [PATCH 11/24] fix: a zero Signature has the Null algorithm

---
 pkg/signature/id_map.go    | 4 ++++
 pkg/signature/signature.go | 5 ++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/signature/id_map.go b/pkg/signature/id_map.go
index 5e81ee5..3848d63 100644
--- a/pkg/signature/id_map.go
+++ b/pkg/signature/id_map.go
@@ -71,6 +71,10 @@ func buildNameMap() {
 
 // NameOf returns the name of an Algorithm
 func NameOf(al Algorithm) string {
+	// as in idOf, a nil algorithm is the Null algorithm
+	if al == nil {
+		al = Null
+	}
 	ty := reflect.TypeOf(al)
 	// arbitrary-depth dereference
 	for ty.Kind() == reflect.Interface || ty.Kind() == reflect.Ptr {
diff --git a/pkg/signature/signature.go b/pkg/signature/signature.go
index 4d63491..59babb9 100644
--- a/pkg/signature/signature.go
+++ b/pkg/signature/signature.go
@@ -31,6 +31,9 @@ type Signature struct {
 
 // Algorithm gets the signature's algorithm
 func (signature Signature) Algorithm() Algorithm {
+	if signature.algorithm == nil {
+		return Null
+	}
 	return signature.algorithm
 }
 
@@ -52,7 +55,7 @@ func RawSignature(al Algorithm, data []byte) (*Signature, error) {
 
 // Size returns the size of this signature
 func (signature Signature) Size() int {
-	return signature.algorithm.SignatureSize()
+	return signature.Algorithm().SignatureSize()
 }
 
 // Marshal marshals the signature into a serialized binary format
-- 
2.43.0


From 5ad342486978faadbf494fc86559b8789ba9bb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:34 +0000
Subject: [PATCH 12/24] fix: Child rejects the zero key and the point at
 infinity

---
 pkg/key/extendedkey.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/key/extendedkey.go b/pkg/key/extendedkey.go
index 2e8f589..34d8c4e 100644
--- a/pkg/key/extendedkey.go
+++ b/pkg/key/extendedkey.go
@@ -330,6 +330,9 @@ func (k *ExtendedKey) Child(i uint32) (*ExtendedKey, error) {
 		keyNum := new(big.Int).SetBytes(k.key)
 		ilNum.Add(ilNum, keyNum)
 		ilNum.Mod(ilNum, btcec.S256().N)
+		if ilNum.Sign() == 0 {
+			return nil, ErrInvalidChild
+		}
 		// the bytes function here returns a minimum-length buffer to represent a big-endian
 		// value. It actually works to trim leading zeros, but we definitely don't want that
 		// as we have an assumption that all keys are the same length. So we might need to
@@ -366,6 +369,9 @@ func (k *ExtendedKey) Child(i uint32) (*ExtendedKey, error) {
 		//
 		// childKey = serP(point(parse256(Il)) + parentKey)
 		childX, childY := btcec.S256().Add(ilx, ily, pubKey.X, pubKey.Y)
+		if childX.Sign() == 0 && childY.Sign() == 0 {
+			return nil, ErrInvalidChild
+		}
 		pk := btcec.PublicKey{Curve: btcec.S256(), X: childX, Y: childY}
 		childKey = pk.SerializeCompressed()
 	}
-- 
2.43.0


From 4b116b39e39f325bfcadcd44156b182933cd3fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:50 +0000
Subject: [PATCH 13/24] fix: Msgsize of keys counts the length byte and the
 extra bytes

---
 pkg/signature/keybase.go     | 2 +-
 pkg/signature/private_key.go | 2 +-
 pkg/signature/public_key.go  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/signature/keybase.go b/pkg/signature/keybase.go
index 4fba7ba..ae6ec46 100644
--- a/pkg/signature/keybase.go
+++ b/pkg/signature/keybase.go
@@ -133,7 +133,7 @@ func (key *keyBase) UnmarshalMsg(in []byte) (leftover []byte, err error) {
 // as fundamentally a keyBase gets serialized as an IdentifiedData, and so should
 // have the same size.
 func (key *keyBase) Msgsize() (s int) {
-	s = 1 + msgp.Uint8Size + msgp.BytesPrefixSize + len(key.key)
+	s = 1 + msgp.Uint8Size + msgp.BytesPrefixSize + 1 + len(key.key) + len(key.extra)
 	return
 }
 
diff --git a/pkg/signature/private_key.go b/pkg/signature/private_key.go
index 0779d7e..ec82481 100644
--- a/pkg/signature/private_key.go
+++ b/pkg/signature/private_key.go
@@ -106,7 +106,7 @@ func (key *PrivateKey) UnmarshalMsg(in []byte) (leftover []byte, err error) {
 // as fundamentally a PrivateKey gets serialized as an IdentifiedData, and so should
 // have the same size.
 func (key *PrivateKey) Msgsize() (s int) {
-	s = 1 + msgp.Uint8Size + msgp.BytesPrefixSize + len(key.key)
+	s = 1 + msgp.Uint8Size + msgp.BytesPrefixSize + 1 + len(key.key) + len(key.extra)
 	return
 }
 
diff --git a/pkg/signature/public_key.go b/pkg/signature/public_key.go
index aa8a83c..ca92ee2 100644
--- a/pkg/signature/public_key.go
+++ b/pkg/signature/public_key.go
@@ -118,7 +118,7 @@ func (key *PublicKey) UnmarshalMsg(in []byte) (leftover []byte, err error) {
 // as fundamentally a PublicKey gets serialized as an IdentifiedData, and so should
 // have the same size.
 func (key *PublicKey) Msgsize() (s int) {
-	s = 1 + msgp.Uint8Size + msgp.BytesPrefixSize + len(key.key)
+	s = 1 + msgp.Uint8Size + msgp.BytesPrefixSize + 1 + len(key.key) + len(key.extra)
 	return
 }
 
-- 
2.43.0


From cf3f21a50304bdc5f8ceb4d372be92840a088aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:02 +0000
Subject: [PATCH 14/24] fix: converting between extended and signature keys
 shares no memory

---
 pkg/key/extendedkey.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pkg/key/extendedkey.go b/pkg/key/extendedkey.go
index 34d8c4e..ab4bef1 100644
--- a/pkg/key/extendedkey.go
+++ b/pkg/key/extendedkey.go
@@ -589,8 +589,8 @@ func (k *ExtendedKey) FromSignatureKey(key signature.Key) (err error) {
 	}
 
 	k.isPrivate = signature.IsPrivate(key)
-	k.key = key.KeyBytes()
-	err = k.parseExtra(key.ExtraBytes())
+	k.key = append([]byte(nil), key.KeyBytes()...)
+	err = k.parseExtra(append([]byte(nil), key.ExtraBytes()...))
 	if err != nil {
 		return errors.Wrap(err, "could not parse extra")
 	}
@@ -609,12 +609,14 @@ func FromSignatureKey(key signature.Key) (ek *ExtendedKey, err error) {
 
 // AsSignatureKey converts this ExtendedKey into a signature.Key instance
 func (k ExtendedKey) AsSignatureKey() (signature.Key, error) {
+	// the signature key must survive k.Zero(), so it gets its own copy
+	key := append([]byte(nil), k.key...)
 	if k.isPrivate {
-		priv, err := signature.RawPrivateKey(signature.Secp256k1, k.key, k.extra())
+		priv, err := signature.RawPrivateKey(signature.Secp256k1, key, k.extra())
 		err = errors.Wrap(err, "could not convert private key")
 		return priv, err
 	}
-	pub, err := signature.RawPublicKey(signature.Secp256k1, k.key, k.extra())
+	pub, err := signature.RawPublicKey(signature.Secp256k1, key, k.extra())
 	err = errors.Wrap(err, "could not convert public key")
 	return pub, err
 }
-- 
2.43.0


From 083f58ae3a0a9d778bfb4aa402bfadab4dc8f9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:16 +0000
Subject: [PATCH 15/24] fix: the text of an amount of ndau between -1 and 0
 keeps its sign

---
 pkg/types/ndau.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pkg/types/ndau.go b/pkg/types/ndau.go
index c909ab8..e5e7e35 100644
--- a/pkg/types/ndau.go
+++ b/pkg/types/ndau.go
@@ -71,17 +71,19 @@ func (n Ndau) Compare(rhs Ndau) int {
 // decimal value of ndau. The full napu value is displayed, but trailing zeros
 // are suppressed.
 func (n Ndau) String() string {
-	var sign int64 = 1
+	sign := ""
+	na := uint64(n)
 	if n < 0 {
-		sign = -1
+		// the sign is kept apart: -0.5 has no whole part to carry it
+		sign = "-"
+		na = -na
 	}
-	na := n.Abs()
 	ndau := na / constants.NapuPerNdau
 	napu := na % constants.NapuPerNdau
 	if napu == 0 {
-		return strconv.FormatInt(int64(sign*int64(ndau)), 10)
+		return sign + strconv.FormatUint(ndau, 10)
 	}
-	s := fmt.Sprintf("%d.%08d", sign*int64(ndau), napu)
+	s := fmt.Sprintf("%s%d.%08d", sign, ndau, napu)
 	t := len(s)
 	// trim off trailing zeros
 	for ; s[t-1] == '0'; t-- {
-- 
2.43.0


From 69f695da6214783bb3e8cbd6bbd9c628ade309e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:16 +0000
Subject: [PATCH 16/24] fix: ParseNdau refuses amounts that do not fit

---
 pkg/types/ndau.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pkg/types/ndau.go b/pkg/types/ndau.go
index e5e7e35..9ff2e60 100644
--- a/pkg/types/ndau.go
+++ b/pkg/types/ndau.go
@@ -126,12 +126,16 @@ func ParseNdau(s string) (Ndau, error) {
 	if wholes == "" {
 		wholes = "0"
 	}
-	whole, err := strconv.ParseUint(wholes, 10, 64)
+	whole, err := strconv.ParseInt(wholes, 10, 64)
 	if err != nil {
 		return 0, errors.Wrap(err, "parsing ndau")
 	}
 
-	out := Ndau(whole) * constants.NapuPerNdau
+	napu, err := signed.Mul(whole, constants.NapuPerNdau)
+	if err != nil {
+		return 0, errors.Wrap(err, "parsing ndau")
+	}
+	out := Ndau(napu)
 
 	fracs, ok := result["frac"]
 	if ok {
@@ -148,7 +152,10 @@ func ParseNdau(s string) (Ndau, error) {
 		if err != nil {
 			return 0, errors.Wrap(err, "parsing frac component")
 		}
-		out += Ndau(frac)
+		out, err = out.Add(Ndau(frac))
+		if err != nil {
+			return 0, errors.Wrap(err, "parsing frac component")
+		}
 	}
 
 	return out, nil
-- 
2.43.0


From 2bcc5cf636466c6208fbfa026bffd4ca53bb8ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:16 +0000
Subject: [PATCH 17/24] fix: the smallest duration has a text

---
 pkg/types/duration.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pkg/types/duration.go b/pkg/types/duration.go
index e048932..faa6398 100644
--- a/pkg/types/duration.go
+++ b/pkg/types/duration.go
@@ -110,17 +110,18 @@ func ParseDuration(s string) (Duration, error) {
 
 // String represents a Duration as a human-readable string
 func (d Duration) String() string {
-	value := int64(d)
+	// unsigned, because the smallest duration has no positive counterpart
+	value := uint64(d)
 	out := ""
-	if value < 0 {
+	if d < 0 {
 		out = "-"
 		value = -value
 	}
-	divmod := func(divisor, dividend int64) (int64, int64) {
+	divmod := func(divisor, dividend uint64) (uint64, uint64) {
 		return divisor / dividend, divisor % dividend
 	}
-	extract := func(symbol string, unit int64) {
-		var units int64
+	extract := func(symbol string, unit uint64) {
+		var units uint64
 		units, value = divmod(value, unit)
 		if units > 0 {
 			out += fmt.Sprintf("%d%s", units, symbol)
-- 
2.43.0


From 8bc7e2a106708daeaa20827cb4a35374156bd74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:16 +0000
Subject: [PATCH 18/24] fix: ParseDuration refuses durations that do not fit

---
 pkg/types/duration.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/pkg/types/duration.go b/pkg/types/duration.go
index faa6398..3544851 100644
--- a/pkg/types/duration.go
+++ b/pkg/types/duration.go
@@ -68,13 +68,26 @@ func ParseDuration(s string) (Duration, error) {
 	}
 
 	duration := Duration(0)
-	addTime := func(name string, unit uint64) error {
+	addTime := func(name string, unit int64) error {
 		if result[name] != "" {
-			value, err := strconv.ParseUint(result[name], 10, 64)
+			value, err := strconv.ParseInt(result[name], 10, 64)
 			if err != nil {
 				return fmt.Errorf("invalid integer: %s", result[name])
 			}
-			duration += Duration(value * unit)
+			// the sum is built with its sign, because the smallest
+			// duration has no positive counterpart
+			if result["neg"] != "" {
+				value = -value
+			}
+			value, err = signed.Mul(value, unit)
+			if err != nil {
+				return err
+			}
+			value, err = signed.Add(int64(duration), value)
+			if err != nil {
+				return err
+			}
+			duration = Duration(value)
 		}
 		return nil
 	}
@@ -101,10 +114,6 @@ func ParseDuration(s string) (Duration, error) {
 		return Duration(0), err
 	}
 
-	if result["neg"] != "" {
-		duration = -duration
-	}
-
 	return duration, nil
 }
 
-- 
2.43.0


From 92ebb7b85c58b5d860d5ac9ae0d5a9bede768877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:16 +0000
Subject: [PATCH 19/24] fix: a weighted average age that does not fit is
 refused

---
 pkg/types/duration.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pkg/types/duration.go b/pkg/types/duration.go
index 3544851..1d1994b 100644
--- a/pkg/types/duration.go
+++ b/pkg/types/duration.go
@@ -165,7 +165,10 @@ func (d *Duration) UpdateWeightedAverageAge(
 	transferQty Ndau,
 	previousBalance Ndau,
 ) error {
-	waa := int64(*d) + int64(sinceLastUpdate)
+	waa, err := signed.Add(int64(*d), int64(sinceLastUpdate))
+	if err != nil {
+		return errors.New("Duration overflow in UpdateWeightedAverageAge")
+	}
 	if int64(transferQty) >= 0 {
 		newBalance, err := previousBalance.Add(transferQty)
 		if err != nil {
@@ -174,9 +177,8 @@ func (d *Duration) UpdateWeightedAverageAge(
 		// we have to use bigints to prevent the multiplication from overflow
 		nb := int64(newBalance)
 		pb := int64(previousBalance)
-		dur := int64(*d + sinceLastUpdate)
 		if nb > 0 {
-			waa, err = signed.MulDiv(dur, pb, nb)
+			waa, err = signed.MulDiv(waa, pb, nb)
 			if err != nil {
 				return errors.New("Duration overflow in UpdateWeightedAverageAge")
 			}
-- 
2.43.0


From 2cc31ff61fe320a1ec2c2e33a8bd97dc1c3803e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:12 +0000
Subject: [PATCH 20/24] fix: check ExpFrac's denominator before scaling it, and
 stop before the factorial overflows

---
 pkg/signed/exp.go   | 12 ++++++++----
 pkg/unsigned/exp.go | 12 ++++++++----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/pkg/signed/exp.go b/pkg/signed/exp.go
index 178c236..f5c26c6 100644
--- a/pkg/signed/exp.go
+++ b/pkg/signed/exp.go
@@ -39,14 +39,16 @@ import (
 // napu multiplication factor of 100,000,000 (which is also the value we use for percentages).
 func ExpFrac(numerator, denominator int64) (int64, error) {
 	rounder := int64(10)
-	numerator *= rounder
-	denominator *= rounder
-	if denominator > (math.MaxInt64 / 2) {
+	// the result can be almost 3 times the scaled denominator; check before
+	// scaling, because the multiplications wrap around
+	if denominator > (math.MaxInt64 / 3 / rounder) {
 		return 0, errors.New("denominator too large")
 	}
 	if numerator > denominator || numerator < 0 || denominator < 0 {
 		return 0, errors.New("fraction must be between 0 and 1")
 	}
+	numerator *= rounder
+	denominator *= rounder
 	// start the sum at 1 + x, which is b/b + a/b, and we only care about the
 	// numerator, so it's just b+a
 	sum := denominator + numerator
@@ -60,7 +62,9 @@ func ExpFrac(numerator, denominator int64) (int64, error) {
 	product := numerator
 	fact := int64(1)
 	var err error
-	for i := int64(2); product != 0; i++ {
+	// 20! is the greatest factorial that fits, and the terms after it are less
+	// than a unit
+	for i := int64(2); product != 0 && i <= 20; i++ {
 		product, err = MulDiv(product, numerator, denominator)
 		if err != nil {
 			return 0, err
diff --git a/pkg/unsigned/exp.go b/pkg/unsigned/exp.go
index c94405e..0c15ed6 100644
--- a/pkg/unsigned/exp.go
+++ b/pkg/unsigned/exp.go
@@ -39,14 +39,16 @@ import (
 // napu multiplication factor of 100,000,000 (which is also the value we use for percentages).
 func ExpFrac(numerator, denominator uint64) (uint64, error) {
 	rounder := uint64(10)
-	numerator *= rounder
-	denominator *= rounder
-	if denominator > (math.MaxUint64 / 2) {
+	// the result can be almost 3 times the scaled denominator; check before
+	// scaling, because the multiplications wrap around
+	if denominator > (math.MaxUint64 / 3 / rounder) {
 		return 0, errors.New("denominator too large")
 	}
 	if numerator > denominator {
 		return 0, errors.New("fraction must be between 0 and 1")
 	}
+	numerator *= rounder
+	denominator *= rounder
 	// start the sum at 1 + x, which is b/b + a/b, and we only care about the
 	// numerator, so it's just b+a
 	sum := denominator + numerator
@@ -60,7 +62,9 @@ func ExpFrac(numerator, denominator uint64) (uint64, error) {
 	product := numerator
 	fact := uint64(1)
 	var err error
-	for i := uint64(2); product != 0; i++ {
+	// 20! is the greatest factorial that fits, and the terms after it are less
+	// than a unit
+	for i := uint64(2); product != 0 && i <= 20; i++ {
 		product, err = MulDiv(product, numerator, denominator)
 		if err != nil {
 			return 0, err
-- 
2.43.0


From 277694567c58fb413759fdced0d6c8d9957f55c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:13 +0000
Subject: [PATCH 21/24] fix: correct the thresholds of LnInt above e^36

---
 pkg/unsigned/log.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pkg/unsigned/log.go b/pkg/unsigned/log.go
index c082186..8b9064e 100644
--- a/pkg/unsigned/log.go
+++ b/pkg/unsigned/log.go
@@ -23,15 +23,18 @@ func init() {
 	// ...     i += 1
 	// ...
 	// True
+	//
+	// The entries from exp(36) were then corrected using 60 digits, since a
+	// python float has only 53 bits.
 	bounds = []uint64{
 		0, 2, 7, 20, 54, 148, 403, 1096, 2980, 8103, 22026, 59874, 162754, 442413,
 		1202604, 3269017, 8886110, 24154952, 65659969, 178482300, 485165195,
 		1318815734, 3584912846, 9744803446, 26489122129, 72004899337, 195729609428,
 		532048240601, 1446257064291, 3931334297144, 10686474581524, 29048849665247,
 		78962960182680, 214643579785916, 583461742527454, 1586013452313430,
-		4311231547115194, 11719142372802611, 31855931757113755, 86593400423993743,
-		235385266837019999, 639843493530054911, 1739274941520500991,
-		4727839468229346303, 12851600114359308287, ^uint64(0),
+		4311231547115195, 11719142372802611, 31855931757113756, 86593400423993746,
+		235385266837019985, 639843493530054949, 1739274941520501047,
+		4727839468229346561, 12851600114359308275, ^uint64(0),
 	}
 }
 
-- 
2.43.0


From 80e41c7a0ef264075c79e9fee429884ad385afb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:14 +0000
Subject: [PATCH 22/24] fix: refuse rates that overflow in ParseRate

---
 pkg/eai/rate.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/eai/rate.go b/pkg/eai/rate.go
index 9bdc2b4..248e292 100644
--- a/pkg/eai/rate.go
+++ b/pkg/eai/rate.go
@@ -104,7 +104,11 @@ func ParseRate(s string) (Rate, error) {
 	if err != nil {
 		return Rate(0), errors.Wrap(err, "parsing pct")
 	}
-	out := RateFromPercent(1) * Rate(pct)
+	onePct := RateFromPercent(1)
+	if pct >= uint64(gomath.MaxInt64/onePct) {
+		return Rate(0), errors.New("rate too large")
+	}
+	out := onePct * Rate(pct)
 
 	fracs, ok := result["frac"]
 	if ok {
-- 
2.43.0


From 1d290e5555a2d817a0eabb84cfde8cf0141e2748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:15 +0000
Subject: [PATCH 23/24] fix: refuse amounts that overflow in ParseDollars

---
 pkg/pricecurve/nanocent.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/pricecurve/nanocent.go b/pkg/pricecurve/nanocent.go
index 32a42ed..70a9d8b 100644
--- a/pkg/pricecurve/nanocent.go
+++ b/pkg/pricecurve/nanocent.go
@@ -12,6 +12,7 @@ package pricecurve
 
 import (
 	"fmt"
+	"math"
 	"regexp"
 	"strconv"
 	"strings"
@@ -81,6 +82,9 @@ func ParseDollars(dollars string) (Nanocent, error) {
 	}
 
 	// add it all up
+	if d >= math.MaxInt64/Dollar {
+		return 0, fmt.Errorf("'%s' dollars can't be expressed in nanocents", dollars)
+	}
 	nc := Nanocent(d*Dollar + c)
 
 	// handle negatives
-- 
2.43.0


From b5fdaa89e6573cf6702219a09827cdbcf750119c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:12 +0000
Subject: [PATCH 24/24] fix: refuse EAI that overflows in Calculate

---
 pkg/eai/eai.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/eai/eai.go b/pkg/eai/eai.go
index 26bf77c..924505e 100644
--- a/pkg/eai/eai.go
+++ b/pkg/eai/eai.go
@@ -11,7 +11,10 @@ package eai
 
 
 import (
+	gomath "math"
+
 	"github.com/ndau/ndaumath/pkg/constants"
+	"github.com/ndau/ndaumath/pkg/ndauerr"
 	math "github.com/ndau/ndaumath/pkg/types"
 	"github.com/ndau/ndaumath/pkg/unsigned"
 	"github.com/pkg/errors"
@@ -63,6 +66,9 @@ func Calculate(
 	if err != nil {
 		return 0, err
 	}
+	if eai > gomath.MaxInt64 {
+		return 0, ndauerr.ErrOverflow
+	}
 	return math.Ndau(eai), nil
 }
 
-- 
2.43.0

