From cb3db84c078d670c29ec31b64e7d5dd588ed7996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:42 +0000
Subject: [PATCH 01/36] fix: report encoding errors behind pointers

marshal dropped the error of a pointer's target and returned
an incomplete encoding as a success.
---
 beserial/encode.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/beserial/encode.go b/beserial/encode.go
index 78e7cd9..8f84c37 100644
--- a/beserial/encode.go
+++ b/beserial/encode.go
@@ -59,8 +59,7 @@ func marshal(v reflect.Value, b []byte, ts tags) ([]byte, error) {
 		} else if v.IsNil() {
 			return nil, ErrNonOptionalNil
 		}
-		b, err = marshal(v.Elem(), b, ts)
-		return b, nil
+		return marshal(v.Elem(), b, ts)
 	case reflect.Array:
 		typ := v.Type()
 		if typ.Elem().Kind() == reflect.Uint8 {
-- 
2.43.0


From 076a07d94b064a3dd2451164ddfe613c0de265b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:50 +0000
Subject: [PATCH 02/36] fix: reject lengths that do not fit their length prefix

A string or slice longer than its length tag can count was
encoded with a truncated length. Wallets pass the error on.
---
 beserial/encode.go | 22 ++++++++++++++--------
 wallet/basic.go    | 16 +++++++++++-----
 2 files changed, 25 insertions(+), 13 deletions(-)

diff --git a/beserial/encode.go b/beserial/encode.go
index 8f84c37..cad2c9c 100644
--- a/beserial/encode.go
+++ b/beserial/encode.go
@@ -78,7 +78,10 @@ func marshal(v reflect.Value, b []byte, ts tags) ([]byte, error) {
 			return nil, ErrNoLenTag
 		}
 		size := v.Len()
-		b = marshalInt(ts.lenTag, size, b)
+		b, err = marshalInt(ts.lenTag, size, b)
+		if err != nil {
+			return nil, err
+		}
 		typ := v.Type()
 		if kind == reflect.String {
 			b = append(b, []byte(v.String())...)
@@ -122,22 +125,25 @@ func marshal(v reflect.Value, b []byte, ts tags) ([]byte, error) {
 	return b, nil
 }
 
-// TODO Bounds checks
-
-func marshalInt(kind reflect.Kind, n int, b []byte) []byte {
+// marshalInt appends a length prefix,
+// and returns an error if the prefix cannot hold the length.
+func marshalInt(kind reflect.Kind, n int, b []byte) ([]byte, error) {
 	var st [8]byte
+	if size, ok := sizeNumber(kind); ok && size < 8 && uint64(n)>>(8*uint(size)) != 0 {
+		return nil, fmt.Errorf("beserial: length %d exceeds %s length tag", n, kind)
+	}
 	switch kind {
 	case reflect.Uint8:
-		return append(b, uint8(n))
+		return append(b, uint8(n)), nil
 	case reflect.Uint16:
 		binary.BigEndian.PutUint16(st[:], uint16(n))
-		return append(b, st[:2]...)
+		return append(b, st[:2]...), nil
 	case reflect.Uint32:
 		binary.BigEndian.PutUint32(st[:], uint32(n))
-		return append(b, st[:4]...)
+		return append(b, st[:4]...), nil
 	case reflect.Uint64:
 		binary.BigEndian.PutUint64(st[:], uint64(n))
-		return append(b, st[:8]...)
+		return append(b, st[:8]...), nil
 	default:
 		panic("beserial: marshalInt not expecting " + kind.String())
 	}
diff --git a/wallet/basic.go b/wallet/basic.go
index aeb686a..1402630 100644
--- a/wallet/basic.go
+++ b/wallet/basic.go
@@ -62,20 +62,20 @@ func (b *Basic) GetPublicKey() (pub [32]byte) {
 	return
 }
 
-func (b *Basic) signTx(tx wire.Tx) []byte {
+func (b *Basic) signTx(tx wire.Tx) ([]byte, error) {
 	if b.PublicKey == nil {
 		panic("wallet not initialized")
 	}
 	content := tx.AsTxContent()
 	contentBuf, err := beserial.Marshal(nil, &content)
 	if err != nil {
-		panic(err)
+		return nil, err
 	}
 	sig, err := b.PrivateKey.Sign(nil, contentBuf, crypto.Hash(0))
 	if err != nil {
 		panic("ed25519.PrivateKey.Sign failed: " + err.Error())
 	}
-	return sig
+	return sig, nil
 }
 
 // SignBasicTx signs a basic transaction.
@@ -83,14 +83,20 @@ func (b *Basic) SignBasicTx(tx *wire.BasicTx) error {
 	if !bytes.Equal(b.PublicKey, tx.SenderPubKey[:]) {
 		return fmt.Errorf("refusing to sign basic tx with a different sender")
 	}
-	sig := b.signTx(tx)
+	sig, err := b.signTx(tx)
+	if err != nil {
+		return err
+	}
 	copy(tx.Signature[:], sig)
 	return nil
 }
 
 // SignExtendedTx signs an extended transaction.
 func (b *Basic) SignExtendedTx(tx *wire.ExtendedTx) (err error) {
-	sig := b.signTx(tx)
+	sig, err := b.signTx(tx)
+	if err != nil {
+		return err
+	}
 	var sigProof wire.SignatureProof
 	copy(sigProof.PublicKey[:ed25519.PublicKeySize], b.PublicKey[:ed25519.PublicKeySize])
 	copy(sigProof.Signature[:ed25519.SignatureSize], sig[:ed25519.SignatureSize])
-- 
2.43.0


From 818bafe87833d44be8db9ec0a90b758aabcfd8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:09 +0000
Subject: [PATCH 03/36] fix: report arguments that are not non-nil pointers

Marshal, Unmarshal and Size panicked on values without a nil
notion, and the latter two accepted a nil pointer silently.
---
 beserial/decode.go |  4 +---
 beserial/encode.go | 12 ++----------
 beserial/errors.go | 11 ++++++-----
 beserial/size.go   |  4 +---
 4 files changed, 10 insertions(+), 21 deletions(-)

diff --git a/beserial/decode.go b/beserial/decode.go
index c549ec5..8017eda 100644
--- a/beserial/decode.go
+++ b/beserial/decode.go
@@ -46,9 +46,7 @@ type decodeState struct {
 
 func (d *decodeState) unmarshal(v interface{}) error {
 	rv := reflect.ValueOf(v)
-	if rv.IsNil() {
-		return nil
-	} else if rv.Kind() != reflect.Ptr {
+	if rv.Kind() != reflect.Ptr || rv.IsNil() {
 		return &InvalidUnmarshalError{reflect.TypeOf(v)}
 	}
 	if err := d.value(rv.Elem(), tags{}); err != nil {
diff --git a/beserial/encode.go b/beserial/encode.go
index cad2c9c..38834e3 100644
--- a/beserial/encode.go
+++ b/beserial/encode.go
@@ -9,16 +9,8 @@ import (
 // Marshal appends the binary encoding of v to b.
 func Marshal(b []byte, v interface{}) ([]byte, error) {
 	rv := reflect.ValueOf(v)
-	if rv.Kind() == reflect.Interface {
-		if rv.Interface() == nil {
-			return nil, fmt.Errorf("TODO error") // FIXME
-		}
-	} else {
-		if rv.IsNil() {
-			return nil, fmt.Errorf("TODO error") // FIXME
-		} else if rv.Kind() != reflect.Ptr {
-			return nil, fmt.Errorf("TODO error") // FIXME
-		}
+	if rv.Kind() != reflect.Ptr || rv.IsNil() {
+		return nil, &InvalidUnmarshalError{reflect.TypeOf(v)}
 	}
 	return marshal(rv.Elem(), b, tags{})
 }
diff --git a/beserial/errors.go b/beserial/errors.go
index 12a096e..6b2532a 100644
--- a/beserial/errors.go
+++ b/beserial/errors.go
@@ -5,20 +5,21 @@ import (
 	"reflect"
 )
 
-// An InvalidUnmarshalError describes an invalid argument passed to Unmarshal.
-// (The argument to Unmarshal must be a non-nil pointer.)
+// An InvalidUnmarshalError describes an invalid argument passed to
+// Unmarshal, Marshal or Size.
+// (The argument must be a non-nil pointer.)
 type InvalidUnmarshalError struct {
 	Type reflect.Type
 }
 
 func (e *InvalidUnmarshalError) Error() string {
 	if e.Type == nil {
-		return "beserial: Unmarshal(nil)"
+		return "beserial: invalid argument (nil)"
 	}
 	if e.Type.Kind() != reflect.Ptr {
-		return "beserial: Unmarshal(non-pointer " + e.Type.String() + ")"
+		return "beserial: invalid argument (non-pointer " + e.Type.String() + ")"
 	}
-	return "beserial: Unmarshal(nil " + e.Type.String() + ")"
+	return "beserial: invalid argument (nil " + e.Type.String() + ")"
 }
 
 // An InvalidLenTagError describes an invalid or missing "len_tag" in a struct.
diff --git a/beserial/size.go b/beserial/size.go
index bceeacb..7795490 100644
--- a/beserial/size.go
+++ b/beserial/size.go
@@ -10,9 +10,7 @@ import (
 // v must not be nil or a non-pointer.
 func Size(v interface{}) (int, error) {
 	rv := reflect.ValueOf(v)
-	if rv.IsNil() {
-		return 0, nil
-	} else if rv.Kind() != reflect.Ptr {
+	if rv.Kind() != reflect.Ptr || rv.IsNil() {
 		return 0, &InvalidUnmarshalError{reflect.TypeOf(v)}
 	}
 	return valueSize(rv.Elem(), tags{})
-- 
2.43.0


From 1834d7a59400eb882a7ea8df9a265fc66ada917a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:10 +0000
Subject: [PATCH 04/36] fix: honour pointers to types with a custom codec

The codec was called on the pointer itself, skipping the
optional flag and calling methods on nil pointers.
---
 beserial/decode.go | 4 +---
 beserial/encode.go | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/beserial/decode.go b/beserial/decode.go
index 8017eda..325372f 100644
--- a/beserial/decode.go
+++ b/beserial/decode.go
@@ -59,9 +59,7 @@ func (d *decodeState) value(v reflect.Value, ts tags) error {
 	kind := v.Kind()
 	// Check for UnmarshalBESerial implementation.
 	var addr reflect.Value
-	if kind == reflect.Ptr {
-		addr = v
-	} else if v.CanAddr() {
+	if kind != reflect.Ptr && v.CanAddr() {
 		addr = v.Addr()
 	}
 	if addr.IsValid() && addr.Type().NumMethod() > 0 && addr.CanInterface() {
diff --git a/beserial/encode.go b/beserial/encode.go
index 38834e3..3d24b52 100644
--- a/beserial/encode.go
+++ b/beserial/encode.go
@@ -27,9 +27,7 @@ func marshal(v reflect.Value, b []byte, ts tags) ([]byte, error) {
 	kind := v.Kind()
 	// Check for MarshalBESerial implementation.
 	var addr reflect.Value
-	if kind == reflect.Ptr {
-		addr = v
-	} else if v.CanAddr() {
+	if kind != reflect.Ptr && v.CanAddr() {
 		addr = v.Addr()
 	}
 	if addr.IsValid() && addr.Type().NumMethod() > 0 && addr.CanInterface() {
-- 
2.43.0


From fa9893691500ea183eca0c7aac3f1ce913110fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:11 +0000
Subject: [PATCH 05/36] fix: allow combining struct tag options

A len_tag combined with optional panicked, because the whole
tag was parsed instead of the option.
---
 beserial/tags.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/beserial/tags.go b/beserial/tags.go
index be863de..bb82444 100644
--- a/beserial/tags.go
+++ b/beserial/tags.go
@@ -20,8 +20,8 @@ func (ts *tags) parse(tag string) {
 		switch {
 		case el == optional:
 			ts.optional = true
-		case strings.HasPrefix(tag, lenTag):
-			switch tag[len(lenTag):] {
+		case strings.HasPrefix(el, lenTag):
+			switch el[len(lenTag):] {
 			case "uint8":
 				ts.lenTag = reflect.Uint8
 			case "uint16":
@@ -31,7 +31,7 @@ func (ts *tags) parse(tag string) {
 			case "uint64":
 				ts.lenTag = reflect.Uint64
 			default:
-				panic("beserial: invalid len_tag: " + lenTag)
+				panic("beserial: invalid len_tag: " + el)
 			}
 		default:
 			panic("beserial: unknown struct tag option: " + el)
-- 
2.43.0


From 4b09b4b834fd2f038b629944149e3a9a56138005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:46 +0000
Subject: [PATCH 06/36] fix: handle arrays and slices of named byte types

Decoding an array of a named byte type panicked in reflect.Copy,
and a custom codec of the element type was ignored.
---
 beserial/decode.go | 8 ++++++--
 beserial/encode.go | 4 ++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/beserial/decode.go b/beserial/decode.go
index 325372f..e46fd13 100644
--- a/beserial/decode.go
+++ b/beserial/decode.go
@@ -40,6 +40,10 @@ type Unmarshaler interface {
 	UnmarshalBESerial([]byte) (int, error)
 }
 
+// byteType is the element type of arrays and slices that can be copied as a whole.
+// Other types of the same kind may have their own codec.
+var byteType = reflect.TypeOf(byte(0))
+
 type decodeState struct {
 	data []byte
 }
@@ -103,7 +107,7 @@ func (d *decodeState) value(v reflect.Value, ts tags) error {
 		return d.value(ptrV.Elem(), ts)
 	case reflect.Array:
 		typ := v.Type()
-		if typ.Elem().Kind() == reflect.Uint8 {
+		if typ.Elem() == byteType {
 			// Byte arrays can be copied.
 			b, err := d.pop(typ.Len())
 			if err != nil {
@@ -143,7 +147,7 @@ func (d *decodeState) value(v reflect.Value, ts tags) error {
 				return err
 			}
 			v.SetString(string(b))
-		} else if typ.Elem().Kind() == reflect.Uint8 {
+		} else if typ.Elem() == byteType {
 			// Byte slices can be copied.
 			b, err := d.pop(int(u))
 			if err != nil {
diff --git a/beserial/encode.go b/beserial/encode.go
index 3d24b52..10cdae9 100644
--- a/beserial/encode.go
+++ b/beserial/encode.go
@@ -52,7 +52,7 @@ func marshal(v reflect.Value, b []byte, ts tags) ([]byte, error) {
 		return marshal(v.Elem(), b, ts)
 	case reflect.Array:
 		typ := v.Type()
-		if typ.Elem().Kind() == reflect.Uint8 {
+		if typ.Elem() == byteType {
 			// Byte arrays can be copied.
 			b = append(b, v.Slice(0, typ.Len()).Bytes()...)
 		} else {
@@ -75,7 +75,7 @@ func marshal(v reflect.Value, b []byte, ts tags) ([]byte, error) {
 		typ := v.Type()
 		if kind == reflect.String {
 			b = append(b, []byte(v.String())...)
-		} else if typ.Elem().Kind() == reflect.Uint8 {
+		} else if typ.Elem() == byteType {
 			b = append(b, v.Bytes()...)
 		} else {
 			for i := 0; i < size; i++ {
-- 
2.43.0


From 7e35dddb55d0f96857479b8f3e8336b88dc854d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:47 +0000
Subject: [PATCH 07/36] fix: size booleans and types with a custom codec

Size ignored custom codecs and did not know booleans, so it
disagreed with Marshal or failed on values that can be encoded.
---
 beserial/size.go | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/beserial/size.go b/beserial/size.go
index 7795490..995e3d2 100644
--- a/beserial/size.go
+++ b/beserial/size.go
@@ -18,6 +18,15 @@ func Size(v interface{}) (int, error) {
 
 func valueSize(v reflect.Value, ts tags) (total int, err error) {
 	kind := v.Kind()
+	// Check for SizeBESerial implementation.
+	if kind != reflect.Ptr && v.CanAddr() {
+		addr := v.Addr()
+		if addr.Type().NumMethod() > 0 && addr.CanInterface() {
+			if u, ok := addr.Interface().(Marshaler); ok {
+				return u.SizeBESerial()
+			}
+		}
+	}
 	switch kind {
 	case reflect.Ptr:
 		if ts.optional {
@@ -37,7 +46,7 @@ func valueSize(v reflect.Value, ts tags) (total int, err error) {
 		total += elem
 	case reflect.Array:
 		typ := v.Type()
-		if elemSize, ok := sizeNumber(typ.Elem().Kind()); ok {
+		if elemSize, ok := sizeElem(typ.Elem()); ok {
 			total = typ.Len() * elemSize
 		} else {
 			for i := 0; i < typ.Len(); i++ {
@@ -57,7 +66,7 @@ func valueSize(v reflect.Value, ts tags) (total int, err error) {
 		total += tagLen
 		if kind == reflect.String {
 			total += v.Len()
-		} else if elemSize, ok := sizeNumber(typ.Elem().Kind()); ok {
+		} else if elemSize, ok := sizeElem(typ.Elem()); ok {
 			total += v.Len() * elemSize
 		} else {
 			for i := 0; i < v.Len(); i++ {
@@ -83,6 +92,8 @@ func valueSize(v reflect.Value, ts tags) (total int, err error) {
 			}
 			total += elemSize
 		}
+	case reflect.Bool:
+		total++
 	default:
 		tagSize, ok := sizeNumber(kind)
 		if !ok {
@@ -93,6 +104,15 @@ func valueSize(v reflect.Value, ts tags) (total int, err error) {
 	return
 }
 
+// sizeElem returns the size of array or slice elements
+// if all values of their type have the same size.
+func sizeElem(typ reflect.Type) (n int, ok bool) {
+	if reflect.PtrTo(typ).NumMethod() > 0 {
+		return 0, false // might have a custom codec
+	}
+	return sizeNumber(typ.Kind())
+}
+
 func sizeNumber(kind reflect.Kind) (n int, ok bool) {
 	switch kind {
 	case reflect.Int8, reflect.Uint8:
-- 
2.43.0


From 0446f8706f10df094a44200b9b567330d66ab98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:19 +0000
Subject: [PATCH 08/36] fix: read interlink hashes from their own position

Every hash was read 32 bytes too late, so the first one was lost
and the last one taken from the data behind the interlink.
---
 wire/block.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wire/block.go b/wire/block.go
index 4d64ac4..07ae67c 100644
--- a/wire/block.go
+++ b/wire/block.go
@@ -74,8 +74,8 @@ func (il *BlockInterlink) UnmarshalBESerial(b []byte) (n int, err error) {
 			if len(b) < len(hash) {
 				return 0, fmt.Errorf("failed to read hash: %w", beserial.ErrUnexpectedEOF)
 			}
-			b = b[len(hash):]
 			copy(hash[:], b)
+			b = b[len(hash):]
 		}
 		// Save pointer to last hash
 		il.Hashes[i] = hash
-- 
2.43.0


From aef77c9be280c07c9eba08ea755fe0a30e9fe908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:20 +0000
Subject: [PATCH 09/36] fix: do not count padding bits as interlink hashes

The bits behind the last repeat bit produced additional all-zero
hashes that were written out again on encoding.
---
 wire/block.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wire/block.go b/wire/block.go
index 07ae67c..1cbdc04 100644
--- a/wire/block.go
+++ b/wire/block.go
@@ -80,6 +80,8 @@ func (il *BlockInterlink) UnmarshalBESerial(b []byte) (n int, err error) {
 		// Save pointer to last hash
 		il.Hashes[i] = hash
 	}
+	// The padding bits behind the last repeat bit stand for no hash.
+	il.Compressed = il.Compressed[:compressedIndex]
 	return len(orig) - len(b), nil
 }
 
-- 
2.43.0


From 26dd5afcd85b5e20c7298e9f50788564edc5bd73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:20 +0000
Subject: [PATCH 10/36] fix: do not overflow the byte count of large bit sets

Bit sets of 249 bits or more were read without their bytes,
and reading a bit of them panicked.
---
 wire/bitset.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wire/bitset.go b/wire/bitset.go
index 868ae81..489d909 100644
--- a/wire/bitset.go
+++ b/wire/bitset.go
@@ -19,13 +19,13 @@ func (bs *BitSet) UnmarshalBESerial(b []byte) (n int, err error) {
 	bs.Len = b[0]
 	b = b[1:]
 	// Read repeat bits
-	size := (bs.Len + 7) / 8 // ceil division
+	size := (int(bs.Len) + 7) / 8 // ceil division
 	bs.Bits = make([]byte, size)
 	if len(b) < len(bs.Bits) {
 		return 0, fmt.Errorf("reading bit set: %w", beserial.ErrUnexpectedEOF)
 	}
 	copy(bs.Bits, b)
-	return 1 + int(size), nil
+	return 1 + size, nil
 }
 
 func (bs *BitSet) MarshalBESerial(b []byte) ([]byte, error) {
-- 
2.43.0


From 5f05a49625acd0f970688d22422faa33b4dcb062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:21 +0000
Subject: [PATCH 11/36] fix: decode all net address types

The type was lost on decoding, and the types without an IP
could be encoded but not decoded.
---
 wire/p2p.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wire/p2p.go b/wire/p2p.go
index 87f2cc3..2df72a7 100644
--- a/wire/p2p.go
+++ b/wire/p2p.go
@@ -31,11 +31,14 @@ func (na *NetAddress) UnmarshalBESerial(b []byte) (n int, err error) {
 		return
 	}
 	b = b[n:]
+	na.Type = t
 	switch t {
 	case NetAddressIPv4:
 		na.IP = make([]byte, net.IPv4len)
 	case NetAddressIPv6:
 		na.IP = make([]byte, net.IPv6len)
+	case NetAddressUnspecified, NetAddressUnknown:
+		na.IP = nil
 	default:
 		return n, fmt.Errorf("invalid NetAddress type: 0x%x", t)
 	}
-- 
2.43.0


From d6510c373f3b6eea19bf538a917c2bda0e1701b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:22 +0000
Subject: [PATCH 12/36] fix: encode and decode the details of peer addresses

The codec was handed a pointer to the interface instead of the
details in it, so no peer address could be encoded or decoded.
---
 wire/p2p.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/wire/p2p.go b/wire/p2p.go
index 2df72a7..a5710da 100644
--- a/wire/p2p.go
+++ b/wire/p2p.go
@@ -115,12 +115,13 @@ func (pa *PeerAddress) UnmarshalBESerial(b []byte) (n int, err error) {
 	switch pa.Protocol {
 	case ProtocolDumb:
 		pa.Detail = nil
+		return
 	case ProtocolWS, ProtocolWSS:
 		pa.Detail = new(PeerAddressSrv)
 	default:
 		return n, fmt.Errorf("unknown protocol: 0x%x", pa.Protocol)
 	}
-	sub, err = beserial.Unmarshal(b, &pa.Detail)
+	sub, err = beserial.Unmarshal(b, pa.Detail)
 	n += sub
 	b = b[sub:]
 	if err != nil {
@@ -135,7 +136,14 @@ func (pa *PeerAddress) MarshalBESerial(b []byte) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	return beserial.Marshal(b, &pa.Detail)
+	switch pa.Protocol {
+	case ProtocolDumb:
+		return b, nil
+	case ProtocolWS, ProtocolWSS:
+		return beserial.Marshal(b, pa.Detail)
+	default:
+		return nil, fmt.Errorf("unknown protocol: 0x%x", pa.Protocol)
+	}
 }
 
 func (pa *PeerAddress) SizeBESerial() (n int, err error) {
@@ -145,7 +153,14 @@ func (pa *PeerAddress) SizeBESerial() (n int, err error) {
 		return 0, err
 	}
 	n += sub
-	sub, err = beserial.Size(&pa.Detail)
+	switch pa.Protocol {
+	case ProtocolDumb:
+		return n, nil
+	case ProtocolWS, ProtocolWSS:
+		sub, err = beserial.Size(pa.Detail)
+	default:
+		err = fmt.Errorf("unknown protocol: 0x%x", pa.Protocol)
+	}
 	if err != nil {
 		return 0, err
 	}
-- 
2.43.0


From 200ef15f5255023a5c733f5168d1702af953ae96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:23 +0000
Subject: [PATCH 13/36] fix: encode and decode empty messages

Empty messages are not pointers and were refused by the codec.
---
 wire/msg_types.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/wire/msg_types.go b/wire/msg_types.go
index 6b56779..15c1e28 100644
--- a/wire/msg_types.go
+++ b/wire/msg_types.go
@@ -94,7 +94,11 @@ func UnmarshalMessage(msgType uint64, buf []byte) (m Message, err error) {
 		return nil, UnknownMessageError(msgType)
 	}
 	var n int
-	n, err = beserial.Unmarshal(buf, m)
+	if empty, ok := m.(EmptyMessage); ok {
+		n, err = empty.UnmarshalBESerial(buf)
+	} else {
+		n, err = beserial.Unmarshal(buf, m)
+	}
 	if err != nil {
 		return nil, err
 	}
@@ -106,6 +110,11 @@ func UnmarshalMessage(msgType uint64, buf []byte) (m Message, err error) {
 
 // MarshalMessage encodes the message to beserial and prefixes the message type ID.
 func MarshalMessage(m Message) (final []byte, err error) {
+	if empty, ok := m.(EmptyMessage); ok {
+		final = make([]byte, 8)
+		binary.BigEndian.PutUint64(final, empty.Type())
+		return final, nil
+	}
 	size, err := beserial.Size(m)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 8a327708b226906d983e987ace8427a37459a6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:24 +0000
Subject: [PATCH 14/36] fix: encode and decode inventory messages

The vectors had no length tag, and the message type was taken
for a part of the body.
---
 wire/msg_inv.go | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/wire/msg_inv.go b/wire/msg_inv.go
index 9a8c5cd..506720f 100644
--- a/wire/msg_inv.go
+++ b/wire/msg_inv.go
@@ -1,5 +1,7 @@
 package wire
 
+import "terorie.dev/nimiq/beserial"
+
 type InvVector struct {
 	Type uint32
 	Hash [32]byte
@@ -14,15 +16,39 @@ const (
 
 const VectorsMaxCount = 1000
 
+// InvMessage is a list of inventory vectors.
+// Its message type is not part of the message body.
 type InvMessage struct {
 	MessageType uint64
 	Vectors     []InvVector
 }
 
+type invMessageBody struct {
+	Vectors []InvVector `beserial:"len_tag=uint16"`
+}
+
 func (m *InvMessage) Type() uint64 {
 	return m.MessageType
 }
 
+// UnmarshalBESerial unmarshals the message body.
+func (m *InvMessage) UnmarshalBESerial(b []byte) (n int, err error) {
+	var body invMessageBody
+	n, err = beserial.Unmarshal(b, &body)
+	m.Vectors = body.Vectors
+	return
+}
+
+// MarshalBESerial marshals the message body.
+func (m *InvMessage) MarshalBESerial(b []byte) ([]byte, error) {
+	return beserial.Marshal(b, &invMessageBody{m.Vectors})
+}
+
+// SizeBESerial returns the size of the message body.
+func (m *InvMessage) SizeBESerial() (int, error) {
+	return beserial.Size(&invMessageBody{m.Vectors})
+}
+
 type GetAddrMessage struct {
 	ProtocolMask uint8
 	ServiceMask  uint32
-- 
2.43.0


From 357eb909c837969cbeebf0d2cb396d6e8d86942d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:25 +0000
Subject: [PATCH 15/36] fix: support the remaining message types

Transaction proof requests had no length tag, they and receipt
requests could not be decoded, and header messages claimed the
type of block messages.
---
 wire/msg_inv.go   | 4 ++--
 wire/msg_types.go | 4 ++++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/wire/msg_inv.go b/wire/msg_inv.go
index 506720f..b163121 100644
--- a/wire/msg_inv.go
+++ b/wire/msg_inv.go
@@ -76,7 +76,7 @@ func (m *GetBlocksMessage) Type() uint64 {
 
 type GetTxProofMessage struct {
 	BlockHash [32]byte
-	Addresses [][20]byte
+	Addresses [][20]byte `beserial:"len_tag=uint16"`
 }
 
 func (m *GetTxProofMessage) Type() uint64 {
@@ -113,5 +113,5 @@ type HeaderMessage struct {
 }
 
 func (m *HeaderMessage) Type() uint64 {
-	return MessageBlock
+	return MessageHeader
 }
diff --git a/wire/msg_types.go b/wire/msg_types.go
index 15c1e28..9d43239 100644
--- a/wire/msg_types.go
+++ b/wire/msg_types.go
@@ -84,6 +84,10 @@ func UnmarshalMessage(msgType uint64, buf []byte) (m Message, err error) {
 		m = &BasePingMessage{Pong: true}
 	case MessageGetChainProof:
 		m = GetChainProofMessage
+	case MessageGetTxProof:
+		m = new(GetTxProofMessage)
+	case MessageGetTxReceipts:
+		m = new(GetTxReceiptsMessage)
 	case MessageGetHead:
 		m = GetHeadMessage
 	case MessageHead:
-- 
2.43.0


From 8a44b6ad88fdc64f902770a4b1dcea34707c369d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:59 +0000
Subject: [PATCH 16/36] fix: do not let basic account balances wrap around

A value and fee whose sum overflows could be spent from any
balance, and an incoming value could wrap the balance around.
---
 wire/account.go | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/wire/account.go b/wire/account.go
index ec3bb20..d232303 100644
--- a/wire/account.go
+++ b/wire/account.go
@@ -2,6 +2,8 @@ package wire
 
 import (
 	"fmt"
+	"math"
+	"math/bits"
 	"strconv"
 
 	"golang.org/x/crypto/blake2b"
@@ -102,6 +104,18 @@ func (o *OverspendError) Error() string {
 	return fmt.Sprintf("trying to spend %d but only has %d", o.Spend, o.Available)
 }
 
+// spend subtracts the value and fee of a transaction from a balance.
+func spend(balance, value, fee uint64) (uint64, error) {
+	amount, carry := bits.Add64(value, fee, 0)
+	if carry != 0 {
+		amount = math.MaxUint64
+	}
+	if carry != 0 || amount > balance {
+		return 0, &OverspendError{Available: balance, Spend: amount}
+	}
+	return balance - amount, nil
+}
+
 // A BasicAccount is a simple account that can hold funds (balance)
 // and is controlled by an Ed25519 private key.
 // https://nimiq-network.github.io/developer-reference/chapters/accounts-and-contracts.html#basic-account
@@ -128,17 +142,21 @@ func (a *BasicAccount) Init(tx Tx, height uint32, prevBalance uint64) error {
 // ApplyOutgoingTx removes the transaction value and fee from the account.
 func (a *BasicAccount) ApplyOutgoingTx(tx Tx, _ uint32) (Account, error) {
 	value, fee := tx.Amount()
-	amount := value + fee
-	if amount > a.Value {
-		return nil, &OverspendError{Available: a.Value, Spend: amount}
+	newValue, err := spend(a.Value, value, fee)
+	if err != nil {
+		return nil, err
 	}
-	return &BasicAccount{Value: a.Value - amount}, nil
+	return &BasicAccount{Value: newValue}, nil
 }
 
 // ApplyIncomingTx adds the transaction value to the account.
 func (a *BasicAccount) ApplyIncomingTx(tx Tx, _ uint32) (Account, error) {
 	value, _ := tx.Amount()
-	return &BasicAccount{Value: a.Value + value}, nil
+	newValue, carry := bits.Add64(a.Value, value, 0)
+	if carry != 0 {
+		return nil, fmt.Errorf("balance overflow: receiving %d on top of %d", value, a.Value)
+	}
+	return &BasicAccount{Value: newValue}, nil
 }
 
 // A VestingAccount allows money to be spent in a scheduled way.
-- 
2.43.0


From 25a76e7d5f22bb3180297feadcaa5cc649459e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:00 +0000
Subject: [PATCH 17/36] fix: release vesting funds as scheduled

The unlocked amount was compared with each single transaction,
so it could be spent again and again, even beyond the balance.
It was also not limited to whole steps, and fees were not charged.
---
 wire/account.go | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/wire/account.go b/wire/account.go
index d232303..bbc8bf3 100644
--- a/wire/account.go
+++ b/wire/account.go
@@ -242,13 +242,15 @@ func (c *VestingAccount) Init(tx Tx, _ uint32, balance uint64) error {
 
 // ApplyOutgoingTx removes the transaction value and fee from the account.
 func (c *VestingAccount) ApplyOutgoingTx(tx Tx, height uint32) (Account, error) {
-	unlocked := c.amountUnlocked(height)
 	// Check transaction amount.
 	extTx := tx.(*ExtendedTx)
-	if extTx.Value > unlocked {
-		return nil, &OverspendError{Available: unlocked, Spend: extTx.Value}
+	newValue, err := spend(c.Value, extTx.Value, extTx.Fee)
+	if err != nil {
+		return nil, err
+	}
+	if locked := c.amountLocked(height); newValue < locked {
+		return nil, fmt.Errorf("vesting contract must keep a balance of %d but would have %d left", locked, newValue)
 	}
-	newValue := c.Value - extTx.Value
 	// Verify transaction was signed by contract owner.
 	var proof SignatureProof
 	if err := beserial.UnmarshalFull(extTx.Proof, &proof); err != nil {
@@ -269,17 +271,21 @@ func (c *VestingAccount) ApplyIncomingTx(tx Tx, _ uint32) (Account, error) {
 	panic("not implemented")
 }
 
-func (c *VestingAccount) amountUnlocked(height uint32) uint64 {
-	if height <= c.VestingStart {
-		return 0 // cannot spend funds before vesting start
-	}
+// amountLocked returns the balance that has to stay in the contract.
+func (c *VestingAccount) amountLocked(height uint32) uint64 {
 	if c.VestingStepBlocks == 0 || c.VestingStepAmount == 0 {
-		return c.Value // unlock immediately
+		return 0 // unlock immediately
+	}
+	if height <= c.VestingStart {
+		return c.VestingTotalAmount // nothing unlocked before vesting start
 	}
 	// unlock step by step
-	progress := float64(height-c.VestingStart) / float64(c.VestingStepBlocks)
-	unlocked := uint64(progress * float64(c.VestingStepAmount))
-	return unlocked
+	steps := (height - c.VestingStart) / c.VestingStepBlocks
+	hi, unlocked := bits.Mul64(uint64(steps), c.VestingStepAmount)
+	if hi != 0 || unlocked >= c.VestingTotalAmount {
+		return 0
+	}
+	return c.VestingTotalAmount - unlocked
 }
 
 // An HTLCAccount (hashed time-locked contract)
-- 
2.43.0


From 5f189b64c1fc6d973e44f843ca5b648a354ab7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:01 +0000
Subject: [PATCH 18/36] fix: charge transaction fees to hashed-timelock
 contracts

---
 wire/account.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/wire/account.go b/wire/account.go
index bbc8bf3..3dd6418 100644
--- a/wire/account.go
+++ b/wire/account.go
@@ -347,8 +347,9 @@ func (h *HTLCAccount) Init(tx Tx, height uint32, prevBalance uint64) error {
 func (h *HTLCAccount) ApplyOutgoingTx(tx Tx, height uint32) (Account, error) {
 	// TODO use typed errors
 	ext := tx.(*ExtendedTx)
-	if ext.Value > h.Value {
-		return nil, &OverspendError{Available: h.Value, Spend: ext.Value}
+	newValue, err := spend(h.Value, ext.Value, ext.Fee)
+	if err != nil {
+		return nil, err
 	}
 	// Read proof type.
 	if len(ext.Proof) == 0 {
@@ -420,7 +421,7 @@ func (h *HTLCAccount) ApplyOutgoingTx(tx Tx, height uint32) (Account, error) {
 	// Create copy.
 	updated := new(HTLCAccount)
 	*updated = *h
-	updated.Value -= ext.Value
+	updated.Value = newValue
 	return updated, nil
 }
 
-- 
2.43.0


From 3d31aa34aaf15a3d71d9ffc712648d0e4244d9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:02 +0000
Subject: [PATCH 19/36] fix: reject transfers into contracts instead of
 panicking

---
 wire/account.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/wire/account.go b/wire/account.go
index 3dd6418..aee7ff3 100644
--- a/wire/account.go
+++ b/wire/account.go
@@ -266,9 +266,9 @@ func (c *VestingAccount) ApplyOutgoingTx(tx Tx, height uint32) (Account, error)
 	return updated, nil
 }
 
-// ApplyIncomingTx adds the transaction value to the account.
+// ApplyIncomingTx always fails, because contracts cannot receive funds.
 func (c *VestingAccount) ApplyIncomingTx(tx Tx, _ uint32) (Account, error) {
-	panic("not implemented")
+	return nil, fmt.Errorf("vesting contracts cannot receive funds")
 }
 
 // amountLocked returns the balance that has to stay in the contract.
@@ -425,9 +425,9 @@ func (h *HTLCAccount) ApplyOutgoingTx(tx Tx, height uint32) (Account, error) {
 	return updated, nil
 }
 
-// ApplyIncomingTx adds the transaction value to the account.
+// ApplyIncomingTx always fails, because contracts cannot receive funds.
 func (h *HTLCAccount) ApplyIncomingTx(tx Tx, _ uint32) (Account, error) {
-	panic("not implemented")
+	return nil, fmt.Errorf("HTLCs cannot receive funds")
 }
 
 // AccountPruned marks the removal of an account from the state.
-- 
2.43.0


From b89061b92f430277367d239d390914e96e313ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:04 +0000
Subject: [PATCH 20/36] fix: reject basic transactions on contracts instead of
 panicking

---
 wire/account.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/wire/account.go b/wire/account.go
index aee7ff3..fd5fcd5 100644
--- a/wire/account.go
+++ b/wire/account.go
@@ -136,7 +136,7 @@ func (a *BasicAccount) IsEmpty() bool {
 }
 
 func (a *BasicAccount) Init(tx Tx, height uint32, prevBalance uint64) error {
-	panic("not implemented")
+	return fmt.Errorf("basic accounts cannot be created by a transaction")
 }
 
 // ApplyOutgoingTx removes the transaction value and fee from the account.
@@ -183,7 +183,10 @@ func (c *VestingAccount) IsEmpty() bool {
 }
 
 func (c *VestingAccount) Init(tx Tx, _ uint32, balance uint64) error {
-	ext := tx.(*ExtendedTx)
+	ext, ok := tx.(*ExtendedTx)
+	if !ok {
+		return fmt.Errorf("contracts require an extended transaction")
+	}
 	var err error
 	switch len(ext.Data) {
 	case 24:
@@ -243,7 +246,10 @@ func (c *VestingAccount) Init(tx Tx, _ uint32, balance uint64) error {
 // ApplyOutgoingTx removes the transaction value and fee from the account.
 func (c *VestingAccount) ApplyOutgoingTx(tx Tx, height uint32) (Account, error) {
 	// Check transaction amount.
-	extTx := tx.(*ExtendedTx)
+	extTx, ok := tx.(*ExtendedTx)
+	if !ok {
+		return nil, fmt.Errorf("contracts require an extended transaction")
+	}
 	newValue, err := spend(c.Value, extTx.Value, extTx.Fee)
 	if err != nil {
 		return nil, err
@@ -316,7 +322,10 @@ func (h *HTLCAccount) IsEmpty() bool {
 
 func (h *HTLCAccount) Init(tx Tx, height uint32, prevBalance uint64) error {
 	// TODO use typed errors
-	ext := tx.(*ExtendedTx)
+	ext, ok := tx.(*ExtendedTx)
+	if !ok {
+		return fmt.Errorf("contracts require an extended transaction")
+	}
 	var params struct {
 		Sender    [20]byte
 		Recipient [20]byte
@@ -346,7 +355,10 @@ func (h *HTLCAccount) Init(tx Tx, height uint32, prevBalance uint64) error {
 // ApplyOutgoingTx removes the transaction value and fee from the account.
 func (h *HTLCAccount) ApplyOutgoingTx(tx Tx, height uint32) (Account, error) {
 	// TODO use typed errors
-	ext := tx.(*ExtendedTx)
+	ext, ok := tx.(*ExtendedTx)
+	if !ok {
+		return nil, fmt.Errorf("contracts require an extended transaction")
+	}
 	newValue, err := spend(h.Value, ext.Value, ext.Fee)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 8ddcfb63168a71bdb43de7857a5b207ccb636b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:20 +0000
Subject: [PATCH 21/36] fix: make overlay stores writable

There was no way to create an overlay store with a diffs map,
so every change panicked.
---
 tree/store_overlay.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/tree/store_overlay.go b/tree/store_overlay.go
index 9559798..f77dc27 100644
--- a/tree/store_overlay.go
+++ b/tree/store_overlay.go
@@ -19,12 +19,19 @@ func (o *OverlayStore) GetNode(nbs Nibbles) Node {
 
 // PutNode puts a node in the overlay without affecting the lower store.
 func (o *OverlayStore) PutNode(nbs Nibbles, node Node) {
-	o.diffs[string(nbs)] = node
+	o.put(nbs, node)
 }
 
 // DelNode marks a deletion in the overlay without affecting the lower store.
 func (o *OverlayStore) DelNode(nbs Nibbles) {
-	o.diffs[string(nbs)] = nil
+	o.put(nbs, nil)
+}
+
+func (o *OverlayStore) put(nbs Nibbles, node Node) {
+	if o.diffs == nil {
+		o.diffs = make(map[string]Node)
+	}
+	o.diffs[string(nbs)] = node
 }
 
 // Flush clears and writes down the in-memory overlay to the lower layer.
-- 
2.43.0


From 1d050e9cebe6d65c726046b94c83bc02bcec7344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:21 +0000
Subject: [PATCH 22/36] fix: keep overlay changes out of the lower store

The tree changed branches of the lower store in place, so its
root hash changed before the overlay was flushed.
---
 tree/node.go | 7 +++++++
 tree/tree.go | 6 ++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/tree/node.go b/tree/node.go
index 248099e..f97f79f 100644
--- a/tree/node.go
+++ b/tree/node.go
@@ -17,6 +17,13 @@ type Branch struct {
 	Children [16]Child
 }
 
+// clone copies the branch. Nodes in a store must not be changed in place,
+// since a store may be read through by others.
+func (n *Branch) clone() *Branch {
+	c := *n
+	return &c
+}
+
 // PutChild sets the child to the hash of another node.
 func (n *Branch) PutChild(suffix Nibbles, hash [32]byte) {
 	n.Children[suffix[0]] = Child{
diff --git a/tree/tree.go b/tree/tree.go
index 442814e..15ef147 100644
--- a/tree/tree.go
+++ b/tree/tree.go
@@ -112,7 +112,8 @@ func (t *PMTree) update(nodePrefix, prefix Nibbles, value []byte, rootPath []Nod
 		return
 	}
 	// Node prefix matches, but branch reached. Descend.
-	node := t.Store.GetNode(nodePrefix).(*Branch)
+	node := t.Store.GetNode(nodePrefix).(*Branch).clone()
+	t.Store.PutNode(nodePrefix, node)
 	targetChild := node.Children[prefix[len(node.Prefix)]]
 	if targetChild.Exists {
 		// Child entry already exists where we would descend to.
@@ -175,7 +176,7 @@ func (t *PMTree) prune(prefix Nibbles, path []Node) {
 			//  [Branch 1 (nChildren = X)] => [Node X]
 			// Pruning finishes, defer to the non-pruning recursive algorithm to update the path.
 			t.Store.DelNode(node.Prefix)
-			t.invalidatePath(append(node.Prefix, children[0].Suffix...), path)
+			t.invalidatePath(append(node.Prefix[:len(node.Prefix):len(node.Prefix)], children[0].Suffix...), path)
 			return
 		} else if len(children) > 0 || len(node.Prefix) == 0 {
 			// Nothing to be deleted, use non-pruning code path.
@@ -194,6 +195,7 @@ func (t *PMTree) updateHashes(prefix Nibbles) [32]byte {
 	case *Leaf:
 		return n.Hash()
 	case *Branch:
+		n = n.clone()
 		for i := range n.Children {
 			if !n.Children[i].Exists {
 				continue
-- 
2.43.0


From 5f222f121bc3f11d62f0c5678ad650fd532c4ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:52 +0000
Subject: [PATCH 23/36] fix: reject incomplete blocks instead of panicking

A block without a body or with height zero crashed the node.
---
 accounts/accounts.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/accounts/accounts.go b/accounts/accounts.go
index c807268..1180f7b 100644
--- a/accounts/accounts.go
+++ b/accounts/accounts.go
@@ -37,6 +37,9 @@ func NewAccounts(tree *tree.PMTree) *Accounts {
 
 // Push pushes a new block to the state.
 func (a *Accounts) Push(block *wire.Block) error {
+	if err := checkBlock(block); err != nil {
+		return err
+	}
 	if err := a.pushSenders(block, func(acc wire.Account, tx wire.Tx, height uint32) (wire.Account, error) {
 		return acc.ApplyOutgoingTx(tx, height)
 	}); err != nil {
@@ -59,6 +62,22 @@ func (a *Accounts) Push(block *wire.Block) error {
 	return nil
 }
 
+// checkBlock rejects blocks that lack what is needed to apply them.
+func checkBlock(block *wire.Block) error {
+	if block.Header.Height < 1 {
+		return fmt.Errorf("invalid block height: %d", block.Header.Height)
+	}
+	if block.Body == nil {
+		return fmt.Errorf("missing block body")
+	}
+	for i, tx := range block.Body.Txs {
+		if tx.Tx == nil {
+			return fmt.Errorf("missing transaction %d", i)
+		}
+	}
+	return nil
+}
+
 // Revert undoes all changes a block does to the state.
 // It is has the exact inverse effects of Push.
 func (a *Accounts) Revert(block *wire.Block) error {
-- 
2.43.0


From c0d4962f00eb17ea93593d7f0cfbf8a54730163e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:53 +0000
Subject: [PATCH 24/36] fix: leave no trace of rejected blocks

A block failing in a late phase kept the changes of the phases
before, so a rejected block changed balances and the state root.
---
 accounts/accounts.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/accounts/accounts.go b/accounts/accounts.go
index 1180f7b..53947cc 100644
--- a/accounts/accounts.go
+++ b/accounts/accounts.go
@@ -36,10 +36,22 @@ func NewAccounts(tree *tree.PMTree) *Accounts {
 }
 
 // Push pushes a new block to the state.
+// If an error is returned, the state is the same as before.
 func (a *Accounts) Push(block *wire.Block) error {
 	if err := checkBlock(block); err != nil {
 		return err
 	}
+	// Stage all changes until the block is known to be valid.
+	overlay := &tree.OverlayStore{Lower: a.Tree.Store}
+	staged := NewAccounts(&tree.PMTree{Store: overlay})
+	if err := staged.push(block); err != nil {
+		return err
+	}
+	overlay.Flush()
+	return nil
+}
+
+func (a *Accounts) push(block *wire.Block) error {
 	if err := a.pushSenders(block, func(acc wire.Account, tx wire.Tx, height uint32) (wire.Account, error) {
 		return acc.ApplyOutgoingTx(tx, height)
 	}); err != nil {
-- 
2.43.0


From 84b70631a00fab6dea62e9f8620b96efa627185c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:53 +0000
Subject: [PATCH 25/36] fix: do not let the sum of fees wrap around

---
 accounts/accounts.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/accounts/accounts.go b/accounts/accounts.go
index 53947cc..89d72e5 100644
--- a/accounts/accounts.go
+++ b/accounts/accounts.go
@@ -4,6 +4,7 @@ package accounts
 import (
 	"encoding/hex"
 	"fmt"
+	"math/bits"
 
 	"terorie.dev/nimiq/address"
 	"terorie.dev/nimiq/policy"
@@ -170,7 +171,11 @@ func (a *Accounts) pushInherents(block *wire.Block) error {
 	reward = policy.BlockReward(block.Header.Height)
 	for _, tx := range block.Body.Txs {
 		_, fee := tx.Tx.Amount()
-		reward += fee
+		var carry uint64
+		reward, carry = bits.Add64(reward, fee, 0)
+		if carry != 0 {
+			return fmt.Errorf("sum of reward and fees overflows")
+		}
 	}
 	coinbase := wire.BasicTx{
 		Recipient:           block.Body.MinerAddr,
-- 
2.43.0


From 896d666108d69de3deb6195aa3c8aa1cff783759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:54 +0000
Subject: [PATCH 26/36] fix: reject duplicate entries in the prune list

Only the last entry of an address was compared with the account,
so a block could misquote a pruned account in an earlier one.
---
 accounts/accounts.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/accounts/accounts.go b/accounts/accounts.go
index 89d72e5..656d856 100644
--- a/accounts/accounts.go
+++ b/accounts/accounts.go
@@ -199,6 +199,12 @@ func (a *Accounts) pruneAccounts(block *wire.Block) error {
 	// if they were correctly pruned and if accounts were missed.
 	pruned := make(map[[20]byte]wire.Account)
 	for _, acc := range block.Body.Pruned {
+		if _, ok := pruned[acc.Address]; ok {
+			return &InvalidPruneError{
+				address: acc.Address,
+				error:   fmt.Errorf("listed more than once in prune list"),
+			}
+		}
 		pruned[acc.Address] = acc.Account.Account
 	}
 	// For each transaction that prunes an account,
-- 
2.43.0


From 0375db19dc3f1ec2127447aa9ef7866b0789d1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:55 +0000
Subject: [PATCH 27/36] fix: require both letters of the address country code

---
 address/address.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/address/address.go b/address/address.go
index b712bdf..0b53b23 100644
--- a/address/address.go
+++ b/address/address.go
@@ -33,7 +33,7 @@ func Decode(encoded string) (addr [20]byte, err error) {
 		return
 	}
 	// Verify string: Country code
-	if compact[0] != 'N' && compact[1] != 'Q' {
+	if compact[0] != 'N' || compact[1] != 'Q' {
 		err = ErrInvalidCountryCode
 		return
 	}
-- 
2.43.0


From 8c6cf49e4de2369635a337d54fdcd9b9a80ec3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:56 +0000
Subject: [PATCH 28/36] fix: ignore spaces at the end of an address

---
 address/address.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/address/address.go b/address/address.go
index 0b53b23..845b9c0 100644
--- a/address/address.go
+++ b/address/address.go
@@ -107,18 +107,21 @@ func truncateWhitespace(encodedStr string) (compact [36]byte, err error) {
 			}
 			// All chars have been read, and there is no overflow.
 			return
-		} else if len(compactRemainder) == 0 {
+		}
+		// Read next char from input.
+		char := remainder[0]
+		remainder = remainder[1:]
+		if char == ' ' {
+			continue
+		}
+		if len(compactRemainder) == 0 {
 			// All address chars have been read, but there are some remaining (overflow).
 			err = ErrInvalidLength
 			return
 		}
-		// Read next char from input.
-		if char := remainder[0]; char != ' ' {
-			// Not a space, write to encoded.
-			compactRemainder[0] = char
-			compactRemainder = compactRemainder[1:]
-		}
-		remainder = remainder[1:]
+		// Not a space, write to encoded.
+		compactRemainder[0] = char
+		compactRemainder = compactRemainder[1:]
 	}
 }
 
-- 
2.43.0


From 0a681782f904b9e65dbb9e1f467b844f909e59b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:57 +0000
Subject: [PATCH 29/36] fix: make room for all nibbles when compressing them

Compressing an even or odd number of nibbles panicked.
---
 tree/store.go   | 2 +-
 wire/nibbles.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/tree/store.go b/tree/store.go
index ea149ab..983d678 100644
--- a/tree/store.go
+++ b/tree/store.go
@@ -36,7 +36,7 @@ func (nbs Nibbles) ToKey() (key [20]byte) {
 }
 
 func (nbs Nibbles) Compress() []byte {
-	buf := make([]byte, (len(nbs)-1)/2)
+	buf := make([]byte, (len(nbs)+1)/2)
 	for i, n := range nbs {
 		if i%2 == 0 {
 			buf[i/2] = n << 4
diff --git a/wire/nibbles.go b/wire/nibbles.go
index da2aa5a..a6598b5 100644
--- a/wire/nibbles.go
+++ b/wire/nibbles.go
@@ -29,7 +29,7 @@ func (nbs Nibbles) ToKey() (key [20]byte) {
 }
 
 func (nbs Nibbles) Compress() []byte {
-	buf := make([]byte, (len(nbs)-1)/2)
+	buf := make([]byte, (len(nbs)+1)/2)
 	for i, n := range nbs {
 		if i%2 == 0 {
 			buf[i/2] = n << 4
-- 
2.43.0


From f8831debfff735193bb936281ada33165341dca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:20 +0000
Subject: [PATCH 30/36] fix: convert short targets to compact form

Targets of less than three bytes panicked or lost the
padding byte that keeps the top mantissa bit clear.
---
 wire/utils.go | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/wire/utils.go b/wire/utils.go
index bac51a3..3af53cd 100644
--- a/wire/utils.go
+++ b/wire/utils.go
@@ -12,15 +12,13 @@ func TargetToCompact(target big.Int) (compact uint32) {
 
 	// If the first (most significant) byte is
 	// greater than 127 (0x7f), prepend a zero byte.
-	if tgtBytes[0] >= 0x80 && len(tgtBytes) >= 3 {
-		compact |= uint32(len(tgtBytes)+1) << 24
-		compact |= uint32(tgtBytes[0]) << 8
-		compact |= uint32(tgtBytes[1])
-	} else {
-		compact |= uint32(len(tgtBytes)) << 24
-		compact |= uint32(tgtBytes[0]) << 16
-		compact |= uint32(tgtBytes[1]) << 8
-		compact |= uint32(tgtBytes[2])
+	if len(tgtBytes) > 0 && tgtBytes[0] >= 0x80 {
+		tgtBytes = append([]byte{0}, tgtBytes...)
+	}
+	compact |= uint32(len(tgtBytes)) << 24
+	// Bytes that a short target lacks are zero.
+	for i := 0; i < len(tgtBytes) && i < 3; i++ {
+		compact |= uint32(tgtBytes[i]) << (16 - 8*i)
 	}
 
 	return
-- 
2.43.0


From 03379ff61d3e9057fce495ac31db34cd07d0340f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:21 +0000
Subject: [PATCH 31/36] fix: give extended basic transactions a signature proof

The proof was the bare signature, which names no signer,
and shared memory with the basic transaction.
---
 wire/tx_basic.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/wire/tx_basic.go b/wire/tx_basic.go
index de22fd7..5c8f5b9 100644
--- a/wire/tx_basic.go
+++ b/wire/tx_basic.go
@@ -1,5 +1,7 @@
 package wire
 
+import "terorie.dev/nimiq/beserial"
+
 // BasicTx is a simple transaction moving NIM from one account to another.
 type BasicTx struct {
 	SenderPubKey        [32]byte
@@ -22,6 +24,13 @@ func (t *BasicTx) Amount() (value uint64, fee uint64) {
 
 // AsExtendedTx returns the extended equivalent of this basic tx.
 func (t *BasicTx) AsExtendedTx() ExtendedTx {
+	proof, err := beserial.Marshal(nil, &SignatureProof{
+		PublicKey: t.SenderPubKey,
+		Signature: t.Signature,
+	})
+	if err != nil {
+		panic(err) // fixed-size fields only
+	}
 	return ExtendedTx{
 		Sender:              PublicKeyToAddress(&t.SenderPubKey),
 		SenderType:          AccountBasic,
@@ -32,7 +41,7 @@ func (t *BasicTx) AsExtendedTx() ExtendedTx {
 		ValidityStartHeight: t.ValidityStartHeight,
 		Flags:               0,
 		Data:                nil,
-		Proof:               t.Signature[:],
+		Proof:               proof,
 		NetworkID:           t.NetworkID,
 	}
 }
-- 
2.43.0


From fea66828fb3640a46ff31ed7f383cc0c9f5305e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:22 +0000
Subject: [PATCH 32/36] fix: report missing transactions and accounts on
 encoding

Encoding a wrapper without content panicked.
---
 wire/account.go | 6 ++++++
 wire/tx.go      | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/wire/account.go b/wire/account.go
index fd5fcd5..afdf6e1 100644
--- a/wire/account.go
+++ b/wire/account.go
@@ -59,11 +59,17 @@ func (wa *WrapAccount) UnmarshalBESerial(buf []byte) (n int, err error) {
 }
 
 func (wa *WrapAccount) MarshalBESerial(b []byte) ([]byte, error) {
+	if wa.Account == nil {
+		return nil, fmt.Errorf("missing account")
+	}
 	b = append(b, wa.Account.Type())
 	return beserial.Marshal(b, wa.Account)
 }
 
 func (wa *WrapAccount) SizeBESerial() (n int, err error) {
+	if wa.Account == nil {
+		return 0, fmt.Errorf("missing account")
+	}
 	n = 1
 	var sub int
 	sub, err = beserial.Size(wa.Account)
diff --git a/wire/tx.go b/wire/tx.go
index d7d5509..8015714 100644
--- a/wire/tx.go
+++ b/wire/tx.go
@@ -58,12 +58,18 @@ func (wt *WrapTx) UnmarshalBESerial(buf []byte) (n int, err error) {
 
 // MarshalBESerial encodes the transaction to beserial with a type prefix.
 func (wt WrapTx) MarshalBESerial(b []byte) ([]byte, error) {
+	if wt.Tx == nil {
+		return nil, fmt.Errorf("missing transaction")
+	}
 	b = append(b, wt.Tx.Type())
 	return beserial.Marshal(b, wt.Tx)
 }
 
 // SizeBESerial returns the size of the type-prefixed transaction.
 func (wt WrapTx) SizeBESerial() (n int, err error) {
+	if wt.Tx == nil {
+		return 0, fmt.Errorf("missing transaction")
+	}
 	n = 1
 	var sub int
 	sub, err = beserial.Size(wt.Tx)
-- 
2.43.0


From 262a8cb5032844b198f73fca4d43cb2ab23ca310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:45 +0000
Subject: [PATCH 33/36] fix: reject the wildcard account type in transactions

---
 accounts/accounts.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/accounts/accounts.go b/accounts/accounts.go
index 656d856..3b555b7 100644
--- a/accounts/accounts.go
+++ b/accounts/accounts.go
@@ -87,6 +87,11 @@ func checkBlock(block *wire.Block) error {
 		if tx.Tx == nil {
 			return fmt.Errorf("missing transaction %d", i)
 		}
+		// Transactions may not use the wildcard type to evade type checks.
+		content := tx.Tx.AsTxContent()
+		if content.SenderType == wire.AccountUnknown || content.RecipientType == wire.AccountUnknown {
+			return fmt.Errorf("invalid account type in transaction %d", i)
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 252f52cd1c6e942a9143b1f2a1ce0fdb9319ae85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:50 +0000
Subject: [PATCH 34/36] fix: honour every key of the genesis configuration

---
 genesis/genesis.go | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/genesis/genesis.go b/genesis/genesis.go
index c82326d..d387594 100644
--- a/genesis/genesis.go
+++ b/genesis/genesis.go
@@ -3,6 +3,7 @@ package genesis
 
 import (
 	"embed"
+	"encoding/hex"
 	"fmt"
 	"io/fs"
 	"os"
@@ -36,6 +37,15 @@ type Config struct {
 	GenesisHash [32]byte
 }
 
+// configFile is the layout of the config TOML.
+type configFile struct {
+	NetworkID   uint8    `toml:"network_id"`
+	Name        string   `toml:"name"`
+	SeedPeers   []string `toml:"seed_peers"`
+	SeedLists   []string `toml:"seed_lists"`
+	GenesisHash string   `toml:"genesis_hash"`
+}
+
 // InitAccounts inserts the genesis accounts to the accounts tree.
 func (i *Profile) InitAccounts(a *accounts.Accounts) error {
 	for _, acc := range i.Accounts {
@@ -112,8 +122,25 @@ func readConfigFromFS(files fs.FS, path string) (conf *Config, err error) {
 		return nil, openErr
 	}
 	defer f.Close()
-	dec := toml.NewDecoder(f)
-	conf = new(Config)
-	err = dec.Decode(conf)
-	return
+	var file configFile
+	if err := toml.NewDecoder(f).Decode(&file); err != nil {
+		return nil, err
+	}
+	conf = &Config{
+		NetworkID: file.NetworkID,
+		Name:      file.Name,
+		SeedPeers: file.SeedPeers,
+		SeedLists: file.SeedLists,
+	}
+	if file.GenesisHash != "" {
+		hash, err := hex.DecodeString(file.GenesisHash)
+		if err != nil {
+			return nil, fmt.Errorf("invalid genesis hash: %w", err)
+		}
+		if len(hash) != len(conf.GenesisHash) {
+			return nil, fmt.Errorf("invalid genesis hash length: %d", len(hash))
+		}
+		copy(conf.GenesisHash[:], hash)
+	}
+	return conf, nil
 }
-- 
2.43.0


From 6bac563e0650d2fcc7c4fc0be615b51df5eee2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:55 +0000
Subject: [PATCH 35/36] fix: report bit sets, Merkle paths and interlinks whose
 parts disagree when encoding

---
 wire/bitset.go    | 14 ++++++++++++++
 wire/block.go     | 20 ++++++++++++++++++++
 wire/signature.go | 14 ++++++++++++++
 3 files changed, 48 insertions(+)

diff --git a/wire/bitset.go b/wire/bitset.go
index 489d909..086e56d 100644
--- a/wire/bitset.go
+++ b/wire/bitset.go
@@ -29,15 +29,29 @@ func (bs *BitSet) UnmarshalBESerial(b []byte) (n int, err error) {
 }
 
 func (bs *BitSet) MarshalBESerial(b []byte) ([]byte, error) {
+	if err := bs.check(); err != nil {
+		return nil, err
+	}
 	b = append(b, bs.Len)
 	b = append(b, bs.Bits...)
 	return b, nil
 }
 
 func (bs *BitSet) SizeBESerial() (n int, err error) {
+	if err := bs.check(); err != nil {
+		return 0, err
+	}
 	return 1 + len(bs.Bits), nil
 }
 
+// check returns an error if the bytes are not exactly those that hold Len bits.
+func (bs *BitSet) check() error {
+	if len(bs.Bits) != (int(bs.Len)+7)/8 {
+		return fmt.Errorf("bit set of %d bits in %d bytes", bs.Len, len(bs.Bits))
+	}
+	return nil
+}
+
 func (bs *BitSet) bit(i uint8) bool {
 	return bs.Bits[i/8]&(0x80>>(i%8)) != 0
 }
diff --git a/wire/block.go b/wire/block.go
index 1cbdc04..490033b 100644
--- a/wire/block.go
+++ b/wire/block.go
@@ -91,6 +91,9 @@ func (il *BlockInterlink) MarshalBESerial(b []byte) ([]byte, error) {
 	if err != nil {
 		return b, err
 	}
+	if err := il.check(); err != nil {
+		return nil, err
+	}
 	for i := 0; i < len(il.Compressed); i++ {
 		b = append(b, il.Compressed[i][:]...)
 	}
@@ -102,6 +105,23 @@ func (il *BlockInterlink) SizeBESerial() (n int, err error) {
 	if err != nil {
 		return
 	}
+	if err := il.check(); err != nil {
+		return 0, err
+	}
 	n += len(il.Compressed) * 32
 	return
 }
+
+// check returns an error if there is not one compressed hash per unset repeat bit.
+func (il *BlockInterlink) check() error {
+	unset := 0
+	for i := uint8(0); i < il.Repeats.Len; i++ {
+		if !il.Repeats.bit(i) {
+			unset++
+		}
+	}
+	if len(il.Compressed) != unset {
+		return fmt.Errorf("interlink with %d hashes instead of %d", len(il.Compressed), unset)
+	}
+	return nil
+}
diff --git a/wire/signature.go b/wire/signature.go
index 5737e1f..d393c7b 100644
--- a/wire/signature.go
+++ b/wire/signature.go
@@ -51,6 +51,9 @@ func (mp *MerklePath) MarshalBESerial(b []byte) ([]byte, error) {
 	if err != nil {
 		return b, err
 	}
+	if err := mp.check(); err != nil {
+		return nil, err
+	}
 	for _, hash := range mp.Hashes {
 		b = append(b, hash[:]...)
 	}
@@ -62,10 +65,21 @@ func (mp *MerklePath) SizeBESerial() (n int, err error) {
 	if err != nil {
 		return
 	}
+	if err := mp.check(); err != nil {
+		return 0, err
+	}
 	n += len(mp.Hashes) * 32
 	return
 }
 
+// check returns an error if the path does not have one node per branch.
+func (mp *MerklePath) check() error {
+	if len(mp.Hashes) != int(mp.Branches.Len) {
+		return fmt.Errorf("merkle path of %d branches with %d nodes", mp.Branches.Len, len(mp.Hashes))
+	}
+	return nil
+}
+
 func (mp *MerklePath) ComputeRoot(leafValue []byte) (root [32]byte) {
 	root = blake2b.Sum256(leafValue[:])
 	for i, hash := range mp.Hashes {
-- 
2.43.0


From d741bb608ce051af57bd3dc057be3dc5c666c462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:55 +0000
Subject: [PATCH 36/36] fix: encode IPv4 addresses in 4 bytes and report peer
 addresses that do not fit their kind

---
 wire/p2p.go | 47 +++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 43 insertions(+), 4 deletions(-)

diff --git a/wire/p2p.go b/wire/p2p.go
index a5710da..93daf8d 100644
--- a/wire/p2p.go
+++ b/wire/p2p.go
@@ -50,17 +50,40 @@ func (na *NetAddress) UnmarshalBESerial(b []byte) (n int, err error) {
 }
 
 func (na *NetAddress) MarshalBESerial(b []byte) ([]byte, error) {
+	ip, err := na.wireIP()
+	if err != nil {
+		return nil, err
+	}
 	b = append(b, na.Type)
-	b = append(b, na.IP...)
+	b = append(b, ip...)
 	return b, nil
 }
 
 func (na *NetAddress) SizeBESerial() (int, error) {
-	return na.sizeBESerial(), nil
+	ip, err := na.wireIP()
+	if err != nil {
+		return 0, err
+	}
+	return 1 + len(ip), nil
 }
 
-func (na *NetAddress) sizeBESerial() int {
-	return 1 + len(na.IP)
+// wireIP returns the IP bytes in the length that the address type requires.
+func (na *NetAddress) wireIP() (net.IP, error) {
+	ip, size := na.IP, 0
+	switch na.Type {
+	case NetAddressIPv4:
+		// The net package mostly keeps IPv4 addresses in 16 bytes.
+		ip, size = na.IP.To4(), net.IPv4len
+	case NetAddressIPv6:
+		size = net.IPv6len
+	case NetAddressUnspecified, NetAddressUnknown:
+	default:
+		return nil, fmt.Errorf("invalid NetAddress type: 0x%x", na.Type)
+	}
+	if len(ip) != size {
+		return nil, fmt.Errorf("invalid IP of %d bytes in NetAddress of type 0x%x", len(na.IP), na.Type)
+	}
+	return ip, nil
 }
 
 // PeerAddress contains an overview about a peer and how to reach it.
@@ -136,6 +159,9 @@ func (pa *PeerAddress) MarshalBESerial(b []byte) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	if err := pa.checkDetail(); err != nil {
+		return nil, err
+	}
 	switch pa.Protocol {
 	case ProtocolDumb:
 		return b, nil
@@ -153,6 +179,9 @@ func (pa *PeerAddress) SizeBESerial() (n int, err error) {
 		return 0, err
 	}
 	n += sub
+	if err := pa.checkDetail(); err != nil {
+		return 0, err
+	}
 	switch pa.Protocol {
 	case ProtocolDumb:
 		return n, nil
@@ -168,6 +197,16 @@ func (pa *PeerAddress) SizeBESerial() (n int, err error) {
 	return n, nil
 }
 
+// checkDetail returns an error if the protocol has another kind of detail.
+func (pa *PeerAddress) checkDetail() error {
+	_, srv := pa.Detail.(*PeerAddressSrv)
+	isSrv := pa.Protocol == ProtocolWS || pa.Protocol == ProtocolWSS
+	if srv != isSrv || (!srv && pa.Detail != nil) {
+		return fmt.Errorf("invalid detail %T for protocol 0x%x", pa.Detail, pa.Protocol)
+	}
+	return nil
+}
+
 // PeerID is an 128-bit identifier of a peer.
 type PeerID [16]byte
 
-- 
2.43.0

