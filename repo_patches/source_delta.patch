From eb90105616cf18e2dac3526a2b72cde98e49f016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:23 +0000
Subject: [PATCH 01/25] fix: decode 8, 16 and 32 bit sizes as unsigned

PackStream sizes are unsigned. Reading them as signed integers turned a
string, list, map or structure with 128..255 (or 32768..65535) elements
into a negative size, which panicked in bytes.Buffer.Next and make.
---
 encoding/encoding_v1/decoderV1.go | 22 +++++++++++-----------
 encoding/encoding_v2/decoderV2.go | 22 +++++++++++-----------
 2 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/encoding/encoding_v1/decoderV1.go b/encoding/encoding_v1/decoderV1.go
index d15066f..fdb5cdc 100644
--- a/encoding/encoding_v1/decoderV1.go
+++ b/encoding/encoding_v1/decoderV1.go
@@ -161,19 +161,19 @@ func (d DecoderV1) decode(buffer *bytes.Buffer) (interface{}, error) {
 		}
 		return string(buffer.Next(size)), nil
 	case marker == encode_consts.String8Marker:
-		var size int8
+		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
 		return string(buffer.Next(int(size))), nil
 	case marker == encode_consts.String16Marker:
-		var size int16
+		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
 		return string(buffer.Next(int(size))), nil
 	case marker == encode_consts.String32Marker:
-		var size int32
+		var size uint32
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
@@ -184,19 +184,19 @@ func (d DecoderV1) decode(buffer *bytes.Buffer) (interface{}, error) {
 		size := int(marker) - int(encode_consts.TinySliceMarker)
 		return d.decodeSlice(buffer, size)
 	case marker == encode_consts.Slice8Marker:
-		var size int8
+		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading slice size")
 		}
 		return d.decodeSlice(buffer, int(size))
 	case marker == encode_consts.Slice16Marker:
-		var size int16
+		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading slice size")
 		}
 		return d.decodeSlice(buffer, int(size))
 	case marker == encode_consts.Slice32Marker:
-		var size int32
+		var size uint32
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading slice size")
 		}
@@ -207,19 +207,19 @@ func (d DecoderV1) decode(buffer *bytes.Buffer) (interface{}, error) {
 		size := int(marker) - int(encode_consts.TinyMapMarker)
 		return d.decodeMap(buffer, size)
 	case marker == encode_consts.Map8Marker:
-		var size int8
+		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading map size")
 		}
 		return d.decodeMap(buffer, int(size))
 	case marker == encode_consts.Map16Marker:
-		var size int16
+		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading map size")
 		}
 		return d.decodeMap(buffer, int(size))
 	case marker == encode_consts.Map32Marker:
-		var size int32
+		var size uint32
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading map size")
 		}
@@ -230,13 +230,13 @@ func (d DecoderV1) decode(buffer *bytes.Buffer) (interface{}, error) {
 		size := int(marker) - int(encode_consts.TinyStructMarker)
 		return d.decodeStruct(buffer, size)
 	case marker == encode_consts.Struct8Marker:
-		var size int8
+		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading struct size")
 		}
 		return d.decodeStruct(buffer, int(size))
 	case marker == encode_consts.Struct16Marker:
-		var size int16
+		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading struct size")
 		}
diff --git a/encoding/encoding_v2/decoderV2.go b/encoding/encoding_v2/decoderV2.go
index 0641024..8f6965f 100644
--- a/encoding/encoding_v2/decoderV2.go
+++ b/encoding/encoding_v2/decoderV2.go
@@ -156,19 +156,19 @@ func (d DecoderV2) decode(buffer *bytes.Buffer) (interface{}, error) {
 		}
 		return string(buffer.Next(size)), nil
 	case marker == encode_consts.String8Marker:
-		var size int8
+		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
 		return string(buffer.Next(int(size))), nil
 	case marker == encode_consts.String16Marker:
-		var size int16
+		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
 		return string(buffer.Next(int(size))), nil
 	case marker == encode_consts.String32Marker:
-		var size int32
+		var size uint32
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
@@ -179,19 +179,19 @@ func (d DecoderV2) decode(buffer *bytes.Buffer) (interface{}, error) {
 		size := int(marker) - int(encode_consts.TinySliceMarker)
 		return d.decodeSlice(buffer, size)
 	case marker == encode_consts.Slice8Marker:
-		var size int8
+		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading slice size")
 		}
 		return d.decodeSlice(buffer, int(size))
 	case marker == encode_consts.Slice16Marker:
-		var size int16
+		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading slice size")
 		}
 		return d.decodeSlice(buffer, int(size))
 	case marker == encode_consts.Slice32Marker:
-		var size int32
+		var size uint32
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading slice size")
 		}
@@ -202,19 +202,19 @@ func (d DecoderV2) decode(buffer *bytes.Buffer) (interface{}, error) {
 		size := int(marker) - int(encode_consts.TinyMapMarker)
 		return d.decodeMap(buffer, size)
 	case marker == encode_consts.Map8Marker:
-		var size int8
+		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading map size")
 		}
 		return d.decodeMap(buffer, int(size))
 	case marker == encode_consts.Map16Marker:
-		var size int16
+		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading map size")
 		}
 		return d.decodeMap(buffer, int(size))
 	case marker == encode_consts.Map32Marker:
-		var size int32
+		var size uint32
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading map size")
 		}
@@ -225,13 +225,13 @@ func (d DecoderV2) decode(buffer *bytes.Buffer) (interface{}, error) {
 		size := int(marker) - int(encode_consts.TinyStructMarker)
 		return d.decodeStruct(buffer, size)
 	case marker == encode_consts.Struct8Marker:
-		var size int8
+		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading struct size")
 		}
 		return d.decodeStruct(buffer, int(size))
 	case marker == encode_consts.Struct16Marker:
-		var size int16
+		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading struct size")
 		}
-- 
2.43.0


From 1af7df0e64d11ef99d639040f6b23909bbb01589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:42 +0000
Subject: [PATCH 02/25] fix: return an error for malformed replies instead of
 panicking

Sizes that exceed what is left in a message allocated or silently truncated,
and identities and path sequences of the wrong type panicked in unchecked
type assertions. Also drop a debug print in decodeLocalTime.
---
 encoding/encoding_v1/decoderV1.go | 56 ++++++++++++++++++++++++------
 encoding/encoding_v2/decoderV2.go | 57 ++++++++++++++++++++++++-------
 encoding/util.go                  |  6 +++-
 3 files changed, 95 insertions(+), 24 deletions(-)

diff --git a/encoding/encoding_v1/decoderV1.go b/encoding/encoding_v1/decoderV1.go
index fdb5cdc..7cce41c 100644
--- a/encoding/encoding_v1/decoderV1.go
+++ b/encoding/encoding_v1/decoderV1.go
@@ -159,25 +159,25 @@ func (d DecoderV1) decode(buffer *bytes.Buffer) (interface{}, error) {
 		if size == 0 {
 			return "", nil
 		}
-		return string(buffer.Next(size)), nil
+		return d.decodeString(buffer, size)
 	case marker == encode_consts.String8Marker:
 		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
-		return string(buffer.Next(int(size))), nil
+		return d.decodeString(buffer, int(size))
 	case marker == encode_consts.String16Marker:
 		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
-		return string(buffer.Next(int(size))), nil
+		return d.decodeString(buffer, int(size))
 	case marker == encode_consts.String32Marker:
 		var size uint32
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
-		return string(buffer.Next(int(size))), nil
+		return d.decodeString(buffer, int(size))
 
 	// SLICE
 	case marker >= encode_consts.TinySliceMarker && marker <= encode_consts.TinySliceMarker+0x0F:
@@ -248,7 +248,20 @@ func (d DecoderV1) decode(buffer *bytes.Buffer) (interface{}, error) {
 
 }
 
+func (d DecoderV1) decodeString(buffer *bytes.Buffer, size int) (string, error) {
+	if size > buffer.Len() {
+		return "", errors.New("String of %d bytes announced, but only %d are left in the message", size, buffer.Len())
+	}
+
+	return string(buffer.Next(size)), nil
+}
+
 func (d DecoderV1) decodeSlice(buffer *bytes.Buffer, size int) ([]interface{}, error) {
+	// every item takes at least one byte
+	if size > buffer.Len() {
+		return nil, errors.New("Slice of %d items announced, but only %d bytes are left in the message", size, buffer.Len())
+	}
+
 	slice := make([]interface{}, size)
 	for i := 0; i < size; i++ {
 		item, err := d.decode(buffer)
@@ -262,6 +275,11 @@ func (d DecoderV1) decodeSlice(buffer *bytes.Buffer, size int) ([]interface{}, e
 }
 
 func (d DecoderV1) decodeMap(buffer *bytes.Buffer, size int) (map[string]interface{}, error) {
+	// every entry takes at least two bytes
+	if size > buffer.Len()/2 {
+		return nil, errors.New("Map of %d entries announced, but only %d bytes are left in the message", size, buffer.Len())
+	}
+
 	mapp := make(map[string]interface{}, size)
 	for i := 0; i < size; i++ {
 		keyInt, err := d.decode(buffer)
@@ -320,12 +338,16 @@ func (d DecoderV1) decodeStruct(buffer *bytes.Buffer, size int) (interface{}, er
 
 func (d DecoderV1) decodeNode(buffer *bytes.Buffer) (graph.Node, error) {
 	node := graph.Node{}
+	var ok bool
 
 	nodeIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return node, err
 	}
-	node.NodeIdentity = nodeIdentityInt.(int64)
+	node.NodeIdentity, ok = nodeIdentityInt.(int64)
+	if !ok {
+		return node, errors.New("Expected: NodeIdentity int64, but got %T %+v", nodeIdentityInt, nodeIdentityInt)
+	}
 
 	labelInt, err := d.decode(buffer)
 	if err != nil {
@@ -355,26 +377,35 @@ func (d DecoderV1) decodeNode(buffer *bytes.Buffer) (graph.Node, error) {
 
 func (d DecoderV1) decodeRelationship(buffer *bytes.Buffer) (graph.Relationship, error) {
 	rel := graph.Relationship{}
+	var ok bool
 
 	relIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
 	}
-	rel.RelIdentity = relIdentityInt.(int64)
+	rel.RelIdentity, ok = relIdentityInt.(int64)
+	if !ok {
+		return rel, errors.New("Expected: RelIdentity int64, but got %T %+v", relIdentityInt, relIdentityInt)
+	}
 
 	startNodeIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
 	}
-	rel.StartNodeIdentity = startNodeIdentityInt.(int64)
+	rel.StartNodeIdentity, ok = startNodeIdentityInt.(int64)
+	if !ok {
+		return rel, errors.New("Expected: StartNodeIdentity int64, but got %T %+v", startNodeIdentityInt, startNodeIdentityInt)
+	}
 
 	endNodeIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
 	}
-	rel.EndNodeIdentity = endNodeIdentityInt.(int64)
+	rel.EndNodeIdentity, ok = endNodeIdentityInt.(int64)
+	if !ok {
+		return rel, errors.New("Expected: EndNodeIdentity int64, but got %T %+v", endNodeIdentityInt, endNodeIdentityInt)
+	}
 
-	var ok bool
 	typeInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
@@ -440,14 +471,17 @@ func (d DecoderV1) decodePath(buffer *bytes.Buffer) (graph.Path, error) {
 
 func (d DecoderV1) decodeUnboundRelationship(buffer *bytes.Buffer) (graph.UnboundRelationship, error) {
 	rel := graph.UnboundRelationship{}
+	var ok bool
 
 	relIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
 	}
-	rel.RelIdentity = relIdentityInt.(int64)
+	rel.RelIdentity, ok = relIdentityInt.(int64)
+	if !ok {
+		return rel, errors.New("Expected: RelIdentity int64, but got %T %+v", relIdentityInt, relIdentityInt)
+	}
 
-	var ok bool
 	typeInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
diff --git a/encoding/encoding_v2/decoderV2.go b/encoding/encoding_v2/decoderV2.go
index 8f6965f..dee4276 100644
--- a/encoding/encoding_v2/decoderV2.go
+++ b/encoding/encoding_v2/decoderV2.go
@@ -154,25 +154,25 @@ func (d DecoderV2) decode(buffer *bytes.Buffer) (interface{}, error) {
 		if size == 0 {
 			return "", nil
 		}
-		return string(buffer.Next(size)), nil
+		return d.decodeString(buffer, size)
 	case marker == encode_consts.String8Marker:
 		var size uint8
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
-		return string(buffer.Next(int(size))), nil
+		return d.decodeString(buffer, int(size))
 	case marker == encode_consts.String16Marker:
 		var size uint16
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
-		return string(buffer.Next(int(size))), nil
+		return d.decodeString(buffer, int(size))
 	case marker == encode_consts.String32Marker:
 		var size uint32
 		if err := binary.Read(buffer, binary.BigEndian, &size); err != nil {
 			return nil, errors.Wrap(err, "An error occurred reading string size")
 		}
-		return string(buffer.Next(int(size))), nil
+		return d.decodeString(buffer, int(size))
 
 	// SLICE
 	case marker >= encode_consts.TinySliceMarker && marker <= encode_consts.TinySliceMarker+0x0F:
@@ -243,7 +243,20 @@ func (d DecoderV2) decode(buffer *bytes.Buffer) (interface{}, error) {
 
 }
 
+func (d DecoderV2) decodeString(buffer *bytes.Buffer, size int) (string, error) {
+	if size > buffer.Len() {
+		return "", errors.New("String of %d bytes announced, but only %d are left in the message", size, buffer.Len())
+	}
+
+	return string(buffer.Next(size)), nil
+}
+
 func (d DecoderV2) decodeSlice(buffer *bytes.Buffer, size int) ([]interface{}, error) {
+	// every item takes at least one byte
+	if size > buffer.Len() {
+		return nil, errors.New("Slice of %d items announced, but only %d bytes are left in the message", size, buffer.Len())
+	}
+
 	slice := make([]interface{}, size)
 	for i := 0; i < size; i++ {
 		item, err := d.decode(buffer)
@@ -257,6 +270,11 @@ func (d DecoderV2) decodeSlice(buffer *bytes.Buffer, size int) ([]interface{}, e
 }
 
 func (d DecoderV2) decodeMap(buffer *bytes.Buffer, size int) (map[string]interface{}, error) {
+	// every entry takes at least two bytes
+	if size > buffer.Len()/2 {
+		return nil, errors.New("Map of %d entries announced, but only %d bytes are left in the message", size, buffer.Len())
+	}
+
 	mapp := make(map[string]interface{}, size)
 	for i := 0; i < size; i++ {
 		keyInt, err := d.decode(buffer)
@@ -380,7 +398,6 @@ func (d DecoderV2) decodeLocalTime(buffer *bytes.Buffer) (gotime.LocalClock, err
 	}
 
 	nanoOfDayLocal, ok := nanoOfDayLocalI.(int64)
-	fmt.Println(nanoOfDayLocal)
 	if !ok {
 		return gotime.LocalClock{}, fmt.Errorf("unable to cast [%T] to [int64]", nanoOfDayLocalI)
 	}
@@ -632,12 +649,16 @@ func (d DecoderV2) decodePoint3D(buffer *bytes.Buffer) (types.Point3D, error) {
 
 func (d DecoderV2) decodeNode(buffer *bytes.Buffer) (graph.Node, error) {
 	node := graph.Node{}
+	var ok bool
 
 	nodeIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return node, err
 	}
-	node.NodeIdentity = nodeIdentityInt.(int64)
+	node.NodeIdentity, ok = nodeIdentityInt.(int64)
+	if !ok {
+		return node, errors.New("Expected: NodeIdentity int64, but got %T %+v", nodeIdentityInt, nodeIdentityInt)
+	}
 
 	labelInt, err := d.decode(buffer)
 	if err != nil {
@@ -667,26 +688,35 @@ func (d DecoderV2) decodeNode(buffer *bytes.Buffer) (graph.Node, error) {
 
 func (d DecoderV2) decodeRelationship(buffer *bytes.Buffer) (graph.Relationship, error) {
 	rel := graph.Relationship{}
+	var ok bool
 
 	relIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
 	}
-	rel.RelIdentity = relIdentityInt.(int64)
+	rel.RelIdentity, ok = relIdentityInt.(int64)
+	if !ok {
+		return rel, errors.New("Expected: RelIdentity int64, but got %T %+v", relIdentityInt, relIdentityInt)
+	}
 
 	startNodeIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
 	}
-	rel.StartNodeIdentity = startNodeIdentityInt.(int64)
+	rel.StartNodeIdentity, ok = startNodeIdentityInt.(int64)
+	if !ok {
+		return rel, errors.New("Expected: StartNodeIdentity int64, but got %T %+v", startNodeIdentityInt, startNodeIdentityInt)
+	}
 
 	endNodeIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
 	}
-	rel.EndNodeIdentity = endNodeIdentityInt.(int64)
+	rel.EndNodeIdentity, ok = endNodeIdentityInt.(int64)
+	if !ok {
+		return rel, errors.New("Expected: EndNodeIdentity int64, but got %T %+v", endNodeIdentityInt, endNodeIdentityInt)
+	}
 
-	var ok bool
 	typeInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
@@ -752,14 +782,17 @@ func (d DecoderV2) decodePath(buffer *bytes.Buffer) (graph.Path, error) {
 
 func (d DecoderV2) decodeUnboundRelationship(buffer *bytes.Buffer) (graph.UnboundRelationship, error) {
 	rel := graph.UnboundRelationship{}
+	var ok bool
 
 	relIdentityInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
 	}
-	rel.RelIdentity = relIdentityInt.(int64)
+	rel.RelIdentity, ok = relIdentityInt.(int64)
+	if !ok {
+		return rel, errors.New("Expected: RelIdentity int64, but got %T %+v", relIdentityInt, relIdentityInt)
+	}
 
-	var ok bool
 	typeInt, err := d.decode(buffer)
 	if err != nil {
 		return rel, err
diff --git a/encoding/util.go b/encoding/util.go
index b1409c6..bd6e2b0 100644
--- a/encoding/util.go
+++ b/encoding/util.go
@@ -20,7 +20,11 @@ func SliceInterfaceToString(from []interface{}) ([]string, error) {
 func SliceInterfaceToInt(from []interface{}) ([]int, error) {
 	to := make([]int, len(from))
 	for idx, item := range from {
-		to[idx] = int(item.(int64))
+		toItem, ok := item.(int64)
+		if !ok {
+			return nil, errors.New("Expected int value. Got %T %+v", item, item)
+		}
+		to[idx] = int(toItem)
 	}
 	return to, nil
 }
-- 
2.43.0


From 1f5e6687a0235578be7eae071a327253152646c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:21 +0000
Subject: [PATCH 03/25] fix: send every request whole, in chunks of the
 configured size

Write emitted at most one chunk per call and flush truncated the remaining
length to 16 bits, so large requests were corrupted; a chunk size of 0 never
made progress; and chunks of a request that later proved not to be encodable
had already been sent. Encode into the buffer first, then flush in chunks.
---
 encoding/encoding_v1/encoderV1.go | 34 +++++++++++++----------------
 encoding/encoding_v2/encoderV2.go | 36 ++++++++++++++-----------------
 2 files changed, 31 insertions(+), 39 deletions(-)

diff --git a/encoding/encoding_v1/encoderV1.go b/encoding/encoding_v1/encoderV1.go
index ffcf13a..fa61305 100644
--- a/encoding/encoding_v1/encoderV1.go
+++ b/encoding/encoding_v1/encoderV1.go
@@ -43,7 +43,8 @@ func Marshal(v interface{}) ([]byte, error) {
 	return x.Bytes(), err
 }
 
-// write writes to the writer.  Buffers the writes using chunkSize.
+// write buffers the message; nothing reaches the writer until flush, so that a
+// message that turns out not to be encodable leaves no bytes on the wire.
 func (e EncoderV1) Write(p []byte) (n int, err error) {
 	//log.Trace("in encode write")
 	//log.Trace(fmt.Sprintf("len writing is %v", len(p)))
@@ -55,32 +56,27 @@ func (e EncoderV1) Write(p []byte) (n int, err error) {
 		return n, err
 	}
 
-	length := e.buf.Len()
-	for length >= int(e.chunkSize) {
-		if err := binary.Write(e.w, binary.BigEndian, e.chunkSize); err != nil {
-			return 0, errors.Wrap(err, "An error occured writing chunksize")
-		}
-
-		numWritten, err := e.w.Write(e.buf.Next(int(e.chunkSize)))
-		if err != nil {
-			err = errors.Wrap(err, "An error occured writing a chunk")
-		}
-
-		return numWritten, err
-	}
-
 	return n, nil
 }
 
-// flush finishes the encoding stream by flushing it to the writer
+// flush finishes the encoding stream by flushing it to the writer in chunks of at most chunkSize bytes
 func (e EncoderV1) flush() error {
-	length := e.buf.Len()
-	if length > 0 {
+	chunkSize := int(e.chunkSize)
+	if chunkSize == 0 {
+		chunkSize = math.MaxUint16
+	}
+
+	for e.buf.Len() > 0 {
+		length := e.buf.Len()
+		if length > chunkSize {
+			length = chunkSize
+		}
+
 		if err := binary.Write(e.w, binary.BigEndian, uint16(length)); err != nil {
 			return errors.Wrap(err, "An error occured writing length bytes during flush")
 		}
 
-		if _, err := e.buf.WriteTo(e.w); err != nil {
+		if _, err := e.w.Write(e.buf.Next(length)); err != nil {
 			return errors.Wrap(err, "An error occured writing message bytes during flush")
 		}
 	}
diff --git a/encoding/encoding_v2/encoderV2.go b/encoding/encoding_v2/encoderV2.go
index 3d5f7cc..01fe2f0 100644
--- a/encoding/encoding_v2/encoderV2.go
+++ b/encoding/encoding_v2/encoderV2.go
@@ -46,7 +46,8 @@ func Marshal(v interface{}) ([]byte, error) {
 	return x.Bytes(), err
 }
 
-// write writes to the writer.  Buffers the writes using chunkSize.
+// write buffers the message; nothing reaches the writer until flush, so that a
+// message that turns out not to be encodable leaves no bytes on the wire.
 func (e EncoderV2) Write(p []byte) (n int, err error) {
 	//log.Trace("in encode write")
 	//log.Trace(fmt.Sprintf("len writing is %v", len(p)))
@@ -58,34 +59,29 @@ func (e EncoderV2) Write(p []byte) (n int, err error) {
 		return n, err
 	}
 
-	length := e.buf.Len()
-	for length >= int(e.chunkSize) {
-		if err := binary.Write(e.w, binary.BigEndian, e.chunkSize); err != nil {
-			return 0, errors.Wrap(err, "An error occured writing chunksize")
-		}
-
-		numWritten, err := e.w.Write(e.buf.Next(int(e.chunkSize)))
-		if err != nil {
-			err = errors.Wrap(err, "An error occured writing a chunk")
-		}
-
-		return numWritten, err
-	}
-
 	return n, nil
 }
 
-// flush finishes the encoding stream by flushing it to the writer
+// flush finishes the encoding stream by flushing it to the writer in chunks of at most chunkSize bytes
 func (e EncoderV2) flush() error {
-	length := e.buf.Len()
-	if length > 0 {
-		log.TraceBytesFromBuf(e.buf)
+	log.TraceBytesFromBuf(e.buf)
+
+	chunkSize := int(e.chunkSize)
+	if chunkSize == 0 {
+		chunkSize = math.MaxUint16
+	}
+
+	for e.buf.Len() > 0 {
+		length := e.buf.Len()
+		if length > chunkSize {
+			length = chunkSize
+		}
 
 		if err := binary.Write(e.w, binary.BigEndian, uint16(length)); err != nil {
 			return errors.Wrap(err, "An error occured writing length bytes during flush")
 		}
 
-		if _, err := e.buf.WriteTo(e.w); err != nil {
+		if _, err := e.w.Write(e.buf.Next(length)); err != nil {
 			return errors.Wrap(err, "An error occured writing message bytes during flush")
 		}
 	}
-- 
2.43.0


From ab2019103d58b0152d98f8334a956c41bd20eec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:43 +0000
Subject: [PATCH 04/25] fix: result counters report absence instead of
 panicking

The server only sends the counters that are not zero; asking for any other
counter panicked in a type assertion on nil.
---
 connection/result.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/connection/result.go b/connection/result.go
index 12159c6..987ef24 100644
--- a/connection/result.go
+++ b/connection/result.go
@@ -30,8 +30,11 @@ func (b *boltResult) GetNodesCreated() (int64, bool) {
 		return -1, false
 	}
 
-	num, ok := stats["nodes-created"]
-	return num.(int64), ok
+	num, ok := stats["nodes-created"].(int64)
+	if !ok {
+		return -1, false
+	}
+	return num, ok
 }
 
 func (b *boltResult) GetRelationshipsCreated() (int64, bool) {
@@ -40,8 +43,11 @@ func (b *boltResult) GetRelationshipsCreated() (int64, bool) {
 		return -1, false
 	}
 
-	num, ok := stats["relationships-created"]
-	return num.(int64), ok
+	num, ok := stats["relationships-created"].(int64)
+	if !ok {
+		return -1, false
+	}
+	return num, ok
 }
 
 func (b *boltResult) GetNodesDeleted() (int64, bool) {
@@ -50,11 +56,11 @@ func (b *boltResult) GetNodesDeleted() (int64, bool) {
 		return -1, false
 	}
 
-	num, ok := stats["nodes-deleted"]
+	num, ok := stats["nodes-deleted"].(int64)
 	if !ok {
 		return -1, false
 	}
-	return num.(int64), ok
+	return num, ok
 }
 
 func (b *boltResult) GetRelationshipsDeleted() (int64, bool) {
@@ -63,8 +69,11 @@ func (b *boltResult) GetRelationshipsDeleted() (int64, bool) {
 		return -1, false
 	}
 
-	num, ok := stats["relationships-deleted"]
-	return num.(int64), ok
+	num, ok := stats["relationships-deleted"].(int64)
+	if !ok {
+		return -1, false
+	}
+	return num, ok
 }
 
 func (b *boltResult) Metadata() map[string]interface{} {
-- 
2.43.0


From 68736afae41b1c97d0ec629156b299a7497b2162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:59 +0000
Subject: [PATCH 05/25] fix: a connection that cannot be initialized is an
 error and is closed

The version reply was read with a single Read, which may return fewer than
four bytes. On any failure after dialling the socket was leaked; an
unexpected reply closed the connection but reported success; and a RESET was
sent to a server that had just refused the initialization.
---
 connection/connection.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/connection/connection.go b/connection/connection.go
index 2308c83..9fc0a11 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -97,6 +97,7 @@ func CreateBoltConn(connStr string) (IConnection, error) {
 
 	err = conn.initialize()
 	if err != nil {
+		conn.abandon()
 		return nil, err
 	}
 
@@ -242,7 +243,7 @@ func (c *Connection) handshake() ([]byte, error) {
 	}
 
 	version := make([]byte, 4, 4)
-	numRead, err := c.readWrite.Read(version)
+	numRead, err := io.ReadFull(c.readWrite, version)
 	if err != nil {
 		return nil, err
 	} else if numRead != 4 {
@@ -289,7 +290,8 @@ func (c *Connection) sendInit(message structures.Structure) error {
 		return err
 	}
 
-	respMsg, err := c.consume()
+	// a server that refuses the initialization takes no further request, so there is nothing to reset
+	respMsg, err := c.boltProtocol.NewDecoder(c.readWrite).Decode()
 	if err != nil {
 		return err
 	}
@@ -298,9 +300,11 @@ func (c *Connection) sendInit(message structures.Structure) error {
 	case messages.SuccessMessage:
 		log.Infof("Successfully initiated Bolt connection: %+v", resp)
 		return nil
+	case messages.FailureMessage:
+		return errors.Wrap(resp, "Neo4J refused to initialize the connection")
 	default:
 		log.Errorf("Got an unrecognized message when initializing connection :%+v", resp)
-		return c.Close()
+		return fmt.Errorf("unexpected response of type [%T] when initializing connection", resp)
 	}
 }
 
@@ -459,6 +463,17 @@ func (c *Connection) Close() error {
 	return nil
 }
 
+// abandon drops a connection that can no longer be used
+func (c *Connection) abandon() {
+	c.closed = true
+
+	if c.conn != nil {
+		if err := c.conn.Close(); err != nil {
+			log.Errorf("An error occurred closing the connection: %s", err)
+		}
+	}
+}
+
 func (c *Connection) MakeIdle() error {
 	if c.transaction != nil {
 		return c.transaction.Rollback()
-- 
2.43.0


From 2fa6ca3d668728c2a60e968402bdb7e7929c6118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:57 +0000
Subject: [PATCH 06/25] fix: stop using a connection after an I/O error, a
 timeout or a nonsensical reply

Such a connection stayed open and in use, so the late reply to the failed
request was taken for the reply to the next one. Close it at once instead; a
refused or unintelligible reset closes the socket as well.
---
 connection/connection.go  | 26 +++++++++++++++++++-------
 connection/transaction.go |  4 ++++
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/connection/connection.go b/connection/connection.go
index 9fc0a11..11e422b 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -30,12 +30,14 @@ type readWrite struct {
 func (r *readWrite) Write(p []byte) (n int, err error) {
 	if err := r.connection.conn.SetWriteDeadline(time.Now().Add(r.connection.timeout)); err != nil {
 		//c.connErr = errors.Wrap(err, "An error occurred setting write deadline")
+		r.connection.abandon()
 		return 0, driver.ErrBadConn
 	}
 
 	n, err = r.connection.conn.Write(p)
 
 	if err != nil {
+		r.connection.abandon()
 		err = driver.ErrBadConn
 	}
 	return n, err
@@ -43,10 +45,14 @@ func (r *readWrite) Write(p []byte) (n int, err error) {
 
 func (r *readWrite) Read(p []byte) (n int, err error) {
 	if err := r.connection.conn.SetReadDeadline(time.Now().Add(r.connection.timeout)); err != nil {
+		r.connection.abandon()
 		return 0, driver.ErrBadConn
 	}
 
 	n, err = r.connection.conn.Read(p)
+	if err != nil {
+		r.connection.abandon()
+	}
 	if err != nil && err != io.EOF {
 		err = driver.ErrBadConn
 	}
@@ -406,6 +412,7 @@ func (c *Connection) runQuery(query string, params QueryParams, dbName string, i
 
 	_, ok := resp.(messages.SuccessMessage)
 	if !ok {
+		c.abandon()
 		return nil, nil, fmt.Errorf("unexpected response of type [%T], should be [messages.SuccessMessage]", resp)
 	}
 
@@ -424,6 +431,7 @@ func (c *Connection) runQuery(query string, params QueryParams, dbName string, i
 			log.Tracef("Got record message: %#v", resp)
 			output = append(output, resp.Fields)
 		default:
+			c.abandon()
 			return nil, nil, errors.New("Unrecognized response type getting next runQuery row: %#v", resp)
 		}
 	}
@@ -463,11 +471,14 @@ func (c *Connection) Close() error {
 	return nil
 }
 
-// abandon drops a connection that can no longer be used
+// abandon drops a connection that can no longer be used: after an I/O error, a
+// timeout or a reply that makes no sense, a later reply could belong to any
+// earlier request
 func (c *Connection) abandon() {
+	wasClosed := c.closed
 	c.closed = true
 
-	if c.conn != nil {
+	if c.conn != nil && !wasClosed {
 		if err := c.conn.Close(); err != nil {
 			log.Errorf("An error occurred closing the connection: %s", err)
 		}
@@ -523,12 +534,14 @@ func (c *Connection) BeginWithDatabase(db string) (ITransaction, error) {
 
 	success, ok := runSucc.(messages.SuccessMessage)
 	if !ok {
+		c.abandon()
 		return nil, errors.New("Unrecognized response type beginning transaction: %#v", success)
 	}
 
 	if !isBeginMsg {
 		pull, ok := pullSucc.(messages.SuccessMessage)
 		if !ok {
+			c.abandon()
 			return nil, errors.New("Unrecognized response beginning transaction:  %#v", pull)
 		}
 	}
@@ -566,6 +579,7 @@ func (c *Connection) consume() (interface{}, error) {
 
 	respInt, err := c.boltProtocol.NewDecoder(c.readWrite).Decode()
 	if err != nil {
+		c.abandon()
 		return respInt, err
 	}
 
@@ -597,6 +611,7 @@ func (c *Connection) reset() error {
 	for {
 		respInt, err := c.boltProtocol.NewDecoder(c.readWrite).Decode()
 		if err != nil {
+			c.abandon()
 			return errors.Wrap(err, "An error occurred decoding reset message response")
 		}
 
@@ -609,14 +624,11 @@ func (c *Connection) reset() error {
 			return nil
 		case messages.FailureMessage:
 			log.Errorf("Got failure message when resetting session: %#v", resp)
-			err = c.Close()
-			if err != nil {
-				log.Errorf("An error occurred closing the session: %s", err)
-			}
+			c.abandon()
 			return errors.Wrap(resp, "Error resetting session. CLOSING SESSION!")
 		default:
 			log.Errorf("Got unrecognized response from resetting session: %#v", resp)
-			c.Close()
+			c.abandon()
 			return driver.ErrBadConn
 		}
 	}
diff --git a/connection/transaction.go b/connection/transaction.go
index 36a14d3..0c97b70 100644
--- a/connection/transaction.go
+++ b/connection/transaction.go
@@ -88,6 +88,7 @@ func (t *boltTransaction) Commit() error {
 
 	success, ok := runSucc.(messages.SuccessMessage)
 	if !ok {
+		t.conn.abandon()
 		return errors.New("Unrecognized response type committing transaction: %#v", success)
 	}
 
@@ -96,6 +97,7 @@ func (t *boltTransaction) Commit() error {
 	if !isCommitType {
 		pull, ok := pullSucc.(messages.SuccessMessage)
 		if !ok {
+			t.conn.abandon()
 			return errors.New("Unrecognized response type pulling transaction:  %#v", pull)
 		}
 
@@ -149,6 +151,7 @@ func (t *boltTransaction) Rollback() error {
 
 	success, ok := runSucc.(messages.SuccessMessage)
 	if !ok {
+		t.conn.abandon()
 		return errors.New("Unrecognized response type rolling back transaction: %#v", success)
 	}
 
@@ -157,6 +160,7 @@ func (t *boltTransaction) Rollback() error {
 	if !isRollbackType {
 		pull, ok := pullSucc.(messages.SuccessMessage)
 		if !ok {
+			t.conn.abandon()
 			return errors.New("Unrecognized response type pulling transaction:  %#v", pull)
 		}
 
-- 
2.43.0


From a8a816743fe7a3a1d798855891216d809bc74227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:58 +0000
Subject: [PATCH 07/25] fix: a transaction ends when the server fails it, its
 connection is lost or closed

After a failed statement the session was reset but the handle stayed open, so
later statements ran as auto-commit statements and the connection could
neither begin another transaction nor be closed. Exec on a transaction always
ran outside it as far as the request was concerned.
---
 connection/connection.go  | 25 ++++++++++++++++++++-----
 connection/transaction.go | 12 +++++-------
 2 files changed, 25 insertions(+), 12 deletions(-)

diff --git a/connection/connection.go b/connection/connection.go
index 11e422b..53c98a6 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -81,7 +81,7 @@ type Connection struct {
 
 	// handlers
 	readWrite   *readWrite
-	transaction ITransaction
+	transaction *boltTransaction
 
 	// connection stuff
 	timeout   time.Duration
@@ -355,7 +355,7 @@ func (c *Connection) ExecWithDb(query string, params QueryParams, db string) (IR
 		return nil, fmt.Errorf("bolt protocol version [%v] does not have multi database support", c.protocolVersion)
 	}
 
-	_, metadata, err := c.runQuery(query, params, db, false)
+	_, metadata, err := c.runQuery(query, params, db, nil)
 	if err != nil {
 		return nil, err
 	}
@@ -372,7 +372,7 @@ func (c *Connection) QueryWithDb(query string, params QueryParams, db string) ([
 		return nil, nil, fmt.Errorf("bolt protocol version [%v] does not have multi database support", c.protocolVersion)
 	}
 
-	rows, metadata, err := c.runQuery(query, params, db, false)
+	rows, metadata, err := c.runQuery(query, params, db, nil)
 	if err != nil {
 		return nil, nil, err
 	}
@@ -380,7 +380,7 @@ func (c *Connection) QueryWithDb(query string, params QueryParams, db string) ([
 	return rows, newBoltResult(metadata), nil
 }
 
-func (c *Connection) runQuery(query string, params QueryParams, dbName string, inTx bool) ([][]interface{}, map[string]interface{}, error) {
+func (c *Connection) runQuery(query string, params QueryParams, dbName string, tx *boltTransaction) ([][]interface{}, map[string]interface{}, error) {
 	c.mutex.Lock()
 	defer c.mutex.Unlock()
 	if c.openQuery {
@@ -391,8 +391,12 @@ func (c *Connection) runQuery(query string, params QueryParams, dbName string, i
 		return nil, nil, errors.New("connection already closed")
 	}
 
+	if tx != nil && tx.closed {
+		return nil, nil, errors.New("Transaction already closed")
+	}
+
 	log.Tracef("running query")
-	err := c.sendMessage(c.boltProtocol.GetRunMessage(query, params, dbName, c.accessMode, !inTx))
+	err := c.sendMessage(c.boltProtocol.GetRunMessage(query, params, dbName, c.accessMode, tx == nil))
 	if err != nil {
 		return nil, nil, err
 	}
@@ -477,6 +481,7 @@ func (c *Connection) Close() error {
 func (c *Connection) abandon() {
 	wasClosed := c.closed
 	c.closed = true
+	c.endTransaction()
 
 	if c.conn != nil && !wasClosed {
 		if err := c.conn.Close(); err != nil {
@@ -485,6 +490,14 @@ func (c *Connection) abandon() {
 	}
 }
 
+// endTransaction makes the handle of the current transaction, if there is one, useless
+func (c *Connection) endTransaction() {
+	if c.transaction != nil {
+		c.transaction.closed = true
+		c.transaction = nil
+	}
+}
+
 func (c *Connection) MakeIdle() error {
 	if c.transaction != nil {
 		return c.transaction.Rollback()
@@ -593,6 +606,8 @@ func (c *Connection) consume() (interface{}, error) {
 		if err != nil {
 			return nil, errors.Wrap(failure, err.Error())
 		}
+		// the failure and the reset ended whatever transaction was open
+		c.endTransaction()
 		return failure, errors.Wrap(failure, "Neo4J reported a failure for the runQuery")
 	}
 
diff --git a/connection/transaction.go b/connection/transaction.go
index 0c97b70..3696364 100644
--- a/connection/transaction.go
+++ b/connection/transaction.go
@@ -13,7 +13,7 @@ type boltTransaction struct {
 }
 
 func (t *boltTransaction) Exec(query string, params QueryParams) (IResult, error) {
-	return t.conn.Exec(query, params)
+	return t.ExecWithDb(query, params, "")
 }
 
 func (t *boltTransaction) ExecWithDb(query string, params QueryParams, db string) (IResult, error) {
@@ -21,7 +21,7 @@ func (t *boltTransaction) ExecWithDb(query string, params QueryParams, db string
 		return nil, fmt.Errorf("bolt protocol version [%v] does not have multi database support", t.conn.protocolVersion)
 	}
 
-	_, metadata, err := t.conn.runQuery(query, params, db, true)
+	_, metadata, err := t.conn.runQuery(query, params, db, t)
 	if err != nil {
 		return nil, err
 	}
@@ -38,7 +38,7 @@ func (t *boltTransaction) QueryWithDb(query string, params QueryParams, db strin
 		return nil, nil, fmt.Errorf("bolt protocol version [%v] does not have multi database support", t.conn.protocolVersion)
 	}
 
-	rows, metadata, err := t.conn.runQuery(query, params, db, true)
+	rows, metadata, err := t.conn.runQuery(query, params, db, t)
 	if err != nil {
 		return nil, nil, err
 	}
@@ -104,8 +104,7 @@ func (t *boltTransaction) Commit() error {
 		log.Tracef("Got success message pulling transaction: %#v", pull)
 	}
 
-	t.conn.transaction = nil
-	t.closed = true
+	t.conn.endTransaction()
 	return err
 }
 
@@ -167,8 +166,7 @@ func (t *boltTransaction) Rollback() error {
 		log.Tracef("Got success message pulling transaction: %#v", pull)
 	}
 
-	t.conn.transaction = nil
-	t.closed = true
+	t.conn.endTransaction()
 	return err
 }
 
-- 
2.43.0


From 9307fb6c7b21c70152d6eebd44858cca08a786d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:28 +0000
Subject: [PATCH 08/25] fix: Close closes the socket even if the rollback or
 the goodbye fails

---
 connection/connection.go | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/connection/connection.go b/connection/connection.go
index 53c98a6..5dc70e7 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -446,6 +446,13 @@ func (c *Connection) Close() error {
 		return errors.ErrClosed
 	}
 
+	if c.conn == nil {
+		return errors.New("can not close nil transaction")
+	}
+
+	// whatever goes wrong below, the socket does not stay open
+	defer c.abandon()
+
 	if c.transaction != nil {
 		err := c.transaction.Rollback()
 		if err != nil {
@@ -453,10 +460,6 @@ func (c *Connection) Close() error {
 		}
 	}
 
-	if c.conn == nil {
-		return errors.New("can not close nil transaction")
-	}
-
 	if msg, ok := c.boltProtocol.GetCloseMessage(); ok {
 		err := c.sendMessage(msg)
 		if err != nil {
@@ -466,12 +469,6 @@ func (c *Connection) Close() error {
 		// explicitly not consuming since we're closing the connection
 	}
 
-	err := c.conn.Close()
-	c.closed = true
-	if err != nil {
-		return err
-	}
-
 	return nil
 }
 
-- 
2.43.0


From 09e9d080f5946731dbfdafc7a007e41697eb0412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:29 +0000
Subject: [PATCH 09/25] fix: ValidateOpen notices a peer that has gone

With a read deadline of now, Read fails without looking at the socket, so
every connection that was not closed locally was reported as open.
---
 connection/connection.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/connection/connection.go b/connection/connection.go
index 5dc70e7..e5c3f07 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -324,16 +324,20 @@ func (c *Connection) ValidateOpen() bool {
 		return false
 	}
 
+	// a deadline that has already passed would make Read fail without looking at the socket
 	one := make([]byte, 1)
-	err := c.conn.SetReadDeadline(time.Now())
+	err := c.conn.SetReadDeadline(time.Now().Add(time.Millisecond))
 	if err != nil {
 		return false
 	}
-	if _, err := c.conn.Read(one); err == io.EOF {
-		return false
-	} else {
+	_, err = c.conn.Read(one)
+	if netErr, ok := err.(net.Error); ok && netErr.Timeout() {
 		return true
 	}
+
+	// the peer is gone, or it sent something that nobody asked for
+	c.abandon()
+	return false
 }
 
 // Sets the size of the chunks to write to the stream
-- 
2.43.0


From fea0ef0a82b579e33219b55211da7fdb2512c882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:30 +0000
Subject: [PATCH 10/25] fix: a transaction on a database is refused where it
 would not run there

Before Bolt 4 BEGIN silently ignored (v1, v2) or sent (v3) a database name
the server does not know, and statements on an open transaction ignored the
database they were asked to run on.
---
 connection/connection.go  |  5 +++++
 connection/transaction.go | 10 ++++++++++
 2 files changed, 15 insertions(+)

diff --git a/connection/connection.go b/connection/connection.go
index e5c3f07..955a097 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -516,6 +516,10 @@ func (c *Connection) BeginWithDatabase(db string) (ITransaction, error) {
 		return nil, errors.New("can not open transaction on closed connection")
 	}
 
+	if !c.boltProtocol.SupportsMultiDatabase() && db != "" {
+		return nil, fmt.Errorf("bolt protocol version [%v] does not have multi database support", c.protocolVersion)
+	}
+
 	msg := c.boltProtocol.GetTxBeginMessage(db, c.accessMode)
 
 	_, isBeginMsg := msg.(messages.BeginMessage)
@@ -562,6 +566,7 @@ func (c *Connection) BeginWithDatabase(db string) (ITransaction, error) {
 
 	c.transaction = &boltTransaction{
 		conn:   c,
+		db:     db,
 		closed: false,
 	}
 
diff --git a/connection/transaction.go b/connection/transaction.go
index 3696364..1b29549 100644
--- a/connection/transaction.go
+++ b/connection/transaction.go
@@ -9,6 +9,7 @@ import (
 
 type boltTransaction struct {
 	conn   *Connection
+	db     string
 	closed bool
 }
 
@@ -21,6 +22,11 @@ func (t *boltTransaction) ExecWithDb(query string, params QueryParams, db string
 		return nil, fmt.Errorf("bolt protocol version [%v] does not have multi database support", t.conn.protocolVersion)
 	}
 
+	// a statement runs in the database its transaction was opened on
+	if db != "" && db != t.db {
+		return nil, fmt.Errorf("transaction is open on database [%v], can not run a statement on [%v]", t.db, db)
+	}
+
 	_, metadata, err := t.conn.runQuery(query, params, db, t)
 	if err != nil {
 		return nil, err
@@ -38,6 +44,10 @@ func (t *boltTransaction) QueryWithDb(query string, params QueryParams, db strin
 		return nil, nil, fmt.Errorf("bolt protocol version [%v] does not have multi database support", t.conn.protocolVersion)
 	}
 
+	if db != "" && db != t.db {
+		return nil, nil, fmt.Errorf("transaction is open on database [%v], can not run a statement on [%v]", t.db, db)
+	}
+
 	rows, metadata, err := t.conn.runQuery(query, params, db, t)
 	if err != nil {
 		return nil, nil, err
-- 
2.43.0


From b0a59c95bbd1c19e7a7a02661c37dc2bd9c51908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:55 +0000
Subject: [PATCH 11/25] fix: one exchange at a time on a connection, not only
 for Query and Exec

Begin, Commit, Rollback, Close, MakeIdle and ValidateOpen talked to the
server, or read from it, while another goroutine was in the middle of a
statement on the same connection.
---
 connection/connection.go  | 22 ++++++++++++++++++++--
 connection/transaction.go | 14 ++++++++++++++
 2 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/connection/connection.go b/connection/connection.go
index 955a097..d407805 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -315,6 +315,9 @@ func (c *Connection) sendInit(message structures.Structure) error {
 }
 
 func (c *Connection) ValidateOpen() bool {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+
 	//log.Tracef("checking validate open")
 	if c.closed {
 		return false
@@ -342,11 +345,17 @@ func (c *Connection) ValidateOpen() bool {
 
 // Sets the size of the chunks to write to the stream
 func (c *Connection) SetChunkSize(chunkSize uint16) {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+
 	c.chunkSize = chunkSize
 }
 
 // Sets the timeout for reading and writing to the stream
 func (c *Connection) SetTimeout(timeout time.Duration) {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+
 	c.timeout = timeout
 }
 
@@ -446,6 +455,9 @@ func (c *Connection) runQuery(query string, params QueryParams, dbName string, t
 }
 
 func (c *Connection) Close() error {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+
 	if c.closed {
 		return errors.ErrClosed
 	}
@@ -458,7 +470,7 @@ func (c *Connection) Close() error {
 	defer c.abandon()
 
 	if c.transaction != nil {
-		err := c.transaction.Rollback()
+		err := c.transaction.rollback()
 		if err != nil {
 			return err
 		}
@@ -500,14 +512,20 @@ func (c *Connection) endTransaction() {
 }
 
 func (c *Connection) MakeIdle() error {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+
 	if c.transaction != nil {
-		return c.transaction.Rollback()
+		return c.transaction.rollback()
 	}
 
 	return nil
 }
 
 func (c *Connection) BeginWithDatabase(db string) (ITransaction, error) {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+
 	if c.transaction != nil {
 		return nil, errors.New("transaction already open")
 	}
diff --git a/connection/transaction.go b/connection/transaction.go
index 1b29549..191abc1 100644
--- a/connection/transaction.go
+++ b/connection/transaction.go
@@ -57,6 +57,9 @@ func (t *boltTransaction) QueryWithDb(query string, params QueryParams, db strin
 }
 
 func (t *boltTransaction) Commit() error {
+	t.conn.mutex.Lock()
+	defer t.conn.mutex.Unlock()
+
 	if t.closed {
 		return errors.New("Transaction already closed")
 	}
@@ -119,6 +122,14 @@ func (t *boltTransaction) Commit() error {
 }
 
 func (t *boltTransaction) Rollback() error {
+	t.conn.mutex.Lock()
+	defer t.conn.mutex.Unlock()
+
+	return t.rollback()
+}
+
+// rollback rolls back the transaction, the connection's mutex is held
+func (t *boltTransaction) rollback() error {
 	if t.closed {
 		return errors.New("Transaction already closed")
 	}
@@ -181,5 +192,8 @@ func (t *boltTransaction) Rollback() error {
 }
 
 func (t *boltTransaction) IsClosed() bool {
+	t.conn.mutex.Lock()
+	defer t.conn.mutex.Unlock()
+
 	return t.closed
 }
-- 
2.43.0


From 36d18fb57e3cfb212fe314086ef922b954198462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:56 +0000
Subject: [PATCH 12/25] fix: the timeout covers connecting over TLS

---
 connection/connection.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/connection/connection.go b/connection/connection.go
index d407805..41c0215 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -185,7 +185,7 @@ func (c *Connection) createConnection() error {
 			return err
 		}
 
-		conn, err = tls.Dial("tcp", c.hostPort, config)
+		conn, err = tls.DialWithDialer(&net.Dialer{Timeout: c.timeout}, "tcp", c.hostPort, config)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 47227890c233c2c73a5acf556ba5a52eed06dded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:08 +0000
Subject: [PATCH 13/25] fix: TLS, timeout, chunk size and credentials given as
 options take effect

WithTLS produced a connection string without tls=true, so the connection was
made in the clear; with a connection string it was ignored. WithTimeout and
WithChunkSize were never used. User name and password were not escaped and
could change the address. Members of a cluster were contacted without TLS
unless a client certificate was configured, and with the default timeout.
---
 client.go                | 94 +++++++++++++++++++++++-----------------
 connection/connection.go | 28 ++++++++++--
 driver_routing_pool.go   | 13 ++++--
 routing/pool.go          |  7 ++-
 4 files changed, 94 insertions(+), 48 deletions(-)

diff --git a/client.go b/client.go
index a9002be..b6c27e1 100644
--- a/client.go
+++ b/client.go
@@ -2,8 +2,10 @@ package goBolt
 
 import (
 	"fmt"
+	"github.com/mindstand/go-bolt/connection"
 	"github.com/mindstand/go-bolt/errors"
 	"math"
+	"net"
 	"net/url"
 	"strconv"
 	"strings"
@@ -95,16 +97,13 @@ func NewClient(opts ...Opt) (IClient, error) {
 			return nil, errors.Wrap(errors.ErrConfiguration, "user can not be empty")
 		}
 
-		client.connStr = fmt.Sprintf("%s://%s:%s@%s:%v", protocol, client.user, client.password, client.host, client.port)
-
-		// append tls portion if needed
-		if client.useTLS {
-			tlsPortion := fmt.Sprintf("?tls_cert_file=%s&tls_key_file=%s&tls_ca_cert_file=%s&tls_no_verify=%t",
-				client.certFile, client.keyFile, client.caCertFile, client.tlsNoVerify)
-			client.connStr += tlsPortion
+		connUrl := url.URL{
+			Scheme: protocol,
+			User:   url.UserPassword(client.user, client.password),
+			Host:   net.JoinHostPort(client.host, strconv.Itoa(client.port)),
 		}
+		client.connStr = client.addOptions(&connUrl)
 	} else {
-		client.routing = strings.Contains(client.connStr, "+routing")
 		_url, err := url.Parse(client.connStr)
 		if err != nil {
 			return nil, fmt.Errorf("an error occurred parsing bolt URL, %w", err)
@@ -112,6 +111,8 @@ func NewClient(opts ...Opt) (IClient, error) {
 			return nil, fmt.Errorf("unsupported connection string scheme: %s. Driver only supports 'bolt' and 'bolt+routing' scheme", _url.Scheme)
 		}
 
+		client.routing = strings.ToLower(_url.Scheme) == "bolt+routing"
+
 		hostPort := _url.Host
 		if strings.Contains(hostPort, ":") {
 			parts := strings.Split(hostPort, ":")
@@ -134,74 +135,87 @@ func NewClient(opts ...Opt) (IClient, error) {
 			if !isSet {
 				return nil, errors.New("must specify password when passing user")
 			}
+		} else if client.user != "" {
+			_url.User = url.UserPassword(client.user, client.password)
 		}
 
 		timeout := _url.Query().Get("timeout")
 		if timeout != "" {
-			timeoutInt, err := strconv.Atoi(timeout)
+			client.timeout, err = connection.ParseTimeout(timeout)
 			if err != nil {
-				return nil, fmt.Errorf("Invalid format for timeout: %s.  Must be integer", timeout)
+				return nil, err
 			}
-
-			client.timeout = time.Duration(timeoutInt) * time.Second
 		}
 
+		// the string only says whether to use tls if it says anything about it
 		useTLS := _url.Query().Get("tls")
-		client.useTLS = strings.HasPrefix(strings.ToLower(useTLS), "t") || useTLS == "1"
+		if useTLS != "" {
+			client.useTLS = strings.HasPrefix(strings.ToLower(useTLS), "t") || useTLS == "1"
+		}
 
-		if client.useTLS {
+		if client.useTLS && useTLS != "" {
 			client.certFile = _url.Query().Get("tls_cert_file")
 			client.keyFile = _url.Query().Get("tls_key_file")
 			client.caCertFile = _url.Query().Get("tls_ca_cert_file")
 			noVerify := _url.Query().Get("tls_no_verify")
 			client.tlsNoVerify = strings.HasPrefix(strings.ToLower(noVerify), "t") || noVerify == "1"
 		}
+
+		client.connStr = client.addOptions(_url)
 	}
 
 	return client, nil
 }
 
-func (c *Client) getTlsPortion() (string, error) {
-	if c.certFile != "" {
-		return fmt.Sprintf("?tls_cert_file=%s&tls_key_file=%s&tls_ca_cert_file=%s&tls_no_verify=%t",
-			c.certFile, c.keyFile, c.caCertFile, c.tlsNoVerify), nil
-	} else {
-		// parse connection string
-		u, err := url.Parse(c.connStr)
-		if err != nil {
-			return "", nil
-		}
+// addOptions adds the options that the connection string does not carry yet
+func (c *Client) addOptions(connUrl *url.URL) string {
+	query := connUrl.Query()
 
-		certFile := u.Query().Get("tls_cert_file")
-		keyFile := u.Query().Get("tls_key_file")
-		caCertFile := u.Query().Get("tls_ca_cert_file")
-		tlsNoVerify := u.Query().Get("tls_no_verify")
+	if c.useTLS && query.Get("tls") == "" {
+		query.Set("tls", "true")
+		query.Set("tls_cert_file", c.certFile)
+		query.Set("tls_key_file", c.keyFile)
+		query.Set("tls_ca_cert_file", c.caCertFile)
+		query.Set("tls_no_verify", strconv.FormatBool(c.tlsNoVerify))
+	}
 
-		if certFile == "" {
-			return "", nil
-		}
+	if query.Get("timeout") == "" {
+		query.Set("timeout", c.timeout.String())
+	}
 
-		return fmt.Sprintf("?tls_cert_file=%s&tls_key_file=%s&tls_ca_cert_file=%s&tls_no_verify=%s",
-			certFile, keyFile, caCertFile, tlsNoVerify), nil
+	if query.Get("chunk_size") == "" {
+		query.Set("chunk_size", strconv.Itoa(int(c.chunkSize)))
 	}
+
+	connUrl.RawQuery = query.Encode()
+	return connUrl.String()
 }
 
-func (c *Client) getUsernamePassword() (string, error) {
+// getOptionsPortion gets the part of the connection string that applies to every member of a cluster
+func (c *Client) getOptionsPortion() (string, error) {
 	u, err := url.Parse(c.connStr)
 	if err != nil {
-		return "", nil
+		return "", err
 	}
 
-	if u.User.Username() == "" {
+	if u.RawQuery == "" {
 		return "", nil
 	}
 
-	pwd, ok := u.User.Password()
-	if !ok {
-		pwd = ""
+	return "?" + u.RawQuery, nil
+}
+
+func (c *Client) getUsernamePassword() (string, error) {
+	u, err := url.Parse(c.connStr)
+	if err != nil {
+		return "", err
+	}
+
+	if u.User.Username() == "" {
+		return "", nil
 	}
 
-	return fmt.Sprintf("%s:%s", u.User.Username(), pwd), nil
+	return u.User.String(), nil
 }
 
 func (c *Client) NewDriver() (IDriver, error) {
diff --git a/connection/connection.go b/connection/connection.go
index 41c0215..98b218e 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -137,12 +137,20 @@ func newConnectionFromConnectionString(connStr string) (*Connection, error) {
 
 	timeout := _url.Query().Get("timeout")
 	if timeout != "" {
-		timeoutInt, err := strconv.Atoi(timeout)
+		connection.timeout, err = ParseTimeout(timeout)
 		if err != nil {
-			return nil, fmt.Errorf("Invalid format for timeout: %s.  Must be integer", timeout)
+			return nil, err
+		}
+	}
+
+	chunkSize := _url.Query().Get("chunk_size")
+	if chunkSize != "" {
+		size, err := strconv.ParseUint(chunkSize, 10, 16)
+		if err != nil {
+			return nil, fmt.Errorf("Invalid format for chunk_size: %s.  Must be an integer up to 65535", chunkSize)
 		}
 
-		connection.timeout = time.Duration(timeoutInt) * time.Second
+		connection.chunkSize = uint16(size)
 	}
 
 	useTLS := _url.Query().Get("tls")
@@ -159,6 +167,20 @@ func newConnectionFromConnectionString(connStr string) (*Connection, error) {
 	return &connection, nil
 }
 
+// ParseTimeout parses the timeout of a connection string, a number of seconds or a duration like "1.5s"
+func ParseTimeout(timeout string) (time.Duration, error) {
+	if timeoutInt, err := strconv.Atoi(timeout); err == nil {
+		return time.Duration(timeoutInt) * time.Second, nil
+	}
+
+	duration, err := time.ParseDuration(timeout)
+	if err != nil {
+		return 0, fmt.Errorf("Invalid format for timeout: %s.  Must be integer or duration", timeout)
+	}
+
+	return duration, nil
+}
+
 func (c *Connection) GetConnectionId() string {
 	return c.id
 }
diff --git a/driver_routing_pool.go b/driver_routing_pool.go
index bd12fc4..9472152 100644
--- a/driver_routing_pool.go
+++ b/driver_routing_pool.go
@@ -19,10 +19,17 @@ func newRoutingPool(client *Client, size int) (*RoutingDriverPool, error) {
 		return nil, errors.New("client can not be nil")
 	}
 
-	userPart, _ := client.getUsernamePassword()
-	tlsPart, _ := client.getTlsPortion()
+	userPart, err := client.getUsernamePassword()
+	if err != nil {
+		return nil, err
+	}
+
+	optionsPart, err := client.getOptionsPortion()
+	if err != nil {
+		return nil, err
+	}
 
-	internalPool, err := routing.NewRoutingPool(client.connStr, size, refreshInterval, userPart, tlsPart)
+	internalPool, err := routing.NewRoutingPool(client.connStr, size, refreshInterval, userPart, optionsPart)
 	if err != nil {
 		return nil, err
 	}
diff --git a/routing/pool.go b/routing/pool.go
index 2451d5f..24cfae3 100644
--- a/routing/pool.go
+++ b/routing/pool.go
@@ -57,8 +57,8 @@ func NewRoutingPool(leaderConnStr string, numConns int, refreshInterval time.Dur
 		return nil, errors.New("leaderConnStr can not be nil")
 	}
 
-	if strings.Contains(leaderConnStr, "+routing") {
-		leaderConnStr = strings.Replace(leaderConnStr, "+routing", "", -1)
+	if strings.HasPrefix(strings.ToLower(leaderConnStr), "bolt+routing") {
+		leaderConnStr = "bolt" + leaderConnStr[len("bolt+routing"):]
 	}
 
 	if numConns == 0 || numConns == 1 {
@@ -557,5 +557,8 @@ func (r *routingPool) addAuthInfoToConnStr(connStr string) string {
 	}
 
 	hostPort := strings.Replace(connStr, "bolt://", "", -1)
+	if r.userPassPart == "" {
+		return fmt.Sprintf("bolt://%s%s", hostPort, r.tlsInfo)
+	}
 	return fmt.Sprintf("bolt://%s@%s%s", r.userPassPart, hostPort, r.tlsInfo)
 }
-- 
2.43.0


From 30f38e0d25b4b36de36bb9892e1240f311203d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:58 +0000
Subject: [PATCH 14/25] fix: a pool lends each connection once, keeps its
 capacity and lets go of waiters when closed

Activating a dead pooled connection swapped the object behind the back of the
pool, so that it could neither be returned nor counted. open() kept a dead
object borrowed, and held the lock that close() needs while it waited for a
connection. A connection given back in a bad state was destroyed without
waking those who waited for one. Giving a connection back again took it away
from its next borrower.
---
 connection/borrowed.go     | 22 +++++++++++
 connection_pool_factory.go | 10 +----
 driver_pool.go             | 75 +++++++++++++++++++++++++++++++++-----
 3 files changed, 90 insertions(+), 17 deletions(-)
 create mode 100644 connection/borrowed.go

diff --git a/connection/borrowed.go b/connection/borrowed.go
new file mode 100644
index 0000000..292120d
--- /dev/null
+++ b/connection/borrowed.go
@@ -0,0 +1,22 @@
+package connection
+
+import "sync/atomic"
+
+// Borrowed is a connection on loan from a pool. Every loan is a Borrowed of
+// its own, so that a pool can tell the current borrower from an earlier one.
+type Borrowed struct {
+	IConnection
+	lender   interface{}
+	returned int32
+}
+
+// Lend starts a loan of the connection
+func Lend(conn IConnection, lender interface{}) *Borrowed {
+	return &Borrowed{IConnection: conn, lender: lender}
+}
+
+// GiveBack ends the loan. It returns false if the connection is not on loan
+// from this lender, or the loan has already ended.
+func (b *Borrowed) GiveBack(lender interface{}) bool {
+	return b.lender == lender && atomic.CompareAndSwapInt32(&b.returned, 0, 1)
+}
diff --git a/connection_pool_factory.go b/connection_pool_factory.go
index fda8531..26e0d93 100644
--- a/connection_pool_factory.go
+++ b/connection_pool_factory.go
@@ -73,15 +73,9 @@ func (c *ConnectionPooledObjectFactory) ActivateObject(ctx context.Context, obje
 		return fmt.Errorf("unable to cast [%T] to [connection.IConnection]", object.Object)
 	}
 
-	var err error
-
+	// a dead connection is destroyed, the pool then makes another
 	if !conn.ValidateOpen() {
-		conn, err = connection.CreateBoltConn(c.connectionString)
-		if err != nil {
-			return err
-		}
-
-		object.Object = conn
+		return errors.New("connection is not open")
 	}
 
 	return nil
diff --git a/driver_pool.go b/driver_pool.go
index 1d8f3b8..a1b6f9d 100644
--- a/driver_pool.go
+++ b/driver_pool.go
@@ -13,11 +13,20 @@ type driverPool struct {
 	connStr  string
 	maxConns int
 	pool     *pool.ObjectPool
-	refLock  sync.Mutex
-	closed   bool
+	// holds one slot per connection that is being borrowed, is borrowed or is
+	// being given back, nil if the number of connections is not limited
+	slots chan struct{}
+	done  chan struct{}
+	// held for reading while a connection is being borrowed
+	refLock sync.RWMutex
+	closed  bool
 }
 
 func newDriverPool(connStr string, maxConns int) (*driverPool, error) {
+	if maxConns == 0 {
+		return nil, errors.New("size of the pool can not be 0")
+	}
+
 	dPool := pool.NewObjectPool(context.Background(), &ConnectionPooledObjectFactory{connectionString: connStr}, &pool.ObjectPoolConfig{
 		LIFO:                     true,
 		MaxTotal:                 maxConns,
@@ -34,16 +43,58 @@ func newDriverPool(connStr string, maxConns int) (*driverPool, error) {
 		TimeBetweenEvictionRuns:  0,
 	})
 
+	var slots chan struct{}
+	if maxConns > 0 {
+		slots = make(chan struct{}, maxConns)
+	}
+
 	return &driverPool{
 		connStr:  connStr,
 		maxConns: maxConns,
 		pool:     dPool,
+		slots:    slots,
+		done:     make(chan struct{}),
 	}, nil
 }
 
+// acquire waits until fewer than the maximum number of connections are in use
+func (d *driverPool) acquire() error {
+	if d.slots == nil {
+		return nil
+	}
+
+	select {
+	case d.slots <- struct{}{}:
+		return nil
+	case <-d.done:
+		return errors.New("Driver pool has been closed")
+	}
+}
+
+func (d *driverPool) release() {
+	if d.slots != nil {
+		<-d.slots
+	}
+}
+
 func (d *driverPool) open() (connection.IConnection, error) {
-	d.refLock.Lock()
-	defer d.refLock.Unlock()
+	err := d.acquire()
+	if err != nil {
+		return nil, err
+	}
+
+	conn, err := d.borrow()
+	if err != nil {
+		d.release()
+		return nil, err
+	}
+
+	return connection.Lend(conn, d), nil
+}
+
+func (d *driverPool) borrow() (connection.IConnection, error) {
+	d.refLock.RLock()
+	defer d.refLock.RUnlock()
 	if !d.closed {
 		connObj, err := d.pool.BorrowObject(context.Background())
 		if err != nil {
@@ -55,10 +106,6 @@ func (d *driverPool) open() (connection.IConnection, error) {
 			return nil, errors.Wrap(errors.ErrInternal, "cannot cast from [%T] to [IConnection]", connObj)
 		}
 
-		if !conn.ValidateOpen() {
-			return nil, errors.New("pool returned dead connection")
-		}
-
 		return conn, nil
 	}
 	return nil, errors.New("Driver pool has been closed")
@@ -76,6 +123,9 @@ func (d *driverPool) close() error {
 		return errors.Wrap(errors.ErrPool, "connection pool is nil")
 	}
 
+	// nobody who waits for a connection can be served any more
+	close(d.done)
+
 	d.pool.Close(context.Background())
 
 	d.closed = true
@@ -88,7 +138,14 @@ func (d *driverPool) reclaim(conn connection.IConnection) error {
 		return errors.New("cannot reclaim nil connection")
 	}
 
-	return d.pool.ReturnObject(context.Background(), conn)
+	borrowed, ok := conn.(*connection.Borrowed)
+	if !ok || !borrowed.GiveBack(d) {
+		return errors.New("connection is not on loan from this pool")
+	}
+
+	defer d.release()
+
+	return d.pool.ReturnObject(context.Background(), borrowed.IConnection)
 }
 
 // ----------------------
-- 
2.43.0


From 3b268f4aba89b34ab9cb03dd3f0ae48289f60ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:45 +0000
Subject: [PATCH 15/25] fix: a member is reached at its bolt address, not at
 any address that has bolt in it

---
 routing/routing_handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/routing/routing_handler.go b/routing/routing_handler.go
index 15ff404..1f418e3 100644
--- a/routing/routing_handler.go
+++ b/routing/routing_handler.go
@@ -130,7 +130,7 @@ func (c *boltRoutingHandler) refreshClusterInfo(conn connection.IConnection) err
 		var boltStr string
 
 		for _, str := range addresses {
-			if strings.Contains(str, "bolt") {
+			if strings.HasPrefix(str, "bolt://") {
 				boltStr = str
 			}
 		}
-- 
2.43.0


From 181a50161eb040bbe556f28ced6eed8ea5dab04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:45 +0000
Subject: [PATCH 16/25] fix: the routing pool survives failures, respects its
 size and stops for good

- borrowing changed the pool under a lock for reading
- a removed connection was closed only if it was dead already
- connections to a server that lost its role were never found, and servers
  that kept theirs were taken for dead because of the credentials in the string
- a dead connection was put back or took its place in the pool with it
- a borrower's unfinished transaction reached the next borrower
- a shrinking cluster put the index out of range
- giving a connection back again closed it under its next borrower
- a failed start left connections open, a stopped pool went on refreshing, and
  closing stopped at the first connection that could not be closed
- the pool was locked for as long as the cluster took to answer
---
 routing/pool.go | 469 +++++++++++++++++++++++++++++++-----------------
 routing/util.go |   6 +
 2 files changed, 311 insertions(+), 164 deletions(-)

diff --git a/routing/pool.go b/routing/pool.go
index 24cfae3..3caa105 100644
--- a/routing/pool.go
+++ b/routing/pool.go
@@ -18,8 +18,12 @@ type routingPool struct {
 	tlsInfo       string
 	leaderConnStr string
 
-	// access mutex
-	mutex sync.RWMutex
+	// access mutex, not held while waiting for a server
+	mutex sync.Mutex
+	// closed when the pool is stopped
+	stop chan struct{}
+	// counts whoever may be opening a connection
+	opening sync.WaitGroup
 
 	// running
 	running *int32
@@ -36,18 +40,19 @@ type routingPool struct {
 	routingHandler  *boltRoutingHandler
 
 	// lookups
-	connStrLookup map[string][]*connectionPoolWrapper
 	borrowedConns map[string]*connectionPoolWrapper
 	heldConns     map[string]*connectionPoolWrapper
 
 	// write stuff
 	rwStrings  []string
 	rwIndex    int
+	rwPending  int
 	writeQueue *Queue
 
 	// read stuff
 	readStrings []string
 	readIndex   int
+	readPending int
 	readQueue   *Queue
 }
 
@@ -61,7 +66,7 @@ func NewRoutingPool(leaderConnStr string, numConns int, refreshInterval time.Dur
 		leaderConnStr = "bolt" + leaderConnStr[len("bolt+routing"):]
 	}
 
-	if numConns == 0 || numConns == 1 {
+	if numConns < 2 {
 		return nil, fmt.Errorf("number of connections must be greater than 1, provided [%v]", numConns)
 	}
 
@@ -72,7 +77,7 @@ func NewRoutingPool(leaderConnStr string, numConns int, refreshInterval time.Dur
 		userPassPart:    authPart,
 		tlsInfo:         tlsInfo,
 		leaderConnStr:   leaderConnStr,
-		mutex:           sync.RWMutex{},
+		mutex:           sync.Mutex{},
 		running:         &run,
 		updating:        &update,
 		totalConns:      numConns,
@@ -86,7 +91,6 @@ func NewRoutingPool(leaderConnStr string, numConns int, refreshInterval time.Dur
 			Followers:    []neoNodeConfig{},
 			ReadReplicas: []neoNodeConfig{},
 		},
-		connStrLookup: map[string][]*connectionPoolWrapper{},
 		borrowedConns: map[string]*connectionPoolWrapper{},
 		heldConns:     map[string]*connectionPoolWrapper{},
 		rwStrings:     []string{},
@@ -103,62 +107,130 @@ func (r *routingPool) removeConn(conn *connectionPoolWrapper) error {
 		return errors.New("invalid connection, can not be nil")
 	}
 
-	if !conn.Connection.ValidateOpen() {
+	delete(r.heldConns, conn.Connection.GetConnectionId())
+
+	if conn.Connection.ValidateOpen() {
 		err := conn.Connection.Close()
 		if err != nil {
 			return err
 		}
 	}
 
-	delete(r.heldConns, conn.Connection.GetConnectionId())
 	return nil
 }
 
-func (r *routingPool) addWriteConn() error {
-	// validate we have connection strings
-	if r.rwStrings == nil || len(r.rwStrings) == 0 {
-		return errors.New("no connection strings")
+// removeAll removes every connection of the queue
+func (r *routingPool) removeAll(queue *Queue) {
+	for queue.Size() != 0 {
+		err := r.removeConn(queue.Dequeue())
+		if err != nil {
+			log.Error(err)
+		}
+	}
+}
+
+// nextConnStr takes turns on the servers for the kind of connection
+func (r *routingPool) nextConnStr(connType bolt_mode.AccessMode, tried map[string]bool) (string, bool) {
+	connStrs, index := r.rwStrings, &r.rwIndex
+	if connType != bolt_mode.WriteMode {
+		connStrs, index = r.readStrings, &r.readIndex
+	}
+
+	for range connStrs {
+		*index++
+
+		// make sure its not an overflow
+		if *index >= len(connStrs) {
+			*index = 0
+		}
+
+		if !tried[connStrs[*index]] {
+			return connStrs[*index], true
+		}
+	}
+
+	return "", false
+}
+
+// isServing determines if the last refresh had the server for the kind of connection
+func (r *routingPool) isServing(connType bolt_mode.AccessMode, connStr string) bool {
+	if connType == bolt_mode.WriteMode {
+		return stringSliceContains(r.rwStrings, connStr)
+	}
+
+	return stringSliceContains(r.readStrings, connStr)
+}
+
+// addConn opens a connection to the first server that can be reached, the
+// mutex is released while it waits for one
+func (r *routingPool) addConn(connType bolt_mode.AccessMode) (*connectionPoolWrapper, error) {
+	pending := &r.rwPending
+	if connType != bolt_mode.WriteMode {
+		pending = &r.readPending
 	}
 
-	r.rwIndex++
+	*pending++
+	defer func() { *pending-- }()
+
+	r.opening.Add(1)
+	defer r.opening.Done()
 
-	// make sure its not an overflow
-	if r.rwIndex == len(r.rwStrings) {
-		r.rwIndex = 0
+	lastErr := errors.New("no connection strings")
+	tried := map[string]bool{}
+
+	for {
+		connStr, ok := r.nextConnStr(connType, tried)
+		if !ok {
+			return nil, lastErr
+		}
+		tried[connStr] = true
+
+		r.mutex.Unlock()
+		connWrap, err := r.newConnection(connType, connStr)
+		r.mutex.Lock()
+
+		if err == nil && r.isRunning() && r.isServing(connType, connStr) {
+			return connWrap, nil
+		}
+
+		if err == nil {
+			err = errors.New("server is not in use any more")
+			if closeErr := connWrap.Connection.Close(); closeErr != nil {
+				log.Error(closeErr)
+			}
+		}
+
+		if !r.isRunning() {
+			return nil, errors.New("pool is not running")
+		}
+
+		lastErr = err
 	}
+}
 
+func (r *routingPool) addWriteConn() error {
 	// create the bolt connection
-	connWrap, err := r.newConnection(bolt_mode.WriteMode, r.rwStrings[r.rwIndex])
+	connWrap, err := r.addConn(bolt_mode.WriteMode)
 	if err != nil {
 		return err
 	}
 
 	// add it to the queue
+	r.heldConns[connWrap.Connection.GetConnectionId()] = connWrap
 	r.writeQueue.Enqueue(connWrap)
 
 	return nil
 }
 
 func (r *routingPool) addReadConn() error {
-	// validate we have connection strings
-	if r.readStrings == nil || len(r.readStrings) == 0 {
-		return errors.New("no connection strings")
-	}
-
-	r.readIndex++
-
-	// make sure its not an overflow
-	if r.readIndex == len(r.readStrings) {
-		r.readIndex = 0
-	}
-
 	// create the bolt connection
-	connWrap, err := r.newConnection(bolt_mode.ReadMode, r.readStrings[r.readIndex])
+	connWrap, err := r.addConn(bolt_mode.ReadMode)
 	if err != nil {
 		return err
 	}
 
 	// add it to the queue
+	r.heldConns[connWrap.Connection.GetConnectionId()] = connWrap
 	r.readQueue.Enqueue(connWrap)
 
 	return nil
@@ -185,31 +257,31 @@ func (r *routingPool) newConnection(connType bolt_mode.AccessMode, connStr strin
 		markForDeletion: false,
 	}
 
-	r.heldConns[conn.GetConnectionId()] = connWrap
 	return connWrap, nil
 }
 
-func (r *routingPool) refreshConnections() {
+func (r *routingPool) refreshTopology() error {
 	conn, err := connection.CreateBoltConn(r.leaderConnStr)
 	if err != nil {
-		log.Error(err)
-		return
+		return err
 	}
 
 	defer conn.Close()
 
-	err = r.routingHandler.refreshClusterInfo(conn)
+	return r.routingHandler.refreshClusterInfo(conn)
+}
 
-	newWriteStrs := r.routingHandler.getWriteConnectionStrings()
-	newReadStrs := r.routingHandler.getReadOnlyConnectionString()
+func (r *routingPool) refreshConnections() {
+	newWriteStrs := r.addAuthInfoToConnStrs(r.routingHandler.getWriteConnectionStrings())
+	newReadStrs := r.addAuthInfoToConnStrs(r.routingHandler.getReadOnlyConnectionString())
 
-	var deadStrs, actualWrites, actualReads []string
+	var deadWrites, deadReads, actualWrites, actualReads []string
 
 	// check for dead strings
 	for _, curStr := range r.rwStrings {
 		// string is not found, so it must be dead
 		if !stringSliceContains(newWriteStrs, curStr) {
-			deadStrs = append(deadStrs, curStr)
+			deadWrites = append(deadWrites, curStr)
 		} else {
 			actualWrites = append(actualWrites, curStr)
 		}
@@ -218,7 +290,7 @@ func (r *routingPool) refreshConnections() {
 	for _, curStr := range r.readStrings {
 		// string is not found, so it must be dead
 		if !stringSliceContains(newReadStrs, curStr) {
-			deadStrs = append(deadStrs, curStr)
+			deadReads = append(deadReads, curStr)
 		} else {
 			actualReads = append(actualReads, curStr)
 		}
@@ -226,39 +298,34 @@ func (r *routingPool) refreshConnections() {
 
 	// add anything new
 	for _, newStr := range newWriteStrs {
-		newStr = r.addAuthInfoToConnStr(newStr)
 		if !stringSliceContains(actualWrites, newStr) {
 			actualWrites = append(actualWrites, newStr)
 		}
 	}
 
 	for _, newStr := range newReadStrs {
-		newStr = r.addAuthInfoToConnStr(newStr)
 		if !stringSliceContains(actualReads, newStr) {
 			actualReads = append(actualReads, newStr)
 		}
 	}
 
 	// mark them for deletion, system will rebalance elsewhere
-	if len(deadStrs) != 0 {
-		for _, str := range deadStrs {
-			conns, ok := r.connStrLookup[str]
-			if !ok || conns == nil || len(conns) == 0 {
-				continue
-			}
+	r.markDead(bolt_mode.WriteMode, deadWrites)
+	r.markDead(bolt_mode.ReadMode, deadReads)
 
-			for _, markedConn := range conns {
-				if markedConn == nil {
-					continue
-				}
+	r.rwStrings = actualWrites
+	r.readStrings = actualReads
+}
 
+// markDead marks every connection of the kind to one of the servers, in use or not
+func (r *routingPool) markDead(connType bolt_mode.AccessMode, deadStrs []string) {
+	for _, conns := range []map[string]*connectionPoolWrapper{r.heldConns, r.borrowedConns} {
+		for _, markedConn := range conns {
+			if markedConn.ConnType == connType && stringSliceContains(deadStrs, markedConn.ConnStr) {
 				markedConn.markForDeletion = true
 			}
 		}
 	}
-
-	r.rwStrings = actualWrites
-	r.readStrings = actualReads
 }
 
 func (r *routingPool) prune() {
@@ -266,7 +333,7 @@ func (r *routingPool) prune() {
 	writes := []*connectionPoolWrapper{}
 	for _, connWrap := range r.readQueue.items {
 		if connWrap.markForDeletion {
-			err := connWrap.Connection.Close()
+			err := r.removeConn(connWrap)
 			if err != nil {
 				log.Error(err)
 				continue
@@ -293,71 +360,82 @@ func (r *routingPool) prune() {
 }
 
 func (r *routingPool) balance() {
-	if r.readQueue.Size() < r.minReadIdle {
-		for r.readQueue.Size() == r.minReadIdle {
-			err := r.addReadConn()
-			if err != nil {
-				log.Error(err)
-				continue
-			}
+	// make sure amount of conns is correct and within limits
+	for r.writeQueue.Size() < r.minWriteIdle {
+		err := r.addWriteConn()
+		if err != nil {
+			log.Error(err)
+			break
 		}
 	}
 
-	// make sure amount of conns is correct and within limits
-	if r.writeQueue.Size() < r.minWriteIdle {
-		for r.writeQueue.Size() == r.minWriteIdle {
-			err := r.addWriteConn()
-			if err != nil {
-				log.Error(err)
-				continue
-			}
-		}
-	} else if r.writeQueue.Size() > r.maxWriteIdle {
-		for r.writeQueue.Size() == r.maxWriteIdle {
-			err := r.removeConn(r.writeQueue.Dequeue())
-			if err != nil {
-				log.Error(err)
-				continue
-			}
+	for r.writeQueue.Size() > r.maxWriteIdle {
+		err := r.removeConn(r.writeQueue.Dequeue())
+		if err != nil {
+			log.Error(err)
+			continue
 		}
 	}
 
 	// make sure amount of conns is correct and within limits
-	if r.readQueue.Size() < r.minReadIdle {
-		for r.readQueue.Size() == r.minReadIdle {
-			err := r.addReadConn()
-			if err != nil {
-				log.Error(err)
-				continue
-			}
+	for r.readQueue.Size() < r.minReadIdle {
+		err := r.addReadConn()
+		if err != nil {
+			log.Error(err)
+			break
 		}
-	} else if r.readQueue.Size() > r.maxReadIdle {
-		for r.readQueue.Size() == r.maxReadIdle {
-			err := r.removeConn(r.readQueue.Dequeue())
-			if err != nil {
-				log.Error(err)
-				continue
-			}
+	}
+
+	for r.readQueue.Size() > r.maxReadIdle {
+		err := r.removeConn(r.readQueue.Dequeue())
+		if err != nil {
+			log.Error(err)
+			continue
 		}
 	}
 }
 
-func (r *routingPool) refreshHandler() {
-	for r.isRunning() {
+func (r *routingPool) refreshHandler(stop chan struct{}) {
+	defer r.opening.Done()
+
+	timer := time.NewTimer(r.refreshInterval)
+	defer timer.Stop()
+
+	for {
 		// block routine until interval is up
-		<-time.After(r.refreshInterval)
-		r.mutex.Lock()
-		// refresh connections and mark dead conns
-		r.refreshConnections()
-		// remove dead conns
-		r.prune()
-		// balance pool to params
-		r.balance()
-		r.mutex.Unlock()
+		select {
+		case <-timer.C:
+		case <-stop:
+			return
+		}
+
+		// keep what is known of the cluster if it can not be refreshed
+		err := r.refreshTopology()
+		if err != nil {
+			log.Error(err)
+		} else {
+			r.mutex.Lock()
+			if !r.isRunning() {
+				r.mutex.Unlock()
+				return
+			}
+			// refresh connections and mark dead conns
+			r.refreshConnections()
+			// remove dead conns
+			r.prune()
+			// balance pool to params
+			r.balance()
+			r.mutex.Unlock()
+		}
+
+		timer.Reset(r.refreshInterval)
 	}
 }
 
 func (r *routingPool) Start() error {
+	r.mutex.Lock()
+	defer r.mutex.Unlock()
+
 	if r.isRunning() {
 		return errors.New("pool already running")
 	}
@@ -380,6 +458,28 @@ func (r *routingPool) Start() error {
 	//
 	//defer conn.Close()
 
+	err := r.fill()
+	if err != nil {
+		r.setRunning(false)
+		r.removeAll(r.readQueue)
+		r.removeAll(r.writeQueue)
+		return err
+	}
+
+	r.stop = make(chan struct{})
+	r.opening.Add(1)
+	go r.refreshHandler(r.stop)
+
+	return nil
+}
+
+// fill opens the initial connections
+func (r *routingPool) fill() error {
+	err := r.refreshTopology()
+	if err != nil {
+		return err
+	}
+
 	// refresh connections and mark dead conns
 	r.refreshConnections()
 
@@ -397,89 +497,113 @@ func (r *routingPool) Start() error {
 		}
 	}
 
-	go r.refreshHandler()
-
 	return nil
 }
 
 func (r *routingPool) Stop() error {
+	err := r.stopRunning()
+	if err != nil {
+		return err
+	}
+
+	// whoever is opening a connection gives up once it notices
+	r.opening.Wait()
+
+	return nil
+}
+
+func (r *routingPool) stopRunning() error {
+	r.mutex.Lock()
+	defer r.mutex.Unlock()
+
 	if !r.isRunning() {
 		return errors.New("routingPool is not running")
 	}
 
 	r.setRunning(false)
+	close(r.stop)
 
-	for r.readQueue.Size() != 0 {
-		err := r.removeConn(r.readQueue.Dequeue())
-		if err != nil {
-			return err
-		}
+	r.removeAll(r.readQueue)
+	r.removeAll(r.writeQueue)
+
+	return nil
+}
+
+// numConns gets the number of connections of the kind that there are or will be
+func (r *routingPool) numConns(connType bolt_mode.AccessMode) int {
+	num := r.rwPending
+	if connType != bolt_mode.WriteMode {
+		num = r.readPending
 	}
 
-	for r.writeQueue.Size() != 0 {
-		err := r.removeConn(r.writeQueue.Dequeue())
-		if err != nil {
-			return err
+	for _, conns := range []map[string]*connectionPoolWrapper{r.heldConns, r.borrowedConns} {
+		for _, connWrap := range conns {
+			if connWrap.ConnType == connType {
+				num++
+			}
 		}
 	}
 
-	return nil
+	return num
 }
 
-func (r *routingPool) internalBorrow(queue *Queue) (*connectionPoolWrapper, error) {
-	if queue == nil {
-		return nil, errors.New("queue can not be nil")
+func (r *routingPool) internalBorrow(connType bolt_mode.AccessMode) (connection.IConnection, error) {
+	r.mutex.Lock()
+	defer r.mutex.Unlock()
+
+	if !r.isRunning() {
+		return nil, errors.New("pool is not running")
 	}
 
-	conn := queue.Dequeue()
-	if conn == nil {
-		return nil, fmt.Errorf("stale queue")
+	queue, maxConns := r.writeQueue, r.maxWriteIdle
+	if connType != bolt_mode.WriteMode {
+		queue, maxConns = r.readQueue, r.maxReadIdle
 	}
 
-	if conn.markForDeletion {
-		err := r.removeConn(conn)
-		if err != nil {
-			return nil, err
+	conn := r.takeIdle(queue)
+	if conn == nil {
+		if r.numConns(connType) >= maxConns {
+			return nil, fmt.Errorf("all [%v] connections are in use", maxConns)
 		}
-		return r.internalBorrow(queue)
-	}
 
-	if !conn.Connection.ValidateOpen() {
-		err := r.removeConn(conn)
+		var err error
+		conn, err = r.addConn(connType)
 		if err != nil {
 			return nil, err
 		}
-		return r.internalBorrow(queue)
 	}
 
 	delete(r.heldConns, conn.Connection.GetConnectionId())
 	r.borrowedConns[conn.Connection.GetConnectionId()] = conn
 
-	return conn, nil
+	return connection.Lend(conn.Connection, r), nil
 }
 
-func (r *routingPool) BorrowRConnection() (connection.IConnection, error) {
-	r.mutex.RLock()
-	defer r.mutex.RUnlock()
+// takeIdle takes a connection that can be used from the queue, nil if there is none
+func (r *routingPool) takeIdle(queue *Queue) *connectionPoolWrapper {
+	for {
+		conn := queue.Dequeue()
+		if conn == nil {
+			return nil
+		}
 
-	connWrap, err := r.internalBorrow(r.readQueue)
-	if err != nil {
-		return nil, err
+		if !conn.markForDeletion && conn.Connection.ValidateOpen() {
+			return conn
+		}
+
+		err := r.removeConn(conn)
+		if err != nil {
+			log.Error(err)
+		}
 	}
+}
 
-	return connWrap.Connection, nil
+func (r *routingPool) BorrowRConnection() (connection.IConnection, error) {
+	return r.internalBorrow(bolt_mode.ReadMode)
 }
 
 func (r *routingPool) BorrowRWConnection() (connection.IConnection, error) {
-	r.mutex.RLock()
-	defer r.mutex.RUnlock()
-
-	connWrap, err := r.internalBorrow(r.writeQueue)
-	if err != nil {
-		return nil, err
-	}
-
-	return connWrap.Connection, nil
+	return r.internalBorrow(bolt_mode.WriteMode)
 }
 
 func (r *routingPool) isRunning() bool {
@@ -507,21 +631,28 @@ func (r *routingPool) setUpdating(b bool) {
 }
 
 func (r *routingPool) Reclaim(conn connection.IConnection) error {
-	r.mutex.Lock()
-	defer r.mutex.Unlock()
-
-	if !r.isRunning() {
-		return errors.New("pool is not running")
+	if conn == nil {
+		return errors.New("cannot reclaim nil connection")
 	}
 
 	connId := conn.GetConnectionId()
 
+	borrowed, ok := conn.(*connection.Borrowed)
+	if !ok || !borrowed.GiveBack(r) {
+		return fmt.Errorf("connection not found with id [%s]", connId)
+	}
+
+	// whatever the borrower left unfinished does not reach the next one
+	idleErr := borrowed.MakeIdle()
+	if idleErr != nil {
+		log.Error(idleErr)
+	}
+
+	r.mutex.Lock()
+	defer r.mutex.Unlock()
+
 	connWrap, ok := r.borrowedConns[connId]
 	if !ok {
-		err := conn.Close()
-		if err != nil {
-			return fmt.Errorf("connection not found with id [%s]. Also had error closing connection, %w", connId, err)
-		}
 		return fmt.Errorf("connection not found with id [%s]", connId)
 	}
 
@@ -529,16 +660,18 @@ func (r *routingPool) Reclaim(conn connection.IConnection) error {
 	delete(r.borrowedConns, connId)
 	r.heldConns[connId] = connWrap
 
-	// check if the connection is dead, if it is discard and make a new one
-	if !connWrap.Connection.ValidateOpen() {
+	// check if the connection can be kept, if not discard it, the next borrower gets a new one
+	if !r.isRunning() || idleErr != nil || connWrap.markForDeletion || !connWrap.Connection.ValidateOpen() {
 		err := r.removeConn(connWrap)
 		if err != nil {
-			if connWrap.ConnType == bolt_mode.WriteMode {
-				return r.addWriteConn()
-			} else {
-				return r.addReadConn()
-			}
+			log.Error(err)
 		}
+
+		if !r.isRunning() {
+			return errors.New("pool is not running")
+		}
+
+		return nil
 	}
 
 	if connWrap.ConnType == bolt_mode.WriteMode {
@@ -562,3 +695,11 @@ func (r *routingPool) addAuthInfoToConnStr(connStr string) string {
 	}
 	return fmt.Sprintf("bolt://%s@%s%s", r.userPassPart, hostPort, r.tlsInfo)
 }
+
+func (r *routingPool) addAuthInfoToConnStrs(connStrs []string) []string {
+	withAuth := make([]string, len(connStrs))
+	for i, connStr := range connStrs {
+		withAuth[i] = r.addAuthInfoToConnStr(connStr)
+	}
+	return withAuth
+}
diff --git a/routing/util.go b/routing/util.go
index 8d4e151..f1e8e1a 100644
--- a/routing/util.go
+++ b/routing/util.go
@@ -2,13 +2,19 @@ package routing
 
 import (
 	"math/rand"
+	"sync"
 	"time"
 )
 
 var seededRand *rand.Rand = rand.New(
 	rand.NewSource(time.Now().UnixNano()))
 
+var seededRandMutex sync.Mutex
+
 func stringWithCharset(length int, charset string) string {
+	seededRandMutex.Lock()
+	defer seededRandMutex.Unlock()
+
 	b := make([]byte, length)
 	for i := range b {
 		b[i] = charset[seededRand.Intn(len(charset))]
-- 
2.43.0


From 9096aa79c7967124a7df3ccc25585c181e4411b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:32 +0000
Subject: [PATCH 17/25] fix: send and read durations as neo4j defines them

A time.Duration parameter was written as floating point months, days and
seconds, which a server refuses, each of them (and the nanoseconds) covering
the whole duration, and a duration in a result was the product of its parts.
---
 encoding/encoding_v2/decoderV2.go | 25 ++++++++++++++++++++++++-
 encoding/encoding_v2/encoderV2.go | 28 ++++++++++------------------
 2 files changed, 34 insertions(+), 19 deletions(-)

diff --git a/encoding/encoding_v2/decoderV2.go b/encoding/encoding_v2/decoderV2.go
index dee4276..0ecb59a 100644
--- a/encoding/encoding_v2/decoderV2.go
+++ b/encoding/encoding_v2/decoderV2.go
@@ -12,9 +12,15 @@ import (
 	"github.com/mindstand/go-bolt/structures/types"
 	"github.com/mindstand/gotime"
 	"io"
+	"math/big"
 	"time"
 )
 
+const (
+	secondsPerDay   int64 = 24 * 60 * 60
+	secondsPerMonth int64 = 2629746
+)
+
 type DecoderV2 struct {
 	r   io.Reader
 	buf *bytes.Buffer
@@ -557,7 +563,24 @@ func (d DecoderV2) decodeDuration(buffer *bytes.Buffer) (time.Duration, error) {
 		return -1, fmt.Errorf("unable to cast [%T] to [int64]", nanoSecondsI)
 	}
 
-	return time.Duration(month * days * seconds * nanoSeconds), nil
+	// a go duration has no calendar part: days have 24 hours, months have the average length neo4j uses
+	total := big.NewInt(nanoSeconds)
+	for _, part := range []struct{ count, seconds int64 }{
+		{month, secondsPerMonth},
+		{days, secondsPerDay},
+		{seconds, 1},
+	} {
+		nano := big.NewInt(part.count)
+		nano.Mul(nano, big.NewInt(part.seconds))
+		nano.Mul(nano, big.NewInt(int64(time.Second)))
+		total.Add(total, nano)
+	}
+
+	if !total.IsInt64() {
+		return -1, errors.New("Duration of %d months, %d days, %d seconds and %d nanoseconds does not fit a time.Duration", month, days, seconds, nanoSeconds)
+	}
+
+	return time.Duration(total.Int64()), nil
 }
 
 func (d DecoderV2) decodePoint2D(buffer *bytes.Buffer) (types.Point2D, error) {
diff --git a/encoding/encoding_v2/encoderV2.go b/encoding/encoding_v2/encoderV2.go
index 01fe2f0..8302dd7 100644
--- a/encoding/encoding_v2/encoderV2.go
+++ b/encoding/encoding_v2/encoderV2.go
@@ -299,10 +299,9 @@ func (e EncoderV2) encodeTime(t time.Time) error {
 }
 
 func (e EncoderV2) encodeDuration(d time.Duration) error {
-	months := d.Seconds() / 2600640
-	days := d.Seconds() / 86400
-	seconds := d.Seconds()
-	nano := d.Nanoseconds()
+	// a go duration has no calendar part, it is a number of seconds and nanoseconds
+	seconds := int64(d / time.Second)
+	nano := int64(d % time.Second)
 
 	_, err := e.Write([]byte{byte(encode_consts.TinyStructMarker | encode_consts.DurationTimeStructSize)})
 	if err != nil {
@@ -314,22 +313,15 @@ func (e EncoderV2) encodeDuration(d time.Duration) error {
 		return err
 	}
 
-	err = e.encode(months)
-	if err != nil {
-		return err
-	}
-
-	err = e.encode(days)
-	if err != nil {
-		return err
-	}
-
-	err = e.encode(seconds)
-	if err != nil {
-		return err
+	// months, days, seconds, nanoseconds
+	for _, part := range []int64{0, 0, seconds, nano} {
+		err = e.encode(part)
+		if err != nil {
+			return err
+		}
 	}
 
-	return e.encode(nano)
+	return nil
 }
 
 func (e EncoderV2) encodeNil() error {
-- 
2.43.0


From 907c4603034ffef2c1327a1a416259d1fced4bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:56 +0000
Subject: [PATCH 18/25] fix: send dates outside 1678-2262 and clocks made from
 a time as they are

Both went by way of a time.Duration since 1970, which only spans 292 years, so
another date than the caller's, or no time of day at all, reached the server.
---
 encoding/encoding_v2/encoderV2.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/encoding/encoding_v2/encoderV2.go b/encoding/encoding_v2/encoderV2.go
index 8302dd7..92a5c83 100644
--- a/encoding/encoding_v2/encoderV2.go
+++ b/encoding/encoding_v2/encoderV2.go
@@ -206,7 +206,8 @@ func (e EncoderV2) encodeDate(d gotime.Date) error {
 		return err
 	}
 
-	return e.encode(int64(d.ToEpochDays()))
+	// ToEpochDays goes by way of a time.Duration, which only spans 292 years
+	return e.encode(d.GetTime().Unix() / secondsPerDay)
 }
 
 func (e EncoderV2) encodeClock(c gotime.Clock) error {
@@ -220,12 +221,16 @@ func (e EncoderV2) encodeClock(c gotime.Clock) error {
 		return err
 	}
 
-	err = e.encode(c.ToDayNano())
+	t := c.GetTime()
+	hour, minute, second := t.Clock()
+
+	// ToDayNano only works for a clock that was made for the day of the unix epoch
+	err = e.encode(int64(hour*60*60+minute*60+second)*int64(time.Second) + int64(t.Nanosecond()))
 	if err != nil {
 		return err
 	}
 
-	_, offset := c.GetTime().Zone()
+	_, offset := t.Zone()
 
 	return e.encode(offset)
 }
-- 
2.43.0


From cc69a4555aee3c3410050b7dc58cb5854407244b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:48 +0000
Subject: [PATCH 19/25] fix: keep the wall clock of date-times close to a
 change of their zone's offset

The offset was looked up at the wall clock taken as UTC, so a date-time with a
zone id within hours of a change, or a local date-time on a machine in such a
zone, came out an hour off.
---
 encoding/encoding_v2/decoderV2.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/encoding/encoding_v2/decoderV2.go b/encoding/encoding_v2/decoderV2.go
index 0ecb59a..a206c25 100644
--- a/encoding/encoding_v2/decoderV2.go
+++ b/encoding/encoding_v2/decoderV2.go
@@ -432,7 +432,14 @@ func (d DecoderV2) decodeLocalDateTime(buffer *bytes.Buffer) (gotime.LocalTime,
 		return gotime.LocalTime{}, fmt.Errorf("unable to cast [%T] to [int64]", nanoOfDayI)
 	}
 
-	return gotime.NewLocalTimeFromUnix(epochSeconds, nanoOfDay), nil
+	return gotime.NewLocalTimeFromTime(wallClock(epochSeconds, nanoOfDay, time.Local)), nil
+}
+
+// wallClock returns the time at which the clocks of the location show what a
+// clock in UTC shows at the unix time
+func wallClock(epochSeconds, nano int64, loc *time.Location) time.Time {
+	t := time.Unix(epochSeconds, nano).UTC()
+	return time.Date(t.Year(), t.Month(), t.Day(), t.Hour(), t.Minute(), t.Second(), t.Nanosecond(), loc)
 }
 
 func (d DecoderV2) decodeDateTimeWithZoneOffset(buffer *bytes.Buffer) (time.Time, error) {
@@ -512,13 +519,7 @@ func (d DecoderV2) decodeTimeWithZoneId(buffer *bytes.Buffer) (time.Time, error)
 		return time.Time{}, fmt.Errorf("unable to load zone info for [%v]", loc)
 	}
 
-	timeWithoutOffsetCorrection := time.Unix(epochSecondLocal, nanoOfDayLocal).In(loc)
-
-	_, offset := timeWithoutOffsetCorrection.Zone() // get second offset from zone
-
-	return timeWithoutOffsetCorrection.
-			Add(time.Duration(-offset) * time.Second), // correct for zone offset
-		nil
+	return wallClock(epochSecondLocal, nanoOfDayLocal, loc), nil
 }
 
 // todo improve time functions
-- 
2.43.0


From 808abeb1038450d91553ad51d57628d45a8dd4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:51 +0000
Subject: [PATCH 20/25] fix: refuse WithRouting together with a connection
 string in either order

With the connection string last the routing option was dropped silently.
---
 opt.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/opt.go b/opt.go
index 5380af0..adf6696 100644
--- a/opt.go
+++ b/opt.go
@@ -18,6 +18,10 @@ func WithConnectionString(connString string) Opt {
 			return errors.Wrap(errors.ErrConfiguration, "can not call WithConnectionString and WithHostPort")
 		}
 
+		if client.routing {
+			return errors.Wrap(errors.ErrConfiguration, "can not call WithConnectionString and WithRouting")
+		}
+
 		client.connStr = connString
 		return nil
 	}
-- 
2.43.0


From bff6f4e941f864abcf6d965c265c43e490aa65bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:21 +0000
Subject: [PATCH 21/25] fix: negotiate only the protocol versions the options
 allow

WithStrictProtocolVersion, WithProtocolVersionGreaterThan and
WithProtocolVersionLessThan were accepted and had no effect.
---
 client.go                | 24 ++++++++++++++++++++++++
 connection/connection.go | 38 ++++++++++++++++++++++++++++++++++++--
 connection/const.go      |  8 +++++++-
 3 files changed, 67 insertions(+), 3 deletions(-)

diff --git a/client.go b/client.go
index b6c27e1..8b5a8e5 100644
--- a/client.go
+++ b/client.go
@@ -73,6 +73,10 @@ func NewClient(opts ...Opt) (IClient, error) {
 		client.chunkSize = math.MaxUint16
 	}
 
+	if len(client.protocolVersions()) == 0 {
+		return nil, errors.Wrap(errors.ErrConfiguration, "the options allow no protocol version")
+	}
+
 	// figure out the connection string
 	if client.connStr == "" {
 		var protocol string
@@ -187,10 +191,30 @@ func (c *Client) addOptions(connUrl *url.URL) string {
 		query.Set("chunk_size", strconv.Itoa(int(c.chunkSize)))
 	}
 
+	if versions := c.protocolVersions(); len(versions) < connection.MaxProtocolVersion && query.Get("protocol_versions") == "" {
+		query.Set("protocol_versions", strings.Join(versions, ","))
+	}
+
 	connUrl.RawQuery = query.Encode()
 	return connUrl.String()
 }
 
+// protocolVersions lists the protocol versions the options allow, the preferred one first
+func (c *Client) protocolVersions() []string {
+	versions := []string{}
+	for version := connection.MaxProtocolVersion; version > 0; version-- {
+		if c.serverVersion != 0 && version != c.serverVersion ||
+			c.protocolGreaterThan != 0 && version <= c.protocolGreaterThan ||
+			c.protocolLessThan != 0 && version >= c.protocolLessThan {
+			continue
+		}
+
+		versions = append(versions, strconv.Itoa(version))
+	}
+
+	return versions
+}
+
 // getOptionsPortion gets the part of the connection string that applies to every member of a cluster
 func (c *Client) getOptionsPortion() (string, error) {
 	u, err := url.Parse(c.connStr)
diff --git a/connection/connection.go b/connection/connection.go
index 98b218e..0526707 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -76,6 +76,9 @@ type Connection struct {
 	keyFile     string
 	tlsNoVerify bool
 
+	// offers are the protocol versions to negotiate, as they go into the handshake
+	offers []byte
+
 	// connection config
 	accessMode bolt_mode.AccessMode
 
@@ -153,6 +156,11 @@ func newConnectionFromConnectionString(connStr string) (*Connection, error) {
 		connection.chunkSize = uint16(size)
 	}
 
+	connection.offers, err = parseProtocolVersions(_url.Query().Get("protocol_versions"))
+	if err != nil {
+		return nil, err
+	}
+
 	useTLS := _url.Query().Get("tls")
 	connection.useTLS = strings.HasPrefix(strings.ToLower(useTLS), "t") || useTLS == "1"
 
@@ -167,6 +175,26 @@ func newConnectionFromConnectionString(connStr string) (*Connection, error) {
 	return &connection, nil
 }
 
+// parseProtocolVersions turns a list of protocol versions, all of them when it is empty, into the offers of a handshake
+func parseProtocolVersions(list string) ([]byte, error) {
+	if list == "" {
+		return supportedVersions, nil
+	}
+
+	versions := strings.Split(list, ",")
+	offers := make([]byte, len(supportedVersions))
+	for i, version := range versions {
+		number, err := strconv.Atoi(version)
+		if err != nil || number < 1 || number > MaxProtocolVersion || len(versions) > MaxProtocolVersion {
+			return nil, fmt.Errorf("Invalid format for protocol_versions: %s.  Must be at most %d versions from 1 to %d", list, MaxProtocolVersion, MaxProtocolVersion)
+		}
+
+		offers[(i+1)*protocolVersionSize-1] = byte(number)
+	}
+
+	return offers, nil
+}
+
 // ParseTimeout parses the timeout of a connection string, a number of seconds or a duration like "1.5s"
 func ParseTimeout(timeout string) (time.Duration, error) {
 	if timeoutInt, err := strconv.Atoi(timeout); err == nil {
@@ -263,7 +291,7 @@ func (c *Connection) tlsConfig() (*tls.Config, error) {
 }
 
 func (c *Connection) handshake() ([]byte, error) {
-	numWritten, err := c.readWrite.Write(handShake)
+	numWritten, err := c.readWrite.Write(append(magicPreamble[:len(magicPreamble):len(magicPreamble)], c.offers...))
 	if err != nil {
 		return nil, err
 	} else if numWritten != 20 {
@@ -280,7 +308,13 @@ func (c *Connection) handshake() ([]byte, error) {
 		return nil, errors.New("server responded with no supported version")
 	}
 
-	return version, nil
+	for i := 0; i < len(c.offers); i += protocolVersionSize {
+		if bytes.Equal(version, c.offers[i:i+protocolVersionSize]) {
+			return version, nil
+		}
+	}
+
+	return nil, fmt.Errorf("server chose version [%v] which was not offered", version)
 }
 
 func (c *Connection) initialize() error {
diff --git a/connection/const.go b/connection/const.go
index 359b206..2b50d4b 100644
--- a/connection/const.go
+++ b/connection/const.go
@@ -1,5 +1,12 @@
 package connection
 
+const (
+	// MaxProtocolVersion is the newest protocol version this driver speaks
+	MaxProtocolVersion = 4
+	// protocolVersionSize is the size of a protocol version in the handshake
+	protocolVersionSize = 4
+)
+
 var (
 	magicPreamble     = []byte{0x60, 0x60, 0xb0, 0x17}
 	supportedVersions = []byte{
@@ -8,7 +15,6 @@ var (
 		0x00, 0x00, 0x00, 0x02, // bolt v2
 		0x00, 0x00, 0x00, 0x01, // bolt v1
 	}
-	handShake          = append(magicPreamble, supportedVersions...)
 	noVersionSupported = []byte{0x00, 0x00, 0x00, 0x00}
 	// Version is the current version of this driver
 	Version = "0.1"
-- 
2.43.0


From 0ff03932af44a5565ab87f64477d59426803dc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:17 +0000
Subject: [PATCH 22/25] fix: a connection is lent with the settings it was
 configured with

---
 connection/borrowed.go   |  4 +++-
 connection/connection.go | 16 ++++++++++++++++
 connection/interface.go  |  3 +++
 3 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/connection/borrowed.go b/connection/borrowed.go
index 292120d..9ac77cf 100644
--- a/connection/borrowed.go
+++ b/connection/borrowed.go
@@ -10,8 +10,10 @@ type Borrowed struct {
 	returned int32
 }
 
-// Lend starts a loan of the connection
+// Lend starts a loan of the connection, with the settings it was configured
+// with whatever an earlier borrower has set
 func Lend(conn IConnection, lender interface{}) *Borrowed {
+	conn.resetSettings()
 	return &Borrowed{IConnection: conn, lender: lender}
 }
 
diff --git a/connection/connection.go b/connection/connection.go
index 0526707..b7006f8 100644
--- a/connection/connection.go
+++ b/connection/connection.go
@@ -94,6 +94,10 @@ type Connection struct {
 	openQuery bool
 	mutex     sync.Mutex
 
+	// timeout and chunk size as configured
+	configTimeout   time.Duration
+	configChunkSize uint16
+
 	// for pool tracking
 	id string
 }
@@ -172,6 +176,9 @@ func newConnectionFromConnectionString(connStr string) (*Connection, error) {
 		connection.tlsNoVerify = strings.HasPrefix(strings.ToLower(noVerify), "t") || noVerify == "1"
 	}
 
+	connection.configTimeout = connection.timeout
+	connection.configChunkSize = connection.chunkSize
+
 	return &connection, nil
 }
 
@@ -415,6 +422,15 @@ func (c *Connection) SetTimeout(timeout time.Duration) {
 	c.timeout = timeout
 }
 
+// resetSettings undoes SetTimeout and SetChunkSize
+func (c *Connection) resetSettings() {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+
+	c.timeout = c.configTimeout
+	c.chunkSize = c.configChunkSize
+}
+
 func (c *Connection) Exec(query string, params QueryParams) (IResult, error) {
 	return c.ExecWithDb(query, params, "")
 }
diff --git a/connection/interface.go b/connection/interface.go
index 9518da9..53ee0d9 100644
--- a/connection/interface.go
+++ b/connection/interface.go
@@ -53,6 +53,9 @@ type IConnection interface {
 	// ackFailure(failure messages.FailureMessage) error
 	reset() error
 
+	// undoes SetTimeout and SetChunkSize
+	resetSettings()
+
 	// closes connection
 	Close() error
 
-- 
2.43.0


From 0b0f0387aead289faf25279c1878c602dff0bc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:26 +0000
Subject: [PATCH 23/25] fix: accept IPv6 addresses in a connection string

---
 client.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/client.go b/client.go
index 8b5a8e5..99679a9 100644
--- a/client.go
+++ b/client.go
@@ -119,12 +119,12 @@ func NewClient(opts ...Opt) (IClient, error) {
 
 		hostPort := _url.Host
 		if strings.Contains(hostPort, ":") {
-			parts := strings.Split(hostPort, ":")
-			if len(parts) != 2 {
+			host, port, err := net.SplitHostPort(hostPort)
+			if err != nil {
 				return nil, errors.New("host/port invalid")
 			}
-			client.host = parts[0]
-			_port, err := strconv.ParseInt(parts[1], 10, 64)
+			client.host = host
+			_port, err := strconv.ParseInt(port, 10, 64)
 			if err != nil {
 				return nil, err
 			}
-- 
2.43.0


From 6e223ce45a6e2c8af6676eee1ba64af639f48700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:35 +0000
Subject: [PATCH 24/25] fix: refuse values nested so deep that they would
 exhaust the stack

---
 encoding/encode_consts/const.go   | 3 +++
 encoding/encoding_v1/decoderV1.go | 9 +++++++++
 encoding/encoding_v2/decoderV2.go | 9 +++++++++
 3 files changed, 21 insertions(+)

diff --git a/encoding/encode_consts/const.go b/encoding/encode_consts/const.go
index aa74f75..96eec66 100644
--- a/encoding/encode_consts/const.go
+++ b/encoding/encode_consts/const.go
@@ -73,6 +73,9 @@ const (
 
 	DurationSignature      byte = 'E'
 	DurationTimeStructSize int  = 4
+
+	// MaxDepth is how deep the values of a message may be nested in each other
+	MaxDepth = 10000
 )
 
 var (
diff --git a/encoding/encoding_v1/decoderV1.go b/encoding/encoding_v1/decoderV1.go
index 7cce41c..c6b66c4 100644
--- a/encoding/encoding_v1/decoderV1.go
+++ b/encoding/encoding_v1/decoderV1.go
@@ -23,6 +23,9 @@ import (
 type DecoderV1 struct {
 	r   io.Reader
 	buf *bytes.Buffer
+
+	// how deep the value being decoded is nested
+	depth int
 }
 
 // NewDecoder Creates a new DecoderV1 object
@@ -102,6 +105,12 @@ func (d DecoderV1) Decode() (interface{}, error) {
 
 func (d DecoderV1) decode(buffer *bytes.Buffer) (interface{}, error) {
 
+	// every level takes up stack, which can not grow without limit
+	d.depth++
+	if d.depth > encode_consts.MaxDepth {
+		return nil, errors.New("Values are nested more than %d levels deep", encode_consts.MaxDepth)
+	}
+
 	marker, err := buffer.ReadByte()
 	if err != nil {
 		return nil, errors.Wrap(err, "Error reading marker")
diff --git a/encoding/encoding_v2/decoderV2.go b/encoding/encoding_v2/decoderV2.go
index a206c25..f131040 100644
--- a/encoding/encoding_v2/decoderV2.go
+++ b/encoding/encoding_v2/decoderV2.go
@@ -24,6 +24,9 @@ const (
 type DecoderV2 struct {
 	r   io.Reader
 	buf *bytes.Buffer
+
+	// how deep the value being decoded is nested
+	depth int
 }
 
 // NewDecoder Creates a new DecoderV2 object
@@ -103,6 +106,12 @@ func (d DecoderV2) Decode() (interface{}, error) {
 
 func (d DecoderV2) decode(buffer *bytes.Buffer) (interface{}, error) {
 
+	// every level takes up stack, which can not grow without limit
+	d.depth++
+	if d.depth > encode_consts.MaxDepth {
+		return nil, errors.New("Values are nested more than %d levels deep", encode_consts.MaxDepth)
+	}
+
 	marker, err := buffer.ReadByte()
 	if err != nil {
 		return nil, errors.Wrap(err, "Error reading marker")
-- 
2.43.0


From b9e59e84954b58ec1e736145252be499c5ba98e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:50 +0000
Subject: [PATCH 25/25] fix: allocate for the items of a list or map as they
 are read

---
 encoding/encoding_v1/decoderV1.go |  6 +++---
 encoding/encoding_v2/decoderV2.go |  6 +++---
 encoding/util.go                  | 14 ++++++++++++++
 3 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/encoding/encoding_v1/decoderV1.go b/encoding/encoding_v1/decoderV1.go
index c6b66c4..05cb4c4 100644
--- a/encoding/encoding_v1/decoderV1.go
+++ b/encoding/encoding_v1/decoderV1.go
@@ -271,13 +271,13 @@ func (d DecoderV1) decodeSlice(buffer *bytes.Buffer, size int) ([]interface{}, e
 		return nil, errors.New("Slice of %d items announced, but only %d bytes are left in the message", size, buffer.Len())
 	}
 
-	slice := make([]interface{}, size)
+	slice := make([]interface{}, 0, encoding.CapacityFor(size))
 	for i := 0; i < size; i++ {
 		item, err := d.decode(buffer)
 		if err != nil {
 			return nil, err
 		}
-		slice[i] = item
+		slice = append(slice, item)
 	}
 
 	return slice, nil
@@ -289,7 +289,7 @@ func (d DecoderV1) decodeMap(buffer *bytes.Buffer, size int) (map[string]interfa
 		return nil, errors.New("Map of %d entries announced, but only %d bytes are left in the message", size, buffer.Len())
 	}
 
-	mapp := make(map[string]interface{}, size)
+	mapp := make(map[string]interface{}, encoding.CapacityFor(size))
 	for i := 0; i < size; i++ {
 		keyInt, err := d.decode(buffer)
 		if err != nil {
diff --git a/encoding/encoding_v2/decoderV2.go b/encoding/encoding_v2/decoderV2.go
index f131040..ca3e8d9 100644
--- a/encoding/encoding_v2/decoderV2.go
+++ b/encoding/encoding_v2/decoderV2.go
@@ -272,13 +272,13 @@ func (d DecoderV2) decodeSlice(buffer *bytes.Buffer, size int) ([]interface{}, e
 		return nil, errors.New("Slice of %d items announced, but only %d bytes are left in the message", size, buffer.Len())
 	}
 
-	slice := make([]interface{}, size)
+	slice := make([]interface{}, 0, encoding.CapacityFor(size))
 	for i := 0; i < size; i++ {
 		item, err := d.decode(buffer)
 		if err != nil {
 			return nil, err
 		}
-		slice[i] = item
+		slice = append(slice, item)
 	}
 
 	return slice, nil
@@ -290,7 +290,7 @@ func (d DecoderV2) decodeMap(buffer *bytes.Buffer, size int) (map[string]interfa
 		return nil, errors.New("Map of %d entries announced, but only %d bytes are left in the message", size, buffer.Len())
 	}
 
-	mapp := make(map[string]interface{}, size)
+	mapp := make(map[string]interface{}, encoding.CapacityFor(size))
 	for i := 0; i < size; i++ {
 		keyInt, err := d.decode(buffer)
 		if err != nil {
diff --git a/encoding/util.go b/encoding/util.go
index bd6e2b0..7a80d45 100644
--- a/encoding/util.go
+++ b/encoding/util.go
@@ -5,6 +5,20 @@ import (
 	"github.com/mindstand/go-bolt/structures/graph"
 )
 
+// most items to allocate for before any of them has been read
+const maxCapacity = 64
+
+// CapacityFor gets how many items to allocate for when a message announces
+// size of them. Every item of a list may announce a list as long as the rest
+// of the message, so the announcement alone is not worth much.
+func CapacityFor(size int) int {
+	if size > maxCapacity {
+		return maxCapacity
+	}
+
+	return size
+}
+
 func SliceInterfaceToString(from []interface{}) ([]string, error) {
 	to := make([]string, len(from))
 	for idx, item := range from {
-- 
2.43.0

