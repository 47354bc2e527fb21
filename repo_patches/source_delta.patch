From e1600a3d2132d0c0b1ec8aac3f716f3e4d1c8e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:09 +0000
Subject: [PATCH 01/25] fix: decoders reject fixed-width fields that are cut
 short

bytes.Buffer.Read returns what is left without an error, so a truncated
integer was filled up with stale bytes and the message accepted.
---
 protocol/gen.go    |   5 +-
 protocol/genout.go | 175 +++++++++++++++++++++++----------------------
 2 files changed, 91 insertions(+), 89 deletions(-)

diff --git a/protocol/gen.go b/protocol/gen.go
index 17e6cf2..173fcaf 100644
--- a/protocol/gen.go
+++ b/protocol/gen.go
@@ -41,6 +41,7 @@ package protocol
 import (
 "bytes"
 "fmt"
+"io"
 _ "log"
 )
 `
@@ -143,7 +144,7 @@ return
 	ufunc = template.Must(template.New("mr").Parse(`func Unmarshal{{.UFunc}}Pkt (b *bytes.Buffer) ({{.URet}} t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
@@ -217,7 +218,7 @@ func emitEncodeInt(v interface{}, n string, l int, e *emitter) {
 func emitDecodeInt(v interface{}, n string, l int, e *emitter) {
 	t := reflect.ValueOf(v).Type().Name()
 	debug("emit reflect.ValueOf(v) %s %v, %v", t, n, l)
-	e.UCode.WriteString(fmt.Sprintf("\tif _, err = b.Read(u[:%v]); err != nil {\n\t\terr = fmt.Errorf(\"pkt too short for uint%v: need %v, have %%d\", b.Len())\n\treturn\n\t}\n", l, l*8, l))
+	e.UCode.WriteString(fmt.Sprintf("\tif _, err = io.ReadFull(b, u[:%v]); err != nil {\n\t\terr = fmt.Errorf(\"pkt too short for uint%v: need %v, have %%d\", b.Len())\n\treturn\n\t}\n", l, l*8, l))
 	e.UCode.WriteString(fmt.Sprintf("\t%v = %s(u[0])\n", n, t))
 	for i := 1; i < l; i++ {
 		e.UCode.WriteString(fmt.Sprintf("\t%v |= %s(u[%d])<<%v\n", n, t, i, i*8))
diff --git a/protocol/genout.go b/protocol/genout.go
index 05107d6..25d5e4a 100644
--- a/protocol/genout.go
+++ b/protocol/genout.go
@@ -3,6 +3,7 @@ package protocol
 import (
 "bytes"
 "fmt"
+"io"
 _ "log"
 )
 func MarshalRerrorPkt (b *bytes.Buffer, t Tag, Error string) {
@@ -24,13 +25,13 @@ return
 func UnmarshalRerrorPkt (b *bytes.Buffer) (Error string,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -71,13 +72,13 @@ return
 func UnmarshalRversionPkt (b *bytes.Buffer) (RMsize MaxSize, RVersion string,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -85,7 +86,7 @@ t = Tag(l)
 	RMsize |= MaxSize(u[1])<<8
 	RMsize |= MaxSize(u[2])<<16
 	RMsize |= MaxSize(u[3])<<24
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -126,13 +127,13 @@ return
 func UnmarshalTversionPkt (b *bytes.Buffer) (TMsize MaxSize, TVersion string,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -140,7 +141,7 @@ t = Tag(l)
 	TMsize |= MaxSize(u[1])<<8
 	TMsize |= MaxSize(u[2])<<16
 	TMsize |= MaxSize(u[3])<<24
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -220,18 +221,18 @@ return
 func UnmarshalRattachPkt (b *bytes.Buffer) (QID QID,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:1]); err != nil {
+	if _, err = io.ReadFull(b, u[:1]); err != nil {
 		err = fmt.Errorf("pkt too short for uint8: need 1, have %d", b.Len())
 	return
 	}
 	QID.Type = uint8(u[0])
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -239,7 +240,7 @@ t = Tag(l)
 	QID.Version |= uint32(u[1])<<8
 	QID.Version |= uint32(u[2])<<16
 	QID.Version |= uint32(u[3])<<24
-	if _, err = b.Read(u[:8]); err != nil {
+	if _, err = io.ReadFull(b, u[:8]); err != nil {
 		err = fmt.Errorf("pkt too short for uint64: need 8, have %d", b.Len())
 	return
 	}
@@ -287,13 +288,13 @@ return
 func UnmarshalTattachPkt (b *bytes.Buffer) (SFID FID, AFID FID, Uname string, Aname string,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -301,7 +302,7 @@ t = Tag(l)
 	SFID |= FID(u[1])<<8
 	SFID |= FID(u[2])<<16
 	SFID |= FID(u[3])<<24
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -309,7 +310,7 @@ t = Tag(l)
 	AFID |= FID(u[1])<<8
 	AFID |= FID(u[2])<<16
 	AFID |= FID(u[3])<<24
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -321,7 +322,7 @@ t = Tag(l)
 	}
 	Uname = string(b.Bytes()[:l])
 	_ = b.Next(int(l))
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -388,7 +389,7 @@ return
 func UnmarshalRflushPkt (b *bytes.Buffer) ( t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
@@ -419,13 +420,13 @@ return
 func UnmarshalTflushPkt (b *bytes.Buffer) (OTag Tag,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -504,13 +505,13 @@ return
 func UnmarshalRwalkPkt (b *bytes.Buffer) (QIDs []QID,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -518,12 +519,12 @@ t = Tag(l)
 	l |= uint64(u[1])<<8
 	QIDs = make([]QID, l)
 for i := range QIDs {
-	if _, err = b.Read(u[:1]); err != nil {
+	if _, err = io.ReadFull(b, u[:1]); err != nil {
 		err = fmt.Errorf("pkt too short for uint8: need 1, have %d", b.Len())
 	return
 	}
 	QIDs[i].Type = uint8(u[0])
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -531,7 +532,7 @@ for i := range QIDs {
 	QIDs[i].Version |= uint32(u[1])<<8
 	QIDs[i].Version |= uint32(u[2])<<16
 	QIDs[i].Version |= uint32(u[3])<<24
-	if _, err = b.Read(u[:8]); err != nil {
+	if _, err = io.ReadFull(b, u[:8]); err != nil {
 		err = fmt.Errorf("pkt too short for uint64: need 8, have %d", b.Len())
 	return
 	}
@@ -582,13 +583,13 @@ return
 func UnmarshalTwalkPkt (b *bytes.Buffer) (SFID FID, NewFID FID, Paths []string,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -596,7 +597,7 @@ t = Tag(l)
 	SFID |= FID(u[1])<<8
 	SFID |= FID(u[2])<<16
 	SFID |= FID(u[3])<<24
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -604,7 +605,7 @@ t = Tag(l)
 	NewFID |= FID(u[1])<<8
 	NewFID |= FID(u[2])<<16
 	NewFID |= FID(u[3])<<24
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -612,7 +613,7 @@ t = Tag(l)
 	l |= uint64(u[1])<<8
 	Paths = make([]string, l)
 for i := range Paths {
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -697,18 +698,18 @@ return
 func UnmarshalRopenPkt (b *bytes.Buffer) (OQID QID, IOUnit MaxSize,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:1]); err != nil {
+	if _, err = io.ReadFull(b, u[:1]); err != nil {
 		err = fmt.Errorf("pkt too short for uint8: need 1, have %d", b.Len())
 	return
 	}
 	OQID.Type = uint8(u[0])
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -716,7 +717,7 @@ t = Tag(l)
 	OQID.Version |= uint32(u[1])<<8
 	OQID.Version |= uint32(u[2])<<16
 	OQID.Version |= uint32(u[3])<<24
-	if _, err = b.Read(u[:8]); err != nil {
+	if _, err = io.ReadFull(b, u[:8]); err != nil {
 		err = fmt.Errorf("pkt too short for uint64: need 8, have %d", b.Len())
 	return
 	}
@@ -728,7 +729,7 @@ t = Tag(l)
 	OQID.Path |= uint64(u[5])<<40
 	OQID.Path |= uint64(u[6])<<48
 	OQID.Path |= uint64(u[7])<<56
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -764,13 +765,13 @@ return
 func UnmarshalTopenPkt (b *bytes.Buffer) (OFID FID, Omode Mode,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -778,7 +779,7 @@ t = Tag(l)
 	OFID |= FID(u[1])<<8
 	OFID |= FID(u[2])<<16
 	OFID |= FID(u[3])<<24
-	if _, err = b.Read(u[:1]); err != nil {
+	if _, err = io.ReadFull(b, u[:1]); err != nil {
 		err = fmt.Errorf("pkt too short for uint8: need 1, have %d", b.Len())
 	return
 	}
@@ -855,18 +856,18 @@ return
 func UnmarshalRcreatePkt (b *bytes.Buffer) (OQID QID, IOUnit MaxSize,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:1]); err != nil {
+	if _, err = io.ReadFull(b, u[:1]); err != nil {
 		err = fmt.Errorf("pkt too short for uint8: need 1, have %d", b.Len())
 	return
 	}
 	OQID.Type = uint8(u[0])
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -874,7 +875,7 @@ t = Tag(l)
 	OQID.Version |= uint32(u[1])<<8
 	OQID.Version |= uint32(u[2])<<16
 	OQID.Version |= uint32(u[3])<<24
-	if _, err = b.Read(u[:8]); err != nil {
+	if _, err = io.ReadFull(b, u[:8]); err != nil {
 		err = fmt.Errorf("pkt too short for uint64: need 8, have %d", b.Len())
 	return
 	}
@@ -886,7 +887,7 @@ t = Tag(l)
 	OQID.Path |= uint64(u[5])<<40
 	OQID.Path |= uint64(u[6])<<48
 	OQID.Path |= uint64(u[7])<<56
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -929,13 +930,13 @@ return
 func UnmarshalTcreatePkt (b *bytes.Buffer) (OFID FID, Name string, CreatePerm Perm, Omode Mode,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -943,7 +944,7 @@ t = Tag(l)
 	OFID |= FID(u[1])<<8
 	OFID |= FID(u[2])<<16
 	OFID |= FID(u[3])<<24
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -955,7 +956,7 @@ t = Tag(l)
 	}
 	Name = string(b.Bytes()[:l])
 	_ = b.Next(int(l))
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -963,7 +964,7 @@ t = Tag(l)
 	CreatePerm |= Perm(u[1])<<8
 	CreatePerm |= Perm(u[2])<<16
 	CreatePerm |= Perm(u[3])<<24
-	if _, err = b.Read(u[:1]); err != nil {
+	if _, err = io.ReadFull(b, u[:1]); err != nil {
 		err = fmt.Errorf("pkt too short for uint8: need 1, have %d", b.Len())
 	return
 	}
@@ -1026,13 +1027,13 @@ return
 func UnmarshalRstatPkt (b *bytes.Buffer) (B []byte,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -1067,13 +1068,13 @@ return
 func UnmarshalTstatPkt (b *bytes.Buffer) (OFID FID,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1136,7 +1137,7 @@ return
 func UnmarshalRwstatPkt (b *bytes.Buffer) ( t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
@@ -1172,13 +1173,13 @@ return
 func UnmarshalTwstatPkt (b *bytes.Buffer) (OFID FID, B []byte,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1186,7 +1187,7 @@ t = Tag(l)
 	OFID |= FID(u[1])<<8
 	OFID |= FID(u[2])<<16
 	OFID |= FID(u[3])<<24
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -1249,7 +1250,7 @@ return
 func UnmarshalRclunkPkt (b *bytes.Buffer) ( t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
@@ -1282,13 +1283,13 @@ return
 func UnmarshalTclunkPkt (b *bytes.Buffer) (OFID FID,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1351,7 +1352,7 @@ return
 func UnmarshalRremovePkt (b *bytes.Buffer) ( t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
@@ -1384,13 +1385,13 @@ return
 func UnmarshalTremovePkt (b *bytes.Buffer) (OFID FID,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1458,13 +1459,13 @@ return
 func UnmarshalRreadPkt (b *bytes.Buffer) (Data []uint8,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1513,13 +1514,13 @@ return
 func UnmarshalTreadPkt (b *bytes.Buffer) (OFID FID, Off Offset, Len Count,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1527,7 +1528,7 @@ t = Tag(l)
 	OFID |= FID(u[1])<<8
 	OFID |= FID(u[2])<<16
 	OFID |= FID(u[3])<<24
-	if _, err = b.Read(u[:8]); err != nil {
+	if _, err = io.ReadFull(b, u[:8]); err != nil {
 		err = fmt.Errorf("pkt too short for uint64: need 8, have %d", b.Len())
 	return
 	}
@@ -1539,7 +1540,7 @@ t = Tag(l)
 	Off |= Offset(u[5])<<40
 	Off |= Offset(u[6])<<48
 	Off |= Offset(u[7])<<56
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1606,13 +1607,13 @@ return
 func UnmarshalRwritePkt (b *bytes.Buffer) (RLen Count,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1660,13 +1661,13 @@ return
 func UnmarshalTwritePkt (b *bytes.Buffer) (OFID FID, Off Offset, Data []uint8,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1674,7 +1675,7 @@ t = Tag(l)
 	OFID |= FID(u[1])<<8
 	OFID |= FID(u[2])<<16
 	OFID |= FID(u[3])<<24
-	if _, err = b.Read(u[:8]); err != nil {
+	if _, err = io.ReadFull(b, u[:8]); err != nil {
 		err = fmt.Errorf("pkt too short for uint64: need 8, have %d", b.Len())
 	return
 	}
@@ -1686,7 +1687,7 @@ t = Tag(l)
 	Off |= Offset(u[5])<<40
 	Off |= Offset(u[6])<<48
 	Off |= Offset(u[7])<<56
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1807,13 +1808,13 @@ func Unmarshaldir (b *bytes.Buffer) (D Dir,  err error) {
 var u [8]uint8
 var l uint64
 _ = b.Next(2) // eat the length too
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
 	D.Type = uint16(u[0])
 	D.Type |= uint16(u[1])<<8
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1821,12 +1822,12 @@ _ = b.Next(2) // eat the length too
 	D.Dev |= uint32(u[1])<<8
 	D.Dev |= uint32(u[2])<<16
 	D.Dev |= uint32(u[3])<<24
-	if _, err = b.Read(u[:1]); err != nil {
+	if _, err = io.ReadFull(b, u[:1]); err != nil {
 		err = fmt.Errorf("pkt too short for uint8: need 1, have %d", b.Len())
 	return
 	}
 	D.QID.Type = uint8(u[0])
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1834,7 +1835,7 @@ _ = b.Next(2) // eat the length too
 	D.QID.Version |= uint32(u[1])<<8
 	D.QID.Version |= uint32(u[2])<<16
 	D.QID.Version |= uint32(u[3])<<24
-	if _, err = b.Read(u[:8]); err != nil {
+	if _, err = io.ReadFull(b, u[:8]); err != nil {
 		err = fmt.Errorf("pkt too short for uint64: need 8, have %d", b.Len())
 	return
 	}
@@ -1846,7 +1847,7 @@ _ = b.Next(2) // eat the length too
 	D.QID.Path |= uint64(u[5])<<40
 	D.QID.Path |= uint64(u[6])<<48
 	D.QID.Path |= uint64(u[7])<<56
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1854,7 +1855,7 @@ _ = b.Next(2) // eat the length too
 	D.Mode |= uint32(u[1])<<8
 	D.Mode |= uint32(u[2])<<16
 	D.Mode |= uint32(u[3])<<24
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1862,7 +1863,7 @@ _ = b.Next(2) // eat the length too
 	D.Atime |= uint32(u[1])<<8
 	D.Atime |= uint32(u[2])<<16
 	D.Atime |= uint32(u[3])<<24
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1870,7 +1871,7 @@ _ = b.Next(2) // eat the length too
 	D.Mtime |= uint32(u[1])<<8
 	D.Mtime |= uint32(u[2])<<16
 	D.Mtime |= uint32(u[3])<<24
-	if _, err = b.Read(u[:8]); err != nil {
+	if _, err = io.ReadFull(b, u[:8]); err != nil {
 		err = fmt.Errorf("pkt too short for uint64: need 8, have %d", b.Len())
 	return
 	}
@@ -1882,7 +1883,7 @@ _ = b.Next(2) // eat the length too
 	D.Length |= uint64(u[5])<<40
 	D.Length |= uint64(u[6])<<48
 	D.Length |= uint64(u[7])<<56
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -1894,7 +1895,7 @@ _ = b.Next(2) // eat the length too
 	}
 	D.Name = string(b.Bytes()[:l])
 	_ = b.Next(int(l))
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -1906,7 +1907,7 @@ _ = b.Next(2) // eat the length too
 	}
 	D.User = string(b.Bytes()[:l])
 	_ = b.Next(int(l))
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -1918,7 +1919,7 @@ _ = b.Next(2) // eat the length too
 	}
 	D.Group = string(b.Bytes()[:l])
 	_ = b.Next(int(l))
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
-- 
2.43.0


From 02292790484055b1f7477c735602b55788f5e753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:40 +0000
Subject: [PATCH 02/25] fix: decoders check the length of counted data before
 slicing it

A count larger than what was left of the message crashed the process, or
handed out bytes that were never received.
---
 protocol/gen.go    | 12 ++++++++----
 protocol/genout.go | 16 ++++++++++++++++
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/protocol/gen.go b/protocol/gen.go
index 173fcaf..265e1fc 100644
--- a/protocol/gen.go
+++ b/protocol/gen.go
@@ -245,6 +245,12 @@ func emitDecodeString(n string, e *emitter) {
 	e.UCode.WriteString("\t_ = b.Next(int(l))\n")
 }
 
+func emitDecodeBytes(n string, e *emitter) {
+	e.UCode.WriteString(fmt.Sprintf("\tif uint64(b.Len()) < l {\n\t\terr = fmt.Errorf(\"pkt too short for data: need %%d, have %%d\", l, b.Len())\n\treturn\n\t}\n"))
+	e.UCode.WriteString(fmt.Sprintf("\t%v = b.Bytes()[:l]\n", n))
+	e.UCode.WriteString("\t_ = b.Next(int(l))\n")
+}
+
 func genEncodeStruct(v interface{}, n string, e *emitter) error {
 	debug("genEncodeStruct(%T, %v, %v)", v, n, e)
 	t := reflect.ValueOf(v)
@@ -340,13 +346,11 @@ func genDecodeSlice(v interface{}, n string, e *emitter) error {
 	case "[]byte", "[]uint8":
 		var u uint64
 		emitDecodeInt(u, "l", 4, e)
-		e.UCode.WriteString(fmt.Sprintf("\t%v = b.Bytes()[:l]\n", n))
-		e.UCode.WriteString("\t_ = b.Next(int(l))\n")
+		emitDecodeBytes(n, e)
 	case "[]protocol.DataCnt16":
 		var u uint64
 		emitDecodeInt(u, "l", 2, e)
-		e.UCode.WriteString(fmt.Sprintf("\t%v = b.Bytes()[:l]\n", n))
-		e.UCode.WriteString("\t_ = b.Next(int(l))\n")
+		emitDecodeBytes(n, e)
 	default:
 		log.Printf("genDecodeSlice: Can't handle slice of %v", t)
 	}
diff --git a/protocol/genout.go b/protocol/genout.go
index 25d5e4a..92185aa 100644
--- a/protocol/genout.go
+++ b/protocol/genout.go
@@ -1039,6 +1039,10 @@ t = Tag(l)
 	}
 	l = uint64(u[0])
 	l |= uint64(u[1])<<8
+	if uint64(b.Len()) < l {
+		err = fmt.Errorf("pkt too short for data: need %d, have %d", l, b.Len())
+	return
+	}
 	B = b.Bytes()[:l]
 	_ = b.Next(int(l))
 
@@ -1193,6 +1197,10 @@ t = Tag(l)
 	}
 	l = uint64(u[0])
 	l |= uint64(u[1])<<8
+	if uint64(b.Len()) < l {
+		err = fmt.Errorf("pkt too short for data: need %d, have %d", l, b.Len())
+	return
+	}
 	B = b.Bytes()[:l]
 	_ = b.Next(int(l))
 
@@ -1473,6 +1481,10 @@ t = Tag(l)
 	l |= uint64(u[1])<<8
 	l |= uint64(u[2])<<16
 	l |= uint64(u[3])<<24
+	if uint64(b.Len()) < l {
+		err = fmt.Errorf("pkt too short for data: need %d, have %d", l, b.Len())
+	return
+	}
 	Data = b.Bytes()[:l]
 	_ = b.Next(int(l))
 
@@ -1695,6 +1707,10 @@ t = Tag(l)
 	l |= uint64(u[1])<<8
 	l |= uint64(u[2])<<16
 	l |= uint64(u[3])<<24
+	if uint64(b.Len()) < l {
+		err = fmt.Errorf("pkt too short for data: need %d, have %d", l, b.Len())
+	return
+	}
 	Data = b.Bytes()[:l]
 	_ = b.Next(int(l))
 
-- 
2.43.0


From 5895ea358f16f77a6d7b0acdfa0cf4310332da5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:19 +0000
Subject: [PATCH 03/25] fix: answer a request that does not decode with Rerror,
 do not run it

The decode error was ignored and the handler called with whatever had been
decoded so far: an empty Tremove removed the file of fid 0.
---
 protocol/gen.go    |  6 ++--
 protocol/genout.go | 72 ++++++++++++++++++++++++++++++----------------
 2 files changed, 52 insertions(+), 26 deletions(-)

diff --git a/protocol/gen.go b/protocol/gen.go
index 265e1fc..51e9b50 100644
--- a/protocol/gen.go
+++ b/protocol/gen.go
@@ -159,8 +159,10 @@ return
 `))
 	sfunc = template.Must(template.New("s").Parse(`func (s *Server) Srv{{.R.UFunc}}(b*bytes.Buffer) (err error) {
 	{{.T.MList}}{{.T.MLsep}} t, err := Unmarshal{{.T.MFunc}}Pkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		return err
+	}
 	if {{.R.MList}}{{.R.MLsep}} err := s.NS.{{.R.MFunc}}({{.T.MList}}); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
diff --git a/protocol/genout.go b/protocol/genout.go
index 92185aa..bd0ab3d 100644
--- a/protocol/genout.go
+++ b/protocol/genout.go
@@ -161,8 +161,10 @@ return
 }
 func (s *Server) SrvRversion(b*bytes.Buffer) (err error) {
 	TMsize, TVersion,  t, err := UnmarshalTversionPkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		return err
+	}
 	if RMsize, RVersion,  err := s.NS.Rversion(TMsize, TVersion); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
@@ -342,8 +344,10 @@ return
 }
 func (s *Server) SrvRattach(b*bytes.Buffer) (err error) {
 	SFID, AFID, Uname, Aname,  t, err := UnmarshalTattachPkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		return err
+	}
 	if QID,  err := s.NS.Rattach(SFID, AFID, Uname, Aname); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
@@ -440,8 +444,10 @@ return
 }
 func (s *Server) SrvRflush(b*bytes.Buffer) (err error) {
 	OTag,  t, err := UnmarshalTflushPkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		return err
+	}
 	if  err := s.NS.Rflush(OTag); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
@@ -634,8 +640,10 @@ return
 }
 func (s *Server) SrvRwalk(b*bytes.Buffer) (err error) {
 	SFID, NewFID, Paths,  t, err := UnmarshalTwalkPkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		return err
+	}
 	if QIDs,  err := s.NS.Rwalk(SFID, NewFID, Paths); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
@@ -792,8 +800,10 @@ return
 }
 func (s *Server) SrvRopen(b*bytes.Buffer) (err error) {
 	OFID, Omode,  t, err := UnmarshalTopenPkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		return err
+	}
 	if OQID, IOUnit,  err := s.NS.Ropen(OFID, Omode); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
@@ -977,8 +987,10 @@ return
 }
 func (s *Server) SrvRcreate(b*bytes.Buffer) (err error) {
 	OFID, Name, CreatePerm, Omode,  t, err := UnmarshalTcreatePkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		return err
+	}
 	if OQID, IOUnit,  err := s.NS.Rcreate(OFID, Name, CreatePerm, Omode); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
@@ -1094,8 +1106,10 @@ return
 }
 func (s *Server) SrvRstat(b*bytes.Buffer) (err error) {
 	OFID,  t, err := UnmarshalTstatPkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		return err
+	}
 	if B,  err := s.NS.Rstat(OFID); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
@@ -1211,8 +1225,10 @@ return
 }
 func (s *Server) SrvRwstat(b*bytes.Buffer) (err error) {
 	OFID, B,  t, err := UnmarshalTwstatPkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		return err
+	}
 	if  err := s.NS.Rwstat(OFID, B); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
@@ -1313,8 +1329,10 @@ return
 }
 func (s *Server) SrvRclunk(b*bytes.Buffer) (err error) {
 	OFID,  t, err := UnmarshalTclunkPkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		return err
+	}
 	if  err := s.NS.Rclunk(OFID); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
@@ -1415,8 +1433,10 @@ return
 }
 func (s *Server) SrvRremove(b*bytes.Buffer) (err error) {
 	OFID,  t, err := UnmarshalTremovePkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		return err
+	}
 	if  err := s.NS.Rremove(OFID); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
@@ -1568,8 +1588,10 @@ return
 }
 func (s *Server) SrvRread(b*bytes.Buffer) (err error) {
 	OFID, Off, Len,  t, err := UnmarshalTreadPkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		return err
+	}
 	if Data,  err := s.NS.Rread(OFID, Off, Len); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
@@ -1721,8 +1743,10 @@ return
 }
 func (s *Server) SrvRwrite(b*bytes.Buffer) (err error) {
 	OFID, Off, Data,  t, err := UnmarshalTwritePkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		return err
+	}
 	if RLen,  err := s.NS.Rwrite(OFID, Off, Data); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
-- 
2.43.0


From 75d263995e2d9fe99e276168091024b6300c535e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:59 +0000
Subject: [PATCH 04/25] fix: keep the error text of an Rerror within a 9P
 string

Errors quote what the client sent; a text over 64k wrapped the 16-bit count
and the client could not decode the reply.
---
 protocol/gen.go    |  3 ++-
 protocol/genout.go | 36 ++++++++++++++++++++++++------------
 2 files changed, 26 insertions(+), 13 deletions(-)

diff --git a/protocol/gen.go b/protocol/gen.go
index 51e9b50..8676cc0 100644
--- a/protocol/gen.go
+++ b/protocol/gen.go
@@ -164,7 +164,8 @@ return
 		return err
 	}
 	if {{.R.MList}}{{.R.MLsep}} err := s.NS.{{.R.MFunc}}({{.T.MList}}); err != nil {
-	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	// The text has to fit a 9P string.
+	MarshalRerrorPkt(b, t, fmt.Sprintf("%.16000v", err))
 } else {
 	Marshal{{.R.MFunc}}Pkt(b, t, {{.R.MList}})
 }
diff --git a/protocol/genout.go b/protocol/genout.go
index bd0ab3d..477649d 100644
--- a/protocol/genout.go
+++ b/protocol/genout.go
@@ -166,7 +166,8 @@ func (s *Server) SrvRversion(b*bytes.Buffer) (err error) {
 		return err
 	}
 	if RMsize, RVersion,  err := s.NS.Rversion(TMsize, TVersion); err != nil {
-	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	// The text has to fit a 9P string.
+	MarshalRerrorPkt(b, t, fmt.Sprintf("%.16000v", err))
 } else {
 	MarshalRversionPkt(b, t, RMsize, RVersion)
 }
@@ -349,7 +350,8 @@ func (s *Server) SrvRattach(b*bytes.Buffer) (err error) {
 		return err
 	}
 	if QID,  err := s.NS.Rattach(SFID, AFID, Uname, Aname); err != nil {
-	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	// The text has to fit a 9P string.
+	MarshalRerrorPkt(b, t, fmt.Sprintf("%.16000v", err))
 } else {
 	MarshalRattachPkt(b, t, QID)
 }
@@ -449,7 +451,8 @@ func (s *Server) SrvRflush(b*bytes.Buffer) (err error) {
 		return err
 	}
 	if  err := s.NS.Rflush(OTag); err != nil {
-	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	// The text has to fit a 9P string.
+	MarshalRerrorPkt(b, t, fmt.Sprintf("%.16000v", err))
 } else {
 	MarshalRflushPkt(b, t, )
 }
@@ -645,7 +648,8 @@ func (s *Server) SrvRwalk(b*bytes.Buffer) (err error) {
 		return err
 	}
 	if QIDs,  err := s.NS.Rwalk(SFID, NewFID, Paths); err != nil {
-	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	// The text has to fit a 9P string.
+	MarshalRerrorPkt(b, t, fmt.Sprintf("%.16000v", err))
 } else {
 	MarshalRwalkPkt(b, t, QIDs)
 }
@@ -805,7 +809,8 @@ func (s *Server) SrvRopen(b*bytes.Buffer) (err error) {
 		return err
 	}
 	if OQID, IOUnit,  err := s.NS.Ropen(OFID, Omode); err != nil {
-	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	// The text has to fit a 9P string.
+	MarshalRerrorPkt(b, t, fmt.Sprintf("%.16000v", err))
 } else {
 	MarshalRopenPkt(b, t, OQID, IOUnit)
 }
@@ -992,7 +997,8 @@ func (s *Server) SrvRcreate(b*bytes.Buffer) (err error) {
 		return err
 	}
 	if OQID, IOUnit,  err := s.NS.Rcreate(OFID, Name, CreatePerm, Omode); err != nil {
-	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	// The text has to fit a 9P string.
+	MarshalRerrorPkt(b, t, fmt.Sprintf("%.16000v", err))
 } else {
 	MarshalRcreatePkt(b, t, OQID, IOUnit)
 }
@@ -1111,7 +1117,8 @@ func (s *Server) SrvRstat(b*bytes.Buffer) (err error) {
 		return err
 	}
 	if B,  err := s.NS.Rstat(OFID); err != nil {
-	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	// The text has to fit a 9P string.
+	MarshalRerrorPkt(b, t, fmt.Sprintf("%.16000v", err))
 } else {
 	MarshalRstatPkt(b, t, B)
 }
@@ -1230,7 +1237,8 @@ func (s *Server) SrvRwstat(b*bytes.Buffer) (err error) {
 		return err
 	}
 	if  err := s.NS.Rwstat(OFID, B); err != nil {
-	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	// The text has to fit a 9P string.
+	MarshalRerrorPkt(b, t, fmt.Sprintf("%.16000v", err))
 } else {
 	MarshalRwstatPkt(b, t, )
 }
@@ -1334,7 +1342,8 @@ func (s *Server) SrvRclunk(b*bytes.Buffer) (err error) {
 		return err
 	}
 	if  err := s.NS.Rclunk(OFID); err != nil {
-	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	// The text has to fit a 9P string.
+	MarshalRerrorPkt(b, t, fmt.Sprintf("%.16000v", err))
 } else {
 	MarshalRclunkPkt(b, t, )
 }
@@ -1438,7 +1447,8 @@ func (s *Server) SrvRremove(b*bytes.Buffer) (err error) {
 		return err
 	}
 	if  err := s.NS.Rremove(OFID); err != nil {
-	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	// The text has to fit a 9P string.
+	MarshalRerrorPkt(b, t, fmt.Sprintf("%.16000v", err))
 } else {
 	MarshalRremovePkt(b, t, )
 }
@@ -1593,7 +1603,8 @@ func (s *Server) SrvRread(b*bytes.Buffer) (err error) {
 		return err
 	}
 	if Data,  err := s.NS.Rread(OFID, Off, Len); err != nil {
-	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	// The text has to fit a 9P string.
+	MarshalRerrorPkt(b, t, fmt.Sprintf("%.16000v", err))
 } else {
 	MarshalRreadPkt(b, t, Data)
 }
@@ -1748,7 +1759,8 @@ func (s *Server) SrvRwrite(b*bytes.Buffer) (err error) {
 		return err
 	}
 	if RLen,  err := s.NS.Rwrite(OFID, Off, Data); err != nil {
-	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	// The text has to fit a 9P string.
+	MarshalRerrorPkt(b, t, fmt.Sprintf("%.16000v", err))
 } else {
 	MarshalRwritePkt(b, t, RLen)
 }
-- 
2.43.0


From a3947b59ea4b8d20d33cf4300755cb3f8c326164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:29 +0000
Subject: [PATCH 05/25] fix: server reads whole messages

A header that arrived in pieces ended the connection, and a message that
was cut off by the end of the connection was executed all the same.
---
 protocol/server.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/protocol/server.go b/protocol/server.go
index 3da8bd5..94d92a3 100644
--- a/protocol/server.go
+++ b/protocol/server.go
@@ -212,16 +212,20 @@ func (c *conn) serve() {
 
 	for !c.dead {
 		l := make([]byte, 7)
-		if n, err := c.rwc.Read(l); err != nil || n < 7 {
+		if _, err := io.ReadFull(c.rwc, l); err != nil {
 			c.logf("readNetPackets: short read: %v", err)
 			c.dead = true
 			return
 		}
 		sz := int64(l[0]) + int64(l[1])<<8 + int64(l[2])<<16 + int64(l[3])<<24
 		t := MType(l[4])
+		if sz < 7 {
+			c.logf("readNetPackets: bad message size %d", sz)
+			c.dead = true
+			return
+		}
 		b := bytes.NewBuffer(l[5:])
-		r := io.LimitReader(c.rwc, sz-7)
-		if _, err := io.Copy(b, r); err != nil {
+		if _, err := io.CopyN(b, c.rwc, sz-7); err != nil {
 			c.logf("readNetPackets: short read: %v", err)
 			c.dead = true
 			return
-- 
2.43.0


From c0937a75136bc4761ad8f2fddb1e1039d226c526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:47 +0000
Subject: [PATCH 06/25] fix: client reads whole messages

As in the server: replies may arrive in pieces, and one that was cut off
must not be decoded.
---
 protocol/client.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/protocol/client.go b/protocol/client.go
index 9f67f3c..c9ab866 100644
--- a/protocol/client.go
+++ b/protocol/client.go
@@ -93,7 +93,7 @@ func (c *Client) readNetPackets() {
 			c.Trace("Before read")
 		}
 
-		if n, err := c.FromNet.Read(l); err != nil || n < 7 {
+		if _, err := io.ReadFull(c.FromNet, l); err != nil {
 			log.Printf("readNetPackets: short read: %v", err)
 			c.Dead = true
 			return
@@ -102,9 +102,13 @@ func (c *Client) readNetPackets() {
 			c.Trace("Server reads %v", l)
 		}
 		s := int64(l[0]) + int64(l[1])<<8 + int64(l[2])<<16 + int64(l[3])<<24
+		if s < 7 {
+			log.Printf("readNetPackets: bad message size %d", s)
+			c.Dead = true
+			return
+		}
 		b := bytes.NewBuffer(l)
-		r := io.LimitReader(c.FromNet, s-7)
-		if _, err := io.Copy(b, r); err != nil {
+		if _, err := io.CopyN(b, c.FromNet, s-7); err != nil {
 			log.Printf("readNetPackets: short read: %v", err)
 			c.Dead = true
 			return
-- 
2.43.0


From 92101f1464df0c68a2fc5d606c9ee27f5dd9d604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:29 +0000
Subject: [PATCH 07/25] fix: client without a Trace function crashed on its
 first reply

---
 protocol/client.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/protocol/client.go b/protocol/client.go
index c9ab866..3028bf6 100644
--- a/protocol/client.go
+++ b/protocol/client.go
@@ -164,9 +164,10 @@ func (c *Client) IO() {
 		if int(t-1) >= len(c.RPC) {
 			panic(fmt.Sprintf("tag %d >= len(c.RPC) %d", t, len(c.RPC)))
 		}
-		c.Trace("RPC %v ", c.RPC[t-1])
 		rrr := c.RPC[t-1]
-		c.Trace("rrr %v ", rrr)
+		if c.Trace != nil {
+			c.Trace("RPC %v ", rrr)
+		}
 		rrr.Reply <- r.b
 		c.Tags <- t
 	}
-- 
2.43.0


From 7d0f85ab8a41e3e05808c4d3dd5848518ea446ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:45 +0000
Subject: [PATCH 08/25] fix: client drops replies that match no outstanding
 call

A reply with an unknown tag crashed the client, and a second reply to the
same call blocked it for good and put the tag into the pool twice.
---
 protocol/client.go | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/protocol/client.go b/protocol/client.go
index 3028bf6..9d3cbef 100644
--- a/protocol/client.go
+++ b/protocol/client.go
@@ -12,6 +12,7 @@ import (
 	"io"
 	"log"
 	"runtime"
+	"sync"
 	"sync/atomic"
 )
 
@@ -33,6 +34,9 @@ type Client struct {
 	Msize      uint32
 	Dead       bool
 	Trace      Tracer
+
+	// mu guards RPC
+	mu sync.Mutex
 }
 
 func NewClient(opts ...ClientOpt) (*Client, error) {
@@ -137,7 +141,9 @@ func (c *Client) IO() {
 			if c.Trace != nil {
 				c.Trace(fmt.Sprintf("Tag for request is %v", t))
 			}
+			c.mu.Lock()
 			c.RPC[int(t)-1] = r
+			c.mu.Unlock()
 			if c.Trace != nil {
 				c.Trace("Write %v to ToNet", r.b)
 			}
@@ -158,13 +164,11 @@ func (c *Client) IO() {
 		if c.Trace != nil {
 			c.Trace(fmt.Sprintf("Tag for reply is %v", t))
 		}
-		if t < 1 {
-			panic(fmt.Sprintf("tag %d < 1", t))
-		}
-		if int(t-1) >= len(c.RPC) {
-			panic(fmt.Sprintf("tag %d >= len(c.RPC) %d", t, len(c.RPC)))
+		rrr := c.takeCall(t)
+		if rrr == nil {
+			log.Printf("client: dropping a reply with tag %d, which is not in use", t)
+			continue
 		}
-		rrr := c.RPC[t-1]
 		if c.Trace != nil {
 			c.Trace("RPC %v ", rrr)
 		}
@@ -173,6 +177,19 @@ func (c *Client) IO() {
 	}
 }
 
+// takeCall removes the outstanding call with tag t and returns it. It returns
+// nil if there is none: the tag comes from the server and can be anything.
+func (c *Client) takeCall(t Tag) *RPCCall {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+	if t < 1 || int(t) > len(c.RPC) {
+		return nil
+	}
+	r := c.RPC[t-1]
+	c.RPC[t-1] = nil
+	return r
+}
+
 func (c *Client) String() string {
 	z := map[bool]string{false: "Alive", true: "Dead"}
 	return fmt.Sprintf("%v tags available, Msize %v, %v FromNet %v ToNet %v", len(c.Tags), c.Msize, z[c.Dead],
-- 
2.43.0


From 1689c88443e9b7c742d155d762d6c58fe971e20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:26 +0000
Subject: [PATCH 09/25] fix: client checks that a reply is of the type the
 request calls for

---
 protocol/gen.go    |  2 ++
 protocol/genout.go | 24 ++++++++++++++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/protocol/gen.go b/protocol/gen.go
index 8676cc0..61f987e 100644
--- a/protocol/gen.go
+++ b/protocol/gen.go
@@ -188,6 +188,8 @@ if MType(bb[4]) == Rerror {
 		return {{.R.UList}} err
 	}
 	return {{.R.UList}} fmt.Errorf("%v", s)
+} else if MType(bb[4]) != {{.R.MFunc}} {
+	return {{.R.UList}} fmt.Errorf("{{.T.MFunc}}: unexpected reply %v", RPCNames[MType(bb[4])])
 } else {
 	{{.R.MList}}{{.R.MLsep}} _, err = Unmarshal{{.R.UFunc}}Pkt(bytes.NewBuffer(bb[5:]))
 }
diff --git a/protocol/genout.go b/protocol/genout.go
index 477649d..370de20 100644
--- a/protocol/genout.go
+++ b/protocol/genout.go
@@ -189,6 +189,8 @@ if MType(bb[4]) == Rerror {
 		return RMsize, RVersion,  err
 	}
 	return RMsize, RVersion,  fmt.Errorf("%v", s)
+} else if MType(bb[4]) != Rversion {
+	return RMsize, RVersion,  fmt.Errorf("Tversion: unexpected reply %v", RPCNames[MType(bb[4])])
 } else {
 	RMsize, RVersion,  _, err = UnmarshalRversionPkt(bytes.NewBuffer(bb[5:]))
 }
@@ -373,6 +375,8 @@ if MType(bb[4]) == Rerror {
 		return QID,  err
 	}
 	return QID,  fmt.Errorf("%v", s)
+} else if MType(bb[4]) != Rattach {
+	return QID,  fmt.Errorf("Tattach: unexpected reply %v", RPCNames[MType(bb[4])])
 } else {
 	QID,  _, err = UnmarshalRattachPkt(bytes.NewBuffer(bb[5:]))
 }
@@ -474,6 +478,8 @@ if MType(bb[4]) == Rerror {
 		return  err
 	}
 	return  fmt.Errorf("%v", s)
+} else if MType(bb[4]) != Rflush {
+	return  fmt.Errorf("Tflush: unexpected reply %v", RPCNames[MType(bb[4])])
 } else {
 	 _, err = UnmarshalRflushPkt(bytes.NewBuffer(bb[5:]))
 }
@@ -671,6 +677,8 @@ if MType(bb[4]) == Rerror {
 		return QIDs,  err
 	}
 	return QIDs,  fmt.Errorf("%v", s)
+} else if MType(bb[4]) != Rwalk {
+	return QIDs,  fmt.Errorf("Twalk: unexpected reply %v", RPCNames[MType(bb[4])])
 } else {
 	QIDs,  _, err = UnmarshalRwalkPkt(bytes.NewBuffer(bb[5:]))
 }
@@ -832,6 +840,8 @@ if MType(bb[4]) == Rerror {
 		return OQID, IOUnit,  err
 	}
 	return OQID, IOUnit,  fmt.Errorf("%v", s)
+} else if MType(bb[4]) != Ropen {
+	return OQID, IOUnit,  fmt.Errorf("Topen: unexpected reply %v", RPCNames[MType(bb[4])])
 } else {
 	OQID, IOUnit,  _, err = UnmarshalRopenPkt(bytes.NewBuffer(bb[5:]))
 }
@@ -1020,6 +1030,8 @@ if MType(bb[4]) == Rerror {
 		return OQID, IOUnit,  err
 	}
 	return OQID, IOUnit,  fmt.Errorf("%v", s)
+} else if MType(bb[4]) != Rcreate {
+	return OQID, IOUnit,  fmt.Errorf("Tcreate: unexpected reply %v", RPCNames[MType(bb[4])])
 } else {
 	OQID, IOUnit,  _, err = UnmarshalRcreatePkt(bytes.NewBuffer(bb[5:]))
 }
@@ -1140,6 +1152,8 @@ if MType(bb[4]) == Rerror {
 		return B,  err
 	}
 	return B,  fmt.Errorf("%v", s)
+} else if MType(bb[4]) != Rstat {
+	return B,  fmt.Errorf("Tstat: unexpected reply %v", RPCNames[MType(bb[4])])
 } else {
 	B,  _, err = UnmarshalRstatPkt(bytes.NewBuffer(bb[5:]))
 }
@@ -1260,6 +1274,8 @@ if MType(bb[4]) == Rerror {
 		return  err
 	}
 	return  fmt.Errorf("%v", s)
+} else if MType(bb[4]) != Rwstat {
+	return  fmt.Errorf("Twstat: unexpected reply %v", RPCNames[MType(bb[4])])
 } else {
 	 _, err = UnmarshalRwstatPkt(bytes.NewBuffer(bb[5:]))
 }
@@ -1365,6 +1381,8 @@ if MType(bb[4]) == Rerror {
 		return  err
 	}
 	return  fmt.Errorf("%v", s)
+} else if MType(bb[4]) != Rclunk {
+	return  fmt.Errorf("Tclunk: unexpected reply %v", RPCNames[MType(bb[4])])
 } else {
 	 _, err = UnmarshalRclunkPkt(bytes.NewBuffer(bb[5:]))
 }
@@ -1470,6 +1488,8 @@ if MType(bb[4]) == Rerror {
 		return  err
 	}
 	return  fmt.Errorf("%v", s)
+} else if MType(bb[4]) != Rremove {
+	return  fmt.Errorf("Tremove: unexpected reply %v", RPCNames[MType(bb[4])])
 } else {
 	 _, err = UnmarshalRremovePkt(bytes.NewBuffer(bb[5:]))
 }
@@ -1626,6 +1646,8 @@ if MType(bb[4]) == Rerror {
 		return Data,  err
 	}
 	return Data,  fmt.Errorf("%v", s)
+} else if MType(bb[4]) != Rread {
+	return Data,  fmt.Errorf("Tread: unexpected reply %v", RPCNames[MType(bb[4])])
 } else {
 	Data,  _, err = UnmarshalRreadPkt(bytes.NewBuffer(bb[5:]))
 }
@@ -1782,6 +1804,8 @@ if MType(bb[4]) == Rerror {
 		return RLen,  err
 	}
 	return RLen,  fmt.Errorf("%v", s)
+} else if MType(bb[4]) != Rwrite {
+	return RLen,  fmt.Errorf("Twrite: unexpected reply %v", RPCNames[MType(bb[4])])
 } else {
 	RLen,  _, err = UnmarshalRwritePkt(bytes.NewBuffer(bb[5:]))
 }
-- 
2.43.0


From 98491f944c075f725a404c57b16f47c7341b3304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:11 +0000
Subject: [PATCH 10/25] fix: calls on a client whose connection has died fail

The documentation says that requests to a Dead client fail. They hung, the
end of the connection crashed the client, and a failed write ended the
whole process through log.Fatalf.
---
 protocol/client.go | 77 +++++++++++++++++++++++++++++++++++-------
 protocol/gen.go    |  7 ++--
 protocol/genout.go | 84 ++++++++++++++++++++++++++--------------------
 3 files changed, 116 insertions(+), 52 deletions(-)

diff --git a/protocol/client.go b/protocol/client.go
index 9d3cbef..5583de3 100644
--- a/protocol/client.go
+++ b/protocol/client.go
@@ -8,6 +8,7 @@ package protocol
 
 import (
 	"bytes"
+	"errors"
 	"fmt"
 	"io"
 	"log"
@@ -35,10 +36,15 @@ type Client struct {
 	Dead       bool
 	Trace      Tracer
 
-	// mu guards RPC
+	// mu guards RPC and Dead
 	mu sync.Mutex
+
+	// done is closed when the client is marked Dead
+	done chan struct{}
 }
 
+var errDead = errors.New("client is dead")
+
 func NewClient(opts ...ClientOpt) (*Client, error) {
 	var c = &Client{}
 
@@ -48,6 +54,7 @@ func NewClient(opts ...ClientOpt) (*Client, error) {
 	}
 	c.FID = 1
 	c.RPC = make([]*RPCCall, NumTags)
+	c.done = make(chan struct{})
 	for _, o := range opts {
 		if err := o(c); err != nil {
 			return nil, err
@@ -83,15 +90,16 @@ func (c *Client) readNetPackets() {
 		if c.Trace != nil {
 			c.Trace("c.FromNet is nil, marking dead")
 		}
-		c.Dead = true
+		c.die()
 		return
 	}
 	defer c.FromNet.Close()
 	defer close(c.FromServer)
+	defer c.die()
 	if c.Trace != nil {
 		c.Trace("Starting readNetPackets")
 	}
-	for !c.Dead {
+	for !c.isDead() {
 		l := make([]byte, 7)
 		if c.Trace != nil {
 			c.Trace("Before read")
@@ -99,7 +107,6 @@ func (c *Client) readNetPackets() {
 
 		if _, err := io.ReadFull(c.FromNet, l); err != nil {
 			log.Printf("readNetPackets: short read: %v", err)
-			c.Dead = true
 			return
 		}
 		if c.Trace != nil {
@@ -108,13 +115,11 @@ func (c *Client) readNetPackets() {
 		s := int64(l[0]) + int64(l[1])<<8 + int64(l[2])<<16 + int64(l[3])<<24
 		if s < 7 {
 			log.Printf("readNetPackets: bad message size %d", s)
-			c.Dead = true
 			return
 		}
 		b := bytes.NewBuffer(l)
 		if _, err := io.CopyN(b, c.FromNet, s-7); err != nil {
 			log.Printf("readNetPackets: short read: %v", err)
-			c.Dead = true
 			return
 		}
 		if c.Trace != nil {
@@ -130,9 +135,23 @@ func (c *Client) readNetPackets() {
 
 func (c *Client) IO() {
 	go func() {
+		if c.ToNet == nil {
+			c.die()
+			return
+		}
 		for {
-			r := <-c.FromClient
-			t := <-c.Tags
+			var r *RPCCall
+			select {
+			case r = <-c.FromClient:
+			case <-c.done:
+				return
+			}
+			var t Tag
+			select {
+			case t = <-c.Tags:
+			case <-c.done:
+				return
+			}
 			if c.Trace != nil {
 				c.Trace(fmt.Sprintf("Tag for request is %v", t))
 			}
@@ -148,15 +167,14 @@ func (c *Client) IO() {
 				c.Trace("Write %v to ToNet", r.b)
 			}
 			if _, err := c.ToNet.Write(r.b); err != nil {
-				c.Dead = true
-				log.Fatalf("Write to server: %v", err)
+				log.Printf("Write to server: %v", err)
+				c.die()
 				return
 			}
 		}
 	}()
 
-	for {
-		r := <-c.FromServer
+	for r := range c.FromServer {
 		if c.Trace != nil {
 			c.Trace("Read %v FromServer", r.b)
 		}
@@ -177,6 +195,39 @@ func (c *Client) IO() {
 	}
 }
 
+// die marks the client Dead. Calls that wait for a reply, and all later ones, fail.
+func (c *Client) die() {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+	if !c.Dead {
+		c.Dead = true
+		close(c.done)
+	}
+}
+
+func (c *Client) isDead() bool {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+	return c.Dead
+}
+
+// roundTrip hands request b to the IO goroutine and waits for its reply.
+func (c *Client) roundTrip(b []byte) ([]byte, error) {
+	// There is room for the reply, so that nobody waits for us if we leave.
+	r := make(chan []byte, 1)
+	select {
+	case c.FromClient <- &RPCCall{b: b, Reply: r}:
+	case <-c.done:
+		return nil, errDead
+	}
+	select {
+	case bb := <-r:
+		return bb, nil
+	case <-c.done:
+		return nil, errDead
+	}
+}
+
 // takeCall removes the outstanding call with tag t and returns it. It returns
 // nil if there is none: the tag comes from the server and can be anything.
 func (c *Client) takeCall(t Tag) *RPCCall {
@@ -192,6 +243,6 @@ func (c *Client) takeCall(t Tag) *RPCCall {
 
 func (c *Client) String() string {
 	z := map[bool]string{false: "Alive", true: "Dead"}
-	return fmt.Sprintf("%v tags available, Msize %v, %v FromNet %v ToNet %v", len(c.Tags), c.Msize, z[c.Dead],
+	return fmt.Sprintf("%v tags available, Msize %v, %v FromNet %v ToNet %v", len(c.Tags), c.Msize, z[c.isDead()],
 		c.FromNet, c.ToNet)
 }
diff --git a/protocol/gen.go b/protocol/gen.go
index 61f987e..00970c3 100644
--- a/protocol/gen.go
+++ b/protocol/gen.go
@@ -177,11 +177,12 @@ func (c *Client)Call{{.T.MFunc}} ({{.T.MParms}}) ({{.R.URet}} err error) {
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", {{.T.MFunc}})}
 t := Tag(0)
-r := make (chan []byte)
 if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
 Marshal{{.T.MFunc}}Pkt(&b, t, {{.T.MList}})
-c.FromClient <- &RPCCall{b: b.Bytes(), Reply: r}
-bb := <-r
+bb, err := c.roundTrip(b.Bytes())
+if err != nil {
+	return {{.R.UList}} err
+}
 if MType(bb[4]) == Rerror {
 	s, _, err := UnmarshalRerrorPkt(bytes.NewBuffer(bb[5:]))
 	if err != nil {
diff --git a/protocol/genout.go b/protocol/genout.go
index 370de20..113956b 100644
--- a/protocol/genout.go
+++ b/protocol/genout.go
@@ -178,11 +178,12 @@ func (c *Client)CallTversion (TMsize MaxSize, TVersion string) (RMsize MaxSize,
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", Tversion)}
 t := Tag(0)
-r := make (chan []byte)
 if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
 MarshalTversionPkt(&b, t, TMsize, TVersion)
-c.FromClient <- &RPCCall{b: b.Bytes(), Reply: r}
-bb := <-r
+bb, err := c.roundTrip(b.Bytes())
+if err != nil {
+	return RMsize, RVersion,  err
+}
 if MType(bb[4]) == Rerror {
 	s, _, err := UnmarshalRerrorPkt(bytes.NewBuffer(bb[5:]))
 	if err != nil {
@@ -364,11 +365,12 @@ func (c *Client)CallTattach (SFID FID, AFID FID, Uname string, Aname string) (QI
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", Tattach)}
 t := Tag(0)
-r := make (chan []byte)
 if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
 MarshalTattachPkt(&b, t, SFID, AFID, Uname, Aname)
-c.FromClient <- &RPCCall{b: b.Bytes(), Reply: r}
-bb := <-r
+bb, err := c.roundTrip(b.Bytes())
+if err != nil {
+	return QID,  err
+}
 if MType(bb[4]) == Rerror {
 	s, _, err := UnmarshalRerrorPkt(bytes.NewBuffer(bb[5:]))
 	if err != nil {
@@ -467,11 +469,12 @@ func (c *Client)CallTflush (OTag Tag) ( err error) {
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", Tflush)}
 t := Tag(0)
-r := make (chan []byte)
 if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
 MarshalTflushPkt(&b, t, OTag)
-c.FromClient <- &RPCCall{b: b.Bytes(), Reply: r}
-bb := <-r
+bb, err := c.roundTrip(b.Bytes())
+if err != nil {
+	return  err
+}
 if MType(bb[4]) == Rerror {
 	s, _, err := UnmarshalRerrorPkt(bytes.NewBuffer(bb[5:]))
 	if err != nil {
@@ -666,11 +669,12 @@ func (c *Client)CallTwalk (SFID FID, NewFID FID, Paths []string) (QIDs []QID,  e
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", Twalk)}
 t := Tag(0)
-r := make (chan []byte)
 if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
 MarshalTwalkPkt(&b, t, SFID, NewFID, Paths)
-c.FromClient <- &RPCCall{b: b.Bytes(), Reply: r}
-bb := <-r
+bb, err := c.roundTrip(b.Bytes())
+if err != nil {
+	return QIDs,  err
+}
 if MType(bb[4]) == Rerror {
 	s, _, err := UnmarshalRerrorPkt(bytes.NewBuffer(bb[5:]))
 	if err != nil {
@@ -829,11 +833,12 @@ func (c *Client)CallTopen (OFID FID, Omode Mode) (OQID QID, IOUnit MaxSize,  err
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", Topen)}
 t := Tag(0)
-r := make (chan []byte)
 if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
 MarshalTopenPkt(&b, t, OFID, Omode)
-c.FromClient <- &RPCCall{b: b.Bytes(), Reply: r}
-bb := <-r
+bb, err := c.roundTrip(b.Bytes())
+if err != nil {
+	return OQID, IOUnit,  err
+}
 if MType(bb[4]) == Rerror {
 	s, _, err := UnmarshalRerrorPkt(bytes.NewBuffer(bb[5:]))
 	if err != nil {
@@ -1019,11 +1024,12 @@ func (c *Client)CallTcreate (OFID FID, Name string, CreatePerm Perm, Omode Mode)
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", Tcreate)}
 t := Tag(0)
-r := make (chan []byte)
 if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
 MarshalTcreatePkt(&b, t, OFID, Name, CreatePerm, Omode)
-c.FromClient <- &RPCCall{b: b.Bytes(), Reply: r}
-bb := <-r
+bb, err := c.roundTrip(b.Bytes())
+if err != nil {
+	return OQID, IOUnit,  err
+}
 if MType(bb[4]) == Rerror {
 	s, _, err := UnmarshalRerrorPkt(bytes.NewBuffer(bb[5:]))
 	if err != nil {
@@ -1141,11 +1147,12 @@ func (c *Client)CallTstat (OFID FID) (B []byte,  err error) {
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", Tstat)}
 t := Tag(0)
-r := make (chan []byte)
 if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
 MarshalTstatPkt(&b, t, OFID)
-c.FromClient <- &RPCCall{b: b.Bytes(), Reply: r}
-bb := <-r
+bb, err := c.roundTrip(b.Bytes())
+if err != nil {
+	return B,  err
+}
 if MType(bb[4]) == Rerror {
 	s, _, err := UnmarshalRerrorPkt(bytes.NewBuffer(bb[5:]))
 	if err != nil {
@@ -1263,11 +1270,12 @@ func (c *Client)CallTwstat (OFID FID, B []byte) ( err error) {
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", Twstat)}
 t := Tag(0)
-r := make (chan []byte)
 if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
 MarshalTwstatPkt(&b, t, OFID, B)
-c.FromClient <- &RPCCall{b: b.Bytes(), Reply: r}
-bb := <-r
+bb, err := c.roundTrip(b.Bytes())
+if err != nil {
+	return  err
+}
 if MType(bb[4]) == Rerror {
 	s, _, err := UnmarshalRerrorPkt(bytes.NewBuffer(bb[5:]))
 	if err != nil {
@@ -1370,11 +1378,12 @@ func (c *Client)CallTclunk (OFID FID) ( err error) {
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", Tclunk)}
 t := Tag(0)
-r := make (chan []byte)
 if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
 MarshalTclunkPkt(&b, t, OFID)
-c.FromClient <- &RPCCall{b: b.Bytes(), Reply: r}
-bb := <-r
+bb, err := c.roundTrip(b.Bytes())
+if err != nil {
+	return  err
+}
 if MType(bb[4]) == Rerror {
 	s, _, err := UnmarshalRerrorPkt(bytes.NewBuffer(bb[5:]))
 	if err != nil {
@@ -1477,11 +1486,12 @@ func (c *Client)CallTremove (OFID FID) ( err error) {
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", Tremove)}
 t := Tag(0)
-r := make (chan []byte)
 if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
 MarshalTremovePkt(&b, t, OFID)
-c.FromClient <- &RPCCall{b: b.Bytes(), Reply: r}
-bb := <-r
+bb, err := c.roundTrip(b.Bytes())
+if err != nil {
+	return  err
+}
 if MType(bb[4]) == Rerror {
 	s, _, err := UnmarshalRerrorPkt(bytes.NewBuffer(bb[5:]))
 	if err != nil {
@@ -1635,11 +1645,12 @@ func (c *Client)CallTread (OFID FID, Off Offset, Len Count) (Data []uint8,  err
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", Tread)}
 t := Tag(0)
-r := make (chan []byte)
 if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
 MarshalTreadPkt(&b, t, OFID, Off, Len)
-c.FromClient <- &RPCCall{b: b.Bytes(), Reply: r}
-bb := <-r
+bb, err := c.roundTrip(b.Bytes())
+if err != nil {
+	return Data,  err
+}
 if MType(bb[4]) == Rerror {
 	s, _, err := UnmarshalRerrorPkt(bytes.NewBuffer(bb[5:]))
 	if err != nil {
@@ -1793,11 +1804,12 @@ func (c *Client)CallTwrite (OFID FID, Off Offset, Data []uint8) (RLen Count,  er
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", Twrite)}
 t := Tag(0)
-r := make (chan []byte)
 if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
 MarshalTwritePkt(&b, t, OFID, Off, Data)
-c.FromClient <- &RPCCall{b: b.Bytes(), Reply: r}
-bb := <-r
+bb, err := c.roundTrip(b.Bytes())
+if err != nil {
+	return RLen,  err
+}
 if MType(bb[4]) == Rerror {
 	s, _, err := UnmarshalRerrorPkt(bytes.NewBuffer(bb[5:]))
 	if err != nil {
-- 
2.43.0


From 78d5c74dd77766bc2bbd657ba3a8d1ca0d456e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:29 +0000
Subject: [PATCH 11/25] fix: tracing a call raced with GetFID in other
 goroutines

---
 protocol/gen.go    |  3 ++-
 protocol/genout.go | 25 +++++++++++++------------
 2 files changed, 15 insertions(+), 13 deletions(-)

diff --git a/protocol/gen.go b/protocol/gen.go
index 00970c3..bffb033 100644
--- a/protocol/gen.go
+++ b/protocol/gen.go
@@ -43,6 +43,7 @@ import (
 "fmt"
 "io"
 _ "log"
+"sync/atomic"
 )
 `
 )
@@ -177,7 +178,7 @@ func (c *Client)Call{{.T.MFunc}} ({{.T.MParms}}) ({{.R.URet}} err error) {
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", {{.T.MFunc}})}
 t := Tag(0)
-if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
+if c.Trace != nil { c.Trace(":tag %v, FID %v", t, atomic.LoadUint64(&c.FID))}
 Marshal{{.T.MFunc}}Pkt(&b, t, {{.T.MList}})
 bb, err := c.roundTrip(b.Bytes())
 if err != nil {
diff --git a/protocol/genout.go b/protocol/genout.go
index 113956b..80b9967 100644
--- a/protocol/genout.go
+++ b/protocol/genout.go
@@ -5,6 +5,7 @@ import (
 "fmt"
 "io"
 _ "log"
+"sync/atomic"
 )
 func MarshalRerrorPkt (b *bytes.Buffer, t Tag, Error string) {
 var l uint64
@@ -178,7 +179,7 @@ func (c *Client)CallTversion (TMsize MaxSize, TVersion string) (RMsize MaxSize,
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", Tversion)}
 t := Tag(0)
-if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
+if c.Trace != nil { c.Trace(":tag %v, FID %v", t, atomic.LoadUint64(&c.FID))}
 MarshalTversionPkt(&b, t, TMsize, TVersion)
 bb, err := c.roundTrip(b.Bytes())
 if err != nil {
@@ -365,7 +366,7 @@ func (c *Client)CallTattach (SFID FID, AFID FID, Uname string, Aname string) (QI
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", Tattach)}
 t := Tag(0)
-if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
+if c.Trace != nil { c.Trace(":tag %v, FID %v", t, atomic.LoadUint64(&c.FID))}
 MarshalTattachPkt(&b, t, SFID, AFID, Uname, Aname)
 bb, err := c.roundTrip(b.Bytes())
 if err != nil {
@@ -469,7 +470,7 @@ func (c *Client)CallTflush (OTag Tag) ( err error) {
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", Tflush)}
 t := Tag(0)
-if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
+if c.Trace != nil { c.Trace(":tag %v, FID %v", t, atomic.LoadUint64(&c.FID))}
 MarshalTflushPkt(&b, t, OTag)
 bb, err := c.roundTrip(b.Bytes())
 if err != nil {
@@ -669,7 +670,7 @@ func (c *Client)CallTwalk (SFID FID, NewFID FID, Paths []string) (QIDs []QID,  e
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", Twalk)}
 t := Tag(0)
-if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
+if c.Trace != nil { c.Trace(":tag %v, FID %v", t, atomic.LoadUint64(&c.FID))}
 MarshalTwalkPkt(&b, t, SFID, NewFID, Paths)
 bb, err := c.roundTrip(b.Bytes())
 if err != nil {
@@ -833,7 +834,7 @@ func (c *Client)CallTopen (OFID FID, Omode Mode) (OQID QID, IOUnit MaxSize,  err
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", Topen)}
 t := Tag(0)
-if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
+if c.Trace != nil { c.Trace(":tag %v, FID %v", t, atomic.LoadUint64(&c.FID))}
 MarshalTopenPkt(&b, t, OFID, Omode)
 bb, err := c.roundTrip(b.Bytes())
 if err != nil {
@@ -1024,7 +1025,7 @@ func (c *Client)CallTcreate (OFID FID, Name string, CreatePerm Perm, Omode Mode)
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", Tcreate)}
 t := Tag(0)
-if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
+if c.Trace != nil { c.Trace(":tag %v, FID %v", t, atomic.LoadUint64(&c.FID))}
 MarshalTcreatePkt(&b, t, OFID, Name, CreatePerm, Omode)
 bb, err := c.roundTrip(b.Bytes())
 if err != nil {
@@ -1147,7 +1148,7 @@ func (c *Client)CallTstat (OFID FID) (B []byte,  err error) {
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", Tstat)}
 t := Tag(0)
-if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
+if c.Trace != nil { c.Trace(":tag %v, FID %v", t, atomic.LoadUint64(&c.FID))}
 MarshalTstatPkt(&b, t, OFID)
 bb, err := c.roundTrip(b.Bytes())
 if err != nil {
@@ -1270,7 +1271,7 @@ func (c *Client)CallTwstat (OFID FID, B []byte) ( err error) {
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", Twstat)}
 t := Tag(0)
-if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
+if c.Trace != nil { c.Trace(":tag %v, FID %v", t, atomic.LoadUint64(&c.FID))}
 MarshalTwstatPkt(&b, t, OFID, B)
 bb, err := c.roundTrip(b.Bytes())
 if err != nil {
@@ -1378,7 +1379,7 @@ func (c *Client)CallTclunk (OFID FID) ( err error) {
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", Tclunk)}
 t := Tag(0)
-if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
+if c.Trace != nil { c.Trace(":tag %v, FID %v", t, atomic.LoadUint64(&c.FID))}
 MarshalTclunkPkt(&b, t, OFID)
 bb, err := c.roundTrip(b.Bytes())
 if err != nil {
@@ -1486,7 +1487,7 @@ func (c *Client)CallTremove (OFID FID) ( err error) {
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", Tremove)}
 t := Tag(0)
-if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
+if c.Trace != nil { c.Trace(":tag %v, FID %v", t, atomic.LoadUint64(&c.FID))}
 MarshalTremovePkt(&b, t, OFID)
 bb, err := c.roundTrip(b.Bytes())
 if err != nil {
@@ -1645,7 +1646,7 @@ func (c *Client)CallTread (OFID FID, Off Offset, Len Count) (Data []uint8,  err
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", Tread)}
 t := Tag(0)
-if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
+if c.Trace != nil { c.Trace(":tag %v, FID %v", t, atomic.LoadUint64(&c.FID))}
 MarshalTreadPkt(&b, t, OFID, Off, Len)
 bb, err := c.roundTrip(b.Bytes())
 if err != nil {
@@ -1804,7 +1805,7 @@ func (c *Client)CallTwrite (OFID FID, Off Offset, Data []uint8) (RLen Count,  er
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", Twrite)}
 t := Tag(0)
-if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
+if c.Trace != nil { c.Trace(":tag %v, FID %v", t, atomic.LoadUint64(&c.FID))}
 MarshalTwritePkt(&b, t, OFID, Off, Data)
 bb, err := c.roundTrip(b.Bytes())
 if err != nil {
-- 
2.43.0


From bcd70b1e0a0bea840cf7d98ea2d6360e6f140ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:12 +0000
Subject: [PATCH 12/25] fix: walk, create and rename stay in the exported root

A .. in a walk, a create or an absolute rename, and a rename of the root
itself, led out of the directory given with -root.
---
 filesystem/filesystem.go | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index 2523097..9533e72 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -79,6 +79,16 @@ func (e *FileServer) getFile(fid protocol.FID) (*file, error) {
 	return f, nil
 }
 
+// resolve returns the path of name in dir. However many .. there are in it, the
+// result is in the root of this server.
+func (e *FileServer) resolve(dir, name string) (string, error) {
+	rel, err := filepath.Rel(path.Join(e.rootPath, "/"), dir)
+	if err != nil {
+		return "", err
+	}
+	return path.Join(e.rootPath, path.Join("/", rel, name)), nil
+}
+
 func (e *FileServer) Rattach(fid protocol.FID, afid protocol.FID, uname string, aname string) (protocol.QID, error) {
 	if afid != protocol.NOFID {
 		return protocol.QID{}, fmt.Errorf("We don't do auth attach")
@@ -124,8 +134,12 @@ func (e *FileServer) Rwalk(fid protocol.FID, newfid protocol.FID, paths []string
 
 	var i int
 	for i = range paths {
-		p = path.Join(p, paths[i])
-		st, err := os.Lstat(p)
+		var st os.FileInfo
+		n, err := e.resolve(p, paths[i])
+		if err == nil {
+			p = n
+			st, err = os.Lstat(p)
+		}
 		if err != nil {
 			// From the RFC: If the first element cannot be walked for any
 			// reason, Rerror is returned. Otherwise, the walk will return an
@@ -185,7 +199,10 @@ func (e *FileServer) Rcreate(fid protocol.FID, name string, perm protocol.Perm,
 	if f.file != nil {
 		return protocol.QID{}, 0, fmt.Errorf("FID already open")
 	}
-	n := path.Join(f.fullName, name)
+	n, err := e.resolve(f.fullName, name)
+	if err != nil {
+		return protocol.QID{}, 0, err
+	}
 	if perm&protocol.Perm(protocol.DMDIR) != 0 {
 		p := os.FileMode(int(perm) & 0777)
 		err := os.Mkdir(n, p)
@@ -275,14 +292,17 @@ func (e *FileServer) Rwstat(fid protocol.FID, b []byte) error {
 		// If we path.Join dir.Name to / before adding it to
 		// the fid path, that ensures nobody gets to walk out of the
 		// root of this server.
-		newname := path.Join(path.Dir(f.fullName), path.Join("/", dir.Name))
+		newname, err := e.resolve(path.Dir(f.fullName), path.Join("/", dir.Name))
+		if err != nil {
+			return err
+		}
 
 		// absolute renaming. Ufs can do this, so let's support it.
 		// We'll allow an absolute path in the Name and, if it is,
 		// we will make it relative to root. This is a gigantic performance
 		// improvement in systems that allow it.
 		if filepath.IsAbs(dir.Name) {
-			newname = path.Join(e.rootPath, dir.Name)
+			newname = path.Join(e.rootPath, path.Join("/", dir.Name))
 		}
 
 		// If to exists, and to is a directory, we can't do the
-- 
2.43.0


From fcc112ea99390fc45c75b7366027d1361ae1d35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:32 +0000
Subject: [PATCH 13/25] fix: create reports a failed mkdir and closes the file
 it cannot use

The error of os.Mkdir was dropped, so that a create of a directory over
something that exists succeeded; and the new file stayed open when its stat
failed.
---
 filesystem/filesystem.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index 9533e72..2680d28 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -205,7 +205,9 @@ func (e *FileServer) Rcreate(fid protocol.FID, name string, perm protocol.Perm,
 	}
 	if perm&protocol.Perm(protocol.DMDIR) != 0 {
 		p := os.FileMode(int(perm) & 0777)
-		err := os.Mkdir(n, p)
+		if err := os.Mkdir(n, p); err != nil {
+			return protocol.QID{}, 0, err
+		}
 		_, q, err := stat(n)
 		if err != nil {
 			return protocol.QID{}, 0, err
@@ -223,6 +225,7 @@ func (e *FileServer) Rcreate(fid protocol.FID, name string, perm protocol.Perm,
 	}
 	_, q, err := stat(n)
 	if err != nil {
+		of.Close()
 		return protocol.QID{}, 0, err
 	}
 	f.fullName = n
-- 
2.43.0


From 1a4f6d8a027defe2479176030e9cad263be62a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:48 +0000
Subject: [PATCH 14/25] fix: open of a fid that is already open is an error

It dropped the first file without closing it.
---
 filesystem/filesystem.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index 2680d28..6c3df41 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -182,6 +182,9 @@ func (e *FileServer) Ropen(fid protocol.FID, mode protocol.Mode) (protocol.QID,
 	if !ok {
 		return protocol.QID{}, 0, fmt.Errorf("does not exist")
 	}
+	if f.file != nil {
+		return protocol.QID{}, 0, fmt.Errorf("FID already open")
+	}
 
 	var err error
 	f.file, err = os.OpenFile(f.fullName, modeToUnixFlags(mode), 0)
-- 
2.43.0


From de7129161a1e2767982bca8090940ca017aefa6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:03 +0000
Subject: [PATCH 15/25] fix: walk does not share or drop the open file of a fid

A clone of an open fid shared its file, and the first of the two to be
clunked closed it for the other. A walk of an open fid onto itself dropped
the file without closing it.
---
 filesystem/filesystem.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index 6c3df41..f5eabc2 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -125,8 +125,8 @@ func (e *FileServer) Rwalk(fid protocol.FID, newfid protocol.FID, paths []string
 		if ok {
 			return nil, fmt.Errorf("FID in use: clone walk, fid %d newfid %d", fid, newfid)
 		}
-		nf := *f
-		e.files[newfid] = &nf
+		// The clone is not open: the open file belongs to fid, and is closed with it.
+		e.files[newfid] = &file{fullName: f.fullName, QID: f.QID}
 		return []protocol.QID{}, nil
 	}
 	p := f.fullName
@@ -170,6 +170,8 @@ func (e *FileServer) Rwalk(fid protocol.FID, newfid protocol.FID, paths []string
 		if _, ok := e.files[newfid]; ok {
 			return nil, fmt.Errorf("FID in use: walk to %v, fid %v, newfid %v", paths, fid, newfid)
 		}
+	} else if f.file != nil {
+		return nil, fmt.Errorf("FID already open")
 	}
 	e.files[newfid] = &file{fullName: p, QID: q[i]}
 	return q, nil
-- 
2.43.0


From 97aec12a76cb57c6e4012f4918e52fbca4b08a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:52 +0000
Subject: [PATCH 16/25] fix: Tversion clunks the fids of the session before it

As version(5) has it. The fids survived, with their files open.
---
 filesystem/filesystem.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index f5eabc2..91682ce 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -64,6 +64,13 @@ func (e *FileServer) Rversion(msize protocol.MaxSize, version string) (protocol.
 	if version != "9P2000" {
 		return 0, "", fmt.Errorf("%v not supported; only 9P2000", version)
 	}
+	// This starts a new session: the fids of the one before it are gone.
+	e.mu.Lock()
+	defer e.mu.Unlock()
+	for fid, f := range e.files {
+		delete(e.files, fid)
+		f.close()
+	}
 	e.Versioned = true
 	return msize, version, nil
 }
@@ -369,6 +376,11 @@ func (e *FileServer) clunk(fid protocol.FID) (*file, error) {
 		return nil, fmt.Errorf("does not exist")
 	}
 	delete(e.files, fid)
+	f.close()
+	return f, nil
+}
+
+func (f *file) close() {
 	// What do we do if we can't close it?
 	// All I can think of is to log it.
 	if f.file != nil {
@@ -376,7 +388,6 @@ func (e *FileServer) clunk(fid protocol.FID) (*file, error) {
 			log.Printf("Close of %v failed: %v", f.fullName, err)
 		}
 	}
-	return f, nil
 }
 
 // Rremove removes the file. The question of whether the file continues to be accessible
-- 
2.43.0


From 661876b4f0f35165bc87f8e70bb35a987700bff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:09 +0000
Subject: [PATCH 17/25] fix: attach with a fid that is in use is an error

It replaced the fid, and dropped its open file without closing it. It also
wrote the fid table without holding its lock.
---
 filesystem/filesystem.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index 91682ce..1f517e0 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -109,6 +109,11 @@ func (e *FileServer) Rattach(fid protocol.FID, afid protocol.FID, uname string,
 	}
 	r := &file{fullName: aname}
 	r.QID = fileInfoToQID(st)
+	e.mu.Lock()
+	defer e.mu.Unlock()
+	if _, ok := e.files[fid]; ok {
+		return protocol.QID{}, fmt.Errorf("FID in use: attach, fid %d", fid)
+	}
 	e.files[fid] = r
 	e.root = r
 	return r.QID, nil
-- 
2.43.0


From 7f4346b7868605fb62fa44052890a7ea845a8f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:24 +0000
Subject: [PATCH 18/25] fix: a read with a count over 2^31 is an error

Count is signed: such a count made a slice of negative length, which ended
the server for all of its clients.
---
 filesystem/filesystem.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index 1f517e0..72149f2 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -413,6 +413,9 @@ func (e *FileServer) Rread(fid protocol.FID, o protocol.Offset, c protocol.Count
 	if f.file == nil {
 		return nil, fmt.Errorf("FID not open")
 	}
+	if c < 0 {
+		return nil, fmt.Errorf("bad count %d", c)
+	}
 	if f.QID.Type&protocol.QTDIR != 0 {
 		if o == 0 {
 			f.oflow = nil
-- 
2.43.0


From 6513649b4fa3f07ef02e950550d01611b9fddcd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:41 +0000
Subject: [PATCH 19/25] fix: a wstat that is refused changes nothing

A change of owner is refused, but the mode had been changed by then.
---
 filesystem/filesystem.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index 72149f2..3b57d0a 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -282,6 +282,11 @@ func (e *FileServer) Rwstat(fid protocol.FID, b []byte) error {
 	if err != nil {
 		return err
 	}
+	// Try to find local uid, gid by name.
+	if dir.User != "" || dir.Group != "" {
+		return fmt.Errorf("Permission denied")
+	}
+
 	if dir.Mode != 0xFFFFFFFF {
 		changed = true
 		mode := dir.Mode & 0777
@@ -290,12 +295,6 @@ func (e *FileServer) Rwstat(fid protocol.FID, b []byte) error {
 		}
 	}
 
-	// Try to find local uid, gid by name.
-	if dir.User != "" || dir.Group != "" {
-		return fmt.Errorf("Permission denied")
-		changed = true
-	}
-
 	/*
 		if uid != ninep.NOUID || gid != ninep.NOUID {
 			changed = true
-- 
2.43.0


From 3312a2935c9814af78cc6025ce711ead82220e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:20 +0000
Subject: [PATCH 20/25] fix: wstat of the mtime alone leaves the atime as it is

It set the atime to 2106, the value that stands for no change.
---
 filesystem/filesystem.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index 3b57d0a..4e508df 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -358,7 +358,8 @@ func (e *FileServer) Rwstat(fid protocol.FID, b []byte) error {
 			case true:
 				mt = st.ModTime()
 			default:
-				//at = atime(st.Sys().(*syscall.Stat_t))
+				// A zero time leaves it as it is.
+				at = time.Time{}
 			}
 		}
 		if err := os.Chtimes(f.fullName, at, mt); err != nil {
-- 
2.43.0


From 5be1b23ea7a25a9faad5720da3a1f3829c4fa84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:20 +0000
Subject: [PATCH 21/25] fix: wstat reports a failed sync

A wstat that changes nothing asks for the file to be committed to stable
storage; that this failed was not reported.
---
 filesystem/filesystem.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index 4e508df..645f41e 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -368,7 +368,7 @@ func (e *FileServer) Rwstat(fid protocol.FID, b []byte) error {
 	}
 
 	if !changed && f.file != nil {
-		f.file.Sync()
+		return f.file.Sync()
 	}
 	return nil
 }
-- 
2.43.0


From dce8921950c05f5b185e8bfeff0649a1aac6effb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:21 +0000
Subject: [PATCH 22/25] fix: the file server builds on Windows again

---
 filesystem/filesystem_windows.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/filesystem/filesystem_windows.go b/filesystem/filesystem_windows.go
index 7a5ef70..70cc388 100644
--- a/filesystem/filesystem_windows.go
+++ b/filesystem/filesystem_windows.go
@@ -13,13 +13,13 @@ import "os"
 // resetDir closes the underlying file and reopens it so it can be read again.
 // This is because Windows doesn't seem to support calling Seek on a directory
 // handle.
-func resetDir(f *File) error {
+func resetDir(f *file) error {
 	f2, err := os.OpenFile(f.fullName, os.O_RDONLY, 0)
 	if err != nil {
 		return err
 	}
 
-	f.File.Close()
-	f.File = f2
+	f.file.Close()
+	f.file = f2
 	return nil
 }
-- 
2.43.0


From a0b889dfd48dc0813a2ad204597114e004a7b977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:37 +0000
Subject: [PATCH 23/25] fix: ufs checks that its server could be made

---
 cmd/ufs/ufs.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/ufs/ufs.go b/cmd/ufs/ufs.go
index 000d19b..4e60b24 100644
--- a/cmd/ufs/ufs.go
+++ b/cmd/ufs/ufs.go
@@ -30,6 +30,9 @@ func main() {
 		l.Trace = nil // log.Printf
 		return nil
 	})
+	if err != nil {
+		log.Fatal(err)
+	}
 
 	if err := ufslistener.Serve(ln); err != nil {
 		log.Fatal(err)
-- 
2.43.0


From a57b5143a8e5bc96a6ee7063ff9b1dd790d039df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:10 +0000
Subject: [PATCH 24/25] fix: keep a directory entry that does not fit into a
 read

It was dropped, and the listing went on without it.
---
 filesystem/filesystem.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index 645f41e..3e7d035 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -439,6 +439,9 @@ func (e *FileServer) Rread(fid protocol.FID, o protocol.Offset, c protocol.Count
 				return b.Bytes()[:pos], nil
 			}
 			pos += b.Len()
+			if pos > 0 {
+				return b.Bytes(), nil
+			}
 			st, err := f.file.Readdir(1)
 			if err == io.EOF {
 				return b.Bytes(), nil
@@ -456,7 +459,8 @@ func (e *FileServer) Rread(fid protocol.FID, o protocol.Offset, c protocol.Count
 			// they end up asking for the last element with not enough data.
 			// Linux bug or bug with this server? Not sure yet.
 			if b.Len() > int(c) {
-				log.Printf("Warning: Server bug? %v, need %d bytes;count is %d: skipping", d9p, b.Len(), c)
+				log.Printf("Warning: Server bug? %v, need %d bytes;count is %d", d9p, b.Len(), c)
+				f.oflow = b.Bytes()
 				return nil, nil
 			}
 			// We're not quite doing the array right.
-- 
2.43.0


From 1ff81cd68997ca6419af8792338d1f6a18509e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:36 +0000
Subject: [PATCH 25/25] fix: a walk of no names from a fid to itself was
 refused

walk(5): newfid must not be in use unless it is the same as fid.
---
 filesystem/filesystem.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index 3e7d035..aeb71f5 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -131,6 +131,10 @@ func (e *FileServer) Rwalk(fid protocol.FID, newfid protocol.FID, paths []string
 		return nil, fmt.Errorf("does not exist")
 	}
 	if len(paths) == 0 {
+		if newfid == fid {
+			// It stands for that file already.
+			return []protocol.QID{}, nil
+		}
 		e.mu.Lock()
 		defer e.mu.Unlock()
 		_, ok := e.files[newfid]
-- 
2.43.0

