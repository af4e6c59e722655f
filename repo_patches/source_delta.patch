From f6e68005308c421ca89d08028fd017e25de0ee96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:27 +0000
Subject: [PATCH 01/10] fix: release the buffer lock when a v1/v2 write or grow
 panics

The write paths and grow locked the buffer without deferring the unlock,
so a panic inside (an empty slice, a negative growth) left the mutex held
and every later operation deadlocked. Grow also updated the cached
capacity in a second critical section.
---
 v1/buffer.go | 14 +++++++-------
 v2/buffer.go | 32 +++++++++++++-------------------
 2 files changed, 20 insertions(+), 26 deletions(-)

diff --git a/v1/buffer.go b/v1/buffer.go
index da17ecf..991bf92 100644
--- a/v1/buffer.go
+++ b/v1/buffer.go
@@ -252,6 +252,7 @@ func (b *Buffer) write(off int64, data []byte) {
 	}
 
 	b.Lock()
+	defer b.Unlock()
 
 	i := int64(0)
 	n := int64(len(data))
@@ -267,8 +268,6 @@ func (b *Buffer) write(off int64, data []byte) {
 		}
 	}
 
-	b.Unlock()
-
 }
 
 // writeComplex writes a slice of bytes to the buffer at the specified offset with the specified endianness and integer type
@@ -444,13 +443,14 @@ func (b *Buffer) after(off ...int64) int64 {
 // grow grows the buffer by n bytes
 func (b *Buffer) grow(n int64) {
 
-	b.Lock()
+	tmp := make([]byte, n)
 
-	b.buf = append(b.buf, make([]byte, n)...)
-
-	b.Unlock()
+	b.Lock()
+	defer b.Unlock()
 
-	b.refresh()
+	b.buf = append(b.buf, tmp...)
+	b.cap = int64(len(b.buf))
+	b.bcap = b.cap * 8
 
 }
 
diff --git a/v2/buffer.go b/v2/buffer.go
index b248125..cbbb3d6 100644
--- a/v2/buffer.go
+++ b/v2/buffer.go
@@ -292,6 +292,7 @@ func (b *Buffer) write(off int64, data []byte) {
 	}
 
 	b.Lock()
+	defer b.Unlock()
 
 	var (
 		i = int64(0)
@@ -308,8 +309,6 @@ func (b *Buffer) write(off int64, data []byte) {
 		}
 	}
 
-	b.Unlock()
-
 }
 
 // writeU16LE writes a slice of uint16s to the buffer at the specified offset in little-endian
@@ -328,6 +327,7 @@ func (b *Buffer) writeU16LE(off int64, data []uint16) {
 	}
 
 	b.Lock()
+	defer b.Unlock()
 
 	var (
 		i = 0
@@ -346,8 +346,6 @@ func (b *Buffer) writeU16LE(off int64, data []uint16) {
 		}
 	}
 
-	b.Unlock()
-
 }
 
 // writeU16BE writes a slice of uint16s to the buffer at the specified offset in big-endian
@@ -366,6 +364,7 @@ func (b *Buffer) writeU16BE(off int64, data []uint16) {
 	}
 
 	b.Lock()
+	defer b.Unlock()
 
 	var (
 		i = 0
@@ -384,8 +383,6 @@ func (b *Buffer) writeU16BE(off int64, data []uint16) {
 		}
 	}
 
-	b.Unlock()
-
 }
 
 // writeU32LE writes a slice of uint32s to the buffer at the specified offset in little-endian
@@ -404,6 +401,7 @@ func (b *Buffer) writeU32LE(off int64, data []uint32) {
 	}
 
 	b.Lock()
+	defer b.Unlock()
 
 	var (
 		i = 0
@@ -424,8 +422,6 @@ func (b *Buffer) writeU32LE(off int64, data []uint32) {
 		}
 	}
 
-	b.Unlock()
-
 }
 
 // writeU32BE writes a slice of uint32s to the buffer at the specified offset in big-endian
@@ -444,6 +440,7 @@ func (b *Buffer) writeU32BE(off int64, data []uint32) {
 	}
 
 	b.Lock()
+	defer b.Unlock()
 
 	var (
 		i = 0
@@ -464,8 +461,6 @@ func (b *Buffer) writeU32BE(off int64, data []uint32) {
 		}
 	}
 
-	b.Unlock()
-
 }
 
 // writeU64LE writes a slice of uint64s to the buffer at the specified offset in little-endian
@@ -484,6 +479,7 @@ func (b *Buffer) writeU64LE(off int64, data []uint64) {
 	}
 
 	b.Lock()
+	defer b.Unlock()
 
 	var (
 		i = 0
@@ -508,8 +504,6 @@ func (b *Buffer) writeU64LE(off int64, data []uint64) {
 		}
 	}
 
-	b.Unlock()
-
 }
 
 // writeU64BE writes a slice of uint64s to the buffer at the specified offset in big-endian
@@ -528,6 +522,7 @@ func (b *Buffer) writeU64BE(off int64, data []uint64) {
 	}
 
 	b.Lock()
+	defer b.Unlock()
 
 	var (
 		i = 0
@@ -552,8 +547,6 @@ func (b *Buffer) writeU64BE(off int64, data []uint64) {
 		}
 	}
 
-	b.Unlock()
-
 }
 
 // read reads n bytes from the buffer at the specified offset
@@ -856,13 +849,14 @@ func (b *Buffer) after(off ...int64) int64 {
 // grow grows the buffer by n bytes
 func (b *Buffer) grow(n int64) {
 
-	b.Lock()
-
-	b.buf = append(b.buf, make([]byte, n)...)
+	tmp := make([]byte, n)
 
-	b.Unlock()
+	b.Lock()
+	defer b.Unlock()
 
-	b.refresh()
+	b.buf = append(b.buf, tmp...)
+	b.cap = int64(len(b.buf))
+	b.bcap = b.cap * 8
 
 }
 
-- 
2.43.0


From aad8edf72b7b46804229332ca0d958d47c661a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:53 +0000
Subject: [PATCH 02/10] fix: make zero-length operations do nothing

The goto loops run their body once before looking at the count, so a
count of zero (or an empty slice, or an empty buffer for the whole-buffer
bit operations) panicked with an index error, read or changed one bit too
many, or failed at the end of the buffer although nothing was asked for.
---
 generation/complex.go   |   4 ++
 v1/buffer.go            |   6 ++
 v1/minibuf.go           |   6 ++
 v2/buffer.go            | 124 ++++++++++++++++++++++++++++++++++++++
 v2/minibuf.go           | 125 ++++++++++++++++++++++++++++++++++++++
 v3/_buffer.go           |  33 ++++++++++
 v3/_minibuf.go          |  34 +++++++++++
 v3/buffer.generated.go  | 129 +++++++++++++++++++++++++++++++++++++++
 v3/minibuf.generated.go | 130 ++++++++++++++++++++++++++++++++++++++++
 9 files changed, 591 insertions(+)

diff --git a/generation/complex.go b/generation/complex.go
index c493a25..b71162b 100644
--- a/generation/complex.go
+++ b/generation/complex.go
@@ -208,6 +208,8 @@ func GenerateComplex(oldFiles map[string][]byte) (files map[string][]byte, e err
 								jen.Index().Id(intType),
 								jen.Id("n"))
 					}
+					body.If(jen.Id("n").Op("<").Lit(1)).
+						Block(jen.Return())
 					body.Id("i").Op(":=").Id("int64").
 						Call(jen.Lit(0))
 
@@ -309,6 +311,8 @@ func GenerateComplex(oldFiles map[string][]byte) (files map[string][]byte, e err
 					// write generation code
 					body.Id("i").Op(":=").Lit(0)
 					body.Id("n").Op(":=").Len(jen.Id("data"))
+					body.If(jen.Id("n").Op("<").Lit(1)).
+						Block(jen.Return())
 					body.BlockFunc(func(loop *jen.Group) {
 						loop.Id("write_loop:")
 						if arguments[4] == "BE" {
diff --git a/v1/buffer.go b/v1/buffer.go
index 991bf92..a93feec 100644
--- a/v1/buffer.go
+++ b/v1/buffer.go
@@ -257,6 +257,12 @@ func (b *Buffer) write(off int64, data []byte) {
 	i := int64(0)
 	n := int64(len(data))
 
+	if n < 1 {
+
+		return
+
+	}
+
 	{
 	write_loop:
 		b.buf[off+i] = data[i]
diff --git a/v1/minibuf.go b/v1/minibuf.go
index 959d9f7..bd78fdb 100644
--- a/v1/minibuf.go
+++ b/v1/minibuf.go
@@ -188,6 +188,12 @@ func (b *MiniBuffer) write(off int64, data []byte) {
 	i := int64(0)
 	n := int64(len(data))
 
+	if n < 1 {
+
+		return
+
+	}
+
 	{
 	write_loop:
 		b.buf[off+i] = data[i]
diff --git a/v2/buffer.go b/v2/buffer.go
index cbbb3d6..2d59d6d 100644
--- a/v2/buffer.go
+++ b/v2/buffer.go
@@ -86,6 +86,12 @@ func (b *Buffer) readbits(off, n int64) (out uint64) {
 
 	i := int64(0)
 
+	if n < 1 {
+
+		return
+
+	}
+
 	{
 	read_loop:
 		out = (out << uint64(1)) | uint64(b.readbit(off+i))
@@ -139,6 +145,12 @@ func (b *Buffer) setbits(off int64, data uint64, n int64) {
 
 	i := int64(0)
 
+	if n < 1 {
+
+		return
+
+	}
+
 	{
 	write_loop:
 		b.setbit(off+i, byte((data>>uint64(n-i-1))&1))
@@ -184,6 +196,13 @@ func (b *Buffer) clearallbits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
+
+	if n < 1 {
+
+		return
+
+	}
+
 	{
 	clear_loop:
 		b.buf[i] = 0
@@ -207,6 +226,13 @@ func (b *Buffer) setallbits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
+
+	if n < 1 {
+
+		return
+
+	}
+
 	{
 	set_loop:
 		b.buf[i] = 0xFF
@@ -230,6 +256,13 @@ func (b *Buffer) flipallbits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
+
+	if n < 1 {
+
+		return
+
+	}
+
 	{
 	flip_loop:
 		b.buf[i] = ^b.buf[i]
@@ -298,6 +331,13 @@ func (b *Buffer) write(off int64, data []byte) {
 		i = int64(0)
 		n = int64(len(data))
 	)
+
+	if n < 1 {
+
+		return
+
+	}
+
 	{
 	write_loop:
 		b.buf[off+i] = data[i]
@@ -333,6 +373,13 @@ func (b *Buffer) writeU16LE(off int64, data []uint16) {
 		i = 0
 		n = len(data)
 	)
+
+	if n < 1 {
+
+		return
+
+	}
+
 	{
 	write_loop:
 		b.buf[off+int64(i*2)] = byte(data[i])
@@ -370,6 +417,13 @@ func (b *Buffer) writeU16BE(off int64, data []uint16) {
 		i = 0
 		n = len(data)
 	)
+
+	if n < 1 {
+
+		return
+
+	}
+
 	{
 	write_loop:
 		b.buf[off+int64(i*2)] = byte(data[i] >> 8)
@@ -407,6 +461,13 @@ func (b *Buffer) writeU32LE(off int64, data []uint32) {
 		i = 0
 		n = len(data)
 	)
+
+	if n < 1 {
+
+		return
+
+	}
+
 	{
 	write_loop:
 		b.buf[off+int64(i*4)] = byte(data[i])
@@ -446,6 +507,13 @@ func (b *Buffer) writeU32BE(off int64, data []uint32) {
 		i = 0
 		n = len(data)
 	)
+
+	if n < 1 {
+
+		return
+
+	}
+
 	{
 	write_loop:
 		b.buf[off+int64(i*4)] = byte(data[i] >> 24)
@@ -485,6 +553,13 @@ func (b *Buffer) writeU64LE(off int64, data []uint64) {
 		i = 0
 		n = len(data)
 	)
+
+	if n < 1 {
+
+		return
+
+	}
+
 	{
 	write_loop:
 		b.buf[off+int64(i*8)] = byte(data[i])
@@ -528,6 +603,13 @@ func (b *Buffer) writeU64BE(off int64, data []uint64) {
 		i = 0
 		n = len(data)
 	)
+
+	if n < 1 {
+
+		return
+
+	}
+
 	{
 	write_loop:
 		b.buf[off+int64(i*8)] = byte(data[i] >> 56)
@@ -592,6 +674,13 @@ func (b *Buffer) readU16LE(off, n int64) (out []uint16) {
 	defer b.Unlock()
 
 	i := int64(0)
+
+	if n < 1 {
+
+		return
+
+	}
+
 	{
 	read_loop:
 		out[i] = uint16(b.buf[off+(i*2)]) |
@@ -630,6 +719,13 @@ func (b *Buffer) readU16BE(off, n int64) (out []uint16) {
 	defer b.Unlock()
 
 	i := int64(0)
+
+	if n < 1 {
+
+		return
+
+	}
+
 	{
 	read_loop:
 		out[i] = uint16(b.buf[off+(1+(i*2))]) |
@@ -668,6 +764,13 @@ func (b *Buffer) readU32LE(off, n int64) (out []uint32) {
 	defer b.Unlock()
 
 	i := int64(0)
+
+	if n < 1 {
+
+		return
+
+	}
+
 	{
 	read_loop:
 		out[i] = uint32(b.buf[off+(i*4)]) |
@@ -708,6 +811,13 @@ func (b *Buffer) readU32BE(off, n int64) (out []uint32) {
 	defer b.Unlock()
 
 	i := int64(0)
+
+	if n < 1 {
+
+		return
+
+	}
+
 	{
 	read_loop:
 		out[i] = uint32(b.buf[off+(3+(i*4))]) |
@@ -748,6 +858,13 @@ func (b *Buffer) readU64LE(off, n int64) (out []uint64) {
 	defer b.Unlock()
 
 	i := int64(0)
+
+	if n < 1 {
+
+		return
+
+	}
+
 	{
 	read_loop:
 		out[i] = uint64(b.buf[off+(i*8)]) |
@@ -791,6 +908,13 @@ func (b *Buffer) readU64BE(off, n int64) (out []uint64) {
 	b.Lock()
 	defer b.Unlock()
 	i := int64(0)
+
+	if n < 1 {
+
+		return
+
+	}
+
 	{
 	read_loop:
 		out[i] = uint64(b.buf[off+(7+(i*8))]) |
diff --git a/v2/minibuf.go b/v2/minibuf.go
index f1fc45d..1104dab 100644
--- a/v2/minibuf.go
+++ b/v2/minibuf.go
@@ -75,6 +75,13 @@ func (b *MiniBuffer) readbits(out *uint64, off, n int64) {
 
 		i = int64(0)
 	)
+
+	if n < 1 {
+
+		return
+
+	}
+
 	{
 	read_loop:
 		b.readbit(&bout, off+i)
@@ -112,6 +119,12 @@ func (b *MiniBuffer) setbits(off int64, data uint64, n int64) {
 
 	i := int64(0)
 
+	if n < 1 {
+
+		return
+
+	}
+
 	{
 	write_loop:
 		b.setbit(off+i, byte((data>>uint64(n-i-1))&1))
@@ -139,6 +152,13 @@ func (b *MiniBuffer) clearallbits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
+
+	if n < 1 {
+
+		return
+
+	}
+
 	{
 	clear_loop:
 		b.buf[i] = 0
@@ -159,6 +179,13 @@ func (b *MiniBuffer) setallbits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
+
+	if n < 1 {
+
+		return
+
+	}
+
 	{
 	set_loop:
 		b.buf[i] = 0xFF
@@ -179,6 +206,13 @@ func (b *MiniBuffer) flipallbits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
+
+	if n < 1 {
+
+		return
+
+	}
+
 	{
 	flip_loop:
 		b.buf[i] = ^b.buf[i]
@@ -230,6 +264,13 @@ func (b *MiniBuffer) write(off int64, data []byte) {
 		i = int64(0)
 		n = int64(len(data))
 	)
+
+	if n < 1 {
+
+		return
+
+	}
+
 	{
 	write_loop:
 		b.buf[off+i] = data[i]
@@ -250,6 +291,13 @@ func (b *MiniBuffer) writeU16LE(off int64, data []uint16) {
 		i = 0
 		n = len(data)
 	)
+
+	if n < 1 {
+
+		return
+
+	}
+
 	{
 	write_loop:
 		b.buf[off+int64(i*2)] = byte(data[i])
@@ -272,6 +320,13 @@ func (b *MiniBuffer) writeU16BE(off int64, data []uint16) {
 		i = 0
 		n = len(data)
 	)
+
+	if n < 1 {
+
+		return
+
+	}
+
 	{
 	write_loop:
 		b.buf[off+int64(i*2)] = byte(data[i] >> 8)
@@ -294,6 +349,13 @@ func (b *MiniBuffer) writeU32LE(off int64, data []uint32) {
 		i = 0
 		n = len(data)
 	)
+
+	if n < 1 {
+
+		return
+
+	}
+
 	{
 	write_loop:
 		b.buf[off+int64(i*4)] = byte(data[i])
@@ -318,6 +380,13 @@ func (b *MiniBuffer) writeU32BE(off int64, data []uint32) {
 		i = 0
 		n = len(data)
 	)
+
+	if n < 1 {
+
+		return
+
+	}
+
 	{
 	write_loop:
 		b.buf[off+int64(i*4)] = byte(data[i] >> 24)
@@ -342,6 +411,13 @@ func (b *MiniBuffer) writeU64LE(off int64, data []uint64) {
 		i = 0
 		n = len(data)
 	)
+
+	if n < 1 {
+
+		return
+
+	}
+
 	{
 	write_loop:
 		b.buf[off+int64(i*8)] = byte(data[i])
@@ -370,6 +446,13 @@ func (b *MiniBuffer) writeU64BE(off int64, data []uint64) {
 		i = 0
 		n = len(data)
 	)
+
+	if n < 1 {
+
+		return
+
+	}
+
 	{
 	write_loop:
 		b.buf[off+int64(i*8)] = byte(data[i] >> 56)
@@ -402,6 +485,13 @@ func (b *MiniBuffer) read(out *[]byte, off, n int64) {
 func (b *MiniBuffer) readU16LE(out *[]uint16, off, n int64) {
 
 	i := int64(0)
+
+	if n < 1 {
+
+		return
+
+	}
+
 	{
 	read_loop:
 		(*out)[i] = uint16(b.buf[off+(i*2)]) |
@@ -421,6 +511,13 @@ func (b *MiniBuffer) readU16LE(out *[]uint16, off, n int64) {
 func (b *MiniBuffer) readU16BE(out *[]uint16, off, n int64) {
 
 	i := int64(0)
+
+	if n < 1 {
+
+		return
+
+	}
+
 	{
 	read_loop:
 		(*out)[i] = uint16(b.buf[off+(1+(i*2))]) |
@@ -440,6 +537,13 @@ func (b *MiniBuffer) readU16BE(out *[]uint16, off, n int64) {
 func (b *MiniBuffer) readU32LE(out *[]uint32, off, n int64) {
 
 	i := int64(0)
+
+	if n < 1 {
+
+		return
+
+	}
+
 	{
 	read_loop:
 		(*out)[i] = uint32(b.buf[off+(i*4)]) |
@@ -461,6 +565,13 @@ func (b *MiniBuffer) readU32LE(out *[]uint32, off, n int64) {
 func (b *MiniBuffer) readU32BE(out *[]uint32, off, n int64) {
 
 	i := int64(0)
+
+	if n < 1 {
+
+		return
+
+	}
+
 	{
 	read_loop:
 		(*out)[i] = uint32(b.buf[off+(3+(i*4))]) |
@@ -482,6 +593,13 @@ func (b *MiniBuffer) readU32BE(out *[]uint32, off, n int64) {
 func (b *MiniBuffer) readU64LE(out *[]uint64, off, n int64) {
 
 	i := int64(0)
+
+	if n < 1 {
+
+		return
+
+	}
+
 	{
 	read_loop:
 		(*out)[i] = uint64(b.buf[off+(i*8)]) |
@@ -507,6 +625,13 @@ func (b *MiniBuffer) readU64LE(out *[]uint64, off, n int64) {
 func (b *MiniBuffer) readU64BE(out *[]uint64, off, n int64) {
 
 	i := int64(0)
+
+	if n < 1 {
+
+		return
+
+	}
+
 	{
 	read_loop:
 		(*out)[i] = uint64(b.buf[off+(7+(i*8))]) |
diff --git a/v3/_buffer.go b/v3/_buffer.go
index 4878780..b9c9f98 100644
--- a/v3/_buffer.go
+++ b/v3/_buffer.go
@@ -104,6 +104,12 @@ func (b *Buffer) ReadBits(off, n int64) (out uint64) {
 
 	i := int64(0)
 
+	if n < 1 {
+
+		return
+
+	}
+
 	{
 	read_loop:
 		out = (out << uint64(1)) | uint64(b.ReadBit(off+i))
@@ -193,6 +199,12 @@ func (b *Buffer) SetBits(off int64, data uint64, n int64) {
 
 	i := int64(0)
 
+	if n < 1 {
+
+		return
+
+	}
+
 	{
 	write_loop:
 		if byte((data>>uint64(n-i-1))&1) == 0 {
@@ -259,6 +271,13 @@ func (b *Buffer) ClearAllBits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
+
+	if n < 1 {
+
+		return
+
+	}
+
 	{
 	clear_loop:
 		b.buf[i] = 0
@@ -279,6 +298,13 @@ func (b *Buffer) SetAllBits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
+
+	if n < 1 {
+
+		return
+
+	}
+
 	{
 	set_loop:
 		b.buf[i] = 0xFF
@@ -299,6 +325,13 @@ func (b *Buffer) FlipAllBits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
+
+	if n < 1 {
+
+		return
+
+	}
+
 	{
 	flip_loop:
 		b.buf[i] = ^b.buf[i]
diff --git a/v3/_minibuf.go b/v3/_minibuf.go
index a5b4cc2..a2f77f0 100644
--- a/v3/_minibuf.go
+++ b/v3/_minibuf.go
@@ -92,6 +92,13 @@ func (b *MiniBuffer) ReadBits(out *uint64, off, n int64) {
 
 		i = int64(0)
 	)
+
+	if n < 1 {
+
+		return
+
+	}
+
 	{
 	read_loop:
 		b.ReadBit(&bout, off+i)
@@ -155,6 +162,12 @@ func (b *MiniBuffer) SetBits(off int64, data uint64, n int64) {
 
 	i := int64(0)
 
+	if n < 1 {
+
+		return
+
+	}
+
 	{
 	write_loop:
 		if byte((data>>uint64(n-i-1))&1) == 0 {
@@ -209,6 +222,13 @@ func (b *MiniBuffer) ClearAllBits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
+
+	if n < 1 {
+
+		return
+
+	}
+
 	{
 	clear_loop:
 		b.buf[i] = 0
@@ -229,6 +249,13 @@ func (b *MiniBuffer) SetAllBits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
+
+	if n < 1 {
+
+		return
+
+	}
+
 	{
 	set_loop:
 		b.buf[i] = 0xFF
@@ -249,6 +276,13 @@ func (b *MiniBuffer) FlipAllBits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
+
+	if n < 1 {
+
+		return
+
+	}
+
 	{
 	flip_loop:
 		b.buf[i] = ^b.buf[i]
diff --git a/v3/buffer.generated.go b/v3/buffer.generated.go
index 9a08306..c702202 100644
--- a/v3/buffer.generated.go
+++ b/v3/buffer.generated.go
@@ -104,6 +104,12 @@ func (b *Buffer) ReadBits(off, n int64) (out uint64) {
 
 	i := int64(0)
 
+	if n < 1 {
+
+		return
+
+	}
+
 	{
 	read_loop:
 		out = (out << uint64(1)) | uint64(b.ReadBit(off+i))
@@ -193,6 +199,12 @@ func (b *Buffer) SetBits(off int64, data uint64, n int64) {
 
 	i := int64(0)
 
+	if n < 1 {
+
+		return
+
+	}
+
 	{
 	write_loop:
 		if byte((data>>uint64(n-i-1))&1) == 0 {
@@ -259,6 +271,13 @@ func (b *Buffer) ClearAllBits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
+
+	if n < 1 {
+
+		return
+
+	}
+
 	{
 	clear_loop:
 		b.buf[i] = 0
@@ -279,6 +298,13 @@ func (b *Buffer) SetAllBits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
+
+	if n < 1 {
+
+		return
+
+	}
+
 	{
 	set_loop:
 		b.buf[i] = 0xFF
@@ -299,6 +325,13 @@ func (b *Buffer) FlipAllBits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
+
+	if n < 1 {
+
+		return
+
+	}
+
 	{
 	flip_loop:
 		b.buf[i] = ^b.buf[i]
@@ -409,6 +442,9 @@ func (b *Buffer) WriteU16LE(off int64, data []uint16) {
 	}
 	i := 0
 	n := len(data)
+	if n < 1 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*2)] = byte(data[i])
@@ -440,6 +476,9 @@ func (b *Buffer) WriteU16BE(off int64, data []uint16) {
 	}
 	i := 0
 	n := len(data)
+	if n < 1 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*2)] = byte(data[i] >> 8)
@@ -471,6 +510,9 @@ func (b *Buffer) WriteU32LE(off int64, data []uint32) {
 	}
 	i := 0
 	n := len(data)
+	if n < 1 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*4)] = byte(data[i])
@@ -504,6 +546,9 @@ func (b *Buffer) WriteU32BE(off int64, data []uint32) {
 	}
 	i := 0
 	n := len(data)
+	if n < 1 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*4)] = byte(data[i] >> 24)
@@ -537,6 +582,9 @@ func (b *Buffer) WriteU64LE(off int64, data []uint64) {
 	}
 	i := 0
 	n := len(data)
+	if n < 1 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*8)] = byte(data[i])
@@ -574,6 +622,9 @@ func (b *Buffer) WriteU64BE(off int64, data []uint64) {
 	}
 	i := 0
 	n := len(data)
+	if n < 1 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*8)] = byte(data[i] >> 56)
@@ -611,6 +662,9 @@ func (b *Buffer) WriteI16LE(off int64, data []int16) {
 	}
 	i := 0
 	n := len(data)
+	if n < 1 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*2)] = byte(data[i])
@@ -642,6 +696,9 @@ func (b *Buffer) WriteI16BE(off int64, data []int16) {
 	}
 	i := 0
 	n := len(data)
+	if n < 1 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*2)] = byte(data[i] >> 8)
@@ -673,6 +730,9 @@ func (b *Buffer) WriteI32LE(off int64, data []int32) {
 	}
 	i := 0
 	n := len(data)
+	if n < 1 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*4)] = byte(data[i])
@@ -706,6 +766,9 @@ func (b *Buffer) WriteI32BE(off int64, data []int32) {
 	}
 	i := 0
 	n := len(data)
+	if n < 1 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*4)] = byte(data[i] >> 24)
@@ -739,6 +802,9 @@ func (b *Buffer) WriteI64LE(off int64, data []int64) {
 	}
 	i := 0
 	n := len(data)
+	if n < 1 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*8)] = byte(data[i])
@@ -776,6 +842,9 @@ func (b *Buffer) WriteI64BE(off int64, data []int64) {
 	}
 	i := 0
 	n := len(data)
+	if n < 1 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*8)] = byte(data[i] >> 56)
@@ -813,6 +882,9 @@ func (b *Buffer) WriteF32LE(off int64, data []float32) {
 	}
 	i := 0
 	n := len(data)
+	if n < 1 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*4)] = byte(*(*uint32)(unsafe.Pointer(&data[i])))
@@ -846,6 +918,9 @@ func (b *Buffer) WriteF32BE(off int64, data []float32) {
 	}
 	i := 0
 	n := len(data)
+	if n < 1 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*4)] = byte(*(*uint32)(unsafe.Pointer(&data[i])) >> 24)
@@ -879,6 +954,9 @@ func (b *Buffer) WriteF64LE(off int64, data []float64) {
 	}
 	i := 0
 	n := len(data)
+	if n < 1 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*8)] = byte(*(*uint64)(unsafe.Pointer(&data[i])))
@@ -916,6 +994,9 @@ func (b *Buffer) WriteF64BE(off int64, data []float64) {
 	}
 	i := 0
 	n := len(data)
+	if n < 1 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*8)] = byte(*(*uint64)(unsafe.Pointer(&data[i])) >> 56)
@@ -1000,6 +1081,9 @@ func (b *Buffer) ReadU16LE(off, n int64) (out []uint16) {
 		panic(BufferUnderreadError)
 	}
 	out = make([]uint16, n)
+	if n < 1 {
+		return
+	}
 	i := int64(0)
 	{
 	read_loop:
@@ -1032,6 +1116,9 @@ func (b *Buffer) ReadU16BE(off, n int64) (out []uint16) {
 		panic(BufferUnderreadError)
 	}
 	out = make([]uint16, n)
+	if n < 1 {
+		return
+	}
 	i := int64(0)
 	{
 	read_loop:
@@ -1064,6 +1151,9 @@ func (b *Buffer) ReadU32LE(off, n int64) (out []uint32) {
 		panic(BufferUnderreadError)
 	}
 	out = make([]uint32, n)
+	if n < 1 {
+		return
+	}
 	i := int64(0)
 	{
 	read_loop:
@@ -1096,6 +1186,9 @@ func (b *Buffer) ReadU32BE(off, n int64) (out []uint32) {
 		panic(BufferUnderreadError)
 	}
 	out = make([]uint32, n)
+	if n < 1 {
+		return
+	}
 	i := int64(0)
 	{
 	read_loop:
@@ -1128,6 +1221,9 @@ func (b *Buffer) ReadU64LE(off, n int64) (out []uint64) {
 		panic(BufferUnderreadError)
 	}
 	out = make([]uint64, n)
+	if n < 1 {
+		return
+	}
 	i := int64(0)
 	{
 	read_loop:
@@ -1160,6 +1256,9 @@ func (b *Buffer) ReadU64BE(off, n int64) (out []uint64) {
 		panic(BufferUnderreadError)
 	}
 	out = make([]uint64, n)
+	if n < 1 {
+		return
+	}
 	i := int64(0)
 	{
 	read_loop:
@@ -1192,6 +1291,9 @@ func (b *Buffer) ReadI16LE(off, n int64) (out []int16) {
 		panic(BufferUnderreadError)
 	}
 	out = make([]int16, n)
+	if n < 1 {
+		return
+	}
 	i := int64(0)
 	{
 	read_loop:
@@ -1224,6 +1326,9 @@ func (b *Buffer) ReadI16BE(off, n int64) (out []int16) {
 		panic(BufferUnderreadError)
 	}
 	out = make([]int16, n)
+	if n < 1 {
+		return
+	}
 	i := int64(0)
 	{
 	read_loop:
@@ -1256,6 +1361,9 @@ func (b *Buffer) ReadI32LE(off, n int64) (out []int32) {
 		panic(BufferUnderreadError)
 	}
 	out = make([]int32, n)
+	if n < 1 {
+		return
+	}
 	i := int64(0)
 	{
 	read_loop:
@@ -1288,6 +1396,9 @@ func (b *Buffer) ReadI32BE(off, n int64) (out []int32) {
 		panic(BufferUnderreadError)
 	}
 	out = make([]int32, n)
+	if n < 1 {
+		return
+	}
 	i := int64(0)
 	{
 	read_loop:
@@ -1320,6 +1431,9 @@ func (b *Buffer) ReadI64LE(off, n int64) (out []int64) {
 		panic(BufferUnderreadError)
 	}
 	out = make([]int64, n)
+	if n < 1 {
+		return
+	}
 	i := int64(0)
 	{
 	read_loop:
@@ -1352,6 +1466,9 @@ func (b *Buffer) ReadI64BE(off, n int64) (out []int64) {
 		panic(BufferUnderreadError)
 	}
 	out = make([]int64, n)
+	if n < 1 {
+		return
+	}
 	i := int64(0)
 	{
 	read_loop:
@@ -1384,6 +1501,9 @@ func (b *Buffer) ReadF32LE(off, n int64) (out []float32) {
 		panic(BufferUnderreadError)
 	}
 	out = make([]float32, n)
+	if n < 1 {
+		return
+	}
 	i := int64(0)
 	var u uint32
 	{
@@ -1418,6 +1538,9 @@ func (b *Buffer) ReadF32BE(off, n int64) (out []float32) {
 		panic(BufferUnderreadError)
 	}
 	out = make([]float32, n)
+	if n < 1 {
+		return
+	}
 	i := int64(0)
 	var u uint32
 	{
@@ -1452,6 +1575,9 @@ func (b *Buffer) ReadF64LE(off, n int64) (out []float64) {
 		panic(BufferUnderreadError)
 	}
 	out = make([]float64, n)
+	if n < 1 {
+		return
+	}
 	i := int64(0)
 	var u uint64
 	{
@@ -1486,6 +1612,9 @@ func (b *Buffer) ReadF64BE(off, n int64) (out []float64) {
 		panic(BufferUnderreadError)
 	}
 	out = make([]float64, n)
+	if n < 1 {
+		return
+	}
 	i := int64(0)
 	var u uint64
 	{
diff --git a/v3/minibuf.generated.go b/v3/minibuf.generated.go
index 1f87c45..4ff6089 100644
--- a/v3/minibuf.generated.go
+++ b/v3/minibuf.generated.go
@@ -92,6 +92,13 @@ func (b *MiniBuffer) ReadBits(out *uint64, off, n int64) {
 
 		i = int64(0)
 	)
+
+	if n < 1 {
+
+		return
+
+	}
+
 	{
 	read_loop:
 		b.ReadBit(&bout, off+i)
@@ -155,6 +162,12 @@ func (b *MiniBuffer) SetBits(off int64, data uint64, n int64) {
 
 	i := int64(0)
 
+	if n < 1 {
+
+		return
+
+	}
+
 	{
 	write_loop:
 		if byte((data>>uint64(n-i-1))&1) == 0 {
@@ -209,6 +222,13 @@ func (b *MiniBuffer) ClearAllBits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
+
+	if n < 1 {
+
+		return
+
+	}
+
 	{
 	clear_loop:
 		b.buf[i] = 0
@@ -229,6 +249,13 @@ func (b *MiniBuffer) SetAllBits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
+
+	if n < 1 {
+
+		return
+
+	}
+
 	{
 	set_loop:
 		b.buf[i] = 0xFF
@@ -249,6 +276,13 @@ func (b *MiniBuffer) FlipAllBits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
+
+	if n < 1 {
+
+		return
+
+	}
+
 	{
 	flip_loop:
 		b.buf[i] = ^b.buf[i]
@@ -325,6 +359,9 @@ func (b *MiniBuffer) WriteBytesNext(data []byte) {
 func (b *MiniBuffer) WriteU16LE(off int64, data []uint16) {
 	i := 0
 	n := len(data)
+	if n < 1 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*2)] = byte(data[i])
@@ -350,6 +387,9 @@ func (b *MiniBuffer) WriteU16LENext(data []uint16) {
 func (b *MiniBuffer) WriteU16BE(off int64, data []uint16) {
 	i := 0
 	n := len(data)
+	if n < 1 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*2)] = byte(data[i] >> 8)
@@ -375,6 +415,9 @@ func (b *MiniBuffer) WriteU16BENext(data []uint16) {
 func (b *MiniBuffer) WriteU32LE(off int64, data []uint32) {
 	i := 0
 	n := len(data)
+	if n < 1 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*4)] = byte(data[i])
@@ -402,6 +445,9 @@ func (b *MiniBuffer) WriteU32LENext(data []uint32) {
 func (b *MiniBuffer) WriteU32BE(off int64, data []uint32) {
 	i := 0
 	n := len(data)
+	if n < 1 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*4)] = byte(data[i] >> 24)
@@ -429,6 +475,9 @@ func (b *MiniBuffer) WriteU32BENext(data []uint32) {
 func (b *MiniBuffer) WriteU64LE(off int64, data []uint64) {
 	i := 0
 	n := len(data)
+	if n < 1 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*8)] = byte(data[i])
@@ -460,6 +509,9 @@ func (b *MiniBuffer) WriteU64LENext(data []uint64) {
 func (b *MiniBuffer) WriteU64BE(off int64, data []uint64) {
 	i := 0
 	n := len(data)
+	if n < 1 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*8)] = byte(data[i] >> 56)
@@ -491,6 +543,9 @@ func (b *MiniBuffer) WriteU64BENext(data []uint64) {
 func (b *MiniBuffer) WriteI16LE(off int64, data []int16) {
 	i := 0
 	n := len(data)
+	if n < 1 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*2)] = byte(data[i])
@@ -516,6 +571,9 @@ func (b *MiniBuffer) WriteI16LENext(data []int16) {
 func (b *MiniBuffer) WriteI16BE(off int64, data []int16) {
 	i := 0
 	n := len(data)
+	if n < 1 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*2)] = byte(data[i] >> 8)
@@ -541,6 +599,9 @@ func (b *MiniBuffer) WriteI16BENext(data []int16) {
 func (b *MiniBuffer) WriteI32LE(off int64, data []int32) {
 	i := 0
 	n := len(data)
+	if n < 1 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*4)] = byte(data[i])
@@ -568,6 +629,9 @@ func (b *MiniBuffer) WriteI32LENext(data []int32) {
 func (b *MiniBuffer) WriteI32BE(off int64, data []int32) {
 	i := 0
 	n := len(data)
+	if n < 1 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*4)] = byte(data[i] >> 24)
@@ -595,6 +659,9 @@ func (b *MiniBuffer) WriteI32BENext(data []int32) {
 func (b *MiniBuffer) WriteI64LE(off int64, data []int64) {
 	i := 0
 	n := len(data)
+	if n < 1 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*8)] = byte(data[i])
@@ -626,6 +693,9 @@ func (b *MiniBuffer) WriteI64LENext(data []int64) {
 func (b *MiniBuffer) WriteI64BE(off int64, data []int64) {
 	i := 0
 	n := len(data)
+	if n < 1 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*8)] = byte(data[i] >> 56)
@@ -657,6 +727,9 @@ func (b *MiniBuffer) WriteI64BENext(data []int64) {
 func (b *MiniBuffer) WriteF32LE(off int64, data []float32) {
 	i := 0
 	n := len(data)
+	if n < 1 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*4)] = byte(*(*uint32)(unsafe.Pointer(&data[i])))
@@ -684,6 +757,9 @@ func (b *MiniBuffer) WriteF32LENext(data []float32) {
 func (b *MiniBuffer) WriteF32BE(off int64, data []float32) {
 	i := 0
 	n := len(data)
+	if n < 1 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*4)] = byte(*(*uint32)(unsafe.Pointer(&data[i])) >> 24)
@@ -711,6 +787,9 @@ func (b *MiniBuffer) WriteF32BENext(data []float32) {
 func (b *MiniBuffer) WriteF64LE(off int64, data []float64) {
 	i := 0
 	n := len(data)
+	if n < 1 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*8)] = byte(*(*uint64)(unsafe.Pointer(&data[i])))
@@ -742,6 +821,9 @@ func (b *MiniBuffer) WriteF64LENext(data []float64) {
 func (b *MiniBuffer) WriteF64BE(off int64, data []float64) {
 	i := 0
 	n := len(data)
+	if n < 1 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*8)] = byte(*(*uint64)(unsafe.Pointer(&data[i])) >> 56)
@@ -788,6 +870,9 @@ func (b *MiniBuffer) ReadBytesNext(out *[]byte, n int64) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *MiniBuffer) ReadU16LE(out *[]uint16, off, n int64) {
+	if n < 1 {
+		return
+	}
 	i := int64(0)
 	{
 	read_loop:
@@ -811,6 +896,9 @@ func (b *MiniBuffer) ReadU16LENext(out *[]uint16, n int64) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *MiniBuffer) ReadU16BE(out *[]uint16, off, n int64) {
+	if n < 1 {
+		return
+	}
 	i := int64(0)
 	{
 	read_loop:
@@ -834,6 +922,9 @@ func (b *MiniBuffer) ReadU16BENext(out *[]uint16, n int64) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *MiniBuffer) ReadU32LE(out *[]uint32, off, n int64) {
+	if n < 1 {
+		return
+	}
 	i := int64(0)
 	{
 	read_loop:
@@ -857,6 +948,9 @@ func (b *MiniBuffer) ReadU32LENext(out *[]uint32, n int64) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *MiniBuffer) ReadU32BE(out *[]uint32, off, n int64) {
+	if n < 1 {
+		return
+	}
 	i := int64(0)
 	{
 	read_loop:
@@ -880,6 +974,9 @@ func (b *MiniBuffer) ReadU32BENext(out *[]uint32, n int64) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *MiniBuffer) ReadU64LE(out *[]uint64, off, n int64) {
+	if n < 1 {
+		return
+	}
 	i := int64(0)
 	{
 	read_loop:
@@ -903,6 +1000,9 @@ func (b *MiniBuffer) ReadU64LENext(out *[]uint64, n int64) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *MiniBuffer) ReadU64BE(out *[]uint64, off, n int64) {
+	if n < 1 {
+		return
+	}
 	i := int64(0)
 	{
 	read_loop:
@@ -926,6 +1026,9 @@ func (b *MiniBuffer) ReadU64BENext(out *[]uint64, n int64) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *MiniBuffer) ReadI16LE(out *[]int16, off, n int64) {
+	if n < 1 {
+		return
+	}
 	i := int64(0)
 	{
 	read_loop:
@@ -949,6 +1052,9 @@ func (b *MiniBuffer) ReadI16LENext(out *[]int16, n int64) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *MiniBuffer) ReadI16BE(out *[]int16, off, n int64) {
+	if n < 1 {
+		return
+	}
 	i := int64(0)
 	{
 	read_loop:
@@ -972,6 +1078,9 @@ func (b *MiniBuffer) ReadI16BENext(out *[]int16, n int64) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *MiniBuffer) ReadI32LE(out *[]int32, off, n int64) {
+	if n < 1 {
+		return
+	}
 	i := int64(0)
 	{
 	read_loop:
@@ -995,6 +1104,9 @@ func (b *MiniBuffer) ReadI32LENext(out *[]int32, n int64) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *MiniBuffer) ReadI32BE(out *[]int32, off, n int64) {
+	if n < 1 {
+		return
+	}
 	i := int64(0)
 	{
 	read_loop:
@@ -1018,6 +1130,9 @@ func (b *MiniBuffer) ReadI32BENext(out *[]int32, n int64) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *MiniBuffer) ReadI64LE(out *[]int64, off, n int64) {
+	if n < 1 {
+		return
+	}
 	i := int64(0)
 	{
 	read_loop:
@@ -1041,6 +1156,9 @@ func (b *MiniBuffer) ReadI64LENext(out *[]int64, n int64) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *MiniBuffer) ReadI64BE(out *[]int64, off, n int64) {
+	if n < 1 {
+		return
+	}
 	i := int64(0)
 	{
 	read_loop:
@@ -1064,6 +1182,9 @@ func (b *MiniBuffer) ReadI64BENext(out *[]int64, n int64) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *MiniBuffer) ReadF32LE(out *[]float32, off, n int64) {
+	if n < 1 {
+		return
+	}
 	i := int64(0)
 	var u uint32
 	{
@@ -1089,6 +1210,9 @@ func (b *MiniBuffer) ReadF32LENext(out *[]float32, n int64) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *MiniBuffer) ReadF32BE(out *[]float32, off, n int64) {
+	if n < 1 {
+		return
+	}
 	i := int64(0)
 	var u uint32
 	{
@@ -1114,6 +1238,9 @@ func (b *MiniBuffer) ReadF32BENext(out *[]float32, n int64) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *MiniBuffer) ReadF64LE(out *[]float64, off, n int64) {
+	if n < 1 {
+		return
+	}
 	i := int64(0)
 	var u uint64
 	{
@@ -1139,6 +1266,9 @@ func (b *MiniBuffer) ReadF64LENext(out *[]float64, n int64) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *MiniBuffer) ReadF64BE(out *[]float64, off, n int64) {
+	if n < 1 {
+		return
+	}
 	i := int64(0)
 	var u uint64
 	{
-- 
2.43.0


From 9afff0b0c9b0ff45a6e5ffc2e64f3b79a7a8421a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:15 +0000
Subject: [PATCH 03/10] fix: write bytes correctly when the source overlaps the
 buffer

Writing a slice that came from Bytes or ReadBytes of the same buffer to a
higher overlapping offset re-read bytes it had just written, so what ended
up in the buffer was not the data given. Use copy, as v3 does.
---
 v1/buffer.go  | 20 +-------------------
 v1/minibuf.go | 20 +-------------------
 v2/buffer.go  | 22 +---------------------
 v2/minibuf.go | 22 +---------------------
 4 files changed, 4 insertions(+), 80 deletions(-)

diff --git a/v1/buffer.go b/v1/buffer.go
index a93feec..e6acd10 100644
--- a/v1/buffer.go
+++ b/v1/buffer.go
@@ -254,25 +254,7 @@ func (b *Buffer) write(off int64, data []byte) {
 	b.Lock()
 	defer b.Unlock()
 
-	i := int64(0)
-	n := int64(len(data))
-
-	if n < 1 {
-
-		return
-
-	}
-
-	{
-	write_loop:
-		b.buf[off+i] = data[i]
-		i++
-		if i < n {
-
-			goto write_loop
-
-		}
-	}
+	copy(b.buf[off:], data)
 
 }
 
diff --git a/v1/minibuf.go b/v1/minibuf.go
index bd78fdb..0ede4bb 100644
--- a/v1/minibuf.go
+++ b/v1/minibuf.go
@@ -185,25 +185,7 @@ func (b *MiniBuffer) afterbit(out *int64, off ...int64) {
 // write writes a slice of bytes to the buffer at the specified offset
 func (b *MiniBuffer) write(off int64, data []byte) {
 
-	i := int64(0)
-	n := int64(len(data))
-
-	if n < 1 {
-
-		return
-
-	}
-
-	{
-	write_loop:
-		b.buf[off+i] = data[i]
-		i++
-		if i < n {
-
-			goto write_loop
-
-		}
-	}
+	copy(b.buf[off:], data)
 
 }
 
diff --git a/v2/buffer.go b/v2/buffer.go
index 2d59d6d..57e4293 100644
--- a/v2/buffer.go
+++ b/v2/buffer.go
@@ -327,27 +327,7 @@ func (b *Buffer) write(off int64, data []byte) {
 	b.Lock()
 	defer b.Unlock()
 
-	var (
-		i = int64(0)
-		n = int64(len(data))
-	)
-
-	if n < 1 {
-
-		return
-
-	}
-
-	{
-	write_loop:
-		b.buf[off+i] = data[i]
-		i++
-		if i < n {
-
-			goto write_loop
-
-		}
-	}
+	copy(b.buf[off:], data)
 
 }
 
diff --git a/v2/minibuf.go b/v2/minibuf.go
index 1104dab..0d5fb6a 100644
--- a/v2/minibuf.go
+++ b/v2/minibuf.go
@@ -260,27 +260,7 @@ func (b *MiniBuffer) afterbit(out *int64, off ...int64) {
 // write writes a slice of bytes to the buffer at the specified offset
 func (b *MiniBuffer) write(off int64, data []byte) {
 
-	var (
-		i = int64(0)
-		n = int64(len(data))
-	)
-
-	if n < 1 {
-
-		return
-
-	}
-
-	{
-	write_loop:
-		b.buf[off+i] = data[i]
-		i++
-		if i < n {
-
-			goto write_loop
-
-		}
-	}
+	copy(b.buf[off:], data)
 
 }
 
-- 
2.43.0


From bfff10b32f95c93d16246fed57ec1df519535a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:56 +0000
Subject: [PATCH 04/10] fix: do not let the bounds checks of Buffer overflow

off + n*size wrapped around for large counts and offsets, so a request far
outside the buffer passed the check: it allocated a huge result or failed
with a runtime index error instead of the documented over-read/-write
error. Compare against the space left instead.
---
 generation/complex.go  |  7 +++--
 v1/buffer.go           |  4 +--
 v2/buffer.go           | 28 ++++++++---------
 v3/_buffer.go          |  4 +--
 v3/buffer.generated.go | 68 +++++++++++++++++++++---------------------
 5 files changed, 56 insertions(+), 55 deletions(-)

diff --git a/generation/complex.go b/generation/complex.go
index b71162b..ed4090d 100644
--- a/generation/complex.go
+++ b/generation/complex.go
@@ -187,13 +187,14 @@ func GenerateComplex(oldFiles map[string][]byte) (files map[string][]byte, e err
 			function.BlockFunc(func(body *jen.Group) {
 				if arguments[0] == "Buffer" {
 					if arguments[1] == "Read" {
-						body.If(jen.Parens(jen.Id("off").Op("+").Id("n").Op("*").Lit(intBytes)).Op(">").Id("b").Dot("cap")).
+						body.If(jen.Id("off").Op(">").Id("b").Dot("cap").Op("||").Id("off").Op(">=").Lit(0).Op("&&").
+							Id("n").Op(">").Parens(jen.Id("b").Dot("cap").Op("-").Id("off")).Op("/").Lit(intBytes)).
 							Block(jen.Panic(jen.Id("BufferOverreadError")))
 						body.If(jen.Id("off").Op("<").Lit(0x00)).
 							Block(jen.Panic(jen.Id("BufferUnderreadError")))
 					} else {
-						body.If(jen.Parens(jen.Id("off").Op("+").Id("int64").
-							Call(jen.Len(jen.Id("data"))).Op("*").Lit(intBytes)).Op(">").Id("b").Dot("cap")).
+						body.If(jen.Id("off").Op(">").Id("b").Dot("cap").Op("||").Id("off").Op(">=").Lit(0).Op("&&").
+							Id("int64").Call(jen.Len(jen.Id("data"))).Op(">").Parens(jen.Id("b").Dot("cap").Op("-").Id("off")).Op("/").Lit(intBytes)).
 							Block(jen.Panic(jen.Id("BufferOverwriteError")))
 						body.If(jen.Id("off").Op("<").Lit(0x00)).
 							Block(jen.Panic(jen.Id("BufferUnderwriteError")))
diff --git a/v1/buffer.go b/v1/buffer.go
index e6acd10..682eff6 100644
--- a/v1/buffer.go
+++ b/v1/buffer.go
@@ -239,7 +239,7 @@ func (b *Buffer) afterbit(off ...int64) int64 {
 // write writes a slice of bytes to the buffer at the specified offset
 func (b *Buffer) write(off int64, data []byte) {
 
-	if (off + int64(len(data))) > b.cap {
+	if off > b.cap || off >= 0 && int64(len(data)) > b.cap-off {
 
 		panic(BufferOverwriteError)
 
@@ -330,7 +330,7 @@ func (b *Buffer) writeComplex(off int64, idata interface{}, size IntegerSize, en
 // read reads n bytes from the buffer at the specified offset
 func (b *Buffer) read(off, n int64) []byte {
 
-	if (off + n) > b.cap {
+	if off > b.cap || off >= 0 && n > b.cap-off {
 
 		panic(BufferOverreadError)
 
diff --git a/v2/buffer.go b/v2/buffer.go
index 57e4293..2b2c442 100644
--- a/v2/buffer.go
+++ b/v2/buffer.go
@@ -312,7 +312,7 @@ func (b *Buffer) afterbit(off ...int64) int64 {
 // write writes a slice of bytes to the buffer at the specified offset
 func (b *Buffer) write(off int64, data []byte) {
 
-	if (off + int64(len(data))) > b.cap {
+	if off > b.cap || off >= 0 && int64(len(data)) > b.cap-off {
 
 		panic(BufferOverwriteError)
 
@@ -334,7 +334,7 @@ func (b *Buffer) write(off int64, data []byte) {
 // writeU16LE writes a slice of uint16s to the buffer at the specified offset in little-endian
 func (b *Buffer) writeU16LE(off int64, data []uint16) {
 
-	if (off + int64(len(data))*2) > b.cap {
+	if off > b.cap || off >= 0 && int64(len(data)) > (b.cap-off)/2 {
 
 		panic(BufferOverwriteError)
 
@@ -378,7 +378,7 @@ func (b *Buffer) writeU16LE(off int64, data []uint16) {
 // writeU16BE writes a slice of uint16s to the buffer at the specified offset in big-endian
 func (b *Buffer) writeU16BE(off int64, data []uint16) {
 
-	if (off + int64(len(data))*2) > b.cap {
+	if off > b.cap || off >= 0 && int64(len(data)) > (b.cap-off)/2 {
 
 		panic(BufferOverwriteError)
 
@@ -422,7 +422,7 @@ func (b *Buffer) writeU16BE(off int64, data []uint16) {
 // writeU32LE writes a slice of uint32s to the buffer at the specified offset in little-endian
 func (b *Buffer) writeU32LE(off int64, data []uint32) {
 
-	if (off + int64(len(data))*4) > b.cap {
+	if off > b.cap || off >= 0 && int64(len(data)) > (b.cap-off)/4 {
 
 		panic(BufferOverwriteError)
 
@@ -468,7 +468,7 @@ func (b *Buffer) writeU32LE(off int64, data []uint32) {
 // writeU32BE writes a slice of uint32s to the buffer at the specified offset in big-endian
 func (b *Buffer) writeU32BE(off int64, data []uint32) {
 
-	if (off + int64(len(data))*4) > b.cap {
+	if off > b.cap || off >= 0 && int64(len(data)) > (b.cap-off)/4 {
 
 		panic(BufferOverwriteError)
 
@@ -514,7 +514,7 @@ func (b *Buffer) writeU32BE(off int64, data []uint32) {
 // writeU64LE writes a slice of uint64s to the buffer at the specified offset in little-endian
 func (b *Buffer) writeU64LE(off int64, data []uint64) {
 
-	if (off + int64(len(data))*8) > b.cap {
+	if off > b.cap || off >= 0 && int64(len(data)) > (b.cap-off)/8 {
 
 		panic(BufferOverwriteError)
 
@@ -564,7 +564,7 @@ func (b *Buffer) writeU64LE(off int64, data []uint64) {
 // writeU64BE writes a slice of uint64s to the buffer at the specified offset in big-endian
 func (b *Buffer) writeU64BE(off int64, data []uint64) {
 
-	if (off + int64(len(data))*8) > b.cap {
+	if off > b.cap || off >= 0 && int64(len(data)) > (b.cap-off)/8 {
 
 		panic(BufferOverwriteError)
 
@@ -614,7 +614,7 @@ func (b *Buffer) writeU64BE(off int64, data []uint64) {
 // read reads n bytes from the buffer at the specified offset
 func (b *Buffer) read(off, n int64) []byte {
 
-	if (off + n) > b.cap {
+	if off > b.cap || off >= 0 && n > b.cap-off {
 
 		panic(BufferOverreadError)
 
@@ -636,7 +636,7 @@ func (b *Buffer) read(off, n int64) []byte {
 // readU16LE reads a slice of uint16s from the buffer at the specified offset in little-endian
 func (b *Buffer) readU16LE(off, n int64) (out []uint16) {
 
-	if (off + n*2) > b.cap {
+	if off > b.cap || off >= 0 && n > (b.cap-off)/2 {
 
 		panic(BufferOverreadError)
 
@@ -681,7 +681,7 @@ func (b *Buffer) readU16LE(off, n int64) (out []uint16) {
 // readU16BE reads a slice of uint16s from the buffer at the specified offset in big-endian
 func (b *Buffer) readU16BE(off, n int64) (out []uint16) {
 
-	if (off + n*2) > b.cap {
+	if off > b.cap || off >= 0 && n > (b.cap-off)/2 {
 
 		panic(BufferOverreadError)
 
@@ -726,7 +726,7 @@ func (b *Buffer) readU16BE(off, n int64) (out []uint16) {
 // readU32LE reads a slice of uint32s from the buffer at the specified offset in little-endian
 func (b *Buffer) readU32LE(off, n int64) (out []uint32) {
 
-	if (off + n*4) > b.cap {
+	if off > b.cap || off >= 0 && n > (b.cap-off)/4 {
 
 		panic(BufferOverreadError)
 
@@ -773,7 +773,7 @@ func (b *Buffer) readU32LE(off, n int64) (out []uint32) {
 // readU32BE reads a slice of uint32s from the buffer at the specified offset in big-endian
 func (b *Buffer) readU32BE(off, n int64) (out []uint32) {
 
-	if (off + n*4) > b.cap {
+	if off > b.cap || off >= 0 && n > (b.cap-off)/4 {
 
 		panic(BufferOverreadError)
 
@@ -820,7 +820,7 @@ func (b *Buffer) readU32BE(off, n int64) (out []uint32) {
 // readU64LE reads a slice of uint64s from the buffer at the specified offset in little-endian
 func (b *Buffer) readU64LE(off, n int64) (out []uint64) {
 
-	if (off + n*8) > b.cap {
+	if off > b.cap || off >= 0 && n > (b.cap-off)/8 {
 
 		panic(BufferOverreadError)
 
@@ -871,7 +871,7 @@ func (b *Buffer) readU64LE(off, n int64) (out []uint64) {
 // readU64BE reads a slice of uint64s from the buffer at the specified offset in big-endian
 func (b *Buffer) readU64BE(off, n int64) (out []uint64) {
 
-	if (off + n*8) > b.cap {
+	if off > b.cap || off >= 0 && n > (b.cap-off)/8 {
 
 		panic(BufferOverreadError)
 
diff --git a/v3/_buffer.go b/v3/_buffer.go
index b9c9f98..de50031 100644
--- a/v3/_buffer.go
+++ b/v3/_buffer.go
@@ -388,7 +388,7 @@ func (b *Buffer) AlignBit() {
 // without modifying the internal offset value
 func (b *Buffer) WriteBytes(off int64, data []byte) {
 
-	if (off + int64(len(data))) > b.cap {
+	if off > b.cap || off >= 0 && int64(len(data)) > b.cap-off {
 
 		panic(BufferOverwriteError)
 
@@ -466,7 +466,7 @@ func (b *Buffer) WriteByteNext(data byte) {
 // without modifying the internal offset value
 func (b *Buffer) ReadBytes(off, n int64) []byte {
 
-	if (off + n) > b.cap {
+	if off > b.cap || off >= 0 && n > b.cap-off {
 
 		panic(BufferOverreadError)
 
diff --git a/v3/buffer.generated.go b/v3/buffer.generated.go
index c702202..96bf6ed 100644
--- a/v3/buffer.generated.go
+++ b/v3/buffer.generated.go
@@ -388,7 +388,7 @@ func (b *Buffer) AlignBit() {
 // without modifying the internal offset value
 func (b *Buffer) WriteBytes(off int64, data []byte) {
 
-	if (off + int64(len(data))) > b.cap {
+	if off > b.cap || off >= 0 && int64(len(data)) > b.cap-off {
 
 		panic(BufferOverwriteError)
 
@@ -434,7 +434,7 @@ func (b *Buffer) WriteByteNext(data byte) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteU16LE(off int64, data []uint16) {
-	if (off + int64(len(data))*2) > b.cap {
+	if off > b.cap || off >= 0 && int64(len(data)) > (b.cap-off)/2 {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -468,7 +468,7 @@ func (b *Buffer) WriteU16LENext(data []uint16) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteU16BE(off int64, data []uint16) {
-	if (off + int64(len(data))*2) > b.cap {
+	if off > b.cap || off >= 0 && int64(len(data)) > (b.cap-off)/2 {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -502,7 +502,7 @@ func (b *Buffer) WriteU16BENext(data []uint16) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteU32LE(off int64, data []uint32) {
-	if (off + int64(len(data))*4) > b.cap {
+	if off > b.cap || off >= 0 && int64(len(data)) > (b.cap-off)/4 {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -538,7 +538,7 @@ func (b *Buffer) WriteU32LENext(data []uint32) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteU32BE(off int64, data []uint32) {
-	if (off + int64(len(data))*4) > b.cap {
+	if off > b.cap || off >= 0 && int64(len(data)) > (b.cap-off)/4 {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -574,7 +574,7 @@ func (b *Buffer) WriteU32BENext(data []uint32) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteU64LE(off int64, data []uint64) {
-	if (off + int64(len(data))*8) > b.cap {
+	if off > b.cap || off >= 0 && int64(len(data)) > (b.cap-off)/8 {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -614,7 +614,7 @@ func (b *Buffer) WriteU64LENext(data []uint64) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteU64BE(off int64, data []uint64) {
-	if (off + int64(len(data))*8) > b.cap {
+	if off > b.cap || off >= 0 && int64(len(data)) > (b.cap-off)/8 {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -654,7 +654,7 @@ func (b *Buffer) WriteU64BENext(data []uint64) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteI16LE(off int64, data []int16) {
-	if (off + int64(len(data))*2) > b.cap {
+	if off > b.cap || off >= 0 && int64(len(data)) > (b.cap-off)/2 {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -688,7 +688,7 @@ func (b *Buffer) WriteI16LENext(data []int16) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteI16BE(off int64, data []int16) {
-	if (off + int64(len(data))*2) > b.cap {
+	if off > b.cap || off >= 0 && int64(len(data)) > (b.cap-off)/2 {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -722,7 +722,7 @@ func (b *Buffer) WriteI16BENext(data []int16) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteI32LE(off int64, data []int32) {
-	if (off + int64(len(data))*4) > b.cap {
+	if off > b.cap || off >= 0 && int64(len(data)) > (b.cap-off)/4 {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -758,7 +758,7 @@ func (b *Buffer) WriteI32LENext(data []int32) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteI32BE(off int64, data []int32) {
-	if (off + int64(len(data))*4) > b.cap {
+	if off > b.cap || off >= 0 && int64(len(data)) > (b.cap-off)/4 {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -794,7 +794,7 @@ func (b *Buffer) WriteI32BENext(data []int32) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteI64LE(off int64, data []int64) {
-	if (off + int64(len(data))*8) > b.cap {
+	if off > b.cap || off >= 0 && int64(len(data)) > (b.cap-off)/8 {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -834,7 +834,7 @@ func (b *Buffer) WriteI64LENext(data []int64) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteI64BE(off int64, data []int64) {
-	if (off + int64(len(data))*8) > b.cap {
+	if off > b.cap || off >= 0 && int64(len(data)) > (b.cap-off)/8 {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -874,7 +874,7 @@ func (b *Buffer) WriteI64BENext(data []int64) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteF32LE(off int64, data []float32) {
-	if (off + int64(len(data))*4) > b.cap {
+	if off > b.cap || off >= 0 && int64(len(data)) > (b.cap-off)/4 {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -910,7 +910,7 @@ func (b *Buffer) WriteF32LENext(data []float32) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteF32BE(off int64, data []float32) {
-	if (off + int64(len(data))*4) > b.cap {
+	if off > b.cap || off >= 0 && int64(len(data)) > (b.cap-off)/4 {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -946,7 +946,7 @@ func (b *Buffer) WriteF32BENext(data []float32) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteF64LE(off int64, data []float64) {
-	if (off + int64(len(data))*8) > b.cap {
+	if off > b.cap || off >= 0 && int64(len(data)) > (b.cap-off)/8 {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -986,7 +986,7 @@ func (b *Buffer) WriteF64LENext(data []float64) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteF64BE(off int64, data []float64) {
-	if (off + int64(len(data))*8) > b.cap {
+	if off > b.cap || off >= 0 && int64(len(data)) > (b.cap-off)/8 {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -1026,7 +1026,7 @@ func (b *Buffer) WriteF64BENext(data []float64) {
 // without modifying the internal offset value
 func (b *Buffer) ReadBytes(off, n int64) []byte {
 
-	if (off + n) > b.cap {
+	if off > b.cap || off >= 0 && n > b.cap-off {
 
 		panic(BufferOverreadError)
 
@@ -1074,7 +1074,7 @@ func (b *Buffer) ReadByteNext() (out byte) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadU16LE(off, n int64) (out []uint16) {
-	if (off + n*2) > b.cap {
+	if off > b.cap || off >= 0 && n > (b.cap-off)/2 {
 		panic(BufferOverreadError)
 	}
 	if off < 0 {
@@ -1109,7 +1109,7 @@ func (b *Buffer) ReadU16LENext(n int64) (out []uint16) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadU16BE(off, n int64) (out []uint16) {
-	if (off + n*2) > b.cap {
+	if off > b.cap || off >= 0 && n > (b.cap-off)/2 {
 		panic(BufferOverreadError)
 	}
 	if off < 0 {
@@ -1144,7 +1144,7 @@ func (b *Buffer) ReadU16BENext(n int64) (out []uint16) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadU32LE(off, n int64) (out []uint32) {
-	if (off + n*4) > b.cap {
+	if off > b.cap || off >= 0 && n > (b.cap-off)/4 {
 		panic(BufferOverreadError)
 	}
 	if off < 0 {
@@ -1179,7 +1179,7 @@ func (b *Buffer) ReadU32LENext(n int64) (out []uint32) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadU32BE(off, n int64) (out []uint32) {
-	if (off + n*4) > b.cap {
+	if off > b.cap || off >= 0 && n > (b.cap-off)/4 {
 		panic(BufferOverreadError)
 	}
 	if off < 0 {
@@ -1214,7 +1214,7 @@ func (b *Buffer) ReadU32BENext(n int64) (out []uint32) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadU64LE(off, n int64) (out []uint64) {
-	if (off + n*8) > b.cap {
+	if off > b.cap || off >= 0 && n > (b.cap-off)/8 {
 		panic(BufferOverreadError)
 	}
 	if off < 0 {
@@ -1249,7 +1249,7 @@ func (b *Buffer) ReadU64LENext(n int64) (out []uint64) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadU64BE(off, n int64) (out []uint64) {
-	if (off + n*8) > b.cap {
+	if off > b.cap || off >= 0 && n > (b.cap-off)/8 {
 		panic(BufferOverreadError)
 	}
 	if off < 0 {
@@ -1284,7 +1284,7 @@ func (b *Buffer) ReadU64BENext(n int64) (out []uint64) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadI16LE(off, n int64) (out []int16) {
-	if (off + n*2) > b.cap {
+	if off > b.cap || off >= 0 && n > (b.cap-off)/2 {
 		panic(BufferOverreadError)
 	}
 	if off < 0 {
@@ -1319,7 +1319,7 @@ func (b *Buffer) ReadI16LENext(n int64) (out []int16) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadI16BE(off, n int64) (out []int16) {
-	if (off + n*2) > b.cap {
+	if off > b.cap || off >= 0 && n > (b.cap-off)/2 {
 		panic(BufferOverreadError)
 	}
 	if off < 0 {
@@ -1354,7 +1354,7 @@ func (b *Buffer) ReadI16BENext(n int64) (out []int16) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadI32LE(off, n int64) (out []int32) {
-	if (off + n*4) > b.cap {
+	if off > b.cap || off >= 0 && n > (b.cap-off)/4 {
 		panic(BufferOverreadError)
 	}
 	if off < 0 {
@@ -1389,7 +1389,7 @@ func (b *Buffer) ReadI32LENext(n int64) (out []int32) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadI32BE(off, n int64) (out []int32) {
-	if (off + n*4) > b.cap {
+	if off > b.cap || off >= 0 && n > (b.cap-off)/4 {
 		panic(BufferOverreadError)
 	}
 	if off < 0 {
@@ -1424,7 +1424,7 @@ func (b *Buffer) ReadI32BENext(n int64) (out []int32) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadI64LE(off, n int64) (out []int64) {
-	if (off + n*8) > b.cap {
+	if off > b.cap || off >= 0 && n > (b.cap-off)/8 {
 		panic(BufferOverreadError)
 	}
 	if off < 0 {
@@ -1459,7 +1459,7 @@ func (b *Buffer) ReadI64LENext(n int64) (out []int64) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadI64BE(off, n int64) (out []int64) {
-	if (off + n*8) > b.cap {
+	if off > b.cap || off >= 0 && n > (b.cap-off)/8 {
 		panic(BufferOverreadError)
 	}
 	if off < 0 {
@@ -1494,7 +1494,7 @@ func (b *Buffer) ReadI64BENext(n int64) (out []int64) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadF32LE(off, n int64) (out []float32) {
-	if (off + n*4) > b.cap {
+	if off > b.cap || off >= 0 && n > (b.cap-off)/4 {
 		panic(BufferOverreadError)
 	}
 	if off < 0 {
@@ -1531,7 +1531,7 @@ func (b *Buffer) ReadF32LENext(n int64) (out []float32) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadF32BE(off, n int64) (out []float32) {
-	if (off + n*4) > b.cap {
+	if off > b.cap || off >= 0 && n > (b.cap-off)/4 {
 		panic(BufferOverreadError)
 	}
 	if off < 0 {
@@ -1568,7 +1568,7 @@ func (b *Buffer) ReadF32BENext(n int64) (out []float32) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadF64LE(off, n int64) (out []float64) {
-	if (off + n*8) > b.cap {
+	if off > b.cap || off >= 0 && n > (b.cap-off)/8 {
 		panic(BufferOverreadError)
 	}
 	if off < 0 {
@@ -1605,7 +1605,7 @@ func (b *Buffer) ReadF64LENext(n int64) (out []float64) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadF64BE(off, n int64) (out []float64) {
-	if (off + n*8) > b.cap {
+	if off > b.cap || off >= 0 && n > (b.cap-off)/8 {
 		panic(BufferOverreadError)
 	}
 	if off < 0 {
-- 
2.43.0


From 403f7ba31dfd45079c075437d1f3bb8e9f1eb817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:00 +0000
Subject: [PATCH 05/10] fix: check the whole bit range before ReadBits and
 SetBits start

SetBits changed the bits that were still inside the buffer before it
panicked at the end of it, and a range that starts outside was not refused
when no bit of it was asked for.
---
 v1/buffer.go           | 24 ++++++++++++++++++++++++
 v2/buffer.go           | 24 ++++++++++++++++++++++++
 v3/_buffer.go          | 24 ++++++++++++++++++++++++
 v3/buffer.generated.go | 24 ++++++++++++++++++++++++
 4 files changed, 96 insertions(+)

diff --git a/v1/buffer.go b/v1/buffer.go
index 682eff6..dbbc7ae 100644
--- a/v1/buffer.go
+++ b/v1/buffer.go
@@ -87,6 +87,18 @@ func (b *Buffer) readbit(off int64) byte {
 // readbits reads n bits from the bitfield at the specified offset
 func (b *Buffer) readbits(off, n int64) (v uint64) {
 
+	if off > b.bcap || off >= 0 && n > b.bcap-off {
+
+		panic(BufferOverreadError)
+
+	}
+
+	if off < 0x00 {
+
+		panic(BufferUnderreadError)
+
+	}
+
 	for i := int64(0); i < n; i++ {
 
 		v = (v << uint64(1)) | uint64(b.readbit(off+i))
@@ -132,6 +144,18 @@ func (b *Buffer) setbit(off int64, data byte) {
 // setbits sets n bits in the bitfield to the specified value at the specified offset
 func (b *Buffer) setbits(off int64, data uint64, n int64) {
 
+	if off > b.bcap || off >= 0 && n > b.bcap-off {
+
+		panic(BufferOverwriteError)
+
+	}
+
+	if off < 0x00 {
+
+		panic(BufferUnderwriteError)
+
+	}
+
 	for i := int64(0); i < n; i++ {
 
 		b.setbit(off+i, byte((data>>uint64(n-i-1))&1))
diff --git a/v2/buffer.go b/v2/buffer.go
index 2b2c442..becdf4d 100644
--- a/v2/buffer.go
+++ b/v2/buffer.go
@@ -84,6 +84,18 @@ func (b *Buffer) readbit(off int64) byte {
 // readbits reads n bits from the bitfield at the specified offset
 func (b *Buffer) readbits(off, n int64) (out uint64) {
 
+	if off > b.bcap || off >= 0 && n > b.bcap-off {
+
+		panic(BufferOverreadError)
+
+	}
+
+	if off < 0x00 {
+
+		panic(BufferUnderreadError)
+
+	}
+
 	i := int64(0)
 
 	if n < 1 {
@@ -143,6 +155,18 @@ func (b *Buffer) setbit(off int64, data byte) {
 // setbits sets n bits in the bitfield to the specified value at the specified offset
 func (b *Buffer) setbits(off int64, data uint64, n int64) {
 
+	if off > b.bcap || off >= 0 && n > b.bcap-off {
+
+		panic(BufferOverwriteError)
+
+	}
+
+	if off < 0x00 {
+
+		panic(BufferUnderwriteError)
+
+	}
+
 	i := int64(0)
 
 	if n < 1 {
diff --git a/v3/_buffer.go b/v3/_buffer.go
index de50031..0a28bde 100644
--- a/v3/_buffer.go
+++ b/v3/_buffer.go
@@ -102,6 +102,18 @@ func (b *Buffer) ReadBitNext() (out byte) {
 // modifying the internal offset value
 func (b *Buffer) ReadBits(off, n int64) (out uint64) {
 
+	if off > b.bcap || off >= 0 && n > b.bcap-off {
+
+		panic(BufferOverreadError)
+
+	}
+
+	if off < 0x00 {
+
+		panic(BufferUnderreadError)
+
+	}
+
 	i := int64(0)
 
 	if n < 1 {
@@ -197,6 +209,18 @@ func (b *Buffer) ClearBitNext() {
 // modifying the internal offset value
 func (b *Buffer) SetBits(off int64, data uint64, n int64) {
 
+	if off > b.bcap || off >= 0 && n > b.bcap-off {
+
+		panic(BufferOverwriteError)
+
+	}
+
+	if off < 0x00 {
+
+		panic(BufferUnderwriteError)
+
+	}
+
 	i := int64(0)
 
 	if n < 1 {
diff --git a/v3/buffer.generated.go b/v3/buffer.generated.go
index 96bf6ed..ad0cb4b 100644
--- a/v3/buffer.generated.go
+++ b/v3/buffer.generated.go
@@ -102,6 +102,18 @@ func (b *Buffer) ReadBitNext() (out byte) {
 // modifying the internal offset value
 func (b *Buffer) ReadBits(off, n int64) (out uint64) {
 
+	if off > b.bcap || off >= 0 && n > b.bcap-off {
+
+		panic(BufferOverreadError)
+
+	}
+
+	if off < 0x00 {
+
+		panic(BufferUnderreadError)
+
+	}
+
 	i := int64(0)
 
 	if n < 1 {
@@ -197,6 +209,18 @@ func (b *Buffer) ClearBitNext() {
 // modifying the internal offset value
 func (b *Buffer) SetBits(off int64, data uint64, n int64) {
 
+	if off > b.bcap || off >= 0 && n > b.bcap-off {
+
+		panic(BufferOverwriteError)
+
+	}
+
+	if off < 0x00 {
+
+		panic(BufferUnderwriteError)
+
+	}
+
 	i := int64(0)
 
 	if n < 1 {
-- 
2.43.0


From fbadc85195ad263a57ff68b2ce53472a8bf77c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:50 +0000
Subject: [PATCH 06/10] fix: make v1 Buffer.ReadComplex read n integers, not n
 bytes

It took only n bytes from the buffer whatever the integer size, so reading
integers wider than a byte panicked with a slice error as soon as the
buffer's backing array ended, or decoded bytes from beyond the checked
range.
---
 v1/buffer.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/v1/buffer.go b/v1/buffer.go
index dbbc7ae..0eb8088 100644
--- a/v1/buffer.go
+++ b/v1/buffer.go
@@ -376,7 +376,21 @@ func (b *Buffer) read(off, n int64) []byte {
 // readComplex reads a slice of bytes from the buffer at the specified offset with the specified endianness and integer type
 func (b *Buffer) readComplex(off, n int64, size IntegerSize, endian binary.ByteOrder) interface{} {
 
-	data := b.read(off, n)
+	switch size {
+
+	case Unsigned8, Unsigned16, Unsigned32, Unsigned64:
+		if off > b.cap || off >= 0 && n > (b.cap-off)/int64(size) {
+
+			panic(BufferOverreadError)
+
+		}
+
+	default:
+		panic(BufferInvalidIntegerSizeError)
+
+	}
+
+	data := b.read(off, n*int64(size))
 
 	switch size {
 
-- 
2.43.0


From d00097cdc0eb9409ad93027703406feefaa55743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:54 +0000
Subject: [PATCH 07/10] fix: make MiniBuffer.ReadBits overwrite out

It shifted the bits it read into whatever out held before, so the result
depended on the variable's previous value.
---
 v1/minibuf.go           | 1 +
 v2/minibuf.go           | 1 +
 v3/_minibuf.go          | 1 +
 v3/minibuf.generated.go | 1 +
 4 files changed, 4 insertions(+)

diff --git a/v1/minibuf.go b/v1/minibuf.go
index 0ede4bb..ea5491f 100644
--- a/v1/minibuf.go
+++ b/v1/minibuf.go
@@ -74,6 +74,7 @@ func (b *MiniBuffer) readbit(out *byte, off int64) {
 func (b *MiniBuffer) readbits(out *uint64, off, n int64) {
 
 	var bout byte
+	*out = 0
 	for i := int64(0); i < n; i++ {
 
 		b.readbit(&bout, off+i)
diff --git a/v2/minibuf.go b/v2/minibuf.go
index 0d5fb6a..aeea8ef 100644
--- a/v2/minibuf.go
+++ b/v2/minibuf.go
@@ -75,6 +75,7 @@ func (b *MiniBuffer) readbits(out *uint64, off, n int64) {
 
 		i = int64(0)
 	)
+	*out = 0
 
 	if n < 1 {
 
diff --git a/v3/_minibuf.go b/v3/_minibuf.go
index a2f77f0..6dc7aad 100644
--- a/v3/_minibuf.go
+++ b/v3/_minibuf.go
@@ -92,6 +92,7 @@ func (b *MiniBuffer) ReadBits(out *uint64, off, n int64) {
 
 		i = int64(0)
 	)
+	*out = 0
 
 	if n < 1 {
 
diff --git a/v3/minibuf.generated.go b/v3/minibuf.generated.go
index 4ff6089..6a87a2e 100644
--- a/v3/minibuf.generated.go
+++ b/v3/minibuf.generated.go
@@ -92,6 +92,7 @@ func (b *MiniBuffer) ReadBits(out *uint64, off, n int64) {
 
 		i = int64(0)
 	)
+	*out = 0
 
 	if n < 1 {
 
-- 
2.43.0


From 769fdc0a6e956dff894735205afe3c3a765d0762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:57 +0000
Subject: [PATCH 08/10] fix: zero the bytes v3 Grow adds from spare capacity

Growing within the slice's capacity exposed what the memory held before:
bytes cut off by a truncation or reset, or the rest of a wrapped slice.
---
 v3/_buffer.go           | 2 +-
 v3/_minibuf.go          | 2 +-
 v3/buffer.generated.go  | 2 +-
 v3/minibuf.generated.go | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/v3/_buffer.go b/v3/_buffer.go
index 0a28bde..5417d0f 100644
--- a/v3/_buffer.go
+++ b/v3/_buffer.go
@@ -643,7 +643,7 @@ func (b *Buffer) Grow(n int64) {
 
 	if n <= int64(cap(b.buf))-b.cap {
 
-		b.buf = b.buf[0 : b.cap+n]
+		b.buf = append(b.buf, make([]byte, n)...)
 		b.Refresh()
 		return
 
diff --git a/v3/_minibuf.go b/v3/_minibuf.go
index 6dc7aad..f0c8d8e 100644
--- a/v3/_minibuf.go
+++ b/v3/_minibuf.go
@@ -495,7 +495,7 @@ func (b *MiniBuffer) Grow(n int64) {
 
 	if n <= int64(cap(b.buf))-b.cap {
 
-		b.buf = b.buf[0 : b.cap+n]
+		b.buf = append(b.buf, make([]byte, n)...)
 		b.Refresh()
 		return
 
diff --git a/v3/buffer.generated.go b/v3/buffer.generated.go
index ad0cb4b..8e1c847 100644
--- a/v3/buffer.generated.go
+++ b/v3/buffer.generated.go
@@ -1739,7 +1739,7 @@ func (b *Buffer) Grow(n int64) {
 
 	if n <= int64(cap(b.buf))-b.cap {
 
-		b.buf = b.buf[0 : b.cap+n]
+		b.buf = append(b.buf, make([]byte, n)...)
 		b.Refresh()
 		return
 
diff --git a/v3/minibuf.generated.go b/v3/minibuf.generated.go
index 6a87a2e..d078fb4 100644
--- a/v3/minibuf.generated.go
+++ b/v3/minibuf.generated.go
@@ -1351,7 +1351,7 @@ func (b *MiniBuffer) Grow(n int64) {
 
 	if n <= int64(cap(b.buf))-b.cap {
 
-		b.buf = b.buf[0 : b.cap+n]
+		b.buf = append(b.buf, make([]byte, n)...)
 		b.Refresh()
 		return
 
-- 
2.43.0


From 32ad7c529020a655f3cbf39d45e6f23f5b51cdc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:00 +0000
Subject: [PATCH 09/10] fix: truncate the generator's output files

A longer previous version of the file left its tail behind the new text.
---
 generation/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generation/main.go b/generation/main.go
index d1f4e87..429e31a 100644
--- a/generation/main.go
+++ b/generation/main.go
@@ -103,7 +103,7 @@ func main() {
 	}
 
 	for name, contents := range generated {
-		file, err := os.OpenFile(strings.Join([]string{strings.TrimSuffix(strings.TrimPrefix(name, "_"), ".go"), ".generated.go"}, ""), os.O_RDWR|os.O_CREATE, 0644)
+		file, err := os.OpenFile(strings.Join([]string{strings.TrimSuffix(strings.TrimPrefix(name, "_"), ".go"), ".generated.go"}, ""), os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0644)
 		if err != nil {
 			fmt.Printf("! unable to open source file. (%v)\n", err)
 			continue
-- 
2.43.0


From 961dd7aed77a58c7740e93cceadab0fd2301b790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:15 +0000
Subject: [PATCH 10/10] fix: v1/v2 Buffer operations hold the lock from their
 first look at the buffer to their last

The mutex was taken and released inside the internal helpers, so an
operation that used several of them (every ...Next operation, ReadBits,
SetBits, ReadComplex) or looked at the buffer before taking it (the
bounds checks) could be interrupted in the middle by an operation of
another goroutine: two concurrent ReadByteNext calls could return the
same byte and then skip one, a SetBits could interleave with another,
a write could pass its bounds check before a Reset and panic with a
runtime error after it.  The exported operations that took the mutex
indirectly now take it once and the helpers no longer do.
---
 v1/buffer.go | 135 ++++++++++++++++++++---------
 v2/buffer.go | 236 ++++++++++++++++++++++++++++++++++-----------------
 2 files changed, 249 insertions(+), 122 deletions(-)

diff --git a/v1/buffer.go b/v1/buffer.go
index 0eb8088..300c4fd 100644
--- a/v1/buffer.go
+++ b/v1/buffer.go
@@ -77,9 +77,6 @@ func (b *Buffer) readbit(off int64) byte {
 
 	}
 
-	b.Lock()
-	defer b.Unlock()
-
 	return atob((b.buf[off/8] & (1 << uint(7-(off%8)))) != 0)
 
 }
@@ -123,9 +120,6 @@ func (b *Buffer) setbit(off int64, data byte) {
 
 	}
 
-	b.Lock()
-	defer b.Unlock()
-
 	switch data {
 
 	case 0:
@@ -179,9 +173,6 @@ func (b *Buffer) flipbit(off int64) {
 
 	}
 
-	b.Lock()
-	defer b.Unlock()
-
 	b.buf[off/8] ^= (1 << uint(7-(off%8)))
 
 }
@@ -189,9 +180,6 @@ func (b *Buffer) flipbit(off int64) {
 // clearallbits sets all of the buffer's bits to 0
 func (b *Buffer) clearallbits() {
 
-	b.Lock()
-	defer b.Unlock()
-
 	for i := range b.buf {
 
 		b.buf[i] = 0
@@ -203,9 +191,6 @@ func (b *Buffer) clearallbits() {
 // setallbits sets all of the buffer's bits to 1
 func (b *Buffer) setallbits() {
 
-	b.Lock()
-	defer b.Unlock()
-
 	for i := range b.buf {
 
 		b.buf[i] = 0xFF
@@ -217,9 +202,6 @@ func (b *Buffer) setallbits() {
 // flipallbits flips all of the buffer's bits
 func (b *Buffer) flipallbits() {
 
-	b.Lock()
-	defer b.Unlock()
-
 	for i := range b.buf {
 
 		b.buf[i] = ^b.buf[i]
@@ -231,9 +213,6 @@ func (b *Buffer) flipallbits() {
 // seekbit seeks to position off of the bitfield relative to the current position or exact
 func (b *Buffer) seekbit(off int64, relative bool) {
 
-	b.Lock()
-	defer b.Unlock()
-
 	if relative {
 
 		b.boff += off
@@ -275,9 +254,6 @@ func (b *Buffer) write(off int64, data []byte) {
 
 	}
 
-	b.Lock()
-	defer b.Unlock()
-
 	copy(b.buf[off:], data)
 
 }
@@ -366,9 +342,6 @@ func (b *Buffer) read(off, n int64) []byte {
 
 	}
 
-	b.Lock()
-	defer b.Unlock()
-
 	return b.buf[off : off+n]
 
 }
@@ -437,9 +410,6 @@ func (b *Buffer) readComplex(off, n int64, size IntegerSize, endian binary.ByteO
 // seek seeks to position off of the byte buffer relative to the current position or exact
 func (b *Buffer) seek(off int64, relative bool) {
 
-	b.Lock()
-	defer b.Unlock()
-
 	if relative {
 
 		b.off += off
@@ -471,9 +441,6 @@ func (b *Buffer) grow(n int64) {
 
 	tmp := make([]byte, n)
 
-	b.Lock()
-	defer b.Unlock()
-
 	b.buf = append(b.buf, tmp...)
 	b.cap = int64(len(b.buf))
 	b.bcap = b.cap * 8
@@ -483,9 +450,6 @@ func (b *Buffer) grow(n int64) {
 // refresh updates the internal statistics of the byte buffer forcefully
 func (b *Buffer) refresh() {
 
-	b.Lock()
-	defer b.Unlock()
-
 	b.cap = int64(len(b.buf))
 	b.bcap = b.cap * 8
 
@@ -494,9 +458,6 @@ func (b *Buffer) refresh() {
 // alignbit aligns the bit offset to the byte offset
 func (b *Buffer) alignbit() {
 
-	b.Lock()
-	defer b.Unlock()
-
 	b.boff = b.off * 8
 
 }
@@ -504,9 +465,6 @@ func (b *Buffer) alignbit() {
 // alignbyte aligns the byte offset to the bit offset
 func (b *Buffer) alignbyte() {
 
-	b.Lock()
-	defer b.Unlock()
-
 	b.off = b.boff / 8
 
 }
@@ -551,6 +509,9 @@ func (b *Buffer) BitOffset() int64 {
 // Refresh updates the cached internal statistics of the buffer forcefully
 func (b *Buffer) Refresh() {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.refresh()
 
 }
@@ -558,6 +519,9 @@ func (b *Buffer) Refresh() {
 // Grow makes the buffer's capacity bigger by n bytes
 func (b *Buffer) Grow(n int64) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.grow(n)
 
 }
@@ -565,6 +529,9 @@ func (b *Buffer) Grow(n int64) {
 // Seek seeks to position off of the buffer relative to the current position or exact
 func (b *Buffer) Seek(off int64, relative bool) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.seek(off, relative)
 
 }
@@ -572,6 +539,9 @@ func (b *Buffer) Seek(off int64, relative bool) {
 // SeekBit seeks to bit position off of the the buffer relative to the current position or exact
 func (b *Buffer) SeekBit(off int64, relative bool) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.seekbit(off, relative)
 
 }
@@ -579,6 +549,9 @@ func (b *Buffer) SeekBit(off int64, relative bool) {
 // AlignBit aligns the bit offset to the byte offset
 func (b *Buffer) AlignBit() {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.alignbit()
 
 }
@@ -586,6 +559,9 @@ func (b *Buffer) AlignBit() {
 // AlignByte aligns the byte offset to the bit offset
 func (b *Buffer) AlignByte() {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.alignbyte()
 
 }
@@ -607,6 +583,9 @@ func (b *Buffer) AfterBit(off ...int64) int64 {
 // ReadByte returns the next byte from the specified offset without modifying the internal offset value
 func (b *Buffer) ReadByte(off int64) byte {
 
+	b.Lock()
+	defer b.Unlock()
+
 	return b.read(off, 1)[0]
 
 }
@@ -614,6 +593,9 @@ func (b *Buffer) ReadByte(off int64) byte {
 // ReadBytes returns the next n bytes from the specified offset without modifying the internal offset value
 func (b *Buffer) ReadBytes(off, n int64) []byte {
 
+	b.Lock()
+	defer b.Unlock()
+
 	return b.read(off, n)
 
 }
@@ -621,6 +603,9 @@ func (b *Buffer) ReadBytes(off, n int64) []byte {
 // ReadComplex returns the next n uint8/uint16/uint32/uint64-s from the specified offset without modifying the internal offset value
 func (b *Buffer) ReadComplex(off, n int64, size IntegerSize, endian binary.ByteOrder) interface{} {
 
+	b.Lock()
+	defer b.Unlock()
+
 	return b.readComplex(off, n, size, endian)
 
 }
@@ -628,6 +613,9 @@ func (b *Buffer) ReadComplex(off, n int64, size IntegerSize, endian binary.ByteO
 // ReadByteNext returns the next byte from the current offset and moves the offset forward a byte
 func (b *Buffer) ReadByteNext() (out byte) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	out = b.read(b.off, 1)[0]
 	b.seek(1, true)
 	return
@@ -637,6 +625,9 @@ func (b *Buffer) ReadByteNext() (out byte) {
 // ReadBytesNext returns the next n bytes from the current offset and moves the offset forward the amount of bytes read
 func (b *Buffer) ReadBytesNext(n int64) (out []byte) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	out = b.read(b.off, n)
 	b.seek(n, true)
 	return
@@ -646,6 +637,9 @@ func (b *Buffer) ReadBytesNext(n int64) (out []byte) {
 // ReadComplexNext returns the next n uint8/uint16/uint32/uint64-s from the current offset and moves the offset forward the amount of bytes read
 func (b *Buffer) ReadComplexNext(n int64, size IntegerSize, endian binary.ByteOrder) (out interface{}) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	out = b.readComplex(b.off, n, size, endian)
 	b.seek(n*int64(size), true)
 	return
@@ -655,6 +649,9 @@ func (b *Buffer) ReadComplexNext(n int64, size IntegerSize, endian binary.ByteOr
 // WriteByte writes a byte to the buffer at the specified offset without modifying the internal offset value
 func (b *Buffer) WriteByte(off int64, data byte) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.write(off, []byte{data})
 
 }
@@ -662,6 +659,9 @@ func (b *Buffer) WriteByte(off int64, data byte) {
 // WriteBytes writes bytes to the buffer at the specified offset without modifying the internal offset value
 func (b *Buffer) WriteBytes(off int64, data []byte) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.write(off, data)
 
 }
@@ -669,6 +669,9 @@ func (b *Buffer) WriteBytes(off int64, data []byte) {
 // WriteComplex writes a uint8/uint16/uint32/uint64 to the buffer at the specified offset without modifying the internal offset value
 func (b *Buffer) WriteComplex(off int64, data interface{}, size IntegerSize, endian binary.ByteOrder) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.writeComplex(off, data, size, endian)
 
 }
@@ -676,6 +679,9 @@ func (b *Buffer) WriteComplex(off int64, data interface{}, size IntegerSize, end
 // WriteByteNext writes a byte to the buffer at the current offset and moves the offset forward the amount of bytes written
 func (b *Buffer) WriteByteNext(data byte) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.write(b.off, []byte{data})
 	b.seek(1, true)
 
@@ -684,6 +690,9 @@ func (b *Buffer) WriteByteNext(data byte) {
 // WriteBytesNext writes bytes to the buffer at the current offset and moves the offset forward the amount of bytes written
 func (b *Buffer) WriteBytesNext(data []byte) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.write(b.off, data)
 	b.seek(int64(len(data)), true)
 
@@ -692,6 +701,9 @@ func (b *Buffer) WriteBytesNext(data []byte) {
 // WriteComplexNext writes a uint8/uint16/uint32/uint64 to the buffer at the current offset and moves the offset forward the amount of bytes written
 func (b *Buffer) WriteComplexNext(data interface{}, size IntegerSize, endian binary.ByteOrder) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.writeComplex(b.off, data, size, endian)
 
 	switch size {
@@ -715,6 +727,9 @@ func (b *Buffer) WriteComplexNext(data interface{}, size IntegerSize, endian bin
 // ReadBit returns the bit located at the specified offset without modifying the internal offset value
 func (b *Buffer) ReadBit(off int64) byte {
 
+	b.Lock()
+	defer b.Unlock()
+
 	return b.readbit(off)
 
 }
@@ -722,6 +737,9 @@ func (b *Buffer) ReadBit(off int64) byte {
 // ReadBits returns the next n bits from the specified offset without modifying the internal offset value
 func (b *Buffer) ReadBits(off, n int64) uint64 {
 
+	b.Lock()
+	defer b.Unlock()
+
 	return b.readbits(off, n)
 
 }
@@ -729,6 +747,9 @@ func (b *Buffer) ReadBits(off, n int64) uint64 {
 // ReadBitNext returns the next bit from the current offset and moves the offset forward a bit
 func (b *Buffer) ReadBitNext() (out byte) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	out = b.readbit(b.boff)
 	b.seekbit(1, true)
 	return
@@ -738,6 +759,9 @@ func (b *Buffer) ReadBitNext() (out byte) {
 // ReadBitsNext returns the next n bits from the current offset and moves the offset forward the amount of bits read
 func (b *Buffer) ReadBitsNext(n int64) (out uint64) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	out = b.readbits(b.boff, n)
 	b.seekbit(n, true)
 	return
@@ -747,6 +771,9 @@ func (b *Buffer) ReadBitsNext(n int64) (out uint64) {
 // SetBit sets the bit located at the specified offset without modifying the internal offset value
 func (b *Buffer) SetBit(off int64, data byte) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.setbit(off, data)
 
 }
@@ -754,6 +781,9 @@ func (b *Buffer) SetBit(off int64, data byte) {
 // SetBits sets the next n bits from the specified offset without modifying the internal offset value
 func (b *Buffer) SetBits(off int64, data uint64, n int64) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.setbits(off, data, n)
 
 }
@@ -761,6 +791,9 @@ func (b *Buffer) SetBits(off int64, data uint64, n int64) {
 // SetBitNext sets the next bit from the current offset and moves the offset forward a bit
 func (b *Buffer) SetBitNext(data byte) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.setbit(b.boff, data)
 	b.seekbit(1, true)
 
@@ -769,6 +802,9 @@ func (b *Buffer) SetBitNext(data byte) {
 // SetBitsNext sets the next n bits from the current offset and moves the offset forward the amount of bits set
 func (b *Buffer) SetBitsNext(data uint64, n int64) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.setbits(b.boff, data, n)
 	b.seekbit(n, true)
 
@@ -777,6 +813,9 @@ func (b *Buffer) SetBitsNext(data uint64, n int64) {
 // FlipBit flips the bit located at the specified offset without modifying the internal offset value
 func (b *Buffer) FlipBit(off int64) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.flipbit(off)
 
 }
@@ -784,6 +823,9 @@ func (b *Buffer) FlipBit(off int64) {
 // FlipBitNext flips the next bit from the current offset and moves the offset forward a bit
 func (b *Buffer) FlipBitNext() {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.flipbit(b.boff)
 	b.seekbit(1, true)
 
@@ -792,6 +834,9 @@ func (b *Buffer) FlipBitNext() {
 // ClearAllBits sets all of the buffer's bits to 0
 func (b *Buffer) ClearAllBits() {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.clearallbits()
 
 }
@@ -799,6 +844,9 @@ func (b *Buffer) ClearAllBits() {
 // SetAllBits sets all of the buffer's bits to 1
 func (b *Buffer) SetAllBits() {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.setallbits()
 
 }
@@ -806,6 +854,9 @@ func (b *Buffer) SetAllBits() {
 // FlipAllBits flips all of the buffer's bits
 func (b *Buffer) FlipAllBits() {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.flipallbits()
 
 }
diff --git a/v2/buffer.go b/v2/buffer.go
index becdf4d..eaf3c94 100644
--- a/v2/buffer.go
+++ b/v2/buffer.go
@@ -74,9 +74,6 @@ func (b *Buffer) readbit(off int64) byte {
 
 	}
 
-	b.Lock()
-	defer b.Unlock()
-
 	return atob((b.buf[off/8] & (1 << uint(7-(off%8)))) != 0)
 
 }
@@ -134,9 +131,6 @@ func (b *Buffer) setbit(off int64, data byte) {
 
 	}
 
-	b.Lock()
-	defer b.Unlock()
-
 	switch data {
 
 	case 0:
@@ -203,9 +197,6 @@ func (b *Buffer) flipbit(off int64) {
 
 	}
 
-	b.Lock()
-	defer b.Unlock()
-
 	b.buf[off/8] ^= (1 << uint(7-(off%8)))
 
 }
@@ -213,9 +204,6 @@ func (b *Buffer) flipbit(off int64) {
 // clearallbits sets all of the buffer's bits to 0
 func (b *Buffer) clearallbits() {
 
-	b.Lock()
-	defer b.Unlock()
-
 	var (
 		i = int64(0)
 		n = int64(len(b.buf))
@@ -243,9 +231,6 @@ func (b *Buffer) clearallbits() {
 // setallbits sets all of the buffer's bits to 1
 func (b *Buffer) setallbits() {
 
-	b.Lock()
-	defer b.Unlock()
-
 	var (
 		i = int64(0)
 		n = int64(len(b.buf))
@@ -273,9 +258,6 @@ func (b *Buffer) setallbits() {
 // flipallbits flips all of the buffer's bits
 func (b *Buffer) flipallbits() {
 
-	b.Lock()
-	defer b.Unlock()
-
 	var (
 		i = int64(0)
 		n = int64(len(b.buf))
@@ -304,9 +286,6 @@ func (b *Buffer) flipallbits() {
 // seekbit seeks to position off of the bitfield relative to the current position or exact
 func (b *Buffer) seekbit(off int64, relative bool) {
 
-	b.Lock()
-	defer b.Unlock()
-
 	if relative {
 
 		b.boff += off
@@ -348,9 +327,6 @@ func (b *Buffer) write(off int64, data []byte) {
 
 	}
 
-	b.Lock()
-	defer b.Unlock()
-
 	copy(b.buf[off:], data)
 
 }
@@ -370,9 +346,6 @@ func (b *Buffer) writeU16LE(off int64, data []uint16) {
 
 	}
 
-	b.Lock()
-	defer b.Unlock()
-
 	var (
 		i = 0
 		n = len(data)
@@ -414,9 +387,6 @@ func (b *Buffer) writeU16BE(off int64, data []uint16) {
 
 	}
 
-	b.Lock()
-	defer b.Unlock()
-
 	var (
 		i = 0
 		n = len(data)
@@ -458,9 +428,6 @@ func (b *Buffer) writeU32LE(off int64, data []uint32) {
 
 	}
 
-	b.Lock()
-	defer b.Unlock()
-
 	var (
 		i = 0
 		n = len(data)
@@ -504,9 +471,6 @@ func (b *Buffer) writeU32BE(off int64, data []uint32) {
 
 	}
 
-	b.Lock()
-	defer b.Unlock()
-
 	var (
 		i = 0
 		n = len(data)
@@ -550,9 +514,6 @@ func (b *Buffer) writeU64LE(off int64, data []uint64) {
 
 	}
 
-	b.Lock()
-	defer b.Unlock()
-
 	var (
 		i = 0
 		n = len(data)
@@ -600,9 +561,6 @@ func (b *Buffer) writeU64BE(off int64, data []uint64) {
 
 	}
 
-	b.Lock()
-	defer b.Unlock()
-
 	var (
 		i = 0
 		n = len(data)
@@ -650,9 +608,6 @@ func (b *Buffer) read(off, n int64) []byte {
 
 	}
 
-	b.Lock()
-	defer b.Unlock()
-
 	return b.buf[off : off+n]
 
 }
@@ -674,9 +629,6 @@ func (b *Buffer) readU16LE(off, n int64) (out []uint16) {
 
 	out = make([]uint16, n)
 
-	b.Lock()
-	defer b.Unlock()
-
 	i := int64(0)
 
 	if n < 1 {
@@ -719,9 +671,6 @@ func (b *Buffer) readU16BE(off, n int64) (out []uint16) {
 
 	out = make([]uint16, n)
 
-	b.Lock()
-	defer b.Unlock()
-
 	i := int64(0)
 
 	if n < 1 {
@@ -764,9 +713,6 @@ func (b *Buffer) readU32LE(off, n int64) (out []uint32) {
 
 	out = make([]uint32, n)
 
-	b.Lock()
-	defer b.Unlock()
-
 	i := int64(0)
 
 	if n < 1 {
@@ -811,9 +757,6 @@ func (b *Buffer) readU32BE(off, n int64) (out []uint32) {
 
 	out = make([]uint32, n)
 
-	b.Lock()
-	defer b.Unlock()
-
 	i := int64(0)
 
 	if n < 1 {
@@ -858,9 +801,6 @@ func (b *Buffer) readU64LE(off, n int64) (out []uint64) {
 
 	out = make([]uint64, n)
 
-	b.Lock()
-	defer b.Unlock()
-
 	i := int64(0)
 
 	if n < 1 {
@@ -909,8 +849,6 @@ func (b *Buffer) readU64BE(off, n int64) (out []uint64) {
 
 	out = make([]uint64, n)
 
-	b.Lock()
-	defer b.Unlock()
 	i := int64(0)
 
 	if n < 1 {
@@ -945,9 +883,6 @@ func (b *Buffer) readU64BE(off, n int64) (out []uint64) {
 // seek seeks to position off of the byte buffer relative to the current position or exact
 func (b *Buffer) seek(off int64, relative bool) {
 
-	b.Lock()
-	defer b.Unlock()
-
 	if relative {
 
 		b.off += off
@@ -979,9 +914,6 @@ func (b *Buffer) grow(n int64) {
 
 	tmp := make([]byte, n)
 
-	b.Lock()
-	defer b.Unlock()
-
 	b.buf = append(b.buf, tmp...)
 	b.cap = int64(len(b.buf))
 	b.bcap = b.cap * 8
@@ -991,9 +923,6 @@ func (b *Buffer) grow(n int64) {
 // refresh updates the internal statistics of the byte buffer forcefully
 func (b *Buffer) refresh() {
 
-	b.Lock()
-	defer b.Unlock()
-
 	b.cap = int64(len(b.buf))
 	b.bcap = b.cap * 8
 
@@ -1002,9 +931,6 @@ func (b *Buffer) refresh() {
 // alignbit aligns the bit offset to the byte offset
 func (b *Buffer) alignbit() {
 
-	b.Lock()
-	defer b.Unlock()
-
 	b.boff = b.off * 8
 
 }
@@ -1012,9 +938,6 @@ func (b *Buffer) alignbit() {
 // alignbyte aligns the byte offset to the bit offset
 func (b *Buffer) alignbyte() {
 
-	b.Lock()
-	defer b.Unlock()
-
 	b.off = b.boff / 8
 
 }
@@ -1022,9 +945,6 @@ func (b *Buffer) alignbyte() {
 // reset resets the buffer
 func (b *Buffer) reset() {
 
-	b.Lock()
-	defer b.Unlock()
-
 	b.buf = []byte{}
 	b.off = 0x00
 	b.boff = 0x00
@@ -1073,6 +993,9 @@ func (b *Buffer) BitOffset() int64 {
 // Refresh updates the cached internal statistics of the buffer forcefully
 func (b *Buffer) Refresh() {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.refresh()
 
 }
@@ -1080,6 +1003,9 @@ func (b *Buffer) Refresh() {
 // Reset resets the entire buffer
 func (b *Buffer) Reset() {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.reset()
 
 }
@@ -1087,6 +1013,9 @@ func (b *Buffer) Reset() {
 // Grow makes the buffer's capacity bigger by n bytes
 func (b *Buffer) Grow(n int64) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.grow(n)
 
 }
@@ -1094,6 +1023,9 @@ func (b *Buffer) Grow(n int64) {
 // Seek seeks to position off of the buffer relative to the current position or exact
 func (b *Buffer) Seek(off int64, relative bool) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.seek(off, relative)
 
 }
@@ -1101,6 +1033,9 @@ func (b *Buffer) Seek(off int64, relative bool) {
 // SeekBit seeks to bit position off of the the buffer relative to the current position or exact
 func (b *Buffer) SeekBit(off int64, relative bool) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.seekbit(off, relative)
 
 }
@@ -1108,6 +1043,9 @@ func (b *Buffer) SeekBit(off int64, relative bool) {
 // AlignBit aligns the bit offset to the byte offset
 func (b *Buffer) AlignBit() {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.alignbit()
 
 }
@@ -1115,6 +1053,9 @@ func (b *Buffer) AlignBit() {
 // AlignByte aligns the byte offset to the bit offset
 func (b *Buffer) AlignByte() {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.alignbyte()
 
 }
@@ -1136,6 +1077,9 @@ func (b *Buffer) AfterBit(off ...int64) int64 {
 // ReadByte returns the next byte from the specified offset without modifying the internal offset value
 func (b *Buffer) ReadByte(off int64) byte {
 
+	b.Lock()
+	defer b.Unlock()
+
 	return b.read(off, 1)[0]
 
 }
@@ -1143,6 +1087,9 @@ func (b *Buffer) ReadByte(off int64) byte {
 // ReadBytes returns the next n bytes from the specified offset without modifying the internal offset value
 func (b *Buffer) ReadBytes(off, n int64) []byte {
 
+	b.Lock()
+	defer b.Unlock()
+
 	return b.read(off, n)
 
 }
@@ -1150,6 +1097,9 @@ func (b *Buffer) ReadBytes(off, n int64) []byte {
 // ReadU16LE reads a slice of uint16s from the buffer at the specified offset in little-endian without modifying the internal offset value
 func (b *Buffer) ReadU16LE(off, n int64) []uint16 {
 
+	b.Lock()
+	defer b.Unlock()
+
 	return b.readU16LE(off, n)
 
 }
@@ -1157,6 +1107,9 @@ func (b *Buffer) ReadU16LE(off, n int64) []uint16 {
 // ReadU16BE reads a slice of uint16s from the buffer at the specified offset in big-endian without modifying the internal offset value
 func (b *Buffer) ReadU16BE(off, n int64) []uint16 {
 
+	b.Lock()
+	defer b.Unlock()
+
 	return b.readU16BE(off, n)
 
 }
@@ -1164,6 +1117,9 @@ func (b *Buffer) ReadU16BE(off, n int64) []uint16 {
 // ReadU32LE reads a slice of uint32s from the buffer at the specified offset in little-endian without modifying the internal offset value
 func (b *Buffer) ReadU32LE(off, n int64) []uint32 {
 
+	b.Lock()
+	defer b.Unlock()
+
 	return b.readU32LE(off, n)
 
 }
@@ -1171,6 +1127,9 @@ func (b *Buffer) ReadU32LE(off, n int64) []uint32 {
 // ReadU32BE reads a slice of uint32s from the buffer at the specified offset in big-endian without modifying the internal offset value
 func (b *Buffer) ReadU32BE(off, n int64) []uint32 {
 
+	b.Lock()
+	defer b.Unlock()
+
 	return b.readU32BE(off, n)
 
 }
@@ -1178,6 +1137,9 @@ func (b *Buffer) ReadU32BE(off, n int64) []uint32 {
 // ReadU64LE reads a slice of uint64s from the buffer at the specified offset in little-endian without modifying the internal offset value
 func (b *Buffer) ReadU64LE(off, n int64) []uint64 {
 
+	b.Lock()
+	defer b.Unlock()
+
 	return b.readU64LE(off, n)
 
 }
@@ -1185,6 +1147,9 @@ func (b *Buffer) ReadU64LE(off, n int64) []uint64 {
 // ReadU64BE reads a slice of uint64s from the buffer at the specified offset in big-endian without modifying the internal offset value
 func (b *Buffer) ReadU64BE(off, n int64) []uint64 {
 
+	b.Lock()
+	defer b.Unlock()
+
 	return b.readU64BE(off, n)
 
 }
@@ -1192,6 +1157,9 @@ func (b *Buffer) ReadU64BE(off, n int64) []uint64 {
 // ReadByteNext returns the next byte from the current offset and moves the offset forward a byte
 func (b *Buffer) ReadByteNext() (out byte) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	out = b.read(b.off, 1)[0]
 	b.seek(1, true)
 	return
@@ -1201,6 +1169,9 @@ func (b *Buffer) ReadByteNext() (out byte) {
 // ReadBytesNext returns the next n bytes from the current offset and moves the offset forward the amount of bytes read
 func (b *Buffer) ReadBytesNext(n int64) (out []byte) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	out = b.read(b.off, n)
 	b.seek(n, true)
 	return
@@ -1210,6 +1181,9 @@ func (b *Buffer) ReadBytesNext(n int64) (out []byte) {
 // ReadU16LENext reads a slice of uint16s from the buffer at the current offset in little-endian and moves the offset forward the amount of bytes read
 func (b *Buffer) ReadU16LENext(n int64) (out []uint16) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	out = b.readU16LE(b.off, n)
 	b.seek(n*2, true)
 	return
@@ -1219,6 +1193,9 @@ func (b *Buffer) ReadU16LENext(n int64) (out []uint16) {
 // ReadU16BENext reads a slice of uint16s from the buffer at the current offset in big-endian and moves the offset forward the amount of bytes read
 func (b *Buffer) ReadU16BENext(n int64) (out []uint16) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	out = b.readU16BE(b.off, n)
 	b.seek(n*2, true)
 	return
@@ -1228,6 +1205,9 @@ func (b *Buffer) ReadU16BENext(n int64) (out []uint16) {
 // ReadU32LENext reads a slice of uint32s from the buffer at the current offset in little-endian and moves the offset forward the amount of bytes read
 func (b *Buffer) ReadU32LENext(n int64) (out []uint32) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	out = b.readU32LE(b.off, n)
 	b.seek(n*4, true)
 	return
@@ -1237,6 +1217,9 @@ func (b *Buffer) ReadU32LENext(n int64) (out []uint32) {
 // ReadU32BENext reads a slice of uint32s from the buffer at the current offset in big-endian and moves the offset forward the amount of bytes read
 func (b *Buffer) ReadU32BENext(n int64) (out []uint32) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	out = b.readU32BE(b.off, n)
 	b.seek(n*4, true)
 	return
@@ -1246,6 +1229,9 @@ func (b *Buffer) ReadU32BENext(n int64) (out []uint32) {
 // ReadU64LENext reads a slice of uint64s from the buffer at the current offset in little-endian and moves the offset forward the amount of bytes read
 func (b *Buffer) ReadU64LENext(n int64) (out []uint64) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	out = b.readU64LE(b.off, n)
 	b.seek(n*8, true)
 	return
@@ -1255,6 +1241,9 @@ func (b *Buffer) ReadU64LENext(n int64) (out []uint64) {
 // ReadU64BENext reads a slice of uint64s from the buffer at the current offset in big-endian and moves the offset forward the amount of bytes read
 func (b *Buffer) ReadU64BENext(n int64) (out []uint64) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	out = b.readU64BE(b.off, n)
 	b.seek(n*8, true)
 	return
@@ -1264,6 +1253,9 @@ func (b *Buffer) ReadU64BENext(n int64) (out []uint64) {
 // WriteByte writes a byte to the buffer at the specified offset without modifying the internal offset value
 func (b *Buffer) WriteByte(off int64, data byte) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.write(off, []byte{data})
 
 }
@@ -1271,6 +1263,9 @@ func (b *Buffer) WriteByte(off int64, data byte) {
 // WriteBytes writes bytes to the buffer at the specified offset without modifying the internal offset value
 func (b *Buffer) WriteBytes(off int64, data []byte) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.write(off, data)
 
 }
@@ -1278,6 +1273,9 @@ func (b *Buffer) WriteBytes(off int64, data []byte) {
 // WriteU16LE writes a slice of uint16s to the buffer at the specified offset in little-endian without modifying the internal offset value
 func (b *Buffer) WriteU16LE(off int64, data []uint16) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.writeU16LE(off, data)
 
 }
@@ -1285,6 +1283,9 @@ func (b *Buffer) WriteU16LE(off int64, data []uint16) {
 // WriteU16BE writes a slice of uint16s to the buffer at the specified offset in big-endian without modifying the internal offset value
 func (b *Buffer) WriteU16BE(off int64, data []uint16) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.writeU16BE(off, data)
 
 }
@@ -1292,6 +1293,9 @@ func (b *Buffer) WriteU16BE(off int64, data []uint16) {
 // WriteU32LE writes a slice of uint32s to the buffer at the specified offset in little-endian without modifying the internal offset value
 func (b *Buffer) WriteU32LE(off int64, data []uint32) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.writeU32LE(off, data)
 
 }
@@ -1299,6 +1303,9 @@ func (b *Buffer) WriteU32LE(off int64, data []uint32) {
 // WriteU32BE writes a slice of uint32s to the buffer at the specified offset in big-endian without modifying the internal offset value
 func (b *Buffer) WriteU32BE(off int64, data []uint32) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.writeU32BE(off, data)
 
 }
@@ -1306,6 +1313,9 @@ func (b *Buffer) WriteU32BE(off int64, data []uint32) {
 // WriteU64LE writes a slice of uint64s to the buffer at the specfied offset in little-endian without modifying the internal offset value
 func (b *Buffer) WriteU64LE(off int64, data []uint64) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.writeU64LE(off, data)
 
 }
@@ -1313,6 +1323,9 @@ func (b *Buffer) WriteU64LE(off int64, data []uint64) {
 // WriteU64BE writes a slice of uint64s to the buffer at the specified offset in big-endian without modifying the internal offset value
 func (b *Buffer) WriteU64BE(off int64, data []uint64) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.writeU64BE(off, data)
 
 }
@@ -1320,6 +1333,9 @@ func (b *Buffer) WriteU64BE(off int64, data []uint64) {
 // WriteByteNext writes a byte to the buffer at the current offset and moves the offset forward the amount of bytes written
 func (b *Buffer) WriteByteNext(data byte) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.write(b.off, []byte{data})
 	b.seek(1, true)
 
@@ -1328,6 +1344,9 @@ func (b *Buffer) WriteByteNext(data byte) {
 // WriteBytesNext writes bytes to the buffer at the current offset and moves the offset forward the amount of bytes written
 func (b *Buffer) WriteBytesNext(data []byte) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.write(b.off, data)
 	b.seek(int64(len(data)), true)
 
@@ -1336,6 +1355,9 @@ func (b *Buffer) WriteBytesNext(data []byte) {
 // WriteU16LENext writes a slice of uint16s to the buffer at the current offset in little-endian and moves the offset forward the amount of bytes written
 func (b *Buffer) WriteU16LENext(data []uint16) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.writeU16LE(b.off, data)
 	b.seek(int64(len(data))*2, true)
 
@@ -1344,6 +1366,9 @@ func (b *Buffer) WriteU16LENext(data []uint16) {
 // WriteU16BENext writes a slice of uint16s to the buffer at the current offset in big-endian and moves the offset forward the amount of bytes written
 func (b *Buffer) WriteU16BENext(data []uint16) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.writeU16BE(b.off, data)
 	b.seek(int64(len(data))*2, true)
 
@@ -1352,6 +1377,9 @@ func (b *Buffer) WriteU16BENext(data []uint16) {
 // WriteU32LENext writes a slice of uint32s to the buffer at the current offset in little-endian and moves the offset forward the amount of bytes written
 func (b *Buffer) WriteU32LENext(data []uint32) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.writeU32LE(b.off, data)
 	b.seek(int64(len(data))*4, true)
 
@@ -1360,6 +1388,9 @@ func (b *Buffer) WriteU32LENext(data []uint32) {
 // WriteU32BENext writes a slice of uint32s to the buffer at the current offset in big-endian and moves the offset forward the amount of bytes written
 func (b *Buffer) WriteU32BENext(data []uint32) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.writeU32BE(b.off, data)
 	b.seek(int64(len(data))*4, true)
 
@@ -1368,6 +1399,9 @@ func (b *Buffer) WriteU32BENext(data []uint32) {
 // WriteU64LENext writes a slice of uint64s to the buffer at the current offset in little-endian and moves the offset forward the amount of bytes written
 func (b *Buffer) WriteU64LENext(data []uint64) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.writeU64LE(b.off, data)
 	b.seek(int64(len(data))*8, true)
 
@@ -1376,6 +1410,9 @@ func (b *Buffer) WriteU64LENext(data []uint64) {
 // WriteU64BENext writes a slice of uint64s to the buffer at the current offset in big-endian and moves the offset forward the amount of bytes written
 func (b *Buffer) WriteU64BENext(data []uint64) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.writeU64BE(b.off, data)
 	b.seek(int64(len(data))*8, true)
 
@@ -1384,6 +1421,9 @@ func (b *Buffer) WriteU64BENext(data []uint64) {
 // ReadBit returns the bit located at the specified offset without modifying the internal offset value
 func (b *Buffer) ReadBit(off int64) byte {
 
+	b.Lock()
+	defer b.Unlock()
+
 	return b.readbit(off)
 
 }
@@ -1391,6 +1431,9 @@ func (b *Buffer) ReadBit(off int64) byte {
 // ReadBits returns the next n bits from the specified offset without modifying the internal offset value
 func (b *Buffer) ReadBits(off, n int64) uint64 {
 
+	b.Lock()
+	defer b.Unlock()
+
 	return b.readbits(off, n)
 
 }
@@ -1398,6 +1441,9 @@ func (b *Buffer) ReadBits(off, n int64) uint64 {
 // ReadBitNext returns the next bit from the current offset and moves the offset forward a bit
 func (b *Buffer) ReadBitNext() (out byte) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	out = b.readbit(b.boff)
 	b.seekbit(1, true)
 	return
@@ -1407,6 +1453,9 @@ func (b *Buffer) ReadBitNext() (out byte) {
 // ReadBitsNext returns the next n bits from the current offset and moves the offset forward the amount of bits read
 func (b *Buffer) ReadBitsNext(n int64) (out uint64) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	out = b.readbits(b.boff, n)
 	b.seekbit(n, true)
 	return
@@ -1416,6 +1465,9 @@ func (b *Buffer) ReadBitsNext(n int64) (out uint64) {
 // SetBit sets the bit located at the specified offset without modifying the internal offset value
 func (b *Buffer) SetBit(off int64, data byte) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.setbit(off, data)
 
 }
@@ -1423,6 +1475,9 @@ func (b *Buffer) SetBit(off int64, data byte) {
 // SetBits sets the next n bits from the specified offset without modifying the internal offset value
 func (b *Buffer) SetBits(off int64, data uint64, n int64) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.setbits(off, data, n)
 
 }
@@ -1430,6 +1485,9 @@ func (b *Buffer) SetBits(off int64, data uint64, n int64) {
 // SetBitNext sets the next bit from the current offset and moves the offset forward a bit
 func (b *Buffer) SetBitNext(data byte) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.setbit(b.boff, data)
 	b.seekbit(1, true)
 
@@ -1438,6 +1496,9 @@ func (b *Buffer) SetBitNext(data byte) {
 // SetBitsNext sets the next n bits from the current offset and moves the offset forward the amount of bits set
 func (b *Buffer) SetBitsNext(data uint64, n int64) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.setbits(b.boff, data, n)
 	b.seekbit(n, true)
 
@@ -1446,6 +1507,9 @@ func (b *Buffer) SetBitsNext(data uint64, n int64) {
 // FlipBit flips the bit located at the specified offset without modifying the internal offset value
 func (b *Buffer) FlipBit(off int64) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.flipbit(off)
 
 }
@@ -1453,6 +1517,9 @@ func (b *Buffer) FlipBit(off int64) {
 // FlipBitNext flips the next bit from the current offset and moves the offset forward a bit
 func (b *Buffer) FlipBitNext() {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.flipbit(b.boff)
 	b.seekbit(1, true)
 
@@ -1461,6 +1528,9 @@ func (b *Buffer) FlipBitNext() {
 // ClearAllBits sets all of the buffer's bits to 0
 func (b *Buffer) ClearAllBits() {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.clearallbits()
 
 }
@@ -1468,6 +1538,9 @@ func (b *Buffer) ClearAllBits() {
 // SetAllBits sets all of the buffer's bits to 1
 func (b *Buffer) SetAllBits() {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.setallbits()
 
 }
@@ -1475,6 +1548,9 @@ func (b *Buffer) SetAllBits() {
 // FlipAllBits flips all of the buffer's bits
 func (b *Buffer) FlipAllBits() {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.flipallbits()
 
 }
-- 
2.43.0

