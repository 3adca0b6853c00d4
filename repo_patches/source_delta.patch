From edd6dcfec45058a5a7f454ef7e6187a360cbaa9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:04 +0000
Subject: [PATCH 1/6] fix: ReadAllFast/ReadAllDeltaFast read up to 3 bytes past
 the end of the stream

The accelerated loops only left 3 control bytes worth of integers behind the
last 16 byte load. If the last control byte covers fewer than 4 integers, and
they are all encoded with 1 byte, just 13 to 15 bytes are left.
---
 pkg/stream/reader/reader_amd64.go | 40 +++++++++++++++----------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/pkg/stream/reader/reader_amd64.go b/pkg/stream/reader/reader_amd64.go
index eb03649..9876312 100644
--- a/pkg/stream/reader/reader_amd64.go
+++ b/pkg/stream/reader/reader_amd64.go
@@ -20,7 +20,7 @@ func ReadAllFast(count int, stream []byte, out []uint32) {
 		dataPos = (count + 3) / 4
 		ctrlLen = dataPos
 		// lowest32 is the limit for the count of integers we'll read in
-		// bulk 8 at a time directly from the input stream. We subtract 3
+		// bulk 8 at a time directly from the input stream. We subtract 12
 		// here since we load 16 bytes at a time in the assembly code. If
 		// you attempt to load the last few control bytes worth of data,
 		// it's possible there won't be enough bytes in the data stream to
@@ -29,12 +29,12 @@ func ReadAllFast(count int, stream []byte, out []uint32) {
 		// [ _ _ _ _ | _ _ _ _ | _ _ _ _ | _ _ _ _ ]
 		//                    works fine --^ ^-- bad things here
 		//
-		// Imagine the last group of 16 in the above array is all encoded with
-		// 4 bytes. Decoding the first 4 integers in that group will work fine,
-		// since it will load the last 3 (unused) bytes. However, when attempting
-		// to decode the last three groups of 4, each load will need an extra
-		// 1, 2, or 3 bytes (respectively) in order to be considered safe.
-		lowest32 = ((ctrlLen - 3) * 4) &^ 31
+		// Every integer is encoded with at least 1 byte, so loading 16 bytes
+		// for a group of 4 is only safe if at least 12 more integers follow
+		// that group. Note that the integers have to be counted here and not
+		// the control bytes, since the last control byte might represent fewer
+		// than 4 integers.
+		lowest32 = (count - 12) &^ 31
 	)
 
 	for ; decoded < lowest32; decoded += 32 {
@@ -86,9 +86,9 @@ func ReadAllFast(count int, stream []byte, out []uint32) {
 		ctrlPos += 8
 	}
 
-	// Must be strictly less than the last 4 blocks of integers, since we can't safely
-	// decode 8 if our ctrl pos starts at the first 4 in the block.
-	for ; ctrlPos < ctrlLen-4; ctrlPos += 2 {
+	// The second group of 4 in this block of 8 must be followed by at least 12 more
+	// integers, otherwise we can't safely decode 8.
+	for ; decoded+20 <= count; ctrlPos += 2 {
 		ctrl := uint16(stream[ctrlPos]) | uint16(stream[ctrlPos+1])<<8
 		decode.Get8uint32FastAsm(
 			stream[dataPos:],
@@ -130,7 +130,7 @@ func ReadAllDeltaFast(count int, stream []byte, out []uint32, prev uint32) {
 		dataPos = (count + 3) / 4
 		ctrlLen = dataPos
 		// lowest32 is the limit for the count of integers we'll read in
-		// bulk 8 at a time directly from the input stream. We subtract 3
+		// bulk 8 at a time directly from the input stream. We subtract 12
 		// here since we load 16 bytes at a time in the assembly code. If
 		// you attempt to load the last few control bytes worth of data,
 		// it's possible there won't be enough bytes in the data stream to
@@ -139,12 +139,12 @@ func ReadAllDeltaFast(count int, stream []byte, out []uint32, prev uint32) {
 		// [ _ _ _ _ | _ _ _ _ | _ _ _ _ | _ _ _ _ ]
 		//                    works fine --^ ^-- bad things here
 		//
-		// Imagine the last group of 16 in the above array is all encoded with
-		// 4 bytes. Decoding the first 4 integers in that group will work fine,
-		// since it will load the last 3 (unused) bytes. However, when attempting
-		// to decode the last three groups of 4, each load will need an extra
-		// 1, 2, or 3 bytes (respectively) in order to be considered safe.
-		lowest32 = ((ctrlLen - 3) * 4) &^ 31
+		// Every integer is encoded with at least 1 byte, so loading 16 bytes
+		// for a group of 4 is only safe if at least 12 more integers follow
+		// that group. Note that the integers have to be counted here and not
+		// the control bytes, since the last control byte might represent fewer
+		// than 4 integers.
+		lowest32 = (count - 12) &^ 31
 	)
 
 	for ; decoded < lowest32; decoded += 32 {
@@ -201,9 +201,9 @@ func ReadAllDeltaFast(count int, stream []byte, out []uint32, prev uint32) {
 		prev = nums[31]
 	}
 
-	// Must be strictly less than the last 4 blocks of integers, since we can't safely
-	// decode 8 if our ctrl pos starts at the first 4 in the block.
-	for ; ctrlPos < ctrlLen-4; ctrlPos += 2 {
+	// The second group of 4 in this block of 8 must be followed by at least 12 more
+	// integers, otherwise we can't safely decode 8.
+	for ; decoded+20 <= count; ctrlPos += 2 {
 		ctrl := uint16(stream[ctrlPos]) | uint16(stream[ctrlPos+1])<<8
 		decode.Get8uint32DeltaFastAsm(
 			stream[dataPos:],
-- 
2.43.0


From 498d77a0c5a508462419d6c3e05e08feba625c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:28 +0000
Subject: [PATCH 2/6] fix: build on architectures other than amd64

The stubs in the *_base.go files had stale signatures, or were missing, so the
portable scalar implementation could not be compiled anywhere but on amd64.
---
 pkg/decode/decode_base.go        | 4 ++--
 pkg/stream/reader/reader_base.go | 4 ++++
 pkg/stream/writer/writer_base.go | 4 ++++
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/pkg/decode/decode_base.go b/pkg/decode/decode_base.go
index decaee5..ee83b9c 100644
--- a/pkg/decode/decode_base.go
+++ b/pkg/decode/decode_base.go
@@ -10,10 +10,10 @@ func GetMode() shared.PerformanceMode {
 	return shared.Normal
 }
 
-func Get8uint32Fast(in []byte, out []uint32, ctrl uint16) int {
+func Get8uint32Fast(in []byte, out []uint32, ctrl uint16) {
 	panic("unreachable")
 }
 
-func Get8uint32DeltaFast(in []byte, out []uint32, ctrl uint16, prev uint32) int {
+func Get8uint32DeltaFast(in []byte, out []uint32, ctrl uint16, prev uint32) {
 	panic("unreachable")
 }
diff --git a/pkg/stream/reader/reader_base.go b/pkg/stream/reader/reader_base.go
index 18a7b86..7a6cdf4 100644
--- a/pkg/stream/reader/reader_base.go
+++ b/pkg/stream/reader/reader_base.go
@@ -5,3 +5,7 @@ package reader
 func ReadAllFast(count int, stream []byte, out []uint32) {
 	panic("unreachable")
 }
+
+func ReadAllDeltaFast(count int, stream []byte, out []uint32, prev uint32) {
+	panic("unreachable")
+}
diff --git a/pkg/stream/writer/writer_base.go b/pkg/stream/writer/writer_base.go
index 6a54520..7e815f0 100644
--- a/pkg/stream/writer/writer_base.go
+++ b/pkg/stream/writer/writer_base.go
@@ -5,3 +5,7 @@ package writer
 func WriteAllFast(in []uint32) []byte {
 	panic("unreachable")
 }
+
+func WriteAllDeltaFast(in []uint32, prev uint32) []byte {
+	panic("unreachable")
+}
-- 
2.43.0


From a79bce3e0313d231f56902038586823f474e831b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:28 +0000
Subject: [PATCH 3/6] fix: README update must look for the end of the
 benchmarks after their start

A code block closed before the benchmarks section was taken for the end of that
section, and everything between the two was duplicated in the README.
---
 tools/parse_and_write_bench.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tools/parse_and_write_bench.go b/tools/parse_and_write_bench.go
index 740771c..3a03f31 100644
--- a/tools/parse_and_write_bench.go
+++ b/tools/parse_and_write_bench.go
@@ -99,7 +99,11 @@ func main() {
 		log.Fatalf("couldn't find start sentinel")
 	}
 
-	restStart := bytes.Index(allData, bEnd)
+	restStart := bytes.Index(allData[start+len(bStart):], bEnd)
+	if restStart < 0 {
+		log.Fatalf("couldn't find end sentinel")
+	}
+	restStart += start + len(bStart)
 
 	var final []byte
 	final = append(final, allData[:start]...)
-- 
2.43.0


From 16fa8810e26fc9fdc901472628a35969a4e0c650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:28 +0000
Subject: [PATCH 4/6] fix: RandUint32 generated values one byte longer than the
 chosen length

The upper bounds of the ranges are inclusive, so the 1, 2 and 3 byte generators
could return the first value that takes 2, 3 and 4 bytes, respectively.
---
 pkg/util/rand.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/util/rand.go b/pkg/util/rand.go
index 34ee6c8..4fa1f45 100644
--- a/pkg/util/rand.go
+++ b/pkg/util/rand.go
@@ -22,15 +22,15 @@ var (
 	generators = []generator{
 		// 1 byte,
 		func() uint32 {
-			return randUint32Range(0, 1<<8)
+			return randUint32Range(0, 1<<8-1)
 		},
 		// 2 byte,
 		func() uint32 {
-			return randUint32Range(1<<8, 1<<16)
+			return randUint32Range(1<<8, 1<<16-1)
 		},
 		// 3 byte,
 		func() uint32 {
-			return randUint32Range(1<<16, 1<<24)
+			return randUint32Range(1<<16, 1<<24-1)
 		},
 		// 4 byte,
 		func() uint32 {
-- 
2.43.0


From c8e5358b09c3f4524795d89e61054db3de6f529f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:42 +0000
Subject: [PATCH 5/6] fix: importing the codec registered the flags of the
 assembly generator

pkg/shared imported avo for its generator helpers, which registers -out, -pkg,
-log and others in flag.CommandLine. A program using this library panicked with
'flag redefined' as soon as it defined one of these itself. The helpers now live
in their own package, which only the generators import.
---
 pkg/decode/main/asm.go         |  8 ++++----
 pkg/encode/main/asm.go         | 12 ++++++------
 pkg/shared/{ => avogen}/asm.go |  5 ++++-
 3 files changed, 14 insertions(+), 11 deletions(-)
 rename pkg/shared/{ => avogen}/asm.go (84%)

diff --git a/pkg/decode/main/asm.go b/pkg/decode/main/asm.go
index 5d037a1..73a1092 100644
--- a/pkg/decode/main/asm.go
+++ b/pkg/decode/main/asm.go
@@ -7,7 +7,7 @@ import (
 	. "github.com/mmcloughlin/avo/build"
 	"github.com/mmcloughlin/avo/operand"
 	"github.com/mmcloughlin/avo/reg"
-	"github.com/theMPatel/streamvbyte-simdgo/pkg/shared"
+	"github.com/theMPatel/streamvbyte-simdgo/pkg/shared/avogen"
 )
 
 const (
@@ -88,13 +88,13 @@ func coreAlgorithm() (reg.VecVirtual, reg.VecVirtual) {
 	Load(Param(pCtrl), ctrl)
 
 	shuffleBase := Load(Param(pShuffle), GP64())
-	shuffleA := shared.CalculateShuffleAddrFromCtrl(shuffleBase, ctrl, false)
-	shuffleB := shared.CalculateShuffleAddrFromCtrl(shuffleBase, ctrl, true)
+	shuffleA := avogen.CalculateShuffleAddrFromCtrl(shuffleBase, ctrl, false)
+	shuffleB := avogen.CalculateShuffleAddrFromCtrl(shuffleBase, ctrl, true)
 
 	firstBlock := Load(Param(pIn).Base(), GP64())
 	secondBlock := GP64()
 	MOVQ(firstBlock, secondBlock)
-	lowerAddr, lowerSize := shared.LenValueAddr(ctrl, false, pLenTable)
+	lowerAddr, lowerSize := avogen.LenValueAddr(ctrl, false, pLenTable)
 
 	MOVBQZX(lowerAddr, lowerSize)
 	ADDQ(lowerSize, secondBlock)
diff --git a/pkg/encode/main/asm.go b/pkg/encode/main/asm.go
index fbf0648..8004f23 100644
--- a/pkg/encode/main/asm.go
+++ b/pkg/encode/main/asm.go
@@ -7,7 +7,7 @@ import (
 	. "github.com/mmcloughlin/avo/build"
 	"github.com/mmcloughlin/avo/operand"
 	"github.com/mmcloughlin/avo/reg"
-	"github.com/theMPatel/streamvbyte-simdgo/pkg/shared"
+	"github.com/theMPatel/streamvbyte-simdgo/pkg/shared/avogen"
 )
 
 const (
@@ -48,7 +48,7 @@ func differential() {
 		log.Fatalf("failed to get addr of prev")
 	}
 
-	firstFour, secondFour := shared.Load8(pIn)
+	firstFour, secondFour := avogen.Load8(pIn)
 	prev := XMM()
 	VPALIGNR(operand.Imm(12), firstFour, secondFour, prev)
 	VPSUBD(prev, secondFour, secondFour)
@@ -62,7 +62,7 @@ func differential() {
 
 func regular() {
 	TEXT(name, NOSPLIT, signature)
-	coreAlgorithm(shared.Load8(pIn))
+	coreAlgorithm(avogen.Load8(pIn))
 }
 
 func coreAlgorithm(firstFour, secondFour reg.VecVirtual) {
@@ -86,8 +86,8 @@ func coreAlgorithm(firstFour, secondFour reg.VecVirtual) {
 	Store(ctrl.As16(), Return(pR))
 
 	shuffleBase := Load(Param(pShuffle), GP64())
-	firstShuffle := shared.CalculateShuffleAddrFromCtrl(shuffleBase, ctrl, false)
-	secondShuffle := shared.CalculateShuffleAddrFromCtrl(shuffleBase, ctrl, true)
+	firstShuffle := avogen.CalculateShuffleAddrFromCtrl(shuffleBase, ctrl, false)
+	secondShuffle := avogen.CalculateShuffleAddrFromCtrl(shuffleBase, ctrl, true)
 
 	VPSHUFB(firstShuffle, firstFour, firstFour)
 	VPSHUFB(secondShuffle, secondFour, secondFour)
@@ -96,7 +96,7 @@ func coreAlgorithm(firstFour, secondFour reg.VecVirtual) {
 	secondAddr := GP64()
 	MOVQ(firstAddr, secondAddr)
 
-	lenAddr, lenValue := shared.LenValueAddr(ctrl, false, pLenTable)
+	lenAddr, lenValue := avogen.LenValueAddr(ctrl, false, pLenTable)
 
 	MOVBQZX(lenAddr, lenValue)
 	ADDQ(lenValue, secondAddr)
diff --git a/pkg/shared/asm.go b/pkg/shared/avogen/asm.go
similarity index 84%
rename from pkg/shared/asm.go
rename to pkg/shared/avogen/asm.go
index 34d5e66..30ad34f 100644
--- a/pkg/shared/asm.go
+++ b/pkg/shared/avogen/asm.go
@@ -1,4 +1,7 @@
-package shared
+// Package avogen holds the building blocks shared by the assembly generators.
+// It must only be imported by generators: avo registers its command line flags
+// in flag.CommandLine as soon as it is imported.
+package avogen
 
 import (
 	. "github.com/mmcloughlin/avo/build"
-- 
2.43.0


From 0b3c9e281597a4582ee6a8be189b2144853ac4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:06 +0000
Subject: [PATCH 6/6] fix: update_bench.sh replaced the README benchmarks even
 when the benchmark run failed

---
 tools/update_bench.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/update_bench.sh b/tools/update_bench.sh
index 671cfea..eb577bc 100755
--- a/tools/update_bench.sh
+++ b/tools/update_bench.sh
@@ -1,6 +1,6 @@
 #!/usr/bin/env bash
 
-set -e
+set -eo pipefail
 
 TMP_FILE=$(mktemp)
 go test -bench . ./pkg/... | tee $TMP_FILE
-- 
2.43.0

