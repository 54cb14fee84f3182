From 800048914f017751c6bb5a7dc339b9607ada39e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:10 +0000
Subject: [PATCH 001/163] fix: break the uncompressedheader/tilegroup import
 cycle by implementing load/save of loop filter and segmentation params in
 place

---
 internal/state/state.go                       |  5 +++
 internal/tilegroup/decode_frame_wrapup.go     | 32 ++++++-------------
 .../uncompressedheader/uncompressed_header.go | 17 +++++++---
 3 files changed, 28 insertions(+), 26 deletions(-)

diff --git a/internal/state/state.go b/internal/state/state.go
index bc3aaf0..ae5213b 100644
--- a/internal/state/state.go
+++ b/internal/state/state.go
@@ -84,6 +84,11 @@ type State struct {
 	SavedGmParams          [shared.NUM_REF_FRAMES][shared.ALTREF_FRAME + 1][6]int
 	SavedSegmentIds        [shared.NUM_REF_FRAMES][shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
 
+	SavedLoopFilterRefDeltas  [shared.NUM_REF_FRAMES][8]int
+	SavedLoopFilterModeDeltas [shared.NUM_REF_FRAMES][2]int
+	SavedFeatureEnabled       [shared.NUM_REF_FRAMES][shared.MAX_SEGMENTS][shared.SEG_LVL_MAX]int
+	SavedFeatureData          [shared.NUM_REF_FRAMES][shared.MAX_SEGMENTS][shared.SEG_LVL_MAX]int
+
 	TxbSkipCdf      [][][]int
 	EobPt16Cdf      [][][]int
 	EobPt32Cdf      [][][]int
diff --git a/internal/tilegroup/decode_frame_wrapup.go b/internal/tilegroup/decode_frame_wrapup.go
index 3bff199..67a9a05 100644
--- a/internal/tilegroup/decode_frame_wrapup.go
+++ b/internal/tilegroup/decode_frame_wrapup.go
@@ -169,8 +169,8 @@ func (t *TileGroup) referenceFrameUpdate(state *state.State, uh uncompressedhead
 				saveGrainParams(i)
 			}
 
-			saveLoopFilterParams(i)
-			saveSegmentationParams(i)
+			saveLoopFilterParams(i, state, uh)
+			saveSegmentationParams(i, state)
 
 			for i := 0; i < shared.NUM_REF_FRAMES; i++ {
 				if ((uh.RefreshFrameFlags >> i) & 1) == 1 {
@@ -189,15 +189,15 @@ func saveGrainParams(ctx int) {
 }
 
 // save_loop_filter_params( i )
-func saveLoopFilterParams(ctx int) {
-	// TODO: implement
-	//panic("not implemented")
+func saveLoopFilterParams(ctx int, state *state.State, uh uncompressedheader.UncompressedHeader) {
+	state.SavedLoopFilterRefDeltas[ctx] = uh.LoopFilterRefDeltas
+	state.SavedLoopFilterModeDeltas[ctx] = uh.LoopFilterModeDeltas
 }
 
 // save_segmentation_params( i )
-func saveSegmentationParams(ctx int) {
-	// TODO: implement
-	//panic("not implemented")
+func saveSegmentationParams(ctx int, state *state.State) {
+	state.SavedFeatureEnabled[ctx] = state.FeatureEnabled
+	state.SavedFeatureData[ctx] = state.FeatureData
 }
 
 // 7.21 Reference frame loading process
@@ -268,18 +268,6 @@ func (t *TileGroup) referenceFrameLoadingProcess(state *state.State, u *uncompre
 		u.LoadGrainParams(u.FrameToShowMapIdx)
 	}
 
-	LoadLoopFilterParams(u.FrameToShowMapIdx)
-	LoadSegmentationParams(u.FrameToShowMapIdx)
-}
-
-// load_loop_filter_params( i )
-func LoadLoopFilterParams(i int) {
-	panic("not implemented")
-
-}
-
-// load_segmentation_params( i )
-func LoadSegmentationParams(i int) {
-	panic("not implemented")
-
+	u.LoadLoopFilterParams(u.FrameToShowMapIdx, state)
+	uncompressedheader.LoadSegmentationParams(u.FrameToShowMapIdx, state)
 }
diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index a26a0d5..517e82d 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -6,7 +6,6 @@ import (
 	"github.com/m4tthewde/gov1/internal/sequenceheader"
 	"github.com/m4tthewde/gov1/internal/shared"
 	"github.com/m4tthewde/gov1/internal/state"
-	"github.com/m4tthewde/gov1/internal/tilegroup"
 	"github.com/m4tthewde/gov1/internal/tileinfo"
 	"github.com/m4tthewde/gov1/internal/util"
 )
@@ -631,10 +630,20 @@ func (u *UncompressedHeader) setupPastIndependence(s *state.State) {
 func (u *UncompressedHeader) loadPrevious(state *state.State) {
 	prevFrame := u.RefFrameIdx[u.PrimaryRefFrame]
 	state.PrevGmParams = state.SavedGmParams[prevFrame]
-	tilegroup.LoadLoopFilterParams(prevFrame)
-	tilegroup.LoadSegmentationParams(prevFrame)
+	u.LoadLoopFilterParams(prevFrame, state)
+	LoadSegmentationParams(prevFrame, state)
+}
 
-	panic("not implemented")
+// load_loop_filter_params( i )
+func (u *UncompressedHeader) LoadLoopFilterParams(i int, state *state.State) {
+	u.LoopFilterRefDeltas = state.SavedLoopFilterRefDeltas[i]
+	u.LoopFilterModeDeltas = state.SavedLoopFilterModeDeltas[i]
+}
+
+// load_segmentation_params( i )
+func LoadSegmentationParams(i int, state *state.State) {
+	state.FeatureEnabled = state.SavedFeatureEnabled[i]
+	state.FeatureData = state.SavedFeatureData[i]
 }
 
 func (u *UncompressedHeader) motionFieldEstimation() {
-- 
2.43.0


From c06be53858b2c9655da1bbd3a5087fa2b2db82e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:38 +0000
Subject: [PATCH 002/163] fix: Round2Signed ignored its non-negative operand

---
 internal/util/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/util/util.go b/internal/util/util.go
index 688fa5f..3561505 100644
--- a/internal/util/util.go
+++ b/internal/util/util.go
@@ -94,7 +94,7 @@ func Round2(x int, n int) int {
 
 func Round2Signed(x int, n int) int {
 	if x >= 0 {
-		return Round2(2, n)
+		return Round2(x, n)
 	} else {
 		return -Round2(-x, n)
 	}
-- 
2.43.0


From c4edd49a39530699744d81533b50d152ff7c61a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:38 +0000
Subject: [PATCH 003/163] fix: Clip1 ignored its operand and clipped to the
 wrong maximum

---
 internal/util/util.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/internal/util/util.go b/internal/util/util.go
index 3561505..d224c53 100644
--- a/internal/util/util.go
+++ b/internal/util/util.go
@@ -1,7 +1,6 @@
 package util
 
 import (
-	"math"
 	"sort"
 
 	"github.com/m4tthewde/gov1/internal/shared"
@@ -123,7 +122,7 @@ func Clip3(x int, y int, z int) int {
 }
 
 func Clip1(x int, bitDepth int) int {
-	return Clip3(0, int(math.Pow(2, float64(bitDepth)-1)), 2)
+	return Clip3(0, (1<<bitDepth)-1, x)
 }
 
 func NegDeinterleave(diff int, ref int, max int) int {
-- 
2.43.0


From ddd7ba953dfbcf80227c1a5a0e32ea142fda5250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:39 +0000
Subject: [PATCH 004/163] fix: NegDeinterleave was the identity for every
 reference but 1

---
 internal/util/util.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/util/util.go b/internal/util/util.go
index d224c53..85d68db 100644
--- a/internal/util/util.go
+++ b/internal/util/util.go
@@ -126,7 +126,7 @@ func Clip1(x int, bitDepth int) int {
 }
 
 func NegDeinterleave(diff int, ref int, max int) int {
-	if !(ref == 1) {
+	if ref == 0 {
 		return diff
 	}
 
@@ -152,7 +152,7 @@ func NegDeinterleave(diff int, ref int, max int) int {
 				return ref - (diff >> 1)
 			}
 		}
-		return max - diff + 1
+		return max - (diff + 1)
 	}
 }
 
-- 
2.43.0


From 0e10eadf4a4fd85d55fb6106fb5a29a67d99fa65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:39 +0000
Subject: [PATCH 005/163] fix: first weight of the 32-sample OBMC mask

---
 internal/util/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/util/util.go b/internal/util/util.go
index 85d68db..4f8b5d1 100644
--- a/internal/util/util.go
+++ b/internal/util/util.go
@@ -200,7 +200,7 @@ var Obmc_Mask_4 = []int{39, 50, 59, 64}
 var Obmc_Mask_8 = []int{36, 42, 48, 53, 57, 61, 64, 64}
 var Obmc_Mask_16 = []int{34, 37, 40, 43, 46, 49, 52, 54, 56, 58, 60, 61, 64, 64, 64, 64}
 var Obmc_Mask_32 = []int{
-	3, 35, 36, 38, 40, 41, 43, 44,
+	33, 35, 36, 38, 40, 41, 43, 44,
 	45, 47, 48, 50, 51, 52, 53, 55,
 	56, 57, 58, 59, 60, 60, 61, 62,
 	64, 64, 64, 64, 64, 64, 64, 64,
-- 
2.43.0


From 162a483a858f61cc81975855a1d3e7ca8f4217d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:39 +0000
Subject: [PATCH 006/163] fix: Cos128 indexed out of range outside the first
 quadrant

---
 internal/util/util.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/util/util.go b/internal/util/util.go
index 4f8b5d1..0e192ff 100644
--- a/internal/util/util.go
+++ b/internal/util/util.go
@@ -223,17 +223,17 @@ var Cos128_Lookup = []int{
 
 func Cos128(angle int) int {
 	angle2 := angle & 255
-	if angle2 >= 0 || angle2 <= 64 {
+	if angle2 >= 0 && angle2 <= 64 {
 		return Cos128_Lookup[angle2]
 	}
-	if angle2 >= 64 || angle2 <= 128 {
+	if angle2 >= 64 && angle2 <= 128 {
 		return Cos128_Lookup[128-angle2] * -1
 	}
-	if angle2 >= 128 || angle2 <= 192 {
+	if angle2 >= 128 && angle2 <= 192 {
 		return Cos128_Lookup[angle2-128] * -1
 	}
 
-	return Cos128_Lookup[256-angle2] * -1
+	return Cos128_Lookup[256-angle2]
 }
 
 func Sin128(angle int) int {
-- 
2.43.0


From a539fa556f7e033412ead6274e6e82be8f85529b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:40 +0000
Subject: [PATCH 007/163] fix: Brev repeated one bit instead of reversing all
 of them

---
 internal/util/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/util/util.go b/internal/util/util.go
index 0e192ff..b32000d 100644
--- a/internal/util/util.go
+++ b/internal/util/util.go
@@ -243,7 +243,7 @@ func Sin128(angle int) int {
 func Brev(numBits int, x int) int {
 	t := 0
 	for i := 0; i < numBits; i++ {
-		bit := (x >> 1) & 1
+		bit := (x >> i) & 1
 		t += bit << (numBits - 1 - i)
 	}
 
-- 
2.43.0


From 289d4117ade3825cf0485bfd8d358898f1b456b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:20 +0000
Subject: [PATCH 008/163] fix: sequence header read operating points only with
 timing info (with a 12-bit level, room for one point, and idc dropped) and
 skipped frame size and tool flags for reduced still pictures

---
 internal/sequenceheader/sequence_header.go | 196 +++++++++++----------
 1 file changed, 105 insertions(+), 91 deletions(-)

diff --git a/internal/sequenceheader/sequence_header.go b/internal/sequenceheader/sequence_header.go
index f56b718..c65c7da 100644
--- a/internal/sequenceheader/sequence_header.go
+++ b/internal/sequenceheader/sequence_header.go
@@ -108,15 +108,16 @@ func NewSequenceHeader(b *bitstream.BitStream, state *state.State) SequenceHeade
 	s.InitialDisplayDelayPresent = false
 	s.OperatingPointsCountMinusOne = 0
 
-	operatingPointIdcArray := []int{0}
-
-	s.SeqLevelIdx = []int{b.F(5)}
+	s.OperatingPointIdc = []int{0}
+	s.SeqLevelIdx = []int{0}
 	s.SeqTier = []int{0}
 	s.DecoderModelPresentForThisOp = []bool{false}
 	s.InitialDisplayDelayPresentForThisOp = []bool{false}
-	s.InitialDisplayDelayMinusOne = []int{}
+	s.InitialDisplayDelayMinusOne = []int{0}
 
-	if !s.ReducedStillPictureHeader {
+	if s.ReducedStillPictureHeader {
+		s.SeqLevelIdx[0] = b.F(5)
+	} else {
 		timingInfoPresent := b.F(1) != 0
 		if timingInfoPresent {
 			s.TimingInfo = NewTimingInfo(b)
@@ -131,114 +132,127 @@ func NewSequenceHeader(b *bitstream.BitStream, state *state.State) SequenceHeade
 				}
 			}
 
-			s.InitialDisplayDelayPresent = util.Bool(b.F(1))
-			s.OperatingPointsCountMinusOne = b.F(5)
-
-			for i := 0; i <= s.OperatingPointsCountMinusOne; i++ {
-				operatingPointIdcArray[i] = b.F(12)
-				s.SeqLevelIdx[i] = b.F(12)
+		}
 
-				if s.SeqLevelIdx[i] > 7 {
-					s.SeqTier[i] = b.F(1)
-				} else {
-					s.SeqTier[i] = 0
-				}
-				if s.DecoderModelInfoPresent {
-					s.DecoderModelPresentForThisOp[i] = util.Bool(b.F(1))
+		s.InitialDisplayDelayPresent = util.Bool(b.F(1))
+		s.OperatingPointsCountMinusOne = b.F(5)
+
+		n := s.OperatingPointsCountMinusOne + 1
+		s.OperatingPointIdc = make([]int, n)
+		s.SeqLevelIdx = make([]int, n)
+		s.SeqTier = make([]int, n)
+		s.DecoderModelPresentForThisOp = make([]bool, n)
+		s.InitialDisplayDelayPresentForThisOp = make([]bool, n)
+		s.InitialDisplayDelayMinusOne = make([]int, n)
+		s.DecoderBufferDelay = make([]int, n)
+		s.EncoderBufferDelay = make([]int, n)
+		s.LowDelayModeFlag = make([]bool, n)
+
+		for i := 0; i <= s.OperatingPointsCountMinusOne; i++ {
+			s.OperatingPointIdc[i] = b.F(12)
+			s.SeqLevelIdx[i] = b.F(5)
+
+			if s.SeqLevelIdx[i] > 7 {
+				s.SeqTier[i] = b.F(1)
+			} else {
+				s.SeqTier[i] = 0
+			}
+			if s.DecoderModelInfoPresent {
+				s.DecoderModelPresentForThisOp[i] = util.Bool(b.F(1))
 
-					if s.DecoderModelPresentForThisOp[i] {
-						s.operatingParametersInfo(b, i)
-					}
-				} else {
-					s.DecoderModelPresentForThisOp[i] = false
+				if s.DecoderModelPresentForThisOp[i] {
+					s.operatingParametersInfo(b, i)
 				}
+			} else {
+				s.DecoderModelPresentForThisOp[i] = false
+			}
 
-				if s.InitialDisplayDelayPresent {
-					s.InitialDisplayDelayPresentForThisOp[i] = util.Bool(b.F(1))
+			if s.InitialDisplayDelayPresent {
+				s.InitialDisplayDelayPresentForThisOp[i] = util.Bool(b.F(1))
 
-					if s.InitialDisplayDelayPresentForThisOp[i] {
-						s.InitialDisplayDelayMinusOne[i] = b.F(4)
-					}
+				if s.InitialDisplayDelayPresentForThisOp[i] {
+					s.InitialDisplayDelayMinusOne[i] = b.F(4)
 				}
 			}
 		}
-		operatingPoint := chooseOperatingPoint()
-		state.OperatingPointIdc = operatingPointIdcArray[operatingPoint]
+	}
+
+	operatingPoint := chooseOperatingPoint()
+	state.OperatingPointIdc = s.OperatingPointIdc[operatingPoint]
 
-		s.FrameWidthBitsMinusOne = b.F(4)
-		s.FrameHeightBitsMinusOne = b.F(4)
+	s.FrameWidthBitsMinusOne = b.F(4)
+	s.FrameHeightBitsMinusOne = b.F(4)
 
-		n := s.FrameWidthBitsMinusOne + 1
-		s.MaxFrameWidthMinusOne = b.F(n)
+	n := s.FrameWidthBitsMinusOne + 1
+	s.MaxFrameWidthMinusOne = b.F(n)
 
-		n = s.FrameHeightBitsMinusOne + 1
-		s.MaxFrameHeightMinusOne = b.F(n)
+	n = s.FrameHeightBitsMinusOne + 1
+	s.MaxFrameHeightMinusOne = b.F(n)
 
+	s.FrameIdNumbersPresent = false
+
+	if s.ReducedStillPictureHeader {
 		s.FrameIdNumbersPresent = false
+	} else {
+		s.FrameIdNumbersPresent = b.F(1) != 0
+	}
 
-		if s.ReducedStillPictureHeader {
-			s.FrameIdNumbersPresent = false
-		} else {
-			s.FrameIdNumbersPresent = b.F(1) != 0
-		}
+	if s.FrameIdNumbersPresent {
+		s.DeltaFrameIdLengthMinusTwo = b.F(4)
+		s.AdditionalFrameIdLengthMinusOne = b.F(3)
+	}
 
-		if s.FrameIdNumbersPresent {
-			s.DeltaFrameIdLengthMinusTwo = b.F(4)
-			s.AdditionalFrameIdLengthMinusOne = b.F(3)
-		}
+	s.Use128x128SuperBlock = b.F(1) != 0
+	s.EnableFilterIntra = b.F(1) != 0
+	s.EnableIntraEdgeFilter = b.F(1) != 0
+	s.EnableInterIntraCompound = false
+	s.EnableMaskedCompound = false
+	s.EnableWarpedMotion = false
+	s.EnableDualFilter = false
+	s.EnableOrderHint = false
+	s.EnableJntComp = false
+	s.EnableRefFrameMvs = false
 
-		s.Use128x128SuperBlock = b.F(1) != 0
-		s.EnableFilterIntra = b.F(1) != 0
-		s.EnableIntraEdgeFilter = b.F(1) != 0
-		s.EnableInterIntraCompound = false
-		s.EnableMaskedCompound = false
-		s.EnableWarpedMotion = false
-		s.EnableDualFilter = false
-		s.EnableOrderHint = false
-		s.EnableJntComp = false
-		s.EnableRefFrameMvs = false
-
-		// SELECT_SCREEN_CONTENT_TOOLS
-		s.SeqForceScreenContentTools = 2
-
-		// SELECT_INTEGER_MV
-		s.SeqForceIntegerMv = 2
-
-		s.OrderHintBits = 0
-
-		if !s.ReducedStillPictureHeader {
-			s.EnableInterIntraCompound = b.F(1) != 0
-			s.EnableMaskedCompound = b.F(1) != 0
-			s.EnableWarpedMotion = b.F(1) != 0
-			s.EnableDualFilter = b.F(1) != 0
-			s.EnableOrderHint = b.F(1) != 0
-			if s.EnableOrderHint {
-				s.EnableJntComp = b.F(1) != 0
-				s.EnableRefFrameMvs = b.F(1) != 0
-			}
+	// SELECT_SCREEN_CONTENT_TOOLS
+	s.SeqForceScreenContentTools = 2
 
-			s.SeqChooseScreenContentTools = b.F(1) != 0
-			if s.SeqChooseScreenContentTools {
-				s.SeqForceScreenContentTools = 2
-			} else {
-				s.SeqForceScreenContentTools = b.F(1)
-			}
+	// SELECT_INTEGER_MV
+	s.SeqForceIntegerMv = 2
 
-			if s.SeqForceScreenContentTools > 0 {
-				seqChooseIntegerMv := b.F(1) != 0
+	s.OrderHintBits = 0
 
-				if seqChooseIntegerMv {
-					s.SeqForceIntegerMv = 2
-				} else {
-					s.SeqForceIntegerMv = b.F(1)
-				}
-			} else {
+	if !s.ReducedStillPictureHeader {
+		s.EnableInterIntraCompound = b.F(1) != 0
+		s.EnableMaskedCompound = b.F(1) != 0
+		s.EnableWarpedMotion = b.F(1) != 0
+		s.EnableDualFilter = b.F(1) != 0
+		s.EnableOrderHint = b.F(1) != 0
+		if s.EnableOrderHint {
+			s.EnableJntComp = b.F(1) != 0
+			s.EnableRefFrameMvs = b.F(1) != 0
+		}
+
+		s.SeqChooseScreenContentTools = b.F(1) != 0
+		if s.SeqChooseScreenContentTools {
+			s.SeqForceScreenContentTools = 2
+		} else {
+			s.SeqForceScreenContentTools = b.F(1)
+		}
+
+		if s.SeqForceScreenContentTools > 0 {
+			s.SeqChooseIntegerMv = b.F(1) != 0
+
+			if s.SeqChooseIntegerMv {
 				s.SeqForceIntegerMv = 2
+			} else {
+				s.SeqForceIntegerMv = b.F(1)
 			}
+		} else {
+			s.SeqForceIntegerMv = 2
+		}
 
-			if s.EnableOrderHint {
-				s.OrderHintBits = b.F(3) + 1
-			}
+		if s.EnableOrderHint {
+			s.OrderHintBits = b.F(3) + 1
 		}
 	}
 
-- 
2.43.0


From 368b30967820959ae1481a1103cfbbe1dabb6d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:01 +0000
Subject: [PATCH 009/163] fix: decoder state (operating point, reference
 frames) was forgotten at every frame unit

---
 internal/parser/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index 0d9035c..d472fc9 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -15,6 +15,7 @@ type Parser struct {
 	bitStream          *bitstream.BitStream
 	SequenceHeader     sequenceheader.SequenceHeader
 	UncompressedHeader uncompressedheader.UncompressedHeader
+	state              state.State
 	obus               []obu.Obu
 }
 
@@ -38,14 +39,13 @@ func (p *Parser) temporalUnit(sz int) {
 
 // frame_unit( sz )
 func (p *Parser) frameUnit(sz int) {
-	state := state.State{}
 	for sz > 0 {
 		obuLength := p.bitStream.Leb128()
 		sz -= p.bitStream.Leb128Bytes
 
 		logger.Logger.Info("Starting obu parsing process...", zap.Int("sz", sz))
 
-		o := obu.NewObu(obuLength, &state, p.bitStream, p.SequenceHeader, p.UncompressedHeader)
+		o := obu.NewObu(obuLength, &p.state, p.bitStream, p.SequenceHeader, p.UncompressedHeader)
 		p.obus = append(p.obus, o)
 
 		switch o.Header.Type {
-- 
2.43.0


From a43614ddff6d79589bc78e69275a4c63b2cf4514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:01 +0000
Subject: [PATCH 010/163] fix: the frame header of a frame OBU was not kept for
 the tile group OBUs that follow it

---
 internal/parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index d472fc9..137611e 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -51,7 +51,7 @@ func (p *Parser) frameUnit(sz int) {
 		switch o.Header.Type {
 		case header.OBU_SEQUENCE_HEADER:
 			p.SequenceHeader = o.SequenceHeader
-		case header.OBU_FRAME_HEADER:
+		case header.OBU_FRAME_HEADER, header.OBU_FRAME:
 			p.UncompressedHeader = o.UncompressedHeader
 		}
 
-- 
2.43.0


From de265990f064208a13a1ac51d16d3ebdd0913449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:01 +0000
Subject: [PATCH 011/163] fix: padding OBU stopped at the first zero padding
 byte or ran past the OBU

---
 internal/obu/obu.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/internal/obu/obu.go b/internal/obu/obu.go
index d044376..d7d11c9 100644
--- a/internal/obu/obu.go
+++ b/internal/obu/obu.go
@@ -134,10 +134,11 @@ func FrameHeaderCopy() uncompressedheader.UncompressedHeader {
 
 // padding_obu( )
 func (o *Obu) paddingObu(b *bitstream.BitStream) {
-	obuPaddingByte := 1
-	for obuPaddingByte != 0 {
-		obuPaddingByte = b.F(8)
+	// the last non-zero byte holds the trailing bits
+	length := o.Size
+	for length > 0 && b.Data[b.Position/8+length-1] == 0 {
+		length--
 	}
 
-	b.Position -= 8
+	b.Position += util.Max(length-1, 0) * 8
 }
-- 
2.43.0


From d86b599689219a36df02071093ac3f9524e92afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:02 +0000
Subject: [PATCH 012/163] fix: metadata and reserved OBU types panicked instead
 of being ignored

---
 internal/obu/obu.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/obu/obu.go b/internal/obu/obu.go
index d7d11c9..fcac39f 100644
--- a/internal/obu/obu.go
+++ b/internal/obu/obu.go
@@ -74,8 +74,12 @@ func (o *Obu) build(sz int, b *bitstream.BitStream, state *state.State) {
 		o.paddingObu(b)
 	case header.OBU_TILE_GROUP:
 		o.TileGroup = tilegroup.NewTileGroup(o.Size, b, state, o.UncompressedHeader, o.SequenceHeader)
-	default:
+	case header.OBU_TILE_LIST:
 		panic("not implemented")
+	default:
+		// metadata and reserved OBUs do not affect the decoding process
+		b.Position = b.Position + o.Size*8
+		return
 	}
 
 	payloadBits := b.Position - startPosition
-- 
2.43.0


From 1dca99ec711f9c1faf57acbe9a8849f5521ae418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:08 +0000
Subject: [PATCH 013/163] fix: with 128x128 superblocks the number of
 superblock rows overwrote the number of columns

---
 internal/tileinfo/tile_info.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tileinfo/tile_info.go b/internal/tileinfo/tile_info.go
index 1a9cd19..3bbcf17 100644
--- a/internal/tileinfo/tile_info.go
+++ b/internal/tileinfo/tile_info.go
@@ -22,7 +22,7 @@ func NewTileInfo(sh sequenceheader.SequenceHeader, s *state.State, b *bitstream.
 
 	sbRows := (s.MiRows + 15) >> 4
 	if sh.Use128x128SuperBlock {
-		sbCols = (s.MiRows + 31) >> 5
+		sbRows = (s.MiRows + 31) >> 5
 	}
 
 	sbShift := 4
-- 
2.43.0


From b41e3199d35dd73c0c4b84930de75d10b2706b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:08 +0000
Subject: [PATCH 014/163] fix: uniform tile row increments were never read

---
 internal/tileinfo/tile_info.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tileinfo/tile_info.go b/internal/tileinfo/tile_info.go
index 3bbcf17..fcf37a4 100644
--- a/internal/tileinfo/tile_info.go
+++ b/internal/tileinfo/tile_info.go
@@ -67,7 +67,7 @@ func NewTileInfo(sh sequenceheader.SequenceHeader, s *state.State, b *bitstream.
 
 		minLog2TileRows := util.Max(minLog2Tiles-s.TileColsLog2, 0)
 		s.TileRowsLog2 = minLog2TileRows
-		for s.TileRowsLog2 > maxLog2TileRows {
+		for s.TileRowsLog2 < maxLog2TileRows {
 			incrementTileRowsLog2 := b.F(1) != 0
 			if incrementTileRowsLog2 {
 				s.TileRowsLog2++
-- 
2.43.0


From d9e410991f64ce6bbd28dcd079e2fda8aa5716d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:09 +0000
Subject: [PATCH 015/163] fix: repeated and redundant frame headers panicked
 instead of copying the previous header

---
 internal/obu/obu.go     | 10 ++++++----
 internal/state/state.go |  1 +
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/internal/obu/obu.go b/internal/obu/obu.go
index fcac39f..246743f 100644
--- a/internal/obu/obu.go
+++ b/internal/obu/obu.go
@@ -112,11 +112,13 @@ func (o *Obu) newFrame(sz int, b *bitstream.BitStream, state *state.State, h hea
 // frame_header_obu()
 func (o *Obu) ParseFrameHeader(b *bitstream.BitStream, state *state.State, h header.Header, sh sequenceheader.SequenceHeader) uncompressedheader.UncompressedHeader {
 	if state.SeenFrameHeader {
-		return FrameHeaderCopy()
+		return o.FrameHeaderCopy(b, state)
 	} else {
 		state.SeenFrameHeader = true
 
+		startBitPos := b.Position
 		uncompressedHeader := uncompressedheader.NewUncompressedHeader(h, sh, b, state)
+		state.FrameHeaderBits = b.Position - startBitPos
 
 		if uncompressedHeader.ShowExistingFrame {
 			uncompressedHeader.DecodeFrameWrapup()
@@ -131,9 +133,9 @@ func (o *Obu) ParseFrameHeader(b *bitstream.BitStream, state *state.State, h hea
 }
 
 // frame_header_copy()
-func FrameHeaderCopy() uncompressedheader.UncompressedHeader {
-	panic("not implemented")
-	return uncompressedheader.UncompressedHeader{}
+func (o *Obu) FrameHeaderCopy(b *bitstream.BitStream, state *state.State) uncompressedheader.UncompressedHeader {
+	b.Position += state.FrameHeaderBits
+	return o.UncompressedHeader
 }
 
 // padding_obu( )
diff --git a/internal/state/state.go b/internal/state/state.go
index ae5213b..26f5719 100644
--- a/internal/state/state.go
+++ b/internal/state/state.go
@@ -31,6 +31,7 @@ type State struct {
 	BlockHeight       [shared.MAX_TILE_COLS]int
 
 	SeenFrameHeader bool
+	FrameHeaderBits int
 	RenderWidth     int
 	RenderHeight    int
 	TileNum         int
-- 
2.43.0


From b8e4f3fe505dd97777b168981349c3f6c5c77a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:43 +0000
Subject: [PATCH 016/163] fix: show_existing_frame and its refresh flags were
 parsed but not reported in the frame header

---
 internal/uncompressedheader/uncompressed_header.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 517e82d..80126b6 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -25,7 +25,6 @@ type UncompressedHeader struct {
 	ShowableFrame              bool
 	ShowFrame                  bool
 	FrameType                  int
-	RefreshImageFlags          int
 	DisplayFrameId             int
 	FrameIdNumbersPresent      bool
 	AllowHighPrecisionMv       bool
@@ -170,16 +169,16 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 		u.ShowFrame = true
 		u.ShowableFrame = false
 	} else {
-		showExistingFrame := util.Bool(b.F(1))
+		u.ShowExistingFrame = util.Bool(b.F(1))
 
-		if showExistingFrame {
+		if u.ShowExistingFrame {
 			u.FrameToShowMapIdx = b.F(3)
 
 			if sh.DecoderModelInfoPresent && !sh.TimingInfo.EqualPictureInterval {
 				u.TemporalPointInfo(sh, b)
 			}
 
-			u.RefreshImageFlags = 0
+			u.RefreshFrameFlags = 0
 			if sh.FrameIdNumbersPresent {
 				u.DisplayFrameId = b.F(idLen)
 			}
@@ -187,7 +186,7 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 			u.FrameType = s.RefFrameType[u.FrameToShowMapIdx]
 
 			if u.FrameType == shared.KEY_FRAME {
-				u.RefreshImageFlags = allFrames
+				u.RefreshFrameFlags = allFrames
 			}
 
 			if sh.FilmGrainParamsPresent {
-- 
2.43.0


From af2128e386d7ef3ed4c9be133094db8e8fb458a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:43 +0000
Subject: [PATCH 017/163] fix: a shown key frame did not invalidate the
 reference slots

---
 internal/uncompressedheader/uncompressed_header.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 80126b6..8e706bf 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -154,10 +154,6 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 
 	var errorResilientMode bool
 
-	var refValid [shared.NUM_REF_FRAMES]int
-	var refOrderHint [shared.NUM_REF_FRAMES]int
-	var orderHints [shared.REFS_PER_FRAME]int
-
 	bufferRemovalTime := []int{}
 
 	allFrames := ((1 << shared.NUM_REF_FRAMES) - 1)
@@ -221,12 +217,12 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 
 	if u.FrameType == 0 && u.ShowFrame {
 		for i := 0; i < shared.NUM_REF_FRAMES; i++ {
-			refValid[i] = 0
-			refOrderHint[i] = 0
+			s.RefValid[i] = 0
+			s.RefOrderHint[i] = 0
 		}
 
 		for i := 0; i < shared.REFS_PER_FRAME; i++ {
-			orderHints[shared.LAST_FRAME+1] = 0
+			u.OrderHints[shared.LAST_FRAME+i] = 0
 		}
 	}
 
-- 
2.43.0


From a6ec7f01e4ec2b2e2134520fa3e7fa27e48d5fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:43 +0000
Subject: [PATCH 018/163] fix: screen content tools and integer motion vectors
 were forced on whatever value the sequence header forces

---
 internal/uncompressedheader/uncompressed_header.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 8e706bf..d5ae331 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -231,14 +231,14 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 	if sh.SeqForceScreenContentTools == 2 {
 		u.AllowScreenContentTools = b.F(1)
 	} else {
-		u.AllowScreenContentTools = 1
+		u.AllowScreenContentTools = sh.SeqForceScreenContentTools
 	}
 
 	if util.Bool(u.AllowScreenContentTools) {
 		if sh.SeqForceIntegerMv == 2 {
 			u.ForceIntegerMv = util.Bool(b.F(1))
 		} else {
-			u.ForceIntegerMv = true
+			u.ForceIntegerMv = util.Bool(sh.SeqForceIntegerMv)
 		}
 	} else {
 		u.ForceIntegerMv = false
-- 
2.43.0


From 4778b32f673bb2d306bc3de6372ea195d2c93946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:45 +0000
Subject: [PATCH 019/163] fix: frame ids were not kept across frames, so
 marking reference frames panicked

---
 internal/state/state.go                            |  2 ++
 internal/tilegroup/decode_frame_wrapup.go          |  3 ++-
 internal/uncompressedheader/uncompressed_header.go | 10 +++++-----
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/internal/state/state.go b/internal/state/state.go
index 26f5719..67c62e7 100644
--- a/internal/state/state.go
+++ b/internal/state/state.go
@@ -385,6 +385,8 @@ type State struct {
 	SavedCoeffBaseCdf    [][][][]int
 	SavedCoeffBrCdf      [][][][]int
 	RefValid             [shared.NUM_REF_FRAMES]int
+	RefFrameId           [shared.NUM_REF_FRAMES]int
+	CurrentFrameId       int
 
 	Memory [shared.NUM_REF_FRAMES]MemoryArea
 }
diff --git a/internal/tilegroup/decode_frame_wrapup.go b/internal/tilegroup/decode_frame_wrapup.go
index 67a9a05..5cfde5e 100644
--- a/internal/tilegroup/decode_frame_wrapup.go
+++ b/internal/tilegroup/decode_frame_wrapup.go
@@ -107,6 +107,7 @@ func (t *TileGroup) referenceFrameUpdate(state *state.State, uh uncompressedhead
 	for i := 0; i < shared.NUM_REF_FRAMES; i++ {
 		if ((uh.RefreshFrameFlags >> i) & 1) == 1 {
 			state.RefValid[i] = 1
+			state.RefFrameId[i] = uh.CurrentFrameId
 			state.RefUpscaledWidth[i] = uh.UpscaledWidth
 			state.RefFrameWidth[i] = uh.FrameWidth
 			state.RefFrameHeight[i] = uh.FrameHeight
@@ -204,7 +205,7 @@ func saveSegmentationParams(ctx int, state *state.State) {
 func (t *TileGroup) referenceFrameLoadingProcess(state *state.State, u *uncompressedheader.UncompressedHeader, sh *sequenceheader.SequenceHeader) {
 	// where does i really come from?
 	i := u.FrameToShowMapIdx
-	u.CurrentFrameId = u.RefFrameId[i]
+	u.CurrentFrameId = state.RefFrameId[i]
 	u.UpscaledWidth = state.RefUpscaledWidth[u.FrameToShowMapIdx]
 	u.FrameWidth = state.RefFrameWidth[u.FrameToShowMapIdx]
 	u.FrameHeight = state.RefFrameHeight[u.FrameToShowMapIdx]
diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index d5ae331..99e5f6e 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -69,7 +69,6 @@ type UncompressedHeader struct {
 	InterpolationFilter        int
 	PrevFrameId                int
 	CurrentFrameId             int
-	RefFrameId                 []int
 	TileInfo                   tileinfo.TileInfo
 	FramePresentationTime      int
 	PrimaryRefFrame            int
@@ -249,12 +248,13 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 	}
 
 	if sh.FrameIdNumbersPresent {
-		u.PrevFrameId = u.CurrentFrameId
+		u.PrevFrameId = s.CurrentFrameId
 		u.CurrentFrameId = b.F(idLen)
 		u.markRefFrames(idLen, s, sh)
 	} else {
 		u.CurrentFrameId = 0
 	}
+	s.CurrentFrameId = u.CurrentFrameId
 
 	if u.FrameType == SWITCH_FRAME {
 		u.FrameSizeOverrideFlag = true
@@ -470,12 +470,12 @@ func (u *UncompressedHeader) markRefFrames(idLen int, state *state.State, sh seq
 
 	for i := 0; i < shared.NUM_REF_FRAMES; i++ {
 		if u.CurrentFrameId > (1 << diffLen) {
-			if u.RefFrameId[i] > u.CurrentFrameId ||
-				u.RefFrameId[i] < (u.CurrentFrameId-(1<<diffLen)) {
+			if state.RefFrameId[i] > u.CurrentFrameId ||
+				state.RefFrameId[i] < (u.CurrentFrameId-(1<<diffLen)) {
 				state.RefValid[i] = 0
 			}
 		} else {
-			if u.RefFrameId[i] > u.CurrentFrameId && u.RefFrameId[i] < ((1<<idLen)+u.CurrentFrameId-(1<<diffLen)) {
+			if state.RefFrameId[i] > u.CurrentFrameId && state.RefFrameId[i] < ((1<<idLen)+u.CurrentFrameId-(1<<diffLen)) {
 				state.RefValid[i] = 0
 			}
 		}
-- 
2.43.0


From 6524cedb6180d9ea95d4c5dcffdc24bc00665711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:46 +0000
Subject: [PATCH 020/163] fix: buffer removal times panicked and tested the
 wrong spatial layer bit

---
 internal/uncompressedheader/uncompressed_header.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 99e5f6e..d94b11c 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -153,7 +153,7 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 
 	var errorResilientMode bool
 
-	bufferRemovalTime := []int{}
+	bufferRemovalTime := make([]int, sh.OperatingPointsCountMinusOne+1)
 
 	allFrames := ((1 << shared.NUM_REF_FRAMES) - 1)
 	if sh.ReducedStillPictureHeader {
@@ -282,7 +282,7 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 				if sh.DecoderModelPresentForThisOp[opNum] {
 					opPtIdc := sh.OperatingPointIdc[opNum]
 					inTemporalLayer := ((opPtIdc >> h.ExtensionHeader.TemporalID) & 1) != 0
-					inSpatialLayer := ((opPtIdc >> h.ExtensionHeader.SpatialID) & 1) != 0
+					inSpatialLayer := ((opPtIdc >> (h.ExtensionHeader.SpatialID + 8)) & 1) != 0
 
 					if opPtIdc == 0 || (inTemporalLayer && inSpatialLayer) {
 						n := sh.DecoderModelInfo.BufferRemovalTimeLengthMinusOne + 1
-- 
2.43.0


From 43e57a89c465ded41b4f798a22c9fdf613b9296e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:46 +0000
Subject: [PATCH 021/163] fix: every shown frame was taken to refresh all
 reference slots

---
 internal/uncompressedheader/uncompressed_header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index d94b11c..549c551 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -297,7 +297,7 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 
 	u.UseRefFrameMvs = false
 
-	if u.FrameType == 3 || u.FrameType == 0 || u.ShowFrame {
+	if u.FrameType == 3 || u.FrameType == 0 && u.ShowFrame {
 		u.RefreshFrameFlags = allFrames
 	} else {
 		u.RefreshFrameFlags = b.F(8)
-- 
2.43.0


From 0661348afc9818ce3bcc613869c32818912d3998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:46 +0000
Subject: [PATCH 022/163] fix: explicit reference order hints and expected
 frame ids panicked

---
 internal/uncompressedheader/uncompressed_header.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 549c551..669d282 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -293,7 +293,7 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 		}
 	}
 
-	ref_order_hint := []int{}
+	var ref_order_hint [shared.NUM_REF_FRAMES]int
 
 	u.UseRefFrameMvs = false
 
@@ -315,7 +315,7 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 		}
 	}
 
-	expectedFrameId := []int{}
+	var expectedFrameId [shared.REFS_PER_FRAME]int
 
 	if u.FrameIsIntra {
 		u.frameSize(b, s, sh)
-- 
2.43.0


From b664c48d43197ef108c4b195fc6ffb4d9834a1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:46 +0000
Subject: [PATCH 023/163] fix: each reference frame index was read twice

---
 internal/uncompressedheader/uncompressed_header.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 669d282..f68de3a 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -341,7 +341,6 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 		for i := 0; i < shared.REFS_PER_FRAME; i++ {
 			if !frameRefsShortSignaling {
 				u.RefFrameIdx[i] = b.F(3)
-				u.RefFrameIdx[i] = b.F(3)
 			}
 
 			if sh.FrameIdNumbersPresent {
-- 
2.43.0


From 5694d97e3ce773aced96cbce87adb4822b125da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:47 +0000
Subject: [PATCH 024/163] fix: order hints and sign bias of all references were
 written to one slot

---
 internal/uncompressedheader/uncompressed_header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index f68de3a..e312d4f 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -376,7 +376,7 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 		}
 
 		for i := 0; i < shared.REFS_PER_FRAME; i++ {
-			refFrame := shared.LAST_FRAME + 1
+			refFrame := shared.LAST_FRAME + i
 			hint := s.RefOrderHint[u.RefFrameIdx[i]]
 			u.OrderHints[refFrame] = hint
 			if !sh.EnableOrderHint {
-- 
2.43.0


From 2360a0719a7793699e050e662eaa9646d61f8610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:47 +0000
Subject: [PATCH 025/163] fix: relative distance was always zero because it
 tested a flag that is never set

---
 internal/uncompressedheader/uncompressed_header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index e312d4f..ef2e921 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -562,7 +562,7 @@ func (u *UncompressedHeader) readInterpolationFilter(b *bitstream.BitStream) {
 
 // get_relative_dist()
 func (u *UncompressedHeader) GetRelativeDist(a int, b int, sh sequenceheader.SequenceHeader) int {
-	if !u.EnableOrderHint {
+	if !sh.EnableOrderHint {
 		return 0
 	}
 
-- 
2.43.0


From 4a9dc7803d5146b3944669f8647970d02c7d37fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:47 +0000
Subject: [PATCH 026/163] fix: render height defaulted to a value that is never
 set

---
 internal/uncompressedheader/uncompressed_header.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index ef2e921..0ac81aa 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -53,7 +53,6 @@ type UncompressedHeader struct {
 	FrameWidth                 int
 	FrameHeight                int
 	UpscaledWidth              int
-	UpscaledHeight             int
 	FrameSizeOverrideFlag      bool
 	DeltaQYDc                  int
 	DeltaQUAc                  int
@@ -546,7 +545,7 @@ func (u *UncompressedHeader) renderSize(b *bitstream.BitStream) {
 		u.RenderHeight = renderHeightMinusOne + 1
 	} else {
 		u.RenderWidth = u.UpscaledWidth
-		u.RenderHeight = u.UpscaledHeight
+		u.RenderHeight = u.FrameHeight
 	}
 }
 
-- 
2.43.0


From f04c011edfc3b74336038be240bf044a80f3550c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:48 +0000
Subject: [PATCH 027/163] fix: unsigned segmentation features were read as
 signed numbers

---
 internal/uncompressedheader/uncompressed_header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 0ac81aa..281b446 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -734,7 +734,7 @@ func (u *UncompressedHeader) segmentationParams(b *bitstream.BitStream, s *state
 							featureValue = b.Su(1 + bitsToRead)
 							clippedValue = util.Clip3(-limit, limit, featureValue)
 						} else {
-							featureValue = b.Su(bitsToRead)
+							featureValue = b.F(bitsToRead)
 							clippedValue = util.Clip3(0, limit, featureValue)
 
 						}
-- 
2.43.0


From c4f20922633305d75c37dde2312323661f474423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:48 +0000
Subject: [PATCH 028/163] fix: chroma planes used the luma quantizer matrix
 level

---
 internal/uncompressedheader/uncompressed_header.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 281b446..5e404ba 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -435,8 +435,8 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 				u.SegQMLevel[2][segmentId] = 15
 			} else {
 				u.SegQMLevel[0][segmentId] = u.Qmy
-				u.SegQMLevel[1][segmentId] = u.Qmy
-				u.SegQMLevel[2][segmentId] = u.Qmy
+				u.SegQMLevel[1][segmentId] = u.Qmu
+				u.SegQMLevel[2][segmentId] = u.Qmv
 			}
 		}
 	}
-- 
2.43.0


From 09fc4705b0f520d1a0fe6d6976b1deb319da7216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:48 +0000
Subject: [PATCH 029/163] fix: the segment quantizer offset was dropped when
 delta q is in use

---
 internal/uncompressedheader/uncompressed_header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 5e404ba..97bdd43 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -813,7 +813,7 @@ func (u *UncompressedHeader) GetQIndex(ignoreDeltaQ int, segmentId int, s *state
 		qindex := u.BaseQIdx + data
 
 		if ignoreDeltaQ == 0 && u.DeltaQPresent {
-			qindex = s.CurrentQIndex
+			qindex = s.CurrentQIndex + data
 		}
 
 		return util.Clip3(0, 255, qindex)
-- 
2.43.0


From b9501419e158d6400622992ca74c2f8f92b1f6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:49 +0000
Subject: [PATCH 030/163] fix: the horizontal loop filter level of a lossless
 frame was 1

---
 internal/uncompressedheader/uncompressed_header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 97bdd43..60e6a4d 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -836,7 +836,7 @@ func (u *UncompressedHeader) segFeatureActiveIdx(idx int, feature int, s *state.
 func (u *UncompressedHeader) loopFilterParams(b *bitstream.BitStream, sh sequenceheader.SequenceHeader) {
 	if u.CodedLossless || u.AllowIntraBc {
 		u.LoopFilterLevel[0] = 0
-		u.LoopFilterLevel[1] = 1
+		u.LoopFilterLevel[1] = 0
 		u.LoopFilterRefDeltas[shared.INTRA_FRAME] = 1
 		u.LoopFilterRefDeltas[shared.LAST_FRAME] = 0
 		u.LoopFilterRefDeltas[shared.LAST2_FRAME] = 0
-- 
2.43.0


From 5f727dbb11fe61530b5295c65f9fa08d146bf4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:49 +0000
Subject: [PATCH 031/163] fix: loop filter sharpness was read with 6 bits
 instead of 3

---
 internal/uncompressedheader/uncompressed_header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 60e6a4d..c3694f4 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -862,7 +862,7 @@ func (u *UncompressedHeader) loopFilterParams(b *bitstream.BitStream, sh sequenc
 		}
 	}
 
-	u.LoopFilterSharpness = b.F(6)
+	u.LoopFilterSharpness = b.F(3)
 	u.LoopFilterDeltaEnabled = util.Bool(b.F(1))
 
 	if u.LoopFilterDeltaEnabled {
-- 
2.43.0


From 4c8989066410c7b09978c5967553c3ae2209b6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:32 +0000
Subject: [PATCH 032/163] fix: the sign bias table had room for 3 of the 8
 references

---
 internal/uncompressedheader/uncompressed_header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index c3694f4..613c828 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -133,7 +133,7 @@ type UncompressedHeader struct {
 	ClipToRestrictedRange bool
 	RefreshFrameFlags     int
 	FrameToShowMapIdx     int
-	RefFrameSignBias      [3]bool
+	RefFrameSignBias      [shared.NUM_REF_FRAMES]bool
 }
 
 func NewUncompressedHeader(h header.Header, sh sequenceheader.SequenceHeader, b *bitstream.BitStream, s *state.State) UncompressedHeader {
-- 
2.43.0


From 4e6ce2f63bd5fa5aa4522422804c04c983641e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:33 +0000
Subject: [PATCH 033/163] fix: skip mode was allowed only without order hints,
 took the farthest backward reference and had no room for its frames

---
 internal/uncompressedheader/uncompressed_header.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 613c828..a7b6864 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -84,7 +84,7 @@ type UncompressedHeader struct {
 	RefFrameIdx                [7]int
 	OrderHint                  int
 	OrderHints                 [8]int
-	SkipModeFrame              []int
+	SkipModeFrame              [2]int
 	SkipModePresent            int
 	SegQMLevel                 [3][shared.MAX_SEGMENTS]int
 	DisableCdfUpdate           bool
@@ -1008,7 +1008,7 @@ func (u *UncompressedHeader) skipModeParams(state *state.State, b *bitstream.Bit
 	var skipModeAllowed = 0
 	var forwardHint int
 	var backwardHint int
-	if u.FrameIsIntra || u.ReferenceSelect || u.EnableOrderHint {
+	if u.FrameIsIntra || !u.ReferenceSelect || !sh.EnableOrderHint {
 		skipModeAllowed = 0
 	} else {
 		forwardIdx := -1
@@ -1023,7 +1023,7 @@ func (u *UncompressedHeader) skipModeParams(state *state.State, b *bitstream.Bit
 					forwardHint = refHint
 				}
 			} else if u.GetRelativeDist(refHint, u.OrderHint, sh) > 0 {
-				if backwardIdx < 0 || u.GetRelativeDist(refHint, backwardHint, sh) > 0 {
+				if backwardIdx < 0 || u.GetRelativeDist(refHint, backwardHint, sh) < 0 {
 					backwardIdx = i
 					backwardHint = refHint
 				}
-- 
2.43.0


From d92306d8675aa0a17b0a3bc6d4909c1a3ab639f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:34 +0000
Subject: [PATCH 034/163] fix: global motion parameters were never read

---
 .../uncompressedheader/uncompressed_header.go   | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index a7b6864..01a2fc8 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -1104,6 +1104,23 @@ func (u *UncompressedHeader) globalMotionParams(b *bitstream.BitStream, s *state
 			typ = shared.IDENTITY
 		}
 		s.GmType[ref] = typ
+
+		if typ >= shared.ROTZOOM {
+			u.readGlobalParam(typ, ref, 2, b, s)
+			u.readGlobalParam(typ, ref, 3, b, s)
+			if typ == shared.AFFINE {
+				u.readGlobalParam(typ, ref, 4, b, s)
+				u.readGlobalParam(typ, ref, 5, b, s)
+			} else {
+				u.GmParams[ref][4] = -u.GmParams[ref][3]
+				u.GmParams[ref][5] = u.GmParams[ref][2]
+			}
+		}
+
+		if typ >= shared.TRANSLATION {
+			u.readGlobalParam(typ, ref, 0, b, s)
+			u.readGlobalParam(typ, ref, 1, b, s)
+		}
 	}
 
 }
-- 
2.43.0


From cbeeea8bae0aa2a49012dacce314b207569f329c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:36 +0000
Subject: [PATCH 035/163] fix: global motion deltas were decoded as unsigned
 values

---
 internal/uncompressedheader/uncompressed_header.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 01a2fc8..88b0e77 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -1157,10 +1157,14 @@ func (u *UncompressedHeader) readGlobalParam(typ int, ref int, idx int, b *bitst
 
 	mx := 1 << absBits
 	r := (s.PrevGmParams[ref][idx] >> precDiff) - sub
-	u.GmParams[ref][idx] = (u.decodeSignedSubexpWithRef(mx, r, b) << precDiff) + round
+	u.GmParams[ref][idx] = (u.decodeSignedSubexpWithRef(-mx, mx+1, r, b) << precDiff) + round
 }
 
-func (u *UncompressedHeader) decodeSignedSubexpWithRef(mx int, r int, b *bitstream.BitStream) int {
+func (u *UncompressedHeader) decodeSignedSubexpWithRef(low int, high int, r int, b *bitstream.BitStream) int {
+	return u.decodeUnsignedSubexpWithRef(high-low, r-low, b) + low
+}
+
+func (u *UncompressedHeader) decodeUnsignedSubexpWithRef(mx int, r int, b *bitstream.BitStream) int {
 	v := u.decodeSubexp(mx, b)
 	if (r << 1) <= mx {
 		return util.InverseRecenter(r, v)
-- 
2.43.0


From e6f15d790bd276c6964cead55f2f1e7c823f035e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:37 +0000
Subject: [PATCH 036/163] fix: loading the previous segment ids panicked

---
 .../uncompressedheader/uncompressed_header.go    | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 88b0e77..cc7793a 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -415,7 +415,7 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 
 		initCoeffCdfs(s, *u)
 	} else {
-		u.loadPreviousSegementIds()
+		u.loadPreviousSegementIds(s)
 	}
 
 	u.CodedLossless = true
@@ -802,8 +802,18 @@ func (u *UncompressedHeader) deltaLfParams(b *bitstream.BitStream) {
 	}
 }
 
-func (u *UncompressedHeader) loadPreviousSegementIds() {
-	panic("not implemented")
+// load_previous_segment_ids()
+func (u *UncompressedHeader) loadPreviousSegementIds(s *state.State) {
+	prevFrame := u.RefFrameIdx[u.PrimaryRefFrame]
+	load := u.SegmentationEnabled && s.RefMiCols[prevFrame] == s.MiCols && s.RefMiRows[prevFrame] == s.MiRows
+
+	s.PrevSegmentIds = make([][]int, s.MiRows)
+	for row := range s.PrevSegmentIds {
+		s.PrevSegmentIds[row] = make([]int, s.MiCols)
+		for col := 0; load && col < s.MiCols; col++ {
+			s.PrevSegmentIds[row][col] = s.SavedSegmentIds[prevFrame][row][col]
+		}
+	}
 }
 
 // get_qindex( ignoreDeltaQ, segmentId )
-- 
2.43.0


From 5bcab59ef021f909e43701c87f7cb67da8488ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:38 +0000
Subject: [PATCH 037/163] fix: frame size taken from a reference panicked

---
 .../uncompressedheader/uncompressed_header.go | 23 ++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index cc7793a..5837f1b 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -351,7 +351,7 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 		}
 
 		if u.FrameSizeOverrideFlag && !errorResilientMode {
-			u.frameSizeWithRefs()
+			u.frameSizeWithRefs(b, s, sh)
 		} else {
 			u.frameSize(b, s, sh)
 			u.renderSize(b)
@@ -484,8 +484,25 @@ func (u *UncompressedHeader) setFrameRefs() {
 	panic("not implemented")
 }
 
-func (u *UncompressedHeader) frameSizeWithRefs() {
-	panic("not implemented")
+// frame_size_with_refs()
+func (u *UncompressedHeader) frameSizeWithRefs(b *bitstream.BitStream, s *state.State, sh sequenceheader.SequenceHeader) {
+	for i := 0; i < shared.REFS_PER_FRAME; i++ {
+		foundRef := util.Bool(b.F(1))
+		if foundRef {
+			ref := u.RefFrameIdx[i]
+			u.UpscaledWidth = s.RefUpscaledWidth[ref]
+			u.FrameWidth = u.UpscaledWidth
+			u.FrameHeight = s.RefFrameHeight[ref]
+			u.RenderWidth = s.RefRenderWidth[ref]
+			u.RenderHeight = s.RefRenderHeight[ref]
+			u.superResParams(b, sh)
+			u.computeImageSize(s)
+			return
+		}
+	}
+
+	u.frameSize(b, s, sh)
+	u.renderSize(b)
 }
 
 // frame_size()
-- 
2.43.0


From e6adc105a45d82bfd7537089bc66a82fc242c0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 038/163] fix: short signaling of reference frames panicked

---
 .../uncompressedheader/uncompressed_header.go | 63 ++++++++++++++++++-
 1 file changed, 60 insertions(+), 3 deletions(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 5837f1b..2e2aa0a 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -333,7 +333,7 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 			if frameRefsShortSignaling {
 				u.LastFrameIdx = b.F(3)
 				u.GoldFrameIdx = b.F(3)
-				u.setFrameRefs()
+				u.setFrameRefs(s, sh)
 			}
 		}
 
@@ -480,8 +480,65 @@ func (u *UncompressedHeader) markRefFrames(idLen int, state *state.State, sh seq
 	}
 }
 
-func (u *UncompressedHeader) setFrameRefs() {
-	panic("not implemented")
+// 7.8 Set frame refs process
+func (u *UncompressedHeader) setFrameRefs(s *state.State, sh sequenceheader.SequenceHeader) {
+	for i := range u.RefFrameIdx {
+		u.RefFrameIdx[i] = -1
+	}
+	u.RefFrameIdx[0] = u.LastFrameIdx
+	u.RefFrameIdx[shared.GOLDEN_FRAME-shared.LAST_FRAME] = u.GoldFrameIdx
+
+	var usedFrame [shared.NUM_REF_FRAMES]bool
+	usedFrame[u.LastFrameIdx] = true
+	usedFrame[u.GoldFrameIdx] = true
+
+	curFrameHint := 1 << (sh.OrderHintBits - 1)
+	var shiftedOrderHints [shared.NUM_REF_FRAMES]int
+	for i := range shiftedOrderHints {
+		shiftedOrderHints[i] = curFrameHint + u.GetRelativeDist(s.RefOrderHint[i], u.OrderHint, sh)
+	}
+
+	// the unused reference on one side of the current frame that better() prefers
+	find := func(backward bool, better func(hint int, best int) bool) int {
+		ref := -1
+		for i, hint := range shiftedOrderHints {
+			if !usedFrame[i] && (hint >= curFrameHint) == backward &&
+				(ref < 0 || better(hint, shiftedOrderHints[ref])) {
+				ref = i
+			}
+		}
+		return ref
+	}
+	latest := func(hint int, best int) bool { return hint >= best }
+	earliest := func(hint int, best int) bool { return hint < best }
+	assign := func(refFrame int, ref int) {
+		if ref >= 0 {
+			u.RefFrameIdx[refFrame-shared.LAST_FRAME] = ref
+			usedFrame[ref] = true
+		}
+	}
+
+	assign(shared.ALTREF_FRAME, find(true, latest))
+	assign(shared.BWDREF_FRAME, find(true, earliest))
+	assign(shared.ALTREF2_FRAME, find(true, earliest))
+
+	for _, refFrame := range []int{shared.LAST2_FRAME, shared.LAST3_FRAME, shared.BWDREF_FRAME, shared.ALTREF2_FRAME, shared.ALTREF_FRAME} {
+		if u.RefFrameIdx[refFrame-shared.LAST_FRAME] < 0 {
+			assign(refFrame, find(false, latest))
+		}
+	}
+
+	ref := 0
+	for i, hint := range shiftedOrderHints {
+		if hint < shiftedOrderHints[ref] {
+			ref = i
+		}
+	}
+	for i := range u.RefFrameIdx {
+		if u.RefFrameIdx[i] < 0 {
+			u.RefFrameIdx[i] = ref
+		}
+	}
 }
 
 // frame_size_with_refs()
-- 
2.43.0


From 429511f3167f61e1514bd436afd02102de5f7b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:37 +0000
Subject: [PATCH 039/163] fix: film grain parameters were not saved with a
 frame and loading them panicked

---
 internal/state/state.go                       | 28 ++++++++
 internal/tilegroup/decode_frame_wrapup.go     | 10 +--
 .../uncompressedheader/uncompressed_header.go | 66 +++++++++++++++++--
 3 files changed, 90 insertions(+), 14 deletions(-)

diff --git a/internal/state/state.go b/internal/state/state.go
index 67c62e7..119bb77 100644
--- a/internal/state/state.go
+++ b/internal/state/state.go
@@ -88,6 +88,7 @@ type State struct {
 	SavedLoopFilterRefDeltas  [shared.NUM_REF_FRAMES][8]int
 	SavedLoopFilterModeDeltas [shared.NUM_REF_FRAMES][2]int
 	SavedFeatureEnabled       [shared.NUM_REF_FRAMES][shared.MAX_SEGMENTS][shared.SEG_LVL_MAX]int
+	SavedGrainParams          [shared.NUM_REF_FRAMES]GrainParams
 	SavedFeatureData          [shared.NUM_REF_FRAMES][shared.MAX_SEGMENTS][shared.SEG_LVL_MAX]int
 
 	TxbSkipCdf      [][][]int
@@ -391,6 +392,33 @@ type State struct {
 	Memory [shared.NUM_REF_FRAMES]MemoryArea
 }
 
+type GrainParams struct {
+	ApplyGrain            bool
+	GrainSeed             int
+	PointYValue           []int
+	PointYScaling         []int
+	ChromaScalingFromLuna bool
+	PointCbValue          []int
+	PointCbScaling        []int
+	PointCrValue          []int
+	PointCrScaling        []int
+	GrainScalingMinus8    int
+	ArCoeffLag            int
+	ArCoeffsYPlus128      []int
+	ArCoeffsCbPlus128     []int
+	ArCoeffsCrPlus128     []int
+	ArCoeffShiftMinus6    int
+	GrainScaleShift       int
+	CbMult                int
+	CbLumaMult            int
+	CbOffset              int
+	CrMult                int
+	CrLumaMult            int
+	CrOffset              int
+	OverlapFlag           bool
+	ClipToRestrictedRange bool
+}
+
 type MemoryArea struct {
 	TxbSkipCdf      [][][]int
 	EobPt16Cdf      [][][]int
diff --git a/internal/tilegroup/decode_frame_wrapup.go b/internal/tilegroup/decode_frame_wrapup.go
index 5cfde5e..61a9ea3 100644
--- a/internal/tilegroup/decode_frame_wrapup.go
+++ b/internal/tilegroup/decode_frame_wrapup.go
@@ -167,7 +167,7 @@ func (t *TileGroup) referenceFrameUpdate(state *state.State, uh uncompressedhead
 			uncompressedheader.SaveCdfs(i, state)
 
 			if sh.FilmGrainParamsPresent {
-				saveGrainParams(i)
+				uh.SaveGrainParams(i, state)
 			}
 
 			saveLoopFilterParams(i, state, uh)
@@ -183,12 +183,6 @@ func (t *TileGroup) referenceFrameUpdate(state *state.State, uh uncompressedhead
 
 }
 
-// save_grain_params( i )
-func saveGrainParams(ctx int) {
-	// TODO: implement
-	//panic("not implemented")
-}
-
 // save_loop_filter_params( i )
 func saveLoopFilterParams(ctx int, state *state.State, uh uncompressedheader.UncompressedHeader) {
 	state.SavedLoopFilterRefDeltas[ctx] = uh.LoopFilterRefDeltas
@@ -266,7 +260,7 @@ func (t *TileGroup) referenceFrameLoadingProcess(state *state.State, u *uncompre
 	uncompressedheader.LoadCdfs(u.FrameToShowMapIdx, state)
 
 	if sh.FilmGrainParamsPresent {
-		u.LoadGrainParams(u.FrameToShowMapIdx)
+		u.LoadGrainParams(u.FrameToShowMapIdx, state)
 	}
 
 	u.LoadLoopFilterParams(u.FrameToShowMapIdx, state)
diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 2e2aa0a..6c1115a 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -184,7 +184,7 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 			}
 
 			if sh.FilmGrainParamsPresent {
-				u.LoadGrainParams(u.FrameToShowMapIdx)
+				u.LoadGrainParams(u.FrameToShowMapIdx, s)
 			}
 
 			return
@@ -459,7 +459,7 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 	u.ReducedTxSet = util.Bool(b.F(1))
 
 	u.globalMotionParams(b, s)
-	u.filmGrainParams(b, sh)
+	u.filmGrainParams(b, s, sh)
 }
 
 // mark_ref_frames( idLen)
@@ -1287,7 +1287,7 @@ func (u *UncompressedHeader) decodeSubexp(numSyms int, b *bitstream.BitStream) i
 }
 
 // film_grain_params()
-func (u *UncompressedHeader) filmGrainParams(b *bitstream.BitStream, sh sequenceheader.SequenceHeader) {
+func (u *UncompressedHeader) filmGrainParams(b *bitstream.BitStream, s *state.State, sh sequenceheader.SequenceHeader) {
 	if !sh.FilmGrainParamsPresent || (!u.ShowFrame && !u.ShowableFrame) {
 		u.resetGrainParams()
 		return
@@ -1311,7 +1311,7 @@ func (u *UncompressedHeader) filmGrainParams(b *bitstream.BitStream, sh sequence
 	if !updateGrain {
 		filmGrainParamsRefIdx := b.F(3)
 		tempGrainSeed := u.GrainSeed
-		u.LoadGrainParams(filmGrainParamsRefIdx)
+		u.LoadGrainParams(filmGrainParamsRefIdx, s)
 		u.GrainSeed = tempGrainSeed
 		return
 	}
@@ -1445,6 +1445,60 @@ func (u *UncompressedHeader) TemporalPointInfo(sh sequenceheader.SequenceHeader,
 }
 
 // load_grain_params( idx )
-func (u *UncompressedHeader) LoadGrainParams(idx int) {
-	panic("not implemented")
+func (u *UncompressedHeader) LoadGrainParams(idx int, s *state.State) {
+	g := s.SavedGrainParams[idx]
+	u.ApplyGrain = g.ApplyGrain
+	u.GrainSeed = g.GrainSeed
+	u.PointYValue = g.PointYValue
+	u.PointYScaling = g.PointYScaling
+	u.ChromaScalingFromLuna = g.ChromaScalingFromLuna
+	u.PointCbValue = g.PointCbValue
+	u.PointCbScaling = g.PointCbScaling
+	u.PointCrValue = g.PointCrValue
+	u.PointCrScaling = g.PointCrScaling
+	u.GrainScalingMinus8 = g.GrainScalingMinus8
+	u.ArCoeffLag = g.ArCoeffLag
+	u.ArCoeffsYPlus128 = g.ArCoeffsYPlus128
+	u.ArCoeffsCbPlus128 = g.ArCoeffsCbPlus128
+	u.ArCoeffsCrPlus128 = g.ArCoeffsCrPlus128
+	u.ArCoeffShiftMinus6 = g.ArCoeffShiftMinus6
+	u.GrainScaleShift = g.GrainScaleShift
+	u.CbMult = g.CbMult
+	u.CbLumaMult = g.CbLumaMult
+	u.CbOffset = g.CbOffset
+	u.CrMult = g.CrMult
+	u.CrLumaMult = g.CrLumaMult
+	u.CrOffset = g.CrOffset
+	u.OverlapFlag = g.OverlapFlag
+	u.ClipToRestrictedRange = g.ClipToRestrictedRange
+}
+
+// save_grain_params( i )
+func (u *UncompressedHeader) SaveGrainParams(i int, s *state.State) {
+	s.SavedGrainParams[i] = state.GrainParams{
+		ApplyGrain:            u.ApplyGrain,
+		GrainSeed:             u.GrainSeed,
+		PointYValue:           u.PointYValue,
+		PointYScaling:         u.PointYScaling,
+		ChromaScalingFromLuna: u.ChromaScalingFromLuna,
+		PointCbValue:          u.PointCbValue,
+		PointCbScaling:        u.PointCbScaling,
+		PointCrValue:          u.PointCrValue,
+		PointCrScaling:        u.PointCrScaling,
+		GrainScalingMinus8:    u.GrainScalingMinus8,
+		ArCoeffLag:            u.ArCoeffLag,
+		ArCoeffsYPlus128:      u.ArCoeffsYPlus128,
+		ArCoeffsCbPlus128:     u.ArCoeffsCbPlus128,
+		ArCoeffsCrPlus128:     u.ArCoeffsCrPlus128,
+		ArCoeffShiftMinus6:    u.ArCoeffShiftMinus6,
+		GrainScaleShift:       u.GrainScaleShift,
+		CbMult:                u.CbMult,
+		CbLumaMult:            u.CbLumaMult,
+		CbOffset:              u.CbOffset,
+		CrMult:                u.CrMult,
+		CrLumaMult:            u.CrLumaMult,
+		CrOffset:              u.CrOffset,
+		OverlapFlag:           u.OverlapFlag,
+		ClipToRestrictedRange: u.ClipToRestrictedRange,
+	}
 }
-- 
2.43.0


From 497f1a93592aa3ac2d6477fcaf35de56b07e8998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 040/163] fix: per-frame storage had room for a 9x9 to 256x256
 frame, and was lost between the tile groups of a frame

---
 internal/state/state.go                   | 56 ++++++++++++++++------
 internal/state/storage.go                 | 57 +++++++++++++++++++++++
 internal/tilegroup/cdef.go                |  1 +
 internal/tilegroup/decode_frame_wrapup.go | 22 ++++++---
 internal/tilegroup/loop_restoration.go    |  2 +-
 internal/tilegroup/output.go              |  6 +--
 internal/tilegroup/predict_inter.go       |  6 +--
 internal/tilegroup/tile_group.go          | 54 ++++++++-------------
 internal/tilegroup/util.go                | 15 ++++++
 9 files changed, 158 insertions(+), 61 deletions(-)
 create mode 100644 internal/state/storage.go

diff --git a/internal/state/state.go b/internal/state/state.go
index 119bb77..bb297dc 100644
--- a/internal/state/state.go
+++ b/internal/state/state.go
@@ -38,14 +38,14 @@ type State struct {
 	MiCol           int
 	MiRow           int
 	MiSize          int
-	MiSizes         [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
+	MiSizes         [][]int
 	DeltaLF         [shared.FRAME_LF_COUNT]int
-	DeltaLFs        [2][2][4]int
+	DeltaLFs        [][][shared.FRAME_LF_COUNT]int
 	RefLrWiener     [][][]int
 	ReadDeltas      bool
 	Cdef            cdef.Cdef
 
-	BlockDecoded           [3][13][13]bool
+	BlockDecoded           [3][34][34]bool
 	FrameRestorationType   []int
 	LoopRestorationSize    [3]int
 	AvailU                 bool
@@ -53,7 +53,7 @@ type State struct {
 	AvailUChroma           bool
 	AvailLChroma           bool
 	RefFrame               [2]int
-	RefFrames              [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS][2]int
+	RefFrames              [][][2]int
 	RefFrameWidth          [shared.NUM_REF_FRAMES]int
 	RefFrameHeight         [shared.NUM_REF_FRAMES]int
 	RefRenderWidth         [shared.NUM_REF_FRAMES]int
@@ -65,7 +65,7 @@ type State struct {
 	RefBitDepth            [shared.NUM_REF_FRAMES]int
 	RefUpscaledWidth       [8]int
 	SavedOrderHints        [shared.NUM_REF_FRAMES][shared.REFS_PER_FRAME + shared.LAST_FRAME]int
-	CurrFrame              [3][16][16]int
+	CurrFrame              [3][][]int
 	SymbolMaxBits          int
 	SymbolValue            int
 	SymbolRange            int
@@ -73,17 +73,19 @@ type State struct {
 	Skip                   int
 	IsInter                int
 	CdefSize4              int
-	CdefFrame              [3][16][16]int
-	UpscaledCurrFrame      [3][9][9]int
-	UpscaledCdefFrame      [3][9][9]int
-	LrFrame                [3][9][9]int
+	CdefFrame              [3][][]int
+	UpscaledCurrFrame      [3][][]int
+	UpscaledCdefFrame      [3][][]int
+	LrFrame                [3][][]int
 	TileIntraFrameYModeCdf [][][]int
-	MfMvs                  [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS][2]int
-	SavedMvs               [shared.NUM_REF_FRAMES][shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS][2]int
-	SavedRefFrames         [shared.NUM_REF_FRAMES][shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
-	MfRefFrames            [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
+	MfMvs                  [][][2]int
+	SavedMvs               [shared.NUM_REF_FRAMES][][][2]int
+	SavedRefFrames         [shared.NUM_REF_FRAMES][][]int
+	MfRefFrames            [][]int
 	SavedGmParams          [shared.NUM_REF_FRAMES][shared.ALTREF_FRAME + 1][6]int
-	SavedSegmentIds        [shared.NUM_REF_FRAMES][shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
+	SavedSegmentIds        [shared.NUM_REF_FRAMES][][]int
+	FrameStore             [shared.NUM_REF_FRAMES][3][][]int
+	Blocks                 *Blocks
 
 	SavedLoopFilterRefDeltas  [shared.NUM_REF_FRAMES][8]int
 	SavedLoopFilterModeDeltas [shared.NUM_REF_FRAMES][2]int
@@ -519,3 +521,29 @@ type MemoryArea struct {
 	UseSgrprojCdf      []int
 	RestorationTypeCdf []int
 }
+
+// Blocks holds what is decoded for the blocks of the current frame, by position,
+// for all the tile groups of the frame.
+type Blocks struct {
+	Skips             [][]int
+	SkipModes         [][]int
+	SegmentIds        [][]int
+	YModes            [][]int
+	UVModes           [][]int
+	InterpFilters     [][][2]int
+	IsInters          [][]int
+	Mvs               [][][2][2]int
+	PaletteSizes      [2][][]int
+	PaletteColors     [2][][][]int
+	TxSizes           [][]int
+	InterTxSizes      [][]int
+	TxTypes           [][]int
+	LoopFilterTxSizes [3][][]int
+	CompGroupIdxs     [][]int
+	CompoundIdxs      [][]int
+
+	LrType   [3][][]int
+	LrWiener [3][][][2][3]int
+	LrSgrSet [3][][]int
+	LrSgrXqd [3][][][2]int
+}
diff --git a/internal/state/storage.go b/internal/state/storage.go
new file mode 100644
index 0000000..06732ab
--- /dev/null
+++ b/internal/state/storage.go
@@ -0,0 +1,57 @@
+package state
+
+import "github.com/m4tthewde/gov1/internal/shared"
+
+func grid[T any](rows int, cols int) [][]T {
+	g := make([][]T, rows)
+	for i := range g {
+		g[i] = make([]T, cols)
+	}
+	return g
+}
+
+// AllocateFrame makes room for a new frame of MiRows by MiCols 4x4 units.
+// Blocks may reach beyond the frame by less than the largest block.
+func (s *State) AllocateFrame(upscaledWidth int) {
+	rows := s.MiRows + 32
+	cols := s.MiCols + 32
+
+	s.MiSizes = grid[int](rows, cols)
+	s.DeltaLFs = grid[[shared.FRAME_LF_COUNT]int](rows, cols)
+	s.RefFrames = grid[[2]int](rows, cols)
+	s.MfRefFrames = grid[int](rows, cols)
+	s.MfMvs = grid[[2]int](rows, cols)
+
+	b := &Blocks{
+		Skips:         grid[int](rows, cols),
+		SkipModes:     grid[int](rows, cols),
+		SegmentIds:    grid[int](rows, cols),
+		YModes:        grid[int](rows, cols),
+		UVModes:       grid[int](rows, cols),
+		InterpFilters: grid[[2]int](rows, cols),
+		IsInters:      grid[int](rows, cols),
+		Mvs:           grid[[2][2]int](rows, cols),
+		TxSizes:       grid[int](rows, cols),
+		InterTxSizes:  grid[int](rows, cols),
+		TxTypes:       grid[int](rows, cols),
+		CompGroupIdxs: grid[int](rows, cols),
+		CompoundIdxs:  grid[int](rows, cols),
+	}
+	for i := range b.PaletteSizes {
+		b.PaletteSizes[i] = grid[int](rows, cols)
+		b.PaletteColors[i] = grid[[]int](rows, cols)
+	}
+
+	// restoration units are at least 32 samples wide
+	unitRows := rows / 8
+	unitCols := upscaledWidth/32 + 2
+	for plane := range s.CurrFrame {
+		s.CurrFrame[plane] = grid[int](rows*4, cols*4)
+		b.LoopFilterTxSizes[plane] = grid[int](rows, cols)
+		b.LrType[plane] = grid[int](unitRows, unitCols)
+		b.LrWiener[plane] = grid[[2][3]int](unitRows, unitCols)
+		b.LrSgrSet[plane] = grid[int](unitRows, unitCols)
+		b.LrSgrXqd[plane] = grid[[2]int](unitRows, unitCols)
+	}
+	s.Blocks = b
+}
diff --git a/internal/tilegroup/cdef.go b/internal/tilegroup/cdef.go
index 189cbd7..dc91247 100644
--- a/internal/tilegroup/cdef.go
+++ b/internal/tilegroup/cdef.go
@@ -13,6 +13,7 @@ func (t *TileGroup) cdefProcess(state *state.State, sh sequenceheader.SequenceHe
 	step4 := shared.NUM_4X4_BLOCKS_WIDE[shared.BLOCK_8X8]
 	cdefSize4 := shared.NUM_4X4_BLOCKS_WIDE[shared.BLOCK_64X64]
 	cdefMask4 := ^(cdefSize4 - 1)
+	state.CdefFrame = copyPlanes(state.CurrFrame)
 
 	for r := 0; r < state.MiRows; r += step4 {
 		for c := 0; c < state.MiCols; c += step4 {
diff --git a/internal/tilegroup/decode_frame_wrapup.go b/internal/tilegroup/decode_frame_wrapup.go
index 61a9ea3..74a5d80 100644
--- a/internal/tilegroup/decode_frame_wrapup.go
+++ b/internal/tilegroup/decode_frame_wrapup.go
@@ -9,8 +9,8 @@ import (
 )
 
 // 7.16 Upscaling process
-func (t *TileGroup) upscalingProcess(inputFrame [3][16][16]int, state *state.State, sh sequenceheader.SequenceHeader, uh uncompressedheader.UncompressedHeader) [3][9][9]int {
-	var outputFrame [3][9][9]int
+func (t *TileGroup) upscalingProcess(inputFrame [3][][]int, state *state.State, sh sequenceheader.SequenceHeader, uh uncompressedheader.UncompressedHeader) [3][][]int {
+	var outputFrame [3][][]int
 	for plane := 0; plane < sh.ColorConfig.NumPlanes; plane++ {
 		var subX, subY int
 		if plane > 0 {
@@ -34,7 +34,9 @@ func (t *TileGroup) upscalingProcess(inputFrame [3][16][16]int, state *state.Sta
 		miW := state.MiCols >> subX
 		minX := 0
 		maxX := miW*MI_SIZE - 1
+		outputFrame[plane] = make([][]int, planeH)
 		for y := 0; y < planeH; y++ {
+			outputFrame[plane][y] = make([]int, upscaledPlaneW)
 			for x := 0; x < upscaledPlaneW; x++ {
 				srcX := -(1 << SUPERRES_SCALE_BITS) + initialSubpelX + x*stepX
 				srcXPx := (srcX >> SUPERRES_SCALE_BITS)
@@ -124,20 +126,24 @@ func (t *TileGroup) referenceFrameUpdate(state *state.State, uh uncompressedhead
 				state.SavedOrderHints[i][j+shared.LAST_FRAME] = uh.OrderHints[j+shared.LAST_FRAME]
 			}
 
+			state.FrameStore[i] = copyPlanes(state.LrFrame)
 			for x := 0; x < uh.UpscaledWidth; x++ {
 				for y := 0; y < uh.FrameHeight; y++ {
-					t.FrameStore[i][0][y][x] = state.LrFrame[0][y][x]
+					state.FrameStore[i][0][y][x] = state.LrFrame[0][y][x]
 				}
 			}
 
 			for plane := 1; plane <= 2; plane++ {
 				for x := 0; x < (uh.UpscaledWidth + util.Int(sh.ColorConfig.SubsamplingX)>>util.Int(sh.ColorConfig.SubsamplingX)); x++ {
 					for y := 0; y < (uh.FrameHeight + util.Int(sh.ColorConfig.SubsamplingY)>>util.Int(sh.ColorConfig.SubsamplingY)); y++ {
-						t.FrameStore[i][plane][y][x] = state.LrFrame[plane][y][x]
+						state.FrameStore[i][plane][y][x] = state.LrFrame[plane][y][x]
 					}
 				}
 			}
 
+			state.SavedRefFrames[i] = copyGrid(state.MfRefFrames)
+			state.SavedMvs[i] = copyGrid(state.MfMvs)
+			state.SavedSegmentIds[i] = copyGrid(t.SegmentIds)
 			for row := 0; row < state.MiRows; row++ {
 				for col := 0; col < state.MiCols; col++ {
 					state.SavedRefFrames[i][row][col] = state.MfRefFrames[row][col]
@@ -217,16 +223,20 @@ func (t *TileGroup) referenceFrameLoadingProcess(state *state.State, u *uncompre
 		u.OrderHints[j+shared.LAST_FRAME] = state.SavedOrderHints[u.FrameToShowMapIdx][j+shared.LAST_FRAME]
 	}
 
+	state.LrFrame = copyPlanes(state.FrameStore[i])
+	state.MfRefFrames = copyGrid(state.SavedRefFrames[i])
+	state.MfMvs = copyGrid(state.SavedMvs[i])
+	t.SegmentIds = copyGrid(state.SavedSegmentIds[i])
 	for x := 0; x < u.UpscaledWidth; x++ {
 		for y := 0; y < u.FrameHeight; y++ {
-			state.LrFrame[0][y][x] = t.FrameStore[u.FrameToShowMapIdx][0][y][x]
+			state.LrFrame[0][y][x] = state.FrameStore[u.FrameToShowMapIdx][0][y][x]
 		}
 	}
 
 	for plane := 1; plane <= 2; plane++ {
 		for x := 0; x < ((u.UpscaledWidth+subsamplingX)>>subsamplingX)-1; x++ {
 			for y := 0; y < ((u.FrameHeight+subsamplingY)>>subsamplingY)-1; x++ {
-				state.LrFrame[plane][y][x] = t.FrameStore[u.FrameToShowMapIdx][plane][y][x]
+				state.LrFrame[plane][y][x] = state.FrameStore[u.FrameToShowMapIdx][plane][y][x]
 			}
 		}
 	}
diff --git a/internal/tilegroup/loop_restoration.go b/internal/tilegroup/loop_restoration.go
index a4d4e0e..0973b04 100644
--- a/internal/tilegroup/loop_restoration.go
+++ b/internal/tilegroup/loop_restoration.go
@@ -10,7 +10,7 @@ import (
 
 // 7.17. Loop restoration process
 func (t *TileGroup) loopRestoration(state *state.State, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) {
-	state.LrFrame = state.UpscaledCdefFrame
+	state.LrFrame = copyPlanes(state.UpscaledCdefFrame)
 
 	if !uh.UsesLr {
 		return
diff --git a/internal/tilegroup/output.go b/internal/tilegroup/output.go
index 1588c50..870b5bf 100644
--- a/internal/tilegroup/output.go
+++ b/internal/tilegroup/output.go
@@ -31,19 +31,19 @@ func (t *TileGroup) intermediateOutputPreparation(uh uncompressedheader.Uncompre
 
 		for x := 0; x < w; x++ {
 			for y := 0; y < h; y++ {
-				t.OutY[y][x] = t.FrameStore[uh.FrameToShowMapIdx][0][y][x]
+				t.OutY[y][x] = state.FrameStore[uh.FrameToShowMapIdx][0][y][x]
 			}
 		}
 
 		for x := 0; x < (w+subX)>>subX; x++ {
 			for y := 0; y < (h+subY)>>subY; y++ {
-				t.OutU[y][x] = t.FrameStore[uh.FrameToShowMapIdx][1][x][y]
+				t.OutU[y][x] = state.FrameStore[uh.FrameToShowMapIdx][1][x][y]
 			}
 		}
 
 		for x := 0; x < (w+subX)>>subX; x++ {
 			for y := 0; y < (h+subY)>>subY; y++ {
-				t.OutV[y][x] = t.FrameStore[uh.FrameToShowMapIdx][2][x][y]
+				t.OutV[y][x] = state.FrameStore[uh.FrameToShowMapIdx][2][x][y]
 			}
 		}
 
diff --git a/internal/tilegroup/predict_inter.go b/internal/tilegroup/predict_inter.go
index d2f9a89..15dc617 100644
--- a/internal/tilegroup/predict_inter.go
+++ b/internal/tilegroup/predict_inter.go
@@ -251,11 +251,11 @@ func (t *TileGroup) motionVectorScalingProcess(plane int, refIdx int, x int, y i
 
 // 7.11.3.4 Block inter prediction process
 func (t *TileGroup) blockInterPredictionProcess(plane int, refIdx int, x int, y int, xStep int, yStep int, w int, h int, candRow int, candCol int, state *state.State, sh sequenceheader.SequenceHeader) [PRED_SIZE][PRED_SIZE]int {
-	var ref [3][16][16]int
+	var ref [3][][]int
 	if refIdx == -1 {
 		ref = state.CurrFrame
 	} else {
-		ref = t.FrameStore[refIdx]
+		ref = state.FrameStore[refIdx]
 	}
 
 	subX := 0
@@ -320,7 +320,7 @@ func (t *TileGroup) blockWarpProcess(useWarp int, plane int, refList int, x int,
 	var pred [PRED_SIZE][PRED_SIZE]int
 
 	refIdx := uh.RefFrameIdx[state.RefFrame[refList]-shared.LAST_FRAME]
-	ref := t.FrameStore[refIdx]
+	ref := state.FrameStore[refIdx]
 
 	subX := 0
 	subY := 0
diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index 45669ac..f4aaf04 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -123,34 +123,24 @@ const DIV_LUT_PREC_BITS = 13
 const DIV_LUT_BITS = 8
 
 type TileGroup struct {
-	LrType              [3][1][1]int
+	*state.Blocks
+
 	RefLrWiener         [3][2][3]int
-	LrWiener            [][][][][3]int
-	LrSgrSet            [3][1][1]int
 	RefSgrXqd           [3][2]int
-	LrSgrXqd            [3][1][1][2]int
 	HasChroma           bool
 	SegmentId           int
-	SegmentIds          [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
 	Lossless            bool
 	Skip                int
-	Skips               [2][2]int
-	SkipModes           [2][2]int
 	YMode               int
-	YModes              [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
 	UVMode              int
-	UVModes             [2][2]int
 	PaletteSizeY        int
 	PaletteSizeUV       int
 	InterpFilter        [2]int
-	InterpFilters       [2][2][2]int
 	NumMvFound          int
 	NewMvCount          int
 	GlobalMvs           [2][2]int
 	MotionFieldMvs      [][][][2]int
-	IsInters            [2][2]int
 	Mv                  [2][2]int
-	Mvs                 [shared.MAX_TILE_COLS][shared.MAX_TILE_ROWS][2][2]int
 	FoundMatch          int
 	TotalMatches        int
 	CloseMatches        int
@@ -168,8 +158,6 @@ type TileGroup struct {
 	PredMv              [2][2]int
 	RefMvIdx            int
 	MvCtx               int
-	PaletteSizes        [2][2][2]int
-	PaletteColors       [][][][]int
 	PaletteCache        []int
 	PaletteColorsY      []int
 	PaletteColorsU      []int
@@ -205,9 +193,7 @@ type TileGroup struct {
 	ColorOrder       []int
 	ColorContextHash int
 
-	InterTxSizes [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
-	TxSize       int
-	TxSizes      [2][2]int
+	TxSize int
 
 	AboveLevelContext  [][]int
 	AboveDcContext     [][]int
@@ -215,10 +201,8 @@ type TileGroup struct {
 	LeftDcContext      [3][]int
 	LeftSegPredContext []int
 
-	CompGroupIdxs [][]int
-	CompoundIdxs  [][]int
-	CompGroupIdx  int
-	CompoundIdx   int
+	CompGroupIdx int
+	CompoundIdx  int
 
 	IsInterIntra bool
 
@@ -233,8 +217,7 @@ type TileGroup struct {
 	LocalValid      bool
 	LocalWarpParams [6]int
 
-	FrameStore [shared.NUM_REF_FRAMES][3][16][16]int
-	Mask       [][]int
+	Mask [][]int
 
 	FwdWeight int
 	BckWeight int
@@ -245,14 +228,12 @@ type TileGroup struct {
 	MaxLumaH int
 	MaxLumaW int
 
-	Quant             [4096]int
-	Dequant           [64][64]int
-	TxType            int
-	PlaneTxType       int
-	TxTypes           [2][2]int
-	T                 []int
-	Residual          [][]int
-	LoopFilterTxSizes [3][2][2]int
+	Quant       [4096]int
+	Dequant     [64][64]int
+	TxType      int
+	PlaneTxType int
+	T           []int
+	Residual    [][]int
 
 	NewMvContext  int
 	RefMvContext  int
@@ -263,9 +244,9 @@ type TileGroup struct {
 	PlaneEndX    int
 	PlaneEndY    int
 
-	OutY [1][1]int
-	OutU [1][1]int
-	OutV [1][1]int
+	OutY [][]int
+	OutU [][]int
+	OutV [][]int
 }
 
 func NewTileGroup(sz int, b *bitstream.BitStream, state *state.State, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) TileGroup {
@@ -296,6 +277,11 @@ func (t *TileGroup) build(sz int, b *bitstream.BitStream, state *state.State, uh
 		tgEnd = b.F(tileBits)
 	}
 
+	if tgStart == 0 || state.Blocks == nil {
+		state.AllocateFrame(uh.UpscaledWidth)
+	}
+	t.Blocks = state.Blocks
+
 	b.ByteAlignment()
 	endBitBos := b.Position
 	headerBytes := (endBitBos - startbitPos) / 8
diff --git a/internal/tilegroup/util.go b/internal/tilegroup/util.go
index ed3ac77..cf60b34 100644
--- a/internal/tilegroup/util.go
+++ b/internal/tilegroup/util.go
@@ -38,3 +38,18 @@ func isInsideFilterRegion(candidateR int, candidateC int, state *state.State) bo
 		candidateR >= rowStart &&
 		candidateR < rowEnd
 }
+
+func copyGrid[T any](grid [][]T) [][]T {
+	c := make([][]T, len(grid))
+	for i, row := range grid {
+		c[i] = append([]T(nil), row...)
+	}
+	return c
+}
+
+func copyPlanes(frame [3][][]int) [3][][]int {
+	for plane := range frame {
+		frame[plane] = copyGrid(frame[plane])
+	}
+	return frame
+}
-- 
2.43.0


From 4445943c84578cd0f74e5a989989c34f09878db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:06 +0000
Subject: [PATCH 041/163] fix: saving and loading a reference frame ran out of
 range or never ended on chroma planes

---
 internal/tilegroup/decode_frame_wrapup.go | 72 +----------------------
 1 file changed, 2 insertions(+), 70 deletions(-)

diff --git a/internal/tilegroup/decode_frame_wrapup.go b/internal/tilegroup/decode_frame_wrapup.go
index 74a5d80..4575666 100644
--- a/internal/tilegroup/decode_frame_wrapup.go
+++ b/internal/tilegroup/decode_frame_wrapup.go
@@ -127,49 +127,15 @@ func (t *TileGroup) referenceFrameUpdate(state *state.State, uh uncompressedhead
 			}
 
 			state.FrameStore[i] = copyPlanes(state.LrFrame)
-			for x := 0; x < uh.UpscaledWidth; x++ {
-				for y := 0; y < uh.FrameHeight; y++ {
-					state.FrameStore[i][0][y][x] = state.LrFrame[0][y][x]
-				}
-			}
-
-			for plane := 1; plane <= 2; plane++ {
-				for x := 0; x < (uh.UpscaledWidth + util.Int(sh.ColorConfig.SubsamplingX)>>util.Int(sh.ColorConfig.SubsamplingX)); x++ {
-					for y := 0; y < (uh.FrameHeight + util.Int(sh.ColorConfig.SubsamplingY)>>util.Int(sh.ColorConfig.SubsamplingY)); y++ {
-						state.FrameStore[i][plane][y][x] = state.LrFrame[plane][y][x]
-					}
-				}
-			}
-
 			state.SavedRefFrames[i] = copyGrid(state.MfRefFrames)
 			state.SavedMvs[i] = copyGrid(state.MfMvs)
 			state.SavedSegmentIds[i] = copyGrid(t.SegmentIds)
-			for row := 0; row < state.MiRows; row++ {
-				for col := 0; col < state.MiCols; col++ {
-					state.SavedRefFrames[i][row][col] = state.MfRefFrames[row][col]
-				}
-			}
-
-			for comp := 0; comp <= 1; comp++ {
-				for row := 0; row < state.MiRows; row++ {
-					for col := 0; col < state.MiCols; col++ {
-						state.SavedMvs[i][row][col][comp] = state.MfMvs[row][col][comp]
-					}
-				}
-			}
-
 			for ref := shared.LAST_FRAME; ref <= shared.ALTREF_FRAME; ref++ {
 				for j := 0; j <= 5; j++ {
 					state.SavedGmParams[i][ref][j] = uh.GmParams[ref][j]
 				}
 			}
 
-			for row := 0; row < state.MiRows; row++ {
-				for col := 0; col < state.MiCols; col++ {
-					state.SavedSegmentIds[i][row][col] = t.SegmentIds[row][col]
-				}
-			}
-
 			uncompressedheader.SaveCdfs(i, state)
 
 			if sh.FilmGrainParamsPresent {
@@ -214,8 +180,8 @@ func (t *TileGroup) referenceFrameLoadingProcess(state *state.State, u *uncompre
 	state.MiCols = state.RefMiCols[u.FrameToShowMapIdx]
 	state.MiRows = state.RefMiRows[u.FrameToShowMapIdx]
 
-	subsamplingX := state.RefSubsamplingX[u.FrameToShowMapIdx]
-	subsamplingY := state.RefSubsamplingY[u.FrameToShowMapIdx]
+	sh.ColorConfig.SubsamplingX = util.Bool(state.RefSubsamplingX[u.FrameToShowMapIdx])
+	sh.ColorConfig.SubsamplingY = util.Bool(state.RefSubsamplingY[u.FrameToShowMapIdx])
 	sh.ColorConfig.BitDepth = state.RefBitDepth[u.FrameToShowMapIdx]
 	u.OrderHint = state.RefOrderHint[u.FrameToShowMapIdx]
 
@@ -227,46 +193,12 @@ func (t *TileGroup) referenceFrameLoadingProcess(state *state.State, u *uncompre
 	state.MfRefFrames = copyGrid(state.SavedRefFrames[i])
 	state.MfMvs = copyGrid(state.SavedMvs[i])
 	t.SegmentIds = copyGrid(state.SavedSegmentIds[i])
-	for x := 0; x < u.UpscaledWidth; x++ {
-		for y := 0; y < u.FrameHeight; y++ {
-			state.LrFrame[0][y][x] = state.FrameStore[u.FrameToShowMapIdx][0][y][x]
-		}
-	}
-
-	for plane := 1; plane <= 2; plane++ {
-		for x := 0; x < ((u.UpscaledWidth+subsamplingX)>>subsamplingX)-1; x++ {
-			for y := 0; y < ((u.FrameHeight+subsamplingY)>>subsamplingY)-1; x++ {
-				state.LrFrame[plane][y][x] = state.FrameStore[u.FrameToShowMapIdx][plane][y][x]
-			}
-		}
-	}
-
-	for row := 0; row < state.MiRows; row++ {
-		for col := 0; col < state.MiCols; col++ {
-			state.MfRefFrames[row][col] = state.SavedRefFrames[u.FrameToShowMapIdx][row][col]
-		}
-	}
-
-	for comp := 0; comp <= 1; comp++ {
-		for row := 0; row < state.MiRows; row++ {
-			for col := 0; col < state.MiCols; col++ {
-				state.MfMvs[row][col][comp] = state.SavedMvs[u.FrameToShowMapIdx][row][col][comp]
-			}
-		}
-	}
-
 	for ref := shared.LAST_FRAME; ref <= shared.ALTREF_FRAME; ref++ {
 		for j := 0; j <= 5; j++ {
 			u.GmParams[ref][j] = state.SavedGmParams[u.FrameToShowMapIdx][ref][j]
 		}
 	}
 
-	for row := 0; row < state.MiRows; row++ {
-		for col := 0; col < state.MiCols; col++ {
-			t.SegmentIds[row][col] = state.SavedSegmentIds[u.FrameToShowMapIdx][row][col]
-		}
-	}
-
 	uncompressedheader.LoadCdfs(u.FrameToShowMapIdx, state)
 
 	if sh.FilmGrainParamsPresent {
-- 
2.43.0


From 931feb87085d3922e8a80ed8428cdf7c51ebd9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:23 +0000
Subject: [PATCH 042/163] fix: show_existing_frame panicked instead of showing,
 and refreshing the slots from, the reference frame

---
 internal/obu/obu.go                                | 2 +-
 internal/tilegroup/decode_frame_wrapup.go          | 1 +
 internal/tilegroup/tile_group.go                   | 7 +++++++
 internal/uncompressedheader/uncompressed_header.go | 5 -----
 4 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/internal/obu/obu.go b/internal/obu/obu.go
index 246743f..2a8863d 100644
--- a/internal/obu/obu.go
+++ b/internal/obu/obu.go
@@ -121,7 +121,7 @@ func (o *Obu) ParseFrameHeader(b *bitstream.BitStream, state *state.State, h hea
 		state.FrameHeaderBits = b.Position - startBitPos
 
 		if uncompressedHeader.ShowExistingFrame {
-			uncompressedHeader.DecodeFrameWrapup()
+			o.TileGroup = tilegroup.NewShownFrame(state, uncompressedHeader, sh)
 			state.SeenFrameHeader = false
 		} else {
 			state.TileNum = 0
diff --git a/internal/tilegroup/decode_frame_wrapup.go b/internal/tilegroup/decode_frame_wrapup.go
index 4575666..774db1f 100644
--- a/internal/tilegroup/decode_frame_wrapup.go
+++ b/internal/tilegroup/decode_frame_wrapup.go
@@ -172,6 +172,7 @@ func (t *TileGroup) referenceFrameLoadingProcess(state *state.State, u *uncompre
 	// where does i really come from?
 	i := u.FrameToShowMapIdx
 	u.CurrentFrameId = state.RefFrameId[i]
+	state.CurrentFrameId = u.CurrentFrameId
 	u.UpscaledWidth = state.RefUpscaledWidth[u.FrameToShowMapIdx]
 	u.FrameWidth = state.RefFrameWidth[u.FrameToShowMapIdx]
 	u.FrameHeight = state.RefFrameHeight[u.FrameToShowMapIdx]
diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index f4aaf04..6394753 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -255,6 +255,13 @@ func NewTileGroup(sz int, b *bitstream.BitStream, state *state.State, uh uncompr
 	return t
 }
 
+// NewShownFrame outputs the reference frame that show_existing_frame selects.
+func NewShownFrame(s *state.State, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) TileGroup {
+	t := TileGroup{Blocks: &state.Blocks{}}
+	t.decodeFrameWrapup(s, uh, sh)
+	return t
+}
+
 func (t *TileGroup) build(sz int, b *bitstream.BitStream, state *state.State, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) {
 	NumTiles := state.TileCols * state.TileRows
 	startbitPos := b.Position
diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 6c1115a..51c3b93 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -1433,11 +1433,6 @@ func (u *UncompressedHeader) resetGrainParams() {
 	u.ClipToRestrictedRange = false
 }
 
-// decode_frame_wrapup()
-func (u *UncompressedHeader) DecodeFrameWrapup() {
-	panic("not implemented")
-}
-
 // temporal_point_info()
 func (u *UncompressedHeader) TemporalPointInfo(sh sequenceheader.SequenceHeader, b *bitstream.BitStream) {
 	n := sh.DecoderModelInfo.FramePresentationTimeLengthMinusOne + 1
-- 
2.43.0


From e3ca9b076bd2924df80c40e6382954927a9d505b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:40 +0000
Subject: [PATCH 043/163] fix: only one sample of each plane could be output,
 and chroma of a shown reference frame was transposed

---
 internal/tilegroup/output.go | 54 ++++++++++++++++++++++++++----------
 1 file changed, 40 insertions(+), 14 deletions(-)

diff --git a/internal/tilegroup/output.go b/internal/tilegroup/output.go
index 870b5bf..dd29ff1 100644
--- a/internal/tilegroup/output.go
+++ b/internal/tilegroup/output.go
@@ -24,10 +24,11 @@ func (t *TileGroup) outputProcess(state *state.State, uh uncompressedheader.Unco
 func (t *TileGroup) intermediateOutputPreparation(uh uncompressedheader.UncompressedHeader, state *state.State, sh *sequenceheader.SequenceHeader) (int, int, int, int) {
 	var w, h, subX, subY int
 	if uh.ShowExistingFrame {
-		w := state.RefUpscaledWidth[uh.FrameToShowMapIdx]
-		h := state.RefFrameHeight[uh.FrameToShowMapIdx]
-		subX := state.RefSubsamplingX[uh.FrameToShowMapIdx]
-		subY := state.RefSubsamplingY[uh.FrameToShowMapIdx]
+		w = state.RefUpscaledWidth[uh.FrameToShowMapIdx]
+		h = state.RefFrameHeight[uh.FrameToShowMapIdx]
+		subX = state.RefSubsamplingX[uh.FrameToShowMapIdx]
+		subY = state.RefSubsamplingY[uh.FrameToShowMapIdx]
+		t.allocateOutput(w, h, subX, subY, sh)
 
 		for x := 0; x < w; x++ {
 			for y := 0; y < h; y++ {
@@ -35,25 +36,26 @@ func (t *TileGroup) intermediateOutputPreparation(uh uncompressedheader.Uncompre
 			}
 		}
 
-		for x := 0; x < (w+subX)>>subX; x++ {
+		for x := 0; x < t.outputChromaWidth(w, subX, sh); x++ {
 			for y := 0; y < (h+subY)>>subY; y++ {
-				t.OutU[y][x] = state.FrameStore[uh.FrameToShowMapIdx][1][x][y]
+				t.OutU[y][x] = state.FrameStore[uh.FrameToShowMapIdx][1][y][x]
 			}
 		}
 
-		for x := 0; x < (w+subX)>>subX; x++ {
+		for x := 0; x < t.outputChromaWidth(w, subX, sh); x++ {
 			for y := 0; y < (h+subY)>>subY; y++ {
-				t.OutV[y][x] = state.FrameStore[uh.FrameToShowMapIdx][2][x][y]
+				t.OutV[y][x] = state.FrameStore[uh.FrameToShowMapIdx][2][y][x]
 			}
 		}
 
 		// TODO: does this assignment work? sequenceheader isn't supposed to get modified this way
 		sh.ColorConfig.BitDepth = state.RefBitDepth[uh.FrameToShowMapIdx]
 	} else {
-		w := uh.UpscaledWidth
-		h := uh.FrameHeight
-		subX := util.Int(sh.ColorConfig.SubsamplingX)
-		subY := util.Int(sh.ColorConfig.SubsamplingY)
+		w = uh.UpscaledWidth
+		h = uh.FrameHeight
+		subX = util.Int(sh.ColorConfig.SubsamplingX)
+		subY = util.Int(sh.ColorConfig.SubsamplingY)
+		t.allocateOutput(w, h, subX, subY, sh)
 
 		for x := 0; x < w; x++ {
 			for y := 0; y < h; y++ {
@@ -61,13 +63,13 @@ func (t *TileGroup) intermediateOutputPreparation(uh uncompressedheader.Uncompre
 			}
 		}
 
-		for x := 0; x < (w+subX)>>subX; x++ {
+		for x := 0; x < t.outputChromaWidth(w, subX, sh); x++ {
 			for y := 0; y < (h+subY)>>subY; y++ {
 				t.OutU[y][x] = state.LrFrame[1][y][x]
 			}
 		}
 
-		for x := 0; x < (w+subX)>>subX; x++ {
+		for x := 0; x < t.outputChromaWidth(w, subX, sh); x++ {
 			for y := 0; y < (h+subY)>>subY; y++ {
 				t.OutV[y][x] = state.LrFrame[2][y][x]
 			}
@@ -77,6 +79,30 @@ func (t *TileGroup) intermediateOutputPreparation(uh uncompressedheader.Uncompre
 	return w, h, subX, subY
 }
 
+// monochrome frames are output without chroma samples
+func (t *TileGroup) outputChromaWidth(w int, subX int, sh *sequenceheader.SequenceHeader) int {
+	if sh.ColorConfig.MonoChrome {
+		return 0
+	}
+	return (w + subX) >> subX
+}
+
+func (t *TileGroup) allocateOutput(w int, h int, subX int, subY int, sh *sequenceheader.SequenceHeader) {
+	t.OutY = make([][]int, h)
+	for y := range t.OutY {
+		t.OutY[y] = make([]int, w)
+	}
+
+	t.OutU = nil
+	t.OutV = nil
+	if !sh.ColorConfig.MonoChrome {
+		for y := 0; y < (h+subY)>>subY; y++ {
+			t.OutU = append(t.OutU, make([]int, t.outputChromaWidth(w, subX, sh)))
+			t.OutV = append(t.OutV, make([]int, t.outputChromaWidth(w, subX, sh)))
+		}
+	}
+}
+
 // 7.18.3. Film grain syntehsis
 func (t *TileGroup) filmGrainSynthesis(w int, h int, subX int, subY int) {
 	panic("not implemented")
-- 
2.43.0


From 2ba1d77bb19715bacef22c9b22ef51ce751d5207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:36 +0000
Subject: [PATCH 044/163] fix: skip mode, segment id prediction and base
 coefficient CDF tables had malformed rows

---
 internal/uncompressedheader/cdf.go | 22 ++++++----------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/internal/uncompressedheader/cdf.go b/internal/uncompressedheader/cdf.go
index 2e4e5d9..931a42f 100644
--- a/internal/uncompressedheader/cdf.go
+++ b/internal/uncompressedheader/cdf.go
@@ -1290,11 +1290,11 @@ var DEFAULT_SKIP_CDF = [][]int{
 }
 
 var DEFAULT_SKIP_MODE_CDF = [][]int{
-	{3262132621,
+	{32621,
 		32768, 00},
-	{2070820708,
+	{20708,
 		32768, 00},
-	{81278127,
+	{8127,
 		32768, 00},
 }
 
@@ -1585,9 +1585,9 @@ var DEFAULT_TX_8X8_CDF = [][]int{
 }
 
 var DEFAULT_SEGMENT_ID_PREDICTED_CDF = [][]int{
-	{128 * 128, 32678, 0},
-	{128 * 128, 32678, 0},
-	{128 * 128, 32678, 0},
+	{128 * 128, 32768, 0},
+	{128 * 128, 32768, 0},
+	{128 * 128, 32768, 0},
 }
 
 var DEFAULT_SEGMENT_ID_CDF = [][]int{
@@ -10697,16 +10697,6 @@ var DEFAULT_COEFF_BASE_CDF = [][][][][]int{
 				{
 					8192, 16384, 24576, 32768, 0},
 			},
-			{
-				{
-					9320, 22102, 27840, 32768, 0},
-				{
-					2795, 10410, 17361, 32768, 0},
-				{
-					8192, 16384, 24576, 32768, 0},
-				{
-					8192, 16384, 24576, 32768, 0},
-			},
 			{
 				{
 					9320, 22102, 27840, 32768, 0},
-- 
2.43.0


From a8a371b93f6fa66130c3fd3f447dcc5b26f42217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:28 +0000
Subject: [PATCH 045/163] fix: adapting a tile's CDFs changed the default
 tables and the saved contexts, and intra y mode, palette y size, ref mv and
 compound reference type CDFs were not carried between frames

---
 internal/state/cdfs.go             | 53 ++++++++++++++++++++++++++++++
 internal/state/state.go            |  7 ++++
 internal/tilegroup/tile_group.go   | 13 ++++++--
 internal/uncompressedheader/cdf.go | 18 +++++++++-
 4 files changed, 87 insertions(+), 4 deletions(-)
 create mode 100644 internal/state/cdfs.go

diff --git a/internal/state/cdfs.go b/internal/state/cdfs.go
new file mode 100644
index 0000000..329e207
--- /dev/null
+++ b/internal/state/cdfs.go
@@ -0,0 +1,53 @@
+package state
+
+import (
+	"reflect"
+	"strings"
+)
+
+// eachCdfField calls f with every CDF field of the current frame and tile.
+func (s *State) eachCdfField(f func(name string, v reflect.Value)) {
+	v := reflect.ValueOf(s).Elem()
+	for i := 0; i < v.NumField(); i++ {
+		name := v.Type().Field(i).Name
+		if strings.HasSuffix(name, "Cdf") && !strings.HasPrefix(name, "Saved") {
+			f(name, v.Field(i))
+		}
+	}
+}
+
+func copyCdf(v reflect.Value, resetCounter bool) {
+	if v.Kind() == reflect.Slice {
+		c := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
+		reflect.Copy(c, v)
+		v.Set(c)
+	}
+	if v.Type().Elem().Kind() == reflect.Int {
+		if resetCounter && v.Len() > 0 {
+			v.Index(v.Len() - 1).SetInt(0)
+		}
+		return
+	}
+	for i := 0; i < v.Len(); i++ {
+		copyCdf(v.Index(i), resetCounter)
+	}
+}
+
+// OwnTileCdfs makes the CDFs of the current tile copies, which adapt
+// without changing the arrays that they were taken from.
+func (s *State) OwnTileCdfs() {
+	s.eachCdfField(func(name string, v reflect.Value) {
+		if strings.HasPrefix(name, "Tile") {
+			copyCdf(v, false)
+		}
+	})
+}
+
+// ResetCdfCounters makes the CDFs of the frame copies whose symbol counters are zero.
+func (s *State) ResetCdfCounters() {
+	s.eachCdfField(func(name string, v reflect.Value) {
+		if !strings.HasPrefix(name, "Tile") {
+			copyCdf(v, true)
+		}
+	})
+}
diff --git a/internal/state/state.go b/internal/state/state.go
index bb297dc..2ed2f3f 100644
--- a/internal/state/state.go
+++ b/internal/state/state.go
@@ -107,6 +107,7 @@ type State struct {
 	CoeffBaseCdf    [][][][]int
 	CoeffBrCdf      [][][][]int
 
+	IntraFrameYModeCdf     [][][]int
 	YModeCdf               [][]int
 	UVModeCflNotAllowedCdf [][]int
 	UVModeCflAllowedCdf    [][]int
@@ -152,6 +153,7 @@ type State struct {
 	MvHpCdf                [shared.MV_CONTEXTS][2][]int
 	PaletteYModeCdf        [][][]int
 	PaletteUVModeCdf       [][]int
+	PaletteYSizeCdf        [][]int
 	PaletteUVSizeCdf       [][]int
 	PaletteSize2YColorCdf  [][]int
 	PaletteSize2UVColorCdf [][]int
@@ -236,6 +238,7 @@ type State struct {
 	TileMvHpCdf                [shared.MV_CONTEXTS][2][]int
 	TilePaletteYModeCdf        [][][]int
 	TilePaletteUVModeCdf       [][]int
+	TilePaletteYSizeCdf        [][]int
 	TilePaletteUVSizeCdf       [][]int
 	TilePaletteSize2YColorCdf  [][]int
 	TilePaletteSize2UVColorCdf [][]int
@@ -290,6 +293,7 @@ type State struct {
 	TileCoeffBaseCdf    [][][][]int
 	TileCoeffBrCdf      [][][][]int
 
+	SavedIntraFrameYModeCdf     [][][]int
 	SavedYModeCdf               [][]int
 	SavedUVModeCflNotAllowedCdf [][]int
 	SavedUVModeCflAllowedCdf    [][]int
@@ -334,6 +338,7 @@ type State struct {
 	SavedMvHpCdf                [shared.MV_CONTEXTS][2][]int
 	SavedPaletteYModeCdf        [][][]int
 	SavedPaletteUVModeCdf       [][]int
+	SavedPaletteYSizeCdf        [][]int
 	SavedPaletteUVSizeCdf       [][]int
 	SavedPaletteSize2YColorCdf  [][]int
 	SavedPaletteSize2UVColorCdf [][]int
@@ -436,6 +441,7 @@ type MemoryArea struct {
 	CoeffBaseCdf    [][][][]int
 	CoeffBrCdf      [][][][]int
 
+	IntraFrameYModeCdf     [][][]int
 	YModeCdf               [][]int
 	UVModeCflNotAllowedCdf [][]int
 	UVModeCflAllowedCdf    [][]int
@@ -481,6 +487,7 @@ type MemoryArea struct {
 	MvHpCdf                [shared.MV_CONTEXTS][2][]int
 	PaletteYModeCdf        [][][]int
 	PaletteUVModeCdf       [][]int
+	PaletteYSizeCdf        [][]int
 	PaletteUVSizeCdf       [][]int
 	PaletteSize2YColorCdf  [][]int
 	PaletteSize2UVColorCdf [][]int
diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index 6394753..bfbffc1 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -362,6 +362,7 @@ func (t *TileGroup) decodeFrameWrapup(state *state.State, uh uncompressedheader.
 // 7.7. Frame end update CDF process
 // frame_end_update_cdf( )
 func (t *TileGroup) frameEndUpdateCdf(state *state.State) {
+	state.IntraFrameYModeCdf = state.SavedIntraFrameYModeCdf
 	state.YModeCdf = state.SavedYModeCdf
 	state.UVModeCflNotAllowedCdf = state.SavedUVModeCflNotAllowedCdf
 	state.UVModeCflAllowedCdf = state.SavedUVModeCflAllowedCdf
@@ -406,6 +407,7 @@ func (t *TileGroup) frameEndUpdateCdf(state *state.State) {
 	state.MvHpCdf = state.SavedMvHpCdf
 	state.PaletteYModeCdf = state.SavedPaletteYModeCdf
 	state.PaletteUVModeCdf = state.SavedPaletteUVModeCdf
+	state.PaletteYSizeCdf = state.SavedPaletteYSizeCdf
 	state.PaletteUVSizeCdf = state.SavedPaletteUVSizeCdf
 	state.PaletteSize2YColorCdf = state.SavedPaletteSize2YColorCdf
 	state.PaletteSize2UVColorCdf = state.SavedPaletteSize2UVColorCdf
@@ -432,7 +434,7 @@ func (t *TileGroup) frameEndUpdateCdf(state *state.State) {
 	state.InterTxTypeSet3Cdf = state.SavedInterTxTypeSet3Cdf
 	state.UseObmcCdf = state.SavedUseObmcCdf
 	state.InterIntraCdf = state.SavedInterIntraCdf
-	state.CompRefTypeCdf = state.CompRefTypeCdf
+	state.CompRefTypeCdf = state.SavedCompRefTypeCdf
 	state.CflSignCdf = state.SavedCflSignCdf
 	state.UniCompRefCdf = state.SavedUniCompRefCdf
 	state.WedgeInterIntraCdf = state.SavedWedgeInterIntraCdf
@@ -470,7 +472,7 @@ func (t *TileGroup) initSymbol(sz int, b *bitstream.BitStream, state *state.Stat
 	state.SymbolValue = ((1 << 15) - 1) ^ paddedBuf
 	state.SymbolRange = 1 << 15
 	state.SymbolMaxBits = 8*sz - 15
-	state.TileIntraFrameYModeCdf = uncompressedheader.DEFAULT_INTRA_FRAME_Y_MODE_CDF
+	state.TileIntraFrameYModeCdf = state.IntraFrameYModeCdf
 
 	state.TileYModeCdf = state.YModeCdf
 	state.TileUVModeCflNotAllowedCdf = state.UVModeCflNotAllowedCdf
@@ -516,6 +518,7 @@ func (t *TileGroup) initSymbol(sz int, b *bitstream.BitStream, state *state.Stat
 	state.TileMvHpCdf = state.MvHpCdf
 	state.TilePaletteYModeCdf = state.PaletteYModeCdf
 	state.TilePaletteUVModeCdf = state.PaletteUVModeCdf
+	state.TilePaletteYSizeCdf = state.PaletteYSizeCdf
 	state.TilePaletteUVSizeCdf = state.PaletteUVSizeCdf
 	state.TilePaletteSize2YColorCdf = state.PaletteSize2YColorCdf
 	state.TilePaletteSize2UVColorCdf = state.PaletteSize2UVColorCdf
@@ -569,6 +572,8 @@ func (t *TileGroup) initSymbol(sz int, b *bitstream.BitStream, state *state.Stat
 	state.TileCoeffBaseEobCdf = state.CoeffBaseEobCdf
 	state.TileCoeffBaseCdf = state.CoeffBaseCdf
 	state.TileCoeffBrCdf = state.CoeffBrCdf
+
+	state.OwnTileCdfs()
 }
 
 // 8.2.4 Exit process for symbol decoder
@@ -581,6 +586,7 @@ func (t *TileGroup) exitSymbol(b *bitstream.BitStream, state *state.State, uh un
 	b.Position += util.Max(0, state.SymbolMaxBits)
 
 	if !uh.DisableFrameEndUpdateCdf && state.TileNum == uh.TileInfo.ContextUpdateTileId {
+		state.SavedIntraFrameYModeCdf = state.TileIntraFrameYModeCdf
 		state.SavedYModeCdf = state.TileYModeCdf
 		state.SavedUVModeCflNotAllowedCdf = state.TileUVModeCflNotAllowedCdf
 		state.SavedUVModeCflAllowedCdf = state.TileUVModeCflAllowedCdf
@@ -625,6 +631,7 @@ func (t *TileGroup) exitSymbol(b *bitstream.BitStream, state *state.State, uh un
 		state.SavedMvHpCdf = state.TileMvHpCdf
 		state.SavedPaletteYModeCdf = state.TilePaletteYModeCdf
 		state.SavedPaletteUVModeCdf = state.TilePaletteUVModeCdf
+		state.SavedPaletteYSizeCdf = state.TilePaletteYSizeCdf
 		state.SavedPaletteUVSizeCdf = state.TilePaletteUVSizeCdf
 		state.SavedPaletteSize2YColorCdf = state.TilePaletteSize2YColorCdf
 		state.SavedPaletteSize2UVColorCdf = state.TilePaletteSize2UVColorCdf
@@ -651,7 +658,7 @@ func (t *TileGroup) exitSymbol(b *bitstream.BitStream, state *state.State, uh un
 		state.SavedInterTxTypeSet3Cdf = state.TileInterTxTypeSet3Cdf
 		state.SavedUseObmcCdf = state.TileUseObmcCdf
 		state.SavedInterIntraCdf = state.TileInterIntraCdf
-		state.SavedCompRefTypeCdf = state.CompRefTypeCdf
+		state.SavedCompRefTypeCdf = state.TileCompRefTypeCdf
 		state.SavedCflSignCdf = state.TileCflSignCdf
 		state.SavedUniCompRefCdf = state.TileUniCompRefCdf
 		state.SavedWedgeInterIntraCdf = state.TileWedgeInterIntraCdf
diff --git a/internal/uncompressedheader/cdf.go b/internal/uncompressedheader/cdf.go
index 931a42f..1880e42 100644
--- a/internal/uncompressedheader/cdf.go
+++ b/internal/uncompressedheader/cdf.go
@@ -7,6 +7,7 @@ import (
 
 // init_non_coeff_cdfs( )
 func initNonCoeffCdfs(state *state.State) {
+	state.IntraFrameYModeCdf = DEFAULT_INTRA_FRAME_Y_MODE_CDF
 	state.YModeCdf = DEFAULT_Y_MODE_CDF
 	state.UVModeCflNotAllowedCdf = DEFAULT_UV_MODE_CFL_NOT_ALLOWED_CDF
 	state.UVModeCflAllowedCdf = DEFAULT_UV_MODE_CFL_ALLOWED_CDF
@@ -30,6 +31,7 @@ func initNonCoeffCdfs(state *state.State) {
 	state.MotionModeCdf = DEFAULT_MOTION_MODE_CDF
 	state.NewMvCdf = DEFAULT_NEW_MV_CDF
 	state.ZeroMvCdf = DFEAULT_ZERO_MV_CDF
+	state.RefMvCdf = DEFAULT_REF_MV_CDF
 	state.CompoundModeCdf = DEFAULT_COMPOUND_MODE_CDF
 	state.DrlModeCdf = DEFAULT_DRL_MODE_CDF
 	state.IsInterCdf = DEFAULT_IS_INTER_CDF
@@ -59,6 +61,7 @@ func initNonCoeffCdfs(state *state.State) {
 
 	state.PaletteYModeCdf = DEFAULT_PALETTE_Y_MODE_CDF
 	state.PaletteUVModeCdf = DEFAULT_PALETTE_UV_MODE_CDF
+	state.PaletteYSizeCdf = DEFAULT_PALETTE_Y_SIZE_CDF
 	state.PaletteUVSizeCdf = DEFAULT_PALETTE_UV_SIZE_CDF
 	state.PaletteSize2YColorCdf = DEFAULT_PALETTE_SIZE_2_Y_COLOR_CDF
 	state.PaletteSize2UVColorCdf = DEFAULT_PALETTE_SIZE_2_UV_COLOR_CDF
@@ -137,6 +140,7 @@ func initCoeffCdfs(state *state.State, uh UncompressedHeader) {
 func SaveCdfs(ctx int, s *state.State) {
 	memoryArea := state.MemoryArea{}
 
+	memoryArea.IntraFrameYModeCdf = s.IntraFrameYModeCdf
 	memoryArea.YModeCdf = s.YModeCdf
 	memoryArea.UVModeCflNotAllowedCdf = s.UVModeCflNotAllowedCdf
 	memoryArea.UVModeCflAllowedCdf = s.UVModeCflAllowedCdf
@@ -181,6 +185,7 @@ func SaveCdfs(ctx int, s *state.State) {
 	memoryArea.MvHpCdf = s.MvHpCdf
 	memoryArea.PaletteYModeCdf = s.PaletteYModeCdf
 	memoryArea.PaletteUVModeCdf = s.PaletteUVModeCdf
+	memoryArea.PaletteYSizeCdf = s.PaletteYSizeCdf
 	memoryArea.PaletteUVSizeCdf = s.PaletteUVSizeCdf
 	memoryArea.PaletteSize2YColorCdf = s.PaletteSize2YColorCdf
 	memoryArea.PaletteSize2UVColorCdf = s.PaletteSize2UVColorCdf
@@ -241,6 +246,7 @@ func SaveCdfs(ctx int, s *state.State) {
 func LoadCdfs(ctx int, s *state.State) {
 	memoryArea := s.Memory[ctx]
 
+	s.IntraFrameYModeCdf = memoryArea.IntraFrameYModeCdf
 	s.YModeCdf = memoryArea.YModeCdf
 	s.UVModeCflNotAllowedCdf = memoryArea.UVModeCflNotAllowedCdf
 	s.UVModeCflAllowedCdf = memoryArea.UVModeCflAllowedCdf
@@ -285,6 +291,7 @@ func LoadCdfs(ctx int, s *state.State) {
 	s.MvHpCdf = memoryArea.MvHpCdf
 	s.PaletteYModeCdf = memoryArea.PaletteYModeCdf
 	s.PaletteUVModeCdf = memoryArea.PaletteUVModeCdf
+	s.PaletteYSizeCdf = memoryArea.PaletteYSizeCdf
 	s.PaletteUVSizeCdf = memoryArea.PaletteUVSizeCdf
 	s.PaletteSize2YColorCdf = memoryArea.PaletteSize2YColorCdf
 	s.PaletteSize2UVColorCdf = memoryArea.PaletteSize2UVColorCdf
@@ -339,7 +346,7 @@ func LoadCdfs(ctx int, s *state.State) {
 	s.CoeffBaseCdf = memoryArea.CoeffBaseCdf
 	s.CoeffBrCdf = memoryArea.CoeffBrCdf
 
-	// TODO: set last entry of every array to 0
+	s.ResetCdfCounters()
 }
 
 var DEFAULT_INTER_TX_TYPE_SET2_CDF = []int{
@@ -1350,6 +1357,15 @@ var DEFAULT_COMPOUND_MODE_CDF = [][]int{
 		13046, 23214, 24505, 25942, 27435, 28442, 29330, 32768, 0},
 }
 
+var DEFAULT_REF_MV_CDF = [][]int{
+	{23974, 32768, 0},
+	{24188, 32768, 0},
+	{17848, 32768, 0},
+	{28622, 32768, 0},
+	{24312, 32768, 0},
+	{19923, 32768, 0},
+}
+
 var DFEAULT_ZERO_MV_CDF = [][]int{
 	{2175, 32768, 0},
 	{1054, 32768, 0},
-- 
2.43.0


From 51fd53a71349ca21041f68ad650365c11189716f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:01 +0000
Subject: [PATCH 046/163] fix: above and left contexts had no room for blocks
 beyond the frame edge or for segment prediction

---
 internal/tilegroup/tile_group.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index bfbffc1..622116f 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -692,11 +692,11 @@ func (t *TileGroup) exitSymbol(b *bitstream.BitStream, state *state.State, uh un
 func (t *TileGroup) clearAboveContext(state *state.State) {
 	t.AboveLevelContext = make([][]int, 3)
 	t.AboveDcContext = make([][]int, 3)
-	t.AboveSegPredContext = make([]int, 3)
+	t.AboveSegPredContext = make([]int, state.MiCols+32)
 
 	for i := 0; i < 3; i++ {
-		t.AboveLevelContext[i] = make([]int, state.MiCols)
-		t.AboveDcContext[i] = make([]int, state.MiCols)
+		t.AboveLevelContext[i] = make([]int, state.MiCols+32)
+		t.AboveDcContext[i] = make([]int, state.MiCols+32)
 	}
 
 	for i := 0; i < state.MiCols; i++ {
@@ -712,11 +712,11 @@ func (t *TileGroup) clearAboveContext(state *state.State) {
 func (t *TileGroup) clearLeftContext(state *state.State) {
 	t.LeftLevelContext = make([][]int, 3)
 	t.LeftDcContext = [3][]int{}
-	t.LeftSegPredContext = make([]int, 3)
+	t.LeftSegPredContext = make([]int, state.MiRows+32)
 
 	for i := 0; i < 3; i++ {
-		t.LeftLevelContext[i] = make([]int, state.MiRows)
-		t.LeftDcContext[i] = make([]int, state.MiRows)
+		t.LeftLevelContext[i] = make([]int, state.MiRows+32)
+		t.LeftDcContext[i] = make([]int, state.MiRows+32)
 	}
 
 	for i := 0; i < state.MiRows; i++ {
-- 
2.43.0


From 5effdaea26b9e9b1d5d1845ea48970e6a62a34c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:02 +0000
Subject: [PATCH 047/163] fix: the decoded flags of a superblock were cleared
 without its neighbours above and to the left

---
 internal/tilegroup/tile_group.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index 622116f..f8e4980 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -759,7 +759,7 @@ func (t *TileGroup) decodeTile(b *bitstream.BitStream, state *state.State, sh se
 		for c := state.MiColStart; c < state.MiColEnd; c += sbSize4 {
 			state.ReadDeltas = uh.DeltaQPresent
 			state.Cdef.ClearCdef(r, c, sh.Use128x128SuperBlock, state.CdefSize4)
-			t.clearBlockDecodedFlags(r, c, sbSize, state, sh)
+			t.clearBlockDecodedFlags(r, c, sbSize4, state, sh)
 			t.readLr(r, c, sbSize, b, state, uh, sh)
 			t.decodePartition(r, c, sbSize, b, state, sh, uh)
 		}
@@ -785,20 +785,23 @@ func (t *TileGroup) clearBlockDecodedFlags(r int, c int, sbSize4 int, state *sta
 
 		for y := -1; y <= (sbSize4 >> subY); y++ {
 			for x := -1; x <= (sbSize4 >> subX); x++ {
+				// index -1 is kept in the last element
+				yIdx := y
 				if y < 0 {
-					y = len(state.BlockDecoded[plane]) + y
+					yIdx = len(state.BlockDecoded[plane]) + y
 				}
 
+				xIdx := x
 				if x < 0 {
-					x = len(state.BlockDecoded[plane][y]) + x
+					xIdx = len(state.BlockDecoded[plane][yIdx]) + x
 				}
 
 				if y < 0 && x < sbWidth4 {
-					state.BlockDecoded[plane][y][x] = true
+					state.BlockDecoded[plane][yIdx][xIdx] = true
 				} else if x < 0 && y < sbHeight4 {
-					state.BlockDecoded[plane][y][x] = true
+					state.BlockDecoded[plane][yIdx][xIdx] = true
 				} else {
-					state.BlockDecoded[plane][y][x] = false
+					state.BlockDecoded[plane][yIdx][xIdx] = false
 				}
 			}
 		}
-- 
2.43.0


From 2bdab4f6ac74bba4be7e10258e3ddc2f3e30bf29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:02 +0000
Subject: [PATCH 048/163] fix: precision of the division lookup used by warps

---
 internal/tilegroup/tile_group.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index f8e4980..363c1e5 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -119,7 +119,7 @@ const REF_SCALE_SHIFT = 14
 const INTRA_FILTER_SCALE_BITS = 4
 
 const LS_MV_MAX = 256
-const DIV_LUT_PREC_BITS = 13
+const DIV_LUT_PREC_BITS = 14
 const DIV_LUT_BITS = 8
 
 type TileGroup struct {
-- 
2.43.0


From f03c2c5919090f0348db2aedb035ac9db265639b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:02 +0000
Subject: [PATCH 049/163] fix: negative chroma from luma factors were positive
 and the other way round

---
 internal/tilegroup/tile_group.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index 363c1e5..3d651d9 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -87,7 +87,7 @@ const UV_CFL_PRED = 13
 const MAX_ANGLE_DELTA = 3
 
 const CFL_SIGN_ZERO = 0
-const CFL_SIGN_NEG = 2
+const CFL_SIGN_NEG = 1
 
 const INTRABC_DELAY_PIXELS = 256
 
-- 
2.43.0


From 6ba3fe5ed16531d8dbb59a8220e6c8fffce35556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:02 +0000
Subject: [PATCH 050/163] fix: cdef indices were cleared outside of their
 table, with the wrong spacing, and read with 0 bits

---
 internal/cdef/cdef.go                       | 8 +++++---
 internal/tilegroup/intra_frame_mode_info.go | 2 +-
 internal/tilegroup/tile_group.go            | 2 +-
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/internal/cdef/cdef.go b/internal/cdef/cdef.go
index 7d7ec02..ef688e8 100644
--- a/internal/cdef/cdef.go
+++ b/internal/cdef/cdef.go
@@ -6,12 +6,14 @@ type Cdef struct {
 }
 
 func (cdef *Cdef) ClearCdef(r int, c int, Use128x128SuperBlock bool, cdefSize4 int) {
-	for cap(cdef.CdefIdx) < r+1 {
+	for len(cdef.CdefIdx) < r+cdefSize4+1 {
 		cdef.CdefIdx = append(cdef.CdefIdx, make([]int, 0))
 	}
 
-	for cap(cdef.CdefIdx[r]) < c+1 {
-		cdef.CdefIdx[r] = append(cdef.CdefIdx[r], 0)
+	for i := range cdef.CdefIdx {
+		for len(cdef.CdefIdx[i]) < c+cdefSize4+1 {
+			cdef.CdefIdx[i] = append(cdef.CdefIdx[i], 0)
+		}
 	}
 
 	cdef.CdefIdx[r][c] = -1
diff --git a/internal/tilegroup/intra_frame_mode_info.go b/internal/tilegroup/intra_frame_mode_info.go
index ee55ec4..2984f16 100644
--- a/internal/tilegroup/intra_frame_mode_info.go
+++ b/internal/tilegroup/intra_frame_mode_info.go
@@ -217,7 +217,7 @@ func (t *TileGroup) readCdef(b *bitstream.BitStream, uh uncompressedheader.Uncom
 	c := state.MiCol & cdefMask4
 
 	if state.Cdef.CdefIdx[r][c] == -1 {
-		state.Cdef.CdefIdx[r][c] = literal.L(state.Cdef.CdefBits, state, b, uh)
+		state.Cdef.CdefIdx[r][c] = literal.L(uh.CdefBits, state, b, uh)
 		w4 := shared.NUM_4X4_BLOCKS_WIDE[state.MiSize]
 		h4 := shared.NUM_4X4_BLOCKS_HIGH[state.MiSize]
 
diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index 3d651d9..b26cf46 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -758,7 +758,7 @@ func (t *TileGroup) decodeTile(b *bitstream.BitStream, state *state.State, sh se
 
 		for c := state.MiColStart; c < state.MiColEnd; c += sbSize4 {
 			state.ReadDeltas = uh.DeltaQPresent
-			state.Cdef.ClearCdef(r, c, sh.Use128x128SuperBlock, state.CdefSize4)
+			state.Cdef.ClearCdef(r, c, sh.Use128x128SuperBlock, shared.NUM_4X4_BLOCKS_WIDE[shared.BLOCK_64X64])
 			t.clearBlockDecodedFlags(r, c, sbSize4, state, sh)
 			t.readLr(r, c, sbSize, b, state, uh, sh)
 			t.decodePartition(r, c, sbSize, b, state, sh, uh)
-- 
2.43.0


From 66c544acbb6369d8431a1a6da3fd3f2ff66c26a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:03 +0000
Subject: [PATCH 051/163] fix: a cdef index of a 128 wide or high block never
 ended spreading to its 64x64 parts

---
 internal/tilegroup/intra_frame_mode_info.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/intra_frame_mode_info.go b/internal/tilegroup/intra_frame_mode_info.go
index 2984f16..ccb967c 100644
--- a/internal/tilegroup/intra_frame_mode_info.go
+++ b/internal/tilegroup/intra_frame_mode_info.go
@@ -222,7 +222,7 @@ func (t *TileGroup) readCdef(b *bitstream.BitStream, uh uncompressedheader.Uncom
 		h4 := shared.NUM_4X4_BLOCKS_HIGH[state.MiSize]
 
 		for i := r; i < r+h4; i += cdefSize4 {
-			for j := c; i < c+w4; i += cdefSize4 {
+			for j := c; j < c+w4; j += cdefSize4 {
 				state.Cdef.CdefIdx[i][j] = state.Cdef.CdefIdx[r][c]
 			}
 
-- 
2.43.0


From 432b1dc862fb9cae4315cc395ff1776267bbf108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:03 +0000
Subject: [PATCH 052/163] fix: first block of a horizontal, last block of a
 vertical B and vertical 4 partition

---
 internal/tilegroup/decode_partition.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/tilegroup/decode_partition.go b/internal/tilegroup/decode_partition.go
index ba90c0d..283919f 100644
--- a/internal/tilegroup/decode_partition.go
+++ b/internal/tilegroup/decode_partition.go
@@ -53,7 +53,7 @@ func (t *TileGroup) decodePartition(r int, c int, bSize int, b *bitstream.BitStr
 	if partition == PARTITION_NONE {
 		t.decodeBlock(r, c, subSize, b, state, sh, uh)
 	} else if partition == PARTITION_HORZ {
-		t.decodeBlock(r+halfBlock4x4, c, subSize, b, state, sh, uh)
+		t.decodeBlock(r, c, subSize, b, state, sh, uh)
 		if hasRows {
 			t.decodeBlock(r+halfBlock4x4, c, subSize, b, state, sh, uh)
 		}
@@ -82,7 +82,7 @@ func (t *TileGroup) decodePartition(r int, c int, bSize int, b *bitstream.BitStr
 	} else if partition == PARTITION_VERT_B {
 		t.decodeBlock(r, c, subSize, b, state, sh, uh)
 		t.decodeBlock(r, c+halfBlock4x4, splitSize, b, state, sh, uh)
-		t.decodeBlock(r+halfBlock4x4, c+halfBlock4x4, subSize, b, state, sh, uh)
+		t.decodeBlock(r+halfBlock4x4, c+halfBlock4x4, splitSize, b, state, sh, uh)
 	} else if partition == PARTITION_HORZ_4 {
 		t.decodeBlock(r+quarterBlock4x4*0, c, subSize, b, state, sh, uh)
 		t.decodeBlock(r+quarterBlock4x4*1, c, subSize, b, state, sh, uh)
@@ -94,7 +94,7 @@ func (t *TileGroup) decodePartition(r int, c int, bSize int, b *bitstream.BitStr
 		t.decodeBlock(r, c+quarterBlock4x4*0, subSize, b, state, sh, uh)
 		t.decodeBlock(r, c+quarterBlock4x4*1, subSize, b, state, sh, uh)
 		t.decodeBlock(r, c+quarterBlock4x4*2, subSize, b, state, sh, uh)
-		if c+quarterBlock4x4*3 < state.MiRows {
+		if c+quarterBlock4x4*3 < state.MiCols {
 			t.decodeBlock(r, c+quarterBlock4x4*3, subSize, b, state, sh, uh)
 		}
 	}
-- 
2.43.0


From 1e8be30cd8d966a08c52ba79e9d3fe7dc27b1794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:03 +0000
Subject: [PATCH 053/163] fix: splitting a block at the frame edge panicked

---
 internal/tilegroup/decode_partition.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/decode_partition.go b/internal/tilegroup/decode_partition.go
index 283919f..facbe13 100644
--- a/internal/tilegroup/decode_partition.go
+++ b/internal/tilegroup/decode_partition.go
@@ -132,7 +132,7 @@ func splitOrVertElement(bSize int, r int, c int, state *state.State, uh uncompre
 	cdf := make([]int, 3)
 	cdf[0] = (1 << 15) - psum
 	cdf[1] = 1 << 15
-	cdf[3] = 0
+	cdf[2] = 0
 
 	return symbol.ReadSymbol(cdf, state, b, uh)
 }
@@ -169,7 +169,7 @@ func splitOrHorzElement(bSize int, r int, c int, state *state.State, uh uncompre
 	cdf := make([]int, 3)
 	cdf[0] = (1 << 15) - psum
 	cdf[1] = 1 << 15
-	cdf[3] = 0
+	cdf[2] = 0
 
 	return symbol.ReadSymbol(cdf, state, b, uh)
 }
-- 
2.43.0


From e25d2ed5859294b20242193bf55814b1ca04e130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:04 +0000
Subject: [PATCH 054/163] fix: what was decoded for a block was stored from, or
 gated by, state that is never set

---
 internal/tilegroup/decode_block.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/decode_block.go b/internal/tilegroup/decode_block.go
index 7a120d6..1c009db 100644
--- a/internal/tilegroup/decode_block.go
+++ b/internal/tilegroup/decode_block.go
@@ -46,7 +46,7 @@ func (t *TileGroup) decodeBlock(r int, c int, subSize int, b *bitstream.BitStrea
 	t.paletteTokens(b, state, sh)
 	t.readBlockTxSize(b, state, uh)
 
-	if util.Bool(state.Skip) {
+	if util.Bool(t.Skip) {
 		t.resetBlockContext(bw4, bh4, b, state, sh)
 	}
 
@@ -64,7 +64,7 @@ func (t *TileGroup) decodeBlock(r int, c int, subSize int, b *bitstream.BitStrea
 				state.RefFrames[r+y][c+x][refList] = state.RefFrame[refList]
 			}
 
-			if util.Bool(state.IsInter) {
+			if util.Bool(t.IsInter) {
 				if !util.Bool(t.useIntrabc) {
 					t.CompGroupIdxs[r+y][c+x] = t.CompGroupIdx
 					t.CompoundIdxs[r+y][c+x] = t.CompoundIdx
-- 
2.43.0


From 3ac14452f5592a7e1f1f00d4dfa01a91743f2562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:04 +0000
Subject: [PATCH 055/163] fix: contexts of the last column and row of an odd
 sized chroma block were not reset

---
 internal/tilegroup/decode_block.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/decode_block.go b/internal/tilegroup/decode_block.go
index 1c009db..7af295c 100644
--- a/internal/tilegroup/decode_block.go
+++ b/internal/tilegroup/decode_block.go
@@ -124,12 +124,12 @@ func (t *TileGroup) resetBlockContext(bw4 int, bh4 int, b *bitstream.BitStream,
 			subY = util.Int(sh.ColorConfig.SubsamplingY)
 		}
 
-		for i := state.MiCol >> subX; i < ((state.MiCol + bw4) >> subX); i++ {
+		for i := state.MiCol >> subX; i <= ((state.MiCol + bw4 - 1) >> subX); i++ {
 			t.AboveLevelContext[plane][i] = 0
 			t.AboveDcContext[plane][i] = 0
 		}
 
-		for i := state.MiRow >> subY; i < ((state.MiRow + bh4) >> subY); i++ {
+		for i := state.MiRow >> subY; i <= ((state.MiRow + bh4 - 1) >> subY); i++ {
 			t.LeftLevelContext[plane][i] = 0
 			t.LeftDcContext[plane][i] = 0
 		}
-- 
2.43.0


From cf0220ebb5661023409b1b8ff4a550d38ac47eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:04 +0000
Subject: [PATCH 056/163] fix: segment ids of blocks were not stored

---
 internal/tilegroup/decode_block.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/tilegroup/decode_block.go b/internal/tilegroup/decode_block.go
index 7af295c..1392e70 100644
--- a/internal/tilegroup/decode_block.go
+++ b/internal/tilegroup/decode_block.go
@@ -89,6 +89,7 @@ func (t *TileGroup) decodeBlock(r int, c int, subSize int, b *bitstream.BitStrea
 			t.Skips[r+y][c+x] = t.Skip
 			t.TxSizes[r+y][c+x] = t.TxSize
 			state.MiSizes[r+y][c+x] = state.MiSize
+			t.SegmentIds[r+y][c+x] = t.SegmentId
 			t.PaletteSizes[0][r+y][c+x] = t.PaletteSizeY
 			t.PaletteSizes[1][r+y][c+x] = t.PaletteSizeUV
 
-- 
2.43.0


From ccc29755fb79a4898648c8f635d02f275e26a68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:04 +0000
Subject: [PATCH 057/163] fix: intra frames stored NONE as their first
 reference

---
 internal/tilegroup/intra_frame_mode_info.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/intra_frame_mode_info.go b/internal/tilegroup/intra_frame_mode_info.go
index ccb967c..6619fbe 100644
--- a/internal/tilegroup/intra_frame_mode_info.go
+++ b/internal/tilegroup/intra_frame_mode_info.go
@@ -30,7 +30,7 @@ func (t *TileGroup) intraFrameModeInfo(b *bitstream.BitStream, uh uncompressedhe
 
 	state.ReadDeltas = false
 	state.RefFrame[0] = shared.INTRA_FRAME
-	state.RefFrame[0] = shared.NONE
+	state.RefFrame[1] = shared.NONE
 
 	if uh.AllowIntraBc {
 		t.useIntrabc = b.S()
-- 
2.43.0


From 07db67e57088c04ba493beaeef38aaf921cfa847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:05 +0000
Subject: [PATCH 058/163] fix: use_intrabc was not read and intra block copy
 was not taken as inter prediction

---
 internal/tilegroup/intra_frame_mode_info.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/intra_frame_mode_info.go b/internal/tilegroup/intra_frame_mode_info.go
index 6619fbe..290baf9 100644
--- a/internal/tilegroup/intra_frame_mode_info.go
+++ b/internal/tilegroup/intra_frame_mode_info.go
@@ -33,15 +33,16 @@ func (t *TileGroup) intraFrameModeInfo(b *bitstream.BitStream, uh uncompressedhe
 	state.RefFrame[1] = shared.NONE
 
 	if uh.AllowIntraBc {
-		t.useIntrabc = b.S()
+		t.useIntrabc = symbol.ReadSymbol(state.TileIntrabcCdf, state, b, uh)
 	} else {
 		t.useIntrabc = 0
 	}
 
 	if util.Bool(t.useIntrabc) {
-		t.IsInter = -1
+		t.IsInter = 1
 		t.YMode = DC_PRED
 		t.UVMode = DC_PRED
+		t.UseFilterIntra = false
 		t.MotionMode = SIMPLE
 		t.CompoundType = COMPUND_AVERAGE
 		t.PaletteSizeY = 0
-- 
2.43.0


From f5491d4558225b16469f6dd9e2cc6be3b9f097fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:05 +0000
Subject: [PATCH 059/163] fix: chroma from luma was not allowed for 32 sample
 blocks

---
 internal/tilegroup/intra_frame_mode_info.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/intra_frame_mode_info.go b/internal/tilegroup/intra_frame_mode_info.go
index 290baf9..b8e0319 100644
--- a/internal/tilegroup/intra_frame_mode_info.go
+++ b/internal/tilegroup/intra_frame_mode_info.go
@@ -61,7 +61,7 @@ func (t *TileGroup) intraFrameModeInfo(b *bitstream.BitStream, uh uncompressedhe
 			var uvMode int
 			if t.Lossless && t.getPlaneResidualSize(state.MiSize, 1, sh) == shared.BLOCK_4X4 {
 				uvMode = symbol.ReadSymbol(state.TileUVModeCflAllowedCdf[t.YMode], state, b, uh)
-			} else if !t.Lossless && util.Max(shared.BLOCK_WIDTH[state.MiSize], shared.BLOCK_HEIGHT[state.MiSize]) < 32 {
+			} else if !t.Lossless && util.Max(shared.BLOCK_WIDTH[state.MiSize], shared.BLOCK_HEIGHT[state.MiSize]) <= 32 {
 				uvMode = symbol.ReadSymbol(state.TileUVModeCflAllowedCdf[t.YMode], state, b, uh)
 			} else {
 				uvMode = symbol.ReadSymbol(state.TileUVModeCflNotAllowedCdf[t.YMode], state, b, uh)
-- 
2.43.0


From 1f7a8e947cb22ffc6b357335b802adafca38cd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:05 +0000
Subject: [PATCH 060/163] fix: the context of skip used the skip modes of the
 neighbours

---
 internal/tilegroup/intra_frame_mode_info.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/intra_frame_mode_info.go b/internal/tilegroup/intra_frame_mode_info.go
index b8e0319..4ea0a3c 100644
--- a/internal/tilegroup/intra_frame_mode_info.go
+++ b/internal/tilegroup/intra_frame_mode_info.go
@@ -175,10 +175,10 @@ func (t *TileGroup) readSkip(b *bitstream.BitStream, uh uncompressedheader.Uncom
 	} else {
 		ctx := 0
 		if state.AvailU {
-			ctx += t.SkipModes[state.MiRow-1][state.MiCol]
+			ctx += t.Skips[state.MiRow-1][state.MiCol]
 		}
 		if state.AvailL {
-			ctx += t.SkipModes[state.MiRow][state.MiCol-1]
+			ctx += t.Skips[state.MiRow][state.MiCol-1]
 		}
 
 		t.Skip = symbol.ReadSymbol(state.TileSkipCdf[ctx], state, b, uh)
-- 
2.43.0


From b1214be235bed89971e32e2755bebaf4883cf35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:06 +0000
Subject: [PATCH 061/163] fix: segment ids were not clipped to the last active
 segment

---
 internal/tilegroup/intra_frame_mode_info.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/tilegroup/intra_frame_mode_info.go b/internal/tilegroup/intra_frame_mode_info.go
index 4ea0a3c..5a17813 100644
--- a/internal/tilegroup/intra_frame_mode_info.go
+++ b/internal/tilegroup/intra_frame_mode_info.go
@@ -165,6 +165,7 @@ func (t *TileGroup) readSegmentId(b *bitstream.BitStream, uh uncompressedheader.
 
 		t.SegmentId = symbol.ReadSymbol(state.TileSegmentIdCdf[ctx], state, b, uh)
 		t.SegmentId = util.NegDeinterleave(t.SegmentId, pred, uh.LastActiveSegId+1)
+		t.SegmentId = util.Clip3(0, uh.LastActiveSegId, t.SegmentId)
 	}
 }
 
-- 
2.43.0


From 11fc01d9739ee63f19fffa7340bd75cfd5677ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:06 +0000
Subject: [PATCH 062/163] fix: filter intra was never read

---
 internal/tilegroup/inter_frame_mode_info.go |  2 +-
 internal/tilegroup/intra_frame_mode_info.go | 12 ++++++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/internal/tilegroup/inter_frame_mode_info.go b/internal/tilegroup/inter_frame_mode_info.go
index 26a30c6..fab1292 100644
--- a/internal/tilegroup/inter_frame_mode_info.go
+++ b/internal/tilegroup/inter_frame_mode_info.go
@@ -99,7 +99,7 @@ func (t *TileGroup) intraBlockModeInfo(b *bitstream.BitStream, state *state.Stat
 		t.paletteModeInfo(b, state, sh, uh)
 	}
 
-	t.filterIntraModeInfo(b, sh, state)
+	t.filterIntraModeInfo(b, sh, uh, state)
 }
 
 // inter_segment_id( preSkip )
diff --git a/internal/tilegroup/intra_frame_mode_info.go b/internal/tilegroup/intra_frame_mode_info.go
index 5a17813..0ba94e3 100644
--- a/internal/tilegroup/intra_frame_mode_info.go
+++ b/internal/tilegroup/intra_frame_mode_info.go
@@ -82,7 +82,7 @@ func (t *TileGroup) intraFrameModeInfo(b *bitstream.BitStream, uh uncompressedhe
 		if state.MiSize >= shared.BLOCK_8X8 && shared.BLOCK_WIDTH[state.MiSize] <= 64 && shared.BLOCK_HEIGHT[state.MiSize] <= 64 && util.Bool(uh.AllowScreenContentTools) {
 			t.paletteModeInfo(b, state, sh, uh)
 		}
-		t.filterIntraModeInfo(b, sh, state)
+		t.filterIntraModeInfo(b, sh, uh, state)
 	}
 }
 
@@ -384,13 +384,13 @@ func (t *TileGroup) intraAngleInfoUv(b *bitstream.BitStream, state *state.State,
 }
 
 // filter_intra_mode_info()
-func (t *TileGroup) filterIntraModeInfo(b *bitstream.BitStream, sh sequenceheader.SequenceHeader, state *state.State) {
-	useFilterIntra := false
+func (t *TileGroup) filterIntraModeInfo(b *bitstream.BitStream, sh sequenceheader.SequenceHeader, uh uncompressedheader.UncompressedHeader, state *state.State) {
+	t.UseFilterIntra = false
 	if sh.EnableFilterIntra && t.YMode == DC_PRED && t.PaletteSizeY == 0 && util.Max(shared.BLOCK_WIDTH[state.MiSize], shared.BLOCK_HEIGHT[state.MiSize]) <= 32 {
-		useFilterIntra = util.Bool(b.S())
+		t.UseFilterIntra = util.Bool(symbol.ReadSymbol(state.TileFilterIntraCdf[state.MiSize], state, b, uh))
 
-		if useFilterIntra {
-			t.FilterIntraMode = b.S()
+		if t.UseFilterIntra {
+			t.FilterIntraMode = symbol.ReadSymbol(state.TileFilterIntraModeCdf, state, b, uh)
 		}
 	}
 }
-- 
2.43.0


From 1fc84e26fdde2be63cde280d07b6c0112986834c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:06 +0000
Subject: [PATCH 063/163] fix: luma restoration units were counted as
 subsampled

---
 internal/tilegroup/read_loop_restoration.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/read_loop_restoration.go b/internal/tilegroup/read_loop_restoration.go
index bf28edb..2a9a15a 100644
--- a/internal/tilegroup/read_loop_restoration.go
+++ b/internal/tilegroup/read_loop_restoration.go
@@ -25,11 +25,11 @@ func (t *TileGroup) readLr(r int, c int, bSize int, b *bitstream.BitStream, stat
 			subX := 0
 			subY := 0
 
-			if sh.ColorConfig.SubsamplingX {
+			if plane > 0 && sh.ColorConfig.SubsamplingX {
 				subX = 1
 			}
 
-			if sh.ColorConfig.SubsamplingY {
+			if plane > 0 && sh.ColorConfig.SubsamplingY {
 				subY = 1
 			}
 
-- 
2.43.0


From 400c55b282ff372f45ede61a7bd110637f5d3bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:06 +0000
Subject: [PATCH 064/163] fix: reading use_wiener and use_sgrproj panicked

---
 internal/tilegroup/read_loop_restoration.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/read_loop_restoration.go b/internal/tilegroup/read_loop_restoration.go
index 2a9a15a..fb03ea9 100644
--- a/internal/tilegroup/read_loop_restoration.go
+++ b/internal/tilegroup/read_loop_restoration.go
@@ -64,13 +64,13 @@ func (t *TileGroup) readLr(r int, c int, bSize int, b *bitstream.BitStream, stat
 func (t *TileGroup) readLrUnit(plane int, unitRow int, unitCol int, state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) {
 	var restorationType int
 	if uh.FrameRestorationType[plane] == shared.RESTORE_WIENER {
-		useWiener := b.S()
+		useWiener := symbol.ReadSymbol(state.TileUseWienerCdf, state, b, uh)
 		restorationType = shared.RESTORE_NONE
 		if useWiener == 1 {
 			restorationType = shared.RESTORE_WIENER
 		}
 	} else if uh.FrameRestorationType[plane] == shared.RESTORE_SGRPROJ {
-		useSgrproj := b.S()
+		useSgrproj := symbol.ReadSymbol(state.TileUseSgrprojCdf, state, b, uh)
 		restorationType = shared.RESTORE_NONE
 		if useSgrproj == 1 {
 			restorationType = shared.RESTORE_SGRPROJ
-- 
2.43.0


From 29db7cb99eb48ae8ab96007bd3ce3c21865e2431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:07 +0000
Subject: [PATCH 065/163] fix: the first Wiener coefficient of the V plane was
 read

---
 internal/tilegroup/read_loop_restoration.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/read_loop_restoration.go b/internal/tilegroup/read_loop_restoration.go
index fb03ea9..68346bb 100644
--- a/internal/tilegroup/read_loop_restoration.go
+++ b/internal/tilegroup/read_loop_restoration.go
@@ -84,7 +84,7 @@ func (t *TileGroup) readLrUnit(plane int, unitRow int, unitCol int, state *state
 	if restorationType == shared.RESTORE_WIENER {
 		for pass := 0; pass < 2; pass++ {
 			var firstCoeff int
-			if plane == 1 {
+			if plane > 0 {
 				firstCoeff = 1
 				t.LrWiener[plane][unitRow][unitCol][pass][0] = 0
 			} else {
-- 
2.43.0


From e22c209e9fd7ebf03c16ff1eed57909328061813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:07 +0000
Subject: [PATCH 066/163] fix: restoration coefficients beyond the first subexp
 ranges

---
 internal/tilegroup/read_loop_restoration.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/tilegroup/read_loop_restoration.go b/internal/tilegroup/read_loop_restoration.go
index 68346bb..1242830 100644
--- a/internal/tilegroup/read_loop_restoration.go
+++ b/internal/tilegroup/read_loop_restoration.go
@@ -145,14 +145,14 @@ func (t *TileGroup) decodeSubexpBool(numSyms int, k int, state *state.State, b *
 	mk := 0
 	for {
 		b2 := k
-		if i == 1 {
+		if i > 0 {
 			b2 = k + i - 1
 		}
 
 		a := 1 << b2
 
-		if numSyms <= -mk+3*a {
-			subexpUnifBools := literal.L(1, state, b, uh)
+		if numSyms <= mk+3*a {
+			subexpUnifBools := literal.NS(numSyms-mk, state, b, uh)
 			return subexpUnifBools + mk
 		} else {
 			subexpMoreBools := literal.L(1, state, b, uh) != 0
-- 
2.43.0


From 93a71f460e44fe73fa1862374a4cff753e5d4bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:07 +0000
Subject: [PATCH 067/163] fix: transform size was read for skipped inter blocks

---
 internal/tilegroup/tx_size.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/tx_size.go b/internal/tilegroup/tx_size.go
index a05e8ec..6ccd385 100644
--- a/internal/tilegroup/tx_size.go
+++ b/internal/tilegroup/tx_size.go
@@ -29,7 +29,7 @@ func (t *TileGroup) readBlockTxSize(b *bitstream.BitStream, state *state.State,
 			}
 		}
 	} else {
-		t.readTxSize(!util.Bool(t.Skip) || util.Bool(t.IsInter), b, state, uh)
+		t.readTxSize(!util.Bool(t.Skip) || !util.Bool(t.IsInter), b, state, uh)
 		for row := state.MiRow; row < state.MiRow+bh4; row++ {
 			for col := state.MiCol; col < state.MiCol+bw4; col++ {
 				t.InterTxSizes[row][col] = t.TxSize
-- 
2.43.0


From 07be67c6a7f4aeaa709120b984ad3306e9cbf18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:07 +0000
Subject: [PATCH 068/163] fix: the context of the transform depth mixed up
 above and left

---
 internal/tilegroup/tx_size.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/tx_size.go b/internal/tilegroup/tx_size.go
index 6ccd385..1fced08 100644
--- a/internal/tilegroup/tx_size.go
+++ b/internal/tilegroup/tx_size.go
@@ -74,7 +74,7 @@ func (t *TileGroup) txDepthSymbol(maxRectTxSize int, maxTxDepth int, state *stat
 	var leftH int
 	if state.AvailL && util.Bool(t.IsInters[state.MiRow][state.MiCol-1]) {
 		leftH = shared.BLOCK_HEIGHT[state.MiSizes[state.MiRow][state.MiCol-1]]
-	} else if state.AvailU {
+	} else if state.AvailL {
 		leftH = t.getLeftTxHeight(state.MiRow, state.MiCol, state)
 	} else {
 		leftH = 0
@@ -106,7 +106,7 @@ func (t *TileGroup) getAboveTxWidth(row int, col int, state *state.State) int {
 }
 
 func (t *TileGroup) getLeftTxHeight(row int, col int, state *state.State) int {
-	if row == state.MiCol {
+	if col == state.MiCol {
 		if !state.AvailL {
 			return 64
 		} else if util.Bool(t.Skips[row][col-1]) && util.Bool(t.IsInters[row][col-1]) {
-- 
2.43.0


From 530d8974fc0df348c79c66ed4b3794bd26d7dde4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:08 +0000
Subject: [PATCH 069/163] fix: inter transform sizes were stored in the wrong
 columns

---
 internal/tilegroup/tx_size.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/tx_size.go b/internal/tilegroup/tx_size.go
index 1fced08..d0d19b7 100644
--- a/internal/tilegroup/tx_size.go
+++ b/internal/tilegroup/tx_size.go
@@ -145,7 +145,7 @@ func (t *TileGroup) readVarTxSize(row int, col int, txSz int, depth int, b *bits
 	} else {
 		for i := 0; i < h4; i++ {
 			for j := 0; j < w4; j++ {
-				t.InterTxSizes[row+i][col+i] = txSz
+				t.InterTxSizes[row+i][col+j] = txSz
 			}
 		}
 		t.TxSize = txSz
-- 
2.43.0


From dadf72824374d946776d794adb4fbdb5245e6d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:08 +0000
Subject: [PATCH 070/163] fix: reading txfm_split panicked

---
 internal/tilegroup/tx_size.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/internal/tilegroup/tx_size.go b/internal/tilegroup/tx_size.go
index d0d19b7..47a711b 100644
--- a/internal/tilegroup/tx_size.go
+++ b/internal/tilegroup/tx_size.go
@@ -25,7 +25,7 @@ func (t *TileGroup) readBlockTxSize(b *bitstream.BitStream, state *state.State,
 
 		for row := state.MiRow; row < state.MiRow+bh4; row += txH4 {
 			for col := state.MiCol; col < state.MiCol+bw4; col += txW4 {
-				t.readVarTxSize(row, col, maxTxSz, 0, b, state)
+				t.readVarTxSize(row, col, maxTxSz, 0, b, state, uh)
 			}
 		}
 	} else {
@@ -117,7 +117,7 @@ func (t *TileGroup) getLeftTxHeight(row int, col int, state *state.State) int {
 }
 
 // read_var_tx_size( row, col, txSz, depth )
-func (t *TileGroup) readVarTxSize(row int, col int, txSz int, depth int, b *bitstream.BitStream, state *state.State) {
+func (t *TileGroup) readVarTxSize(row int, col int, txSz int, depth int, b *bitstream.BitStream, state *state.State, uh uncompressedheader.UncompressedHeader) {
 	if row >= state.MiRows || col >= state.MiCols {
 		return
 	}
@@ -126,7 +126,7 @@ func (t *TileGroup) readVarTxSize(row int, col int, txSz int, depth int, b *bits
 	if txSz == TX_4X4 || depth == MAX_VARTX_DEPTH {
 		txfmSplit = 0
 	} else {
-		txfmSplit = b.S()
+		txfmSplit = t.txfmSplitSymbol(row, col, txSz, state, b, uh)
 	}
 
 	w4 := Tx_Width[txSz] / MI_SIZE
@@ -139,7 +139,7 @@ func (t *TileGroup) readVarTxSize(row int, col int, txSz int, depth int, b *bits
 
 		for i := 0; i < h4; i += stepH {
 			for j := 0; j < w4; j += stepW {
-				t.readVarTxSize(row+i, col+j, subTxSz, depth+1, b, state)
+				t.readVarTxSize(row+i, col+j, subTxSz, depth+1, b, state, uh)
 			}
 		}
 	} else {
@@ -152,6 +152,17 @@ func (t *TileGroup) readVarTxSize(row int, col int, txSz int, depth int, b *bits
 	}
 }
 
+func (t *TileGroup) txfmSplitSymbol(row int, col int, txSz int, state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) int {
+	above := util.Int(t.getAboveTxWidth(row, col, state) < Tx_Width[txSz])
+	left := util.Int(t.getLeftTxHeight(row, col, state) < Tx_Height[txSz])
+	size := util.Min(64, util.Max(shared.BLOCK_WIDTH[state.MiSize], shared.BLOCK_HEIGHT[state.MiSize]))
+	maxTxSz := findTxSize(size, size)
+	txSzSqrUp := TX_SIZE_SQR_UP[txSz]
+	ctx := util.Int(txSzSqrUp != maxTxSz)*3 + (TX_64X64-maxTxSz)*6 + above + left
+
+	return symbol.ReadSymbol(state.TileTxfmSplitCdf[ctx], state, b, uh)
+}
+
 const MAX_VARTX_DEPTH = 2
 
 const TX_4X4 = 0
-- 
2.43.0


From 11b56677f33d202b18c9a32435422c6790622388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:23 +0000
Subject: [PATCH 071/163] fix: only the first 64x64 part of a large block was
 decoded because block dimensions are never set

---
 internal/tilegroup/residual.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/residual.go b/internal/tilegroup/residual.go
index 4e93f38..32ff07e 100644
--- a/internal/tilegroup/residual.go
+++ b/internal/tilegroup/residual.go
@@ -11,8 +11,8 @@ import (
 
 // residual( )
 func (t *TileGroup) residual(sh sequenceheader.SequenceHeader, state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) {
-	widthChunks := util.Max(1, state.BlockWidth[state.MiSize]>>6)
-	heightChunks := util.Max(1, state.BlockHeight[state.MiSize]>>6)
+	widthChunks := util.Max(1, shared.BLOCK_WIDTH[state.MiSize]>>6)
+	heightChunks := util.Max(1, shared.BLOCK_HEIGHT[state.MiSize]>>6)
 
 	miSizeChunk := state.MiSize
 	if widthChunks > 1 || heightChunks > 1 {
-- 
2.43.0


From 9fcc53436977b1b9fc2e357206fef9c558642d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:23 +0000
Subject: [PATCH 072/163] fix: the column of a transform block was its row

---
 internal/tilegroup/residual.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/residual.go b/internal/tilegroup/residual.go
index 32ff07e..7b2422a 100644
--- a/internal/tilegroup/residual.go
+++ b/internal/tilegroup/residual.go
@@ -94,7 +94,7 @@ func (t *TileGroup) transformBlock(plane int, baseX int, baseY int, txSz int, x
 	}
 
 	row := (startY << subY) >> shared.MI_SIZE_LOG2
-	col := (startY << subY) >> shared.MI_SIZE_LOG2
+	col := (startX << subX) >> shared.MI_SIZE_LOG2
 
 	sbMask := 15
 	if sh.Use128x128SuperBlock {
-- 
2.43.0


From d09f80dcdc55d8bcbc1f95209c553501c2e12729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:24 +0000
Subject: [PATCH 073/163] fix: position within a 128x128 superblock

---
 internal/tilegroup/residual.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/residual.go b/internal/tilegroup/residual.go
index 7b2422a..830b3a4 100644
--- a/internal/tilegroup/residual.go
+++ b/internal/tilegroup/residual.go
@@ -98,7 +98,7 @@ func (t *TileGroup) transformBlock(plane int, baseX int, baseY int, txSz int, x
 
 	sbMask := 15
 	if sh.Use128x128SuperBlock {
-		sbMask = 21
+		sbMask = 31
 	}
 
 	subBlockMiRow := row & sbMask
-- 
2.43.0


From 54726fe635096450be207e54d896c5bb1766eb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:24 +0000
Subject: [PATCH 074/163] fix: luma was predicted with the availability of
 chroma neighbours and the other way round

---
 internal/tilegroup/residual.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/residual.go b/internal/tilegroup/residual.go
index 830b3a4..6f6faf8 100644
--- a/internal/tilegroup/residual.go
+++ b/internal/tilegroup/residual.go
@@ -132,7 +132,7 @@ func (t *TileGroup) transformBlock(plane int, baseX int, baseY int, txSz int, x
 
 			conditionL := state.AvailL
 			conditionU := state.AvailU
-			if plane == 0 {
+			if plane > 0 {
 				conditionL = state.AvailLChroma
 				conditionU = state.AvailUChroma
 			}
-- 
2.43.0


From b97f4378900ee9a22fecb2b5e0ac7447a5691a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:24 +0000
Subject: [PATCH 075/163] fix: transform sizes for the loop filter were stored
 with the wrong width and column

---
 internal/tilegroup/residual.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/residual.go b/internal/tilegroup/residual.go
index 6f6faf8..f6899c1 100644
--- a/internal/tilegroup/residual.go
+++ b/internal/tilegroup/residual.go
@@ -183,8 +183,8 @@ func (t *TileGroup) transformBlock(plane int, baseX int, baseY int, txSz int, x
 	}
 
 	for i := 0; i < stepY; i++ {
-		for j := 0; j < stepY; j++ {
-			t.LoopFilterTxSizes[plane][(row>>subY)+i][(col>>subX + j)] = txSz
+		for j := 0; j < stepX; j++ {
+			t.LoopFilterTxSizes[plane][(row>>subY)+i][(col>>subX)+j] = txSz
 			state.BlockDecoded[plane][(subBlockMiRow>>subY)+i][(subBlockMiCol>>subX)+j] = true
 		}
 	}
-- 
2.43.0


From b5ccdd15c9e9bd3c035ea5e40720e35e86c9b763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:24 +0000
Subject: [PATCH 076/163] fix: chroma palette prediction had no color map

---
 internal/tilegroup/residual.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/tilegroup/residual.go b/internal/tilegroup/residual.go
index f6899c1..afba525 100644
--- a/internal/tilegroup/residual.go
+++ b/internal/tilegroup/residual.go
@@ -206,6 +206,7 @@ func (t *TileGroup) palettePrediction(plane int, startX int, startY int, x int,
 
 	// map is a reserved keyword
 	var mapp [][]int
+	mapp = t.ColorMapUV
 	if plane == 0 {
 		mapp = t.ColorMapY
 	}
-- 
2.43.0


From f17be62485b45f3474f49a85c2dda16ba2ff98ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:25 +0000
Subject: [PATCH 077/163] fix: chroma from luma used the factor of V for both
 planes

---
 internal/tilegroup/residual.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/residual.go b/internal/tilegroup/residual.go
index afba525..95787cf 100644
--- a/internal/tilegroup/residual.go
+++ b/internal/tilegroup/residual.go
@@ -225,7 +225,7 @@ func (t *TileGroup) predictChromaFromLuma(plane int, startX int, startY int, txS
 	subX := util.Int(sh.ColorConfig.SubsamplingX)
 	subY := util.Int(sh.ColorConfig.SubsamplingY)
 	var alpha int
-	if plane == 0 {
+	if plane == 1 {
 		alpha = t.CflAlphaU
 	} else {
 		alpha = t.CflAlphaV
-- 
2.43.0


From a20705b81e9a23c33d45c920155c104010c0373a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:25 +0000
Subject: [PATCH 078/163] fix: the number of coefficients was not returned, so
 no residual was ever added

---
 internal/tilegroup/coeffs.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/internal/tilegroup/coeffs.go b/internal/tilegroup/coeffs.go
index 8c9d7ad..6603d43 100644
--- a/internal/tilegroup/coeffs.go
+++ b/internal/tilegroup/coeffs.go
@@ -87,7 +87,6 @@ func (t *TileGroup) coeffs(plane int, startX int, startY int, txSz int, b *bitst
 			eobPt = eob_pt_1024 + 1
 		}
 
-		var eob int
 		if eobPt < 2 {
 			eob = eobPt
 		} else {
-- 
2.43.0


From f45e37ff35f536eae0aacd3acf137a3cf083a876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:25 +0000
Subject: [PATCH 079/163] fix: coefficient signs were not read

---
 internal/tilegroup/coeffs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/coeffs.go b/internal/tilegroup/coeffs.go
index 6603d43..a4da794 100644
--- a/internal/tilegroup/coeffs.go
+++ b/internal/tilegroup/coeffs.go
@@ -143,7 +143,7 @@ func (t *TileGroup) coeffs(plane int, startX int, startY int, txSz int, b *bitst
 					dcSign := t.readDcSignSymbol(plane, w4, h4, x4, y4, ptype, state, b, uh, sh)
 					sign = dcSign
 				} else {
-					signBit := literal.L(0, state, b, uh)
+					signBit := literal.L(1, state, b, uh)
 					sign = signBit
 				}
 			} else {
-- 
2.43.0


From d9ba57949590ce1dd77d5a6c136c43d55728b277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:26 +0000
Subject: [PATCH 080/163] fix: large coefficients were cut to 16 bits

---
 internal/tilegroup/coeffs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/coeffs.go b/internal/tilegroup/coeffs.go
index a4da794..490cd95 100644
--- a/internal/tilegroup/coeffs.go
+++ b/internal/tilegroup/coeffs.go
@@ -175,7 +175,7 @@ func (t *TileGroup) coeffs(plane int, startX int, startY int, txSz int, b *bitst
 				}
 			}
 
-			t.Quant[pos] = t.Quant[pos] & 0xFFFF
+			t.Quant[pos] = t.Quant[pos] & 0xFFFFF
 			culLevel += t.Quant[pos]
 			if util.Bool(sign) {
 				t.Quant[pos] = -t.Quant[pos]
-- 
2.43.0


From 6028a67fbced9cc378b7b776a669bafaafd53570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:26 +0000
Subject: [PATCH 081/163] fix: AC coefficients were scaled with the DC
 quantizer table

---
 internal/tilegroup/reconstruct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/reconstruct.go b/internal/tilegroup/reconstruct.go
index b50e99e..237cf44 100644
--- a/internal/tilegroup/reconstruct.go
+++ b/internal/tilegroup/reconstruct.go
@@ -127,7 +127,7 @@ func (t *TileGroup) getAcQuant(plane int, sh sequenceheader.SequenceHeader, uh u
 }
 
 func acQ(b int, sh sequenceheader.SequenceHeader) int {
-	return Dc_Qlookup[(sh.ColorConfig.BitDepth-8)>>1][util.Clip3(0, 255, b)]
+	return Ac_Qlookup[(sh.ColorConfig.BitDepth-8)>>1][util.Clip3(0, 255, b)]
 }
 
 var Dc_Qlookup = [][]int{
-- 
2.43.0


From 2f99956527024793375313c2aaf82138de565770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:26 +0000
Subject: [PATCH 082/163] fix: 64x16 blocks used the scan of 16x32 blocks

---
 internal/tilegroup/coeffs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/coeffs.go b/internal/tilegroup/coeffs.go
index 490cd95..123bf75 100644
--- a/internal/tilegroup/coeffs.go
+++ b/internal/tilegroup/coeffs.go
@@ -500,7 +500,7 @@ func (t *TileGroup) getScan(txSz int) []int {
 	}
 
 	if txSz == TX_64X16 {
-		return Default_Scan_16x32
+		return Default_Scan_32x16
 	}
 
 	if TX_SIZE_SQR_UP[txSz] == TX_64X64 {
-- 
2.43.0


From 667a6c679a0edce15b9889f3b18d76da81882ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:27 +0000
Subject: [PATCH 083/163] fix: butterfly rotations subtracted instead of adding

---
 internal/tilegroup/transform.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/transform.go b/internal/tilegroup/transform.go
index 3b7452f..afcacf4 100644
--- a/internal/tilegroup/transform.go
+++ b/internal/tilegroup/transform.go
@@ -113,7 +113,7 @@ func (t *TileGroup) b(a int, b int, angle int, flag int, r int) {
 		return
 	}
 	x := t.T[a]*util.Cos128(angle) - t.T[b]*util.Sin128(angle)
-	y := t.T[a]*util.Sin128(angle) - t.T[b]*util.Cos128(angle)
+	y := t.T[a]*util.Sin128(angle) + t.T[b]*util.Cos128(angle)
 	t.T[a] = util.Round2(x, 12)
 	t.T[b] = util.Round2(y, 12)
 }
-- 
2.43.0


From 3bbcdc29b58e84c5661c686e1a94042eaeaae6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:27 +0000
Subject: [PATCH 084/163] fix: array permutations overwrote values they still
 had to read

---
 internal/tilegroup/transform.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/tilegroup/transform.go b/internal/tilegroup/transform.go
index afcacf4..42f0e26 100644
--- a/internal/tilegroup/transform.go
+++ b/internal/tilegroup/transform.go
@@ -131,7 +131,7 @@ func (t *TileGroup) h(a int, b int, flag int, r int) {
 
 // 7.13.2.2 Inverse DCT array permutation process
 func (t *TileGroup) inverseDCTArrayPermutation(n int) {
-	copyT := t.T
+	copyT := append([]int(nil), t.T...)
 	for i := 0; i < (1 << n); i++ {
 		t.T[i] = copyT[util.Brev(n, i)]
 	}
@@ -341,7 +341,7 @@ func (t *TileGroup) inverseDCT(n int, r int) {
 // 7.13.2.4 Inverse ADST input array permutation process
 func (t *TileGroup) inverseADSTInputArrayPermutation(n int) {
 	n0 := 1 << n
-	copyT := t.T
+	copyT := append([]int(nil), t.T...)
 	for i := 0; i < n0; i++ {
 		var idx int
 		if util.Bool(i & 1) {
@@ -356,7 +356,7 @@ func (t *TileGroup) inverseADSTInputArrayPermutation(n int) {
 // 7.13.2.5 inverse ADST output array permutation process
 func (t *TileGroup) inverseADSTOutputArrayPermutation(n int) {
 	n0 := 1 << n
-	copyT := t.T
+	copyT := append([]int(nil), t.T...)
 
 	for i := 0; i < n0; i++ {
 		a := ((i >> 3) & 1)
-- 
2.43.0


From 19a125f42b514a8c324676ff714275473b665202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:27 +0000
Subject: [PATCH 085/163] fix: the output of the 8 point ADST was permuted as
 if it had 16 points

---
 internal/tilegroup/transform.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/transform.go b/internal/tilegroup/transform.go
index 42f0e26..7947071 100644
--- a/internal/tilegroup/transform.go
+++ b/internal/tilegroup/transform.go
@@ -436,7 +436,7 @@ func (t *TileGroup) inverseADST8(r int) {
 		t.b(2+4*i, 3+4*i, 32, 1, r)
 	}
 
-	t.inverseADSTOutputArrayPermutation(4)
+	t.inverseADSTOutputArrayPermutation(3)
 }
 
 // 7.13.2.8 Inverse ADST16 process
-- 
2.43.0


From f9ddb05fee55dd1d92c3aea8dd9ebe6b15e3aae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:27 +0000
Subject: [PATCH 086/163] fix: the 4 point ADST panicked

---
 internal/tilegroup/transform.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/transform.go b/internal/tilegroup/transform.go
index 7947071..f52e8c4 100644
--- a/internal/tilegroup/transform.go
+++ b/internal/tilegroup/transform.go
@@ -382,8 +382,8 @@ const SINPI_4_9 = 3803
 // 7.13.2.6 Inverse ADST4 process
 func (t *TileGroup) inverseADST4(r int) {
 	// TODO: bistream conformance precision ???
-	s := []int{}
-	x := []int{}
+	s := [7]int{}
+	x := [4]int{}
 
 	s[0] = SINPI_1_9 * t.T[0]
 	s[1] = SINPI_2_9 * t.T[0]
-- 
2.43.0


From d013478101ec444531da71d3b61533e43e8e7fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:28 +0000
Subject: [PATCH 087/163] fix: the inverse transform had no room, did not clamp
 its input and never loaded the columns

---
 internal/tilegroup/transform.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/internal/tilegroup/transform.go b/internal/tilegroup/transform.go
index f52e8c4..692e04a 100644
--- a/internal/tilegroup/transform.go
+++ b/internal/tilegroup/transform.go
@@ -28,6 +28,12 @@ func (t *TileGroup) InverseTranform(txSz int, sh sequenceheader.SequenceHeader)
 		colShift = 0
 	}
 
+	t.T = make([]int, util.Max(w, h))
+	t.Residual = make([][]int, h)
+	for i := range t.Residual {
+		t.Residual[i] = make([]int, w)
+	}
+
 	rowClampRange := sh.ColorConfig.BitDepth + 8
 	colClampRange := util.Max(sh.ColorConfig.BitDepth+6, 16)
 
@@ -44,6 +50,11 @@ func (t *TileGroup) InverseTranform(txSz int, sh sequenceheader.SequenceHeader)
 				t.T[j] = util.Round2(t.T[j]*2896, 12)
 			}
 		}
+		if !t.Lossless {
+			for j := 0; j < w; j++ {
+				t.T[j] = util.Clip3(-(1 << (rowClampRange - 1)), (1<<(rowClampRange-1))-1, t.T[j])
+			}
+		}
 
 		if t.Lossless {
 			t.inverseWalshHadamardTransform(2)
@@ -78,6 +89,9 @@ func (t *TileGroup) InverseTranform(txSz int, sh sequenceheader.SequenceHeader)
 	}
 
 	for j := 0; j < w; j++ {
+		for i := 0; i < h; i++ {
+			t.T[i] = t.Residual[i][j]
+		}
 		if t.Lossless {
 			t.inverseWalshHadamardTransform(0)
 		} else if t.PlaneTxType == DCT_DCT ||
-- 
2.43.0


From 458e31770aa6b058698401c0c23e880223709549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:28 +0000
Subject: [PATCH 088/163] fix: intra prediction had no room for blocks larger
 than 15x15

---
 internal/tilegroup/predict_intra.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/internal/tilegroup/predict_intra.go b/internal/tilegroup/predict_intra.go
index b026a4c..3f4abe9 100644
--- a/internal/tilegroup/predict_intra.go
+++ b/internal/tilegroup/predict_intra.go
@@ -86,7 +86,7 @@ func (t *TileGroup) predictIntra(plane int, x int, y int, haveLeft bool, haveAbo
 
 	t.LeftCol[len(t.LeftCol)-1] = t.AboveRow[len(t.AboveRow)-1]
 
-	var pred [15][15]int
+	var pred [64][64]int
 	if plane == 0 && t.UseFilterIntra {
 		pred = t.recursiveIntraPredictionProcess(w, h, sh)
 	} else if t.isDirectionalMode(mode) {
@@ -107,8 +107,8 @@ func (t *TileGroup) predictIntra(plane int, x int, y int, haveLeft bool, haveAbo
 }
 
 // 7.11.2.2 Basic intra prediction process
-func (t *TileGroup) basicIntraPredictionProcess(w int, h int) [15][15]int {
-	var pred [15][15]int
+func (t *TileGroup) basicIntraPredictionProcess(w int, h int) [64][64]int {
+	var pred [64][64]int
 
 	for i := 0; i < h; i++ {
 		for j := 0; j < w; j++ {
@@ -131,10 +131,10 @@ func (t *TileGroup) basicIntraPredictionProcess(w int, h int) [15][15]int {
 }
 
 // 7.11.2.3. Recursive intra prediction process
-func (t *TileGroup) recursiveIntraPredictionProcess(w int, h int, sh sequenceheader.SequenceHeader) [15][15]int {
+func (t *TileGroup) recursiveIntraPredictionProcess(w int, h int, sh sequenceheader.SequenceHeader) [64][64]int {
 	w4 := w >> 2
 	h2 := h >> 1
-	var pred [15][15]int
+	var pred [64][64]int
 	for i2 := 0; i2 <= h2-1; i2++ {
 		for j4 := 0; j4 <= w4-1; j4++ {
 			var p []int
@@ -175,8 +175,8 @@ func (t *TileGroup) recursiveIntraPredictionProcess(w int, h int, sh sequencehea
 }
 
 // 7.11.2.4. Directional intra prediction process
-func (t *TileGroup) directionalIntraPredictionProcess(plane int, x int, y int, haveLeft int, haveAbove int, mode int, w int, h int, maxX int, maxY int, state *state.State, sh sequenceheader.SequenceHeader) [15][15]int {
-	var pred [15][15]int
+func (t *TileGroup) directionalIntraPredictionProcess(plane int, x int, y int, haveLeft int, haveAbove int, mode int, w int, h int, maxX int, maxY int, state *state.State, sh sequenceheader.SequenceHeader) [64][64]int {
+	var pred [64][64]int
 
 	angleDelta := t.AngleDeltaUV
 	if plane == 0 {
@@ -325,8 +325,8 @@ func (t *TileGroup) directionalIntraPredictionProcess(plane int, x int, y int, h
 }
 
 // 7.11.2.5 DC intra prediction process
-func (t *TileGroup) dcIntraPredictionProcess(haveLeft bool, haveAbove bool, log2W int, log2H int, w int, h int, sh sequenceheader.SequenceHeader) [15][15]int {
-	var pred [15][15]int
+func (t *TileGroup) dcIntraPredictionProcess(haveLeft bool, haveAbove bool, log2W int, log2H int, w int, h int, sh sequenceheader.SequenceHeader) [64][64]int {
+	var pred [64][64]int
 	if haveLeft && haveAbove {
 		for i := 0; i < h; i++ {
 			for j := 0; j < w; j++ {
@@ -367,8 +367,8 @@ func (t *TileGroup) dcIntraPredictionProcess(haveLeft bool, haveAbove bool, log2
 }
 
 // 7.11.2.6 Smooth intra prediction process
-func (t *TileGroup) smoothIntraPredictionProcess(mode int, log2W int, log2H int, w int, h int) [15][15]int {
-	var pred [15][15]int
+func (t *TileGroup) smoothIntraPredictionProcess(mode int, log2W int, log2H int, w int, h int) [64][64]int {
+	var pred [64][64]int
 	if mode == SMOOTH_PRED {
 		for i := 0; i < h; i++ {
 			for j := 0; j < w; j++ {
-- 
2.43.0


From f68e1107678f95b34bae71237dba47fc3a2a0f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:28 +0000
Subject: [PATCH 089/163] fix: intra edges were read from the wrong row, one
 sample short, and the left edge stored in the row above

---
 internal/tilegroup/predict_intra.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/internal/tilegroup/predict_intra.go b/internal/tilegroup/predict_intra.go
index 3f4abe9..4f48cff 100644
--- a/internal/tilegroup/predict_intra.go
+++ b/internal/tilegroup/predict_intra.go
@@ -15,7 +15,7 @@ func (t *TileGroup) predictIntra(plane int, x int, y int, haveLeft bool, haveAbo
 	maxX := (state.MiCols * MI_SIZE) - 1
 	maxY := (state.MiRows * MI_SIZE) - 1
 
-	yMinusOne := y
+	yMinusOne := y - 1
 	if y-1 == -1 {
 		yMinusOne = len(state.CurrFrame[plane]) - 1
 	}
@@ -25,7 +25,7 @@ func (t *TileGroup) predictIntra(plane int, x int, y int, haveLeft bool, haveAbo
 		maxY = ((state.MiRows * MI_SIZE) >> util.Int(sh.ColorConfig.SubsamplingY)) - 1
 	}
 
-	for i := 0; i < w+h-1; i++ {
+	for i := 0; i < w+h; i++ {
 		if util.Int(haveAbove) == 0 && util.Int(haveLeft) == 1 {
 			if x-1 == -1 {
 				t.AboveRow[i] = state.CurrFrame[plane][y][len(state.CurrFrame[plane][y])-1]
@@ -44,11 +44,11 @@ func (t *TileGroup) predictIntra(plane int, x int, y int, haveLeft bool, haveAbo
 		}
 	}
 
-	for i := 0; i < w+h-1; i++ {
+	for i := 0; i < w+h; i++ {
 		if util.Int(haveLeft) == 0 && util.Int(haveAbove) == 1 {
 			t.LeftCol[i] = state.CurrFrame[plane][yMinusOne][x]
 		} else if util.Int(haveLeft) == 0 && util.Int(haveAbove) == 0 {
-			t.AboveRow[i] = (1 << (sh.ColorConfig.BitDepth - 1)) + 1
+			t.LeftCol[i] = (1 << (sh.ColorConfig.BitDepth - 1)) + 1
 
 		} else {
 			leftLimit := util.Min(maxY, y+h-1)
@@ -57,9 +57,9 @@ func (t *TileGroup) predictIntra(plane int, x int, y int, haveLeft bool, haveAbo
 			}
 
 			if x-1 == -1 {
-				t.AboveRow[i] = state.CurrFrame[plane][util.Min(leftLimit, y+i)][len(state.CurrFrame[plane][util.Min(leftLimit, y+i)])-1]
+				t.LeftCol[i] = state.CurrFrame[plane][util.Min(leftLimit, y+i)][len(state.CurrFrame[plane][util.Min(leftLimit, y+i)])-1]
 			} else {
-				t.AboveRow[i] = state.CurrFrame[plane][util.Min(leftLimit, y+i)][x-1]
+				t.LeftCol[i] = state.CurrFrame[plane][util.Min(leftLimit, y+i)][x-1]
 			}
 		}
 	}
-- 
2.43.0


From a914a6e37c8e1de2af91d8fcefe07a008c3ac3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:29 +0000
Subject: [PATCH 090/163] fix: recursive intra prediction panicked

---
 internal/tilegroup/predict_intra.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/tilegroup/predict_intra.go b/internal/tilegroup/predict_intra.go
index 4f48cff..b56e639 100644
--- a/internal/tilegroup/predict_intra.go
+++ b/internal/tilegroup/predict_intra.go
@@ -137,13 +137,13 @@ func (t *TileGroup) recursiveIntraPredictionProcess(w int, h int, sh sequencehea
 	var pred [64][64]int
 	for i2 := 0; i2 <= h2-1; i2++ {
 		for j4 := 0; j4 <= w4-1; j4++ {
-			var p []int
+			var p [7]int
 			for i := 0; i <= 6; i++ {
 				if i < 5 {
 					if i2 == 0 {
-						p[i] = t.AboveRow[(j4<<2)+i-1]
+						p[i] = t.AboveRow[((j4<<2)+i-1)&(len(t.AboveRow)-1)]
 					} else if j4 == 0 && i == 0 {
-						p[i] = t.LeftCol[(i2<<1)-1]
+						p[i] = t.LeftCol[((i2<<1)-1)&(len(t.LeftCol)-1)]
 					} else {
 						p[i] = pred[(i2<<1)-1][(j4<<2)+i-1]
 					}
-- 
2.43.0


From ed405919ff62850e8037d6e116745641c6c80b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:29 +0000
Subject: [PATCH 091/163] fix: directional prediction filtered too few edge
 samples and filtered the corner twice

---
 internal/tilegroup/predict_intra.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/tilegroup/predict_intra.go b/internal/tilegroup/predict_intra.go
index b56e639..dce9d3c 100644
--- a/internal/tilegroup/predict_intra.go
+++ b/internal/tilegroup/predict_intra.go
@@ -192,7 +192,7 @@ func (t *TileGroup) directionalIntraPredictionProcess(plane int, x int, y int, h
 		if pAngle != 90 && pAngle != 180 {
 			if pAngle > 90 && pAngle < 180 && (w+h) >= 24 {
 				t.LeftCol[len(t.LeftCol)-1] = t.filterCornerProcess()
-				t.AboveRow[len(t.AboveRow)-1] = t.filterCornerProcess()
+				t.AboveRow[len(t.AboveRow)-1] = t.LeftCol[len(t.LeftCol)-1]
 			}
 			filterType = util.Int(t.getFilterType(plane, state, sh))
 
@@ -202,7 +202,7 @@ func (t *TileGroup) directionalIntraPredictionProcess(plane int, x int, y int, h
 				if pAngle < 90 {
 					sumPart = h
 				}
-				numPx := util.Min(w, (maxX-x+1)) + sumPart
+				numPx := util.Min(w, (maxX-x+1)) + sumPart + 1
 				t.intraEdgeFilterProcess(numPx, strength, 0)
 			}
 
@@ -212,7 +212,7 @@ func (t *TileGroup) directionalIntraPredictionProcess(plane int, x int, y int, h
 				if pAngle > 180 {
 					sumPart = w
 				}
-				numPx := util.Min(h, (maxY-y+1)) + sumPart
+				numPx := util.Min(h, (maxY-y+1)) + sumPart + 1
 				t.intraEdgeFilterProcess(numPx, strength, 1)
 			}
 		}
-- 
2.43.0


From 387b9f9b1af06e009898939596270ee710de492d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:29 +0000
Subject: [PATCH 092/163] fix: directional prediction computed wrong positions,
 or ran out of range, for most angles

---
 internal/tilegroup/predict_intra.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/internal/tilegroup/predict_intra.go b/internal/tilegroup/predict_intra.go
index dce9d3c..15b8c9c 100644
--- a/internal/tilegroup/predict_intra.go
+++ b/internal/tilegroup/predict_intra.go
@@ -260,7 +260,7 @@ func (t *TileGroup) directionalIntraPredictionProcess(plane int, x int, y int, h
 	if pAngle < 90 {
 		for i := 0; i < h; i++ {
 			for j := 0; j < w; j++ {
-				idx := (i + i) * dx
+				idx := (i + 1) * dx
 				base := (idx >> (6 - util.Int(upsampleAbove))) + (j << util.Int(upsampleAbove))
 				shift := ((idx << util.Int(upsampleAbove)) >> 1) & 0x1F
 				maxBaseX := (w + h - 1) << util.Int(upsampleAbove)
@@ -281,7 +281,7 @@ func (t *TileGroup) directionalIntraPredictionProcess(plane int, x int, y int, h
 
 				if base >= -(1 << util.Int(upsampleAbove)) {
 					shift := ((idx << util.Int(upsampleAbove)) >> 1) & 0x1F
-					pred[i][j] = util.Round2(t.AboveRow[base]*(32-shift)+t.AboveRow[base+1]*shift, 5)
+					pred[i][j] = util.Round2(t.AboveRow[base&(len(t.AboveRow)-1)]*(32-shift)+t.AboveRow[(base+1)&(len(t.AboveRow)-1)]*shift, 5)
 				} else {
 					idx = (i << 6) - (j+1)*dy
 					base = idx >> (6 - util.Int(upsampleLeft))
@@ -289,7 +289,7 @@ func (t *TileGroup) directionalIntraPredictionProcess(plane int, x int, y int, h
 
 					// handle negative indezes
 					if base < 0 {
-						pred[i][j] = util.Round2(t.LeftCol[len(t.LeftCol)+base]*(32-shift)+t.LeftCol[base+1]*shift, 5)
+						pred[i][j] = util.Round2(t.LeftCol[len(t.LeftCol)+base]*(32-shift)+t.LeftCol[(base+1)&(len(t.LeftCol)-1)]*shift, 5)
 					} else {
 						pred[i][j] = util.Round2(t.LeftCol[base]*(32-shift)+t.LeftCol[base+1]*shift, 5)
 					}
@@ -301,7 +301,7 @@ func (t *TileGroup) directionalIntraPredictionProcess(plane int, x int, y int, h
 		for i := 0; i < h; i++ {
 			for j := 0; j < w; j++ {
 				idx := (j + 1) * dy
-				base := (idx >> (6 >> util.Int(upsampleLeft))) + (i << util.Int(upsampleLeft))
+				base := (idx >> (6 - util.Int(upsampleLeft))) + (i << util.Int(upsampleLeft))
 				shift := ((idx << util.Int(upsampleLeft)) >> 1) & 0x1F
 				pred[i][j] = util.Round2(t.LeftCol[base]*(32-shift)+t.LeftCol[base+1]*shift, 5)
 			}
@@ -316,7 +316,7 @@ func (t *TileGroup) directionalIntraPredictionProcess(plane int, x int, y int, h
 	} else if pAngle == 180 {
 		for j := 0; j < w; j++ {
 			for i := 0; i < h; i++ {
-				pred[i][j] = t.LeftCol[j]
+				pred[i][j] = t.LeftCol[i]
 			}
 		}
 	}
-- 
2.43.0


From 4a384ea4346caa0686272d53504cf92ac7877a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:30 +0000
Subject: [PATCH 093/163] fix: DC prediction from above only predicted black

---
 internal/tilegroup/predict_intra.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/internal/tilegroup/predict_intra.go b/internal/tilegroup/predict_intra.go
index 15b8c9c..5fe810f 100644
--- a/internal/tilegroup/predict_intra.go
+++ b/internal/tilegroup/predict_intra.go
@@ -354,6 +354,18 @@ func (t *TileGroup) dcIntraPredictionProcess(haveLeft bool, haveAbove bool, log2
 			}
 		}
 
+	} else if !haveLeft && haveAbove {
+		sum := 0
+		for k := 0; k < w; k++ {
+			sum += t.AboveRow[k]
+		}
+		aboveAvg := util.Clip1((sum+(w>>1))>>log2W, sh.ColorConfig.BitDepth)
+		for i := 0; i < h; i++ {
+			for j := 0; j < w; j++ {
+				pred[i][j] = aboveAvg
+			}
+		}
+
 	} else if !haveLeft && !haveAbove {
 		for i := 0; i < h; i++ {
 			for j := 0; j < w; j++ {
-- 
2.43.0


From 39962a4d87054a0c7f1b8c85f820e3a0b0793ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:30 +0000
Subject: [PATCH 094/163] fix: smooth neighbours were looked up at the wrong
 chroma position and the left one replaced the one above

---
 internal/tilegroup/predict_intra.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/tilegroup/predict_intra.go b/internal/tilegroup/predict_intra.go
index 5fe810f..e8689fe 100644
--- a/internal/tilegroup/predict_intra.go
+++ b/internal/tilegroup/predict_intra.go
@@ -484,7 +484,7 @@ func (t *TileGroup) getFilterType(plane int, state *state.State, sh sequencehead
 		c := state.MiCol
 
 		if plane > 0 {
-			if sh.ColorConfig.SubsamplingX && util.Bool(state.MiCol&1) {
+			if sh.ColorConfig.SubsamplingX && !util.Bool(state.MiCol&1) {
 				c++
 			}
 			if sh.ColorConfig.SubsamplingY && util.Bool(state.MiRow&1) {
@@ -507,11 +507,11 @@ func (t *TileGroup) getFilterType(plane int, state *state.State, sh sequencehead
 			if sh.ColorConfig.SubsamplingX && util.Bool(state.MiCol&1) {
 				c--
 			}
-			if sh.ColorConfig.SubsamplingY && util.Bool(state.MiRow&1) {
+			if sh.ColorConfig.SubsamplingY && !util.Bool(state.MiRow&1) {
 				r++
 			}
 		}
-		aboveSmooth = t.isSmooth(r, c, plane, state)
+		leftSmooth = t.isSmooth(r, c, plane, state)
 	}
 
 	return aboveSmooth || leftSmooth
-- 
2.43.0


From 0d5b496539adf96562471ec644e0042dc8d8cbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:30 +0000
Subject: [PATCH 095/163] fix: edge filter strength of blocks of 12 to 64
 samples

---
 internal/tilegroup/predict_intra.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/tilegroup/predict_intra.go b/internal/tilegroup/predict_intra.go
index e8689fe..6ad0fb9 100644
--- a/internal/tilegroup/predict_intra.go
+++ b/internal/tilegroup/predict_intra.go
@@ -533,6 +533,10 @@ func (t *TileGroup) intraEdgeFilterStrengthSelectionProcess(w int, h int, filter
 				strength = 1
 			}
 		} else if blkWh <= 16 {
+			if d >= 40 {
+				strength = 1
+			}
+		} else if blkWh <= 24 {
 			if d >= 8 {
 				strength = 1
 			}
@@ -547,9 +551,11 @@ func (t *TileGroup) intraEdgeFilterStrengthSelectionProcess(w int, h int, filter
 			if d >= 4 {
 				strength = 2
 			}
-			if d >= 4 {
+			if d >= 32 {
 				strength = 3
 			}
+		} else {
+			strength = 3
 		}
 	} else {
 		if blkWh <= 8 {
-- 
2.43.0


From c4681c3180b0850cf15bd626f87eb67e79b4f03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:31 +0000
Subject: [PATCH 096/163] fix: edge upsampling panicked

---
 internal/tilegroup/predict_intra.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/tilegroup/predict_intra.go b/internal/tilegroup/predict_intra.go
index 6ad0fb9..8fa2e2e 100644
--- a/internal/tilegroup/predict_intra.go
+++ b/internal/tilegroup/predict_intra.go
@@ -610,10 +610,10 @@ func (t *TileGroup) intraEdgeUpsampleProcess(numPx int, dir bool, sh sequencehea
 		buf = &t.LeftCol
 	}
 
-	var dup []int
+	var dup [64 + 3]int
 	dup[0] = buf[len(buf)-1]
 	for i := -1; i < numPx; i++ {
-		dup[i+2] = buf[i]
+		dup[i+2] = buf[i&(len(buf)-1)]
 	}
 	dup[numPx+2] = buf[numPx-1]
 
@@ -621,7 +621,7 @@ func (t *TileGroup) intraEdgeUpsampleProcess(numPx int, dir bool, sh sequencehea
 	for i := 0; i < numPx; i++ {
 		s := -dup[i] + (9 * dup[i+1]) + (9 * dup[i+2]) - dup[i+3]
 		s = util.Clip1(util.Round2(s, 4), sh.ColorConfig.BitDepth)
-		buf[2*i-1] = s
+		buf[(2*i-1)&(len(buf)-1)] = s
 		buf[2*i] = dup[i+2]
 	}
 }
-- 
2.43.0


From 55990937b124c48430bfd271dfe1d566b7c033d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:31 +0000
Subject: [PATCH 097/163] fix: edge filtering panicked, and filtered the corner
 and the filtered samples

---
 internal/tilegroup/predict_intra.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/internal/tilegroup/predict_intra.go b/internal/tilegroup/predict_intra.go
index 8fa2e2e..7941343 100644
--- a/internal/tilegroup/predict_intra.go
+++ b/internal/tilegroup/predict_intra.go
@@ -632,26 +632,26 @@ func (t *TileGroup) intraEdgeFilterProcess(sz int, strength int, left int) {
 		return
 	}
 
-	var edge []int
+	edge := make([]int, sz)
 	for i := 0; i < sz; i++ {
 		if util.Bool(left) {
-			edge[i] = t.LeftCol[i-1]
+			edge[i] = t.LeftCol[(i-1)&(len(t.LeftCol)-1)]
 		} else {
-			edge[i] = t.AboveRow[i-1]
+			edge[i] = t.AboveRow[(i-1)&(len(t.AboveRow)-1)]
 		}
 	}
 
-	for i := 0; i < sz; i++ {
+	for i := 1; i < sz; i++ {
 		s := 0
 		for j := 0; j < INTRA_EDGE_TAPS; j++ {
-			k := util.Clip3(0, sz-12, i-2+j)
+			k := util.Clip3(0, sz-1, i-2+j)
 			s += Intra_Edge_Kernel[strength-1][j] * edge[k]
-			if left == 1 {
-				t.LeftCol[i-1] = (s + 8) >> 4
-			}
-			if left == 0 {
-				t.AboveRow[i-1] = (s + 8) >> 4
-			}
+		}
+		if left == 1 {
+			t.LeftCol[i-1] = (s + 8) >> 4
+		}
+		if left == 0 {
+			t.AboveRow[i-1] = (s + 8) >> 4
 		}
 	}
 }
-- 
2.43.0


From 947b0c1750faa1cd03a8f2031f577387dd7c0a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:31 +0000
Subject: [PATCH 098/163] fix: palettes had no room for their colors

---
 internal/tilegroup/decode_block.go | 8 ++------
 internal/tilegroup/palette.go      | 3 +++
 internal/tilegroup/tile_group.go   | 4 ++--
 3 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/internal/tilegroup/decode_block.go b/internal/tilegroup/decode_block.go
index 1392e70..13a928a 100644
--- a/internal/tilegroup/decode_block.go
+++ b/internal/tilegroup/decode_block.go
@@ -93,12 +93,8 @@ func (t *TileGroup) decodeBlock(r int, c int, subSize int, b *bitstream.BitStrea
 			t.PaletteSizes[0][r+y][c+x] = t.PaletteSizeY
 			t.PaletteSizes[1][r+y][c+x] = t.PaletteSizeUV
 
-			for i := 0; i < t.PaletteSizeY; i++ {
-				t.PaletteColors[0][r+y][c+x][i] = t.PaletteColorsY[i]
-			}
-			for i := 0; i < t.PaletteSizeUV; i++ {
-				t.PaletteColors[1][r+y][c+x][i] = t.PaletteColorsU[i]
-			}
+			t.PaletteColors[0][r+y][c+x] = t.PaletteColorsY
+			t.PaletteColors[1][r+y][c+x] = t.PaletteColorsU
 			for i := 0; i < shared.FRAME_LF_COUNT; i++ {
 				state.DeltaLFs[r+y][c+x][i] = state.DeltaLF[i]
 			}
diff --git a/internal/tilegroup/palette.go b/internal/tilegroup/palette.go
index e5245ec..fd11c78 100644
--- a/internal/tilegroup/palette.go
+++ b/internal/tilegroup/palette.go
@@ -29,6 +29,7 @@ func (t *TileGroup) paletteModeInfo(b *bitstream.BitStream, state *state.State,
 		if util.Bool(hasPaletteY) {
 			paletteSizeYMinus2 := b.S()
 			t.PaletteSizeY = paletteSizeYMinus2 + 2
+			t.PaletteColorsY = make([]int, t.PaletteSizeY)
 			cacheN := t.getPaletteCache(0, state)
 			idx := 0
 
@@ -70,6 +71,8 @@ func (t *TileGroup) paletteModeInfo(b *bitstream.BitStream, state *state.State,
 		if util.Bool(hasPaletteUv) {
 			paletteSizeUvMinus2 := b.S()
 			t.PaletteSizeUV = paletteSizeUvMinus2 + 2
+			t.PaletteColorsU = make([]int, t.PaletteSizeUV)
+			t.PaletteColorsV = make([]int, t.PaletteSizeUV)
 			cacheN := t.getPaletteCache(1, state)
 			idx := 0
 
diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index b26cf46..bf91d56 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -158,7 +158,7 @@ type TileGroup struct {
 	PredMv              [2][2]int
 	RefMvIdx            int
 	MvCtx               int
-	PaletteCache        []int
+	PaletteCache        [2 * PALETTE_COLORS]int
 	PaletteColorsY      []int
 	PaletteColorsU      []int
 	PaletteColorsV      []int
@@ -190,7 +190,7 @@ type TileGroup struct {
 
 	ColorMapY        [][]int
 	ColorMapUV       [][]int
-	ColorOrder       []int
+	ColorOrder       [PALETTE_COLORS]int
 	ColorContextHash int
 
 	TxSize int
-- 
2.43.0


From df0aa7e2495f3562930689910e47960b92ba9fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:32 +0000
Subject: [PATCH 099/163] fix: palette sizes and chroma palettes panicked

---
 internal/tilegroup/palette.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/tilegroup/palette.go b/internal/tilegroup/palette.go
index fd11c78..71c360f 100644
--- a/internal/tilegroup/palette.go
+++ b/internal/tilegroup/palette.go
@@ -27,7 +27,7 @@ func (t *TileGroup) paletteModeInfo(b *bitstream.BitStream, state *state.State,
 		hasPaletteY := symbol.ReadSymbol(state.TilePaletteYModeCdf[bSizeCtx][ctx], state, b, uh)
 
 		if util.Bool(hasPaletteY) {
-			paletteSizeYMinus2 := b.S()
+			paletteSizeYMinus2 := symbol.ReadSymbol(state.TilePaletteYSizeCdf[bSizeCtx], state, b, uh)
 			t.PaletteSizeY = paletteSizeYMinus2 + 2
 			t.PaletteColorsY = make([]int, t.PaletteSizeY)
 			cacheN := t.getPaletteCache(0, state)
@@ -67,9 +67,9 @@ func (t *TileGroup) paletteModeInfo(b *bitstream.BitStream, state *state.State,
 	}
 
 	if t.HasChroma && t.UVMode == DC_PRED {
-		hasPaletteUv := b.S()
+		hasPaletteUv := symbol.ReadSymbol(state.TilePaletteUVModeCdf[util.Int(t.PaletteSizeY > 0)], state, b, uh)
 		if util.Bool(hasPaletteUv) {
-			paletteSizeUvMinus2 := b.S()
+			paletteSizeUvMinus2 := symbol.ReadSymbol(state.TilePaletteUVSizeCdf[bSizeCtx], state, b, uh)
 			t.PaletteSizeUV = paletteSizeUvMinus2 + 2
 			t.PaletteColorsU = make([]int, t.PaletteSizeUV)
 			t.PaletteColorsV = make([]int, t.PaletteSizeUV)
-- 
2.43.0


From b9765818423721b62d0a3798168adf58195e1a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:32 +0000
Subject: [PATCH 100/163] fix: palette colors of Y had too many bits, cached
 colors of U went to Y, and the range of U was one short

---
 internal/tilegroup/palette.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/tilegroup/palette.go b/internal/tilegroup/palette.go
index 71c360f..06cdc2c 100644
--- a/internal/tilegroup/palette.go
+++ b/internal/tilegroup/palette.go
@@ -49,7 +49,7 @@ func (t *TileGroup) paletteModeInfo(b *bitstream.BitStream, state *state.State,
 
 			var paletteBits int
 			if idx < t.PaletteSizeY {
-				minBits := sh.ColorConfig.BitDepth - 1
+				minBits := sh.ColorConfig.BitDepth - 3
 				paletteNumExtraBitsY := literal.L(2, state, b, uh)
 				paletteBits = minBits + paletteNumExtraBitsY
 			}
@@ -80,7 +80,7 @@ func (t *TileGroup) paletteModeInfo(b *bitstream.BitStream, state *state.State,
 				usePaletteColorCacheU := literal.L(1, state, b, uh)
 
 				if util.Bool(usePaletteColorCacheU) {
-					t.PaletteColorsY[idx] = t.PaletteCache[i]
+					t.PaletteColorsU[idx] = t.PaletteCache[i]
 					idx++
 				}
 			}
@@ -100,7 +100,7 @@ func (t *TileGroup) paletteModeInfo(b *bitstream.BitStream, state *state.State,
 			for idx < t.PaletteSizeUV {
 				paletteDeltaU := literal.L(paletteBits, state, b, uh)
 				t.PaletteColorsU[idx] = util.Clip1(t.PaletteColorsU[idx-1]+paletteDeltaU, sh.ColorConfig.BitDepth)
-				rangE := (1 << sh.ColorConfig.BitDepth) - t.PaletteColorsU[idx] - 1
+				rangE := (1 << sh.ColorConfig.BitDepth) - t.PaletteColorsU[idx]
 				paletteBits = util.Min(paletteBits, util.CeilLog2(rangE))
 				idx++
 			}
-- 
2.43.0


From 7ac929c7038d71f5f48c0b0e0f6f11dfd1aba499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:32 +0000
Subject: [PATCH 101/163] fix: the palette cache used unavailable rows above
 and dropped the colors to the left

---
 internal/tilegroup/palette.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/internal/tilegroup/palette.go b/internal/tilegroup/palette.go
index 06cdc2c..233e98e 100644
--- a/internal/tilegroup/palette.go
+++ b/internal/tilegroup/palette.go
@@ -146,7 +146,7 @@ func (t *TileGroup) paletteModeInfo(b *bitstream.BitStream, state *state.State,
 func (t *TileGroup) getPaletteCache(plane int, state *state.State) int {
 	aboveN := 0
 
-	if util.Bool((state.MiRow * MI_SIZE) % 64) {
+	if state.AvailU && util.Bool((state.MiRow*MI_SIZE)%64) {
 		aboveN = t.PaletteSizes[plane][state.MiRow-1][state.MiCol]
 	}
 
@@ -189,5 +189,14 @@ func (t *TileGroup) getPaletteCache(plane int, state *state.State) int {
 			n++
 		}
 	}
+
+	for leftIdx < leftN {
+		val := t.PaletteColors[plane][state.MiRow][state.MiCol-1][leftIdx]
+		leftIdx++
+		if n == 0 || val != t.PaletteCache[n-1] {
+			t.PaletteCache[n] = val
+			n++
+		}
+	}
 	return n
 }
-- 
2.43.0


From ff0e1b7c0424e232a81cd2fd5abf606d0326f09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:33 +0000
Subject: [PATCH 102/163] fix: palette color maps were read as raw bits and
 panicked

---
 internal/tilegroup/decode_block.go   |  2 +-
 internal/tilegroup/palette_tokens.go | 67 +++++++++++++++++++++++++---
 2 files changed, 62 insertions(+), 7 deletions(-)

diff --git a/internal/tilegroup/decode_block.go b/internal/tilegroup/decode_block.go
index 13a928a..8944a18 100644
--- a/internal/tilegroup/decode_block.go
+++ b/internal/tilegroup/decode_block.go
@@ -43,7 +43,7 @@ func (t *TileGroup) decodeBlock(r int, c int, subSize int, b *bitstream.BitStrea
 	}
 
 	t.modeInfo(b, uh, sh, state)
-	t.paletteTokens(b, state, sh)
+	t.paletteTokens(b, state, sh, uh)
 	t.readBlockTxSize(b, state, uh)
 
 	if util.Bool(t.Skip) {
diff --git a/internal/tilegroup/palette_tokens.go b/internal/tilegroup/palette_tokens.go
index 2e0c084..f8fa3cf 100644
--- a/internal/tilegroup/palette_tokens.go
+++ b/internal/tilegroup/palette_tokens.go
@@ -2,27 +2,31 @@ package tilegroup
 
 import (
 	"github.com/m4tthewde/gov1/internal/bitstream"
+	"github.com/m4tthewde/gov1/internal/literal"
 	"github.com/m4tthewde/gov1/internal/sequenceheader"
 	"github.com/m4tthewde/gov1/internal/shared"
 	"github.com/m4tthewde/gov1/internal/state"
+	"github.com/m4tthewde/gov1/internal/symbol"
+	"github.com/m4tthewde/gov1/internal/uncompressedheader"
 	"github.com/m4tthewde/gov1/internal/util"
 )
 
 // palette_tokens()
-func (t *TileGroup) paletteTokens(b *bitstream.BitStream, state *state.State, sh sequenceheader.SequenceHeader) {
+func (t *TileGroup) paletteTokens(b *bitstream.BitStream, state *state.State, sh sequenceheader.SequenceHeader, uh uncompressedheader.UncompressedHeader) {
 	blockHeight := shared.BLOCK_HEIGHT[state.MiSize]
 	blockWidth := shared.BLOCK_WIDTH[state.MiSize]
 	onscreenHeight := util.Min(blockHeight, (state.MiRows-state.MiRow)*MI_SIZE)
 	onscreenWidth := util.Min(blockWidth, (state.MiCols-state.MiCol)*MI_SIZE)
 
 	if util.Bool(t.PaletteSizeY) {
-		colorIndexMapY := b.Ns(t.PaletteSizeY)
+		colorIndexMapY := literal.NS(t.PaletteSizeY, state, b, uh)
+		t.ColorMapY = newColorMap()
 		t.ColorMapY[0][0] = colorIndexMapY
 
 		for i := 1; i < onscreenHeight+onscreenWidth-1; i++ {
 			for j := util.Min(i, onscreenWidth-1); j >= util.Max(0, i-onscreenHeight+1); j-- {
 				t.getPaletteColorContext(t.ColorMapY, (i - j), j, t.PaletteSizeY)
-				paletteColorIdxY := b.S()
+				paletteColorIdxY := symbol.ReadSymbol(t.paletteColorYCdf(state), state, b, uh)
 				t.ColorMapY[i-j][j] = t.ColorOrder[paletteColorIdxY]
 			}
 		}
@@ -39,7 +43,8 @@ func (t *TileGroup) paletteTokens(b *bitstream.BitStream, state *state.State, sh
 	}
 
 	if util.Bool(t.PaletteSizeUV) {
-		colorIndexMapUv := b.Ns(t.PaletteSizeUV)
+		colorIndexMapUv := literal.NS(t.PaletteSizeUV, state, b, uh)
+		t.ColorMapUV = newColorMap()
 		t.ColorMapUV[0][0] = colorIndexMapUv
 		blockHeight = blockHeight >> util.Int(sh.ColorConfig.SubsamplingY)
 		blockWidth = blockWidth >> util.Int(sh.ColorConfig.SubsamplingX)
@@ -58,7 +63,7 @@ func (t *TileGroup) paletteTokens(b *bitstream.BitStream, state *state.State, sh
 		for i := 1; i < onscreenHeight+onscreenWidth-1; i++ {
 			for j := util.Min(i, onscreenWidth-1); j >= util.Max(0, i-onscreenHeight+1); j-- {
 				t.getPaletteColorContext(t.ColorMapUV, (i - j), j, t.PaletteSizeUV)
-				paletteColorIdxUv := b.S()
+				paletteColorIdxUv := symbol.ReadSymbol(t.paletteColorUvCdf(state), state, b, uh)
 				t.ColorMapUV[i-j][j] = t.ColorOrder[paletteColorIdxUv]
 			}
 		}
@@ -75,9 +80,59 @@ func (t *TileGroup) paletteTokens(b *bitstream.BitStream, state *state.State, sh
 	}
 }
 
+var Palette_Color_Context = []int{-1, -1, 0, -1, -1, 4, 3, 2, 1}
+
+func newColorMap() [][]int {
+	m := make([][]int, 64)
+	for i := range m {
+		m[i] = make([]int, 64)
+	}
+	return m
+}
+
+func (t *TileGroup) paletteColorYCdf(state *state.State) []int {
+	ctx := Palette_Color_Context[t.ColorContextHash]
+	switch t.PaletteSizeY {
+	case 2:
+		return state.TilePaletteSize2YColorCdf[ctx]
+	case 3:
+		return state.TilePaletteSize3YColorCdf[ctx]
+	case 4:
+		return state.TilePaletteSize4YColorCdf[ctx]
+	case 5:
+		return state.TilePaletteSize5YColorCdf[ctx]
+	case 6:
+		return state.TilePaletteSize6YColorCdf[ctx]
+	case 7:
+		return state.TilePaletteSize7YColorCdf[ctx]
+	default:
+		return state.TilePaletteSize8YColorCdf[ctx]
+	}
+}
+
+func (t *TileGroup) paletteColorUvCdf(state *state.State) []int {
+	ctx := Palette_Color_Context[t.ColorContextHash]
+	switch t.PaletteSizeUV {
+	case 2:
+		return state.TilePaletteSize2UVColorCdf[ctx]
+	case 3:
+		return state.TilePaletteSize3UVColorCdf[ctx]
+	case 4:
+		return state.TilePaletteSize4UVColorCdf[ctx]
+	case 5:
+		return state.TilePaletteSize5UVColorCdf[ctx]
+	case 6:
+		return state.TilePaletteSize6UVColorCdf[ctx]
+	case 7:
+		return state.TilePaletteSize7UVColorCdf[ctx]
+	default:
+		return state.TilePaletteSize8UVColorCdf[ctx]
+	}
+}
+
 // get_palette_color_context( colorMap, r, c, n )
 func (t *TileGroup) getPaletteColorContext(colorMap [][]int, r int, c int, n int) {
-	var scores []int
+	var scores [PALETTE_COLORS]int
 	for i := 0; i < PALETTE_COLORS; i++ {
 		scores[i] = 0
 		t.ColorOrder[i] = i
-- 
2.43.0


From 8e771f1aed48ccdc5b475547ce0dab3e175fcff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:33 +0000
Subject: [PATCH 103/163] fix: onscreen height of a chroma color map

---
 internal/tilegroup/palette_tokens.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/palette_tokens.go b/internal/tilegroup/palette_tokens.go
index f8fa3cf..3b91301 100644
--- a/internal/tilegroup/palette_tokens.go
+++ b/internal/tilegroup/palette_tokens.go
@@ -48,7 +48,7 @@ func (t *TileGroup) paletteTokens(b *bitstream.BitStream, state *state.State, sh
 		t.ColorMapUV[0][0] = colorIndexMapUv
 		blockHeight = blockHeight >> util.Int(sh.ColorConfig.SubsamplingY)
 		blockWidth = blockWidth >> util.Int(sh.ColorConfig.SubsamplingX)
-		onscreenHeight = onscreenHeight >> util.Int(sh.ColorConfig.SubsamplingX)
+		onscreenHeight = onscreenHeight >> util.Int(sh.ColorConfig.SubsamplingY)
 		onscreenWidth = onscreenWidth >> util.Int(sh.ColorConfig.SubsamplingX)
 
 		if blockWidth < 4 {
-- 
2.43.0


From 0a1f99185a04298300306ed121dfda4793e2b7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:31 +0000
Subject: [PATCH 104/163] fix: step over subsampled chroma positions in the
 loop filter

---
 internal/tilegroup/loop_filter_process.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/tilegroup/loop_filter_process.go b/internal/tilegroup/loop_filter_process.go
index 96ee525..4af0d5b 100644
--- a/internal/tilegroup/loop_filter_process.go
+++ b/internal/tilegroup/loop_filter_process.go
@@ -15,9 +15,9 @@ func (t *TileGroup) loopFilter(state *state.State, uh uncompressedheader.Uncompr
 			for pass := 0; pass < 2; pass++ {
 				rowStep := 1
 				colStep := 1
-				if plane == 0 {
-					rowStep = 1 << util.Int(sh.ColorConfig.SubsamplingX)
-					colStep = 1 << util.Int(sh.ColorConfig.SubsamplingY)
+				if plane != 0 {
+					rowStep = 1 << util.Int(sh.ColorConfig.SubsamplingY)
+					colStep = 1 << util.Int(sh.ColorConfig.SubsamplingX)
 				}
 
 				for row := 0; row < state.MiRows; row += rowStep {
-- 
2.43.0


From fd4aa421a4536e2d229373f8532018455ae16622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:31 +0000
Subject: [PATCH 105/163] fix: take the loop filter level of the previous block
 when the current one is zero

---
 internal/tilegroup/loop_filter_process.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/loop_filter_process.go b/internal/tilegroup/loop_filter_process.go
index 4af0d5b..3a743a4 100644
--- a/internal/tilegroup/loop_filter_process.go
+++ b/internal/tilegroup/loop_filter_process.go
@@ -116,7 +116,7 @@ func (t *TileGroup) loopFilterEdge(plane int, pass bool, row int, col int, sh se
 	lvl, limit, blimit, thresh := t.adaptiveFilterStrength(row, col, plane, pass, state, uh)
 
 	if lvl == 0 {
-		lvl, limit, blimit, thresh = t.adaptiveFilterStrength(row, col, plane, pass, state, uh)
+		lvl, limit, blimit, thresh = t.adaptiveFilterStrength(prevRow, prevCol, plane, pass, state, uh)
 	}
 
 	for i := 0; i < MI_SIZE; i++ {
-- 
2.43.0


From 94dd4ecb8f035286f5a1b819404df9fbe46115f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:32 +0000
Subject: [PATCH 106/163] fix: use both transform heights for the horizontal
 edge filter size

---
 internal/tilegroup/loop_filter_process.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/loop_filter_process.go b/internal/tilegroup/loop_filter_process.go
index 3a743a4..1600d72 100644
--- a/internal/tilegroup/loop_filter_process.go
+++ b/internal/tilegroup/loop_filter_process.go
@@ -132,7 +132,7 @@ func (t *TileGroup) filterSize(txSz int, prevTxSz int, pass bool, plane int) int
 	if !pass {
 		baseSize = util.Min(Tx_Width[prevTxSz], Tx_Width[txSz])
 	} else {
-		baseSize = util.Min(Tx_Height[prevTxSz], Tx_Height[prevTxSz])
+		baseSize = util.Min(Tx_Height[prevTxSz], Tx_Height[txSz])
 
 	}
 
-- 
2.43.0


From d79230e7e8ce13b5dcfb3ddb424daf31a030fd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:32 +0000
Subject: [PATCH 107/163] fix: use a shift of 1 for loop filter sharpness
 levels up to 4

---
 internal/tilegroup/loop_filter_process.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/loop_filter_process.go b/internal/tilegroup/loop_filter_process.go
index 1600d72..f951492 100644
--- a/internal/tilegroup/loop_filter_process.go
+++ b/internal/tilegroup/loop_filter_process.go
@@ -173,7 +173,7 @@ func (t *TileGroup) adaptiveFilterStrength(row int, col int, plane int, pass boo
 	if uh.LoopFilterSharpness > 4 {
 		shift = 2
 	} else if uh.LoopFilterSharpness > 0 {
-		shift = 2
+		shift = 1
 	} else {
 		shift = 0
 	}
-- 
2.43.0


From 2250380c877f86088faa92356a79f28322652077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:33 +0000
Subject: [PATCH 108/163] fix: read only the samples that the loop filter size
 covers

---
 internal/tilegroup/loop_filter_process.go | 27 ++++++++++++++---------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/internal/tilegroup/loop_filter_process.go b/internal/tilegroup/loop_filter_process.go
index f951492..975709e 100644
--- a/internal/tilegroup/loop_filter_process.go
+++ b/internal/tilegroup/loop_filter_process.go
@@ -241,18 +241,25 @@ func (t *TileGroup) sampleFiltering(x int, y int, plane int, limit int, blimit i
 func (t *TileGroup) filterMask(x int, y int, plane int, limit int, blimit int, thresh int, dx int, dy int, filterSize int, state *state.State, sh sequenceheader.SequenceHeader) (int, int, int, int) {
 	q0 := state.CurrFrame[plane][y][x]
 	q1 := state.CurrFrame[plane][y+dy][x+dx]
-	q2 := state.CurrFrame[plane][y+dy*2][x+dx*2]
-	q3 := state.CurrFrame[plane][y+dy*3][x+dx*3]
-	q4 := state.CurrFrame[plane][y+dy*4][x+dx*4]
-	q5 := state.CurrFrame[plane][y+dy*5][x+dx*5]
-	q6 := state.CurrFrame[plane][y+dy*6][x+dx*6]
 	p0 := state.CurrFrame[plane][y-dy][x-dx]
 	p1 := state.CurrFrame[plane][y-dy*2][x-dx*2]
-	p2 := state.CurrFrame[plane][y-dy*3][x-dx*3]
-	p3 := state.CurrFrame[plane][y-dy*4][x-dx*4]
-	p4 := state.CurrFrame[plane][y-dy*5][x-dx*5]
-	p5 := state.CurrFrame[plane][y-dy*6][x-dx*6]
-	p6 := state.CurrFrame[plane][y-dy*7][x-dx*7]
+	var q2, q3, q4, q5, q6, p2, p3, p4, p5, p6 int
+	if filterSize >= 8 {
+		q2 = state.CurrFrame[plane][y+dy*2][x+dx*2]
+		p2 = state.CurrFrame[plane][y-dy*3][x-dx*3]
+	}
+	if filterSize >= 8 && plane == 0 {
+		q3 = state.CurrFrame[plane][y+dy*3][x+dx*3]
+		p3 = state.CurrFrame[plane][y-dy*4][x-dx*4]
+	}
+	if filterSize >= 16 {
+		q4 = state.CurrFrame[plane][y+dy*4][x+dx*4]
+		q5 = state.CurrFrame[plane][y+dy*5][x+dx*5]
+		q6 = state.CurrFrame[plane][y+dy*6][x+dx*6]
+		p4 = state.CurrFrame[plane][y-dy*5][x-dx*5]
+		p5 = state.CurrFrame[plane][y-dy*6][x-dx*6]
+		p6 = state.CurrFrame[plane][y-dy*7][x-dx*7]
+	}
 
 	hevMask := 0
 	threshBd := thresh << (sh.ColorConfig.BitDepth - 8)
-- 
2.43.0


From 89bb4e773c7202af8a74541b1b5930e17348f3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:33 +0000
Subject: [PATCH 109/163] fix: store the wide loop filter output at
 non-negative indices

---
 internal/tilegroup/loop_filter_process.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/tilegroup/loop_filter_process.go b/internal/tilegroup/loop_filter_process.go
index 975709e..2927e70 100644
--- a/internal/tilegroup/loop_filter_process.go
+++ b/internal/tilegroup/loop_filter_process.go
@@ -378,7 +378,7 @@ func (t *TileGroup) wideFilter(x int, y int, plane int, dx int, dy int, log2Size
 		n2 = 1
 	}
 
-	var F []int
+	F := make([]int, 2*n)
 	for i := -n; i < n; i++ {
 		t := 0
 		for j := -n; j <= n; j++ {
@@ -391,9 +391,9 @@ func (t *TileGroup) wideFilter(x int, y int, plane int, dx int, dy int, log2Size
 			}
 			t += state.CurrFrame[plane][y+p*dy][x+p*dx] * tap
 		}
-		F[i] = util.Round2(t, log2Size)
+		F[i+n] = util.Round2(t, log2Size)
 	}
 	for i := -n; i < n; i++ {
-		state.CurrFrame[plane][y+i*dy][x+i*dx] = F[i]
+		state.CurrFrame[plane][y+i*dy][x+i*dx] = F[i+n]
 	}
 }
-- 
2.43.0


From 61ba2240b46a869ee039da9476d8ee81df97a229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:25 +0000
Subject: [PATCH 110/163] fix: reduce the CDEF damping of chroma for every
 block

---
 internal/tilegroup/cdef.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/cdef.go b/internal/tilegroup/cdef.go
index dc91247..90ee167 100644
--- a/internal/tilegroup/cdef.go
+++ b/internal/tilegroup/cdef.go
@@ -98,8 +98,8 @@ func (t *TileGroup) cdefBlock(r int, c int, idx int, state *state.State, sh sequ
 			dir = 0
 		} else {
 			dir = CDEF_UV_DIR[util.Int(sh.ColorConfig.SubsamplingX)][util.Int(sh.ColorConfig.SubsamplingY)][yDir]
-			damping = uh.CdefDampening + coeffShift - 1
 		}
+		damping = uh.CdefDampening + coeffShift - 1
 
 		t.cdefFilter(1, r, c, priStr, secStr, damping, dir, state, sh, uh)
 		t.cdefFilter(2, r, c, priStr, secStr, damping, dir, state, sh, uh)
-- 
2.43.0


From 767dcf2376790dcbc66a47e8043c46fd4140641f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:26 +0000
Subject: [PATCH 111/163] fix: scale the CDEF strengths by the bit depth above
 8

---
 internal/tilegroup/cdef.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/cdef.go b/internal/tilegroup/cdef.go
index 90ee167..b4ff9b6 100644
--- a/internal/tilegroup/cdef.go
+++ b/internal/tilegroup/cdef.go
@@ -188,7 +188,7 @@ func (t *TileGroup) cdefFilter(plane int, r int, c int, priStr int, secStr int,
 	// "MiColStart, MiRowStart, MiColEnd, MiRowEnd are set equal to the values
 	// they had when the syntax element MiSizes[r][c] was written."
 
-	coeffShift := sh.ColorConfig.BitDepth
+	coeffShift := sh.ColorConfig.BitDepth - 8
 	var subX, subY int
 	if plane > 0 {
 		subX = util.Int(sh.ColorConfig.SubsamplingX)
-- 
2.43.0


From 60782512be85ab3bd5e4965f7287281ad4d5889e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:26 +0000
Subject: [PATCH 112/163] fix: frames without superres are not resampled

---
 internal/tilegroup/decode_frame_wrapup.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/tilegroup/decode_frame_wrapup.go b/internal/tilegroup/decode_frame_wrapup.go
index 774db1f..77d186e 100644
--- a/internal/tilegroup/decode_frame_wrapup.go
+++ b/internal/tilegroup/decode_frame_wrapup.go
@@ -10,6 +10,10 @@ import (
 
 // 7.16 Upscaling process
 func (t *TileGroup) upscalingProcess(inputFrame [3][][]int, state *state.State, sh sequenceheader.SequenceHeader, uh uncompressedheader.UncompressedHeader) [3][][]int {
+	if !uh.UseSuperRes {
+		return inputFrame
+	}
+
 	var outputFrame [3][][]int
 	for plane := 0; plane < sh.ColorConfig.NumPlanes; plane++ {
 		var subX, subY int
-- 
2.43.0


From ec5e9443cdc36cee3328c1927b6c78fe241d3de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:26 +0000
Subject: [PATCH 113/163] fix: restoration units are not offset horizontally

---
 internal/tilegroup/loop_restoration.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/loop_restoration.go b/internal/tilegroup/loop_restoration.go
index 0973b04..90acfa3 100644
--- a/internal/tilegroup/loop_restoration.go
+++ b/internal/tilegroup/loop_restoration.go
@@ -51,7 +51,7 @@ func (t *TileGroup) loopRestoreBlock(plane int, row int, col int, state *state.S
 	unitCols := util.CountUnitsInFrame(unitSize, util.Round2(uh.UpscaledWidth, subX))
 
 	unitRow := util.Min(unitRows-1, ((row*MI_SIZE+8)>>subY)/unitSize)
-	unitCol := util.Min(unitCols-1, ((col*MI_SIZE+8)>>subX)/unitSize)
+	unitCol := util.Min(unitCols-1, ((col*MI_SIZE)>>subX)/unitSize)
 
 	t.PlaneEndX = util.Round2(uh.UpscaledWidth, subX) - 1
 	t.PlaneEndY = util.Round2(uh.FrameHeight, subY) - 1
-- 
2.43.0


From a14f010d0c3d8722f5a2bf01eb32fdc13e7b56bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:26 +0000
Subject: [PATCH 114/163] fix: make room for a whole block in the box filter

---
 internal/tilegroup/loop_restoration.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/tilegroup/loop_restoration.go b/internal/tilegroup/loop_restoration.go
index 90acfa3..bf89c9d 100644
--- a/internal/tilegroup/loop_restoration.go
+++ b/internal/tilegroup/loop_restoration.go
@@ -104,11 +104,11 @@ func (t *TileGroup) selfGuidedFilter(plane int, unitRow int, unitCol int, x int,
 }
 
 // 7.17.3. Box filter process
-func (t *TileGroup) boxFilter(plane int, x int, y int, w int, h int, set int, pass bool, state *state.State, sh sequenceheader.SequenceHeader) [1][1]int {
+func (t *TileGroup) boxFilter(plane int, x int, y int, w int, h int, set int, pass bool, state *state.State, sh sequenceheader.SequenceHeader) [MI_SIZE][MI_SIZE]int {
 
 	r := SGR_PARAMS[set][util.Int(pass)*2+0]
 	if r == 0 {
-		return [1][1]int{}
+		return [MI_SIZE][MI_SIZE]int{}
 	}
 
 	eps := SGR_PARAMS[set][util.Int(pass)*2+1]
@@ -117,7 +117,7 @@ func (t *TileGroup) boxFilter(plane int, x int, y int, w int, h int, set int, pa
 	n2e := n * n * eps
 	s := (((1 << SGRPROJ_MTABLE_BITS) + n2e/2) / n2e)
 
-	var A, B [3][3]int
+	var A, B [MI_SIZE + 2][MI_SIZE + 2]int
 	for i := -1; i < h+1; i++ {
 		for j := -1; j < w+1; j++ {
 			a := 0
@@ -162,7 +162,7 @@ func (t *TileGroup) boxFilter(plane int, x int, y int, w int, h int, set int, pa
 		}
 	}
 
-	var F [1][1]int
+	var F [MI_SIZE][MI_SIZE]int
 	for i := 0; i < h; i++ {
 		shift := 5
 		if !pass && util.Bool(i&1) {
-- 
2.43.0


From 1dccfa9642fbde2e8386a344ad04647896b7dc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:26 +0000
Subject: [PATCH 115/163] fix: make room for the intermediate samples of the
 Wiener filter

---
 internal/tilegroup/loop_restoration.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/loop_restoration.go b/internal/tilegroup/loop_restoration.go
index bf89c9d..aeb22e1 100644
--- a/internal/tilegroup/loop_restoration.go
+++ b/internal/tilegroup/loop_restoration.go
@@ -233,7 +233,7 @@ func (tg *TileGroup) wienerFilter(plane int, unitRow int, unitCol int, x int, y
 	offset := (1 << (sh.ColorConfig.BitDepth + FILTER_BITS - tg.InterRound0 - 1))
 	limit := (1 << (sh.ColorConfig.BitDepth + 1 + FILTER_BITS - tg.InterRound0)) - 1
 
-	var intermediate [][]int
+	var intermediate [MI_SIZE + 6][MI_SIZE]int
 	for r := 0; r < h+6; r++ {
 		for c := 0; c < w; c++ {
 			s := 0
-- 
2.43.0


From 8c713709792c845e6acccbcb7f0a650990af856a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:27 +0000
Subject: [PATCH 116/163] fix: mirror the Wiener filter coefficients

---
 internal/tilegroup/loop_restoration.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/loop_restoration.go b/internal/tilegroup/loop_restoration.go
index aeb22e1..1e35b6a 100644
--- a/internal/tilegroup/loop_restoration.go
+++ b/internal/tilegroup/loop_restoration.go
@@ -263,7 +263,7 @@ func (t *TileGroup) wienerCoefficient(coeff [3]int) [7]int {
 	for i := 0; i < 3; i++ {
 		c := coeff[i]
 		filter[i] = c
-		filter[6-1] = c
+		filter[6-i] = c
 		filter[3] -= 2 * c
 	}
 
-- 
2.43.0


From 2b70b328e2ff7fc6c5a76ef52036d61a676be9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:55 +0000
Subject: [PATCH 117/163] fix: the column transform wrote its output along the
 wrong index

---
 internal/tilegroup/transform.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/transform.go b/internal/tilegroup/transform.go
index 692e04a..37a9f7d 100644
--- a/internal/tilegroup/transform.go
+++ b/internal/tilegroup/transform.go
@@ -113,7 +113,7 @@ func (t *TileGroup) InverseTranform(txSz int, sh sequenceheader.SequenceHeader)
 		}
 
 		for i := 0; i < h; i++ {
-			t.Residual[i][j] = util.Round2(t.T[j], colShift)
+			t.Residual[i][j] = util.Round2(t.T[i], colShift)
 		}
 	}
 }
-- 
2.43.0


From 8c91420da9306679a47b68114c7dbc75d8a54ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:28 +0000
Subject: [PATCH 118/163] fix: the bottom block of PARTITION_HORZ_A spans the
 full width

---
 internal/tilegroup/decode_partition.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/decode_partition.go b/internal/tilegroup/decode_partition.go
index facbe13..d17bae2 100644
--- a/internal/tilegroup/decode_partition.go
+++ b/internal/tilegroup/decode_partition.go
@@ -70,7 +70,7 @@ func (t *TileGroup) decodePartition(r int, c int, bSize int, b *bitstream.BitStr
 	} else if partition == PARTITION_HORZ_A {
 		t.decodeBlock(r, c, splitSize, b, state, sh, uh)
 		t.decodeBlock(r, c+halfBlock4x4, splitSize, b, state, sh, uh)
-		t.decodeBlock(r+halfBlock4x4, c, splitSize, b, state, sh, uh)
+		t.decodeBlock(r+halfBlock4x4, c, subSize, b, state, sh, uh)
 	} else if partition == PARTITION_HORZ_B {
 		t.decodeBlock(r, c, subSize, b, state, sh, uh)
 		t.decodeBlock(r+halfBlock4x4, c, splitSize, b, state, sh, uh)
-- 
2.43.0


From 6ace73e92c37c71c25388b957b770bf450868501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:24 +0000
Subject: [PATCH 119/163] fix: the color above counts twice in the palette
 color context

---
 internal/tilegroup/palette_tokens.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/palette_tokens.go b/internal/tilegroup/palette_tokens.go
index 3b91301..405c436 100644
--- a/internal/tilegroup/palette_tokens.go
+++ b/internal/tilegroup/palette_tokens.go
@@ -150,7 +150,7 @@ func (t *TileGroup) getPaletteColorContext(colorMap [][]int, r int, c int, n int
 	}
 	if r > 0 {
 		neighbor = colorMap[r-1][c]
-		scores[neighbor] += 1
+		scores[neighbor] += 2
 	}
 
 	for i := 0; i < PALETTE_NUM_NEIGHBORS; i++ {
-- 
2.43.0


From 0e77055f2dfebafafa13daf90141dd85206e9019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:25 +0000
Subject: [PATCH 120/163] fix: use the spec's default CDF for
 palette_size_5_uv_color

---
 internal/uncompressedheader/cdf.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/internal/uncompressedheader/cdf.go b/internal/uncompressedheader/cdf.go
index 1880e42..6e5b136 100644
--- a/internal/uncompressedheader/cdf.go
+++ b/internal/uncompressedheader/cdf.go
@@ -926,15 +926,15 @@ var DEFAULT_PALETTE_SIZE_6_Y_COLOR_CDF = [][]int{
 
 var DEFAULT_PALETTE_SIZE_5_UV_COLOR_CDF = [][]int{
 	{
-		24779, 26955, 28576, 30282, 32768, 0},
+		22980, 25479, 27781, 29986, 32768, 0},
 	{
-		8669, 20364, 24073, 28093, 32768, 0},
+		8413, 21408, 24859, 28874, 32768, 0},
 	{
-		4255, 27565, 29377, 31067, 32768, 0},
+		2257, 29449, 30594, 31598, 32768, 0},
 	{
-		19864, 23674, 26716, 29530, 32768, 0},
+		19189, 21202, 25915, 28620, 32768, 0},
 	{
-		31646, 31893, 32147, 32426, 32768, 0},
+		31844, 32044, 32281, 32518, 32768, 0},
 }
 
 var DEFAULT_PALETTE_SIZE_5_Y_COLOR_CDF = [][]int{
-- 
2.43.0


From 8485baebeea0a61488654a6dcede4b6da7b71722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:44 +0000
Subject: [PATCH 121/163] fix: read skip_mode with the context of the
 neighbouring blocks

---
 internal/tilegroup/inter_frame_mode_info.go |  2 +-
 internal/tilegroup/syntax_element.go        | 11 +++++++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/internal/tilegroup/inter_frame_mode_info.go b/internal/tilegroup/inter_frame_mode_info.go
index fab1292..8cdea61 100644
--- a/internal/tilegroup/inter_frame_mode_info.go
+++ b/internal/tilegroup/inter_frame_mode_info.go
@@ -175,7 +175,7 @@ func (t *TileGroup) readSkipMode(b *bitstream.BitStream, state *state.State, uh
 	if t.segFeatureActive(shared.SEG_LVL_SKIP, uh, state) || t.segFeatureActive(shared.SEG_LVL_REF_FRAME, uh, state) || t.segFeatureActive(shared.SEG_LVL_GLOBALMV, uh, state) || !util.Bool(uh.SkipModePresent) || shared.BLOCK_WIDTH[state.MiSize] < 8 || shared.BLOCK_HEIGHT[state.MiSize] < 8 {
 		t.SkipMode = 0
 	} else {
-		t.SkipMode = b.S()
+		t.SkipMode = t.skipModeSymbol(state, b, uh)
 	}
 }
 
diff --git a/internal/tilegroup/syntax_element.go b/internal/tilegroup/syntax_element.go
index e515381..b2d3bff 100644
--- a/internal/tilegroup/syntax_element.go
+++ b/internal/tilegroup/syntax_element.go
@@ -41,6 +41,17 @@ func refCountCtx(counts0 int, counts1 int) int {
 	return 2
 }
 
+func (t *TileGroup) skipModeSymbol(state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) int {
+	ctx := 0
+	if state.AvailU {
+		ctx += t.SkipModes[state.MiRow-1][state.MiCol]
+	}
+	if state.AvailL {
+		ctx += t.SkipModes[state.MiRow][state.MiCol-1]
+	}
+	return symbol.ReadSymbol(state.TileSkipModeCdf[ctx], state, b, uh)
+}
+
 func (t *TileGroup) singleRefP1Symbol(state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) int {
 	fwdCount := t.countRefs(shared.LAST_FRAME, state)
 	fwdCount += t.countRefs(shared.LAST2_FRAME, state)
-- 
2.43.0


From b0c57caba460b172c103851f66bccb5e2d68c4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:44 +0000
Subject: [PATCH 122/163] fix: read seg_id_predicted and keep its left context

---
 internal/tilegroup/inter_frame_mode_info.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/tilegroup/inter_frame_mode_info.go b/internal/tilegroup/inter_frame_mode_info.go
index 8cdea61..d64be70 100644
--- a/internal/tilegroup/inter_frame_mode_info.go
+++ b/internal/tilegroup/inter_frame_mode_info.go
@@ -120,7 +120,7 @@ func (t *TileGroup) interSegmentId(preSkip int, b *bitstream.BitStream, uh uncom
 						t.AboveSegPredContext[state.MiCol+i] = segIdPredicted
 					}
 					for i := 0; i < shared.NUM_4X4_BLOCKS_HIGH[state.MiSize]; i++ {
-						t.AboveSegPredContext[state.MiRow+i] = segIdPredicted
+						t.LeftSegPredContext[state.MiRow+i] = segIdPredicted
 					}
 					t.readSegmentId(b, uh, state)
 					return
@@ -128,7 +128,8 @@ func (t *TileGroup) interSegmentId(preSkip int, b *bitstream.BitStream, uh uncom
 			}
 
 			if uh.SegmentationTemporalUpdate == 1 {
-				segIdPredicted := b.S()
+				ctx := t.LeftSegPredContext[state.MiRow] + t.AboveSegPredContext[state.MiCol]
+				segIdPredicted := symbol.ReadSymbol(state.TileSegmentIdPredictedCdf[ctx], state, b, uh)
 				if util.Bool(segIdPredicted) {
 					t.SegmentId = predictedSegmentId
 				} else {
@@ -139,7 +140,7 @@ func (t *TileGroup) interSegmentId(preSkip int, b *bitstream.BitStream, uh uncom
 					t.AboveSegPredContext[state.MiCol+i] = segIdPredicted
 				}
 				for i := 0; i < shared.NUM_4X4_BLOCKS_HIGH[state.MiSize]; i++ {
-					t.AboveSegPredContext[state.MiRow+i] = segIdPredicted
+					t.LeftSegPredContext[state.MiRow+i] = segIdPredicted
 				}
 
 			} else {
-- 
2.43.0


From a16fc04fcdfe252f43894517b090e486d756fd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:45 +0000
Subject: [PATCH 123/163] fix: blocks with the global motion segment feature
 are inter blocks

---
 internal/tilegroup/inter_frame_mode_info.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/inter_frame_mode_info.go b/internal/tilegroup/inter_frame_mode_info.go
index d64be70..cfa1003 100644
--- a/internal/tilegroup/inter_frame_mode_info.go
+++ b/internal/tilegroup/inter_frame_mode_info.go
@@ -187,7 +187,7 @@ func (t *TileGroup) readIsInter(b *bitstream.BitStream, state *state.State, uh u
 	} else if t.segFeatureActive(shared.SEG_LVL_REF_FRAME, uh, state) {
 		t.IsInter = util.Int(state.FeatureData[t.SegmentId][shared.SEG_LVL_REF_FRAME] != shared.INTRA_FRAME)
 	} else if t.segFeatureActive(shared.SEG_LVL_GLOBALMV, uh, state) {
-		t.IsInter = 0
+		t.IsInter = 1
 	} else {
 		// S()
 		var ctx int
-- 
2.43.0


From cb981bfb5f3203cacbe664a63c3ce27b05a07a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:45 +0000
Subject: [PATCH 124/163] fix: read the inter mode symbols

---
 internal/tilegroup/inter_block_mode_info.go | 9 +++++----
 internal/tilegroup/tile_group.go            | 2 +-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/internal/tilegroup/inter_block_mode_info.go b/internal/tilegroup/inter_block_mode_info.go
index 9c49f11..d90402a 100644
--- a/internal/tilegroup/inter_block_mode_info.go
+++ b/internal/tilegroup/inter_block_mode_info.go
@@ -32,7 +32,8 @@ func (t *TileGroup) interBlockModeInfo(b *bitstream.BitStream, state *state.Stat
 	} else if t.segFeatureActive(shared.SEG_LVL_SKIP, uh, state) || t.segFeatureActive(shared.SEG_LVL_GLOBALMV, uh, state) {
 		t.YMode = shared.GLOBALMV
 	} else if isCompound {
-		compoundMode := b.S()
+		ctx := COMPOUND_MODE_CTX_MAP[t.RefMvContext>>1][util.Min(t.NewMvContext, 4)]
+		compoundMode := symbol.ReadSymbol(state.TileCompoundModeCdf[ctx], state, b, uh)
 
 		t.YMode = shared.NEAREST_NEARESTMV + compoundMode
 	} else {
@@ -44,7 +45,7 @@ func (t *TileGroup) interBlockModeInfo(b *bitstream.BitStream, state *state.Stat
 			if zeroMv == 0 {
 				t.YMode = shared.GLOBALMV
 			} else {
-				refMv := b.S()
+				refMv := symbol.ReadSymbol(state.TileRefMvCdf[t.RefMvContext], state, b, uh)
 				if refMv == 0 {
 					t.YMode = shared.NEARESTMV
 				} else {
@@ -58,7 +59,7 @@ func (t *TileGroup) interBlockModeInfo(b *bitstream.BitStream, state *state.Stat
 	if t.YMode == shared.NEWMV || t.YMode == shared.NEW_NEWMV {
 		for idx := 0; idx < 2; idx++ {
 			if t.NumMvFound > idx+1 {
-				drlMode := b.S()
+				drlMode := symbol.ReadSymbol(state.TileDrlModeCdf[t.DrlCtxStack[idx]], state, b, uh)
 				if drlMode == 0 {
 					t.RefMvIdx = idx
 					break
@@ -70,7 +71,7 @@ func (t *TileGroup) interBlockModeInfo(b *bitstream.BitStream, state *state.Stat
 		t.RefMvIdx = 1
 		for idx := 1; idx < 3; idx++ {
 			if t.NumMvFound > idx+1 {
-				drlMode := b.S()
+				drlMode := symbol.ReadSymbol(state.TileDrlModeCdf[t.DrlCtxStack[idx]], state, b, uh)
 				if drlMode == 0 {
 					t.RefMvIdx = idx
 					break
diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index bf91d56..bdc4cc9 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -223,7 +223,7 @@ type TileGroup struct {
 	BckWeight int
 
 	ZeroMvContext int
-	DrlCtxStack   [1]int
+	DrlCtxStack   [MAX_REF_MV_STACK_SIZE + 1]int
 
 	MaxLumaH int
 	MaxLumaW int
-- 
2.43.0


From bcda09202b4e9cacdc688ac9f4b94a8100d1d0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:45 +0000
Subject: [PATCH 125/163] fix: read the interpolation filter symbols

---
 internal/tilegroup/inter_block_mode_info.go |  4 ++--
 internal/tilegroup/syntax_element.go        | 24 +++++++++++++++++++++
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/inter_block_mode_info.go b/internal/tilegroup/inter_block_mode_info.go
index d90402a..cd8d3ba 100644
--- a/internal/tilegroup/inter_block_mode_info.go
+++ b/internal/tilegroup/inter_block_mode_info.go
@@ -93,7 +93,7 @@ func (t *TileGroup) interBlockModeInfo(b *bitstream.BitStream, state *state.Stat
 		}
 		for dir := 0; dir < x; dir++ {
 			if t.needsInterpFilter(state) {
-				t.InterpFilter[dir] = b.S()
+				t.InterpFilter[dir] = t.interpFilterSymbol(dir, state, b, uh)
 			} else {
 				t.InterpFilter[dir] = shared.EIGHTTAP
 			}
@@ -405,7 +405,7 @@ func (t *TileGroup) needsInterpFilter(state *state.State) bool {
 	} else if large && t.YMode == shared.GLOBALMV {
 		return state.GmType[state.RefFrame[0]] == shared.TRANSLATION
 	} else if large && t.YMode == shared.GLOBAL_GLOBALMV {
-		return state.GmType[state.RefFrame[0]] == shared.TRANSLATION || state.GmType[1] == shared.TRANSLATION
+		return state.GmType[state.RefFrame[0]] == shared.TRANSLATION || state.GmType[state.RefFrame[1]] == shared.TRANSLATION
 	} else {
 		return true
 	}
diff --git a/internal/tilegroup/syntax_element.go b/internal/tilegroup/syntax_element.go
index b2d3bff..805e7d9 100644
--- a/internal/tilegroup/syntax_element.go
+++ b/internal/tilegroup/syntax_element.go
@@ -6,6 +6,7 @@ import (
 	"github.com/m4tthewde/gov1/internal/state"
 	"github.com/m4tthewde/gov1/internal/symbol"
 	"github.com/m4tthewde/gov1/internal/uncompressedheader"
+	"github.com/m4tthewde/gov1/internal/util"
 )
 
 func (t *TileGroup) countRefs(frameType int, state *state.State) int {
@@ -52,6 +53,29 @@ func (t *TileGroup) skipModeSymbol(state *state.State, b *bitstream.BitStream, u
 	return symbol.ReadSymbol(state.TileSkipModeCdf[ctx], state, b, uh)
 }
 
+func (t *TileGroup) interpFilterSymbol(dir int, state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) int {
+	ctx := ((dir&1)*2 + util.Int(state.RefFrame[1] > shared.INTRA_FRAME)) * 4
+	leftType := 3
+	aboveType := 3
+	if state.AvailL && (t.LeftRefFrame[0] == state.RefFrame[0] || t.LeftRefFrame[1] == state.RefFrame[0]) {
+		leftType = t.InterpFilters[state.MiRow][state.MiCol-1][dir]
+	}
+	if state.AvailU && (t.AboveRefFrame[0] == state.RefFrame[0] || t.AboveRefFrame[1] == state.RefFrame[0]) {
+		aboveType = t.InterpFilters[state.MiRow-1][state.MiCol][dir]
+	}
+
+	if leftType == aboveType {
+		ctx += leftType
+	} else if leftType == 3 {
+		ctx += aboveType
+	} else if aboveType == 3 {
+		ctx += leftType
+	} else {
+		ctx += 3
+	}
+	return symbol.ReadSymbol(state.TileInterpFilterCdf[ctx], state, b, uh)
+}
+
 func (t *TileGroup) singleRefP1Symbol(state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) int {
 	fwdCount := t.countRefs(shared.LAST_FRAME, state)
 	fwdCount += t.countRefs(shared.LAST2_FRAME, state)
-- 
2.43.0


From b7c4a65ade2a9849dbef38d0b2f753754a5d534a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:45 +0000
Subject: [PATCH 126/163] fix: segments with a skip or global motion feature
 refer to LAST_FRAME

---
 internal/tilegroup/inter_block_mode_info.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/tilegroup/inter_block_mode_info.go b/internal/tilegroup/inter_block_mode_info.go
index cd8d3ba..b89489b 100644
--- a/internal/tilegroup/inter_block_mode_info.go
+++ b/internal/tilegroup/inter_block_mode_info.go
@@ -117,6 +117,9 @@ func (t *TileGroup) readRefFrames(b *bitstream.BitStream, state *state.State, uh
 	} else if t.segFeatureActive(shared.SEG_LVL_REF_FRAME, uh, state) {
 		state.RefFrame[0] = state.FeatureData[t.SegmentId][shared.SEG_LVL_REF_FRAME]
 		state.RefFrame[1] = shared.NONE
+	} else if t.segFeatureActive(shared.SEG_LVL_SKIP, uh, state) || t.segFeatureActive(shared.SEG_LVL_GLOBALMV, uh, state) {
+		state.RefFrame[0] = shared.LAST_FRAME
+		state.RefFrame[1] = shared.NONE
 	} else {
 		bw4 := shared.NUM_4X4_BLOCKS_WIDE[state.MiSize]
 		bh4 := shared.NUM_4X4_BLOCKS_HIGH[state.MiSize]
-- 
2.43.0


From 3e1d934c65cbe5c42e7927982bb0fa2b0ede37d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:46 +0000
Subject: [PATCH 127/163] fix: single reference symbols use the context of the
 frames they tell apart

---
 internal/tilegroup/inter_block_mode_info.go |  2 +-
 internal/tilegroup/syntax_element.go        | 25 ++++++++++++---------
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/internal/tilegroup/inter_block_mode_info.go b/internal/tilegroup/inter_block_mode_info.go
index b89489b..1a097d1 100644
--- a/internal/tilegroup/inter_block_mode_info.go
+++ b/internal/tilegroup/inter_block_mode_info.go
@@ -211,7 +211,7 @@ func (t *TileGroup) readRefFrames(b *bitstream.BitStream, state *state.State, uh
 			} else {
 				singleRefP3 := t.singleRefP3Symbol(state, b, uh)
 				if util.Bool(singleRefP3) {
-					singleRefP5 := b.S()
+					singleRefP5 := t.singleRefP5Symbol(state, b, uh)
 					if util.Bool(singleRefP5) {
 						state.RefFrame[0] = shared.GOLDEN_FRAME
 					} else {
diff --git a/internal/tilegroup/syntax_element.go b/internal/tilegroup/syntax_element.go
index 805e7d9..6935cad 100644
--- a/internal/tilegroup/syntax_element.go
+++ b/internal/tilegroup/syntax_element.go
@@ -89,9 +89,9 @@ func (t *TileGroup) singleRefP1Symbol(state *state.State, b *bitstream.BitStream
 }
 
 func (t *TileGroup) singleRefP2Symbol(state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) int {
-	brfCount := t.countRefs(shared.BWDREF_FRAME, state)
-	arf2Count := t.countRefs(shared.ALTREF2_FRAME, state)
-	ctx := refCountCtx(brfCount, arf2Count)
+	brfarf2Count := t.countRefs(shared.BWDREF_FRAME, state) + t.countRefs(shared.ALTREF2_FRAME, state)
+	arfCount := t.countRefs(shared.ALTREF_FRAME, state)
+	ctx := refCountCtx(brfarf2Count, arfCount)
 
 	return symbol.ReadSymbol(state.TileSingleRefCdf[ctx][1], state, b, uh)
 }
@@ -104,17 +104,20 @@ func (t *TileGroup) singleRefP3Symbol(state *state.State, b *bitstream.BitStream
 }
 
 func (t *TileGroup) singleRefP4Symbol(state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) int {
-	fwdCount := t.countRefs(shared.LAST_FRAME, state)
-	fwdCount += t.countRefs(shared.LAST2_FRAME, state)
-	fwdCount += t.countRefs(shared.LAST3_FRAME, state)
-	fwdCount += t.countRefs(shared.GOLDEN_FRAME, state)
-	bwdCount := t.countRefs(shared.BWDREF_FRAME, state)
-	bwdCount += t.countRefs(shared.ALTREF2_FRAME, state)
-	bwdCount += t.countRefs(shared.ALTREF_FRAME, state)
-	ctx := refCountCtx(fwdCount, bwdCount)
+	lastCount := t.countRefs(shared.LAST_FRAME, state)
+	last2Count := t.countRefs(shared.LAST2_FRAME, state)
+	ctx := refCountCtx(lastCount, last2Count)
 	return symbol.ReadSymbol(state.TileSingleRefCdf[ctx][3], state, b, uh)
 }
 
+func (t *TileGroup) singleRefP5Symbol(state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) int {
+	last3Count := t.countRefs(shared.LAST3_FRAME, state)
+	goldCount := t.countRefs(shared.GOLDEN_FRAME, state)
+	ctx := refCountCtx(last3Count, goldCount)
+
+	return symbol.ReadSymbol(state.TileSingleRefCdf[ctx][4], state, b, uh)
+}
+
 func (t *TileGroup) singleRefP6Symbol(state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) int {
 	brfCount := t.countRefs(shared.BWDREF_FRAME, state)
 	arf2Count := t.countRefs(shared.ALTREF2_FRAME, state)
-- 
2.43.0


From 08d343cea06e270dac6f35fbd950097b66ec1500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:46 +0000
Subject: [PATCH 128/163] fix: read the compound reference symbols

---
 internal/tilegroup/comp_ref_symbol.go       | 161 ++++++++++++++++++++
 internal/tilegroup/inter_block_mode_info.go |  20 +--
 2 files changed, 171 insertions(+), 10 deletions(-)
 create mode 100644 internal/tilegroup/comp_ref_symbol.go

diff --git a/internal/tilegroup/comp_ref_symbol.go b/internal/tilegroup/comp_ref_symbol.go
new file mode 100644
index 0000000..b624157
--- /dev/null
+++ b/internal/tilegroup/comp_ref_symbol.go
@@ -0,0 +1,161 @@
+package tilegroup
+
+import (
+	"github.com/m4tthewde/gov1/internal/bitstream"
+	"github.com/m4tthewde/gov1/internal/shared"
+	"github.com/m4tthewde/gov1/internal/state"
+	"github.com/m4tthewde/gov1/internal/symbol"
+	"github.com/m4tthewde/gov1/internal/uncompressedheader"
+	"github.com/m4tthewde/gov1/internal/util"
+)
+
+func isBackwardRef(refFrame int) bool {
+	return refFrame >= shared.BWDREF_FRAME && refFrame <= shared.ALTREF_FRAME
+}
+
+func isUniComp(refFrame [2]int) bool {
+	return refFrame[1] > shared.INTRA_FRAME && isBackwardRef(refFrame[0]) == isBackwardRef(refFrame[1])
+}
+
+// comp_mode
+func (t *TileGroup) compModeSymbol(state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) int {
+	aboveBackward := isBackwardRef(t.AboveRefFrame[0])
+	leftBackward := isBackwardRef(t.LeftRefFrame[0])
+
+	var ctx int
+	if state.AvailU && state.AvailL {
+		if t.AboveSingle && t.LeftSingle {
+			ctx = util.Int(aboveBackward != leftBackward)
+		} else if t.AboveSingle {
+			ctx = 2 + util.Int(aboveBackward || t.AboveIntra)
+		} else if t.LeftSingle {
+			ctx = 2 + util.Int(leftBackward || t.LeftIntra)
+		} else {
+			ctx = 4
+		}
+	} else if state.AvailU {
+		if t.AboveSingle {
+			ctx = util.Int(aboveBackward)
+		} else {
+			ctx = 3
+		}
+	} else if state.AvailL {
+		if t.LeftSingle {
+			ctx = util.Int(leftBackward)
+		} else {
+			ctx = 3
+		}
+	} else {
+		ctx = 1
+	}
+	return symbol.ReadSymbol(state.TileCompModeCdf[ctx], state, b, uh)
+}
+
+// comp_ref_type
+func (t *TileGroup) compRefTypeSymbol(state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) int {
+	aboveCompInter := state.AvailU && !t.AboveIntra && !t.AboveSingle
+	leftCompInter := state.AvailL && !t.LeftIntra && !t.LeftSingle
+	aboveUniComp := aboveCompInter && isUniComp(t.AboveRefFrame)
+	leftUniComp := leftCompInter && isUniComp(t.LeftRefFrame)
+
+	var ctx int
+	if state.AvailU && !t.AboveIntra && state.AvailL && !t.LeftIntra {
+		sameDirection := util.Int(isBackwardRef(t.AboveRefFrame[0]) == isBackwardRef(t.LeftRefFrame[0]))
+		if !aboveCompInter && !leftCompInter {
+			ctx = 1 + 2*sameDirection
+		} else if !aboveCompInter {
+			if !leftUniComp {
+				ctx = 1
+			} else {
+				ctx = 3 + sameDirection
+			}
+		} else if !leftCompInter {
+			if !aboveUniComp {
+				ctx = 1
+			} else {
+				ctx = 3 + sameDirection
+			}
+		} else if !aboveUniComp && !leftUniComp {
+			ctx = 0
+		} else if !aboveUniComp || !leftUniComp {
+			ctx = 2
+		} else {
+			ctx = 3 + util.Int((t.AboveRefFrame[0] == shared.BWDREF_FRAME) == (t.LeftRefFrame[0] == shared.BWDREF_FRAME))
+		}
+	} else if state.AvailU && state.AvailL {
+		if aboveCompInter {
+			ctx = 1 + 2*util.Int(aboveUniComp)
+		} else if leftCompInter {
+			ctx = 1 + 2*util.Int(leftUniComp)
+		} else {
+			ctx = 2
+		}
+	} else if aboveCompInter {
+		ctx = 4 * util.Int(aboveUniComp)
+	} else if leftCompInter {
+		ctx = 4 * util.Int(leftUniComp)
+	} else {
+		ctx = 2
+	}
+	return symbol.ReadSymbol(state.TileCompRefTypeCdf[ctx], state, b, uh)
+}
+
+func (t *TileGroup) directionCtx(state *state.State) int {
+	fwdCount := t.countRefs(shared.LAST_FRAME, state) + t.countRefs(shared.LAST2_FRAME, state) + t.countRefs(shared.LAST3_FRAME, state) + t.countRefs(shared.GOLDEN_FRAME, state)
+	bwdCount := t.countRefs(shared.BWDREF_FRAME, state) + t.countRefs(shared.ALTREF2_FRAME, state) + t.countRefs(shared.ALTREF_FRAME, state)
+	return refCountCtx(fwdCount, bwdCount)
+}
+
+func (t *TileGroup) last3GoldCtx(state *state.State) int {
+	return refCountCtx(t.countRefs(shared.LAST3_FRAME, state), t.countRefs(shared.GOLDEN_FRAME, state))
+}
+
+// uni_comp_ref
+func (t *TileGroup) uniCompRefSymbol(state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) int {
+	return symbol.ReadSymbol(state.TileUniCompRefCdf[t.directionCtx(state)][0], state, b, uh)
+}
+
+// uni_comp_ref_p1
+func (t *TileGroup) uniCompRefP1Symbol(state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) int {
+	last2Count := t.countRefs(shared.LAST2_FRAME, state)
+	last3GoldCount := t.countRefs(shared.LAST3_FRAME, state) + t.countRefs(shared.GOLDEN_FRAME, state)
+	return symbol.ReadSymbol(state.TileUniCompRefCdf[refCountCtx(last2Count, last3GoldCount)][1], state, b, uh)
+}
+
+// uni_comp_ref_p2
+func (t *TileGroup) uniCompRefP2Symbol(state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) int {
+	return symbol.ReadSymbol(state.TileUniCompRefCdf[t.last3GoldCtx(state)][2], state, b, uh)
+}
+
+// comp_ref
+func (t *TileGroup) compRefSymbol(state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) int {
+	last12Count := t.countRefs(shared.LAST_FRAME, state) + t.countRefs(shared.LAST2_FRAME, state)
+	last3GoldCount := t.countRefs(shared.LAST3_FRAME, state) + t.countRefs(shared.GOLDEN_FRAME, state)
+	return symbol.ReadSymbol(state.TileCompRefCdf[refCountCtx(last12Count, last3GoldCount)][0], state, b, uh)
+}
+
+// comp_ref_p1
+func (t *TileGroup) compRefP1Symbol(state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) int {
+	lastCount := t.countRefs(shared.LAST_FRAME, state)
+	last2Count := t.countRefs(shared.LAST2_FRAME, state)
+	return symbol.ReadSymbol(state.TileCompRefCdf[refCountCtx(lastCount, last2Count)][1], state, b, uh)
+}
+
+// comp_ref_p2
+func (t *TileGroup) compRefP2Symbol(state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) int {
+	return symbol.ReadSymbol(state.TileCompRefCdf[t.last3GoldCtx(state)][2], state, b, uh)
+}
+
+// comp_bwdref
+func (t *TileGroup) compBwdrefSymbol(state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) int {
+	brfarf2Count := t.countRefs(shared.BWDREF_FRAME, state) + t.countRefs(shared.ALTREF2_FRAME, state)
+	arfCount := t.countRefs(shared.ALTREF_FRAME, state)
+	return symbol.ReadSymbol(state.TileCompBwdRefCdf[refCountCtx(brfarf2Count, arfCount)][0], state, b, uh)
+}
+
+// comp_bwdref_p1
+func (t *TileGroup) compBwdrefP1Symbol(state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) int {
+	brfCount := t.countRefs(shared.BWDREF_FRAME, state)
+	arf2Count := t.countRefs(shared.ALTREF2_FRAME, state)
+	return symbol.ReadSymbol(state.TileCompBwdRefCdf[refCountCtx(brfCount, arf2Count)][1], state, b, uh)
+}
diff --git a/internal/tilegroup/inter_block_mode_info.go b/internal/tilegroup/inter_block_mode_info.go
index 1a097d1..5bd7558 100644
--- a/internal/tilegroup/inter_block_mode_info.go
+++ b/internal/tilegroup/inter_block_mode_info.go
@@ -126,22 +126,22 @@ func (t *TileGroup) readRefFrames(b *bitstream.BitStream, state *state.State, uh
 
 		var compMode int
 		if uh.ReferenceSelect && util.Min(bw4, bh4) >= 2 {
-			compMode = b.S()
+			compMode = t.compModeSymbol(state, b, uh)
 		} else {
 			compMode = SINGLE_REFERENCE
 		}
 
 		if compMode == COMPOUND_REFERENCE {
-			compRefType := b.S()
+			compRefType := t.compRefTypeSymbol(state, b, uh)
 			if compRefType == UNIDIR_COMP_REFERENCE {
-				uniCompRef := b.S()
+				uniCompRef := t.uniCompRefSymbol(state, b, uh)
 				if util.Bool(uniCompRef) {
 					state.RefFrame[0] = shared.BWDREF_FRAME
 					state.RefFrame[1] = shared.ALTREF_FRAME
 				} else {
-					uniCompRefP1 := b.S()
+					uniCompRefP1 := t.uniCompRefP1Symbol(state, b, uh)
 					if util.Bool(uniCompRefP1) {
-						uniCompRefP2 := b.S()
+						uniCompRefP2 := t.uniCompRefP2Symbol(state, b, uh)
 
 						if util.Bool(uniCompRefP2) {
 							state.RefFrame[0] = shared.LAST_FRAME
@@ -157,9 +157,9 @@ func (t *TileGroup) readRefFrames(b *bitstream.BitStream, state *state.State, uh
 					}
 				}
 			} else {
-				compRef := b.S()
+				compRef := t.compRefSymbol(state, b, uh)
 				if compRef == 0 {
-					compRefP1 := b.S()
+					compRefP1 := t.compRefP1Symbol(state, b, uh)
 
 					if util.Bool(compRefP1) {
 						state.RefFrame[0] = shared.LAST2_FRAME
@@ -168,7 +168,7 @@ func (t *TileGroup) readRefFrames(b *bitstream.BitStream, state *state.State, uh
 
 					}
 				} else {
-					compRefP2 := b.S()
+					compRefP2 := t.compRefP2Symbol(state, b, uh)
 
 					if util.Bool(compRefP2) {
 						state.RefFrame[0] = shared.GOLDEN_FRAME
@@ -179,9 +179,9 @@ func (t *TileGroup) readRefFrames(b *bitstream.BitStream, state *state.State, uh
 
 				}
 
-				compBwdref := b.S()
+				compBwdref := t.compBwdrefSymbol(state, b, uh)
 				if compBwdref == 0 {
-					compBwdrefP1 := b.S()
+					compBwdrefP1 := t.compBwdrefP1Symbol(state, b, uh)
 
 					if util.Bool(compBwdrefP1) {
 						state.RefFrame[1] = shared.ALTREF2_FRAME
-- 
2.43.0


From 958ea0f51572972cab36198f59f34cbd80f945d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:46 +0000
Subject: [PATCH 129/163] fix: read the motion mode only for blocks that can
 use it

---
 internal/tilegroup/inter_block_mode_info.go | 32 +++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/inter_block_mode_info.go b/internal/tilegroup/inter_block_mode_info.go
index 5bd7558..a4d225d 100644
--- a/internal/tilegroup/inter_block_mode_info.go
+++ b/internal/tilegroup/inter_block_mode_info.go
@@ -255,9 +255,14 @@ func (t *TileGroup) readMotionMode(isCompound bool, b *bitstream.BitStream, uh u
 		}
 	}
 
+	if isCompound || state.RefFrame[1] == shared.INTRA_FRAME || !t.hasOverlappableCandidates(state) {
+		t.MotionMode = SIMPLE
+		return
+	}
+
 	t.findWarpSamples(state)
 	if uh.ForceIntegerMv || t.NumSamples == 0 || !uh.AllowWarpedMotion || t.isScaled(state.RefFrame[0], state, uh) {
-		useObmc := b.S()
+		useObmc := symbol.ReadSymbol(state.TileUseObmcCdf[state.MiSize], state, b, uh)
 		if util.Bool(useObmc) {
 			t.MotionMode = OBMC
 
@@ -265,8 +270,31 @@ func (t *TileGroup) readMotionMode(isCompound bool, b *bitstream.BitStream, uh u
 			t.MotionMode = SIMPLE
 		}
 	} else {
-		t.MotionMode = b.S()
+		t.MotionMode = symbol.ReadSymbol(state.TileMotionModeCdf[state.MiSize], state, b, uh)
+	}
+}
+
+// has_overlappable_candidates( )
+func (t *TileGroup) hasOverlappableCandidates(state *state.State) bool {
+	if state.AvailU {
+		w4 := shared.NUM_4X4_BLOCKS_WIDE[state.MiSize]
+		for x4 := state.MiCol; x4 < util.Min(state.MiCols, state.MiCol+w4); x4 += 2 {
+			if state.RefFrames[state.MiRow-1][x4|1][0] > shared.INTRA_FRAME {
+				return true
+			}
+		}
+	}
+
+	if state.AvailL {
+		h4 := shared.NUM_4X4_BLOCKS_HIGH[state.MiSize]
+		for y4 := state.MiRow; y4 < util.Min(state.MiRows, state.MiRow+h4); y4 += 2 {
+			if state.RefFrames[y4|1][state.MiCol-1][0] > shared.INTRA_FRAME {
+				return true
+			}
+		}
 	}
+
+	return false
 }
 
 // TODO: consider separate file for this procedure
-- 
2.43.0


From 333778d9a4b2124371f8e24ab73c26e669fcf69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:47 +0000
Subject: [PATCH 130/163] fix: collect warp samples

---
 internal/tilegroup/inter_block_mode_info.go | 4 ++--
 internal/tilegroup/tile_group.go            | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/tilegroup/inter_block_mode_info.go b/internal/tilegroup/inter_block_mode_info.go
index a4d225d..d933e1b 100644
--- a/internal/tilegroup/inter_block_mode_info.go
+++ b/internal/tilegroup/inter_block_mode_info.go
@@ -407,14 +407,14 @@ func (t *TileGroup) addSample(deltaRow int, deltaCol int, state *state.State) {
 	mvDiffCol := util.Abs(t.Mvs[candRow][candCol][0][1] - t.Mv[0][1])
 	valid := (mvDiffRow + mvDiffCol) <= threshold
 
-	var cand []int
+	var cand [4]int
 	cand[0] = midY * 8
 	cand[1] = midX * 8
 	cand[2] = midY*8 + t.Mvs[candRow][candCol][0][0]
 	cand[3] = midX*8 + t.Mvs[candRow][candCol][0][1]
 
 	t.NumSamplesScanned++
-	if valid && t.NumSamplesScanned > 1 {
+	if !valid && t.NumSamplesScanned > 1 {
 		return
 	}
 
diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index bdc4cc9..ce96330 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -184,7 +184,7 @@ type TileGroup struct {
 
 	NumSamples        int
 	NumSamplesScanned int
-	CandList          [][]int
+	CandList          [LEAST_SQUARES_SAMPLES_MAX][4]int
 
 	MaskType int
 
-- 
2.43.0


From fa1d122e502ac93ef0834371a32e65143e63aeb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:47 +0000
Subject: [PATCH 131/163] fix: read the compound type symbols

---
 internal/tilegroup/comp_type_symbol.go      | 56 +++++++++++++++++++++
 internal/tilegroup/inter_block_mode_info.go | 10 ++--
 2 files changed, 61 insertions(+), 5 deletions(-)
 create mode 100644 internal/tilegroup/comp_type_symbol.go

diff --git a/internal/tilegroup/comp_type_symbol.go b/internal/tilegroup/comp_type_symbol.go
new file mode 100644
index 0000000..ac4813c
--- /dev/null
+++ b/internal/tilegroup/comp_type_symbol.go
@@ -0,0 +1,56 @@
+package tilegroup
+
+import (
+	"github.com/m4tthewde/gov1/internal/bitstream"
+	"github.com/m4tthewde/gov1/internal/sequenceheader"
+	"github.com/m4tthewde/gov1/internal/shared"
+	"github.com/m4tthewde/gov1/internal/state"
+	"github.com/m4tthewde/gov1/internal/symbol"
+	"github.com/m4tthewde/gov1/internal/uncompressedheader"
+	"github.com/m4tthewde/gov1/internal/util"
+)
+
+// comp_group_idx
+func (t *TileGroup) compGroupIdxSymbol(state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) int {
+	ctx := 0
+	if state.AvailU {
+		if !t.AboveSingle {
+			ctx += t.CompGroupIdxs[state.MiRow-1][state.MiCol]
+		} else if t.AboveRefFrame[0] == shared.ALTREF_FRAME {
+			ctx += 3
+		}
+	}
+	if state.AvailL {
+		if !t.LeftSingle {
+			ctx += t.CompGroupIdxs[state.MiRow][state.MiCol-1]
+		} else if t.LeftRefFrame[0] == shared.ALTREF_FRAME {
+			ctx += 3
+		}
+	}
+	return symbol.ReadSymbol(state.TileCompGroupIdxCdf[util.Min(5, ctx)], state, b, uh)
+}
+
+// compound_idx
+func (t *TileGroup) compoundIdxSymbol(state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) int {
+	fwd := util.Abs(uh.GetRelativeDist(uh.OrderHints[state.RefFrame[0]], uh.OrderHint, sh))
+	bck := util.Abs(uh.GetRelativeDist(uh.OrderHints[state.RefFrame[1]], uh.OrderHint, sh))
+	ctx := 0
+	if fwd == bck {
+		ctx = 3
+	}
+	if state.AvailU {
+		if !t.AboveSingle {
+			ctx += t.CompoundIdxs[state.MiRow-1][state.MiCol]
+		} else if t.AboveRefFrame[0] == shared.ALTREF_FRAME {
+			ctx++
+		}
+	}
+	if state.AvailL {
+		if !t.LeftSingle {
+			ctx += t.CompoundIdxs[state.MiRow][state.MiCol-1]
+		} else if t.LeftRefFrame[0] == shared.ALTREF_FRAME {
+			ctx++
+		}
+	}
+	return symbol.ReadSymbol(state.TileCompoundIdxCdf[ctx], state, b, uh)
+}
diff --git a/internal/tilegroup/inter_block_mode_info.go b/internal/tilegroup/inter_block_mode_info.go
index d933e1b..77eb77b 100644
--- a/internal/tilegroup/inter_block_mode_info.go
+++ b/internal/tilegroup/inter_block_mode_info.go
@@ -454,12 +454,12 @@ func (t *TileGroup) readCompoundType(isCompound bool, b *bitstream.BitStream, st
 	if isCompound {
 		n := wedgemask.Wedge_Bits[state.MiSize]
 		if sh.EnableMaskedCompound {
-			t.CompGroupIdx = b.S()
+			t.CompGroupIdx = t.compGroupIdxSymbol(state, b, uh)
 		}
 
 		if t.CompGroupIdx == 0 {
 			if sh.EnableJntComp {
-				t.CompoundIdx = b.S()
+				t.CompoundIdx = t.compoundIdxSymbol(state, b, uh, sh)
 				if util.Bool(t.CompoundIdx) {
 					t.CompoundType = COMPOUND_AVERAGE
 
@@ -473,13 +473,13 @@ func (t *TileGroup) readCompoundType(isCompound bool, b *bitstream.BitStream, st
 			if n == 0 {
 				t.CompoundType = COMPOUND_DIFFWTD
 			} else {
-				t.CompoundType = b.S()
+				t.CompoundType = symbol.ReadSymbol(state.TileCompoundTypeCdf[state.MiSize], state, b, uh)
 			}
 		}
 
 		if t.CompoundType == COMPOUND_WEDGE {
-			t.WedgeIndex = b.S()
-			t.WedgeIndex = literal.L(1, state, b, uh)
+			t.WedgeIndex = symbol.ReadSymbol(state.TileWedgeIndexCdf[state.MiSize], state, b, uh)
+			t.WedgeSign = literal.L(1, state, b, uh)
 		} else if t.CompoundType == COMPOUND_DIFFWTD {
 			t.MaskType = literal.L(1, state, b, uh)
 		}
-- 
2.43.0


From 7a584111b330289875d5587a7b3ca3851cd68c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:47 +0000
Subject: [PATCH 132/163] fix: read the inter intra symbols

---
 internal/tilegroup/inter_block_mode_info.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/internal/tilegroup/inter_block_mode_info.go b/internal/tilegroup/inter_block_mode_info.go
index 77eb77b..38bc305 100644
--- a/internal/tilegroup/inter_block_mode_info.go
+++ b/internal/tilegroup/inter_block_mode_info.go
@@ -82,7 +82,7 @@ func (t *TileGroup) interBlockModeInfo(b *bitstream.BitStream, state *state.Stat
 	}
 
 	t.assignMv(util.Int(isCompound), b, state, sh, uh)
-	t.readInterIntraMode(isCompound, b, state, sh)
+	t.readInterIntraMode(isCompound, b, state, sh, uh)
 	t.readMotionMode(isCompound, b, uh, state)
 	t.readCompoundType(isCompound, b, state, sh, uh)
 
@@ -498,19 +498,20 @@ func (t *TileGroup) readCompoundType(isCompound bool, b *bitstream.BitStream, st
 }
 
 // read_interintra_mode( isCompound )
-func (t *TileGroup) readInterIntraMode(isCompound bool, b *bitstream.BitStream, state *state.State, sh sequenceheader.SequenceHeader) {
-	if util.Bool(t.SkipMode) && sh.EnableInterIntraCompound && !isCompound && state.MiSize > +shared.BLOCK_8X8 && state.MiSize <= shared.BLOCK_32X32 {
-		t.InterIntra = b.S()
+func (t *TileGroup) readInterIntraMode(isCompound bool, b *bitstream.BitStream, state *state.State, sh sequenceheader.SequenceHeader, uh uncompressedheader.UncompressedHeader) {
+	if !util.Bool(t.SkipMode) && sh.EnableInterIntraCompound && !isCompound && state.MiSize >= shared.BLOCK_8X8 && state.MiSize <= shared.BLOCK_32X32 {
+		ctx := SIZE_GROUP[state.MiSize] - 1
+		t.InterIntra = symbol.ReadSymbol(state.TileInterIntraCdf[ctx], state, b, uh)
 
 		if util.Bool(t.InterIntra) {
-			t.InterIntraMode = b.S()
+			t.InterIntraMode = symbol.ReadSymbol(state.TileInterIntraModeCdf[ctx], state, b, uh)
 			state.RefFrame[1] = shared.INTRA_FRAME
 			t.AngleDeltaY = 0
 			t.AngleDeltaUV = 0
 			t.UseFilterIntra = false
-			t.WedgeInterIntra = b.S()
+			t.WedgeInterIntra = symbol.ReadSymbol(state.TileWedgeInterIntraCdf[state.MiSize], state, b, uh)
 			if util.Bool(t.WedgeInterIntra) {
-				t.WedgeIndex = b.S()
+				t.WedgeIndex = symbol.ReadSymbol(state.TileWedgeIndexCdf[state.MiSize], state, b, uh)
 				t.WedgeSign = 0
 			}
 		}
-- 
2.43.0


From c52a9a5324a5b7d19b4bb1e60fca867dc2d5b7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:48 +0000
Subject: [PATCH 133/163] fix: motion vector classes carry their bits in order

---
 internal/tilegroup/assign_mv.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/assign_mv.go b/internal/tilegroup/assign_mv.go
index 886240e..1eee2b6 100644
--- a/internal/tilegroup/assign_mv.go
+++ b/internal/tilegroup/assign_mv.go
@@ -122,7 +122,7 @@ func (t *TileGroup) readMvComponent(comp int, b *bitstream.BitStream, uh uncompr
 		d := 0
 		for i := 0; i < mvClass; i++ {
 			mvBit := symbol.ReadSymbol(state.TileMvBitCdf[t.MvCtx][comp][i], state, b, uh)
-			d |= mvBit << 1
+			d |= mvBit << i
 		}
 
 		mag = CLASS0_SIZE << (mvClass + 2)
-- 
2.43.0


From 46134f2e76d526574beb722464c1db6ae4d90731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:48 +0000
Subject: [PATCH 134/163] fix: NEW_NEARESTMV and NEAREST_NEARESTMV take the
 nearest vector of the second list

---
 internal/tilegroup/assign_mv.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/assign_mv.go b/internal/tilegroup/assign_mv.go
index 1eee2b6..061e553 100644
--- a/internal/tilegroup/assign_mv.go
+++ b/internal/tilegroup/assign_mv.go
@@ -170,7 +170,7 @@ func (t *TileGroup) getMode(refList int) int {
 		if t.YMode == shared.NEW_NEWMV || t.YMode == shared.NEAREST_NEWMV || t.YMode == shared.NEAR_NEWMV {
 			compMode = shared.NEWMV
 		} else if t.YMode == shared.NEAREST_NEARESTMV || t.YMode == shared.NEW_NEARESTMV {
-			compMode = shared.NEARMV
+			compMode = shared.NEARESTMV
 		} else if t.YMode == shared.NEAR_NEARMV || t.YMode == shared.NEW_NEARMV {
 			compMode = shared.NEARMV
 		} else {
-- 
2.43.0


From e41c6b27be9f74c774aab87da27df1c0d3cf84d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:48 +0000
Subject: [PATCH 135/163] fix: the default block copy vector points straight up

---
 internal/tilegroup/assign_mv.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/assign_mv.go b/internal/tilegroup/assign_mv.go
index 061e553..aff5429 100644
--- a/internal/tilegroup/assign_mv.go
+++ b/internal/tilegroup/assign_mv.go
@@ -39,7 +39,7 @@ func (t *TileGroup) assignMv(isCompound int, b *bitstream.BitStream, state *stat
 					t.PredMv[0][1] = -(sbSize4*MI_SIZE + INTRABC_DELAY_PIXELS) * 8
 				} else {
 					t.PredMv[0][0] = -(sbSize4 * MI_SIZE * 8)
-					t.PredMv[0][0] = 1
+					t.PredMv[0][1] = 0
 				}
 			}
 
-- 
2.43.0


From fd84b5c83faaa982b6245ec6e0278e9900d6ea32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:48 +0000
Subject: [PATCH 136/163] fix: every nearest candidate gets the nearest weight

---
 internal/tilegroup/find_mv_stack.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/find_mv_stack.go b/internal/tilegroup/find_mv_stack.go
index 5e67198..25585d3 100644
--- a/internal/tilegroup/find_mv_stack.go
+++ b/internal/tilegroup/find_mv_stack.go
@@ -68,7 +68,7 @@ func (t *TileGroup) findMvStack(isCompound bool, state *state.State, uh uncompre
 
 	// 15.
 	if numNearest > 0 {
-		for idx := 0; idx < numNearest-1; idx++ {
+		for idx := 0; idx < numNearest; idx++ {
 			t.WeightStack[idx] += REF_CAT_LEVEL
 		}
 	}
-- 
2.43.0


From 6f8fff377f0e7d833e0af93531ef88df3039006a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:49 +0000
Subject: [PATCH 137/163] fix: a match in the far columns counts as a left
 match

---
 internal/tilegroup/find_mv_stack.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/find_mv_stack.go b/internal/tilegroup/find_mv_stack.go
index 25585d3..6e00320 100644
--- a/internal/tilegroup/find_mv_stack.go
+++ b/internal/tilegroup/find_mv_stack.go
@@ -134,7 +134,7 @@ func (t *TileGroup) findMvStack(isCompound bool, state *state.State, uh uncompre
 
 	// 31.
 	if t.FoundMatch == 1 {
-		foundAboveMatch = 1
+		foundLeftMatch = 1
 	}
 
 	// 32.
-- 
2.43.0


From 94693412387612ed0c8ab7ed43e981e553f0f8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:49 +0000
Subject: [PATCH 138/163] fix: block copy blocks are candidates at the corner
 points

---
 internal/tilegroup/find_mv_stack.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/find_mv_stack.go b/internal/tilegroup/find_mv_stack.go
index 6e00320..10e703d 100644
--- a/internal/tilegroup/find_mv_stack.go
+++ b/internal/tilegroup/find_mv_stack.go
@@ -272,8 +272,8 @@ func (t *TileGroup) scanPointProcess(deltaRow int, deltaCol int, isCompound bool
 	mvCol := state.MiCol + deltaCol
 	weight := 4
 
-	// "has been written to" - what does this mean?
-	if t.isInside(mvRow, mvCol, state) && state.RefFrames[mvRow][mvCol][0] != 0 {
+	// blocks that are not decoded yet have IsInters equal to 0
+	if t.isInside(mvRow, mvCol, state) {
 		t.addRefMvCandidate(mvRow, mvCol, isCompound, weight, state, uh)
 	}
 }
-- 
2.43.0


From bc2902fb40f2759bf502ad3950ed8403899cdc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:49 +0000
Subject: [PATCH 139/163] fix: temporal candidates are lowered in precision and
 matched against the stack

---
 internal/tilegroup/find_mv_stack.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/internal/tilegroup/find_mv_stack.go b/internal/tilegroup/find_mv_stack.go
index 10e703d..facb33d 100644
--- a/internal/tilegroup/find_mv_stack.go
+++ b/internal/tilegroup/find_mv_stack.go
@@ -322,7 +322,7 @@ func (t *TileGroup) temporalSampleProcess(deltaRow int, deltaCol int, isCompound
 			return
 		}
 
-		t.lowerPrecisionProcess(candMv, uh)
+		candMv = t.lowerPrecisionProcess(candMv, uh)
 
 		if deltaRow == 0 && deltaCol == 0 {
 			if util.Abs(candMv[0]-t.GlobalMvs[0][0]) >= 16 ||
@@ -334,7 +334,7 @@ func (t *TileGroup) temporalSampleProcess(deltaRow int, deltaCol int, isCompound
 		}
 
 		var idx int
-		for idx := 0; idx < t.NumMvFound; idx++ {
+		for idx = 0; idx < t.NumMvFound; idx++ {
 			if candMv[0] == t.RefStackMv[idx][0][0] &&
 				candMv[1] == t.RefStackMv[idx][0][1] {
 				break
@@ -356,8 +356,8 @@ func (t *TileGroup) temporalSampleProcess(deltaRow int, deltaCol int, isCompound
 		if candMv1[0] == -1<<15 {
 			return
 		}
-		t.lowerPrecisionProcess(candMv0, uh)
-		t.lowerPrecisionProcess(candMv1, uh)
+		candMv0 = t.lowerPrecisionProcess(candMv0, uh)
+		candMv1 = t.lowerPrecisionProcess(candMv1, uh)
 
 		if deltaRow == 0 && deltaCol == 0 {
 			if util.Abs(candMv0[0]-t.GlobalMvs[0][0]) >= 16 ||
@@ -371,7 +371,7 @@ func (t *TileGroup) temporalSampleProcess(deltaRow int, deltaCol int, isCompound
 
 		}
 		var idx int
-		for idx := 0; idx < t.NumMvFound; idx++ {
+		for idx = 0; idx < t.NumMvFound; idx++ {
 			if candMv0[0] == t.RefStackMv[idx][0][0] &&
 				candMv0[1] == t.RefStackMv[idx][0][1] &&
 				candMv1[0] == t.RefStackMv[idx][1][0] &&
-- 
2.43.0


From 883834a5fffb505f04944bab939abbe6d0be6f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:50 +0000
Subject: [PATCH 140/163] fix: temporal candidates beyond the block

---
 internal/tilegroup/find_mv_stack.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/tilegroup/find_mv_stack.go b/internal/tilegroup/find_mv_stack.go
index facb33d..d0bc6f2 100644
--- a/internal/tilegroup/find_mv_stack.go
+++ b/internal/tilegroup/find_mv_stack.go
@@ -298,6 +298,15 @@ func (t *TileGroup) temporalScanProcess(isCompound bool, state *state.State, uh
 		}
 	}
 
+	if bh4 >= 2 && bh4 < 16 && bw4 >= 2 && bw4 < 16 {
+		for _, pos := range [][2]int{{bh4, -2}, {bh4, bw4}, {bh4 - 2, bw4}} {
+			row := (state.MiRow & 15) + pos[0]
+			col := (state.MiCol & 15) + pos[1]
+			if row >= 0 && row < 16 && col >= 0 && col < 16 {
+				t.temporalSampleProcess(pos[0], pos[1], isCompound, state, uh)
+			}
+		}
+	}
 }
 
 // 7.10.2.6 Temporal sample process
-- 
2.43.0


From 14d836af9da2e955fb2768beb377f365c6019821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:50 +0000
Subject: [PATCH 141/163] fix: compound candidates are lowered in precision and
 matched against the stack

---
 internal/tilegroup/find_mv_stack.go | 13 +++++++------
 internal/tilegroup/tile_group.go    |  4 ++--
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/internal/tilegroup/find_mv_stack.go b/internal/tilegroup/find_mv_stack.go
index d0bc6f2..5804865 100644
--- a/internal/tilegroup/find_mv_stack.go
+++ b/internal/tilegroup/find_mv_stack.go
@@ -469,18 +469,19 @@ func (t *TileGroup) compoundSearchStackProcess(mvRow int, mvCol int, weight int,
 	}
 
 	for i := 0; i <= 1; i++ {
-		t.lowerPrecisionProcess(candMvs[i], uh)
+		candMvs[i] = t.lowerPrecisionProcess(candMvs[i], uh)
 	}
 
 	t.FoundMatch = 1
 
-	for idx := 0; idx < t.NumMvFound; idx++ {
-		if candMvs[0] == t.RefStackMv[idx][0] && candMvs[1] == t.RefStackMv[idx][1] {
-			t.WeightStack[idx] += weight
-		}
+	idx := 0
+	for idx < t.NumMvFound && t.RefStackMv[idx] != candMvs {
+		idx++
 	}
 
-	if t.NumMvFound < MAX_REF_MV_STACK_SIZE {
+	if idx < t.NumMvFound {
+		t.WeightStack[idx] += weight
+	} else if t.NumMvFound < MAX_REF_MV_STACK_SIZE {
 		t.RefStackMv[t.NumMvFound][0] = candMvs[0]
 		t.RefStackMv[t.NumMvFound][1] = candMvs[1]
 		t.WeightStack[t.NumMvFound] = weight
diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index ce96330..fcb798d 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -144,12 +144,12 @@ type TileGroup struct {
 	FoundMatch          int
 	TotalMatches        int
 	CloseMatches        int
-	RefStackMv          [2][2][2]int
+	RefStackMv          [MAX_REF_MV_STACK_SIZE + 1][2][2]int
 	RefIdCount          [2]int
 	RefIdMvs            [][][2]int
 	RefDiffCount        [2]int
 	RefDiffMvs          [][][2]int
-	WeightStack         [8]int
+	WeightStack         [MAX_REF_MV_STACK_SIZE + 1]int
 	AngleDeltaY         int
 	AngleDeltaUV        int
 	CflAlphaU           int
-- 
2.43.0


From 6cc4b1f5f65c55e79c2c276d7ccebaec8573df5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:50 +0000
Subject: [PATCH 142/163] fix: sorting the stack keeps its vectors

---
 internal/tilegroup/find_mv_stack.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/tilegroup/find_mv_stack.go b/internal/tilegroup/find_mv_stack.go
index 5804865..3cd45cc 100644
--- a/internal/tilegroup/find_mv_stack.go
+++ b/internal/tilegroup/find_mv_stack.go
@@ -545,6 +545,7 @@ func (t *TileGroup) swapStack(i int, j int, isCompound bool) {
 
 	for list := 0; list < 1+util.Int(isCompound); list++ {
 		for comp := 0; comp < 2; comp++ {
+			temp := t.RefStackMv[i][list][comp]
 			t.RefStackMv[i][list][comp] = t.RefStackMv[j][list][comp]
 			t.RefStackMv[j][list][comp] = temp
 		}
-- 
2.43.0


From ea0e24bf64686cc3a93ccfff0b9c1716083078d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:51 +0000
Subject: [PATCH 143/163] fix: the extra search looks at blocks inside the tile

---
 internal/tilegroup/find_mv_stack.go | 23 +++--------------------
 internal/tilegroup/tile_group.go    |  4 ++--
 2 files changed, 5 insertions(+), 22 deletions(-)

diff --git a/internal/tilegroup/find_mv_stack.go b/internal/tilegroup/find_mv_stack.go
index 3cd45cc..ccf33ee 100644
--- a/internal/tilegroup/find_mv_stack.go
+++ b/internal/tilegroup/find_mv_stack.go
@@ -579,20 +579,12 @@ func (t *TileGroup) extraSearchProcess(isCompound bool, state *state.State, uh u
 				mvCol = state.MiCol - 1
 			}
 
-			if t.isInside(mvRow, mvCol, state) {
+			if !t.isInside(mvRow, mvCol, state) {
 				break
 			}
 
 			t.addExtraMvCandidateProcess(mvRow, mvCol, isCompound, state, uh)
 
-			// Unsure if negative indexing here is intended
-			if mvRow < 0 {
-				mvRow = len(state.MiSizes) + mvRow
-			}
-			if mvCol < 0 {
-				mvCol = len(state.MiSizes) + mvCol
-			}
-
 			if pass == 0 {
 				idx += shared.NUM_4X4_BLOCKS_WIDE[state.MiSizes[mvRow][mvCol]]
 			} else {
@@ -601,7 +593,7 @@ func (t *TileGroup) extraSearchProcess(isCompound bool, state *state.State, uh u
 		}
 	}
 
-	var combinedMvs [][][2]int
+	var combinedMvs [2][2][2]int
 	if isCompound {
 		for list := 0; list < 2; list++ {
 			compCount := 0
@@ -648,15 +640,6 @@ func (t *TileGroup) extraSearchProcess(isCompound bool, state *state.State, uh u
 
 // 7.10.2.13 Add extra mv candidate process
 func (t *TileGroup) addExtraMvCandidateProcess(mvRow int, mvCol int, isCompound bool, state *state.State, uh uncompressedheader.UncompressedHeader) {
-	// Unsure if negative indexing here is intended
-	if mvRow < 0 {
-		mvRow = len(state.RefFrames) + mvRow
-	}
-
-	if mvCol < 0 {
-		mvCol = len(state.RefFrames) + mvCol
-	}
-
 	var candRef int
 	var candMv [2]int
 	if isCompound {
@@ -689,7 +672,7 @@ func (t *TileGroup) addExtraMvCandidateProcess(mvRow int, mvCol int, isCompound
 					candMv[1] *= -1
 				}
 				var idx int
-				for idx := 0; idx < t.NumMvFound; idx++ {
+				for idx = 0; idx < t.NumMvFound; idx++ {
 					if util.Equals(candMv, t.RefStackMv[idx][0]) {
 						break
 					}
diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index fcb798d..7e31a68 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -146,9 +146,9 @@ type TileGroup struct {
 	CloseMatches        int
 	RefStackMv          [MAX_REF_MV_STACK_SIZE + 1][2][2]int
 	RefIdCount          [2]int
-	RefIdMvs            [][][2]int
+	RefIdMvs            [2][2][2]int
 	RefDiffCount        [2]int
-	RefDiffMvs          [][][2]int
+	RefDiffMvs          [2][2][2]int
 	WeightStack         [MAX_REF_MV_STACK_SIZE + 1]int
 	AngleDeltaY         int
 	AngleDeltaUV        int
-- 
2.43.0


From b50f43e658d5af0c3522e29a53bef0199355779f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:51 +0000
Subject: [PATCH 144/163] fix: inter intra prediction left of and above the
 superblock

---
 internal/tilegroup/compute_prediction.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/internal/tilegroup/compute_prediction.go b/internal/tilegroup/compute_prediction.go
index 136bcbb..df30bc6 100644
--- a/internal/tilegroup/compute_prediction.go
+++ b/internal/tilegroup/compute_prediction.go
@@ -54,7 +54,16 @@ func (t *TileGroup) computePrediction(state *state.State, sh sequenceheader.Sequ
 				haveLeft = state.AvailL
 				haveAbove = state.AvailU
 			}
-			t.predictIntra(plane, baseX, baseY, haveLeft, haveAbove, state.BlockDecoded[plane][(subBlockMiRow>>subY)-1][(subBlockMiCol>>subX)+num4x4W], state.BlockDecoded[plane][(subBlockMiRow>>subY)+num4x4H][(subBlockMiCol>>subX)-1], mode, log2W, log2H, state, sh)
+			// index -1 is kept at the end of BlockDecoded
+			aboveRow := (subBlockMiRow >> subY) - 1
+			if aboveRow < 0 {
+				aboveRow += len(state.BlockDecoded[plane])
+			}
+			leftCol := (subBlockMiCol >> subX) - 1
+			if leftCol < 0 {
+				leftCol += len(state.BlockDecoded[plane][0])
+			}
+			t.predictIntra(plane, baseX, baseY, haveLeft, haveAbove, state.BlockDecoded[plane][aboveRow][(subBlockMiCol>>subX)+num4x4W], state.BlockDecoded[plane][(subBlockMiRow>>subY)+num4x4H][leftCol], mode, log2W, log2H, state, sh)
 		}
 
 		if util.Bool(t.IsInter) {
-- 
2.43.0


From d0197b018169e09ccced7543c86c02f19ce7788a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:52 +0000
Subject: [PATCH 145/163] fix: inter prediction covers the whole block

---
 internal/tilegroup/compute_prediction.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/compute_prediction.go b/internal/tilegroup/compute_prediction.go
index df30bc6..f234f00 100644
--- a/internal/tilegroup/compute_prediction.go
+++ b/internal/tilegroup/compute_prediction.go
@@ -86,11 +86,13 @@ func (t *TileGroup) computePrediction(state *state.State, sh sequenceheader.Sequ
 				candCol = state.MiCol
 			}
 			r := 0
-			for y := 0; y < num4x4H; y += predH {
+			for y := 0; y < num4x4H*4; y += predH {
 				c := 0
-				for x := 0; x < num4x4W; x += predW {
+				for x := 0; x < num4x4W*4; x += predW {
 					t.predictInter(plane, baseX+x, baseY+y, predW, predH, candRow+r, candCol+c, state, uh, sh)
+					c++
 				}
+				r++
 			}
 		}
 	}
-- 
2.43.0


From 2b5e5e8347fe97f2ae02bb77d96013a3d69b4b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:52 +0000
Subject: [PATCH 146/163] fix: predictions are as large as the block

---
 internal/tilegroup/predict_inter.go | 43 ++++++++++++++---------------
 1 file changed, 21 insertions(+), 22 deletions(-)

diff --git a/internal/tilegroup/predict_inter.go b/internal/tilegroup/predict_inter.go
index 15dc617..b0a37a1 100644
--- a/internal/tilegroup/predict_inter.go
+++ b/internal/tilegroup/predict_inter.go
@@ -17,7 +17,13 @@ var Quant_Dist_Lookup = [][]int{
 	{9, 7}, {11, 5}, {12, 4}, {13, 3},
 }
 
-const PRED_SIZE = 16
+func newPred(w int, h int) [][]int {
+	pred := make([][]int, h)
+	for i := range pred {
+		pred[i] = make([]int, w)
+	}
+	return pred
+}
 
 // 7.11.3 Inter prediction process
 func (t *TileGroup) predictInter(plane int, x int, y int, w int, h int, candRow int, candCol int, state *state.State, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) {
@@ -71,12 +77,11 @@ func (t *TileGroup) predictInter(plane int, x int, y int, w int, h int, candRow
 		state.RefUpscaledWidth[len(state.RefUpscaledWidth)-1] = state.MiCols * MI_SIZE
 	}
 
-	var preds [2][PRED_SIZE][PRED_SIZE]int
+	preds := [2][][]int{newPred(w, h), newPred(w, h)}
 	if useWarp != 0 {
 		for i8 := 0; i8 <= ((h - 1) >> 3); i8++ {
 			for j8 := 0; j8 <= ((w - 1) >> 3); j8++ {
-				// TODO: what exactly is supposed to happen here
-				preds[refList] = t.blockWarpProcess(useWarp, plane, refList, x, y, i8, j8, w, h, state, uh, sh)
+				t.blockWarpProcess(useWarp, plane, refList, x, y, i8, j8, w, h, preds[refList], state, uh, sh)
 			}
 		}
 	}
@@ -126,12 +131,10 @@ func (t *TileGroup) predictInter(plane int, x int, y int, w int, h int, candRow
 			state.RefUpscaledWidth[len(state.RefUpscaledWidth)-1] = state.MiCols * MI_SIZE
 		}
 
-		var preds [][PRED_SIZE][PRED_SIZE]int
 		if useWarp != 0 {
 			for i8 := 0; i8 <= ((h - 1) >> 3); i8++ {
 				for j8 := 0; j8 <= ((w - 1) >> 3); j8++ {
-					// TODO: what exactly is supposed to happen here
-					preds[refList] = t.blockWarpProcess(useWarp, plane, refList, x, y, i8, j8, w, h, state, uh, sh)
+					t.blockWarpProcess(useWarp, plane, refList, x, y, i8, j8, w, h, preds[refList], state, uh, sh)
 				}
 			}
 		}
@@ -156,19 +159,19 @@ func (t *TileGroup) predictInter(plane int, x int, y int, w int, h int, candRow
 	if !isCompound && !t.IsInterIntra {
 		for i := 0; i < h; i++ {
 			for j := 0; j < w; j++ {
-				state.CurrFrame[plane][y+i][x+i] = util.Clip1(preds[0][i][j], sh.ColorConfig.BitDepth)
+				state.CurrFrame[plane][y+i][x+j] = util.Clip1(preds[0][i][j], sh.ColorConfig.BitDepth)
 			}
 		}
 	} else if t.CompoundType == COMPOUND_AVERAGE {
 		for i := 0; i < h; i++ {
 			for j := 0; j < w; j++ {
-				state.CurrFrame[plane][y+i][x+i] = util.Clip1(util.Round2(preds[0][i][j]+preds[1][i][j], 1+t.InterPostRound), sh.ColorConfig.BitDepth)
+				state.CurrFrame[plane][y+i][x+j] = util.Clip1(util.Round2(preds[0][i][j]+preds[1][i][j], 1+t.InterPostRound), sh.ColorConfig.BitDepth)
 			}
 		}
 	} else if t.CompoundType == COMPOUND_DISTANCE {
 		for i := 0; i < h; i++ {
 			for j := 0; j < w; j++ {
-				state.CurrFrame[plane][y+i][x+i] = util.Clip1(util.Round2(t.FwdWeight*preds[0][i][j]+t.BckWeight*preds[1][i][j], 4+t.InterPostRound), sh.ColorConfig.BitDepth)
+				state.CurrFrame[plane][y+i][x+j] = util.Clip1(util.Round2(t.FwdWeight*preds[0][i][j]+t.BckWeight*preds[1][i][j], 4+t.InterPostRound), sh.ColorConfig.BitDepth)
 			}
 		}
 	} else {
@@ -250,7 +253,7 @@ func (t *TileGroup) motionVectorScalingProcess(plane int, refIdx int, x int, y i
 }
 
 // 7.11.3.4 Block inter prediction process
-func (t *TileGroup) blockInterPredictionProcess(plane int, refIdx int, x int, y int, xStep int, yStep int, w int, h int, candRow int, candCol int, state *state.State, sh sequenceheader.SequenceHeader) [PRED_SIZE][PRED_SIZE]int {
+func (t *TileGroup) blockInterPredictionProcess(plane int, refIdx int, x int, y int, xStep int, yStep int, w int, h int, candRow int, candCol int, state *state.State, sh sequenceheader.SequenceHeader) [][]int {
 	var ref [3][][]int
 	if refIdx == -1 {
 		ref = state.CurrFrame
@@ -279,7 +282,7 @@ func (t *TileGroup) blockInterPredictionProcess(plane int, refIdx int, x int, y
 		}
 	}
 
-	var intermediate [8][8]int
+	intermediate := newPred(w, intermediateHeight)
 	for r := 0; r < intermediateHeight; r++ {
 		for c := 0; c < w; c++ {
 			s := 0
@@ -300,7 +303,7 @@ func (t *TileGroup) blockInterPredictionProcess(plane int, refIdx int, x int, y
 		}
 	}
 
-	var pred [PRED_SIZE][PRED_SIZE]int
+	pred := newPred(w, h)
 	for r := 0; r < h; r++ {
 		for c := 0; c < w; c++ {
 			s := 0
@@ -316,9 +319,7 @@ func (t *TileGroup) blockInterPredictionProcess(plane int, refIdx int, x int, y
 }
 
 // 7.11.3.5 Block warp process
-func (t *TileGroup) blockWarpProcess(useWarp int, plane int, refList int, x int, y int, i8 int, j8 int, w int, h int, state *state.State, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) [PRED_SIZE][PRED_SIZE]int {
-	var pred [PRED_SIZE][PRED_SIZE]int
-
+func (t *TileGroup) blockWarpProcess(useWarp int, plane int, refList int, x int, y int, i8 int, j8 int, w int, h int, pred [][]int, state *state.State, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) {
 	refIdx := uh.RefFrameIdx[state.RefFrame[refList]-shared.LAST_FRAME]
 	ref := state.FrameStore[refIdx]
 
@@ -354,7 +355,7 @@ func (t *TileGroup) blockWarpProcess(useWarp int, plane int, refList int, x int,
 	iy4 := y4 >> shared.WARPEDMODEL_PREC_BITS
 	sy4 := y4 & ((1 << shared.WARPEDMODEL_PREC_BITS) - 1)
 
-	var intermediate [][]int
+	var intermediate [15][8]int
 	for i1 := -7; i1 < 8; i1++ {
 		for i2 := -4; i2 < 4; i2++ {
 			sx := sx4 + alpha*i2 + beta*i1
@@ -381,8 +382,6 @@ func (t *TileGroup) blockWarpProcess(useWarp int, plane int, refList int, x int,
 			pred[i8*8+i1+4][j8*8+i2+4] = util.Round2(s, t.InterRound1)
 		}
 	}
-
-	return pred
 }
 
 // 7.11.3.6 Setup shear process
@@ -601,7 +600,7 @@ func (t *TileGroup) overlappedMotionCompensationProcess(plane int, w int, h int,
 }
 
 // 7.11.3.10 Overlap blending process
-func (t *TileGroup) overlapBlendingProcess(plane int, predX int, predY int, predW int, predH int, pass bool, obmcPred [PRED_SIZE][PRED_SIZE]int, mask []int, state *state.State) {
+func (t *TileGroup) overlapBlendingProcess(plane int, predX int, predY int, predW int, predH int, pass bool, obmcPred [][]int, mask []int, state *state.State) {
 	for i := 0; i < predH; i++ {
 		var m int
 		for j := 0; j < predW; j++ {
@@ -627,7 +626,7 @@ func (t *TileGroup) wedgeMaskProcess(w int, h int, state *state.State) {
 }
 
 // 7.11.3.12 Difference weight mask process
-func (t *TileGroup) differenceWeightMaskProcess(preds [2][PRED_SIZE][PRED_SIZE]int, w int, h int, sh sequenceheader.SequenceHeader) {
+func (t *TileGroup) differenceWeightMaskProcess(preds [2][][]int, w int, h int, sh sequenceheader.SequenceHeader) {
 	for i := 0; i < h; i++ {
 		for j := 0; j < w; j++ {
 			diff := util.Abs(preds[0][i][j] - preds[1][i][j])
@@ -661,7 +660,7 @@ func (t *TileGroup) intraModeVariantMaskProcess(w int, h int) {
 }
 
 // 7.11.3.14 Mask blend process
-func (t *TileGroup) maskBlendProcess(preds [2][PRED_SIZE][PRED_SIZE]int, plane int, dstX int, dstY int, w int, h int, sh sequenceheader.SequenceHeader, state *state.State) {
+func (t *TileGroup) maskBlendProcess(preds [2][][]int, plane int, dstX int, dstY int, w int, h int, sh sequenceheader.SequenceHeader, state *state.State) {
 	subX := 0
 	subY := 0
 	if plane != 0 {
-- 
2.43.0


From 93e87cf853e02a9570ace25e4c8850c3f5230be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:52 +0000
Subject: [PATCH 147/163] fix: the interpolation filter follows the subsample
 position

---
 internal/tilegroup/predict_inter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/predict_inter.go b/internal/tilegroup/predict_inter.go
index b0a37a1..b6a56ba 100644
--- a/internal/tilegroup/predict_inter.go
+++ b/internal/tilegroup/predict_inter.go
@@ -288,7 +288,7 @@ func (t *TileGroup) blockInterPredictionProcess(plane int, refIdx int, x int, y
 			s := 0
 			p := x + xStep*c
 			for t := 0; t < 8; t++ {
-				s += Subpel_Filters[interpFilter][(p>>6)*SUBPEL_MASK][t] * ref[plane][util.Clip3(0, lastY, (y>>10)+r-3)][util.Clip3(0, lastX, (p>>10)+t-3)]
+				s += Subpel_Filters[interpFilter][(p>>6)&SUBPEL_MASK][t] * ref[plane][util.Clip3(0, lastY, (y>>10)+r-3)][util.Clip3(0, lastX, (p>>10)+t-3)]
 			}
 			intermediate[r][c] = util.Round2(s, t.InterRound0)
 		}
@@ -309,7 +309,7 @@ func (t *TileGroup) blockInterPredictionProcess(plane int, refIdx int, x int, y
 			s := 0
 			p := (y & 1023) + yStep*r
 			for t := 0; t < 8; t++ {
-				s += Subpel_Filters[interpFilter][(p>>6)*SUBPEL_MASK][t] * intermediate[(p>>10)+t][c]
+				s += Subpel_Filters[interpFilter][(p>>6)&SUBPEL_MASK][t] * intermediate[(p>>10)+t][c]
 			}
 			pred[r][c] = util.Round2(s, t.InterRound1)
 		}
-- 
2.43.0


From 66ee171de653d106be80bf6ed9f76373a5fd5749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:53 +0000
Subject: [PATCH 148/163] fix: compound predictions are rounded to the sample
 range

---
 internal/tilegroup/predict_inter.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/tilegroup/predict_inter.go b/internal/tilegroup/predict_inter.go
index b6a56ba..742b23c 100644
--- a/internal/tilegroup/predict_inter.go
+++ b/internal/tilegroup/predict_inter.go
@@ -201,6 +201,7 @@ func (t *TileGroup) roundVariablesDerivationProcess(isCompound bool, sh sequence
 		t.InterRound1 = t.InterRound1 - 2
 	}
 
+	t.InterPostRound = 14 - t.InterRound0 - t.InterRound1
 }
 
 // 7.11.3.3  Motion vector scaling process
@@ -687,7 +688,7 @@ func (t *TileGroup) maskBlendProcess(preds [2][][]int, plane int, dstX int, dstY
 			} else {
 				pred0 := preds[0][y][x]
 				pred1 := preds[1][y][x]
-				state.CurrFrame[plane][y+dstY][x+dstX] = util.Round2(m*pred0+(64-m)*pred1, 6+t.InterPostRound)
+				state.CurrFrame[plane][y+dstY][x+dstX] = util.Clip1(util.Round2(m*pred0+(64-m)*pred1, 6+t.InterPostRound), sh.ColorConfig.BitDepth)
 			}
 		}
 	}
-- 
2.43.0


From eaafc22350c01ee5ecd46ee6b208676b20112b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:53 +0000
Subject: [PATCH 149/163] fix: intra block copy reads the current frame

---
 internal/tilegroup/predict_inter.go | 49 ++++++++++++-----------------
 1 file changed, 20 insertions(+), 29 deletions(-)

diff --git a/internal/tilegroup/predict_inter.go b/internal/tilegroup/predict_inter.go
index 742b23c..3568aeb 100644
--- a/internal/tilegroup/predict_inter.go
+++ b/internal/tilegroup/predict_inter.go
@@ -65,18 +65,9 @@ func (t *TileGroup) predictInter(plane int, x int, y int, w int, h int, candRow
 		refIdx = uh.RefFrameIdx[refFrame-shared.LAST_FRAME]
 	} else {
 		refIdx = -1
-		state.RefFrameWidth[len(state.RefFrameWidth)-1] = uh.FrameWidth
-		state.RefFrameHeight[len(state.RefFrameHeight)-1] = uh.FrameHeight
-		state.RefUpscaledWidth[len(state.RefUpscaledWidth)-1] = uh.UpscaledWidth
 	}
 	startX, startY, stepX, stepY := t.motionVectorScalingProcess(plane, refIdx, x, y, mv, state, uh, sh)
 
-	if util.Bool(t.useIntrabc) {
-		state.RefFrameWidth[len(state.RefFrameWidth)-1] = state.MiCols * MI_SIZE
-		state.RefFrameHeight[len(state.RefFrameHeight)-1] = state.MiRows * MI_SIZE
-		state.RefUpscaledWidth[len(state.RefUpscaledWidth)-1] = state.MiCols * MI_SIZE
-	}
-
 	preds := [2][][]int{newPred(w, h), newPred(w, h)}
 	if useWarp != 0 {
 		for i8 := 0; i8 <= ((h - 1) >> 3); i8++ {
@@ -118,19 +109,10 @@ func (t *TileGroup) predictInter(plane int, x int, y int, w int, h int, candRow
 			refIdx = uh.RefFrameIdx[refFrame-shared.LAST_FRAME]
 		} else {
 			refIdx = -1
-			state.RefFrameWidth[len(state.RefFrameWidth)-1] = uh.FrameWidth
-			state.RefFrameHeight[len(state.RefFrameHeight)-1] = uh.FrameHeight
-			state.RefUpscaledWidth[len(state.RefUpscaledWidth)-1] = uh.UpscaledWidth
 		}
 
 		startX, startY, stepX, stepY := t.motionVectorScalingProcess(plane, refIdx, x, y, mv, state, uh, sh)
 
-		if util.Bool(t.useIntrabc) {
-			state.RefFrameWidth[len(state.RefFrameWidth)-1] = state.MiCols * MI_SIZE
-			state.RefFrameHeight[len(state.RefFrameHeight)-1] = state.MiRows * MI_SIZE
-			state.RefUpscaledWidth[len(state.RefUpscaledWidth)-1] = state.MiCols * MI_SIZE
-		}
-
 		if useWarp != 0 {
 			for i8 := 0; i8 <= ((h - 1) >> 3); i8++ {
 				for j8 := 0; j8 <= ((w - 1) >> 3); j8++ {
@@ -206,27 +188,31 @@ func (t *TileGroup) roundVariablesDerivationProcess(isCompound bool, sh sequence
 
 // 7.11.3.3  Motion vector scaling process
 func (t *TileGroup) motionVectorScalingProcess(plane int, refIdx int, x int, y int, mv [2]int, state *state.State, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) (int, int, int, int) {
-	if !(2*uh.FrameWidth >= state.RefUpscaledWidth[refIdx]) {
+	refUpscaledWidth := uh.UpscaledWidth
+	refFrameHeight := uh.FrameHeight
+	if refIdx != -1 {
+		refUpscaledWidth = state.RefUpscaledWidth[refIdx]
+		refFrameHeight = state.RefFrameHeight[refIdx]
+	}
+
+	if !(2*uh.FrameWidth >= refUpscaledWidth) {
 		panic("bitstream conformance violated: 2*uh.FrameWidth >= t.RefUpscaledWidth[refIdx]")
 	}
 
-	if !(2*uh.FrameHeight >= state.RefFrameHeight[refIdx]) {
+	if !(2*uh.FrameHeight >= refFrameHeight) {
 		panic("bitstream conformance violated: 2*uh.FrameHeight >= t.RefFrameHeight[refIdx]")
 	}
 
-	if !(uh.FrameWidth <= 16*state.RefUpscaledWidth[refIdx]) {
+	if !(uh.FrameWidth <= 16*refUpscaledWidth) {
 		panic("bitstream conformance violated: uh.FrameWidth <= 16*t.RefUpscaledWidth[refIdx]")
 	}
 
-	if !(uh.FrameHeight <= 16*state.RefFrameHeight[refIdx]) {
+	if !(uh.FrameHeight <= 16*refFrameHeight) {
 		panic("bitstream conformance violated: uh.FrameHeight <= 16*t.RefFrameHeight[refIdx]")
 	}
 
-	// TODO: Note: When intra block copy is being used, refIdx will be equal to -1 to signal prediction from the frame currently
-	// being decoded. The arrays RefFrameWidth, RefFrameHeight, and RefUpscaledWidth include values at index -1
-	// giving the dimensions of the current frame.
-	xScale := ((state.RefUpscaledWidth[refIdx] << REF_SCALE_SHIFT) + (uh.FrameWidth / 2)) / uh.FrameWidth
-	yScale := ((state.RefFrameHeight[refIdx] << REF_SCALE_SHIFT) + (uh.FrameHeight / 2)) / uh.FrameHeight
+	xScale := ((refUpscaledWidth << REF_SCALE_SHIFT) + (uh.FrameWidth / 2)) / uh.FrameWidth
+	yScale := ((refFrameHeight << REF_SCALE_SHIFT) + (uh.FrameHeight / 2)) / uh.FrameHeight
 
 	subX := 0
 	subY := 0
@@ -256,10 +242,15 @@ func (t *TileGroup) motionVectorScalingProcess(plane int, refIdx int, x int, y i
 // 7.11.3.4 Block inter prediction process
 func (t *TileGroup) blockInterPredictionProcess(plane int, refIdx int, x int, y int, xStep int, yStep int, w int, h int, candRow int, candCol int, state *state.State, sh sequenceheader.SequenceHeader) [][]int {
 	var ref [3][][]int
+	var refUpscaledWidth, refFrameHeight int
 	if refIdx == -1 {
 		ref = state.CurrFrame
+		refUpscaledWidth = state.MiCols * MI_SIZE
+		refFrameHeight = state.MiRows * MI_SIZE
 	} else {
 		ref = state.FrameStore[refIdx]
+		refUpscaledWidth = state.RefUpscaledWidth[refIdx]
+		refFrameHeight = state.RefFrameHeight[refIdx]
 	}
 
 	subX := 0
@@ -269,8 +260,8 @@ func (t *TileGroup) blockInterPredictionProcess(plane int, refIdx int, x int, y
 		subY = util.Int(sh.ColorConfig.SubsamplingY)
 	}
 
-	lastX := ((state.RefUpscaledWidth[refIdx] + subX) >> subX) - 1
-	lastY := ((state.RefFrameHeight[refIdx] + subY) >> subY) - 1
+	lastX := ((refUpscaledWidth + subX) >> subX) - 1
+	lastY := ((refFrameHeight + subY) >> subY) - 1
 
 	intermediateHeight := (((h-1)*yStep + (1 << SCALE_SUBPEL_BITS) - 1) >> SCALE_SUBPEL_BITS) + 8
 
-- 
2.43.0


From 8ecdc38eb767e984b95ea2dc239bcb3d3cdc13c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:53 +0000
Subject: [PATCH 150/163] fix: only global motion blocks test the global warp

---
 internal/tilegroup/predict_inter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/predict_inter.go b/internal/tilegroup/predict_inter.go
index 3568aeb..02b8fd5 100644
--- a/internal/tilegroup/predict_inter.go
+++ b/internal/tilegroup/predict_inter.go
@@ -43,7 +43,7 @@ func (t *TileGroup) predictInter(plane int, x int, y int, w int, h int, candRow
 	refFrame := state.RefFrames[candRow][candCol][refList]
 
 	var globalValid bool
-	if t.YMode == shared.GLOBALMV || t.YMode == shared.GLOBAL_GLOBALMV && state.GmType[refFrame] > shared.TRANSLATION {
+	if (t.YMode == shared.GLOBALMV || t.YMode == shared.GLOBAL_GLOBALMV) && state.GmType[refFrame] > shared.TRANSLATION {
 		globalValid, _, _, _, _ = t.setupShearProcess(uh.GmParams[refFrame])
 	}
 
@@ -87,7 +87,7 @@ func (t *TileGroup) predictInter(plane int, x int, y int, w int, h int, candRow
 		refFrame := state.RefFrames[candRow][candCol][refList]
 
 		var globalValid bool
-		if t.YMode == shared.GLOBALMV || t.YMode == shared.GLOBAL_GLOBALMV && state.GmType[refFrame] > shared.TRANSLATION {
+		if (t.YMode == shared.GLOBALMV || t.YMode == shared.GLOBAL_GLOBALMV) && state.GmType[refFrame] > shared.TRANSLATION {
 			globalValid, _, _, _, _ = t.setupShearProcess(uh.GmParams[refFrame])
 		}
 
-- 
2.43.0


From 93e61e76fa789d9c1e8c5e6a1516ec5afb9c8aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:53 +0000
Subject: [PATCH 151/163] fix: masks are made for the luma block

---
 internal/tilegroup/predict_inter.go | 2 +-
 internal/tilegroup/tile_group.go    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/predict_inter.go b/internal/tilegroup/predict_inter.go
index 02b8fd5..636d908 100644
--- a/internal/tilegroup/predict_inter.go
+++ b/internal/tilegroup/predict_inter.go
@@ -130,7 +130,7 @@ func (t *TileGroup) predictInter(plane int, x int, y int, w int, h int, candRow
 		t.wedgeMaskProcess(w, h, state)
 	} else if t.CompoundType == COMPOUND_INTRA {
 		t.intraModeVariantMaskProcess(w, h)
-	} else if t.CompoundType == COMPOUND_DIFFWTD {
+	} else if t.CompoundType == COMPOUND_DIFFWTD && plane == 0 {
 		t.differenceWeightMaskProcess(preds, w, h, sh)
 	}
 
diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index 7e31a68..7941e5f 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -217,7 +217,7 @@ type TileGroup struct {
 	LocalValid      bool
 	LocalWarpParams [6]int
 
-	Mask [][]int
+	Mask [MAX_SB_SIZE][MAX_SB_SIZE]int
 
 	FwdWeight int
 	BckWeight int
-- 
2.43.0


From 95c5bea5125fa956249e3583c47acc1da3904b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:54 +0000
Subject: [PATCH 152/163] fix: distance weights

---
 internal/tilegroup/predict_inter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/predict_inter.go b/internal/tilegroup/predict_inter.go
index 636d908..093ec6d 100644
--- a/internal/tilegroup/predict_inter.go
+++ b/internal/tilegroup/predict_inter.go
@@ -687,7 +687,7 @@ func (t *TileGroup) maskBlendProcess(preds [2][][]int, plane int, dstX int, dstY
 
 // 7.11.3.15 Distance weights process
 func (t *TileGroup) distanceWeightsProcess(candRow int, candCol int, state *state.State, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) {
-	var dist []int
+	var dist [2]int
 	for refList := 0; refList < 2; refList++ {
 		h := uh.OrderHints[state.RefFrames[candRow][candCol][refList]]
 		dist[refList] = util.Clip3(0, MAX_FRAME_DISTANCE, util.Abs(uh.GetRelativeDist(h, uh.OrderHint, sh)))
-- 
2.43.0


From a26f2fbb5dd911394b5c31c25bba0dcb1b252a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:54 +0000
Subject: [PATCH 153/163] fix: local warp estimation

---
 internal/tilegroup/predict_inter.go | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/internal/tilegroup/predict_inter.go b/internal/tilegroup/predict_inter.go
index 093ec6d..cd4ce2e 100644
--- a/internal/tilegroup/predict_inter.go
+++ b/internal/tilegroup/predict_inter.go
@@ -430,17 +430,9 @@ func (t *TileGroup) resolveDivisorProcess(d int) (int, int) {
 
 // 7.11.3.8 Warp estimation process
 func (t *TileGroup) warpEstimationProcess(state *state.State) {
-	var A [][]int
-	var Bx []int
-	var By []int
-	for i := 0; i < 2; i++ {
-		for j := 0; j < 2; j++ {
-			A[i][j] = 0
-		}
-
-		Bx[i] = 0
-		By[i] = 0
-	}
+	var A [2][2]int
+	var Bx [2]int
+	var By [2]int
 
 	// TODO: matrix is symmetrical, so an entry is omitted!
 	w4 := shared.NUM_4X4_BLOCKS_WIDE[state.MiSize]
@@ -461,11 +453,11 @@ func (t *TileGroup) warpEstimationProcess(state *state.State) {
 		if util.Abs(sx-dx) < LS_MV_MAX && util.Abs(sy-dy) < LS_MV_MAX {
 			A[0][0] += util.LsProduct(sx, sx) + 8
 			A[0][1] += util.LsProduct(sx, sy) + 4
-			A[1][1] += util.LsProduct(sy, sx) + 8
+			A[1][1] += util.LsProduct(sy, sy) + 8
 			Bx[0] += util.LsProduct(sx, dx) + 8
 			Bx[1] += util.LsProduct(sy, dx) + 4
-			Bx[0] += util.LsProduct(sx, dy) + 4
-			Bx[1] += util.LsProduct(sy, dy) + 8
+			By[0] += util.LsProduct(sx, dy) + 4
+			By[1] += util.LsProduct(sy, dy) + 8
 		}
 	}
 
@@ -483,19 +475,19 @@ func (t *TileGroup) warpEstimationProcess(state *state.State) {
 	divShift -= shared.WARPEDMODEL_PREC_BITS
 
 	if divShift < 0 {
-		divFactor = divFactor << (divShift)
+		divFactor = divFactor << (-divShift)
 		divShift = 0
 	}
 
 	t.LocalWarpParams[2] = t.diag(A[1][1]*Bx[0]-A[0][1]*Bx[1], divFactor, divShift)
-	t.LocalWarpParams[3] = t.nondiag(-A[1][1]*Bx[0]+A[0][0]*Bx[1], divFactor, divShift)
+	t.LocalWarpParams[3] = t.nondiag(-A[0][1]*Bx[0]+A[0][0]*Bx[1], divFactor, divShift)
 	t.LocalWarpParams[4] = t.nondiag(A[1][1]*By[0]-A[0][1]*By[1], divFactor, divShift)
-	t.LocalWarpParams[5] = t.diag(-A[1][1]*By[0]+A[0][0]*By[1], divFactor, divShift)
+	t.LocalWarpParams[5] = t.diag(-A[0][1]*By[0]+A[0][0]*By[1], divFactor, divShift)
 
 	mvx := t.Mv[0][1]
 	mvy := t.Mv[0][0]
 	vx := mvx*(1<<(shared.WARPEDMODEL_PREC_BITS-3)) - (midX*(t.LocalWarpParams[2]-(1<<shared.WARPEDMODEL_PREC_BITS)) + midY*t.LocalWarpParams[3])
-	vy := mvy*(1<<(shared.WARPEDMODEL_PREC_BITS-3)) - (midX * (t.LocalWarpParams[4] + midY + (t.LocalWarpParams[5]) - (1 << shared.WARPEDMODEL_PREC_BITS)))
+	vy := mvy*(1<<(shared.WARPEDMODEL_PREC_BITS-3)) - (midX*t.LocalWarpParams[4] + midY*(t.LocalWarpParams[5]-(1<<shared.WARPEDMODEL_PREC_BITS)))
 
 	t.LocalWarpParams[0] = util.Clip3(-shared.WARPEDMODEL_TRANS_CLAMP, shared.WARPEDMODEL_TRANS_CLAMP-1, vx)
 	t.LocalWarpParams[1] = util.Clip3(-shared.WARPEDMODEL_TRANS_CLAMP, shared.WARPEDMODEL_TRANS_CLAMP-1, vy)
-- 
2.43.0


From 5d6caaf017382c192cc4cbe0c1e345ce34e9d14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:54 +0000
Subject: [PATCH 154/163] fix: division lookup table entry

---
 internal/tilegroup/predict_inter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/predict_inter.go b/internal/tilegroup/predict_inter.go
index cd4ce2e..6f73103 100644
--- a/internal/tilegroup/predict_inter.go
+++ b/internal/tilegroup/predict_inter.go
@@ -829,7 +829,7 @@ var Div_Lut = []int{
 	11125, 11096, 11067, 11038, 11009, 10980, 10951, 10923, 10894, 10866, 10838,
 	10810, 10782, 10755, 10727, 10700, 10673, 10645, 10618, 10592, 10565, 10538,
 	10512, 10486, 10460, 10434, 10408, 10382, 10356, 10331, 10305, 10280, 10255,
-	10230, 10205, 10180, 10156, 10131, 10107, 10082, 10058, 10034, 10010, 99869,
+	10230, 10205, 10180, 10156, 10131, 10107, 10082, 10058, 10034, 10010, 9986,
 	9963, 9939, 9916, 9892, 9869, 9846, 9823, 9800, 9777, 9754, 9732,
 	9709, 9687, 9664, 9642, 9620, 9598, 9576, 9554, 9533, 9511, 9489,
 	9468, 9447, 9425, 9404, 9383, 9362, 9341, 9321, 9300, 9279, 9259,
-- 
2.43.0


From 084283133ac914a91ba7e2d3a2ac5338d9f9e4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:54 +0000
Subject: [PATCH 155/163] fix: overlapped prediction blends rows from above and
 columns from the left

---
 internal/tilegroup/predict_inter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/predict_inter.go b/internal/tilegroup/predict_inter.go
index 6f73103..98a3af7 100644
--- a/internal/tilegroup/predict_inter.go
+++ b/internal/tilegroup/predict_inter.go
@@ -520,7 +520,7 @@ func (t *TileGroup) overlappedMotionCompensationProcess(plane int, w int, h int,
 					nCount += 1
 					predW := util.Min(w, (step4*MI_SIZE)>>subX)
 					predH := util.Min(h>>1, 32>>subY)
-					mask := util.GetObmcMask(predW)
+					mask := util.GetObmcMask(predH)
 
 					// predict_overlap( )
 					mv := t.Mvs[candRow][candCol][0]
@@ -544,7 +544,7 @@ func (t *TileGroup) overlappedMotionCompensationProcess(plane int, w int, h int,
 	}
 
 	if state.AvailL {
-		pass := 0
+		pass := 1
 		h4 := shared.NUM_4X4_BLOCKS_HIGH[state.MiSize]
 		x4 := state.MiCol
 		y4 := state.MiRow
-- 
2.43.0


From e7099f68c10dc3c05ce21ca3fce95f23957a19fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:55 +0000
Subject: [PATCH 156/163] fix: wedge masks

---
 internal/wedgemask/wedge_mask.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/internal/wedgemask/wedge_mask.go b/internal/wedgemask/wedge_mask.go
index 05e3c54..371ac9e 100644
--- a/internal/wedgemask/wedge_mask.go
+++ b/internal/wedgemask/wedge_mask.go
@@ -72,13 +72,19 @@ var Wedge_Codebook = [][][]int{
 	},
 }
 
-var WedgeMasks = [][][][][]int{}
+var WedgeMasks [shared.BLOCK_SIZES][2][WEDGE_TYPES][32][32]int
+var initialised bool
 
 func InitialiseWedgeMaskTable(state *state.State) {
+	if initialised {
+		return
+	}
+	initialised = true
+
 	w := MASK_MASTER_SIZE
 	h := MASK_MASTER_SIZE
 
-	var MasterMask [][][]int
+	var MasterMask [6][MASK_MASTER_SIZE][MASK_MASTER_SIZE]int
 	for j := 0; j < w; j++ {
 		shift := MASK_MASTER_SIZE / 4
 		for i := 0; i < h; i += 2 {
@@ -102,8 +108,8 @@ func InitialiseWedgeMaskTable(state *state.State) {
 
 	for bsize := shared.BLOCK_8X8; bsize < shared.BLOCK_SIZES; bsize++ {
 		if Wedge_Bits[bsize] > 0 {
-			w := state.BlockWidth[bsize]
-			h := state.BlockHeight[bsize]
+			w := shared.BLOCK_WIDTH[bsize]
+			h := shared.BLOCK_HEIGHT[bsize]
 
 			for wedge := 0; wedge < WEDGE_TYPES; wedge++ {
 				dir := getWedgeDirection(bsize, wedge, state)
-- 
2.43.0


From 8600ab8de8d75c4aedebf7d3ecbff8d268202e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:10 +0000
Subject: [PATCH 157/163] fix: store the motion vectors of decoded frames

---
 internal/tilegroup/decode_frame_wrapup.go | 23 +++++++++++++++++++++--
 internal/tilegroup/tile_group.go          |  1 +
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/decode_frame_wrapup.go b/internal/tilegroup/decode_frame_wrapup.go
index 77d186e..6cd83f1 100644
--- a/internal/tilegroup/decode_frame_wrapup.go
+++ b/internal/tilegroup/decode_frame_wrapup.go
@@ -104,10 +104,29 @@ var UPSCALE_FILTER = [SUPERRES_FILTER_SHIFTS][SUPERRES_FILTER_TAPS]int{
 }
 
 // 7.19
-func (t *TileGroup) motionVectorStorageProcess() {
-	panic("not implemented")
+func (t *TileGroup) motionVectorStorageProcess(state *state.State, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) {
+	for row := 0; row < state.MiRows; row++ {
+		for col := 0; col < state.MiCols; col++ {
+			state.MfRefFrames[row][col] = shared.NONE
+			state.MfMvs[row][col] = [2]int{}
+			for list := 0; list < 2; list++ {
+				r := state.RefFrames[row][col][list]
+				if r <= shared.INTRA_FRAME || uh.GetRelativeDist(uh.OrderHints[r], uh.OrderHint, sh) >= 0 {
+					continue
+				}
+
+				mv := t.Mvs[row][col][list]
+				if util.Abs(mv[0]) <= REFMVS_LIMIT && util.Abs(mv[1]) <= REFMVS_LIMIT {
+					state.MfRefFrames[row][col] = r
+					state.MfMvs[row][col] = mv
+				}
+			}
+		}
+	}
 }
 
+const REFMVS_LIMIT = (1 << 12) - 1
+
 // 7.20 Reference frame update process
 func (t *TileGroup) referenceFrameUpdate(state *state.State, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) {
 	for i := 0; i < shared.NUM_REF_FRAMES; i++ {
diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index 7941e5f..b77a474 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -339,6 +339,7 @@ func (t *TileGroup) decodeFrameWrapup(state *state.State, uh uncompressedheader.
 		state.UpscaledCdefFrame = t.upscalingProcess(state.CdefFrame, state, sh, uh)
 		state.UpscaledCurrFrame = t.upscalingProcess(state.CurrFrame, state, sh, uh)
 		t.loopRestoration(state, uh, sh)
+		t.motionVectorStorageProcess(state, uh, sh)
 
 		if uh.SegmentationEnabled && uh.SegmentationUpdateMap == 0 {
 			for row := 0; row < state.MiRows; row++ {
-- 
2.43.0


From 6bc47a36338e2178e40b38e5e3533f827e487dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:10 +0000
Subject: [PATCH 158/163] fix: motion field estimation

---
 internal/shared/constants.go                  |   1 +
 internal/state/state.go                       |   1 +
 internal/tilegroup/find_mv_stack.go           |   6 +-
 internal/tilegroup/tile_group.go              |   1 -
 internal/uncompressedheader/motion_field.go   | 114 ++++++++++++++++++
 .../uncompressedheader/uncompressed_header.go |   6 +-
 6 files changed, 120 insertions(+), 9 deletions(-)
 create mode 100644 internal/uncompressedheader/motion_field.go

diff --git a/internal/shared/constants.go b/internal/shared/constants.go
index 3af69c4..3644c95 100644
--- a/internal/shared/constants.go
+++ b/internal/shared/constants.go
@@ -231,6 +231,7 @@ const SWITCHABLE = 4
 const NUM_REF_FRAMES = 8
 const REFS_PER_FRAME = 7
 const KEY_FRAME = 0
+const INTRA_ONLY_FRAME = 2
 const PRIMARY_REF_NONE = 7
 const MAX_SEGMENTS = 8
 
diff --git a/internal/state/state.go b/internal/state/state.go
index 2ed2f3f..7dff070 100644
--- a/internal/state/state.go
+++ b/internal/state/state.go
@@ -82,6 +82,7 @@ type State struct {
 	SavedMvs               [shared.NUM_REF_FRAMES][][][2]int
 	SavedRefFrames         [shared.NUM_REF_FRAMES][][]int
 	MfRefFrames            [][]int
+	MotionFieldMvs         [shared.ALTREF_FRAME + 1][][][2]int
 	SavedGmParams          [shared.NUM_REF_FRAMES][shared.ALTREF_FRAME + 1][6]int
 	SavedSegmentIds        [shared.NUM_REF_FRAMES][][]int
 	FrameStore             [shared.NUM_REF_FRAMES][3][][]int
diff --git a/internal/tilegroup/find_mv_stack.go b/internal/tilegroup/find_mv_stack.go
index ccf33ee..318dacd 100644
--- a/internal/tilegroup/find_mv_stack.go
+++ b/internal/tilegroup/find_mv_stack.go
@@ -326,7 +326,7 @@ func (t *TileGroup) temporalSampleProcess(deltaRow int, deltaCol int, isCompound
 	}
 
 	if !isCompound {
-		candMv := t.MotionFieldMvs[state.RefFrame[0]][y8][x8]
+		candMv := state.MotionFieldMvs[state.RefFrame[0]][y8][x8]
 		if candMv[0] == -1<<15 {
 			return
 		}
@@ -357,11 +357,11 @@ func (t *TileGroup) temporalSampleProcess(deltaRow int, deltaCol int, isCompound
 			t.NumMvFound += 1
 		}
 	} else {
-		candMv0 := t.MotionFieldMvs[state.RefFrame[0]][y8][x8]
+		candMv0 := state.MotionFieldMvs[state.RefFrame[0]][y8][x8]
 		if candMv0[0] == -1<<15 {
 			return
 		}
-		candMv1 := t.MotionFieldMvs[state.RefFrame[1]][y8][x8]
+		candMv1 := state.MotionFieldMvs[state.RefFrame[1]][y8][x8]
 		if candMv1[0] == -1<<15 {
 			return
 		}
diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index b77a474..57d0a12 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -139,7 +139,6 @@ type TileGroup struct {
 	NumMvFound          int
 	NewMvCount          int
 	GlobalMvs           [2][2]int
-	MotionFieldMvs      [][][][2]int
 	Mv                  [2][2]int
 	FoundMatch          int
 	TotalMatches        int
diff --git a/internal/uncompressedheader/motion_field.go b/internal/uncompressedheader/motion_field.go
new file mode 100644
index 0000000..45a8e22
--- /dev/null
+++ b/internal/uncompressedheader/motion_field.go
@@ -0,0 +1,114 @@
+package uncompressedheader
+
+import (
+	"github.com/m4tthewde/gov1/internal/sequenceheader"
+	"github.com/m4tthewde/gov1/internal/shared"
+	"github.com/m4tthewde/gov1/internal/state"
+	"github.com/m4tthewde/gov1/internal/util"
+)
+
+const MFMV_STACK_SIZE = 3
+const MAX_FRAME_DISTANCE = 31
+const MAX_OFFSET_WIDTH = 8
+const MAX_OFFSET_HEIGHT = 0
+const INVALID_MV = -1 << 15
+
+// 7.9.1 General motion field estimation process
+func (u *UncompressedHeader) motionFieldEstimation(s *state.State, sh sequenceheader.SequenceHeader) {
+	for ref := shared.LAST_FRAME; ref <= shared.ALTREF_FRAME; ref++ {
+		s.MotionFieldMvs[ref] = make([][][2]int, s.MiRows>>1)
+		for y := range s.MotionFieldMvs[ref] {
+			s.MotionFieldMvs[ref][y] = make([][2]int, s.MiCols>>1)
+			for x := range s.MotionFieldMvs[ref][y] {
+				s.MotionFieldMvs[ref][y][x] = [2]int{INVALID_MV, INVALID_MV}
+			}
+		}
+	}
+
+	if s.SavedOrderHints[u.RefFrameIdx[0]][shared.ALTREF_FRAME] != u.OrderHints[shared.GOLDEN_FRAME] {
+		u.projectMotionField(shared.LAST_FRAME, -1, s, sh)
+	}
+
+	refStamp := MFMV_STACK_SIZE - 2
+	for _, src := range []int{shared.BWDREF_FRAME, shared.ALTREF2_FRAME, shared.ALTREF_FRAME} {
+		if src == shared.ALTREF_FRAME && refStamp < 0 {
+			break
+		}
+		if u.GetRelativeDist(u.OrderHints[src], u.OrderHint, sh) > 0 && u.projectMotionField(src, 1, s, sh) {
+			refStamp--
+		}
+	}
+
+	if refStamp >= 0 {
+		u.projectMotionField(shared.LAST2_FRAME, -1, s, sh)
+	}
+}
+
+// 7.9.2 Projection process
+func (u *UncompressedHeader) projectMotionField(src int, dstSign int, s *state.State, sh sequenceheader.SequenceHeader) bool {
+	srcIdx := u.RefFrameIdx[src-shared.LAST_FRAME]
+	if s.RefMiRows[srcIdx] != s.MiRows || s.RefMiCols[srcIdx] != s.MiCols ||
+		s.RefFrameType[srcIdx] == shared.KEY_FRAME || s.RefFrameType[srcIdx] == shared.INTRA_ONLY_FRAME {
+		return false
+	}
+
+	h8 := s.MiRows >> 1
+	w8 := s.MiCols >> 1
+	refToCur := u.GetRelativeDist(u.OrderHints[src], u.OrderHint, sh)
+	if dstSign == -1 {
+		refToCur = -refToCur
+	}
+
+	for y8 := 0; y8 < h8; y8++ {
+		for x8 := 0; x8 < w8; x8++ {
+			srcRef := s.SavedRefFrames[srcIdx][2*y8+1][2*x8+1]
+			if srcRef <= shared.INTRA_FRAME {
+				continue
+			}
+
+			refOffset := u.GetRelativeDist(u.OrderHints[src], s.SavedOrderHints[srcIdx][srcRef], sh)
+			if refOffset <= 0 || refOffset > MAX_FRAME_DISTANCE || util.Abs(refToCur) > MAX_FRAME_DISTANCE {
+				continue
+			}
+
+			mv := s.SavedMvs[srcIdx][2*y8+1][2*x8+1]
+			projMv := projectMv(mv, refToCur, refOffset)
+			posY8, validY := projectPosition(y8, projMv[0], dstSign, h8, MAX_OFFSET_HEIGHT)
+			posX8, validX := projectPosition(x8, projMv[1], dstSign, w8, MAX_OFFSET_WIDTH)
+			if !validY || !validX {
+				continue
+			}
+
+			for dst := shared.LAST_FRAME; dst <= shared.ALTREF_FRAME; dst++ {
+				refToDst := u.GetRelativeDist(u.OrderHint, u.OrderHints[dst], sh)
+				s.MotionFieldMvs[dst][posY8][posX8] = projectMv(mv, refToDst, refOffset)
+			}
+		}
+	}
+
+	return true
+}
+
+// 7.9.3 Get MV projection process
+func projectMv(mv [2]int, numerator int, denominator int) [2]int {
+	denominator = util.Min(MAX_FRAME_DISTANCE, denominator)
+	factor := util.Clip3(-MAX_FRAME_DISTANCE, MAX_FRAME_DISTANCE, numerator) * ((1 << 14) / denominator)
+
+	var projMv [2]int
+	for i := range projMv {
+		projMv[i] = util.Clip3(-(1<<14)+1, (1<<14)-1, util.Round2Signed(mv[i]*factor, 14))
+	}
+	return projMv
+}
+
+// 7.9.4 Get block position process
+func projectPosition(v8 int, projMv int, dstSign int, max8 int, maxOff8 int) (int, bool) {
+	base8 := (v8 >> 3) << 3
+	offset8 := util.Abs(projMv) >> 6
+	if projMv < 0 {
+		offset8 = -offset8
+	}
+
+	pos8 := v8 + dstSign*offset8
+	return pos8, pos8 >= 0 && pos8 < max8 && pos8 >= base8-maxOff8 && pos8 < base8+8+maxOff8
+}
diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 51c3b93..b1ea92f 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -401,7 +401,7 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 	}
 
 	if u.UseRefFrameMvs {
-		u.motionFieldEstimation()
+		u.motionFieldEstimation(s, sh)
 	}
 
 	u.TileInfo = tileinfo.NewTileInfo(sh, s, b)
@@ -713,10 +713,6 @@ func LoadSegmentationParams(i int, state *state.State) {
 	state.FeatureData = state.SavedFeatureData[i]
 }
 
-func (u *UncompressedHeader) motionFieldEstimation() {
-	panic("not implemented")
-}
-
 func (u *UncompressedHeader) tileInfo() {
 	panic("not implemented")
 }
-- 
2.43.0


From 66c16a649d4fd7231445fc1783848025e8c25299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:21 +0000
Subject: [PATCH 159/163] fix: treat GLOBAL_GLOBALMV like GLOBALMV in the loop
 filter

---
 internal/tilegroup/loop_filter_process.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/loop_filter_process.go b/internal/tilegroup/loop_filter_process.go
index 2927e70..420e26a 100644
--- a/internal/tilegroup/loop_filter_process.go
+++ b/internal/tilegroup/loop_filter_process.go
@@ -150,7 +150,7 @@ func (t *TileGroup) adaptiveFilterStrength(row int, col int, plane int, pass boo
 	mode := t.YModes[row][col]
 
 	var modeType int
-	if mode >= shared.NEARESTMV && mode != shared.GLOBALMV {
+	if mode >= shared.NEARESTMV && mode != shared.GLOBALMV && mode != shared.GLOBAL_GLOBALMV {
 		modeType = 1
 	} else {
 		modeType = 0
-- 
2.43.0


From 02ffc4d3d84d0884b332f5948262a11d2fe724df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:08 +0000
Subject: [PATCH 160/163] fix: reject coefficients with an invalid Golomb
 length

---
 internal/tilegroup/coeffs.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/tilegroup/coeffs.go b/internal/tilegroup/coeffs.go
index 123bf75..21ba6c1 100644
--- a/internal/tilegroup/coeffs.go
+++ b/internal/tilegroup/coeffs.go
@@ -156,6 +156,9 @@ func (t *TileGroup) coeffs(plane int, startX int, startY int, txSz int, b *bitst
 					length++
 					golombLengthBit := literal.L(1, state, b, uh)
 
+					if length > 20 {
+						panic("bitstream conformance violated: golomb length > 20")
+					}
 					if util.Bool(golombLengthBit) {
 						break
 					}
-- 
2.43.0


From 3befaffaf6d474eec25b11ef41270ece109748c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:43 +0000
Subject: [PATCH 161/163] fix: output the highest spatial layer of scalable
 streams

---
 internal/obu/obu.go          | 1 +
 internal/state/state.go      | 1 +
 internal/tilegroup/output.go | 5 +++--
 3 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/internal/obu/obu.go b/internal/obu/obu.go
index 2a8863d..ffa6cb4 100644
--- a/internal/obu/obu.go
+++ b/internal/obu/obu.go
@@ -42,6 +42,7 @@ func (o *Obu) build(sz int, b *bitstream.BitStream, state *state.State) {
 	}
 
 	startPosition := b.Position
+	state.SpatialID = o.Header.ExtensionHeader.SpatialID
 
 	if o.Header.Type != header.OBU_SEQUENCE_HEADER &&
 		o.Header.Type != header.OBU_TEMPORAL_DELIMITER &&
diff --git a/internal/state/state.go b/internal/state/state.go
index 7dff070..1429a11 100644
--- a/internal/state/state.go
+++ b/internal/state/state.go
@@ -23,6 +23,7 @@ type State struct {
 	RefFrameType      [shared.NUM_REF_FRAMES]int
 	CurrentQIndex     int
 	OperatingPointIdc int
+	SpatialID         int
 	MiColStart        int
 	MiColEnd          int
 	MiRowStart        int
diff --git a/internal/tilegroup/output.go b/internal/tilegroup/output.go
index dd29ff1..da96616 100644
--- a/internal/tilegroup/output.go
+++ b/internal/tilegroup/output.go
@@ -9,8 +9,9 @@ import (
 
 // 7.18 Output process
 func (t *TileGroup) outputProcess(state *state.State, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) {
-	if state.OperatingPointIdc != 0 {
-		panic("not implemented")
+	// only the highest spatial layer of the operating point is output
+	if state.OperatingPointIdc != 0 && state.SpatialID < util.FloorLog2(state.OperatingPointIdc>>8) {
+		return
 	}
 
 	w, h, subX, subY := t.intermediateOutputPreparation(uh, state, &sh)
-- 
2.43.0


From 5b5876179033065c3d846649bbe775e91b2617e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:14 +0000
Subject: [PATCH 162/163] fix: wedge masks are made once when decoders run at
 the same time

---
 internal/wedgemask/wedge_mask.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/internal/wedgemask/wedge_mask.go b/internal/wedgemask/wedge_mask.go
index 371ac9e..3108182 100644
--- a/internal/wedgemask/wedge_mask.go
+++ b/internal/wedgemask/wedge_mask.go
@@ -1,6 +1,8 @@
 package wedgemask
 
 import (
+	"sync"
+
 	"github.com/m4tthewde/gov1/internal/shared"
 	"github.com/m4tthewde/gov1/internal/state"
 	"github.com/m4tthewde/gov1/internal/util"
@@ -73,14 +75,14 @@ var Wedge_Codebook = [][][]int{
 }
 
 var WedgeMasks [shared.BLOCK_SIZES][2][WEDGE_TYPES][32][32]int
-var initialised bool
+var initialised sync.Once
 
+// InitialiseWedgeMaskTable makes the masks once, whichever decoder is first.
 func InitialiseWedgeMaskTable(state *state.State) {
-	if initialised {
-		return
-	}
-	initialised = true
+	initialised.Do(func() { makeWedgeMasks(state) })
+}
 
+func makeWedgeMasks(state *state.State) {
 	w := MASK_MASTER_SIZE
 	h := MASK_MASTER_SIZE
 
-- 
2.43.0


From adb22b597242bd9ae428ffa9b64eed8d7c951df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:14 +0000
Subject: [PATCH 163/163] fix: the logger is set up once when parsers run at
 the same time

---
 internal/logger/logger.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/internal/logger/logger.go b/internal/logger/logger.go
index abafff2..b9a85e5 100644
--- a/internal/logger/logger.go
+++ b/internal/logger/logger.go
@@ -1,14 +1,22 @@
 package logger
 
-import "go.uber.org/zap"
+import (
+	"sync"
+
+	"go.uber.org/zap"
+)
 
 var Logger *zap.Logger
+var once sync.Once
 
+// Initialize sets the logger up, once, whichever parser is first.
 func Initialize() {
-	logger, err := zap.NewDevelopment()
-	if err != nil {
-		panic(err)
-	}
+	once.Do(func() {
+		logger, err := zap.NewDevelopment()
+		if err != nil {
+			panic(err)
+		}
 
-	Logger = logger
+		Logger = logger
+	})
 }
-- 
2.43.0

