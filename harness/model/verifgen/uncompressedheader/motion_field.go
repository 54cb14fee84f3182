package uncompressedheader

import (
	"github.com/m4tthewde/gov1/internal/verifgen/sequenceheader"
	"github.com/m4tthewde/gov1/internal/verifgen/shared"
	"github.com/m4tthewde/gov1/internal/verifgen/state"
	"github.com/m4tthewde/gov1/internal/verifgen/util"
)

const MFMV_STACK_SIZE = 3
const MAX_FRAME_DISTANCE = 31
const MAX_OFFSET_WIDTH = 8
const MAX_OFFSET_HEIGHT = 0
const INVALID_MV = -1 << 15

// 7.9.1 General motion field estimation process
func (u *UncompressedHeader) motionFieldEstimation(s *state.State, sh sequenceheader.SequenceHeader) {
	for ref := shared.LAST_FRAME; ref <= shared.ALTREF_FRAME; ref++ {
		s.MotionFieldMvs[ref] = make([][][2]int, s.MiRows>>1)
		for y := range s.MotionFieldMvs[ref] {
			s.MotionFieldMvs[ref][y] = make([][2]int, s.MiCols>>1)
			for x := range s.MotionFieldMvs[ref][y] {
				s.MotionFieldMvs[ref][y][x] = [2]int{INVALID_MV, INVALID_MV}
			}
		}
	}

	if s.SavedOrderHints[u.RefFrameIdx[0]][shared.ALTREF_FRAME] != u.OrderHints[shared.GOLDEN_FRAME] {
		u.projectMotionField(shared.LAST_FRAME, -1, s, sh)
	}

	refStamp := MFMV_STACK_SIZE - 2
	for _, src := range []int{shared.BWDREF_FRAME, shared.ALTREF2_FRAME, shared.ALTREF_FRAME} {
		if src == shared.ALTREF_FRAME && refStamp < 0 {
			break
		}
		if u.GetRelativeDist(u.OrderHints[src], u.OrderHint, sh) > 0 && u.projectMotionField(src, 1, s, sh) {
			refStamp--
		}
	}

	if refStamp >= 0 {
		u.projectMotionField(shared.LAST2_FRAME, -1, s, sh)
	}
}

// 7.9.2 Projection process
func (u *UncompressedHeader) projectMotionField(src int, dstSign int, s *state.State, sh sequenceheader.SequenceHeader) bool {
	srcIdx := u.RefFrameIdx[src-shared.LAST_FRAME]
	if s.RefMiRows[srcIdx] != s.MiRows || s.RefMiCols[srcIdx] != s.MiCols ||
		s.RefFrameType[srcIdx] == shared.KEY_FRAME || s.RefFrameType[srcIdx] == shared.INTRA_ONLY_FRAME {
		return false
	}

	h8 := s.MiRows >> 1
	w8 := s.MiCols >> 1
	refToCur := u.GetRelativeDist(u.OrderHints[src], u.OrderHint, sh)
	if dstSign == -1 {
		refToCur = -refToCur
	}

	for y8 := 0; y8 < h8; y8++ {
		for x8 := 0; x8 < w8; x8++ {
			srcRef := s.SavedRefFrames[srcIdx][2*y8+1][2*x8+1]
			if srcRef <= shared.INTRA_FRAME {
				continue
			}

			refOffset := u.GetRelativeDist(u.OrderHints[src], s.SavedOrderHints[srcIdx][srcRef], sh)
			if refOffset <= 0 || refOffset > MAX_FRAME_DISTANCE || util.Abs(refToCur) > MAX_FRAME_DISTANCE {
				continue
			}

			mv := s.SavedMvs[srcIdx][2*y8+1][2*x8+1]
			projMv := projectMv(mv, refToCur, refOffset)
			posY8, validY := projectPosition(y8, projMv[0], dstSign, h8, MAX_OFFSET_HEIGHT)
			posX8, validX := projectPosition(x8, projMv[1], dstSign, w8, MAX_OFFSET_WIDTH)
			if !validY || !validX {
				continue
			}

			for dst := shared.LAST_FRAME; dst <= shared.ALTREF_FRAME; dst++ {
				refToDst := u.GetRelativeDist(u.OrderHint, u.OrderHints[dst], sh)
				s.MotionFieldMvs[dst][posY8][posX8] = projectMv(mv, refToDst, refOffset)
			}
		}
	}

	return true
}

// 7.9.3 Get MV projection process
func projectMv(mv [2]int, numerator int, denominator int) [2]int {
	denominator = util.Min(MAX_FRAME_DISTANCE, denominator)
	factor := util.Clip3(-MAX_FRAME_DISTANCE, MAX_FRAME_DISTANCE, numerator) * ((1 << 14) / denominator)

	var projMv [2]int
	for i := range projMv {
		projMv[i] = util.Clip3(-(1<<14)+1, (1<<14)-1, util.Round2Signed(mv[i]*factor, 14))
	}
	return projMv
}

// 7.9.4 Get block position process
func projectPosition(v8 int, projMv int, dstSign int, max8 int, maxOff8 int) (int, bool) {
	base8 := (v8 >> 3) << 3
	offset8 := util.Abs(projMv) >> 6
	if projMv < 0 {
		offset8 = -offset8
	}

	pos8 := v8 + dstSign*offset8
	return pos8, pos8 >= 0 && pos8 < max8 && pos8 >= base8-maxOff8 && pos8 < base8+8+maxOff8
}
