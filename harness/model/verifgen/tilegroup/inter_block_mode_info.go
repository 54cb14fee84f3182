package tilegroup

import (
	"github.com/m4tthewde/gov1/internal/verifgen/bitstream"
	"github.com/m4tthewde/gov1/internal/verifgen/literal"
	"github.com/m4tthewde/gov1/internal/verifgen/sequenceheader"
	"github.com/m4tthewde/gov1/internal/verifgen/shared"
	"github.com/m4tthewde/gov1/internal/verifgen/state"
	"github.com/m4tthewde/gov1/internal/verifgen/symbol"
	"github.com/m4tthewde/gov1/internal/verifgen/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/verifgen/util"
	"github.com/m4tthewde/gov1/internal/verifgen/wedgemask"
)

var COMPOUND_MODE_CTX_MAP = [][]int{
	{0, 1, 1, 1, 1},
	{1, 2, 3, 4, 4},
	{4, 4, 5, 6, 7},
}

// inter_block_mode_info()
func (t *TileGroup) interBlockModeInfo(b *bitstream.BitStream, state *state.State, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) {
	t.PaletteSizeY = 0
	t.PaletteSizeUV = 0
	t.readRefFrames(b, state, uh)

	isCompound := state.RefFrame[1] > shared.INTRA_FRAME
	t.findMvStack(isCompound, state, uh)

	if util.Bool(t.SkipMode) {
		t.YMode = shared.NEAREST_NEARESTMV
	} else if t.segFeatureActive(shared.SEG_LVL_SKIP, uh, state) || t.segFeatureActive(shared.SEG_LVL_GLOBALMV, uh, state) {
		t.YMode = shared.GLOBALMV
	} else if isCompound {
		ctx := COMPOUND_MODE_CTX_MAP[t.RefMvContext>>1][util.Min(t.NewMvContext, 4)]
		compoundMode := symbol.ReadSymbolAt(100, state.TileCompoundModeCdf[ctx], state, b, uh)

		t.YMode = shared.NEAREST_NEARESTMV + compoundMode
	} else {
		newMv := symbol.ReadSymbolAt(101, state.TileNewMvCdf[t.NewMvContext], state, b, uh)
		if newMv == 0 {
			t.YMode = shared.NEWMV
		} else {
			zeroMv := symbol.ReadSymbolAt(102, state.TileZeroMvCdf[t.ZeroMvContext], state, b, uh)
			if zeroMv == 0 {
				t.YMode = shared.GLOBALMV
			} else {
				refMv := symbol.ReadSymbolAt(103, state.TileRefMvCdf[t.RefMvContext], state, b, uh)
				if refMv == 0 {
					t.YMode = shared.NEARESTMV
				} else {
					t.YMode = shared.NEARMV
				}
			}
		}
	}

	t.RefMvIdx = 0
	if t.YMode == shared.NEWMV || t.YMode == shared.NEW_NEWMV {
		for idx := 0; idx < 2; idx++ {
			if t.NumMvFound > idx+1 {
				drlMode := symbol.ReadSymbolAt(104, state.TileDrlModeCdf[t.DrlCtxStack[idx]], state, b, uh)
				if drlMode == 0 {
					t.RefMvIdx = idx
					break
				}
				t.RefMvIdx = idx + 1
			}
		}
	} else if t.hasNearmv() {
		t.RefMvIdx = 1
		for idx := 1; idx < 3; idx++ {
			if t.NumMvFound > idx+1 {
				drlMode := symbol.ReadSymbolAt(105, state.TileDrlModeCdf[t.DrlCtxStack[idx]], state, b, uh)
				if drlMode == 0 {
					t.RefMvIdx = idx
					break
				}
				t.RefMvIdx = idx + 1
			}
		}
	}

	t.assignMv(util.Int(isCompound), b, state, sh, uh)
	t.readInterIntraMode(isCompound, b, state, sh, uh)
	t.readMotionMode(isCompound, b, uh, state)
	t.readCompoundType(isCompound, b, state, sh, uh)

	if uh.InterpolationFilter == shared.SWITCHABLE {
		x := 1
		if sh.EnableDualFilter {
			x = 2
		}
		for dir := 0; dir < x; dir++ {
			if t.needsInterpFilter(state) {
				t.InterpFilter[dir] = t.interpFilterSymbol(dir, state, b, uh)
			} else {
				t.InterpFilter[dir] = shared.EIGHTTAP
			}
		}

		if !sh.EnableDualFilter {
			t.InterpFilter[1] = t.InterpFilter[0]
		}
	} else {
		for dir := 0; dir < 2; dir++ {
			t.InterpFilter[dir] = uh.InterpolationFilter
		}
	}
}

// read_ref_frames()
func (t *TileGroup) readRefFrames(b *bitstream.BitStream, state *state.State, uh uncompressedheader.UncompressedHeader) {
	if util.Bool(t.SkipMode) {
		state.RefFrame[0] = uh.SkipModeFrame[0]
		state.RefFrame[1] = uh.SkipModeFrame[1]
	} else if t.segFeatureActive(shared.SEG_LVL_REF_FRAME, uh, state) {
		state.RefFrame[0] = state.FeatureData[t.SegmentId][shared.SEG_LVL_REF_FRAME]
		state.RefFrame[1] = shared.NONE
	} else if t.segFeatureActive(shared.SEG_LVL_SKIP, uh, state) || t.segFeatureActive(shared.SEG_LVL_GLOBALMV, uh, state) {
		state.RefFrame[0] = shared.LAST_FRAME
		state.RefFrame[1] = shared.NONE
	} else {
		bw4 := shared.NUM_4X4_BLOCKS_WIDE[state.MiSize]
		bh4 := shared.NUM_4X4_BLOCKS_HIGH[state.MiSize]

		var compMode int
		if uh.ReferenceSelect && util.Min(bw4, bh4) >= 2 {
			compMode = t.compModeSymbol(state, b, uh)
		} else {
			compMode = SINGLE_REFERENCE
		}

		if compMode == COMPOUND_REFERENCE {
			compRefType := t.compRefTypeSymbol(state, b, uh)
			if compRefType == UNIDIR_COMP_REFERENCE {
				uniCompRef := t.uniCompRefSymbol(state, b, uh)
				if util.Bool(uniCompRef) {
					state.RefFrame[0] = shared.BWDREF_FRAME
					state.RefFrame[1] = shared.ALTREF_FRAME
				} else {
					uniCompRefP1 := t.uniCompRefP1Symbol(state, b, uh)
					if util.Bool(uniCompRefP1) {
						uniCompRefP2 := t.uniCompRefP2Symbol(state, b, uh)

						if util.Bool(uniCompRefP2) {
							state.RefFrame[0] = shared.LAST_FRAME
							state.RefFrame[1] = shared.GOLDEN_FRAME
						} else {
							state.RefFrame[0] = shared.LAST_FRAME
							state.RefFrame[1] = shared.LAST3_FRAME
						}
					} else {
						state.RefFrame[0] = shared.LAST_FRAME
						state.RefFrame[1] = shared.LAST2_FRAME

					}
				}
			} else {
				compRef := t.compRefSymbol(state, b, uh)
				if compRef == 0 {
					compRefP1 := t.compRefP1Symbol(state, b, uh)

					if util.Bool(compRefP1) {
						state.RefFrame[0] = shared.LAST2_FRAME
					} else {
						state.RefFrame[0] = shared.LAST_FRAME

					}
				} else {
					compRefP2 := t.compRefP2Symbol(state, b, uh)

					if util.Bool(compRefP2) {
						state.RefFrame[0] = shared.GOLDEN_FRAME
					} else {
						state.RefFrame[0] = shared.LAST3_FRAME

					}

				}

				compBwdref := t.compBwdrefSymbol(state, b, uh)
				if compBwdref == 0 {
					compBwdrefP1 := t.compBwdrefP1Symbol(state, b, uh)

					if util.Bool(compBwdrefP1) {
						state.RefFrame[1] = shared.ALTREF2_FRAME
					} else {
						state.RefFrame[1] = shared.BWDREF_FRAME

					}
				} else {
					state.RefFrame[1] = shared.ALTREF_FRAME
				}
			}
		} else {
			singleRefP1 := t.singleRefP1Symbol(state, b, uh)
			if util.Bool(singleRefP1) {
				singleRefP2 := t.singleRefP2Symbol(state, b, uh)
				if singleRefP2 == 0 {
					singleRefP6 := t.singleRefP6Symbol(state, b, uh)
					if util.Bool(singleRefP6) {
						state.RefFrame[0] = shared.ALTREF2_FRAME
					} else {
						state.RefFrame[0] = shared.BWDREF_FRAME

					}
				} else {
					state.RefFrame[0] = shared.ALTREF_FRAME
				}
			} else {
				singleRefP3 := t.singleRefP3Symbol(state, b, uh)
				if util.Bool(singleRefP3) {
					singleRefP5 := t.singleRefP5Symbol(state, b, uh)
					if util.Bool(singleRefP5) {
						state.RefFrame[0] = shared.GOLDEN_FRAME
					} else {
						state.RefFrame[0] = shared.LAST3_FRAME
					}
				} else {
					singleRefP4 := t.singleRefP4Symbol(state, b, uh)
					if util.Bool(singleRefP4) {
						state.RefFrame[0] = shared.LAST2_FRAME
					} else {
						state.RefFrame[0] = shared.LAST_FRAME
					}
				}
			}
			state.RefFrame[1] = shared.NONE
		}
	}
}

// read_motion_mode( isCompound )
func (t *TileGroup) readMotionMode(isCompound bool, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader, state *state.State) {
	if util.Bool(t.SkipMode) {
		t.MotionMode = SIMPLE
		return
	}

	if !uh.IsMotionModeSwitchable {
		t.MotionMode = SIMPLE
		return
	}

	if util.Min(shared.BLOCK_WIDTH[state.MiSize], shared.BLOCK_HEIGHT[state.MiSize]) < 8 {
		t.MotionMode = SIMPLE
		return
	}

	if !uh.ForceIntegerMv && (t.YMode == shared.GLOBALMV || t.YMode == shared.GLOBAL_GLOBALMV) {
		if state.GmType[state.RefFrame[0]] > shared.TRANSLATION {
			t.MotionMode = SIMPLE
			return
		}
	}

	if isCompound || state.RefFrame[1] == shared.INTRA_FRAME || !t.hasOverlappableCandidates(state) {
		t.MotionMode = SIMPLE
		return
	}

	t.findWarpSamples(state)
	if uh.ForceIntegerMv || t.NumSamples == 0 || !uh.AllowWarpedMotion || t.isScaled(state.RefFrame[0], state, uh) {
		useObmc := symbol.ReadSymbolAt(106, state.TileUseObmcCdf[state.MiSize], state, b, uh)
		if util.Bool(useObmc) {
			t.MotionMode = OBMC

		} else {
			t.MotionMode = SIMPLE
		}
	} else {
		t.MotionMode = symbol.ReadSymbolAt(107, state.TileMotionModeCdf[state.MiSize], state, b, uh)
	}
}

// has_overlappable_candidates( )
func (t *TileGroup) hasOverlappableCandidates(state *state.State) bool {
	if state.AvailU {
		w4 := shared.NUM_4X4_BLOCKS_WIDE[state.MiSize]
		for x4 := state.MiCol; x4 < util.Min(state.MiCols, state.MiCol+w4); x4 += 2 {
			if state.RefFrames[state.MiRow-1][x4|1][0] > shared.INTRA_FRAME {
				return true
			}
		}
	}

	if state.AvailL {
		h4 := shared.NUM_4X4_BLOCKS_HIGH[state.MiSize]
		for y4 := state.MiRow; y4 < util.Min(state.MiRows, state.MiRow+h4); y4 += 2 {
			if state.RefFrames[y4|1][state.MiCol-1][0] > shared.INTRA_FRAME {
				return true
			}
		}
	}

	return false
}

// TODO: consider separate file for this procedure
// find_warp_samples() 7.10.4.
func (t *TileGroup) findWarpSamples(state *state.State) {
	t.NumSamples = 0
	t.NumSamplesScanned = 0

	w4 := shared.NUM_4X4_BLOCKS_WIDE[state.MiSize]
	h4 := shared.NUM_4X4_BLOCKS_HIGH[state.MiSize]

	doTopLeft := 1
	doTopRight := 1

	if state.AvailU {
		srcSize := state.MiSizes[state.MiRow-1][state.MiCol]
		srcW := shared.NUM_4X4_BLOCKS_WIDE[srcSize]

		if w4 <= srcW {
			colOffset := -(state.MiCol & (srcW - 1))
			if colOffset < 0 {
				doTopLeft = 0
			}
			if colOffset+srcW > w4 {
				doTopRight = 0
			}
			t.addSample(-1, 0, state)
		} else {
			var miStep int
			for i := 0; i < util.Min(w4, state.MiCols-state.MiCol); i += miStep {
				srcSize = state.MiSizes[state.MiRow-1][state.MiCol+i]
				srcW = shared.NUM_4X4_BLOCKS_WIDE[srcSize]
				miStep = util.Min(w4, srcW)
				t.addSample(-1, i, state)
			}
		}
	}
	if state.AvailL {
		srcSize := state.MiSizes[state.MiRow][state.MiCol-1]
		srcH := shared.NUM_4X4_BLOCKS_HIGH[srcSize]

		if h4 <= srcH {
			rowOffset := -(state.MiRow & (srcH - 1))
			if rowOffset < 0 {
				doTopLeft = 0
			}
			t.addSample(0, -1, state)
		} else {
			var miStep int
			for i := 0; i < util.Min(h4, state.MiRows-state.MiRow); i += miStep {
				srcSize = state.MiSizes[state.MiRow+i][state.MiCol-1]
				srcH = shared.NUM_4X4_BLOCKS_HIGH[srcSize]
				miStep = util.Min(h4, srcH)
				t.addSample(i, -1, state)
			}
		}
	}

	if util.Bool(doTopLeft) {
		t.addSample(-1, -1, state)
	}

	if util.Bool(doTopRight) {
		if util.Max(w4, h4) <= 16 {
			t.addSample(-1, w4, state)
		}
	}

	if t.NumSamples == 0 && t.NumSamplesScanned > 0 {
		t.NumSamples = 1
	}

}

// add_sample 7.10.4.2.
func (t *TileGroup) addSample(deltaRow int, deltaCol int, state *state.State) {
	if t.NumSamplesScanned >= LEAST_SQUARES_SAMPLES_MAX {
		return
	}

	mvRow := state.MiRow + deltaRow
	mvCol := state.MiCol + deltaCol

	if !t.isInside(mvRow, mvCol, state) {
		return
	}

	// TODO: how do we know if something has not been writte to?
	if state.RefFrames[mvRow][mvCol][0] == 0 {
		return
	}

	if state.RefFrames[mvRow][mvCol][0] != state.RefFrame[0] {
		return
	}

	if state.RefFrames[mvRow][mvCol][1] != shared.NONE {
		return
	}

	candSz := state.MiSizes[mvRow][mvCol]
	candW4 := shared.NUM_4X4_BLOCKS_WIDE[candSz]
	candH4 := shared.NUM_4X4_BLOCKS_HIGH[candSz]
	candRow := mvRow & ^(candH4 - 1)
	candCol := mvCol & ^(candW4 - 1)
	midY := candRow*4 + candH4*2 - 1
	midX := candCol*4 + candW4*2 - 1
	threshold := util.Clip3(16, 112, util.Max(shared.BLOCK_WIDTH[state.MiSize], shared.BLOCK_HEIGHT[state.MiSize]))
	mvDiffRow := util.Abs(t.Mvs[candRow][candCol][0][0] - t.Mv[0][0])
	mvDiffCol := util.Abs(t.Mvs[candRow][candCol][0][1] - t.Mv[0][1])
	valid := (mvDiffRow + mvDiffCol) <= threshold

	var cand [4]int
	cand[0] = midY * 8
	cand[1] = midX * 8
	cand[2] = midY*8 + t.Mvs[candRow][candCol][0][0]
	cand[3] = midX*8 + t.Mvs[candRow][candCol][0][1]

	t.NumSamplesScanned++
	if !valid && t.NumSamplesScanned > 1 {
		return
	}

	for j := 0; j < 4; j++ {
		t.CandList[t.NumSamples][j] = cand[j]
	}

	if valid {
		t.NumSamples++
	}
}

// needs_interp_filter()
func (t *TileGroup) needsInterpFilter(state *state.State) bool {
	large := util.Min(shared.BLOCK_WIDTH[state.MiSize], shared.BLOCK_HEIGHT[state.MiSize]) >= 8

	if util.Bool(t.SkipMode) || t.MotionMode == LOCALWARP {
		return false
	} else if large && t.YMode == shared.GLOBALMV {
		return state.GmType[state.RefFrame[0]] == shared.TRANSLATION
	} else if large && t.YMode == shared.GLOBAL_GLOBALMV {
		return state.GmType[state.RefFrame[0]] == shared.TRANSLATION || state.GmType[state.RefFrame[1]] == shared.TRANSLATION
	} else {
		return true
	}
}

// read_compound_type( isCompound )
func (t *TileGroup) readCompoundType(isCompound bool, b *bitstream.BitStream, state *state.State, sh sequenceheader.SequenceHeader, uh uncompressedheader.UncompressedHeader) {
	t.CompGroupIdx = 0
	t.CompoundIdx = 1
	if util.Bool(t.SkipMode) {
		t.CompoundType = COMPOUND_AVERAGE
		return
	}

	if isCompound {
		n := wedgemask.Wedge_Bits[state.MiSize]
		if sh.EnableMaskedCompound {
			t.CompGroupIdx = t.compGroupIdxSymbol(state, b, uh)
		}

		if t.CompGroupIdx == 0 {
			if sh.EnableJntComp {
				t.CompoundIdx = t.compoundIdxSymbol(state, b, uh, sh)
				if util.Bool(t.CompoundIdx) {
					t.CompoundType = COMPOUND_AVERAGE

				} else {
					t.CompoundType = COMPOUND_DISTANCE
				}
			} else {
				t.CompoundType = COMPOUND_AVERAGE
			}
		} else {
			if n == 0 {
				t.CompoundType = COMPOUND_DIFFWTD
			} else {
				t.CompoundType = symbol.ReadSymbolAt(108, state.TileCompoundTypeCdf[state.MiSize], state, b, uh)
			}
		}

		if t.CompoundType == COMPOUND_WEDGE {
			t.WedgeIndex = symbol.ReadSymbolAt(109, state.TileWedgeIndexCdf[state.MiSize], state, b, uh)
			t.WedgeSign = literal.LAt(110, 1, state, b, uh)
		} else if t.CompoundType == COMPOUND_DIFFWTD {
			t.MaskType = literal.LAt(111, 1, state, b, uh)
		}
	} else {
		if util.Bool(t.InterIntra) {
			if util.Bool(t.WedgeInterIntra) {
				t.CompoundType = COMPOUND_WEDGE
			} else {
				t.CompoundType = COMPOUND_INTRA
			}
		} else {
			t.CompoundType = COMPOUND_AVERAGE
		}
	}

}

// read_interintra_mode( isCompound )
func (t *TileGroup) readInterIntraMode(isCompound bool, b *bitstream.BitStream, state *state.State, sh sequenceheader.SequenceHeader, uh uncompressedheader.UncompressedHeader) {
	if !util.Bool(t.SkipMode) && sh.EnableInterIntraCompound && !isCompound && state.MiSize >= shared.BLOCK_8X8 && state.MiSize <= shared.BLOCK_32X32 {
		ctx := SIZE_GROUP[state.MiSize] - 1
		t.InterIntra = symbol.ReadSymbolAt(112, state.TileInterIntraCdf[ctx], state, b, uh)

		if util.Bool(t.InterIntra) {
			t.InterIntraMode = symbol.ReadSymbolAt(113, state.TileInterIntraModeCdf[ctx], state, b, uh)
			state.RefFrame[1] = shared.INTRA_FRAME
			t.AngleDeltaY = 0
			t.AngleDeltaUV = 0
			t.UseFilterIntra = false
			t.WedgeInterIntra = symbol.ReadSymbolAt(114, state.TileWedgeInterIntraCdf[state.MiSize], state, b, uh)
			if util.Bool(t.WedgeInterIntra) {
				t.WedgeIndex = symbol.ReadSymbolAt(115, state.TileWedgeIndexCdf[state.MiSize], state, b, uh)
				t.WedgeSign = 0
			}
		}
	} else {
		t.InterIntra = 0
	}
}

// has_nearmv()
func (t *TileGroup) hasNearmv() bool {
	return t.YMode == shared.NEARMV || t.YMode == shared.NEAR_NEARMV || t.YMode == shared.NEAR_NEWMV || t.YMode == shared.NEW_NEARMV
}
