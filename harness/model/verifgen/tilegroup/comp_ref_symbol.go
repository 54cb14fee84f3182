package tilegroup

import (
	"github.com/m4tthewde/gov1/internal/verifgen/bitstream"
	"github.com/m4tthewde/gov1/internal/verifgen/shared"
	"github.com/m4tthewde/gov1/internal/verifgen/state"
	"github.com/m4tthewde/gov1/internal/verifgen/symbol"
	"github.com/m4tthewde/gov1/internal/verifgen/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/verifgen/util"
)

func isBackwardRef(refFrame int) bool {
	return refFrame >= shared.BWDREF_FRAME && refFrame <= shared.ALTREF_FRAME
}

func isUniComp(refFrame [2]int) bool {
	return refFrame[1] > shared.INTRA_FRAME && isBackwardRef(refFrame[0]) == isBackwardRef(refFrame[1])
}

// comp_mode
func (t *TileGroup) compModeSymbol(state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) int {
	aboveBackward := isBackwardRef(t.AboveRefFrame[0])
	leftBackward := isBackwardRef(t.LeftRefFrame[0])

	var ctx int
	if state.AvailU && state.AvailL {
		if t.AboveSingle && t.LeftSingle {
			ctx = util.Int(aboveBackward != leftBackward)
		} else if t.AboveSingle {
			ctx = 2 + util.Int(aboveBackward || t.AboveIntra)
		} else if t.LeftSingle {
			ctx = 2 + util.Int(leftBackward || t.LeftIntra)
		} else {
			ctx = 4
		}
	} else if state.AvailU {
		if t.AboveSingle {
			ctx = util.Int(aboveBackward)
		} else {
			ctx = 3
		}
	} else if state.AvailL {
		if t.LeftSingle {
			ctx = util.Int(leftBackward)
		} else {
			ctx = 3
		}
	} else {
		ctx = 1
	}
	return symbol.ReadSymbolAt(0, state.TileCompModeCdf[ctx], state, b, uh)
}

// comp_ref_type
func (t *TileGroup) compRefTypeSymbol(state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) int {
	aboveCompInter := state.AvailU && !t.AboveIntra && !t.AboveSingle
	leftCompInter := state.AvailL && !t.LeftIntra && !t.LeftSingle
	aboveUniComp := aboveCompInter && isUniComp(t.AboveRefFrame)
	leftUniComp := leftCompInter && isUniComp(t.LeftRefFrame)

	var ctx int
	if state.AvailU && !t.AboveIntra && state.AvailL && !t.LeftIntra {
		sameDirection := util.Int(isBackwardRef(t.AboveRefFrame[0]) == isBackwardRef(t.LeftRefFrame[0]))
		if !aboveCompInter && !leftCompInter {
			ctx = 1 + 2*sameDirection
		} else if !aboveCompInter {
			if !leftUniComp {
				ctx = 1
			} else {
				ctx = 3 + sameDirection
			}
		} else if !leftCompInter {
			if !aboveUniComp {
				ctx = 1
			} else {
				ctx = 3 + sameDirection
			}
		} else if !aboveUniComp && !leftUniComp {
			ctx = 0
		} else if !aboveUniComp || !leftUniComp {
			ctx = 2
		} else {
			ctx = 3 + util.Int((t.AboveRefFrame[0] == shared.BWDREF_FRAME) == (t.LeftRefFrame[0] == shared.BWDREF_FRAME))
		}
	} else if state.AvailU && state.AvailL {
		if aboveCompInter {
			ctx = 1 + 2*util.Int(aboveUniComp)
		} else if leftCompInter {
			ctx = 1 + 2*util.Int(leftUniComp)
		} else {
			ctx = 2
		}
	} else if aboveCompInter {
		ctx = 4 * util.Int(aboveUniComp)
	} else if leftCompInter {
		ctx = 4 * util.Int(leftUniComp)
	} else {
		ctx = 2
	}
	return symbol.ReadSymbolAt(1, state.TileCompRefTypeCdf[ctx], state, b, uh)
}

func (t *TileGroup) directionCtx(state *state.State) int {
	fwdCount := t.countRefs(shared.LAST_FRAME, state) + t.countRefs(shared.LAST2_FRAME, state) + t.countRefs(shared.LAST3_FRAME, state) + t.countRefs(shared.GOLDEN_FRAME, state)
	bwdCount := t.countRefs(shared.BWDREF_FRAME, state) + t.countRefs(shared.ALTREF2_FRAME, state) + t.countRefs(shared.ALTREF_FRAME, state)
	return refCountCtx(fwdCount, bwdCount)
}

func (t *TileGroup) last3GoldCtx(state *state.State) int {
	return refCountCtx(t.countRefs(shared.LAST3_FRAME, state), t.countRefs(shared.GOLDEN_FRAME, state))
}

// uni_comp_ref
func (t *TileGroup) uniCompRefSymbol(state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) int {
	return symbol.ReadSymbolAt(2, state.TileUniCompRefCdf[t.directionCtx(state)][0], state, b, uh)
}

// uni_comp_ref_p1
func (t *TileGroup) uniCompRefP1Symbol(state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) int {
	last2Count := t.countRefs(shared.LAST2_FRAME, state)
	last3GoldCount := t.countRefs(shared.LAST3_FRAME, state) + t.countRefs(shared.GOLDEN_FRAME, state)
	return symbol.ReadSymbolAt(3, state.TileUniCompRefCdf[refCountCtx(last2Count, last3GoldCount)][1], state, b, uh)
}

// uni_comp_ref_p2
func (t *TileGroup) uniCompRefP2Symbol(state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) int {
	return symbol.ReadSymbolAt(4, state.TileUniCompRefCdf[t.last3GoldCtx(state)][2], state, b, uh)
}

// comp_ref
func (t *TileGroup) compRefSymbol(state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) int {
	last12Count := t.countRefs(shared.LAST_FRAME, state) + t.countRefs(shared.LAST2_FRAME, state)
	last3GoldCount := t.countRefs(shared.LAST3_FRAME, state) + t.countRefs(shared.GOLDEN_FRAME, state)
	return symbol.ReadSymbolAt(5, state.TileCompRefCdf[refCountCtx(last12Count, last3GoldCount)][0], state, b, uh)
}

// comp_ref_p1
func (t *TileGroup) compRefP1Symbol(state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) int {
	lastCount := t.countRefs(shared.LAST_FRAME, state)
	last2Count := t.countRefs(shared.LAST2_FRAME, state)
	return symbol.ReadSymbolAt(6, state.TileCompRefCdf[refCountCtx(lastCount, last2Count)][1], state, b, uh)
}

// comp_ref_p2
func (t *TileGroup) compRefP2Symbol(state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) int {
	return symbol.ReadSymbolAt(7, state.TileCompRefCdf[t.last3GoldCtx(state)][2], state, b, uh)
}

// comp_bwdref
func (t *TileGroup) compBwdrefSymbol(state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) int {
	brfarf2Count := t.countRefs(shared.BWDREF_FRAME, state) + t.countRefs(shared.ALTREF2_FRAME, state)
	arfCount := t.countRefs(shared.ALTREF_FRAME, state)
	return symbol.ReadSymbolAt(8, state.TileCompBwdRefCdf[refCountCtx(brfarf2Count, arfCount)][0], state, b, uh)
}

// comp_bwdref_p1
func (t *TileGroup) compBwdrefP1Symbol(state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) int {
	brfCount := t.countRefs(shared.BWDREF_FRAME, state)
	arf2Count := t.countRefs(shared.ALTREF2_FRAME, state)
	return symbol.ReadSymbolAt(9, state.TileCompBwdRefCdf[refCountCtx(brfCount, arf2Count)][1], state, b, uh)
}
