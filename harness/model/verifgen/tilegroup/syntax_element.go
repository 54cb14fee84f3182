package tilegroup

import (
	"github.com/m4tthewde/gov1/internal/verifgen/bitstream"
	"github.com/m4tthewde/gov1/internal/verifgen/shared"
	"github.com/m4tthewde/gov1/internal/verifgen/state"
	"github.com/m4tthewde/gov1/internal/verifgen/symbol"
	"github.com/m4tthewde/gov1/internal/verifgen/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/verifgen/util"
)

func (t *TileGroup) countRefs(frameType int, state *state.State) int {
	c := 0
	if state.AvailU {
		if t.AboveRefFrame[0] == frameType {
			c++
		}
		if t.AboveRefFrame[1] == frameType {
			c++
		}
	}

	if state.AvailL {
		if t.LeftRefFrame[0] == frameType {
			c++
		}
		if t.LeftRefFrame[1] == frameType {
			c++
		}
	}

	return c
}

func refCountCtx(counts0 int, counts1 int) int {
	if counts0 < counts1 {
		return 0
	} else if counts0 == counts1 {
		return 1
	}

	return 2
}

func (t *TileGroup) skipModeSymbol(state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) int {
	ctx := 0
	if state.AvailU {
		ctx += t.SkipModes[state.MiRow-1][state.MiCol]
	}
	if state.AvailL {
		ctx += t.SkipModes[state.MiRow][state.MiCol-1]
	}
	return symbol.ReadSymbolAt(32, state.TileSkipModeCdf[ctx], state, b, uh)
}

func (t *TileGroup) interpFilterSymbol(dir int, state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) int {
	ctx := ((dir&1)*2 + util.Int(state.RefFrame[1] > shared.INTRA_FRAME)) * 4
	leftType := 3
	aboveType := 3
	if state.AvailL && (t.LeftRefFrame[0] == state.RefFrame[0] || t.LeftRefFrame[1] == state.RefFrame[0]) {
		leftType = t.InterpFilters[state.MiRow][state.MiCol-1][dir]
	}
	if state.AvailU && (t.AboveRefFrame[0] == state.RefFrame[0] || t.AboveRefFrame[1] == state.RefFrame[0]) {
		aboveType = t.InterpFilters[state.MiRow-1][state.MiCol][dir]
	}

	if leftType == aboveType {
		ctx += leftType
	} else if leftType == 3 {
		ctx += aboveType
	} else if aboveType == 3 {
		ctx += leftType
	} else {
		ctx += 3
	}
	return symbol.ReadSymbolAt(33, state.TileInterpFilterCdf[ctx], state, b, uh)
}

func (t *TileGroup) singleRefP1Symbol(state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) int {
	fwdCount := t.countRefs(shared.LAST_FRAME, state)
	fwdCount += t.countRefs(shared.LAST2_FRAME, state)
	fwdCount += t.countRefs(shared.LAST3_FRAME, state)
	fwdCount += t.countRefs(shared.GOLDEN_FRAME, state)
	bwdCount := t.countRefs(shared.BWDREF_FRAME, state)
	bwdCount += t.countRefs(shared.ALTREF2_FRAME, state)
	bwdCount += t.countRefs(shared.ALTREF_FRAME, state)
	ctx := refCountCtx(fwdCount, bwdCount)
	return symbol.ReadSymbolAt(34, state.TileSingleRefCdf[ctx][0], state, b, uh)
}

func (t *TileGroup) singleRefP2Symbol(state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) int {
	brfarf2Count := t.countRefs(shared.BWDREF_FRAME, state) + t.countRefs(shared.ALTREF2_FRAME, state)
	arfCount := t.countRefs(shared.ALTREF_FRAME, state)
	ctx := refCountCtx(brfarf2Count, arfCount)

	return symbol.ReadSymbolAt(35, state.TileSingleRefCdf[ctx][1], state, b, uh)
}

func (t *TileGroup) singleRefP3Symbol(state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) int {
	last12Count := t.countRefs(shared.LAST_FRAME, state) + t.countRefs(shared.LAST2_FRAME, state)
	last3GoldCount := t.countRefs(shared.LAST3_FRAME, state) + t.countRefs(shared.GOLDEN_FRAME, state)
	ctx := refCountCtx(last12Count, last3GoldCount)
	return symbol.ReadSymbolAt(36, state.TileSingleRefCdf[ctx][2], state, b, uh)
}

func (t *TileGroup) singleRefP4Symbol(state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) int {
	lastCount := t.countRefs(shared.LAST_FRAME, state)
	last2Count := t.countRefs(shared.LAST2_FRAME, state)
	ctx := refCountCtx(lastCount, last2Count)
	return symbol.ReadSymbolAt(37, state.TileSingleRefCdf[ctx][3], state, b, uh)
}

func (t *TileGroup) singleRefP5Symbol(state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) int {
	last3Count := t.countRefs(shared.LAST3_FRAME, state)
	goldCount := t.countRefs(shared.GOLDEN_FRAME, state)
	ctx := refCountCtx(last3Count, goldCount)

	return symbol.ReadSymbolAt(38, state.TileSingleRefCdf[ctx][4], state, b, uh)
}

func (t *TileGroup) singleRefP6Symbol(state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) int {
	brfCount := t.countRefs(shared.BWDREF_FRAME, state)
	arf2Count := t.countRefs(shared.ALTREF2_FRAME, state)
	ctx := refCountCtx(brfCount, arf2Count)

	return symbol.ReadSymbolAt(39, state.TileSingleRefCdf[ctx][5], state, b, uh)
}
