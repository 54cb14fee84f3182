package tilegroup

import (
	"github.com/m4tthewde/gov1/internal/verifgen/bitstream"
	"github.com/m4tthewde/gov1/internal/verifgen/sequenceheader"
	"github.com/m4tthewde/gov1/internal/verifgen/shared"
	"github.com/m4tthewde/gov1/internal/verifgen/state"
	"github.com/m4tthewde/gov1/internal/verifgen/symbol"
	"github.com/m4tthewde/gov1/internal/verifgen/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/verifgen/util"
)

// comp_group_idx
func (t *TileGroup) compGroupIdxSymbol(state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) int {
	ctx := 0
	if state.AvailU {
		if !t.AboveSingle {
			ctx += t.CompGroupIdxs[state.MiRow-1][state.MiCol]
		} else if t.AboveRefFrame[0] == shared.ALTREF_FRAME {
			ctx += 3
		}
	}
	if state.AvailL {
		if !t.LeftSingle {
			ctx += t.CompGroupIdxs[state.MiRow][state.MiCol-1]
		} else if t.LeftRefFrame[0] == shared.ALTREF_FRAME {
			ctx += 3
		}
	}
	return symbol.ReadSymbolAt(74, state.TileCompGroupIdxCdf[util.Min(5, ctx)], state, b, uh)
}

// compound_idx
func (t *TileGroup) compoundIdxSymbol(state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) int {
	fwd := util.Abs(uh.GetRelativeDist(uh.OrderHints[state.RefFrame[0]], uh.OrderHint, sh))
	bck := util.Abs(uh.GetRelativeDist(uh.OrderHints[state.RefFrame[1]], uh.OrderHint, sh))
	ctx := 0
	if fwd == bck {
		ctx = 3
	}
	if state.AvailU {
		if !t.AboveSingle {
			ctx += t.CompoundIdxs[state.MiRow-1][state.MiCol]
		} else if t.AboveRefFrame[0] == shared.ALTREF_FRAME {
			ctx++
		}
	}
	if state.AvailL {
		if !t.LeftSingle {
			ctx += t.CompoundIdxs[state.MiRow][state.MiCol-1]
		} else if t.LeftRefFrame[0] == shared.ALTREF_FRAME {
			ctx++
		}
	}
	return symbol.ReadSymbolAt(75, state.TileCompoundIdxCdf[ctx], state, b, uh)
}
