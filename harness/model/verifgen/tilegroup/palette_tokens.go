package tilegroup

import (
	"github.com/m4tthewde/gov1/internal/verifgen/bitstream"
	"github.com/m4tthewde/gov1/internal/verifgen/literal"
	"github.com/m4tthewde/gov1/internal/verifgen/sequenceheader"
	"github.com/m4tthewde/gov1/internal/verifgen/shared"
	"github.com/m4tthewde/gov1/internal/verifgen/state"
	"github.com/m4tthewde/gov1/internal/verifgen/symbol"
	"github.com/m4tthewde/gov1/internal/verifgen/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/verifgen/util"
)

// palette_tokens()
func (t *TileGroup) paletteTokens(b *bitstream.BitStream, state *state.State, sh sequenceheader.SequenceHeader, uh uncompressedheader.UncompressedHeader) {
	blockHeight := shared.BLOCK_HEIGHT[state.MiSize]
	blockWidth := shared.BLOCK_WIDTH[state.MiSize]
	onscreenHeight := util.Min(blockHeight, (state.MiRows-state.MiRow)*MI_SIZE)
	onscreenWidth := util.Min(blockWidth, (state.MiCols-state.MiCol)*MI_SIZE)

	if util.Bool(t.PaletteSizeY) {
		colorIndexMapY := literal.NSAt(70, t.PaletteSizeY, state, b, uh)
		t.ColorMapY = newColorMap()
		t.ColorMapY[0][0] = colorIndexMapY

		for i := 1; i < onscreenHeight+onscreenWidth-1; i++ {
			for j := util.Min(i, onscreenWidth-1); j >= util.Max(0, i-onscreenHeight+1); j-- {
				t.getPaletteColorContext(t.ColorMapY, (i - j), j, t.PaletteSizeY)
				paletteColorIdxY := symbol.ReadSymbolAt(71, t.paletteColorYCdf(state), state, b, uh)
				t.ColorMapY[i-j][j] = t.ColorOrder[paletteColorIdxY]
			}
		}
		for i := 0; i < onscreenHeight; i++ {
			for j := onscreenWidth; j < blockWidth; j++ {
				t.ColorMapY[i][j] = t.ColorMapY[i][onscreenWidth-1]
			}
		}
		for i := onscreenHeight; i < blockHeight; i++ {
			for j := 0; j < blockWidth; j++ {
				t.ColorMapY[i][j] = t.ColorMapY[onscreenHeight-1][j]
			}
		}
	}

	if util.Bool(t.PaletteSizeUV) {
		colorIndexMapUv := literal.NSAt(72, t.PaletteSizeUV, state, b, uh)
		t.ColorMapUV = newColorMap()
		t.ColorMapUV[0][0] = colorIndexMapUv
		blockHeight = blockHeight >> util.Int(sh.ColorConfig.SubsamplingY)
		blockWidth = blockWidth >> util.Int(sh.ColorConfig.SubsamplingX)
		onscreenHeight = onscreenHeight >> util.Int(sh.ColorConfig.SubsamplingY)
		onscreenWidth = onscreenWidth >> util.Int(sh.ColorConfig.SubsamplingX)

		if blockWidth < 4 {
			blockWidth += 2
			onscreenWidth += 2
		}

		if blockHeight < 4 {
			blockHeight += 2
			onscreenHeight += 2
		}
		for i := 1; i < onscreenHeight+onscreenWidth-1; i++ {
			for j := util.Min(i, onscreenWidth-1); j >= util.Max(0, i-onscreenHeight+1); j-- {
				t.getPaletteColorContext(t.ColorMapUV, (i - j), j, t.PaletteSizeUV)
				paletteColorIdxUv := symbol.ReadSymbolAt(73, t.paletteColorUvCdf(state), state, b, uh)
				t.ColorMapUV[i-j][j] = t.ColorOrder[paletteColorIdxUv]
			}
		}
		for i := 0; i < onscreenHeight; i++ {
			for j := onscreenWidth; j < blockWidth; j++ {
				t.ColorMapUV[i][j] = t.ColorMapUV[i][onscreenWidth-1]
			}
		}
		for i := onscreenHeight; i < blockHeight; i++ {
			for j := 0; j < blockWidth; j++ {
				t.ColorMapUV[i][j] = t.ColorMapUV[onscreenHeight-1][j]
			}
		}
	}
}

var Palette_Color_Context = []int{-1, -1, 0, -1, -1, 4, 3, 2, 1}

func newColorMap() [][]int {
	m := make([][]int, 64)
	for i := range m {
		m[i] = make([]int, 64)
	}
	return m
}

func (t *TileGroup) paletteColorYCdf(state *state.State) []int {
	ctx := Palette_Color_Context[t.ColorContextHash]
	switch t.PaletteSizeY {
	case 2:
		return state.TilePaletteSize2YColorCdf[ctx]
	case 3:
		return state.TilePaletteSize3YColorCdf[ctx]
	case 4:
		return state.TilePaletteSize4YColorCdf[ctx]
	case 5:
		return state.TilePaletteSize5YColorCdf[ctx]
	case 6:
		return state.TilePaletteSize6YColorCdf[ctx]
	case 7:
		return state.TilePaletteSize7YColorCdf[ctx]
	default:
		return state.TilePaletteSize8YColorCdf[ctx]
	}
}

func (t *TileGroup) paletteColorUvCdf(state *state.State) []int {
	ctx := Palette_Color_Context[t.ColorContextHash]
	switch t.PaletteSizeUV {
	case 2:
		return state.TilePaletteSize2UVColorCdf[ctx]
	case 3:
		return state.TilePaletteSize3UVColorCdf[ctx]
	case 4:
		return state.TilePaletteSize4UVColorCdf[ctx]
	case 5:
		return state.TilePaletteSize5UVColorCdf[ctx]
	case 6:
		return state.TilePaletteSize6UVColorCdf[ctx]
	case 7:
		return state.TilePaletteSize7UVColorCdf[ctx]
	default:
		return state.TilePaletteSize8UVColorCdf[ctx]
	}
}

// get_palette_color_context( colorMap, r, c, n )
func (t *TileGroup) getPaletteColorContext(colorMap [][]int, r int, c int, n int) {
	var scores [PALETTE_COLORS]int
	for i := 0; i < PALETTE_COLORS; i++ {
		scores[i] = 0
		t.ColorOrder[i] = i
	}

	var neighbor int
	if c > 0 {
		neighbor = colorMap[r][c-1]
		scores[neighbor] += 2
	}

	if r > 0 && c > 0 {
		neighbor = colorMap[r-1][c-1]
		scores[neighbor] += 1
	}
	if r > 0 {
		neighbor = colorMap[r-1][c]
		scores[neighbor] += 2
	}

	for i := 0; i < PALETTE_NUM_NEIGHBORS; i++ {
		maxScore := scores[i]
		maIdx := i
		for j := i + 1; j < n; j++ {
			if scores[j] > maxScore {
				maxScore = scores[j]
				maIdx = j
			}
		}
		if maIdx != i {
			maxScore = scores[maIdx]
			maxColorOrder := t.ColorOrder[maIdx]
			for k := maIdx; k > i; k-- {
				scores[k] = scores[k-1]
				t.ColorOrder[k] = t.ColorOrder[k-1]
			}
			scores[i] = maxScore
			t.ColorOrder[i] = maxColorOrder
		}
	}

	t.ColorContextHash = 0
	for i := 0; i < PALETTE_NUM_NEIGHBORS; i++ {
		t.ColorContextHash += scores[i] * Palette_Color_Hash_Multipliers[i]
	}
}
