package tilegroup

import (
	"github.com/m4tthewde/gov1/internal/verifgen/sequenceheader"
	"github.com/m4tthewde/gov1/internal/verifgen/state"
	"github.com/m4tthewde/gov1/internal/verifgen/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/verifgen/util"
)

// 7.18 Output process
func (t *TileGroup) outputProcess(state *state.State, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) {
	// only the highest spatial layer of the operating point is output
	if state.OperatingPointIdc != 0 && state.SpatialID < util.FloorLog2(state.OperatingPointIdc>>8) {
		return
	}

	w, h, subX, subY := t.intermediateOutputPreparation(uh, state, &sh)

	if sh.FilmGrainParamsPresent && uh.ApplyGrain {
		t.filmGrainSynthesis(w, h, subX, subY)
	}
}

// 7.18.2. Intermediate output preparation process
func (t *TileGroup) intermediateOutputPreparation(uh uncompressedheader.UncompressedHeader, state *state.State, sh *sequenceheader.SequenceHeader) (int, int, int, int) {
	var w, h, subX, subY int
	if uh.ShowExistingFrame {
		w = state.RefUpscaledWidth[uh.FrameToShowMapIdx]
		h = state.RefFrameHeight[uh.FrameToShowMapIdx]
		subX = state.RefSubsamplingX[uh.FrameToShowMapIdx]
		subY = state.RefSubsamplingY[uh.FrameToShowMapIdx]
		t.allocateOutput(w, h, subX, subY, sh)

		for x := 0; x < w; x++ {
			for y := 0; y < h; y++ {
				t.OutY[y][x] = state.FrameStore[uh.FrameToShowMapIdx][0][y][x]
			}
		}

		for x := 0; x < t.outputChromaWidth(w, subX, sh); x++ {
			for y := 0; y < (h+subY)>>subY; y++ {
				t.OutU[y][x] = state.FrameStore[uh.FrameToShowMapIdx][1][y][x]
			}
		}

		for x := 0; x < t.outputChromaWidth(w, subX, sh); x++ {
			for y := 0; y < (h+subY)>>subY; y++ {
				t.OutV[y][x] = state.FrameStore[uh.FrameToShowMapIdx][2][y][x]
			}
		}

		// TODO: does this assignment work? sequenceheader isn't supposed to get modified this way
		sh.ColorConfig.BitDepth = state.RefBitDepth[uh.FrameToShowMapIdx]
	} else {
		w = uh.UpscaledWidth
		h = uh.FrameHeight
		subX = util.Int(sh.ColorConfig.SubsamplingX)
		subY = util.Int(sh.ColorConfig.SubsamplingY)
		t.allocateOutput(w, h, subX, subY, sh)

		for x := 0; x < w; x++ {
			for y := 0; y < h; y++ {
				t.OutY[y][x] = state.LrFrame[0][y][x]
			}
		}

		for x := 0; x < t.outputChromaWidth(w, subX, sh); x++ {
			for y := 0; y < (h+subY)>>subY; y++ {
				t.OutU[y][x] = state.LrFrame[1][y][x]
			}
		}

		for x := 0; x < t.outputChromaWidth(w, subX, sh); x++ {
			for y := 0; y < (h+subY)>>subY; y++ {
				t.OutV[y][x] = state.LrFrame[2][y][x]
			}
		}
	}

	return w, h, subX, subY
}

// monochrome frames are output without chroma samples
func (t *TileGroup) outputChromaWidth(w int, subX int, sh *sequenceheader.SequenceHeader) int {
	if sh.ColorConfig.MonoChrome {
		return 0
	}
	return (w + subX) >> subX
}

func (t *TileGroup) allocateOutput(w int, h int, subX int, subY int, sh *sequenceheader.SequenceHeader) {
	t.OutY = make([][]int, h)
	for y := range t.OutY {
		t.OutY[y] = make([]int, w)
	}

	t.OutU = nil
	t.OutV = nil
	if !sh.ColorConfig.MonoChrome {
		for y := 0; y < (h+subY)>>subY; y++ {
			t.OutU = append(t.OutU, make([]int, t.outputChromaWidth(w, subX, sh)))
			t.OutV = append(t.OutV, make([]int, t.outputChromaWidth(w, subX, sh)))
		}
	}
}

// 7.18.3. Film grain syntehsis
func (t *TileGroup) filmGrainSynthesis(w int, h int, subX int, subY int) {
	panic("not implemented")
}
