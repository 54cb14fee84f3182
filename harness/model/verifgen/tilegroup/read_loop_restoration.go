package tilegroup

import (
	"github.com/m4tthewde/gov1/internal/verifgen/bitstream"
	"github.com/m4tthewde/gov1/internal/verifgen/literal"
	"github.com/m4tthewde/gov1/internal/verifgen/sequenceheader"
	"github.com/m4tthewde/gov1/internal/verifgen/shared"
	"github.com/m4tthewde/gov1/internal/verifgen/state"
	"github.com/m4tthewde/gov1/internal/verifgen/symbol"
	"github.com/m4tthewde/gov1/internal/verifgen/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/verifgen/util"
)

// read_lr( r, c, bSize )
func (t *TileGroup) readLr(r int, c int, bSize int, b *bitstream.BitStream, state *state.State, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) {
	if uh.AllowIntraBc {
		return
	}

	w := shared.NUM_4X4_BLOCKS_WIDE[bSize]
	h := shared.NUM_4X4_BLOCKS_HIGH[bSize]

	for plane := 0; plane < sh.ColorConfig.NumPlanes; plane++ {
		if uh.FrameRestorationType[plane] != shared.RESTORE_NONE {
			subX := 0
			subY := 0

			if plane > 0 && sh.ColorConfig.SubsamplingX {
				subX = 1
			}

			if plane > 0 && sh.ColorConfig.SubsamplingY {
				subY = 1
			}

			unitSize := state.LoopRestorationSize[plane]
			unitRows := util.CountUnitsInFrame(unitSize, util.Round2(uh.FrameHeight, subY))
			unitCols := util.CountUnitsInFrame(unitSize, util.Round2(uh.UpscaledWidth, subX))
			unitRowStart := (r*(MI_SIZE>>subY) + unitSize - 1) / unitSize
			unitRowEnd := util.Min(unitRows, ((r+h)*(MI_SIZE>>subY)+unitSize-1)/unitSize)

			var numerator int
			var denominator int
			if uh.UseSuperRes {
				numerator = (MI_SIZE >> subX) * uh.SuperResDenom
				denominator = unitSize * shared.SUPERRES_NUM
			} else {
				numerator = MI_SIZE >> subX
				denominator = unitSize
			}
			unitColStart := (c*numerator + denominator - 1) / denominator
			unitColEnd := util.Min(unitCols, ((c+w)*numerator+denominator-1)/denominator)

			for unitRow := unitRowStart; unitRow < unitRowEnd; unitRow++ {
				for unitCol := unitColStart; unitCol < unitColEnd; unitCol++ {
					t.readLrUnit(plane, unitRow, unitCol, state, b, uh)
				}
			}
		}
	}
}

// read_lr_unit(plane, unitRow, unitCol)
func (t *TileGroup) readLrUnit(plane int, unitRow int, unitCol int, state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) {
	var restorationType int
	if uh.FrameRestorationType[plane] == shared.RESTORE_WIENER {
		useWiener := symbol.ReadSymbolAt(63, state.TileUseWienerCdf, state, b, uh)
		restorationType = shared.RESTORE_NONE
		if useWiener == 1 {
			restorationType = shared.RESTORE_WIENER
		}
	} else if uh.FrameRestorationType[plane] == shared.RESTORE_SGRPROJ {
		useSgrproj := symbol.ReadSymbolAt(64, state.TileUseSgrprojCdf, state, b, uh)
		restorationType = shared.RESTORE_NONE
		if useSgrproj == 1 {
			restorationType = shared.RESTORE_SGRPROJ
		}
	} else {
		restorationType = symbol.ReadSymbolAt(65, state.TileRestorationTypeCdf, state, b, uh)
	}

	t.LrType[plane][unitRow][unitCol] = restorationType

	if restorationType == shared.RESTORE_WIENER {
		for pass := 0; pass < 2; pass++ {
			var firstCoeff int
			if plane > 0 {
				firstCoeff = 1
				t.LrWiener[plane][unitRow][unitCol][pass][0] = 0
			} else {
				firstCoeff = 0
			}
			for j := firstCoeff; j < 3; j++ {
				min := Wiener_Taps_Min[j]
				max := Wiener_Taps_Max[j]
				k := Wiener_Taps_K[j]
				v := t.decodeSignedSubexpWithRefBool(min, max+1, k, t.RefLrWiener[plane][pass][j], state, b, uh)
				t.LrWiener[plane][unitRow][unitCol][pass][j] = v
				t.RefLrWiener[plane][pass][j] = v
			}
		}
	} else if restorationType == shared.RESTORE_SGRPROJ {
		lrSgrSet := literal.LAt(66, SGRPROJ_PARAMS_BITS, state, b, uh)
		t.LrSgrSet[plane][unitRow][unitCol] = lrSgrSet

		for i := 0; i < 2; i++ {
			radius := SGR_PARAMS[lrSgrSet][i*2]
			min := Sgrproj_Xqd_Min[i]
			max := Sgrproj_Xqd_Max[i]

			var v int
			if radius != 0 {
				v = t.decodeSignedSubexpWithRefBool(min, max+1, SGRPROJ_PRJ_SUBEXP_K, t.RefSgrXqd[plane][i], state, b, uh)
			} else {
				v = 0
				if i == 1 {
					v = util.Clip3(min, max, (1<<SGRPROJ_BITS)-t.RefSgrXqd[plane][0])
				}
			}

			t.LrSgrXqd[plane][unitRow][unitCol][i] = v
			t.RefSgrXqd[plane][i] = v
		}
	}

}

func (t *TileGroup) decodeSignedSubexpWithRefBool(low int, high int, k int, r int, state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) int {
	x := t.decodeUnsignedSubexpWithRefBool(high-low, k, r-low, state, b, uh)
	return x + low

}

func (t *TileGroup) decodeUnsignedSubexpWithRefBool(mx int, k int, r int, state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) int {
	v := t.decodeSubexpBool(mx, k, state, b, uh)
	if (r << 1) <= mx {
		return util.InverseRecenter(r, v)
	} else {
		return mx - 1 - util.InverseRecenter(mx-1-r, v)
	}
}

func (t *TileGroup) decodeSubexpBool(numSyms int, k int, state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) int {
	i := 0
	mk := 0
	for {
		b2 := k
		if i > 0 {
			b2 = k + i - 1
		}

		a := 1 << b2

		if numSyms <= mk+3*a {
			subexpUnifBools := literal.NSAt(67, numSyms-mk, state, b, uh)
			return subexpUnifBools + mk
		} else {
			subexpMoreBools := literal.LAt(68, 1, state, b, uh) != 0
			if subexpMoreBools {
				i++
				mk += a
			} else {
				subexpBools := literal.LAt(69, b2, state, b, uh)
				return subexpBools + mk
			}
		}
	}
}

var Sgrproj_Xqd_Mid = []int{-32, 31}
var Sgrproj_Xqd_Min = []int{-96, -32}
var Sgrproj_Xqd_Max = []int{31, 95}
var Wiener_Taps_Mid = []int{3, -7, 15}
var Wiener_Taps_Min = []int{-5, -23, -17}
var Wiener_Taps_Max = []int{10, 8, 46}
var Wiener_Taps_K = []int{1, 2, 3}

var SGR_PARAMS = [][]int{
	{2, 12, 1, 4}, {2, 15, 1, 6}, {2, 18, 1, 8}, {2, 21, 1, 9},
	{2, 24, 1, 10}, {2, 29, 1, 11}, {2, 36, 1, 12}, {2, 45, 1, 13},
	{2, 56, 1, 14}, {2, 68, 1, 15}, {0, 0, 1, 5}, {0, 0, 1, 8},
	{0, 0, 1, 11}, {0, 0, 1, 14}, {2, 30, 0, 0}, {2, 75, 0, 0},
}
