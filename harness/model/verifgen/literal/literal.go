package literal

import (
	"github.com/m4tthewde/gov1/internal/verifgen/bitstream"
	"github.com/m4tthewde/gov1/internal/verifgen/state"
	"github.com/m4tthewde/gov1/internal/verifgen/symbol"
	"github.com/m4tthewde/gov1/internal/verifgen/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/verifgen/util"
)

func LAt(site int, n int, state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) int {
	x := 0
	for i := 0; i < n; i++ {
		x = 2*x + readBool(site, state, b, uh)
	}

	return x
}

// NS( n )
func NSAt(site int, n int, state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) int {
	w := util.FloorLog2(n) + 1
	m := (1 << w) - n
	v := LAt(site, w-1, state, b, uh)
	if v < m {
		return v
	}
	extraBit := LAt(site, 1, state, b, uh)
	return (v << 1) - m + extraBit
}

func readBool(site int, state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) int {
	cdf := []int{
		1 << 14,
		1 << 15,
		0,
	}

	return symbol.ReadSymbolAt(site, cdf, state, b, uh)
}
