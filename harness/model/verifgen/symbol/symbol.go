package symbol

import (
	"github.com/m4tthewde/gov1/internal/verifgen/bitstream"
	"github.com/m4tthewde/gov1/internal/verifgen/state"
	"github.com/m4tthewde/gov1/internal/verifgen/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/verifgen/util"
)

const EC_PROB_SHIFT = 6
const EC_MIN_PROB = 4

// read_symbol()
func ReadSymbolAt(site int, cdf []int, state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) int {
	N := len(cdf) - 1 // precondition
	if N < 1 || cdf[N-1] != 1<<15 {
		panic("Violated precondition")
	}

	symbol := -1
	if Choose != nil {
		symbol = Choose(site, cdf)
		enc.Put(symbol, cdf)
	} else {
	cur := state.SymbolRange

	var prev int
	var f int
	for {
		symbol++
		prev = cur
		f = (1 << 15) - cdf[symbol]
		cur = ((state.SymbolRange >> 8) * (f >> EC_PROB_SHIFT)) >> (7 - EC_PROB_SHIFT)
		cur += EC_MIN_PROB * (N - symbol - 1)

		if state.SymbolValue >= cur {
			break
		}
	}

	state.SymbolRange = prev - cur
	state.SymbolValue = state.SymbolValue - cur

	bits := 15 - util.FloorLog2(state.SymbolRange)
	state.SymbolRange = state.SymbolRange << bits
	numBits := util.Min(bits, util.Max(0, state.SymbolMaxBits))
	newData := b.F(numBits)
	paddedData := newData << (bits - numBits)
	state.SymbolValue = paddedData ^ (((state.SymbolValue + 1) << bits) - 1)
	state.SymbolMaxBits = state.SymbolMaxBits - bits

	}

	if !uh.DisableCdfUpdate {
		rate := 3 + util.Int(cdf[N] > 15) + util.Int(cdf[N] > 31) + util.Min(util.FloorLog2(N), 2)
		tmp := 0
		for i := 0; i < N-1; i++ {
			if i == symbol {
				tmp = 1 << 15
			}
			if tmp < cdf[i] {
				cdf[i] -= ((cdf[i] - tmp) >> rate)
			} else {
				cdf[i] += ((tmp - cdf[i]) >> rate)
			}

		}
		cdf[N] += util.Int(cdf[N] < 32)
	}

	return symbol
}
