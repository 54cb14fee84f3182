package state

import "github.com/m4tthewde/gov1/internal/verifgen/shared"

func grid[T any](rows int, cols int) [][]T {
	g := make([][]T, rows)
	for i := range g {
		g[i] = make([]T, cols)
	}
	return g
}

// AllocateFrame makes room for a new frame of MiRows by MiCols 4x4 units.
// Blocks may reach beyond the frame by less than the largest block.
func (s *State) AllocateFrame(upscaledWidth int) {
	rows := s.MiRows + 32
	cols := s.MiCols + 32

	s.MiSizes = grid[int](rows, cols)
	s.DeltaLFs = grid[[shared.FRAME_LF_COUNT]int](rows, cols)
	s.RefFrames = grid[[2]int](rows, cols)
	s.MfRefFrames = grid[int](rows, cols)
	s.MfMvs = grid[[2]int](rows, cols)

	b := &Blocks{
		Skips:         grid[int](rows, cols),
		SkipModes:     grid[int](rows, cols),
		SegmentIds:    grid[int](rows, cols),
		YModes:        grid[int](rows, cols),
		UVModes:       grid[int](rows, cols),
		InterpFilters: grid[[2]int](rows, cols),
		IsInters:      grid[int](rows, cols),
		Mvs:           grid[[2][2]int](rows, cols),
		TxSizes:       grid[int](rows, cols),
		InterTxSizes:  grid[int](rows, cols),
		TxTypes:       grid[int](rows, cols),
		CompGroupIdxs: grid[int](rows, cols),
		CompoundIdxs:  grid[int](rows, cols),
	}
	for i := range b.PaletteSizes {
		b.PaletteSizes[i] = grid[int](rows, cols)
		b.PaletteColors[i] = grid[[]int](rows, cols)
	}

	// restoration units are at least 32 samples wide
	unitRows := rows / 8
	unitCols := upscaledWidth/32 + 2
	for plane := range s.CurrFrame {
		s.CurrFrame[plane] = grid[int](rows*4, cols*4)
		b.LoopFilterTxSizes[plane] = grid[int](rows, cols)
		b.LrType[plane] = grid[int](unitRows, unitCols)
		b.LrWiener[plane] = grid[[2][3]int](unitRows, unitCols)
		b.LrSgrSet[plane] = grid[int](unitRows, unitCols)
		b.LrSgrXqd[plane] = grid[[2]int](unitRows, unitCols)
	}
	s.Blocks = b
}
