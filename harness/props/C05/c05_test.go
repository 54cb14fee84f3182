package vpc05

import (
	"testing"

	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/tileinfo"
	"github.com/m4tthewde/gov1/internal/verifhdr"
	kit "github.com/m4tthewde/gov1/internal/verifkit"
)

func TestVerifC05(t *testing.T) {
	frame := func(g *kit.G) {
		s, r, opt := verifhdr.Draw(g)
		f, o := verifhdr.One(g, s, r, opt)
		if f.ShowExisting {
			g.Discard()
		}
		f.Tiles(g, o)
		f.Pos(g, o)
		if f.Tile.N() > 1 {
			g.NonTrivial()
		}
	}
	layout := func(g *kit.G) {
		sb128, few := g.Bool(), g.Chance(1, 6)
		cols, rows := 2*g.Sized(1, 8192), 2*g.Sized(1, 8192)
		if g.Chance(1, 2) {
			cols, rows = 2*g.Int(1, 400), 2*g.Int(1, 400)
		}
		w := &kit.W{}
		pad := g.Int(0, 7)
		w.Put(pad, 0)
		tl := verifhdr.GenTiles(g, w, cols, rows, sb128, few, 1)
		end := w.N
		g.Descf("%d x %d units, 128x128 superblocks %v: columns %v rows %v", cols, rows, sb128, tl.Cols, tl.Rows)
		if tl.N() > 1 {
			g.NonTrivial()
		}
		st := &state.State{MiCols: cols, MiRows: rows, TileColsLog2: 5, TileRowsLog2: 5}
		g.Guard("tile_info", func() {
			b := bitstream.NewBitStream(append(append([]byte{}, w.B...), 0, 0, 0, 0))
			b.Position = pad
			ti := tileinfo.NewTileInfo(sequenceheader.SequenceHeader{Use128x128SuperBlock: sb128}, st, &b)
			tl.Check(g, st, ti.ContextUpdateTileId)
			g.EqInt("bits read", b.Position, end)
		})
	}
	kit.Run(t, kit.Check{ID: "C05", Rule: "the frame has more than one tile",
		Subs: []kit.Sub{{Name: "frame-header", Quick: 40000, Thorough: 2000000, Case: frame}, {Name: "layout", Quick: 60000, Thorough: 3000000, Case: layout}}})
}
