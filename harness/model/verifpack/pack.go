// Package verifpack packs streams in the length-delimited format and runs them through the parser.
package verifpack

import (
	"go.uber.org/zap"

	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/logger"
	"github.com/m4tthewde/gov1/internal/obu"
	"github.com/m4tthewde/gov1/internal/parser"
	aom "github.com/m4tthewde/gov1/internal/verifaom"
	"github.com/m4tthewde/gov1/internal/verife2e"
	kit "github.com/m4tthewde/gov1/internal/verifkit"
)

// leb writes a size, at times with more bytes than needed.
func leb(g *kit.G, n int) []byte {
	l := aom.Leb128(n)
	for g.Chance(1, 5) && len(l) < 8 {
		l[len(l)-1] |= 0x80
		l = append(l, 0)
	}
	return l
}

// Redundant inserts copies of the frame headers between tile groups.
func Redundant(g *kit.G, tus [][]aom.OBU, copies *int) [][]aom.OBU {
	var out [][]aom.OBU
	for _, tu := range tus {
		var u []aom.OBU
		var h *aom.OBU
		for i, o := range tu {
			u = append(u, o)
			switch {
			case o.Type == 3:
				h = &aom.OBU{Type: 7, Ext: o.Ext, Payload: o.Payload}
			case o.Type != 4 && o.Type != 5 && o.Type != 15:
				h = nil
			}
			if h != nil && i+1 < len(tu) && tu[i+1].Type == 4 {
				for g.Chance(1, 3) {
					u = append(u, *h)
					*copies++
				}
			}
			if g.Chance(1, 12) {
				u = append(u, aom.OBU{Type: g.Pick(5, 15), Ext: -1, Payload: append(append([]byte{byte(g.Int(1, 40))}, g.Bytes(g.Int(0, 20))...), 0x80)})
			}
		}
		out = append(out, u)
	}
	return out
}

// Merge drops temporal delimiters: every frame is complete before the next one, so nothing is left for a delimiter to reset.
func Merge(g *kit.G, tus [][]aom.OBU) [][]aom.OBU {
	var out [][]aom.OBU
	for i, tu := range tus {
		if i > 0 && len(tu) > 1 && tu[0].Type == 2 && g.Bool() {
			out[len(out)-1] = append(append([]aom.OBU{}, out[len(out)-1]...), tu[1:]...)
			continue
		}
		out = append(out, tu)
	}
	return out
}

// Pack writes the length-delimited format.
func Pack(g *kit.G, tus [][]aom.OBU) ([]byte, []aom.OBU) {
	var out []byte
	var all []aom.OBU
	for _, tu := range tus {
		var units, fu []byte
		end := func() {
			if len(fu) > 0 {
				units = append(append(units, leb(g, len(fu))...), fu...)
				fu = nil
			}
		}
		for i, o := range tu {
			b := o.Bytes(g.Chance(1, 3))
			fu = append(append(fu, leb(g, len(b))...), b...)
			all = append(all, o)
			if i+1 < len(tu) && (o.Type == 6 || o.Type == 3 || o.Type == 4) && tu[i+1].Type != 4 && tu[i+1].Type != 7 {
				end()
			}
		}
		end()
		out = append(append(out, leb(g, len(units))...), units...)
	}
	return out, all
}

// Check decodes the packed stream and compares.
func Check(g *kit.G, want []*aom.Pic, tus [][]aom.OBU) {
	data, all := Pack(g, tus)
	keep := string(data)
	b := bitstream.NewBitStream(data)
	var got []obu.Obu
	g.Guard("parse", func() {
		p := parser.NewParser(&b)
		logger.Logger = zap.NewNop()
		got = p.VerifDecode()
	})
	g.EqInt("final position in bits", b.Position, 8*len(data))
	g.EqInt("OBUs parsed", len(got), len(all))
	var pics []*aom.Pic
	for i, o := range got {
		w := all[i]
		g.EqInt("OBU type", o.Header.Type, w.Type)
		g.Eq("OBU extension", o.Header.ExtensionFlag, w.Ext >= 0)
		if w.Ext >= 0 {
			g.EqInt("temporal id", o.Header.ExtensionHeader.TemporalID, w.Ext>>5)
			g.EqInt("spatial id", o.Header.ExtensionHeader.SpatialID, w.Ext>>3&3)
		}
		g.EqInt("OBU size", o.Size, len(w.Payload))
		if t := o.TileGroup; t.OutY != nil {
			p := &aom.Pic{W: len(t.OutY[0]), H: len(t.OutY), Planes: [3][][]int{t.OutY, t.OutU, t.OutV}}
			if k := len(pics); k < len(want) {
				p.Unit = want[k].Unit
			}
			pics = append(pics, p)
		}
	}
	verife2e.Compare(g, pics, want)
	if string(data) != keep {
		g.Failf("the decoder changed its input")
	}
}
