package vpc09

import (
	"testing"

	"github.com/m4tthewde/gov1/internal/verifhdr"
	kit "github.com/m4tthewde/gov1/internal/verifkit"
	"github.com/m4tthewde/gov1/internal/verifrand"
)

func TestVerifC09(t *testing.T) {
	frame := func(g *kit.G) {
		s, r, opt := verifhdr.Draw(g)
		r0 := *r
		f, o := verifhdr.One(g, s, r, opt)
		if f.ShowExisting {
			g.Discard()
		}
		f.Quant(g, s, &r0, o)
		f.Pos(g, o)
		if f.Seg || f.DYDc != 0 || f.DUAc != 0 {
			g.NonTrivial()
		}
	}
	kit.Run(t, kit.Check{ID: "C09", Rule: "streams: a frame after the first one has it; segmentation is on or a delta is not zero",
		Subs: []kit.Sub{{Name: "frame-header", Quick: 100000, Thorough: 2000000, Case: frame},
			verifrand.Headers("streams", 1200, nil, func(g *kit.G, f *verifhdr.Frame, o *verifhdr.Got, c *verifrand.Case) { f.Quant(g, c.Seq, nil, o) },
				func(f *verifhdr.Frame) bool { return f.Seg || f.DYDc != 0 || f.DUAc != 0 })}})
}
