package vpc08

import (
	"testing"

	"github.com/m4tthewde/gov1/internal/verifhdr"
	kit "github.com/m4tthewde/gov1/internal/verifkit"
	"github.com/m4tthewde/gov1/internal/verifrand"
)

func TestVerifC08(t *testing.T) {
	frame := func(g *kit.G) {
		s, r, opt := verifhdr.Draw(g)
		f, o := verifhdr.One(g, s, r, opt)
		if f.ShowExisting {
			g.Discard()
		}
		f.Size(g, o)
		f.Pos(g, o)
		if f.SuperRes || f.Override || f.RW != f.UpW {
			g.NonTrivial()
		}
	}
	kit.Run(t, kit.Check{ID: "C08", Rule: "streams: a frame after the first one has it; superres, a frame size override, or a render size is coded",
		Subs: []kit.Sub{{Name: "frame-header", Quick: 100000, Thorough: 2000000, Case: frame},
			verifrand.Headers("streams", 1200, nil, func(g *kit.G, f *verifhdr.Frame, o *verifhdr.Got, c *verifrand.Case) { f.Size(g, o) },
				func(f *verifhdr.Frame) bool { return f.SuperRes || f.Override || f.RW != f.UpW })}})
}
