package vpc07

import (
	"testing"

	"github.com/m4tthewde/gov1/internal/verifhdr"
	kit "github.com/m4tthewde/gov1/internal/verifkit"
	"github.com/m4tthewde/gov1/internal/verifrand"
)

func TestVerifC07(t *testing.T) {
	frame := func(g *kit.G) {
		s, r, opt := verifhdr.Draw(g)
		f, o := verifhdr.One(g, s, r, opt)
		f.General(g, s, o)
		f.Pos(g, o)
		if f.Type != 0 || f.ShowExisting {
			g.NonTrivial()
		}
	}
	kit.Run(t, kit.Check{ID: "C07", Rule: "streams: a frame after the first one has it; the frame is not shown as an existing one, or has a non-default field",
		Subs: []kit.Sub{{Name: "frame-header", Quick: 100000, Thorough: 2000000, Case: frame},
			verifrand.Headers("streams", 1200, nil, func(g *kit.G, f *verifhdr.Frame, o *verifhdr.Got, c *verifrand.Case) { f.General(g, c.Seq, o) },
				func(f *verifhdr.Frame) bool { return f.Type != 0 })}})
}
