package vpc34

import (
	"testing"

	aom "github.com/m4tthewde/gov1/internal/verifaom"
	"github.com/m4tthewde/gov1/internal/verifdec"
	"github.com/m4tthewde/gov1/internal/verife2e"
	kit "github.com/m4tthewde/gov1/internal/verifkit"
	"github.com/m4tthewde/gov1/internal/verifrand"
)

// feed decodes one OBU, from a buffer that must not change.
func feed(g *kit.G, d *verifdec.Dec, unit int, o aom.OBU) {
	d.Unit = unit
	g.Guard("decode", func() { d.OBU(o.Bytes(true)) })
}

func stream(g *kit.G) *verife2e.Result {
	if g.Chance(1, 12) {
		c := &verife2e.Case{N: g.Int(2, 4)}
		c.Format(g)
		c.Size(g, 70, 70)
		c.Picture(g)
		c.Motion(g)
		c.Inter(g)
		return c.Encode(g)
	}
	c := verifrand.Draw(g)
	c.W, c.H = g.Int(8, 60), g.Int(8, 60)
	c.Frames = g.Int(1, 5)
	c.Groups = g.Bool()
	return c.Reference(g)
}

func TestVerifC34(t *testing.T) {
	kit.Run(t, kit.Check{ID: "C34", Rule: "two streams whose OBUs were interleaved, each with a picture",
		Assume: []string{"libaom 3.8 decodes the streams correctly"},
		Subs: []kit.Sub{{Name: "interleaved", Quick: 1500, Thorough: 100000, Case: func(g *kit.G) {
			n := g.Int(2, 3)
			var rs []*verife2e.Result
			for i := 0; i < n; i++ {
				rs = append(rs, stream(g))
			}
			if g.Chance(1, 3) { // the same stream twice
				rs = append(rs, rs[0])
				n++
			}
			decs := make([]*verifdec.Dec, n)
			type at struct {
				unit int
				o    aom.OBU
			}
			queue := make([][]at, n)
			left := 0
			for i, r := range rs {
				decs[i] = verifdec.New()
				for u, tu := range r.OBUs {
					for _, o := range tu {
						queue[i] = append(queue[i], at{u, o})
						left++
					}
				}
			}
			run := g.Int(1, 6)
			for left > 0 {
				i := g.Int(0, n-1)
				for len(queue[i]) == 0 {
					i = (i + 1) % n
				}
				for k := g.Int(1, run); k > 0 && len(queue[i]) > 0; k-- {
					feed(g, decs[i], queue[i][0].unit, queue[i][0].o)
					queue[i] = queue[i][1:]
					left--
				}
			}
			for i, r := range rs {
				verife2e.Compare(g, decs[i].Pics, r.Pics)
			}
			g.NonTrivial()
		}}}})
}
