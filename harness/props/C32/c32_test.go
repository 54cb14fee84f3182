package vpc32

import (
	"testing"

	"github.com/m4tthewde/gov1/internal/verife2e"
	"github.com/m4tthewde/gov1/internal/verifhdr"
	kit "github.com/m4tthewde/gov1/internal/verifkit"
	"github.com/m4tthewde/gov1/internal/verifrand"
)

func TestVerifC32(t *testing.T) {
	odd := func(c *verifrand.Case, r *verife2e.Result) bool {
		for _, p := range r.Pics {
			if p.W%8 != 0 || p.H%8 != 0 {
				return true
			}
		}
		return false
	}
	kit.Run(t, kit.Check{ID: "C32", Rule: "a picture whose width or height is not a multiple of 8; existing frames: a stream with a shown existing frame",
		Assume: []string{"libaom 3.8 decodes the streams correctly", "frames to which film grain is applied are a known finding and are not generated"},
		Subs: []kit.Sub{
			verifrand.Sub("sizes", 700, func(g *kit.G, c *verifrand.Case) {
				c.Seq.Film = g.Bool()
				c.Opt.NoGrain = true
				c.W, c.H = g.Int(1, 70), g.Int(1, 70)
				c.Frames = g.Int(1, 3)
				c.SameSize = g.Bool()
			}, odd, "h:"),
			verifrand.Sub("existing", 500, func(g *kit.G, c *verifrand.Case) {
				c.Seq.Film = g.Bool()
				c.Opt.NoGrain = true
				c.W, c.H = g.Int(1, 40), g.Int(1, 40)
				c.Frames = g.Int(3, 9)
				c.SameSize = g.Chance(1, 3)
				c.Show = 2
			}, func(c *verifrand.Case, r *verife2e.Result) bool {
				return len(r.Pics) > 0 && len(r.Pics) != len(c.Headers)
			}, "h:"),
			verifrand.Sub("superres", 300, func(g *kit.G, c *verifrand.Case) {
				c.Seq.Film = g.Bool()
				c.Seq.SuperRes = true
				c.Opt.NoGrain = true
				c.W = g.Int(60, 130)
				c.Frames = g.Int(1, 3)
			}, odd, "h:"),
			verifrand.Sub("existing-superres", 700, func(g *kit.G, c *verifrand.Case) {
				c.Seq.Film = g.Bool()
				c.Seq.SuperRes = true
				c.Opt.NoGrain = true
				c.W, c.H = g.Int(16, 130), g.Int(1, 40)
				c.Frames = g.Int(3, 7)
				c.SameSize = g.Bool()
				c.MaxQ = g.Pick(60, 255)
				c.Show = 2
			}, func(c *verifrand.Case, r *verife2e.Result) bool {
				return len(r.Pics) > 0 && len(r.Pics) != len(c.Headers) && verifrand.Has(func(h *verifhdr.Frame) bool { return h.SuperRes })(c, r)
			}, "h:"),
		},
		Known: []kit.Known{{Key: "film-grain", Probe: grain}}})
}

// grain: a frame to which film grain is applied makes the decoder panic.
func grain(g *kit.G) (fails bool) {
	c := &verife2e.Case{N: 1, W: 64, H: 64, Depth: 8, SX: true, SY: true}
	c.Picture(g)
	c.Set("g_lag_in_frames", 0)
	c.Set("-film-grain-test", 1)
	c.Set("-cpu-used", 5)
	r := c.Encode(g)
	defer func() { fails = fails || recover() != nil }()
	r.Decode(g)
	verife2e.Compare(g, r.Dec.Pics, r.Pics)
	return false
}
