package vpc20

import (
	"testing"

	"github.com/m4tthewde/gov1/internal/verife2e"
	kit "github.com/m4tthewde/gov1/internal/verifkit"
	"github.com/m4tthewde/gov1/internal/verifrand"
)

func TestVerifC20(t *testing.T) {
	rich := func(r *verife2e.Result) bool { return len(r.Dec.Headers) >= 4 }
	long := func(c *verifrand.Case, r *verife2e.Result) bool { return len(c.Headers) >= 3 }
	labels := []string{"frametype", "ref", "h:"}
	kit.Run(t, kit.Check{ID: "C20", Rule: "a stream of at least four frame headers; random tiles: at least three decoded frame headers",
		Assume: []string{"libaom 3.8 decodes the streams correctly", "the streams are those libaom produces from the generated pictures and settings, and those with random headers and tile data that libaom accepts"},
		Subs: []kit.Sub{
			verife2e.InterSub("hidden-and-shown", 50, func(g *kit.G, c *verife2e.Case) {
				c.N = g.Int(6, 16)
				c.W, c.H = g.Int(8, 70), g.Int(8, 70)
				c.Set("g_lag_in_frames", g.Pick(c.N, 19, 25))
				c.Content.Noise = g.Int(0, 12)
			}, rich, labels...),
			verife2e.InterSub("flags", 80, func(g *kit.G, c *verife2e.Case) {
				c.N = g.Int(4, 10)
				c.W, c.H = g.Int(8, 70), g.Int(8, 70)
				c.Set("g_lag_in_frames", 0)
				c.RandomFlags(g)
			}, rich, labels...),
			verifrand.Sub("random-tiles", 1000, func(g *kit.G, c *verifrand.Case) {
				c.Frames = g.Int(3, 10)
				c.Bytes = 2000
				c.Show = 3
			}, long, labels...),
			verifrand.Sub("random-tiles-small", 1500, func(g *kit.G, c *verifrand.Case) { // long histories
				c.W, c.H = g.Int(8, 24), g.Int(8, 24)
				c.Frames = g.Int(6, 20)
				c.MaxQ = g.Pick(20, 60)
				c.Show = 3
			}, long, labels...),
			verifrand.Directed("directed", 1800, nil, func(g *kit.G, c *verifrand.Case) {
				c.W, c.H = g.Int(8, 40), g.Int(8, 40)
				c.Frames = g.Int(4, 14)
				c.Show = 3
			}, long, labels...),
			// key frames shown later, which replace all others with all that is kept of them
			verifrand.Directed("directed-shown-keys", 800, map[string]verifrand.Fav{
				"readSegmentId.SegmentId":       {Symbol: -2, Of8: 6},
				"interSegmentId.segIdPredicted": {Symbol: -2, Of8: 6},
			}, func(g *kit.G, c *verifrand.Case) {
				c.Seq.Still, c.Seq.Reduced = false, false
				c.W, c.H = g.Int(8, 50), g.Int(8, 50)
				c.SameSize = g.Chance(1, 6)
				c.Two = g.Chance(5, 6)
				c.Frames = g.Int(5, 12)
				c.Show = 2
				c.Hidden = g.Int(2, 5)
				c.Opt.Segments = g.Chance(3, 4)
				c.Opt.Temporal = g.Chance(1, 4)
			}, func(c *verifrand.Case, r *verife2e.Result) bool {
				for _, h := range r.Dec.Headers {
					if h.ShowExistingFrame && h.FrameType == 0 {
						return true
					}
				}
				return false
			}, labels...),
		}})
}
