package vpc21

import (
	"testing"

	"github.com/m4tthewde/gov1/internal/verife2e"
	"github.com/m4tthewde/gov1/internal/verifhdr"
	kit "github.com/m4tthewde/gov1/internal/verifkit"
	"github.com/m4tthewde/gov1/internal/verifrand"
)

func TestVerifC21(t *testing.T) {
	big := func(r *verife2e.Result) bool {
		n := 0
		for _, u := range r.TUs {
			n += len(u)
		}
		return n >= 200
	}
	kit.Run(t, kit.Check{ID: "C21", Rule: "the frame has at least 200 bytes, so that coefficients were scaled; random tiles: a frame with a base index above 0 or segmentation",
		Assume: []string{"libaom 3.8 decodes the streams correctly", "the streams are those libaom produces from the generated pictures and settings, and those with random headers and tile data that libaom accepts"},
		Subs: append(tables, []kit.Sub{
			verife2e.IntraSub("q", 150, func(g *kit.G, c *verife2e.Case) {
				c.Busy(g)
				c.Q(g)
			}, big),
			verife2e.IntraSub("matrices", 150, func(g *kit.G, c *verife2e.Case) {
				c.Busy(g)
				c.Set("rc_min_quantizer", g.Int(1, 30))
				lo := g.Int(0, 15)
				c.Set("-enable-qm", 1)
				c.Set("-qm-min", lo)
				c.Set("-qm-max", lo)
			}, big, "txtype", "txsize"),
			verife2e.IntraSub("segments-and-deltas", 150, func(g *kit.G, c *verife2e.Case) {
				c.Size(g, 200, 140)
				c.Content.Kind = 8
				switch g.Int(0, 3) {
				case 0:
					c.Set("-aq-mode", g.Int(1, 3))
				case 1:
					c.Set("-deltaq-mode", g.Int(1, 2))
					c.Set("-delta-lf-mode", g.Int(0, 1))
				case 2:
					c.Set("-enable-chroma-deltaq", 1)
				default:
					c.Set("-enable-qm", 1)
					c.Set("-aq-mode", g.Int(1, 3))
				}
			}, big, "seg"),
			verifrand.Sub("random-tiles", 1200, func(g *kit.G, c *verifrand.Case) {
				c.Key = g.Chance(2, 3)
				c.MaxQ = g.Pick(10, 40, 120, 255)
			}, verifrand.Has(func(h *verifhdr.Frame) bool { return h.Q > 0 || h.Seg }), "seg"),
			verifrand.Directed("directed", 2400, map[string]verifrand.Fav{
				"coeffs.coeffBase":          {Symbol: -1, Of8: 2},
				"readCoeffBrSymbol":         {Symbol: -1, Of8: 3},
				"allZeroSymbol":             {Symbol: 0, Of8: 6},
				"readSkip.Skip":             {Symbol: 0, Of8: 6},
				"txDepthSymbol":             {Symbol: -2, Of8: 5},
				"readSegmentId.SegmentId":   {Symbol: -2, Of8: 6},
				"readDeltaQIndex.deltaQAbs": {Symbol: -2, Of8: 4},
				"partitionElement":          {Symbol: -2, Of8: 4},
			}, func(g *kit.G, c *verifrand.Case) {
				c.Key = g.Chance(2, 3)
				c.MaxQ = g.Pick(10, 40, 120, 255)
			}, verifrand.Has(func(h *verifhdr.Frame) bool { return h.Q > 0 || h.Seg }), "seg"),
		}...)})
}

// tables are the searches over the tables, if those can be found by name.
var tables []kit.Sub
