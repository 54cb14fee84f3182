package vpc16

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/m4tthewde/gov1/internal/verifdec"
	"github.com/m4tthewde/gov1/internal/verifhdr"
	kit "github.com/m4tthewde/gov1/internal/verifkit"
	"github.com/m4tthewde/gov1/internal/verifrand"
)

// saved finds the tables that were saved with the reference frames: by slot and name.
func saved(st interface{}) map[string]reflect.Value {
	out := map[string]reflect.Value{}
	v := reflect.ValueOf(st).Elem()
	for i := 0; i < v.NumField(); i++ {
		a := v.Field(i)
		if (a.Kind() != reflect.Array && a.Kind() != reflect.Slice) || a.Len() != 8 || a.Type().Elem().Kind() != reflect.Struct {
			continue
		}
		for k := 0; k < a.Len(); k++ {
			m := a.Index(k)
			for j := 0; j < m.NumField(); j++ {
				if n := m.Type().Field(j).Name; strings.HasSuffix(n, "Cdf") {
					out[fmt.Sprintf("%s of slot %d", n, k)] = m.Field(j)
				}
			}
		}
	}
	return out
}

func list(v reflect.Value) bool { return v.Kind() == reflect.Array || v.Kind() == reflect.Slice }

// same compares tables of the same shape, without the counters at the end.
func same(a, b reflect.Value, path string) (string, int) {
	if !list(a) || !list(b) || a.Len() != b.Len() || a.Len() == 0 {
		return "", 0
	}
	n := 0
	if list(a.Index(0)) {
		for i := 0; i < a.Len(); i++ {
			bad, k := same(a.Index(i), b.Index(i), fmt.Sprintf("%s[%d]", path, i))
			n += k
			if bad != "" {
				return bad, n
			}
		}
		return "", n
	}
	if a.Index(0).Kind() != reflect.Int || b.Index(0).Kind() != reflect.Int {
		return "", 0
	}
	for i := 0; i < a.Len()-1; i++ {
		if x, y := a.Index(i).Int(), b.Index(i).Int(); x != y {
			return fmt.Sprintf("%s[%d] = %d, the model has %d", path, i, x, y), n
		}
	}
	return "", 1
}

// savedTables compares the tables saved with the reference frames with those of
// the model after every frame; the first frames rarely adapt, and show the default tables.
func savedTables(g *kit.G) {
	c := verifrand.Draw(g)
	c.Directed = true
	c.W, c.H = g.Int(8, 80), g.Int(8, 80)
	c.Frames = g.Int(1, 5)
	switch g.Int(0, 9) {
	case 0, 1, 2: // palettes are rare otherwise
		c.Seq.ForceSCT = 1
		c.Key = g.Bool()
		c.Favor = map[string]verifrand.Fav{
			"paletteModeInfo.hasPaletteY":         {Symbol: 1, Of8: 6},
			"paletteModeInfo.hasPaletteUv":        {Symbol: 1, Of8: 6},
			"paletteModeInfo.paletteSizeYMinus2":  {Symbol: -2, Of8: 7},
			"paletteModeInfo.paletteSizeUvMinus2": {Symbol: -2, Of8: 7},
			"paletteTokens.paletteColorIdxY":      {Symbol: -2, Of8: 4},
			"paletteTokens.paletteColorIdxUv":     {Symbol: -2, Of8: 4},
			"intraFrameYModeSymbol":               {Symbol: 0, Of8: 7},
			"intraFrameModeInfo.uvMode":           {Symbol: 0, Of8: 6},
		}
	case 3:
		c.Copies(g)
		c.Seq.SB128 = false
	case 4, 5:
		c.Frames = g.Int(3, 5)
		c.Favor = map[string]verifrand.Fav{
			"readIsInter.IsInter":       {Symbol: 1, Of8: 7},
			"skipModeSymbol":            {Symbol: 0, Of8: 7},
			"compModeSymbol":            {Symbol: 0, Of8: 6},
			"partitionElement":          {Symbol: 0, Of8: 4},
			"readMotionMode.MotionMode": {Symbol: -2, Of8: 5},
		}
	}
	c.Reference(g) // discards what libaom refuses
	m := verifrand.NewModel()
	d := verifdec.New()
	frames := 0
	for _, tu := range c.TUs {
		for _, o := range tu {
			if !m.OBU(o) {
				g.Discard()
			}
			g.Guard("decode", func() { d.OBU(o.Bytes(true)) })
			if o.Type != 3 && o.Type != 6 && o.Type != 4 {
				continue
			}
			got, want := saved(d.State), saved(m.State())
			n := 0
			for name, w := range want {
				if h, ok := got[name]; ok {
					bad, k := same(h, w, name)
					n += k
					if bad != "" {
						g.Failf("after frame %d: saved table %s", frames, bad)
					}
				}
			}
			if n == 0 {
				g.Class("nothing saved")
			}
			frames++
		}
	}
	for _, h := range c.Headers {
		if h.Primary != 7 || adapts(h) {
			g.NonTrivial()
		}
	}
}

func adapts(h *verifhdr.Frame) bool { return !h.DisableCdf }
