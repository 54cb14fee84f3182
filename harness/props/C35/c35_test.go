package vpc35

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sync"
	"testing"

	"go.uber.org/zap"

	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/logger"
	"github.com/m4tthewde/gov1/internal/parser"
	"github.com/m4tthewde/gov1/internal/state"
	aom "github.com/m4tthewde/gov1/internal/verifaom"
	"github.com/m4tthewde/gov1/internal/verifdec"
	"github.com/m4tthewde/gov1/internal/verife2e"
	kit "github.com/m4tthewde/gov1/internal/verifkit"
	"github.com/m4tthewde/gov1/internal/verifrand"
)

// inter prefers what needs tables and scratch storage.
var inter = map[string]verifrand.Fav{
	"readIsInter.IsInter":                {Symbol: 1, Of8: 6},
	"compModeSymbol":                     {Symbol: 1, Of8: 4},
	"compGroupIdxSymbol":                 {Symbol: 1, Of8: 5},
	"readCompoundType.CompoundType":      {Symbol: 0, Of8: 5},
	"readInterIntraMode.InterIntra":      {Symbol: 1, Of8: 4},
	"readInterIntraMode.WedgeInterIntra": {Symbol: 1, Of8: 6},
	"readMotionMode.MotionMode":          {Symbol: -2, Of8: 6},
	"partitionElement":                   {Symbol: -2, Of8: 4},
}

func stream(g *kit.G) *verife2e.Result {
	if g.Chance(1, 12) {
		c := &verife2e.Case{N: g.Int(2, 3)}
		c.Format(g)
		c.Size(g, 60, 60)
		c.Picture(g)
		c.Motion(g)
		c.Inter(g)
		return c.Encode(g)
	}
	c := verifrand.Draw(g)
	c.W, c.H = g.Int(8, 48), g.Int(8, 48)
	c.Frames = g.Int(1, 4)
	c.Groups = g.Bool()
	if g.Bool() {
		c.Directed = true
		c.Frames = g.Int(2, 4)
		c.Favor = inter
	}
	return c.Reference(g)
}

func TestVerifC35(t *testing.T) {
	runtime.GOMAXPROCS(4)
	logger.Logger = zap.NewNop()
	kit.Run(t, kit.Check{ID: "C35", Rule: "at least two streams with pictures were decoded at the same time",
		Assume: []string{"libaom 3.8 decodes the streams correctly", "the race detector sees unsynchronised accesses to the same memory"},
		Subs: []kit.Sub{
			{Name: "decoders", Quick: 400, Thorough: 20000, Case: func(g *kit.G) {
				atOnce(g, g.Pick(1, 1, 1, 2), func(r *verife2e.Result, pause int) []*aom.Pic {
					d := &verifdec.Dec{State: &state.State{}}
					for u, tu := range r.OBUs {
						for _, o := range tu {
							wait(pause)
							d.Unit = u
							d.OBU(o.Bytes(true))
						}
					}
					return d.Pics
				})
			}},
			{Name: "parsers", Quick: 120, Thorough: 5000, Case: func(g *kit.G) {
				atOnce(g, 1, func(r *verife2e.Result, pause int) []*aom.Pic {
					wait(pause)
					b := bitstream.NewBitStream(pack(r.OBUs))
					p := parser.NewParser(&b)
					wait(pause)
					var pics []*aom.Pic
					for _, o := range p.VerifDecode() {
						if t := o.TileGroup; t.OutY != nil {
							c := &aom.Pic{W: len(t.OutY[0]), H: len(t.OutY), Planes: [3][][]int{t.OutY, t.OutU, t.OutV}}
							if k := len(pics); k < len(r.Pics) {
								c.Unit = r.Pics[k].Unit
							}
							pics = append(pics, c)
						}
					}
					return pics
				})
			}},
		}})
}

func wait(n int) {
	for ; n > 0; n-- {
		runtime.Gosched()
	}
}

// pack writes the length-delimited format, a frame unit per temporal unit.
func pack(tus [][]aom.OBU) []byte {
	var out []byte
	for _, tu := range tus {
		var unit []byte
		for _, o := range tu {
			b := o.Bytes(false)
			unit = append(append(unit, aom.Leb128(len(b))...), b...)
		}
		n := aom.Leb128(len(unit))
		out = append(append(append(out, aom.Leb128(len(n)+len(unit))...), n...), unit...)
	}
	return out
}

// atOnce decodes n streams, each twice, so that both come to the same place at the same time.
func atOnce(g *kit.G, n int, decode func(r *verife2e.Result, pause int) []*aom.Pic) {
	var rs []*verife2e.Result
	for i := 0; i < n; i++ {
		rs = append(rs, stream(g))
	}
	rs = append(rs, rs...)
	pics, errs := make([][]*aom.Pic, len(rs)), make([]string, len(rs))
	var wg sync.WaitGroup
	start := make(chan bool)
	for i := range rs {
		wg.Add(1)
		pause := g.Int(0, 3)
		go func(i int) {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					errs[i] = fmt.Sprintf("decode: panic: %v\n%s", e, debug.Stack())
				}
			}()
			<-start
			pics[i] = decode(rs[i], pause)
		}(i)
	}
	close(start)
	wg.Wait()
	for i, r := range rs {
		if errs[i] != "" {
			g.Failf("%s", errs[i])
		}
		verife2e.Compare(g, pics[i], r.Pics)
	}
	g.NonTrivial()
}
