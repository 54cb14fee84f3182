package vpc14

import (
	"math/big"

	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/literal"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/symbol"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	kit "github.com/m4tthewde/gov1/internal/verifkit"
)

// coder is a range encoder of unlimited precision: any codeword in
// [low, low+rng) of 15+shift bits makes the decoder return the coded symbols.
type coder struct {
	low   big.Int
	rng   int
	shift int
}

// model is an adaptive distribution, kept as the probability of a symbol above i.
type model struct {
	above []int
	count int
}

func (c *coder) put(m *model, s int, adapt bool) {
	n := len(m.above)
	part := func(i int) int { // the part of the range for symbols above i
		return (c.rng>>8)*(m.above[i]>>6)>>1 + 4*(n-1-i)
	}
	u, v := c.rng, part(s)
	if s > 0 {
		u = part(s - 1)
	}
	c.low.Add(&c.low, big.NewInt(int64(c.rng-u)))
	c.rng = u - v
	for c.rng < 1<<15 {
		c.rng *= 2
		c.shift++
		c.low.Lsh(&c.low, 1)
	}
	if adapt {
		rate := 4
		if n > 3 {
			rate = 5
		}
		if m.count > 15 {
			rate++
		}
		if m.count > 31 {
			rate++
		}
		for i := 0; i < n-1; i++ {
			if i < s {
				m.above[i] += (1<<15 - m.above[i]) >> uint(rate)
			} else {
				m.above[i] -= m.above[i] >> uint(rate)
			}
		}
		if m.count < 32 {
			m.count++
		}
	}
}

// bytes is the shortest codeword, or a longer one.
func (c *coder) bytes(g *kit.G) []byte {
	total := c.shift + 15
	drop := uint(0)
	top := new(big.Int).Add(&c.low, big.NewInt(int64(c.rng)))
	x := new(big.Int).Set(&c.low)
	for {
		step := new(big.Int).Lsh(big.NewInt(1), drop+1)
		y := new(big.Int).Add(&c.low, step)
		y.Sub(y, big.NewInt(1))
		y.Div(y, step)
		y.Mul(y, step)
		if int(drop) >= total || y.Cmp(top) >= 0 {
			break
		}
		x, drop = y, drop+1
	}
	n := (total - int(drop) + 7) / 8
	if least := (c.shift + 1 + 7) / 8; n < least {
		n = least
	}
	if n == 0 {
		n = 1
	}
	if 8*n >= total {
		x.Lsh(x, uint(8*n-total))
	} else {
		x.Rsh(x, uint(total-8*n))
	}
	out := make([]byte, n)
	b := x.Bytes()
	copy(out[n-len(b):], b)
	extra := 0
	if g.Chance(1, 4) {
		extra = g.Int(1, 4)
	}
	return append(out, make([]byte, extra)...)
}

func genModel(g *kit.G) *model {
	n := g.Int(2, 16)
	m := &model{above: make([]int, n)}
	rest := 1<<15 - 1
	for i := 0; i < n-1; i++ {
		if g.Chance(1, 8) {
			rest -= g.Int(0, rest)
		} else {
			rest -= g.Int(0, 2*rest/(n-i))
		}
		m.above[i] = rest
	}
	m.count = g.Pick(0, 0, 14, 30, 32)
	return m
}

func (m *model) cdf() []int {
	out := []int{}
	for _, v := range m.above {
		out = append(out, 1<<15-v)
	}
	return append(out, m.count)
}

// symbols codes random symbols, literals and bounded values and reads them back.
func symbols(g *kit.G) {
	models := []*model{}
	for i := g.Int(1, 4); i > 0; i-- {
		models = append(models, genModel(g))
	}
	cdfs := [][]int{}
	for _, m := range models {
		cdfs = append(cdfs, m.cdf())
	}
	even := &model{above: []int{1 << 14, 0}}
	adapt := !g.Chance(1, 4)
	c := &coder{rng: 1 << 15}
	type op struct{ kind, which, value int }
	ops := []op{}
	lits := func(v, n int) {
		for i := n - 1; i >= 0; i-- {
			c.put(even, v>>uint(i)&1, false)
		}
	}
	n := g.Sized(1, 300)
	peaked := g.Bool()
	for i := 0; i < n; i++ {
		switch g.Un(8) {
		case 0:
			k := g.Int(0, 16)
			v := int(g.Bits(k))
			lits(v, k)
			ops = append(ops, op{1, k, v})
		case 1: // one of k values, the first ones in a bit less
			k := g.Int(1, 300)
			v := g.Int(0, k-1)
			w := 1
			for 1<<uint(w) <= k {
				w++
			}
			if short := 1<<uint(w) - k; v < short {
				lits(v, w-1)
			} else {
				lits(v+short, w)
			}
			ops = append(ops, op{2, k, v})
		default:
			j := g.Int(0, len(models)-1)
			s := len(models[j].above) - 1
			if peaked {
				s = g.Sized(0, s)
			} else {
				s = g.Int(0, s)
			}
			c.put(models[j], s, adapt)
			ops = append(ops, op{0, j, s})
		}
	}
	data := c.bytes(g)
	g.Descf("%d symbols in %d bytes, adapting %v", n, len(data), adapt)
	if n >= 20 {
		g.NonTrivial()
	}
	lead := g.Int(0, 3)
	b := bitstream.NewBitStream(append(append(g.Bytes(lead), data...), g.Bytes(4)...))
	g.Guard("symbol decoding", func() {
		b.F(8 * lead)
		st := &state.State{}
		bits := 8 * len(data)
		if bits > 15 {
			bits = 15
		}
		st.SymbolValue = 1<<15 - 1 - b.F(bits)<<uint(15-bits)
		st.SymbolRange = 1 << 15
		st.SymbolMaxBits = 8*len(data) - 15
		uh := uncompressedheader.UncompressedHeader{DisableCdfUpdate: !adapt}
		for i, o := range ops {
			var got int
			switch o.kind {
			case 0:
				got = symbol.ReadSymbol(cdfs[o.which], st, &b, uh)
			case 1:
				got = literal.L(o.which, st, &b, uh)
			case 2:
				got = literal.NS(o.which, st, &b, uh)
			}
			if got != o.value {
				g.Failf("item %d (kind %d, parameter %d) of %d: got %d, coded %d", i, o.kind, o.which, n, got, o.value)
			}
		}
		for i, m := range models {
			g.EqInts("distribution after decoding", cdfs[i], m.cdf())
		}
		left := st.SymbolMaxBits
		if left < 0 {
			left = 0
		}
		g.EqInt("unread part of the tile", b.Position+left, 8*(lead+len(data)))
	})
}
