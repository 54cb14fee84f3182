package vpc02

import (
	"math"
	"math/big"
	"sort"
	"testing"

	"github.com/m4tthewde/gov1/internal/shared"
	"github.com/m4tthewde/gov1/internal/util"
	kit "github.com/m4tthewde/gov1/internal/verifkit"
)

func signed(g *kit.G, bits int) int {
	v := int(g.Bits(g.Int(0, bits)))
	if g.Bool() {
		return -v
	}
	return v
}

// floor((x + half) / 2^n) over the integers
func refRound2(x, n int) int {
	if n == 0 {
		return x
	}
	a := new(big.Int).Add(big.NewInt(int64(x)), new(big.Int).Lsh(big.NewInt(1), uint(n-1)))
	q := new(big.Int)
	q.Div(a, new(big.Int).Lsh(big.NewInt(1), uint(n))) // Euclidean == floor for positive divisors
	return int(q.Int64())
}

// order in which neg_deinterleave visits [0,max): nearest to ref first, then what is left.
func refNegOrder(ref, max int) []int {
	out := []int{}
	if ref == 0 {
		for i := 0; i < max; i++ {
			out = append(out, i)
		}
		return out
	}
	if ref >= max-1 {
		for i := max - 1; i >= 0; i-- {
			out = append(out, i)
		}
		return out
	}
	out = append(out, ref)
	d := 1
	for ref-d >= 0 && ref+d < max {
		out = append(out, ref+d, ref-d)
		d++
	}
	if ref-d < 0 {
		for i := ref + d; i < max; i++ {
			out = append(out, i)
		}
	} else {
		for i := ref - d; i >= 0; i-- {
			out = append(out, i)
		}
	}
	return out
}

var obmc = map[int][]int{
	2: {45, 64}, 4: {39, 50, 59, 64}, 8: {36, 42, 48, 53, 57, 61, 64, 64},
	16: {34, 37, 40, 43, 46, 49, 52, 54, 56, 58, 60, 61, 64, 64, 64, 64},
	32: {33, 35, 36, 38, 40, 41, 43, 44, 45, 47, 48, 50, 51, 52, 53, 55, 56, 57, 58, 59, 60, 60, 61, 62, 64, 64, 64, 64, 64, 64, 64, 64},
}

func TestVerifC02(t *testing.T) {
	kit.Run(t, kit.Check{ID: "C02",
		Rule: "operands drawn with bias to small values, powers of two and range ends; oracles are big-integer or enumeration definitions. Non-trivial: the operand is not 0 or 1 / the result is not the identity of the operand by construction of the domain.",
		Subs: []kit.Sub{
			{Name: "round2", Quick: 20000, Case: func(g *kit.G) {
				x, n := signed(g, 40), g.Sized(0, 20)
				g.Descf("x=%d n=%d", x, n)
				if n > 0 && x != 0 {
					g.NonTrivial()
				}
				g.Guard("round2", func() {
					g.EqInt("Round2", util.Round2(x, n), refRound2(x, n))
					w := refRound2(x, n)
					if x < 0 {
						w = -refRound2(-x, n)
					}
					g.EqInt("Round2Signed", util.Round2Signed(x, n), w)
				})
			}},
			{Name: "clip", Quick: 20000, Case: func(g *kit.G) {
				lo := signed(g, 20)
				hi := lo + int(g.Bits(g.Int(0, 20)))
				z := signed(g, 22)
				bd := g.Pick(8, 10, 12)
				g.Descf("lo=%d hi=%d z=%d bd=%d", lo, hi, z, bd)
				g.NonTrivial()
				s := []int{lo, hi, z}
				sort.Ints(s)
				g.Guard("clip", func() {
					g.EqInt("Clip3 (median of the bounds and the value)", util.Clip3(lo, hi, z), s[1])
					w := z
					if w < 0 {
						w = 0
					}
					if w >= 1<<uint(bd) {
						w = 1<<uint(bd) - 1
					}
					g.EqInt("Clip1", util.Clip1(z, bd), w)
					// pixels around the limits
					p := 1<<uint(bd) + g.Int(-3, 3)
					if w = p; w >= 1<<uint(bd) {
						w = 1<<uint(bd) - 1
					}
					g.EqInt("Clip1", util.Clip1(p, bd), w)
				})
			}},
			{Name: "minmaxabs", Quick: 5000, Case: func(g *kit.G) {
				x, y := signed(g, 40), signed(g, 40)
				if g.Chance(1, 4) {
					y = x + g.Int(-1, 1)
				}
				g.Descf("x=%d y=%d", x, y)
				g.NonTrivial()
				s := []int{x, y}
				sort.Ints(s)
				g.Guard("minmax", func() {
					g.EqInt("Min", util.Min(x, y), s[0])
					g.EqInt("Max", util.Max(x, y), s[1])
					g.EqInt("Abs", util.Abs(x), int(math.Abs(float64(x))))
					g.Eq("Bool", util.Bool(x), x != 0)
					g.EqInt("Int", util.Int(x > y), map[bool]int{true: 1, false: 0}[x > y])
				})
			}},
			{Name: "logs", Quick: 20000, Case: func(g *kit.G) {
				x := 1 + int(g.Bits(g.Int(1, 40)))
				blk := 1 + int(g.Bits(g.Int(1, 16)))
				tgt := int(g.Bits(g.Int(1, 24)))
				g.Descf("x=%d blk=%d target=%d", x, blk, tgt)
				g.NonTrivial()
				g.Guard("logs", func() {
					g.EqInt("FloorLog2", util.FloorLog2(x), big.NewInt(int64(x)).BitLen()-1)
					g.EqInt("CeilLog2", util.CeilLog2(x), big.NewInt(int64(x-1)).BitLen())
					g.EqInt("CeilLog2(0)", util.CeilLog2(0), 0)
					k := util.TileLog2(blk, tgt)
					if k < 0 || blk<<uint(k) < tgt || (k > 0 && blk<<uint(k-1) >= tgt) {
						g.Failf("TileLog2(%d,%d)=%d is not the least k with blk<<k >= target", blk, tgt, k)
					}
				})
			}},
			{Name: "recenter", Quick: 20000, Case: func(g *kit.G) {
				r := int(g.Bits(g.Int(0, 14)))
				x := int(g.Bits(g.Int(0, 15)))
				// the encoder's mapping: values at distance d <= r from r interleave, larger ones stay
				v := 0
				switch {
				case x > 2*r:
					v = x
				case x >= r:
					v = 2 * (x - r)
				default:
					v = 2*(r-x) - 1
				}
				g.Descf("r=%d x=%d v=%d", r, x, v)
				if r > 0 {
					g.NonTrivial()
				}
				g.Guard("InverseRecenter", func() { g.EqInt("InverseRecenter", util.InverseRecenter(r, v), x) })
			}},
			{Name: "neg-deinterleave", Quick: 4000, Case: func(g *kit.G) {
				max := g.Sized(1, 9)
				ref := g.Int(0, max-1)
				order := refNegOrder(ref, max)
				g.Descf("ref=%d max=%d", ref, max)
				if max > 2 {
					g.NonTrivial()
				}
				for d := 0; d < max; d++ {
					g.Guard("NegDeinterleave", func() {
						got := util.NegDeinterleave(d, ref, max)
						if got != order[d] {
							g.Failf("NegDeinterleave(diff=%d, ref=%d, max=%d)=%d, want %d", d, ref, max, got, order[d])
						}
					})
				}
			}},
			{Name: "trig", Quick: 4000, Case: func(g *kit.G) {
				a := g.Int(-600, 1000)
				g.Descf("angle=%d", a)
				g.NonTrivial()
				g.Guard("trig", func() {
					g.EqInt("Cos128", util.Cos128(a), int(math.Round(4096*math.Cos(float64(a)*math.Pi/128))))
					g.EqInt("Sin128", util.Sin128(a), int(math.Round(4096*math.Sin(float64(a)*math.Pi/128))))
				})
			}},
			{Name: "brev", Quick: 4000, Case: func(g *kit.G) {
				n := g.Int(0, 12)
				x := int(g.Bits(n))
				w := 0
				for i := 0; i < n; i++ {
					if x&(1<<uint(i)) != 0 {
						w |= 1 << uint(n-1-i)
					}
				}
				g.Descf("n=%d x=%d", n, x)
				if n > 1 {
					g.NonTrivial()
				}
				g.Guard("brev", func() { g.EqInt("Brev", util.Brev(n, x), w) })
			}},
			{Name: "sort", Quick: 5000, Case: func(g *kit.G) {
				n := g.Int(1, 12)
				a := make([]int, n)
				for i := range a {
					a[i] = signed(g, g.Int(0, 10))
				}
				i1 := g.Int(0, n-1)
				i2 := g.Int(i1, n-1)
				want := append([]int{}, a...)
				for i := i1; i <= i2; i++ { // selection sort of the closed range
					for j := i + 1; j <= i2; j++ {
						if want[j] < want[i] {
							want[i], want[j] = want[j], want[i]
						}
					}
				}
				g.Descf("a=%v range=%d..%d", a, i1, i2)
				if i2 > i1 {
					g.NonTrivial()
				}
				g.Guard("Sort", func() { g.EqInts("Sort", util.Sort(a, i1, i2), want) })
			}},
			{Name: "misc", Quick: 5000, Case: func(g *kit.G) {
				unit := 32 << uint(g.Int(0, 3))
				size := g.Sized(1, 5000)
				a, b := g.Int(-600, 600), g.Int(-600, 600)
				mode := g.Int(0, 25)
				p, q := [2]int{g.Int(-2, 2), g.Int(-2, 2)}, [2]int{g.Int(-2, 2), g.Int(-2, 2)}
				g.Descf("unit=%d size=%d a=%d b=%d mode=%d p=%v q=%v", unit, size, a, b, mode, p, q)
				g.NonTrivial()
				g.Guard("misc", func() {
					n := util.CountUnitsInFrame(unit, size)
					w := size / unit
					if size%unit >= unit/2 {
						w++
					}
					if w == 0 {
						w = 1
					}
					g.EqInt("CountUnitsInFrame", n, w)
					g.EqInt("LsProduct", util.LsProduct(a, b), int(math.Floor(float64(a*b)/4))+a+b)
					hasNew := map[int]bool{shared.NEWMV: true, shared.NEW_NEWMV: true, shared.NEAR_NEWMV: true, shared.NEW_NEARMV: true, shared.NEAREST_NEWMV: true, shared.NEW_NEARESTMV: true}
					g.Eq("HasNewmv", util.HasNewmv(mode), hasNew[mode])
					g.Eq("Equals", util.Equals(p, q), p[0] == q[0] && p[1] == q[1])
					l := g.Pick(2, 4, 8, 16, 32)
					g.EqInts("GetObmcMask", util.GetObmcMask(l), obmc[l])
				})
			}},
		}})
}
