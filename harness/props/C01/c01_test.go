package vpc01

import (
	"math/big"
	"testing"

	"github.com/m4tthewde/gov1/internal/bitstream"
	kit "github.com/m4tthewde/gov1/internal/verifkit"
)

// bits is the reference: the stream as a plain list of bits, read by position.
type ref struct {
	data []byte
	pos  int
}

func (r *ref) bit() int {
	v := int(r.data[r.pos/8]>>(7-uint(r.pos%8))) & 1
	r.pos++
	return v
}

func (r *ref) f(n int) int {
	x := new(big.Int)
	for i := 0; i < n; i++ {
		x.Lsh(x, 1)
		x.Add(x, big.NewInt(int64(r.bit())))
	}
	return int(x.Int64())
}

func (r *ref) left() int { return 8*len(r.data) - r.pos }

func bitLen(n int) int { return big.NewInt(int64(n)).BitLen() }

func setup(g *kit.G, w *kit.W) (*bitstream.BitStream, int) {
	for w.N%8 != 0 {
		w.Put(1, g.Int(0, 1))
	}
	w.B = append(w.B, g.Bytes(g.Int(0, 3))...)
	b := bitstream.NewBitStream(w.B)
	return &b, w.N
}

func lead(g *kit.G) (*kit.W, int) {
	w := &kit.W{}
	n := g.Int(0, 19)
	w.Put(n, int(g.Bits(n)))
	return w, n
}

func check(g *kit.G, b *bitstream.BitStream, what string, want, start, n int, f func() int) {
	g.Guard(what, func() {
		b.F(start)
		g.EqInt("position before "+what, b.Position, start)
		g.EqInt(what, f(), want)
		g.EqInt("position after "+what, b.Position, start+n)
	})
}

func TestVerifC01(t *testing.T) {
	kit.Run(t, kit.Check{ID: "C01",
		Rule: "each sub-check writes one syntax element at a random bit offset with an independent encoder and surrounds it with random bits; history cases run a random sequence of element reads over random data against a bit-list model. Non-trivial: the element is at least 2 bits long or the history has at least 3 reads.",
		Subs: []kit.Sub{
			{Name: "fixed", Quick: 20000, Case: func(g *kit.G) {
				w, s := lead(g)
				n := g.Sized(0, 62)
				v := int(g.Bits(n))
				w.Put(n, v)
				b, _ := setup(g, w)
				g.Descf("f(%d)=%d at bit %d", n, v, s)
				if n > 1 {
					g.NonTrivial()
				}
				check(g, b, "f", v, s, n, func() int { return b.F(n) })
			}},
			{Name: "signed", Quick: 20000, Case: func(g *kit.G) {
				w, s := lead(g)
				n := g.Sized(1, 32)
				raw := int(g.Bits(n))
				w.Put(n, raw)
				want := raw
				if raw >= 1<<uint(n-1) {
					want = raw - 1<<uint(n)
				}
				b, _ := setup(g, w)
				g.Descf("su(%d)=%d at bit %d", n, want, s)
				g.NonTrivial()
				check(g, b, "su", want, s, n, func() int { return b.Su(n) })
			}},
			{Name: "nonsymmetric", Quick: 20000, Case: func(g *kit.G) {
				w, s := lead(g)
				n := g.Sized(1, 300)
				if g.Chance(1, 4) {
					n = 1 + int(g.Bits(g.Int(1, 20)))
				}
				v := g.Int(0, n-1)
				// shortest w bits; the first m values use w-1 bits
				wd := bitLen(n)
				m := 1<<uint(wd) - n
				used := wd - 1
				if v < m {
					w.Put(wd-1, v)
				} else {
					w.Put(wd, v+m)
					used = wd
				}
				b, _ := setup(g, w)
				g.Descf("ns(%d)=%d at bit %d", n, v, s)
				if n > 2 {
					g.NonTrivial()
				}
				check(g, b, "ns", v, s, used, func() int { return b.Ns(n) })
			}},
			{Name: "uvlc", Quick: 20000, Case: func(g *kit.G) {
				w, s := lead(g)
				if g.Chance(1, 8) {
					z := g.Int(32, 70)
					w.Put(z, 0)
					w.Put(1, 1)
					b, _ := setup(g, w)
					g.Descf("uvlc with %d leading zeros at bit %d", z, s)
					g.NonTrivial()
					check(g, b, "uvlc", 1<<32-1, s, z+1, b.Uvlc)
					return
				}
				v := int(g.Bits(g.Int(1, 32)))
				if v > 1<<32-2 {
					v = 1<<32 - 2
				}
				l := bitLen(v+1) - 1
				w.Put(l, 0)
				w.Put(l+1, v+1)
				b, _ := setup(g, w)
				g.Descf("uvlc=%d at bit %d", v, s)
				g.NonTrivial()
				check(g, b, "uvlc", v, s, 2*l+1, b.Uvlc)
			}},
			{Name: "leb128", Quick: 20000, Case: func(g *kit.G) {
				w, s := lead(g)
				v := int(g.Bits(g.Int(1, 56)))
				n := (bitLen(v) + 6) / 7
				if n == 0 {
					n = 1
				}
				n += g.Int(0, 8-n) // padding bytes are legal
				x := v
				for i := 0; i < n; i++ {
					by := x & 127
					x >>= 7
					if i < n-1 || (n == 8 && g.Chance(1, 8)) {
						by |= 128 // the eighth byte ends the value whatever its top bit
					}
					w.Put(8, by)
				}
				b, _ := setup(g, w)
				g.Descf("leb128=%d in %d bytes at bit %d", v, n, s)
				g.NonTrivial()
				b.Leb128Bytes = g.Int(0, 9)
				check(g, b, "leb128", v, s, 8*n, b.Leb128)
				g.EqInt("leb128 byte count", b.Leb128Bytes, n)
			}},
			{Name: "little-endian", Quick: 10000, Case: func(g *kit.G) {
				w, s := lead(g)
				n := g.Int(0, 7)
				v := int(g.Bits(8 * n))
				for i := 0; i < n; i++ {
					w.Put(8, v>>uint(8*i)&255)
				}
				b, _ := setup(g, w)
				g.Descf("le(%d)=%d at bit %d", n, v, s)
				if n > 1 {
					g.NonTrivial()
				}
				check(g, b, "le", v, s, 8*n, func() int { return b.Le(n) })
			}},
			{Name: "history", Quick: 10000, Case: func(g *kit.G) {
				n := g.Int(4, 60)
				data := g.Bytes(n)
				b := bitstream.NewBitStream(data)
				r := &ref{data: data}
				steps := g.Int(1, 30)
				done := 0
				for i := 0; i < steps; i++ {
					g.Guard("more_data", func() {
						g.Eq("more data", b.MoreDataInBistream(), r.pos/8 < len(r.data))
					})
					op := g.Int(0, 8)
					var got, want int
					name := ""
					switch op {
					case 0, 1:
						k := g.Int(0, 20)
						if r.left() < k {
							continue
						}
						name, want = "f", r.f(k)
						g.Guard(name, func() { got = b.F(k) })
					case 2:
						k := g.Int(1, 16)
						if r.left() < k {
							continue
						}
						want = r.f(k)
						if want >= 1<<uint(k-1) {
							want -= 1 << uint(k)
						}
						name = "su"
						g.Guard(name, func() { got = b.Su(k) })
					case 3:
						k := g.Int(1, 40)
						if r.left() < bitLen(k) {
							continue
						}
						wd := bitLen(k)
						m := 1<<uint(wd) - k
						want = r.f(wd - 1)
						if want >= m {
							want = 2*want - m + r.f(1)
						}
						name = "ns"
						g.Guard(name, func() { got = b.Ns(k) })
					case 4:
						z, p := 0, r.pos
						for p < 8*len(data) && data[p/8]>>(7-uint(p%8))&1 == 0 {
							z++
							p++
						}
						if p >= 8*len(data) || (z < 32 && p+1+z > 8*len(data)) {
							continue
						}
						r.f(z + 1)
						if z >= 32 {
							want = 1<<32 - 1
						} else {
							want = r.f(z) + 1<<uint(z) - 1
						}
						name = "uvlc"
						g.Guard(name, func() { got = b.Uvlc() })
					case 5:
						if r.left() < 64 {
							continue
						}
						for j := 0; j < 8; j++ {
							by := r.f(8)
							want += by % 128 << uint(7*j)
							if by < 128 {
								break
							}
						}
						name = "leb128"
						g.Guard(name, func() { got = b.Leb128() })
					case 6:
						k := g.Int(0, 4)
						if r.left() < 8*k {
							continue
						}
						for j := 0; j < k; j++ {
							want += r.f(8) << uint(8*j)
						}
						name = "le"
						g.Guard(name, func() { got = b.Le(k) })
					case 7:
						for r.pos%8 != 0 {
							r.pos++
						}
						name = "byte_alignment"
						g.Guard(name, func() { b.ByteAlignment() })
					case 8:
						k := g.Int(1, 24)
						if r.left() < k {
							continue
						}
						r.pos += k
						name = "trailing_bits"
						g.Guard(name, func() { b.TrailingBits(k) })
					}
					done++
					g.Class(name)
					g.Descf("%s->%d@%d", name, want, r.pos)
					g.EqInt(name, got, want)
					g.EqInt("position after "+name, b.Position, r.pos)
				}
				if done >= 3 {
					g.NonTrivial()
				}
			}},
		}})
}
