package vpc03

import (
	"testing"

	aom "github.com/m4tthewde/gov1/internal/verifaom"
	"github.com/m4tthewde/gov1/internal/verifdec"
	"github.com/m4tthewde/gov1/internal/verife2e"
	kit "github.com/m4tthewde/gov1/internal/verifkit"
	"github.com/m4tthewde/gov1/internal/verifrand"
)

// noise is an OBU without effect.
func noise(g *kit.G) aom.OBU {
	o := aom.OBU{Type: g.Pick(15, 15, 5, 9, 10, 11, 12, 13, 14), Ext: -1, Payload: g.Bytes(g.Sized(0, 60))}
	if g.Chance(1, 3) {
		o.Ext = int(g.Bits(5)) << 3
	}
	switch o.Type {
	case 15: // obu_padding_length, trailing bit, zero bytes
		if len(o.Payload) > 0 {
			o.Payload[len(o.Payload)-1] = 0x80
			o.Payload = append(o.Payload, make([]byte, g.Sized(0, 3))...)
		}
	case 5:
		if len(o.Payload) > 0 {
			o.Payload[0] = byte(g.Int(1, 40))
			o.Payload = append(o.Payload, 0x80)
		}
	}
	return o
}

// wrap writes and reads OBUs in all the ways the format has.
func wrap(g *kit.G, c *verifrand.Case, zeros bool) {
	c.Mangle = func(tus [][]aom.OBU) [][]aom.OBU {
		var out [][]aom.OBU
		var seq aom.OBU
		added := 0
		for _, tu := range tus {
			var u []aom.OBU
			for i, o := range tu {
				if o.Type == 1 {
					seq = o
				}
				if i > 0 {
					for g.Chance(1, 3) {
						u = append(u, noise(g))
						added++
					}
					if i == 1 && o.Type != 1 && g.Chance(1, 4) { // the sequence header again
						u = append(u, seq)
						added++
					}
				}
				if o.Type == 1 && o.Ext < 0 && g.Chance(1, 4) {
					o.Ext = int(g.Bits(8))
				}
				if (o.Type == 1 || o.Type == 3) && g.Chance(1, 4) { // trailing_bits may be longer
					o.Payload = append(append([]byte{}, o.Payload...), make([]byte, g.Int(1, 3))...)
				}
				u = append(u, o)
			}
			for g.Chance(1, 3) {
				u = append(u, noise(g))
				added++
			}
			out = append(out, u)
		}
		if added > 0 {
			g.NonTrivial()
		}
		return out
	}
	total := 0
	c.Prepare = func(d *verifdec.Dec) {
		d.Write = func(o aom.OBU) []byte {
			b := o.Bytes(g.Bool())
			if b[0]&2 != 0 && g.Chance(1, 4) { // a size with more bytes than needed
				h := 1
				if o.Ext >= 0 {
					h = 2
				}
				l := aom.Leb128(len(o.Payload))
				l[len(l)-1] |= 0x80
				for g.Chance(1, 3) && len(l) < 7 {
					l = append(l, 0x80)
				}
				b = append(append(b[:h:h], append(l, 0)...), o.Payload...)
			}
			total = 8 * len(b)
			return b
		}
		d.Read = func(o aom.OBU, n int) {
			if n != total {
				g.Failf("OBU of type %d (extension %d, %d bytes of payload): %d bits read, it has %d", o.Type, o.Ext, len(o.Payload), n, total)
			}
		}
	}
}

func TestVerifC03(t *testing.T) {
	never := func(c *verifrand.Case, r *verife2e.Result) bool { return false } // wrap and layers decide
	kit.Run(t, kit.Check{ID: "C03", Rule: "OBUs without effect were added, or OBUs outside of the operating point were dropped",
		Assume: []string{"libaom 3.8 decodes the unchanged streams correctly"},
		Subs: []kit.Sub{
			{Name: "headers", Quick: 6000, Thorough: 300000, Case: headers},
			verifrand.Sub("obus", 3000, func(g *kit.G, c *verifrand.Case) {
				c.W, c.H = g.Int(8, 40), g.Int(8, 40)
				c.Groups = g.Bool()
				if g.Chance(1, 6) {
					c.Tiles(g)
				}
				wrap(g, c, true)
			}, never, "frametype"),
			verifrand.Sub("layers", 2500, func(g *kit.G, c *verifrand.Case) {
				c.W, c.H = g.Int(8, 40), g.Int(8, 40)
				c.Seq.Still, c.Seq.Reduced = false, false
				c.Idc = (1 + int(g.Bits(8))%255) | g.Pick(1, 2, 4, 8, 3, 5, 7, 6, 15)<<8
				c.Frames = g.Int(1, 8)
				if g.Bool() {
					wrap(g, c, true)
				}
			}, func(c *verifrand.Case, r *verife2e.Result) bool { return c.Dropped > 0 && len(r.Pics) > 0 }),
		}})
}
