package vpc33

import (
	"bytes"
	"testing"

	"go.uber.org/zap"

	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/logger"
	"github.com/m4tthewde/gov1/internal/parser"
	aom "github.com/m4tthewde/gov1/internal/verifaom"
	"github.com/m4tthewde/gov1/internal/verifdec"
	"github.com/m4tthewde/gov1/internal/verife2e"
	kit "github.com/m4tthewde/gov1/internal/verifkit"
	"github.com/m4tthewde/gov1/internal/verifrand"
)

// damage changes bytes of an OBU's payload.
func damage(g *kit.G, b []byte) []byte {
	b = append([]byte{}, b...)
	for k := g.Sized(1, 6); k > 0 && len(b) > 0; k-- {
		i := g.Int(0, len(b)-1)
		if g.Chance(1, 3) { // headers are at the start
			i = g.Int(0, min(len(b)-1, 12))
		}
		switch g.Int(0, 6) {
		case 0, 1:
			b[i] ^= 1 << uint(g.Int(0, 7))
		case 2:
			b[i] = byte(g.Bits(8))
		case 3:
			b = b[:i]
		case 4:
			for j := i; j < len(b) && j < i+20; j++ {
				b[j] = 0
			}
		case 5:
			for j := i; j < len(b) && j < i+20; j++ {
				b[j] = 255
			}
		default:
			b = append(b, g.Bytes(g.Int(1, 30))...)
		}
	}
	return b
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// attempt decodes and reports whether the decoder got through.
func attempt(f func()) (ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	f()
	return true
}

// sane checks what was output of a damaged stream.
func sane(g *kit.G, p *aom.Pic, limit int) {
	if p.W < 1 || p.H < 1 || p.W > limit || p.H > limit {
		g.Failf("a picture of %dx%d samples from a stream of at most %d", p.W, p.H, limit)
	}
	for i, plane := range p.Planes {
		for y, row := range plane {
			for x, v := range row {
				if v < 0 || v >= 1<<uint(p.Depth) {
					g.Failf("plane %d (%d,%d): sample %d does not fit in %d bits", i, x, y, v, p.Depth)
				}
			}
		}
	}
}

func TestVerifC33(t *testing.T) {
	stream := func(g *kit.G) [][]aom.OBU {
		if g.Chance(1, 12) {
			c := &verife2e.Case{N: g.Int(1, 4)}
			c.Format(g)
			c.Size(g, 70, 70)
			c.Picture(g)
			c.Motion(g)
			c.Inter(g)
			return c.Encode(g).OBUs
		}
		c := verifrand.Draw(g)
		c.W, c.H = g.Int(8, 60), g.Int(8, 60)
		c.Frames = g.Int(1, 4)
		c.Groups = g.Chance(1, 3)
		c.Make(g)
		return c.TUs
	}
	kit.Run(t, kit.Check{ID: "C33", Rule: "a frame of the stream was damaged",
		Subs: []kit.Sub{
			{Name: "damaged-obus", Quick: 6000, Thorough: 400000, Case: func(g *kit.G) {
				d := verifdec.New()
				for u, tu := range stream(g) {
					d.Unit = u
					for _, o := range tu {
						if o.Type != 1 { // the sequence header bounds the size of the pictures
							if g.Chance(1, 2) {
								o.Payload = damage(g, o.Payload)
								g.NonTrivial()
							}
							if g.Chance(1, 30) {
								o.Type = g.Pick(2, 3, 4, 5, 6, 7, 8, 9, 15)
							}
						}
						if !attempt(func() { d.OBU(o.Bytes(g.Bool())) }) {
							g.Class("stopped with an error")
							if g.Bool() {
								return
							}
						}
					}
				}
				for _, p := range d.Pics {
					sane(g, p, 512)
				}
				if len(d.Pics) > 0 {
					g.Class("output pictures")
				}
			}},
			{Name: "damaged-framing", Quick: 4000, Thorough: 400000, Case: func(g *kit.G) {
				tus := stream(g)
				data := aom.AnnexB(tus, func() bool { return g.Bool() })
				from := 0
				if len(tus) > 0 { // the first sequence header stays, and there are no others: it bounds the size of the pictures
					from = bytes.Index(data, tus[0][1].Payload) + len(tus[0][1].Payload)
				}
				if g.Chance(1, 3) {
					r := g.Bytes(g.Int(1, 400))
					for i := range r { // mostly small sizes
						if i%3 > 0 {
							r[i] &= 31
						}
					}
					data = append(data[:from:from], r...)
				} else {
					data = append(data[:from:from], damage(g, data[from:])...)
				}
				for i := range data[from:] {
					if data[from+i]>>3&15 == 1 {
						data[from+i] ^= 16
					}
				}
				g.NonTrivial()
				if !attempt(func() {
					b := bitstream.NewBitStream(data)
					p := parser.NewParser(&b)
					logger.Logger = zap.NewNop()
					p.VerifDecode()
				}) {
					g.Class("stopped with an error")
				}
			}},
		}})
}
