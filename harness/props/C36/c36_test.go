package vpc36

import (
	"testing"

	aom "github.com/m4tthewde/gov1/internal/verifaom"
	"github.com/m4tthewde/gov1/internal/verifdec"
	"github.com/m4tthewde/gov1/internal/verife2e"
	hdr "github.com/m4tthewde/gov1/internal/verifhdr"
	kit "github.com/m4tthewde/gov1/internal/verifkit"
	"github.com/m4tthewde/gov1/internal/verifpack"
	"github.com/m4tthewde/gov1/internal/verifrand"
)

// part is a piece of a stream that starts with a sequence header and a shown key frame.
type part struct {
	tus  [][]aom.OBU
	pics []*aom.Pic // of all of it
}

// draw draws a whole stream, of the sequence header s if there is one.
func draw(g *kit.G, s *hdr.Seq) (part, *hdr.Seq) {
	if s == nil && g.Chance(1, 12) {
		c := &verife2e.Case{N: g.Int(2, 4)}
		c.Format(g)
		c.Size(g, 70, 70)
		c.Picture(g)
		c.Motion(g)
		c.Inter(g)
		r := c.Encode(g)
		return part{r.OBUs, r.Pics}, nil
	}
	c := verifrand.Draw(g)
	if s != nil {
		t := *s
		c.Seq = &t
	}
	c.W, c.H = g.Int(8, 60), g.Int(8, 60)
	c.Frames = g.Int(1, 5)
	c.Groups = g.Bool()
	if c.Seq.Still || c.Seq.Reduced {
		c.Frames = 1
	}
	if s == nil && g.Chance(1, 6) && c.Frames > 1 {
		c.Idc = (1 + int(g.Bits(8))%255) | g.Pick(1, 2, 3, 7)<<8
	}
	r := c.Reference(g)
	if c.Idc != 0 { // its sequence header does not suit frames without layers
		return part{c.TUs, r.Pics}, nil
	}
	return part{c.TUs, r.Pics}, c.Seq
}

// cut ends the part early, perhaps within a temporal unit, perhaps within a frame.
func (p *part) cut(g *kit.G) {
	if len(p.tus) == 0 {
		return
	}
	k := g.Int(0, len(p.tus)-1)
	tus := append([][]aom.OBU{}, p.tus[:k]...)
	var pics []*aom.Pic
	for _, q := range p.pics {
		if q.Unit < k {
			pics = append(pics, q)
		}
	}
	if u := p.tus[k]; len(u) > 2 {
		// the frames of a unit that come out before its last OBU are left aside
		n := g.Int(1, len(u)-1)
		frames := 0
		for _, o := range u[:n] {
			if o.Type == 6 || o.Type == 4 || o.Type == 3 {
				frames++
			}
		}
		whole := 0
		for _, o := range u {
			if o.Type == 6 || o.Type == 3 {
				whole++
			}
		}
		if frames == 0 || whole == 1 {
			tus = append(tus, append([]aom.OBU{}, u[:n]...))
		}
	}
	p.tus, p.pics = tus, pics
}

// join appends a part.
func (p *part) join(q part) {
	n := len(p.tus)
	p.tus = append(append([][]aom.OBU{}, p.tus...), q.tus...)
	p.pics = append([]*aom.Pic{}, p.pics...)
	for _, x := range q.pics {
		y := *x
		y.Unit += n
		p.pics = append(p.pics, &y)
	}
}

// again repeats the sequence header at the start of some temporal units.
func again(g *kit.G, tus [][]aom.OBU) [][]aom.OBU {
	var out [][]aom.OBU
	var seq aom.OBU
	for _, tu := range tus {
		u := append([]aom.OBU{}, tu...)
		has := false
		for _, o := range tu {
			if o.Type == 1 {
				seq, has = o, true
			}
		}
		if !has && len(u) > 0 && u[0].Type == 2 && seq.Type == 1 && g.Chance(1, 3) {
			u = append([]aom.OBU{u[0], seq}, u[1:]...)
		}
		out = append(out, u)
	}
	return out
}

// decode decodes all of it with one decoder.
func (p part) decode(g *kit.G) {
	d := verifdec.New()
	g.Guard("decode", func() { d.Units(p.tus) })
	verife2e.Compare(g, d.Pics, p.pics)
}

func several(g *kit.G) part {
	var all part
	var s *hdr.Seq
	n := g.Int(2, 4)
	for i := 0; i < n; i++ {
		if !g.Chance(1, 4) {
			s = nil
		}
		var p part
		p, s = draw(g, s)
		if i < n-1 && g.Chance(1, 2) {
			p.cut(g)
		}
		all.join(p)
	}
	if g.Bool() {
		all.tus = again(g, all.tus)
	}
	return all
}

func TestVerifC36(t *testing.T) {
	kit.Run(t, kit.Check{ID: "C36", Rule: "a sequence that follows another one, or a stream entered at a key frame other than the first",
		Assume: []string{"libaom 3.8 decodes the streams correctly, each sequence on its own"},
		Subs: []kit.Sub{
			{Name: "joined", Quick: 1500, Thorough: 100000, Case: func(g *kit.G) {
				p := several(g)
				p.decode(g)
				g.NonTrivial()
			}},
			{Name: "container", Quick: 500, Thorough: 30000, Case: func(g *kit.G) {
				p := several(g)
				verifpack.Check(g, p.pics, p.tus)
				g.NonTrivial()
			}},
			{Name: "entered", Quick: 1000, Thorough: 60000, Case: func(g *kit.G) {
				c := verifrand.Draw(g)
				c.Seq.Still, c.Seq.Reduced = false, false
				c.W, c.H = g.Int(8, 60), g.Int(8, 60)
				c.Frames = g.Int(3, 8)
				c.Keys = g.Int(2, 4)
				c.Show = g.Pick(3, 6)
				r := c.Reference(g)
				at := c.Starts()
				seq := c.TUs[0][1]
				// what comes before the key frame is left out from some unit on, which may be the first
				to := at[g.Int(0, len(at)-1)]
				from := g.Int(0, to)
				var p part
				p.join(part{c.TUs[:from], nil})
				u := c.TUs[to]
				if u[1].Type != 1 {
					u = append([]aom.OBU{u[0], seq}, u[1:]...)
				}
				p.tus = append(append(p.tus, u), c.TUs[to+1:]...)
				for _, x := range r.Pics {
					y := *x
					if x.Unit >= to {
						y.Unit -= to - from
					} else if x.Unit >= from {
						continue
					}
					p.pics = append(p.pics, &y)
				}
				p.decode(g)
				if to > from {
					g.NonTrivial()
				}
			}},
		}})
}
