package verifaom

import "math"

// Content describes a synthetic moving picture, a pure function of its fields.
type Content struct {
	Kind              int // 0 flat, 1 gradient, 2 texture, 3 screen (few colours), 4 noise, 5 moving boxes, 6 repeated tiles, 7 edges, 8 patchwork of the others
	Seed              uint64
	Noise             int     // amplitude of added noise
	DX, DY, Rot, Zoom float64 // motion per picture
	Cut               int     // picture from which the content changes entirely, 0 = never
	Scale             float64
}

const Kinds = 9

func mix(z uint64) uint64 {
	z += 0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (c *Content) h(v ...int) uint64 {
	x := c.Seed
	for _, i := range v {
		x = mix(x ^ uint64(i)*0x9e3779b97f4a7c15)
	}
	return x
}

func (c *Content) value(x, y float64, plane, t int) float64 { // 0..1
	ix, iy := int(math.Floor(x)), int(math.Floor(y))
	if c.Kind == 8 {
		cell := 8 << (c.h(19) % 4)
		cc := *c
		cc.Seed = c.h(21, ix/cell, iy/cell)
		cc.Kind = int(c.h(22, ix/cell, iy/cell) % 8)
		return cc.value(x, y, plane, t)
	}
	switch c.Kind {
	case 0:
		return float64(c.h(plane)%256) / 255
	case 1:
		a := float64(c.h(plane, 1)%628) / 100
		v := (x*math.Cos(a) + y*math.Sin(a)) * c.Scale / 40
		return 0.5 + 0.5*math.Sin(v)
	case 2:
		v := 0.0
		for k := 0; k < 4; k++ {
			a := float64(c.h(plane, 2, k)%628) / 100
			f := c.Scale * float64(1+c.h(plane, 3, k)%30) / 60
			v += math.Sin((x*math.Cos(a)+y*math.Sin(a))*f + float64(c.h(plane, 4, k)%628)/100)
		}
		return 0.5 + v/8
	case 3:
		n := int(2 + c.h(5)%7)
		return float64(c.h(7, plane, int(c.h(6, ix/2, iy/3)%uint64(n)))%256) / 255
	case 4:
		return float64(c.h(8, plane, ix, iy)%256) / 255
	case 5:
		v := 0.4 + 0.2*math.Sin(x/17+float64(plane)) + 0.1*math.Cos(y/11)
		for k := 0; k < 4; k++ {
			bx := float64(c.h(9, k)%96) + float64(t)*(float64(c.h(10, k)%64)/8-4)
			by := float64(c.h(11, k)%96) + float64(t)*(float64(c.h(12, k)%64)/8-4)
			w, h := float64(6+c.h(13, k)%40), float64(6+c.h(14, k)%40)
			if x >= bx && x < bx+w && y >= by && y < by+h {
				v = float64(c.h(15, k, plane)%256)/255 + 0.15*math.Sin((x-bx)*c.Scale)
			}
		}
		return v
	case 6:
		p := int(8 + c.h(16)%9)
		m := func(a int) int { return ((a % p) + p) % p }
		return float64(c.h(17, plane, m(ix)/2, m(iy))%5) / 4
	default:
		a := float64(c.h(18)%628) / 100
		v := math.Mod((x*math.Cos(a)+y*math.Sin(a))*c.Scale/12+1000, 1)
		if v < 0.5 {
			return 0.2 + 0.1*float64(plane)
		}
		return 0.8 - 0.15*float64(plane)
	}
}

// Render draws pictures t = 0..n-1.
func (c Content) Render(w, h, depth int, mono, sx, sy bool, n int) []*Pic {
	var r []*Pic
	for t := 0; t < n; t++ {
		p := NewPic(w, h, depth, mono, sx, sy)
		cc := c
		if c.Cut > 0 && t >= c.Cut {
			cc.Seed = mix(c.Seed)
			cc.Kind = int(cc.Seed % Kinds)
		}
		max := float64(int(1)<<uint(depth) - 1)
		sin, cos := math.Sin(c.Rot*float64(t)), math.Cos(c.Rot*float64(t))
		z := math.Exp(c.Zoom * float64(t))
		for pl := range p.Planes {
			fx, fy := 1.0, 1.0
			if pl > 0 && sx {
				fx = 2
			}
			if pl > 0 && sy {
				fy = 2
			}
			for y, row := range p.Planes[pl] {
				for x := range row {
					X, Y := float64(x)*fx-float64(w)/2, float64(y)*fy-float64(h)/2
					u := (X*cos-Y*sin)*z + float64(t)*c.DX + float64(w)/2
					v := (X*sin+Y*cos)*z + float64(t)*c.DY + float64(h)/2
					s := cc.value(u, v, pl, t) * max
					if c.Noise > 0 {
						s += (float64(cc.h(20, pl, x, y, t)%1000)/500 - 1) * float64(c.Noise) * max / 255
					}
					row[x] = int(math.Max(0, math.Min(max, s)))
				}
			}
		}
		r = append(r, p)
	}
	return r
}
