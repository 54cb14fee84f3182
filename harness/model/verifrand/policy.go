package verifrand

import (
	"strings"

	genshared "github.com/m4tthewde/gov1/internal/verifgen/shared"
	"github.com/m4tthewde/gov1/internal/verifgen/symbol"
	gentile "github.com/m4tthewde/gov1/internal/verifgen/tilegroup"
)

// policy chooses the symbols of a stream. Every place where symbols are read has its own way.
type policy struct {
	seed   uint64
	how    []int // 0: by probability, 1: all alike, 2: mostly one symbol, 3: half and half
	fav    []int
	of8    []int
	count  int
	limit  int // symbols per tile
	segs   int // segments in use
	encs   int
	d      *gen
	dv     [2]int // where a block is copied from
	copy   bool   // such a block is being made
	copied int    // blocks
	queue  []int  // symbols that are settled
	ss422  bool   // partitions into upright blocks are invalid
}

func newPolicy(c *Case, seed uint64) *policy {
	p := &policy{seed: seed, ss422: c.Seq.SX && !c.Seq.SY}
	for _, n := range symbol.Sites {
		how, fav, of8 := 0, int(p.next()&0xffff), 6
		if int(p.next()%8) >= c.Plain {
			how = 1 + int(p.next()%3)
		}
		if n == "coeffs.golombLengthBit" && how == 2 { // endless
			fav = 1
		}
		if f, ok := c.Favor[n]; ok {
			how, fav, of8 = 2, f.Symbol, f.Of8
		}
		p.how, p.fav, p.of8 = append(p.how, how), append(p.fav, fav), append(p.of8, of8)
	}
	return p
}

// again draws new ways for some places.
func (p *policy) again(c *Case) {
	q := newPolicy(c, p.next())
	for i := range p.how {
		if p.next()%3 == 0 {
			p.how[i], p.fav[i], p.of8[i] = q.how[i], q.fav[i], q.of8[i]
		}
	}
}

func (p *policy) next() uint64 {
	p.seed += 0x9e3779b97f4a7c15
	z := p.seed
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (p *policy) choose(site int, cdf []int) int {
	if symbol.Sites[site] == "readSegmentId.SegmentId" {
		v := p.draw(site, cdf)
		if v >= p.segs {
			v = int(p.next()>>8) % p.segs
		}
		return v
	}
	if p.d != nil && p.d.copies {
		switch n := symbol.Sites[site]; {
		case n == "intraFrameModeInfo.useIntrabc":
			p.copy = false
			if p.draw(site, cdf) == 1 {
				p.copy = p.source()
			}
			if p.copy {
				p.copied++
				return 1
			}
			return 0
		case n == "readMv.mvJoint" && p.copy:
			p.copy = false
			p.queue = p.vector()
			fallthrough
		case strings.HasPrefix(n, "readMv") && len(p.queue) > 0:
			v := p.queue[0]
			p.queue = p.queue[1:]
			return v
		}
	}
	if p.ss422 {
		switch symbol.Sites[site] {
		case "partitionElement":
			for {
				switch v := p.draw(site, cdf); v {
				case 2, 6, 7, 9:
					p.seed++
					if p.count >= p.limit || p.next()&15 == 0 {
						return 3
					}
				default:
					return v
				}
			}
		case "splitOrVertElement":
			return 1
		}
	}
	return p.draw(site, cdf)
}

func (p *policy) draw(site int, cdf []int) int {
	n := len(cdf) - 1
	if len(symbol.Tiles) != p.encs {
		p.encs, p.count = len(symbol.Tiles), 0
	}
	if p.count++; p.count > p.limit { // the most probable symbol
		best, at, last := 0, 0, 0
		for i := 0; i < n; i++ {
			if cdf[i]-last > best {
				best, at = cdf[i]-last, i
			}
			last = cdf[i]
		}
		return at
	}
	r := p.next()
	any := int(r>>8) % n
	switch how := p.how[site]; {
	case how == 1, how == 3 && r&1 == 1:
		return any
	case how == 2 && int(r&7) < p.of8[site]:
		switch f := p.fav[site]; f {
		case -2:
			return any
		case -1:
			return n - 1
		default:
			return f % n
		}
	}
	v, s := int(r>>8&32767), 0
	for cdf[s] <= v {
		s++
	}
	return s
}

// source chooses where the block at hand is copied from, in samples; some blocks have no such place.
func (p *policy) source() bool {
	st, seq := p.d.st, p.d.seq
	w, h := genshared.BLOCK_WIDTH[st.MiSize], genshared.BLOCK_HEIGHT[st.MiSize]
	x, y := st.MiCol*4, st.MiRow*4
	x0, x1, y0, y1 := st.MiColStart*4, st.MiColEnd*4, st.MiRowStart*4, st.MiRowEnd*4
	if !seq.Mono && gentile.Current.HasChroma { // smaller chroma blocks are those of two or more blocks
		if w < 8 && seq.SX {
			x0 += 4
		}
		if h < 8 && seq.SY {
			y0 += 4
		}
	}
	sb, grad := 64, 5
	if seq.SB128 {
		sb, grad = 128, 6
	}
	n := (st.MiColEnd-st.MiColStart-1)>>4 + 1
	row, col := y/sb, x>>6
	for k := 0; k < 40; k++ {
		if x1-w < x0 || y1-h < y0 || y-h < y0-sb {
			return false
		}
		a := x0 + int(p.next()>>8)%(x1-w-x0+1)
		b := y0 + int(p.next()>>8)%(y1-h-y0+1)
		switch p.next() % 4 {
		case 0:
			a = x
		case 1:
			b = y
		case 2:
			b = (row+1)*sb - h - sb
		}
		if a < x0 || b < y0 || a+w > x1 || b+h > y1 {
			continue
		}
		r, c := (b+h-1)/sb, (a+w-1)>>6
		if r*n+c >= row*n+col-4 || r > row || c >= col-4+grad*(row-r) {
			continue
		}
		p.dv = [2]int{b - y, a - x}
		return true
	}
	return false
}

// vector codes the vector to that place.
func (p *policy) vector() []int {
	var d [2]int
	for i := range d {
		d[i] = p.dv[i] - gentile.Current.PredMv[0][i]/8
	}
	q := []int{0}
	if d[0] != 0 {
		q[0] = 2
	}
	if d[1] != 0 {
		q[0]++
	}
	for _, v := range d {
		if v == 0 {
			continue
		}
		s := 0
		if v < 0 {
			s, v = 1, -v
		}
		if v <= 2 {
			q = append(q, s, 0, v-1)
			continue
		}
		k := 1
		for v > 2<<uint(k) {
			k++
		}
		q = append(q, s, k)
		for i, r := 0, v-1-1<<uint(k); i < k; i++ {
			q = append(q, r>>uint(i)&1)
		}
	}
	return q
}
