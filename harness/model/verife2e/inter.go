package verife2e

import (
	aom "github.com/m4tthewde/gov1/internal/verifaom"
	kit "github.com/m4tthewde/gov1/internal/verifkit"
)

// Flags of the reference encoder, per picture.
const (
	ForceKey    = 1
	NoRefLast   = 1 << 16
	NoRefLast2  = 1 << 17
	NoRefLast3  = 1 << 18
	NoRefGolden = 1 << 19
	NoRefAlt    = 1 << 20
	NoRefBwd    = 1 << 21
	NoRefAlt2   = 1 << 22
	NoUpdLast   = 1 << 23
	NoUpdGolden = 1 << 24
	NoUpdAlt    = 1 << 25
	NoUpdCdf    = 1 << 26
	NoRefMvs    = 1 << 27
	Resilient   = 1 << 28
	SFrame      = 1 << 29
	NoPrimary   = 1 << 30
)

// Motion draws content that moves.
func (c *Case) Motion(g *kit.G) {
	c.Content = aom.Content{Kind: g.Pick(5, 5, 2, 8, 8, 7, 6, 1, 3, 4), Seed: g.Un(1 << 32), Scale: float64(g.Int(3, 30)) / 10}
	if g.Chance(1, 3) {
		c.Content.Noise = g.Int(1, 25)
	}
	if g.Chance(3, 4) {
		c.Content.DX = float64(g.Int(-48, 48)) / 8
		c.Content.DY = float64(g.Int(-48, 48)) / 8
	}
	if g.Chance(1, 3) {
		c.Content.Rot = float64(g.Int(-40, 40)) / 500
	}
	if g.Chance(1, 3) {
		c.Content.Zoom = float64(g.Int(-40, 40)) / 800
	}
	if g.Chance(1, 8) {
		c.Content.Cut = g.Int(1, c.N)
	}
}

// Inter draws settings for sequences of pictures; earlier settings of the case win.
func (c *Case) Inter(g *kit.G) {
	off := func(key string, n, d int) {
		if g.Chance(n, d) {
			c.Set(key, 0)
		}
	}
	on := func(key string, n, d int, vals ...int) {
		if g.Chance(n, d) {
			c.Set(key, g.Pick(vals...))
		}
	}
	if !c.set["g_lag_in_frames"] {
		c.Set("g_lag_in_frames", g.Pick(0, 0, c.N, c.N+1, 19))
	}
	c.Set("-enable-intrabc", g.Pick(0, 0, 0, 1))
	c.Set("-cpu-used", g.Pick(1, 1, 1, 2, 3, 5))
	if !c.set["rc_min_quantizer"] {
		if g.Bool() {
			c.Q(g)
		} else {
			lo := g.Int(8, 50)
			c.Set("rc_min_quantizer", lo)
			c.Set("rc_max_quantizer", min(63, lo+g.Int(0, 12)))
		}
	}
	if g.Chance(1, 20) {
		c.Lossless()
	}
	off("-enable-cdef", 1, 4)
	off("-enable-restoration", 1, 3)
	off("-enable-global-motion", 1, 5)
	off("-enable-warped-motion", 1, 8)
	off("-enable-obmc", 1, 8)
	off("-enable-ref-frame-mvs", 1, 6)
	off("-enable-dual-filter", 1, 5)
	off("-enable-dist-wtd-comp", 1, 8)
	off("-enable-masked-comp", 1, 8)
	off("-enable-interintra-comp", 1, 8)
	off("-enable-smooth-interintra", 1, 8)
	off("-enable-diff-wtd-comp", 1, 8)
	off("-enable-interinter-wedge", 1, 8)
	off("-enable-interintra-wedge", 1, 8)
	off("-enable-onesided-comp", 1, 8)
	off("-enable-rect-partitions", 1, 10)
	off("-enable-tx64", 1, 10)
	off("-enable-order-hint", 1, 14)
	on("-reduced-reference-set", 1, 10, 1)
	on("-max-reference-frames", 1, 8, 3, 4, 5, 6)
	on("-min-partition-size", 1, 14, 8, 16)
	on("-max-partition-size", 1, 8, 8, 16, 32, 64)
	on("-sb-size", 1, 2, 64, 128)
	on("-tile-columns", 1, 8, 1, 2)
	on("-tile-rows", 1, 8, 1, 2)
	on("-num-tile-groups", 1, 8, 2, 3)
	if g.Chance(1, 8) {
		lo := g.Int(0, 15)
		c.Set("-enable-qm", 1)
		c.Set("-qm-min", lo)
		c.Set("-qm-max", min(15, lo+g.Int(0, 5)))
	}
	on("-deltaq-mode", 1, 8, 1, 2)
	on("-delta-lf-mode", 1, 8, 1)
	on("-aq-mode", 1, 4, 1, 2, 3)
	on("-reduced-tx-type-set", 1, 10, 1)
	on("-use-inter-dct-only", 1, 14, 1)
	on("-cdf-update-mode", 1, 8, 0, 1, 2)
	on("-frame-parallel", 1, 8, 1)
	on("g_error_resilient", 1, 12, 1)
	on("-loopfilter-control", 1, 8, 0)
	on("-sharpness", 1, 8, 1, 4, 7)
	on("-enable-overlay", 1, 8, 0)
	on("-gf-max-pyr-height", 1, 6, 0, 1, 2, 3)
	on("-max-gf-interval", 1, 8, 4, 8)
	on("-enable-keyframe-filtering", 1, 4, 0)
	if !c.set["g_error_resilient"] && g.Chance(1, 10) { // with both, the encoder signals order hints that its references do not have
		c.Set("kf_max_dist", g.Int(2, 5))
		c.keys = true
	}
	if c.W >= 32 && g.Chance(1, 8) {
		c.Superres(g)
	} else if c.W >= 32 && c.H >= 32 && g.Chance(1, 8) {
		c.Resize(g)
	}
	on("-tune-content", 1, 8, 1)
	on("-enable-tpl-model", 1, 4, 0)
	if c.Flags == nil && g.Chance(1, 4) {
		c.RandomFlags(g)
	}
}

// Superres asks for superres.
func (c *Case) Superres(g *kit.G) {
	m := g.Pick(1, 1, 2)
	c.Set("rc_superres_mode", m)
	c.Set("rc_superres_denominator", g.Int(9, 16))
	c.Set("rc_superres_kf_denominator", g.Int(9, 16))
}

// Resize asks for references of another size.
func (c *Case) Resize(g *kit.G) {
	c.Set("rc_resize_mode", 1)
	c.Set("rc_resize_denominator", g.Int(8, 16))
	c.Set("rc_resize_kf_denominator", g.Int(8, 16))
}

// RandomFlags draws flags per picture.
func (c *Case) RandomFlags(g *kit.G) {
	c.Flags = make([]int, c.N)
	keys := c.keys || !c.set["g_error_resilient"] && g.Chance(1, 3)
	all := []int{NoRefLast, NoRefLast2, NoRefLast3, NoRefGolden, NoRefAlt, NoRefBwd, NoRefAlt2, NoUpdLast, NoUpdGolden, NoUpdAlt, NoUpdCdf, NoRefMvs, Resilient, NoPrimary, SFrame, ForceKey}
	for i := range c.Flags {
		for _, f := range all {
			if (f == SFrame || f == Resilient) && keys || f == ForceKey && !keys {
				continue
			}
			d := 6
			if f == SFrame || f == ForceKey {
				d = 16
			}
			if g.Chance(1, d) {
				c.Flags[i] |= f
			}
		}
		if c.Flags[i]&NoRefLast != 0 { // the encoder wants one of the two
			c.Flags[i] &^= NoRefAlt
		}
	}
}

// InterSub is a sub-check over sequences of pictures.
func InterSub(name string, quick int, focus func(g *kit.G, c *Case), nontrivial func(r *Result) bool, labels ...string) kit.Sub {
	return kit.Sub{Name: name, Quick: quick, Case: func(g *kit.G) {
		c := &Case{N: g.Int(2, 6)}
		if g.Chance(1, 8) {
			c.N = g.Int(7, 18)
		}
		c.Format(g)
		if c.N > 6 {
			c.Size(g, 72, 72)
		} else {
			c.Size(g, 112, 112)
		}
		c.Motion(g)
		if focus != nil {
			focus(g, c)
		}
		c.Inter(g)
		r := c.Run(g)
		if nontrivial(r) {
			g.NonTrivial()
		}
		r.Stats.Labels(g, labels...)
	}}
}
