#!/usr/bin/env python3
"""Copies the decoder of /repo to harness/model/verifgen, where it serves as a part of
the generator of random-tile streams: it says where in random data a tile ends. It is
never an oracle. Run once, by hand; the checks use the committed copy."""
import os, re, shutil
SRC, DST = "/repo/internal", "/verif/harness/model/verifgen"
sites = []
shutil.rmtree(DST, ignore_errors=True)
for d, _, fs in os.walk(SRC):
    for f in fs:
        if not f.endswith(".go") or f.endswith("_test.go"):
            continue
        rel = os.path.relpath(os.path.join(d, f), SRC)
        if rel.split("/")[0] in ("parser",):
            continue
        s = open(os.path.join(SRC, rel)).read()
        s = s.replace("github.com/m4tthewde/gov1/internal/", "github.com/m4tthewde/gov1/internal/verifgen/")
        if rel == "tilegroup/tile_group.go":
            a = "	b.Position += util.Max(0, state.SymbolMaxBits)\n"
            assert s.count(a) == 1
            s = s.replace(a, "	TileLeft = append(TileLeft, state.SymbolMaxBits)\n" + a)
            s += "\n// TileLeft is SymbolMaxBits at the end of each tile.\nvar TileLeft []int\n\n// Current is the tile group that is being decoded.\nvar Current *TileGroup\n"
        if rel == "tilegroup/transform.go":  # notes what conforming streams never have
            for a, b in [
                ("	t.T[b] = util.Round2(y, 12)\n}\n", "	t.T[b] = util.Round2(y, 12)\n	fits(t.T[a], r)\n	fits(t.T[b], r)\n}\n"),
                ("	t.T[0] = util.Round2(x[0], 12)\n", "	for _, v := range append(s[:], x[:]...) {\n		fits(v, r+12)\n	}\n	fits(a7, r+1)\n	fits(b7, r)\n	t.T[0] = util.Round2(x[0], 12)\n"),
                ("t.inverseWalshHadamardTransform(2)\n", "t.inverseWalshHadamardTransform(2)\n			for _, v := range t.T[:4] {\n				fits(v, 16)\n			}\n"),
                ("t.inverseWalshHadamardTransform(0)\n", "t.inverseWalshHadamardTransform(0)\n			for _, v := range t.T[:4] {\n				fits(v, 16)\n			}\n"),
            ]:
                assert s.count(a) == 1, a
                s = s.replace(a, b)
            s += """
// Overflow says that an intermediate value of an inverse transform was too large.
var Overflow bool

func fits(v, r int) {
	if v < -(1<<uint(r-1)) || v >= 1<<uint(r-1) {
		Overflow = true
	}
}
"""
        if rel.startswith("tilegroup/"):  # every place that reads a symbol gets a number
            fn, out = "", []
            for l in s.split("\n"):
                m = re.match(r"func (?:\([^)]*\) )?(\w+)", l)
                if m:
                    fn = m.group(1)
                if re.search(r"symbol\.ReadSymbol\(|literal\.(L|NS)\(", l):
                    m = re.match(r"\s*([\w.]+)(\[.*?\])* :?= ", l)
                    v = m.group(1).split(".")[-1] if m else ""
                    sites.append(fn + ("." + v if v else ""))
                    l, k = re.subn(r"symbol\.ReadSymbol\(|literal\.(L|NS)\(", lambda m: m.group(0)[:-1] + f"At({len(sites) - 1}, ", l)
                    assert k == 1, l
                out.append(l)
            s = "\n".join(out)
        if rel == "tilegroup/tile_group.go":
            for a, b in [
                ("		t.initSymbol(tileSize, b, state)\n", "		t.initSymbol(tileSize, b, state)\n		symbol.Begin()\n		Current = t\n"),
                ("		t.exitSymbol(b, state, uh)\n", "		symbol.End()\n		t.exitSymbol(b, state, uh)\n"),
            ]:
                assert s.count(a) == 1, a
                s = s.replace(a, b)
            if "/symbol\"" not in s:
                s = s.replace("import (", "import (\n	\"github.com/m4tthewde/gov1/internal/verifgen/symbol\"", 1)
        if rel == "literal/literal.go":
            s = s.replace("func L(", "func LAt(site int, ").replace("func NS(", "func NSAt(site int, ").replace("func readBool(", "func readBool(site int, ")
            s = s.replace("readBool(state,", "readBool(site, state,").replace(" L(", " LAt(site, ").replace("symbol.ReadSymbol(", "symbol.ReadSymbolAt(site, ")
        if rel == "symbol/symbol.go":
            s = s.replace("func ReadSymbol(", "func ReadSymbolAt(site int, ")
            a = "	cur := state.SymbolRange\n	symbol := -1\n"
            e = "	if !uh.DisableCdfUpdate {\n"
            assert s.count(a) == 1 and s.count(e) == 1
            i, j = s.index(a), s.index(e)
            s = s[:i] + "	symbol := -1\n	if Choose != nil {\n		symbol = Choose(site, cdf)\n		enc.Put(symbol, cdf)\n	} else {\n" + s[i:j].replace("	symbol := -1\n", "") + "	}\n\n" + s[j:]
        os.makedirs(os.path.dirname(os.path.join(DST, rel)), exist_ok=True)
        open(os.path.join(DST, rel), "w").write(s)

open(os.path.join(DST, "symbol", "encode.go"), "w").write("""package symbol

// Choose says which symbol comes next at a place; without it, symbols are read.
var Choose func(site int, cdf []int) int

// Tiles has the data of the tiles chosen so far.
var Tiles [][]byte

var enc *Encoder

// Begin starts a tile.
func Begin() { enc = NewEncoder() }

// End ends a tile.
func End() {
	if Choose != nil {
		Tiles = append(Tiles, enc.Done())
	}
}

// Encoder is a range encoder.
type Encoder struct {
	low  uint64
	rng  uint64
	cnt  int
	out  []uint16
	Syms int
}

func NewEncoder() *Encoder { return &Encoder{rng: 0x8000, cnt: -9} }

// Put encodes a symbol.
func (e *Encoder) Put(s int, cdf []int) {
	e.Syms++
	n := len(cdf) - 2
	r := e.rng
	at := func(s int) uint64 {
		return (r>>8)*uint64((32768-cdf[s])>>6)>>1 + uint64(4*(n-s))
	}
	v := at(s)
	low, rng := e.low, r-v
	if s > 0 {
		u := at(s - 1)
		low, rng = low+r-u, u-v
	}
	d := 0
	for rng<<uint(d) < 0x8000 {
		d++
	}
	c := e.cnt
	k := c + d
	if k >= 0 {
		c += 16
		m := uint64(1)<<uint(c) - 1
		if k >= 8 {
			e.out = append(e.out, uint16(low>>uint(c)))
			low &= m
			c -= 8
			m >>= 8
		}
		e.out = append(e.out, uint16(low>>uint(c)))
		k = c + d - 24
		low &= m
	}
	e.low, e.rng, e.cnt = low<<uint(d), rng<<uint(d), k
}

// Done ends the data with the trailing bit.
func (e *Encoder) Done() []byte {
	c := e.cnt
	s := 10 + c
	x := (e.low+0x3fff)&^0x3fff | 0x4000
	out := e.out
	if s > 0 {
		n := uint64(1)<<uint(c+16) - 1
		for {
			out = append(out, uint16(x>>uint(c+16)))
			x &= n
			s -= 8
			c -= 8
			n >>= 8
			if s <= 0 {
				break
			}
		}
	}
	b := make([]byte, len(out))
	carry := 0
	for i := len(out) - 1; i >= 0; i-- {
		carry += int(out[i])
		b[i] = byte(carry)
		carry >>= 8
	}
	return b
}

// Sites are the names of the places.
var Sites = []string{
""" + "".join(f"	{chr(34)}{x}{chr(34)},\n" for x in sites) + "}\n")
