package vpc21

import (
	"github.com/m4tthewde/gov1/internal/tilegroup"
	gentile "github.com/m4tthewde/gov1/internal/verifgen/tilegroup"
	kit "github.com/m4tthewde/gov1/internal/verifkit"
)

// The tables of the model are those in the binary of libaom 3.8 (tools/tables.py).
func init() {
	tables = append(tables, kit.Sub{Name: "table-entries", Quick: 4000, Thorough: 40000, Case: func(g *kit.G) {
		depth, q := g.Int(0, 2), g.Int(0, 255)
		g.Descf("depth %d q %d", 8+2*depth, q)
		g.EqInt("dc", tilegroup.Dc_Qlookup[depth][q], gentile.Dc_Qlookup[depth][q])
		g.EqInt("ac", tilegroup.Ac_Qlookup[depth][q], gentile.Ac_Qlookup[depth][q])
		level, plane := g.Int(0, 14), g.Int(0, 1)
		at := g.Int(0, 3343)
		g.Descf("level %d plane %d from %d", level, plane, at)
		for i := at; i < 3344 && i < at+300; i++ {
			if x, y := tilegroup.Quantizer_Matrix[level][plane][i], gentile.Quantizer_Matrix[level][plane][i]; x != y {
				g.Failf("matrix of level %d, plane type %d, entry %d is %d, not %d", level, plane, i, x, y)
			}
		}
		g.NonTrivial()
	}})
}
