package vpc03

import (
	"reflect"

	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	aom "github.com/m4tthewde/gov1/internal/verifaom"
	"github.com/m4tthewde/gov1/internal/verifdec"
	hdr "github.com/m4tthewde/gov1/internal/verifhdr"
	kit "github.com/m4tthewde/gov1/internal/verifkit"
)

// headers runs sequences of OBUs that hold no frames, or frames outside of the operating point,
// against a model: header fields, size, position, and which of them change the sequence header.
func headers(g *kit.G) {
	d := verifdec.New()
	idc := 0
	var sh sequenceheader.SequenceHeader
	n := g.Int(2, 12)
	for i := 0; i < n; i++ {
		o := aom.OBU{Type: g.Pick(1, 1, 2, 3, 4, 6, 7, 8, 5, 15, 0, 9, 10, 11, 12, 13, 14), Ext: int(g.Bits(8))}
		if g.Chance(1, 3) {
			o.Ext = -1
		}
		if i == 0 {
			o.Type = 1
		}
		out := o.Ext >= 0 && idc != 0 && o.Type != 1 && o.Type != 2 &&
			(idc>>uint(o.Ext>>5)&1 == 0 || idc>>uint(8+o.Ext>>3&3)&1 == 0)
		if !out && (o.Type == 3 || o.Type == 4 || o.Type == 6 || o.Type == 7 || o.Type == 8) {
			o.Type = 5
		}
		switch {
		case o.Type == 1:
			s := hdr.GenSeq(g)
			o.Payload = s.Bytes()
			b := bitstream.NewBitStream(append(append([]byte{}, o.Payload...), 0, 0, 0, 0))
			sh = sequenceheader.NewSequenceHeader(&b, &state.State{})
			idc = s.Ops[0].Idc
		case o.Type == 2:
		case o.Type == 15 && !out:
			if k := g.Sized(0, 20); k > 0 {
				o.Payload = append(g.Bytes(k), 0x80)
			}
		default:
			o.Payload = g.Bytes(g.Sized(0, 40))
		}
		size := g.Bool()
		data := o.Bytes(size)
		reserved := g.Chance(1, 4) // ignored by decoders
		if reserved {
			data[0] |= 1
		}
		g.Descf("OBU type %d ext %d, %d bytes, size field %v;", o.Type, o.Ext, len(o.Payload), size)
		got := d.OBU(data)
		h := got.Header
		g.EqInt("type", h.Type, o.Type)
		g.Eq("extension flag", h.ExtensionFlag, o.Ext >= 0)
		g.Eq("size flag", h.HasSizeField, size)
		g.Eq("reserved bit", h.ReservedBit, reserved)
		g.Eq("forbidden bit", h.ForbiddenBit, false)
		if o.Ext >= 0 {
			g.EqInt("temporal id", h.ExtensionHeader.TemporalID, o.Ext>>5)
			g.EqInt("spatial id", h.ExtensionHeader.SpatialID, o.Ext>>3&3)
			g.EqInt("extension reserved bits", h.ExtensionHeader.Reserved3Bits, o.Ext&7)
		}
		g.EqInt("size", got.Size, len(o.Payload))
		g.EqInt("position", d.B.Position, 8*len(data))
		g.EqInt("operating point", d.State.OperatingPointIdc, idc)
		if !reflect.DeepEqual(got.SequenceHeader, sh) {
			g.Failf("after OBU of type %d with extension %d: the sequence header is not that of the last sequence header OBU", o.Type, o.Ext)
		}
		if out {
			g.Class("dropped")
			g.NonTrivial()
		}
		if i > 0 && o.Type == 1 {
			g.Class("another sequence header")
			g.NonTrivial()
		}
	}
}
