// Package verifdec drives the decoder under test over a length-delimited stream.
package verifdec

import (
	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/header"
	"github.com/m4tthewde/gov1/internal/logger"
	"github.com/m4tthewde/gov1/internal/obu"
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	"go.uber.org/zap"

	aom "github.com/m4tthewde/gov1/internal/verifaom"
)

// Dec is a decoder with its state.
type Dec struct {
	B       *bitstream.BitStream
	State   *state.State
	SH      sequenceheader.SequenceHeader
	UH      uncompressedheader.UncompressedHeader
	Pics    []*aom.Pic
	Unit    int
	After   func(*Dec)                              // called after every frame header or frame
	Write   func(o aom.OBU) []byte                  // how Units writes OBUs; nil: with size fields
	Read    func(o aom.OBU, n int)                  // called with the bits read and the OBU after each OBU
	Headers []uncompressedheader.UncompressedHeader // of the frame headers, in order
}

func New() *Dec {
	logger.Logger = zap.NewNop()
	return &Dec{State: &state.State{}}
}

// OBU decodes one OBU given as bytes (with or without size field).
func (d *Dec) OBU(data []byte) obu.Obu {
	b := bitstream.NewBitStream(append(append([]byte{}, data...), 0, 0, 0, 0))
	d.B = &b
	o := obu.NewObu(len(data), d.State, d.B, d.SH, d.UH)
	switch o.Header.Type {
	case header.OBU_SEQUENCE_HEADER:
		d.SH = o.SequenceHeader
	case header.OBU_FRAME_HEADER, header.OBU_FRAME:
		d.UH = o.UncompressedHeader
		d.Headers = append(d.Headers, d.UH)
	}
	if o.TileGroup.OutY != nil {
		p := &aom.Pic{Depth: d.SH.ColorConfig.BitDepth, Mono: d.SH.ColorConfig.MonoChrome, SubX: d.SH.ColorConfig.SubsamplingX, SubY: d.SH.ColorConfig.SubsamplingY, Unit: d.Unit}
		p.H = len(o.TileGroup.OutY)
		p.W = len(o.TileGroup.OutY[0])
		p.Planes = [3][][]int{o.TileGroup.OutY, o.TileGroup.OutU, o.TileGroup.OutV}
		d.Pics = append(d.Pics, p)
	}
	if d.After != nil && o.Header.Type != header.OBU_SEQUENCE_HEADER && o.Header.Type != header.OBU_TEMPORAL_DELIMITER {
		d.After(d)
	}
	return o
}

// Units decodes temporal units and returns the pictures output.
func (d *Dec) Units(tus [][]aom.OBU) []*aom.Pic {
	for i, tu := range tus {
		d.Unit = i
		for _, o := range tu {
			if d.Write == nil {
				d.OBU(o.Bytes(true))
				continue
			}
			d.OBU(d.Write(o))
			if d.Read != nil {
				d.Read(o, d.B.Position)
			}
		}
	}
	return d.Pics
}
