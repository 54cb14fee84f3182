// Package verifaom talks to aomtool, a helper process around the libaom encoder
// and decoder, which serve as stream generator and reference decoder.
package verifaom

import (
	"bufio"
	"encoding/binary"
	"fmt"
	"io"
	"os"
	"os/exec"
)

// Pic is one picture: up to three planes of samples.
type Pic struct {
	W, H, Depth int
	Mono        bool
	SubX, SubY  bool
	Unit        int // temporal unit it came from
	Planes      [3][][]int
}

func PlaneSize(w, h, p int, sx, sy bool) (int, int) {
	if p > 0 && sx {
		w = (w + 1) / 2
	}
	if p > 0 && sy {
		h = (h + 1) / 2
	}
	return w, h
}

func NewPic(w, h, depth int, mono, sx, sy bool) *Pic {
	p := &Pic{W: w, H: h, Depth: depth, Mono: mono, SubX: sx, SubY: sy}
	for i := range p.Planes {
		if i > 0 && mono {
			break
		}
		pw, ph := PlaneSize(w, h, i, sx, sy)
		p.Planes[i] = make([][]int, ph)
		for y := range p.Planes[i] {
			p.Planes[i][y] = make([]int, pw)
		}
	}
	return p
}

// Opt is a field of the encoder configuration, or an encoder option (Key starts with -).
type Opt struct{ Key, Val string }

type Tool struct {
	cmd *exec.Cmd
	in  *bufio.Writer
	out *bufio.Reader
}

var shared *Tool

// Get returns the helper process, starting it if need be; nil if it is not available.
func Get() *Tool {
	if shared != nil {
		return shared
	}
	path := os.Getenv("VERIF_AOMTOOL")
	if path == "" {
		return nil
	}
	c := exec.Command(path)
	c.Stderr = os.Stderr
	in, err := c.StdinPipe()
	if err != nil {
		return nil
	}
	out, err := c.StdoutPipe()
	if err != nil || c.Start() != nil {
		return nil
	}
	shared = &Tool{c, bufio.NewWriterSize(in, 1<<16), bufio.NewReaderSize(out, 1<<16)}
	return shared
}

func (t *Tool) fail(err error) {
	if shared == t {
		shared = nil
	}
	t.cmd.Process.Kill()
	t.cmd.Wait()
	panic(ToolError{fmt.Sprint("aomtool: ", err)})
}

// ToolError is the panic value when the helper process itself fails.
type ToolError struct{ Msg string }

func (t *Tool) w32(v ...int) {
	for _, x := range v {
		binary.Write(t.in, binary.LittleEndian, uint32(x))
	}
}

func (t *Tool) wbuf(b []byte) {
	t.w32(len(b))
	t.in.Write(b)
}

func (t *Tool) r32() int {
	var b [4]byte
	if _, err := io.ReadFull(t.out, b[:]); err != nil {
		t.fail(err)
	}
	return int(binary.LittleEndian.Uint32(b[:]))
}

func (t *Tool) rbuf() []byte {
	b := make([]byte, t.r32())
	if _, err := io.ReadFull(t.out, b); err != nil {
		t.fail(err)
	}
	return b
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// Encode returns the temporal units that libaom makes of the pictures.
func (t *Tool) Encode(pics []*Pic, flags []int, opts []Opt) ([][]byte, error) {
	p := pics[0]
	t.in.WriteByte('E')
	t.w32(p.W, p.H, b2i(p.SubX), b2i(p.SubY), p.Depth, b2i(p.Mono), len(pics), len(opts))
	for _, o := range opts {
		t.wbuf([]byte(o.Key))
		t.wbuf([]byte(o.Val))
	}
	for i, p := range pics {
		f := 0
		if i < len(flags) {
			f = flags[i]
		}
		t.w32(f)
		for pl := range p.Planes {
			if pl > 0 && p.Mono {
				break
			}
			for _, row := range p.Planes[pl] {
				for _, v := range row {
					t.in.WriteByte(byte(v))
					t.in.WriteByte(byte(v >> 8))
				}
			}
		}
	}
	if err := t.in.Flush(); err != nil {
		t.fail(err)
	}
	msg := string(t.rbuf())
	n := t.r32()
	var tus [][]byte
	for i := 0; i < n; i++ {
		tus = append(tus, t.rbuf())
	}
	if msg != "" {
		return tus, fmt.Errorf("%s", msg)
	}
	return tus, nil
}

// Controls of the decoder.
const (
	SkipFilmGrain   = 284
	OutputAllLayers = 276
	OperatingPoint  = 275
)

// Decode returns the pictures that libaom outputs for the temporal units.
func (t *Tool) Decode(tus [][]byte, ctl map[int]int) ([]*Pic, error) {
	t.in.WriteByte('D')
	t.w32(len(ctl))
	for k, v := range ctl {
		t.w32(k, v)
	}
	t.w32(len(tus))
	for _, u := range tus {
		t.wbuf(u)
	}
	if err := t.in.Flush(); err != nil {
		t.fail(err)
	}
	var pics []*Pic
	for t.r32() == 1 {
		unit, w, h, depth, mono, sx, sy := t.r32(), t.r32(), t.r32(), t.r32(), t.r32(), t.r32(), t.r32()
		p := NewPic(w, h, depth, mono != 0, sx != 0, sy != 0)
		p.Unit = unit
		for pl := range p.Planes {
			if pl > 0 && p.Mono {
				break
			}
			for _, row := range p.Planes[pl] {
				b := make([]byte, 2*len(row))
				if _, err := io.ReadFull(t.out, b); err != nil {
					t.fail(err)
				}
				for x := range row {
					row[x] = int(b[2*x]) | int(b[2*x+1])<<8
				}
			}
		}
		pics = append(pics, p)
	}
	msg := string(t.rbuf())
	if msg != "" {
		return pics, fmt.Errorf("%s", msg)
	}
	return pics, nil
}

// OBU is one open bitstream unit of a low-overhead stream.
type OBU struct {
	Type    int
	Ext     int // extension byte, -1 if none
	Payload []byte
}

// Split cuts a temporal unit in the low-overhead format into its OBUs.
func Split(tu []byte) []OBU {
	var r []OBU
	for len(tu) > 0 {
		h := tu[0]
		o := OBU{Type: int(h>>3) & 15, Ext: -1}
		tu = tu[1:]
		if h&4 != 0 {
			o.Ext = int(tu[0])
			tu = tu[1:]
		}
		sz := len(tu)
		if h&2 != 0 {
			sz = 0
			for i := 0; ; i++ {
				b := tu[0]
				tu = tu[1:]
				sz |= int(b&127) << (7 * i)
				if b&128 == 0 {
					break
				}
			}
		}
		o.Payload = tu[:sz]
		tu = tu[sz:]
		r = append(r, o)
	}
	return r
}

func Leb128(v int) []byte {
	var b []byte
	for {
		c := byte(v & 127)
		v >>= 7
		if v == 0 {
			return append(b, c)
		}
		b = append(b, c|128)
	}
}

// Bytes gives the OBU with or without its own size field.
func (o OBU) Bytes(size bool) []byte {
	h := byte(o.Type << 3)
	if o.Ext >= 0 {
		h |= 4
	}
	if size {
		h |= 2
	}
	b := []byte{h}
	if o.Ext >= 0 {
		b = append(b, byte(o.Ext))
	}
	if size {
		b = append(b, Leb128(len(o.Payload))...)
	}
	return append(b, o.Payload...)
}

// AnnexB packs temporal units given as OBUs into the length-delimited format:
// a temporal unit of frame units of OBUs. A frame unit ends with the OBU that
// completes a frame.
func AnnexB(tus [][]OBU, size func() bool) []byte {
	var out []byte
	for _, tu := range tus {
		var units, fu []byte
		end := func() {
			if len(fu) > 0 {
				units = append(units, Leb128(len(fu))...)
				units = append(units, fu...)
				fu = nil
			}
		}
		for i, o := range tu {
			b := o.Bytes(size())
			fu = append(fu, Leb128(len(b))...)
			fu = append(fu, b...)
			if i+1 < len(tu) && (o.Type == 6 || o.Type == 3 || o.Type == 4) && tu[i+1].Type != 4 && tu[i+1].Type != 7 {
				end()
			}
		}
		end()
		out = append(out, Leb128(len(units))...)
		out = append(out, units...)
	}
	return out
}

// FromLowOverhead splits every temporal unit.
func FromLowOverhead(tus [][]byte) [][]OBU {
	var r [][]OBU
	for _, t := range tus {
		r = append(r, Split(t))
	}
	return r
}
