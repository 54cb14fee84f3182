package verifhdr

import (
	"fmt"

	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/header"
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	kit "github.com/m4tthewde/gov1/internal/verifkit"
)

// Got is what the decoder under test made of a frame header.
type Got struct {
	U      uncompressedheader.UncompressedHeader
	St     *state.State
	SH     sequenceheader.SequenceHeader
	Pos    int // bits read
	Before state.State
	Frame  bool // the state may be that after the frame's tiles, and no slot was filled
}

var tmpl *state.State

// template is a state whose saved CDFs are valid.
func template() state.State {
	if tmpl == nil {
		s := &Seq{Reduced: true, Still: true, Ops: []Op{{}}, WBits: 8, HBits: 8, MaxW: 64, MaxH: 64, ForceSCT: 2, ForceIntMv: 2, Depth: 8, SX: true, SY: true}
		w := &kit.W{}
		w.Put(16, 0)
		w.Put(16, 1<<12)
		w.Put(32, 0)
		w.Put(32, 0)
		st := &state.State{}
		b := bitstream.NewBitStream(append(s.Bytes(), 0, 0, 0, 0))
		sh := sequenceheader.NewSequenceHeader(&b, st)
		b = bitstream.NewBitStream(append(w.B, make([]byte, 64)...))
		uncompressedheader.NewUncompressedHeader(header.Header{}, sh, &b, st)
		for i := 0; i < 8; i++ {
			uncompressedheader.SaveCdfs(i, st)
		}
		tmpl = &state.State{Memory: st.Memory}
	}
	return *tmpl
}

func grainParams(n Grain) state.GrainParams {
	if !n.Apply {
		return state.GrainParams{}
	}
	col := func(p [][2]int, k int) []int {
		r := []int{}
		for _, v := range p {
			r = append(r, v[k])
		}
		return r
	}
	return state.GrainParams{ApplyGrain: n.Apply, GrainSeed: n.Seed,
		PointYValue: col(n.Y, 0), PointYScaling: col(n.Y, 1),
		PointCbValue: col(n.Cb, 0), PointCbScaling: col(n.Cb, 1), PointCrValue: col(n.Cr, 0), PointCrScaling: col(n.Cr, 1),
		ChromaScalingFromLuna: n.FromLuma, GrainScalingMinus8: n.ScalingMinus8, ArCoeffLag: n.Lag,
		ArCoeffsYPlus128: n.ArY, ArCoeffsCbPlus128: n.ArCb, ArCoeffsCrPlus128: n.ArCr,
		ArCoeffShiftMinus6: n.ShiftMinus6, GrainScaleShift: n.ScaleShift,
		CbMult: n.CbMult, CbLumaMult: n.CbLuma, CbOffset: n.CbOff, CrMult: n.CrMult, CrLumaMult: n.CrLuma, CrOffset: n.CrOff,
		OverlapFlag: n.Overlap, ClipToRestrictedRange: n.ClipToRestricted}
}

// Fill puts the reference slots into the decoder's state.
func Fill(g *kit.G, st *state.State, r *Refs) {
	for i, p := range r {
		st.RefValid[i], st.RefFrameId[i], st.RefFrameType[i], st.RefOrderHint[i] = p.Valid, p.ID, p.Type, p.Hint
		st.RefUpscaledWidth[i], st.RefFrameWidth[i], st.RefFrameHeight[i] = p.UpW, p.W, p.H
		st.RefRenderWidth[i], st.RefRenderHeight[i] = p.RW, p.RH
		st.RefMiCols[i], st.RefMiRows[i] = p.MiCols, p.MiRows
		st.SavedGmParams[i] = p.GM
		st.SavedLoopFilterRefDeltas[i], st.SavedLoopFilterModeDeltas[i] = p.RefDeltas, p.ModeDeltas
		st.SavedFeatureEnabled[i], st.SavedFeatureData[i] = p.FeatOn, p.Feat
		st.SavedGrainParams[i] = grainParams(p.Grain)
		st.SavedOrderHints[i] = p.Hints
		st.SavedMvs[i], st.SavedRefFrames[i] = nil, nil
		for y := 0; y < p.MiRows; y++ {
			mvs, refs := make([][2]int, p.MiCols), make([]int, p.MiCols)
			for x := range mvs {
				mvs[x], refs[x] = [2]int{50*y - 30*i, 7*x - 3*y}, (x*3+y+i)%9-1
			}
			st.SavedMvs[i], st.SavedRefFrames[i] = append(st.SavedMvs[i], mvs), append(st.SavedRefFrames[i], refs)
		}
		ids := make([][]int, p.MiRows)
		for y := range ids {
			ids[y] = make([]int, p.MiCols)
			for x := range ids[y] {
				ids[y][x] = SegIDAt(i, y, x)
			}
		}
		st.SavedSegmentIds[i] = ids
	}
	// whatever the frame before left behind must not matter
	for i := range st.FeatureData {
		for j := range st.FeatureData[i] {
			st.FeatureData[i][j], st.FeatureEnabled[i][j] = 3, 1
		}
	}
	for i := range st.PrevGmParams {
		st.GmType[i] = 2
		for j := range st.PrevGmParams[i] {
			st.PrevGmParams[i][j] = 1000*i + j
		}
	}
	st.TileColsLog2, st.TileRowsLog2, st.TileCols, st.TileRows = 3, 3, 5, 6
}

// SegIDAt is the segment id saved in slot i.
func SegIDAt(i, y, x int) int { return (i + 3*y + 5*x + x*y) & 7 }

// Decode runs the decoder's sequence and frame header parsers.
func Decode(g *kit.G, s *Seq, r *Refs, h header.Header, w *kit.W) *Got {
	st := template()
	o := &Got{St: &st}
	g.Guard("frame header", func() {
		b := bitstream.NewBitStream(append(s.Bytes(), 0, 0, 0, 0))
		o.SH = sequenceheader.NewSequenceHeader(&b, &st)
		Fill(g, &st, r)
		st.CurrentFrameId = 77
		data := append([]byte{}, w.B...)
		b = bitstream.NewBitStream(append(data, make([]byte, 16)...))
		o.Before = st
		o.U = uncompressedheader.NewUncompressedHeader(h, o.SH, &b, &st)
		o.Pos = b.Position
	})
	return o
}

func eqb(g *kit.G, what string, got, want bool) {
	if got != want {
		g.Failf("%s: got %v, want %v", what, got, want)
	}
}

// General compares the fields common to all frames.
func (f *Frame) General(g *kit.G, s *Seq, o *Got) {
	u := o.U
	eqb(g, "show_existing_frame", u.ShowExistingFrame, f.ShowExisting)
	g.EqInt("frame_type", u.FrameType, f.Type)
	g.EqInt("refresh_frame_flags", u.RefreshFrameFlags, f.Refresh)
	if s.DecModel && !s.EqualPic && (f.Show || f.ShowExisting) {
		g.EqInt("frame_presentation_time", u.FramePresentationTime, f.PresTime)
	}
	if f.ShowExisting {
		g.EqInt("frame_to_show_map_idx", u.FrameToShowMapIdx, f.MapIdx)
		if s.IDs {
			g.EqInt("display_frame_id", u.DisplayFrameId, f.DisplayID)
		}
		return
	}
	eqb(g, "FrameIsIntra", u.FrameIsIntra, f.Intra)
	eqb(g, "show_frame", u.ShowFrame, f.Show)
	eqb(g, "showable_frame", u.ShowableFrame, f.Showable)
	eqb(g, "disable_cdf_update", u.DisableCdfUpdate, f.DisableCdf)
	g.EqInt("allow_screen_content_tools", u.AllowScreenContentTools, f.SCT)
	eqb(g, "force_integer_mv", u.ForceIntegerMv, f.IntMv)
	if s.IDs {
		g.EqInt("current_frame_id", u.CurrentFrameId, f.ID)
	}
	if o.Frame && s.IDs {
		g.EqInt("PrevFrameId", u.PrevFrameId, f.PrevID)
	}
	if !o.Frame {
		g.EqInt("current_frame_id kept", o.St.CurrentFrameId, f.ID)
	}
	g.EqInt("OrderHint", u.OrderHint, f.Hint)
	g.EqInt("primary_ref_frame", u.PrimaryRefFrame, f.Primary)
	eqb(g, "allow_intrabc", u.AllowIntraBc, f.IntraBC)
	if !f.Intra {
		g.EqInts("ref_frame_idx", u.RefFrameIdx[:], f.RefIdx[:])
		eqb(g, "allow_high_precision_mv", u.AllowHighPrecisionMv, f.HP)
		g.EqInt("interpolation_filter", u.InterpolationFilter, f.Interp)
		eqb(g, "is_motion_mode_switchable", u.IsMotionModeSwitchable, f.SwitchMotion)
	}
	eqb(g, "use_ref_frame_mvs", u.UseRefFrameMvs, f.RefMvs)
	eqb(g, "disable_frame_end_update_cdf", u.DisableFrameEndUpdateCdf, f.NoEndUpdate)
	g.EqInt("TxMode", u.TxMode, f.TxMode)
	eqb(g, "reference_select", u.ReferenceSelect, f.RefSelect)
	eqb(g, "allow_warped_motion", u.AllowWarpedMotion, f.Warped)
	eqb(g, "reduced_tx_set", u.ReducedTxSet, f.ReducedTx)
	if !o.Frame {
		g.EqInts("RefValid", o.St.RefValid[:], f.Valid[:])
	}
}

// Size compares the frame size.
func (f *Frame) Size(g *kit.G, o *Got) {
	u := o.U
	g.EqInt("UpscaledWidth", u.UpscaledWidth, f.UpW)
	g.EqInt("FrameWidth", u.FrameWidth, f.W)
	g.EqInt("FrameHeight", u.FrameHeight, f.H)
	g.EqInt("RenderWidth", u.RenderWidth, f.RW)
	g.EqInt("RenderHeight", u.RenderHeight, f.RH)
	eqb(g, "use_superres", u.UseSuperRes, f.SuperRes)
	g.EqInt("SuperresDenom", u.SuperResDenom, f.Denom)
	g.EqInt("MiCols", o.St.MiCols, f.MiCols)
	g.EqInt("MiRows", o.St.MiRows, f.MiRows)
}

// Quant compares quantization and segmentation.
func (f *Frame) Quant(g *kit.G, s *Seq, r *Refs, o *Got) {
	u, st := o.U, o.St
	g.EqInt("base_q_idx", u.BaseQIdx, f.Q)
	g.EqInts("quantizer deltas (Y dc, U dc, U ac, V dc, V ac)", []int{u.DeltaQYDc, u.DeltaQUDc, u.DeltaQUAc, u.DeltaQVDc, u.DeltaQVAc},
		[]int{f.DYDc, f.DUDc, f.DUAc, f.DVDc, f.DVAc})
	eqb(g, "using_qmatrix", u.UsingQMatrix, f.QM)
	if f.QM {
		g.EqInts("qm levels", []int{u.Qmy, u.Qmu, u.Qmv}, []int{f.QmY, f.QmU, f.QmV})
		for i := 0; i < 8; i++ {
			want := []int{f.QmY, f.QmU, f.QmV}
			if f.Lossless[i] {
				want = []int{15, 15, 15}
			}
			g.EqInts(fmt.Sprint("SegQMLevel of segment ", i), []int{u.SegQMLevel[0][i], u.SegQMLevel[1][i], u.SegQMLevel[2][i]}, want)
		}
	}
	eqb(g, "segmentation_enabled", u.SegmentationEnabled, f.Seg)
	if f.Seg {
		g.EqInts("segmentation update map, temporal, data", []int{u.SegmentationUpdateMap, u.SegmentationTemporalUpdate, u.SegmentationUpdateData},
			[]int{f.SegMap, f.SegTemporal, f.SegData})
	}
	for i := 0; i < 8; i++ {
		g.EqInts(fmt.Sprint("FeatureEnabled of segment ", i), st.FeatureEnabled[i][:], f.FeatOn[i][:])
		for j := 0; j < 8; j++ {
			if f.FeatOn[i][j] == 1 {
				g.EqInt(fmt.Sprintf("FeatureData[%d][%d]", i, j), st.FeatureData[i][j], f.Feat[i][j])
			}
		}
		eqb(g, fmt.Sprint("LosslessArray of segment ", i), u.LosslessArray[i], f.Lossless[i])
		g.EqInt(fmt.Sprint("qindex of segment ", i), u.GetQIndex(1, i, st), f.QIdx[i])
	}
	g.EqInt("SegIdPreSkip", u.SegIdPreSkip, f.SegPreSkip)
	g.EqInt("LastActiveSegId", u.LastActiveSegId, f.SegLast)
	eqb(g, "delta_q_present", u.DeltaQPresent, f.DeltaQ)
	eqb(g, "delta_lf_present", u.DeltaLfPresent, f.DeltaLf)
	g.EqInts("delta_q_res, delta_lf_res, delta_lf_multi", []int{u.DeltaQRes, u.DeltaLfRes, u.DeltaLfMulti}, []int{f.DeltaQRes, f.DeltaLfRes, f.DeltaLfMulti})
	eqb(g, "CodedLossless", u.CodedLossless, f.CodedLossless)
	eqb(g, "AllLossless", u.AllLossless, f.AllLossless)
	if o.Frame {
		return
	}
	// with delta_q: the current index replaces the base index
	cur := g.Int(1, 255)
	st.CurrentQIndex = cur
	for i := 0; i < 8; i++ {
		want := f.Q
		if f.DeltaQ {
			want = cur
		}
		if f.Seg && f.FeatOn[i][0] == 1 {
			want = clip(0, 255, want+f.Feat[i][0])
		}
		g.EqInt(fmt.Sprint("qindex with deltas of segment ", i), u.GetQIndex(0, i, st), want)
	}
	// segment ids of the previous frame
	if f.MiCols*f.MiRows <= 1<<14 {
		slot := -1
		if f.Primary != 7 && f.Seg {
			k := f.RefIdx[f.Primary]
			if r[k].MiCols == f.MiCols && r[k].MiRows == f.MiRows {
				slot = k
				g.Class("segment ids kept")
			}
		}
		for y := 0; y < f.MiRows; y++ {
			for x := 0; x < f.MiCols; x++ {
				want := 0
				if slot >= 0 {
					want = SegIDAt(slot, y, x)
				}
				if st.PrevSegmentIds[y][x] != want {
					g.Failf("PrevSegmentIds[%d][%d]: got %d, want %d", y, x, st.PrevSegmentIds[y][x], want)
				}
			}
		}
	}
}

// Filters compares the parameters of the in-loop filters and the transform mode.
func (f *Frame) Filters(g *kit.G, s *Seq, o *Got) {
	u := o.U
	n := 2
	if f.LevelUVRead {
		n = 4
	}
	g.EqInts("loop_filter_level", u.LoopFilterLevel[:n], f.Level[:n])
	if f.LfRead {
		g.EqInt("loop_filter_sharpness", u.LoopFilterSharpness, f.Sharp)
		eqb(g, "loop_filter_delta_enabled", u.LoopFilterDeltaEnabled, f.LfDelta)
	}
	g.EqInts("loop_filter_ref_deltas", u.LoopFilterRefDeltas[:], f.RefDeltas[:])
	g.EqInts("loop_filter_mode_deltas", u.LoopFilterModeDeltas[:], f.ModeDeltas[:])
	g.EqInt("CdefDamping", u.CdefDampening, f.CdefDamp)
	g.EqInt("cdef_bits", u.CdefBits, f.CdefBits)
	for i := range f.CdefY {
		g.EqInts(fmt.Sprint("cdef luma strengths ", i), []int{u.CdefYPriStrength[i], u.CdefYSecStrength[i]}, f.CdefY[i][:])
		if !s.Mono {
			g.EqInts(fmt.Sprint("cdef chroma strengths ", i), []int{u.CdefUVPriStrength[i], u.CdefUVSecStrength[i]}, f.CdefUV[i][:])
		}
	}
	g.EqInts("FrameRestorationType", u.FrameRestorationType[:s.Planes()], f.LrType[:s.Planes()])
	eqb(g, "UsesLr", u.UsesLr, f.UsesLr)
	if f.UsesLr {
		g.EqInts("LoopRestorationSize", o.St.LoopRestorationSize[:s.Planes()], f.LrSize[:s.Planes()])
	}
	g.EqInt("TxMode", u.TxMode, f.TxMode)
}

// GrainParams compares the film grain parameters.
func (f *Frame) GrainParams(g *kit.G, o *Got) {
	u, n := o.U, f.Grain
	eqb(g, "apply_grain", u.ApplyGrain, n.Apply)
	if !n.Apply {
		return
	}
	want := grainParams(n)
	got := state.GrainParams{ApplyGrain: u.ApplyGrain, GrainSeed: u.GrainSeed, ChromaScalingFromLuna: u.ChromaScalingFromLuna,
		GrainScalingMinus8: u.GrainScalingMinus8, ArCoeffLag: u.ArCoeffLag, ArCoeffShiftMinus6: u.ArCoeffShiftMinus6, GrainScaleShift: u.GrainScaleShift,
		OverlapFlag: u.OverlapFlag, ClipToRestrictedRange: u.ClipToRestrictedRange}
	g.EqInt("grain_seed", got.GrainSeed, want.GrainSeed)
	eq := func(what string, a, b []int) { g.EqInts(what, append([]int{}, a...), append([]int{}, b...)) }
	eq("point_y_value", u.PointYValue, want.PointYValue)
	eq("point_y_scaling", u.PointYScaling, want.PointYScaling)
	eq("point_cb_value", u.PointCbValue, want.PointCbValue)
	eq("point_cb_scaling", u.PointCbScaling, want.PointCbScaling)
	eq("point_cr_value", u.PointCrValue, want.PointCrValue)
	eq("point_cr_scaling", u.PointCrScaling, want.PointCrScaling)
	eqb(g, "chroma_scaling_from_luma", got.ChromaScalingFromLuna, want.ChromaScalingFromLuna)
	g.EqInts("grain scaling, lag, shifts", []int{got.GrainScalingMinus8, got.ArCoeffLag, got.ArCoeffShiftMinus6, got.GrainScaleShift},
		[]int{want.GrainScalingMinus8, want.ArCoeffLag, want.ArCoeffShiftMinus6, want.GrainScaleShift})
	eq("ar_coeffs_y", u.ArCoeffsYPlus128, n.ArY)
	eq("ar_coeffs_cb", u.ArCoeffsCbPlus128, n.ArCb)
	eq("ar_coeffs_cr", u.ArCoeffsCrPlus128, n.ArCr)
	if len(n.Cb) > 0 {
		g.EqInts("cb mult, luma mult, offset", []int{u.CbMult, u.CbLumaMult, u.CbOffset}, []int{n.CbMult, n.CbLuma, n.CbOff})
	}
	if len(n.Cr) > 0 {
		g.EqInts("cr mult, luma mult, offset", []int{u.CrMult, u.CrLumaMult, u.CrOffset}, []int{n.CrMult, n.CrLuma, n.CrOff})
	}
	eqb(g, "overlap_flag", got.OverlapFlag, want.OverlapFlag)
	eqb(g, "clip_to_restricted_range", got.ClipToRestrictedRange, want.ClipToRestrictedRange)
}

// Refs compares what is derived from the order of the reference frames.
func (f *Frame) Refs(g *kit.G, o *Got) {
	u := o.U
	if !f.Intra {
		g.EqInts("ref_frame_idx", u.RefFrameIdx[:], f.RefIdx[:])
		g.EqInts("OrderHints", u.OrderHints[1:], f.Hints[1:])
		for i := 1; i < 8; i++ {
			eqb(g, fmt.Sprint("RefFrameSignBias of ", i), u.RefFrameSignBias[i], f.SignBias[i])
		}
	}
	g.EqInt("skip_mode_present", u.SkipModePresent, f.SkipMode)
	if f.SkipModeAllowed {
		g.EqInts("SkipModeFrame", u.SkipModeFrame[:], f.SkipFrames[:])
	}
}

// Motion compares the global motion parameters.
func (f *Frame) Motion(g *kit.G, o *Got) {
	for i := 1; i < 8; i++ {
		g.EqInt(fmt.Sprint("GmType of reference ", i), o.St.GmType[i], f.GmType[i])
		g.EqInts(fmt.Sprint("gm_params of reference ", i), o.U.GmParams[i][:], f.GM[i][:])
	}
}

// Tiles compares the tile layout.
func (f *Frame) Tiles(g *kit.G, o *Got) { f.Tile.Check(g, o.St, o.U.TileInfo.ContextUpdateTileId) }

// Check compares the layout with the decoder's state.
func (t *Tiles) Check(g *kit.G, st *state.State, context int) {
	g.EqInt("TileCols", st.TileCols, len(t.Cols)-1)
	g.EqInt("TileRows", st.TileRows, len(t.Rows)-1)
	g.EqInt("TileColsLog2", st.TileColsLog2, t.ColsLog2)
	g.EqInt("TileRowsLog2", st.TileRowsLog2, t.RowsLog2)
	if len(st.MiColStarts) < len(t.Cols) || len(st.MiRowStarts) < len(t.Rows) {
		g.Failf("tile starts missing: %v %v, want %v %v", st.MiColStarts, st.MiRowStarts, t.Cols, t.Rows)
	}
	g.EqInts("MiColStarts", st.MiColStarts[:len(t.Cols)], t.Cols)
	g.EqInts("MiRowStarts", st.MiRowStarts[:len(t.Rows)], t.Rows)
	g.EqInt("context_update_tile_id", context, t.ContextID)
	if t.ColsLog2 > 0 || t.RowsLog2 > 0 {
		g.EqInt("TileSizeBytes", st.TileSizeBytes, t.SizeBytes)
	}
}

// One draws, writes, decodes and describes a frame header; the bits read are checked.
func One(g *kit.G, s *Seq, r *Refs, opt Opt) (*Frame, *Got) {
	w := &kit.W{}
	w.Put(1+8*0, 0)
	w = &kit.W{}
	hd := header.Header{}
	hd.ExtensionHeader.TemporalID, hd.ExtensionHeader.SpatialID = opt.TemporalID, opt.SpatialID
	before := *r
	f := GenFrame(g, w, s, r, opt)
	for w.N%8 != 0 {
		w.Put(1, 0)
	}
	g.Descf("%s", f)
	o := Decode(g, s, &before, hd, w)
	return f, o
}

// Pos checks that the header was read to its end.
func (f *Frame) Pos(g *kit.G, o *Got) { g.EqInt("bits of the frame header", o.Pos, f.Bits) }

// Draw draws a sequence header and reference slots fit for header-only cases.
func Draw(g *kit.G) (*Seq, *Refs, Opt) {
	s := GenSeq(g)
	r := GenRefs(g, s)
	return s, r, Opt{Type: -1, Refresh: -1, TemporalID: g.Int(0, 7), SpatialID: g.Int(0, 3)}
}
