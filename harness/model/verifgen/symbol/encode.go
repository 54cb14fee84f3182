package symbol

// Choose says which symbol comes next at a place; without it, symbols are read.
var Choose func(site int, cdf []int) int

// Tiles has the data of the tiles chosen so far.
var Tiles [][]byte

var enc *Encoder

// Begin starts a tile.
func Begin() { enc = NewEncoder() }

// End ends a tile.
func End() {
	if Choose != nil {
		Tiles = append(Tiles, enc.Done())
	}
}

// Encoder is a range encoder.
type Encoder struct {
	low  uint64
	rng  uint64
	cnt  int
	out  []uint16
	Syms int
}

func NewEncoder() *Encoder { return &Encoder{rng: 0x8000, cnt: -9} }

// Put encodes a symbol.
func (e *Encoder) Put(s int, cdf []int) {
	e.Syms++
	n := len(cdf) - 2
	r := e.rng
	at := func(s int) uint64 {
		return (r>>8)*uint64((32768-cdf[s])>>6)>>1 + uint64(4*(n-s))
	}
	v := at(s)
	low, rng := e.low, r-v
	if s > 0 {
		u := at(s - 1)
		low, rng = low+r-u, u-v
	}
	d := 0
	for rng<<uint(d) < 0x8000 {
		d++
	}
	c := e.cnt
	k := c + d
	if k >= 0 {
		c += 16
		m := uint64(1)<<uint(c) - 1
		if k >= 8 {
			e.out = append(e.out, uint16(low>>uint(c)))
			low &= m
			c -= 8
			m >>= 8
		}
		e.out = append(e.out, uint16(low>>uint(c)))
		k = c + d - 24
		low &= m
	}
	e.low, e.rng, e.cnt = low<<uint(d), rng<<uint(d), k
}

// Done ends the data with the trailing bit.
func (e *Encoder) Done() []byte {
	c := e.cnt
	s := 10 + c
	x := (e.low+0x3fff)&^0x3fff | 0x4000
	out := e.out
	if s > 0 {
		n := uint64(1)<<uint(c+16) - 1
		for {
			out = append(out, uint16(x>>uint(c+16)))
			x &= n
			s -= 8
			c -= 8
			n >>= 8
			if s <= 0 {
				break
			}
		}
	}
	b := make([]byte, len(out))
	carry := 0
	for i := len(out) - 1; i >= 0; i-- {
		carry += int(out[i])
		b[i] = byte(carry)
		carry >>= 8
	}
	return b
}

// Sites are the names of the places.
var Sites = []string{
	"compModeSymbol",
	"compRefTypeSymbol",
	"uniCompRefSymbol",
	"uniCompRefP1Symbol",
	"uniCompRefP2Symbol",
	"compRefSymbol",
	"compRefP1Symbol",
	"compRefP2Symbol",
	"compBwdrefSymbol",
	"compBwdrefP1Symbol",
	"coeffs.eob_pt_16",
	"coeffs.eob_pt_32",
	"coeffs.eob_pt_64",
	"coeffs.eob_pt_128",
	"coeffs.eob_pt_256",
	"coeffs.eob_pt_512",
	"coeffs.eob_pt_1024",
	"coeffs.eobExtra",
	"coeffs.eobExtraBit",
	"coeffs.coeff_base_eob",
	"coeffs.coeffBase",
	"coeffs.signBit",
	"coeffs.golombLengthBit",
	"coeffs.golombDataBit",
	"readDcSignSymbol",
	"readCoeffBrSymbol",
	"allZeroSymbol",
	"transformType.interTxType",
	"transformType.interTxType",
	"transformType.interTxType",
	"intraTxTypeSymbol",
	"intraTxTypeSymbol",
	"skipModeSymbol",
	"interpFilterSymbol",
	"singleRefP1Symbol",
	"singleRefP2Symbol",
	"singleRefP3Symbol",
	"singleRefP4Symbol",
	"singleRefP5Symbol",
	"singleRefP6Symbol",
	"intraBlockModeInfo.yMode",
	"intraBlockModeInfo.uvMode",
	"intraBlockModeInfo.uvMode",
	"intraBlockModeInfo.uvMode",
	"interSegmentId.segIdPredicted",
	"readIsInter.IsInter",
	"readMv.mvJoint",
	"readMvComponent.mvSign",
	"readMvComponent.mvClass",
	"readMvComponent.mvClass0Bit",
	"readMvComponent.mvClass0Fr",
	"readMvComponent.mvClass0Hp",
	"readMvComponent.mvBit",
	"readMvComponent.mvFr",
	"readMvComponent.mvHp",
	"txDepthSymbol",
	"txDepthSymbol",
	"txDepthSymbol",
	"txDepthSymbol",
	"txfmSplitSymbol",
	"splitOrVertElement",
	"splitOrHorzElement",
	"partitionElement",
	"readLrUnit.useWiener",
	"readLrUnit.useSgrproj",
	"readLrUnit.restorationType",
	"readLrUnit.lrSgrSet",
	"decodeSubexpBool.subexpUnifBools",
	"decodeSubexpBool.subexpMoreBools",
	"decodeSubexpBool.subexpBools",
	"paletteTokens.colorIndexMapY",
	"paletteTokens.paletteColorIdxY",
	"paletteTokens.colorIndexMapUv",
	"paletteTokens.paletteColorIdxUv",
	"compGroupIdxSymbol",
	"compoundIdxSymbol",
	"intraFrameModeInfo.useIntrabc",
	"intraFrameModeInfo.uvMode",
	"intraFrameModeInfo.uvMode",
	"intraFrameModeInfo.uvMode",
	"intraFrameYModeSymbol",
	"readSegmentId.SegmentId",
	"readSkip.Skip",
	"readCdef.CdefIdx",
	"readDeltaQIndex.deltaQAbs",
	"readDeltaQIndex.deltaQRemBits",
	"readDeltaQIndex.deltaQAbsBits",
	"readDeltaQIndex.deltaQSignBit",
	"readDeltaLf.delta_lf_abs",
	"readDeltaLf.delta_lf_abs",
	"readDeltaLf.deltaLfRemBits",
	"readDeltaLf.deltaLfAbsBits",
	"readDeltaLf.deltaLfSignBit",
	"intraAngleInfoY.angleDeltaY",
	"readCflAlphas.cflAlphaSigns",
	"readCflAlphas.cflAlphaU",
	"readCflAlphas.cflAlphaV",
	"intraAngleInfoUv.angleDeltaUv",
	"filterIntraModeInfo.UseFilterIntra",
	"filterIntraModeInfo.FilterIntraMode",
	"interBlockModeInfo.compoundMode",
	"interBlockModeInfo.newMv",
	"interBlockModeInfo.zeroMv",
	"interBlockModeInfo.refMv",
	"interBlockModeInfo.drlMode",
	"interBlockModeInfo.drlMode",
	"readMotionMode.useObmc",
	"readMotionMode.MotionMode",
	"readCompoundType.CompoundType",
	"readCompoundType.WedgeIndex",
	"readCompoundType.WedgeSign",
	"readCompoundType.MaskType",
	"readInterIntraMode.InterIntra",
	"readInterIntraMode.InterIntraMode",
	"readInterIntraMode.WedgeInterIntra",
	"readInterIntraMode.WedgeIndex",
	"paletteModeInfo.hasPaletteY",
	"paletteModeInfo.paletteSizeYMinus2",
	"paletteModeInfo.usePaletteColorCacheY",
	"paletteModeInfo.PaletteColorsY",
	"paletteModeInfo.paletteNumExtraBitsY",
	"paletteModeInfo.paletteDeltaY",
	"paletteModeInfo.hasPaletteUv",
	"paletteModeInfo.paletteSizeUvMinus2",
	"paletteModeInfo.usePaletteColorCacheU",
	"paletteModeInfo.PaletteColorsU",
	"paletteModeInfo.paletteNumExtraBitsU",
	"paletteModeInfo.paletteDeltaU",
	"paletteModeInfo.deltaEncodePaletteColorsv",
	"paletteModeInfo.paletteNumExtraBitsv",
	"paletteModeInfo.PaletteColorsV",
	"paletteModeInfo.paletteDeltaV",
	"paletteModeInfo.paletteDeltaSignBitV",
	"paletteModeInfo.PaletteColorsV",
}
