#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below (run after editing it)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = "internal/"
PBT = "property-based testing: "
ORACLE = ("Exploration: random structured inputs, shrinking, a fixed seed per run. The oracle is an independent reference written from the AV1 "
          "specification text (no code shared with the repository). ")
E2E = ("Exploration: streams encoded by libaom 3.8 (installed shared library) from generated pictures and encoder settings, and streams of generated headers with "
       "random or chosen tile symbols, decoded by the repository and by libaom, and compared sample for sample; trusts libaom as reference. ")
# id: title, statement, over, quantifier text, why tests can't, files, mechanisms, technique, level note
P = {}


def p(id, title, st, over, q, why, files, mech, tech, note=ORACLE):
    P[id] = dict(title=title, st=st, over=over, q=q, why=why, files=files, mech=mech, tech=tech, note=note)


T5 = "The 5 existing tests "
p("C01", "Bit-level syntax elements decode to the value that was written",
  "Every fixed-width, little-endian, variable-length and LEB128 field (f, le, su, leb128, uvlc, and the inverse signed quantizer fields built on them) read from a byte string yields exactly the value an encoder wrote there and leaves the read position just after it. Reading depends on nothing but the bytes and the position, at every bit alignment.",
  ["inputs"], "all field kinds, widths, values, bit offsets and neighbouring bytes",
  T5 + "read three fixed byte strings; widths, alignments, multi-byte LEB128 and long uvlc prefixes are never combined.",
  [I + "bitstream/bitstream.go"], [("BitStream", I + "bitstream/bitstream.go")],
  "write fields with a reference encoder, read them back (round trip)")
p("C02", "Arithmetic and array helpers agree with their mathematical definitions",
  "Rounding shifts, clipping, most-significant-bit position, median/min/max helpers, bit reversal, the trigonometric tables' access functions, in-place partial sorting, and the segment-id de-interleaving equal their definitions for every argument in the range the decoder uses.",
  ["inputs"], "all argument values over the ranges of the AV1 specification",
  "util_test.go checks one helper on one value.",
  [I + "util/util.go"], [("helper functions", I + "util/util.go")],
  "random and boundary arguments against big-integer and brute-force definitions")
p("C03", "Every OBU is consumed exactly, whatever its type, extension or padding",
  "For every sequence of OBUs, each is parsed from its own header (type, extension, has_size flag), handled or ignored by its type and by whether it is in the selected operating point, and leaves the reader exactly at the first byte after it. Temporal delimiters, padding, metadata and reserved types never disturb the frames around them, and decoding never reads past the end of the unit.",
  ["inputs", "histories"], "all sequences of OBU types with random extension fields, payload sizes, padding and trailing bits",
  T5 + "parse one file whose OBUs are all of three types without extension.",
  [I + "obu/obu.go", I + "header/header.go"], [("OBU dispatch and trailing bits", I + "obu/obu.go"), ("OBU header", I + "header/header.go")],
  "generated OBU sequences against a model of the reader position and decoder-visible effects")
p("C04", "The sequence header is decoded field by field as it was encoded",
  "For every legal combination of sequence header fields (profiles, still pictures, operating points, timing and decoder model, frame id and order hint sizes, tool flags, colour configuration, film grain flag) the decoded header reports exactly the encoded values, with specified defaults for fields that are absent, and consumes exactly the header's bits.",
  ["inputs"], "all legal sequence headers",
  T5 + "decode one fixed sequence header.",
  [I + "sequenceheader/sequence_header.go"], [("sequence header parser", I + "sequenceheader/sequence_header.go")],
  "encode random headers with an independent writer, compare every field and the final position")

U = I + "uncompressedheader/uncompressed_header.go"
HT = "generate legal sequence headers, reference states and frame headers, encode them with an independent writer, decode, compare every field and the final position (round trip)"
HW = "No test decodes an uncompressed header with more than one combination of fields: "
p("C05", "The tile layout of a frame is decoded as it was coded",
  "For every frame size, superblock size and legal uniform or non-uniform tile spacing, the decoded tile boundaries, tile counts, context update tile and tile size field width are those coded: the tiles are contiguous, cover the frame exactly, start on superblock boundaries, and the reader stops after the tile info.",
  ["inputs"], "all frame sizes, superblock sizes and tile spacings",
  HW + "one fixed layout of one tile is read.",
  [I + "tileinfo/tile_info.go", U], [("NewTileInfo", I + "tileinfo/tile_info.go")], HT)
p("C07", "The general frame header fields are decoded as they were encoded",
  "For every legal frame header (frame type, shown or not, showable, error resilient, CDF update and screen content flags, frame id, order hint, primary reference, refresh flags, buffer removal times, interpolation, reduced transform set, shown existing frames), each decoded field equals the encoded or, where absent, the specified inferred value, and the header ends at the encoded position.",
  ["inputs", "histories"], "all legal frame headers after all sequence headers and reference states",
  HW + "inter, error resilient, hidden and frame-id frames never occur.",
  [U], [("uncompressedHeader", U)], HT)
p("C08", "Frame, superres and render sizes are derived as specified",
  "For every coded size, size override, size copied from a reference, superres denominator and render size, the decoded frame width and height, upscaled width, render size and units of 4x4 luma samples are those the standard derives.",
  ["inputs", "histories"], "all sizes, denominators and reference frame sizes",
  HW + "one size without superres or override is read.",
  [U], [("frameSize, superresParams, frameSizeWithRefs", U)], HT)
p("C09", "Quantizer and segmentation parameters are decoded as they were encoded",
  "For every combination of base index, plane deltas, matrix levels, segmentation features and their persistence from the primary reference frame, and delta q and delta loop filter settings, the decoded parameters, the lossless decision of every segment and the segment ids' derived limits are those of the standard.",
  ["inputs", "histories"], "all quantizer, segmentation and delta settings, with and without a primary reference",
  HW + "segmentation and plane deltas are never on.",
  [U], [("quantizationParams, segmentationParams", U)], HT)
p("C10", "Loop filter, CDEF, restoration and transform mode parameters are decoded",
  "For every legal setting of the deblocking levels, sharpness and deltas (also those kept from the primary reference), CDEF strengths, loop restoration types and unit sizes and the transform mode, the decoded parameters equal the encoded ones, and the specified defaults apply when lossless or intra block copy suppress them.",
  ["inputs", "histories"], "all filter parameters, plane counts, subsamplings and suppressions",
  HW + "only one setting of each is read.",
  [U], [("loopFilterParams, cdefParams, lrParams, readTxMode", U)], HT)
p("C11", "Film grain parameters are decoded as they were encoded",
  "For every legal film grain parameter set (seed, scaling points of each plane, autoregressive coefficients, chroma multipliers, overlap and clipping), and for parameters taken over from a reference frame or a shown existing frame, the decoded parameters equal the coded ones, with the new seed where the standard says so.",
  ["inputs", "histories"], "all film grain parameter sets, formats and references",
  HW + "film grain is never present.",
  [U], [("filmGrainParams", U)], HT)
p("C12", "References are selected and ordered as specified",
  "For every state of the eight reference slots and every inter header, the reference indices (explicit or from short signalling), expected frame ids, order hints and sign biases, the skip mode frames and reference mode are those of the standard, including order hint wrap-around.",
  ["inputs", "histories"], "all reference states, order hint widths and inter headers",
  HW + "inter frames never occur.",
  [U], [("setFrameRefs, getRelativeDist, skipModeParams", U)], HT)
p("C13", "Global motion parameters are decoded as they were encoded",
  "For every reference and every global motion type and parameter, coded relative to the parameters of the primary reference frame or the defaults, at high or low motion vector precision, the decoded type and warp parameters equal those coded.",
  ["inputs", "histories"], "all global motion types, parameters and previous parameters",
  HW + "inter frames never occur.",
  [U], [("globalMotionParams, decodeSignedSubexpWithRef", U)], HT)

T = I + "tilegroup/"
ST = "streams encoded by libaom from generated pictures and settings, decoded by both, samples compared (differential)"
TE = "The tests decode no picture: "
p("C14", "The arithmetic decoder returns the coded symbols and adapts as the encoder did",
  "For every sequence of symbols, alphabets and probabilities, the symbol decoder returns exactly the symbols that were coded, in every tile and tile group, with probability adaptation on or off, up to the last symbol of the tile; it starts each tile from the right probabilities and finishes at the byte after the tile.",
  ["inputs", "histories"], "all symbol sequences, CDFs, tile layouts, tile group splits and adaptation modes",
  TE + "no test reads a symbol.",
  [I + "symbol/symbol.go", I + "literal/literal.go", T + "tile_group.go"], [("symbol decoding and adaptation", I + "symbol/symbol.go"), ("tile start and end", T + "tile_group.go")],
  "an independent range encoder codes random symbols, which must be read back; and " + ST)
p("C18", "Coefficients are placed in the scan order of their transform size and type",
  "For every transform size and transform type, each coded coefficient lands at the position the standard's scan for that size and type class assigns to it, so that the reconstructed samples are those of a conforming decoder.",
  ["inputs"], "all transform sizes, types and end-of-block positions",
  TE + "no test looks at a scan.", [T + "coeffs.go"], [("getScan and its tables", T + "coeffs.go")], ST, E2E)
p("C19", "Transform coefficients are read exactly as they were coded",
  "For every transform block, the all-zero flag, transform type, end of block position, base levels, level increments, Golomb remainders and signs are decoded in the contexts the standard derives from the neighbouring blocks and coefficients, so that every coefficient value, however large, equals what was coded and the following syntax stays in step.",
  ["inputs"], "all coefficient contents, transform sizes, planes and neighbourhoods",
  TE + "no test reads a coefficient.", [T + "coeffs.go", T + "residual.go"], [("coeffs()", T + "coeffs.go"), ("residual()", T + "residual.go")], ST, E2E)
p("C21", "Dequantization scales every coefficient as specified",
  "For every quantizer index, delta (frame, plane, segment, superblock), bit depth, quantizer matrix level and transform size, each coefficient is multiplied, shifted, limited and signed as the standard says.",
  ["inputs"], "all quantizer settings, matrix levels, segments and coefficients",
  TE + "no coefficient is ever scaled in a test.", [T + "reconstruct.go", T + "quantizer.go"], [("dequantization", T + "reconstruct.go"), ("tables and matrices", T + "quantizer.go")], ST, E2E)
p("C22", "The inverse transforms are bit exact for every size and type",
  "For every transform size, transform type and coefficient block, lossless or not, the residual added to the prediction is bit for bit the one of the standard's integer transforms, with intermediate clamping and rounding, and the sample is clipped to the bit depth.",
  ["inputs"], "all coefficient blocks of all sizes, types and bit depths",
  TE + "no transform is run by a test.", [T + "transform.go", T + "reconstruct.go"], [("InverseTranform", T + "transform.go"), ("reconstruct", T + "reconstruct.go")], ST, E2E)
p("C23", "Intra prediction produces the specified samples",
  "For every intra mode (DC, directional with angle deltas, smooth, Paeth, recursive filter), block size, picture position, available neighbourhood, bit depth and chroma format, the predicted samples, including edge filtering and upsampling and the extension of missing edge pixels, are those of the standard.",
  ["inputs"], "all modes, block sizes, positions, neighbourhoods and sample values",
  TE + "no sample is predicted in a test.", [T + "predict_intra.go", T + "intra_frame_mode_info.go", T + "residual.go"],
  [("predictIntra", T + "predict_intra.go"), ("edge availability", T + "residual.go"), ("mode syntax", T + "intra_frame_mode_info.go")], ST, E2E)
p("C24", "Palette and chroma-from-luma prediction produce the specified samples",
  "For every palette (size, colours, cache reuse, colour map contexts, blocks crossing the picture edge) and every chroma-from-luma parameter, the decoded colours, map and predicted samples are those of the standard.",
  ["inputs"], "all palettes, colour maps, alphas, subsamplings and block shapes",
  TE + "no palette block is decoded by a test.", [T + "palette.go", T + "palette_tokens.go", T + "residual.go"],
  [("palette syntax and cache", T + "palette.go"), ("colour map", T + "palette_tokens.go"), ("predictChromaFromLuma", T + "residual.go")], ST, E2E)
p("C27", "Every picture is partitioned into the blocks and transform sizes that were coded",
  "For every picture size, superblock size and partition tree, at the picture and tile edges too, the blocks, their sizes and transform sizes are those coded; every sample is covered exactly once and the neighbour contexts used to code them stay in step.",
  ["inputs"], "all partition trees, picture sizes, superblock sizes and chroma formats",
  TE + "no partition is decoded by a test.", [T + "decode_partition.go", T + "decode_block.go", T + "tx_size.go"],
  [("decodePartition", T + "decode_partition.go"), ("decodeBlock", T + "decode_block.go"), ("transform sizes", T + "tx_size.go")], ST, E2E)
p("C28", "The deblocking filter changes exactly the specified samples",
  "For every level, sharpness, delta and segment setting, block and transform edge, plane, bit depth and picture size, deblocking filters the edges of the standard with the filter size and strength of the standard and leaves all other samples alone.",
  ["inputs"], "all filter parameters, edges and sample values",
  TE + "no filter is run by a test.", [T + "loop_filter_process.go"], [("loopFilterProcess", T + "loop_filter_process.go")], ST, E2E)
p("C29", "The constrained directional enhancement filter is applied as specified",
  "For every strength, damping, direction, skip pattern, plane, bit depth and picture size, CDEF filters the 8x8 blocks the standard selects, from unfiltered samples, within the available area, and gives the standard's samples.",
  ["inputs"], "all strengths, skip patterns, picture sizes and sample values",
  TE + "no filter is run by a test.", [T + "cdef.go", T + "intra_frame_mode_info.go"], [("cdefProcess", T + "cdef.go"), ("readCdef", T + "intra_frame_mode_info.go")], ST, E2E)
p("C30", "Super-resolution upscales every plane as specified",
  "For every denominator, picture width, chroma format and bit depth, the frame decoded at reduced width is upscaled to the full width with the standard's filter phase and edge handling, before loop restoration and output.",
  ["inputs"], "all denominators, widths and formats",
  TE + "no frame is upscaled in a test.", [T + "decode_frame_wrapup.go"], [("upscalingProcess", T + "decode_frame_wrapup.go")], ST, E2E)
p("C31", "Loop restoration is read and applied as specified",
  "For every restoration type, unit size, unit position, coefficient and picture size, the unit parameters are decoded against the right references and the Wiener or self-guided filter gives the standard's samples, with the standard's boundary handling at stripes and picture edges.",
  ["inputs"], "all restoration types, unit layouts, coefficients, superres and sample values",
  TE + "no filter is run by a test.", [T + "loop_restoration.go", T + "read_loop_restoration.go"], [("filters", T + "loop_restoration.go"), ("unit syntax", T + "read_loop_restoration.go")], ST, E2E)


R2 = "streams encoded by libaom, and streams of random headers and random tile data that libaom accepts, decoded by both, samples compared (differential)"
p("C16", "Probability tables evolve per tile and per frame as specified",
  "For every sequence of frames, tiles and tile groups, each tile starts from the probabilities of its frame (defaults chosen by base index, or those loaded from the primary reference frame), tiles do not influence each other, and the tables saved with the frame are those of the context update tile with the counters cleared, or those the frame started from when the update is disabled.",
  ["inputs", "histories"], "all tile layouts, tile group splits, update flags, primary references and refresh flags",
  TE + "no second tile and no second frame is decoded.",
  [T + "tile_group.go", I + "state/state.go", U], [("initSymbol, exitSymbol and saved tables", T + "tile_group.go"), ("load and save of the tables", I + "state/state.go")], R2, E2E)
p("C20", "Decoded frames are stored, loaded and shown as specified",
  "For every history of frames (hidden, shown, shown again, key frames shown from a slot, intra-only, switch frames) and every set of refresh flags, each slot keeps exactly the samples, sizes, motion vectors, segment map, deltas, global motion and tables of the frame last stored in it, later frames use them, and each temporal unit outputs the frames the standard outputs, in that order.",
  ["histories"], "all sequences of frame types, refresh flags, reference choices and shown existing frames",
  TE + "no reference slot is ever read.",
  [T + "decode_frame_wrapup.go", U, I + "obu/obu.go", I + "state/state.go"],
  [("reference frame update process", T + "decode_frame_wrapup.go"), ("loading process and show_existing_frame", U)], R2, E2E)
p("C25", "Inter prediction produces the specified samples",
  "For every motion vector, interpolation filter pair, reference size ratio, global or local warp, overlapped, compound (average, distance, difference and wedge masks) and inter-intra prediction, at every picture edge, the predicted samples are bit for bit those of the standard.",
  ["inputs", "histories"], "all vectors, filters, reference sizes, warps, masks, block sizes, depths and chroma formats",
  TE + "no frame is predicted from another one.", [T + "predict_inter.go", T + "compute_prediction.go"],
  [("predictInter and its parts", T + "predict_inter.go"), ("computePrediction", T + "compute_prediction.go")], R2, E2E)
p("C26", "Block modes and motion vectors are decoded as they were coded",
  "For every block of an intra, inter or block-copy frame, the segment, skip and skip mode, references, prediction modes, motion vector candidates (spatial, temporal projected, global), vectors, compound and interpolation types are read in the contexts of the standard, so that the blocks are those that were coded.",
  ["inputs", "histories"], "all neighbourhoods, reference sets, motion fields, segment maps and vectors",
  TE + "no inter block is decoded.",
  [T + "find_mv_stack.go", T + "inter_block_mode_info.go", T + "inter_frame_mode_info.go", T + "intra_frame_mode_info.go", T + "assign_mv.go"],
  [("findMvStack", T + "find_mv_stack.go"), ("inter block syntax", T + "inter_block_mode_info.go"), ("assignMv", T + "assign_mv.go")], R2, E2E)
PA = I + "parser/parser.go"
p("C06", "Length-delimited streams and repeated headers decode to the same pictures",
  "For every stream packed into temporal units, frame units and OBUs with sizes (of any legal LEB128 length, with or without OBU size fields), with a frame in one OBU or as a header, tile groups and redundant copies of the header between them, the parser consumes exactly the stream, reports every OBU with its header fields and size in order, gives the pictures of the frames, and leaves its input unchanged.",
  ["inputs", "histories"], "all packings of all streams into temporal and frame units, and all splits of frames into OBUs",
  "parser_test.go decodes one stream that is not in the repository; the other tests start below the framing.",
  [PA, I + "obu/obu.go"], [("temporalUnit, frameUnit, bitstream", PA), ("frame header copy, tile groups", I + "obu/obu.go")],
  "generated streams are packed in random ways, parsed, and every OBU and picture compared with what was packed and with libaom's pictures", E2E)
p("C32", "Pictures are output whole, in their own size, with film grain if signalled",
  "For every decoded or shown existing frame, the picture that is output has the upscaled width and the frame height, chroma planes of those sizes halved and rounded up where subsampled (none for monochrome), holds the samples after all filters including the last row and column, and has film grain added exactly when and as the frame signals it, without a trace in later frames.",
  ["inputs", "histories"], "all picture sizes, chroma formats, depths, super-resolution, shown existing frames and film grain parameters",
  TE + "no test looks at an output sample.",
  [T + "output.go", T + "decode_frame_wrapup.go"], [("output process", T + "output.go"), ("filters before it", T + "decode_frame_wrapup.go")], R2, E2E)
p("C33", "Damaged streams never hang the decoder nor yield impossible pictures",
  "For every damaged or truncated frame, OBU size or framing, decoding ends, by a result or an error, within bounded time and memory, and every picture that is output all the same has a size within the sequence's bounds and samples within its bit depth.",
  ["inputs", "fault_sequences"], "all damage to OBU payloads, sizes and framing after a valid sequence header",
  TE + "only two intact streams are parsed by tests.",
  [PA, I + "obu/obu.go", T + "coeffs.go", T + "reconstruct.go"], [("framing loops", PA), ("Golomb codes", T + "coeffs.go"), ("sample clipping", T + "reconstruct.go")],
  "fuzzing: structured streams are damaged at random and decoded under a time and memory watchdog; output samples are range checked",
  "Exploration: random damage to generated streams, a watchdog of 60 s of CPU and 3 GB per case. ")
p("C34", "Decoding depends on nothing but the stream",
  "For every set of streams decoded in one process, however their OBUs interleave and whatever was decoded before, each decoder outputs exactly the pictures it outputs alone: no state leaks through package-level tables or shared storage.",
  ["histories", "schedules"], "all sets of streams and interleavings of their OBUs",
  TE + "no test runs two decoders.",
  [I + "state/state.go", T + "tile_group.go", I + "wedgemask/wedge_mask.go"],
  [("decoder state", I + "state/state.go"), ("tables copied per tile", T + "tile_group.go"), ("wedge mask tables", I + "wedgemask/wedge_mask.go")],
  "several generated streams are decoded OBU by OBU in random interleavings and compared with libaom's pictures of each", E2E)

p("C35", "Decoders that run at the same time do not disturb each other",
  "For every set of streams decoded at the same time by decoders in goroutines of one process, under every schedule, each decoder outputs exactly the pictures it outputs alone, and no two decoders access the same memory unsynchronised: tables made on first use included.",
  ["schedules", "histories"], "all sets of streams and schedules of their decoders",
  TE + "no test runs two decoders at the same time.",
  [I + "wedgemask/wedge_mask.go", I + "state/state.go", T + "tile_group.go"],
  [("wedge mask tables made on first use", I + "wedgemask/wedge_mask.go"), ("decoder state", I + "state/state.go"), ("scratch storage", T + "tile_group.go")],
  "several generated streams are decoded in parallel goroutines with drawn pauses, under the race detector, and compared with libaom's pictures of each",
  E2E + "Schedules are sampled, but the race detector judges by ordering, not by luck. ")

p("C36", "A key frame after a sequence header starts decoding anew",
  "For every history of a decoder (frames of the same or of other sequences, of any size, format and tools, cut off at any OBU), the pictures output from a sequence header and shown key frame on are those the stream yields from there alone: sequences may follow each other, sequence headers may be repeated, and a stream may be entered at any such key frame.",
  ["histories", "inputs"], "all sequences of coded video sequences, all points where one is cut off, and all key frames where a stream is entered",
  TE + "no test decodes two sequences with one decoder.",
  [I + "obu/obu.go", I + "state/state.go", U, PA],
  [("OBU dispatch", I + "obu/obu.go"), ("reference slots and saved state", I + "state/state.go"), ("key frame resets", U), ("parser loop", PA)],
  "generated streams are cut, joined and entered at later key frames, decoded by one decoder (directly and through the parser), and compared with libaom's pictures of each stream",
  E2E)


def main():
    done = json.load(open(V + "/harness/checks.json"))
    with open(V + "/properties.jsonl", "w") as f:
        for id in sorted(P):
            x = P[id]
            assert len(x["title"]) <= 80, (id, len(x["title"]))
            f.write(json.dumps({"id": id, "title": x["title"], "statement": x["st"], "quantifier": {"over": x["over"], "text": x["q"]},
                                "why_tests_cant": x["why"],
                                "anchors": {"files": x["files"], "mechanism": [{"name": a, "where": b} for a, b in x["mech"]]}}) + "\n")
    checks, na = [], []
    for id in sorted(P):
        x = P[id]
        if id in done:
            checks.append({"property": id, "quick_cmd": f"./check {id}", "thorough_cmd": f"./check {id} --tier thorough",
                           "technique": PBT + x["tech"], "level": "exploration", "level_note": x["note"]})
        else:
            na.append({"property": id, "reason": x.get("na") or "not claimed: its check is not built yet"})
    json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
               "notes": "Each check builds its harness from /repo's working tree with a go build overlay; nothing is installed or hooked."},
              open(V + "/MANIFEST.json", "w"), indent=1)
    print(len(checks), "claimed", len(na), "not")


main()
