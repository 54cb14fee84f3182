// aomtool: a persistent helper around the AV1 encoder and decoder of the libaom
// that is installed in the sandbox. No headers are installed, so the public ABI
// (libaom.so.3) is declared here. It talks a line/binary protocol on stdin/stdout.
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>

typedef struct { void *buf; size_t sz; } fixed_buf;
typedef struct {
  unsigned g_usage, g_threads, g_profile, g_w, g_h, g_limit, g_forced_max_frame_width, g_forced_max_frame_height;
  int g_bit_depth; unsigned g_input_bit_depth; int tb_num, tb_den; uint32_t g_error_resilient; int g_pass;
  unsigned g_lag_in_frames, rc_dropframe_thresh, rc_resize_mode, rc_resize_denominator, rc_resize_kf_denominator;
  int rc_superres_mode; unsigned rc_superres_denominator, rc_superres_kf_denominator, rc_superres_qthresh, rc_superres_kf_qthresh;
  int rc_end_usage; fixed_buf s1, s2;
  unsigned rc_target_bitrate, rc_min_quantizer, rc_max_quantizer, rc_undershoot_pct, rc_overshoot_pct, rc_buf_sz, rc_buf_initial_sz, rc_buf_optimal_sz,
    rc_2pass_vbr_bias_pct, rc_2pass_vbr_minsection_pct, rc_2pass_vbr_maxsection_pct;
  int fwd_kf_enabled, kf_mode; unsigned kf_min_dist, kf_max_dist, sframe_dist, sframe_mode, large_scale_tile, monochrome, full_still_picture_hdr, save_as_annexb;
  int tile_width_count, tile_height_count, tile_widths[64], tile_heights[64];
  unsigned use_fixed_qp_offsets;
  char rest[4096];
} enc_cfg;

typedef struct {
  int fmt, cp, tc, mc, monochrome, csp, range;
  unsigned w, h, bit_depth, d_w, d_h, r_w, r_h, xs, ys;
  unsigned char *planes[3]; int stride[3]; size_t sz; int bps; int temporal_id, spatial_id;
  char rest[256];
} image;

typedef struct { int kind; int pad; void *buf; size_t sz; int64_t pts; char rest[256]; } cx_pkt;
typedef struct { char b[512]; } ctx;

extern void *aom_codec_av1_cx(void); extern void *aom_codec_av1_dx(void);
extern int aom_codec_enc_config_default(void *, enc_cfg *, unsigned);
extern int aom_codec_enc_init_ver(ctx *, void *, const enc_cfg *, long flags, int ver);
extern int aom_codec_dec_init_ver(ctx *, void *, const void *, long flags, int ver);
extern int aom_codec_set_option(ctx *, const char *, const char *);
extern int aom_codec_encode(ctx *, const image *, int64_t, unsigned long, long);
extern const cx_pkt *aom_codec_get_cx_data(ctx *, const void **);
extern int aom_codec_decode(ctx *, const uint8_t *, size_t, void *);
extern image *aom_codec_get_frame(ctx *, const void **);
extern int aom_codec_destroy(ctx *);
extern const char *aom_codec_error_detail(const ctx *); extern const char *aom_codec_error(const ctx *);
extern image *aom_img_alloc(image *, int fmt, unsigned, unsigned, unsigned);
extern void aom_img_free(image *);
extern int aom_codec_control(ctx *, int, ...);
extern const char *aom_codec_version_str(void);

static void rd(void *p, size_t n) { if (n && fread(p, 1, n, stdin) != n) exit(0); }
static uint32_t r32(void) { uint32_t v; rd(&v, 4); return v; }
static char *rstr(void) { uint32_t n = r32(); char *s = malloc(n + 1); rd(s, n); s[n] = 0; return s; }
static void w32(uint32_t v) { fwrite(&v, 4, 1, stdout); }
static void wbuf(const void *p, uint32_t n) { w32(n); fwrite(p, 1, n, stdout); }
static void wstr(const char *s) { wbuf(s, strlen(s)); }

static int setcfg(enc_cfg *c, const char *k, long v) {
#define F(n) if (!strcmp(k, #n)) { c->n = v; return 1; }
  F(g_usage) F(g_threads) F(g_profile) F(g_w) F(g_h) F(g_limit) F(g_forced_max_frame_width) F(g_forced_max_frame_height) F(g_bit_depth) F(g_input_bit_depth)
  F(g_error_resilient) F(g_pass) F(g_lag_in_frames) F(rc_resize_mode) F(rc_resize_denominator) F(rc_resize_kf_denominator) F(rc_superres_mode)
  F(rc_superres_denominator) F(rc_superres_kf_denominator) F(rc_superres_qthresh) F(rc_superres_kf_qthresh) F(rc_end_usage) F(rc_target_bitrate)
  F(rc_min_quantizer) F(rc_max_quantizer) F(fwd_kf_enabled) F(kf_mode) F(kf_min_dist) F(kf_max_dist) F(sframe_dist) F(sframe_mode) F(monochrome) F(full_still_picture_hdr)
  F(tile_width_count) F(tile_height_count) F(use_fixed_qp_offsets)
#undef F
  if (!strncmp(k, "tile_widths", 11)) { c->tile_widths[atoi(k + 11)] = v; return 1; }
  if (!strncmp(k, "tile_heights", 12)) { c->tile_heights[atoi(k + 12)] = v; return 1; }
  return 0;
}

static int drain(ctx *c, int *n, uint8_t **out, uint32_t *sz) {
  const void *it = 0; const cx_pkt *p; int got = 0;
  while ((p = aom_codec_get_cx_data(c, &it))) if (p->kind == 0 && *n < 256) {
    out[*n] = malloc(p->sz + 1); memcpy(out[*n], p->buf, p->sz); sz[(*n)++] = p->sz; got = 1;
  }
  return got;
}

static void encode(void) {
  uint32_t w = r32(), h = r32(), xs = r32(), ys = r32(), bd = r32(), mono = r32(), nf = r32();
  uint32_t nk = r32(); char err[512] = "";
  enc_cfg c; memset(&c, 0, sizeof c);
  char *keys[128], *vals[128]; uint32_t usage = 0;
  if (nk > 128) exit(3);
  for (uint32_t i = 0; i < nk; i++) { keys[i] = rstr(); vals[i] = rstr(); if (!strcmp(keys[i], "g_usage")) usage = atoi(vals[i]); }
  int e = aom_codec_enc_config_default(aom_codec_av1_cx(), &c, usage);
  if (e) snprintf(err, sizeof err, "config %d", e);
  c.g_w = w; c.g_h = h; c.g_bit_depth = bd; c.g_input_bit_depth = bd; c.monochrome = mono; c.g_threads = 1;
  c.g_profile = bd == 12 || (xs && !ys) ? 2 : (!xs && !mono) ? 1 : 0;
  for (uint32_t i = 0; i < nk; i++) if (keys[i][0] != '-') if (!setcfg(&c, keys[i], atol(vals[i]))) { fprintf(stderr, "aomtool: no field %s\n", keys[i]); exit(4); }
  ctx cx; memset(&cx, 0, sizeof cx);
  int ok = 0;
  if (!*err) {
    long fl = bd > 8 ? 0x40000 : 0;
    static int ver = 0;
    if (ver) e = aom_codec_enc_init_ver(&cx, aom_codec_av1_cx(), &c, fl, ver);
    else for (int v = 1; v < 200; v++) { memset(&cx, 0, sizeof cx); e = aom_codec_enc_init_ver(&cx, aom_codec_av1_cx(), &c, fl, v); if (e != 3) { ver = v; break; } }
    if (e) snprintf(err, sizeof err, "init %d %s", e, aom_codec_error_detail(&cx) ? aom_codec_error_detail(&cx) : "");
    else ok = 1;
  }
  for (uint32_t i = 0; i < nk && !*err; i++) if (keys[i][0] == '-')
    if ((e = aom_codec_set_option(&cx, keys[i] + 1, vals[i]))) snprintf(err, sizeof err, "option %s=%s: %d %s", keys[i], vals[i], e, aom_codec_error_detail(&cx) ? aom_codec_error_detail(&cx) : "");
  int fmt = xs && ys ? 0x102 : xs ? 0x105 : 0x106; if (mono) fmt = 0x102;
  if (bd > 8) fmt |= 0x800;
  int n = 0; static uint8_t *out[256]; static uint32_t sz[256];
  for (uint32_t f = 0; f < nf; f++) {
    long flags = r32();
    image *im = aom_img_alloc(0, fmt, w, h, 16);
    im->bit_depth = bd; im->monochrome = mono;
    for (int p = 0; p < (mono ? 1 : 3); p++) {
      int pw = p && xs ? (w + 1) / 2 : w, ph = p && ys ? (h + 1) / 2 : h;
      for (int y = 0; y < ph; y++) {
        uint16_t row[65536]; rd(row, 2 * pw);
        if (bd > 8) memcpy(im->planes[p] + y * im->stride[p], row, 2 * pw);
        else for (int x = 0; x < pw; x++) im->planes[p][y * im->stride[p] + x] = row[x];
      }
    }
    if (mono) for (int p = 1; p < 3; p++) for (unsigned y = 0; y < (h + 1) / 2; y++) {
      if (bd > 8) for (unsigned x = 0; x < (w + 1) / 2; x++) ((uint16_t *)(im->planes[p] + y * im->stride[p]))[x] = 1 << (bd - 1);
      else memset(im->planes[p] + y * im->stride[p], 128, (w + 1) / 2);
    }
    if (!*err) {
      e = aom_codec_encode(&cx, im, f, 1, flags);
      if (e) snprintf(err, sizeof err, "encode %d %s", e, aom_codec_error_detail(&cx) ? aom_codec_error_detail(&cx) : "");
      else drain(&cx, &n, out, sz);
    }
    aom_img_free(im);
  }
  if (!*err) do { e = aom_codec_encode(&cx, 0, 0, 0, 0); } while (!e && drain(&cx, &n, out, sz));
  if (ok) aom_codec_destroy(&cx);
  wstr(err); w32(n);
  for (int i = 0; i < n; i++) { wbuf(out[i], sz[i]); free(out[i]); }
  for (uint32_t i = 0; i < nk; i++) { free(keys[i]); free(vals[i]); }
}

static void decode(void) {
  uint32_t nctl = r32(); int ids[32], vs[32];
  for (uint32_t i = 0; i < nctl && i < 32; i++) { ids[i] = r32(); vs[i] = r32(); }
  uint32_t n = r32(); char err[512] = "";
  ctx cx; memset(&cx, 0, sizeof cx); int e = 0;
  static int ver = 0;
  struct { unsigned threads, w, h, allow_lowbitdepth; } cfg = { 1, 0, 0, 0 };
  if (ver) e = aom_codec_dec_init_ver(&cx, aom_codec_av1_dx(), &cfg, 0, ver);
  else for (int v = 1; v < 200; v++) { memset(&cx, 0, sizeof cx); e = aom_codec_dec_init_ver(&cx, aom_codec_av1_dx(), &cfg, 0, v); if (e != 3) { ver = v; break; } }
  if (e) snprintf(err, sizeof err, "init %d", e);
  for (uint32_t i = 0; i < nctl && !*err; i++) if ((e = aom_codec_control(&cx, ids[i], vs[i]))) snprintf(err, sizeof err, "control %d: %d", ids[i], e);
  for (uint32_t i = 0; i < n; i++) {
    uint32_t sz = r32(); uint8_t *d = malloc(sz + 1); rd(d, sz);
    if (!*err) {
      e = aom_codec_decode(&cx, d, sz, 0);
      if (e) snprintf(err, sizeof err, "unit %u: %d %s", i, e, aom_codec_error_detail(&cx) ? aom_codec_error_detail(&cx) : "");
      const void *it = 0; image *im;
      if (!*err) while ((im = aom_codec_get_frame(&cx, &it))) {
        w32(1); w32(i); w32(im->d_w); w32(im->d_h); w32(im->bit_depth); w32(im->monochrome); w32(im->xs); w32(im->ys);
        for (int p = 0; p < (im->monochrome ? 1 : 3); p++) {
          int pw = p && im->xs ? (im->d_w + 1) / 2 : im->d_w, ph = p && im->ys ? (im->d_h + 1) / 2 : im->d_h;
          for (int y = 0; y < ph; y++) {
            if (im->fmt & 0x800) fwrite(im->planes[p] + y * im->stride[p], 2, pw, stdout);
            else for (int x = 0; x < pw; x++) { uint16_t v = im->planes[p][y * im->stride[p] + x]; fwrite(&v, 2, 1, stdout); }
          }
        }
      }
    }
    free(d);
  }
  w32(0); wstr(err);
  aom_codec_destroy(&cx);
}

int main(void) {
  static char ob[1 << 20]; setvbuf(stdout, ob, _IOFBF, sizeof ob);
  for (;;) {
    int c = getchar();
    if (c == EOF) return 0;
    if (c == 'E') encode(); else if (c == 'D') decode(); else if (c == 'V') wstr(aom_codec_version_str()); else return 2;
    fflush(stdout);
  }
}
