/* Library-level monitor of the building blocks, every output judged by the independent oracle.
 *   prim_mon MODE SEED FIRST COUNT     modes: keccak sha2aes huge ring pke
 * Symbols are weak: an implementation that does not have one of them simply has fewer monitored
 * operations (reported as STAT absent). */
#include "hcore.h"
#include "pke.h"
#include <immintrin.h>
#include <openssl/evp.h>
#define WEAK __attribute__((weak))
typedef unsigned char u8;
typedef unsigned long long ull;
WEAK void shake128(u8 *o, ull ol, const u8 *i, ull il);
WEAK void sha3_256(u8 *o, const u8 *i, ull il);
WEAK void sha3_512(u8 *o, const u8 *i, ull il);
WEAK void cshake128_simple(u8 *o, ull ol, uint16_t c, const u8 *i, ull il);
WEAK void shake128x4(u8 *, u8 *, u8 *, u8 *, ull, const u8 *, const u8 *, const u8 *, const u8 *, ull);
WEAK void shake256x4(u8 *, u8 *, u8 *, u8 *, ull, const u8 *, const u8 *, const u8 *, const u8 *, ull);
WEAK void sha3_256x4(u8 *, u8 *, u8 *, u8 *, const u8 *, const u8 *, const u8 *, const u8 *, ull);
WEAK void sha3_512x4(u8 *, u8 *, u8 *, u8 *, const u8 *, const u8 *, const u8 *, const u8 *, ull);
WEAK void sha256(u8 *o, const u8 *i, size_t n);
WEAK void sha512(u8 *o, const u8 *i, size_t n);
WEAK void saber_aes256ctr_prf(u8 *o, ull ol, const u8 *key);
WEAK void aes256ctr_prf(u8 *o, size_t ol, const u8 *key, const u8 *nonce);
WEAK void aes256ctr_init(void *st, const u8 *key, const u8 *nonce);
WEAK void aes256ctr_squeezeblocks(u8 *o, size_t nb, void *st);
WEAK int crypto_stream_aes256ctr(u8 *c, ull clen, const u8 *n, const u8 *k);
WEAK int verify(const u8 *a, const u8 *b, size_t n);
WEAK void cmov(u8 *r, const u8 *x, size_t n, u8 b);
WEAK void poly_mul_acc(const uint16_t *a, const uint16_t *b, uint16_t *r);
WEAK void POLT2BS(u8 *b, const uint16_t *d);
WEAK void BS2POLT(const u8 *b, uint16_t *d);
WEAK void POLVECq2BS(u8 *b, const uint16_t *d);
WEAK void POLVECp2BS(u8 *b, const uint16_t *d);
WEAK void BS2POLVECq(const u8 *b, uint16_t *d);
WEAK void BS2POLVECp(const u8 *b, uint16_t *d);
WEAK void BS2POLmsg(const u8 *b, uint16_t *d);
WEAK void POLmsg2BS(u8 *b, const uint16_t *d);
WEAK void SABER_pack_3bit(u8 *b, const uint16_t *d);
WEAK void SABER_un_pack3bit(const u8 *b, uint16_t *d);
WEAK void SABER_pack_4bit(u8 *b, const uint16_t *d);
WEAK void SABER_un_pack4bit(const u8 *b, uint16_t *d);
WEAK void SABER_pack_6bit(u8 *b, const uint16_t *d);
WEAK void SABER_un_pack6bit(const u8 *b, uint16_t *d);
WEAK void POLVEC2BS(u8 *b, const uint16_t *d, uint16_t mod);
WEAK void BS2POLVEC(const u8 *b, uint16_t *d, uint16_t mod);
WEAK void MatrixVectorMul(const uint16_t *a, const uint16_t *s, uint16_t *r, int16_t tr);
WEAK void load_values(void);
WEAK void TC_eval(void *b, void *bucket);
WEAK void vector_vector_mul(void *a, void *bucket, void *r);
WEAK void matrix_vector_mul(void *a, void *bucket, void *r, int tr);
WEAK void InnerProd(const uint16_t *b, const uint16_t *s, uint16_t *r);
#if LANES == 1
WEAK void GenMatrix(void *a, const u8 *seed);
WEAK void GenSecret(void *s, const u8 *seed);
#endif

#define MAXB (1 << 20)
static wrng R;
static gbuf GBI[2][4], GBO[2][4], *CI[4], *CO[4];
#define SMALLB 6000
static u8 want[MAXB], tmp[MAXB + 512], xin[4][MAXB];
static ull n_calls, n_bytes, n_len0, n_rate, n_inplace, n_big;
static unsigned absent;
static u8 len_seen[4096];

static void judge(const char *what, int lane, const u8 *got, size_t n, size_t inlen)
{
  n_calls++; n_bytes += n; note(what, (uint8_t *)&inlen, sizeof inlen, want, n);
  int d = diff_at(got, want, n);
  if (d < 0) return;
  cur_what = what; viol_begin("wrong-output"); printf(" lane=%d inlen=%zu outlen=%zu first_diff=%d", lane, inlen, n, d);
  hexs(stdout, "got", got + d, n - d < 16 ? n - d : 16); hexs(stdout, "want", want + d, n - d < 16 ? n - d : 16); viol_done();
}
static void bounds(const char *what, gbuf *g, size_t inlen, size_t outlen)
{
  long d = g_check(g);
  if (d == -1000000) return;
  cur_what = what; viol_begin("wrote-outside-output"); printf(" at=%ld inlen=%zu outlen=%zu", d, inlen, outlen); viol_done();
}
/* lengths: all of 0..LIM in order, then boundaries of every rate, then random, now and then long */
static size_t pick_len(ull k, int out)
{
  static const int edge[] = {0, 1, 7, 8, 9, 31, 32, 33, 55, 56, 57, 63, 64, 65, 71, 72, 73, 111, 112, 113, 119, 120, 127, 128, 129, 135, 136, 137, 143, 144,
                             145, 167, 168, 169, 207, 208, 215, 216, 239, 240, 255, 256, 257, 271, 272, 273, 287, 288, 335, 336, 337, 407, 408, 503, 504, 511, 512, 671, 672, 673};
  switch (w_below(&R, 6)) {
    case 0: return edge[w_below(&R, sizeof edge / sizeof *edge)];
    case 1: { static const int rt[] = {72, 136, 168, 64, 128, 16}; int r = rt[w_below(&R, 6)]; size_t q = w_below(&R, 40); size_t v = q * r + w_below(&R, 3); return v ? v - 1 : 0; }
    case 2: return w_below(&R, 5000);
    case 3: if (k % 97 == 0) { n_big++; return w_below(&R, out ? 70000 : 200000); } /* fall through */
    default: return w_below(&R, 700);
  }
}
static void count_len(size_t n) { if (n < sizeof len_seen) len_seen[n] = 1; if (n == 0) n_len0++; if (n && (n % 168 == 0 || n % 136 == 0 || n % 72 == 0)) n_rate++; }

static void m_cshake(u8 *o, size_t ol, uint16_t c, const u8 *in, size_t il)
{
  static u8 b[MAXB + 168];
  memset(b, 0, 168); b[0] = 1; b[1] = 168; b[2] = 1; b[3] = 0; b[4] = 1; b[5] = 16; b[6] = (u8)c; b[7] = (u8)(c >> 8);
  memcpy(b + 168, in, il);
  m_keccak(o, ol, b, il + 168, 168, 0x04);
}
static u8 *put_in(int i, size_t n)
{
  u8 *p = g_place(CI[i] = &GBI[n > SMALLB][i], n, (int)w_below(&R, 3), w_below(&R, 64));
  if (w_below(&R, 4)) w_bytes(&R, p, n); else w_shape(&R, p, n);
  memcpy(xin[i], p, n);
  return p;
}
static u8 *put_out(int i, size_t n) { return g_place(CO[i] = &GBO[n > SMALLB][i], n, (int)w_below(&R, 3), w_below(&R, 64)); }
static u8 junk[8];

static void one_keccak(ull k, size_t il, size_t ol)
{
  if (il > 250000) il = 250000;
  u8 *in = put_in(0, il); g_readonly(CI[0]);
  if (!in) in = junk;
  count_len(il);
  if (k % 3 == 0) pollute_stack((u8)w_u64(&R), 1);
  u8 *o;
  if (shake128) { o = put_out(0, ol); shake128(o, ol, in, il); m_shake128(want, ol, xin[0], il); judge("shake128", 0, o, ol, il); bounds("shake128", CO[0], il, ol); } else absent |= 1;
  if (sha3_256) { o = put_out(0, 32); sha3_256(o, in, il); m_sha3_256(want, xin[0], il); judge("sha3_256", 0, o, 32, il); bounds("sha3_256", CO[0], il, 32); } else absent |= 2;
  if (sha3_512) { o = put_out(0, 64); sha3_512(o, in, il); m_sha3_512(want, xin[0], il); judge("sha3_512", 0, o, 64, il); bounds("sha3_512", CO[0], il, 64); } else absent |= 4;
  if (cshake128_simple) { uint16_t c = (uint16_t)w_u64(&R); o = put_out(0, ol); cshake128_simple(o, ol, c, in, il); m_cshake(want, ol, c, xin[0], il); judge("cshake128_simple", 0, o, ol, il); bounds("cshake128_simple", CO[0], il, ol); }
  /* hashing a buffer onto itself, as the KEM does */
  if (k % 4 == 0 && il < 4096) {
    if (sha3_256) { memcpy(tmp, xin[0], il); sha3_256(tmp, tmp, il); m_sha3_256(want, xin[0], il); judge("sha3_256-in-place", 0, tmp, 32, il); n_inplace++; }
    if (sha3_512) { memcpy(tmp, xin[0], il); sha3_512(tmp, tmp, il); m_sha3_512(want, xin[0], il); judge("sha3_512-in-place", 0, tmp, 64, il); n_inplace++; }
    if (shake128) { size_t q = ol > 2000 ? 2000 : ol; memcpy(tmp, xin[0], il); shake128(tmp, q, tmp, il); m_shake128(want, q, xin[0], il); judge("shake128-in-place", 0, tmp, q, il); n_inplace++; }
  }
  if (shake128x4 && il < 20000 && ol < 20000) {
    u8 *i4[4], *o4[4];
    for (int l = 0; l < 4; l++) i4[l] = put_in(l, il);
    if (w_below(&R, 4) == 0) { memcpy(i4[2], i4[0], il); memcpy(xin[2], xin[0], il); }
    for (int l = 0; l < 4; l++) g_readonly(CI[l]);
#define X4(NAME, OL, CALL, REF) do { for (int l = 0; l < 4; l++) o4[l] = put_out(l, OL); cur_what = NAME; CALL; \
    for (int l = 0; l < 4; l++) { REF; judge(NAME, l, o4[l], OL, il); bounds(NAME, CO[l], il, OL); } } while (0)
    X4("shake128x4", ol, shake128x4(o4[0], o4[1], o4[2], o4[3], ol, i4[0], i4[1], i4[2], i4[3], il), m_shake128(want, ol, xin[l], il));
    if (shake256x4) X4("shake256x4", ol, shake256x4(o4[0], o4[1], o4[2], o4[3], ol, i4[0], i4[1], i4[2], i4[3], il), m_shake256(want, ol, xin[l], il));
    if (sha3_256x4) X4("sha3_256x4", 32, sha3_256x4(o4[0], o4[1], o4[2], o4[3], i4[0], i4[1], i4[2], i4[3], il), m_sha3_256(want, xin[l], il));
    if (sha3_512x4) X4("sha3_512x4", 64, sha3_512x4(o4[0], o4[1], o4[2], o4[3], i4[0], i4[1], i4[2], i4[3], il), m_sha3_512(want, xin[l], il));
  }
}
static void one_sha2aes(ull k, size_t il, size_t ol)
{
  if (il > 250000) il = 250000;
  u8 *in = put_in(0, il); g_readonly(CI[0]);
  count_len(il);
  if (k % 3 == 0) pollute_stack((u8)w_u64(&R), 1);
  u8 *o;
  if (sha256) { o = put_out(0, 32); sha256(o, in, il); m_sha256(want, xin[0], il); judge("sha256", 0, o, 32, il); bounds("sha256", CO[0], il, 32); } else absent |= 1;
  if (sha512) { o = put_out(0, 64); sha512(o, in, il); m_sha512(want, xin[0], il); judge("sha512", 0, o, 64, il); bounds("sha512", CO[0], il, 64); } else absent |= 2;
  if (k % 4 == 0 && il < 4096) {
    if (sha256) { memcpy(tmp, xin[0], il); sha256(tmp, tmp, il); m_sha256(want, xin[0], il); judge("sha256-in-place", 0, tmp, 32, il); n_inplace++; }
    if (sha512) { memcpy(tmp, xin[0], il); sha512(tmp, tmp, il); m_sha512(want, xin[0], il); judge("sha512-in-place", 0, tmp, 64, il); n_inplace++; }
  }
  u8 *key = put_in(1, 32); g_readonly(CI[1]);
  u8 iv[16] = {0};
  if (saber_aes256ctr_prf) { o = put_out(0, ol); saber_aes256ctr_prf(o, ol, key); m_aes256ctr(want, ol, xin[1], iv); judge("aes256ctr-prf", 0, o, ol, 32); bounds("aes256ctr-prf", CO[0], 32, ol); } else absent |= 4;
  if (aes256ctr_prf) {
    u8 *no = put_in(2, 12); g_readonly(CI[2]);
    memcpy(iv, xin[2], 12); memset(iv + 12, 0, 4);
    o = put_out(0, ol); aes256ctr_prf(o, ol, key, no); m_aes256ctr(want, ol, xin[1], iv); judge("aes256ctr-nonce", 0, o, ol, 32); bounds("aes256ctr-nonce", CO[0], 32, ol);
    if (aes256ctr_init && aes256ctr_squeezeblocks && ol < 60000) {
      static uint64_t st[512] __attribute__((aligned(64)));
      memset(st, 0x77, sizeof st);
      aes256ctr_init(st, key, no);
      size_t nb = ol / 64, a = nb ? w_below(&R, (uint32_t)nb + 1) : 0;
      o = put_out(0, nb * 64);
      aes256ctr_squeezeblocks(o, a, st); aes256ctr_squeezeblocks(o + 64 * a, nb - a, st);
      m_aes256ctr(want, nb * 64, xin[1], iv); judge("aes256ctr-stream", 0, o, nb * 64, 32); bounds("aes256ctr-stream", CO[0], 32, ol);
    }
  }
  if (crypto_stream_aes256ctr) {
    u8 *no = put_in(2, 16); 
    switch (w_below(&R, 4)) {      /* counters about to carry out of each byte, through every batch of blocks */
      case 0: { int f = 1 + (int)w_below(&R, 15); for (int i = f; i < 16; i++) no[i] = 0xff; no[15] = (u8)(0x100 - w_below(&R, 80)); break; }
      case 1: { unsigned d = w_below(&R, 40) * 8 + 8; for (int i = 8; i < 14; i++) no[i] = 0xff; d = 0x10000 - d; no[14] = (u8)(d >> 8); no[15] = (u8)d; break; }
      case 2: for (int i = 8; i < 16; i++) no[i] = 0; break;
      default: break;
    }
    memcpy(xin[2], no, 16); g_readonly(CI[2]);
    o = put_out(0, ol); crypto_stream_aes256ctr(o, ol, no, key); m_aes256ctr(want, ol, xin[1], xin[2]); judge("aes256ctr-nonce16", 0, o, ol, 32); bounds("aes256ctr-nonce16", CO[0], 32, ol);
  }
}

/* ---- messages and streams longer than 2^32 bytes. One small file is mapped over and over, so a
 * long input costs no memory and a long output leaves its last bytes to be judged. ---- */
#define RINGB ((size_t)4 << 20)
static u8 *ring_map(size_t len, int writable)
{
  int fd = memfd_create("ring", 0);
  if (fd < 0 || ftruncate(fd, (off_t)RINGB)) return NULL;
  u8 *f = mmap(NULL, RINGB, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  if (f == MAP_FAILED) return NULL;
  w_bytes(&R, f, RINGB); munmap(f, RINGB);
  size_t n = (len + 2 * RINGB - 1) / RINGB;
  u8 *b = mmap(NULL, n * RINGB, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (b == MAP_FAILED) return NULL;
  for (size_t i = 0; i < n; i++) if (mmap(b + i * RINGB, RINGB, PROT_READ | (writable ? PROT_WRITE : 0), MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) return NULL;
  close(fd);
  return b;
}
static void ring_unmap(u8 *b, size_t len) { munmap(b, (len + 2 * RINGB - 1) / RINGB * RINGB); }
static void ossl(u8 *o, size_t ol, const EVP_MD *md, const u8 *in, size_t il)
{
  EVP_MD_CTX *c = EVP_MD_CTX_new();
  if (!c || EVP_DigestInit_ex(c, md, NULL) != 1 || EVP_DigestUpdate(c, in, il) != 1) abort();
  if (EVP_MD_get_flags(md) & EVP_MD_FLAG_XOF) { if (EVP_DigestFinalXOF(c, o, ol) != 1) abort(); }
  else if (EVP_DigestFinal_ex(c, o, NULL) != 1) abort();
  EVP_MD_CTX_free(c);
}
static ull n_huge;
#define HUGE_KINDS 9
static void one_huge(ull k)
{
  size_t n = ((size_t)1 << 32) + 1 + w_below(&R, 2000), at = w_below(&R, 64);
  wd_secs = 1200; watchdog_arm();
  int kind = (int)(k % HUGE_KINDS);
  u8 o[4][256]; memset(o, 0x5c, sizeof o);
  if (kind < 7) {
    if ((kind == 0 && !shake128) || (kind == 1 && !sha3_256) || (kind == 2 && !sha3_512) || (kind == 3 && !sha256) || (kind == 4 && !sha512) || (kind == 5 && !shake128x4) || (kind == 6 && !sha3_256x4)) return;
    u8 *in = ring_map(n + 4 * 64, 0);
    if (!in) { absent |= 64; return; }
    u8 *p = in + at;
    switch (kind) {
      case 0: cur_what = "shake128"; shake128(o[0], 200, p, n); ossl(want, 200, EVP_shake128(), p, n); judge("shake128-huge-input", 0, o[0], 200, n); break;
      case 1: cur_what = "sha3_256"; sha3_256(o[0], p, n); ossl(want, 32, EVP_sha3_256(), p, n); judge("sha3_256-huge-input", 0, o[0], 32, n); break;
      case 2: cur_what = "sha3_512"; sha3_512(o[0], p, n); ossl(want, 64, EVP_sha3_512(), p, n); judge("sha3_512-huge-input", 0, o[0], 64, n); break;
      case 3: cur_what = "sha256"; sha256(o[0], p, n); ossl(want, 32, EVP_sha256(), p, n); judge("sha256-huge-input", 0, o[0], 32, n); break;
      case 4: cur_what = "sha512"; sha512(o[0], p, n); ossl(want, 64, EVP_sha512(), p, n); judge("sha512-huge-input", 0, o[0], 64, n); break;
      case 5: case 6: {
        int l = (int)w_below(&R, 4); cur_what = kind == 5 ? "shake128x4" : "sha3_256x4";
        if (kind == 5) { shake128x4(o[0], o[1], o[2], o[3], 200, p, p + 64, p + 128, p + 192, n); ossl(want, 200, EVP_shake128(), p + 64 * l, n); judge("shake128x4-huge-input", l, o[l], 200, n); }
        else { sha3_256x4(o[0], o[1], o[2], o[3], p, p + 64, p + 128, p + 192, n); ossl(want, 32, EVP_sha3_256(), p + 64 * l, n); judge("sha3_256x4-huge-input", l, o[l], 32, n); }
      }
    }
    ring_unmap(in, n + 4 * 64);
  } else {
    if ((kind == 7 && !shake128) || (kind == 8 && !saber_aes256ctr_prf && !crypto_stream_aes256ctr && !aes256ctr_prf)) return;
    u8 *r1 = ring_map(n + 64, 1), *r2 = ring_map(n + 64, 1);
    if (!r1 || !r2) { absent |= 64; return; }
    u8 key[32], iv[16] = {0}; w_bytes(&R, key, 32);
    if (kind == 7) { cur_what = "shake128"; shake128(r1 + at, n, key, 32); m_shake128(r2 + at, n, key, 32); }
    else {
      cur_what = "aes256ctr";
      if (aes256ctr_prf) { w_bytes(&R, iv, 12); aes256ctr_prf(r1 + at, n, key, iv); }
      else if (crypto_stream_aes256ctr) { w_bytes(&R, iv, 16); crypto_stream_aes256ctr(r1 + at, n, iv, key); }
      else saber_aes256ctr_prf(r1 + at, n, key);
      u8 v[16]; size_t step = (size_t)1 << 20; memcpy(v, iv, 16);      /* 2^16 blocks at a time; only the last RINGB bytes survive */
      for (size_t d = 0; d < n; d += step) {
        if (n - d <= RINGB + step) m_aes256ctr(r2 + at + d, n - d < step ? n - d : step, key, v);
        unsigned cy = (unsigned)(step / 16); for (int j = 15; j >= 0 && cy; j--) { cy += v[j]; v[j] = (u8)cy; cy >>= 8; }
      }
    }
    n_calls++; n_bytes += RINGB; note(cur_what, (uint8_t *)&n, sizeof n, r2 + n + at - 64, 64);
    const u8 *a = r1 + n + at - RINGB, *b = r2 + n + at - RINGB; int d = diff_at(a, b, RINGB);      /* the last RINGB bytes of the stream */
    if (d >= 0) { viol_begin("wrong-output"); printf(" outlen=%zu byte=%zu", n, n - RINGB + (size_t)d); hexs(stdout, "got", a + d, 16); hexs(stdout, "want", b + d, 16); viol_done(); }
    ring_unmap(r1, n + 64); ring_unmap(r2, n + 64);
  }
  n_huge++;
}

/* ---- ring arithmetic and encodings ---- */
static uint16_t pa[4096] __attribute__((aligned(64))), pb[4096] __attribute__((aligned(64))), pr[4096] __attribute__((aligned(64))), pw[4096];
static void coeffs(uint16_t *p, int n, unsigned bits)
{
  unsigned m = (1u << bits) - 1;
  unsigned half = 1u << (bits - 1); const unsigned ext[] = {0, 1, 2, m, m - 1, half, half - 1, half + 1, m >> 2, half + 2};
  switch (w_below(&R, 13)) {
    case 6: for (int i = 0; i < n; i++) p[i] = (uint16_t)(ext[w_below(&R, 10)] & m); break;                       /* extreme values, mixed */
    case 7: { unsigned v = ext[w_below(&R, 10)] & m; int a = (int)w_below(&R, (uint32_t)n), l = 1 + (int)w_below(&R, 16);       /* a run in random data */
              for (int i = 0; i < n; i++) p[i] = (uint16_t)(i >= a && i < a + l ? v : (w_u64(&R) & m)); break; }
    case 8: for (int i = 0; i < n; i++) p[i] = (uint16_t)(w_below(&R, 8) ? (w_u64(&R) & m) : (ext[w_below(&R, 10)] & m)); break;
    case 9: { unsigned v = (unsigned)w_u64(&R) & m; for (int i = 0; i < n; i++) p[i] = (uint16_t)v; break; }
    case 0: for (int i = 0; i < n; i++) p[i] = (uint16_t)m; break;
    case 1: for (int i = 0; i < n; i++) p[i] = 0; p[w_below(&R, (uint32_t)n)] = (uint16_t)(w_u64(&R) & m); break;
    case 2: for (int i = 0; i < n; i++) p[i] = (uint16_t)(w_u64(&R) % 11 - 5) & m; break;
    case 3: for (int i = 0; i < n; i++) p[i] = (uint16_t)(1u << (bits - 1)) & m; break;
    case 4: for (int i = 0; i < n; i++) p[i] = (i & 1) ? (uint16_t)m : 0; break;
    case 5: for (int i = 0; i < n; i++) p[i] = (uint16_t)(i & m); break;
    default: for (int i = 0; i < n; i++) p[i] = (uint16_t)(w_u64(&R) & m);
  }
}
static void judge16(const char *what, const uint16_t *got, int n, unsigned mask)
{
  n_calls++; n_bytes += 2 * (size_t)n; note(what, (const uint8_t *)pw, 2 * (size_t)n, NULL, 0);
  for (int i = 0; i < n; i++) if ((got[i] ^ pw[i]) & mask) {
    cur_what = what; viol_begin("wrong-coefficient"); printf(" index=%d got=%u want=%u", i, got[i] & mask, pw[i] & mask); viol_done(); return;
  }
}
static void enc_case(const char *what, void (*pack)(u8 *, const uint16_t *), void (*unpack)(const u8 *, uint16_t *), int n, int bits)
{
  size_t nb = (size_t)n * bits / 8;
  coeffs(pa, n, (unsigned)bits);
  if (pack) {
    uint16_t *src = (uint16_t *)g_place(CI[0] = &GBI[0][0], 2 * (size_t)n, 2, 0); src = (uint16_t *)(((uintptr_t)src + 63) & ~(uintptr_t)63);
    memcpy(src, pa, 2 * (size_t)n);
    u8 *o = put_out(0, nb);
    cur_what = what; pack(o, src); m_pack(want, pa, n, bits); judge(what, 0, o, nb, (size_t)n); bounds(what, CO[0], (size_t)n, nb);
  } else absent++;
  if (unpack) {
    u8 *in = put_in(1, nb); g_readonly(CI[1]);
    cur_what = what; unpack(in, pr); m_unpack(pw, xin[1], n, bits); judge16(what, pr, n, 0xffff);
  } else absent++;
}
static void pv_q(u8 *b, const uint16_t *d) { POLVEC2BS(b, (uint16_t *)d, 8192); }
static void pv_p(u8 *b, const uint16_t *d) { POLVEC2BS(b, (uint16_t *)d, 1024); }
static void uv_q(const u8 *b, uint16_t *d) { BS2POLVEC(b, d, 8192); }
static void uv_p(const u8 *b, uint16_t *d) { BS2POLVEC(b, d, 1024); }

/* the vectorised kernels: evaluation of the second operand, products, interpolation */
static void ring_avx(void)
{
  static __m256i va[16][16], vb[4][16], bucket[4][64], vr[4][16];
  if (!load_values || !TC_eval || !vector_vector_mul || !matrix_vector_mul) { absent++; return; }
  int L = P.L; unsigned mask = (1u << P.EQ) - 1; static uint16_t acc[256];
  for (int i = 0; i < L * L; i++) coeffs((uint16_t *)va[i], 256, w_below(&R, 3) ? 13 : 10);
  for (int i = 0; i < L; i++) {
    if (w_below(&R, 2)) coeffs((uint16_t *)vb[i], 256, 13);
    else for (int j = 0; j < 256; j++) ((uint16_t *)vb[i])[j] = (uint16_t)((int)w_below(&R, 11) - 5);      /* secrets are sign-extended there */
  }
  load_values();
  for (int i = 0; i < L; i++) TC_eval(vb[i], bucket[i]);
  cur_what = "vector_vector_mul"; vector_vector_mul(va, bucket, vr);
  memset(acc, 0, sizeof acc); for (int i = 0; i < L; i++) m_polymul_acc(acc, (uint16_t *)va[i], (uint16_t *)vb[i]);
  memcpy(pw, acc, 512); judge16("vector_vector_mul", (uint16_t *)vr, 256, mask);
  for (int tr = 0; tr < 2; tr++) {
    for (int i = 0; i < L; i++) TC_eval(vb[i], bucket[i]);
    cur_what = "matrix_vector_mul"; matrix_vector_mul(va, bucket, vr, tr);
    for (int i = 0; i < L; i++) {
      memset(acc, 0, sizeof acc);
      for (int j = 0; j < L; j++) m_polymul_acc(acc, (uint16_t *)va[tr ? j * L + i : i * L + j], (uint16_t *)vb[j]);
      memcpy(pw + 256 * i, acc, 512);
    }
    judge16("matrix_vector_mul", (uint16_t *)vr, 256 * L, mask);
  }
}
static void one_ring(ull k)
{
#if CFG_AVX
  if (k % 4 == 0) ring_avx();
#endif
  if (poly_mul_acc) {
    int qa = w_below(&R, 3) ? 13 : 10, qb = w_below(&R, 3) ? 13 : 10;
    coeffs(pa, 256, (unsigned)qa); coeffs(pb, 256, (unsigned)qb); coeffs(pr, 256, 13); memcpy(pw, pr, 512);
    if (w_below(&R, 3) == 0) for (int i = 0; i < 256; i++) pb[i] = (uint16_t)((int)w_below(&R, 11) - 5);   /* as the KEM keeps secrets: 16-bit two's complement */
    static uint16_t sa[256], sb[256]; memcpy(sa, pa, 512); memcpy(sb, pb, 512);
    m_polymul_acc(pw, pa, pb); cur_what = "poly-mul"; poly_mul_acc(pa, pb, pr); judge16("poly-mul", pr, 256, 0x1fff);
    n_calls++; if (memcmp(sa, pa, 512) || memcmp(sb, pb, 512)) { viol_begin("operand-modified"); viol_done(); }
  } else absent++;
  int L = P.L;
  if (MatrixVectorMul && k % 4 == 0) {
    static uint16_t A[4][4][256], s[4][256], r[4][256];
    int tr = (int)w_below(&R, 2);
    for (int i = 0; i < L; i++) coeffs(s[i], 256, 13);
    uint16_t *f = &A[0][0][0];
    for (int i = 0; i < L * L; i++) coeffs(f + 256 * i, 256, 13);
    memset(r, 0, sizeof r);
    cur_what = "matrix-vector"; MatrixVectorMul(f, &s[0][0], &r[0][0], (int16_t)tr);
    for (int i = 0; i < L; i++) {
      memset(pw, 0, 512);
      for (int j = 0; j < L; j++) m_polymul_acc(pw, tr ? f + 256 * (j * L + i) : f + 256 * (i * L + j), s[j]);
      judge16("matrix-vector", r[i], 256, 0x1fff);
    }
  }
  if (InnerProd && k % 4 == 1) {
    static uint16_t a[4][256], s[4][256];
    for (int i = 0; i < L; i++) { coeffs(s[i], 256, 13); coeffs(a[i], 256, 10); }
    memset(pr, 0, 512); memset(pw, 0, 512);
    cur_what = "inner-product"; InnerProd(&a[0][0], &s[0][0], pr);
    for (int j = 0; j < L; j++) m_polymul_acc(pw, a[j], s[j]);
    judge16("inner-product", pr, 256, 0x3ff);
  }
  enc_case("polyvec-q", POLVECq2BS ? POLVECq2BS : POLVEC2BS ? pv_q : NULL, BS2POLVECq ? BS2POLVECq : BS2POLVEC ? uv_q : NULL, 256 * L, P.EQ);
  enc_case("polyvec-p", POLVECp2BS ? POLVECp2BS : POLVEC2BS ? pv_p : NULL, BS2POLVECp ? BS2POLVECp : BS2POLVEC ? uv_p : NULL, 256 * L, 10);
  if (POLT2BS || BS2POLT) enc_case("poly-T", POLT2BS, BS2POLT, 256, P.ET);
  if (POLmsg2BS || BS2POLmsg) enc_case("message", POLmsg2BS, BS2POLmsg, 256, 1);
  if (SABER_pack_3bit) enc_case("3-bit", (void *)SABER_pack_3bit, SABER_un_pack3bit, 256, 3);
  if (SABER_pack_4bit) enc_case("4-bit", (void *)SABER_pack_4bit, SABER_un_pack4bit, 256, 4);
  if (SABER_pack_6bit) enc_case("6-bit", (void *)SABER_pack_6bit, SABER_un_pack6bit, 256, 6);
  if (verify && cmov) {
    size_t n = w_below(&R, 3) ? (size_t)P.ct : w_below(&R, 2100);
    if (n == 0) n = 1;
    u8 *a = put_in(0, n), *b = g_place(CI[1] = &GBI[n > SMALLB][1], n, (int)w_below(&R, 3), w_below(&R, 64));
    memcpy(b, a, n);
    cur_what = "verify"; n_calls += 2;
    if (verify(a, b, n) != 0) { viol_begin("equal-reported-different"); printf(" n=%zu", n); viol_done(); }
    int kind = (int)w_below(&R, 6);
    if (kind >= 4) { size_t e = w_below(&R, n < 40 ? (uint32_t)n : 40); b[kind == 4 ? e : n - 1 - e] ^= (u8)(1u << w_below(&R, 8)); }
    else if (kind == 0) b[w_below(&R, (uint32_t)n)] ^= (u8)(1u << w_below(&R, 8));
    else if (kind == 1) { size_t i = w_below(&R, (uint32_t)n), j = w_below(&R, (uint32_t)n); u8 d = (u8)(1 + w_below(&R, 255)); b[i] ^= d; if (i != j) b[j] ^= d; }
    else if (kind == 2) for (size_t i = 0; i < n; i++) b[i] ^= 0x80;
    else b[w_below(&R, 2) ? 0 : n - 1] ^= (u8)(1 + w_below(&R, 255));
    if (verify(a, b, n) != 1) { viol_begin("different-reported-equal"); printf(" n=%zu kind=%d", n, kind); viol_done(); }
    u8 bit = (u8)w_below(&R, 2);
    memcpy(want, bit ? b : a, n);
    memcpy(tmp, a, n); u8 *o = put_out(0, n); memcpy(o, a, n);
    cur_what = "cmov"; cmov(o, b, n, bit); judge("cmov", bit, o, n, n); bounds("cmov", CO[0], n, n);
  }
}

/* ---- the CPA-secure public-key encryption underneath ---- */
static ull n_pke[3], n_mok;
static void one_pke(ull k)
{
  static u8 m[32 * LANES], coins[32 * LANES], m2[32 * LANES];
  u8 rk[64 * LANES];
  for (int i = 0; i < 2 * LANES; i++) if (w_below(&R, 3)) w_bytes(&R, rk + 32 * i, 32); else w_shape(&R, rk + 32 * i, 32);
  if (!pke_present()) { absent++; return; }
  static u8 mpk[BPK], msk[BSK], mct[BCT];
  size_t in = (size_t)P.isk * LANES;
  u8 *pk = put_out(0, PKN), *sk = put_out(1, in), *ct, *pin;
  cur_what = "pke-keypair"; pke_keypair(pk, sk, rk); n_pke[0]++;
  for (int l = 0; l < LANES; l++) m_pke_keypair(&P, mpk + l * P.pk, msk + l * P.isk, rk + 64 * l, rk + 64 * l + 32);
  memcpy(want, mpk, PKN); judge("pke-keypair-pk", 0, pk, PKN, 64); memcpy(want, msk, in); judge("pke-keypair-sk", 0, sk, in, 64);
  bounds("pke-keypair", CO[0], 0, 0); bounds("pke-keypair", CO[1], 0, 0);
  for (int t = 0; t < 3; t++) {
    for (int l = 0; l < LANES; l++) { w_shape(&R, m + 32 * l, 32); if (w_below(&R, 3)) w_bytes(&R, coins + 32 * l, 32); else w_shape(&R, coins + 32 * l, 32); }
    pin = put_in(0, PKN); if (t < 2) { memcpy(pin, mpk, PKN); memcpy(xin[0], mpk, PKN); } g_readonly(CI[0]);
    ct = put_out(2, CTN);
    cur_what = "pke-enc"; pke_enc(m, coins, pin, ct); n_pke[1]++;
    for (int l = 0; l < LANES; l++) m_pke_enc(&P, mct + l * P.ct, m + 32 * l, coins + 32 * l, xin[0] + l * P.pk);
    memcpy(want, mct, CTN); judge("pke-enc", t, ct, CTN, 32); bounds("pke-enc", CO[2], 0, 0);
    u8 *ci = put_in(1, CTN), *si = put_in(2, in);
    if (t < 2 || w_below(&R, 2)) { memcpy(ci, mct, CTN); memcpy(xin[1], mct, CTN); }
    if (t < 1 || w_below(&R, 2)) { memcpy(si, msk, in); memcpy(xin[2], msk, in); }
    g_readonly(CI[1]); g_readonly(CI[2]);
    cur_what = "pke-dec"; pke_dec(si, ci, m2); n_pke[2]++;
    for (int l = 0; l < LANES; l++) m_pke_dec(&P, want + 32 * l, xin[1] + l * P.ct, xin[2] + l * P.isk);
    judge("pke-dec", t, m2, 32 * LANES, 0);
    if (!memcmp(m2, m, sizeof m)) n_mok++;
  }
  (void)k;
}
int main(int argc, char **argv)
{
  if (argc < 5) return 3;
  const char *mode = argv[1];
  ull seed = strtoull(argv[2], 0, 0), first = strtoull(argv[3], 0, 0), count = strtoull(argv[4], 0, 0);
  m_params(&P, CFG_L, CFG_U, CFG_90S); m_selfcheck();
  for (int i = 0; i < 4; i++) { g_alloc(&GBI[0][i], SMALLB); g_alloc(&GBO[0][i], SMALLB); g_alloc(&GBI[1][i], 260000); g_alloc(&GBO[1][i], 80000); }
  install_handlers(1);
  for (ull i = first; i < first + count; i++) {
    cur_case = i; w_seed(&R, seed, i); if (i % 64 == 0) watchdog_arm();
    if (!strcmp(mode, "keccak")) { if (i < 1400) one_keccak(i, i, i); else { size_t a = pick_len(i, 0), b = pick_len(i, 1); one_keccak(i, a, b); } }
    else if (!strcmp(mode, "sha2aes")) { if (i < 1400) one_sha2aes(i, i, i); else { size_t a = pick_len(i, 0), b = pick_len(i, 1); one_sha2aes(i, a, b); } }
    else if (!strcmp(mode, "huge")) one_huge(i);
    else if (!strcmp(mode, "ring")) one_ring(i);
    else if (!strcmp(mode, "pke")) one_pke(i);
    else return 3;
  }
  ull dl = 0; for (size_t i = 0; i < sizeof len_seen; i++) dl += len_seen[i];
  stat_u("outputs_judged", n_calls); stat_u("bytes_judged", n_bytes); stat_u("distinct_lengths", dl); stat_u("len_zero", n_len0); stat_u("len_rate_multiple", n_rate);
  stat_u("in_place", n_inplace); stat_u("long_inputs", n_big); stat_u("beyond_4_gib", n_huge); stat_u("absent", absent);
  stat_u("pke_keypairs", n_pke[0]); stat_u("pke_encs", n_pke[1]); stat_u("pke_decs", n_pke[2]); stat_u("pke_recovered", n_mok);
  note_stats();
  printf("DONE %s\n", n_viol ? "viol" : "ok");
  return n_viol ? 1 : 0;
}
