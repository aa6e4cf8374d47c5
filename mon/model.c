#include "model.h"
#include <openssl/evp.h>
#include <openssl/sha.h>
#include <stdio.h>
#include <stdlib.h>

void m_params(mparams *P, int L, int uniform, int nineties)
{
  static const int mu[5] = {0, 0, 10, 8, 6}, et[5] = {0, 0, 3, 4, 6};
  P->L = L; P->MU = mu[L]; P->ET = et[L]; P->uniform = uniform; P->nineties = nineties;
  P->EQ = uniform ? 12 : 13;
  P->polyq = P->EQ * 32; P->polyp = 320; P->polyT = P->ET * 32;
  P->coin = uniform ? 64 : P->MU * 32;
  P->pk = L * 320 + 32; P->isk = L * P->polyq; P->sk = P->isk + P->pk + 64;
  P->ct = L * 320 + P->polyT;
  P->old = 0;
}

/* ---- Keccak, straight from FIPS 202 (bit positions x,y) ---- */
static uint64_t rol(uint64_t v, int n) { return n ? (v << n) | (v >> (64 - n)) : v; }
static uint64_t RC[24]; static int RHO[25], rc_ready;
static void keccak_tables(void)
{
  /* round constants from the LFSR, rotation offsets from the (t+1)(t+2)/2 rule */
  uint8_t R = 1;
  for (int r = 0; r < 24; r++) {
    RC[r] = 0;
    for (int j = 0; j <= 6; j++) {
      if (R & 1) RC[r] |= 1ULL << ((1 << j) - 1);
      R = (uint8_t)((R << 1) ^ ((R >> 7) ? 0x71 : 0));
    }
  }
  int x = 1, y = 0;
  RHO[0] = 0;
  for (int t = 0; t < 24; t++) {
    RHO[x + 5 * y] = ((t + 1) * (t + 2) / 2) % 64;
    int ny = (2 * x + 3 * y) % 5; x = y; y = ny;
  }
  rc_ready = 1;
}
static void keccak_f(uint64_t A[25])
{
  uint64_t B[25], C[5], D[5];
  for (int r = 0; r < 24; r++) {
    for (int x = 0; x < 5; x++) C[x] = A[x] ^ A[x + 5] ^ A[x + 10] ^ A[x + 15] ^ A[x + 20];
    for (int x = 0; x < 5; x++) D[x] = C[(x + 4) % 5] ^ rol(C[(x + 1) % 5], 1);
    for (int i = 0; i < 25; i++) A[i] ^= D[i % 5];
    for (int x = 0; x < 5; x++) for (int y = 0; y < 5; y++)
      B[y + 5 * ((2 * x + 3 * y) % 5)] = rol(A[x + 5 * y], RHO[x + 5 * y]);
    for (int y = 0; y < 5; y++) for (int x = 0; x < 5; x++)
      A[x + 5 * y] = B[x + 5 * y] ^ (~B[(x + 1) % 5 + 5 * y] & B[(x + 2) % 5 + 5 * y]);
    A[0] ^= RC[r];
  }
}
void m_keccak_f(uint64_t A[25]) { if (!rc_ready) keccak_tables(); keccak_f(A); }
void m_keccak(uint8_t *out, size_t outlen, const uint8_t *in, size_t inlen, unsigned rate, uint8_t pad)
{
  uint64_t A[25]; uint8_t blk[200];
  if (!rc_ready) keccak_tables();
  memset(A, 0, sizeof A);
  for (;;) {
    size_t n = inlen < rate ? inlen : rate;
    memset(blk, 0, sizeof blk);
    if (n) memcpy(blk, in, n);
    int last = n < rate;
    if (last) { blk[n] ^= pad; blk[rate - 1] ^= 0x80; }
    for (unsigned i = 0; i < rate / 8; i++) { uint64_t w; memcpy(&w, blk + 8 * i, 8); A[i] ^= w; }
    keccak_f(A);
    if (last) break;
    in += n; inlen -= n;
  }
  while (outlen) {
    size_t n = outlen < rate ? outlen : rate;
    memcpy(out, A, n);
    out += n; outlen -= n;
    if (outlen) keccak_f(A);
  }
}
void m_shake128(uint8_t *o, size_t ol, const uint8_t *i, size_t il) { m_keccak(o, ol, i, il, 168, 0x1f); }
void m_shake256(uint8_t *o, size_t ol, const uint8_t *i, size_t il) { m_keccak(o, ol, i, il, 136, 0x1f); }
void m_sha3_256(uint8_t *o, const uint8_t *i, size_t il) { m_keccak(o, 32, i, il, 136, 0x06); }
void m_sha3_512(uint8_t *o, const uint8_t *i, size_t il) { m_keccak(o, 64, i, il, 72, 0x06); }
void m_sha256(uint8_t *o, const uint8_t *i, size_t il) { SHA256(i, il, o); }
void m_sha512(uint8_t *o, const uint8_t *i, size_t il) { SHA512(i, il, o); }

static EVP_CIPHER_CTX *ctr_ctx(void)
{
  static __thread EVP_CIPHER_CTX *c;
  if (!c) { c = EVP_CIPHER_CTX_new(); EVP_EncryptInit_ex(c, EVP_aes_256_ctr(), NULL, NULL, NULL); }
  return c;
}
void m_aes256ctr(uint8_t *out, size_t outlen, const uint8_t key[32], const uint8_t iv[16])
{
  EVP_CIPHER_CTX *c = ctr_ctx();
  uint8_t k[32], v[16]; int l;
  memcpy(k, key, 32); memcpy(v, iv, 16);
  if (EVP_EncryptInit_ex(c, NULL, NULL, k, v) != 1) abort();
  memset(out, 0, outlen);
  if (outlen && EVP_EncryptUpdate(c, out, &l, out, (int)outlen) != 1) abort();
}
void m_aes256ecb(uint8_t out[16], const uint8_t in[16], const uint8_t key[32])
{
  uint8_t v[16]; memcpy(v, in, 16);
  m_aes256ctr(out, 16, key, v);   /* E_k(v) xor 0 */
}
void m_H(const mparams *P, uint8_t *o, const uint8_t *i, size_t n) { if (P->nineties) m_sha256(o, i, n); else m_sha3_256(o, i, n); }
void m_G(const mparams *P, uint8_t *o, const uint8_t *i, size_t n) { if (P->nineties) m_sha512(o, i, n); else m_sha3_512(o, i, n); }
void m_prf(const mparams *P, uint8_t *o, size_t n, const uint8_t seed[32])
{
  static const uint8_t z[16];
  if (P->nineties) m_aes256ctr(o, n, seed, z); else m_shake128(o, n, seed, 32);
}

/* ---- encodings ---- */
void m_pack(uint8_t *out, const uint16_t *c, int n, int bits)
{
  uint32_t acc = 0; int have = 0;
  for (int i = 0; i < n; i++) {
    acc |= (uint32_t)(c[i] & ((1u << bits) - 1)) << have; have += bits;
    while (have >= 8) { *out++ = (uint8_t)acc; acc >>= 8; have -= 8; }
  }
}
void m_unpack(uint16_t *c, const uint8_t *in, int n, int bits)
{
  uint32_t acc = 0; int have = 0;
  for (int i = 0; i < n; i++) {
    while (have < bits) { acc |= (uint32_t)*in++ << have; have += 8; }
    c[i] = (uint16_t)(acc & ((1u << bits) - 1)); acc >>= bits; have -= bits;
  }
}

/* ---- ring Z[x]/(x^256+1), coefficients mod 2^16 ---- */
void m_polymul_acc(uint16_t res[256], const uint16_t a[256], const uint16_t b[256])
{
  uint16_t t[512];
  memset(t, 0, sizeof t);
  for (int i = 0; i < 256; i++) {
    uint16_t ai = a[i];
    for (int j = 0; j < 256; j++) t[i + j] = (uint16_t)(t[i + j] + ai * (uint32_t)b[j]);
  }
  for (int i = 0; i < 256; i++) res[i] = (uint16_t)(res[i] + t[i] - t[i + 256]);
}
void m_gen_matrix(const mparams *P, uint16_t A[MAXL][MAXL][256], const uint8_t seed[32])
{
  uint8_t buf[MAXL * MAXL * 416];
  m_prf(P, buf, (size_t)P->L * P->L * P->polyq, seed);
  for (int i = 0; i < P->L; i++) for (int j = 0; j < P->L; j++)
    m_unpack(A[i][j], buf + (i * P->L + j) * P->polyq, 256, P->EQ);
}
static int bit(const uint8_t *b, int i) { return (b[i >> 3] >> (i & 7)) & 1; }
void m_cbd(const mparams *P, uint16_t s[256], const uint8_t *buf)
{
  for (int i = 0; i < 256; i++) {
    if (P->uniform) {            /* two bits, two's complement: 0,1,-2,-1 */
      int v = bit(buf, 2 * i) + 2 * bit(buf, 2 * i + 1);
      s[i] = (uint16_t)(v >= 2 ? v - 4 : v);
    } else {                     /* HW(first mu/2 bits) - HW(next mu/2 bits) */
      int a = 0, b = 0, h = P->MU / 2;
      for (int k = 0; k < h; k++) { a += bit(buf, i * P->MU + k); b += bit(buf, i * P->MU + h + k); }
      s[i] = (uint16_t)(a - b);
    }
  }
}
void m_gen_secret(const mparams *P, uint16_t s[MAXL][256], const uint8_t seed[32])
{
  uint8_t buf[MAXL * 320];
  m_prf(P, buf, (size_t)P->L * P->coin, seed);
  for (int i = 0; i < P->L; i++) m_cbd(P, s[i], buf + i * P->coin);
}

/* ---- PKE ---- */
#define EP 10
void m_pke_keypair(const mparams *P, uint8_t *pk, uint8_t *isk, const uint8_t rndA[32], const uint8_t rndS[32])
{
  uint16_t A[MAXL][MAXL][256], s[MAXL][256];
  uint8_t seedA[32];
  int h1 = 1 << (P->EQ - EP - 1);
  m_prf(P, seedA, 32, rndA);
  m_gen_matrix(P, A, seedA);
  m_gen_secret(P, s, rndS);
  for (int i = 0; i < P->L; i++) {
    uint16_t b[256] = {0};
    for (int j = 0; j < P->L; j++) m_polymul_acc(b, A[j][i], s[j]);   /* A^T s */
    for (int k = 0; k < 256; k++) b[k] = (uint16_t)((((b[k] + h1) & ((1 << P->EQ) - 1)) >> (P->EQ - EP)));
    m_pack(pk + 320 * i, b, 256, EP);
    m_pack(isk + P->polyq * i, s[i], 256, P->EQ);
  }
  memcpy(pk + 320 * P->L, seedA, 32);
}
void m_pke_enc(const mparams *P, uint8_t *ct, const uint8_t m[32], const uint8_t coins[32], const uint8_t *pk)
{
  uint16_t A[MAXL][MAXL][256], s[MAXL][256], v[256] = {0};
  int h1 = 1 << (P->EQ - EP - 1);
  m_gen_matrix(P, A, pk + 320 * P->L);
  m_gen_secret(P, s, coins);
  for (int i = 0; i < P->L; i++) {
    uint16_t b[256] = {0};
    for (int j = 0; j < P->L; j++) m_polymul_acc(b, A[i][j], s[j]);
    for (int k = 0; k < 256; k++) b[k] = (uint16_t)(((b[k] + h1) & ((1 << P->EQ) - 1)) >> (P->EQ - EP));
    m_pack(ct + 320 * i, b, 256, EP);
  }
  for (int i = 0; i < P->L; i++) {
    uint16_t b[256];
    m_unpack(b, pk + 320 * i, 256, EP);
    m_polymul_acc(v, b, s[i]);
  }
  for (int k = 0; k < 256; k++) {
    int t = (v[k] + (P->old ? 0 : h1) - (bit(m, k) << (EP - 1))) & 1023;
    v[k] = (uint16_t)(t >> (EP - P->ET));
  }
  m_pack(ct + 320 * P->L, v, 256, P->ET);
}
void m_pke_dec(const mparams *P, uint8_t m[32], const uint8_t *ct, const uint8_t *isk)
{
  uint16_t v[256] = {0}, c[256];
  int h2 = (1 << (EP - 2)) - (1 << (EP - P->ET - 1)) + (P->old ? 0 : 1 << (P->EQ - EP - 1));
  for (int i = 0; i < P->L; i++) {
    uint16_t b[256], s[256];
    m_unpack(b, ct + 320 * i, 256, EP);
    m_unpack(s, isk + P->polyq * i, 256, P->EQ);
    m_polymul_acc(v, b, s);
  }
  m_unpack(c, ct + 320 * P->L, 256, P->ET);
  memset(m, 0, 32);
  for (int k = 0; k < 256; k++) {
    int t = (v[k] + h2 - (c[k] << (EP - P->ET))) & 1023;
    m[k >> 3] |= (uint8_t)((t >> (EP - 1)) << (k & 7));
  }
}

/* ---- KEM ---- */
void m_kem_keypair(const mparams *P, uint8_t *pk, uint8_t *sk, const uint8_t rnd[96])
{
  m_pke_keypair(P, pk, sk, rnd, rnd + 32);
  memcpy(sk + P->isk, pk, P->pk);
  m_H(P, sk + P->isk + P->pk, pk, P->pk);
  memcpy(sk + P->sk - 32, rnd + 64, 32);
}
void m_kem_enc_m(const mparams *P, uint8_t *ct, uint8_t ss[32], const uint8_t *pk, const uint8_t m[32])
{
  uint8_t buf[64], kr[64];
  memcpy(buf, m, 32);
  m_H(P, buf + 32, pk, P->pk);
  m_G(P, kr, buf, 64);
  m_pke_enc(P, ct, buf, kr + 32, pk);
  m_H(P, kr + 32, ct, P->ct);
  m_H(P, ss, kr, 64);
}
void m_kem_enc(const mparams *P, uint8_t *ct, uint8_t ss[32], const uint8_t *pk, const uint8_t rnd[32])
{
  uint8_t m[32];
  m_H(P, m, rnd, 32);
  m_kem_enc_m(P, ct, ss, pk, m);
}
void m_reject(const mparams *P, uint8_t ss[32], const uint8_t *ct, const uint8_t *sk)
{
  uint8_t kr[64];
  memcpy(kr, sk + P->sk - 32, 32);
  m_H(P, kr + 32, ct, P->ct);
  m_H(P, ss, kr, 64);
}
int m_kem_dec(const mparams *P, uint8_t ss[32], const uint8_t *ct, const uint8_t *sk)
{
  uint8_t buf[64], kr[64], cmp[MAX_CT];
  m_pke_dec(P, buf, ct, sk);
  memcpy(buf + 32, sk + P->sk - 64, 32);
  m_G(P, kr, buf, 64);
  m_pke_enc(P, cmp, buf, kr + 32, sk + P->isk);
  int ok = memcmp(cmp, ct, P->ct) == 0;
  if (!ok) memcpy(kr, sk + P->sk - 32, 32);
  m_H(P, kr + 32, ct, P->ct);
  m_H(P, ss, kr, 64);
  return ok;
}

/* ---- CTR_DRBG ---- */
static void drbg_block(mdrbg *d, uint8_t out[16])
{
  for (int i = 15; i >= 0; i--) if (++d->v[i]) break;
  m_aes256ecb(out, d->v, d->key);
}
static void drbg_update(mdrbg *d, const uint8_t *data)
{
  uint8_t t[48];
  for (int i = 0; i < 3; i++) drbg_block(d, t + 16 * i);
  if (data) for (int i = 0; i < 48; i++) t[i] ^= data[i];
  memcpy(d->key, t, 32); memcpy(d->v, t + 32, 16);
}
void m_drbg_init(mdrbg *d, const uint8_t ent[48], const uint8_t *pers)
{
  uint8_t s[48];
  memcpy(s, ent, 48);
  if (pers) for (int i = 0; i < 48; i++) s[i] ^= pers[i];
  memset(d, 0, sizeof *d);
  drbg_update(d, s);
}
void m_drbg(mdrbg *d, uint8_t *out, size_t n)
{
  uint8_t b[16];
  while (n) {
    size_t k = n < 16 ? n : 16;
    drbg_block(d, b); memcpy(out, b, k); out += k; n -= k;
  }
  drbg_update(d, NULL);
}

/* ---- workload PRNG ---- */
static uint64_t splitmix(uint64_t *x)
{
  uint64_t z = (*x += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
void w_seed(wrng *r, uint64_t seed, uint64_t stream)
{
  uint64_t x = seed * 0x2545f4914f6cdd1dULL ^ (stream + 0x1234567) * 0x9e3779b97f4a7c15ULL;
  for (int i = 0; i < 4; i++) r->s[i] = splitmix(&x);
}
uint64_t w_u64(wrng *r)
{
  uint64_t *s = r->s, res = rol(s[1] * 5, 7) * 9, t = s[1] << 17;
  s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rol(s[3], 45);
  return res;
}
void w_bytes(wrng *r, uint8_t *p, size_t n)
{
  while (n) { uint64_t v = w_u64(r); size_t k = n < 8 ? n : 8; memcpy(p, &v, k); p += k; n -= k; }
}
int w_shape(wrng *r, uint8_t *p, size_t n)
{
  int k = (int)w_below(r, W_NSHAPES);
  size_t i, j;
  if (n == 0) return k;
  switch (k) {
  case 0: memset(p, 0, n); break;
  case 1: memset(p, 0xff, n); break;
  case 2: memset(p, (int)w_u64(r), n); break;
  case 3: memset(p, 0, n); p[w_below(r, n)] = (uint8_t)(1u << w_below(r, 8)); break;
  case 4: memset(p, 0xff, n); p[w_below(r, n)] ^= (uint8_t)(1u << w_below(r, 8)); break;
  case 5: for (i = 0; i < n; i++) p[i] = (uint8_t)i; break;
  case 6: { uint8_t a = (uint8_t)w_u64(r), b = (uint8_t)w_u64(r); for (i = 0; i < n; i++) p[i] = i & 1 ? a : b; break; }
  case 7: w_bytes(r, p, n); memset(p, 0, n / 2); break;
  case 8: w_bytes(r, p, n); memset(p + n / 2, 0, n - n / 2); break;
  case 9: w_bytes(r, p, n); for (i = 0; i < n; i++) if (w_below(r, 4)) p[i] = 0; break;
  case 10: w_bytes(r, p, n); for (i = 0; i < n; i++) if (w_below(r, 4)) p[i] = 0xff; break;
  case 11: w_bytes(r, p, n); i = w_below(r, n); j = i + 1 + w_below(r, 32); for (; i < n && i < j; i++) p[i] = 0xff; break;
  case 12: w_bytes(r, p, n); i = w_below(r, n); j = i + 1 + w_below(r, 32); for (; i < n && i < j; i++) p[i] = 0; break;
  case 13: w_bytes(r, p, n); j = 1 + w_below(r, 8); if (j > n) j = n; memset(p, w_below(r, 2) ? (int)w_u64(r) : p[0], j); break;         /* a constant head */
  case 14: w_bytes(r, p, n); j = 1 + w_below(r, 8); if (j > n) j = n; memset(p + n - j, w_below(r, 2) ? (int)w_u64(r) : 0, j); break;   /* a constant tail */
  case 15: w_bytes(r, p, n); for (i = 0; i < n / 2; i++) p[n - n / 2 + i] = p[i]; break;                                                  /* equal halves */
  case 16: j = (size_t)2 << w_below(r, 4); w_bytes(r, p, n); for (i = j; i < n; i++) p[i] = p[i - j]; break;                              /* period 2..16 */
  case 17: {                                                                                                                              /* extreme aligned words */
    static const uint64_t ext[] = {0, ~0ull, 0x8000000000000000ull, 0x7fffffffffffffffull, 0x80000000ull, 0x7fffffffull, 0x100000000ull, 0x8000ull, 0x7fffull, 1, 0xffffffffull, 0x8080808080808080ull};
    w_bytes(r, p, n); for (i = 0; i + 8 <= n; i += 8) if (w_below(r, 2)) { uint64_t v = ext[w_below(r, 12)]; memcpy(p + i, &v, 8); } break; }
  case 18: w_bytes(r, p, n); j = w_below(r, n); i = j + 2 + w_below(r, 7); if (i > n) i = n; memset(p + j, (int)w_u64(r), i - j); break;  /* a short run of one value */
  default: w_bytes(r, p, n); break;
  }
  return k;
}

void m_selfcheck(void)
{
  /* the textbook Keccak against OpenSSL: an error here is an error of the oracle */
  wrng r; uint8_t in[400], a[500], b[500]; unsigned l;
  w_seed(&r, 7, 7);
  for (int t = 0; t < 60; t++) {
    size_t n = w_below(&r, 400), o = 1 + w_below(&r, 499);
    w_bytes(&r, in, n);
    EVP_MD_CTX *c = EVP_MD_CTX_new();
    EVP_DigestInit_ex(c, EVP_shake128(), NULL); EVP_DigestUpdate(c, in, n); EVP_DigestFinalXOF(c, a, o);
    m_shake128(b, o, in, n); if (memcmp(a, b, o)) goto bad;
    EVP_DigestInit_ex(c, EVP_shake256(), NULL); EVP_DigestUpdate(c, in, n); EVP_DigestFinalXOF(c, a, o);
    m_shake256(b, o, in, n); if (memcmp(a, b, o)) goto bad;
    EVP_MD_CTX_free(c);
    EVP_Digest(in, n, a, &l, EVP_sha3_256(), NULL); m_sha3_256(b, in, n); if (memcmp(a, b, 32)) goto bad;
    EVP_Digest(in, n, a, &l, EVP_sha3_512(), NULL); m_sha3_512(b, in, n); if (memcmp(a, b, 64)) goto bad;
  }
  return;
bad:
  fprintf(stderr, "ORACLE-ERROR: model Keccak disagrees with OpenSSL\n");
  exit(3);
}
