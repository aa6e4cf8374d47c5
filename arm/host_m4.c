/* Host stand-ins for what the Cortex-M4 C code gets from pqm4 and from its own assembly, so that the C part can run
   under the compiler sanitizers. (The assembly itself is judged in the interpreter.) */
#include "fips202.h"
#include "randombytes.h"
#include "model.h"

int randombytes(uint8_t *p, size_t n) { memset(p, 0x55, n); return 0; }
void shake128(uint8_t *o, size_t ol, const uint8_t *i, size_t il) { m_shake128(o, ol, i, il); }
void shake256(uint8_t *o, size_t ol, const uint8_t *i, size_t il) { m_shake256(o, ol, i, il); }
void sha3_256(uint8_t *o, const uint8_t *i, size_t il) { uint8_t t[32]; m_sha3_256(t, i, il); memcpy(o, t, 32); }
void sha3_512(uint8_t *o, const uint8_t *i, size_t il) { uint8_t t[64]; m_sha3_512(t, i, il); memcpy(o, t, 64); }
#define INC(bits, rate) \
void shake##bits##_inc_init(shake##bits##incctx *s) { memset(s, 0, sizeof *s); } \
void shake##bits##_inc_absorb(shake##bits##incctx *s, const uint8_t *in, size_t n) \
{ uint64_t *A = s->ctx; for (size_t i = 0; i < n; i++) { A[A[25] / 8] ^= (uint64_t)in[i] << (8 * (A[25] % 8)); if (++A[25] == rate) { m_keccak_f(A); A[25] = 0; } } } \
void shake##bits##_inc_finalize(shake##bits##incctx *s) \
{ uint64_t *A = s->ctx; A[A[25] / 8] ^= (uint64_t)0x1f << (8 * (A[25] % 8)); A[(rate - 1) / 8] ^= (uint64_t)0x80 << 56; A[25] = 0; } \
void shake##bits##_inc_squeeze(uint8_t *o, size_t n, shake##bits##incctx *s) \
{ uint64_t *A = s->ctx; for (size_t i = 0; i < n; i++) { if (!A[25]) { m_keccak_f(A); A[25] = rate; } unsigned k = rate - (unsigned)A[25]; o[i] = (uint8_t)(A[k / 8] >> (8 * (k % 8))); A[25]--; } } \
void shake##bits##_inc_ctx_release(shake##bits##incctx *s) { memset(s, 0xee, sizeof *s); }
INC(128, 168)
INC(256, 136)
void shake128_inc_ctx_clone(shake128incctx *d, const shake128incctx *s) { *d = *s; }

static void negacyclic(const uint16_t *a, const uint16_t *b, uint16_t *r, int n)
{
  uint16_t t[256] = {0};
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++) {
      uint16_t p = (uint16_t)((uint32_t)a[i] * b[j]);
      if (i + j < n) t[i + j] = (uint16_t)(t[i + j] + p); else t[i + j - n] = (uint16_t)(t[i + j - n] - p);
    }
  for (int i = 0; i < n; i++) r[i] = t[i];
}
void toom_cook_4way_mem_asm(const uint16_t *a, const uint16_t *b, uint16_t *res)
{
  uint16_t t[256];
  negacyclic(a, b, t, 256);
  for (int i = 0; i < 256; i++) res[i] = (uint16_t)(res[i] + t[i]);
}
void kara_strd_mem_asm(const uint16_t *a, const uint16_t *b, uint16_t *res, uint16_t *tmp)
{
  negacyclic(a, b, res, 64);
  (void)tmp;
}
