/* The public-key encryption beneath the KEM, one or four lanes, with one calling convention. */
#ifndef PKE_H
#define PKE_H
#define WEAKPKE __attribute__((weak))
typedef unsigned char pu8;
#if LANES == 1
WEAKPKE void indcpa_kem_keypair(pu8 *pk, pu8 *sk);
WEAKPKE void indcpa_kem_enc(const pu8 *m, const pu8 *seed, const pu8 *pk, pu8 *ct);
WEAKPKE void indcpa_kem_dec(const pu8 *sk, const pu8 *ct, pu8 *m);
static void pke_keypair(pu8 *pk, pu8 *sk, const pu8 *rnd) { rb_script(rnd, 64); indcpa_kem_keypair(pk, sk); }
static void pke_enc(const pu8 *m, const pu8 *coins, const pu8 *pk, pu8 *ct) { pu8 a[40], b[40]; int i = m[0] & 7, j = coins[0] & 7; memcpy(a + i, m, 32); memcpy(b + j, coins, 32); indcpa_kem_enc(a + i, b + j, pk, ct); }
static void pke_dec(const pu8 *sk, const pu8 *ct, pu8 *m) { indcpa_kem_dec(sk, ct, m); }
#else
WEAKPKE void indcpa_kem_keypair(pu8 *p0, pu8 *s0, pu8 *p1, pu8 *s1, pu8 *p2, pu8 *s2, pu8 *p3, pu8 *s3, pu8 *a, pu8 *n);
WEAKPKE void indcpa_kem_enc(const pu8 *m0, const pu8 *m1, const pu8 *m2, const pu8 *m3, const pu8 *n0, const pu8 *n1, const pu8 *n2, const pu8 *n3, const pu8 *p0, pu8 *c0, const pu8 *p1, pu8 *c1, const pu8 *p2, pu8 *c2, const pu8 *p3, pu8 *c3);
WEAKPKE void indcpa_kem_dec(const pu8 *s0, const pu8 *c0, pu8 *m0, const pu8 *s1, const pu8 *c1, pu8 *m1, const pu8 *s2, const pu8 *c2, pu8 *m2, const pu8 *s3, const pu8 *c3, pu8 *m3);
static void pke_keypair(pu8 *pk, pu8 *sk, const pu8 *rnd)
{
  pu8 a[128], n[128]; size_t p = (size_t)P.pk, s = (size_t)P.isk;
  for (int l = 0; l < 4; l++) { memcpy(a + 32 * l, rnd + 64 * l, 32); memcpy(n + 32 * l, rnd + 64 * l + 32, 32); }
  indcpa_kem_keypair(pk, sk, pk + p, sk + s, pk + 2 * p, sk + 2 * s, pk + 3 * p, sk + 3 * s, a, n);
}
static void pke_enc(const pu8 *m, const pu8 *coins, const pu8 *pk, pu8 *ct)
{
  pu8 r1[136], r2[136], *a = r1 + (m[0] & 7), *b = r2 + (coins[0] & 7); size_t p = (size_t)P.pk, c = (size_t)P.ct; memcpy(a, m, 128); memcpy(b, coins, 128);
  indcpa_kem_enc(a, a + 32, a + 64, a + 96, b, b + 32, b + 64, b + 96, pk, ct, pk + p, ct + c, pk + 2 * p, ct + 2 * c, pk + 3 * p, ct + 3 * c);
}
static void pke_dec(const pu8 *sk, const pu8 *ct, pu8 *m)
{
  size_t s = (size_t)P.isk, c = (size_t)P.ct;
  indcpa_kem_dec(sk, ct, m, sk + s, ct + c, m + 32, sk + 2 * s, ct + 2 * c, m + 64, sk + 3 * s, ct + 3 * c, m + 96);
}
#endif
static int pke_present(void) { return indcpa_kem_keypair && indcpa_kem_enc && indcpa_kem_dec; }
#endif
