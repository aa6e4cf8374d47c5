/* A generated key pair is taken apart and judged on its own terms. */
#ifndef KEYS_H
#define KEYS_H
static unsigned long long hist[16], keys_cmp;
static void keys_judge(const uint8_t *pk, const uint8_t *sk, const uint8_t *rk)
{
  uint8_t h[32];
  for (int l = 0; l < LANES; l++) {
    const uint8_t *p = pk + l * P.pk, *s = sk + l * P.sk; keys_cmp += 5;
    if (memcmp(s + P.isk, p, (size_t)P.pk)) { viol_begin("public-key-not-embedded"); printf(" lane=%d", l); viol_done(); }
    m_H(&P, h, p, (size_t)P.pk);
    if (memcmp(s + P.isk + P.pk, h, 32)) { viol_begin("public-key-hash-wrong"); printf(" lane=%d", l); viol_done(); }
    if (memcmp(s + P.sk - 32, rk + 96 * l + 64, 32)) { viol_begin("rejection-value-not-fresh"); printf(" lane=%d", l); viol_done(); }
    static uint16_t S[MAXL][256], A[MAXL][MAXL][256], b[MAXL][256], acc[256];
    m_unpack(&S[0][0], s, 256 * P.L, P.EQ);
    int half = P.uniform ? 2 : P.MU / 2, bad = 0;
    for (int i = 0; i < P.L; i++) for (int j = 0; j < 256; j++) {
      int v = S[i][j]; if (v >= 1 << (P.EQ - 1)) v -= 1 << P.EQ;
      int lo = P.uniform ? -2 : -half, hi = P.uniform ? 1 : half;
      if (v < lo || v > hi) bad = 1; else hist[v + 8]++;
      S[i][j] = (uint16_t)v;
    }
    if (bad) { viol_begin("secret-coefficient-out-of-range"); printf(" lane=%d", l); viol_done(); }
    /* the public vector is the rounded image of exactly this secret under the matrix of this seed */
    m_gen_matrix(&P, A, p + P.pk - 32); m_unpack(&b[0][0], p, 256 * P.L, 10);
    for (int i = 0; i < P.L; i++) {
      memset(acc, 0, sizeof acc);
      for (int j = 0; j < P.L; j++) m_polymul_acc(acc, A[j][i], S[j]);
      int sh = P.EQ - 10, h1 = 1 << (sh - 1);
      for (int j = 0; j < 256; j++) if ((((acc[j] + h1) >> sh) & 1023) != b[i][j]) { viol_begin("public-key-does-not-match-secret"); printf(" lane=%d poly=%d coeff=%d", l, i, j); viol_done(); i = P.L; break; }
    }
  }
}
#endif
