/* Validates the model against the KAT files: kat_selftest L uniform nineties file.rsp */
#include "model.h"
#include <stdio.h>
#include <stdlib.h>
static int hex(const char *s, uint8_t *o) { int n = 0; unsigned v; while (sscanf(s + 2 * n, "%2x", &v) == 1) o[n++] = (uint8_t)v; return n; }
int main(int c, char **v)
{
  mparams P; m_selfcheck(); m_params(&P, atoi(v[1]), atoi(v[2]), atoi(v[3]));
  FILE *f = fopen(v[4], "r"); static char line[20000]; uint8_t seed[48], pk[MAX_PK], sk[MAX_SK], ct[MAX_CT], ss[32], ss2[32], x[8192];
  int n = 0; (void)c;
  while (fgets(line, sizeof line, f)) {
    char *eq = strchr(line, '='); if (!eq) continue; eq += 2; mdrbg d; uint8_t r[96], e[32];
    if (!strncmp(line, "seed", 4)) { hex(eq, seed); m_drbg_init(&d, seed, NULL);
      for (int i = 0; i < 3; i++) m_drbg(&d, r + 32 * i, 32);
      m_drbg(&d, e, 32); m_kem_keypair(&P, pk, sk, r); m_kem_enc(&P, ct, ss, pk, e);
      if (!m_kem_dec(&P, ss2, ct, sk) || memcmp(ss, ss2, 32)) { puts("BAD dec"); return 1; } n++; }
    else if (line[0] == 'p') { if (hex(eq, x) != P.pk || memcmp(x, pk, P.pk)) { puts("BAD pk"); return 1; } }
    else if (line[0] == 's' && line[1] == 'k') { if (hex(eq, x) != P.sk || memcmp(x, sk, P.sk)) { puts("BAD sk"); return 1; } }
    else if (line[0] == 'c' && line[1] == 't') { if (hex(eq, x) != P.ct || memcmp(x, ct, P.ct)) { puts("BAD ct"); return 1; } }
    else if (line[0] == 's' && line[1] == 's') { if (hex(eq, x) != 32 || memcmp(x, ss, 32)) { puts("BAD ss"); return 1; } }
  }
  printf("ok %d\n", n); return 0;
}
