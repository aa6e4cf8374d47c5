/* A caller's view: buffers exactly as long as the implementation's own api.h announces, on the heap under ASan.
 *   api_mon SEED FIRST COUNT */
#include "hcore.h"
#undef crypto_kem_keypair
#undef crypto_kem_enc
#undef crypto_kem_dec
#include <api.h>

static wrng R;
static unsigned long long n_ops, n_cmp;
static void size(const char *name, size_t got, size_t want)
{
  n_cmp++;
  if (got == want) return;
  cur_what = name; viol_begin("announced-size"); printf(" announced=%zu specified=%zu", got, want); viol_done();
}
static void one_case(void)
{
  uint8_t rk[96 * LANES], re[32 * LANES];
  w_bytes(&R, rk, sizeof rk); w_bytes(&R, re, sizeof re);
  unsigned char *pk = malloc(CRYPTO_PUBLICKEYBYTES), *sk = malloc(CRYPTO_SECRETKEYBYTES), *ct = malloc(CRYPTO_CIPHERTEXTBYTES), *a = malloc(CRYPTO_BYTES), *b = malloc(CRYPTO_BYTES);
  note("session", rk, sizeof rk, re, sizeof re);
  cur_what = "keypair"; rb_script(rk, sizeof rk); crypto_kem_keypair(pk, sk);
  cur_what = "enc"; rb_script(re, sizeof re); crypto_kem_enc(ct, a, pk);
  cur_what = "dec"; crypto_kem_dec(b, ct, sk); n_ops += 3; n_cmp++;
  if (memcmp(a, b, CRYPTO_BYTES)) { viol_begin("secrets-differ-in-announced-buffers"); viol_done(); }
  free(pk); free(sk); free(ct); free(a); free(b);
}
int main(int argc, char **argv)
{
  if (argc < 4) return 3;
  unsigned long long seed = strtoull(argv[1], 0, 0), first = strtoull(argv[2], 0, 0), count = strtoull(argv[3], 0, 0);
  m_params(&P, CFG_L, CFG_U, CFG_90S); m_selfcheck();
  install_handlers(0);
  size("public-key", CRYPTO_PUBLICKEYBYTES, PKN); size("secret-key", CRYPTO_SECRETKEYBYTES, SKN);
  size("ciphertext", CRYPTO_CIPHERTEXTBYTES, CTN); size("shared-secret", CRYPTO_BYTES, SSN);
  for (unsigned long long i = first; i < first + count; i++) { cur_case = i; w_seed(&R, seed, i); watchdog_arm(); one_case(); }
  stat_u("sessions_in_announced_buffers", n_ops / 3); stat_u("comparisons", n_cmp);
  note_stats();
  printf("DONE %s\n", n_viol ? "viol" : "ok");
  return n_viol ? 1 : 0;
}
