/* Run under valgrind memcheck.
 *   ct_mon secret SEED FIRST COUNT : secrets are marked undefined, so memcheck reports every
 *       conditional jump and every memory address that depends on a secret (ctgrind)
 *   ct_mon uninit SEED FIRST COUNT : nothing is poisoned; every output byte has to be defined */
#include <valgrind/memcheck.h>
static int poison;
#define RB_HOOK(x, n) do { if (poison) (void)VALGRIND_MAKE_MEM_UNDEFINED(x, n); } while (0)
#define NO_NOTE
#include "hcore.h"
static wrng R;
static uint8_t pk[BPK], sk[BSK], ct[BCT], ss[32 * LANES];
static unsigned long long n_ops[3], n_poison, n_def, n_acc, n_rej;

static void secret(void *p, size_t n) { if (poison) { (void)VALGRIND_MAKE_MEM_UNDEFINED(p, n); n_poison += n; } }
static void public(void *p, size_t n) { if (poison) (void)VALGRIND_MAKE_MEM_DEFINED(p, n); }
static void defined(const char *what, void *p, size_t n)
{
  if (poison) return;
  n_def += n;
  unsigned long a = VALGRIND_CHECK_MEM_IS_DEFINED(p, n);
  if (a) { viol_begin("output-depends-on-uninitialised-memory"); printf(" buffer=%s offset=%ld", what, (long)(a - (unsigned long)p)); viol_done(); }
}
static void secret_sk(void)
{
  for (int l = 0; l < LANES; l++) { secret(sk + l * P.sk, P.isk); secret(sk + l * P.sk + P.sk - 32, 32); }
}
static void one_case(void)
{
  uint8_t rk[96 * LANES], re[32 * LANES];
  uint8_t x[32];
  for (int i = 0; i < 3 * LANES; i++) if (w_below(&R, 3)) w_bytes(&R, rk + 32 * i, 32); else w_shape(&R, rk + 32 * i, 32);
  w_bytes(&R, re, sizeof re);
  cur_what = "keypair"; rb_script(rk, sizeof rk); note("keypair", rk, sizeof rk, NULL, 0); n_poison += poison ? 96 * LANES : 0;
  crypto_kem_keypair(pk, sk); n_ops[0]++;
  public(pk, PKN); public(sk, SKN); defined("pk", pk, PKN); defined("sk", sk, SKN);
  cur_what = "enc"; rb_script(re, sizeof re); note("enc", re, sizeof re, pk, PKN); n_poison += poison ? 32 * LANES : 0;
  if (cur_case % 4 == 3) w_bytes(&R, pk, PKN);
  crypto_kem_enc(ct, ss, pk); n_ops[1]++;
  public(ct, CTN); public(ss, SSN); defined("ct", ct, CTN); defined("ss", ss, SSN);
  for (int k = 0; k < 3; k++) {
    cur_what = k == 0 ? "dec-honest" : k == 1 ? "dec-tampered" : "dec-arbitrary";
    if (k == 1) for (int l = 0; l < LANES; l++) ct[l * P.ct + w_below(&R, P.ct)] ^= (uint8_t)(1u << w_below(&R, 8));
    if (k == 2) {
      w_shape(&R, ct, CTN);
      if (w_below(&R, 2)) for (int l = 0; l < LANES; l++) w_shape(&R, sk + l * P.sk, P.isk);
    }
    for (int l = 0; l < LANES; l++) { if (m_kem_dec(&P, x, ct + l * P.ct, sk + l * P.sk)) n_acc++; else n_rej++; }
    note(cur_what, ct, CTN, sk, SKN);
    secret_sk();
    crypto_kem_dec(ss, ct, sk); n_ops[2]++;
    public(sk, SKN); public(ss, SSN); public(ct, CTN); defined("ss", ss, SSN);
  }
}
int main(int argc, char **argv)
{
  if (argc < 5) return 3;
  poison = !strcmp(argv[1], "secret");
  unsigned long long seed = strtoull(argv[2], 0, 0), first = strtoull(argv[3], 0, 0), count = strtoull(argv[4], 0, 0);
  if (!RUNNING_ON_VALGRIND) { fprintf(stderr, "not under valgrind\n"); return 3; }
  wd_secs = 600;
  m_params(&P, CFG_L, CFG_U, CFG_90S);
  install_handlers(0);
  for (unsigned long long i = first; i < first + count; i++) { cur_case = i; w_seed(&R, seed, i); watchdog_arm(); one_case(); }
  stat_u("keypairs", n_ops[0]); stat_u("encs", n_ops[1]); stat_u("decs", n_ops[2]); stat_u("secret_bytes_tracked", n_poison);
  stat_u("output_bytes_checked_defined", n_def); stat_u("accepted", n_acc); stat_u("rejected", n_rej);
  stat_u("memcheck_errors", VALGRIND_COUNT_ERRORS);
  note_stats();
  printf("DONE %s\n", n_viol ? "viol" : "ok");
  return n_viol ? 1 : 0;
}
