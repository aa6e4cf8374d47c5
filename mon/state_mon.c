/* Monitors of how an implementation treats state, lanes and randomness.
 *   state_mon MODE SEED FIRST COUNT   modes: history digest lanes draws keys */
#include "hcore.h"
#include <immintrin.h>
typedef unsigned long long ull;
static wrng R;
static ull n_ops[3], n_cmp, n_replay, n_dirty, n_acc, n_rej, n_bits, n_alias;
static void fill(uint8_t *p, size_t n) { for (size_t i = 0; i < n; i += 32) if (w_below(&R, 4)) w_bytes(&R, p + i, n - i < 32 ? n - i : 32); else w_shape(&R, p + i, n - i < 32 ? n - i : 32); }

/* ---------- history independence ---------- */
#define POOL 6
typedef struct { uint8_t rk[96 * LANES], re[32 * LANES], pk[BPK], sk[BSK], ct[BCT], ss[32 * LANES], hpk[BPK], hct[BCT], hsk[BSK], oct[BCT], oss[32 * LANES], rss[32 * LANES], hss[32 * LANES]; } pent;
static pent *pool;
static uint8_t opk[BPK + 64], osk[BSK + 64], oct[BCT + 64], oss[32 * LANES + 64];
static void same(const char *what, const uint8_t *got, const uint8_t *want, size_t n, int e)
{
  n_cmp++; int d = diff_at(got, want, n); if (d < 0) return;
  cur_what = what; viol_begin("result-depends-on-history"); printf(" entry=%d first_diff=%d", e, d);
  hexs(stdout, "first", want + d, n - d < 16 ? n - d : 16); hexs(stdout, "now", got + d, n - d < 16 ? n - d : 16); viol_done();
}
static void dirty(uint8_t *p, size_t n) { memset(p, (int)w_below(&R, 256), n); }
static int soaking;
/* run operation op of entry e; first: record, otherwise compare */
static void run_op(pent *e, int op, int first, int idx)
{
  unsigned csr = _mm_getcsr();
  if (!first && (!soaking || (n_replay & 31) == 0)) {
    pollute_stack((unsigned char)w_u64(&R), (int)w_below(&R, 2)); n_dirty++;
    static const unsigned modes[] = {0x1f80, 0x9fc0, 0x3f80, 0x5f80, 0x7f80};
    if (w_below(&R, 3) == 0) _mm_setcsr(modes[w_below(&R, 5)]);
  }
  dirty(opk, sizeof opk); dirty(osk, sizeof osk); dirty(oct, sizeof oct); dirty(oss, sizeof oss);
  int off = (int)w_below(&R, 33); if (first) off = 0;
  uint8_t *pk = opk + off, *sk = osk + off, *ct = oct + off, *ss = oss + off;
  switch (op) {
  case 0: rb_script(e->rk, sizeof e->rk); cur_what = "keypair"; crypto_kem_keypair(pk, sk); n_ops[0]++;
    if (first) { memcpy(e->pk, pk, PKN); memcpy(e->sk, sk, SKN); } else { same("keypair-pk", pk, e->pk, PKN, idx); same("keypair-sk", sk, e->sk, SKN, idx); } break;
  case 1: rb_script(e->re, sizeof e->re); cur_what = "enc"; crypto_kem_enc(ct, ss, e->pk); n_ops[1]++;
    if (first) { memcpy(e->ct, ct, CTN); memcpy(e->ss, ss, SSN); } else { same("enc-ct", ct, e->ct, CTN, idx); same("enc-ss", ss, e->ss, SSN, idx); } break;
  case 2: cur_what = "dec"; crypto_kem_dec(ss, e->ct, e->sk); n_ops[2]++; n_acc++;
    if (first) memcpy(e->oss, ss, SSN); else same("dec", ss, e->oss, SSN, idx); break;
  case 3: cur_what = "dec-hostile-ct"; crypto_kem_dec(ss, e->hct, e->sk); n_ops[2]++; n_rej++;
    if (first) memcpy(e->rss, ss, SSN); else same("dec-hostile-ct", ss, e->rss, SSN, idx); break;
  case 4: cur_what = "dec-hostile-sk"; crypto_kem_dec(ss, e->hct, e->hsk); n_ops[2]++; n_rej++;
    if (first) memcpy(e->hss, ss, SSN); else same("dec-hostile-sk", ss, e->hss, SSN, idx); break;
  default: rb_script(e->re, sizeof e->re); cur_what = "enc-hostile-pk"; crypto_kem_enc(ct, ss, e->hpk); n_ops[1]++;
    if (first) memcpy(e->oct, ct, CTN); else same("enc-hostile-pk", ct, e->oct, CTN, idx); break;
  }
  _mm_setcsr(csr);
  if (!first) n_replay++;
}
static void case_history(void)
{
  for (int i = 0; i < POOL; i++) {
    pent *e = &pool[i];
    fill(e->rk, sizeof e->rk); fill(e->re, sizeof e->re); w_shape(&R, e->hpk, PKN); w_shape(&R, e->hsk, SKN);
    for (int op = 0; op < 2; op++) run_op(e, op, 1, i);
    if (w_below(&R, 2)) w_shape(&R, e->hct, CTN);
    else { memcpy(e->hct, e->ct, CTN); for (int l = 0; l < LANES; l++) e->hct[l * P.ct + (int)w_below(&R, (uint32_t)P.ct)] ^= (uint8_t)(1u << w_below(&R, 8)); }
    for (int op = 2; op < 6; op++) run_op(e, op, 1, i);
  }
  int steps = 40;
  for (int s = 0; s < steps; s++) {
    int i = (int)w_below(&R, POOL), op = (int)w_below(&R, 6), rep = w_below(&R, 4) == 0 ? 3 : 1;
    while (rep--) run_op(&pool[i], op, 0, i);
  }
}
/* ---------- digest of every observable, for comparison between builds ---------- */
/* one long-lived process: the same few calls again and again, past any small counter (case = thousands of rounds) */
static void case_soak(void)
{
  int n = 3; soaking = 1;
  for (int i = 0; i < n; i++) {
    pent *e = &pool[i];
    fill(e->rk, sizeof e->rk); fill(e->re, sizeof e->re); w_shape(&R, e->hpk, PKN); w_shape(&R, e->hsk, SKN);
    for (int op = 0; op < 2; op++) run_op(e, op, 1, i);
    memcpy(e->hct, e->ct, CTN); for (int l = 0; l < LANES; l++) e->hct[l * P.ct + (int)w_below(&R, (uint32_t)P.ct)] ^= (uint8_t)(1u << w_below(&R, 8));
    for (int op = 2; op < 6; op++) run_op(e, op, 1, i);
  }
  for (int s = 0; s < 1000; s++) {
    watchdog_arm();
    run_op(&pool[w_below(&R, (uint32_t)n)], 0, 0, 0);
    run_op(&pool[w_below(&R, (uint32_t)n)], w_below(&R, 2) ? 1 : 3, 0, 0);
    run_op(&pool[w_below(&R, (uint32_t)n)], 2, 0, 0);
    run_op(&pool[w_below(&R, (uint32_t)n)], w_below(&R, 2) ? 4 : 5, 0, 0);
  }
}

static void case_digest(void)
{
  uint8_t rk[96 * LANES], re[32 * LANES], d[32]; static uint8_t all[BPK + BSK + 2 * BCT + 256 * LANES];
  static uint8_t pk[BPK], sk[BSK], ct[BCT], ss[32 * LANES];
  size_t o = 0;
  fill(rk, sizeof rk); fill(re, sizeof re);
  memset(pk, 1, sizeof pk); memset(sk, 2, sizeof sk); memset(ct, 3, sizeof ct); memset(ss, 4, sizeof ss);
#define ADD(p, n) do { memcpy(all + o, p, n); o += n; } while (0)
  rb_script(rk, sizeof rk); cur_what = "keypair"; crypto_kem_keypair(pk, sk); n_ops[0]++; ADD(pk, PKN); ADD(sk, SKN);
  rb_script(re, sizeof re); cur_what = "enc"; crypto_kem_enc(ct, ss, pk); n_ops[1]++; ADD(ct, CTN); ADD(ss, SSN);
  cur_what = "dec"; crypto_kem_dec(ss, ct, sk); n_ops[2]++; ADD(ss, SSN);
  for (int l = 0; l < LANES; l++) ct[l * P.ct + (int)w_below(&R, (uint32_t)P.ct)] ^= (uint8_t)(1u << w_below(&R, 8));
  cur_what = "dec-tampered"; crypto_kem_dec(ss, ct, sk); n_ops[2]++; ADD(ss, SSN);
  w_shape(&R, ct, CTN); if (w_below(&R, 2)) w_shape(&R, sk, SKN);
  cur_what = "dec-arbitrary"; crypto_kem_dec(ss, ct, sk); n_ops[2]++; ADD(ss, SSN);
  w_shape(&R, pk, PKN); rb_script(re, sizeof re); cur_what = "enc-arbitrary"; crypto_kem_enc(ct, ss, pk); n_ops[1]++; ADD(ct, CTN); ADD(ss, SSN);
  m_sha3_256(d, all, o);
  printf("DIGEST %llu ", cur_case); for (int i = 0; i < 16; i++) printf("%02x", d[i]); printf("\n");
}
/* ---------- lanes ---------- */
#if LANES == 4
static const int PERM[24][4] = {{0,1,2,3},{0,1,3,2},{0,2,1,3},{0,2,3,1},{0,3,1,2},{0,3,2,1},{1,0,2,3},{1,0,3,2},{1,2,0,3},{1,2,3,0},{1,3,0,2},{1,3,2,0},{2,0,1,3},{2,0,3,1},{2,1,0,3},{2,1,3,0},{2,3,0,1},{2,3,1,0},{3,0,1,2},{3,0,2,1},{3,1,0,2},{3,1,2,0},{3,2,0,1},{3,2,1,0}};
static ull perm_seen[24];
static void lane_ne(const char *what, const char *kind, int lane, const uint8_t *got, const uint8_t *want, size_t n)
{
  n_cmp++; int d = diff_at(got, want, n); if (d < 0) return;
  cur_what = what; viol_begin(kind); printf(" lane=%d first_diff=%d", lane, d); viol_done();
}
typedef struct { uint8_t rk[4][96], re[4][32], pkin[4][MAX_PK], ctin[4][MAX_CT], skin[4][MAX_SK]; uint8_t pk[BPK], sk[BSK], ct[BCT], ss[128], ds[128]; } lrun;
static void lane_exec(lrun *x)
{
  static uint8_t b1[BPK], b2[BCT], b3[BSK];
  uint8_t rk[384], re[128];
  for (int l = 0; l < 4; l++) { memcpy(rk + 96 * l, x->rk[l], 96); memcpy(re + 32 * l, x->re[l], 32); memcpy(b1 + l * P.pk, x->pkin[l], (size_t)P.pk); memcpy(b2 + l * P.ct, x->ctin[l], (size_t)P.ct); memcpy(b3 + l * P.sk, x->skin[l], (size_t)P.sk); }
  rb_script(rk, 384); cur_what = "keypair"; crypto_kem_keypair(x->pk, x->sk); n_ops[0]++;
  rb_script(re, 128); cur_what = "enc"; crypto_kem_enc(x->ct, x->ss, b1); n_ops[1]++;
  cur_what = "dec"; crypto_kem_dec(x->ds, b2, b3); n_ops[2]++;
}
static void lane_eq(const char *kind, lrun *a, int la, lrun *b, int lb)
{
  lane_ne("keypair-pk", kind, la, a->pk + la * P.pk, b->pk + lb * P.pk, (size_t)P.pk);
  lane_ne("keypair-sk", kind, la, a->sk + la * P.sk, b->sk + lb * P.sk, (size_t)P.sk);
  lane_ne("enc-ct", kind, la, a->ct + la * P.ct, b->ct + lb * P.ct, (size_t)P.ct);
  lane_ne("enc-ss", kind, la, a->ss + 32 * la, b->ss + 32 * lb, 32);
  lane_ne("dec-ss", kind, la, a->ds + 32 * la, b->ds + 32 * lb, 32);
}
static void case_lanes(void)
{
  static lrun a, b;
  uint8_t ss[32], pk[MAX_PK], sk[MAX_SK], ct[MAX_CT];
  for (int l = 0; l < 4; l++) {
    fill(a.rk[l], 96); fill(a.re[l], 32);
    m_kem_keypair(&P, a.pkin[l], a.skin[l], a.rk[l]); m_kem_enc(&P, a.ctin[l], ss, a.pkin[l], a.re[l]);
    switch (w_below(&R, 5)) {                      /* a mixture of honest, tampered and hostile lanes in one call */
      case 0: a.ctin[l][w_below(&R, (uint32_t)P.ct)] ^= (uint8_t)(1u << w_below(&R, 8)); n_rej++; break;
      case 1: w_shape(&R, a.ctin[l], (size_t)P.ct); n_rej++; break;
      case 2: w_shape(&R, a.skin[l], (size_t)P.isk); w_shape(&R, a.pkin[l], (size_t)P.pk); n_rej++; break;
      default: n_acc++;
    }
  }
  if (w_below(&R, 5) == 0) { memcpy(a.rk[3], a.rk[1], 96); memcpy(a.re[2], a.re[0], 32); }   /* equal lanes */
  lane_exec(&a);
  for (int l = 0; l < 4; l++) {                    /* one lane = one single-lane KEM */
    m_kem_keypair(&P, pk, sk, a.rk[l]);
    lane_ne("keypair-pk", "lane-differs-from-single", l, a.pk + l * P.pk, pk, (size_t)P.pk); lane_ne("keypair-sk", "lane-differs-from-single", l, a.sk + l * P.sk, sk, (size_t)P.sk);
    m_kem_enc(&P, ct, ss, a.pkin[l], a.re[l]);
    lane_ne("enc-ct", "lane-differs-from-single", l, a.ct + l * P.ct, ct, (size_t)P.ct); lane_ne("enc-ss", "lane-differs-from-single", l, a.ss + 32 * l, ss, 32);
    m_kem_dec(&P, ss, a.ctin[l], a.skin[l]); lane_ne("dec-ss", "lane-differs-from-single", l, a.ds + 32 * l, ss, 32);
  }
  int p = (int)w_below(&R, 24); perm_seen[p] = 1;   /* permuted lanes give permuted results */
  for (int l = 0; l < 4; l++) { int q = PERM[p][l]; memcpy(b.rk[l], a.rk[q], 96); memcpy(b.re[l], a.re[q], 32); memcpy(b.pkin[l], a.pkin[q], MAX_PK); memcpy(b.ctin[l], a.ctin[q], MAX_CT); memcpy(b.skin[l], a.skin[q], MAX_SK); }
  lane_exec(&b);
  for (int l = 0; l < 4; l++) lane_eq("lane-order-matters", &b, l, &a, PERM[p][l]);
  b = a; int keep = (int)w_below(&R, 4);            /* one lane kept, the other three replaced by hostile data */
  for (int l = 0; l < 4; l++) if (l != keep) { w_shape(&R, b.rk[l], 96); w_shape(&R, b.re[l], 32); w_shape(&R, b.pkin[l], (size_t)P.pk); w_shape(&R, b.ctin[l], (size_t)P.ct); w_shape(&R, b.skin[l], (size_t)P.sk); }
  lane_exec(&b); lane_eq("lane-influenced-by-neighbour", &b, keep, &a, keep);
}
#endif
/* ---------- randomness discipline ---------- */
static ull n_shaped;
static int contains(const uint8_t *hay, size_t n, const uint8_t *needle, size_t m)
{
  for (size_t i = 0; i + m <= n; i++) if (!memcmp(hay + i, needle, m)) return (int)i;
  return -1;
}
static void exact(const char *op, size_t want)
{
  n_cmp++; cur_what = op;
  if (rb_pos != want) { viol_begin("wrong-amount-of-randomness"); printf(" drawn=%zu want=%zu calls=%u", rb_pos, want, rb_calls); viol_done(); }
}
static void case_draws(ull k)
{
  static uint8_t pk[BPK], sk[BSK], ct[BCT], ss[32 * LANES], pk2[BPK], sk2[BSK], ct2[BCT], ss2[32 * LANES], rj[32 * LANES], rj2[32 * LANES];
  uint8_t rk[96 * LANES], re[32 * LANES], r2[96 * LANES];
  int plain_k[3 * LANES], plain_e[LANES];            /* draws of no particular shape: only these can be recognised elsewhere */
  for (int i = 0; i < 3 * LANES; i++) if (!(plain_k[i] = w_below(&R, 2))) w_shape(&R, rk + 32 * i, 32); else w_bytes(&R, rk + 32 * i, 32);
  for (int i = 0; i < LANES; i++) if (!(plain_e[i] = w_below(&R, 2))) w_shape(&R, re + 32 * i, 32); else w_bytes(&R, re + 32 * i, 32);
  rb_script(rk, sizeof rk); cur_what = "keypair"; crypto_kem_keypair(pk, sk); n_ops[0]++; exact("keypair", sizeof rk);
  rb_script(re, sizeof re); cur_what = "enc"; crypto_kem_enc(ct, ss, pk); n_ops[1]++; exact("enc", sizeof re);
  rb_script(re, sizeof re); cur_what = "dec"; crypto_kem_dec(ss2, ct, sk); n_ops[2]++; exact("dec", 0);
  static uint8_t junk[BCT]; memcpy(junk, ct, CTN); for (int l = 0; l < LANES; l++) junk[l * P.ct + (int)w_below(&R, (uint32_t)P.ct)] ^= 4;
  rb_script(re, sizeof re); cur_what = "dec-tampered"; crypto_kem_dec(rj, junk, sk); n_ops[2]++; exact("dec-tampered", 0);
  /* no generator output leaves the module: not in the public key, ciphertext, secret; in the secret key only the rejection value */
  for (int l = 0; l < LANES; l++) for (int w = 0; w < 12; w++) {
    const uint8_t *d = rk + 96 * l + 8 * w; int at; if (!plain_k[3 * l + w / 4]) { n_shaped++; continue; } n_cmp++;
    if ((at = contains(pk, PKN, d, 8)) >= 0) { cur_what = "keypair"; viol_begin("raw-randomness-in-public-key"); printf(" word=%d at=%d", w, at); viol_done(); }
    if (w < 8 && (at = contains(sk, SKN, d, 8)) >= 0) { cur_what = "keypair"; viol_begin("raw-randomness-in-secret-key"); printf(" word=%d at=%d", w, at); viol_done(); }
  }
  for (int l = 0; l < LANES; l++) for (int w = 0; w < 4; w++) {
    const uint8_t *d = re + 32 * l + 8 * w; int at; if (!plain_e[l]) { n_shaped++; continue; } n_cmp++;
    if ((at = contains(ct, CTN, d, 8)) >= 0) { cur_what = "enc"; viol_begin("raw-randomness-in-ciphertext"); printf(" word=%d at=%d", w, at); viol_done(); }
    if ((at = contains(ss, SSN, d, 8)) >= 0) { cur_what = "enc"; viol_begin("raw-randomness-in-secret"); printf(" word=%d at=%d", w, at); viol_done(); }
  }
  /* every drawn bit matters: bit number k of each 32-byte draw, so 256 consecutive cases sweep all bits */
  int bit = (int)(k % 256);
  for (int part = 0; part < 3; part++) {
    memcpy(r2, rk, sizeof rk); for (int l = 0; l < LANES; l++) r2[96 * l + 32 * part + bit / 8] ^= (uint8_t)(1u << (bit & 7));
    rb_script(r2, sizeof r2); cur_what = "keypair"; crypto_kem_keypair(pk2, sk2); n_ops[0]++; n_bits++;
    for (int l = 0; l < LANES; l++) {
      int pk_same = !memcmp(pk + l * P.pk, pk2 + l * P.pk, (size_t)P.pk), s_same = !memcmp(sk + l * P.sk, sk2 + l * P.sk, (size_t)P.isk);
      n_cmp++;
      if (part == 0 && pk_same) { viol_begin("seed-bit-without-influence"); printf(" draw=public-seed bit=%d lane=%d", bit, l); viol_done(); }
      if (part == 1 && (s_same || pk_same)) { viol_begin("seed-bit-without-influence"); printf(" draw=secret-seed bit=%d lane=%d", bit, l); viol_done(); }
      if (part == 1 && memcmp(pk + l * P.pk + P.pk - 32, pk2 + l * P.pk + P.pk - 32, 32)) { viol_begin("public-seed-depends-on-secret-seed"); printf(" bit=%d lane=%d", bit, l); viol_done(); }
      if (part == 0 && !s_same) { viol_begin("secret-depends-on-public-seed"); printf(" bit=%d lane=%d", bit, l); viol_done(); }
      if (part == 2 && (!pk_same || !s_same)) { viol_begin("key-depends-on-rejection-value"); printf(" bit=%d lane=%d", bit, l); viol_done(); }
    }
    if (part == 2) {
      cur_what = "dec-tampered"; crypto_kem_dec(rj2, junk, sk2); n_ops[2]++;
      for (int l = 0; l < LANES; l++) if (!memcmp(rj + 32 * l, rj2 + 32 * l, 32)) { viol_begin("seed-bit-without-influence"); printf(" draw=rejection-value bit=%d lane=%d", bit, l); viol_done(); }
    }
  }
  memcpy(r2, re, sizeof re); for (int l = 0; l < LANES; l++) r2[32 * l + bit / 8] ^= (uint8_t)(1u << (bit & 7));
  rb_script(r2, sizeof re); cur_what = "enc"; crypto_kem_enc(ct2, ss2, pk); n_ops[1]++; n_bits++;
  for (int l = 0; l < LANES; l++) { n_cmp++; if (!memcmp(ct + l * P.ct, ct2 + l * P.ct, (size_t)P.ct) || !memcmp(ss + 32 * l, ss2 + 32 * l, 32)) { viol_begin("seed-bit-without-influence"); printf(" draw=message bit=%d lane=%d", bit, l); viol_done(); } }
}
/* ---------- key structure ---------- */
#include "keys.h"
static void case_keys(void)
{
  static uint8_t pk[BPK], sk[BSK]; uint8_t rk[96 * LANES];
  fill(rk, sizeof rk); rb_script(rk, sizeof rk); cur_what = "keypair"; crypto_kem_keypair(pk, sk); n_ops[0]++;
  keys_judge(pk, sk, rk);
}
int main(int argc, char **argv)
{
  if (argc < 5) return 3;
  const char *mode = argv[1];
  ull seed = strtoull(argv[2], 0, 0), first = strtoull(argv[3], 0, 0), count = strtoull(argv[4], 0, 0);
  m_params(&P, CFG_L, CFG_U, CFG_90S); m_selfcheck(); install_handlers(1);
  pool = calloc(POOL, sizeof *pool);
  for (ull i = first; i < first + count; i++) {
    cur_case = i; w_seed(&R, seed, i); watchdog_arm();
    if (!strcmp(mode, "history")) case_history();
    else if (!strcmp(mode, "soak")) case_soak();
    else if (!strcmp(mode, "digest")) case_digest();
#if LANES == 4
    else if (!strcmp(mode, "lanes")) case_lanes();
#endif
    else if (!strcmp(mode, "draws")) case_draws(i);
    else if (!strcmp(mode, "keys")) case_keys();
    else return 3;
  }
#if LANES == 4
  ull np = 0; for (int i = 0; i < 24; i++) np += perm_seen[i]; stat_u("lane_permutations_seen", np);
#endif
  ull hs = 0; for (int i = 0; i < 16; i++) hs += hist[i] > 0;
  stat_u("keypairs", n_ops[0]); stat_u("encs", n_ops[1]); stat_u("decs", n_ops[2]); stat_u("comparisons", n_cmp + keys_cmp); stat_u("replays", n_replay);
  stat_u("dirty_stack_calls", n_dirty); stat_u("accepted", n_acc); stat_u("rejected", n_rej); stat_u("bit_flips", n_bits); stat_u("shaped_draw_words", n_shaped); stat_u("distinct_secret_values", hs);
  note_stats();
  printf("DONE %s\n", n_viol ? "viol" : "ok");
  return n_viol ? 1 : 0;
}
