/* Guided workload. The implementation is compiled with coverage counters and comparison tracing;
 * this monitor keeps the inputs that show something new (a block, an edge count, a comparison that
 * came closer to equal) and feeds operands of observed comparisons back into the inputs, so that
 * code reached only for particular input values is executed too. The judge is the specification model.
 *   fuzz_mon MODE SEED FIRST COUNT      modes: agree spec reject hostile keys draws pke
 * A case is one session of CASE_RUNS executions and a function of (seed, case number) only. */
#include "hcore.h"
#include "pke.h"
#include "keys.h"
typedef unsigned long long ull;
#define CASE_RUNS 3000
#define IDLE_RUNS 250          /* enough when no comparison in the code depends on the input */

/* ---------- what the instrumented code reports ---------- */
static int tracing;
#define MAXREG 256
static struct { uint8_t *a, *b; } reg[MAXREG]; static int nreg;
void __sanitizer_cov_8bit_counters_init(uint8_t *a, uint8_t *b)
{
  for (int i = 0; i < nreg; i++) if (reg[i].a == a) return;
  if (a != b && nreg < MAXREG) { reg[nreg].a = a; reg[nreg++].b = b; }
}
typedef struct { uint64_t a, b; int size; uint16_t site; } pair;
static uint8_t solved[1 << 16];                           /* comparison sites that have been seen equal */
#define NPAIR 4096
static pair pairs[NPAIR]; static unsigned n_pairs;          /* distinct unequal comparisons of the last execution */
#define VP (1u << 20)
static uint8_t vp_seen[VP / 8]; static unsigned vp_new;
static uint16_t pc_count[1 << 16]; static uint32_t pc_used[1 << 16]; static unsigned n_pc_used;
static ull n_cmps;
static uint64_t site_h[1 << 16], site_h0[1 << 16]; static uint8_t live[1 << 16];   /* sites whose operands depend on the input */
static inline void on_cmp(uintptr_t pc, uint64_t a, uint64_t b, int size)
{
  if (!tracing) return;
  n_cmps++;
  uint32_t h = (uint32_t)((pc * 0x9e3779b97f4a7c15ull) >> 48);
  uint16_t c = pc_count[h];
  if (c == 0) pc_used[n_pc_used++] = h;
  site_h[h] = ((site_h[h] ^ a ^ (b << 17)) + 0x51ed27) * 0x9e3779b97f4a7c15ull;
  if (c >= 300) return;                                   /* loop conditions say little */
  pc_count[h] = (uint16_t)(c + 1);
  int dist = a == b ? 0 : __builtin_popcountll(a ^ b);
  uint64_t df = a > b ? a - b : b - a;
  int ad = a == b ? 0 : df < 64 ? 1 + (int)df : 65;
  for (int k = 0; k < 2; k++) {
    uint32_t f = (uint32_t)(((pc * 131 + (k ? 200 + (unsigned)ad : (unsigned)dist)) * 0x9e3779b97f4a7c15ull) >> 44);
    if (!(vp_seen[f >> 3] >> (f & 7) & 1)) { vp_seen[f >> 3] |= (uint8_t)(1 << (f & 7)); vp_new++; }
  }
  if (a == b) solved[h] = 1;
  if (a == b || c >= 64) return;
  if (n_pairs < NPAIR) pairs[n_pairs++] = (pair){a, b, size, (uint16_t)h};
}
#define PC ((uintptr_t)__builtin_return_address(0))
void __sanitizer_cov_trace_cmp1(uint8_t a, uint8_t b) { on_cmp(PC, a, b, 1); }
void __sanitizer_cov_trace_cmp2(uint16_t a, uint16_t b) { on_cmp(PC, a, b, 2); }
void __sanitizer_cov_trace_cmp4(uint32_t a, uint32_t b) { on_cmp(PC, a, b, 4); }
void __sanitizer_cov_trace_cmp8(uint64_t a, uint64_t b) { on_cmp(PC, a, b, 8); }
void __sanitizer_cov_trace_const_cmp1(uint8_t a, uint8_t b) { on_cmp(PC, b, a, 1); }
void __sanitizer_cov_trace_const_cmp2(uint16_t a, uint16_t b) { on_cmp(PC, b, a, 2); }
void __sanitizer_cov_trace_const_cmp4(uint32_t a, uint32_t b) { on_cmp(PC, b, a, 4); }
void __sanitizer_cov_trace_const_cmp8(uint64_t a, uint64_t b) { on_cmp(PC, b, a, 8); }
void __sanitizer_cov_trace_switch(uint64_t v, uint64_t *c) { for (uint64_t i = 0; i < c[0] && i < 64; i++) on_cmp(PC + i, v, c[2 + i], (int)c[1] / 8); }
/* a library comparison is a comparison too */
int __wrap_memcmp(const void *a, const void *b, size_t n)
{
  const uint8_t *x = a, *y = b; size_t i = 0;
  while (i < n && x[i] == y[i]) i++;
  if (i == n) return 0;
  on_cmp(PC + i * 8, x[i], y[i], 1);
  return x[i] < y[i] ? -1 : 1;
}
static void cov_reset(void)
{
  for (int i = 0; i < nreg; i++) memset(reg[i].a, 0, (size_t)(reg[i].b - reg[i].a));
  for (unsigned i = 0; i < n_pc_used; i++) pc_count[pc_used[i]] = 0, site_h[pc_used[i]] = 0;
  n_pc_used = n_pairs = vp_new = 0;
}
static uint8_t *virgin; static ull n_edges;
static unsigned cov_new(void)
{
  static size_t total; unsigned fresh = 0; size_t o = 0;
  if (!virgin) { for (int i = 0; i < nreg; i++) total += (size_t)(reg[i].b - reg[i].a); virgin = calloc(1, total + 1); }
  for (int i = 0; i < nreg; i++) for (uint8_t *q = reg[i].a; q < reg[i].b; q++, o++) {
    if (!*q) continue;
    unsigned bit = *q == 1 ? 1 : *q == 2 ? 2 : *q == 3 ? 4 : *q < 8 ? 8 : *q < 16 ? 16 : *q < 32 ? 32 : *q < 128 ? 64 : 128;
    if (!(virgin[o] & bit)) { if (!virgin[o]) n_edges++; virgin[o] |= (uint8_t)bit; fresh++; }
  }
  return fresh;
}

/* ---------- inputs: all byte arguments in one record ---------- */
typedef struct { uint8_t rk[96 * LANES], re[32 * LANES], pk[BPK], sk[BSK], ct[BCT]; } rec;
enum { F_RK, F_RE, F_PK, F_SK, F_CT };
static uint8_t *field(rec *r, int f, size_t *n)
{
  switch (f) {
  case F_RK: *n = sizeof r->rk; return r->rk;
  case F_RE: *n = sizeof r->re; return r->re;
  case F_PK: *n = PKN; return r->pk;
  case F_SK: *n = SKN; return r->sk;
  default: *n = CTN; return r->ct;
  }
}
static wrng R;
/* heap blocks of exactly the documented sizes */
static uint8_t *pk, *sk, *ct, *ss, *ss2, *ipk, *isk, *ict, *pisk;
static uint8_t mpk[MAX_PK], msk[MAX_SK], mct[MAX_CT], mss[32];
static ull n_runs, n_cmp, n_acc, n_rej, n_kept, n_fed, n_kp, n_enc, n_dec;
static const char *mode;
static rec honest; static uint8_t honest_ss[32 * LANES];

static void ne(const char *key, int lane, const uint8_t *got, const uint8_t *want, size_t n, const rec *r)
{
  n_cmp++; int d = diff_at(got, want, n); if (d < 0) return;
  viol_begin(key); printf(" lane=%d first_diff=%d", lane, d); hexs(stdout, "got", got + d, n - d < 32 ? n - d : 32); hexs(stdout, "want", want + d, n - d < 32 ? n - d : 32);
  hexs(stdout, "rnd_keypair", r->rk, sizeof r->rk); hexs(stdout, "rnd_enc", r->re, sizeof r->re); viol_done();
}
static void rc_is(int rc) { if (rc) { viol_begin("return-code"); printf(" rc=%d", rc); viol_done(); } }
#define T(x) do { tracing = 1; int rc_ = (x); tracing = 0; rc_is(rc_); } while (0)
static void drawn(size_t want) { n_cmp++; if (rb_pos != want) { viol_begin("wrong-amount-of-randomness"); printf(" drawn=%zu want=%zu calls=%u", rb_pos, want, rb_calls); viol_done(); } }
static void exec_one(const rec *r)
{
  n_runs++; memcpy(ipk, r->pk, PKN); memcpy(isk, r->sk, SKN); memcpy(ict, r->ct, CTN);
  if (!strcmp(mode, "keys")) {
    rb_script(r->rk, sizeof r->rk); cur_what = "keypair"; T(crypto_kem_keypair(pk, sk)); n_kp++;
    keys_judge(pk, sk, r->rk); return;
  }
  if (!strcmp(mode, "draws")) {
    rb_script(r->rk, sizeof r->rk); cur_what = "keypair"; T(crypto_kem_keypair(pk, sk)); n_kp++; drawn(sizeof r->rk);
    rb_script(r->re, sizeof r->re); cur_what = "enc"; T(crypto_kem_enc(ct, ss, pk)); n_enc++; drawn(sizeof r->re);
    rb_script(r->re, sizeof r->re); cur_what = "enc-arbitrary"; T(crypto_kem_enc(ct, ss, ipk)); n_enc++; drawn(sizeof r->re);
    rb_script(r->re, sizeof r->re); cur_what = "dec"; T(crypto_kem_dec(ss2, ict, isk)); n_dec++; drawn(0);
    return;
  }
  if (!strcmp(mode, "pke")) {
    static uint8_t coins[32 * LANES]; uint8_t rnd[64 * LANES];
    for (int l = 0; l < LANES; l++) { memcpy(pisk + l * P.isk, r->sk + l * P.sk, (size_t)P.isk); memcpy(coins + 32 * l, r->rk + 96 * l, 32); memcpy(rnd + 64 * l, r->rk + 96 * l, 64); }
    note("pke-enc", r->pk, PKN, coins, sizeof coins); cur_what = "pke-enc"; tracing = 1; pke_enc(r->re, coins, ipk, ct); tracing = 0; n_enc++;
    note("pke-dec", pisk, (size_t)P.isk, r->ct, CTN); cur_what = "pke-dec"; tracing = 1; pke_dec(pisk, ict, ss2); tracing = 0; n_dec++;
    note("pke-keypair", rnd, sizeof rnd, NULL, 0); cur_what = "pke-keypair"; tracing = 1; pke_keypair(pk, sk, rnd); tracing = 0; n_kp++;
    for (int l = 0; l < LANES; l++) {
      cur_what = "pke-enc"; m_pke_enc(&P, mct, r->re + 32 * l, coins + 32 * l, r->pk + l * P.pk); ne("wrong-ciphertext", l, ct + l * P.ct, mct, (size_t)P.ct, r);
      cur_what = "pke-dec"; m_pke_dec(&P, mss, r->ct + l * P.ct, pisk + l * P.isk); ne("wrong-message", l, ss2 + 32 * l, mss, 32, r);
      cur_what = "pke-keypair"; m_pke_keypair(&P, mpk, msk, rnd + 64 * l, rnd + 64 * l + 32); ne("wrong-public-key", l, pk + l * P.pk, mpk, (size_t)P.pk, r); ne("wrong-secret-key", l, sk + l * P.isk, msk, (size_t)P.isk, r);
    }
    return;
  }
  if (!strcmp(mode, "agree") || !strcmp(mode, "spec")) {
    rb_script(r->rk, sizeof r->rk); cur_what = "keypair"; T(crypto_kem_keypair(pk, sk)); n_kp++;
    rb_script(r->re, sizeof r->re); cur_what = "enc"; T(crypto_kem_enc(ct, ss, pk)); n_enc++;
    cur_what = "dec"; T(crypto_kem_dec(ss2, ct, sk)); n_dec++;
    for (int l = 0; l < LANES; l++) {
      if (mode[0] == 'a') { ne("secrets-differ", l, ss2 + 32 * l, ss + 32 * l, 32, r); n_acc++; continue; }
      cur_what = "keypair"; m_kem_keypair(&P, mpk, msk, r->rk + 96 * l);
      ne("public-key", l, pk + l * P.pk, mpk, (size_t)P.pk, r); ne("secret-key", l, sk + l * P.sk, msk, (size_t)P.sk, r);
      cur_what = "enc"; m_kem_enc(&P, mct, mss, pk + l * P.pk, r->re + 32 * l);
      ne("ciphertext", l, ct + l * P.ct, mct, (size_t)P.ct, r); ne("enc-secret", l, ss + 32 * l, mss, 32, r);
      cur_what = "dec"; if (m_kem_dec(&P, mss, ct + l * P.ct, sk + l * P.sk)) n_acc++; else n_rej++;
      ne("dec-secret", l, ss2 + 32 * l, mss, 32, r);
    }
    return;
  }
  if (!strcmp(mode, "reject")) {
    memcpy(isk, honest.sk, SKN); cur_what = "dec"; T(crypto_kem_dec(ss2, ict, isk)); n_dec++;
    for (int l = 0; l < LANES; l++) {
      if (!memcmp(r->ct + l * P.ct, honest.ct + l * P.ct, (size_t)P.ct)) { ne("untampered-rejected", l, ss2 + 32 * l, honest_ss + 32 * l, 32, r); n_acc++; continue; }
      m_reject(&P, mss, r->ct + l * P.ct, honest.sk + l * P.sk); n_rej++;
      ne(memcmp(ss2 + 32 * l, honest_ss + 32 * l, 32) ? "rejection-value" : "tampered-accepted", l, ss2 + 32 * l, mss, 32, r);
    }
    return;
  }
  rb_script(r->re, sizeof r->re); cur_what = "enc"; T(crypto_kem_enc(ct, ss, ipk)); n_enc++;
  cur_what = "dec"; T(crypto_kem_dec(ss2, ict, isk)); n_dec++;
  for (int l = 0; l < LANES; l++) {
    cur_what = "enc"; m_kem_enc(&P, mct, mss, r->pk + l * P.pk, r->re + 32 * l);
    ne("ciphertext-for-arbitrary-public-key", l, ct + l * P.ct, mct, (size_t)P.ct, r); ne("secret-for-arbitrary-public-key", l, ss + 32 * l, mss, 32, r);
    cur_what = "dec"; if (m_kem_dec(&P, mss, r->ct + l * P.ct, r->sk + l * P.sk)) n_acc++; else n_rej++;
    ne("dec-of-arbitrary-bytes", l, ss2 + 32 * l, mss, 32, r);
  }
}
/* replace the value `from` by `to` somewhere in p */
static int substitute(uint8_t *p, size_t n, uint64_t from, uint64_t to, int size)
{
  uint8_t f[8], t[8]; memcpy(f, &from, 8); memcpy(t, &to, 8);
  if (size == 8 && from >> 32 == 0 && to >> 32 == 0) size = 4;
  if (size == 4 && from >> 16 == 0 && to >> 16 == 0 && w_below(&R, 2)) size = 2;
  if (size <= 4 && from >> 8 == 0 && to >> 8 == 0 && w_below(&R, 4)) size = 1;   /* bytes are often compared as ints */
  if (n < (size_t)size) return 0;
  size_t at = w_below(&R, (uint32_t)n);
  for (size_t k = 0; k < n; k++) {
    size_t q = (at + k) % n; if (q + (size_t)size > n) continue;
    if (!memcmp(p + q, f, (size_t)size)) { memcpy(p + q, t, (size_t)size); return 1; }
  }
  return 0;
}
#define NCORP 256
static rec *corp; static unsigned n_corp; static pair *corp_pairs[NCORP]; static unsigned corp_np[NCORP];
static void mutate(rec *x, unsigned from, const int *fs, int nf)
{
  int rounds = 1 + (int)w_below(&R, 3);
  while (rounds--) {
    size_t n; uint8_t *p = field(x, fs[w_below(&R, (uint32_t)nf)], &n);
    size_t at = w_below(&R, (uint32_t)n), ln;
    if (w_below(&R, 3) == 0 && n > 64) at = w_below(&R, 2) ? w_below(&R, 32) : n - 1 - w_below(&R, 64);
    unsigned k = w_below(&R, 12);
    if (k >= 5 && corp_np[from]) {
      pair q = corp_pairs[from][w_below(&R, corp_np[from])];
      int flip = (int)w_below(&R, 2); uint64_t a = flip ? q.b : q.a, b = flip ? q.a : q.b;
      if (w_below(&R, 8) == 0) b += w_below(&R, 2) ? 1 : (uint64_t)-1;
      if (substitute(p, n, a, b, q.size)) { n_fed++; continue; }
      ln = q.size > 4 && b >> 32 == 0 ? 4 : (size_t)q.size; if (b >> 8 == 0) ln = 1;
      if (at + ln <= n) { memcpy(p + at, &b, ln); n_fed++; }
      continue;
    }
    static const uint8_t nice[] = {0, 1, 0x7f, 0x80, 0xff, 0xfe, 0x10, 0x20};
    ln = 1 + w_below(&R, 8); if (at + ln > n) ln = n - at;
    switch (k) {
    case 0: p[at] ^= (uint8_t)(1u << w_below(&R, 8)); break;
    case 1: p[at] = (uint8_t)w_u64(&R); break;
    case 2: memset(p + at, nice[w_below(&R, 8)], ln); break;
    case 3: w_bytes(&R, p + at, ln); break;
    default: memmove(p + at, p + w_below(&R, (uint32_t)(n - ln + 1)), ln); break;
    }
  }
}
static void base(rec *r)
{
  for (size_t i = 0; i < sizeof r->rk; i += 32) if (w_below(&R, 4)) w_bytes(&R, r->rk + i, 32); else w_shape(&R, r->rk + i, 32);
  w_bytes(&R, r->re, sizeof r->re);
  for (int l = 0; l < LANES; l++) {
    m_kem_keypair(&P, r->pk + l * P.pk, r->sk + l * P.sk, r->rk + 96 * l);
    m_kem_enc(&P, r->ct + l * P.ct, honest_ss + 32 * l, r->pk + l * P.pk, r->re + 32 * l);
  }
}
static unsigned last_kept; static ull max_live;
static void keep(const rec *r)
{
  unsigned i = n_corp < NCORP ? n_corp++ : w_below(&R, NCORP); last_kept = i;
  corp[i] = *r; corp_np[i] = n_pairs < 256 ? n_pairs : 256;
  if (!corp_pairs[i]) corp_pairs[i] = malloc(256 * sizeof(pair));
  for (unsigned k = 0; k < corp_np[i]; k++) corp_pairs[i][k] = pairs[n_pairs <= 256 ? k : w_below(&R, n_pairs)];
  n_kept++;
}
/* operands that were not equal yet: put one where the other one stands, at every place it stands */
typedef struct { uint16_t at; uint8_t corp, f, n, v[8]; } trial;
#define NTRIAL 4096
static trial trials[NTRIAL]; static unsigned t_head, t_tail;
static ull n_trials;
static void plan_trials(unsigned ci, const int *fs, int nf)
{
  for (unsigned k = 0; k < n_pairs && k < 400; k++) {
    if (solved[pairs[k].site] || !live[pairs[k].site]) continue;
    for (int dir = 0; dir < 2; dir++) {
      uint64_t a = dir ? pairs[k].b : pairs[k].a, b = dir ? pairs[k].a : pairs[k].b;
      for (int size = pairs[k].size; size >= 1; size /= 2) {
        if (size < 8 && (a >> (8 * size) || b >> (8 * size))) break;
        if (size == 1 && dir && (a == 0 || a == 255)) break;              /* the constant itself stands everywhere */
        for (int f = 0; f < nf; f++) {
          if (f && fs[f] == fs[0]) continue;
          size_t n; uint8_t *p = field(&corp[ci], fs[f], &n); int hits = 0;
          for (size_t q = 0; q + (size_t)size <= n && hits < 12; q++) if (!memcmp(p + q, &a, (size_t)size)) {
            if (t_head - t_tail >= NTRIAL) return;
            trial *t = &trials[t_head++ % NTRIAL]; t->at = (uint16_t)q; t->corp = (uint8_t)ci; t->f = (uint8_t)fs[f]; t->n = (uint8_t)size; memcpy(t->v, &b, 8); hits++;
          }
        }
      }
    }
  }
}
static void session(void)
{
  static const int f_seed[] = {F_RK, F_RE}, f_ct[] = {F_CT}, f_all[] = {F_RK, F_RE, F_PK, F_SK, F_CT}, f_host[] = {F_RE, F_PK, F_SK, F_CT, F_PK, F_CT};
  const int *fs = f_seed; int nf = 2; static rec x;
  if (mode[0] == 'r') fs = f_ct, nf = 1;
  if (mode[0] == 'h') fs = f_host, nf = 6;
  if (mode[0] == 'd' || mode[0] == 'p') fs = f_all, nf = 5;
  memset(vp_seen, 0, sizeof vp_seen); if (virgin) { free(virgin); virgin = NULL; } n_corp = 0; t_head = t_tail = 0; memset(solved, 0, sizeof solved); memset(live, 0, sizeof live); cov_reset(); memset(site_h, 0, sizeof site_h);
  base(&honest);
  for (int i = 0; i < CASE_RUNS; i++) {
    if (i < 3) x = honest;
    if (i < 2) for (int f = 0; f < nf; f++) { size_t n; uint8_t *q = field(&x, fs[f], &n); w_bytes(&R, q, n); }   /* two unrelated inputs: what differs depends on the input */
    else if (i == 2) {}
    else if (t_tail != t_head && (i & 3)) {
      trial *t = &trials[t_tail++ % NTRIAL]; size_t n; x = corp[t->corp]; memcpy(field(&x, t->f, &n) + t->at, t->v, t->n); n_trials++; n_fed++;
    }
    else { unsigned from = w_below(&R, 3) ? w_below(&R, n_corp) : n_corp - 1; x = corp[from]; mutate(&x, from, fs, nf); }
    if (i == IDLE_RUNS) { int any = 0; for (unsigned h = 0; h < 1 << 16; h++) any += live[h] && !solved[h]; if (any > (int)max_live) max_live = (ull)any; if (!any) break; }
    if ((i & 15) == 0) watchdog_arm();
    cov_reset(); exec_one(&x);
    if (i == 0) memcpy(site_h0, site_h, sizeof site_h);
    else if (i < 8) for (unsigned k = 0; k < n_pc_used; k++) { uint32_t h = pc_used[k]; if (site_h[h] != site_h0[h]) live[h] = 1; }
    else for (unsigned k = 0; k < n_pc_used; k++) if (!site_h0[pc_used[k]]) live[pc_used[k]] = 1;
    unsigned fresh = cov_new();
    if (fresh || vp_new || i < 3) { keep(&x); if (fresh || i < 3 || w_below(&R, 8) == 0) plan_trials(last_kept, fs, nf); }
  }
}
int main(int argc, char **argv)
{
  if (argc < 5) return 3;
  mode = argv[1];
  ull seed = strtoull(argv[2], 0, 0), first = strtoull(argv[3], 0, 0), count = strtoull(argv[4], 0, 0), edges = 0;
  m_params(&P, CFG_L, CFG_U, CFG_90S); m_selfcheck(); install_handlers(1);
  if (mode[0] == 'p' && !pke_present()) { printf("STAT absent 1\nDONE ok\n"); return 0; }
  pk = malloc(PKN); sk = malloc(SKN); ct = malloc(CTN); ss = malloc(SSN); ss2 = malloc(SSN); ipk = malloc(PKN); isk = malloc(SKN); ict = malloc(CTN); pisk = malloc((size_t)P.isk * LANES);
  corp = calloc(NCORP, sizeof *corp);
  for (ull i = first; i < first + count; i++) { cur_case = i; w_seed(&R, seed, i * 64 + 7 + (unsigned)mode[0]); n_edges = 0; session(); if (n_edges > edges) edges = n_edges; }
  stat_u("guided_runs", n_runs); stat_u("guided_trials", n_trials); stat_u("guided_blocks_covered", edges); stat_u("comparisons_traced", n_cmps); stat_u("input_dependent_comparisons", max_live); stat_u("inputs_kept", n_kept); stat_u("operands_fed_back", n_fed);
  stat_u("keypairs", n_kp); stat_u("encs", n_enc); stat_u("decs", n_dec); stat_u("comparisons", n_cmp + keys_cmp); stat_u("accepted", n_acc); stat_u("rejected", n_rej);
  note_stats();
  printf("DONE %s\n", n_viol ? "viol" : "ok");
  return n_viol ? 1 : 0;
}
