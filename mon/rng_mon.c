/* Monitor of the deterministic random bit generator and the seed expander (real code, not wrapped).
 *   rng_mon MODE SEED FIRST COUNT    modes: drbg kem expander longexp faults */
#define NO_RB_WRAP
#include "hcore.h"
#include <openssl/evp.h>
#include <sys/wait.h>
typedef unsigned long long ull;
int randombytes(unsigned char *x, unsigned long long n);
void randombytes_init(unsigned char *e, unsigned char *p, int s);
__attribute__((weak)) int randombytes0(unsigned char *x, ull n);
__attribute__((weak)) int randombytes1(unsigned char *x, ull n);
__attribute__((weak)) int randombytes2(unsigned char *x, ull n);
__attribute__((weak)) int randombytes3(unsigned char *x, ull n);
__attribute__((weak)) void AES256_CTR_DRBG_Update(unsigned char *d, unsigned char *k, unsigned char *v);
struct drbg_layout { unsigned char Key[32], V[16]; int reseed; };
extern __attribute__((weak)) struct drbg_layout DRBG_ctx;
typedef struct { uint64_t opaque[64]; } xof;     /* larger than the real context */
__attribute__((weak)) int seedexpander_init(void *ctx, unsigned char *seed, unsigned char *div, unsigned long maxlen);
__attribute__((weak)) int seedexpander(void *ctx, unsigned char *x, unsigned long xlen);

static wrng R;
static ull n_calls, n_bytes, n_init, n_zero, n_partial, n_carry, n_refused, n_ok, n_kem, n_fault, n_ctx, n_long, n_extra;
static long live_ctx;

/* ---- fault injection and conservation on the cipher library (linker --wrap) ---- */
static long fail_at = -1, evp_calls;
static int fault_now(void) { long k = evp_calls++; return fail_at >= 0 && k == fail_at; }
#ifdef EVP_WRAP
EVP_CIPHER_CTX *__real_EVP_CIPHER_CTX_new(void);
void __real_EVP_CIPHER_CTX_free(EVP_CIPHER_CTX *c);
int __real_EVP_EncryptInit_ex(EVP_CIPHER_CTX *c, const EVP_CIPHER *t, ENGINE *e, const unsigned char *k, const unsigned char *iv);
int __real_EVP_EncryptUpdate(EVP_CIPHER_CTX *c, unsigned char *o, int *ol, const unsigned char *i, int il);
static __thread int in_model;
EVP_CIPHER_CTX *__wrap_EVP_CIPHER_CTX_new(void)
{
  if (in_model) return __real_EVP_CIPHER_CTX_new();
  if (fault_now()) return NULL;
  EVP_CIPHER_CTX *c = __real_EVP_CIPHER_CTX_new(); if (c) { live_ctx++; n_ctx++; } return c;
}
void __wrap_EVP_CIPHER_CTX_free(EVP_CIPHER_CTX *c) { if (!in_model && c) live_ctx--; __real_EVP_CIPHER_CTX_free(c); }
int __wrap_EVP_EncryptInit_ex(EVP_CIPHER_CTX *c, const EVP_CIPHER *t, ENGINE *e, const unsigned char *k, const unsigned char *iv)
{ if (!in_model && fault_now()) return 0; return __real_EVP_EncryptInit_ex(c, t, e, k, iv); }
int __wrap_EVP_EncryptUpdate(EVP_CIPHER_CTX *c, unsigned char *o, int *ol, const unsigned char *i, int il)
{ if (!in_model && fault_now()) return 0; return __real_EVP_EncryptUpdate(c, o, ol, i, il); }
#define MODEL(x) do { in_model = 1; x; in_model = 0; } while (0)
#else
#define MODEL(x) do { x; } while (0)
#endif

#define MAXB 400000
static uint8_t want[MAXB];
static gbuf G;
static void judge(const char *what, const uint8_t *got, size_t n, size_t step)
{
  n_calls++; n_bytes += n; note(what, (uint8_t *)&n, sizeof n, want, n);
  int d = diff_at(got, want, n);
  if (d < 0) return;
  cur_what = what; viol_begin("stream-differs"); printf(" step=%zu len=%zu first_diff=%d", step, n, d);
  hexs(stdout, "got", got + d, n - d < 16 ? n - d : 16); hexs(stdout, "want", want + d, n - d < 16 ? n - d : 16); viol_done();
}
static size_t pick(int big)
{
  static const int e[] = {0, 1, 2, 15, 16, 17, 31, 32, 33, 47, 48, 49, 63, 64, 65, 96, 255, 256, 257, 992, 1088};
  switch (w_below(&R, 8)) {
    case 0: case 1: case 2: return e[w_below(&R, sizeof e / sizeof *e)];
    case 3: return 16 * w_below(&R, 300);
    case 4: return w_below(&R, 5000);
    case 5: if (big && w_below(&R, 20) == 0) { n_long++; return w_below(&R, 300000); } /* fall through */
    default: return w_below(&R, 130);
  }
}
static void ent(uint8_t *p, size_t n) { if (w_below(&R, 3)) w_bytes(&R, p, n); else w_shape(&R, p, n); }

static void do_init(mdrbg *d)
{
  uint8_t e[48], p[48], e0[48], p0[48]; int pers = (int)w_below(&R, 2);
  ent(e, 48); ent(p, 48);
  if (w_below(&R, 3) == 0) {                       /* a seed whose counter starts next to a carry of any depth */
    mdrbg t; MODEL(m_drbg_init(&t, e, pers ? p : NULL));
    int z = 1 + (int)w_below(&R, 16);
    for (int i = 16 - z; i < 16; i++) e[32 + i] ^= t.v[i] ^ 0xff;
    e[47] ^= (uint8_t)w_below(&R, 4); n_carry++;
  }
  memcpy(e0, e, 48); memcpy(p0, p, 48);
  cur_what = "init"; randombytes_init(e, pers ? p : NULL, 256); n_init++;
  if (memcmp(e, e0, 48) || memcmp(p, p0, 48)) { viol_begin("input-modified"); viol_done(); }
  MODEL(m_drbg_init(d, e0, pers ? p0 : NULL));
}
static void draw(mdrbg *d, int (*f)(unsigned char *, ull), const char *nm, size_t n, size_t step)
{
  uint8_t *o = g_place(&G, n, (int)w_below(&R, 3), w_below(&R, 64));
  cur_what = nm;
  int rc = f(o, n);
  if (rc) { viol_begin("return-code"); printf(" rc=%d len=%zu", rc, n); viol_done(); }
  MODEL(m_drbg(d, want, n)); judge(nm, o, n, step);
  if (n == 0) n_zero++; if (n % 16) n_partial++;
  long at = g_check(&G);
  if (at != -1000000) { viol_begin("wrote-outside-output"); printf(" at=%ld len=%zu", at, n); viol_done(); }
}
static void case_drbg(void)
{
  mdrbg d, x[4];
  do_init(&d); for (int i = 0; i < 4; i++) x[i] = d;
  int steps = 3 + (int)w_below(&R, 25);
  for (int s = 0; s < steps; s++) {
    int k = (int)w_below(&R, 20);
    if (k == 0) { do_init(&d); for (int i = 0; i < 4; i++) x[i] = d; continue; }
    if (k == 1 && &DRBG_ctx && !memcmp(DRBG_ctx.Key, d.key, 32) && !memcmp(DRBG_ctx.V, d.v, 16)) {
      /* bring the counter next to a deep carry */
      int z = 1 + (int)w_below(&R, 16);
      for (int i = 16 - z; i < 16; i++) d.v[i] = 0xff;
      d.v[15] = (uint8_t)(0xff - w_below(&R, 3));
      memcpy(DRBG_ctx.V, d.v, 16); n_carry++;
    }
    if (k == 2 && AES256_CTR_DRBG_Update) {
      uint8_t key[32], v[16], data[48], kk[32], vv[16]; ent(key, 32); ent(v, 16); ent(data, 48);
      if (w_below(&R, 2)) memset(v + 16 - 1 - w_below(&R, 15), 0xff, 1), v[15] = 0xff;
      memcpy(kk, key, 32); memcpy(vv, v, 16);
      int nul = (int)w_below(&R, 2);
      cur_what = "update"; AES256_CTR_DRBG_Update(nul ? NULL : data, kk, vv);
      uint8_t t[48];
      for (int b = 0; b < 3; b++) { for (int j = 15; j >= 0; j--) if (++v[j]) break; MODEL(m_aes256ecb(t + 16 * b, v, key)); }
      for (int i = 0; i < 48; i++) want[i] = t[i] ^ (nul ? 0 : data[i]);
      memcpy(t, kk, 32); memcpy(t + 32, vv, 16); judge("update", t, 48, 0);
    }
    if (randombytes0 && randombytes1 && randombytes2 && randombytes3 && k < 8) {
      int (*f[4])(unsigned char *, ull) = {randombytes0, randombytes1, randombytes2, randombytes3};
      int i = (int)w_below(&R, 4); draw(&x[i], f[i], "randombytes-lane", pick(0), (size_t)s); n_extra++;
    } else draw(&d, randombytes, "randombytes", pick(1), (size_t)s);
  }
}
/* one seeding, then more requests than any small counter holds */
static ull n_long_hist;
static void case_longdrbg(void)
{
  static uint8_t tmpbuf[256];
  mdrbg d;
  do_init(&d);
  for (int s = 0; s < 66500; s++) {
    size_t n = s % 9 == 8 ? pick(0) % 130 : 1 + w_below(&R, 16);
    if (s % 1024 == 0) { watchdog_arm(); draw(&d, randombytes, "randombytes-long-history", pick(0), (size_t)s); continue; }
    cur_what = "randombytes-long-history";
    int rc = randombytes(tmpbuf, n);
    if (rc) { viol_begin("return-code"); printf(" rc=%d len=%zu", rc, n); viol_done(); }
    MODEL(m_drbg(&d, want, n)); judge("randombytes-long-history", tmpbuf, n, (size_t)s);
  }
  n_long_hist++;
}
/* the KEM drawing from the real generator: seeded reproducibility end to end */
static uint8_t pk[BPK], sk[BSK], ct[BCT], ss[32 * LANES], mpk[BPK], msk[BSK], mct[BCT], mss[32 * LANES];
static void case_kem(void)
{
  mdrbg d; do_init(&d);
  uint8_t r[96];
  int steps = 2 + (int)w_below(&R, 5), have = 0;
  for (int s = 0; s < steps; s++) {
    int k = (int)w_below(&R, 5);
    if (k == 4) { draw(&d, randombytes, "randombytes", pick(0), (size_t)s); continue; }
    if (k <= 1 || !have) {
      cur_what = "keypair"; crypto_kem_keypair(pk, sk); have = 1; n_kem++;
      for (int l = 0; l < LANES; l++) {
        for (int i = 0; i < 3; i++) MODEL(m_drbg(&d, r + 32 * i, 32));
        m_kem_keypair(&P, mpk + l * P.pk, msk + l * P.sk, r);
      }
      memcpy(want, mpk, PKN); judge("kem-keypair-pk", pk, PKN, (size_t)s); memcpy(want, msk, SKN); judge("kem-keypair-sk", sk, SKN, (size_t)s);
    } else {
      cur_what = "enc"; crypto_kem_enc(ct, ss, pk); n_kem++;
      for (int l = 0; l < LANES; l++) { MODEL(m_drbg(&d, r, 32)); m_kem_enc(&P, mct + l * P.ct, mss + 32 * l, pk + l * P.pk, r); }
      memcpy(want, mct, CTN); judge("kem-enc-ct", ct, CTN, (size_t)s); memcpy(want, mss, SSN); judge("kem-enc-ss", ss, SSN, (size_t)s);
      if (k == 3) {                                     /* decapsulation draws nothing */
        if (w_below(&R, 2)) ct[w_below(&R, (uint32_t)CTN)] ^= 1;
        cur_what = "dec"; crypto_kem_dec(ss, ct, sk); n_kem++;
        for (int l = 0; l < LANES; l++) m_kem_dec(&P, want + 32 * l, ct + l * P.ct, sk + l * P.sk);
        judge("kem-dec-ss", ss, SSN, (size_t)s);
      }
    }
  }
}
/* ---- seed expander ---- */
typedef struct { xof c; uint8_t key[32], ctr[16]; uint64_t pos, left; int on; } exp_t;
static void exp_bytes(exp_t *e, uint8_t *o, size_t n)
{
  static uint8_t blk[16]; static uint64_t have = ~0ull; static const exp_t *who; static uint8_t hk[32], hc[12];
  for (size_t i = 0; i < n; i++) {
    uint64_t b = (e->pos + i) / 16;
    if (who != e || have != b || memcmp(hk, e->key, 32) || memcmp(hc, e->ctr, 12)) {
      uint8_t c[16]; memcpy(c, e->ctr, 12); c[12] = (uint8_t)(b >> 24); c[13] = (uint8_t)(b >> 16); c[14] = (uint8_t)(b >> 8); c[15] = (uint8_t)b;
      MODEL(m_aes256ecb(blk, c, e->key)); who = e; have = b; memcpy(hk, e->key, 32); memcpy(hc, e->ctr, 12);
    }
    o[i] = blk[(e->pos + i) % 16];
  }
}
static void case_expander(ull k)
{
  static exp_t E[3];
  if (!seedexpander_init || !seedexpander) { printf("STAT absent 1\n"); return; }
  memset(E, 0, sizeof E);
  uint8_t seed[32], div[8], s0[32], d0[8];
  int steps = 6 + (int)w_below(&R, 30), longrun = k % 37 == 0;
  for (int s = 0; s < steps; s++) {
    exp_t *e = &E[w_below(&R, 3)];
    if (!e->on || w_below(&R, 12) == 0) {
      ent(seed, 32); ent(div, 8); memcpy(s0, seed, 32); memcpy(d0, div, 8);
      static const unsigned long edge[] = {1, 2, 15, 16, 17, 32, 33, 255, 256, 257, 4096, 65535, 65536, 65537, 0xffffff, 0x1000000, 0xffffffff, 0xfffffffe};
      unsigned long max = longrun ? 3000000 : w_below(&R, 2) ? edge[w_below(&R, 18)] : (unsigned long)(w_u64(&R) & 0xffffffff);
      int bad = w_below(&R, 10) == 0;
      if (bad) { static const unsigned long b[] = {0x100000000ul, 0x100000001ul, ~0ul, 1ul << 63, 1ul << 33}; max = b[w_below(&R, 5)]; }
      memset(&e->c, (int)w_below(&R, 256), sizeof e->c);
      cur_what = "expander-init"; int rc = seedexpander_init(&e->c, seed, div, max); n_calls++;
      if (bad) { e->on = 0; n_refused++; if (rc != -1) { viol_begin("overlong-budget-accepted"); printf(" maxlen=%lu rc=%d", max, rc); viol_done(); } continue; }
      if (rc) { viol_begin("init-refused"); printf(" maxlen=%lu rc=%d", max, rc); viol_done(); continue; }
      if (memcmp(s0, seed, 32) || memcmp(d0, div, 8)) { viol_begin("input-modified"); viol_done(); }
      memcpy(e->key, seed, 32); memcpy(e->ctr, div, 8);
      e->ctr[8] = (uint8_t)(max >> 24); e->ctr[9] = (uint8_t)(max >> 16); e->ctr[10] = (uint8_t)(max >> 8); e->ctr[11] = (uint8_t)max;
      e->pos = 0; e->left = max; e->on = 1;
      continue;
    }
    size_t n = longrun && w_below(&R, 3) == 0 ? 100000 + w_below(&R, 250000) : pick(1);
    if (w_below(&R, 5) == 0 && e->left < MAXB) n = (size_t)(e->left > 2 ? e->left - 2 + w_below(&R, 5) : w_below(&R, 4));
    cur_what = "expander";
    if (w_below(&R, 15) == 0) {
      size_t m = n < e->left ? n : 1;
      if (m >= e->left) continue;
      int rc = seedexpander(&e->c, NULL, m); n_calls++; n_refused++;
      if (rc != -2) { viol_begin("null-output"); printf(" rc=%d", rc); viol_done(); }
      continue;
    }
    uint8_t *o = g_place(&G, n, (int)w_below(&R, 3), w_below(&R, 64));
    int rc = seedexpander(&e->c, o, n);
    if (n >= e->left) {
      n_refused++; n_calls++;
      if (rc != -3) { viol_begin("budget-exceeded"); printf(" rc=%d len=%zu left=%llu", rc, n, (ull)e->left); viol_done(); e->on = 0; }
      /* a refused request hands out nothing */
      for (size_t i = 0; i < n; i++) if (o[i] != canary_at((size_t)(o - G.map) + i)) { viol_begin("refused-but-wrote"); printf(" at=%zu", i); viol_done(); break; }
    } else {
      if (rc) { viol_begin("request-refused"); printf(" rc=%d len=%zu left=%llu", rc, n, (ull)e->left); viol_done(); e->on = 0; continue; }
      exp_bytes(e, want, n); judge("expander", o, n, (size_t)s); e->pos += n; e->left -= n; n_ok++;
    }
    long at = g_check(&G);
    if (at != -1000000) { viol_begin("wrote-outside-output"); printf(" at=%ld len=%zu", at, n); viol_done(); }
  }
}
/* one stream past the third byte of its block counter */
static void case_longexp(void)
{
  static uint8_t o[1 << 20], w[1 << 20];
  if (!seedexpander_init || !seedexpander) { printf("STAT absent 1\n"); return; }
  xof c; uint8_t seed[32], div[8], ctr[16];
  ent(seed, 32); ent(div, 8);
  unsigned long max = 0xffffffff; uint64_t pos = 0;
  if (seedexpander_init(&c, seed, div, max)) { viol_begin("init-refused"); viol_done(); return; }
  memcpy(ctr, div, 8); memset(ctr + 8, 0xff, 4);
  while (pos < (1ull << 28) + (1 << 16)) {
    watchdog_arm();
    size_t n = sizeof o - 16 * w_below(&R, 3) - w_below(&R, 16), lead = pos % 16;
    if (n > sizeof o - 16) n = sizeof o - 16;
    for (int i = 0; i < 4; i++) ctr[12 + i] = (uint8_t)((pos / 16) >> (24 - 8 * i));
    cur_what = "expander-long";
    if (seedexpander(&c, o, n)) { viol_begin("request-refused"); printf(" pos=%llu", (ull)pos); viol_done(); return; }
    MODEL(m_aes256ctr(w, lead + n, seed, ctr));
    n_calls++; n_bytes += n; n_ok++; note("expander-long", (uint8_t *)&pos, sizeof pos, seed, 32);
    int d = diff_at(o, w + lead, n);
    if (d >= 0) { viol_begin("stream-differs"); printf(" pos=%llu first_diff=%d", (ull)pos, d); viol_done(); return; }
    pos += n;
  }
  n_long++;
}
/* ---- cipher-library failures: fail closed, and cipher contexts are conserved ---- */
static void work(void)
{
  uint8_t e[48] = {1}, buf[100]; xof x; uint8_t s[32] = {2}, dv[8] = {3};
  randombytes_init(e, NULL, 256); randombytes(buf, 70); randombytes(buf, 0); randombytes(buf, 16);
  if (seedexpander_init && seedexpander) { seedexpander_init(&x, s, dv, 1000); seedexpander(&x, buf, 50); seedexpander(&x, buf, 3); }
}
static long total_calls;
static void case_faults(ull k)
{
  if (k == 0) { evp_calls = 0; work(); total_calls = evp_calls; }
  evp_calls = 0; fail_at = -1;
  if (!total_calls) { evp_calls = 0; work(); total_calls = evp_calls; }
  if (total_calls) {
    long at = (long)(k % (ull)total_calls);
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
      struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = SIG_DFL; sigaction(SIGABRT, &sa, NULL); sigaction(SIGSEGV, &sa, NULL);
      if (!freopen("/dev/null", "w", stderr)) _exit(7);
      fail_at = at; evp_calls = 0; work(); _exit(0);
    }
    int st; waitpid(p, &st, 0); n_fault++; n_calls++; note("fail-nth-cipher-call", (uint8_t *)&at, sizeof at, NULL, 0);
    cur_what = "cipher-failure";
    /* any abnormal end is fail-closed; carrying on as if the bytes were random is not */
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { viol_begin("failure-ignored"); printf(" failing_call=%ld of %ld", at, total_calls); viol_done(); }
  }
  long before = live_ctx;
  work(); n_calls++;
  cur_what = "cipher-context-conservation";
  if (live_ctx != before) { viol_begin("cipher-context-leak"); printf(" before=%ld after=%ld", before, live_ctx); viol_done(); }
}
int main(int argc, char **argv)
{
  if (argc < 5) return 3;
  const char *mode = argv[1];
  ull seed = strtoull(argv[2], 0, 0), first = strtoull(argv[3], 0, 0), count = strtoull(argv[4], 0, 0);
  m_params(&P, CFG_L, CFG_U, CFG_90S); MODEL(m_selfcheck());
  g_alloc(&G, MAXB); install_handlers(1);
  for (ull i = first; i < first + count; i++) {
    cur_case = i; w_seed(&R, seed, i); watchdog_arm();
    if (!strcmp(mode, "drbg")) case_drbg();
    else if (!strcmp(mode, "longdrbg")) case_longdrbg();
    else if (!strcmp(mode, "kem")) case_kem();
    else if (!strcmp(mode, "expander")) case_expander(i);
    else if (!strcmp(mode, "longexp")) case_longexp();
    else if (!strcmp(mode, "faults")) case_faults(i);
    else return 3;
  }
  stat_u("calls_judged", n_calls); stat_u("bytes_judged", n_bytes); stat_u("inits", n_init); stat_u("zero_length", n_zero); stat_u("partial_block", n_partial);
  stat_u("deep_carry", n_carry); stat_u("refused", n_refused); stat_u("granted", n_ok); stat_u("kem_ops", n_kem); stat_u("faults_injected", n_fault);
  stat_u("cipher_contexts", n_ctx); stat_u("long_requests", n_long); stat_u("lane_generators", n_extra); stat_u("long_histories", n_long_hist);
  note_stats();
  printf("DONE %s\n", n_viol ? "viol" : "ok");
  return n_viol ? 1 : 0;
}
