/* Concurrency monitor: several threads run KEM operations on their own data at the same time.
 *   thr_mon SEED FIRST COUNT THREADS
 * Every thread's outputs are compared with what the specification says for that thread's inputs
 * alone. The TSan build adds happens-before race detection on the same workload. */
#include <sched.h>
#define RB_HOOK(x, n) jitter()
static void jitter(void);
#define NO_NOTE
#include "hcore.h"
#include <pthread.h>
typedef unsigned long long ull;
/* relaxed counters: the bookkeeping must not order the threads, or it would hide races from TSan */
static int inflight[4];                         /* keypair enc dec */
static ull n_ops, n_overlap, n_cmp, n_bad, n_yield;
static ull pair_seen[3][3];
#define INC(x) __atomic_add_fetch(&(x), 1, __ATOMIC_RELAXED)
#define DEC(x) __atomic_sub_fetch(&(x), 1, __ATOMIC_RELAXED)
#define GET(x) __atomic_load_n(&(x), __ATOMIC_RELAXED)
static __thread wrng TR;
static void jitter(void)
{
  uint32_t k = w_below(&TR, 8);
  if (k == 0) { sched_yield(); INC(n_yield); }
  else if (k == 1) { for (volatile int i = 0; i < 2000; i++) {} INC(n_yield); }
  else if (k == 2) { struct timespec t = {0, 20000}; nanosleep(&t, NULL); INC(n_yield); }
}
static void enter(int op)
{
  int any = 0;
  for (int i = 0; i < 3; i++) if (GET(inflight[i]) > 0) { any = 1; INC(pair_seen[op][i]); }
  INC(inflight[op]);
  if (any) INC(n_overlap);
  INC(n_ops);
}
static void leave(int op) { DEC(inflight[op]); }
static pthread_barrier_t bar;
static pthread_mutex_t out = PTHREAD_MUTEX_INITIALIZER;
static ull g_seed, g_first, g_count; static int g_threads;
typedef struct { uint8_t pk[BPK], sk[BSK], ct[BCT], ss[32 * LANES], s2[32 * LANES]; } work_t;

static void cmp(const char *what, int lane, ull c, int tid, const uint8_t *got, const uint8_t *want, size_t n)
{
  INC(n_cmp);
  int d = diff_at(got, want, n);
  if (d < 0) return;
  pthread_mutex_lock(&out);
  printf("VIOL key=concurrent-%s cfg=%s case=%llu op=%s thread=%d lane=%d first_diff=%d\n", what, CFG_ID, c, what, tid, lane, d); fflush(stdout);
  if (INC(n_bad) >= 5) _exit(1);
  pthread_mutex_unlock(&out);
}
#define BATCH 12
typedef struct { uint8_t rk[96 * LANES], re[32 * LANES], pk[BPK], sk[BSK], ct[BCT], ss[32 * LANES], tct[BCT], tss[32 * LANES]; int tampered; } exp_t;
static void *worker(void *arg)
{
  int tid = (int)(intptr_t)arg;
  work_t *w = malloc(sizeof *w);
  exp_t *E = malloc(BATCH * sizeof *E);
  for (ull c0 = g_first; c0 < g_first + g_count; c0 += BATCH) {
    int nb = (int)(g_first + g_count - c0 < BATCH ? g_first + g_count - c0 : BATCH);
    w_seed(&TR, g_seed ^ 0x5555, c0 * 64 + (ull)tid);
    /* phase 1: inputs and what the specification says, no code under test */
    for (int k = 0; k < nb; k++) {
      exp_t *e = &E[k]; wrng R; w_seed(&R, g_seed, (c0 + (ull)k) * 64 + (ull)tid);
      w_bytes(&R, e->rk, sizeof e->rk); w_bytes(&R, e->re, sizeof e->re); e->tampered = w_below(&R, 3) == 0;
      for (int l = 0; l < LANES; l++) {
        m_kem_keypair(&P, e->pk + l * P.pk, e->sk + l * P.sk, e->rk + 96 * l);
        m_kem_enc(&P, e->ct + l * P.ct, e->ss + 32 * l, e->pk + l * P.pk, e->re + 32 * l);
        memcpy(e->tct + l * P.ct, e->ct + l * P.ct, (size_t)P.ct);
        if (e->tampered) e->tct[l * P.ct + (int)w_below(&R, (uint32_t)P.ct)] ^= (uint8_t)(1 + w_below(&R, 255));
        m_kem_dec(&P, e->tss + 32 * l, e->tct + l * P.ct, e->sk + l * P.sk);
      }
    }
    pthread_mutex_lock(&out); for (int k = 0; k < nb; k++) note("keypair+enc+dec", E[k].rk, sizeof E[k].rk, E[k].tct, CTN); pthread_mutex_unlock(&out);
    pthread_barrier_wait(&bar);                  /* phase 2: everyone hammers the implementation */
    for (int k = 0; k < nb; k++) {
      exp_t *e = &E[k]; ull c = c0 + (ull)k;
      /* threads start the triple at different points so that all pairs of operations overlap */
      for (int q = 0; q < 3; q++) {
        int op = (q + tid + k) % 3;
        if (op == 0) {
          rb_script(e->rk, sizeof e->rk); enter(0); crypto_kem_keypair(w->pk, w->sk); leave(0);
          cmp("keypair-pk", 0, c, tid, w->pk, e->pk, PKN); cmp("keypair-sk", 0, c, tid, w->sk, e->sk, SKN);
        } else if (op == 1) {
          rb_script(e->re, sizeof e->re); enter(1); crypto_kem_enc(w->ct, w->ss, e->pk); leave(1);
          cmp("enc-ct", 0, c, tid, w->ct, e->ct, CTN); cmp("enc-ss", 0, c, tid, w->ss, e->ss, SSN);
        } else {
          enter(2); crypto_kem_dec(w->s2, e->tct, e->sk); leave(2);
          cmp("dec-ss", 0, c, tid, w->s2, e->tss, SSN);
        }
        if (w_below(&TR, 16) == 0) jitter();
      }
    }
  }
  free(w); free(E);
  return NULL;
}
int main(int argc, char **argv)
{
  if (argc < 5) return 3;
  g_seed = strtoull(argv[1], 0, 0); g_first = strtoull(argv[2], 0, 0); g_count = strtoull(argv[3], 0, 0); g_threads = atoi(argv[4]);
  m_params(&P, CFG_L, CFG_U, CFG_90S); m_selfcheck();
  wd_secs = 900;
#ifdef NO_CRASH_HANDLER
  install_handlers(0);
#else
  install_handlers(1);
#endif
  pthread_barrier_init(&bar, NULL, (unsigned)g_threads);
  pthread_t t[64];
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 8 << 20);
  cur_what = "threads";
  for (int i = 0; i < g_threads; i++) if (pthread_create(&t[i], &at, worker, (void *)(intptr_t)i)) return 3;
  for (int i = 0; i < g_threads; i++) pthread_join(t[i], NULL);
  ull pairs = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) pairs += pair_seen[i][j] > 0;
  stat_u("ops", n_ops); stat_u("ops_overlapping_another_thread", n_overlap); stat_u("distinct_op_pairs_concurrent", pairs);
  stat_u("comparisons", n_cmp); stat_u("delays_injected", n_yield);
  note_stats();
  printf("DONE %s\n", n_bad ? "viol" : "ok");
  return n_bad ? 1 : 0;
}
