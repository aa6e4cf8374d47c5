/* Shared harness core: scripted randomness, guarded buffers, reporting, watchdog. */
#ifndef HCORE_H
#define HCORE_H
#define _GNU_SOURCE
#include "model.h"
#include <errno.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>

int crypto_kem_keypair(unsigned char *pk, unsigned char *sk);
int crypto_kem_enc(unsigned char *ct, unsigned char *ss, const unsigned char *pk);
int crypto_kem_dec(unsigned char *ss, const unsigned char *ct, const unsigned char *sk);

static mparams P;
#ifndef CFG_OLD
#define CFG_OLD 0
#endif
#define m_params(p, l, u, n) (m_params(p, l, u, n), (void)((p)->old = CFG_OLD))
#define PKN ((size_t)P.pk * LANES)
#define SKN ((size_t)P.sk * LANES)
#define CTN ((size_t)P.ct * LANES)
#define SSN ((size_t)32 * LANES)
#define BPK (MAX_PK * LANES)
#define BSK (MAX_SK * LANES)
#define BCT (MAX_CT * LANES)

/* ---------- reporting ---------- */
static const char *cur_what = "start";      /* what was running, for crash reports */
static unsigned long long cur_case;
/* the project's own programs bring the cycle counter with them */
__attribute__((weak)) long long cpucycles(void) { return 0; }

static void hexs(FILE *f, const char *name, const uint8_t *p, size_t n)
{
  fprintf(f, " %s=", name);
  for (size_t i = 0; i < n; i++) fprintf(f, "%02x", p[i]);
}
/* Every violation: one VIOL line with a key (what kind) and enough data to replay. */
/* Memory-safety runs (MEMORY_ONLY) do not judge values: other properties do that. */
#ifndef MEMORY_ONLY
#define MEMORY_ONLY 0
#endif
static int viol_muted, mem_only = MEMORY_ONLY;
static void viol_begin(const char *key)
{
  static const char *const mem[] = {"modified", "outside", "wrote", "placement", "fault", "undefined", "uninitialised", "hang", "crash"};
  viol_muted = mem_only;
  for (unsigned i = 0; i < sizeof mem / sizeof *mem; i++) if (strstr(key, mem[i])) viol_muted = 0;
  if (viol_muted) { printf("\nNOT-JUDGED key=%s", key); return; }
  printf("VIOL key=%s cfg=%s case=%llu op=%s", key, CFG_ID, cur_case, cur_what);
}
static void viol_end(void) { printf("\n"); fflush(stdout); }
static int n_viol;
#define MAX_VIOL 5
static void viol_done(void) { viol_end(); if (viol_muted) return; if (++n_viol >= MAX_VIOL) { printf("STOP too many violations\n"); fflush(stdout); _exit(1); } }

static void stat_u(const char *k, unsigned long long v) { printf("STAT %s %llu\n", k, v); }

/* ---------- what was actually exercised: a set of distinct monitored inputs ---------- */
static uint64_t *note_tab; static size_t note_cap, note_n; static unsigned long long note_all; static int note_off;
static uint64_t note_hash(uint64_t h, const uint8_t *p, size_t n)
{
  uint64_t w;
  while (n >= 8) { memcpy(&w, p, 8); h = (h ^ w) * 0x9e3779b97f4a7c15ull; h ^= h >> 29; p += 8; n -= 8; }
  w = 0; memcpy(&w, p, n); h = (h ^ w ^ ((uint64_t)n << 56)) * 0xbf58476d1ce4e5b9ull; return h ^ (h >> 32);
}
static void note_put(uint64_t h)
{
  if (!h) h = 1;
  if (2 * (note_n + 1) > note_cap) {
    size_t oc = note_cap; uint64_t *ot = note_tab;
    note_cap = oc ? 2 * oc : 4096; note_tab = calloc(note_cap, 8); note_n = 0;
    for (size_t i = 0; i < oc; i++) if (ot[i]) { size_t j = ot[i] & (note_cap - 1); while (note_tab[j]) j = (j + 1) & (note_cap - 1); note_tab[j] = ot[i]; note_n++; }
    free(ot);
  }
  size_t j = h & (note_cap - 1);
  while (note_tab[j] && note_tab[j] != h) j = (j + 1) & (note_cap - 1);
  if (!note_tab[j]) { note_tab[j] = h; note_n++; }
}
/* op on inputs a and b */
static void note(const char *op, const uint8_t *a, size_t an, const uint8_t *b, size_t bn)
{
  if (note_off) return;
  uint64_t h = note_hash(0x1234567, (const uint8_t *)op, strlen(op));
  if (an) h = note_hash(h, a, an);
  if (bn) h = note_hash(h, b, bn);
  note_put(h);
  if (note_all++ < 3 || (note_all & (note_all - 1)) == 0) {
    if (note_all > 40000) return;
    printf("SAMPLE cfg=%s case=%llu op=%s", CFG_ID, cur_case, op);
    if (an) { printf(" in1[%zu]=", an); for (size_t i = 0; i < an && i < 24; i++) printf("%02x", a[i]); }
    if (bn) { printf(" in2[%zu]=", bn); for (size_t i = 0; i < bn && i < 24; i++) printf("%02x", b[i]); }
    printf("\n");
  }
}
static unsigned long long n_moved, moved_at[64];
static void note_stats(void)
{
  int k = 0; for (int i = 0; i < 64; i++) k += moved_at[i] > 0;
  printf("STAT monitored_calls %llu\nSTAT distinct_inputs %zu\n", note_all, note_n);
  if (n_moved) printf("STAT buffers_moved %llu\nSTAT buffer_alignments_mod64 %d\n", n_moved, k);
}

/* ---------- watchdog: CPU time of one case, not wall clock ---------- */
static void on_vtalrm(int s)
{
  (void)s;
  char b[256]; int n = snprintf(b, sizeof b, "\nVIOL key=hang cfg=%s case=%llu op=%s\n", CFG_ID, cur_case, cur_what);
  if (write(1, b, (size_t)n) < 0) {}
  _exit(1);
}
static int wd_secs = 60;
static void watchdog_arm(void)
{
  struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = wd_secs;
  setitimer(ITIMER_PROF, &it, NULL);
}
static void on_crash(int sig, siginfo_t *si, void *ctx)
{
  (void)ctx;
  char b[256]; int n = snprintf(b, sizeof b, "\nVIOL key=crash-signal-%d cfg=%s case=%llu op=%s addr=%p\n", sig, CFG_ID, cur_case, cur_what, si ? si->si_addr : NULL);
  if (write(1, b, (size_t)n) < 0) {}
  _exit(1);
}
static void install_handlers(int crash)
{
  signal(SIGPROF, on_vtalrm);
  if (crash) {
    static uint8_t alt[65536];
    stack_t ss = {.ss_sp = alt, .ss_size = sizeof alt};
    sigaltstack(&ss, NULL);
    struct sigaction sa; memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_crash; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    sigaction(SIGSEGV, &sa, NULL); sigaction(SIGBUS, &sa, NULL); sigaction(SIGILL, &sa, NULL);
    sigaction(SIGFPE, &sa, NULL); sigaction(SIGABRT, &sa, NULL);
  }
  watchdog_arm();
}

/* ---------- scripted randomness (linker --wrap) ---------- */
#ifndef NO_RB_WRAP
static __thread const uint8_t *rb_buf;
static __thread size_t rb_len, rb_pos;       /* bytes handed out so far (may exceed rb_len) */
static __thread unsigned rb_calls;
static __thread size_t rb_max_call;
static unsigned char rb_real_mode;           /* hand over to the real generator */
int __real_randombytes(unsigned char *x, unsigned long long n);
#ifndef RB_HOOK
#define RB_HOOK(x, n)
#endif
int __wrap_randombytes(unsigned char *x, unsigned long long n)
{
  rb_calls++;
  if (n > rb_max_call) rb_max_call = n;
  if (rb_real_mode) { rb_pos += n; return __real_randombytes(x, n); }
  for (unsigned long long i = 0; i < n; i++) {
    size_t p = rb_pos + i;
    x[i] = p < rb_len ? rb_buf[p] : (uint8_t)(0xa5 ^ p);
  }
  RB_HOOK(x, n);
  rb_pos += n;
  return 0;
}
int __wrap_randombytes0(unsigned char *x, unsigned long long n) { return __wrap_randombytes(x, n); }
int __wrap_randombytes1(unsigned char *x, unsigned long long n) { return __wrap_randombytes(x, n); }
int __wrap_randombytes2(unsigned char *x, unsigned long long n) { return __wrap_randombytes(x, n); }
int __wrap_randombytes3(unsigned char *x, unsigned long long n) { return __wrap_randombytes(x, n); }
static void rb_script(const uint8_t *b, size_t n) { rb_buf = b; rb_len = n; rb_pos = 0; rb_calls = 0; rb_max_call = 0; }
#endif

/* every call into the KEM is recorded by its inputs */
#ifndef NO_RB_WRAP
#ifndef NO_NOTE
/* half the calls get the caller's buffers, half get copies at offsets of their own: nothing may hang on the alignment */
typedef struct { uint8_t room[BSK + 128] __attribute__((aligned(64))); uint8_t *p; size_t n; uint8_t *home; } moved;
static uint64_t move_turn, move_case = ~0ull;
static int move_now(void)                    /* depends on the case and the number of the call within it */
{
#ifdef NO_MOVE
  return 0;
#endif
  if (move_case != (uint64_t)cur_case) { move_case = (uint64_t)cur_case; move_turn = move_case * 0x9e3779b97f4a7c15ULL; }
  move_turn = move_turn * 6364136223846793005ULL + 1442695040888963407ULL;
  return (int)(move_turn >> 63);
}
static uint8_t *move_in(moved *m, int k, const uint8_t *p, size_t n)
{
  unsigned off = (unsigned)(move_turn >> (20 + 7 * k)) & 63;
  m->p = m->room + off; m->n = n; m->home = (uint8_t *)p; memcpy(m->p, p, n); n_moved++; moved_at[off]++;
  return m->p;
}
static void move_back(moved *m) { if (memcmp(m->home, m->p, m->n)) memcpy(m->home, m->p, m->n); }
static moved mv[3];
static int h_keypair(unsigned char *pk, unsigned char *sk)
{
  note("keypair", rb_buf, rb_len, NULL, 0);
  if (!move_now()) return crypto_kem_keypair(pk, sk);
  int rc = crypto_kem_keypair(move_in(&mv[0], 0, pk, PKN), move_in(&mv[1], 1, sk, SKN));
  move_back(&mv[0]); move_back(&mv[1]);
  return rc;
}
static int h_enc(unsigned char *ct, unsigned char *ss, const unsigned char *pk)
{
  note("enc", rb_buf, rb_len, pk, PKN);
  if (!move_now()) return crypto_kem_enc(ct, ss, pk);
  int rc = crypto_kem_enc(move_in(&mv[0], 0, ct, CTN), move_in(&mv[1], 1, ss, SSN), move_in(&mv[2], 2, pk, PKN));
  move_back(&mv[0]); move_back(&mv[1]); move_back(&mv[2]);
  return rc;
}
static int h_dec(unsigned char *ss, const unsigned char *ct, const unsigned char *sk)
{
  note("dec", ct, CTN, sk, SKN);
  if (!move_now()) return crypto_kem_dec(ss, ct, sk);
  int rc = crypto_kem_dec(move_in(&mv[0], 0, ss, SSN), move_in(&mv[1], 1, ct, CTN), move_in(&mv[2], 2, sk, SKN));
  move_back(&mv[0]); move_back(&mv[1]); move_back(&mv[2]);
  return rc;
}
#define crypto_kem_keypair h_keypair
#define crypto_kem_enc h_enc
#define crypto_kem_dec h_dec
#endif
#endif

/* ---------- guarded placement ----------
 * place_out / place_in give a buffer of exactly n bytes whose end (or start) touches an
 * inaccessible page; input pages are read-only while the call runs. */
typedef struct { uint8_t *map, *p; size_t maplen, n, lo, hi; int ro; } gbuf;
static uint8_t canary_at(size_t i) { return (uint8_t)(0xc3 + 29 * i); }
static void g_alloc(gbuf *g, size_t maxn)
{
  size_t pg = 4096, body = (maxn + 2 * pg - 1) / pg * pg + pg;
  g->maplen = body + 2 * pg;
  g->map = mmap(NULL, g->maplen, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (g->map == MAP_FAILED) { perror("mmap"); exit(3); }
  g->lo = pg; g->hi = pg + body; g->p = NULL; g->ro = 0;
  mprotect(g->map + g->lo, body, PROT_READ | PROT_WRITE);
}
/* where: 0 = end touches the upper guard page, 1 = start touches the lower guard page, 2.. = offset inside */
static uint8_t *g_place(gbuf *g, size_t n, int where, size_t off)
{
  if (g->ro) { mprotect(g->map + g->lo, g->hi - g->lo, PROT_READ | PROT_WRITE); g->ro = 0; }
  for (size_t i = g->lo; i < g->hi; i++) g->map[i] = canary_at(i);
  g->n = n;
  if (where == 0) g->p = g->map + g->hi - n;
  else if (where == 1) g->p = g->map + g->lo;
  else g->p = g->map + g->lo + 512 + off;
  return g->p;
}
static void g_readonly(gbuf *g) { mprotect(g->map + g->lo, g->hi - g->lo, PROT_READ); g->ro = 1; }
/* index of the first damaged byte outside the buffer, or -1 */
static long g_check(gbuf *g)
{
  size_t a = (size_t)(g->p - g->map), b = a + g->n;
  for (size_t i = g->lo; i < g->hi; i++) {
    if (i >= a && i < b) continue;
    if (g->map[i] != canary_at(i)) return (long)i - (long)a;
  }
  return -1000000;
}

/* Leave hostile garbage in the stack area the callee will use. */
static void __attribute__((noinline)) pollute_stack(unsigned char v, int mode)
{
  volatile unsigned char a[160 * 1024];
  if (mode == 0) for (size_t i = 0; i < sizeof a; i++) a[i] = v;
  else for (size_t i = 0; i < sizeof a; i++) a[i] = (unsigned char)(i * 131 + v);
  __asm__ volatile("" ::"r"(a) : "memory");
}

static int diff_at(const uint8_t *a, const uint8_t *b, size_t n)
{
  for (size_t i = 0; i < n; i++) if (a[i] != b[i]) return (int)i;
  return -1;
}
#endif
