/* Memory monitor: every buffer handed to the KEM is exactly as long as the API promises.
 * Built two ways: with -DHEAP under ASan+UBSan (exact malloc blocks, all alignments), and
 * without sanitizer on guard pages, inputs mapped read-only, canaries around every buffer.
 *   mem_mon SEED FIRST COUNT */
#define NO_MOVE
#include "hcore.h"

static wrng R;
static unsigned long long n_ops[3], n_place[3], n_cmp, n_align[64], n_tamper, n_hostile;
static uint8_t s_pk[BPK], s_sk[BSK], s_ct[BCT], s_ss[32 * LANES];

typedef struct { uint8_t *p; size_t n; uint8_t *base; int in; const uint8_t *src; const char *name; } slot;
static gbuf G[3];

static void slot_make(slot *s, int idx, const char *name, size_t n, const uint8_t *src)
{
  s->n = n; s->in = src != NULL; s->src = src; s->name = name;
  size_t off = w_below(&R, 3) ? w_below(&R, 64) : 0;
#ifdef HEAP
  (void)idx;
  s->base = malloc(n + off); s->p = s->base + off; n_place[off ? 1 : 0]++;
  if (!src) memset(s->p, (int)w_u64(&R), n);
#else
  int where = (int)w_below(&R, 3);
  s->p = g_place(&G[idx], n, where, off); n_place[where]++; s->base = NULL;
  if (!src) memset(s->p, (int)w_u64(&R), n);
#endif
  n_align[(uintptr_t)s->p & 63]++;
  if (src) {
    memcpy(s->p, src, n);
#ifndef HEAP
    g_readonly(&G[idx]);
#endif
  }
}
static void slot_check(slot *s, int idx)
{
  if (s->in) {
    n_cmp++;
    int d = diff_at(s->p, s->src, s->n);
    if (d >= 0) { viol_begin("input-modified"); printf(" buffer=%s offset=%d", s->name, d); viol_done(); }
  }
#ifdef HEAP
  (void)idx;
#else
  long k = g_check(&G[idx]); n_cmp++;
  if (k != -1000000) { viol_begin("write-outside-buffer"); printf(" buffer=%s size=%zu offset=%ld", s->name, s->n, k); viol_done(); }
#endif
}
static void slot_free(slot *s)
{
#ifdef HEAP
  free(s->base);
#else
  (void)s;
#endif
}
static void want(const char *key, const uint8_t *got, const uint8_t *w, size_t n)
{
  n_cmp++;
  int d = diff_at(got, w, n);
  if (d >= 0) { viol_begin(key); printf(" offset=%d of %zu", d, n); hexs(stdout, "got", got + d, n - d < 16 ? n - d : 16); hexs(stdout, "want", w + d, n - d < 16 ? n - d : 16); viol_done(); }
}

static void one_case(void)
{
  uint8_t rk[96 * LANES], re[32 * LANES];
  slot a, b, c;
  w_bytes(&R, rk, sizeof rk); w_bytes(&R, re, sizeof re);
  /* keypair */
  cur_what = "keypair";
  slot_make(&a, 0, "pk", PKN, NULL); slot_make(&b, 1, "sk", SKN, NULL);
  rb_script(rk, sizeof rk);
  crypto_kem_keypair(a.p, b.p); n_ops[0]++;
  rb_script(rk, sizeof rk); crypto_kem_keypair(s_pk, s_sk);   /* the same call in ordinary buffers */
  want("placement-changes-keypair-pk", a.p, s_pk, PKN); want("placement-changes-keypair-sk", b.p, s_sk, SKN);
  slot_check(&a, 0); slot_check(&b, 1); slot_free(&a); slot_free(&b);
  /* enc */
  cur_what = "enc";
  if (w_below(&R, 4) == 0) { w_bytes(&R, s_pk, PKN); n_hostile++; }
  slot_make(&a, 0, "ct", CTN, NULL); slot_make(&b, 1, "ss", SSN, NULL); slot_make(&c, 2, "pk", PKN, s_pk);
  rb_script(re, sizeof re);
  crypto_kem_enc(a.p, b.p, c.p); n_ops[1]++;
  rb_script(re, sizeof re); crypto_kem_enc(s_ct, s_ss, s_pk);
  want("placement-changes-enc-ct", a.p, s_ct, CTN); want("placement-changes-enc-ss", b.p, s_ss, SSN);
  slot_check(&a, 0); slot_check(&b, 1); slot_check(&c, 2); slot_free(&a); slot_free(&b); slot_free(&c);
  /* dec: honest, tampered, arbitrary */
  for (int k = 0; k < 3; k++) {
    cur_what = k == 0 ? "dec-honest" : k == 1 ? "dec-tampered" : "dec-arbitrary";
    if (k == 1) { for (int l = 0; l < LANES; l++) s_ct[l * P.ct + w_below(&R, P.ct)] ^= (uint8_t)(1u << w_below(&R, 8)); n_tamper++; }
    if (k == 2) { w_shape(&R, s_ct, CTN); w_shape(&R, s_sk, SKN); n_hostile++; }
    slot_make(&a, 0, "ss", SSN, NULL); slot_make(&b, 1, "ct", CTN, s_ct); slot_make(&c, 2, "sk", SKN, s_sk);
    crypto_kem_dec(a.p, b.p, c.p); n_ops[2]++;
    crypto_kem_dec(s_ss, s_ct, s_sk);
    want("placement-changes-dec-ss", a.p, s_ss, SSN);
    slot_check(&a, 0); slot_check(&b, 1); slot_check(&c, 2); slot_free(&a); slot_free(&b); slot_free(&c);
  }
}
int main(int argc, char **argv)
{
  if (argc < 4) return 3;
  unsigned long long seed = strtoull(argv[1], 0, 0), first = strtoull(argv[2], 0, 0), count = strtoull(argv[3], 0, 0);
  m_params(&P, CFG_L, CFG_U, CFG_90S); m_selfcheck();
  for (int i = 0; i < 3; i++) g_alloc(&G[i], BSK);
#ifdef HEAP
  install_handlers(0);
#else
  install_handlers(1);
#endif
  for (unsigned long long i = first; i < first + count; i++) { cur_case = i; w_seed(&R, seed, i); watchdog_arm(); one_case(); }
  stat_u("keypairs", n_ops[0]); stat_u("encs", n_ops[1]); stat_u("decs", n_ops[2]); stat_u("comparisons", n_cmp);
  stat_u("placed_end_guard", n_place[0]); stat_u("placed_start_guard", n_place[1]); stat_u("placed_inside", n_place[2]);
  int k = 0; for (int i = 0; i < 64; i++) k += n_align[i] > 0;
  stat_u("distinct_alignments_mod64", k); stat_u("tampered", n_tamper); stat_u("arbitrary_inputs", n_hostile);
  note_stats();
  printf("DONE %s\n", n_viol ? "viol" : "ok");
  return n_viol ? 1 : 0;
}
