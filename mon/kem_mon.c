/* KEM-level monitor: drives keypair/enc/dec of one configuration and judges every output.
 *   kem_mon MODE SEED FIRST COUNT [opts]
 * modes: agree spec reject hostile ; each case is a function of (seed, case number) only. */
#include "hcore.h"

static uint8_t pk[BPK], sk[BSK], ct[BCT], ct2[BCT], ss[32 * LANES], ss2[32 * LANES];
static uint8_t mpk[MAX_PK], msk[MAX_SK], mct[MAX_CT], mss[32];
static unsigned long long n_kp, n_enc, n_dec, n_acc, n_rej, n_cmp;
static unsigned long long shape_seen[64];
static wrng R;

static void check_rc(int rc, const char *op)
{
  if (rc == 0) return;
  cur_what = op; viol_begin("return-code"); printf(" rc=%d", rc); viol_done();
}
static void do_kp(uint8_t *rnd)
{
  cur_what = "keypair"; rb_script(rnd, 96 * LANES);
  check_rc(crypto_kem_keypair(pk, sk), "keypair"); n_kp++;
}
static void do_enc(uint8_t *c, uint8_t *s, const uint8_t *p, uint8_t *rnd)
{
  cur_what = "enc"; rb_script(rnd, 32 * LANES);
  check_rc(crypto_kem_enc(c, s, p), "enc"); n_enc++;
}
static void do_dec(uint8_t *s, const uint8_t *c, const uint8_t *k)
{
  cur_what = "dec";
  check_rc(crypto_kem_dec(s, c, k), "dec"); n_dec++;
}
static void rnd_fill(uint8_t *p, size_t n)
{
  /* 32-byte seeds, a third of them of hostile shape */
  for (size_t i = 0; i < n; i += 32) {
    if (w_below(&R, 3) == 0) shape_seen[w_shape(&R, p + i, 32)]++;
    else { w_bytes(&R, p + i, 32); shape_seen[W_NSHAPES]++; }
  }
}
static void bytes_ne(const char *key, int lane, const uint8_t *got, const uint8_t *want, size_t n, const uint8_t *rnd, size_t rn)
{
  n_cmp++;
  int d = diff_at(got, want, n);
  if (d < 0) return;
  viol_begin(key); printf(" lane=%d first_diff=%d", lane, d);
  hexs(stdout, "got", got + d, n - d < 32 ? n - d : 32); hexs(stdout, "want", want + d, n - d < 32 ? n - d : 32);
  if (rnd) hexs(stdout, "rnd", rnd, rn);
  viol_done();
}

/* ---- C01: agreement ---- */
static void case_agree(void)
{
  uint8_t rk[96 * LANES], re[32 * LANES], m[32];
  rnd_fill(rk, sizeof rk);
  do_kp(rk);
  for (int k = 0; k < 3; k++) {
    rnd_fill(re, sizeof re);
    do_enc(ct, ss, pk, re);
    memset(ss2, 0x5a, sizeof ss2);
    do_dec(ss2, ct, sk);
    for (int l = 0; l < LANES; l++) {
      n_cmp++;
      if (memcmp(ss + 32 * l, ss2 + 32 * l, 32)) {
        viol_begin("secrets-differ"); printf(" lane=%d", l);
        hexs(stdout, "rnd_keypair", rk, sizeof rk); hexs(stdout, "rnd_enc", re, sizeof re); viol_done();
      } else n_acc++;
    }
  }
  /* a peer that follows the specification and encapsulates an extreme message */
  for (int l = 0; l < LANES; l++) {
    shape_seen[w_shape(&R, m, 32)]++;
    m_kem_enc_m(&P, ct + l * P.ct, ss + 32 * l, pk + l * P.pk, m);
  }
  do_dec(ss2, ct, sk);
  for (int l = 0; l < LANES; l++) {
    n_cmp++;
    if (memcmp(ss + 32 * l, ss2 + 32 * l, 32)) {
      viol_begin("secret-of-conforming-peer-differs"); printf(" lane=%d", l);
      hexs(stdout, "rnd_keypair", rk, sizeof rk); hexs(stdout, "m_lane3", m, 32); viol_done();
    } else n_acc++;
  }
}

/* ---- C03: byte-exact conformance on honest use ---- */
static void case_spec(void)
{
  uint8_t rk[96 * LANES], re[32 * LANES];
  rnd_fill(rk, sizeof rk); rnd_fill(re, sizeof re);
  do_kp(rk);
  do_enc(ct, ss, pk, re);
  do_dec(ss2, ct, sk);
  for (int l = 0; l < LANES; l++) {
    cur_what = "keypair";
    m_kem_keypair(&P, mpk, msk, rk + 96 * l);
    bytes_ne("public-key", l, pk + l * P.pk, mpk, P.pk, rk, sizeof rk);
    bytes_ne("secret-key", l, sk + l * P.sk, msk, P.sk, rk, sizeof rk);
    cur_what = "enc";
    m_kem_enc(&P, mct, mss, pk + l * P.pk, re + 32 * l);
    bytes_ne("ciphertext", l, ct + l * P.ct, mct, P.ct, re, sizeof re);
    bytes_ne("enc-secret", l, ss + 32 * l, mss, 32, re, sizeof re);
    cur_what = "dec";
    if (m_kem_dec(&P, mss, ct + l * P.ct, sk + l * P.sk)) n_acc++; else n_rej++;
    bytes_ne("dec-secret", l, ss2 + 32 * l, mss, 32, rk, sizeof rk);
  }
}

/* ---- C02: implicit rejection ---- */
static unsigned long long n_benign, n_pos;
static uint8_t honest_ss[32 * LANES];
static unsigned char *pos_seen;              /* bit positions of the ciphertext that were flipped alone */
static void judge_reject(const char *kind, const uint8_t *c, const uint8_t *orig)
{
  uint8_t want[32];
  int same_all = 1;
  do_dec(ss2, c, sk);
  for (int l = 0; l < LANES; l++) {
    const uint8_t *cl = c + l * P.ct;
    int same = orig && memcmp(cl, orig + l * P.ct, P.ct) == 0;
    if (same) {                              /* untouched lane: still the honest secret */
      n_cmp++;
      if (memcmp(ss2 + 32 * l, honest_ss + 32 * l, 32)) {
        viol_begin("untampered-rejected"); printf(" kind=%s lane=%d", kind, l); viol_done();
      }
      n_acc++;
      continue;
    }
    same_all = 0;
    m_reject(&P, want, cl, sk + l * P.sk);
    n_rej++; n_cmp++;
    if (memcmp(ss2 + 32 * l, want, 32)) {
      int acc = memcmp(ss2 + 32 * l, honest_ss + 32 * l, 32) == 0;
      viol_begin(acc ? "tampered-accepted" : "rejection-value");
      printf(" kind=%s lane=%d", kind, l);
      if (orig) { int d = diff_at(cl, orig + l * P.ct, P.ct); printf(" first_changed_byte=%d xor=%02x", d, cl[d] ^ orig[l * P.ct + d]); }
      hexs(stdout, "got", ss2 + 32 * l, 32); hexs(stdout, "want", want, 32);
      hexs(stdout, "ct", cl, P.ct); hexs(stdout, "sk", sk + l * P.sk, P.sk);
      viol_done();
    }
  }
  if (same_all) n_benign++;
}
static unsigned long long kind_seen[32];
static void make_key(void)
{
  uint8_t rk[96 * LANES], re[32 * LANES];
  rnd_fill(rk, sizeof rk); rnd_fill(re, sizeof re);
  do_kp(rk); do_enc(ct, honest_ss, pk, re);
}
static void fresh_or_keep(unsigned every) { if (w_below(&R, every) == 0) make_key(); }
static void case_reject(void)
{
  /* one key per case; a batch of tamperings under it */
  static const char *names[] = {"bitflip", "byte-replace", "two-equal-flips", "plus-minus", "swap-bytes", "many-bytes",
                                "high-bit-only", "low-bit-only", "tail", "head", "random", "constant", "other-key",
                                "stale-coins", "rotate", "poly-part", "other-lane", "stride", "complement", "repeat-byte"};
  uint8_t coins[32], m[32];
  make_key();
  judge_reject("none", ct, ct);
  for (int t = 0; t < 40; t++) {
    int kind = (int)w_below(&R, 20);
    memcpy(ct2, ct, CTN);
    unsigned lanes = LANES == 1 ? 1 : 1 + w_below(&R, 15);
    for (int l = 0; l < LANES; l++) {
      if (!(lanes >> l & 1)) continue;
      uint8_t *c = ct2 + l * P.ct; const uint8_t *o = ct + l * P.ct;
      unsigned n = P.ct, i = w_below(&R, n), j = w_below(&R, n), k;
      uint8_t d = (uint8_t)(1 + w_below(&R, 255));
      switch (kind) {
      case 0: c[i] ^= (uint8_t)(1u << w_below(&R, 8)); break;
      case 1: c[i] ^= d; break;
      case 2: if (i == j) j = (j + 1) % n; c[i] ^= d; c[j] ^= d; break;
      case 3: if (i == j) j = (j + 1) % n; c[i] = (uint8_t)(c[i] + d); c[j] = (uint8_t)(c[j] - d); break;
      case 4: for (k = 0; k < n; k++) { j = (i + k) % n; if (c[j] != c[i]) break; } { uint8_t x = c[i]; c[i] = c[j]; c[j] = x; } break;
      case 5: { static const unsigned cnt[] = {2, 3, 4, 8, 16, 127, 128, 255, 256, 257, 511, 512, 513, 640};
                unsigned q = cnt[w_below(&R, 14)]; for (k = 0; k < q && k < n; k++) c[(i + k) % n] ^= d; break; }
      case 6: for (k = 0; k < n; k++) if (k == i || w_below(&R, 200) == 0) c[k] ^= 0x80; break;
      case 7: for (k = 0; k < n; k++) if (k == i || w_below(&R, 200) == 0) c[k] ^= 0x01; break;
      case 8: k = 1 + w_below(&R, 64); for (; k; k--) c[n - k] ^= (uint8_t)(1 + w_below(&R, 255)); break;
      case 9: k = 1 + w_below(&R, 64); for (; k; k--) c[k - 1] ^= (uint8_t)(1 + w_below(&R, 255)); break;
      case 10: w_bytes(&R, c, n); break;
      case 11: memset(c, (int)w_u64(&R), n); break;
      case 12: { uint8_t r2[96], opk[MAX_PK], osk[MAX_SK], oss[32]; w_bytes(&R, r2, 96); m_kem_keypair(&P, opk, osk, r2);
                 w_bytes(&R, m, 32); m_kem_enc_m(&P, c, oss, opk, m); break; }
      case 13: w_shape(&R, m, 32); w_bytes(&R, coins, 32); m_pke_enc(&P, c, m, coins, pk + l * P.pk); break;
      case 14: k = 1 + w_below(&R, n - 1); for (unsigned q = 0; q < n; q++) c[q] = o[(q + k) % n]; break;
      case 15: { unsigned part = w_below(&R, P.L + 1); uint8_t *q = c + 320 * part; unsigned ln = (int)part == P.L ? (unsigned)P.polyT : 320;
                 if (w_below(&R, 2)) memset(q, (int)w_u64(&R), ln); else w_bytes(&R, q, ln); break; }
      case 16: if (LANES > 1) memcpy(c, ct + ((l + 1 + w_below(&R, LANES - 1)) % LANES) * P.ct, n); else c[n - 1] ^= d; break;
      case 17: { unsigned s = 1u << w_below(&R, 9); for (k = i % s; k < n; k += s) c[k] ^= d; break; }
      case 18: for (k = 0; k < n; k++) c[k] = (uint8_t)~c[k]; break;
      default: k = w_below(&R, n - 1); if (c[k] == c[k + 1]) c[k + 1] ^= d; else c[k + 1] = c[k]; break;
      }
    }
    kind_seen[kind]++;
    judge_reject(names[kind], ct2, ct);
  }
}
/* exhaustive sweep of every single-bit change: case number = block of positions */
static void sweep_bits(unsigned first, unsigned step)
{
  make_key();
  judge_reject("none", ct, ct);
  for (unsigned b = first; b < (unsigned)P.ct * 8; b += step) {
    memcpy(ct2, ct, CTN);
    if (LANES == 1) ct2[b >> 3] ^= (uint8_t)(1u << (b & 7));
    else for (int l = 0; l < LANES; l++) { unsigned q = (b + l * 2203u) % (P.ct * 8); ct2[l * P.ct + (q >> 3)] ^= (uint8_t)(1u << (q & 7)); }
    pos_seen[b] = 1;
    if ((b & 1023) == 0) watchdog_arm();
    judge_reject("single-bit", ct2, ct);
  }
}

/* ---- C04: any bytes as key or ciphertext ---- */
static void hostile_poly(uint8_t *dst, int bits, int n)
{
  uint16_t c[256]; (void)n;
  unsigned q = 1u << bits, v = (unsigned)w_u64(&R) & (q - 1);
  int k = (int)w_below(&R, 12);
  for (int i = 0; i < 256; i++) switch (k) {
    case 0: c[i] = 0; break;
    case 1: c[i] = (uint16_t)(q - 1); break;
    case 2: c[i] = (uint16_t)(q / 2); break;
    case 3: c[i] = (uint16_t)v; break;
    case 4: c[i] = (uint16_t)(i == (int)(v & 255) ? 1 : 0); break;
    case 5: c[i] = (uint16_t)(i & 1 ? q - 1 : 0); break;
    case 6: c[i] = (uint16_t)(w_below(&R, 2) ? q - 1 : q / 2); break;
    case 7: c[i] = (uint16_t)((w_below(&R, 11) - 5) & (q - 1)); break;
    case 8: c[i] = (uint16_t)(q / 2 - 1); break;
    case 9: c[i] = (uint16_t)(1u << w_below(&R, bits)); break;
    case 10: c[i] = (uint16_t)(i < 128 ? q - 1 : 1); break;
    default: c[i] = (uint16_t)(w_u64(&R) & (q - 1)); break;
  }
  m_pack(dst, c, 256, bits);
}
static void hostile_pk(uint8_t *p) { for (int i = 0; i < P.L; i++) hostile_poly(p + 320 * i, 10, 256); if (w_below(&R, 2)) w_shape(&R, p + 320 * P.L, 32); else w_bytes(&R, p + 320 * P.L, 32); }
static void hostile_sk(uint8_t *s)
{
  for (int i = 0; i < P.L; i++) hostile_poly(s + P.polyq * i, P.EQ, 256);
  hostile_pk(s + P.isk);
  if (w_below(&R, 2)) m_H(&P, s + P.isk + P.pk, s + P.isk, P.pk); else w_shape(&R, s + P.isk + P.pk, 32);
  w_shape(&R, s + P.sk - 32, 32);
}
static unsigned long long n_hpk, n_hsk, n_hct;
static void case_hostile(void)
{
  uint8_t re[32 * LANES], m[32], x[32];
  rnd_fill(re, sizeof re);
  /* encapsulation to a public key of arbitrary bytes */
  for (int l = 0; l < LANES; l++) { if (w_below(&R, 4) == 0) w_bytes(&R, pk + l * P.pk, P.pk); else hostile_pk(pk + l * P.pk); n_hpk++; }
  do_enc(ct, ss, pk, re);
  for (int l = 0; l < LANES; l++) {
    m_kem_enc(&P, mct, mss, pk + l * P.pk, re + 32 * l);
    bytes_ne("ciphertext-for-arbitrary-public-key", l, ct + l * P.ct, mct, P.ct, pk + l * P.pk, P.pk);
    bytes_ne("secret-for-arbitrary-public-key", l, ss + 32 * l, mss, 32, pk + l * P.pk, P.pk);
  }
  /* decapsulation of arbitrary bytes under arbitrary and partly damaged secret keys */
  for (int t = 0; t < 3; t++) {
    for (int l = 0; l < LANES; l++) {
      uint8_t *s = sk + l * P.sk, *c = ct + l * P.ct;
      int k = (int)w_below(&R, 6);
      if (k <= 1) hostile_sk(s);
      else if (k == 2) w_bytes(&R, s, P.sk);
      else if (k == 3) { memset(s, 0, P.isk); memset(s + P.isk, 0, 320 * P.L); w_bytes(&R, s + P.isk + 320 * P.L, 32); m_H(&P, s + P.isk + P.pk, s + P.isk, P.pk); w_bytes(&R, s + P.sk - 32, 32); }
      else { uint8_t r[96], p2[MAX_PK]; w_bytes(&R, r, 96); m_kem_keypair(&P, p2, s, r); if (k == 5) s[w_below(&R, P.sk)] ^= (uint8_t)(1u << w_below(&R, 8)); }
      n_hsk++;
      switch (w_below(&R, 5)) {
      case 0: w_bytes(&R, c, P.ct); break;
      case 1: w_shape(&R, c, P.ct); break;
      case 2: for (int i = 0; i < P.L; i++) hostile_poly(c + 320 * i, 10, 256); hostile_poly(c + 320 * P.L, P.ET, 256); break;
      default: w_shape(&R, m, 32); m_kem_enc_m(&P, c, x, s + P.isk, m); break;
      }
      n_hct++;
    }
    do_dec(ss2, ct, sk);
    for (int l = 0; l < LANES; l++) {
      if (m_kem_dec(&P, mss, ct + l * P.ct, sk + l * P.sk)) n_acc++; else n_rej++;
      n_cmp++;
      if (memcmp(mss, ss2 + 32 * l, 32)) {
        viol_begin("dec-of-arbitrary-bytes"); printf(" lane=%d", l); hexs(stdout, "got", ss2 + 32 * l, 32); hexs(stdout, "want", mss, 32);
        hexs(stdout, "ct", ct + l * P.ct, P.ct); hexs(stdout, "sk", sk + l * P.sk, P.sk); viol_done();
      }
    }
  }
}

int main(int argc, char **argv)
{
  if (argc < 5) return 3;
  const char *mode = argv[1];
  unsigned long long seed = strtoull(argv[2], 0, 0), first = strtoull(argv[3], 0, 0), count = strtoull(argv[4], 0, 0);
  unsigned sweeps = argc > 5 ? (unsigned)atoi(argv[5]) : 0;
  m_params(&P, CFG_L, CFG_U, CFG_90S);
  m_selfcheck();
  pos_seen = calloc(1, P.ct * 8);
  install_handlers(1);
  for (unsigned long long i = first; i < first + count; i++) {
    cur_case = i; w_seed(&R, seed, i * 64 + (unsigned)mode[0]); watchdog_arm();
    if (!strcmp(mode, "agree")) case_agree();
    else if (!strcmp(mode, "spec")) case_spec();
    else if (!strcmp(mode, "reject")) case_reject();
    else if (!strcmp(mode, "hostile")) case_hostile();
    else return 3;
  }
  for (unsigned s = 0; s < sweeps; s++) { cur_case = 1000000000ULL + s; w_seed(&R, seed, cur_case); watchdog_arm(); sweep_bits(0, 1); }
  for (int i = 0; i < P.ct * 8; i++) n_pos += pos_seen[i];
  stat_u("keypairs", n_kp); stat_u("encs", n_enc); stat_u("decs", n_dec); stat_u("accepted", n_acc); stat_u("rejected", n_rej);
  stat_u("comparisons", n_cmp); stat_u("bit_positions_flipped", n_pos); stat_u("hostile_pk", n_hpk); stat_u("hostile_sk", n_hsk); stat_u("hostile_ct", n_hct);
  stat_u("ct_bits", (unsigned long long)P.ct * 8);
  int k = 0; for (int i = 0; i <= W_NSHAPES; i++) k += shape_seen[i] > 0; stat_u("seed_shapes", k);
  k = 0; for (int i = 0; i < 20; i++) k += kind_seen[i] > 0; stat_u("tamper_kinds", k);
  note_stats();
  printf("DONE %s\n", n_viol ? "viol" : "ok");
  return n_viol ? 1 : 0;
}
