/* Monitor for the Cortex-M implementations: the firmware's own machine code runs in the monitored interpreter (emu.c).
 *   arm_mon FIRMWARE.elf MODE seed first count
 * modes: kem     outputs compared with the specification model: honest, tampered and hostile inputs
 *        safe    memory, alignment and calling convention; uninitialised data (undefined bits are shadowed)
 *        secret  secrets are shadowed: no branch, address or divide may depend on them
 *        mul     the polynomial multiplication on its own
 *        kern    (Cortex-M4, striding) the assembly kernels on their own
 *        pair    functions f<k> against their originals o_f<k> (no firmware)
 *        hash    (Cortex-M0) the FIPS 202 functions on their own */
#define NO_RB_WRAP
#define LANES 1
#include "emu.h"
#include "hcore.h"

static emu E;
static wrng R;
static int M0;
static unsigned long long n_rej, n_acc, n_tamper, n_hostile, n_events;

/* ---- guest buffers, each between unmapped bytes ---- */
#define HEAP 0x00200000u
#define HEAP_END 0x00280000u
#define STK_LO 0x00300000u
#define STK_HI 0x00320000u
static uint32_t heap_at;
static void heap_reset(void)
{
	memset(E.perm + HEAP, 0, HEAP_END - HEAP);
	memset(E.sh + HEAP, 0, HEAP_END - HEAP);
	heap_at = HEAP + 64;
}
static uint32_t gput(const uint8_t *p, size_t n, int perm, int align)
{
	uint32_t a = ((heap_at + 7) & ~7u) + (uint32_t)align;
	for (size_t i = 0; i < n; i++)
		E.mem[a + i] = p ? p[i] : (uint8_t)w_u64(&R);
	emu_map(&E, a, (uint32_t)n, perm);
	heap_at = a + (uint32_t)n + 64;
	return a;
}

/* ---- services ---- */
static const uint8_t *rb_buf;
static size_t rb_len, rb_pos, rb_secret_from = (size_t)-1;
static int span_ok(emu *e, uint32_t a, uint64_t n, int p, const char *what)
{
	if ((uint64_t)a + n > EMU_MEM) {
		emu_fail(e, EMU_FAULT, "%s: buffer at an unmapped address", what);
		return 0;
	}
	for (uint64_t i = 0; i < n; i++)
		if (!(e->perm[a + i] & p) || (a + i >= e->stack_lo && a + i < e->r[13])) {
			emu_fail(e, EMU_FAULT, "%s: buffer outside the memory it may touch", what);
			return 0;
		}
	return 1;
}
static int shadowed(emu *e, uint32_t a, uint64_t n)
{
	for (uint64_t i = 0; i < n; i++)
		if (e->sh[a + i])
			return 1;
	return 0;
}
static void inc_absorb(emu *e, unsigned rate)
{
	uint32_t c = e->r[0], in = e->r[1], n = e->r[2];
	uint64_t A[26];
	if (!span_ok(e, c, sizeof A, P_R | P_W, "absorb") || !span_ok(e, in, n, P_R, "absorb"))
		return;
	memcpy(A, e->mem + c, sizeof A);
	for (uint32_t i = 0; i < n; i++) {
		A[A[25] / 8] ^= (uint64_t)e->mem[in + i] << (8 * (A[25] % 8));
		if (++A[25] == rate) { m_keccak_f(A); A[25] = 0; }
	}
	int s = shadowed(e, c, 200) || shadowed(e, in, n);
	memcpy(e->mem + c, A, sizeof A);
	memset(e->sh + c, s ? 0xff : 0, 200);
}
static void inc_finalize(emu *e, unsigned rate)
{
	uint32_t c = e->r[0];
	uint64_t A[26];
	if (!span_ok(e, c, sizeof A, P_R | P_W, "finalize"))
		return;
	memcpy(A, e->mem + c, sizeof A);
	A[A[25] / 8] ^= (uint64_t)0x1f << (8 * (A[25] % 8));
	A[(rate - 1) / 8] ^= (uint64_t)0x80 << 56;
	A[25] = 0;
	memcpy(e->mem + c, A, sizeof A);
}
static void inc_squeeze(emu *e, unsigned rate)
{
	uint32_t out = e->r[0], n = e->r[1], c = e->r[2];
	uint64_t A[26];
	if (!span_ok(e, c, sizeof A, P_R | P_W, "squeeze") || !span_ok(e, out, n, P_W, "squeeze"))
		return;
	memcpy(A, e->mem + c, sizeof A);
	int s = shadowed(e, c, 200);
	if (A[25] > rate) {
		emu_fail(e, EMU_FAULT, "squeeze from a context that was never set up");
		return;
	}
	for (uint32_t i = 0; i < n; i++) {
		if (A[25] == 0) { m_keccak_f(A); A[25] = rate; }
		unsigned k = rate - (unsigned)A[25];
		e->mem[out + i] = (uint8_t)(A[k / 8] >> (8 * (k % 8)));
		A[25]--;
	}
	memset(e->sh + out, s ? 0xff : 0, n);
	memcpy(e->mem + c, A, sizeof A);
}
static void hash(emu *e, int kind)
{
	static uint8_t tmp[1 << 16];
	uint32_t out = e->r[0], outlen, in, n;
	if (kind == 2 || kind == 10)
		outlen = e->r[1], in = e->r[2], n = e->r[3];
	else
		outlen = kind == 3 ? 32 : 64, in = e->r[1], n = e->r[2];
	if (outlen > sizeof tmp || !span_ok(e, out, outlen, P_W, "hash") || !span_ok(e, in, n, P_R, "hash")) {
		emu_fail(e, EMU_FAULT, "hash: absurd length");
		return;
	}
	int s = shadowed(e, in, n);
	if (kind == 2) m_shake128(tmp, outlen, e->mem + in, n);
	else if (kind == 10) m_shake256(tmp, outlen, e->mem + in, n);
	else if (kind == 3) m_sha3_256(tmp, e->mem + in, n);
	else m_sha3_512(tmp, e->mem + in, n);
	memcpy(e->mem + out, tmp, outlen);
	memset(e->sh + out, s ? 0xff : 0, outlen);
}
static int svc(emu *e, unsigned n)
{
	switch (n) {
	case 1: case 20: { /* M0's prototype has a 64-bit length (r2, r3) */
		uint32_t a = e->r[0];
		uint64_t len = n == 1 ? e->r[1] : ((uint64_t)e->r[3] << 32 | e->r[2]);
		if (!span_ok(e, a, len, P_W, "randombytes"))
			return 1;
		for (uint64_t i = 0; i < len; i++, rb_pos++) {
			e->mem[a + i] = rb_pos < rb_len ? rb_buf[rb_pos] : (uint8_t)(0xa5 ^ rb_pos);
			e->sh[a + i] = rb_pos >= rb_secret_from ? 0xff : 0;
		}
		e->r[0] = 0;
		return 1;
	}
	case 2: case 3: case 4: case 10: hash(e, (int)n); return 1;
	case 5:
		if (span_ok(e, e->r[0], 208, P_W, "init")) { memset(e->mem + e->r[0], 0, 208); memset(e->sh + e->r[0], 0, 208); }
		return 1;
	case 6: inc_absorb(e, 168); return 1;
	case 16: inc_absorb(e, 136); return 1;
	case 7: inc_finalize(e, 168); return 1;
	case 17: inc_finalize(e, 136); return 1;
	case 8: inc_squeeze(e, 168); return 1;
	case 18: inc_squeeze(e, 136); return 1;
	case 9: return 1;
	case 11:
		if (span_ok(e, e->r[0], 208, P_W, "clone") && span_ok(e, e->r[1], 208, P_R, "clone")) {
			memmove(e->mem + e->r[0], e->mem + e->r[1], 208);
			memmove(e->sh + e->r[0], e->sh + e->r[1], 208);
		}
		return 1;
	}
	return 0;
}

/* ---- calls ---- */
static int align_mode;                 /* buffers at odd addresses */
static int shadow_undef;               /* undefined data is shadowed */
static uint32_t f_kp, f_enc, f_dec;
static int al(void) { return align_mode ? (int)w_below(&R, 8) : 0; }
static uint32_t data_lo, data_hi;
static uint64_t max_stack;

static void prep(void)
{
	for (uint32_t i = STK_LO; i < STK_HI; i += 8) {
		uint64_t x = w_u64(&R);
		memcpy(E.mem + i, &x, 8);
	}
	memset(E.sh + STK_LO, shadow_undef ? 0xff : 0, STK_HI - STK_LO);
	E.dead_stack = shadow_undef;
	E.min_sp = STK_HI;
}
static int bad(const char *what)
{
	switch (E.stop) {
	case EMU_OK: return 0;
	case EMU_UNKNOWN:
		printf("INCONCLUSIVE %s at %s\n", E.why, emu_where(E.stop_pc));
		fflush(stdout);
		_exit(4);
	case EMU_FAULT: viol_begin("machine-fault"); break;
	case EMU_SHADOW: viol_begin(shadow_undef ? "depends-on-uninitialised-data" : "secret-dependent"); break;
	case EMU_LIMIT: viol_begin("hang"); break;
	}
	printf(" what=\"%s\" in=%s pc=0x%x call=%s", E.why, emu_where(E.stop_pc), E.stop_pc, what);
	viol_done();
	return 1;
}
static int call(const char *what, uint32_t fn, const uint32_t *a, int n, uint32_t *ret)
{
	prep();
	cur_what = what;
	emu_call(&E, fn, a, n, ret);
	if (STK_HI - E.min_sp > max_stack)
		max_stack = STK_HI - E.min_sp;
	return bad(what);
}
static int take(uint8_t *out, uint32_t a, size_t n, const char *key)
{
	memcpy(out, E.mem + a, n);
	if (shadow_undef && shadowed(&E, a, n)) {
		size_t i = 0;
		while (!E.sh[a + i]) i++;
		viol_begin("undefined-output");
		printf(" what=%s at=%zu", key, i);
		viol_done();
		return 1;
	}
	return 0;
}
static void mark_out(uint32_t a, size_t n) { if (shadow_undef) memset(E.sh + a, 0xff, n); }
static int secret_mode;

static uint8_t pk[MAX_PK], sk[MAX_SK], ct[MAX_CT], ss[32], ss2[32], mpk[MAX_PK], msk[MAX_SK], mct[MAX_CT], mss[32];
static int retcode(uint32_t r) { if (r) { viol_begin("nonzero-status"); printf(" status=%u", r); viol_done(); return 1; } return 0; }

static int g_keypair(const uint8_t rnd[96])
{
	uint32_t a[2], r;
	note("keypair", rnd, 96, NULL, 0);
	heap_reset();
	a[0] = gput(NULL, P.pk, P_R | P_W, al());
	a[1] = gput(NULL, P.sk, P_R | P_W, al());
	mark_out(a[0], P.pk);
	mark_out(a[1], P.sk);
	rb_buf = rnd, rb_len = 96, rb_pos = 0, rb_secret_from = secret_mode ? 32 : (size_t)-1;
	if (call("keypair", f_kp, a, 2, &r)) return 1;
	return take(pk, a[0], P.pk, "pk") || take(sk, a[1], P.sk, "sk") || retcode(r);
}
static int g_enc(uint8_t *c, uint8_t *s, const uint8_t *p, const uint8_t rnd[32])
{
	uint32_t a[3], r;
	note("enc", rnd, 32, p, P.pk);
	heap_reset();
	a[2] = gput(p, P.pk, P_R, al());
	a[0] = gput(NULL, P.ct, P_R | P_W, al());
	a[1] = gput(NULL, 32, P_R | P_W, al());
	mark_out(a[0], P.ct);
	mark_out(a[1], 32);
	rb_buf = rnd, rb_len = 32, rb_pos = 0, rb_secret_from = secret_mode ? 0 : (size_t)-1;
	if (call("enc", f_enc, a, 3, &r)) return 1;
	return take(c, a[0], P.ct, "ct") || take(s, a[1], 32, "ss") || retcode(r);
}
static int g_dec(uint8_t *s, const uint8_t *c, const uint8_t *k)
{
	uint32_t a[3], r;
	note("dec", c, P.ct, k, P.sk);
	heap_reset();
	a[1] = gput(c, P.ct, P_R, al());
	a[2] = gput(k, P.sk, P_R, al());
	a[0] = gput(NULL, 32, P_R | P_W, al());
	mark_out(a[0], 32);
	if (secret_mode) {
		memset(E.sh + a[2], 0xff, P.isk);
		memset(E.sh + a[2] + P.sk - 32, 0xff, 32);
	}
	if (call("dec", f_dec, a, 3, &r)) return 1;
	return take(s, a[0], 32, "ss") || retcode(r);
}

static void cmp(const char *key, const uint8_t *got, const uint8_t *want, size_t n)
{
	int i = diff_at(got, want, n);
	if (i >= 0) {
		viol_begin(key);
		printf(" at=%d got=%02x want=%02x", i, got[i], want[i]);
		viol_done();
	}
}

static void rnd_fill(uint8_t *p, size_t n)
{
	if (w_below(&R, 3) == 0)
		for (size_t i = 0; i < n; i += 32) w_shape(&R, p + i, 32);
	else
		w_bytes(&R, p, n);
}

static void tamper(uint8_t *c)
{
	uint32_t n = (uint32_t)P.ct, i, k;
	switch (w_below(&R, 9)) {
	case 0: c[w_below(&R, n)] ^= (uint8_t)(1u << w_below(&R, 8)); break;
	case 1: c[n - 1 - w_below(&R, 4)] ^= (uint8_t)(1u << w_below(&R, 8)); break;
	case 2: c[w_below(&R, 4)] ^= (uint8_t)(1u << w_below(&R, 8)); break;
	case 3: i = w_below(&R, n); k = w_below(&R, n); { uint8_t t = c[i]; c[i] = c[k]; c[k] = t; } break;
	case 4: i = w_below(&R, n); k = w_below(&R, n); c[i] ^= 0x80; c[k] ^= 0x80; break;  /* sums and xors cancel */
	case 5: w_bytes(&R, c + 320 * P.L, n - 320 * P.L); break;
	case 6: w_shape(&R, c, n); break;
	case 7: for (i = 0; i < n; i++) c[i] = (uint8_t)~c[i]; break;
	case 8: i = 320 * w_below(&R, P.L) + w_below(&R, 320); c[i] ^= (uint8_t)(1 + w_below(&R, 255)); break;
	}
}

static void case_kem(void)
{
	uint8_t rk[96], re[32], m[32], bad_ct[MAX_CT], hpk[MAX_PK], hsk[MAX_SK];
	align_mode = (int)(cur_case & 1);
	rnd_fill(rk, 96);
	rnd_fill(re, 32);
	if (g_keypair(rk)) return;
	m_kem_keypair(&P, mpk, msk, rk);
	cmp("public-key", pk, mpk, P.pk);
	cmp("secret-key", sk, msk, P.sk);
	if (g_enc(ct, ss, pk, re)) return;
	m_kem_enc(&P, mct, mss, pk, re);
	cmp("ciphertext", ct, mct, P.ct);
	cmp("encapsulated-secret", ss, mss, 32);
	if (g_dec(ss2, ct, sk)) return;
	if (memcmp(ss, ss2, 32)) { viol_begin("secrets-differ"); hexs(stdout, "rnd_keypair", rk, 96); hexs(stdout, "rnd_enc", re, 32); viol_done(); } else n_acc++;
	for (int i = 0; i < 3; i++) {
		memcpy(bad_ct, ct, P.ct);
		do tamper(bad_ct); while (!memcmp(bad_ct, ct, P.ct));
		if (g_dec(ss2, bad_ct, sk)) return;
		n_tamper++;
		if (!m_kem_dec(&P, mss, bad_ct, sk)) n_rej++;
		cmp("tampered-ciphertext", ss2, mss, 32);
	}
	/* a conforming peer with an extreme message */
	w_shape(&R, m, 32);
	m_kem_enc_m(&P, mct, mss, pk, m);
	if (g_dec(ss2, mct, sk)) return;
	cmp("secret-of-conforming-peer", ss2, mss, 32);
	/* hostile inputs */
	w_shape(&R, hpk, P.pk);
	if (w_below(&R, 2)) memcpy(hpk + 320 * P.L, pk + 320 * P.L, 32);
	if (g_enc(ct, ss, hpk, re)) return;
	m_kem_enc(&P, mct, mss, hpk, re);
	cmp("hostile-key-ciphertext", ct, mct, P.ct);
	cmp("hostile-key-secret", ss, mss, 32);
	if (w_below(&R, 2)) w_bytes(&R, hsk, P.sk); else { memcpy(hsk, sk, P.sk); w_shape(&R, hsk, P.isk); }
	w_shape(&R, bad_ct, P.ct);
	if (g_dec(ss2, bad_ct, hsk)) return;
	m_kem_dec(&P, mss, bad_ct, hsk);
	cmp("hostile-secret-key", ss2, mss, 32);
	n_hostile += 2;
}

static void case_flow(int hostile)
{
	uint8_t rk[96], re[32], hsk[MAX_SK];
	rnd_fill(rk, 96);
	rnd_fill(re, 32);
	if (g_keypair(rk)) return;
	if (g_enc(ct, ss, pk, re)) return;
	if (g_dec(ss2, ct, sk)) return;
	do { memcpy(mct, ct, P.ct); tamper(mct); } while (!memcmp(mct, ct, P.ct));
	n_tamper++;
	if (g_dec(ss2, mct, sk)) return;
	if (!hostile) return;
	w_shape(&R, mpk, P.pk);
	if (g_enc(ct, ss, mpk, re)) return;
	w_shape(&R, hsk, P.sk);
	w_shape(&R, mct, P.ct);
	if (g_dec(ss2, mct, hsk)) return;
	n_hostile += 2;
}

/* poly_mul(a, b, res) and poly_mul_acc: res (+)= a*b in Z_{2^13}[x]/(x^256+1), whatever a and b */
static void case_mul(uint32_t fn, int acc, const char *name)
{
	static uint16_t a[256], b[256], r[256], o[256];
	uint32_t arg[3];
	int small = (int)w_below(&R, 3);
	for (int i = 0; i < 256; i++) {
		a[i] = (uint16_t)(small == 0 ? (w_below(&R, 11) - 5) & 0xffff : small == 1 ? w_u64(&R) & 8191 : (w_below(&R, 2) ? 8191 : 0));
		b[i] = (uint16_t)(w_below(&R, 6) == 0 ? 8191 : w_u64(&R) & 8191);
		r[i] = o[i] = (uint16_t)(w_u64(&R) & 8191);
	}
	note(name, (uint8_t *)a, 512, (uint8_t *)b, 512);
	heap_reset();
	arg[0] = gput((uint8_t *)a, 512, P_R | P_W, 0);
	arg[1] = gput((uint8_t *)b, 512, P_R | P_W, 0);
	arg[2] = gput((uint8_t *)r, 512, P_R | P_W, 0);
	if (call(name, fn, arg, 3, NULL)) return;
	if (!acc) memset(o, 0, sizeof o);
	m_polymul_acc(o, a, b);
	memcpy(r, E.mem + arg[2], 512);
	for (int i = 0; i < 256; i++)
		if ((r[i] ^ o[i]) & 8191) { int bad = 0; for (int j = 0; j < 256; j++) bad += ((r[j] ^ o[j]) & 8191) != 0; viol_begin("product"); printf(" coefficient=%d got=%04x want=%04x wrong=%d", i, r[i] & 8191, o[i] & 8191, bad); viol_done(); return; }
}

/* the Karatsuba kernel under the striding Toom-Cook: the product modulo y^64 + 1, all 16 bits; it may destroy its operands */
static void case_kara(uint32_t fn)
{
	static uint16_t a[64], b[64], r[64];
	uint16_t o[64] = {0};
	uint32_t arg[4];
	int small = (int)w_below(&R, 3);
	for (int i = 0; i < 64; i++) {
		a[i] = (uint16_t)(small == 0 ? w_u64(&R) : small == 1 ? (w_below(&R, 2) ? 0xffff : 0x8000) : (w_below(&R, 8) ? 0 : w_u64(&R)));
		b[i] = (uint16_t)(w_below(&R, 6) == 0 ? 0xffff : w_u64(&R));
	}
	note("kara", (uint8_t *)a, 128, (uint8_t *)b, 128);
	heap_reset();
	arg[0] = gput((uint8_t *)a, 128, P_R | P_W, 0);
	arg[1] = gput((uint8_t *)b, 128, P_R | P_W, 0);
	arg[2] = gput(NULL, 128, P_R | P_W, 0);
	arg[3] = gput(NULL, 256, P_R | P_W, 0);
	if (call("kara_strd_mem_asm", fn, arg, 4, NULL)) return;
	for (int i = 0; i < 64; i++)
		for (int j = 0; j < 64; j++)
			o[(i + j) & 63] = (uint16_t)(o[(i + j) & 63] + (i + j < 64 ? 1 : -1) * (int32_t)((uint32_t)a[i] * b[j]));
	memcpy(r, E.mem + arg[2], 128);
	for (int i = 0; i < 64; i++)
		if (r[i] != o[i]) { viol_begin("product"); printf(" coefficient=%d got=%04x want=%04x", i, r[i], o[i]); viol_done(); return; }
}

/* the M0 firmware's own hash functions; their lengths are 64-bit */
static void m_cshake(uint8_t *o, size_t ol, uint16_t c, const uint8_t *in, size_t il, unsigned rate)
{
	static uint8_t b[8192];
	memset(b, 0, rate);
	b[0] = 1; b[1] = (uint8_t)rate; b[2] = 1; b[4] = 1; b[5] = 16; b[6] = (uint8_t)c; b[7] = (uint8_t)(c >> 8);
	memcpy(b + rate, in, il);
	m_keccak(o, ol, b, il + rate, rate, 0x04);
}
static void hash_fn(const char *name, int kind, size_t il, size_t ol)
{
	static uint8_t in[2048], got[2048], want[2048];
	uint32_t fn = emu_sym(name), a[8] = {0}, rin, rout;
	uint16_t c = (uint16_t)w_u64(&R);
	int n;
	if (!fn)
		return;
	rnd_fill(in, sizeof in);
	if (kind >= 4) note(name, in, il, (uint8_t *)&ol, sizeof ol); else note(name, in, il, NULL, 0);
	heap_reset();
	rin = gput(in, il, P_R, (int)w_below(&R, 8));
	rout = gput(NULL, ol, P_R | P_W, (int)w_below(&R, 8));
	a[0] = rout;
	if (kind < 4) { a[1] = rin; a[2] = (uint32_t)il; n = 4; }
	else if (kind < 6) { a[2] = (uint32_t)ol; a[4] = rin; a[6] = (uint32_t)il; n = 8; }
	else { a[2] = (uint32_t)ol; a[4] = c; a[5] = rin; a[6] = (uint32_t)il; n = 8; }
	mark_out(rout, ol);
	if (call(name, fn, a, n, NULL)) return;
	if (take(got, rout, ol, name)) return;
	switch (kind) {
	case 0: m_sha3_256(want, in, il); break;
	case 1: m_sha3_512(want, in, il); break;
	case 4: m_shake128(want, ol, in, il); break;
	case 5: m_shake256(want, ol, in, il); break;
	case 6: m_cshake(want, ol, c, in, il, 168); break;
	case 7: m_cshake(want, ol, c, in, il, 136); break;
	}
	cmp(name, got, want, ol);
}
/* the same functions in steps: absorb once, then squeeze in calls of any number of blocks */
static void hash_steps(const char *family, int kind, size_t il)
{
	static uint8_t in[2048], got[2048], want[2048];
	unsigned rate = kind & 1 ? 136 : 168, off = 0, total = 1 + w_below(&R, 8);
	uint16_t c = (uint16_t)w_u64(&R);
	char an[64], sn[64];
	uint32_t fa, fs, rin, st, out;
	snprintf(an, sizeof an, "%s_absorb", family);
	snprintf(sn, sizeof sn, "%s_squeezeblocks", family);
	fa = emu_sym(an), fs = emu_sym(sn);
	if (!fa || !fs)
		return;
	rnd_fill(in, sizeof in);
	note(an, in, il, (uint8_t *)&total, sizeof total);
	heap_reset();
	rin = gput(in, il, P_R, (int)w_below(&R, 8));
	st = gput(NULL, 200, P_R | P_W, 0);
	if (kind < 2) {
		uint32_t a[4] = {st, rin, (uint32_t)il, 0};
		if (call(an, fa, a, 4, NULL)) return;
	} else {
		uint32_t a[6] = {st, c, rin, 0, (uint32_t)il, 0};
		if (call(an, fa, a, 6, NULL)) return;
	}
	for (unsigned n; off < total; off += n) {
		n = (unsigned)w_below(&R, total - off + 1);
		out = gput(NULL, n * rate, P_R | P_W, (int)w_below(&R, 8));
		uint32_t a[6] = {out, 0, n, 0, st, 0};
		if (call(sn, fs, a, 6, NULL)) return;
		if (n && take(got + off * rate, out, n * rate, sn)) return;
	}
	switch (kind) {
	case 0: m_shake128(want, total * rate, in, il); break;
	case 1: m_shake256(want, total * rate, in, il); break;
	case 2: m_cshake(want, total * rate, c, in, il, 168); break;
	case 3: m_cshake(want, total * rate, c, in, il, 136); break;
	}
	cmp(sn, got, want, total * rate);
}
static void case_hash(void)
{
	size_t il = cur_case < 700 ? cur_case : w_below(&R, 1500), ol = w_below(&R, 600);
	E.trace_shadow = shadow_undef = 1;
	hash_fn("sha3_256", 0, il, 32);
	hash_fn("sha3_512", 1, il, 64);
	hash_fn("shake128", 4, il, ol);
	hash_fn("shake256", 5, il, ol);
	hash_fn("cshake128_simple", 6, il, ol);
	hash_fn("cshake256_simple", 7, il, ol);
	hash_steps("shake128", 0, il);
	hash_steps("shake256", 1, il);
	hash_steps("cshake128_simple", 2, il);
	hash_steps("cshake256_simple", 3, il);
}

/* two versions of straight-line code, f<k> and its original o_f<k>, do the same to memory and registers */
static void case_pair(void)
{
	static uint8_t in[256], mem[2][256];
	char name[2][32];
	uint32_t fn[2], ret[2];
	snprintf(name[0], sizeof name[0], "o_f%llu", (unsigned long long)cur_case);
	snprintf(name[1], sizeof name[1], "f%llu", (unsigned long long)cur_case);
	rnd_fill(in, sizeof in);
	note(name[1], in, sizeof in, NULL, 0);
	for (int v = 0; v < 2; v++) {
		uint32_t a[2];
		fn[v] = emu_sym(name[v]);
		if (!fn[v]) { viol_begin("lost-function"); printf(" what=%s", name[v]); viol_done(); return; }
		heap_reset();
		a[0] = gput(in, sizeof in, P_R | P_W, 0);
		a[1] = gput(in, sizeof in, P_R | P_W, 0);
		if (call(name[1], fn[v], a, 2, &ret[v])) return;
		memcpy(mem[v], E.mem + a[1], sizeof mem[v]);
	}
	cmp("aligned", mem[1], mem[0], sizeof mem[0]);
	if (ret[0] != ret[1]) { viol_begin("aligned"); printf(" returned=%x original=%x", ret[1], ret[0]); viol_done(); }
}

int main(int argc, char **argv)
{
	if (argc < 6) return 3;
	const char *mode = argv[2];
	mem_only = argc > 6 && !strcmp(argv[6], "mem");
	uint64_t seed = strtoull(argv[3], 0, 0), first = strtoull(argv[4], 0, 0), count = strtoull(argv[5], 0, 0);
	M0 = ARM_M0;
	m_params(&P, CFG_L, 0, 0);
	P.old = ARM_M0;
	emu_init(&E);
	E.m0 = ARM_M0;
	E.svc = svc;
	E.limit = 600000000ull;
	E.stack_lo = STK_LO, E.stack_hi = STK_HI;
	if (emu_load_elf(&E, argv[1])) { fprintf(stderr, "cannot load %s\n", argv[1]); return 3; }
	emu_map(&E, STK_LO, STK_HI - STK_LO, P_R | P_W);
	f_kp = emu_sym("crypto_kem_keypair"), f_enc = emu_sym("crypto_kem_enc"), f_dec = emu_sym("crypto_kem_dec");
	if (strcmp(mode, "pair") && (!f_kp || !f_enc || !f_dec)) { fprintf(stderr, "no entry points\n"); return 3; }
	install_handlers(0);
	wd_secs = 300;
	for (cur_case = first; cur_case < first + count; cur_case++) {
		watchdog_arm();
		w_seed(&R, seed, cur_case);
		if (!strcmp(mode, "kem")) {
			case_kem();
		} else if (!strcmp(mode, "safe")) {
			align_mode = 1;
			E.trace_shadow = shadow_undef = 1;
			case_flow(1);
		} else if (!strcmp(mode, "secret")) {
			E.trace_shadow = secret_mode = 1;
			case_flow(0);
		} else if (!strcmp(mode, "mul")) {
			uint32_t f = emu_sym("poly_mul"), g = emu_sym("poly_mul_acc"), h = emu_sym("pol_mul");
			if (!ARM_M0 && f) case_mul(f, 0, "poly_mul");
			if (!ARM_M0 && g) case_mul(g, 1, "poly_mul_acc");
			if (ARM_M0 && h) case_mul(h, 1, "pol_mul");
		} else if (!strcmp(mode, "kern")) {
			uint32_t f = emu_sym("kara_strd_mem_asm"), g = emu_sym("toom_cook_4way_striding_asm");
			if (f) case_kara(f);
			if (g) case_mul(g, 1, "toom_cook_4way_striding_asm");
		} else if (!strcmp(mode, "pair")) {
			case_pair();
		} else if (!strcmp(mode, "hash")) {
			case_hash();
		} else return 3;
	}
	unsigned long long code = 0;
	for (uint32_t i = 0; i < EMU_MEM / 2; i++) code += E.seen[i];
	note_stats();
	stat_u("arm_instructions", E.icount);
	stat_u("arm_conditional_branches", E.cond_branches);
	stat_u("arm_loads", E.loads);
	stat_u("arm_stores", E.stores);
	stat_u("arm_distinct_instructions_executed", code);
	stat_u("arm_deepest_stack", max_stack);
	stat_u("accepted", n_acc);
	stat_u("rejected", n_rej);
	stat_u("tampered", n_tamper);
	stat_u("hostile", n_hostile);
	printf("DONE %llu\n", (unsigned long long)count);
	return n_viol ? 1 : 0;
}
