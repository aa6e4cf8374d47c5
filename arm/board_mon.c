/* Monitor for the complete Cortex-M0 image: built by its own Makefile and linker script, it runs from its reset vector on
 * an interpreted XMC1100 (64 KiB flash, 16 KiB RAM, clock unit, PRNG, USIC UART, system tick with interrupts).
 *   board_mon IMAGE.elf MODE seed first count
 * modes: boot    reset to end of main: key generation, encapsulation, decapsulation, traces on the UART
 *        bootrng the same run, judging only what the random generator delivers
 *        random  randombytes and rng_enable on their own
 *        trace   the UART routines on their own */
#define NO_RB_WRAP
#define LANES 1
#include "emu.h"
#include "hcore.h"

static emu E;
static wrng R;
static unsigned long long n_words, n_rand, n_randbytes, n_uart, n_irq, n_acc, n_traces, n_kem, n_timer, n_inits, n_mem, min_free = ~0ull;
static int absent, only_rng, rng_too = 1;

/* ---- devices ---- */
static struct { int keys, ready_in, kld, rdbs, warm, stream; uint32_t lost; } prng;
static uint16_t served[4096];           /* words handed out since the watched call began */
static int n_served;
static uint64_t prng_seed;
static int distinct_bytes, next_byte; static uint8_t perm256[256];
static struct { uint8_t out[4096]; int n, fifo; uint64_t drained; uint32_t lost; uint8_t in[64]; int in_n, in_at; } uart;
static unsigned drain_every;
static struct { uint32_t csr, rvr; int64_t cvr; uint32_t per; uint64_t ticks; } st;
static int clk_busy, judge_line;
static uint32_t plain[64], plain_a[64]; static int n_plain;
static uint32_t *reg(uint32_t a)
{
	for (int i = 0; i < n_plain; i++) if (plain_a[i] == a) return &plain[i];
	if (n_plain == 64) return &plain[63];
	plain_a[n_plain] = a; plain[n_plain] = 0;
	return &plain[n_plain++];
}
static void devices_reset(void)
{
	memset(&prng, 0, sizeof prng); memset(&uart, 0, sizeof uart); memset(&st, 0, sizeof st);
	n_plain = 0; judge_line = 0; clk_busy = (int)w_below(&R, 5); prng_seed = w_u64(&R); n_served = 0;
	drain_every = 1 + w_below(&R, 400); st.per = 1 + w_below(&R, w_below(&R, 3) ? 6 : 30);
	E.irq = E.in_irq = 0; E.primask = 0;
	distinct_bytes = 0;
}
static uint16_t prng_word(void)
{
	uint16_t w;
	if (prng.keys < 5 || prng.kld) return 0;                /* no key: the generator stands still */
	if (prng.warm < 4) { prng.warm++; return 0xa5a5; }      /* the first 64 bits are to be discarded */
	if (distinct_bytes) { w = (uint16_t)(perm256[next_byte & 255] | perm256[(next_byte + 1) & 255] << 8); next_byte += 2; }
	else { prng_seed = prng_seed * 6364136223846793005ull + 1442695040888963407ull; w = (uint16_t)(prng_seed >> 41); }
	if (prng.rdbs == 1) w &= 0xff; else if (prng.rdbs != 2) return 0;
	if (n_served < 4096) served[n_served++] = w;
	n_words++;
	return w;
}
#define USIC 0x48000000u
static unsigned long long n_lines;
/* what is on the line when the first character goes out: 115200 baud (evaluate.py), 8 data bits, no parity, 1 stop bit, on P2.1 */
static void line_settings(void)
{
	uint32_t clk = *reg(0x40010300u), fdr = *reg(USIC + 0x10), brg = *reg(USIC + 0x14), sctr = *reg(USIC + 0x34), tcsr = *reg(USIC + 0x38), pcr = *reg(USIC + 0x3c), ccr = *reg(USIC + 0x40), iocr = *reg(0x40040210u);
	double idiv = clk ? (clk >> 8 & 255) + (clk & 255) / 256.0 : 4, f = 64e6 / 2 / idiv * (clk >> 16 & 1 ? 2 : 1);
	double step = fdr & 0x3ff, ffd = fdr >> 14 & 1 ? f / (1024 - step) : fdr >> 15 & 1 ? f * step / 1024 : 0;
	double baud = ffd / ((brg >> 16 & 0x3ff) + 1.0) / ((brg >> 8 & 3) + 1.0) / ((brg >> 10 & 31) + 1.0);
	n_lines++;
	if (baud < 115200 * 0.97 || baud > 115200 * 1.03) { viol_begin("uart-line"); printf(" what=baud got=%.0f", baud); viol_done(); }
	const char *w = !(*reg(0x40010310u) >> 3 & 1) ? "module-clock" : !(*reg(USIC + 0xc) & 1) ? "module-enable" : (sctr >> 24 & 15) != 7 ? "word-length" : (sctr >> 16 & 63) != 7 ? "frame-length" : (sctr >> 8 & 3) != 1 ? "transmission-mode" : !(sctr >> 1 & 1) ? "idle-level"
		: (tcsr >> 10 & 3) != 1 ? "transmit-enable" : !(tcsr >> 8 & 1) ? "single-shot" : pcr >> 1 & 1 ? "stop-bits" : (pcr >> 8 & 31) > (brg >> 10 & 31) ? "sample-point"
		: (ccr & 15) != 2 ? "mode" : ccr >> 8 & 3 ? "parity" : (iocr >> 11 & 31) != 0x16 ? "pin" : (*reg(USIC + 0x108) >> 24 & 7) == 0 ? "transmit-fifo" : NULL;
	if (w) { viol_begin("uart-line"); printf(" what=%s", w); viol_done(); }
}
static uint32_t mmio(emu *e, uint32_t a, int n, int wr, uint32_t v)
{
	(void)n;
	if (a == 0x48020000u) {          /* PRNG_WORD */
		if (!wr) return prng_word();
		if (prng.kld) { if (prng.ready_in > 0) prng.lost++; else if (prng.rdbs == 2) { prng.keys++; prng.warm = 0; prng.ready_in = 1 + (int)w_below(&R, 4); } }
		return 0;
	}
	if (a == 0x48020004u) { if (wr) return 0; if (prng.ready_in > 0) { prng.ready_in--; return 0; } return 1; }
	if (a == 0x4802000cu) {
		if (!wr) return (uint32_t)(prng.kld << 3 | prng.rdbs << 1);
		int k = v >> 3 & 1; if (k && !prng.kld) prng.keys = 0;
		prng.kld = k; prng.rdbs = v >> 1 & 3; return 0;
	}
	if (a >= 0x48000180u && a < 0x48000200u) {       /* USIC0_CH0_IN[]: the transmit FIFO */
		if (wr) { if (!uart.n && judge_line) { judge_line = 0; line_settings(); } if (uart.fifo >= 32) uart.lost++; else { uart.fifo++; if (uart.n < (int)sizeof uart.out) uart.out[uart.n++] = (uint8_t)v; n_uart++; } }
		return 0;
	}
	if (a == 0x48000114u) {           /* TRBSR */
		uint32_t x = 0;
		if (wr) return 0;
		if (uart.in_at >= uart.in_n) x |= 1u << 3;
		if (uart.fifo == 0) x |= 1u << 11;
		if (uart.fifo >= 32) x |= 1u << 12;
		return x;
	}
	if (a == 0x4800011cu) return wr ? 0 : uart.in_at < uart.in_n ? uart.in[uart.in_at++] : 0;     /* OUTR */
	if (a == 0x40010300u) {           /* SCU_CLKCR: bit 30 while the clock settles */
		if (wr) { *reg(a) = v & ~(1u << 30); return 0; }
		if (clk_busy > 0) { clk_busy--; return *reg(a) | 1u << 30; }
		return *reg(a);
	}
	if (a == 0xe000e010u) { if (wr) st.csr = v & 7; else return st.csr; return 0; }
	if (a == 0xe000e014u) { if (wr) st.rvr = v & 0xffffff; else return st.rvr; return 0; }
	if (a == 0xe000e018u) { if (wr) st.cvr = 0; else return (uint32_t)st.cvr & 0xffffff; return 0; }
	if (a < 0x40000000u || (a >= 0x51000000u && a < 0xe0000000u) || a >= 0xe0100000u) { emu_fail(e, EMU_FAULT, "access at 0x%x, where there is no device", a); return 0; }
	if (wr) *reg(a) = v;
	return *reg(a);
}
static void tick(emu *e)
{
	if (uart.fifo && e->icount >= uart.drained + drain_every) { uart.fifo--; uart.drained = e->icount; }
	if (!uart.fifo) uart.drained = e->icount;
	if (!(st.csr & 1)) return;
	st.ticks += st.per;
	if (st.cvr == 0) { st.cvr = st.rvr; return; }
	st.cvr -= st.per;
	if (st.cvr <= 0) { st.cvr = st.rvr; if (st.csr & 2) { e->irq = 1; n_irq++; } }
}

/* ---- watched calls ---- */
#define DEPTH 8
static struct frame { const char *name; uint32_t ret, sp, a[4]; uint64_t t0; int served0; } fr[DEPTH];
static int depth, stop_at_main;
static uint32_t s_main, s_rb, s_kp, s_enc, s_dec;
static uint8_t drawn[512], pkv[MAX_PK], skv[MAX_SK], ctv[MAX_CT], ssv[2][32]; static size_t n_drawn;
static uint64_t took[8]; static int n_took;
static int measure; static uint8_t before[0x4000]; static uint32_t depth_used[8]; static int n_used;
static uint8_t *at(uint32_t a, size_t n)
{
	static uint8_t none[8192];
	uint32_t q = emu_phys(&E, a);
	return n <= sizeof none && q < EMU_MEM - n ? E.mem + q : none;
}
/* every byte handed out is a byte of a fresh hardware word, and none is handed out twice */
static void judge_random(const uint8_t *x, size_t n, int from)
{
	int have[256] = {0}, used[256] = {0};
	for (int i = from; i < n_served; i++) { have[served[i] & 255]++; if (prng.rdbs == 2) have[served[i] >> 8]++; }
	if (!rng_too) return;
	n_rand++; n_randbytes += n; note("randombytes", (const uint8_t *)&n, sizeof n, x, n < 64 ? n : 64);
	for (size_t i = 0; i < n; i++) if (++used[x[i]] > have[x[i]]) {
		cur_what = "randombytes"; viol_begin("byte-not-from-the-generator");
		printf(" len=%zu at=%zu byte=%02x words_read=%d", n, i, x[i], n_served - from); hexs(stdout, "got", x, n < 32 ? n : 32); viol_done();
		return;
	}
}
static void leave(struct frame *f)
{
	uint32_t r0 = E.r[0];
	if (!strcmp(f->name, "randombytes")) {
		uint8_t *x = at(f->a[0], f->a[2]);
		if (f->a[3] == 0 && f->a[2] <= 4096) {
			judge_random(x, f->a[2], f->served0);
			if (n_drawn + f->a[2] <= sizeof drawn) memcpy(drawn + n_drawn, x, f->a[2]);
			n_drawn += f->a[2];
		}
		return;
	}
	cur_what = f->name; n_kem++;
	if (measure && n_used < 8) {        /* the lowest byte of the stack that the operation changed */
		uint32_t i = E.stack_lo - 0x20000000u;
		while (i < 0x4000 && E.mem[BOARD_RAM + i] == before[i]) i++;
		depth_used[n_used++] = f->sp - (0x20000000u + i);
	}
	if (only_rng) { n_drawn = 0; return; }
	if (n_took < 8) took[n_took++] = st.ticks - f->t0;
	if (r0) { viol_begin("nonzero-status"); printf(" status=%u", r0); viol_done(); }
	static uint8_t mpk[MAX_PK], msk[MAX_SK], mct[MAX_CT], mss[32];
	if (!strcmp(f->name, "keypair")) {
		memcpy(pkv, at(f->a[0], P.pk), P.pk); memcpy(skv, at(f->a[1], P.sk), P.sk);
		if (n_drawn == 96) { m_kem_keypair(&P, mpk, msk, drawn); if (memcmp(mpk, pkv, P.pk) || memcmp(msk, skv, P.sk)) { viol_begin("wrong-key-pair"); viol_done(); } }
		note("keypair", pkv, P.pk, NULL, 0);
	} else if (!strcmp(f->name, "enc")) {
		memcpy(ctv, at(f->a[0], P.ct), P.ct); memcpy(ssv[0], at(f->a[1], 32), 32);
		if (n_drawn == 32) { m_kem_enc(&P, mct, mss, at(f->a[2], P.pk), drawn); if (memcmp(mct, ctv, P.ct) || memcmp(mss, ssv[0], 32)) { viol_begin("wrong-encapsulation"); viol_done(); } }
		note("enc", ctv, P.ct, NULL, 0);
	} else {
		memcpy(ssv[1], at(f->a[0], 32), 32);
		m_kem_dec(&P, mss, at(f->a[1], P.ct), at(f->a[2], P.sk));
		if (memcmp(mss, ssv[1], 32)) { viol_begin("wrong-decapsulation"); viol_done(); }
		if (memcmp(ssv[0], ssv[1], 32)) { viol_begin("secrets-differ"); viol_done(); } else n_acc++;
		note("dec", ssv[1], 32, NULL, 0);
	}
	n_drawn = 0;
}
static void at_main(emu *e)
{
	for (int i = 0; i < e->nram; i++) for (uint32_t j = 0; j < e->ram[i].n; j++) {
		uint32_t q = emu_phys(e, e->ram[i].a + j);
		if (q < EMU_MEM && !e->sh[q] && e->mem[q] == e->ram[i].init[j]) continue;
		cur_what = "init"; viol_begin("static-data-not-initialised"); printf(" at=0x%x", e->ram[i].a + j); viol_done();
		return;
	}
	n_inits++;
}
static void stopat(emu *e, uint32_t pc)
{
	if (pc == s_main && !only_rng && !rng_too) at_main(e);
	if (stop_at_main && pc == s_main) { emu_fail(e, EMU_LIMIT, "main"); return; }
	while (depth && fr[depth - 1].ret == pc && fr[depth - 1].sp == e->r[13]) leave(&fr[--depth]);
	e->paint = measure && !depth;
	const char *nm = pc == s_rb ? "randombytes" : pc == s_kp ? "keypair" : pc == s_enc ? "enc" : pc == s_dec ? "dec" : NULL;
	if (!nm || depth == DEPTH) return;
	struct frame *f = &fr[depth++];
	e->paint = 0;
	if (measure && pc != s_rb) memcpy(before, E.mem + BOARD_RAM, sizeof before);
	f->name = nm; f->ret = e->r[14] & ~1u; f->sp = e->r[13]; f->t0 = st.ticks; f->served0 = n_served;
	for (int i = 0; i < 4; i++) f->a[i] = e->r[i];
	uint32_t q = emu_phys(e, f->ret);
	if (q < EMU_MEM) e->perm[q] |= P_B;
	if (pc != s_rb) n_drawn = 0;
}

static int bad(const char *what)
{
	switch (E.stop) {
	case EMU_OK: return 0;
	case EMU_UNKNOWN: printf("INCONCLUSIVE %s at %s\n", E.why, emu_where(E.stop_pc)); fflush(stdout); _exit(4);
	case EMU_FAULT: viol_begin("machine-fault"); break;
	case EMU_SHADOW: viol_begin("depends-on-uninitialised-data"); break;
	case EMU_LIMIT: viol_begin("hang"); break;
	}
	printf(" what=\"%s\" in=%s pc=0x%x call=%s", E.why, emu_where(E.stop_pc), E.stop_pc, what);
	viol_done();
	return 1;
}
static void ram_reset(void)
{
	memset(E.perm + BOARD_RAM, 0, 0x10000);
	emu_map(&E, BOARD_RAM, 0x4000, P_R | P_W);
	for (uint32_t i = 0; i < 0x4000; i += 8) { uint64_t x = w_u64(&R); memcpy(E.mem + BOARD_RAM + i, &x, 8); }
	memset(E.sh + BOARD_RAM, 0xff, 0x4000);
	E.dead_stack = 1; E.trace_shadow = 1; depth = 0; n_took = 0; n_drawn = 0;
	for (uint32_t i = 0; i < 0x100; i++) E.perm[BOARD_RAM + i] |= P_X;        /* interrupt jump table */
}
static int hex8(const uint8_t *p, uint32_t *v)
{
	*v = 0;
	if (p[0] != '0' || p[1] != 'x' || p[10] != '\r' || p[11] != '\n') return 0;
	for (int i = 2; i < 10; i++) { int d = p[i] >= '0' && p[i] <= '9' ? p[i] - '0' : p[i] >= 'A' && p[i] <= 'F' ? p[i] - 'A' + 10 : p[i] >= 'a' && p[i] <= 'f' ? p[i] - 'a' + 10 : -1; if (d < 0) return 0; *v = *v << 4 | (uint32_t)d; }
	return 1;
}
static void case_boot(void)
{
	devices_reset(); ram_reset();
	if (w_below(&R, 2)) { uart.in_n = (int)w_below(&R, 20); for (int i = 0; i < uart.in_n; i++) uart.in[i] = (uint8_t)w_u64(&R); }
	stop_at_main = 0; cur_what = "boot"; E.limit = 200000000; judge_line = !only_rng;
	emu_boot(&E, 0x10001000u);
	if (only_rng) { if (E.stop == EMU_UNKNOWN) bad("boot"); return; }
	if (bad("boot")) return;
	uint64_t free_ram = E.min_sp - E.stack_lo; if (free_ram < min_free) min_free = free_ram;
	if (uart.lost) { viol_begin("trace-bytes-lost"); printf(" lost=%u", uart.lost); viol_done(); }
	/* the three times printed are those that passed */
	int k = 0;
	for (int i = 0; i + 12 <= uart.n; i++) {
		uint32_t v;
		if (!hex8(uart.out + i, &v)) continue;
		if (k < n_took) {
			int64_t err = (int64_t)v - (int64_t)(uint32_t)took[k], tol = 400 * (int64_t)st.per + 200 * (int64_t)st.per * (int64_t)(1 + took[k] / 0xffffff);
			if (err > tol || err < -tol) { viol_begin("wrong-time-reported"); printf(" operation=%d reported=%u elapsed=%llu ticks_per_instruction=%u", k, v, (unsigned long long)took[k], st.per); viol_done(); }
			n_traces++;
		}
		k++; i += 11;
	}
	if (n_took && k < n_took) { viol_begin("trace-missing"); printf(" traces=%d operations=%d", k, n_took); viol_done(); }
}
/* the image built to measure its stack: each figure printed is what the operation really used of it */
static void case_mem(void)
{
	devices_reset(); ram_reset();
	stop_at_main = 0; cur_what = "boot"; E.limit = 400000000; judge_line = 1; measure = E.paint = 1; n_used = 0; E.dead_stack = 0;      /* it paints the free stack */
	emu_boot(&E, 0x10001000u);
	measure = E.paint = 0;
	if (bad("boot")) return;
	if (uart.lost) { viol_begin("trace-bytes-lost"); printf(" lost=%u", uart.lost); viol_done(); }
	int k = 0;
	for (int i = 0; i + 12 <= uart.n; i++) {
		uint32_t v, want = 0;
		if (!hex8(uart.out + i, &v)) continue;
		if (k < 3 && k < n_used) want = depth_used[k];
		else for (int j = 3; j < n_used; j++) if (depth_used[j] > want) want = depth_used[j];
		if (want && k < 4) {
			if (v + 128 < want || v > want + 128) { viol_begin("wrong-stack-figure"); printf(" figure=%d reported=%u used=%u", k, v, want); viol_done(); }
			n_mem++;
		}
		k++; i += 11;
	}
	if (k < 4 || n_used < 6) { viol_begin("trace-missing"); printf(" figures=%d operations=%d", k, n_used); viol_done(); }
}
/* the image as it was put on the board: what it sent, and what the board saw (judged elsewhere) */
static void case_flash(void)
{
	devices_reset(); ram_reset();
	stop_at_main = 0; cur_what = "boot"; E.limit = 400000000; measure = E.paint = 1; n_used = 0; E.dead_stack = 0;
	emu_boot(&E, 0x10001000u);
	measure = E.paint = 0;
	if (bad("boot")) return;
	printf("BOARD sent="); for (int i = 0; i < uart.n; i++) printf("%02x", uart.out[i]);
	printf(" per=%u used=", st.per); for (int i = 0; i < n_used; i++) printf("%u,", depth_used[i]);
	printf(" took="); for (int i = 0; i < n_took; i++) printf("%llu,", (unsigned long long)took[i]);
	printf("\n");
}
static int to_main(void)
{
	devices_reset(); ram_reset();
	stop_at_main = 1; E.limit = 2000000; cur_what = "init";
	emu_boot(&E, 0x10001000u);
	stop_at_main = 0; depth = 0;
	if (E.stop == EMU_LIMIT && !strcmp(E.why, "main")) return 1;
	bad("init");
	return 0;
}
#define BUF 0x20001000u
static int call(const char *nm, uint32_t f, uint32_t a0, uint32_t a1, uint32_t a2, uint32_t a3, uint32_t *ret)
{
	const uint32_t a[4] = {a0, a1, a2, a3};
	cur_what = nm; E.limit = 4000000; E.stack_hi = 0x20004000u; depth = 0;
	uint32_t keep = E.stack_lo; E.stack_lo = 0x20003000u;       /* the buffers lie below */
	memset(E.sh + BOARD_RAM + 0x3000, 0xff, 0x1000);
	emu_call(&E, f, a, 4, ret);
	E.stack_lo = keep;
	return bad(nm);
}
static void case_random(void)
{
	uint32_t f_en = emu_sym("rng_enable");
	if (!f_en || !s_rb || !s_main) { absent |= 1; return; }
	if (!to_main()) return;
	if (call("rng_enable", f_en, 0, 0, 0, 0, NULL)) return;
	if (prng.lost) { viol_begin("key-word-written-while-busy"); viol_done(); }
	if (prng.keys < 5 || prng.kld || (prng.rdbs != 1 && prng.rdbs != 2)) { viol_begin("generator-not-started"); printf(" key_words=%d loading=%d block=%d", prng.keys, prng.kld, prng.rdbs); viol_done(); }
	for (int i = 0; i < 24; i++) {
		uint32_t len = i < 8 ? (uint32_t)((cur_case * 8 + (unsigned)i) % 400) : w_below(&R, w_below(&R, 4) ? 120 : 1500), pad = w_below(&R, 8), p = BUF + 64 + pad;
		distinct_bytes = len <= 100;
		for (int j = 0; j < 256; j++) perm256[j] = (uint8_t)j;
		for (int j = 255; j > 0; j--) { uint32_t q = w_below(&R, (uint32_t)j + 1); uint8_t t = perm256[j]; perm256[j] = perm256[q]; perm256[q] = t; }
		next_byte = 0; n_served = 0;
		memset(E.perm + BOARD_RAM + 0x1000, 0, 0x2000);
		emu_map(&E, emu_phys(&E, p), len, P_R | P_W);
		memset(E.sh + emu_phys(&E, p), 0xff, len ? len : 1);
		for (uint32_t j = 0; j < len; j++) E.mem[emu_phys(&E, p) + j] = (uint8_t)w_u64(&R);
		if (call("randombytes", s_rb, p, 0, len, 0, NULL)) return;
		n_drawn = 0;
		for (uint32_t j = 0; j < len; j++) if (E.sh[emu_phys(&E, p) + j]) { viol_begin("byte-not-written"); printf(" len=%u at=%u", len, j); viol_done(); break; }
		if (prng.warm < 4) { viol_begin("generator-not-warmed-up"); viol_done(); }
		judge_random(at(p, len), len, 0);
	}
}
static void expect(const char *nm, const char *want, size_t n)
{
	cur_what = nm; note(nm, (const uint8_t *)want, n, NULL, 0); n_traces++;
	if (uart.lost) { viol_begin("trace-bytes-lost"); viol_done(); }
	if ((size_t)uart.n != n || memcmp(uart.out, want, n)) { viol_begin("wrong-trace"); hexs(stdout, "got", uart.out, (size_t)uart.n > 48 ? 48 : (size_t)uart.n); hexs(stdout, "want", (const uint8_t *)want, n); viol_done(); }
}
static void uart_empty(void) { uart.n = 0; uart.fifo = 0; uart.lost = 0; }
static void case_trace(void)
{
	uint32_t f_addr = emu_sym("UART_SendAddr"), f_word = emu_sym("UART_SendWord"), f_tr = emu_sym("UART_SendTrace"), f_wr = emu_sym("UART_Write"), f_rd = emu_sym("UART_Read");
	char want[64], s[32];
	if (!s_main || !to_main()) { absent |= 2; return; }
	memset(E.perm + BOARD_RAM + 0x1000, 0, 0x2000);
	for (int i = 0; i < 12; i++) {
		uint32_t v = w_below(&R, 3) ? (uint32_t)w_u64(&R) : (uint32_t)(0x0a090f10u << w_below(&R, 24)), n = w_below(&R, 20), r, q = emu_phys(&E, BUF);
		for (uint32_t j = 0; j < n; j++) s[j] = (char)w_u64(&R);
		emu_map(&E, q, 64, 0); emu_map(&E, q, n, P_R); memcpy(E.mem + q, s, n); memset(E.sh + q, 0, 64);
		if (f_addr) { uart_empty(); if (call("UART_SendAddr", f_addr, v, 0, 0, 0, NULL)) return; expect("UART_SendAddr", want, (size_t)snprintf(want, sizeof want, "0x%08X\r\n", v)); } else absent |= 4;
		if (f_word) { uart_empty(); uart.fifo = (int)w_below(&R, 30); if (call("UART_SendWord", f_word, v & 0xffff, 0, 0, 0, NULL)) return; expect("UART_SendWord", want, (size_t)snprintf(want, sizeof want, "0x%04X\r\n", v & 0xffff)); }
		if (f_wr) { uart_empty(); if (call("UART_Write", f_wr, BUF, n, 0, 0, NULL)) return; expect("UART_Write", s, n); }
		if (f_tr) {
			uart_empty(); uart.fifo = (int)w_below(&R, 33);        /* an earlier trace is still being sent */
			if (call("UART_SendTrace", f_tr, BUF, n, v, 0, NULL)) return;
			memcpy(want, s, n); snprintf(want + n, sizeof want - n, "0x%08X\r\n", v); expect("UART_SendTrace", want, n + 12);
		}
		if (f_rd) {
			uart_empty(); uart.in_n = (int)n; uart.in_at = 0; memcpy(uart.in, s, n); emu_map(&E, q, n, P_R | P_W); memset(E.mem + q, 0, n); memset(E.sh + q, 0xff, n);
			if (call("UART_Read", f_rd, BUF, 0, 0, 0, &r)) return;
			note("UART_Read", (uint8_t *)s, n, NULL, 0);
			if ((r & 255) != n || memcmp(E.mem + q, s, n)) { viol_begin("wrong-bytes-received"); printf(" sent=%u count=%u", n, r); viol_done(); }
		}
	}
}
/* the timer wraps anywhere around the calls that start and stop a measurement */
static void jump(int64_t to) { if (to > 0 && to < st.cvr) { st.ticks += (uint64_t)(st.cvr - to); st.cvr = to; } }
static void case_timer(void)
{
	uint32_t f_setup = emu_sym("setup_tick_count"), f_start = emu_sym("start_tick_count"), f_end = emu_sym("end_tick_count"), f_idle = emu_sym("UART_SendWord"), v;
	if (!f_setup || !f_start || !f_end || !f_idle || !s_main) { absent |= 16; return; }
	if (!to_main()) return;
	if (call("setup_tick_count", f_setup, 0, 0, 0, 0, NULL)) return;
	for (int i = 0; i < 80; i++) {
		int wraps = 0, want = (int)w_below(&R, 5);
		if (w_below(&R, 2)) st.cvr = (int64_t)w_below(&R, 40 * st.per) + 1;
		if (call("start_tick_count", f_start, 0, 0, 0, 0, NULL)) return;
		uint64_t t0 = st.ticks, irq0 = n_irq;
		while (wraps < want) {
			wraps++; jump((int64_t)w_below(&R, 30 * st.per) + 1); uart_empty();
			if (call("UART_SendWord", f_idle, 7, 0, 0, 0, NULL)) return;
		}
		jump((int64_t)w_below(&R, 0x1000000));
		if (w_below(&R, 4)) jump((int64_t)w_below(&R, 40 * st.per) + 1);
		if (call("end_tick_count", f_end, 0, 0, 0, 0, &v)) return;
		uint64_t took_now = st.ticks - t0; uint32_t key[4] = {(uint32_t)took_now, v, st.per, (uint32_t)i};
		int64_t err = (int64_t)(int32_t)(v - (uint32_t)took_now), tol = (int64_t)st.per * (400 + 200 * (int64_t)(1 + n_irq - irq0));
		n_timer++; note("timer", (const uint8_t *)key, sizeof key, NULL, 0);
		if (err > tol || err < -tol) { cur_what = "end_tick_count"; viol_begin("wrong-time"); printf(" reported=%u elapsed=%llu interrupts=%llu ticks_per_instruction=%u", v, (unsigned long long)took_now, (unsigned long long)(n_irq - irq0), st.per); viol_done(); return; }
	}
}
int main(int argc, char **argv)
{
	if (argc < 6) return 3;
	const char *mode = argv[2];
	unsigned long long seed = strtoull(argv[3], 0, 0), first = strtoull(argv[4], 0, 0), count = strtoull(argv[5], 0, 0);
	m_params(&P, CFG_L, CFG_U, CFG_90S); P.old = 1; m_selfcheck();
	emu_init(&E); E.m0 = 1; E.mmio = mmio; E.tick = tick; E.stopat = stopat;
	if (emu_load_board(&E, argv[1])) { viol_begin("image-does-not-fit"); viol_done(); printf("DONE viol\n"); return 1; }
	s_main = emu_sym("main"); s_rb = emu_sym("randombytes"); s_kp = emu_sym("crypto_kem_keypair"); s_enc = emu_sym("crypto_kem_enc"); s_dec = emu_sym("crypto_kem_dec");
	const uint32_t hooks[] = {s_main, s_rb, s_kp, s_enc, s_dec};
	for (int i = 0; i < 5; i++) if (hooks[i]) E.perm[emu_phys(&E, hooks[i])] |= P_B; else absent |= 8;
	install_handlers(0);
	for (cur_case = first; cur_case < first + count; cur_case++) {
		w_seed(&R, seed, cur_case); watchdog_arm();
		if (!strcmp(mode, "boot")) { rng_too = 0; case_boot(); }
		else if (!strcmp(mode, "bootrng")) { only_rng = 1; case_boot(); }
		else if (!strcmp(mode, "random")) case_random();
		else if (!strcmp(mode, "trace")) { rng_too = 0; case_trace(); }
		else if (!strcmp(mode, "mem")) { rng_too = 0; case_mem(); }
		else if (!strcmp(mode, "flash")) { rng_too = 0; case_flash(); }
		else if (!strcmp(mode, "timer")) { rng_too = 0; case_timer(); }
		else return 3;
	}
	stat_u("arm_instructions", E.icount); stat_u("generator_words", n_words); stat_u("random_requests", n_rand); stat_u("random_bytes", n_randbytes);
	stat_u("uart_bytes", n_uart); stat_u("uart_lines_checked", n_lines); stat_u("stack_figures_checked", n_mem); stat_u("initialised_images_checked", n_inits); stat_u("tick_interrupts", n_irq); stat_u("traces_checked", n_traces); stat_u("kem_operations", n_kem); stat_u("timer_readings", n_timer); stat_u("accepted", n_acc); stat_u("absent", (unsigned long long)absent);
	if (min_free != ~0ull && first == 0) printf("SAMPLE smallest distance between stack and data: %llu bytes\n", min_free);
	note_stats();
	printf("DONE %s\n", n_viol ? "viol" : "ok");
	return n_viol ? 1 : 0;
}
