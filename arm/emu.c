#include "emu.h"
#include <elf.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#define RETADDR 0x003ffff0u
typedef uint32_t u32;
typedef struct { u32 v, s; } V;

static struct sym { u32 a, size; int call; char name[64]; } *syms;
static int nsyms;

void emu_fail(emu *e, enum emu_stop s, const char *fmt, ...)
{
	va_list ap;
	if (e->stop)
		return;
	e->stop = s;
	e->stop_pc = e->r[15];
	va_start(ap, fmt);
	vsnprintf(e->why, sizeof e->why, fmt, ap);
	va_end(ap);
}

void emu_init(emu *e)
{
	memset(e, 0, sizeof *e);
	e->mem = calloc(1, EMU_MEM);
	e->perm = calloc(1, EMU_MEM);
	e->sh = calloc(1, EMU_MEM);
	e->seen = calloc(1, EMU_MEM / 2);
}

u32 emu_phys(emu *e, u32 a)
{
	if (!e->board)
		return a;
	if (a >= 0x10000000u && a < 0x10020000u)
		return a - 0x10000000u + BOARD_FLASH;
	if (a >= 0x20000000u && a < 0x20010000u)
		return a - 0x20000000u + BOARD_RAM;
	return a == RETADDR ? a : EMU_MEM;
}

void emu_map(emu *e, u32 a, u32 len, int perm)
{
	memset(e->perm + a, perm, len);
}

static int load(emu *e, const char *path);
int emu_load_elf(emu *e, const char *path) { return load(e, path); }
int emu_load_board(emu *e, const char *path) { e->board = 1; return load(e, path); }
static int load(emu *e, const char *path)
{
	FILE *f = fopen(path, "rb");
	long n;
	uint8_t *b;
	if (!f)
		return -1;
	fseek(f, 0, SEEK_END);
	n = ftell(f);
	rewind(f);
	b = malloc(n);
	if (fread(b, 1, n, f) != (size_t)n)
		return -1;
	fclose(f);
	Elf32_Ehdr *h = (void *)b;
	Elf32_Shdr *sh = (void *)(b + h->e_shoff);
	if (e->board) {         /* what the flasher writes: the load addresses of the segments */
		Elf32_Phdr *ph = (void *)(b + h->e_phoff);
		for (int i = 0; i < h->e_phnum; i++)
			if (ph[i].p_type == PT_LOAD && ph[i].p_filesz) {
				u32 a = emu_phys(e, ph[i].p_paddr);
				if (ph[i].p_paddr < 0x10001000u || ph[i].p_paddr + ph[i].p_filesz > 0x10011000u)
					return -3;
				memcpy(e->mem + a, b + ph[i].p_offset, ph[i].p_filesz);
				emu_map(e, a, ph[i].p_filesz, P_R | P_X);
			}
	}
	for (int i = 0; i < h->e_shnum; i++) {
		if (e->board && (sh[i].sh_flags & SHF_ALLOC) && sh[i].sh_addr >= 0x20000000u && sh[i].sh_addr + sh[i].sh_size > e->stack_lo)
			e->stack_lo = sh[i].sh_addr + sh[i].sh_size;       /* the stack must not grow into this */
		if (e->board && (sh[i].sh_flags & SHF_ALLOC) && sh[i].sh_addr >= 0x20000000u && sh[i].sh_size && e->nram < 16) {
			e->ram[e->nram].a = sh[i].sh_addr, e->ram[e->nram].n = sh[i].sh_size;
			e->ram[e->nram].init = calloc(1, sh[i].sh_size);
			if (sh[i].sh_type != SHT_NOBITS)
				memcpy(e->ram[e->nram].init, b + sh[i].sh_offset, sh[i].sh_size);
			e->nram++;
		}
		if (!e->board && (sh[i].sh_flags & SHF_ALLOC)) {
			if (sh[i].sh_addr + sh[i].sh_size > EMU_MEM)
				return -2;
			if (sh[i].sh_type != SHT_NOBITS)
				memcpy(e->mem + sh[i].sh_addr, b + sh[i].sh_offset, sh[i].sh_size);
			else
				memset(e->mem + sh[i].sh_addr, 0, sh[i].sh_size);
			emu_map(e, sh[i].sh_addr, sh[i].sh_size, (sh[i].sh_flags & SHF_EXECINSTR) ? P_X | P_R : (sh[i].sh_flags & SHF_WRITE) ? P_R | P_W : P_R);
		}
		if (sh[i].sh_type == SHT_SYMTAB) {
			Elf32_Sym *s = (void *)(b + sh[i].sh_offset);
			const char *str = (void *)(b + sh[sh[i].sh_link].sh_offset);
			int k = sh[i].sh_size / sizeof *s;
			syms = calloc(k, sizeof *syms);
			nsyms = 0;
			for (int j = 0; j < k; j++) {
				if (!str[s[j].st_name] || str[s[j].st_name] == '$' || s[j].st_shndx == SHN_UNDEF)
					continue;
				syms[nsyms].a = s[j].st_value & ~1u;
				syms[nsyms].size = s[j].st_size;
				syms[nsyms].call = ELF32_ST_BIND(s[j].st_info) != STB_LOCAL;
				snprintf(syms[nsyms].name, sizeof syms[nsyms].name, "%s", str + s[j].st_name);
				nsyms++;
			}
		}
	}
	free(b);
	/* routines whose interface is not the one the monitor knows (written by buildlib.py) */
	char hide[4200];
	snprintf(hide, sizeof hide, "%s.hide", path);
	FILE *hf = fopen(hide, "r");
	if (hf) {
		while (fscanf(hf, "%63s", hide) == 1)
			for (int i = 0; i < nsyms; i++)
				if (!strcmp(syms[i].name, hide))
					syms[i].call = 0;
		fclose(hf);
	}
	return 0;
}

u32 emu_sym(const char *name)
{
	for (int i = 0; i < nsyms; i++)
		if (syms[i].call && !strcmp(syms[i].name, name))
			return syms[i].a;
	return 0;
}

const char *emu_where(u32 pc)
{
	static char out[96];
	int best = -1;
	for (int i = 0; i < nsyms; i++)
		if (syms[i].a <= pc && (best < 0 || syms[i].a > syms[best].a))
			best = i;
	snprintf(out, sizeof out, "%s", best < 0 ? "?" : syms[best].name);
	return out;
}

/* ---- memory ---- */
static int check(emu *e, u32 a, u32 n, int p, int align)
{
	if (align && (a & (align - 1))) {
		emu_fail(e, EMU_FAULT, "unaligned %u-byte access", n);
		return 0;
	}
	if (e->board) {
		u32 q = emu_phys(e, a);
		if (q >= EMU_MEM || emu_phys(e, a + n - 1) != q + n - 1)
			q = EMU_MEM;
		if (a < e->r[13] && a >= e->stack_lo && !e->paint) {
			emu_fail(e, EMU_FAULT, "%u-byte %s below the stack pointer", n, p == P_R ? "read" : "write");
			return 0;
		}
		a = q;
	}
	if (a >= EMU_MEM || a + n > EMU_MEM) {
		emu_fail(e, EMU_FAULT, "%u-byte %s at an unmapped address", n, p == P_R ? "read" : "write");
		return 0;
	}
	for (u32 i = 0; i < n; i++)
		if (!(e->perm[a + i] & p)) {
			emu_fail(e, EMU_FAULT, "%u-byte %s outside the memory it may touch", n, p == P_R ? "read" : "write");
			return 0;
		}
	if (!e->board && a < e->r[13] && a >= e->stack_lo) {
		emu_fail(e, EMU_FAULT, "%u-byte %s below the stack pointer", n, p == P_R ? "read" : "write");
		return 0;
	}
	return 1;
}

static void addrsh(emu *e, u32 s)
{
	if (s && e->trace_shadow)
		emu_fail(e, EMU_SHADOW, "address");
}

static V ld(emu *e, V a, int n, int align)
{
	V r = {0, 0};
	addrsh(e, a.s);
	e->loads++;
	if (e->board && a.v >= 0x40000000u) {
		if (a.v & (u32)(n - 1))
			emu_fail(e, EMU_FAULT, "unaligned %u-byte access to a device", n);
		else
			r.v = e->mmio(e, a.v, n, 0, 0);
		return r;
	}
	if (!check(e, a.v, n, P_R, align))
		return r;
	a.v = emu_phys(e, a.v);
	memcpy(&r.v, e->mem + a.v, n);
	memcpy(&r.s, e->sh + a.v, n);
	return r;
}

static void st(emu *e, V a, V d, int n, int align)
{
	addrsh(e, a.s);
	e->stores++;
	if (e->board && a.v >= 0x40000000u) {
		if (a.v & (u32)(n - 1))
			emu_fail(e, EMU_FAULT, "unaligned %u-byte access to a device", n);
		else if (d.s && e->trace_shadow)
			emu_fail(e, EMU_SHADOW, "device register");
		else
			e->mmio(e, a.v, n, 1, d.v);
		return;
	}
	if (!check(e, a.v, n, P_W, align))
		return;
	a.v = emu_phys(e, a.v);
	memcpy(e->mem + a.v, &d.v, n);
	memcpy(e->sh + a.v, &d.s, n);
}

/* ---- shadowed arithmetic ---- */
static V R(emu *e, int i)
{
	V x = {e->r[i], e->rs[i]};
	if (i == 15)
		x.v = e->r[15] + 4;     /* r15 holds the address of the instruction being executed */
	return x;
}
static V I(u32 v) { V x = {v, 0}; return x; }
static V vnot(V a) { a.v = ~a.v; return a; }
static V vand(V a, V b) { V r = {a.v & b.v, (a.s | b.s) & (a.v | a.s) & (b.v | b.s)}; return r; }
static V vor(V a, V b) { V r = {a.v | b.v, (a.s | b.s) & (~a.v | a.s) & (~b.v | b.s)}; return r; }
static V veor(V a, V b) { V r = {a.v ^ b.v, a.s | b.s}; return r; }
static u32 smear(u32 x) { return x | (0u - x); }
static V vmul(V a, V b)
{
	V r = {a.v * b.v, 0};
	if ((!a.s && !a.v) || (!b.s && !b.v))
		return r;
	r.s = smear(a.s | b.s);
	return r;
}
static V vall(u32 v, u32 s) { V r = {v, s ? ~0u : 0}; return r; }

struct fl { uint8_t n, z, c, v, ns, zs, cs, vs; };
static void nz(struct fl *f, V r)
{
	f->n = r.v >> 31;
	f->z = r.v == 0;
	f->ns = r.s >> 31;
	f->zs = r.s && !(r.v & ~r.s);
}
static V addc(V a, V b, int c, int cs, struct fl *f)
{
	uint64_t full = (uint64_t)a.v + b.v + c;
	uint64_t lo = (uint64_t)(a.v & ~a.s) + (b.v & ~b.s) + (cs ? 0 : c), hi = (uint64_t)(a.v | a.s) + (b.v | b.s) + (cs ? 1 : c);
	V r = {(u32)full, a.s | b.s | (u32)(lo ^ hi)};
	if (f) {
		int64_t sf = (int64_t)(int32_t)a.v + (int32_t)b.v + c;
		/* signed bounds: the sign bit counts the other way */
		#define SLO(x) (int64_t)(int32_t)(((x).v & ~(x).s) | ((x).s & 0x80000000u))
		#define SHI(x) (int64_t)(int32_t)(((x).v | ((x).s & 0x7fffffffu)) & ~((x).s & 0x80000000u))
		int64_t sl = SLO(a) + SLO(b) + (cs ? 0 : c), sh = SHI(a) + SHI(b) + (cs ? 1 : c);
		int ol = sl > INT32_MAX ? 1 : sl < INT32_MIN ? -1 : 0, oh = sh > INT32_MAX ? 1 : sh < INT32_MIN ? -1 : 0;
		nz(f, r);
		f->c = full >> 32;
		f->cs = (lo >> 32) != (hi >> 32);
		f->v = sf != (int32_t)sf;
		f->vs = ol != oh;
	}
	return r;
}
static V vadd(V a, V b) { return addc(a, b, 0, 0, NULL); }
static V vsub(V a, V b) { return addc(a, vnot(b), 1, 0, NULL); }
static V vsx(V a, int bits) { V r = {(u32)((int32_t)(a.v << (32 - bits)) >> (32 - bits)), (u32)((int32_t)(a.s << (32 - bits)) >> (32 - bits))}; return r; }
static V vzx(V a, int bits) { u32 m = bits == 32 ? ~0u : (1u << bits) - 1; V r = {a.v & m, a.s & m}; return r; }
static V vror(V a, int n)
{
	n &= 31;
	if (!n)
		return a;
	V r = {a.v >> n | a.v << (32 - n), a.s >> n | a.s << (32 - n)};
	return r;
}

/* shift by a constant or register amount; carry in *c, *cs is replaced */
static V shift(V a, int type, u32 n, u32 nsh, uint8_t *c, uint8_t *cs)
{
	V r = a;
	if (n == 0 && type != 4) {
		if (nsh) { r.s = ~0u; *cs = 1; }
		return r;
	}
	switch (type) {
	case 0: /* lsl */
		*c = n <= 32 ? (a.v >> (32 - n)) & 1 : 0;
		*cs = n <= 32 ? (a.s >> (32 - n)) & 1 : 0;
		r.v = n < 32 ? a.v << n : 0;
		r.s = n < 32 ? a.s << n : 0;
		break;
	case 1: /* lsr */
		*c = n <= 32 ? (a.v >> (n - 1)) & 1 : 0;
		*cs = n <= 32 ? (a.s >> (n - 1)) & 1 : 0;
		r.v = n < 32 ? a.v >> n : 0;
		r.s = n < 32 ? a.s >> n : 0;
		break;
	case 2: /* asr */
		if (n > 32)
			n = 32;
		*c = (a.v >> (n - 1)) & 1;
		*cs = (a.s >> (n - 1)) & 1;
		r.v = n < 32 ? (u32)((int32_t)a.v >> n) : (u32)((int32_t)a.v >> 31);
		r.s = n < 32 ? (u32)((int32_t)a.s >> n) : (u32)((int32_t)a.s >> 31);
		break;
	case 3: /* ror */
		r = vror(a, n);
		*c = r.v >> 31;
		*cs = r.s >> 31;
		break;
	case 4: { /* rrx */
		V o = {a.v >> 1 | (u32)*c << 31, a.s >> 1 | (u32)*cs << 31};
		*c = a.v & 1;
		*cs = a.s & 1;
		r = o;
		break;
	}
	}
	if (nsh) {
		r.s = ~0u;
		*cs = 1;
	}
	return r;
}

static V shift_imm(V a, int type, int imm, uint8_t *c, uint8_t *cs)
{
	if (type == 3 && imm == 0)
		return shift(a, 4, 1, 0, c, cs);
	if ((type == 1 || type == 2) && imm == 0)
		imm = 32;
	return shift(a, type, imm, 0, c, cs);
}

static void setf(emu *e, struct fl f)
{
	e->n = f.n, e->z = f.z, e->c = f.c, e->v = f.v;
	e->ns = f.ns, e->zs = f.zs, e->cs = f.cs, e->vs = f.vs;
}
static struct fl getf(emu *e)
{
	struct fl f = {e->n, e->z, e->c, e->v, e->ns, e->zs, e->cs, e->vs};
	return f;
}

static int cond(emu *e, int c, int *sh)
{
	int r = 1, s = 0;
	switch (c >> 1) {
	case 0: r = e->z; s = e->zs; break;
	case 1: r = e->c; s = e->cs; break;
	case 2: r = e->n; s = e->ns; break;
	case 3: r = e->v; s = e->vs; break;
	case 4: r = e->c && !e->z; s = (e->cs | e->zs) && !((!e->cs && !e->c) || (!e->zs && e->z)); break;
	case 5: r = e->n == e->v; s = e->ns | e->vs; break;
	case 6: r = e->n == e->v && !e->z; s = (e->ns | e->vs | e->zs) && !(!e->zs && e->z); break;
	case 7: *sh = 0; return 1;
	}
	*sh = s;
	return (c & 1) ? !r : r;
}

static u32 npc;   /* where execution goes on after the current instruction */
static void W(emu *e, int i, V x)
{
	if (i == 15) {
		addrsh(e, x.s);
		npc = x.v & ~1u;
		return;
	}
	if (i == 13)
		x.v &= ~3u;
	e->r[i] = x.v;
	e->rs[i] = x.s;
}
static void bx(emu *e, V x)
{
	if (x.s && e->trace_shadow)
		emu_fail(e, EMU_SHADOW, "branch target");
	if (!(x.v & 1))
		emu_fail(e, EMU_FAULT, "branch to ARM state");
	npc = x.v & ~1u;
	e->branches++;
}
static void unk(emu *e, u32 op, int wide)
{
	emu_fail(e, EMU_UNKNOWN, wide ? "unknown instruction %08x" : "unknown instruction %04x", op);
}

static void ldm(emu *e, u32 a, u32 as, int list)
{
	V p = {a, as};
	for (int i = 0; i < 16 && !e->stop; i++)
		if (list >> i & 1) {
			V x = ld(e, p, 4, 4);
			if (e->stop)
				return;
			if (i == 15)
				bx(e, x);
			else
				W(e, i, x);
			p.v += 4;
		}
}
static void stm(emu *e, u32 a, u32 as, int list)
{
	V p = {a, as};
	for (int i = 0; i < 16 && !e->stop; i++)
		if (list >> i & 1) {
			st(e, p, R(e, i), 4, 4);
			p.v += 4;
		}
}

static V dp(emu *e, int op, V a, V b, struct fl *f)
{
	/* Thumb-2 opcodes; f->c holds the shifter carry for the logical ones, e->c the carry flag */
	V r;
	struct fl g = *f;
	switch (op) {
	case 0: r = vand(a, b); nz(f, r); break;
	case 1: r = vand(a, vnot(b)); nz(f, r); break;
	case 2: r = vor(a, b); nz(f, r); break;
	case 3: r = vor(a, vnot(b)); nz(f, r); break;
	case 4: r = veor(a, b); nz(f, r); break;
	case 8: r = addc(a, b, 0, 0, &g); *f = g; break;
	case 10: r = addc(a, b, e->c, e->cs, &g); *f = g; break;
	case 11: r = addc(a, vnot(b), e->c, e->cs, &g); *f = g; break;
	case 13: r = addc(a, vnot(b), 1, 0, &g); *f = g; break;
	case 14: r = addc(b, vnot(a), 1, 0, &g); *f = g; break;
	default: r = I(0); unk(e, op, 0); break;
	}
	return r;
}

static V expand_imm(emu *e, u32 imm12, struct fl *f)
{
	u32 b = imm12 & 255;
	if (imm12 >> 10 == 0) {
		switch (imm12 >> 8 & 3) {
		case 0: return I(b);
		case 1: return I(b | b << 16);
		case 2: return I(b << 8 | b << 24);
		default: return I(b | b << 8 | b << 16 | b << 24);
		}
	}
	V r = vror(I(0x80 | (imm12 & 0x7f)), imm12 >> 7);
	f->c = r.v >> 31;
	f->cs = 0;
	(void)e;
	return r;
}

static void thumb16(emu *e, u32 op)
{
	int inIT = (e->it & 15) != 0;
	struct fl f = getf(e);
	V r;
	if (op >> 13 == 0 && (op >> 11 & 3) != 3) { /* shift imm */
		r = shift_imm(R(e, op >> 3 & 7), op >> 11 & 3, op >> 6 & 31, &f.c, &f.cs);
		if ((op >> 11 & 3) == 0 && (op >> 6 & 31) == 0)
			f.c = e->c, f.cs = e->cs;
		nz(&f, r);
		W(e, op & 7, r);
		if (!inIT)
			setf(e, f);
	} else if (op >> 11 == 3) { /* add/sub reg/imm3 */
		V b = (op >> 10 & 1) ? I(op >> 6 & 7) : R(e, op >> 6 & 7);
		r = dp(e, (op >> 9 & 1) ? 13 : 8, R(e, op >> 3 & 7), b, &f);
		W(e, op & 7, r);
		if (!inIT)
			setf(e, f);
	} else if (op >> 13 == 1) {
		int d = op >> 8 & 7;
		V b = I(op & 255);
		switch (op >> 11 & 3) {
		case 0: nz(&f, b); W(e, d, b); if (!inIT) setf(e, f); break;
		case 1: dp(e, 13, R(e, d), b, &f); setf(e, f); break;
		case 2: r = dp(e, 8, R(e, d), b, &f); W(e, d, r); if (!inIT) setf(e, f); break;
		case 3: r = dp(e, 13, R(e, d), b, &f); W(e, d, r); if (!inIT) setf(e, f); break;
		}
	} else if (op >> 10 == 16) { /* data processing */
		int d = op & 7, m = op >> 3 & 7, wr = 1;
		V a = R(e, d), b = R(e, m);
		switch (op >> 6 & 15) {
		case 0: r = dp(e, 0, a, b, &f); break;
		case 1: r = dp(e, 4, a, b, &f); break;
		case 2: r = shift(a, 0, b.v & 255, b.s, &f.c, &f.cs); nz(&f, r); break;
		case 3: r = shift(a, 1, b.v & 255, b.s, &f.c, &f.cs); nz(&f, r); break;
		case 4: r = shift(a, 2, b.v & 255, b.s, &f.c, &f.cs); nz(&f, r); break;
		case 5: r = dp(e, 10, a, b, &f); break;
		case 6: r = dp(e, 11, a, b, &f); break;
		case 7: r = shift(a, 3, b.v & 255, b.s, &f.c, &f.cs); nz(&f, r); break;
		case 8: r = dp(e, 0, a, b, &f); wr = 0; break;
		case 9: r = dp(e, 13, I(0), b, &f); break;
		case 10: r = dp(e, 13, a, b, &f); wr = 0; break;
		case 11: r = dp(e, 8, a, b, &f); wr = 0; break;
		case 12: r = dp(e, 2, a, b, &f); break;
		case 13: r = vmul(a, b); nz(&f, r); break;
		case 14: r = dp(e, 1, a, b, &f); break;
		default: r = vnot(b); nz(&f, r); break;
		}
		if (wr)
			W(e, d, r);
		if (!inIT || !wr)
			setf(e, f);
	} else if (op >> 10 == 17) { /* hi regs, bx */
		int d = (op & 7) | (op >> 4 & 8), m = op >> 3 & 15;
		switch (op >> 8 & 3) {
		case 0: W(e, d, vadd(R(e, d), R(e, m))); break;
		case 1: dp(e, 13, R(e, d), R(e, m), &f); setf(e, f); break;
		case 2: W(e, d, R(e, m)); break;
		case 3: {
			V t = R(e, m);
			if (op >> 7 & 1) {
				e->r[14] = (e->r[15] + 2) | 1;
				e->rs[14] = 0;
			}
			bx(e, t);
			break;
		}
		}
	} else if (op >> 11 == 9) { /* ldr literal */
		W(e, op >> 8 & 7, ld(e, I(((e->r[15] + 4) & ~3u) + (op & 255) * 4), 4, 4));
	} else if (op >> 12 == 5) { /* load/store register offset */
		V a = vadd(R(e, op >> 3 & 7), R(e, op >> 6 & 7));
		int d = op & 7;
		switch (op >> 9 & 7) {
		case 0: st(e, a, R(e, d), 4, e->m0 ? 4 : 0); break;
		case 1: st(e, a, R(e, d), 2, e->m0 ? 2 : 0); break;
		case 2: st(e, a, R(e, d), 1, 0); break;
		case 3: W(e, d, vsx(ld(e, a, 1, 0), 8)); break;
		case 4: W(e, d, ld(e, a, 4, e->m0 ? 4 : 0)); break;
		case 5: W(e, d, ld(e, a, 2, e->m0 ? 2 : 0)); break;
		case 6: W(e, d, ld(e, a, 1, 0)); break;
		case 7: W(e, d, vsx(ld(e, a, 2, e->m0 ? 2 : 0), 16)); break;
		}
	} else if (op >> 13 == 3) { /* word/byte immediate */
		int byte = op >> 12 & 1, d = op & 7, o = op >> 6 & 31;
		V a = vadd(R(e, op >> 3 & 7), I(byte ? o : o * 4));
		if (op >> 11 & 1)
			W(e, d, ld(e, a, byte ? 1 : 4, !byte && e->m0 ? 4 : 0));
		else
			st(e, a, R(e, d), byte ? 1 : 4, !byte && e->m0 ? 4 : 0);
	} else if (op >> 12 == 8) { /* halfword immediate */
		V a = vadd(R(e, op >> 3 & 7), I((op >> 6 & 31) * 2));
		if (op >> 11 & 1)
			W(e, op & 7, ld(e, a, 2, e->m0 ? 2 : 0));
		else
			st(e, a, R(e, op & 7), 2, e->m0 ? 2 : 0);
	} else if (op >> 12 == 9) { /* sp relative */
		V a = vadd(R(e, 13), I((op & 255) * 4));
		if (op >> 11 & 1)
			W(e, op >> 8 & 7, ld(e, a, 4, e->m0 ? 4 : 0));
		else
			st(e, a, R(e, op >> 8 & 7), 4, e->m0 ? 4 : 0);
	} else if (op >> 12 == 10) { /* adr / add sp */
		V a = (op >> 11 & 1) ? R(e, 13) : I((e->r[15] + 4) & ~3u);
		W(e, op >> 8 & 7, vadd(a, I((op & 255) * 4)));
	} else if (op >> 8 == 0xb0) {
		u32 o = (op & 127) * 4;
		e->r[13] += (op & 128) ? 0u - o : o;
	} else if ((op & 0xf500) == 0xb100) { /* cbz/cbnz */
		V a = R(e, op & 7);
		e->cond_branches++;
		if (a.s && !(a.v & ~a.s) && e->trace_shadow)
			emu_fail(e, EMU_SHADOW, "branch");
		if ((a.v == 0) != (int)(op >> 11 & 1))
			npc = e->r[15] + 4 + ((op >> 3 & 31) * 2 | (op >> 9 & 1) << 6);
	} else if (op >> 8 == 0xb2) {
		V a = R(e, op >> 3 & 7);
		switch (op >> 6 & 3) {
		case 0: W(e, op & 7, vsx(a, 16)); break;
		case 1: W(e, op & 7, vsx(a, 8)); break;
		case 2: W(e, op & 7, vzx(a, 16)); break;
		case 3: W(e, op & 7, vzx(a, 8)); break;
		}
	} else if (op >> 9 == 0x5a) { /* push */
		int list = (op & 255) | (op & 256) << 6;
		u32 a = e->r[13] - 4 * __builtin_popcount(list);
		e->r[13] = a;
		stm(e, a, 0, list);
	} else if (op >> 9 == 0x5e) { /* pop */
		int list = (op & 255) | (op & 256) << 7;
		u32 a = e->r[13];
		ldm(e, a, 0, list);
		e->r[13] = a + 4 * __builtin_popcount(list);
	} else if (op >> 8 == 0xba) {
		V a = R(e, op >> 3 & 7);
		#define B4(x) __builtin_bswap32(x)
		#define B2(x) (((x) & 0xff00ff) << 8 | ((x) >> 8 & 0xff00ff))
		V q;
		switch (op >> 6 & 3) {
		case 0: q.v = B4(a.v), q.s = B4(a.s); W(e, op & 7, q); break;
		case 1: q.v = B2(a.v), q.s = B2(a.s); W(e, op & 7, q); break;
		case 3: q.v = B2(a.v), q.s = B2(a.s); W(e, op & 7, vsx(q, 16)); break;
		default: unk(e, op, 0);
		}
	} else if ((op & 0xffef) == 0xb662) { /* cpsie i, cpsid i */
		e->primask = op >> 4 & 1;
	} else if (op >> 8 == 0xbf) {
		if (op & 15)
			e->it = op & 255;
		/* else a hint */
	} else if (op >> 12 == 12) { /* stm/ldm */
		int n = op >> 8 & 7, list = op & 255;
		V a = R(e, n);
		if (op >> 11 & 1) {
			ldm(e, a.v, a.s, list);
			if (!(list >> n & 1))
				e->r[n] = a.v + 4 * __builtin_popcount(list);
		} else {
			stm(e, a.v, a.s, list);
			e->r[n] = a.v + 4 * __builtin_popcount(list);
		}
	} else if (op >> 12 == 13) {
		int c = op >> 8 & 15, sh;
		if (c == 15) {
			if (!e->svc || !e->svc(e, op & 255))
				unk(e, op, 0);
		} else if (c == 14) {
			emu_fail(e, EMU_FAULT, "undefined instruction (udf)");
		} else {
			int t = cond(e, c, &sh);
			e->cond_branches++;
			if (sh && e->trace_shadow)
				emu_fail(e, EMU_SHADOW, "branch");
			if (t)
				npc = e->r[15] + 4 + (u32)((int32_t)(int8_t)op * 2);
		}
	} else if (op >> 11 == 28) {
		npc = e->r[15] + 4 + (u32)((int32_t)(op << 21) >> 20);
		e->branches++;
	} else
		unk(e, op, 0);
}


/* lane-wise 16- or 8-bit add/sub; op: 0 add8, 1 add16, 2 asx, 4 sub8, 5 sub16, 6 sax; pre: 1 s, 2 q, 3 sh, 5 u, 6 uq, 7 uh */
static V parallel(emu *e, int op, int pre, V a, V b)
{
	int w = (op == 0 || op == 4) ? 8 : 16, lanes = 32 / w;
	int sg = pre < 4;
	V r = {0, 0};
	int ge = 0, ges = 0;
	if (op == 2 || op == 6)
		b = vror(b, 16);
	for (int i = 0; i < lanes; i++) {
		V x = {a.v >> (i * w), a.s >> (i * w)}, y = {b.v >> (i * w), b.s >> (i * w)}, q;
		int sub = op >= 4;
		if (op == 2)
			sub = i == 0;
		if (op == 6)
			sub = i == 1;
		x = sg ? vsx(x, w) : vzx(x, w);
		y = sg ? vsx(y, w) : vzx(y, w);
		q = sub ? vsub(x, y) : vadd(x, y);
		int32_t full = (int32_t)q.v;
		switch (pre & 3) {
		case 1:
			if (sg ? full >= 0 : sub ? full >= 0 : full >= (1 << w))
				ge |= (w == 8 ? 1 : 3) << (w == 8 ? i : 2 * i);
			if (q.s)
				ges |= (w == 8 ? 1 : 3) << (w == 8 ? i : 2 * i);
			break;
		case 2: {
			int32_t hi = sg ? (1 << (w - 1)) - 1 : (1 << w) - 1, lo = sg ? -(1 << (w - 1)) : 0;
			if (full > hi) full = hi;
			if (full < lo) full = lo;
			q.v = full;
			if (q.s) q.s = ~0u;
			break;
		}
		case 3:
			q.v = (u32)(full >> 1);
			q.s = (u32)((int32_t)q.s >> 1);
			break;
		}
		q = vzx(q, w);
		r.v |= q.v << (i * w);
		r.s |= q.s << (i * w);
	}
	if ((pre & 3) == 1)
		e->ge = ge, e->ges = ges;
	return r;
}

static void set64(emu *e, int lo, int hi, uint64_t v, u32 s)
{
	W(e, lo, vall((u32)v, s));
	W(e, hi, vall((u32)(v >> 32), s));
}

static void vfp(emu *e, u32 h, u32 l)
{
	int D = h >> 6 & 1, vd4 = l >> 12 & 15;
	int rn = h & 15;
	if ((h & 0xfe00) == 0xec00) {
		int P = h >> 8 & 1, U = h >> 7 & 1, Wb = h >> 5 & 1, L = h >> 4 & 1;
		int dbl = (l >> 8 & 15) == 11;
		int first = dbl ? 2 * (D << 4 | vd4) : (vd4 << 1 | D);
		u32 imm = (l & 255) * 4;
		if ((h & 0xffe0) == 0xec40) { /* two core registers */
			int t = l >> 12 & 15, t2 = h & 15, M = l >> 5 & 1, m = l & 15;
			int s0 = dbl ? 2 * (M << 4 | m) : (m << 1 | M);
			if (s0 + 1 > 31) { unk(e, h << 16 | l, 1); return; }
			if (L) {
				V a = {e->f[s0], e->fs[s0]}, b = {e->f[s0 + 1], e->fs[s0 + 1]};
				W(e, t, a);
				W(e, t2, b);
			} else {
				e->f[s0] = e->r[t], e->fs[s0] = e->rs[t];
				e->f[s0 + 1] = e->r[t2], e->fs[s0 + 1] = e->rs[t2];
			}
			return;
		}
		if (P && !Wb) { /* vldr/vstr */
			V a = R(e, rn);
			if (rn == 15)
				a.v &= ~3u;
			a = U ? vadd(a, I(imm)) : vsub(a, I(imm));
			for (int i = 0; i < 1 + dbl; i++) {
				if (first + i > 31) { unk(e, h << 16 | l, 1); return; }
				V p = vadd(a, I(4 * i)), x;
				if (L) {
					x = ld(e, p, 4, 4);
					e->f[first + i] = x.v, e->fs[first + i] = x.s;
				} else {
					x.v = e->f[first + i], x.s = e->fs[first + i];
					st(e, p, x, 4, 4);
				}
			}
			return;
		}
		/* vldm/vstm/vpush/vpop */
		int n = l & 255;
		if (dbl)
			n &= ~1;
		V a = R(e, rn), a0 = a;
		if (!U)
			a = a0 = vsub(a, I(imm));
		if (first + n > 32) { unk(e, h << 16 | l, 1); return; }
		if (rn == 13 && !U)
			e->r[13] = a.v;
		for (int i = 0; i < n && !e->stop; i++) {
			V x;
			if (L) {
				x = ld(e, a, 4, 4);
				e->f[first + i] = x.v, e->fs[first + i] = x.s;
			} else {
				x.v = e->f[first + i], x.s = e->fs[first + i];
				st(e, a, x, 4, 4);
			}
			a.v += 4;
		}
		if (Wb)
			W(e, rn, U ? a : a0);
		return;
	}
	if ((h & 0xffe0) == 0xee00 && (l & 0x0f7f) == 0x0a10) { /* vmov core <-> single */
		int s = (h & 15) << 1 | (l >> 7 & 1), t = l >> 12 & 15;
		if (h >> 4 & 1) {
			V x = {e->f[s], e->fs[s]};
			W(e, t, x);
		} else
			e->f[s] = e->r[t], e->fs[s] = e->rs[t];
		return;
	}
	if ((h & 0xffb0) == 0xeeb0 && (l & 0x0fd0) == 0x0a40 && (h & 15) == 0) { /* vmov.f32 Sd, Sm */
		int d = vd4 << 1 | D, m = (l & 15) << 1 | (l >> 5 & 1);
		e->f[d] = e->f[m], e->fs[d] = e->fs[m];
		return;
	}
	if ((h & 0xffb0) == 0xeeb0 && (l & 0x0ff0) == 0x0a00) { /* vmov.f32 immediate */
		int d = vd4 << 1 | D;
		u32 i8 = (h & 15) << 4 | (l & 15);
		e->f[d] = (i8 & 0x80) << 24 | ((i8 & 0x40) ? 0x3e000000u : 0x40000000u) | (i8 & 0x3f) << 19;
		e->fs[d] = 0;
		return;
	}
	unk(e, h << 16 | l, 1);
}

static void thumb32(emu *e, u32 h, u32 l)
{
	struct fl f = getf(e);
	u32 op = h << 16 | l;
	int n = h & 15, d = l >> 8 & 15, t = l >> 12 & 15;
	V r;
	if ((h & 0xfe40) == 0xe800) { /* ldm/stm */
		int L = h >> 4 & 1, Wb = h >> 5 & 1, list = l, k = __builtin_popcount(l);
		V a = R(e, n), a0 = a;
		if ((h >> 7 & 3) == 2) { /* db */
			a = vsub(a, I(4 * k));
			a0 = a;
			if (n == 13 && Wb)
				e->r[13] = a.v;
		} else if ((h >> 7 & 3) == 1) {
			a0 = vadd(a, I(4 * k));
		} else { unk(e, op, 1); return; }
		if (L) {
			ldm(e, a.v, a.s, list);
			if (Wb && !(list >> n & 1))
				W(e, n, a0);
		} else {
			stm(e, a.v, a.s, list);
			if (Wb)
				W(e, n, a0);
		}
	} else if ((h & 0xfe40) == 0xe840) { /* ldrd/strd, exclusive, tbb */
		int P = h >> 8 & 1, U = h >> 7 & 1, Wb = h >> 5 & 1, L = h >> 4 & 1;
		if (!P && !Wb) {
			if ((h & 0xfff0) == 0xe8d0 && (l & 0xffe0) == 0xf000) { /* tbb/tbh */
				V idx = R(e, l & 15), base = R(e, n);
				if (l >> 4 & 1) {
					r = ld(e, vadd(base, vadd(idx, idx)), 2, 0);
				} else
					r = ld(e, vadd(base, idx), 1, 0);
				if (r.s && e->trace_shadow)
					emu_fail(e, EMU_SHADOW, "branch");
				npc = e->r[15] + 4 + 2 * r.v;
				e->branches++;
				return;
			}
			unk(e, op, 1);
			return;
		}
		int t2 = d;
		V base = R(e, n), off = I((l & 255) * 4), a;
		if (n == 15)
			base.v &= ~3u;
		V moved = U ? vadd(base, off) : vsub(base, off);
		a = P ? moved : base;
		if (Wb && n == 13 && moved.v < e->r[13])
			e->r[13] = moved.v;
		if (L) {
			V x = ld(e, a, 4, 4), y = ld(e, vadd(a, I(4)), 4, 4);
			if (e->stop)
				return;
			W(e, t, x);
			W(e, t2, y);
		} else {
			st(e, a, R(e, t), 4, 4);
			st(e, vadd(a, I(4)), R(e, t2), 4, 4);
		}
		if (Wb)
			W(e, n, moved);
	} else if ((h & 0xfe00) == 0xea00) { /* data processing, shifted register */
		int o = h >> 5 & 15, S = h >> 4 & 1;
		V b = shift_imm(R(e, l & 15), l >> 4 & 3, (l >> 10 & 0x1c) | (l >> 6 & 3), &f.c, &f.cs), a = R(e, n);
		if ((l >> 4 & 3) == 0 && ((l >> 10 & 0x1c) | (l >> 6 & 3)) == 0)
			f.c = e->c, f.cs = e->cs;
		if (o == 6) { /* pkh */
			V x = R(e, n), y = R(e, l & 15);
			int im = (l >> 10 & 0x1c) | (l >> 6 & 3);
			uint8_t c1 = 0, c2 = 0;
			y = shift_imm(y, (l >> 5 & 1) ? 2 : 0, im, &c1, &c2);
			if (l >> 5 & 1) { /* pkhtb: top from Rn, bottom from shifted Rm */
				r.v = (x.v & 0xffff0000u) | (y.v & 0xffff);
				r.s = (x.s & 0xffff0000u) | (y.s & 0xffff);
			} else {
				r.v = (x.v & 0xffff) | (y.v & 0xffff0000u);
				r.s = (x.s & 0xffff) | (y.s & 0xffff0000u);
			}
			W(e, d, r);
			return;
		}
		if (o == 2 && n == 15) {
			r = b;
			nz(&f, r);
		} else if (o == 3 && n == 15) {
			r = vnot(b);
			nz(&f, r);
		} else
			r = dp(e, o, a, b, &f);
		if (!(d == 15 && S))
			W(e, d, r);
		if (S)
			setf(e, f);
	} else if ((h & 0xec00) == 0xec00) { /* coprocessor */
		vfp(e, h, l);
	} else if ((h & 0xf800) == 0xf000 && !(l >> 15)) {
		if (!(h >> 9 & 1)) { /* modified immediate */
			int o = h >> 5 & 15, S = h >> 4 & 1;
			u32 imm12 = (h >> 10 & 1) << 11 | (l >> 12 & 7) << 8 | (l & 255);
			V b = expand_imm(e, imm12, &f), a = R(e, n);
			if (o == 2 && n == 15) {
				r = b;
				nz(&f, r);
			} else if (o == 3 && n == 15) {
				r = vnot(b);
				nz(&f, r);
			} else
				r = dp(e, o, a, b, &f);
			if (!(d == 15 && S))
				W(e, d, r);
			if (S)
				setf(e, f);
		} else { /* plain immediate */
			u32 imm12 = (h >> 10 & 1) << 11 | (l >> 12 & 7) << 8 | (l & 255);
			int lsb = (l >> 10 & 0x1c) | (l >> 6 & 3), wm1 = l & 31;
			V a = R(e, n);
			if (n == 15)
				a.v &= ~3u;
			switch (h >> 4 & 31) {
			case 0: W(e, d, vadd(a, I(imm12))); break;
			case 10: W(e, d, vsub(a, I(imm12))); break;
			case 4: W(e, d, I(imm12 | (h & 15) << 12)); break;
			case 12: r = R(e, d); r.v = (r.v & 0xffff) | (imm12 | (h & 15) << 12) << 16; r.s &= 0xffff; W(e, d, r); break;
			case 20: r.v = a.v >> lsb; r.s = a.s >> lsb; W(e, d, vsx(vzx(r, wm1 + 1), wm1 + 1)); break;
			case 28: r.v = a.v >> lsb; r.s = a.s >> lsb; W(e, d, vzx(r, wm1 + 1)); break;
			case 22: { /* bfi/bfc */
				u32 m = (wm1 - lsb + 1 >= 32 ? ~0u : (1u << (wm1 - lsb + 1)) - 1) << lsb;
				V o = R(e, d);
				if (n == 15)
					a = I(0);
				r.v = (o.v & ~m) | ((a.v << lsb) & m);
				r.s = (o.s & ~m) | ((a.s << lsb) & m);
				W(e, d, r);
				break;
			}
			case 16: case 18: case 24: case 26: { /* ssat, usat and the 16-bit forms */
				int is16 = (h >> 5 & 1) && lsb == 0, us = h >> 7 & 1;
				uint8_t c1 = 0, c2 = 0;
				if (!is16)
					a = shift_imm(a, (h >> 5 & 1) ? 2 : 0, lsb, &c1, &c2);
				int bits = us ? wm1 : wm1 + 1;
				int64_t hi = us ? ((int64_t)1 << bits) - 1 : ((int64_t)1 << (bits - 1)) - 1, lo = us ? 0 : -((int64_t)1 << (bits - 1));
				if (!is16) {
					int64_t x = (int32_t)a.v;
					if (x > hi) x = hi;
					if (x < lo) x = lo;
					W(e, d, vall((u32)x, a.s));
				} else {
					u32 o = 0;
					for (int i = 0; i < 2; i++) {
						int64_t x = (int16_t)(a.v >> (16 * i));
						if (x > hi) x = hi;
						if (x < lo) x = lo;
						o |= ((u32)x & 0xffff) << (16 * i);
					}
					W(e, d, vall(o, a.s));
				}
				break;
			}
			default: unk(e, op, 1);
			}
		}
	} else if ((h & 0xf800) == 0xf000) { /* branches */
		int S = h >> 10 & 1, J1 = l >> 13 & 1, J2 = l >> 11 & 1;
		if ((l & 0xd000) == 0x8000) {
			int c = h >> 6 & 15, sh;
			if (c >= 14) {
				if (h == 0xf3bf || h == 0xf3af) /* barriers, hints */
					return;
				unk(e, op, 1);
				return;
			}
			u32 o = (h & 63) << 12 | (l & 0x7ff) << 1 | (u32)J1 << 18 | (u32)J2 << 19 | (u32)S << 20;
			o = (u32)((int32_t)(o << 11) >> 11);
			int tk = cond(e, c, &sh);
			e->cond_branches++;
			if (sh && e->trace_shadow)
				emu_fail(e, EMU_SHADOW, "branch");
			if (tk)
				npc = e->r[15] + 4 + o;
		} else {
			u32 i1 = !(J1 ^ S), i2 = !(J2 ^ S);
			u32 o = (h & 0x3ff) << 12 | (l & 0x7ff) << 1 | i2 << 22 | i1 << 23 | (u32)S << 24;
			o = (u32)((int32_t)(o << 7) >> 7);
			if ((l & 0xd000) == 0xc000) { unk(e, op, 1); return; }
			if ((l & 0xd000) == 0xd000) {
				e->r[14] = (e->r[15] + 4) | 1;
				e->rs[14] = 0;
			}
			npc = e->r[15] + 4 + o;
			e->branches++;
		}
	} else if ((h & 0xfe00) == 0xf800) { /* single load/store */
		int sz = h >> 5 & 3, L = h >> 4 & 1, sg = h >> 8 & 1, bytes = 1 << sz;
		V base = R(e, n), a, moved = base;
		int wb = 0;
		if (sz == 3) { unk(e, op, 1); return; }
		if (L && n == 15) { /* literal */
			base.v &= ~3u;
			a = (h >> 7 & 1) ? vadd(base, I(l & 0xfff)) : vsub(base, I(l & 0xfff));
		} else if (h >> 7 & 1) {
			a = vadd(base, I(l & 0xfff));
		} else if (l >> 11 & 1) {
			int P = l >> 10 & 1, U = l >> 9 & 1;
			wb = l >> 8 & 1;
			moved = U ? vadd(base, I(l & 255)) : vsub(base, I(l & 255));
			a = P ? moved : base;
			if (wb && n == 13 && moved.v < e->r[13])
				e->r[13] = moved.v;
		} else if ((l & 0xfc0) == 0) {
			V m = R(e, l & 15);
			m.v <<= l >> 4 & 3;
			m.s <<= l >> 4 & 3;
			a = vadd(base, m);
		} else { unk(e, op, 1); return; }
		if (L) {
			if (t == 15 && sz < 2) /* pld and friends */
				return;
			r = ld(e, a, bytes, 0);
			if (e->stop)
				return;
			if (sg)
				r = vsx(r, 8 * bytes);
			if (wb)
				W(e, n, moved);
			if (t == 15)
				bx(e, r);
			else
				W(e, t, r);
		} else {
			st(e, a, R(e, t), bytes, 0);
			if (wb)
				W(e, n, moved);
		}
	} else if ((h & 0xff00) == 0xfa00) {
		int m = l & 15, o = h >> 4 & 15;
		if (!(l >> 7 & 1)) { /* shifts by register */
			if (l >> 4 & 7) {
				int pre = l >> 4 & 7;
				int k = h >> 4 & 7; /* 0 add8 1 add16 2 asx 4 sub8 5 sub16 6 sax */
				if (!(h >> 7 & 1)) { unk(e, op, 1); return; }
				/* prefix field: 0 s, 1 q, 2 sh, 4 u, 5 uq, 6 uh */
				W(e, d, parallel(e, k, pre + 1, R(e, n), R(e, m)));
				return;
			}
			if (h >> 7 & 1) { /* signed parallel, prefix 0 */
				W(e, d, parallel(e, h >> 4 & 7, 1, R(e, n), R(e, m)));
				return;
			}
			V b = R(e, m);
			r = shift(R(e, n), h >> 5 & 3, b.v & 255, b.s & 255, &f.c, &f.cs);
			nz(&f, r);
			W(e, d, r);
			if (h >> 4 & 1)
				setf(e, f);
		} else if (o < 6) { /* extends */
			V x = vror(R(e, m), (l >> 4 & 3) * 8), acc = n == 15 ? I(0) : R(e, n);
			switch (o) {
			case 0: W(e, d, vadd(acc, vsx(x, 16))); break;
			case 1: W(e, d, vadd(acc, vzx(x, 16))); break;
			case 4: W(e, d, vadd(acc, vsx(x, 8))); break;
			case 5: W(e, d, vadd(acc, vzx(x, 8))); break;
			case 2: case 3: {
				V a, b, hi = {x.v >> 16, x.s >> 16}, ah = {acc.v >> 16, acc.s >> 16};
				a = vzx(vadd(acc, o == 2 ? vsx(x, 8) : vzx(x, 8)), 16);
				b = vzx(vadd(ah, o == 2 ? vsx(hi, 8) : vzx(hi, 8)), 16);
				r.v = a.v | b.v << 16;
				r.s = a.s | b.s << 16;
				W(e, d, r);
				break;
			}
			}
		} else if (o >= 8 && (l & 0xf0c0) == 0xf080) {
			V x = R(e, m), y = R(e, n), q;
			int o2 = l >> 4 & 3;
			if (o == 9) {
				u32 rb, rbs;
				switch (o2) {
				case 0: q.v = B4(x.v), q.s = B4(x.s); W(e, d, q); return;
				case 1: q.v = B2(x.v), q.s = B2(x.s); W(e, d, q); return;
				case 3: q.v = B2(x.v), q.s = B2(x.s); W(e, d, vsx(q, 16)); return;
				default:
					rb = rbs = 0;
					for (int i = 0; i < 32; i++) {
						rb |= (x.v >> i & 1) << (31 - i);
						rbs |= (x.s >> i & 1) << (31 - i);
					}
					q.v = rb, q.s = rbs;
					W(e, d, q);
					return;
				}
			} else if (o == 10 && o2 == 0) { /* sel */
				r.v = r.s = 0;
				for (int i = 0; i < 4; i++) {
					u32 mk = 255u << (8 * i);
					int g = e->ge >> i & 1;
					r.v |= (g ? y.v : x.v) & mk;
					r.s |= (e->ges >> i & 1) ? mk : ((g ? y.s : x.s) & mk);
				}
				W(e, d, r);
			} else if (o == 11 && o2 == 0) { /* clz */
				W(e, d, vall(x.v ? __builtin_clz(x.v) : 32, x.s));
			} else if (o == 8) { /* qadd qdadd qsub qdsub */
				int64_t p = (int32_t)x.v, k = (int32_t)y.v;
				if (o2 & 1) {
					k *= 2;
					if (k > INT32_MAX) k = INT32_MAX;
					if (k < INT32_MIN) k = INT32_MIN;
				}
				p = o2 & 2 ? p - k : p + k;
				if (p > INT32_MAX) p = INT32_MAX;
				if (p < INT32_MIN) p = INT32_MIN;
				W(e, d, vall((u32)p, x.s | y.s));
			} else
				unk(e, op, 1);
		} else if (o >= 8 && (l & 0xf080) == 0xf000) {
			int pre = (l >> 4 & 7);
			W(e, d, parallel(e, h >> 4 & 7, pre + 1, R(e, n), R(e, m)));
		} else
			unk(e, op, 1);
	} else if ((h & 0xff80) == 0xfb00) { /* 32-bit multiplies */
		int m = l & 15, o = h >> 4 & 7, o2 = l >> 4 & 15;
		V x = R(e, n), y = R(e, m), acc = t == 15 ? I(0) : R(e, t);
		V xl = vsx(x, 16), yl = vsx(y, 16), xh = {(u32)((int32_t)x.v >> 16), (u32)((int32_t)x.s >> 16)}, yh = {(u32)((int32_t)y.v >> 16), (u32)((int32_t)y.s >> 16)};
		switch (o) {
		case 0:
			if (o2 == 0)
				W(e, d, vadd(vmul(x, y), acc));
			else if (o2 == 1)
				W(e, d, vsub(acc, vmul(x, y)));
			else
				unk(e, op, 1);
			break;
		case 1: W(e, d, vadd(vmul((o2 & 2) ? xh : xl, (o2 & 1) ? yh : yl), acc)); break;
		case 2: if (o2 & 1) { V q = yl; yl = yh; yh = q; } W(e, d, vadd(vadd(vmul(xl, yl), vmul(xh, yh)), acc)); break;
		case 3: {
			int64_t p = (int64_t)(int32_t)x.v * (int16_t)((o2 & 1) ? y.v >> 16 : y.v);
			W(e, d, vadd(vall((u32)(p >> 16), x.s | y.s), acc));
			break;
		}
		case 4: if (o2 & 1) { V q = yl; yl = yh; yh = q; } W(e, d, vadd(vsub(vmul(xl, yl), vmul(xh, yh)), acc)); break;
		case 5: case 6: {
			int64_t p = (int64_t)(int32_t)x.v * (int32_t)y.v;
			uint64_t a64 = (uint64_t)acc.v << 32;
			uint64_t q = o == 5 ? a64 + (uint64_t)p : a64 - (uint64_t)p;
			if (o2 & 1)
				q += 0x80000000u;
			W(e, d, vall((u32)(q >> 32), x.s | y.s | acc.s));
			break;
		}
		case 7: {
			u32 sum = acc.v;
			for (int i = 0; i < 4; i++) {
				int q = (int)(x.v >> (8 * i) & 255) - (int)(y.v >> (8 * i) & 255);
				sum += q < 0 ? -q : q;
			}
			W(e, d, vall(sum, x.s | y.s | acc.s));
			break;
		}
		}
	} else if ((h & 0xff80) == 0xfb80) { /* long multiplies, divide */
		int m = l & 15, o = h >> 4 & 7, o2 = l >> 4 & 15;
		V x = R(e, n), y = R(e, m);
		u32 s = x.s | y.s;
		uint64_t acc = (uint64_t)e->r[d] << 32 | e->r[t];
		u32 as = e->rs[d] | e->rs[t];
		if (o == 0 && o2 == 0)
			set64(e, t, d, (uint64_t)((int64_t)(int32_t)x.v * (int32_t)y.v), s);
		else if (o == 2 && o2 == 0)
			set64(e, t, d, (uint64_t)x.v * y.v, s);
		else if (o == 1 || o == 3) {
			if (s && e->trace_shadow)
				emu_fail(e, EMU_SHADOW, "divide");
			if (o == 1)
				W(e, d, vall(!y.v ? 0 : (x.v == 0x80000000u && y.v == ~0u) ? x.v : (u32)((int32_t)x.v / (int32_t)y.v), s));
			else
				W(e, d, vall(y.v ? x.v / y.v : 0, s));
		} else if (o == 4 && o2 == 0)
			set64(e, t, d, acc + (uint64_t)((int64_t)(int32_t)x.v * (int32_t)y.v), s | as);
		else if (o == 4 && (o2 & 0xc) == 8)
			set64(e, t, d, acc + (uint64_t)((int64_t)(int16_t)((o2 & 2) ? x.v >> 16 : x.v) * (int16_t)((o2 & 1) ? y.v >> 16 : y.v)), s | as);
		else if ((o == 4 || o == 5) && (o2 & 0xe) == 0xc) {
			u32 yy = (o2 & 1) ? (y.v >> 16 | y.v << 16) : y.v;
			int64_t p0 = (int64_t)(int16_t)x.v * (int16_t)yy, p1 = (int64_t)(int16_t)(x.v >> 16) * (int16_t)(yy >> 16);
			set64(e, t, d, acc + (uint64_t)(o == 4 ? p0 + p1 : p0 - p1), s | as);
		} else if (o == 6 && o2 == 0)
			set64(e, t, d, acc + (uint64_t)x.v * y.v, s | as);
		else if (o == 6 && o2 == 6)
			set64(e, t, d, (uint64_t)x.v * y.v + e->r[d] + e->r[t], s | as);
		else
			unk(e, op, 1);
	} else
		unk(e, op, 1);
}

static void one(emu *e, u32 h, u32 l, int wide)
{
	if (wide)
		thumb32(e, h, l);
	else
		thumb16(e, h);
}

static int moves_or_branches(u32 h, int wide)
{
	/* loads, stores, branches, divides: under a shadowed condition they show */
	if (!wide) {
		int top = h >> 12;
		return (top >= 5 && top <= 9) || h >> 11 == 9 || top >= 12 || (h >> 9 == 0x5a) || (h >> 9 == 0x5e) || (h & 0xff00) == 0x4700 || (h & 0xf500) == 0xb100;
	}
	return (h & 0xfe00) == 0xe800 || (h & 0xfe00) == 0xec00 || ((h & 0xf800) == 0xf000 && 0) || (h & 0xfe00) == 0xf800 || (h & 0xff90) == 0xfb90;
}

static void push_frame(emu *e, u32 pc)
{
	V a = {e->r[13] - 32, 0}, x;
	const u32 v[8] = {e->r[0], e->r[1], e->r[2], e->r[3], e->r[12], e->r[14], pc, (u32)e->n << 31 | (u32)e->z << 30 | (u32)e->c << 29 | (u32)e->v << 28};
	const u32 s[8] = {e->rs[0], e->rs[1], e->rs[2], e->rs[3], e->rs[12], e->rs[14], 0, (u32)e->ns << 31 | (u32)e->zs << 30 | (u32)e->cs << 29 | (u32)e->vs << 28};
	e->r[13] -= 32;
	for (int i = 0; i < 8; i++, a.v += 4)
		x.v = v[i], x.s = s[i], st(e, a, x, 4, 4);
	e->r[14] = 0xfffffff9u;
	e->rs[14] = 0;
	e->in_irq = 1;
}
static u32 pop_frame(emu *e)
{
	V a = {e->r[13], 0}, x[8];
	for (int i = 0; i < 8; i++, a.v += 4)
		x[i] = ld(e, a, 4, 4);
	const int to[6] = {0, 1, 2, 3, 12, 14};
	for (int i = 0; i < 6; i++)
		e->r[to[i]] = x[i].v, e->rs[to[i]] = x[i].s;
	e->n = x[7].v >> 31, e->z = x[7].v >> 30 & 1, e->c = x[7].v >> 29 & 1, e->v = x[7].v >> 28 & 1;
	e->ns = x[7].s >> 31, e->zs = x[7].s >> 30 & 1, e->cs = x[7].s >> 29 & 1, e->vs = x[7].s >> 28 & 1;
	e->r[13] += 32;
	e->in_irq = 0;
	return x[6].v;
}
static void run(emu *e, u32 pc);

enum emu_stop emu_boot(emu *e, u32 vectors)
{
	u32 q = emu_phys(e, vectors), pc;
	e->stop = EMU_OK;
	e->why[0] = 0;
	for (int i = 0; i < 15; i++)
		e->r[i] = 0xa5a5a500u + i, e->rs[i] = ~0u;
	e->ns = e->zs = e->cs = e->vs = 1;
	memcpy(&e->r[13], e->mem + q, 4);
	memcpy(&pc, e->mem + q + 4, 4);
	e->rs[13] = e->rs[14] = 0;
	e->r[14] = RETADDR | 1;
	e->stack_hi = e->min_sp = e->r[13];
	run(e, pc & ~1u);
	return e->stop;
}

static void run(emu *e, u32 pc)
{
	uint64_t end = e->icount + e->limit;
	while (pc != RETADDR) {
		if (e->icount++ >= end) {
			emu_fail(e, EMU_LIMIT, "instruction budget used up");
			break;
		}
		e->r[15] = pc;
		u32 q = pc;
		if (e->board) {
			if (e->tick)
				e->tick(e);
			if (e->irq && !e->primask && !e->in_irq) {
				e->irq = 0;
				push_frame(e, pc);
				if (e->stop)
					break;
				e->r[15] = pc = 0x2000003cu;     /* where the boot ROM sends the system tick */
			}
			q = emu_phys(e, pc);
		}
		if (q >= EMU_MEM - 4 || (pc & 1) || !(e->perm[q] & P_X)) {
			emu_fail(e, EMU_FAULT, "execution outside the code");
			break;
		}
		if ((e->perm[q] & P_B) && e->stopat)
			e->stopat(e, pc);
		u32 sp_before = e->r[13];
		u32 h = e->mem[q] | e->mem[q + 1] << 8, l = 0;
		int wide = h >> 11 >= 29;
		e->seen[q >> 1] = 1;
		if (wide)
			l = e->mem[q + 2] | e->mem[q + 3] << 8;
		npc = pc + (wide ? 4 : 2);
		if (e->it & 15) {
			int sh, c = e->it >> 4, take = cond(e, c, &sh);
			u32 it = e->it;
			if (sh && e->trace_shadow) {
				if (moves_or_branches(h, wide))
					emu_fail(e, EMU_SHADOW, "conditional memory access or branch");
				emu b = *e;
				u32 sv = npc;
				one(&b, h, l, wide);        /* as if executed */
				npc = sv;
				emu x = *e;                 /* as if skipped */
				for (int i = 0; i < 15; i++) {
					u32 m = b.rs[i] | x.rs[i] | (b.r[i] ^ x.r[i]);
					if (take)
						e->r[i] = b.r[i];
					e->rs[i] = m;
				}
				#define MERGE(q) if (b.q != x.q) e->q##s = 1; else e->q##s |= b.q##s; if (take) e->q = b.q
				MERGE(n); MERGE(z); MERGE(c); MERGE(v);
				if (b.stop)
					emu_fail(e, b.stop, "%s", b.why);
			} else if (take)
				one(e, h, l, wide);
			if (e->it == it) {
				e->it = (e->it & 0xe0) | ((e->it << 1) & 0x1f);
				if (!(e->it & 15))
					e->it = 0;
			}
		} else
			one(e, h, l, wide);
		if (e->stop)
			break;
		if (e->r[13] != sp_before) {
			if (e->r[13] < e->min_sp)
				e->min_sp = e->r[13];
			if (e->dead_stack && e->r[13] > sp_before && e->r[13] <= e->stack_hi)
				memset(e->sh + emu_phys(e, sp_before), 0xff, e->r[13] - sp_before);
			if (e->board && e->r[13] < e->stack_lo) {
				emu_fail(e, EMU_FAULT, "the stack runs into the data");
				break;
			}
		}
		if (e->board && e->in_irq && npc >= 0xffffffe0u)
			npc = pop_frame(e);
		pc = npc;
	}
}

enum emu_stop emu_call(emu *e, u32 fn, const u32 *args, int nargs, u32 *ret)
{
	u32 saved[8], savedf[16], sp0;
	e->stop = EMU_OK;
	e->why[0] = 0;
	e->it = 0;
	for (int i = 0; i < 13; i++)
		e->r[i] = 0xa5a5a500u + i, e->rs[i] = 0;
	for (int i = 0; i < 32; i++)
		e->f[i] = 0x5a5a5a00u + i, e->fs[i] = 0;
	e->n = e->z = e->c = e->v = e->ns = e->zs = e->cs = e->vs = 0;
	e->r[13] = e->stack_hi;
	e->rs[13] = e->rs[14] = 0;
	for (int i = 0; i < nargs && i < 4; i++)
		e->r[i] = args[i];
	if (nargs > 4) { /* the rest is on the stack */
		e->r[13] -= ((nargs - 4 + 1) & ~1) * 4;
		memcpy(e->mem + emu_phys(e, e->r[13]), args + 4, 4 * (nargs - 4));
		memset(e->sh + emu_phys(e, e->r[13]), 0, 4 * (nargs - 4));
	}
	for (int i = 0; i < 8; i++)
		saved[i] = e->r[4 + i];
	for (int i = 0; i < 16; i++)
		savedf[i] = e->f[16 + i];
	sp0 = e->r[13];
	e->r[14] = RETADDR | 1;
	run(e, fn & ~1u);
	if (!e->stop) {
		for (int i = 0; i < 8; i++)
			if (e->r[4 + i] != saved[i])
				emu_fail(e, EMU_FAULT, "returned with callee-saved r%d changed", 4 + i);
		for (int i = 0; i < 16 && !e->m0; i++)
			if (e->f[16 + i] != savedf[i])
				emu_fail(e, EMU_FAULT, "returned with callee-saved s%d changed", 16 + i);
		if (e->r[13] != sp0)
			emu_fail(e, EMU_FAULT, "returned with another stack pointer");
		if (e->stop)
			e->stop_pc = fn;
	}
	if (ret)
		*ret = e->r[0];
	return e->stop;
}
