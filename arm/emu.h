/* A monitored ARMv6-M / ARMv7E-M interpreter. Every guest access is checked against per-byte permissions, alignment
   rules of the core and the stack pointer, and every register and memory bit carries a shadow bit (secret or
   undefined, depending on what the caller shadowed), so that a shadowed branch condition or address is an event. */
#ifndef EMU_H
#define EMU_H
#include <stddef.h>
#include <stdint.h>

#define EMU_MEM (4u << 20)
enum { P_R = 1, P_W = 2, P_X = 4, P_B = 8 };
#define BOARD_FLASH 0x00100000u
#define BOARD_RAM 0x00300000u

enum emu_stop {
	EMU_OK = 0,
	EMU_FAULT,      /* access outside what the call may touch, alignment fault, below the stack pointer */
	EMU_SHADOW,     /* branch or address depends on shadowed data */
	EMU_UNKNOWN,    /* instruction the interpreter does not know: inconclusive */
	EMU_LIMIT       /* instruction budget used up */
};

typedef struct emu {
	uint32_t r[16], rs[16];
	uint32_t f[32], fs[32];
	uint8_t n, z, c, v, ns, zs, cs, vs, ge, ges;
	uint8_t it;
	int m0;                     /* ARMv6-M: unaligned accesses fault */
	int trace_shadow;           /* report EMU_SHADOW events */
	int paint;                  /* board: accesses below the stack pointer are deliberate */
	int dead_stack;             /* released stack becomes shadowed */
	uint32_t stack_lo, stack_hi, min_sp;
	uint64_t icount, limit, loads, stores, branches, cond_branches;
	enum emu_stop stop;
	char why[160];
	uint32_t stop_pc;
	int done;
	int (*svc)(struct emu *, unsigned n);
	/* a whole board: flash at 0x10000000, RAM at 0x20000000, everything from 0x40000000 on is a device */
	int board, in_irq, irq;
	struct { uint32_t a, n; uint8_t *init; } ram[16];   /* the RAM sections and what main must find there */
	int nram;
	uint8_t primask;
	uint32_t (*mmio)(struct emu *, uint32_t a, int n, int write, uint32_t v);
	void (*tick)(struct emu *);
	void (*stopat)(struct emu *, uint32_t pc);   /* called before code marked P_B */
	uint8_t *mem, *perm, *sh;
	uint8_t *seen;              /* one byte per halfword of code: executed */
} emu;

void emu_init(emu *e);
int emu_load_elf(emu *e, const char *path);
uint32_t emu_sym(const char *name);             /* 0 if absent */
const char *emu_where(uint32_t pc);
enum emu_stop emu_call(emu *e, uint32_t fn, const uint32_t *args, int nargs, uint32_t *ret);
enum emu_stop emu_boot(emu *e, uint32_t vectors);
uint32_t emu_phys(emu *e, uint32_t a);
int emu_load_board(emu *e, const char *path);
void emu_map(emu *e, uint32_t a, uint32_t len, int perm);
void emu_fail(emu *e, enum emu_stop s, const char *fmt, ...);
#endif
