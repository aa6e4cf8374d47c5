/* the few library routines the firmware needs */
#include <stddef.h>
#include <stdint.h>
void *memcpy(void *d, const void *s, size_t n) { uint8_t *a = d; const uint8_t *b = s; while (n--) *a++ = *b++; return d; }
void *memmove(void *d, const void *s, size_t n)
{
	uint8_t *a = d; const uint8_t *b = s;
	if (a <= b) while (n--) *a++ = *b++;
	else while (n--) a[n] = b[n];
	return d;
}
void *memset(void *d, int c, size_t n) { uint8_t *a = d; while (n--) *a++ = (uint8_t)c; return d; }
int memcmp(const void *x, const void *y, size_t n)
{
	const uint8_t *a = x, *b = y;
	for (; n; n--, a++, b++) if (*a != *b) return *a < *b ? -1 : 1;
	return 0;
}
void abort(void) { __asm__ volatile("udf #0"); for (;;) ; }
