/* Host stand-ins for the Cortex-M0 firmware's hardware generator and assembly. */
#include "model.h"
void randombytes(unsigned char *p, unsigned long long n) { memset(p, 0x55, n); }
void KeccakF1600_Initialize(void) {}
void KeccakF1600_StateInitialize(void *s) { memset(s, 0, 200); }
void KeccakF1600_StatePermute(void *s) { uint64_t A[25]; memcpy(A, s, 200); m_keccak_f(A); memcpy(s, A, 200); }
void KeccakF1600_StateXORBytes(void *s, const unsigned char *d, unsigned off, unsigned n) { for (unsigned i = 0; i < n; i++) ((unsigned char *)s)[off + i] ^= d[i]; }
void KeccakF1600_StateExtractBytes(void *s, unsigned char *d, unsigned off, unsigned n) { memcpy(d, (unsigned char *)s + off, n); }
void KeccakF1600_StateComplementBit(void *s, unsigned pos) { ((unsigned char *)s)[pos / 8] ^= (unsigned char)(1u << (pos % 8)); }
