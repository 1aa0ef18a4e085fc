#include <stddef.h>
typedef _Bool u1;
typedef unsigned char u8; typedef unsigned short u16; typedef unsigned int u32; typedef unsigned long u64; typedef unsigned __int128 u128;
typedef signed char s8; typedef short s16; typedef int s32; typedef long s64; typedef __int128 s128;
typedef char *ptr;
#define VP_ND(t,n) static t n(void) { t x; return x; } /* an uninitialised local is an arbitrary value in CBMC */
VP_ND(u1,nd_u1) VP_ND(u8,nd_u8) VP_ND(u16,nd_u16) VP_ND(u32,nd_u32) VP_ND(u64,nd_u64) VP_ND(double,nd_double) VP_ND(float,nd_float) VP_ND(ptr,nd_ptr)
u64 VP_REC; double VP_RECD;
void *malloc(size_t); void free(void*); double sqrt(double); double fmod(double,double); double ldexp(double,int);
static ptr vp_malloc(u64 n) { return (ptr)malloc(n); }
static ptr vp_calloc(u64 n, u64 s) { u64 k = n*s; ptr p = (ptr)malloc(k); for (u64 i = 0; i < k; i++) p[i] = 0; return p; }
static void vp_memcpy(ptr d, ptr s, u64 n) { for (u64 i = 0; i < n; i++) d[i] = s[i]; }
static void vp_memmove(ptr d, ptr s, u64 n) { if (n == 0) return; if (__CPROVER_same_object(d,s) && __CPROVER_POINTER_OFFSET(d) > __CPROVER_POINTER_OFFSET(s)) { for (u64 i = n; i > 0; i--) d[i-1] = s[i-1]; } else { for (u64 i = 0; i < n; i++) d[i] = s[i]; } }
static void vp_memset(ptr d, u8 v, u64 n) { for (u64 i = 0; i < n; i++) d[i] = (char)v; }
static u32 vp_memcmp(ptr a, ptr b, u64 n) { for (u64 i = 0; i < n; i++) { u8 x = a[i], y = b[i]; if (x != y) return (u32)((s32)x - (s32)y); } return 0; }
static u64 vp_strlen(ptr a) { u64 n = 0; while (a[n]) n++; return n; }
static u32 vp_strcmp(ptr a, ptr b) { for (u64 i = 0;; i++) { u8 x = a[i], y = b[i]; if (x != y) return (u32)((s32)x - (s32)y); if (!x) return 0; } }
static u64 vp_popcount(u64 x) { x = x - ((x >> 1) & 0x5555555555555555UL); x = (x & 0x3333333333333333UL) + ((x >> 2) & 0x3333333333333333UL); x = (x + (x >> 4)) & 0x0f0f0f0f0f0f0f0fUL; x += x >> 8; x += x >> 16; x += x >> 32; return x & 127; }
static u64 vp_clz(u64 x, int w) { u64 n = 0; u64 s; x <<= (64 - w); if (x == 0) return w;
  if (!(x >> 32)) { n += 32; x <<= 32; } if (!(x >> 48)) { n += 16; x <<= 16; } if (!(x >> 56)) { n += 8; x <<= 8; } if (!(x >> 60)) { n += 4; x <<= 4; } if (!(x >> 62)) { n += 2; x <<= 2; } if (!(x >> 63)) n += 1; return n; }
static u64 vp_ctz(u64 x, int w) { if (w < 64) x &= ((1UL << w) - 1); if (x == 0) return w; return vp_popcount((x & (0 - x)) - 1); }
static u64 vp_bitrev(u64 x, int w) { x = ((x>>1)&0x5555555555555555UL)|((x&0x5555555555555555UL)<<1); x = ((x>>2)&0x3333333333333333UL)|((x&0x3333333333333333UL)<<2); x = ((x>>4)&0x0f0f0f0f0f0f0f0fUL)|((x&0x0f0f0f0f0f0f0f0fUL)<<4); x = __builtin_bswap64(x); return x >> (64-w); }
static double vp_truncd(double x) { double a = x < 0 ? -x : x; if (!(a < 4503599627370496.0)) return x; double t = (double)(long)x; return __builtin_copysign(t, x); }
static double vp_floor(double x) { double t = vp_truncd(x); return t > x ? t - 1.0 : t; }
static double vp_ceil(double x) { double t = vp_truncd(x); return t < x ? t + 1.0 : t; }
static double vp_rint(double x) { double a = x < 0 ? -x : x; if (!(a < 4503599627370496.0)) return x; double r = (a + 4503599627370496.0) - 4503599627370496.0; return __builtin_copysign(r, x); }
