/* C-side runtime for translated modules (CBMC only). */
#include <math.h>
typedef unsigned long vf_u64;
void* malloc(vf_u64); void free(void*); void* calloc(vf_u64, vf_u64);
#define VF_OFF(a) ((vf_u64)__CPROVER_POINTER_OFFSET(a))
#define VF_PDIFF(a, b) (__CPROVER_same_object(a, b) ? VF_OFF(a) - VF_OFF(b) : (vf_u64)(a) - (vf_u64)(b))
#define VF_PLT(a, b) (__CPROVER_same_object(a, b) ? VF_OFF(a) < VF_OFF(b) : (vf_u64)(a) < (vf_u64)(b))
#define VF_PLE(a, b) (__CPROVER_same_object(a, b) ? VF_OFF(a) <= VF_OFF(b) : (vf_u64)(a) <= (vf_u64)(b))
#define VF_PGT(a, b) VF_PLT(b, a)
#define VF_PGE(a, b) VF_PLE(b, a)
/* ---- nondeterministic inputs, in the order the harness draws them -------- */
vf_u64 vf_choice; int vf_nchoices;
static vf_u64 vf_draw(vf_u64 w) { vf_u64 vf_c; if (w < 64) vf_c &= ((1ul << w) - 1ul); vf_choice = vf_c; return vf_c; }
static void vf_note_choice(vf_u64 k) { vf_choice = k; }
static unsigned long vf_nondet_u64(void) { return vf_draw(64); }
static unsigned int vf_nondet_u32(void) { return (unsigned int)vf_draw(32); }
static unsigned short vf_nondet_u16(void) { return (unsigned short)vf_draw(16); }
static unsigned char vf_nondet_u8(void) { return (unsigned char)vf_draw(8); }
static float vf_bits_to_float(unsigned int b) { union { unsigned int u; float f; } x; x.u = b; return x.f; }
static double vf_bits_to_double(vf_u64 b) { union { vf_u64 u; double f; } x; x.u = b; return x.f; }
/* ---- memory ---------------------------------------------------------------*/
static char* vf_new(vf_u64 n) { return (char*)__CPROVER_allocate(n, 0); }
static char* vf_new2(vf_u64 n, vf_u64 al) { return vf_new(n); }
static void vf_del(char* p) {}
static void vf_del1(char* p, vf_u64 n) {}
static void vf_del2(char* p, vf_u64 n, vf_u64 a) {}
static int vf_ret0_3(char* a, char* b, char* c) { return 0; }
static int vf_guard_acquire(char* g) { return *g == 0; }
static void vf_guard_release(char* g) { *g = 1; }
#ifdef VF_MEM_VLA
/* Only where every object with a copy length unknown to LLVM is a byte buffer. */
static void vf_memmove(char* d, char* s, vf_u64 n) {
  if (n > 0 && n <= 8) {
    char t0, t1, t2, t3, t4, t5, t6, t7;
    t0 = s[0]; if (n > 1) t1 = s[1]; if (n > 2) t2 = s[2]; if (n > 3) t3 = s[3];
    if (n > 4) t4 = s[4]; if (n > 5) t5 = s[5]; if (n > 6) t6 = s[6]; if (n > 7) t7 = s[7];
    d[0] = t0; if (n > 1) d[1] = t1; if (n > 2) d[2] = t2; if (n > 3) d[3] = t3;
    if (n > 4) d[4] = t4; if (n > 5) d[5] = t5; if (n > 6) d[6] = t6; if (n > 7) d[7] = t7;
  } else if (n > 0) {
    __CPROVER_assert(__CPROVER_r_ok(s, n), "SAFETY: memory copy reads outside the source object");
    __CPROVER_assert(__CPROVER_w_ok(d, n), "SAFETY: memory copy writes outside the destination object");
    char tmp[n];
    __CPROVER_array_copy(tmp, s);
    __CPROVER_array_replace(d, tmp);
  }
}
static void vf_memcpy(char* d, char* s, vf_u64 n) { vf_memmove(d, s, n); }
static void vf_memset(char* d, unsigned char v, vf_u64 n) {
  if (n > 0 && n <= 8) {
    d[0] = v; if (n > 1) d[1] = v; if (n > 2) d[2] = v; if (n > 3) d[3] = v;
    if (n > 4) d[4] = v; if (n > 5) d[5] = v; if (n > 6) d[6] = v; if (n > 7) d[7] = v;
  } else if (n > 0) {
    __CPROVER_assert(__CPROVER_w_ok(d, n), "SAFETY: memory fill writes outside the destination object");
    char tmp[n];
    __CPROVER_array_set(tmp, v);
    __CPROVER_array_replace(d, tmp);
  }
}
#elif defined(VF_MEM_LOOP)
static void vf_memset(char* d, unsigned char v, vf_u64 n) { for (vf_u64 i = 0; i < n; i++) d[i] = v; }
static void vf_memcpy(char* d, char* s, vf_u64 n) { for (vf_u64 i = 0; i < n; i++) d[i] = s[i]; }
static void vf_memmove(char* d, char* s, vf_u64 n) {
  if (!__CPROVER_same_object(d, s) || (vf_u64)d <= (vf_u64)s) { for (vf_u64 i = 0; i < n; i++) d[i] = s[i]; }
  else { for (vf_u64 i = n; i > 0; i--) d[i - 1] = s[i - 1]; }
}
#else
/* Lengths that LLVM does not know.  No array of symbolic size is involved:
   CBMC's update of a typed object with one is not reliable. */
#ifdef VF_FILL_MAX /* the contract allows no larger fill */
#define VF_FILL_CHECK(n) __CPROVER_assert((n) <= VF_FILL_MAX, "SAFETY: no larger block is allocated and filled than the contract allows"); __CPROVER_assume((n) <= VF_FILL_MAX);
#else
#define VF_FILL_CHECK(n)
#endif
typedef struct { vf_u64 w[4]; } vf_chunk;
static void vf_memcpy(char* d, char* s, vf_u64 n) {
  vf_u64 i = 0;
  for (; n - i >= 32; i += 32) *(vf_chunk*)(d + i) = *(vf_chunk*)(s + i);
  for (; n - i >= 8; i += 8) *(vf_u64*)(d + i) = *(vf_u64*)(s + i);
  if (i < n) {
    char t0, t1, t2, t3, t4, t5, t6;
    d += i; s += i; n -= i;
    t0 = s[0]; if (n > 1) t1 = s[1]; if (n > 2) t2 = s[2]; if (n > 3) t3 = s[3];
    if (n > 4) t4 = s[4]; if (n > 5) t5 = s[5]; if (n > 6) t6 = s[6];
    d[0] = t0; if (n > 1) d[1] = t1; if (n > 2) d[2] = t2; if (n > 3) d[3] = t3;
    if (n > 4) d[4] = t4; if (n > 5) d[5] = t5; if (n > 6) d[6] = t6;
  }
}
static void vf_memmove(char* d, char* s, vf_u64 n) {
  if (__CPROVER_same_object(d, s) && VF_OFF(d) > VF_OFF(s)) {
    vf_u64 i = n;
    for (; i >= 32; i -= 32) *(vf_chunk*)(d + i - 32) = *(vf_chunk*)(s + i - 32);
    for (; i >= 8; i -= 8) *(vf_u64*)(d + i - 8) = *(vf_u64*)(s + i - 8);
    for (; i > 0; i--) d[i - 1] = s[i - 1];
  } else {
    vf_memcpy(d, s, n);
  }
}
static void vf_memset(char* d, unsigned char v, vf_u64 n) {
  VF_FILL_CHECK(n)
  vf_u64 i = 0, w = v * 0x0101010101010101ul;
  for (; n - i >= 32; i += 32) { vf_chunk* c = (vf_chunk*)(d + i); c->w[0] = w; c->w[1] = w; c->w[2] = w; c->w[3] = w; }
  for (; n - i >= 8; i += 8) *(vf_u64*)(d + i) = w;
  if (i < n) {
    d += i; n -= i;
    d[0] = v; if (n > 1) d[1] = v; if (n > 2) d[2] = v; if (n > 3) d[3] = v;
    if (n > 4) d[4] = v; if (n > 5) d[5] = v; if (n > 6) d[6] = v;
  }
}
#endif
/* The same, element by element: keeps CBMC's view of typed blocks simple. */
#define VF_TAIL(d, s, n, i, T) \
  if (sizeof(T) <= 8) { if (i < n) { d += i; s += i; n -= i; \
    char t0, t1, t2, t3, t4, t5, t6; \
    t0 = s[0]; if (n > 1) t1 = s[1]; if (n > 2) t2 = s[2]; if (n > 3) t3 = s[3]; if (n > 4) t4 = s[4]; if (n > 5) t5 = s[5]; if (n > 6) t6 = s[6]; \
    d[0] = t0; if (n > 1) d[1] = t1; if (n > 2) d[2] = t2; if (n > 3) d[3] = t3; if (n > 4) d[4] = t4; if (n > 5) d[5] = t5; if (n > 6) d[6] = t6; } } \
  else for (; i < n; i++) d[i] = s[i];
#define VF_TYPED_COPY(F, T) static void F(char* d, char* s, vf_u64 n) { \
  vf_u64 i = 0; \
  for (; n - i >= sizeof(T); i += sizeof(T)) *(T*)(d + i) = *(T*)(s + i); \
  VF_TAIL(d, s, n, i, T) }
#define VF_TYPED_MOVE(F, T) static void F(char* d, char* s, vf_u64 n) { \
  if (__CPROVER_same_object(d, s) && VF_OFF(d) > VF_OFF(s)) { \
    vf_u64 i = n; \
    for (; i >= sizeof(T); i -= sizeof(T)) *(T*)(d + i - sizeof(T)) = *(T*)(s + i - sizeof(T)); \
    for (; i > 0; i--) d[i - 1] = s[i - 1]; \
  } else { \
    vf_u64 i = 0; \
    for (; n - i >= sizeof(T); i += sizeof(T)) *(T*)(d + i) = *(T*)(s + i); \
    VF_TAIL(d, s, n, i, T) } }
static char* vf_symbolic_alloc(vf_u64 n) { return (char*)__CPROVER_allocate(n, 0); }
static int vf_memcmp(char* a, char* b, vf_u64 n) {
  for (vf_u64 i = 0; i < n; i++) { unsigned char x = a[i], y = b[i]; if (x != y) return x < y ? -1 : 1; }
  return 0;
}
static vf_u64 vf_strlen(char* s) { vf_u64 n = 0; while (s[n]) n++; return n; }
static char* vf_memchr(char* s, int c, vf_u64 n) { for (vf_u64 i = 0; i < n; i++) if ((unsigned char)s[i] == (unsigned char)c) return s + i; return (char*)0; }
/* ---- bit operations ---------------------------------------------------------*/
static vf_u64 vf_ctlz(vf_u64 x, int w) { vf_u64 n = 0; for (int i = w - 1; i >= 0; i--) { if ((x >> i) & 1) return n; n++; } return n; }
static vf_u64 vf_cttz(vf_u64 x, int w) { for (int i = 0; i < w; i++) if ((x >> i) & 1) return i; return w; }
static vf_u64 vf_ctpop(vf_u64 x, int w) { vf_u64 n = 0; for (int i = 0; i < w; i++) n += (x >> i) & 1; return n; }
static vf_u64 vf_bswap(vf_u64 x, int w) { vf_u64 r = 0; for (int i = 0; i < w; i += 8) r |= ((x >> i) & 255ul) << (w - 8 - i); return r; }
static vf_u64 vf_bitreverse(vf_u64 x, int w) { vf_u64 r = 0; for (int i = 0; i < w; i++) r |= ((x >> i) & 1ul) << (w - 1 - i); return r; }
