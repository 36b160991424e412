// C guests without a library: exported functions of one argument, compiled by clang for
// several feature sets and optimisation levels.
typedef unsigned int u32; typedef unsigned long long u64; typedef unsigned short u16; typedef unsigned char u8; typedef signed char s8; typedef int s32; typedef long long s64; typedef short s16;
#define X __attribute__((visibility("default"), used))
#define NI __attribute__((noinline))
void *memset(void *d, int c, unsigned long n) { u8 *p = d; while (n--) *p++ = c; return d; }
void *memcpy(void *d, const void *s, unsigned long n) { u8 *p = d; const u8 *q = s; while (n--) *p++ = *q++; return d; }
void *memmove(void *d, const void *s, unsigned long n) { u8 *p = d; const u8 *q = s; if (p < q) while (n--) *p++ = *q++; else { p += n; q += n; while (n--) *--p = *--q; } return d; }
static u64 rot(u64 x, u32 k) { k &= 63; return k ? x << k | x >> (64 - k) : x; }

// structures by value (several results under the multi-value ABI)
struct P { s32 q, r; }; struct Q { double a; s64 b; float c; s32 d; }; struct R { struct P p; struct Q q; };
NI struct P divmod(s32 a, s32 b) { struct P p = { a / b, a % b }; return p; }
NI struct Q mixq(double a, s64 b, float c, s32 d) { struct Q q = { a * 2 + d, b ^ d, c - (float)b, d + (s32)a }; return q; }
NI struct R mixr(s32 n) { struct R r = { divmod(n * 77 + 5, (n & 7) + 1), mixq(n / 3.0, (s64)n << 33, n * 0.25f, ~n) }; return r; }
NI struct P gcd(s32 a, s32 b) { if (!b) { struct P p = { a, 0 }; return p; } struct P d = divmod(a, b); struct P p = gcd(b, d.r); p.r += d.q; return p; }
X u64 structs(u32 n) { u64 h = n; for (u32 i = 0; i < 12; i++) { struct R r = mixr((s32)(n + i)); struct P g = gcd((s32)(n * 6 + 12 * i) & 0xffff, 84); h = rot(h, 7) ^ (u32)r.p.q ^ ((u64)(u32)r.p.r << 20) ^ (u64)r.q.b; h += (u64)(s64)(r.q.a * 8) + (u64)(s64)(r.q.c < 1e15f && r.q.c > -1e15f ? r.q.c : 0) + (u32)r.q.d + (u32)g.q * 31 + (u32)g.r; } return h; }

// a bytecode machine: dense and sparse switches, fallthrough, goto
X u64 machine(u32 n) {
  static const u8 prog[] = { 1, 9, 5, 2, 3, 7, 0, 8, 4, 6, 11, 10, 12, 200, 1, 3, 250, 5, 13, 99 }; u64 acc = n, st[8] = { 0 }; u32 pc = 0, sp = 0, fuel = 400;
again:
  if (!fuel--) return acc;
  switch (prog[pc++ % sizeof prog]) {
  case 0: acc += 3; break; case 1: st[sp++ & 7] = acc; acc = rot(acc, 5); /* fall through */ case 2: acc ^= st[(sp - 1) & 7]; break; case 3: acc *= 2654435761u; goto again; case 4: if (acc & 1) pc += 2; break; case 5: for (u32 i = 0; i < 3; i++) { if (acc >> i & 1) continue; acc -= i; if (acc % 7 == 0) break; } break;
  case 6: pc -= acc & 3; break; case 7: acc = ~acc; break; case 8: acc = acc / ((n & 15) + 1); break; case 9: sp--; break; case 10: acc |= 1ull << (n & 63); break; case 11: do { acc >>= 1; } while (acc > 1ull << 60); break; case 12: goto out;
  case 99: if (fuel > 200) { pc = 0; goto again; } return acc; case 200: acc += st[0]; break; case 250: acc ^= 0xdeadbeefcafeull; break; default: acc--; }
  goto again;
out:
  return acc ^ ((u64)pc << 32) ^ sp;
}

// function pointers of many types, reached through one table
typedef s32 (*F1)(s32); typedef double (*F2)(double, s32); typedef void (*F3)(u64 *); typedef u64 (*F4)(u8, s16, float, u64, void *); typedef F1 (*F5)(int);
NI s32 a1(s32 x) { return x * 3 + 1; } NI s32 a2(s32 x) { return x >> 1 ^ 0x55; } NI double b1(double x, s32 y) { return x / (y | 1); } NI double b2(double x, s32 y) { return x * y - 0.5; } NI void c1(u64 *p) { *p = rot(*p, 13) + 1; } NI void c2(u64 *p) { *p ^= *p >> 7; c1(p); } NI u64 d1(u8 a, s16 b, float c, u64 d, void *e) { return a + (u64)(s64)b * 5 + (u64)(c * 4) + d + *(u64 *)e; } NI F1 e1(int i) { return i & 1 ? a1 : a2; }
static F1 volatile f1[] = { a1, a2 }; static F2 volatile f2[] = { b1, b2 }; static F3 volatile f3[] = { c1, c2 }; static F4 volatile f4 = d1; static F5 volatile f5 = e1;
X u64 pointers(u32 n) { s32 x = (s32)n; double y = n; u64 z = n; for (u32 i = 0; i < 20; i++) { x = f1[(i ^ n) & 1](x); y = f2[(i >> 1 ^ n) & 1](y, x & 31); if (y > 1e6 || y < -1e6) y = 1.25; f3[(x >> 3) & 1](&z); z = f4((u8)x, (s16)(x >> 2), (float)(i / 2.0), z, &z); x ^= f5((int)z)(x); } return z ^ (u32)x ^ (u64)(s64)(y * 1000); }

// bit fields, unions, narrow types, unaligned access
struct B { u32 a : 3; s32 b : 5; u32 c : 11; u64 d : 40; s32 e : 1; }; union U { u64 u; double d; float f[2]; s16 s[4]; u8 b[8]; }; struct __attribute__((packed)) K { u8 a; u32 b; u64 c; s16 d; };
X u64 narrow(u32 n) {
  volatile struct B b = { 0 }; union U u = { .u = n * 0x9E3779B97F4A7C15ull }; struct K k[3]; memset(k, (s32)n, sizeof k); u64 h = 0;
  for (u32 i = 0; i < 16; i++) { b.a += n; b.b -= 3; b.c ^= i * 77; b.d = b.d * 5 + n; b.e = i & 1; k[i % 3].b += b.c; k[(i + 1) % 3].c ^= (u64)(s64)b.b; k[i % 3].d -= (s16)i; u.s[i & 3] = (s16)(u.s[(i + 1) & 3] * 3); u.b[i & 7] ^= (u8)k[0].a; h = rot(h, 9) + (u64)(s64)(s8)u.b[2] + (u16)u.s[1] + b.d + (u64)(s64)b.e; if (u.f[0] > 1 && u.f[0] < 1e9f) h += (u64)u.f[0]; if (u.d == u.d && u.d < 1e9 && u.d > -1e9) h += (u64)(s64)u.d; } for (u32 i = 0; i < sizeof k; i++) h = h * 31 + ((u8 *)k)[i]; return h;
}

// numbers: a small FFT-like transform, integer square roots, fixed point, conversions of every width
static double cosq(double x) { double t = 1, s = 1; for (int i = 1; i < 9; i++) { t *= -x * x / ((2 * i - 1) * (2 * i)); s += t; } return s; }
X u64 numbers(u32 n) { double re[16], im[16]; for (u32 i = 0; i < 16; i++) { re[i] = (s32)((n >> (i & 7)) & 15) - 7; im[i] = cosq(i * 0.3); } for (u32 s = 1; s < 16; s <<= 1) for (u32 i = 0; i < 16; i += 2 * s) for (u32 j = 0; j < s; j++) { double w = cosq(3.14159 * j / s), v = __builtin_sqrt(1 - w * w > 0 ? 1 - w * w : 0), x = re[i + j + s] * w - im[i + j + s] * v, y = re[i + j + s] * v + im[i + j + s] * w; re[i + j + s] = re[i + j] - x; im[i + j + s] = im[i + j] - y; re[i + j] += x; im[i + j] += y; }
  u64 h = 0; for (u32 i = 0; i < 16; i++) { float f = (float)re[i]; h = rot(h, 11) ^ (u64)(s64)(re[i] * 1024) ^ (u32)(s32)(im[i] * 64) ^ (u64)__builtin_floorf(f < 0 ? -f : f) ^ (u64)(s64)__builtin_copysign(3.7, im[i]) ^ (u32)__builtin_popcountll((u64)(s64)re[i]) ^ ((u64)__builtin_clz(n | 1) << 8) ^ ((u64)__builtin_ctzll(n | 1ull << 40) << 16) ^ (u64)(s64)__builtin_rint(re[i]) ^ (re[i] < im[i]) ^ (u64)(u32)(s32)(s16)(s32)f ^ (u64)(f != f); }
  return h; }

// memory: a first-fit allocator on grown memory, linked lists, strings
struct H { u32 size; struct H *next; }; static struct H *heap; static u32 top, end; extern u8 __heap_base;
static void *alloc(u32 n) { n = (n + 15) & ~7u; struct H **p = &heap; for (; *p; p = &(*p)->next) if ((*p)->size >= n) { struct H *h = *p; *p = h->next; return h + 1; } if (!top) { top = (u32)(unsigned long)&__heap_base + 7 & ~7u; end = __builtin_wasm_memory_size(0) << 16; } while (top + n + 8 > end) { if (__builtin_wasm_memory_grow(0, 1) == (unsigned long)-1) __builtin_trap(); end += 65536; } struct H *h = (struct H *)(unsigned long)top; top += n + 8; h->size = n; return h + 1; }
static void release(void *p) { struct H *h = (struct H *)p - 1; h->next = heap; heap = h; }
struct N { u64 key; struct N *l, *r; char name[9]; };
NI static struct N *insert(struct N *t, u64 k) { if (!t) { t = alloc(sizeof *t); t->key = k; t->l = t->r = 0; for (int i = 0; i < 8; i++) t->name[i] = 'a' + (k >> (i * 4) & 15); t->name[8] = 0; return t; } if (k < t->key) t->l = insert(t->l, k); else if (k > t->key) t->r = insert(t->r, k); return t; }
NI static u64 walk(struct N *t, u32 d) { if (!t) return d; u64 h = walk(t->l, d + 1); for (char *p = t->name; *p; p++) h = h * 33 + (u8)*p; h ^= walk(t->r, d + 1); return h; }
NI static void drop(struct N *t) { if (t) { drop(t->l); drop(t->r); release(t); } }
X u64 lists(u32 n) { u64 h = 0, x = n | 1; for (int k = 0; k < 3; k++) { struct N *t = 0; for (u32 i = 0; i < 40 + n % 7; i++) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; t = insert(t, x & 0xffff); } h = rot(h, 21) ^ walk(t, 0); u8 *big = alloc(30000); memset(big, k + 1, 30000); memmove(big + 3, big + 1, 29000); big[5] = (u8)x; memmove(big, big + 4, 2000); h += big[1] + big[29500]; drop(t); if (k & 1) release(big); } return h + __builtin_wasm_memory_size(0); }

// variable arguments and deep recursion
NI static u64 sum(const char *f, ...) { __builtin_va_list a; __builtin_va_start(a, f); u64 s = 0; for (; *f; f++) switch (*f) { case 'i': s += (u64)(s64)__builtin_va_arg(a, s32); break; case 'l': s ^= __builtin_va_arg(a, u64); break; case 'd': s += (u64)(s64)(__builtin_va_arg(a, double) * 2); break; case 'p': s = rot(s, *__builtin_va_arg(a, u32 *)); } __builtin_va_end(a); return s; }
NI static u32 ack(u32 m, u32 n) { return !m ? n + 1 : !n ? ack(m - 1, 1) : ack(m - 1, ack(m, n - 1)); }
X u64 calls(u32 n) { u32 k = n & 31; return sum("ildp", (s32)n, (u64)n << 35, n * 0.5, &k) ^ sum("") ^ sum("ddii", 1.5, -2.5, -1, (s32)k) + ((u64)ack(2, n & 7) << 32); }
