/* Runs one compiled program on inputs read from file descriptor 0 and writes what can be observed to 1.
 * Freestanding: no C library, so that it links the same way for every target. */
typedef unsigned char u8;
typedef unsigned int u32;
typedef unsigned long long u64;
typedef unsigned long ul;

struct region { u8 *p; ul n; };
extern struct region v_esc[], v_obs[];      /* ended by n = 0; p = 0: the symbol does not exist */
extern u8 in[] __attribute__((weak));
extern void v_call_main(void);

static char buf[1 << 20];
static ul nbuf;
static u64 orc[64];
static u32 norc, nlog;

long v_syscall(long n, long a, long b, long c);

static void put(char c) { if (nbuf < sizeof buf) buf[nbuf++] = c; }
static void hex(u64 v, int digits) { for (int i = digits - 1; i >= 0; --i) put("0123456789abcdef"[(v >> (4 * i)) & 15]); }
static void bytes(const u8 *p, ul n) { for (ul i = 0; i < n; ++i) hex(p[i], 2); }
static void flush(void) { ul k = 0; while (k < nbuf) { long r = v_syscall(1, 1, (long)(buf + k), nbuf - k); if (r <= 0) break; k += r; } nbuf = 0; }

void v_fail(int what)
{
	put('X'); put(' '); hex(what, 4); put('\n');
	flush();
	v_syscall(60, 3, 0, 0);
	for (;;) {}
}

static u64 word(void) { return orc[nlog % norc]; }
static void regions(struct region *r)
{
	for (; r->n; ++r) { put(' '); if (r->p) bytes(r->p, r->n); else put('-'); }
}
static void start(int f) { put('C'); put(' '); hex(f, 2); }
static void done(void) { put(' '); put('|'); regions(v_esc); put('\n'); ++nlog; }

u32 v_log(u32 a)            { u64 w = word(); start(1); put(' '); hex(a, 8); done(); return w; }
void v_log2(u32 a, u32 b)   { start(2); put(' '); hex(a, 8); put(' '); hex(b, 8); done(); }
u32 v_rd(u32 *p)            { u64 w = word(); start(3); put(' '); hex(*p, 8); done(); return w; }
void v_wr(u32 *p)           { u64 w = word(); start(4); done(); *p = w; }
u32 v_clob(void)
{
	u64 w = word();
	start(5); done();
	for (struct region *r = v_esc; r->n; ++r) if (r->p) r->p[((w >> 16) & 0xffff) % r->n] = (w >> 32) & 255;
	return w;
}
u32 v_pure(u32 a)           { return a * 7 + 6; }
u32 v_prd(u32 *p)           { return *p + 7; }
u64 v_ll(u64 a, u32 b)      { u64 w = word(); start(8); put(' '); hex(a, 16); put(' '); hex(b, 8); done(); return w; }

static volatile u8 sink;
static void __attribute__((noinline)) junk(void)
{
	volatile u8 a[16384];
	for (ul i = 0; i < sizeof a; ++i) a[i] = 0xa5 ^ (i * 7);
	sink = a[17];
}

static u8 inb[8192];
void v_start(void)
{
	ul n = 0;
	for (;;) { long r = v_syscall(0, 0, (long)(inb + n), sizeof inb - n); if (r <= 0) break; n += r; }
	/* 64 bytes of input, number of words, words */
	if (in) for (int i = 0; i < 64; ++i) in[i] = inb[i];
	norc = inb[64];
	for (u32 k = 0; k < norc; ++k) { u64 w = 0; for (int j = 7; j >= 0; --j) w = w << 8 | inb[65 + 8 * k + j]; orc[k] = w; }
	junk();
	v_call_main();
	put('F');
	regions(v_obs);
	put('\n');
	flush();
	v_syscall(60, 0, 0, 0);
	for (;;) {}
}

void *v_memcpy(void *d, const void *s, ul n) { u8 *a = d; const u8 *b = s; while (n--) *a++ = *b++; return d; }
void *v_memmove(void *d, const void *s, ul n) { u8 *a = d; const u8 *b = s; if (a < b) while (n--) *a++ = *b++; else while (n--) a[n] = b[n]; return d; }
void *v_memset(void *d, int c, ul n) { u8 *a = d; while (n--) *a++ = c; return d; }

/* runtime library */
u32 v_popcountdi2(u64 a) { u32 n = 0; for (; a; a &= a - 1) ++n; return n; }
u32 v_popcountsi2(u32 a) { return v_popcountdi2(a); }
u32 v_paritydi2(u64 a)   { return v_popcountdi2(a) & 1; }
u32 v_paritysi2(u32 a)   { return v_popcountdi2(a) & 1; }
u32 v_ctzdi2(u64 a)      { u32 n = 0; while (n < 64 && !(a >> n & 1)) ++n; return n; }
u32 v_ctzsi2(u32 a)      { u32 n = 0; while (n < 32 && !(a >> n & 1)) ++n; return n; }
u32 v_clzdi2(u64 a)      { u32 n = 0; while (n < 64 && !(a >> (63 - n) & 1)) ++n; return n; }
u32 v_clzsi2(u32 a)      { u32 n = 0; while (n < 32 && !(a >> (31 - n) & 1)) ++n; return n; }
u32 v_ffsdi2(u64 a)      { return a ? v_ctzdi2(a) + 1 : 0; }
u32 v_ffssi2(u32 a)      { return a ? v_ctzsi2(a) + 1 : 0; }
u32 v_bswapsi2(u32 a)    { return a << 24 | (a & 0xff00) << 8 | (a >> 8 & 0xff00) | a >> 24; }
u64 v_bswapdi2(u64 a)    { return (u64)v_bswapsi2(a) << 32 | v_bswapsi2(a >> 32); }
#ifdef __i386__
static u64 udivmod(u64 a, u64 b, u64 *rem)
{
	u64 q = 0, r = 0;
	for (int i = 63; i >= 0; --i) {
		r = r << 1 | (a >> i & 1);
		if (r >= b) { r -= b; q |= 1ull << i; }
	}
	*rem = r;
	return q;
}
typedef long long s64;
static u64 mag(s64 a) { return a < 0 ? -(u64)a : (u64)a; }
u64 v_udivdi3(u64 a, u64 b) { u64 r; return udivmod(a, b, &r); }
u64 v_umoddi3(u64 a, u64 b) { u64 r; udivmod(a, b, &r); return r; }
s64 v_divdi3(s64 a, s64 b)  { u64 r, q = udivmod(mag(a), mag(b), &r); return (a < 0) != (b < 0) ? -q : q; }
s64 v_moddi3(s64 a, s64 b)  { u64 r; udivmod(mag(a), mag(b), &r); return a < 0 ? -r : r; }
u64 v_muldi3(u64 a, u64 b)  { u64 r = 0; for (; b; b >>= 1, a <<= 1) if (b & 1) r += a; return r; }
s64 v_fixdfdi(double a)     { return a; }
s64 v_fixsfdi(float a)      { return a; }
u64 v_fixunsdfdi(double a)  { return a < 9223372036854775808.0 ? (s64)a : (s64)(a - 9223372036854775808.0) ^ (1ll << 63); }
u64 v_fixunssfdi(float a)   { return v_fixunsdfdi(a); }
double v_floatdidf(s64 a)   { return a; }
float v_floatdisf(s64 a)    { return a; }
double v_floatundidf(u64 a) { return a >> 63 ? 2.0 * (double)(s64)(a >> 1 | (a & 1)) : (double)(s64)a; }
float v_floatundisf(u64 a)  { return a >> 63 ? 2.0f * (float)(s64)(a >> 1 | (a & 1)) : (float)(s64)a; }
#endif
