/* Executes target value operations of libfirm and prints the results.
 * stdin:  M i NAME BITS SIGN MS | M r NAME BITS MS | M f NAME ARITH EXP MANT OVF   (modes numbered from 0)
 *         W 0|1                 wrap on overflow
 *         G OP MODE MODE2       following lines are operands of OP
 *         = A B                 operands as hex numbers (or text / decimal for some OPs)
 * stdout: one line per "=" line: hex number, "bad", or decimal prefixed by '#'
 */
#include <libfirm/firm.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

static ir_mode *modes[256];
static int n_modes;

static void parse_hex(const char *s, unsigned char *buf, size_t n)
{
	memset(buf, 0, n);
	size_t len = strlen(s);
	for (size_t i = 0; i < len; ++i) {
		char c = s[len - 1 - i];
		unsigned v = c >= 'a' ? c - 'a' + 10 : c >= 'A' ? c - 'A' + 10 : c - '0';
		if (i / 2 < n)
			buf[i / 2] |= v << (4 * (i % 2));
	}
}

static ir_tarval *val(const char *s, ir_mode *m)
{
	unsigned char buf[64];
	parse_hex(s, buf, sizeof buf);
	return new_tarval_from_bytes(buf, m);
}

static void put(ir_tarval const *tv)
{
	if (tv == tarval_bad) { printf("bad\n"); return; }
	if (tv == tarval_unknown) { printf("unknown\n"); return; }
	if (tv == tarval_b_true) { printf("1\n"); return; }
	if (tv == tarval_b_false) { printf("0\n"); return; }
	unsigned char buf[64];
	memset(buf, 0, sizeof buf);
	tarval_to_bytes(buf, tv);
	unsigned n = (get_mode_size_bits(get_tarval_mode(tv)) + 7) / 8;
	for (unsigned i = n; i-- > 0;)
		printf("%02x", buf[i]);
	printf("\n");
}

int main(void)
{
	static char line[4096];
	char op[64] = "";
	ir_mode *m = NULL, *m2 = NULL;
	ir_init_library();
	setvbuf(stdout, NULL, _IOLBF, 1 << 16);
	while (fgets(line, sizeof line, stdin)) {
		char a[1024], b[1024], c[64], d[64];
		int i, j;
		a[0] = b[0] = 0;
		switch (line[0]) {
		case 'M': {
			char kind; int bits, x, y, z;
			if (sscanf(line, "M %c %s %d %d %d %d", &kind, a, &bits, &x, &y, &z) < 3) return 3;
			modes[n_modes++] = kind == 'i' ? new_int_mode(a, bits, x, y)
				: kind == 'r' ? new_reference_mode(a, bits, x)
				: kind == 'b' ? mode_b
				: new_float_mode(a, bits ? irma_x86_extended_float : irma_ieee754, x, y, z ? ir_overflow_min_max : ir_overflow_indefinite);
			break;
		}
		case 'W': tarval_set_wrap_on_overflow(atoi(line + 2)); break;
		case 'G':
			if (sscanf(line, "G %s %d %d", op, &i, &j) != 3) return 3;
			m = modes[i]; m2 = modes[j];
			break;
		case '=': {
			sscanf(line, "= %s %s", a, b);
			if (!strcmp(op, "fromlong")) { put(new_tarval_from_long(strtol(a, NULL, 10), m)); break; }
			if (!strcmp(op, "fromstr")) { put(new_tarval_from_str(a, strlen(a), m)); break; }
			if (!strncmp(op, "intstr", 6)) { /* intstr<base><n|p> */
				int base = atoi(op + 6);
				put(new_integer_tarval_from_str(a, strlen(a), strchr(op, 'n') && op[strlen(op) - 1] == 'n', base, m));
				break;
			}
			if (!strcmp(op, "min")) { put(get_mode_min(m)); break; }
			if (!strcmp(op, "max")) { put(get_mode_max(m)); break; }
			if (!strcmp(op, "null")) { put(get_mode_null(m)); break; }
			if (!strcmp(op, "one")) { put(get_mode_one(m)); break; }
			if (!strcmp(op, "allone")) { put(get_mode_all_one(m)); break; }
			if (!strcmp(op, "inf")) { put(get_mode_infinite(m)); break; }
			ir_tarval *x = m == mode_b ? (a[0] == '1' ? tarval_b_true : tarval_b_false) : val(a, m);
#define U(name, e) if (!strcmp(op, name)) { e; break; }
			U("neg", put(tarval_neg(x)))
			U("not", put(tarval_not(x)))
			U("abs", put(tarval_abs(x)))
			U("conv", put(tarval_convert_to(x, m2)))
			U("bitcast", put(tarval_bitcast(x, m2)))
			U("id", put(x))
			U("popcount", printf("#%d\n", get_tarval_popcount(x)))
			U("low", printf("#%d\n", get_tarval_lowest_bit(x)))
			U("high", printf("#%d\n", get_tarval_highest_bit(x)))
			U("isneg", printf("#%d\n", !!tarval_is_negative(x)))
			U("isnull", printf("#%d\n", !!tarval_is_null(x)))
			U("isone", printf("#%d\n", !!tarval_is_one(x)))
			U("isallone", printf("#%d\n", !!tarval_is_all_one(x)))
			U("isnan", printf("#%d\n", !!tarval_is_nan(x)))
			U("isqnan", printf("#%d\n", !!tarval_is_quiet_nan(x)))
			U("issnan", printf("#%d\n", !!tarval_is_signaling_nan(x)))
			U("isfinite", printf("#%d\n", !!tarval_is_finite(x)))
			U("zeromant", printf("#%d\n", !!tarval_zero_mantissa(x)))
			U("exponent", printf("#%d\n", tarval_get_exponent(x)))
			U("lossless", printf("#%d\n", !!tarval_ieee754_can_conv_lossless(x, m2)))
			U("islong", printf("#%d\n", !!tarval_is_long(x)))
			U("getlong", printf("%016lx\n", get_tarval_long(x)))
			U("text", char t[512]; ir_snprintf(t, sizeof t, "%T", x); printf("\"%s\n", t))
			unsigned k = strtoul(b, NULL, 10);
			U("subbits", printf("#%d\n", get_tarval_sub_bits(x, k)))
			U("shlu", put(tarval_shl_unsigned(x, k)))
			U("shru", put(tarval_shr_unsigned(x, k)))
			U("shrsu", put(tarval_shrs_unsigned(x, k)))
			ir_tarval *y = m2 == mode_b ? (b[0] == '1' ? tarval_b_true : tarval_b_false) : val(b, m2);
			U("add", put(tarval_add(x, y)))
			U("sub", put(tarval_sub(x, y)))
			U("mul", put(tarval_mul(x, y)))
			U("div", put(tarval_div(x, y)))
			U("mod", put(tarval_mod(x, y)))
			U("divmodq", ir_tarval *r = NULL; put(tarval_divmod(x, y, &r)))
			U("divmodr", ir_tarval *r = tarval_bad; tarval_divmod(x, y, &r); put(r))
			U("and", put(tarval_and(x, y)))
			U("andnot", put(tarval_andnot(x, y)))
			U("or", put(tarval_or(x, y)))
			U("ornot", put(tarval_ornot(x, y)))
			U("eor", put(tarval_eor(x, y)))
			U("shl", put(tarval_shl(x, y)))
			U("shr", put(tarval_shr(x, y)))
			U("shrs", put(tarval_shrs(x, y)))
			U("cmp", printf("#%d\n", tarval_cmp(x, y)))
			U("same", printf("#%d\n", x == y))
			fprintf(stderr, "unknown op %s\n", op);
			return 3;
		}
		default: break;
		}
	}
	return 0;
}
