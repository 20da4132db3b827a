/*
 * Program driver: builds programs given as text through the construction
 * interface, runs transformation scripts on them and writes the resulting
 * graphs as JSON.  Every program runs in its own child process.
 */
#define _GNU_SOURCE
#include <assert.h>
#include <ctype.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>

#include "firm.h"
#include "irnode_t.h"
#include "irgraph_t.h"
#include "irprog_t.h"
#include "entity_t.h"
#include "type_t.h"
#include "irmode_t.h"
#include "tv_t.h"
#include "iropt_t.h"
#include "irloop.h"
#include "irouts.h"
#include "irdom.h"
#include "lowering.h"
#include "lower_alloc.h"
#include "lower_mode_b.h"
#include "lower_builtins.h"
#include "lower_softfloat.h"
#include "lcssa_t.h"
#include "scalar_replace.h"
#include "irconsconfirm.h"
#include "opt_init.h"
#include "target_t.h"
#include "bearch.h"
#include "be_t.h"
#include "adt/pmap.h"
#include "adt/array.h"
#include "obst.h"
#include "anexport.h"
#include "analyses.h"
#include "verexport.h"

#define MAXT 4000
#define MAXTOK 4000

static char  *stage;                 /* shared with the parent */
static FILE  *out;
static int    prog_id;
static const char *target;
static char  *opts[64];
static int    n_opts;

static void setstage(const char *s) { strncpy(stage, s, 127); }

/* ------------------------------------------------------------------ build */
static char    *tok[MAXTOK];
static int      ntok;
static ir_type *tys[500];
static ir_entity *gls[500], *fns[200], *frs[200];
static ir_type *fnty[200];
static ir_node *tmp[MAXT];
static ir_node *blk[2000];
static int      memslot_dummy;

static ir_mode *custom_modes[64];
static char    *custom_names[64];
static int      n_custom;

static ir_mode *mode_of(const char *n)
{
	static struct { const char *n; ir_mode **m; } tab[] = {
		{"Bs", &mode_Bs}, {"Bu", &mode_Bu}, {"Hs", &mode_Hs}, {"Hu", &mode_Hu}, {"Is", &mode_Is}, {"Iu", &mode_Iu},
		{"Ls", &mode_Ls}, {"Lu", &mode_Lu}, {"P", &mode_P}, {"F", &mode_F}, {"D", &mode_D}, {"b", &mode_b}, {"M", &mode_M},
	};
	for (size_t i = 0; i < sizeof(tab)/sizeof(tab[0]); ++i)
		if (!strcmp(tab[i].n, n))
			return *tab[i].m;
	for (int i = 0; i < n_custom; ++i)
		if (!strcmp(custom_names[i], n))
			return custom_modes[i];
	fprintf(stderr, "drv: unknown mode %s\n", n);
	exit(99);
}

static int I(int k) { if (k >= ntok) { fprintf(stderr, "drv: missing token in %s\n", tok[0]); exit(99); } return atoi(tok[k]); }
static ir_node *T(int k) {
	int i = I(k);
	if (i < 0 || i >= MAXT || tmp[i] == NULL) { fprintf(stderr, "drv: bad temp %d in %s\n", i, tok[0]); exit(99); }
	return tmp[i];
}
static void S(int k, ir_node *n) { tmp[I(k)] = n; }

static ir_tarval *tv_hex(const char *h, ir_mode *m)
{
	unsigned char buf[32];
	memset(buf, 0, sizeof(buf));
	size_t n = get_mode_size_bits(m) / 8;
	if (n == 0) n = 1;
	size_t l = strlen(h);
	for (size_t i = 0; i < n && 2 * i < l; ++i) {
		/* big-endian hex text */
		int hi = l - 2 * i - 2, lo = l - 2 * i - 1;
		char b[3] = { hi >= 0 ? h[hi] : '0', h[lo], 0 };
		buf[i] = (unsigned char)strtoul(b, NULL, 16);
	}
	if (m == mode_b)
		return buf[0] ? tarval_b_true : tarval_b_false;
	if (get_mode_size_bits(m) % 8 != 0)
		return new_tarval_from_long(strtol(h, NULL, 16), m);
	return new_tarval_from_bytes(buf, m);
}

static int initpos;
static ir_initializer_t *build_init(ir_type *ty)
{
	if (is_Array_type(ty)) {
		unsigned n = get_array_size(ty);
		ir_initializer_t *r = create_initializer_compound(n);
		for (unsigned i = 0; i < n; ++i)
			set_initializer_compound_value(r, i, build_init(get_array_element_type(ty)));
		return r;
	}
	if (is_compound_type(ty)) {
		size_t n = get_compound_n_members(ty);
		if (is_Union_type(ty)) n = 1;
		ir_initializer_t *r = create_initializer_compound(n);
		for (size_t i = 0; i < n; ++i)
			set_initializer_compound_value(r, i, build_init(get_entity_type(get_compound_member(ty, i))));
		return r;
	}
	if (initpos >= ntok) { fprintf(stderr, "drv: initializer too short\n"); exit(99); }
	char *t = tok[initpos++];
	ir_mode *m = get_type_mode(ty);
	ir_graph *cc = get_const_code_irg();
	if (t[0] == 'n')
		return get_initializer_null();
	if (t[0] == '@') {     /* @g<k>[+off] or @f<k> */
		int k = atoi(t + 2);
		ir_node *a = new_r_Address(cc, t[1] == 'g' ? gls[k] : fns[k]);
		char *p = strchr(t, '+');
		if (p) {
			ir_mode *om = get_reference_offset_mode(mode_P);
			a = new_r_Add(get_irg_start_block(cc), a, new_r_Const_long(cc, om, atol(p + 1)));
		}
		return create_initializer_const(a);
	}
	if (t[0] == 'k')
		return create_initializer_const(new_r_Const(cc, tv_hex(t + 1, m)));
	return create_initializer_tarval(tv_hex(t, m));
}

static void def_type(void)
{
	int n = I(1);
	char *k = tok[2];
	char name[40];
	snprintf(name, sizeof(name), "T%d", n);
	if (!strcmp(k, "prim"))
		tys[n] = new_type_primitive(mode_of(tok[3]));
	else if (!strcmp(k, "ptr"))
		tys[n] = new_type_pointer(tys[I(3)]);
	else if (!strcmp(k, "arr")) {
		tys[n] = new_type_array(tys[I(3)], I(4));
		set_type_state(tys[n], layout_fixed);
	} else if (!strcmp(k, "struct") || !strcmp(k, "union")) {
		ir_type *t = k[0] == 's' ? new_type_struct(new_id_from_str(name)) : new_type_union(new_id_from_str(name));
		int nf = I(3);
		for (int i = 0; i < nf; ++i) {
			char fn[20];
			snprintf(fn, sizeof(fn), "f%d", i);
			new_entity(t, new_id_from_str(fn), tys[I(4 + i)]);
		}
		default_layout_compound_type(t);
		tys[n] = t;
	} else if (!strcmp(k, "meth")) {
		int np = I(3), nr = I(4);
		unsigned props = I(5);
		ir_type *t = new_type_method(np, nr, false, cc_cdecl_set, props);
		for (int i = 0; i < np; ++i) set_method_param_type(t, i, tys[I(6 + i)]);
		for (int i = 0; i < nr; ++i) set_method_res_type(t, i, tys[I(6 + np + i)]);
		tys[n] = t;
	} else {
		fprintf(stderr, "drv: type %s\n", k); exit(99);
	}
}

static ir_visibility vis_of(char c)
{
	return c == 'l' ? ir_visibility_local : c == 'p' ? ir_visibility_private : ir_visibility_external;
}

static ir_relation rel_of(const char *s) { return (ir_relation)atoi(s); }

static void end_cur(void) { set_cur_block(NULL); }

static void instr(void)
{
	char *o = tok[0];
	ir_graph *irg = current_ir_graph;
	if (!strcmp(o, "in")) { set_cur_block(blk[I(1)]); return; }
	if (!strcmp(o, "mat")) { mature_immBlock(blk[I(1)]); return; }
	if (!strcmp(o, "c")) { S(1, new_Const(tv_hex(tok[3], mode_of(tok[2])))); return; }
	if (!strcmp(o, "u")) { S(1, new_Unknown(mode_of(tok[2]))); return; }
	if (!strcmp(o, "a")) {
		int k = I(2);
		ir_type *mt = get_entity_type(get_irg_entity(irg));
		ir_type *pt = get_method_param_type(mt, k);
		ir_mode *m = is_compound_type(pt) || is_Array_type(pt) ? mode_P : get_type_mode(pt);
		S(1, new_Proj(get_irg_args(irg), m, k)); return;
	}
#define BIN(N) if (!strcmp(o, #N)) { S(1, new_##N(T(2), T(3))); return; }
	BIN(Add) BIN(Sub) BIN(Mul) BIN(Mulh) BIN(And) BIN(Or) BIN(Eor) BIN(Shl) BIN(Shr) BIN(Shrs)
	if (!strcmp(o, "Minus")) { S(1, new_Minus(T(2))); return; }
	if (!strcmp(o, "Not")) { S(1, new_Not(T(2))); return; }
	if (!strcmp(o, "Cmp")) { S(1, new_Cmp(T(3), T(4), rel_of(tok[2]))); return; }
	if (!strcmp(o, "Conv")) { S(1, new_Conv(T(3), mode_of(tok[2]))); return; }
	if (!strcmp(o, "Bitcast")) { S(1, new_Bitcast(T(3), mode_of(tok[2]))); return; }
	if (!strcmp(o, "Mux")) { S(1, new_Mux(T(2), T(3), T(4))); return; }
	if (!strcmp(o, "Conf")) { S(1, new_Confirm(T(3), T(4), rel_of(tok[2]))); return; }
	if (!strcmp(o, "get")) { S(1, get_value(I(2), mode_of(tok[3]))); return; }
	if (!strcmp(o, "set")) { set_value(I(1), T(2)); return; }
	if (!strcmp(o, "Addr")) { S(1, new_Address(gls[I(2)])); return; }
	if (!strcmp(o, "Faddr")) { S(1, new_Address(fns[I(2)])); return; }
	if (!strcmp(o, "Frame")) { S(1, new_Member(get_irg_frame(irg), frs[I(2)])); return; }
	if (!strcmp(o, "Mem")) { S(1, new_Member(T(2), get_compound_member(tys[I(3)], I(4)))); return; }
	if (!strcmp(o, "Sel")) { S(1, new_Sel(T(2), T(3), tys[I(4)])); return; }
	if (!strcmp(o, "Size")) { S(1, new_Size(mode_of(tok[2]), tys[I(3)])); return; }
	if (!strcmp(o, "Align")) { S(1, new_Align(mode_of(tok[2]), tys[I(3)])); return; }
	if (!strcmp(o, "Offs")) { S(1, new_Offset(mode_of(tok[2]), get_compound_member(tys[I(3)], I(4)))); return; }
	if (!strcmp(o, "Load")) {
		ir_mode *m = mode_of(tok[2]);
		ir_node *l = new_Load(get_store(), T(3), m, tys[I(5)], I(4) ? cons_volatile : cons_none);
		set_store(new_Proj(l, mode_M, pn_Load_M));
		S(1, new_Proj(l, m, pn_Load_res)); return;
	}
	if (!strcmp(o, "Store")) {
		ir_node *s = new_Store(get_store(), T(1), T(2), tys[I(4)], I(3) ? cons_volatile : cons_none);
		set_store(new_Proj(s, mode_M, pn_Store_M)); return;
	}
	if (!strcmp(o, "CopyB")) {
		set_store(new_CopyB(get_store(), T(1), T(2), tys[I(3)], cons_none)); return;
	}
	if (!strcmp(o, "Div") || !strcmp(o, "Mod") || !strcmp(o, "DivRL")) {
		ir_node *l = T(2), *r = T(3);
		ir_mode *m = get_irn_mode(l);
		ir_node *n;
		if (o[0] == 'M') {
			n = new_Mod(get_store(), l, r, 1);
			set_store(new_Proj(n, mode_M, pn_Mod_M));
			S(1, new_Proj(n, m, pn_Mod_res));
		} else {
			n = o[3] ? new_DivRL(get_store(), l, r, 1) : new_Div(get_store(), l, r, 1);
			set_store(new_Proj(n, mode_M, pn_Div_M));
			S(1, new_Proj(n, m, pn_Div_res));
		}
		return;
	}
	if (!strcmp(o, "Alloc")) {
		ir_node *n = new_Alloc(get_store(), T(2), I(3));
		set_store(new_Proj(n, mode_M, pn_Alloc_M));
		S(1, new_Proj(n, mode_P, pn_Alloc_res)); return;
	}
	if (!strcmp(o, "Bi")) {    /* Bi t kind methtype nargs args.. */
		int n = I(4);
		ir_node *in[8];
		for (int i = 0; i < n; ++i) in[i] = T(5 + i);
		ir_type *mt = tys[I(3)];
		ir_builtin_kind bk = (ir_builtin_kind)I(2);
		bool mem = bk == ir_bk_compare_swap || bk == ir_bk_saturating_increment;
		ir_node *b = new_Builtin(mem ? get_store() : get_irg_no_mem(irg), n, in, bk, mt);
		if (mem) set_store(new_Proj(b, mode_M, pn_Builtin_M));
		if (get_method_n_ress(mt) > 0)
			S(1, new_Proj(b, get_type_mode(get_method_res_type(mt, 0)), pn_Builtin_max + 1));
		return;
	}
	if (!strcmp(o, "Call")) {  /* Call ptr ty nargs args.. nres temps.. */
		ir_node *p = T(1);
		ir_type *mt = tys[I(2)];
		int n = I(3);
		ir_node *in[32];
		for (int i = 0; i < n; ++i) in[i] = T(4 + i);
		ir_node *c = new_Call(get_store(), p, n, in, mt);
		set_store(new_Proj(c, mode_M, pn_Call_M));
		int nr = I(4 + n);
		if (nr > 0) {
			ir_node *rs = new_Proj(c, mode_T, pn_Call_T_result);
			for (int i = 0; i < nr; ++i) {
				ir_type *rt = get_method_res_type(mt, i);
				ir_mode *m = is_compound_type(rt) ? mode_P : get_type_mode(rt);
				S(5 + n + i, new_Proj(rs, m, i));
			}
		}
		return;
	}
	if (!strcmp(o, "jmp")) { add_immBlock_pred(blk[I(1)], new_Jmp()); end_cur(); return; }
	if (!strcmp(o, "cond")) {
		ir_node *c = new_Cond(T(1));
		ir_node *pt = new_Proj(c, mode_X, pn_Cond_true), *pf = new_Proj(c, mode_X, pn_Cond_false);
		if (ntok > 4 && I(4)) {
			add_immBlock_pred(blk[I(3)], pf);
			add_immBlock_pred(blk[I(2)], pt);
		} else {
			add_immBlock_pred(blk[I(2)], pt);
			add_immBlock_pred(blk[I(3)], pf);
		}
		end_cur(); return;
	}
	if (!strcmp(o, "sw")) {   /* sw t mode default n (min max pn)* nouts-1 blocks.. */
		ir_mode *m = mode_of(tok[2]);
		int nouts = I(4), n = I(5);
		ir_switch_table *t = ir_new_switch_table(irg, n);
		for (int i = 0; i < n; ++i)
			ir_switch_table_set(t, i, tv_hex(tok[6 + 3*i], m), tv_hex(tok[7 + 3*i], m), I(8 + 3*i));
		ir_node *s = new_Switch(T(1), nouts, t);
		add_immBlock_pred(blk[I(3)], new_Proj(s, mode_X, pn_Switch_default));
		for (int i = 1; i < nouts; ++i)
			add_immBlock_pred(blk[I(6 + 3*n + i - 1)], new_Proj(s, mode_X, i));
		end_cur(); return;
	}
	if (!strcmp(o, "ret")) {
		int n = I(1);
		ir_node *in[16];
		for (int i = 0; i < n; ++i) in[i] = T(2 + i);
		add_immBlock_pred(get_irg_end_block(irg), new_Return(get_store(), n, in));
		end_cur(); return;
	}
	if (!strcmp(o, "keep")) { keep_alive(T(1)); return; }
	if (!strcmp(o, "keepm")) { keep_alive(get_store()); return; }
	if (!strcmp(o, "keepb")) { keep_alive(blk[I(1)]); return; }
	fprintf(stderr, "drv: unknown instruction %s\n", o);
	exit(99);
}

/* ----------------------------------------------------------------- export */
static pmap *nodeidx, *entidx;
static ir_node **nodelist;
static ir_entity **entlist;
static ir_mode **modelist;

static int eidx(ir_entity *e)
{
	if (e == NULL) return -1;
	void *p = pmap_get(void, entidx, e);
	if (p) return (int)(intptr_t)p - 1;
	ARR_APP1(ir_entity*, entlist, e);
	pmap_insert(entidx, e, (void*)(intptr_t)ARR_LEN(entlist));
	return (int)ARR_LEN(entlist) - 1;
}

static int midx(ir_mode *m)
{
	for (size_t i = 0; i < ARR_LEN(modelist); ++i)
		if (modelist[i] == m) return (int)i;
	ARR_APP1(ir_mode*, modelist, m);
	return (int)ARR_LEN(modelist) - 1;
}

static void collect(ir_node *n, void *env)
{
	(void)env;
	if (pmap_get(void, nodeidx, n) == NULL) {
		ARR_APP1(ir_node*, nodelist, n);
		pmap_insert(nodeidx, n, (void*)(intptr_t)ARR_LEN(nodelist));
	}
}

static int nidx(ir_node *n)
{
	if (n == NULL) return -1;
	return (int)(intptr_t)pmap_get(void, nodeidx, n) - 1;
}

static void put_str(FILE *f, const char *s)
{
	fputc('"', f);
	for (; *s; ++s) {
		unsigned char c = (unsigned char)*s;
		if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
		else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c);
		else fputc(c, f);
	}
	fputc('"', f);
}

static void put_tv(FILE *f, ir_tarval *tv)
{
	if (tv == tarval_b_true) { fputs("\"1\"", f); return; }
	if (tv == tarval_b_false) { fputs("\"0\"", f); return; }
	if (!tarval_is_constant(tv)) { fputs("\"?\"", f); return; }
	ir_mode *m = get_tarval_mode(tv);
	int n = (get_mode_size_bits(m) + 7) / 8;
	fputc('"', f);
	for (int i = n; i-- > 0; ) fprintf(f, "%02x", get_tarval_sub_bits(tv, i));
	fputc('"', f);
}

/* a symbolic constant expression: sum of an address and an integer */
static bool eval_sym(ir_node *n, ir_entity **e, long *off)
{
	switch (get_irn_opcode(n)) {
	case iro_Const: {
		*off += get_tarval_long(get_Const_tarval(n)); return true; }
	case iro_Address: *e = get_Address_entity(n); return true;
	case iro_Conv: return eval_sym(get_Conv_op(n), e, off);
	case iro_Add: return eval_sym(get_Add_left(n), e, off) && eval_sym(get_Add_right(n), e, off);
	case iro_Sub: { long o2 = 0; ir_entity *e2 = NULL;
		if (!eval_sym(get_Sub_left(n), e, off) || !eval_sym(get_Sub_right(n), &e2, &o2) || e2) return false;
		*off -= o2; return true; }
	case iro_Member: *off += get_entity_offset(get_Member_entity(n)); return eval_sym(get_Member_ptr(n), e, off);
	case iro_Sel: { ir_entity *e2 = NULL; long i = 0;
		if (!eval_sym(get_Sel_index(n), &e2, &i)) return false;
		*off += i * (long)get_type_size(get_array_element_type(get_Sel_type(n)));
		return eval_sym(get_Sel_ptr(n), e, off); }
	case iro_Size: *off += get_type_size(get_Size_type(n)); return true;
	case iro_Align: *off += get_type_alignment(get_Align_type(n)); return true;
	case iro_Offset: *off += get_entity_offset(get_Offset_entity(n)); return true;
	default: return false;
	}
}

static int initcnt;
static void put_init(FILE *f, ir_initializer_t *in, ir_type *ty, unsigned off)
{
	switch (get_initializer_kind(in)) {
	case IR_INITIALIZER_NULL: return;
	case IR_INITIALIZER_TARVAL:
		fprintf(f, "%s[%u,", initcnt++ ? "," : "", off);
		put_tv(f, get_initializer_tarval_value(in));
		fputc(']', f);
		return;
	case IR_INITIALIZER_CONST: {
		ir_node *v = get_initializer_const_value(in);
		ir_entity *e = NULL; long o = 0;
		if (is_Const(v)) {
			fprintf(f, "%s[%u,", initcnt++ ? "," : "", off);
			put_tv(f, get_Const_tarval(v));
			fputc(']', f);
		} else if (eval_sym(v, &e, &o)) {
			fprintf(f, "%s[%u,%d,%ld,%u]", initcnt++ ? "," : "", off, eidx(e), o, get_mode_size_bytes(get_irn_mode(v)));
		} else
			fprintf(f, "%s[%u,-2]", initcnt++ ? "," : "", off);
		return;
	}
	case IR_INITIALIZER_COMPOUND:
		for (size_t i = 0, n = get_initializer_compound_n_entries(in); i < n; ++i) {
			ir_initializer_t *s = get_initializer_compound_value(in, i);
			if (is_Array_type(ty)) {
				ir_type *et = get_array_element_type(ty);
				put_init(f, s, et, off + i * get_type_size(et));
			} else {
				ir_entity *m = get_compound_member(ty, i);
				put_init(f, s, get_entity_type(m), off + get_entity_offset(m));
			}
		}
		return;
	}
}

static void put_node(FILE *f, ir_node *n)
{
	fprintf(f, "[\"%s\",%d,%d,[", get_op_name(get_irn_op(n)), midx(get_irn_mode(n)), is_Block(n) ? -1 : nidx(get_nodes_block(n)));
	int ar = get_irn_arity(n);
	for (int i = 0; i < ar; ++i) fprintf(f, "%s%d", i ? "," : "", nidx(get_irn_n(n, i)));
	fprintf(f, "]");
	switch (get_irn_opcode(n)) {
	case iro_Const: fputc(',', f); put_tv(f, get_Const_tarval(n)); break;
	case iro_Address: fprintf(f, ",%d", eidx(get_Address_entity(n))); break;
	case iro_Offset: fprintf(f, ",%d", get_entity_offset(get_Offset_entity(n))); break;
	case iro_Size: fprintf(f, ",%u", get_type_size(get_Size_type(n))); break;
	case iro_Align: fprintf(f, ",%u", get_type_alignment(get_Align_type(n))); break;
	case iro_Member: {
		ir_entity *e = get_Member_entity(n);
		bool fr = is_frame_type(get_entity_owner(e));
		fprintf(f, ",%d,%d", fr, fr ? eidx(e) : get_entity_offset(e)); break; }
	case iro_Sel: fprintf(f, ",%u", get_type_size(get_array_element_type(get_Sel_type(n)))); break;
	case iro_Load: fprintf(f, ",%d,%d,%d", midx(get_Load_mode(n)), get_Load_volatility(n) == volatility_is_volatile, get_irn_pinned(n)); break;
	case iro_Store: fprintf(f, ",%d", get_Store_volatility(n) == volatility_is_volatile); break;
	case iro_CopyB: fprintf(f, ",%u,%d", get_type_size(get_CopyB_type(n)), get_CopyB_volatility(n) == volatility_is_volatile); break;
	case iro_Alloc: fprintf(f, ",%u", get_Alloc_alignment(n)); break;
	case iro_Div: fprintf(f, ",%d,%d", midx(get_Div_resmode(n)), get_Div_no_remainder(n)); break;
	case iro_Mod: fprintf(f, ",%d", midx(get_Mod_resmode(n))); break;
	case iro_Cmp: fprintf(f, ",%d", (int)get_Cmp_relation(n)); break;
	case iro_Confirm: fprintf(f, ",%d", (int)get_Confirm_relation(n)); break;
	case iro_Proj: fprintf(f, ",%u", get_Proj_num(n)); break;
	case iro_Phi: fprintf(f, ",%d", get_Phi_loop(n)); break;
	case iro_Builtin: fprintf(f, ",%d", (int)get_Builtin_kind(n)); break;
	case iro_Switch: {
		ir_switch_table *t = get_Switch_table(n);
		fprintf(f, ",%u,[", get_Switch_n_outs(n));
		bool first = true;
		for (size_t i = 0, k = ir_switch_table_get_n_entries(t); i < k; ++i) {
			ir_tarval *mn = ir_switch_table_get_min(t, i), *mx = ir_switch_table_get_max(t, i);
			if (mn == NULL || mx == NULL || ir_switch_table_get_pn(t, i) == 0) continue;
			if (!first) fputc(',', f);
			first = false;
			fputc('[', f); put_tv(f, mn); fputc(',', f); put_tv(f, mx);
			fprintf(f, ",%u]", ir_switch_table_get_pn(t, i));
		}
		fputc(']', f);
		break;
	}
	case iro_Call: {
		ir_type *mt = get_Call_type(n);
		/* compound parameters and results: their sizes */
		fprintf(f, ",[");
		for (size_t i = 0, k = get_method_n_params(mt); i < k; ++i) {
			ir_type *pt = get_method_param_type(mt, i);
			fprintf(f, "%s%d", i ? "," : "", is_compound_type(pt) || is_Array_type(pt) ? (int)get_type_size(pt) : 0);
		}
		fprintf(f, "],[");
		for (size_t i = 0, k = get_method_n_ress(mt); i < k; ++i) {
			ir_type *pt = get_method_res_type(mt, i);
			fprintf(f, "%s%d", i ? "," : "", is_compound_type(pt) ? (int)get_type_size(pt) : 0);
		}
		fprintf(f, "],%u", (unsigned)get_method_additional_properties(mt));
		break;
	}
	default: break;
	}
	fputc(']', f);
}

static void put_fn(FILE *f, ir_graph *irg)
{
	ir_entity *ent = get_irg_entity(irg);
	if (fact_mode) fact_begin(irg);
	nodelist = NEW_ARR_F(ir_node*, 0);
	nodeidx = pmap_create();
	irg_walk_graph(irg, collect, NULL, NULL);
	collect(get_irg_start(irg), NULL);
	collect(get_irg_start_block(irg), NULL);
	fprintf(f, "{\"ent\":%d,\"start\":%d,\"startblk\":%d,\"endblk\":%d,\"end\":%d,\"frame\":[", eidx(ent),
	        nidx(get_irg_start(irg)), nidx(get_irg_start_block(irg)), nidx(get_irg_end_block(irg)), nidx(get_irg_end(irg)));
	ir_type *fr = get_irg_frame_type(irg);
	bool first = true;
	for (size_t i = 0, n = get_compound_n_members(fr); i < n; ++i) {
		ir_entity *e = get_compound_member(fr, i);
		int par = is_parameter_entity(e) ? (int)get_entity_parameter_number(e) : -1;
		fprintf(f, "%s[%d,%u,%d,%d,%d]", first ? "" : ",", eidx(e), get_type_size(get_entity_type(e)), par,
		        is_atomic_type(get_entity_type(e)) ? midx(get_type_mode(get_entity_type(e))) : -1,
		        par >= 0 && e->attr.parameter.is_lowered_doubleword);
		first = false;
	}
	fprintf(f, "],\"nodes\":[");
	for (size_t i = 0; i < ARR_LEN(nodelist); ++i) {
		if (i) fputc(',', f);
		put_node(f, nodelist[i]);
	}
	fprintf(f, "]");
	if (fact_mode) {
		fprintf(f, ",\"facts\":[");
		put_facts(f, irg);
		fprintf(f, "]");
	}
	fprintf(f, "}");
	pmap_destroy(nodeidx);
	DEL_ARR_F(nodelist);
	if (fact_mode) fact_end(irg);
}

static char *last_text;

/* everything that denotes the program: entities, initializers, graphs */
static void export_prog(const char *tag)
{
	char *buf; size_t len;
	int ver = 1;
	foreach_irp_irg(i, irg) {
		if (get_irg_pinned(irg) == op_pin_state_floats)
			place_code(irg);
		ver &= irg_verify(irg);
	}
	FILE *f = open_memstream(&buf, &len);
	entidx = pmap_create();
	entlist = NEW_ARR_F(ir_entity*, 0);
	modelist = NEW_ARR_F(ir_mode*, 0);
	fprintf(f, "\"fns\":[");
	bool first = true;
	foreach_irp_irg(i, irg) {
		if (!first) fputc(',', f);
		first = false;
		put_fn(f, irg);
	}
	fprintf(f, "],\"ents\":[");
	for (int s = IR_SEGMENT_FIRST; s <= IR_SEGMENT_LAST; ++s) {
		ir_type *seg = get_segment_type((ir_segment_t)s);
		for (size_t i = 0, n = get_compound_n_members(seg); i < n; ++i)
			eidx(get_compound_member(seg, i));
	}
	for (size_t i = 0; i < ARR_LEN(entlist); ++i) {
		ir_entity *e = entlist[i];
		ir_type *ty = get_entity_type(e);
		ir_type *ow = get_entity_owner(e);
		bool seg = is_segment_type(ow) && !is_frame_type(ow);
		bool meth = is_Method_type(ty);
		fprintf(f, "%s[", i ? "," : "");
		if (seg) put_str(f, get_entity_ld_name(e)); else fputs("\"\"", f);
		fprintf(f, ",\"%s\",\"%c\",%u,%u,", meth ? "m" : is_alias_entity(e) ? "a" : seg ? "g" : "x",
		        entity_is_externally_visible(e) ? 'e' : 'l', (unsigned)get_entity_linkage(e),
		        meth ? 0 : get_type_size(ty));
		if (seg && !meth && !is_alias_entity(e) && get_entity_initializer(e) != NULL) {
			initcnt = 0;
			fputc('[', f);
			put_init(f, get_entity_initializer(e), ty, 0);
			fputc(']', f);
		} else if (meth)
			fprintf(f, "%u", (unsigned)get_entity_additional_properties(e));
		else
			fprintf(f, "null");
		if (fact_mode == FACT_USAGE) fprintf(f, ",%u,%u,%d", (unsigned)get_entity_usage(e), get_type_size(ty), is_atomic_type(ty) ? midx(get_type_mode(ty)) : -1);
		fputc(']', f);
	}
	fprintf(f, "],\"modes\":[");
	for (size_t i = 0; i < ARR_LEN(modelist); ++i) {
		ir_mode *m = modelist[i];
		const char *so = mode_is_float(m) ? "f" : mode_is_reference(m) ? "r" : mode_is_int(m) ? "i" : m == mode_b ? "b" : "x";
		bool fl = mode_is_float(m), in = mode_is_int(m) || mode_is_reference(m);
		fprintf(f, "%s[\"%s\",\"%s\",%u,%d,%u,%u,%u]", i ? "," : "", get_mode_name(m), so,
		        fl || in ? get_mode_size_bits(m) : m == mode_b ? 1 : 0, in ? mode_is_signed(m) : 0, in ? get_mode_modulo_shift(m) : 0,
		        fl ? get_mode_exponent_size(m) : 0, fl ? get_mode_mantissa_size(m) : 0);
	}
	fprintf(f, "]");
	fclose(f);
	pmap_destroy(entidx);
	DEL_ARR_F(entlist);
	DEL_ARR_F(modelist);
	if (last_text != NULL && !strcmp(last_text, buf)) {
		fprintf(out, "{\"id\":%d,\"tag\":\"%s\",\"same\":1,\"ver\":%d}\n", prog_id, tag, ver);
		free(buf);
	} else {
		fprintf(out, "{\"id\":%d,\"tag\":\"%s\",\"ver\":%d,%s}\n", prog_id, tag, ver, buf);
		free(last_text);
		last_text = buf;
	}
}

#include "structdump.h"

/* ------------------------------------------------------------------ passes */
static int mux_all(ir_node *n) { (void)n; return 1; }
static int factor(void) { return ntok > 2 ? I(2) : 0; }

static void osr(ir_graph *g) { opt_osr(g, osr_flag_default | osr_flag_keep_reg_pressure); }
static void osr2(ir_graph *g) { opt_osr(g, osr_flag_default | osr_flag_ignore_x86_shift); }
static void lswitch(ir_graph *g) { lower_switch(g, 4, 256, mode_Iu); }
static void lswitch2(ir_graph *g) { lower_switch(g, 1, 4, mode_Iu); }
static void lcopyb(ir_graph *g) { lower_CopyB(g, 32, 33, false); }
static void lcopyb2(ir_graph *g) { lower_CopyB(g, 3, 64, true); }
static void lmux(ir_graph *g) { lower_mux(g, mux_all); }
static void lmodeb(ir_graph *g) { ir_lower_mode_b(g, mode_Iu); }
static void lalloc(ir_graph *g) { lower_alloc(g, 4); }
static void unroll(ir_graph *g) { unroll_loops(g, 2, 2000); }
static void unroll4(ir_graph *g) { unroll_loops(g, 4, 4000); }
static void lcssa(ir_graph *g) { assure_lcssa(g); }
static void gcse(ir_graph *g) { set_opt_global_cse(1); optimize_graph_df(g); set_opt_global_cse(0); }
static void rmcrit(ir_graph *g) { remove_critical_cf_edges(g); }
static void rmcrit2(ir_graph *g) { remove_critical_cf_edges_ex(g, 1); }
static void dbl(ir_graph *g) { remove_bads(g); remove_unreachable_code(g); remove_tuples(g); }
static void confirms_opt(ir_graph *g) { construct_confirms(g); optimize_graph_df(g); remove_confirms(g); }
static void norm2(ir_graph *g) { add_irg_constraints(g, IR_GRAPH_CONSTRAINT_NORMALISATION2); optimize_graph_df(g); }
static void vrp(ir_graph *g) { (void)g; set_vrp_data(g); optimize_graph_df(g); free_vrp_data(g); }
static void schk_ifconv(ir_graph *g) { opt_if_conv(g); }
static int ifc_all(ir_node const *s, ir_node const *t, ir_node const *f) { (void)s; (void)t; (void)f; return 1; }
static void ifconv_all(ir_graph *g) { opt_if_conv_cb(g, ifc_all); }
static void reass(ir_graph *g) { optimize_reassociation(g); }

static void local_opt(ir_graph *irg) { local_optimize_graph(irg); confirm_irg_properties(irg, IR_GRAPH_PROPERTIES_NONE); }
static struct { const char *n; void (*f)(ir_graph*); } passes[] = {
	{"local", local_opt}, {"df", optimize_graph_df}, {"cf", optimize_cf}, {"jt", opt_jumpthreading},
	{"bool", opt_bool}, {"conv", conv_opt}, {"gvnpre", do_gvn_pre}, {"ifconv", schk_ifconv}, {"ifconv_all", ifconv_all},
	{"parmem", opt_parallelize_mem}, {"ldst", optimize_load_store}, {"combmem", combine_memops}, {"optldst", opt_ldst},
	{"frame", opt_frame_irg}, {"osr", osr}, {"osr2", osr2}, {"rmphi", remove_phi_cycles}, {"reassoc", reass},
	{"oneret", normalize_one_return}, {"nret", normalize_n_returns}, {"scalar", scalar_replacement_opt},
	{"tailrec", opt_tail_rec_irg}, {"combo", combo}, {"shape", shape_blocks}, {"inv", do_loop_inversion},
	{"unr", do_loop_unrolling}, {"unroll", unroll}, {"unroll4", unroll4}, {"peel", do_loop_peeling}, {"dne", dead_node_elimination},
	{"place", place_code}, {"occult", occult_consts}, {"lswitch", lswitch}, {"lswitch2", lswitch2}, {"lcopyb", lcopyb},
	{"lcopyb2", lcopyb2}, {"lmux", lmux}, {"lmodeb", lmodeb}, {"lalloc", lalloc}, {"lhl", lower_highlevel_graph},
	{"lcssa", lcssa}, {"gcse", gcse}, {"rmcrit", rmcrit}, {"rmcrit2", rmcrit2}, {"rmbad", dbl}, {"confirm", construct_confirms},
	{"confonly", construct_confirms_only}, {"rmconf", remove_confirms}, {"confopt", confirms_opt}, {"norm2", norm2}, {"vrp", vrp},
};

static void after_nothing(ir_graph *g) { (void)g; }
static void after_inline(ir_graph *g) { optimize_graph_df(g); }

static bool in_lower;
static void after_lower(ir_graph *irg, const char *name)
{
	if (!in_lower || irg != get_irp_irg(get_irp_n_irgs() - 1)) return;
	char t[100];
	snprintf(t, sizeof(t), "be:%s", name);
	setstage(t);
	export_prog(t);
}

static void run_pass(const char *n)
{
	setstage(n);
	for (size_t k = 0; k < sizeof(passes)/sizeof(passes[0]); ++k) {
		if (strcmp(passes[k].n, n)) continue;
		foreach_irp_irg(i, irg) { passes[k].f(irg); }
		return;
	}
	if (!strcmp(n, "inline")) { inline_functions(500, 50, after_inline); return; }
	if (!strcmp(n, "inline0")) { inline_functions(500, -1000, after_nothing); return; }
	if (!strcmp(n, "inline2")) { inline_functions(750, -1000, after_inline); return; }
	if (!strcmp(n, "clone")) { proc_cloning(0.0f); return; }
	if (!strcmp(n, "clone2")) { proc_cloning((float)(ntok > 2 ? I(2) : 20)); return; }
	if (!strcmp(n, "funccalls")) { optimize_funccalls(); return; }
	if (!strcmp(n, "gcents")) {
		ir_entity **keep;
		(void)keep;
		garbage_collect_entities(); return; }
	if (!strcmp(n, "lhlall")) { lower_highlevel(); return; }
	if (!strcmp(n, "lconst")) { lower_const_code(); return; }
	if (!strcmp(n, "locc")) { local_opts_const_code(); return; }
	if (!strcmp(n, "loopinfo")) { foreach_irp_irg(i, irg) { assure_loopinfo(irg); } return; }
	if (!strcmp(n, "domall")) { foreach_irp_irg(i, irg) { assure_irg_properties(irg, IR_GRAPH_PROPERTY_CONSISTENT_DOMINANCE|IR_GRAPH_PROPERTY_CONSISTENT_POSTDOMINANCE|IR_GRAPH_PROPERTY_CONSISTENT_OUTS|IR_GRAPH_PROPERTY_CONSISTENT_OUT_EDGES|IR_GRAPH_PROPERTY_CONSISTENT_LOOPINFO|IR_GRAPH_PROPERTY_CONSISTENT_ENTITY_USAGE); } return; }
	if (!strcmp(n, "opton")) { set_optimize(1); return; }
	if (!strcmp(n, "lowerq")) { be_lower_for_target(); return; }
	if (!strcmp(n, "lower")) {
		in_lower = true;
		be_set_after_transform_func(after_lower);
		be_lower_for_target();
		in_lower = false;
		return;
	}
	if (run_analysis(n))
		return;
	fprintf(stderr, "drv: unknown pass %s\n", n);
	exit(99);
}

static void command(void);

static void split(char *l)
{
	ntok = 0;
	for (char *p = strtok(l, " \t\n"); p; p = strtok(NULL, " \t\n")) {
		if (ntok >= MAXTOK) exit(99);
		tok[ntok++] = p;
	}
}

static void command(void)
{
	char *o = tok[0];
	if (!strcmp(o, "md")) {
		custom_names[n_custom] = strdup(tok[1]);
		custom_modes[n_custom++] = new_int_mode(tok[1], I(2), I(3), I(4));
	} else if (!strcmp(o, "opt")) {
		set_optimize(I(1));
	} else if (!strcmp(o, "flag")) {
		if (!strcmp(tok[1], "cse")) set_opt_cse(I(2));
		else if (!strcmp(tok[1], "gcse")) set_opt_global_cse(I(2));
		else if (!strcmp(tok[1], "fold")) set_opt_constant_folding(I(2));
		else if (!strcmp(tok[1], "alg")) set_opt_algebraic_simplification(I(2));
		else if (!strcmp(tok[1], "alias")) set_irp_memory_disambiguator_options((ir_disambiguator_options)I(2));
	} else if (!strcmp(o, "ty")) {
		def_type();
	} else if (!strcmp(o, "gl")) {     /* gl n name ty vis const(0/1) vol */
		ir_entity *e = new_global_entity(get_glob_type(), new_id_from_str(tok[2]), tys[I(3)], vis_of(tok[4][0]),
		                                 I(5) ? IR_LINKAGE_CONSTANT : IR_LINKAGE_DEFAULT);
		if (ntok > 6 && I(6)) set_entity_volatility(e, volatility_is_volatile);
		gls[I(1)] = e;
	} else if (!strcmp(o, "ini")) {    /* ini n leaf... */
		initpos = 2;
		ir_entity *e = gls[I(1)];
		if (ntok == 2) set_entity_initializer(e, get_initializer_null());
		else set_entity_initializer(e, build_init(get_entity_type(e)));
	} else if (!strcmp(o, "fn")) {     /* fn n name ty vis props */
		ir_entity *e = new_global_entity(get_glob_type(), new_id_from_str(tok[2]), tys[I(3)], vis_of(tok[4][0]), IR_LINKAGE_DEFAULT);
		if (I(5)) add_entity_additional_properties(e, (mtp_additional_properties)I(5));
		fns[I(1)] = e;
		fnty[I(1)] = tys[I(3)];
	} else if (!strcmp(o, "body")) {   /* body fn nlocals nblocks nframe (ty par)* */
		ir_entity *e = fns[I(1)];
		ir_graph *irg = new_ir_graph(e, I(2));
		set_current_ir_graph(irg);
		memset(tmp, 0, sizeof(tmp));
		int nb = I(3), nf = I(4);
		for (int i = 0; i < nf; ++i) {
			char nm[20];
			snprintf(nm, sizeof(nm), "v%d", i);
			ir_type *t = tys[I(5 + 2*i)];
			int par = I(6 + 2*i);
			frs[i] = par >= 0 ? new_parameter_entity(get_irg_frame_type(irg), par, t)
			                  : new_entity(get_irg_frame_type(irg), new_id_from_str(nm), t);
		}
		blk[0] = get_cur_block();
		for (int i = 1; i < nb; ++i) blk[i] = new_immBlock();
	} else if (!strcmp(o, "endbody")) {
		ir_graph *irg = current_ir_graph;
		irg_finalize_cons(irg);
	} else if (!strcmp(o, "main")) {
		set_irp_main_irg(get_entity_irg(fns[I(1)]));
	} else if (!strcmp(o, "junk")) {  /* junk n seed: identifiers and allocations the program has nothing to do with */
		unsigned r = I(2);
		void *keep[512];
		int nk = 0;
		for (int i = 0; i < I(1); ++i) {
			r = r * 1103515245u + 12345u;
			char nm[40];
			snprintf(nm, sizeof(nm), "unrelated_%x", r >> 3);
			new_id_from_str(nm);
			void *p = malloc(8 + (r >> 16) % 3000);
			if (((r >> 9) & 1) && nk < 512) keep[nk++] = p;      /* the others leave holes only after the loop */
		}
		for (int i = 0; i < nk; ++i) free(keep[i]);
	} else if (!strcmp(o, "x")) {
		setstage("export");
		export_prog(tok[1]);
	} else if (!strcmp(o, "pass")) {
		run_pass(tok[1]);
	} else if (!strcmp(o, "p")) {     /* pass + export */
		run_pass(tok[1]);
		export_prog(tok[1]);
	} else if (!strcmp(o, "an")) {    /* what the graphs claim (after requesting the given properties) */
		setstage("an");
		snprintf(an_prefix, sizeof an_prefix, "\"id\":%d,", prog_id);
		foreach_irp_irg(i, irg) {
			if (ntok > 1 && I(1) != 0) { assure_irg_properties(irg, (ir_graph_properties_t)I(1)); }
			if (get_irg_last_idx(irg) < 3000) an_stored(out, irg, ntok > 2 ? tok[2] : "an", 0);
		}
	} else if (!strcmp(o, "fresh")) {
		setstage("fresh");
		snprintf(an_prefix, sizeof an_prefix, "\"id\":%d,", prog_id);
		foreach_irp_irg(i, irg) { if (get_irg_last_idx(irg) < 1500) an_fresh(out, irg, "fresh", 0, 1); }
	} else if (!strcmp(o, "verify")) {
		int ver = 1;
		foreach_irp_irg(i, irg) { ver &= irg_verify(irg); }
		fprintf(out, "{\"id\":%d,\"tag\":\"verify\",\"same\":1,\"ver\":%d}\n", prog_id, ver);
	} else if (!strcmp(o, "vx")) {      /* vx seed count */
		setstage("vx");
		vx_prog = prog_id;
		alarm(200);
		vx_run(out, I(1), I(2), 260);
	} else if (!strcmp(o, "emit")) {
		setstage("emit");
		FILE *f = fopen(tok[1], "w");
		be_main(f, "unit");
		fclose(f);
		fprintf(out, "{\"id\":%d,\"tag\":\"emit\",\"file\":\"%s\"}\n", prog_id, tok[1]);
	} else if (!strcmp(o, "struct")) {   /* struct op file: the whole program; the text it was written to / read from */
		setstage("struct");
		s_align = ntok > 3;
		struct_dump(tok[1], ntok > 2 ? tok[2] : "");
	} else if (!strcmp(o, "entalign")) {  /* entalign n: the alignment of every variable */
		ir_type *gt = get_segment_type(IR_SEGMENT_GLOBAL);
		for (size_t i = 0; i < get_compound_n_members(gt); ++i)
			if (!is_Method_type(get_entity_type(get_compound_member(gt, i)))) set_entity_alignment(get_compound_member(gt, i), I(1));
	} else if (!strcmp(o, "decorate")) {
		setstage("decorate");
		decorate(I(1));
	} else if (!strcmp(o, "irexport")) {
		setstage("irexport");
		if (ir_export(tok[1])) { fprintf(stderr, "drv: export\n"); exit(98); }
	} else if (!strcmp(o, "irimport")) {
		setstage("irimport");
		int r = ir_import(tok[1]);
		fprintf(out, "{\"id\":%d,\"tag\":\"import\",\"same\":1,\"ver\":1,\"rc\":%d}\n", prog_id, r);
	} else {
		instr();
	}
}

static void init(void)
{
	ir_init_library();
	if (!ir_target_set(target)) { fprintf(stderr, "drv: target %s\n", target); exit(99); }
	for (int i = 0; i < n_opts; ++i)
		if (!ir_target_option(opts[i])) { fprintf(stderr, "drv: option %s\n", opts[i]); exit(99); }
	ir_target_init();
}

int main(int argc, char **argv)
{
	target = argc > 1 ? argv[1] : "x86_64-linux-gnu";
	for (int i = 2; i < argc; ++i) opts[n_opts++] = argv[i];
	stage = mmap(NULL, 4096, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
	char *line = NULL; size_t cap = 0;
	char **lines = NULL; int nl = 0, cl = 0, slow = 0;
	signal(SIGPIPE, SIG_DFL);
	while (getline(&line, &cap, stdin) > 0) {
		if (line[0] == 'P' && line[1] == ' ') { prog_id = atoi(line + 2); nl = 0; continue; }
		if (line[0] != '.') {
			if (nl == cl) lines = realloc(lines, (cl = 2 * cl + 100) * sizeof(*lines));
			lines[nl++] = strdup(line);
			continue;
		}
		fflush(stdout);
		int ef = memfd_create("err", 0);
		setstage("build");
		pid_t pid = fork();
		if (pid == 0) {
			struct rlimit rl = { 8, 8 };
			if (!getenv("DRV_NOLIMIT")) setrlimit(RLIMIT_CPU, &rl);
			struct rlimit rm = { 2000000000UL, 2000000000UL };
			if (!getenv("DRV_NOLIMIT")) setrlimit(RLIMIT_AS, &rm);
			struct rlimit rc = { 0, 0 };
			setrlimit(RLIMIT_CORE, &rc);
			dup2(ef, 2);
			alarm(30);
			out = stdout;
			init();
			for (int i = 0; i < nl; ++i) {
				split(lines[i]);
				if (ntok) command();
			}
			fflush(stdout);
			_exit(0);
		}
		int st;
		waitpid(pid, &st, 0);
		for (int i = 0; i < nl; ++i) free(lines[i]);
		nl = 0;
		off_t el = lseek(ef, 0, SEEK_END);
		char eb[601];
		memset(eb, 0, sizeof(eb));
		if (el > 0) {
			off_t from = el > 600 ? el - 600 : 0;
			if (pread(ef, eb, 600, from) < 0) eb[0] = 0;
		}
		close(ef);
		if (st != 0 || el > 0) {
			printf("\n{\"id\":%d,\"tag\":\"exit\",\"stage\":\"%s\",\"status\":%d,\"sig\":%d,\"err\":", prog_id, stage,
			       WIFEXITED(st) ? WEXITSTATUS(st) : -1, WIFSIGNALED(st) ? WTERMSIG(st) : 0);
			put_str(stdout, eb);
			printf("}\n");
		}
		printf("\n{\"id\":%d,\"tag\":\"done\"}\n", prog_id);
		fflush(stdout);
		if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGKILL) && ++slow >= 4)
			break;       /* endless loops: the caller has seen enough */
	}
	return 0;
}
