/* C20: graphs, valid and with one ill-formed spot, together with what the verifier says about them */
#ifndef VEREXPORT_H
#define VEREXPORT_H
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include "anexport.h"
#include "irmode_t.h"
#include "tv_t.h"
#include "irop_t.h"
#include "irverify.h"

static unsigned vx_seed;
static int vx_prog;
static unsigned vx_rand(unsigned n) { vx_seed = vx_seed * 1103515245u + 12345u; return n ? (vx_seed >> 8) % n : 0; }
static char const *vx_mode(ir_mode *m) { return m ? get_mode_name(m) : "-"; }
static char const *vx_tmode(ir_type *t) { return is_atomic_type(t) ? vx_mode(get_type_mode(t)) : "agg"; }

static void vx_ns(ir_node *n, int *ni, int *nums, int *ns, char const **strs)
{
#define NUM(v) nums[(*ni)++] = (int)(v)
#define STR(v) strs[(*ns)++] = (v)
	*ni = *ns = 0;
	switch ((unsigned)get_irn_opcode(n)) {
	case iro_Proj: NUM(get_Proj_num(n)); break;
	case iro_Div: STR(vx_mode(get_Div_resmode(n))); NUM(ir_throws_exception(n) != 0); break;
	case iro_Mod: STR(vx_mode(get_Mod_resmode(n))); NUM(ir_throws_exception(n) != 0); break;
	case iro_Load: STR(vx_mode(get_Load_mode(n))); NUM(ir_throws_exception(n) != 0); break;
	case iro_Store: NUM(ir_throws_exception(n) != 0); break;
	case iro_Call: {
		ir_type *t = get_Call_type(n);
		NUM(ir_throws_exception(n) != 0); NUM(is_method_variadic(t) != 0); NUM(get_method_n_params(t));
		for (size_t i = 0; i < get_method_n_params(t) && *ns < 60; ++i) STR(vx_tmode(get_method_param_type(t, i)));
		for (size_t i = 0; i < get_method_n_ress(t) && *ns < 60; ++i) STR(is_aggregate_type(get_method_res_type(t, i)) ? "P" : vx_mode(get_type_mode(get_method_res_type(t, i))));
		break;
	}
	case iro_Const: STR(vx_mode(get_tarval_mode(get_Const_tarval(n)))); break;
	case iro_Phi: NUM(get_Phi_loop(n) != 0); break;
	case iro_Switch: {
		ir_switch_table const *t = get_Switch_table(n);
		NUM(get_Switch_n_outs(n));
		for (size_t e = 0; e < ir_switch_table_get_n_entries(t) && *ns < 60; ++e) {
			if (ir_switch_table_get_pn(t, e) == 0) continue;
			ir_tarval *a = ir_switch_table_get_min(t, e), *b = ir_switch_table_get_max(t, e);
			NUM(ir_switch_table_get_pn(t, e)); NUM(tarval_cmp(a, b) == ir_relation_greater);
			STR(vx_mode(get_tarval_mode(a))); STR(vx_mode(get_tarval_mode(b)));
		}
		break;
	}
	case iro_Address: NUM(is_segment_type(get_entity_owner(get_Address_entity(n))) || is_method_entity(get_Address_entity(n))); break;
	case iro_Member: {
		ir_type *o = get_entity_owner(get_Member_entity(n));
		NUM(is_segment_type(o)); NUM(o == get_irg_frame_type(get_irn_irg(n)));
		break;
	}
	case iro_Sel: NUM(is_Array_type(get_Sel_type(n))); break;
	case iro_CopyB: NUM(is_compound_type(get_CopyB_type(n)) || is_Array_type(get_CopyB_type(n))); break;
	case iro_Block: NUM(get_Block_matured(n) != 0); NUM(get_Block_entity(n) != NULL); break;
	default: break;
	}
}
static void vx_export(FILE *f, ir_graph *irg, char const *what, int mutid, char const *verdict, unsigned props)
{
	fprintf(f, "{\"id\":%d,\"tag\":\"vx\",\"fn\":\"%s\",\"mut\":\"%s\",\"at\":%d,\"verdict\":\"%s\",\"core\":%d,\"frame\":%d,\"pinned\":%d,\"props\":[",
	        vx_prog, get_entity_name(get_irg_entity(irg)), what, mutid, verdict, an_core, an_id(get_irg_frame(irg)), get_irg_pinned(irg) == op_pin_state_pinned);
	int first = 1;
	for (int i = 0; i < 13; ++i) if (props >> i & 1) { fprintf(f, "%s%d", first ? "" : ",", i); first = 0; }
	ir_type *mt = get_entity_type(get_irg_entity(irg));
	fprintf(f, "],\"par\":[");
	for (size_t i = 0; i < get_method_n_params(mt); ++i) fprintf(f, "%s\"%s\"", i ? "," : "", vx_mode(get_type_mode(get_method_param_type(mt, i))));
	fprintf(f, "],\"res\":[");
	for (size_t i = 0; i < get_method_n_ress(mt); ++i) fprintf(f, "%s\"%s\"", i ? "," : "", vx_tmode(get_method_res_type(mt, i)));
	fprintf(f, "],\"modes\":{");
	for (size_t i = 0; i < ir_get_n_modes(); ++i) {
		ir_mode *m = ir_get_mode(i);
		char const *k = mode_is_int(m) ? "int" : mode_is_float(m) ? "float" : mode_is_reference(m) ? "ref" : m == mode_b ? "b" : mode_is_data(m) ? "data" : "aux";
		fprintf(f, "%s\"%s\":[\"%s\",\"%u\",\"%d\",\"%d\",\"%s\"]", i ? "," : "", get_mode_name(m), k, get_mode_size_bits(m), mode_is_signed(m) != 0, (int)get_mode_arithmetic(m),
		        mode_is_reference(m) ? vx_mode(get_reference_offset_mode(m)) : "-");
	}
	fprintf(f, "},\"nodes\":[");
	for (int i = 1; i <= an_n; ++i) {
		ir_node *n = an_tab[i];
		int ni, ns, nums[256];
		char const *strs[128];
		vx_ns(n, &ni, nums, &ns, strs);
		fprintf(f, "%s{\"o\":\"%s\",\"b\":%d,\"m\":\"%s\",\"i\":[", i > 1 ? "," : "", get_irn_opname(n), is_Block(n) || is_Anchor(n) ? 0 : an_id(get_nodes_block(n)), vx_mode(get_irn_mode(n)));
		for (int k = 0; k < get_irn_arity(n); ++k) fprintf(f, "%s%d", k ? "," : "", an_id(get_irn_n(n, k)));
		fprintf(f, "],\"n\":[");
		for (int k = 0; k < ni; ++k) fprintf(f, "%s%d", k ? "," : "", nums[k]);
		fprintf(f, "],\"s\":[");
		for (int k = 0; k < ns; ++k) fprintf(f, "%s\"%s\"", k ? "," : "", strs[k]);
		fprintf(f, "]}");
	}
	fprintf(f, "]}\n");
}
static ir_node *vx_pick(unsigned op)      /* a node of the given opcode, any node if 0 */
{
	int c = 0;
	ir_node *r = NULL;
	for (int i = 1; i <= an_n; ++i) {
		ir_node *n = an_tab[i];
		if (op ? get_irn_opcode(n) != op : (is_Anchor(n))) continue;
		if (vx_rand(++c) == 0) r = n;
	}
	return r;
}
static ir_node *vx_pickblock(void) { return vx_pick(iro_Block); }
static ir_mode *vx_anymode(void) { return ir_get_mode(vx_rand(ir_get_n_modes())); }
static ir_node *vx_withmode(ir_mode *m)
{
	int c = 0;
	ir_node *r = NULL;
	for (int i = 1; i <= an_n; ++i) if (!is_Anchor(an_tab[i]) && get_irn_mode(an_tab[i]) == m && vx_rand(++c) == 0) r = an_tab[i];
	return r;
}
/* one change; returns what it was, NULL if there was nothing to change */
static char const *vx_mutate(ir_graph *irg, int kind, int *at)
{
	ir_node *n = NULL;
	char const *what = NULL;
	*at = 0;
	switch (kind) {
	case 0: case 1: {                     /* an operand: any node / one of the same mode */
		for (int t = 0; t < 20 && !(n && get_irn_arity(n) > 0 && !is_Block(n)); ++t) n = vx_pick(0);
		if (!n || get_irn_arity(n) == 0 || is_Block(n)) return NULL;
		int p = vx_rand(get_irn_arity(n));
		ir_node *o = kind ? vx_withmode(get_irn_mode(get_irn_n(n, p))) : vx_pick(0);
		if (!o || is_Block(o) != is_Block(get_irn_n(n, p))) return NULL;
		set_irn_n(n, p, o);
		what = kind ? "operand-same-mode" : "operand";
		break;
	}
	case 2:                               /* a mode */
		do n = vx_pick(0); while (is_Block(n) || is_End(n));
		if (is_Const(n)) return NULL;
		set_irn_mode(n, vx_anymode());
		what = "mode";
		break;
	case 3: case 4: {                     /* number of operands */
		static unsigned const ops[] = { iro_Phi, iro_Phi, iro_Call, iro_Return };
		n = vx_pick(ops[vx_rand(4)]);
		if (!n) return NULL;
		int a = get_irn_arity(n);
		ir_node *in[64];
		if (a > 60) return NULL;
		for (int i = 0; i < a; ++i) in[i] = get_irn_n(n, i);
		if (kind == 3) { if (a < 1 + 2 * is_Call(n) + is_Return(n)) return NULL; --a; if (is_Phi(n) && a == 0) return NULL; }
		else { if (a == 0) return NULL; in[a] = in[a - 1]; ++a; }
		set_irn_in(n, a, in);
		what = kind == 3 ? "operand-removed" : "operand-added";
		break;
	}
	case 5:                               /* the number of a Proj */
		n = vx_pick(iro_Proj);
		if (!n) return NULL;
		set_Proj_num(n, vx_rand(3) ? vx_rand(4) : get_Proj_num(n) + 1 + vx_rand(3));
		what = "proj-number";
		break;
	case 6:                               /* another block */
		do n = vx_pick(0); while (is_Block(n));
		if (is_Bad(n)) return NULL;
		set_nodes_block(n, vx_pickblock());
		what = "moved";
		break;
	case 7: case 8: {                     /* the control flow into a block */
		n = vx_pickblock();
		int a = get_irn_arity(n);
		if (a == 0 || a > 60) return NULL;
		ir_node *in[64];
		for (int i = 0; i < a; ++i) in[i] = get_irn_n(n, i);
		int p = vx_rand(a);
		switch (vx_rand(4)) {
		case 0: { ir_node *x = vx_withmode(mode_X); if (!x) return NULL; in[p] = x; break; }
		case 1: in[p] = in[a - 1]; --a; break;
		case 2: { ir_node *x = vx_withmode(mode_X); if (!x) return NULL; in[a++] = x; break; }
		default: { ir_node *x = vx_pick(0); if (!x || is_Block(x)) return NULL; in[p] = x; }
		}
		set_irn_in(n, a, in);
		what = "control-flow";
		break;
	}
	case 9:                               /* the mode attribute of an operation */
		switch (vx_rand(3)) {
		case 0: if (!(n = vx_pick(iro_Load))) return NULL; set_Load_mode(n, vx_anymode()); break;
		case 1: if (!(n = vx_pick(iro_Div))) return NULL; set_Div_resmode(n, vx_anymode()); break;
		default: if (!(n = vx_pick(iro_Mod))) return NULL; set_Mod_resmode(n, vx_anymode()); break;
		}
		what = "mode-attribute";
		break;
	case 10: {                            /* something kept alive */
		do n = vx_pick(0); while (is_End(n));
		add_End_keepalive(get_irg_end(irg), n);
		what = "kept";
		break;
	}
	case 11: {                            /* a Const of another mode than its value's */
		n = vx_pick(iro_Const);
		if (!n) return NULL;
		set_irn_mode(n, vx_anymode());
		what = "const-mode";
		break;
	}
	case 12: {                            /* the selector or a value of Mux, Cmp, Cond, Confirm, the exact kinds of arithmetic */
		static unsigned const ops[] = { iro_Mux, iro_Cmp, iro_Cond, iro_Add, iro_Sub, iro_Shl, iro_Shr, iro_Shrs, iro_And, iro_Or, iro_Eor, iro_Not, iro_Minus, iro_Mul, iro_Conv, iro_Bitcast,
			iro_Store, iro_Load, iro_Member, iro_Sel, iro_CopyB, iro_Sync, iro_Phi, iro_Confirm, iro_Return, iro_Call, iro_Div, iro_Mod, iro_Switch, iro_Mulh, iro_Alloc, iro_Free };
		for (int t = 0; t < 40 && !n; ++t) n = vx_pick(ops[vx_rand(sizeof ops / sizeof *ops)]);
		if (!n || get_irn_arity(n) == 0) return NULL;
		ir_node *o = vx_pick(0);
		if (is_Block(o)) return NULL;
		set_irn_n(n, vx_rand(get_irn_arity(n)), o);
		what = "operand-of-op";
		break;
	}
	case 13: {                            /* the mode of one of those */
		static unsigned const ops[] = { iro_Mux, iro_Cmp, iro_Add, iro_Sub, iro_Shl, iro_Shr, iro_Shrs, iro_And, iro_Or, iro_Eor, iro_Not, iro_Minus, iro_Mul, iro_Conv, iro_Bitcast,
			iro_Member, iro_Sel, iro_CopyB, iro_Sync, iro_Phi, iro_Confirm, iro_Mulh, iro_Free, iro_Proj, iro_Address };
		for (int t = 0; t < 40 && !n; ++t) n = vx_pick(ops[vx_rand(sizeof ops / sizeof *ops)]);
		if (!n) return NULL;
		set_irn_mode(n, vx_anymode());
		what = "mode-of-op";
		break;
	}
	case 14: {                            /* the two parts of the dominance rule: a Phi's operand, an operand from a sibling block */
		n = vx_pick(vx_rand(2) ? iro_Phi : 0);
		if (!n || is_Block(n) || is_End(n) || get_irn_arity(n) == 0) return NULL;
		int p = vx_rand(get_irn_arity(n));
		ir_mode *m = get_irn_mode(get_irn_n(n, p));
		ir_node *o = NULL;
		int c = 0;
		for (int i = 1; i <= an_n; ++i) {
			ir_node *x = an_tab[i];
			if (is_Anchor(x) || is_Block(x) || get_irn_mode(x) != m || m == mode_X) continue;
			if (is_op_start_block_placed(get_irn_op(x))) continue;
			if (vx_rand(++c) == 0) o = x;
		}
		if (!o) return NULL;
		set_irn_n(n, p, o);
		what = "operand-elsewhere";
		break;
	}
	default: what = "none";
	}
	if (n) *at = an_id(n);
	return what;
}
static unsigned vx_props(ir_graph *irg)
{
	return irg->properties & (IR_GRAPH_PROPERTY_NO_BADS | IR_GRAPH_PROPERTY_NO_TUPLES | IR_GRAPH_PROPERTY_ONE_RETURN | IR_GRAPH_PROPERTY_NO_CRITICAL_EDGES | IR_GRAPH_PROPERTY_NO_UNREACHABLE_CODE);
}
/* every graph as it is and with count variations, each in a process of its own */
static void vx_run(FILE *f, unsigned seed, int count, unsigned limit)
{
	foreach_irp_irg(gi, irg) {
		if (get_irg_last_idx(irg) > limit) continue;
		for (int k = 0; k <= count; ++k) {
			fflush(f);
			int pfd[2];
			if (pipe(pfd)) exit(99);
			pid_t c = fork();
			if (c == 0) {
				close(pfd[0]);
				alarm(20);
				int nul = open("/dev/null", O_WRONLY);
				dup2(nul, 2); dup2(nul, 1);
				vx_seed = seed * 7919u + gi * 131u + k * 17u + 3u;
				vx_rand(0);
				an_number(irg, NULL);
				if (an_n > 170) _exit(3);
				edges_deactivate(irg);
				if (k) clear_irg_properties(irg, (ir_graph_properties_t)~0u);
				else clear_irg_properties(irg, (ir_graph_properties_t)~(vx_props(irg)));
				int kind = k == 0 ? 99 : (int)vx_rand(16);
				int at;
				char const *what;
				if (kind == 15) {                 /* a claim */
					static unsigned const cl[] = { IR_GRAPH_PROPERTY_NO_BADS, IR_GRAPH_PROPERTY_NO_TUPLES, IR_GRAPH_PROPERTY_ONE_RETURN, IR_GRAPH_PROPERTY_NO_CRITICAL_EDGES, IR_GRAPH_PROPERTY_NO_UNREACHABLE_CODE };
					add_irg_properties(irg, cl[vx_rand(5)]);
					what = "claim"; at = 0;
				} else what = vx_mutate(irg, kind, &at);
				if (!what) _exit(3);
				ir_node *atn = at ? an_tab[at] : NULL;
				an_number(irg, NULL);
				if (an_n > 180) _exit(3);
				at = an_id(atn);
				char *buf = NULL; size_t len = 0;
				FILE *m = open_memstream(&buf, &len);
				unsigned props = vx_props(irg);
				vx_export(m, irg, what, at, "@", props);
				fclose(m);
				size_t o = 0;
				while (o < len) { ssize_t w = write(pfd[1], buf + o, len - o); if (w <= 0) _exit(4); o += w; }
				close(pfd[1]);
				int v = irg_verify(irg);
				_exit(v ? 1 : 2);
			}
			close(pfd[1]);
			char *buf = NULL; size_t len = 0, cap = 0;
			for (;;) {
				if (len + 65536 > cap) buf = realloc(buf, cap = cap ? cap * 2 : 131072);
				ssize_t r = read(pfd[0], buf + len, 65536);
				if (r <= 0) break;
				len += r;
			}
			close(pfd[0]);
			int st;
			waitpid(c, &st, 0);
			if (len > 0) {
				char const *v = WIFEXITED(st) ? (WEXITSTATUS(st) == 1 ? "accept" : WEXITSTATUS(st) == 2 ? "reject" : "?") : "crash";
				buf[len] = 0;
				char *p = strstr(buf, "\"verdict\":\"@\"");
				if (p) { fwrite(buf, 1, p - buf, f); fprintf(f, "\"verdict\":\"%s\"", v); fwrite(p + 13, 1, len - (p + 13 - buf), f); }
			}
			free(buf);
		}
	}
}
#endif
