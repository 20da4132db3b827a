/* Synthetic control-flow graphs and everything the analyses say about them. */
#include "anexport.h"
#include "irtools.h"
#include "ircons_t.h"
#include "irgopt.h"
#include "irgmod.h"
#include "lcssa_t.h"
#include "iroptimize.h"

#define MAXB 64
static ir_graph *irg;
static int n_g, seq;
static char *cur;
static int next(void) { return (int)strtol(cur, &cur, 10); }
static unsigned rs;
static unsigned rnd(unsigned n) { rs = rs * 1103515245u + 12345u; return (rs >> 16) % n; }

static struct { char const *n; void (*f)(ir_graph*); } passes[] = {
	{ "cf", optimize_cf }, { "unreach", remove_unreachable_code }, { "crit", remove_critical_cf_edges }, { "bads", remove_bads },
	{ "tuples", remove_tuples }, { "oneret", normalize_one_return }, { "nret", normalize_n_returns }, { "jt", opt_jumpthreading },
	{ "local", local_optimize_graph }, { "df", optimize_graph_df }, { "place", place_code }, { "combo", combo }, { "gvnpre", do_gvn_pre },
	{ "ifconv", opt_if_conv }, { "inv", do_loop_inversion }, { "bool", opt_bool }, { "dne", dead_node_elimination }, { "confirm", construct_confirms },
	{ "rmconf", remove_confirms }, { "conv", conv_opt }, { "occult", occult_consts }, { "ldst", optimize_load_store }, { "lcssa", assure_lcssa },
	{ "parmem", opt_parallelize_mem }, { "rmphi", remove_phi_cycles }, { "frame", opt_frame_irg }, { "tail", opt_tail_rec_irg },
	{ "crit1", NULL },
};

/* G n ka seed  (nsucc succ...)*n   ka: number of additional kept blocks */
static void build(void)
{
	int n = next(), extra = next(), data = next();
	rs = (unsigned)next();
	bool calls = data >= 8;
	data %= 8;
	static ir_entity *ext;
	if (!ext) {
		ir_type *et = new_type_method(0, 1, 0, 0, mtp_no_property);
		set_method_res_type(et, 0, new_type_primitive(get_modeIs()));
		ext = new_entity(get_glob_type(), new_id_from_str("ext"), et);
	}
	static int ns[MAXB], su[MAXB][MAXB];
	for (int i = 1; i <= n; ++i) { ns[i] = next(); for (int k = 0; k < ns[i]; ++k) su[i][k] = next(); }
	bool reach[MAXB] = { false }, toend[MAXB] = { false };
	reach[1] = true;
	for (int round = 0; round <= n; ++round) for (int i = 1; i <= n; ++i) {
		for (int k = 0; k < ns[i]; ++k) { if (reach[i]) reach[su[i][k]] = true; if (toend[su[i][k]]) toend[i] = true; }
		if (ns[i] == 0) toend[i] = true;
	}
	char b[32];
	snprintf(b, sizeof b, "g%d", n_g++);
	ir_type *is = new_type_primitive(get_modeIs());
	ir_type *mt = new_type_method(2, 1, 0, 0, mtp_no_property);
	set_method_param_type(mt, 0, is); set_method_param_type(mt, 1, is); set_method_res_type(mt, 0, is);
	ir_entity *e = new_entity(get_glob_type(), new_id_from_str(b), mt);
	irg = new_ir_graph(e, 4);
	set_current_ir_graph(irg);
	ir_node *blk[MAXB] = { NULL };
	for (int i = 0; i < 4; ++i) set_value(i, i < 2 ? new_Proj(get_irg_args(irg), get_modeIs(), i) : new_Const_long(get_modeIs(), i));
	ir_node *start = new_Jmp();
	mature_immBlock(get_cur_block());
	for (int i = 1; i <= n; ++i) blk[i] = new_immBlock();
	add_immBlock_pred(blk[1], start);
	ir_node *frame = get_irg_frame(irg);
	for (int i = 1; i <= n; ++i) {
		set_cur_block(blk[i]);
		ir_node *v = NULL;
		if (reach[i] && data) {
			for (unsigned k = rnd(data + 1); k-- > 0; ) {
				int d = rnd(4);
				ir_node *a = get_value(rnd(4), get_modeIs()), *c = get_value(rnd(4), get_modeIs()), *r;
				switch (rnd(5)) {
				case 0: r = new_Add(a, c); break;
				case 1: r = new_Sub(a, c); break;
				case 2: r = new_Mul(a, c); break;
				case 3: { ir_node *ld = new_Load(get_store(), frame, get_modeIs(), is, cons_none); set_store(new_Proj(ld, mode_M, pn_Load_M)); r = new_Proj(ld, get_modeIs(), pn_Load_res); break; }
				default: { ir_node *st = new_Store(get_store(), frame, a, is, cons_none); set_store(new_Proj(st, mode_M, pn_Store_M)); r = new_Eor(a, c); break; }
				}
				set_value(d, r);
			}
		}
		if (reach[i]) v = get_value(rnd(4), get_modeIs());
		/* a condition nothing is known about */
		if (reach[i] && calls && ns[i] >= 2) {
			ir_node *c = new_Call(get_store(), new_Address(ext), 0, NULL, get_entity_type(ext));
			set_store(new_Proj(c, mode_M, pn_Call_M));
			v = new_Proj(new_Proj(c, mode_T, pn_Call_T_result), get_modeIs(), 0);
		}
		if (!v) v = new_Unknown(get_modeIs());
		if (ns[i] == 0) {
			ir_node *ret = new_Return(reach[i] ? get_store() : new_NoMem(), 1, &v);
			add_immBlock_pred(get_irg_end_block(irg), ret);
		} else if (ns[i] == 1) {
			add_immBlock_pred(blk[su[i][0]], new_Jmp());
		} else if (ns[i] == 2) {
			ir_node *c = new_Cond(new_Cmp(v, new_Const_long(get_modeIs(), rnd(7)), ir_relation_less));
			add_immBlock_pred(blk[su[i][0]], new_Proj(c, mode_X, pn_Cond_true));
			add_immBlock_pred(blk[su[i][1]], new_Proj(c, mode_X, pn_Cond_false));
		} else {
			ir_switch_table *t = ir_new_switch_table(irg, ns[i] - 1);
			for (int k = 1; k < ns[i]; ++k) { ir_tarval *tv = new_tarval_from_long(k, get_modeIs()); ir_switch_table_set(t, k - 1, tv, tv, k); }
			ir_node *s = new_Switch(v, ns[i], t);
			for (int k = 0; k < ns[i]; ++k) add_immBlock_pred(blk[su[i][k]], new_Proj(s, mode_X, k));
		}
	}
	for (int i = 1; i <= n; ++i) mature_immBlock(blk[i]);
	/* blocks without a way to the end are kept, as the contract of endless loops demands */
	bool kept[MAXB] = { false };
	for (;;) {
		int bad[MAXB], nb = 0;
		for (int i = 1; i <= n; ++i) if (!toend[i] && (reach[i] || rnd(3))) bad[nb++] = i;
		if (nb == 0) break;
		int k = bad[rnd(nb)];
		kept[k] = true;
		toend[k] = true;
		for (int round = 0; round <= n; ++round) for (int i = 1; i <= n; ++i) for (int s = 0; s < ns[i]; ++s) if (toend[su[i][s]]) toend[i] = true;
		bool more = false;
		for (int i = 1; i <= n; ++i) if (!toend[i] && reach[i]) more = true;
		if (!more) break;
	}
	while (extra-- > 0) kept[1 + rnd(n)] = true;
	for (int i = 1; i <= n; ++i) if (kept[i]) {
		keep_alive(blk[i]);
		if (reach[i] && data && rnd(2)) { set_cur_block(blk[i]); ir_node *m = get_store(); if (is_Phi(m)) keep_alive(m); }
	}
	set_cur_block(NULL);
	irg_finalize_cons(irg);
	seq = 0;
}
static void copies(void)
{
	an_f = stdout;
	an_number(irg, NULL);
	fprintf(an_f, "{\"kind\":\"copy\",\"tag\":\"copy\",\"fn\":\"g\",\"seq\":%d,\"props\":[],", seq++);
	an_nodes(irg);
	int n = an_n;
	ir_node **old = malloc((n + 1) * sizeof *old), **new = malloc((n + 1) * sizeof *new);
	long *nr = malloc((n + 1) * sizeof *nr);
	for (int i = 1; i <= n; ++i) { old[i] = an_tab[i]; nr[i] = get_irn_node_nr(old[i]); }
	ir_graph *cp = create_irg_copy(irg);
	/* the copier leaves the copy in the link of the original */
	for (int i = 1; i <= n; ++i) new[i] = (ir_node*)old[i]->link;
	an_number(cp, NULL);
	int foreign = 0;
	for (int i = 1; i <= an_n; ++i) if (get_irn_irg(an_tab[i]) != cp) ++foreign;
	int lost = an_reorder(new, n);
	fprintf(an_f, ",\"c1\":{"); an_nodes(cp); fprintf(an_f, "}");
	dead_node_elimination(irg);
	an_number(irg, NULL);
	/* compaction keeps the node numbers */
	for (int i = 1; i <= n; ++i) { new[i] = NULL; for (int k = 1; k <= an_n; ++k) if (get_irn_node_nr(an_tab[k]) == nr[i]) { new[i] = an_tab[k]; break; } }
	lost += an_reorder(new, n);
	fprintf(an_f, ",\"foreign\":%d,\"lost\":%d", foreign, lost);
	fprintf(an_f, ",\"c2\":{"); an_nodes(irg); fprintf(an_f, "}}\n");
	free(old); free(new); free(nr);
}
int main(void)
{
	static char line[1 << 16];
	setvbuf(stdout, NULL, _IOFBF, 1 << 22);
	ir_init_library();
	ir_target_set("x86_64-unknown-linux-gnu");
	ir_target_init();
	set_optimize(0);
	while (fgets(line, sizeof line, stdin)) {
		cur = line + 1;
		char name[32] = "";
		switch (line[0]) {
		case 'H': fflush(stdout); if (irg) { free_ir_graph(irg); irg = NULL; } fputs("ok\n", stdout); fflush(stdout); break;
		case 'G': build(); fputs("{}\n", stdout); break;
		case 'F': an_fresh(stdout, irg, "fresh", seq++, next()); break;
		case 'S': an_stored(stdout, irg, "stored", seq++); break;
		case 'C': copies(); break;
		case 'A': { unsigned m = next(); assure_irg_properties(irg, m); an_stored(stdout, irg, "assure", seq++); break; }
		case 'K': { unsigned m = next(); confirm_irg_properties(irg, m); an_stored(stdout, irg, "confirm", seq++); break; }
		case 'P':
			sscanf(line + 1, "%31s", name);
			for (unsigned i = 0; i < sizeof passes / sizeof *passes; ++i)
				if (!strcmp(passes[i].n, name)) {
					set_optimize(1);
					if (passes[i].f) passes[i].f(irg); else remove_critical_cf_edges_ex(irg, 0);
					set_optimize(0);
				}
			an_stored(stdout, irg, name, seq++);
			break;
		}
	}
	fflush(stdout);
	return 0;
}
