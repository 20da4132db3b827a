/* facts the analyses of the library claim, attached to exported graphs; included by drv.c only */
#include "constbits.h"
#include "vrp.h"
ir_relation ir_get_possible_cmp_relations(const ir_node *left, const ir_node *right);

enum { FACT_NONE, FACT_BITS, FACT_VRP, FACT_ALIAS, FACT_USAGE, FACT_CMP };
static int fact_mode;
static int nfact;

static void put_tv(FILE *f, ir_tarval *tv);
static int nidx(ir_node *n);
static int eidx(ir_entity *e);
static int midx(ir_mode *m);
static ir_node **nodelist;

static void fact(FILE *f) { if (nfact++) fputc(',', f); }

static bool has_int(ir_node *n)
{
	if (is_Block(n) || is_Bad(n)) return false;
	ir_mode *m = get_irn_mode(n);
	return mode_is_int(m) || mode_is_reference(m);
}

static bool good_block(ir_node *n) { return !is_Bad(get_nodes_block(n)); }

static void put_facts(FILE *f, ir_graph *irg)
{
	nfact = 0;
	size_t nn = ARR_LEN(nodelist);
	switch (fact_mode) {
	case FACT_BITS:
		for (size_t i = 0; i < nn; ++i) {
			ir_node *n = nodelist[i];
			if (is_Bad(n)) continue;
			bitinfo const *b = try_get_bitinfo(n);
			if (!b || !b->z || !b->o) continue;
			if (is_Block(n)) {
				if (b->z == tarval_b_false) { fact(f); fprintf(f, "[\"Dead\",%d]", nidx(n)); }
				continue;
			}
			if (!good_block(n)) continue;
			if (get_irn_mode(n) == mode_b) {
				if (b->z == tarval_b_false && b->o == tarval_b_false) { fact(f); fprintf(f, "[\"Bit\",%d,0]", nidx(n)); }
				if (b->z == tarval_b_true && b->o == tarval_b_true) { fact(f); fprintf(f, "[\"Bit\",%d,1]", nidx(n)); }
				continue;
			}
			if (!has_int(n) || !tarval_is_constant(b->z) || !tarval_is_constant(b->o)) continue;
			if (tarval_is_all_one(b->z) && tarval_is_null(b->o)) continue;
			if (!tarval_is_null(tarval_andnot(b->o, b->z))) continue;     /* no value was seen */
			fact(f); fprintf(f, "[\"In\",%d,", nidx(n)); put_tv(f, b->o); fputc(',', f); put_tv(f, b->z); fputc(']', f);
		}
		break;
	case FACT_VRP:
		for (size_t i = 0; i < nn; ++i) {
			ir_node *n = nodelist[i];
			if (is_Bad(n) || !has_int(n) || !good_block(n)) continue;
			if (!mode_is_int(get_irn_mode(n))) continue;
			vrp_attr *v = vrp_get_info(n);
			if (!v) continue;
			if (v->bits_set && v->bits_not_set && tarval_is_constant(v->bits_set) && tarval_is_constant(v->bits_not_set) && v->range_type != VRP_UNDEFINED) {
				fact(f); fprintf(f, "[\"In\",%d,", nidx(n)); put_tv(f, v->bits_set); fputc(',', f); put_tv(f, v->bits_not_set); fputc(']', f);
			}
			if ((v->range_type == VRP_RANGE || v->range_type == VRP_ANTIRANGE) && tarval_is_constant(v->range_bottom) && tarval_is_constant(v->range_top)) {
				fact(f); fprintf(f, "[\"Rng\",%d,", nidx(n)); put_tv(f, v->range_bottom); fputc(',', f); put_tv(f, v->range_top);
				fprintf(f, ",%d]", v->range_type == VRP_RANGE);
			}
		}
		for (size_t i = 0; i < nn; ++i) {
			ir_node *n = nodelist[i];
			if (!is_Cmp(n) || !good_block(n) || !mode_is_int(get_irn_mode(get_Cmp_left(n)))) continue;
			ir_relation r = vrp_cmp(get_Cmp_left(n), get_Cmp_right(n));
			if ((r & 7) != 7 && (r & 7)) { fact(f); fprintf(f, "[\"Cmp\",%d,%d,%d,%d]", nidx(get_Cmp_left(n)), nidx(get_Cmp_right(n)), (int)r, nidx(n)); }
		}
		break;
	case FACT_CMP: {
		int k = 0;
		for (size_t i = 0; i < nn; ++i) {
			ir_node *n = nodelist[i];
			if (is_Bad(n) || !has_int(n) || !good_block(n)) continue;
			if (mode_is_reference(get_irn_mode(n))) {
				ir_node const *c = NULL;
				if (value_not_null(n, &c)) { fact(f); fprintf(f, "[\"Nz\",%d]", nidx(n)); }
				continue;
			}
			for (size_t j = 0; j < nn && k < 400; ++j) {
				ir_node *o = nodelist[j];
				if (o == n || is_Bad(o) || !has_int(o) || get_irn_mode(o) != get_irn_mode(n) || !good_block(o)) continue;
				if (get_nodes_block(o) != get_nodes_block(n) && !is_Const(o)) continue;
				if (is_Const(o) && get_nodes_block(o) != get_nodes_block(n) && get_nodes_block(o) != get_irg_start_block(irg)) continue;
				if (is_Const(o) && is_Const(n)) continue;
				ir_relation r = ir_get_possible_cmp_relations(n, o);
				if ((r & 7) == 7) continue;
				++k;
				fact(f); fprintf(f, "[\"Cmp\",%d,%d,%d,-1]", nidx(n), nidx(o), (int)r);
			}
		}
		for (size_t i = 0; i < nn; ++i) {
			ir_node *n = nodelist[i];
			if (!is_Cmp(n) || !good_block(n)) continue;
			ir_tarval *tv = computed_value_Cmp_Confirm(get_Cmp_left(n), get_Cmp_right(n), get_Cmp_relation(n));
			if (tv == tarval_b_true || tv == tarval_b_false) { fact(f); fprintf(f, "[\"Bit\",%d,%d]", nidx(n), tv == tarval_b_true); }
		}
		break;
	}
	case FACT_ALIAS: {
		int k = 0;
		for (size_t i = 0; i < nn; ++i) {
			ir_node *n = nodelist[i];
			if (!is_Load(n) && !is_Store(n)) continue;
			if (!good_block(n)) continue;
			ir_node *p = is_Load(n) ? get_Load_ptr(n) : get_Store_ptr(n);
			ir_type *t = is_Load(n) ? get_Load_type(n) : get_Store_type(n);
			unsigned s = get_mode_size_bytes(is_Load(n) ? get_Load_mode(n) : get_irn_mode(get_Store_value(n)));
			for (size_t j = 0; j < nn && k < 600; ++j) {
				ir_node *m = nodelist[j];
				if (m == n || (!is_Load(m) && !is_Store(m)) || !good_block(m)) continue;
				ir_node *q = is_Load(m) ? get_Load_ptr(m) : get_Store_ptr(m);
				ir_type *u = is_Load(m) ? get_Load_type(m) : get_Store_type(m);
				unsigned z = get_mode_size_bytes(is_Load(m) ? get_Load_mode(m) : get_irn_mode(get_Store_value(m)));
				if (is_Bad(p) || is_Bad(q) || p == q) continue;
				if (get_nodes_block(n) != get_nodes_block(m) ? !block_dominates(get_nodes_block(p), get_nodes_block(q)) : i >= j) continue;
				if (!block_dominates(get_nodes_block(p), get_nodes_block(q)) && !block_dominates(get_nodes_block(q), get_nodes_block(p))) continue;
				ir_alias_relation r = get_alias_relation(p, t, s, q, u, z);
				if (r == ir_may_alias) continue;
				++k;
				/* [kind, second to be computed, first, size of the second, size of the first] */
				if (block_dominates(get_nodes_block(p), get_nodes_block(q))) {
					ir_node *x = p; p = q; q = x;
					fact(f); fprintf(f, "[\"%s\",%d,%d,%u,%u]", r == ir_no_alias ? "Disj" : "Over", nidx(p), nidx(q), z, s);
					x = p; p = q; q = x;
				} else {
					fact(f); fprintf(f, "[\"%s\",%d,%d,%u,%u]", r == ir_no_alias ? "Disj" : "Over", nidx(p), nidx(q), s, z);
				}
			}
		}
		break;
	}
	case FACT_USAGE: {
		/* parts of the frame nobody reads / writes */
		break;
	}
	default: break;
	}
	(void)irg;
}

static void fact_begin(ir_graph *irg)
{
	if (fact_mode == FACT_BITS) constbits_analyze(irg);
	if (fact_mode == FACT_VRP) set_vrp_data(irg);
	if (fact_mode == FACT_USAGE) assure_irg_entity_usage_computed(irg);
	if (fact_mode == FACT_ALIAS) assure_irg_properties(irg, IR_GRAPH_PROPERTY_CONSISTENT_DOMINANCE | IR_GRAPH_PROPERTY_CONSISTENT_ENTITY_USAGE);
}

static void fact_end(ir_graph *irg)
{
	if (fact_mode == FACT_BITS) constbits_clear(irg);
	if (fact_mode == FACT_VRP) free_vrp_data(irg);
}

static void export_prog(const char *tag);
static char *last_text;

static bool run_analysis(const char *n)
{
	static char const *const names[] = { "", "f_bits", "f_vrp", "f_alias", "f_usage", "f_cmp" };
	for (int k = 1; k <= 5; ++k) {
		if (strcmp(n, names[k])) continue;
		if (k == FACT_ALIAS || k == FACT_USAGE) {
			foreach_irp_irg(i, irg) { assure_irg_entity_usage_computed(irg); }
			assure_irp_globals_entity_usage_computed();
		}
		fact_mode = k;
		export_prog(n);
		fact_mode = FACT_NONE;
		return true;
	}
	return false;
}
