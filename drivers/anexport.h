/* Export of a graph together with everything its analyses say about it (one JSON record per graph).
 * The node table is numbered by a traversal of our own, so two tables are equal iff the graphs are isomorphic. */
#ifndef ANEXPORT_H
#define ANEXPORT_H
#include <libfirm/firm.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "irgraph_t.h"
#include "irnode_t.h"
#include "irdom_t.h"
#include "irloop_t.h"
#include "irbackedge_t.h"
#include "iredges_t.h"
#include "irouts_t.h"
#include "irlivechk.h"
#include "heights.h"
#include "cdep_t.h"
#include "pmap.h"
#include "entity_t.h"
#include "irprog_t.h"
#include "irtools.h"

static ir_node **an_tab;
static int an_n, an_cap, an_core;
static pmap *an_map;
static FILE *an_f;
static char an_prefix[64];

static int an_id(ir_node const *n) { return n == NULL ? 0 : (int)(size_t)pmap_get(void, an_map, n); }
static void an_add(ir_node *n)
{
	if (an_n + 1 >= an_cap) { an_cap = an_cap ? 2 * an_cap : 1024; an_tab = realloc(an_tab, an_cap * sizeof *an_tab); }
	an_tab[++an_n] = n;
	pmap_insert(an_map, n, (void*)(size_t)an_n);
}
/* depth first, iterative; start block, end block and End get 1, 2, 3 */
static void an_number(ir_graph *irg, ir_node *root)
{
	an_n = 0;
	if (an_map) pmap_destroy(an_map);
	an_map = pmap_create();
	int cap = 4096, sp = 0;
	ir_node **st = malloc(cap * sizeof *st);
	if (irg) { an_add(get_irg_start_block(irg)); an_add(get_irg_end_block(irg)); an_add(get_irg_end(irg)); }
	else an_add(root);
	int first = an_n;
	an_core = 0;
	ir_node *anchor = irg ? irg->anchor : NULL;
	int extra = anchor ? get_irn_arity(anchor) + 1 : 0;
	for (int k = 1; k <= first + extra; ++k) {
		if (k > first) {
			if (!an_core) an_core = an_n;
			ir_node *a = k == first + extra ? anchor : get_irn_n(anchor, k - first - 1);
			if (an_id(a)) continue;
			an_add(a);
			st[sp++] = a;
		} else st[sp++] = an_tab[k];
		bool fresh = true;
		while (sp > 0) {
			ir_node *n = st[--sp];
			if (!fresh) {
				if (an_id(n)) continue;
				an_add(n);
			}
			fresh = false;
			int ar = get_irn_arity(n);
			if (sp + ar + 2 > cap) { cap = 2 * (cap + ar); st = realloc(st, cap * sizeof *st); }
			for (int i = ar; i-- > 0; ) st[sp++] = get_irn_n(n, i);
			if (!is_Block(n)) st[sp++] = get_nodes_block(n);
		}
	}
	if (!an_core) an_core = an_n;
	free(st);
}
static void an_list_begin(char const *k) { fprintf(an_f, ",\"%s\":[", k); }
static int an_first;
static void an_sep(void) { if (!an_first) fputc(',', an_f); an_first = 0; }
static void an_int(long v) { an_sep(); fprintf(an_f, "%ld", v); }
static void an_open(void) { an_sep(); fputc('[', an_f); an_first = 1; }
static void an_close(void) { fputc(']', an_f); an_first = 0; }

/* sequences of callbacks: node id when entered, -id when left */
static void an_pre(ir_node *n, void *env) { (void)env; an_int(an_id(n)); }
static void an_post(ir_node *n, void *env) { (void)env; an_int(-an_id(n)); }

/* renumbers the graph numbered last by the given order of its nodes (NULL: lost); nodes not in the order come last */
static int an_reorder(ir_node **order, int n)
{
	ir_node **old = malloc((an_n + 1) * sizeof *old);
	int m = an_n, lost = 0;
	for (int i = 1; i <= m; ++i) old[i] = an_tab[i];
	pmap *found = pmap_create();
	for (int i = 1; i <= m; ++i) pmap_insert(found, old[i], old[i]);
	pmap_destroy(an_map);
	an_map = pmap_create();
	an_n = 0;
	for (int i = 1; i <= n; ++i) { if (order[i] && pmap_contains(found, order[i]) && !an_id(order[i])) an_add(order[i]); else ++lost; }
	for (int i = 1; i <= m; ++i) if (!an_id(old[i])) an_add(old[i]);
	free(old);
	pmap_destroy(found);
	return lost;
}
static void an_nodes(ir_graph *irg)
{
	fprintf(an_f, "\"core\":%d,\"nodes\":[", an_core);
	for (int i = 1; i <= an_n; ++i) {
		ir_node *n = an_tab[i];
		fprintf(an_f, "%s[\"%s\",%d,%d,[", i > 1 ? "," : "", get_irn_opname(n), is_Block(n) ? 0 : an_id(get_nodes_block(n)),
		        (get_irn_mode(n) == mode_X ? 1 : 0) | (get_irn_pinned(n) ? 2 : 0) | (is_op_commutative(get_irn_op(n)) ? 4 : 0));
		for (int k = 0; k < get_irn_arity(n); ++k) fprintf(an_f, "%s%d", k ? "," : "", an_id(get_irn_n(n, k)));
		fprintf(an_f, "]]");
	}
	fprintf(an_f, "]");
	(void)irg;
}
static bool an_isblk(int i) { return is_Block(an_tab[i]); }
/* per block: a list */
#define AN_BLOCKS(key, b, stmt) do { an_list_begin(key); an_first = 1; for (int i_ = 1; i_ <= an_n; ++i_) if (an_isblk(i_)) { ir_node *b = an_tab[i_]; (void)b; an_open(); an_int(i_); stmt; an_close(); } fputc(']', an_f); } while (0)

static unsigned an_claims(ir_graph *irg) { return irg->properties; }

static void an_dom(ir_graph *irg)
{
	(void)irg;
	/* [block, idom, depth, pre, max] */
	AN_BLOCKS("dom", b, { ir_node *d = get_Block_idom(b); an_int(an_id(d)); an_int(get_Block_dom_depth(b));
		an_int(get_Block_dom_tree_pre_num(b)); an_int(get_Block_dom_max_subtree_pre_num(b)); });
	AN_BLOCKS("domkids", b, { for (ir_node *c = get_Block_dominated_first(b); c; c = get_Block_dominated_next(c)) an_int(an_id(c)); });
	AN_BLOCKS("domq", b, { if (get_Block_dom_depth(b) > 0) for (int j = 1; j <= an_n; ++j) if (an_isblk(j) && get_Block_dom_depth(an_tab[j]) > 0 && block_dominates(b, an_tab[j])) an_int(j); });
	AN_BLOCKS("dcd", b, { if (get_Block_dom_depth(b) > 0) for (int j = 1; j <= an_n; ++j) if (an_isblk(j) && get_Block_dom_depth(an_tab[j]) > 0) { an_int(j); an_int(an_id(ir_deepest_common_dominator(b, an_tab[j]))); } });
}
static void an_pdom(ir_graph *irg)
{
	(void)irg;
	AN_BLOCKS("pdom", b, { ir_node *d = get_Block_ipostdom(b); an_int(an_id(d)); an_int(get_Block_postdom_depth(b));
		an_int(get_Block_pdom_tree_pre_num(b)); an_int(get_Block_pdom_max_subtree_pre_num(b)); });
	AN_BLOCKS("pdomkids", b, { for (ir_node *c = get_Block_postdominated_first(b); c; c = get_Block_postdominated_next(c)) an_int(an_id(c)); });
	AN_BLOCKS("pdomq", b, { if (get_Block_postdom_depth(b) > 0) for (int j = 1; j <= an_n; ++j) if (an_isblk(j) && get_Block_postdom_depth(an_tab[j]) > 0 && block_postdominates(b, an_tab[j])) an_int(j); });
}
static void an_df(ir_graph *irg)
{
	(void)irg;
	AN_BLOCKS("df", b, { ir_node **l = irg->domfront.df_map ? ir_get_dominance_frontier(b) : NULL; if (l) for (size_t j = 0; j < ARR_LEN(l); ++j) an_int(an_id(l[j])); });
}
static ir_loop *an_loops[1024];
static int an_nloops;
static void an_collect_loop(ir_loop *l)
{
	if (an_nloops >= 1023) return;
	for (int i = 1; i <= an_nloops; ++i) if (an_loops[i] == l) return;
	an_loops[++an_nloops] = l;
	for (size_t k = 0; k < get_loop_n_elements(l); ++k) { loop_element e = get_loop_element(l, k); if (*e.kind == k_ir_loop) an_collect_loop(e.son); }
}
static int an_loopno(ir_loop *l) { for (int i = 1; i <= an_nloops; ++i) if (an_loops[i] == l) return i; return 0; }
static void an_loop(ir_graph *irg)
{
	an_nloops = 0;
	if (get_irg_loop(irg)) an_collect_loop(get_irg_loop(irg));
	an_list_begin("loops"); an_first = 1;
	for (int i = 1; i <= an_nloops; ++i) {
		ir_loop *l = an_loops[i];
		an_open(); an_int(an_loopno(get_loop_outer_loop(l))); an_int(get_loop_depth(l));
		for (size_t k = 0; k < get_loop_n_elements(l); ++k) {
			loop_element e = get_loop_element(l, k);
			an_int(*e.kind == k_ir_loop ? -an_loopno(e.son) : an_id(e.node));
		}
		an_close();
	}
	fputc(']', an_f);
	/* [block, loop, backedge flags] */
	AN_BLOCKS("loopof", b, { an_int(an_loopno(get_irn_loop(b))); for (int k = 0; k < get_Block_n_cfgpreds(b); ++k) an_int(is_backedge(b, k) ? 1 : 0); });
}
/* users, each node: [count, src, pos, ...]; src 0: not part of the graph any more */
static void an_edges(ir_graph *irg)
{
	(void)irg;
	an_list_begin("edges"); an_first = 1;
	for (int i = 1; i <= an_n; ++i) {
		an_open();
		an_int(get_irn_n_edges(an_tab[i]));
		foreach_out_edge(an_tab[i], e) { an_int(an_id(get_edge_src_irn(e))); an_int(get_edge_src_pos(e)); }
		an_close();
	}
	fputc(']', an_f);
	AN_BLOCKS("bedges", b, { an_int(get_irn_n_edges_kind(b, EDGE_KIND_BLOCK)); foreach_block_succ(b, e) { an_int(an_id(get_edge_src_irn(e))); an_int(get_edge_src_pos(e)); } });
}
static void an_outs(ir_graph *irg)
{
	an_list_begin("outs"); an_first = 1;
	for (int i = 1; i <= an_n; ++i) {
		an_open();
		/* beyond the nodes End reaches only the anchored ones have out arrays */
		bool has = i <= an_core;
		foreach_irn_in(irg->anchor, k, a) { if (a == an_tab[i]) has = true; }
		if (!has) { an_int(0); an_close(); continue; }
		an_int(get_irn_n_outs(an_tab[i]));
		for (unsigned k = 0; k < get_irn_n_outs(an_tab[i]); ++k) { int pos; ir_node *s = get_irn_out_ex(an_tab[i], k, &pos); an_int(an_id(s)); an_int(pos); }
		an_close();
	}
	fputc(']', an_f);
	AN_BLOCKS("bouts", b, { unsigned n = get_Block_n_cfg_outs(b); an_int(n); for (unsigned k = 0; k < n; ++k) { int pos; ir_node *s = get_Block_cfg_out_ex(b, k, &pos); an_int(an_id(s)); an_int(pos); if (s != get_Block_cfg_out(b, k)) an_int(-7); } });
	AN_BLOCKS("boutska", b, { unsigned n = get_Block_n_cfg_outs_ka(b); for (unsigned k = 0; k < n; ++k) an_int(an_id(get_Block_cfg_out_ka(b, k))); });
}
static void an_usage(char const *key)
{
	an_list_begin(key); an_first = 1;
	for (int t = 0; t < 2; ++t) {
		ir_type *ty = t ? get_tls_type() : get_glob_type();
		for (size_t k = 0; k < get_compound_n_members(ty); ++k) {
			ir_entity *e = get_compound_member(ty, k);
			if (is_method_entity(e)) continue;
			an_int(get_entity_usage(e));
		}
	}
	foreach_irp_irg(j, g) {
		ir_type *ty = get_irg_frame_type(g);
		for (size_t k = 0; k < get_compound_n_members(ty); ++k) an_int(get_entity_usage(get_compound_member(ty, k)));
	}
	fputc(']', an_f);
}

/* what the graph claims, without computing anything */
static void an_stored(FILE *f, ir_graph *irg, char const *tag, int seq)
{
	an_f = f;
	unsigned p = an_claims(irg);
	an_number(irg, NULL);
	fprintf(f, "{%s\"kind\":\"stored\",\"tag\":\"%s\",\"fn\":\"%s\",\"seq\":%d,\"props\":[", an_prefix, tag, get_entity_name(get_irg_entity(irg)), seq);
	an_first = 1;
	for (int i = 0; i < 13; ++i) if (p & (1u << i)) an_int(i);
	fprintf(f, "],");
	an_nodes(irg);
	if (p & IR_GRAPH_PROPERTY_CONSISTENT_DOMINANCE) an_dom(irg);
	if (p & IR_GRAPH_PROPERTY_CONSISTENT_POSTDOMINANCE) an_pdom(irg);
	if (p & IR_GRAPH_PROPERTY_CONSISTENT_DOMINANCE_FRONTIERS) an_df(irg);
	if (p & IR_GRAPH_PROPERTY_CONSISTENT_LOOPINFO) an_loop(irg);
	if (p & IR_GRAPH_PROPERTY_CONSISTENT_OUT_EDGES) an_edges(irg);
	if (p & IR_GRAPH_PROPERTY_CONSISTENT_OUTS) an_outs(irg);
	fprintf(f, "}\n");
}

static int an_budget = 14;      /* per block: nodes taking part in the reachability relation */
static void an_live(ir_graph *irg)
{
	lv_chk_t *lv = lv_chk_new(irg);
	an_list_begin("live"); an_first = 1;
	int shown = 0;
	for (int i = 1; i <= an_n && shown < 60; ++i) {
		ir_node *n = an_tab[i];
		if (!is_liveness_node(n) || is_Block(n) || get_irn_mode(n) == mode_X || get_irn_mode(n) == mode_BAD) continue;
		if (get_Block_dom_depth(get_nodes_block(n)) <= 0) continue;
		bool skip = false;
		foreach_out_edge(n, e) {
			ir_node *u = get_edge_src_irn(e);
			if (!an_id(u)) skip = true;
			/* a use in unreachable code, or along a dead edge, has no block to be live in */
			else if (is_Phi(u)) { ir_node *q = get_Block_cfgpred_block(get_nodes_block(u), get_edge_src_pos(e)); if (!q || get_Block_dom_depth(q) <= 0) skip = true; }
			else if (is_liveness_node(u) && !is_Block(u) && get_Block_dom_depth(get_nodes_block(u)) <= 0) skip = true;
		}
		if (skip || get_irn_n_edges(n) == 0) continue;
		++shown;
		an_open(); an_int(i);
		for (int j = 1; j <= an_n; ++j) if (an_isblk(j) && get_Block_dom_depth(an_tab[j]) > 0) {
			unsigned m = lv_chk_bl_xxx(lv, an_tab[j], n);
			if (m) { an_int(j); an_int(m); }
		}
		an_close();
	}
	fputc(']', an_f);
	lv_chk_free(lv);
}
static void an_heights(ir_graph *irg)
{
	ir_heights_t *h = heights_new(irg);
	an_list_begin("heights"); an_first = 1;
	for (int i = 1; i <= an_n; ++i) if (!an_isblk(i)) { an_open(); an_int(i); an_int(get_irn_height(h, an_tab[i])); an_close(); }
	fputc(']', an_f);
	an_list_begin("hreach"); an_first = 1;
	for (int b = 1; b <= an_n; ++b) if (an_isblk(b)) {
		int l[64], n = 0;
		for (int i = 1; i <= an_n && n < an_budget; ++i) if (!an_isblk(i) && get_nodes_block(an_tab[i]) == an_tab[b]) l[n++] = i;
		for (int i = 0; i < n; ++i) {
			an_open(); an_int(l[i]);
			for (int j = 0; j < n; ++j) an_int(heights_reachable_in_block(h, an_tab[l[i]], an_tab[l[j]]) ? l[j] : -l[j]);
			an_close();
		}
	}
	fputc(']', an_f);
	for (int b = 1; b <= an_n; ++b) if (an_isblk(b)) heights_recompute_block(h, an_tab[b]);
	an_list_begin("heights2"); an_first = 1;
	for (int i = 1; i <= an_n; ++i) if (!an_isblk(i)) { an_open(); an_int(i); an_int(get_irn_height(h, an_tab[i])); an_close(); }
	fputc(']', an_f);
	heights_free(h);
}
static void an_cdep(ir_graph *irg)
{
	compute_cdep(irg);
	AN_BLOCKS("cdep", b, { for (ir_cdep *c = find_cdep(b); c; c = get_cdep_next(c)) an_int(an_id(get_cdep_node(c))); });
	AN_BLOCKS("cdepq", b, { an_int(an_id(get_unique_cdep(b))); an_int(has_multiple_cdep(b)); for (int j = 1; j <= an_n; ++j) if (an_isblk(j) && is_cdep_on(b, an_tab[j])) an_int(j); });
	free_cdep(irg);
}
#define AN_WALK(key, call) do { an_list_begin(key); an_first = 1; call; fputc(']', an_f); } while (0)
static void an_walkers(ir_graph *irg)
{
	AN_WALK("w_graph", irg_walk_graph(irg, an_pre, an_post, NULL));
	AN_WALK("w_pre", irg_walk_graph(irg, an_pre, NULL, NULL));
	AN_WALK("w_post", irg_walk_graph(irg, NULL, an_post, NULL));
	AN_WALK("w_block", irg_block_walk_graph(irg, an_pre, an_post, NULL));
	AN_WALK("w_blkwise", irg_walk_blkwise_graph(irg, an_pre, an_post, NULL));
	AN_WALK("w_blkdom", irg_walk_blkwise_dom_top_down(irg, an_pre, an_post, NULL));
	AN_WALK("w_dep", irg_walk_in_or_dep_graph(irg, an_pre, an_post, NULL));
	AN_WALK("w_deppre", irg_walk_in_or_dep_graph(irg, an_pre, NULL, NULL));
	AN_WALK("w_deppost", irg_walk_in_or_dep_graph(irg, NULL, an_post, NULL));
	AN_WALK("w_topo", irg_walk_topological(irg, an_post, NULL));
	AN_WALK("w_anchor", irg_walk_anchors(irg, an_pre, an_post, NULL));
	AN_WALK("w_dom", dom_tree_walk_irg(irg, an_pre, an_post, NULL));
	AN_WALK("w_pdom", postdom_tree_walk_irg(irg, an_pre, an_post, NULL));
	AN_WALK("w_out", irg_out_walk(get_irg_start_block(irg), an_pre, an_post, NULL));
	AN_WALK("w_outblk", irg_out_block_walk(get_irg_start_block(irg), an_pre, an_post, NULL));
	/* sub-walks from some nodes */
	an_list_begin("w_sub"); an_first = 1;
	for (int i = 3; i <= an_n; i += 1 + an_n / 5) {
		an_open(); an_int(i); irg_walk(an_tab[i], an_pre, an_post, NULL); an_close();
	}
	fputc(']', an_f);
	an_list_begin("w_subblk"); an_first = 1;
	for (int i = 1; i <= an_n; i += 1 + an_n / 5) if (an_isblk(i)) {
		an_open(); an_int(i); irg_block_walk(an_tab[i], an_pre, an_post, NULL); an_close();
	}
	fputc(']', an_f);
	/* phi lists and links gathered by the edge tools */
	ir_reserve_resources(irg, IR_RESOURCE_IRN_LINK | IR_RESOURCE_PHI_LIST);
	collect_phiprojs_and_start_block_nodes(irg);
	AN_BLOCKS("phis", b, { for (ir_node *p = get_Block_phis(b); p; p = get_Phi_next(p)) an_int(an_id(p)); });
	ir_free_resources(irg, IR_RESOURCE_IRN_LINK | IR_RESOURCE_PHI_LIST);
}
/* compute everything afresh */
static void an_fresh(FILE *f, ir_graph *irg, char const *tag, int seq, int walk)
{
	an_f = f;
	assure_irg_properties(irg, IR_GRAPH_PROPERTY_NO_TUPLES);    /* the analyses ask for it */
	confirm_irg_properties(irg, IR_GRAPH_PROPERTY_NO_TUPLES);
	an_number(irg, NULL);
	fprintf(f, "{%s\"kind\":\"fresh\",\"tag\":\"%s\",\"fn\":\"%s\",\"seq\":%d,\"props\":[],", an_prefix, tag, get_entity_name(get_irg_entity(irg)), seq);
	an_nodes(irg);
	compute_irg_outs(irg);
	an_outs(irg);
	compute_doms(irg);
	an_dom(irg);
	compute_postdoms(irg);
	an_pdom(irg);
	an_cdep(irg);
	assure_edges(irg);
	ir_compute_dominance_frontiers(irg);
	an_df(irg);
	assure_loopinfo(irg);
	an_loop(irg);
	assure_edges(irg);
	an_edges(irg);
	an_live(irg);
	an_heights(irg);
	if (walk) {
		assure_irg_properties(irg, IR_GRAPH_PROPERTY_CONSISTENT_OUTS | IR_GRAPH_PROPERTY_CONSISTENT_DOMINANCE | IR_GRAPH_PROPERTY_CONSISTENT_POSTDOMINANCE);
		an_walkers(irg);
	}
	fprintf(f, "}\n");
}
#endif
