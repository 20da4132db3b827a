/* Histories of graph mutations under active use lists (C21). */
#include <libfirm/firm.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "irgraph_t.h"
#include "irnode_t.h"
#include "irgmod.h"
#include "iredges_t.h"
#include "irouts_t.h"
#include "pmap.h"
#include "irbackedge_t.h"
#include "irtools.h"

#define MAXN 256
static ir_graph *irg;
static ir_node *node[MAXN];     /* 1 start block, 2 end block, 3 End */
static int n_hist;

static int no(ir_node const *n)
{
	for (int i = 1; i < MAXN; ++i) if (node[i] == n) return i;
	return 0;
}
typedef struct { int s, p; } pair;
static int cmp(void const *a, void const *b)
{
	pair const *x = a, *y = b;
	return x->s != y->s ? x->s - y->s : x->p - y->p;
}
static void put(pair *q, int n, int cnt)
{
	qsort(q, n, sizeof *q, cmp);
	printf("%d %d ", cnt, n);
	for (int i = 0; i < n; ++i) printf("%d %d ", q[i].s, q[i].p);
}
/* the operands of every node, then (if use lists are active) its users */
static void observe(int outs)
{
	pair q[1024];
	for (int i = 1; i < MAXN; ++i) {
		if (!node[i] || i == 2) continue;
		printf("-1 %d ", i);
		int ar = get_irn_arity(node[i]);
		printf("%d ", i <= 3 || is_Block(node[i]) ? 0 : no(get_nodes_block(node[i])));
		printf("%d ", ar);
		for (int k = 0; k < ar; ++k) printf("%d ", no(get_irn_n(node[i], k)));
		if (i == 3) continue;
		int n = 0, foreign = 0;
		if (outs) {
			for (unsigned k = 0; k < get_irn_n_outs(node[i]); ++k) {
				int pos;
				int s = no(get_irn_out_ex(node[i], k, &pos));
				if (s) { q[n].s = s; q[n++].p = pos; } else if (i <= 2) ++foreign; else { q[n].s = 0; q[n++].p = pos; }
			}
			put(q, n, get_irn_n_outs(node[i]) - foreign);
		} else if (edges_activated(irg)) {
			foreach_out_edge(node[i], e) {
				int s = no(get_edge_src_irn(e));
				if (s || i > 2) { q[n].s = s; q[n++].p = get_edge_src_pos(e); } else ++foreign;
				if (n > 1000) break;
			}
			put(q, n, get_irn_n_edges(node[i]) - foreign);
			if (is_Block(node[i])) {
				n = foreign = 0;
				foreach_block_succ(node[i], e) {
					int s = no(get_edge_src_irn(e));
					if (s || i > 2) { q[n].s = s; q[n++].p = get_edge_src_pos(e); } else ++foreign;
					if (n > 1000) break;
				}
				put(q, n, get_irn_n_edges_kind(node[i], EDGE_KIND_BLOCK) - foreign);
			}
		}
	}
	printf("\n");
}
static void setup(void)
{
	if (irg) { if (edges_activated(irg)) edges_deactivate(irg); }
	memset(node, 0, sizeof node);
	char b[32];
	snprintf(b, sizeof b, "f%d", n_hist++);
	ir_type *mt = new_type_method(0, 0, 0, 0, mtp_no_property);
	ir_entity *e = new_entity(get_glob_type(), new_id_from_str(b), mt);
	irg = new_ir_graph(e, 0);
	irg_finalize_cons(irg);
	node[1] = get_irg_start_block(irg);
	node[2] = get_irg_end_block(irg);
	node[3] = get_irg_end(irg);
}
static char *cur;
static int next(void) { return (int)strtol(cur, &cur, 10); }

static void op(char *line)
{
	char o[16];
	int used;
	sscanf(line, "%15s%n", o, &used);
	cur = line + used;
	int outs = 0;
	if (!strcmp(o, "new")) {            /* new id kind blk n ops */
		int id = next(), k = next(), blk = next(), n = next();
		ir_node *in[64];
		for (int i = 0; i < n; ++i) in[i] = node[next()];
		ir_node *r = NULL;
		switch (k) {
		case 'B': r = new_r_Block(irg, n, in); break;
		case 'J': r = new_r_Jmp(node[blk]); break;
		case 'S': r = new_ir_node(NULL, irg, node[blk], op_Sync, mode_M, n, in); break;
		case 'P': r = new_ir_node(NULL, irg, node[blk], op_Phi, get_modeIs(), n, in); r->attr.phi.u.backedge = new_backedge_arr(get_irg_obstack(irg), n); break;
		case 'A': r = new_ir_node(NULL, irg, node[blk], op_Add, get_modeIs(), n, in); break;
		case 'U': r = new_ir_node(NULL, irg, node[blk], op_Unknown, get_modeIs(), 0, NULL); break;
		case 'N': r = new_ir_node(NULL, irg, node[blk], op_Sync, mode_M, 0, NULL); break;
		case 'C': r = new_ir_node(NULL, irg, node[blk], op_Cond, mode_T, n, in); break;
		case 'Q': r = new_ir_node(NULL, irg, node[blk], op_Proj, mode_X, n, in); break;
		case 'D': r = new_ir_node(NULL, irg, get_irg_start_block(irg), op_Bad, mode_X, 0, NULL); break;
		}
		node[id] = r;
		add_End_keepalive(node[3], r);
	} else if (!strcmp(o, "copy")) {    /* copy id of */
		int id = next(), of = next();
		node[id] = exact_copy(node[of]);
		add_End_keepalive(node[3], node[id]);
	} else if (!strcmp(o, "setn")) {
		int id = next(), pos = next(), t = next();
		if (pos < 0) set_nodes_block(node[id], node[t]);
		else set_irn_n(node[id], pos, node[t]);
	} else if (!strcmp(o, "move")) {    /* move blk n ids */
		int blk = next(), n = next();
		while (n-- > 0) set_nodes_block(node[next()], node[blk]);
	} else if (!strcmp(o, "setin")) {
		int id = next(), n = next();
		ir_node *in[64];
		for (int i = 0; i < n; ++i) in[i] = node[next()];
		set_irn_in(node[id], n, in);
	} else if (!strcmp(o, "add")) {
		int id = next(), t = next();
		add_irn_n(node[id], node[t]);
	} else if (!strcmp(o, "rem")) {
		int id = next(), p = next();
		remove_Sync_n(node[id], p);
	} else if (!strcmp(o, "ka")) {
		int n = next();
		ir_node *in[256];
		for (int i = 0; i < n; ++i) in[i] = node[next()];
		set_End_keepalives(node[3], n, in);
	} else if (!strcmp(o, "dbl")) {
		remove_End_Bads_and_doublets(node[3]);
	} else if (!strcmp(o, "reroute")) {
		int f = next(), t = next();
		edges_reroute(node[f], node[t]);
	} else if (!strcmp(o, "except")) {
		int f = next(), t = next(), x = next();
		edges_reroute_except(node[f], node[t], node[x]);
	} else if (!strcmp(o, "exch")) {
		int f = next(), t = next();
		exchange(node[f], node[t]);
		node[f] = NULL;
	} else if (!strcmp(o, "kill")) {
		int f = next();
		remove_End_keepalive(node[3], node[f]);
		kill_node(node[f]);
		node[f] = NULL;
	} else if (!strcmp(o, "act")) {
		assure_edges(irg);
	} else if (!strcmp(o, "deact")) {
		edges_deactivate(irg);
	} else if (!strcmp(o, "outs")) {
		assure_irg_outs(irg);
		outs = 1;
	} else if (!strcmp(o, "walk")) {    /* walk n to mod rest: users with (src + pos) % mod == rest are moved */
		int f = next(), t = next(), mod = next(), rest = next();
		int cnt = 0;
		printf("-2 ");
		foreach_out_edge_safe(node[f], e) {
			ir_node *s = get_edge_src_irn(e);
			int p = get_edge_src_pos(e);
			printf("%d %d ", no(s), p);
			if (++cnt > 500) break;
			if ((no(s) + p) % mod == rest && no(s) > 3) set_irn_n(s, p, node[t]);
		}
	}
	observe(outs);
}

int main(void)
{
	static char line[1 << 16];
	setvbuf(stdout, NULL, _IOFBF, 1 << 20);
	ir_init_library();
	ir_target_set("x86_64-unknown-linux-gnu");
	ir_target_init();
	set_optimize(0);
	while (fgets(line, sizeof line, stdin)) {
		if (line[0] == 'H') {
			fflush(stdout);
			setup();
			printf("ok\n");
		} else op(line);
	}
	fflush(stdout);
	return 0;
}
