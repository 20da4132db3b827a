/* Runs the combinatorial solvers on given instances.
 * hung ROWS COLS TYPE MAX N (l r c)*N      -> result cost assignment...
 * bip L R N (i j)*N M (i j)*M [removed]    -> matching... then adjacency (L*R bits)
 * pbqp SOLVER N (len c*len)*N M (s t c*)*M PERM*N  -> cost selection...   (cost -1: infinite)
 */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "hungarian.h"
#include "bipartite.h"
#include "kaps.h"
#include "matrix.h"
#include "vector.h"
#include "heuristical.h"
#include "heuristical_co.h"
#include "heuristical_co_ld.h"
#include "brute_force.h"
#include "pdeq.h"

static char *cur;
static long next(void) { return strtol(cur, &cur, 10); }
static num cost(void) { long v = next(); return v < 0 ? INF_COSTS : (num)v; }

int main(void)
{
	static char line[1 << 16];
	setvbuf(stdout, NULL, _IOFBF, 1 << 16);
	while (fgets(line, sizeof line, stdin)) {
		if (line[0] == 'H') { printf("ok\n"); continue; }
		cur = strchr(line, ' ');
		if (!strncmp(line, "hung", 4)) {
			long r = next(), c = next(), ty = next(), mx = next(), n = next();
			hungarian_problem_t *p = hungarian_new(r, c, ty ? HUNGARIAN_MATCH_PERFECT : HUNGARIAN_MATCH_NORMAL);
			for (long i = 0; i < n; ++i) {
				long a = next(), b = next(), v = next();
				if (v < 0) hungarian_remove(p, a, b); else hungarian_add(p, a, b, v);
			}
			hungarian_prepare_cost_matrix(p, mx ? HUNGARIAN_MODE_MAXIMIZE_UTIL : HUNGARIAN_MODE_MINIMIZE_COST);
			unsigned as[64], fc = 0;
			int res = hungarian_solve(p, as, &fc, 0);
			printf("%d %u", res, fc);
			for (long i = 0; i < (r > c ? r : c); ++i) printf(" %d", (int)as[i]);
			hungarian_free(p);
		} else if (!strncmp(line, "bip", 3)) {
			long l = next(), r = next(), n = next();
			bipartite_t *g = bipartite_new(l, r);
			for (long i = 0; i < n; ++i) { long a = next(), b = next(); bipartite_add(g, a, b); }
			n = next();
			for (long i = 0; i < n; ++i) { long a = next(), b = next(); bipartite_remv(g, a, b); }
			int m[64];
			bipartite_matching(g, m);
			for (long i = 0; i < l; ++i) printf("%d ", m[i]);
			for (long i = 0; i < l; ++i) for (long j = 0; j < r; ++j) printf("%d ", bipartite_adj(g, i, j));
			bipartite_free(g);
		} else if (!strncmp(line, "pbqp", 4)) {
			long solver = next(), n = next();
			long len[64];
			pbqp_t *p = alloc_pbqp(n);
			for (long i = 0; i < n; ++i) {
				len[i] = next();
				vector_t *v = vector_alloc(p, len[i]);
				for (long k = 0; k < len[i]; ++k) vector_set(v, k, cost());
				add_node_costs(p, i, v);
			}
			long m = next();
			for (long i = 0; i < m; ++i) {
				long s = next(), t = next();
				pbqp_matrix_t *x = pbqp_matrix_alloc(p, len[s], len[t]);
				for (long a = 0; a < len[s]; ++a) for (long b = 0; b < len[t]; ++b) pbqp_matrix_set(x, a, b, cost());
				add_edge_costs(p, s, t, x);
			}
			deq_t q;
			deq_init(&q);
			for (long i = 0; i < n; ++i) deq_push_pointer_right(&q, get_node(p, next()));
			switch (solver) {
			case 0: solve_pbqp_heuristical(p); break;
			case 1: solve_pbqp_heuristical_co(p, &q); break;
			case 2: solve_pbqp_heuristical_co_ld(p, &q); break;
			default: solve_pbqp_brute_force(p); break;
			}
			deq_free(&q);
			num c = get_solution(p);
			printf("%ld", c == INF_COSTS ? -1L : (long)c);
			for (long i = 0; i < n; ++i) printf(" %ld", (long)get_node_solution(p, i));
			free_pbqp(p);
		}
		putchar('\n');
		fflush(stdout);
	}
	return 0;
}
