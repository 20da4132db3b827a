/* Executes operation histories on libfirm's containers and records every
 * result.  stdin:  "H kind p0 p1 p2" starts a history, then one operation per
 * line "op slot args..."; stdout: one line of integers per operation.
 */
#include <libfirm/firm.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include "pset_new.h"
#include "cpset.h"
#include "pmap.h"
#include "set.h"
#include "pset.h"
#include "irnodeset.h"
#include "irnodehashmap.h"
#include "irnodemap.h"
#include "valueset.h"
#include "irgraph_t.h"
#include "irnode_t.h"
#include "ircons_t.h"
#include "pqueue.h"
#include "pdeq.h"
#include "array.h"
#include "bitset.h"
#include "raw_bitset.h"
#include "unionfind.h"

#define NNODES 4096
#define NOBJ   (1 << 16)
#define SLOTS  3

typedef struct obj { int key, tag; } obj;

static char kind[32];
static long P0, P1, P2;
static ir_graph *irg;
static ir_node *nodes[NNODES];
static int node_key[1 << 16];
static obj *objs[NOBJ];
static int n_objs;

static void out(long v) { printf("%ld ", v); }

/* ---- pointers as keys ---- */
static void *key_ptr(long k) { return (void *)(uintptr_t)(P0 + (uintptr_t)k * (uintptr_t)P1); }
static long ptr_key(void const *p) { return (long)(((uintptr_t)p - (uintptr_t)P0) / (uintptr_t)P1); }
static void *val_ptr(long v) { return v == 0 ? NULL : (void *)(uintptr_t)(v * 16); }
static long ptr_val(void const *p) { return (long)((uintptr_t)p / 16); }

/* ---- objects with a caller defined hash ---- */
static unsigned hash_key(int k)
{
	switch (P0) {
	case 0: return (unsigned)k;
	case 1: return 7;
	case 2: return (unsigned)k & 3;
	case 3: return (unsigned)k * 2654435761u;
	case 4: return (unsigned)k << 8;
	default: return (unsigned)-1 - ((unsigned)k & 15);
	}
}
static unsigned obj_hash(void const *o) { return hash_key(((obj const *)o)->key); }
static int obj_equal(void const *a, void const *b) { return ((obj const *)a)->key == ((obj const *)b)->key; }
static int obj_cmp(void const *a, void const *b) { return ((obj const *)a)->key != ((obj const *)b)->key; }
static int obj_cmp_sz(void const *a, void const *b, size_t s) { (void)s; return obj_cmp(a, b); }
static obj *mk(int k, int t)
{
	obj *o = malloc(sizeof *o);
	o->key = k; o->tag = t;
	if (n_objs < NOBJ) objs[n_objs++] = o;
	return o;
}
static ir_node *key_node(long k) { return nodes[(k * P0) % NNODES]; }
static long nkey(ir_node const *n)
{
	for (long k = 0; k < NNODES; ++k)
		if (key_node(k) == n) return k;
	return -7;
}
static long nval(ir_node const *n) { return n ? node_key[get_irn_idx(n)] : 0; }
static ir_node *val_node(long v) { return v == 0 ? NULL : nodes[v % NNODES]; }

static bool doomed(long k, long mod, long rem) { return mod > 0 && k % mod == rem; }

static pset_new_t pn[SLOTS];
static cpset_t cp[SLOTS];
static pmap *pm[SLOTS];
static pset *ps[SLOTS];
static set *st[SLOTS];
static ir_nodeset_t ns[SLOTS];
static ir_nodehashmap_t nh[SLOTS];
static ir_nodemap nm[SLOTS];
static ir_valueset_t vs[SLOTS];
static deq_t dq[SLOTS];
static pqueue_t *pq[SLOTS];
static int *ar[SLOTS];
static bitset_t *bs[SLOTS];
static unsigned *rb[SLOTS];
static int uf[4096];
static bool live;

static bool is(char const *k) { return strcmp(kind, k) == 0; }

static void finish(void)
{
	if (!live) return;
	live = false;
	for (int i = 0; i < SLOTS; ++i) {
		if (is("psetnew")) pset_new_destroy(&pn[i]);
		else if (is("cpset")) cpset_destroy(&cp[i]);
		else if (is("pmap")) pmap_destroy(pm[i]);
		else if (is("pset") || is("psetptr")) del_pset(ps[i]);
		else if (is("set")) del_set(st[i]);
		else if (is("nodeset")) ir_nodeset_destroy(&ns[i]);
		else if (is("nodehash")) ir_nodehashmap_destroy(&nh[i]);
		else if (is("nodemap")) ir_nodemap_destroy(&nm[i]);
		else if (is("valueset")) ir_valueset_destroy(&vs[i]);
		else if (is("deq")) deq_free(&dq[i]);
		else if (is("pqueue")) del_pqueue(pq[i]);
		else if (is("arr")) DEL_ARR_F(ar[i]);
		else if (is("bitset")) free(bs[i]);
		else if (is("rbitset")) free(rb[i]);
	}
	for (int i = 0; i < n_objs; ++i) free(objs[i]);
	n_objs = 0;
}

static void start(void)
{
	live = true;
	size_t slots = (size_t)P2;
	for (int i = 0; i < SLOTS; ++i) {
		if (is("psetnew")) { if (slots) pset_new_init_size(&pn[i], slots); else pset_new_init(&pn[i]); }
		else if (is("cpset")) { if (slots) cpset_init_size(&cp[i], obj_hash, obj_equal, slots); else cpset_init(&cp[i], obj_hash, obj_equal); }
		else if (is("pmap")) pm[i] = slots ? pmap_create_ex(slots) : pmap_create();
		else if (is("pset")) ps[i] = new_pset(obj_cmp, slots);
		else if (is("psetptr")) ps[i] = pset_new_ptr(slots);
		else if (is("set")) st[i] = new_set(obj_cmp_sz, slots);
		else if (is("nodeset")) { if (slots) ir_nodeset_init_size(&ns[i], slots); else ir_nodeset_init(&ns[i]); }
		else if (is("nodehash")) { if (slots) ir_nodehashmap_init_size(&nh[i], slots); else ir_nodehashmap_init(&nh[i]); }
		else if (is("nodemap")) { ir_nodemap_init(&nm[i], irg); ARR_SHRINKLEN(nm[i].data, 4 + slots); }
		else if (is("valueset")) { if (slots) ir_valueset_init_size(&vs[i], slots); else ir_valueset_init(&vs[i]); }
		else if (is("deq")) deq_init(&dq[i]);
		else if (is("pqueue")) pq[i] = new_pqueue();
		else if (is("arr")) ar[i] = NEW_ARR_F(int, 0);
		else if (is("bitset")) bs[i] = bitset_malloc(P0);
		else if (is("rbitset")) rb[i] = rbitset_malloc(P0);
	}
	if (is("uf")) uf_init(uf, P0);
}

/* ---- sets and maps ---- */
static void do_ins(int s, long k, long v)
{
	if (is("psetnew")) out(pset_new_insert(&pn[s], key_ptr(k)));
	else if (is("cpset")) { obj *o = cpset_insert(&cp[s], mk(k, v)); out(o->key); out(o->tag); }
	else if (is("pmap")) pmap_insert(pm[s], key_ptr(k), val_ptr(v));
	else if (is("pset")) { obj *o = pset_insert(ps[s], mk(k, v), hash_key(k)); out(o->key); out(o->tag); }
	else if (is("psetptr")) out(ptr_key(pset_insert_ptr(ps[s], key_ptr(k))));
	else if (is("set")) {
		obj t = { k, v };
		obj *o = set_insert(obj, st[s], &t, sizeof t, hash_key(k));
		out(o->key); out(o->tag);
	}
	else if (is("nodeset")) out(ir_nodeset_insert(&ns[s], key_node(k)));
	else if (is("nodehash")) ir_nodehashmap_insert(&nh[s], key_node(k), val_ptr(v));
	else if (is("nodemap")) ir_nodemap_insert(&nm[s], key_node(k), val_ptr(v));
	else if (is("valueset")) out(ir_valueset_insert(&vs[s], key_node(k), val_node(v)));
}

static void do_hins(int s, long k, long v)
{
	if (is("pset")) {
		pset_entry *e = pset_hinsert(ps[s], mk(k, v), hash_key(k));
		obj *o = e->dptr;
		out(e->hash == hash_key(k)); out(o->key); out(o->tag);
	} else if (is("set")) {
		obj t = { k, v };
		set_entry *e = set_hinsert(st[s], &t, sizeof t, hash_key(k));
		obj *o = (obj *)e->dptr;
		out(e->hash == hash_key(k) && e->size == sizeof t); out(o->key); out(o->tag);
	}
}

static void do_get(int s, long k)
{
	if (is("psetnew")) out(pset_new_contains(&pn[s], key_ptr(k)) ? 1 : 0);
	else if (is("cpset")) { obj *o = cpset_find(&cp[s], mk(k, -1)); out(o ? 1 : 0); if (o) { out(o->key); out(o->tag); } }
	else if (is("pmap")) {
		out(pmap_contains(pm[s], key_ptr(k)) ? 1 : 0);
		pmap_entry *e = pmap_find(pm[s], key_ptr(k));
		if ((e != NULL) != (pmap_contains(pm[s], key_ptr(k)) != 0)) out(-99);
		if (e && e->key != key_ptr(k)) out(-98);
		if (e && e->value != pmap_get(void, pm[s], key_ptr(k))) out(-97);
		out(ptr_val(pmap_get(void, pm[s], key_ptr(k))));
	}
	else if (is("pset")) { obj *o = pset_find(ps[s], mk(k, -1), hash_key(k)); out(o ? 1 : 0); if (o) { out(o->key); out(o->tag); } }
	else if (is("psetptr")) { void *o = pset_find_ptr(ps[s], key_ptr(k)); out(o ? 1 : 0); if (o) out(ptr_key(o)); }
	else if (is("set")) {
		obj t = { k, -1 };
		obj *o = set_find(obj, st[s], &t, sizeof t, hash_key(k));
		out(o ? 1 : 0); if (o) { out(o->key); out(o->tag); }
	}
	else if (is("nodeset")) out(ir_nodeset_contains(&ns[s], key_node(k)) ? 1 : 0);
	else if (is("nodehash")) out(ptr_val(ir_nodehashmap_get(void, &nh[s], key_node(k))));
	else if (is("nodemap")) out(ptr_val(ir_nodemap_get(void, &nm[s], key_node(k))));
	else if (is("valueset")) out(nval(ir_valueset_lookup(&vs[s], key_node(k))));
}

static void do_rem(int s, long k)
{
	if (is("psetnew")) pset_new_remove(&pn[s], key_ptr(k));
	else if (is("cpset")) cpset_remove(&cp[s], mk(k, -1));
	else if (is("pset")) { obj *o = pset_remove(ps[s], mk(k, -1), hash_key(k)); out(o->key); out(o->tag); }
	else if (is("psetptr")) out(ptr_key(pset_remove_ptr(ps[s], key_ptr(k))));
	else if (is("nodeset")) ir_nodeset_remove(&ns[s], key_node(k));
	else if (is("nodehash")) ir_nodehashmap_remove(&nh[s], key_node(k));
	else if (is("nodemap")) ir_nodemap_insert(&nm[s], key_node(k), NULL);
	else if (is("valueset")) ir_valueset_remove(&vs[s], key_node(k));
}

static void do_size(int s)
{
	if (is("psetnew")) out(pset_new_size(&pn[s]));
	else if (is("cpset")) out(cpset_size(&cp[s]));
	else if (is("pmap")) out(pmap_count(pm[s]));
	else if (is("pset") || is("psetptr")) out(pset_count(ps[s]));
	else if (is("set")) out(set_count(st[s]));
	else if (is("nodeset")) out(ir_nodeset_size(&ns[s]));
	else if (is("nodehash")) out(ir_nodehashmap_size(&nh[s]));
	else if (is("valueset")) out(ir_valueset_size(&vs[s]));
}

/* visits at most n elements; removes those with key % mod == rem */
static void do_iter(int s, long n, long mod, long rem)
{
	long c = 0;
	if (is("psetnew")) {
		pset_new_iterator_t it; void *p;
		pset_new_iterator_init(&it, &pn[s]);
		while (c < n && (p = pset_new_iterator_next(&it))) {
			++c; out(ptr_key(p)); out(0);
			if (doomed(ptr_key(p), mod, rem)) pset_new_remove_iterator(&pn[s], &it);
		}
	} else if (is("cpset")) {
		cpset_iterator_t it; obj *p;
		cpset_iterator_init(&it, &cp[s]);
		while (c < n && (p = cpset_iterator_next(&it))) {
			++c; out(p->key); out(p->tag);
			if (doomed(p->key, mod, rem)) cpset_remove_iterator(&cp[s], &it);
		}
	} else if (is("pmap")) {
		foreach_pmap(pm[s], e) {
			if (c++ == n) { pmap_break(pm[s]); break; }
			out(ptr_key(e->key)); out(ptr_val(e->value));
		}
	} else if (is("pset")) {
		foreach_pset(ps[s], obj, p) {
			if (c++ == n) { pset_break(ps[s]); break; }
			out(p->key); out(p->tag);
		}
	} else if (is("psetptr")) {
		foreach_pset(ps[s], void, p) {
			if (c++ == n) { pset_break(ps[s]); break; }
			out(ptr_key(p)); out(0);
		}
	} else if (is("set")) {
		foreach_set(st[s], obj, p) {
			if (c++ == n) { set_break(st[s]); break; }
			out(p->key); out(p->tag);
		}
	} else if (is("nodeset")) {
		ir_nodeset_iterator_t it; ir_node *p;
		ir_nodeset_iterator_init(&it, &ns[s]);
		while (c < n && (p = ir_nodeset_iterator_next(&it))) {
			++c; out(nkey(p)); out(0);
			if (doomed(nkey(p), mod, rem)) ir_nodeset_remove_iterator(&ns[s], &it);
		}
	} else if (is("nodehash")) {
		ir_nodehashmap_iterator_t it; ir_nodehashmap_entry_t e;
		ir_nodehashmap_iterator_init(&it, &nh[s]);
		while (c < n && (e = ir_nodehashmap_iterator_next(&it)).node) {
			++c; out(nkey(e.node)); out(ptr_val(e.data));
			if (doomed(nkey(e.node), mod, rem)) ir_nodehashmap_remove_iterator(&nh[s], &it);
		}
	} else if (is("valueset")) {
		ir_valueset_iterator_t it; ir_node *p, *e;
		ir_valueset_iterator_init(&it, &vs[s]);
		while (c < n && (p = ir_valueset_iterator_next(&it, &e))) {
			++c; out(nkey(p)); out(nval(e));
			if (doomed(nkey(p), mod, rem)) ir_valueset_remove_iterator(&vs[s], &it);
		}
	}
}

/* ---- bit sets ---- */
static void dump_bits(int s)
{
	for (long i = 0; i < P0; ++i)
		if (is("bitset") ? bitset_is_set(bs[s], i) : rbitset_is_set(rb[s], i))
			out(i);
}

static void bits(char const *op, int s, long a, long b)
{
	size_t n = (size_t)P0;
	bool r = is("rbitset");
	bitset_t *x = bs[s], *y = bs[b < SLOTS && b >= 0 ? b : 0];
	unsigned *u = rb[s], *v = rb[b < SLOTS && b >= 0 ? b : 0];
#define OP(name) else if (!strcmp(op, name))
	if (!strcmp(op, "set")) { if (r) rbitset_set(u, a); else bitset_set(x, a); }
	OP("clr") { if (r) rbitset_clear(u, a); else bitset_clear(x, a); }
	OP("flip") { if (r) rbitset_flip(u, a); else bitset_flip(x, a); }
	OP("flipall") { if (r) rbitset_flip_all(u, n); else bitset_flip_all(x); }
	OP("setall") { if (r) rbitset_set_all(u, n); else bitset_set_all(x); }
	OP("clrall") { if (r) rbitset_clear_all(u, n); else bitset_clear_all(x); }
	OP("minus1") { if (r) rbitset_minus1(u, n); else bitset_minus1(x); }
	OP("setrange") { if (r) rbitset_set_range(u, a, b, true); else bitset_set_range(x, a, b); }
	OP("clrrange") { if (r) rbitset_set_range(u, a, b, false); else bitset_clear_range(x, a, b); }
	OP("copy") { if (r) rbitset_copy(u, v, n); else bitset_copy(x, y); }
	OP("and") { if (r) rbitset_and(u, v, n); else bitset_and(x, y); }
	OP("or") { if (r) rbitset_or(u, v, n); else bitset_or(x, y); }
	OP("andnot") { if (r) rbitset_andnot(u, v, n); else bitset_andnot(x, y); }
	OP("xor") { if (r) rbitset_xor(u, v, n); else bitset_xor(x, y); }
	OP("tobitset") { bitset_t *t = bitset_malloc(n); rbitset_copy_to_bitset(u, t); for (size_t i = 0; i < n; ++i) if (bitset_is_set(t, i)) out(i); free(t); }
	OP("isset") out(r ? rbitset_is_set(u, a) : bitset_is_set(x, a));
	OP("popcount") out(r ? rbitset_popcount(u, n) : bitset_popcount(x));
	OP("empty") out(r ? rbitset_is_empty(u, n) : bitset_is_empty(x));
	OP("contains") out(r ? rbitset_contains(u, v, n) : bitset_contains(x, y));
	OP("common") out(r ? rbitsets_have_common(u, v, n) : bitset_intersect(x, y));
	OP("equal") out(r ? rbitsets_equal(u, v, n) : -1);
	OP("nextset") out((long)(r ? rbitset_next_max(u, a, n, true) : bitset_next_set(x, a)));
	OP("nextclr") out((long)(r ? rbitset_next_max(u, a, n, false) : bitset_next_clear(x, a)));
	OP("nextset2") out((long)rbitset_next(u, a, true));
	OP("nextclr2") out((long)rbitset_next(u, a, false));
	OP("nextmax") out((long)rbitset_next_max(u, a, b, true));
	OP("nextmaxclr") out((long)rbitset_next_max(u, a, b, false));
	OP("prevset") out((long)(r ? rbitset_prev(u, a, true) : bitset_prev_set(x, a)));
	OP("prevclr") out((long)(r ? rbitset_prev(u, a, false) : bitset_prev_clear(x, a)));
	OP("each") { if (r) { rbitset_foreach(u, n, e) out(e); } else { bitset_foreach(x, e) out(e); } }
	OP("eachclr") { if (!r) { bitset_foreach_clear(x, e) out(e); } }
	OP("eachrev") { if (!r) { bitset_foreach_rev(x, e) out(e); } }
	OP("dump") dump_bits(s);
#undef OP
}

static void deqop(char const *op, int s, long a, long b)
{
	deq_t *d = &dq[s];
	if (!strcmp(op, "pushl")) for (long i = 0; i < b; ++i) deq_push_pointer_left(d, (void *)(uintptr_t)(a + i));
	else if (!strcmp(op, "pushr")) for (long i = 0; i < b; ++i) deq_push_pointer_right(d, (void *)(uintptr_t)(a + i));
	else if (!strcmp(op, "popl")) for (long i = 0; i < b; ++i) out((long)(uintptr_t)deq_pop_pointer_left(void, d));
	else if (!strcmp(op, "popr")) for (long i = 0; i < b; ++i) out((long)(uintptr_t)deq_pop_pointer_right(void, d));
	else if (!strcmp(op, "empty")) out(deq_empty(d));
	else if (!strcmp(op, "peek")) { out((long)*(uintptr_t *)deq_left_end(d)); out((long)*(uintptr_t *)deq_right_end_obj(d, sizeof(void *))); }
	else if (!strcmp(op, "iter")) { deq_foreach_pointer(d, void, p) out((long)(uintptr_t)p); }
	/* items of a bytes each, every byte derived from the value */
	else if (!strcmp(op, "allocl") || !strcmp(op, "allocr")) {
		unsigned char *p = op[5] == 'l' ? deq_alloc_left(d, P1) : deq_alloc_right(d, P1);
		for (long i = 0; i < P1; ++i) p[i] = (unsigned char)(a + i * 7);
	} else if (!strcmp(op, "takel") || !strcmp(op, "taker")) {
		unsigned char *p = op[4] == 'l' ? deq_left_end(d) : deq_right_end_obj(d, P1);
		bool ok = true;
		for (long i = 0; i < P1; ++i) ok &= p[i] == (unsigned char)(p[0] + i * 7);
		out(ok ? p[0] : -1);
		if (op[4] == 'l') deq_shrink_left(d, P1); else deq_shrink_right(d, P1);
	}
}

static void arrop(char const *op, int s, long a, long b)
{
	int *x = ar[s];
	size_t old = ARR_LEN(x);
	if (!strcmp(op, "app")) ARR_APP1(int, x, (int)a);
	else if (!strcmp(op, "resize")) { ARR_RESIZE(int, x, a); for (size_t i = old; i < (size_t)a; ++i) x[i] = (int)(b + i); }
	else if (!strcmp(op, "setlen")) { ARR_SETLEN(int, x, a); for (size_t i = 0; i < (size_t)a; ++i) x[i] = (int)(b + i); }
	else if (!strcmp(op, "shrink")) ARR_SHRINKLEN(x, a);
	else if (!strcmp(op, "extend")) { ARR_EXTEND(int, x, a); for (size_t i = old; i < old + (size_t)a; ++i) x[i] = (int)(b + i); }
	else if (!strcmp(op, "exto")) { ARR_EXTO(int, x, (size_t)a); for (size_t i = 0; i < ARR_LEN(x); ++i) out(x[i]); }
	else if (!strcmp(op, "put")) x[a] = (int)b;
	else if (!strcmp(op, "dup")) { int *y = DUP_ARR_F(int, ar[b]); DEL_ARR_F(x); x = y; }
	else if (!strcmp(op, "zeros")) { DEL_ARR_F(x); x = NEW_ARR_FZ(int, a); }
	else if (!strcmp(op, "dump")) for (size_t i = 0; i < ARR_LEN(x); ++i) out(x[i]);
	else if (!strcmp(op, "len")) out(ARR_LEN(x));
	ar[s] = x;
}

int main(void)
{
	char line[4096], op[32];
	ir_init_library();
	ir_target_set("x86_64-unknown-linux-gnu");
	ir_target_init();
	set_optimize(0);
	ir_type *mt = new_type_method(0, 0, false, cc_cdecl_set, mtp_no_property);
	ir_entity *ent = new_global_entity(get_glob_type(), new_id_from_str("f"), mt, ir_visibility_external, IR_LINKAGE_DEFAULT);
	irg = new_ir_graph(ent, 0);
	for (long i = 0; i < NNODES; ++i) {
		nodes[i] = new_r_Const_long(irg, mode_Is, i);
		node_key[get_irn_idx(nodes[i])] = (int)i;
	}
	setvbuf(stdout, NULL, _IOFBF, 1 << 16);
	while (fgets(line, sizeof line, stdin)) {
		long s = 0, a = 0, b = 0, c = 0;
		if (line[0] == 'H') {
			finish();
			P0 = P1 = P2 = 0;
			sscanf(line, "H %31s %ld %ld %ld", kind, &P0, &P1, &P2);
			start();
			printf("ok\n");
			continue;
		}
		sscanf(line, "%31s %ld %ld %ld %ld", op, &s, &a, &b, &c);
		if (is("bitset") || is("rbitset")) bits(op, s, a, b);
		else if (is("deq")) deqop(op, s, a, b);
		else if (is("arr")) arrop(op, s, a, b);
		else if (is("pqueue")) {
			if (!strcmp(op, "put")) pqueue_put(pq[s], (void *)(uintptr_t)a, (int)b);
			else if (!strcmp(op, "pop")) out((long)(uintptr_t)pqueue_pop_front(pq[s]));
			else if (!strcmp(op, "len")) { out(pqueue_length(pq[s])); out(pqueue_empty(pq[s])); }
		} else if (is("uf")) {
			if (!strcmp(op, "find")) out(uf_find(uf, a));
			else if (!strcmp(op, "union")) { int x = uf_find(uf, a), y = uf_find(uf, b); out(uf_union(uf, x, y)); }
		} else {
			if (!strcmp(op, "ins")) do_ins(s, a, b);
			else if (!strcmp(op, "hins")) do_hins(s, a, b);
			else if (!strcmp(op, "rep")) out(ir_valueset_replace(&vs[s], key_node(a), val_node(b)));
			else if (!strcmp(op, "get")) do_get(s, a);
			else if (!strcmp(op, "rem")) do_rem(s, a);
			else if (!strcmp(op, "size")) do_size(s);
			else if (!strcmp(op, "iter")) do_iter(s, a, b, c);
			else if (!strcmp(op, "merge")) pset_insert_pset_ptr(ps[s], ps[a]);
		}
		putchar('\n');
		fflush(stdout);
	}
	finish();
	return 0;
}
