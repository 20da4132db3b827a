/* Histories of class hierarchies and layouts of compound types (C27).
 * stdin: "H", then operations; one JSON record per operation. */
#include <libfirm/firm.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "type_t.h"
#include "entity_t.h"
#include "irprog_t.h"

#define N 13
static ir_type *cls[N];
static ir_entity *ent[N];
static int hist;
static ir_type *ptr[N], *prim;
static int cno(ir_type const *t) { for (int i = 1; i < N; ++i) if (cls[i] == t) return i; return -1; }
static int eno(ir_entity const *e) { for (int i = 1; i < N; ++i) if (ent[i] == e) return i; return -1; }
static bool first;
static void sep(void) { if (!first) putchar(','); first = false; }
static void pair(int a, int b) { sep(); printf("[%d,%d]", a, b); }
static void key(char const *k) { printf(",\"%s\":[", k); first = true; }
static void endkey(void) { putchar(']'); }
static void walk(ir_type *t, void *env) { (void)env; sep(); printf("%d", cno(t)); }

static void observe(void)
{
	inh_transitive_closure_state st = get_irp_inh_transitive_closure_state();
	printf("{\"st\":%d", (int)st);
	key("sub"); for (int i = 1; i < N; ++i) if (cls[i]) for (size_t k = 0; k < get_class_n_subtypes(cls[i]); ++k) {
		ir_type *s = get_class_subtype(cls[i], k);
		pair(i, get_class_subtype_index(cls[i], s) <= k ? cno(s) : -2);
	} endkey();
	key("sup"); for (int i = 1; i < N; ++i) if (cls[i]) for (size_t k = 0; k < get_class_n_supertypes(cls[i]); ++k) {
		ir_type *s = get_class_supertype(cls[i], k);
		pair(i, get_class_supertype_index(cls[i], s) <= k ? cno(s) : -2);
	} endkey();
	key("ovs"); for (int i = 1; i < N; ++i) if (ent[i]) for (size_t k = 0; k < get_entity_n_overwrites(ent[i]); ++k) {
		ir_entity *s = get_entity_overwrites(ent[i], k);
		pair(i, get_entity_overwrites_index(ent[i], s) <= k ? eno(s) : -2);
	} endkey();
	key("ovb"); for (int i = 1; i < N; ++i) if (ent[i]) for (size_t k = 0; k < get_entity_n_overwrittenby(ent[i]); ++k) {
		ir_entity *s = get_entity_overwrittenby(ent[i], k);
		pair(i, get_entity_overwrittenby_index(ent[i], s) <= k ? eno(s) : -2);
	} endkey();
	key("is"); for (int i = 1; i < N; ++i) for (int j = 1; j < N; ++j) if (cls[i] && cls[j]) {
		ir_type *p = ptr[i], *q = ptr[j];
		int r = is_SubClass_of(cls[i], cls[j]);
		int bad = r != is_SubClass_ptr_of(p, q) || r != is_SubClass_ptr_of(cls[i], cls[j]) || is_SubClass_ptr_of(p, cls[j]);
		if (r || bad) pair(i, bad ? -2 : j);
	} endkey();
	key("isov"); for (int i = 1; i < N; ++i) for (int j = 1; j < N; ++j) if (ent[i] && ent[j] && is_overwritten_by(ent[i], ent[j])) pair(i, j); endkey();
	key("res"); for (int i = 1; i < N; ++i) for (int j = 1; j < N; ++j) if (ent[i] && cls[j] && is_SubClass_of(cls[j], get_entity_owner(ent[i]))) {
		sep(); printf("[%d,%d,%d]", i, j, eno(resolve_ent_polymorphy(cls[j], ent[i])));
	} endkey();
	bool c = st != inh_transitive_closure_none;
	key("ts"); if (c) for (int i = 1; i < N; ++i) if (cls[i]) for (ir_type *t = get_class_trans_subtype_first(cls[i]); t; t = get_class_trans_subtype_next(cls[i])) pair(i, cno(t)); endkey();
	key("its"); if (c) for (int i = 1; i < N; ++i) for (int j = 1; j < N; ++j) if (cls[i] && cls[j] && is_class_trans_subtype(cls[i], cls[j])) pair(i, j); endkey();
	key("tp"); if (c) for (int i = 1; i < N; ++i) if (cls[i]) for (ir_type *t = get_class_trans_supertype_first(cls[i]); t; t = get_class_trans_supertype_next(cls[i])) pair(i, cno(t)); endkey();
	key("tb"); if (c) for (int i = 1; i < N; ++i) if (ent[i]) for (ir_entity *t = get_entity_trans_overwrittenby_first(ent[i]); t; t = get_entity_trans_overwrittenby_next(ent[i])) pair(i, eno(t)); endkey();
	key("to"); if (c) for (int i = 1; i < N; ++i) if (ent[i]) for (ir_entity *t = get_entity_trans_overwrites_first(ent[i]); t; t = get_entity_trans_overwrites_next(ent[i])) pair(i, eno(t)); endkey();
	key("walk"); class_walk_super2sub(walk, NULL, NULL); endkey();
	key("post"); class_walk_super2sub(NULL, walk, NULL); endkey();
	printf("}\n");
}

/* type expressions, prefix notation */
static char *tok(void) { return strtok(NULL, " \n"); }
static ir_type *build(void)
{
	char *t = tok();
	if (t[0] == 'p') {
		static ir_mode *m[12];
		if (!m[0]) {
			m[0] = mode_Bs; m[1] = mode_Hu; m[2] = mode_Is; m[3] = mode_Lu; m[4] = mode_F; m[5] = mode_D; m[6] = mode_P;
			m[7] = new_int_mode("i24", 24, 1, 32); m[8] = new_int_mode("i48", 48, 0, 64); m[9] = new_int_mode("i96", 96, 1, 128); m[10] = new_int_mode("i128", 128, 0, 128);
			m[11] = new_float_mode("x87", irma_x86_extended_float, 15, 64, ir_overflow_indefinite);
		}
		ir_type *r = new_type_primitive(m[atoi(t + 1)]);
		char *c = strchr(t, '@');
		if (c) set_type_alignment(r, atoi(c + 1));
		return r;
	}
	if (t[0] == 'P') return new_type_pointer(get_unknown_type());
	if (t[0] == 'm') return new_type_method(0, 0, 0, 0, mtp_no_property);
	int n = atoi(t + 1);
	if (t[0] == 'a') { ir_type *e = build(); return new_type_array(e, n); }
	ident *id = new_id_fmt("t%d", hist++);
	ir_type *r = t[0] == 's' ? new_type_struct(id) : t[0] == 'u' ? new_type_union(id) : new_type_class(id);
	for (int i = 0; i < n; ++i) { ir_type *mt = build(); new_entity(r, new_id_fmt("m%d", i), mt); }
	default_layout_compound_type(r);
	return r;
}
static void report(ir_type *t)
{
	printf("{\"k\":\"%c\",\"size\":%u,\"align\":%u,\"n\":%u,\"bits\":%u,\"fix\":%d", is_Primitive_type(t) ? 'p' : is_Pointer_type(t) ? 'P' : is_Method_type(t) ? 'm' : is_Array_type(t) ? 'a'
	       : is_Struct_type(t) ? 's' : is_Union_type(t) ? 'u' : 'c', is_Method_type(t) ? 0 : get_type_size(t), is_Method_type(t) ? 1 : get_type_alignment(t),
	       is_Array_type(t) ? get_array_size(t) : is_compound_type(t) ? (unsigned)get_compound_n_members(t) : 0,
	       is_atomic_type(t) ? get_mode_size_bits(get_type_mode(t)) : 0, get_type_state(t) == layout_fixed);
	printf(",\"e\":[");
	if (is_Array_type(t)) report(get_array_element_type(t));
	if (is_compound_type(t)) for (size_t i = 0; i < get_compound_n_members(t); ++i) { if (i) putchar(','); report(get_entity_type(get_compound_member(t, i))); }
	printf("],\"off\":[");
	if (is_compound_type(t)) for (size_t i = 0; i < get_compound_n_members(t); ++i) {
		ir_entity *e = get_compound_member(t, i);
		printf("%s%d", i ? "," : "", is_method_entity(e) ? 0 : get_entity_offset(e));
	}
	printf("]}");
}

int main(int argc, char **argv)
{
	static char line[1 << 16];
	ir_init_library();
	ir_target_set(argc > 1 ? argv[1] : "x86_64-unknown-linux-gnu");
	ir_target_init();
	while (fgets(line, sizeof line, stdin)) {
		if (line[0] == 'H') {
			free_inh_transitive_closure();
			for (int i = 1; i < N; ++i) ent[i] = NULL;
			for (int i = 1; i < N; ++i) if (cls[i]) { free_type(ptr[i]); free_type(cls[i]); cls[i] = NULL; }
			fflush(stdout);
			printf("{}\n");
			continue;
		}
		if (line[0] == 'L') {
			strtok(line, " \n");
			ir_type *t = build();
			report(t); printf("\n");
			continue;
		}
		char op[16]; int a = 0, b = 0;
		sscanf(line, "%15s %d %d", op, &a, &b);
		if (!strcmp(op, "cls")) { cls[a] = new_type_class(new_id_fmt("c%d", hist++)); ptr[a] = new_type_pointer(cls[a]); }
		else if (!strcmp(op, "sub")) add_class_subtype(cls[a], cls[b]);
		else if (!strcmp(op, "sup")) add_class_supertype(cls[b], cls[a]);
		else if (!strcmp(op, "rm")) { remove_class_subtype(cls[a], cls[b]); remove_class_supertype(cls[b], cls[a]); }
		else if (!strcmp(op, "free")) { free_type(ptr[a]); free_type(cls[a]); cls[a] = NULL; }
		else if (!strcmp(op, "ent")) ent[a] = new_entity(cls[b], new_id_fmt("e%d", hist++), prim ? prim : (prim = new_type_primitive(mode_Is)));
		else if (!strcmp(op, "ov")) add_entity_overwrites(ent[a], ent[b]);
		else if (!strcmp(op, "rmov")) { remove_entity_overwrites(ent[a], ent[b]); remove_entity_overwrittenby(ent[b], ent[a]); }
		else if (!strcmp(op, "comp")) compute_inh_transitive_closure();
		else if (!strcmp(op, "inval")) invalidate_irp_inh_transitive_closure_state();
		else if (!strcmp(op, "drop")) free_inh_transitive_closure();
		/* "Adding a new type/entity or changing the basic relations invalidates the closure": it is up to the user to say so */
		if (strcmp(op, "comp") && strcmp(op, "drop") && strcmp(op, "cls") && strcmp(op, "free") && strcmp(op, "ent")) invalidate_irp_inh_transitive_closure_state();
		observe();
	}
	return 0;
}
