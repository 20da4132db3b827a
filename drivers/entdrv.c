/* Histories of identifier, entity and member operations (C05).
 * stdin: "H E" (entities) or "H I" (identifiers), then operations; one line of
 * integers per operation.  Every history works on a fresh program. */
#include <libfirm/firm.h>
#include <stdio.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include "irprog_t.h"
#include "entity_t.h"
#include "type_t.h"
#include "pdeq.h"
#include "pmap.h"

#define NTYPES 6
#define NENT   64
static ir_type *types[NTYPES], *prim, *meth;
static ir_entity *ents[NENT];
static int n_seen, hist;
static pmap *idnum;

static ident *name_id(int k)
{
	if (k == 0) return NULL;
	char b[32];
	snprintf(b, sizeof b, "name%d.%d", k, hist);
	return new_id_from_str(b);
}
static int ent_no(ir_entity const *e)
{
	if (!e) return 0;
	for (int i = 1; i < NENT; ++i) if (ents[i] == e) return i;
	return -1;
}
static int type_no(ir_type const *t)
{
	for (int i = 0; i < NTYPES; ++i) if (types[i] == t) return i;
	return -1;
}
static void setup(void)
{
	for (int i = 1; i < NENT; ++i) if (ents[i]) free_entity(ents[i]);
	memset(ents, 0, sizeof ents);
	for (int t = 3; t < NTYPES; ++t) if (types[t]) free_type(types[t]);
	++hist;         /* fresh names */
	types[0] = get_glob_type();
	types[1] = get_tls_type();
	types[2] = get_segment_type(IR_SEGMENT_CONSTRUCTORS);
	types[3] = new_type_struct(new_id_from_str("S"));
	types[4] = new_type_union(new_id_from_str("U"));
	types[5] = new_type_class(new_id_from_str("C"));
	prim = new_type_primitive(get_modeIs());
	meth = new_type_method(0, 0, 0, 0, mtp_no_property);
}
/* lookups of names 1..n, then for every type its members */
static void observe(int n)
{
	for (int k = 1; k <= n; ++k) printf("%d ", ent_no(ir_get_global(name_id(k))));
	for (int t = 0; t < NTYPES; ++t) {
		if (!types[t]) { printf("-2 "); continue; }
		size_t m = get_compound_n_members(types[t]);
		printf("%d ", (int)m);
		for (size_t i = 0; i < m; ++i) {
			ir_entity *e = get_compound_member(types[t], i);
			int no = ent_no(e);
			/* owner and position must agree with the list */
			if (no > 0 && (get_entity_owner(e) != types[t] || get_compound_member_index(types[t], e) != i)) no = -3;
			printf("%d ", no);
		}
	}
	for (int i = 1; i < NENT; ++i) if (ents[i]) {
		for (int k = 0; k <= n; ++k)
			if ((k == 0 && !entity_has_ld_ident(ents[i])) || (k && entity_has_ld_ident(ents[i]) && get_entity_ld_ident(ents[i]) == name_id(k))) {
				printf("%d %d %d ", i, k, type_no(get_entity_owner(ents[i])));
				for (int t = 0; t < NTYPES; ++t)
					if (types[t] && t != type_no(get_entity_owner(ents[i])) && get_compound_member_index(types[t], ents[i]) != INVALID_MEMBER_INDEX) printf("-4 ");
			}
	}
	printf("\n");
}
static void entity_op(char *line)
{
	char op[16];
	int a = 0, b = 0, c = 0, d = 0, e = 0, n = 0;
	sscanf(line, "%15s %d %d %d %d %d %d", op, &n, &a, &b, &c, &d, &e);
	ir_type *ty = d & 1 ? meth : prim;
	if (!strcmp(op, "new")) {           /* new ent type name kind vis */
		ir_visibility vis = (ir_visibility)e;
		switch (d >> 1) {
		case 0: ents[a] = new_entity(types[b], name_id(c), ty); break;   /* external */
		case 1: ents[a] = new_global_entity(types[b], name_id(c), ty, vis, IR_LINKAGE_DEFAULT); break;
		case 2: ents[a] = new_label_entity(1); break;
		case 3: ents[a] = new_parameter_entity(types[b], 0, prim); break;
		}
	} else if (!strcmp(op, "alias")) {  /* alias ent type name target vis */
		ents[a] = new_alias_entity(types[b], name_id(c), ents[d], get_entity_type(ents[d]), (ir_visibility)e);
	} else if (!strcmp(op, "clone")) {  /* clone ent type name of */
		ents[a] = clone_entity(ents[d], name_id(c), types[b]);
	} else if (!strcmp(op, "free")) {
		free_entity(ents[a]);
		ents[a] = NULL;
	} else if (!strcmp(op, "move")) {
		set_entity_owner(ents[a], types[b]);
	} else if (!strcmp(op, "ren")) {
		set_entity_ld_ident(ents[a], name_id(b));
	} else if (!strcmp(op, "renid")) {
		set_entity_ident(ents[a], name_id(b));
	} else if (!strcmp(op, "vis")) {
		set_entity_visibility(ents[a], (ir_visibility)b);
	} else if (!strcmp(op, "link")) {
		set_entity_linkage(ents[a], (ir_linkage)b);
	} else if (!strcmp(op, "readd")) {
		ir_type *t = get_entity_owner(ents[a]);
		remove_compound_member(t, ents[a]);
		add_compound_member(t, ents[a]);
	} else if (!strcmp(op, "freetype")) {
		for (int i = 1; i < NENT; ++i) if (ents[i] && get_entity_owner(ents[i]) == types[a]) ents[i] = NULL;
		free_type(types[a]);
		types[a] = NULL;
	} else if (!strcmp(op, "newtype")) {
		types[a] = a == 3 ? new_type_struct(new_id_from_str("S")) : a == 4 ? new_type_union(NULL) : new_type_class(new_id_from_str("C"));
	} else if (!strcmp(op, "gc")) {
		garbage_collect_entities();
		/* forget what is gone from the segments */
		for (int i = 1; i < NENT; ++i) if (ents[i]) {
			int found = 0;
			for (int t = 0; t < NTYPES; ++t) if (types[t]) for (size_t k = get_compound_n_members(types[t]); k-- > 0;) found |= get_compound_member(types[t], k) == ents[i];
			if (!found) ents[i] = NULL;
		}
	}
	observe(n);
}

static int id_no(ident *id)
{
	void *v = pmap_get(void, idnum, id);
	if (v) return (int)(intptr_t)v;
	pmap_insert(idnum, id, (void *)(intptr_t)++n_seen);
	return n_seen;
}
static void put_id(ident *id)
{
	printf("%d ", id_no(id));
	char const *s = get_id_str(id);
	for (; *s; ++s) printf("%d ", (unsigned char)*s);
	printf("\n");
}
/* bytes are given as hex */
static char *unhex(char *s)
{
	static char bufs[4][1 << 16];
	static int k;
	char *o = bufs[k = (k + 1) & 3], *r = o;
	unsigned v;
	if (*s != '-') for (; s[0] && s[1]; s += 2) { sscanf(s, "%2x", &v); *o++ = v; }
	*o = 0;
	return r;
}
static void ident_op(char *line)
{
	char *op = strtok(line, " \n"), *a = strtok(NULL, " \n"), *b = strtok(NULL, " \n"), *c = strtok(NULL, " \n");
	if (!strcmp(op, "str")) put_id(new_id_from_str(unhex(a)));
	else if (!strcmp(op, "chars")) {    /* the range a[b..c) */
		char *t = unhex(a);
		put_id(new_id_from_chars(t + atoi(b), atoi(c) - atoi(b)));
	} else if (!strcmp(op, "uniq")) put_id(id_unique(unhex(a)));
	else if (!strcmp(op, "fs")) put_id(new_id_fmt("%s", unhex(a)));
	else if (!strcmp(op, "fss")) put_id(new_id_fmt("%s.%s", unhex(a), unhex(b)));
	else if (!strcmp(op, "fsd")) put_id(new_id_fmt("%s_%d%%", unhex(a), atoi(b)));
	else if (!strcmp(op, "fu")) put_id(new_id_fmt("L%u", (unsigned)strtoul(a, NULL, 10)));
	else if (!strcmp(op, "fc")) put_id(new_id_fmt("%c%s", atoi(a), unhex(b)));
}

int main(void)
{
	static char line[1 << 17];
	setvbuf(stdout, NULL, _IOFBF, 1 << 16);
	ir_init_library();
	ir_target_set("x86_64-unknown-linux-gnu");
	ir_target_init();
	idnum = pmap_create();
	int kind = 0;
	while (fgets(line, sizeof line, stdin)) {
		if (line[0] == 'H') {
			kind = line[2];
			fflush(stdout);
			if (kind == 'E') setup();
			printf("ok\n");
		} else if (kind == 'E') entity_op(line);
		else ident_op(line);
	}
	fflush(stdout);
	return 0;
}
