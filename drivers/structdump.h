/* Complete structural image of the program: types, entities, initialisers, graphs, numbered in the order in which they
 * are met from the roots (segments, graphs, the operands of End), hence independent of addresses and node numbers. */
static ir_type **st; static pmap *stidx;      /* types */
static ir_entity **se; static pmap *seidx;    /* entities */
static ir_node **sn; static pmap *snidx;      /* nodes of the current graph */

static int s_align;   /* with the alignment of entities, too */
static int s_type(ir_type *t)
{
	if (t == NULL) return -1;
	void *p = pmap_get(void, stidx, t);
	if (p) return (int)(intptr_t)p - 1;
	ARR_APP1(ir_type*, st, t);
	pmap_insert(stidx, t, (void*)(intptr_t)ARR_LEN(st));
	return ARR_LEN(st) - 1;
}
static int s_ent(ir_entity *e)
{
	if (e == NULL) return -1;
	void *p = pmap_get(void, seidx, e);
	if (p) return (int)(intptr_t)p - 1;
	ARR_APP1(ir_entity*, se, e);
	pmap_insert(seidx, e, (void*)(intptr_t)ARR_LEN(se));
	return ARR_LEN(se) - 1;
}
static int s_node(ir_node *n)
{
	void *p = pmap_get(void, snidx, n);
	if (p) return (int)(intptr_t)p - 1;
	ARR_APP1(ir_node*, sn, n);
	pmap_insert(snidx, n, (void*)(intptr_t)ARR_LEN(sn));
	return ARR_LEN(sn) - 1;
}
static void s_id(FILE *f, ident *i) { if (i == NULL) fputs("\"(none)\"", f); else put_str(f, get_id_str(i)); }
static void s_mode(FILE *f, ir_mode *m)
{
	if (m == NULL) { fputs("\"(none)\"", f); return; }
	bool in = mode_is_int(m) || mode_is_reference(m), fl = mode_is_float(m);
	fprintf(f, "\"%s/%d/%u/%d/%u/%u/%u/%u/%s\"", get_mode_name(m), in || fl ? (int)get_mode_arithmetic(m) : -1, in || fl ? get_mode_size_bits(m) : 0,
	        in ? mode_is_signed(m) : 0, in ? get_mode_modulo_shift(m) : 0, fl ? get_mode_exponent_size(m) : 0, fl ? get_mode_mantissa_size(m) : 0,
	        fl ? get_mode_float_int_overflow(m) : 0, mode_is_reference(m) ? get_mode_name(get_reference_offset_mode(m)) : "");
}
static void s_tv(FILE *f, ir_tarval *tv)
{
	if (tv == NULL) { fputs("\"(none)\"", f); return; }
	fputc('[', f); s_mode(f, get_tarval_mode(tv)); fputc(',', f);
	put_tv(f, tv);
	fputc(']', f);
}
static void s_expr(FILE *f, ir_node *n)        /* nodes of constant expressions, as trees */
{
	fprintf(f, "[\"%s\",", get_op_name(get_irn_op(n)));
	s_mode(f, get_irn_mode(n));
	switch (get_irn_opcode(n)) {
	case iro_Const: fputc(',', f); s_tv(f, get_Const_tarval(n)); break;
	case iro_Address: fprintf(f, ",%d", s_ent(get_Address_entity(n))); break;
	case iro_Offset: fprintf(f, ",%d", s_ent(get_Offset_entity(n))); break;
	case iro_Size: fprintf(f, ",%d", s_type(get_Size_type(n))); break;
	case iro_Align: fprintf(f, ",%d", s_type(get_Align_type(n))); break;
	case iro_Member: fprintf(f, ",%d", s_ent(get_Member_entity(n))); break;
	case iro_Sel: fprintf(f, ",%d", s_type(get_Sel_type(n))); break;
	default: break;
	}
	for (int i = 0; i < get_irn_arity(n); ++i) { fputc(',', f); s_expr(f, get_irn_n(n, i)); }
	fputc(']', f);
}
static void s_init(FILE *f, ir_initializer_t *in)
{
	switch (get_initializer_kind(in)) {
	case IR_INITIALIZER_NULL: fputs("[\"null\"]", f); break;
	case IR_INITIALIZER_TARVAL: fputs("[\"tarval\",", f); s_tv(f, get_initializer_tarval_value(in)); fputc(']', f); break;
	case IR_INITIALIZER_CONST: fputs("[\"const\",", f); s_expr(f, get_initializer_const_value(in)); fputc(']', f); break;
	case IR_INITIALIZER_COMPOUND:
		fputs("[\"compound\"", f);
		for (size_t i = 0, n = get_initializer_compound_n_entries(in); i < n; ++i) { fputc(',', f); s_init(f, get_initializer_compound_value(in, i)); }
		fputc(']', f);
		break;
	}
}
static int by_name(const void *a, const void *b)
{
	ir_entity *x = *(ir_entity *const *)a, *y = *(ir_entity *const *)b;
	return strcmp(get_entity_name(x), get_entity_name(y));
}
static void s_put_type(FILE *f, ir_type *t)
{
	fprintf(f, "[\"%s\",%u,%u,\"%s\",%u,", get_type_opcode_name(get_type_opcode(t)), get_type_size(t), get_type_alignment(t),
	        get_type_state_name(get_type_state(t)), (unsigned)t->flags);
	s_mode(f, is_atomic_type(t) ? get_type_mode(t) : NULL);
	switch (get_type_opcode(t)) {
	case tpo_class: case tpo_struct: case tpo_union: case tpo_segment:
		fputc(',', f); s_id(f, get_compound_ident(t)); fputs(",[", f);
	{
		/* the order of the members of a segment means nothing: by name */
		size_t n = get_compound_n_members(t);
		ir_entity **ms = malloc((n + 1) * sizeof *ms);
		for (size_t i = 0; i < n; ++i) ms[i] = get_compound_member(t, i);
		if (is_segment_type(t) && !is_frame_type(t)) qsort(ms, n, sizeof *ms, by_name);
		for (size_t i = 0; i < n; ++i) fprintf(f, "%s%d", i ? "," : "", s_ent(ms[i]));
		free(ms);
	}
		fputc(']', f);
		break;
	case tpo_array: fprintf(f, ",%d,%u", s_type(get_array_element_type(t)), get_array_size(t)); break;
	case tpo_pointer: fprintf(f, ",%d", s_type(get_pointer_points_to_type(t))); break;
	case tpo_method:
		fprintf(f, ",%u,%u,%d,[", get_method_calling_convention(t), (unsigned)get_method_additional_properties(t), is_method_variadic(t));
		for (size_t i = 0, n = get_method_n_params(t); i < n; ++i) fprintf(f, "%s%d", i ? "," : "", s_type(get_method_param_type(t, i)));
		fputs("],[", f);
		for (size_t i = 0, n = get_method_n_ress(t); i < n; ++i) fprintf(f, "%s%d", i ? "," : "", s_type(get_method_res_type(t, i)));
		fputc(']', f);
		break;
	default: break;
	}
	fputc(']', f);
}
static void s_put_ent(FILE *f, ir_entity *e)
{
	ir_type *ow = get_entity_owner(e);
	fprintf(f, "[%d,", (int)e->kind);
	if (e->kind == IR_ENTITY_LABEL || e->kind == IR_ENTITY_UNKNOWN) { fputs("0]", f); return; }
	if (e->kind == IR_ENTITY_PARAMETER) fputs("\"\",\"\",", f);
	else {
		s_id(f, get_entity_ident(e)); fputc(',', f);
		s_id(f, entity_has_ld_ident(e) ? get_entity_ld_ident(e) : NULL); fputc(',', f);
	}
	fprintf(f, "%d,%d,%d,%u,\"%s\"", s_type(get_entity_type(e)), s_type(ow), (int)get_entity_visibility(e),
	        (unsigned)get_entity_linkage(e), get_volatility_name(get_entity_volatility(e)));
	if (s_align) fprintf(f, ",%u", get_entity_alignment(e));
	switch ((ir_entity_kind)e->kind) {
	case IR_ENTITY_ALIAS: fprintf(f, ",%d", s_ent(get_entity_alias(e))); break;
	case IR_ENTITY_NORMAL:
		fputc(',', f);
		if (get_entity_initializer(e) != NULL) s_init(f, get_entity_initializer(e)); else fputs("[]", f);
		break;
	case IR_ENTITY_METHOD: fprintf(f, ",%u,%d", (unsigned)get_entity_additional_properties(e), get_entity_irg(e) != NULL); break;
	case IR_ENTITY_PARAMETER: fprintf(f, ",%d", (int)get_entity_parameter_number(e));   /* FALLTHROUGH */
	case IR_ENTITY_COMPOUND_MEMBER: fprintf(f, ",%d,%u,%u", get_entity_offset(e), get_entity_bitfield_offset(e), get_entity_bitfield_size(e)); break;
	default: break;
	}
	fputc(']', f);
}
static void s_put_node(FILE *f, ir_node *n)
{
	fprintf(f, "[\"%s\",", get_op_name(get_irn_op(n)));
	s_mode(f, get_irn_mode(n));
	fprintf(f, ",%d,[", is_Block(n) ? -1 : s_node(get_nodes_block(n)));
	for (int i = 0; i < get_irn_arity(n); ++i) fprintf(f, "%s%d", i ? "," : "", s_node(get_irn_n(n, i)));
	fprintf(f, "],%d", is_Block(n) || is_Proj(n) || is_End(n) ? 0 : (int)get_irn_pinned(n));
	fprintf(f, ",%d", is_fragile_op(n) ? ir_throws_exception(n) : 0);
	switch (get_irn_opcode(n)) {
	case iro_Const: fputc(',', f); s_tv(f, get_Const_tarval(n)); break;
	case iro_Address: fprintf(f, ",%d", s_ent(get_Address_entity(n))); break;
	case iro_Offset: fprintf(f, ",%d", s_ent(get_Offset_entity(n))); break;
	case iro_Size: fprintf(f, ",%d", s_type(get_Size_type(n))); break;
	case iro_Align: fprintf(f, ",%d", s_type(get_Align_type(n))); break;
	case iro_Member: fprintf(f, ",%d", s_ent(get_Member_entity(n))); break;
	case iro_Sel: fprintf(f, ",%d", s_type(get_Sel_type(n))); break;
	case iro_Load: fputc(',', f); s_mode(f, get_Load_mode(n)); fprintf(f, ",%d,%d,%d", s_type(get_Load_type(n)), (int)get_Load_volatility(n), (int)get_Load_unaligned(n)); break;
	case iro_Store: fprintf(f, ",%d,%d,%d", s_type(get_Store_type(n)), (int)get_Store_volatility(n), (int)get_Store_unaligned(n)); break;
	case iro_CopyB: fprintf(f, ",%d,%d", s_type(get_CopyB_type(n)), (int)get_CopyB_volatility(n)); break;
	case iro_Alloc: fprintf(f, ",%u", get_Alloc_alignment(n)); break;
	case iro_Div: fputc(',', f); s_mode(f, get_Div_resmode(n)); fprintf(f, ",%d", get_Div_no_remainder(n)); break;
	case iro_Mod: fputc(',', f); s_mode(f, get_Mod_resmode(n)); break;
	case iro_Cmp: fprintf(f, ",%d", (int)get_Cmp_relation(n)); break;
	case iro_Cond: fprintf(f, ",%d", (int)get_Cond_jmp_pred(n)); break;
	case iro_Confirm: fprintf(f, ",%d", (int)get_Confirm_relation(n)); break;
	case iro_Proj: fprintf(f, ",%u", get_Proj_num(n)); break;
	case iro_Phi: fprintf(f, ",%d", get_Phi_loop(n)); break;
	case iro_Block: fprintf(f, ",%d", s_ent(get_Block_entity(n))); break;
	case iro_Builtin: fprintf(f, ",%d,%d", (int)get_Builtin_kind(n), s_type(get_Builtin_type(n))); break;
	case iro_Call: fprintf(f, ",%d", s_type(get_Call_type(n))); break;
	case iro_Switch: {
		ir_switch_table *t = get_Switch_table(n);
		fprintf(f, ",%u,[", get_Switch_n_outs(n));
		bool first = true;
		for (size_t i = 0, k = ir_switch_table_get_n_entries(t); i < k; ++i) {
			if (!first) fputc(',', f);
			first = false;
			fputc('[', f); s_tv(f, ir_switch_table_get_min(t, i)); fputc(',', f); s_tv(f, ir_switch_table_get_max(t, i));
			fprintf(f, ",%u]", ir_switch_table_get_pn(t, i));
		}
		fputc(']', f);
		break;
	}
	default: break;
	}
	fputc(']', f);
}

static void struct_dump(const char *tag, const char *file)
{
	st = NEW_ARR_F(ir_type*, 0); stidx = pmap_create();
	se = NEW_ARR_F(ir_entity*, 0); seidx = pmap_create();
	fprintf(out, "{\"id\":%d,\"tag\":\"struct\",\"op\":\"%s\",\"file\":\"%s\",\"image\":{\"segs\":[", prog_id, tag, file);
	for (int s = IR_SEGMENT_FIRST; s <= IR_SEGMENT_LAST; ++s) fprintf(out, "%s%d", s > IR_SEGMENT_FIRST ? "," : "", s_type(get_segment_type((ir_segment_t)s)));
	fprintf(out, "],\"name\":");
	if (irp_prog_name_is_set()) s_id(out, get_irp_ident()); else fputs("\"(none)\"", out);
	fprintf(out, ",\"asms\":[");
	for (size_t i = 0; i < get_irp_n_asms(); ++i) { if (i) fputc(',', out); s_id(out, get_irp_asm(i)); }
	fprintf(out, "],\"graphs\":[");
	bool first = true;
	foreach_irp_irg(g, irg) {
		fprintf(out, "%s[%d,%d,[", first ? "" : ",", s_ent(get_irg_entity(irg)), s_type(get_irg_frame_type(irg)));
		first = false;
		sn = NEW_ARR_F(ir_node*, 0); snidx = pmap_create();
		s_node(get_irg_end(irg)); s_node(get_irg_end_block(irg)); s_node(get_irg_start(irg)); s_node(get_irg_start_block(irg));
		s_node(get_irg_initial_mem(irg)); s_node(get_irg_args(irg)); s_node(get_irg_frame(irg)); s_node(get_irg_no_mem(irg));
		for (size_t i = 0; i < ARR_LEN(sn); ++i) { if (i) fputc(',', out); s_put_node(out, sn[i]); }
		fprintf(out, "]]");
		pmap_destroy(snidx); DEL_ARR_F(sn);
	}
	/* the modes */
	fprintf(out, "],\"modes\":[");
	for (size_t i = 0; i < ir_get_n_modes(); ++i) { if (i) fputc(',', out); s_mode(out, ir_get_mode(i)); }
	/* entities and types met so far, and what they refer to */
	char *tb, *eb; size_t tl, el;
	FILE *tf = open_memstream(&tb, &tl), *ef = open_memstream(&eb, &el);
	size_t ti = 0, ei = 0;
	while (ti < ARR_LEN(st) || ei < ARR_LEN(se)) {
		while (ti < ARR_LEN(st)) { if (ti) fputc(',', tf); s_put_type(tf, st[ti++]); }
		while (ei < ARR_LEN(se)) { if (ei) fputc(',', ef); s_put_ent(ef, se[ei++]); }
	}
	/* types nothing refers to (creating a mode creates an anonymous primitive type, again when it is read: not counted) */
	size_t met = ARR_LEN(st);
	for (size_t i = 0; i < get_irp_n_types(); ++i) if (!is_Primitive_type(get_irp_type(i))) s_type(get_irp_type(i));
	while (ti < ARR_LEN(st) || ei < ARR_LEN(se)) {
		while (ti < ARR_LEN(st)) { if (ti) fputc(',', tf); s_put_type(tf, st[ti++]); }
		while (ei < ARR_LEN(se)) { if (ei) fputc(',', ef); s_put_ent(ef, se[ei++]); }
	}
	fclose(tf); fclose(ef);
	fprintf(out, "],\"types\":[%s],\"ents\":[%s],\"met\":%d}}\n", tb, eb, (int)met);
	free(tb); free(eb);
	pmap_destroy(stidx); pmap_destroy(seidx); DEL_ARR_F(st); DEL_ARR_F(se);
}

/* ---- adds everything a program can contain besides code: types of all kinds, entities with unusual names, linkage,
 * visibility, volatility, offsets, initialisers (values of all modes, null, compound, constant expressions), aliases */
static unsigned drnd; 
static unsigned D(unsigned n) { drnd ^= drnd << 13; drnd ^= drnd >> 17; drnd ^= drnd << 5; return (drnd >> 4) % n; }
static ident *d_name(int k)
{
	static const char *const pieces[] = { "x", "\"", "\\", " ", "a b", "$", ".L", "\n", "\t", "0", "type", "NULL", "}", "{", "]", "#", "\xc3\xa9", "'", "%s", "\\n" };
	char b[200] = "";
	for (int i = 0, n = 1 + D(5); i < n; ++i) strcat(b, pieces[D(sizeof pieces / sizeof *pieces)]);
	char c[220];
	snprintf(c, sizeof c, "%s_%d", b, k);
	return new_id_from_str(c);
}
static ir_tarval *d_tv(ir_mode *m)
{
	if (mode_is_float(m)) {
		switch (D(8)) {
		case 0: return get_mode_infinite(m);
		case 1: return tarval_neg(get_mode_null(m));
		case 2: return new_tarval_from_str("nan", 3, m);
		case 3: return get_mode_max(m);
		case 4: return new_tarval_from_str("0.1", 3, m);
		case 5: return new_tarval_from_str("-1.5e-40", 8, m);
		default: return new_tarval_from_double(D(1000) / 7.0, m);
		}
	}
	switch (D(5)) {
	case 0: return get_mode_min(m);
	case 1: return get_mode_max(m);
	case 2: return get_mode_all_one(m);
	default: {
		unsigned char b[16];
		for (int i = 0; i < 16; ++i) b[i] = D(256);
		return tarval_convert_to(new_tarval_from_bytes(b, mode_Lu), m); }
	}
}
static ir_type *dty[400]; static int ndty;
static ir_initializer_t *d_init(ir_type *t, int depth)
{
	if (D(6) == 0) return get_initializer_null();
	if (is_Array_type(t)) {
		unsigned n = get_array_size(t);
		ir_initializer_t *r = create_initializer_compound(n);
		for (unsigned i = 0; i < n; ++i) set_initializer_compound_value(r, i, d_init(get_array_element_type(t), depth + 1));
		return r;
	}
	if (is_compound_type(t)) {
		unsigned n = get_compound_n_members(t);
		ir_initializer_t *r = create_initializer_compound(n);
		for (unsigned i = 0; i < n; ++i) set_initializer_compound_value(r, i, d_init(get_entity_type(get_compound_member(t, i)), depth + 1));
		return r;
	}
	ir_mode *m = get_type_mode(t);
	if (m == NULL) return get_initializer_null();
	if (mode_is_reference(m)) {
		ir_graph *cc = get_const_code_irg();
		ir_type *g = get_segment_type(IR_SEGMENT_GLOBAL);
		size_t n = get_compound_n_members(g);
		if (n == 0) return create_initializer_tarval(get_mode_null(m));
		ir_node *a = new_r_Address(cc, get_compound_member(g, D(n)));
		if (D(2)) a = new_r_Add(get_irg_start_block(cc), a, new_r_Const_long(cc, get_reference_offset_mode(m), D(100)));
		return create_initializer_const(a);
	}
	if (D(4) == 0) {
		ir_graph *cc = get_const_code_irg();
		if (mode_is_int(m) && D(2)) {
			ir_type *x = dty[D(ndty)];
			return create_initializer_const(D(2) ? new_r_Size(cc, m, x) : new_r_Align(cc, m, x));
		}
		return create_initializer_const(new_r_Const(cc, d_tv(m)));
	}
	return create_initializer_tarval(d_tv(m));
}
static ir_visibility d_vis(bool def)
{
	ir_visibility v[] = { ir_visibility_external, ir_visibility_external_private, ir_visibility_external_protected, ir_visibility_local, ir_visibility_private };
	return def ? v[D(5)] : v[D(3)];
}
static void decorate(unsigned seed)
{
	drnd = seed * 2654435761u + 1; ndty = 0;
	for (int i = 0; i < 5; ++i) D(2);
	if (D(2)) { char b[30]; snprintf(b, sizeof b, "prog \"%u\"", D(100)); set_irp_prog_name(new_id_from_str(b)); }
	for (int i = 0, n = D(3); i < n; ++i) add_irp_asm(d_name(1000 + i));
	ir_mode *ms[20]; int nm = 0;
	ms[nm++] = mode_Bs; ms[nm++] = mode_Bu; ms[nm++] = mode_Hs; ms[nm++] = mode_Is; ms[nm++] = mode_Iu; ms[nm++] = mode_Ls; ms[nm++] = mode_Lu; ms[nm++] = mode_F; ms[nm++] = mode_D; ms[nm++] = mode_P;
	if (D(2)) { char b[20]; snprintf(b, sizeof b, "odd int%u", D(50)); ms[nm++] = new_int_mode(b, 8 * (1 + D(12)), D(2), D(2) ? 32 : 0); }
	unsigned dexp = 3 + D(8);
	if (D(2)) { ms[nm++] = new_float_mode("odd float", irma_ieee754, dexp, 8 * (2 + D(4)) - 1 - dexp, D(2) ? ir_overflow_indefinite : ir_overflow_min_max); }
	for (int i = 0; i < nm; ++i) dty[ndty++] = new_type_primitive(ms[i]);
	ir_type *glob = get_segment_type(IR_SEGMENT_GLOBAL);
	for (int i = 0, n = 4 + D(10); i < n; ++i) {
		switch (D(7)) {
		case 0: dty[ndty++] = new_type_pointer(dty[D(ndty)]); break;
		case 1: {
			ir_type *e = dty[D(ndty)];
			if (get_type_state(e) != layout_fixed || get_type_size(e) > 100 || is_Method_type(e)) break;
			ir_type *a = new_type_array(e, 1 + D(5)); set_type_size(a, get_array_size(a) * get_type_size(e)); set_type_alignment(a, get_type_alignment(e)); set_type_state(a, layout_fixed);
			dty[ndty++] = a; break; }
		case 2: case 3: case 4: {
			ident *id = D(4) ? d_name(100 + i) : NULL;
			int k = D(3);
			ir_type *c = k == 0 ? new_type_class(id) : k == 1 ? new_type_union(id) : new_type_struct(id);
			unsigned off = 0, al = 1;
			for (int j = 0, m = D(5); j < m; ++j) {
				ir_type *mt = dty[D(ndty)];
				if (get_type_state(mt) != layout_fixed || get_type_size(mt) > 200 || is_Method_type(mt)) continue;
				ir_entity *me = new_entity(c, D(5) ? d_name(10000 + j) : new_id_from_str("same"), mt);
				unsigned a = get_type_alignment(mt);
				if (a == 0) a = 1;
				if (k != 1) off = (off + a - 1) / a * a;
				set_entity_offset(me, k == 1 ? 0 : off);
				if (get_type_mode(mt) && mode_is_int(get_type_mode(mt)) && !D(4)) { set_entity_bitfield_offset(me, D(7)); set_entity_bitfield_size(me, 1 + D(5)); }
				if (D(6) == 0) set_entity_volatility(me, volatility_is_volatile);
				unsigned e = get_type_size(mt);
				if (k == 1) { if (e > off) off = e; } else off += e;
				if (a > al) al = a;
			}
			set_type_size(c, off + D(3) * al); set_type_alignment(c, al);
			if (D(5)) set_type_state(c, layout_fixed);
			dty[ndty++] = c; break; }
		default: {
			int np = D(4), nr = D(2);
			ir_type *m = new_type_method(np, nr, D(4) == 0, D(3) ? cc_cdecl_set : cc_stdcall_set | cc_reg_param, (mtp_additional_properties)(D(3) ? 0 : 1u << D(9)));
			for (int j = 0; j < np; ++j) set_method_param_type(m, j, dty[D(nm)]);
			for (int j = 0; j < nr; ++j) set_method_res_type(m, j, dty[D(nm)]);
			dty[ndty++] = m; break; }
		}
	}
	ir_entity *prev = NULL;
	for (int i = 0, n = 3 + D(12); i < n; ++i) {
		ir_type *t = dty[D(ndty)];
		ident *id = d_name(20000 + i);
		ir_type *own = D(6) ? glob : get_segment_type((ir_segment_t)D(IR_SEGMENT_LAST + 1));
		if (own == get_segment_type(IR_SEGMENT_CONSTRUCTORS) || own == get_segment_type(IR_SEGMENT_DESTRUCTORS)) own = glob;
		if (is_Method_type(t)) {
			ir_entity *e = new_entity(glob, id, t);
			set_entity_visibility(e, d_vis(false));
			if (D(2)) add_entity_additional_properties(e, (mtp_additional_properties)(1u << D(9)));
			if (D(3) == 0) set_entity_ld_ident(e, d_name(30000 + i));
			if (D(3) == 0) set_entity_linkage(e, IR_LINKAGE_WEAK);
			continue;
		}
		if (get_type_state(t) != layout_fixed) continue;
		ir_entity *e;
		if (prev && D(6) == 0) {
			e = new_alias_entity(glob, id, prev, get_entity_type(prev), d_vis(true));
			if (D(2)) set_entity_ld_ident(e, d_name(40000 + i));
		} else {
			e = new_entity(own, id, t);
			bool def = D(3) != 0;
			if (def && get_type_size(t) > 0) set_entity_initializer(e, d_init(t, 0));
			set_entity_visibility(e, d_vis(def));
			ir_linkage l = (ir_linkage)(D(2) ? 0 : D(128));
			set_entity_linkage(e, l);
			if (D(4) == 0) set_entity_volatility(e, volatility_is_volatile);
			if (D(3) == 0) set_entity_ld_ident(e, d_name(30000 + i));
			prev = e;
		}
	}
}
