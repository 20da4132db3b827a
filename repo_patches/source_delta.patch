From 19549d7d272629b310e7dc3a34a15d7a4f749deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:06 +0000
Subject: [PATCH 01/76] fix: distinguish float modes with different
 exponent/mantissa sizes

new_float_mode() returned an existing mode of the same total size even when
its exponent and mantissa sizes differ (e.g. bfloat16 for IEEE half).
---
 ir/ir/irmode.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ir/ir/irmode.c b/ir/ir/irmode.c
index 8f315ec..e6e662e 100644
--- a/ir/ir/irmode.c
+++ b/ir/ir/irmode.c
@@ -38,7 +38,9 @@ static bool modes_are_equal(const ir_mode *m, const ir_mode *n)
 	    && m->size              == n->size
 	    && m->sign              == n->sign
 	    && m->modulo_shift      == n->modulo_shift
-	    && m->int_conv_overflow == n->int_conv_overflow;
+	    && m->int_conv_overflow == n->int_conv_overflow
+	    && m->float_desc.exponent_size == n->float_desc.exponent_size
+	    && m->float_desc.mantissa_size == n->float_desc.mantissa_size;
 }
 
 /**
-- 
2.43.0


From 1991e758c7203b9ea244de9a7db69bb744e5deb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:40 +0000
Subject: [PATCH 02/76] fix: keep all digits when multiplying or dividing
 subnormal floats

The mantissa of a subnormal operand has leading zeros, so the product was
truncated (and the quotient computed) with too few digits: folding
subnormal * x and x / subnormal gave wrong or even infinite results.
---
 ir/tv/fltcalc.c | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/ir/tv/fltcalc.c b/ir/tv/fltcalc.c
index 02c1e5e..9611b43 100644
--- a/ir/tv/fltcalc.c
+++ b/ir/tv/fltcalc.c
@@ -389,6 +389,27 @@ static void _fadd(const fp_value *a, const fp_value *b, fp_value *result)
 	fc_exact &= normalize(result, sticky);
 }
 
+/**
+ * Multiplication and division keep only as many digits as a normal mantissa
+ * has. Move the leading one of a subnormal value to the position it has in
+ * normal values (with an exponent below 1), so no digits are lost.
+ */
+static const fp_value *normalize_subnormal(const fp_value *value,
+                                           fp_value *buffer)
+{
+	if (value->clss != FC_SUBNORMAL)
+		return value;
+
+	const float_descriptor_t *desc = &value->desc;
+	unsigned radix = desc->mantissa_size - desc->explicit_one + ROUNDING_BITS;
+	unsigned shift = radix - sc_get_highest_set_bit(_mant(value));
+	memcpy(buffer, value, fp_value_size);
+	sc_shlI(_mant(value), shift, _mant(buffer));
+	/* subnormals have the same scale as values with an exponent of 1 */
+	sc_val_from_long(1 - (long)shift, _exp(buffer));
+	return buffer;
+}
+
 void fc_mul(const fp_value *a, const fp_value *b, fp_value *result)
 {
 	fc_exact = true;
@@ -440,6 +461,9 @@ void fc_mul(const fp_value *a, const fp_value *b, fp_value *result)
 		return;
 	}
 
+	a = normalize_subnormal(a, (fp_value*)ALLOCAN(char, fp_value_size));
+	b = normalize_subnormal(b, (fp_value*)ALLOCAN(char, fp_value_size));
+
 	/* exp = exp(a) + exp(b) - excess */
 	sc_add(_exp(a), _exp(b), _exp(result));
 
@@ -447,10 +471,6 @@ void fc_mul(const fp_value *a, const fp_value *b, fp_value *result)
 	sc_val_from_ulong((1 << (a->desc.exponent_size - 1)) - 1, temp);
 	sc_sub(_exp(result), temp, _exp(result));
 
-	/* mixed normal, subnormal values introduce an error of 1, correct it */
-	if ((a->clss == FC_SUBNORMAL) ^ (b->clss == FC_SUBNORMAL))
-		sc_inc(_exp(result));
-
 	sc_mul(_mant(a), _mant(b), _mant(result));
 
 	/* realign result: after a multiplication the digits right of the radix
@@ -520,16 +540,15 @@ void fc_div(const fp_value *a, const fp_value *b, fp_value *result)
 		return;
 	}
 
+	a = normalize_subnormal(a, (fp_value*)ALLOCAN(char, fp_value_size));
+	b = normalize_subnormal(b, (fp_value*)ALLOCAN(char, fp_value_size));
+
 	/* exp = exp(a) - exp(b) + excess - 1*/
 	sc_word *temp = ALLOCAN(sc_word, value_size);
 	sc_sub(_exp(a), _exp(b), _exp(result));
 	sc_val_from_ulong((1 << (a->desc.exponent_size - 1)) - 2, temp);
 	sc_add(_exp(result), temp, _exp(result));
 
-	/* mixed normal, subnormal values introduce an error of 1, correct it */
-	if ((a->clss == FC_SUBNORMAL) ^ (b->clss == FC_SUBNORMAL))
-		sc_inc(_exp(result));
-
 	/* mant(res) = mant(a) / 1/2mant(b) */
 	/* to gain more bits of precision in the result the dividend could be
 	 * shifted left, as this operation does not loose bits. This would not
-- 
2.43.0


From 8b01624046ca6276861082f0d736d1504c09b638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:51 +0000
Subject: [PATCH 03/76] fix: converting a NaN to a smaller float mode keeps it
 a NaN

Dropping the low payload digits of a signaling NaN left an all-zero mantissa,
which failed an assertion (or turned the NaN into an infinity).
---
 ir/tv/fltcalc.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ir/tv/fltcalc.c b/ir/tv/fltcalc.c
index 9611b43..4222325 100644
--- a/ir/tv/fltcalc.c
+++ b/ir/tv/fltcalc.c
@@ -752,7 +752,13 @@ void fc_cast(const fp_value *value, const float_descriptor_t *dest,
 		result->sign = value->sign;
 		sc_max_from_bits(dest->exponent_size, 0, _exp(result));
 		if (dst_mant < src_mant) {
-			sc_shrI(_mant(value), src_mant - dst_mant, _mant(result));
+			/* drop the payload digits which do not fit */
+			sc_shrI(_mant(value), src_mant - dst_mant + ROUNDING_BITS,
+			        _mant(result));
+			sc_shlI(_mant(result), ROUNDING_BITS, _mant(result));
+			/* Ensure that we have at least 1 bit set. */
+			if (sc_is_zero(_mant(result), dst_mant + ROUNDING_BITS))
+				sc_set_bit_at(_mant(result), ROUNDING_BITS);
 		} else {
 			sc_shlI(_mant(value), dst_mant - src_mant, _mant(result));
 		}
-- 
2.43.0


From ba4fb87b3f7b50375a90c2868d519715f3615e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:51 +0000
Subject: [PATCH 04/76] fix: sc_sub_bits masks the last byte, not the one
 before it

For lengths which are no multiple of 8 the last full byte was masked instead
of the final partial one. Rounding to bfloat16 lost its guard bit this way.
---
 ir/tv/strcalc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ir/tv/strcalc.c b/ir/tv/strcalc.c
index 4e13d24..9acf0e8 100644
--- a/ir/tv/strcalc.c
+++ b/ir/tv/strcalc.c
@@ -571,7 +571,7 @@ unsigned char sc_sub_bits(const sc_word *value, unsigned len, unsigned byte_ofs)
 	assert(SC_BITS == CHAR_BIT);
 	sc_word val = value[byte_ofs];
 	// Mask out if we are at the end
-	if (byte_ofs == (len/SC_BITS)-1) {
+	if (byte_ofs == (len-1)/SC_BITS) {
 		unsigned bit = len % SC_BITS;
 		if (bit != 0)
 			val &= max_digit(bit);
-- 
2.43.0


From eab527a0962f41239a297e5f2d6ca6cfd783516f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:16 +0000
Subject: [PATCH 05/76] fix: test the whole mantissa of a float for zero, not
 its low bits

sc_is_zero() takes a number of bits, it was given a number of bytes. Subnormal
doubles (and wider) with 17 clear low bits were classified as zero.
---
 ir/tv/fltcalc.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ir/tv/fltcalc.c b/ir/tv/fltcalc.c
index 4222325..001bb75 100644
--- a/ir/tv/fltcalc.c
+++ b/ir/tv/fltcalc.c
@@ -131,7 +131,7 @@ static bool normalize(fp_value *val, bool sticky)
 
 	/* check for exponent underflow */
 	if (sc_is_negative(_exp(val))
-	 || sc_is_zero(_exp(val), value_size)) {
+	 || sc_is_zero(_exp(val), value_size*SC_BITS)) {
 		/* exponent underflow */
 		/* shift the mantissa right to have a zero exponent */
 		sc_val_from_ulong(1, temp);
@@ -190,7 +190,7 @@ static bool normalize(fp_value *val, bool sticky)
 	}
 
 	/* could have rounded down to zero */
-	if (sc_is_zero(_mant(val), value_size)
+	if (sc_is_zero(_mant(val), value_size*SC_BITS)
 	    && (val->clss == FC_SUBNORMAL))
 		val->clss = FC_ZERO;
 
@@ -650,8 +650,8 @@ void fc_val_from_bytes(fp_value *result, const unsigned char *buffer,
 	sc_shlI(_mant(result), ROUNDING_BITS, _mant(result));
 
 	/* check for special values */
-	if (sc_is_zero(_exp(result), value_size)) {
-		if (sc_is_zero(_mant(result), value_size)) {
+	if (sc_is_zero(_exp(result), value_size*SC_BITS)) {
+		if (sc_is_zero(_mant(result), value_size*SC_BITS)) {
 			result->clss = FC_ZERO;
 		} else {
 			result->clss = FC_SUBNORMAL;
-- 
2.43.0


From 667c1f1a86d706d84f1c09b9750c786dfef72957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:25 +0000
Subject: [PATCH 06/76] fix: endless recursion of get_value() in unreachable
 cycles of single-predecessor blocks

A value which is requested in a block that is only reachable (backwards)
through a matured cycle of blocks with one predecessor each and that is
not defined on the cycle made get_r_value_internal() recurse forever.  Such
a cycle is unreachable, so the value is Bad.
---
 ir/ir/ircons.c | 40 ++++++++++++++++++++++++++++++++++++++--
 1 file changed, 38 insertions(+), 2 deletions(-)

diff --git a/ir/ir/ircons.c b/ir/ir/ircons.c
index 85d1ec7..aff7e11 100644
--- a/ir/ir/ircons.c
+++ b/ir/ir/ircons.c
@@ -143,6 +143,36 @@ static ir_node *set_phi_arguments(ir_node *phi, int pos)
 	return phi;
 }
 
+/**
+ * Follows the chain of single predecessors of a matured block as long as they
+ * have no definition of the value @p pos.
+ *
+ * @return the first block which does not continue the chain or NULL if the
+ *         chain runs into a cycle, which means that it is unreachable.
+ */
+static ir_node *skip_single_preds(ir_node *const block, int const pos)
+{
+	ir_node *mark  = block;
+	ir_node *cur   = block;
+	unsigned steps = 0;
+	unsigned limit = 2;
+	do {
+		if (cur->attr.block.graph_arr[pos] != NULL
+		 || !get_Block_matured(cur) || get_irn_arity(cur) != 1)
+			return cur;
+		ir_node *const cfgpred = get_Block_cfgpred(cur, 0);
+		if (is_Bad(cfgpred))
+			return cur;
+		if (steps++ == limit) {
+			mark   = cur;
+			steps  = 0;
+			limit *= 2;
+		}
+		cur = get_nodes_block(cfgpred);
+	} while (cur != mark);
+	return NULL;
+}
+
 /**
  * This function returns the last definition of a value.  In case
  * this value was last defined in a previous block, Phi nodes are
@@ -184,8 +214,14 @@ static ir_node *get_r_value_internal(ir_node *block, int pos, ir_mode *mode)
 bad:
 				res = new_r_Bad(irg, mode);
 			} else {
-				ir_node *cfgpred_block = get_nodes_block(cfgpred);
-				res = get_r_value_internal(cfgpred_block, pos, mode);
+				ir_node *const end = skip_single_preds(block, pos);
+				if (end == NULL)
+					goto bad; /* unreachable cycle, use Bad */
+				res = get_r_value_internal(end, pos, mode);
+				for (ir_node *cur = block; cur != end;
+				     cur = get_Block_cfgpred_block(cur, 0)) {
+					cur->attr.block.graph_arr[pos] = res;
+				}
 			}
 		} else {
 			/* multiple predecessors construct Phi */
-- 
2.43.0


From 7258568b5ef24b57ebb234f2608d1f1c99ce24c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:02 +0000
Subject: [PATCH 07/76] fix: block walkers miss blocks which are kept alive by
 a Phi only

An unreachable loop which is referenced only by its kept memory Phi was not
visited by irg_block_walk().  So compute_doms() left stale dominance
information at its blocks, optimize_graph_df() never dropped the keepalive
edge and the resulting graph failed the verifier (block not reachable by
block walker).
---
 ir/ir/irgwalk.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ir/ir/irgwalk.c b/ir/ir/irgwalk.c
index 2e27eb6..a03f859 100644
--- a/ir/ir/irgwalk.c
+++ b/ir/ir/irgwalk.c
@@ -341,9 +341,10 @@ void irg_block_walk(ir_node *node, irg_walk_func *pre, irg_walk_func *post,
 	/* Some blocks might be only reachable through keep-alive edges */
 	if (is_End(node)) {
 		foreach_irn_in(node, i, pred) {
-			if (!is_Block(pred))
+			/* A kept node keeps its block and, for example, the loop around it. */
+			if (is_Bad(pred))
 				continue;
-			irg_block_walk_2(pred, pre, post, env);
+			irg_block_walk_2(get_block(pred), pre, post, env);
 		}
 	}
 
-- 
2.43.0


From 62be78030e4c371b8188f2f58b983f73301e704a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:55 +0000
Subject: [PATCH 08/76] fix: SSA construction did not recognize self references
 of a Phi through Ids

try_remove_unnecessary_phi() compared the raw operands, so an operand which
was an already replaced Phi hid a self loop.  A kept memory Phi of an endless
loop was exchanged then (assertion 'kept != old' in exchange()).
---
 ir/ir/ircons.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ir/ir/ircons.c b/ir/ir/ircons.c
index aff7e11..1d17e4c 100644
--- a/ir/ir/ircons.c
+++ b/ir/ir/ircons.c
@@ -65,7 +65,9 @@ static void try_remove_unnecessary_phi(ir_node *phi)
 	/* See if all inputs are either pointing to a single value or
 	 * are self references. */
 	bool have_self_loop = false;
-	foreach_irn_in(phi, i, in) {
+	foreach_irn_in(phi, i, pred) {
+		/* The operand may be a Phi which has been replaced already. */
+		ir_node *const in = skip_Id(pred);
 		if (in == phi) {
 			have_self_loop = true;
 			continue;
-- 
2.43.0


From 869ec8c29db5d31c6c71e48854426bbd56f66fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:07 +0000
Subject: [PATCH 09/76] fix: construct_confirms() built a Confirm of itself
 when run twice

If the wanted Confirm exists already, CSE returns it and it is one of the
users of the value in the dominated block.  Its operand was replaced by
itself; optimize_graph_df() did not terminate on the result.
---
 ir/ana/irconsconfirm.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ir/ana/irconsconfirm.c b/ir/ana/irconsconfirm.c
index 6f7ecc7..4add03e 100644
--- a/ir/ana/irconsconfirm.c
+++ b/ir/ana/irconsconfirm.c
@@ -350,6 +350,10 @@ static void handle_if(ir_node *block, ir_node *cmp, ir_relation rel, env_t *env)
 				if (c == NULL)
 					c = new_r_Confirm(block, left, right, rel);
 
+				/* c may be an already existing Confirm */
+				if (succ == c)
+					continue;
+
 				set_irn_n(succ, pos, c);
 				DB((dbg, LEVEL_2, "Replacing input %d of node %+F with %+F\n", pos, succ, c));
 
-- 
2.43.0


From ae4f402135046d9d090d5f587f710b9533c921ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:15 +0000
Subject: [PATCH 10/76] fix: equivalent_node_Phi() crashed on a Phi which only
 references itself

---
 ir/opt/iropt.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ir/opt/iropt.c b/ir/opt/iropt.c
index 80938f0..b01029d 100644
--- a/ir/opt/iropt.c
+++ b/ir/opt/iropt.c
@@ -1432,6 +1432,10 @@ static ir_node *equivalent_node_Phi(ir_node *n)
 		}
 	}
 
+	/* The Phi references only itself, so it is in unreachable code. */
+	if (first_val == NULL)
+		return n;
+
 	/* if we are here then all inputs are either self-loops or first_val */
 	if (is_Dummy(first_val))
 		return n;
-- 
2.43.0


From c8f72a10eea336b449b0cad3157f66ee8a406d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:15 +0000
Subject: [PATCH 11/76] fix: endless recursion when folding a cycle of
 operations in unreachable code

---
 ir/opt/iropt.c | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/ir/opt/iropt.c b/ir/opt/iropt.c
index b01029d..92b02ff 100644
--- a/ir/opt/iropt.c
+++ b/ir/opt/iropt.c
@@ -2523,6 +2523,35 @@ static ir_node *transform_node_bitop_shift(ir_node *n)
  *   op(op(x, c0), c1) to op(x, op(c0, c1)) with constants folded.
  * This is a "light" version of the reassociation phase
  */
+/**
+ * Get the left operand of a node, if it is an operation of kind @p op with a
+ * constant as right operand.
+ */
+static ir_node *get_chain_pred(ir_node *const node, ir_op const *const op)
+{
+	if (!node || get_irn_op(node) != op || !is_Const(get_binop_right(node)))
+		return NULL;
+	return get_binop_left(node);
+}
+
+/**
+ * Check whether a chain of operations with constants leads into a cycle, which
+ * can only happen in unreachable code.
+ */
+static bool is_cyclic_chain(ir_node *const node)
+{
+	ir_op const *const op   = get_irn_op(node);
+	ir_node           *slow = node;
+	ir_node           *fast = get_chain_pred(node, op);
+	while (fast) {
+		if (fast == slow)
+			return true;
+		slow = get_chain_pred(slow, op);
+		fast = get_chain_pred(get_chain_pred(fast, op), op);
+	}
+	return false;
+}
+
 static ir_node *fold_constant_associativity(ir_node *node, tarval_binop fold)
 {
 	const ir_node *right = get_binop_right(node);
@@ -2530,12 +2559,12 @@ static ir_node *fold_constant_associativity(ir_node *node, tarval_binop fold)
 		return node;
 
 	const ir_op   *op   = get_irn_op(node);
-	const ir_node *left = get_binop_left(node);
+	ir_node      *left = get_binop_left(node);
 	if (get_irn_op(left) != op)
 		return node;
 
 	const ir_node *left_right = get_binop_right(left);
-	if (!is_Const(left_right))
+	if (!is_Const(left_right) || is_cyclic_chain(left))
 		return node;
 
 	ir_node   *left_left = get_binop_left(left);
-- 
2.43.0


From f16cce1552926a5673c3d1b47dbc17d84d569dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:55 +0000
Subject: [PATCH 12/76] fix: LCSSA construction crashed on Bad and unreachable
 blocks

---
 ir/opt/lcssa.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ir/opt/lcssa.c b/ir/opt/lcssa.c
index a6696a8..f37696f 100644
--- a/ir/opt/lcssa.c
+++ b/ir/opt/lcssa.c
@@ -330,7 +330,7 @@ static void verify_lcssa(ir_graph *const irg)
 void assure_lcssa(ir_graph *const irg)
 {
 	FIRM_DBG_REGISTER(dbg, "firm.opt.lcssa");
-	assure_irg_properties(irg, IR_GRAPH_PROPERTY_CONSISTENT_LOOPINFO | IR_GRAPH_PROPERTY_CONSISTENT_DOMINANCE | IR_GRAPH_PROPERTY_NO_CRITICAL_EDGES);
+	assure_irg_properties(irg, IR_GRAPH_PROPERTY_NO_BADS | IR_GRAPH_PROPERTY_NO_UNREACHABLE_CODE | IR_GRAPH_PROPERTY_CONSISTENT_LOOPINFO | IR_GRAPH_PROPERTY_CONSISTENT_DOMINANCE | IR_GRAPH_PROPERTY_NO_CRITICAL_EDGES);
 	ir_reserve_resources(irg, IR_RESOURCE_IRN_LINK);
 	irg_walk_graph(irg, firm_clear_link, NULL, NULL);
 	DB((dbg, LEVEL_1, "Begin LCSSA construction on %+F\n", irg));
-- 
2.43.0


From e85424f5bae1336208ae51246e434e39023ef857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:55 +0000
Subject: [PATCH 13/76] fix: hoist_high() took the Anchor for a user of a value

---
 ir/opt/gvn_pre.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ir/opt/gvn_pre.c b/ir/opt/gvn_pre.c
index 2665d1e..43c91c4 100644
--- a/ir/opt/gvn_pre.c
+++ b/ir/opt/gvn_pre.c
@@ -1562,6 +1562,10 @@ static void hoist_high(ir_node *block, void *ctx)
 						ir_node *succ = get_edge_src_irn(edge);
 						DB((dbg, LEVEL_4, "testing succ %+F\n", succ));
 
+						/* the Anchor is no user */
+						if (is_Anchor(succ))
+							continue;
+
 						/* check only successors on current path to end */
 						if (block_dominates(dom, get_nodes_block(succ))) {
 							ir_node *succ_value = identify(succ);
-- 
2.43.0


From 16b672744f3e6f7d1f41b3f5d08450b35d4ea858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:55 +0000
Subject: [PATCH 14/76] fix: loop optimizations replaced memory Phis which are
 kept alive

---
 ir/opt/loop.c    | 3 ++-
 ir/opt/opt_osr.c | 3 +++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/ir/opt/loop.c b/ir/opt/loop.c
index 546d4c5..502621e 100644
--- a/ir/opt/loop.c
+++ b/ir/opt/loop.c
@@ -1239,7 +1239,8 @@ static void correct_phis(ir_node *const node, void *const env)
 {
 	(void)env;
 
-	if (is_Phi(node) && get_irn_arity(node) == 1) {
+	/* Phis of endless loops are kept alive and must not be replaced. */
+	if (is_Phi(node) && get_irn_arity(node) == 1 && !get_Phi_loop(node)) {
 		dbg_info *const dbgi  = get_irn_dbg_info(node);
 		ir_node  *const block = get_nodes_block(node);
 		ir_node  *const in[]  = { get_Phi_pred(node, 0) };
diff --git a/ir/opt/opt_osr.c b/ir/opt/opt_osr.c
index e833d5c..9ea374a 100644
--- a/ir/opt/opt_osr.c
+++ b/ir/opt/opt_osr.c
@@ -777,6 +777,9 @@ static void remove_phi_cycle(scc *pscc, iv_env *env)
 		next = e->next;
 		if (!is_Phi(irn))
 			return;
+		/* Phis of endless loops are kept alive and must not be replaced */
+		if (get_Phi_loop(irn))
+			return;
 
 		foreach_irn_in_r(irn, i, pred) {
 			node_entry *pe = get_irn_ne(pred, env);
-- 
2.43.0


From 0e6e3e3d447123cd34830b10b4cb586e4e227203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:50 +0000
Subject: [PATCH 15/76] fix: remove_tuples() exchanged a Proj of a Tuple cycle
 with itself

---
 ir/opt/rm_tuples.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ir/opt/rm_tuples.c b/ir/opt/rm_tuples.c
index 8c7721e..34edfc1 100644
--- a/ir/opt/rm_tuples.c
+++ b/ir/opt/rm_tuples.c
@@ -35,6 +35,12 @@ static void exchange_tuple_projs(ir_node *node, void *env)
 
 	unsigned pn         = get_Proj_num(node);
 	ir_node *tuple_pred = get_Tuple_pred(pred, pn);
+	/* A cycle of a Tuple and its Proj is unreachable. */
+	if (tuple_pred == node) {
+		ir_graph *irg = get_irn_irg(node);
+		tuple_pred = new_r_Bad(irg, get_irn_mode(node));
+		clear_irg_properties(irg, IR_GRAPH_PROPERTY_NO_BADS);
+	}
 	exchange(node, tuple_pred);
 	*changed = true;
 }
-- 
2.43.0


From 77dc7f7c9bfa23c7a3547b57aa8f65bb30cebbda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:26 +0000
Subject: [PATCH 16/76] fix: SSA construction replaced memory Phis which are
 kept alive

---
 ir/ir/ircons.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ir/ir/ircons.c b/ir/ir/ircons.c
index 1d17e4c..e1fa454 100644
--- a/ir/ir/ircons.c
+++ b/ir/ir/ircons.c
@@ -83,6 +83,10 @@ static void try_remove_unnecessary_phi(ir_node *phi)
 	if (phi_value == NULL)
 		return;
 
+	/* The Phi is kept alive already. */
+	if (get_Phi_loop(phi))
+		return;
+
 	/* Do not remove PhiM with self-loops as potentially endless loops are
 	 * observable, see comment in equivalent_node_Phi() to learn more. */
 	if (have_self_loop && get_irn_mode(phi) == mode_M)
-- 
2.43.0


From 58916f65e30464ea675a762a357c7b5b20adefbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:02 +0000
Subject: [PATCH 17/76] fix: correct_phis() exchanged a Phi with itself

---
 ir/opt/loop.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ir/opt/loop.c b/ir/opt/loop.c
index 502621e..0a6b378 100644
--- a/ir/opt/loop.c
+++ b/ir/opt/loop.c
@@ -1246,7 +1246,9 @@ static void correct_phis(ir_node *const node, void *const env)
 		ir_node  *const in[]  = { get_Phi_pred(node, 0) };
 		ir_mode  *const mode  = get_irn_mode(node);
 		ir_node  *const exch  = new_rd_Phi(dbgi, block, ARRAY_SIZE(in), in, mode);
-		exchange(node, exch);
+		/* CSE might have found the Phi itself. */
+		if (exch != node)
+			exchange(node, exch);
 	}
 }
 
-- 
2.43.0


From 2f61755003f21e48680b567e0ed29bd00e4d3a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:02 +0000
Subject: [PATCH 18/76] fix: gvnpre activated edges which are already active

---
 ir/opt/gvn_pre.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ir/opt/gvn_pre.c b/ir/opt/gvn_pre.c
index 43c91c4..21503af 100644
--- a/ir/opt/gvn_pre.c
+++ b/ir/opt/gvn_pre.c
@@ -1811,7 +1811,7 @@ void do_gvn_pre(ir_graph *irg)
 	save_optimization_state(&state);
 	ir_reserve_resources(irg, IR_RESOURCE_IRN_LINK | IR_RESOURCE_LOOP_LINK);
 
-	edges_activate(irg);
+	assure_edges(irg);
 
 	environment = &env;
 	DEBUG_ONLY(init_stats();)
-- 
2.43.0


From 6a016254d321a3fa0b8638e322c9e7d320475ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:03 +0000
Subject: [PATCH 19/76] fix: unroll_loops() left stale information about the
 graph

---
 ir/opt/loop_unrolling.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ir/opt/loop_unrolling.c b/ir/opt/loop_unrolling.c
index ccf4764..9bd402c 100644
--- a/ir/opt/loop_unrolling.c
+++ b/ir/opt/loop_unrolling.c
@@ -669,5 +669,6 @@ void unroll_loops(ir_graph *const irg, unsigned factor, unsigned maxsize)
 		ir_free_resources(irg, IR_RESOURCE_IRN_LINK);
 		clear_irg_properties(irg, IR_GRAPH_PROPERTY_CONSISTENT_DOMINANCE | IR_GRAPH_PROPERTY_CONSISTENT_LOOPINFO);
 	} while (reanalyze);
+	confirm_irg_properties(irg, n_loops_unrolled == 0 ? IR_GRAPH_PROPERTIES_ALL : IR_GRAPH_PROPERTIES_NONE);
 	DB((dbg, LEVEL_1, "%+F: %d loops unrolled\n", irg, n_loops_unrolled));
 }
-- 
2.43.0


From 9eba0e58a36827dbcb3c67f901aed17c62c3d3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:43 +0000
Subject: [PATCH 20/76] fix: combine_memops() left stale information about the
 graph

---
 ir/opt/ldstopt.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ir/opt/ldstopt.c b/ir/opt/ldstopt.c
index 7c76a23..e3be55b 100644
--- a/ir/opt/ldstopt.c
+++ b/ir/opt/ldstopt.c
@@ -2291,6 +2291,7 @@ void combine_memops(ir_graph *irg)
 		return;
 
 	irg_walk_graph(irg, combine_memop, NULL, NULL);
+	confirm_irg_properties(irg, IR_GRAPH_PROPERTIES_CONTROL_FLOW);
 }
 
 void optimize_load_store(ir_graph *irg)
-- 
2.43.0


From 811d330772ce9c70f8ee6d79498a26a17a2369da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:08 +0000
Subject: [PATCH 21/76] fix: correct_phis() left memory Phis with one operand
 behind

---
 ir/opt/loop.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ir/opt/loop.c b/ir/opt/loop.c
index 0a6b378..42d6b45 100644
--- a/ir/opt/loop.c
+++ b/ir/opt/loop.c
@@ -1239,16 +1239,19 @@ static void correct_phis(ir_node *const node, void *const env)
 {
 	(void)env;
 
-	/* Phis of endless loops are kept alive and must not be replaced. */
-	if (is_Phi(node) && get_irn_arity(node) == 1 && !get_Phi_loop(node)) {
+	if (is_Phi(node) && get_irn_arity(node) == 1) {
 		dbg_info *const dbgi  = get_irn_dbg_info(node);
 		ir_node  *const block = get_nodes_block(node);
 		ir_node  *const in[]  = { get_Phi_pred(node, 0) };
 		ir_mode  *const mode  = get_irn_mode(node);
 		ir_node  *const exch  = new_rd_Phi(dbgi, block, ARRAY_SIZE(in), in, mode);
 		/* CSE might have found the Phi itself. */
-		if (exch != node)
+		if (exch != node) {
+			/* The block is no loop head anymore. */
+			if (get_Phi_loop(node))
+				remove_keep_alive(node);
 			exchange(node, exch);
+		}
 	}
 }
 
-- 
2.43.0


From d328c2740221120640d76ceffcabdf0f8dc3ff9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:08 +0000
Subject: [PATCH 22/76] fix: SSA construction on existing graphs found deleted
 nodes with active edges

---
 ir/ir/irssacons.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ir/ir/irssacons.c b/ir/ir/irssacons.c
index c7a5c9f..21f0629 100644
--- a/ir/ir/irssacons.c
+++ b/ir/ir/irssacons.c
@@ -9,6 +9,7 @@
  * @author  Michael Beck
  */
 #include "ircons_t.h"
+#include "iredges_t.h"
 #include "irgraph_t.h"
 #include "irgwalk.h"
 #include "irnode_t.h"
@@ -35,6 +36,9 @@ static void prepare_blocks(ir_node *block, void *env)
 
 void ssa_cons_start(ir_graph *irg, int n_loc)
 {
+	/* Replaced Phis are found through Id nodes during the construction, with
+	 * active edges there would be Deleted nodes instead. */
+	edges_deactivate(irg);
 	add_irg_constraints(irg, IR_GRAPH_CONSTRAINT_CONSTRUCTION);
 
 	irg_set_nloc(irg, n_loc);
-- 
2.43.0


From ffce19206fdab36c3b1ce87f88ae0b56807aad0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:34 +0000
Subject: [PATCH 23/76] fix: inlining and call graph crashed on calls in
 unreachable loops

---
 ir/ana/callgraph.c  | 4 +++-
 ir/opt/opt_inline.c | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/ir/ana/callgraph.c b/ir/ana/callgraph.c
index 2f4d884..fcd1112 100644
--- a/ir/ana/callgraph.c
+++ b/ir/ana/callgraph.c
@@ -187,7 +187,9 @@ static void ana_Call(ir_node *n, void *env)
 				found->max_depth = 0;
 				pset_insert((pset *)irg->callees, found, hash_ptr(callee));
 			}
-			unsigned depth = get_loop_depth(get_irn_loop(get_nodes_block(n)));
+			/* unreachable code may not belong to any loop */
+			const ir_loop *loop  = get_irn_loop(get_nodes_block(n));
+			unsigned       depth = loop != NULL ? get_loop_depth(loop) : 0;
 			found->max_depth = MAX(found->max_depth, depth);
 		}
 	}
diff --git a/ir/opt/opt_inline.c b/ir/opt/opt_inline.c
index 029ac43..b3dad84 100644
--- a/ir/opt/opt_inline.c
+++ b/ir/opt/opt_inline.c
@@ -745,7 +745,9 @@ static void collect_calls2(ir_node *node, void *ctx)
 		call_entry *entry = OALLOC(&temp_obst, call_entry);
 		entry->call       = node;
 		entry->callee     = callee;
-		entry->loop_depth = get_irn_loop(get_nodes_block(node))->depth;
+		/* unreachable code may not belong to any loop */
+		const ir_loop *loop = get_irn_loop(get_nodes_block(node));
+		entry->loop_depth = loop != NULL ? get_loop_depth(loop) : 0;
 		entry->benefice   = 0;
 		entry->all_const  = false;
 
-- 
2.43.0


From 94685cd0e774e08f6b9355d86ef236b68f4fea67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:25 +0000
Subject: [PATCH 24/76] fix: conv_opt() looped forever if CSE is disabled

---
 ir/opt/convopt.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ir/opt/convopt.c b/ir/opt/convopt.c
index 82c4d90..ea6ba83 100644
--- a/ir/opt/convopt.c
+++ b/ir/opt/convopt.c
@@ -268,6 +268,14 @@ static void conv_opt_walker(ir_node *node, void *data)
 
 	ir_node *const transformed = conv_transform(pred, mode);
 	if (node != transformed) {
+		/* Without CSE the same node may have been created again. */
+		if (is_Conv(transformed) && get_Conv_op(transformed) == pred &&
+		    get_irn_mode(transformed) == mode &&
+		    get_nodes_block(transformed) == get_nodes_block(node) &&
+		    get_irn_n_edges(transformed) == 0) {
+			kill_node(transformed);
+			return;
+		}
 		exchange(node, transformed);
 		*changed = true;
 	}
-- 
2.43.0


From da8dedcaa6327f215e19ef52841338c7efdb3123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:25 +0000
Subject: [PATCH 25/76] fix: optimize_graph_df() looped forever on unreachable
 code if optimizations are disabled

---
 ir/opt/irgopt.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ir/opt/irgopt.c b/ir/opt/irgopt.c
index cf88a02..f901a44 100644
--- a/ir/opt/irgopt.c
+++ b/ir/opt/irgopt.c
@@ -162,8 +162,9 @@ void optimize_graph_df(ir_graph *irg)
 	/* enable unreachable code elimination,
 	 * not that currently disabling algebraic simplifications disables all
 	 * transform_node_XXX() functions and therefore unreachable code
-	 * elimination. */
-	if (get_opt_algebraic_simplification()) {
+	 * elimination. So does disabling all optimizations. */
+	bool const opt_unreachable = get_optimize() && get_opt_algebraic_simplification();
+	if (opt_unreachable) {
 		assert(!irg_is_constrained(irg, IR_GRAPH_CONSTRAINT_OPTIMIZE_UNREACHABLE_CODE));
 		add_irg_constraints(irg, IR_GRAPH_CONSTRAINT_OPTIMIZE_UNREACHABLE_CODE);
 	}
@@ -207,7 +208,7 @@ void optimize_graph_df(ir_graph *irg)
 	                            | IR_GRAPH_PROPERTY_MANY_RETURNS
 	                            | IR_GRAPH_PROPERTY_NO_CRITICAL_EDGES);
 
-	if (get_opt_algebraic_simplification()) {
+	if (opt_unreachable) {
 		/* Unreachable code elimination was enabled. */
 		clear_irg_constraints(irg, IR_GRAPH_CONSTRAINT_OPTIMIZE_UNREACHABLE_CODE);
 		add_irg_properties(irg, IR_GRAPH_PROPERTY_NO_UNREACHABLE_CODE);
-- 
2.43.0


From 95b66211c4cdb3890ce363ef882f5518e7111f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:25 +0000
Subject: [PATCH 26/76] fix: x >> x is not 0 if shift amounts are taken modulo

---
 ir/opt/iropt.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ir/opt/iropt.c b/ir/opt/iropt.c
index 92b02ff..95492be 100644
--- a/ir/opt/iropt.c
+++ b/ir/opt/iropt.c
@@ -534,8 +534,10 @@ static ir_tarval *computed_value_Shr(const ir_node *n)
 
 	if (ta != tarval_unknown && tb != tarval_unknown)
 		return tarval_shr(ta, tb);
-	if (a == b || is_oversize_shift(n))
-		return get_mode_null(get_irn_mode(n));
+	/* x >> x is only 0 if the shift amount is not taken modulo something */
+	ir_mode *mode = get_irn_mode(n);
+	if ((a == b && get_mode_modulo_shift(mode) == 0) || is_oversize_shift(n))
+		return get_mode_null(mode);
 	return tarval_unknown;
 }
 
-- 
2.43.0


From 7628f30bc5a0372a700a1c688a09c6bcf004144a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:25 +0000
Subject: [PATCH 27/76] fix: transform_bitop_chain() looped forever on cyclic
 chains in unreachable code

---
 ir/opt/iropt.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ir/opt/iropt.c b/ir/opt/iropt.c
index 95492be..baaa8a5 100644
--- a/ir/opt/iropt.c
+++ b/ir/opt/iropt.c
@@ -2234,7 +2234,15 @@ static ir_node *transform_bitop_chain(ir_node *const irn)
 	ir_node *top_eor = NULL;
 	ir_node *top_not = NULL;
 	ir_node *top_or  = NULL;
+	/* The chain may lead into a cycle, if the code is unreachable. */
+	ir_node *mark  = NULL;
+	unsigned steps = 0;
 	for (;;) {
+		if (current == mark)
+			return irn;
+		++steps;
+		if ((steps & (steps - 1)) == 0)
+			mark = current;
 		if (is_Not(current)) {
 			/* ~x & keep ^ flip -> x & keep ^ (flip ^ keep) */
 			flip    = tarval_eor(flip, keep);
-- 
2.43.0


From 99a1d4fb56ce66572f3bb24c47b0f91fd6aec0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:25 +0000
Subject: [PATCH 28/76] fix: oversize arithmetic shifts used the width of the
 shift amount mode

---
 ir/opt/iropt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ir/opt/iropt.c b/ir/opt/iropt.c
index baaa8a5..0e1b17d 100644
--- a/ir/opt/iropt.c
+++ b/ir/opt/iropt.c
@@ -6273,7 +6273,7 @@ static ir_node *transform_node_Shrs(ir_node *n)
 		ir_node  *block = get_nodes_block(n);
 		dbg_info *dbgi  = get_irn_dbg_info(n);
 		ir_mode  *cmode = get_irn_mode(b);
-		long      val   = get_mode_size_bits(cmode)-1;
+		long      val   = get_mode_size_bits(mode)-1;
 		ir_graph *irg   = get_irn_irg(n);
 		ir_node  *cnst  = new_r_Const_long(irg, cmode, val);
 		return new_rd_Shrs(dbgi, block, a, cnst);
-- 
2.43.0


From 86066319930e98369cfaffa7b4a307be7a22d9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:42 +0000
Subject: [PATCH 29/76] fix: Or and Eor of mode_b were replaced by Add

---
 ir/opt/iropt.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ir/opt/iropt.c b/ir/opt/iropt.c
index 0e1b17d..ad889ab 100644
--- a/ir/opt/iropt.c
+++ b/ir/opt/iropt.c
@@ -55,6 +55,9 @@ int ir_imprecise_float_transforms_allowed(void)
  * the same result. */
 static bool is_Or_Eor_Add(const ir_node *node)
 {
+	/* there is no Add of mode_b */
+	if (get_irn_mode(node) == mode_b)
+		return false;
 	if (is_Or(node) || is_Eor(node) || is_Add(node)) {
 		const ir_node *const left  = get_binop_left(node);
 		const ir_node *const right = get_binop_right(node);
-- 
2.43.0


From 5853394e1d3d6283bb426037db02c7c21820c7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:08 +0000
Subject: [PATCH 30/76] fix: comparisons with one common operand were combined
 as if they had two

---
 ir/opt/iropt.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ir/opt/iropt.c b/ir/opt/iropt.c
index ad889ab..cb2e18f 100644
--- a/ir/opt/iropt.c
+++ b/ir/opt/iropt.c
@@ -2670,7 +2670,7 @@ static ir_node *transform_node_Or_(ir_node *n)
 		ir_node *a_right = get_Cmp_right(a);
 		ir_node *b_left  = get_Cmp_left(b);
 		ir_node *b_right = get_Cmp_right(b);
-		if (a_left == b_left && b_left == b_right) {
+		if (a_left == b_left && a_right == b_right) {
 			dbg_info   *dbgi         = get_irn_dbg_info(n);
 			ir_node    *block        = get_nodes_block(n);
 			ir_relation a_relation   = get_Cmp_relation(a);
@@ -2796,7 +2796,7 @@ static ir_node *transform_node_Eor_(ir_node *n)
 		ir_node       *a_right = get_Cmp_right(a);
 		const ir_node *b_left  = get_Cmp_left(b);
 		const ir_node *b_right = get_Cmp_right(b);
-		if (a_left == b_left && b_left == b_right) {
+		if (a_left == b_left && a_right == b_right) {
 			dbg_info   *dbgi         = get_irn_dbg_info(n);
 			ir_node    *block        = get_nodes_block(n);
 			ir_relation a_relation   = get_Cmp_relation(a);
@@ -4385,7 +4385,7 @@ static ir_node *transform_node_And(ir_node *n)
 		ir_relation b_relation = get_Cmp_relation(b);
 		/* we can combine the relations of two compares with the same
 		 * operands */
-		if (a_left == b_left && b_left == b_right) {
+		if (a_left == b_left && a_right == b_right) {
 			dbg_info   *dbgi         = get_irn_dbg_info(n);
 			ir_node    *block        = get_nodes_block(n);
 			ir_relation new_relation = a_relation & b_relation;
-- 
2.43.0


From 486f43d8d44db39c4813ebb501af80a13165bcf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:12 +0000
Subject: [PATCH 31/76] fix: constants of float operations were reassociated
 without permission

---
 ir/opt/iropt.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ir/opt/iropt.c b/ir/opt/iropt.c
index cb2e18f..f65e0d1 100644
--- a/ir/opt/iropt.c
+++ b/ir/opt/iropt.c
@@ -2571,6 +2571,10 @@ static ir_node *fold_constant_associativity(ir_node *node, tarval_binop fold)
 	if (!is_Const(right))
 		return node;
 
+	/* float operations are not associative */
+	if (mode_is_float(get_irn_mode(node)) && !ir_imprecise_float_transforms_allowed())
+		return node;
+
 	const ir_op   *op   = get_irn_op(node);
 	ir_node      *left = get_binop_left(node);
 	if (get_irn_op(left) != op)
-- 
2.43.0


From 1681d8d1fa3f1a8563e77fd2b92eb16170b263ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:08 +0000
Subject: [PATCH 32/76] fix: conversions which drop bits were left out next to
 float conversions

---
 ir/opt/iropt.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ir/opt/iropt.c b/ir/opt/iropt.c
index f65e0d1..8bb665e 100644
--- a/ir/opt/iropt.c
+++ b/ir/opt/iropt.c
@@ -6409,6 +6409,11 @@ bool may_leave_out_middle_conv(ir_mode *m0, ir_mode *m1, ir_mode *m2)
 		/* we assume that float modes are always signed */
 		if ((n_signed & 1) != 1)
 			return false;
+		/* the integer conversion must not drop bits */
+		if (mode_is_float(m2) && get_mode_size_bits(m0) > get_mode_size_bits(m1))
+			return false;
+		if (mode_is_float(m0) && get_mode_size_bits(m1) > get_mode_size_bits(m2))
+			return false;
 	} else if (n_floats == 2 && !mode_is_float(m1)) {
 		return false;
 	}
-- 
2.43.0


From a3b7cdda7dbd7484408b3fe7c65858da51949efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:00 +0000
Subject: [PATCH 33/76] fix: negating float sums lost the sign of zero

---
 ir/opt/iropt.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ir/opt/iropt.c b/ir/opt/iropt.c
index 8bb665e..6dd27cb 100644
--- a/ir/opt/iropt.c
+++ b/ir/opt/iropt.c
@@ -3683,9 +3683,11 @@ static ir_node *can_negate_cheaply(dbg_info *const dbgi, ir_node *const node)
 	/* -(-X) => X */
 	if (is_Minus(node))
 		return get_Minus_op(node);
-	/* -(a-b) => b-a */
 	ir_mode  *mode  = get_irn_mode(node);
-	if (is_Sub(node)) {
+	/* sums which are zero have the wrong sign after negating their operands */
+	bool const exact_sums = !mode_is_float(mode) || ir_imprecise_float_transforms_allowed();
+	/* -(a-b) => b-a */
+	if (is_Sub(node) && exact_sums) {
 		ir_node  *block = get_nodes_block(node);
 		ir_node  *left  = get_Sub_left(node);
 		ir_node  *right = get_Sub_right(node);
@@ -3705,7 +3707,7 @@ static ir_node *can_negate_cheaply(dbg_info *const dbgi, ir_node *const node)
 		}
 	}
 	/* -(a + C) => -C - a */
-	if (is_Add(node)) {
+	if (is_Add(node) && exact_sums) {
 		ir_node *right = get_Add_right(node);
 		if (is_Const(right)) {
 			ir_node   *left  = get_Add_left(node);
@@ -4747,7 +4749,8 @@ static ir_node *transform_node_Minus(ir_node *n)
 	if (negated_op != NULL)
 		return negated_op;
 
-	if (is_Add(op) && only_one_user(op)) {
+	if (is_Add(op) && only_one_user(op) &&
+	    (!mode_is_float(get_irn_mode(n)) || ir_imprecise_float_transforms_allowed())) {
 		ir_node  *l         = get_Add_left(op);
 		ir_node  *r         = get_Add_right(op);
 		ir_node  *negated_l = can_negate_cheaply(NULL, l);
-- 
2.43.0


From dc174680fd3f17e461056505fa0ad9c20e3c403b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:17 +0000
Subject: [PATCH 34/76] fix: reassociation mishandled nodes which use an
 operand twice

---
 ir/opt/reassoc.c | 44 +++++++++++++++++++++++---------------------
 1 file changed, 23 insertions(+), 21 deletions(-)

diff --git a/ir/opt/reassoc.c b/ir/opt/reassoc.c
index 145227c..0813b44 100644
--- a/ir/opt/reassoc.c
+++ b/ir/opt/reassoc.c
@@ -1112,9 +1112,10 @@ static void add_to_And_Or_set(multi_op_env *multi_env, ir_node *node, multi_op *
 
 /**
  * Adds a node to a Add set, with given entry. The entry is the user of the node and indicates it's value.
+ * pos is the position of the node in the operands of entry.
  * Example: In 3*(x + y) is 3 the value of (x+y) and * is the entry.
  */
-static void add_to_Add_set(multi_op_env *multi_env, ir_node *node, multi_op *set, ir_node *entry)
+static void add_to_Add_set(multi_op_env *multi_env, ir_node *node, multi_op *set, ir_node *entry, int pos)
 {
 	ir_mode *mode      = get_irn_mode(node);
 	ir_op   *op        = get_irn_op(node);
@@ -1131,7 +1132,7 @@ static void add_to_Add_set(multi_op_env *multi_env, ir_node *node, multi_op *set
 			ir_node   *src = get_edge_src_irn(edge);
 			ir_tarval *t   = pmap_get(ir_tarval, set->edge_value, src);
 			assert(t);
-			if (is_Sub(src) && get_Sub_right(src) == node) {
+			if (is_Sub(src) && get_edge_src_pos(edge) == n_Sub_right) {
 				t = tarval_neg(t);
 			}
 			val = tarval_add(val, t);
@@ -1169,7 +1170,7 @@ static void add_to_Add_set(multi_op_env *multi_env, ir_node *node, multi_op *set
 				t = get_mode_one(get_tarval_mode(val));
 			}
 			assert(t);
-			if (is_Sub(src) && get_Sub_right(src) == node) {
+			if (is_Sub(src) && get_edge_src_pos(edge) == n_Sub_right) {
 				t = tarval_neg(t);
 			}
 			val = tarval_add(val, t);
@@ -1185,7 +1186,7 @@ static void add_to_Add_set(multi_op_env *multi_env, ir_node *node, multi_op *set
 		ir_tarval *new_val = pmap_get(ir_tarval, set->edge_value, entry);
 		assert(new_val);
 
-		if (is_Sub(entry) && get_Sub_right(entry) == node) {
+		if (is_Sub(entry) && pos == n_Sub_right) {
 			new_val = tarval_neg(new_val);
 		}
 
@@ -1208,7 +1209,7 @@ static void add_to_Add_set(multi_op_env *multi_env, ir_node *node, multi_op *set
 /**
  * Adds a node to a set, with given entry.
  */
-static void add_to_set(multi_op_env *multi_env, ir_node *node, multi_op *set, ir_node *entry)
+static void add_to_set(multi_op_env *multi_env, ir_node *node, multi_op *set, ir_node *entry, int pos)
 {
 	switch (get_op_code(get_multi_op_op(set))) {
 	case iro_Eor:
@@ -1219,7 +1220,7 @@ static void add_to_set(multi_op_env *multi_env, ir_node *node, multi_op *set, ir
 		add_to_And_Or_set(multi_env, node, set);
 		break;
 	case iro_Add:
-		add_to_Add_set(multi_env, node, set, entry);
+		add_to_Add_set(multi_env, node, set, entry, pos);
 		break;
 
 	default:
@@ -1270,7 +1271,7 @@ static void connect_And_Or(multi_op *operand, multi_op *user)
  * Connects an operand multi_op to a user multi_op.
  * Entry gives the value of the operand, like in add_to_Add_set.
  */
-static void connect_Add(multi_op *operand, multi_op *user, ir_node *op_node, ir_node *entry)
+static void connect_Add(multi_op *operand, multi_op *user, ir_node *entry, int pos)
 {
 	assert(entry);
 
@@ -1292,7 +1293,7 @@ static void connect_Add(multi_op *operand, multi_op *user, ir_node *op_node, ir_
 	new_val = tarval_add(new_val, t);
 	assert(new_val);
 
-	if (is_Sub(entry) && get_Sub_right(entry) == op_node) {
+	if (is_Sub(entry) && pos == n_Sub_right) {
 		new_val = tarval_neg(new_val);
 	}
 
@@ -1315,7 +1316,7 @@ static void connect_Add(multi_op *operand, multi_op *user, ir_node *op_node, ir_
 /**
  * Connects a operand multi_op to a user multi_op. Connect means operand is a whole operand of user.
  */
-static void connect_sets(multi_op *operand, multi_op *user, ir_node *op_node, ir_node *user_node)
+static void connect_sets(multi_op *operand, multi_op *user, ir_node *user_node, int pos)
 {
 	switch (get_op_code(get_multi_op_op(user))) {
 	case iro_Eor:
@@ -1326,7 +1327,7 @@ static void connect_sets(multi_op *operand, multi_op *user, ir_node *op_node, ir
 		connect_And_Or(operand, user);
 		break;
 	case iro_Add:
-		connect_Add(operand, user, op_node, user_node);
+		connect_Add(operand, user, user_node, pos);
 		break;
 	default:
 		panic("Operation not supported");
@@ -1374,8 +1375,9 @@ static bool is_supported_node(ir_node *node)
  * @param multi_env The multiop environment
  * @param node      Node that was visited before its user @p user
  * @param user      The user that was visited after @p node
+ * @param pos       The position of @p node in the operands of @p user
  */
-static void second_walk(multi_op_env *multi_env, ir_node *node, ir_node *user)
+static void second_walk(multi_op_env *multi_env, ir_node *node, ir_node *user, int pos)
 {
 	assert(user);
 
@@ -1384,12 +1386,12 @@ static void second_walk(multi_op_env *multi_env, ir_node *node, ir_node *user)
 		multi_op *operand_set = pmap_get(multi_op, multi_env->set_map, node);
 		assert(operand_set);
 
-		connect_sets(operand_set, user_set, node, user);
+		connect_sets(operand_set, user_set, user, pos);
 	} else if (get_multi_op_op(user_set) == op_Add) {
 		ir_tarval *new_val = pmap_get(ir_tarval, user_set->edge_value, user);
 		assert(new_val);
 
-		if (is_Sub(user) && get_Sub_right(user) == node) {
+		if (is_Sub(user) && pos == n_Sub_right) {
 			new_val = tarval_neg(new_val);
 		}
 
@@ -1445,7 +1447,7 @@ static void walk_sets(ir_node *node, void *env)
 
 		ir_op *op = get_irn_op(node);
 		if (is_same_set && (get_multi_op_op(user_set) == op || (get_multi_op_op(user_set) == op_Add && (op == op_Sub || is_scalar_Mul(node))))) {
-			add_to_set(multi_env, node, user_set, NULL);
+			add_to_set(multi_env, node, user_set, NULL, -1);
 		} else {
 			/* create new Set and add to user sets */
 			multi_op *new_set = new_multi_op(multi_env, node);
@@ -1455,7 +1457,7 @@ static void walk_sets(ir_node *node, void *env)
 				ir_node  *user = get_edge_src_irn(edge);
 				multi_op *t    = pmap_get(multi_op, set_map, user);
 				if (t) {
-					connect_sets(new_set, t, node, user);
+					connect_sets(new_set, t, user, get_edge_src_pos(edge));
 				}
 
 				if (!is_supported_node(user)) {
@@ -1467,7 +1469,7 @@ static void walk_sets(ir_node *node, void *env)
 		foreach_irn_in(node, i, n) {
 			if (pset_find_ptr(multi_env->walkhistory, n)) {
 				DBG((dbg, LEVEL_5, "%+F already visited!\n", n));
-				second_walk(multi_env, n, node);
+				second_walk(multi_env, n, node, i);
 			}
 		}
 	} else {
@@ -1476,7 +1478,7 @@ static void walk_sets(ir_node *node, void *env)
 			ir_node  *user = get_edge_src_irn(edge);
 			multi_op *t    = pmap_get(multi_op, set_map, user);
 			if (t) {
-				add_to_set(multi_env, node, t, user);
+				add_to_set(multi_env, node, t, user, get_edge_src_pos(edge));
 			}
 		}
 	}
@@ -1538,13 +1540,13 @@ static void merge(multi_op_env *multi_env, multi_op *a, multi_op *b)
 		}
 	} else {
 		foreach_pset(a->operands, ir_node, n) {
-			add_to_set(multi_env, n, b, NULL);
+			add_to_set(multi_env, n, b, NULL, -1);
 		}
 
 		pset_remove_ptr(b->multi_operands, a);
 
 		foreach_pset(a->multi_operands, multi_op, o) {
-			connect_sets(o, b, NULL, NULL);
+			connect_sets(o, b, NULL, -1);
 
 			pset_remove_ptr(o->multi_users, a);
 		}
@@ -1610,7 +1612,7 @@ static void merge_trivial_multi_op(multi_op_env *multi_env, multi_op *a, multi_o
 			}
 			pmap_insert(b->multiplier, n, val);
 		} else {
-			add_to_set(multi_env, n, b, NULL);
+			add_to_set(multi_env, n, b, NULL, -1);
 		}
 	}
 
@@ -1627,7 +1629,7 @@ static void merge_trivial_multi_op(multi_op_env *multi_env, multi_op *a, multi_o
 			pmap_insert(b->multiplier, o, val);
 			pset_insert_ptr(o->multi_users, b);
 		} else {
-			connect_sets(o, b, NULL, NULL);
+			connect_sets(o, b, NULL, -1);
 		}
 
 		pset_remove_ptr(o->multi_users, a);
-- 
2.43.0


From 09b9f116c50655614f988289e9e399737de8f33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:17 +0000
Subject: [PATCH 35/76] fix: Mux with two true constants failed an assertion if
 CSE is disabled

---
 ir/opt/iropt.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ir/opt/iropt.c b/ir/opt/iropt.c
index 6dd27cb..214f409 100644
--- a/ir/opt/iropt.c
+++ b/ir/opt/iropt.c
@@ -7111,6 +7111,10 @@ static ir_node *transform_node_Mux(ir_node *n)
 				ir_tarval *tv_t = get_Const_tarval(t);
 				if (tv_t == tarval_b_true) {
 					if (is_Const(f)) {
+						/* Muxb(sel, true, true) = true; the constants may be
+						 * different nodes if CSE is disabled */
+						if (get_Const_tarval(f) == tarval_b_true)
+							return t;
 						/* Muxb(sel, true, false) = sel */
 						assert(get_Const_tarval(f) == tarval_b_false);
 						DBG_OPT_ALGSIM0(oldn, sel);
-- 
2.43.0


From 0871d22cf19eb82b6e9342326265d35dabbcb330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:08 +0000
Subject: [PATCH 36/76] fix: reassociation lost products of two constants

---
 ir/opt/reassoc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ir/opt/reassoc.c b/ir/opt/reassoc.c
index 0813b44..88faab5 100644
--- a/ir/opt/reassoc.c
+++ b/ir/opt/reassoc.c
@@ -1077,7 +1077,7 @@ static void destroy_multi_op(multi_op *o)
  */
 static bool is_scalar_Mul(ir_node *node)
 {
-	return is_Mul(node) && (is_Const(get_Mul_left(node)) || is_Const(get_Mul_right(node)));
+	return is_Mul(node) && (is_Const(get_Mul_left(node)) != is_Const(get_Mul_right(node)));
 }
 
 /**
-- 
2.43.0


From 7a02f22bc96cb27bfba6512574b6c477bc7662f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:44 +0000
Subject: [PATCH 37/76] fix: bit analysis took oversize arithmetic shifts for
 zero

---
 ir/ana/constbits.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ir/ana/constbits.c b/ir/ana/constbits.c
index 2fb70c9..fe8cf71 100644
--- a/ir/ana/constbits.c
+++ b/ir/ana/constbits.c
@@ -471,8 +471,14 @@ undefined:
 						ir_tarval  *const all_one       = get_mode_all_one(m);
 						ir_tarval  *const oversize_mask = tarval_andnot(modulo_mask, size_mask);
 
-						z = zero;
-						o = tarval_is_null(tarval_and(rz, oversize_mask)) ? all_one : zero;
+						if (tarval_is_null(tarval_and(rz, oversize_mask))) {
+							z = zero;
+							o = all_one;
+						} else {
+							/* Oversize shifts replicate the sign bit. */
+							z = tarval_shrs(lz, size_mask);
+							o = tarval_shrs(lo, size_mask);
+						}
 
 						if (tarval_is_null(tarval_and(ro, oversize_mask))) {
 							ir_tarval *const rmask  = tarval_and(size_mask, modulo_mask);
-- 
2.43.0


From 557f56e0b7a64ec3c4f9a3d0aca5b4083dce6fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:55 +0000
Subject: [PATCH 38/76] fix: LCSSA construction left Phis it inserted into
 other loops unclosed

---
 ir/opt/lcssa.c | 25 +++----------------------
 1 file changed, 3 insertions(+), 22 deletions(-)

diff --git a/ir/opt/lcssa.c b/ir/opt/lcssa.c
index f37696f..3772492 100644
--- a/ir/opt/lcssa.c
+++ b/ir/opt/lcssa.c
@@ -76,27 +76,6 @@ static bool cf_has_loop_exit(ir_node const *const from_block, ir_node const *con
 	return !nested;
 }
 
-/* Returns true if control flow from pred_block to block is an exit of any loop containing target. */
-static bool is_nested_loop_exit(ir_node const *const block, ir_node const *const pred_block, ir_node const *const target)
-{
-	ir_loop const *const block_loop = get_irn_loop(block);
-	ir_loop const *const pred_loop = get_irn_loop(pred_block);
-
-	if (!block_loop || !pred_loop || block_loop == pred_loop) {
-		return false;
-	}
-
-	ir_node const *const target_block = get_nodes_block(target);
-	ir_loop const *const target_loop = get_irn_loop(target_block);
-	assert(target_loop && get_loop_depth(target_loop) > 0);
-
-	unsigned const block_depth = get_loop_depth(block_loop);
-	unsigned const pred_depth  = get_loop_depth(pred_loop);
-
-	return is_loop_nested_inside(target_loop, pred_loop) &&
-		pred_depth > block_depth;
-}
-
 static ir_node *new_linked_Phi(ir_node *block, ir_mode *mode)
 {
 	ir_node *unknown = new_r_Unknown(get_irn_irg(block), mode);
@@ -138,7 +117,9 @@ static ir_node *insert_phis_recursive(ir_node *const target, ir_node *const bloc
 	} else if (arity == 1) {
 		ir_node *pred_block = get_Block_cfgpred_block(block, 0);
 
-		if (is_nested_loop_exit(block, pred_block, target)) {
+		/* The value at the end of pred_block may be a Phi, which was inserted
+		 * into a loop not containing target. So this Phi must be closed, too. */
+		if (cf_has_loop_exit(pred_block, block)) {
 			ir_node *phi  = new_linked_Phi(block, mode);
 			DB((dbg, LEVEL_2, "Loop exit, constructing %+F\n", phi));
 
-- 
2.43.0


From 7ec730e96849c513ae1c73c26207efb57178336b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:37 +0000
Subject: [PATCH 39/76] fix: ldst changed the width of volatile loads

---
 ir/opt/ldstopt.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ir/opt/ldstopt.c b/ir/opt/ldstopt.c
index e3be55b..6488837 100644
--- a/ir/opt/ldstopt.c
+++ b/ir/opt/ldstopt.c
@@ -1449,6 +1449,9 @@ static changes_t optimize_conv_load(ir_node *conv)
 	ir_node *load = get_Proj_pred(op);
 	if (!is_Load(load))
 		return NO_CHANGES;
+	/* a volatile access must keep its width */
+	if (get_Load_volatility(load) == volatility_is_volatile)
+		return NO_CHANGES;
 
 	/* only do it if we are the only user (otherwise the risk is too
 	 * great that we end up with 2 loads instead of one). */
-- 
2.43.0


From a8cbe76efdf627de359ca9cf84407ad63baa852b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:54 +0000
Subject: [PATCH 40/76] fix: tail recursion elimination overlooked duplicate
 parameter Projs

---
 ir/opt/tailrec.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ir/opt/tailrec.c b/ir/opt/tailrec.c
index ae3cb12..142ab9a 100644
--- a/ir/opt/tailrec.c
+++ b/ir/opt/tailrec.c
@@ -458,6 +458,13 @@ static void collect_start_block_nodes(ir_node *node, void *data)
 			if (is_Start(predpred) && get_Proj_num(pred) == pn_Start_T_args) {
 				unsigned pn = get_Proj_num(node);
 				assert(pn < env->n_parameters);
+				ir_node *const other = env->parameter_projs[pn];
+				if (other != NULL) {
+					/* There is more than one Proj, if CSE was off when the graph
+					 * was constructed. */
+					exchange(node, other);
+					return;
+				}
 				env->parameter_projs[pn] = node;
 			}
 		}
@@ -482,7 +489,7 @@ static void find_start_block_nodes(tr_env *env, ir_graph *irg)
 	env->parameter_projs    = XMALLOCNZ(ir_node*, n_parameters);
 
 	env->start_nodes = NULL;
-	irg_walk_anchors(irg, collect_start_block_nodes, NULL, env);
+	irg_walk_anchors(irg, NULL, collect_start_block_nodes, env);
 }
 
 static unsigned find_tail_rec_possibilities(tr_env *env, ir_graph *irg)
-- 
2.43.0


From e7f9d8c551c7dd8f4d5329b597428bfd914fee2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:04 +0000
Subject: [PATCH 41/76] fix: complete unrolling took Phis outside the loop for
 Phis of its header

---
 ir/opt/loop_unrolling.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ir/opt/loop_unrolling.c b/ir/opt/loop_unrolling.c
index 9bd402c..73bd7fe 100644
--- a/ir/opt/loop_unrolling.c
+++ b/ir/opt/loop_unrolling.c
@@ -499,7 +499,7 @@ static void rewire_fully_unrolled(ir_loop *const loop, ir_node *header) {
 			if (is_Phi(phi)) {
 				ir_node *const pred = get_irn_n(phi, n_after);
 				ir_node *new_pred = NULL;
-				if (is_Phi(pred)) {
+				if (is_Phi(pred) && get_nodes_block(pred) == header) {
 					// case: pred is phi in loop header. use input i of loop header phi
 					new_pred = get_irn_n(pred, i);
 				} else if (get_irn_mode(phi) == mode_M) {
-- 
2.43.0


From 3fc8724930e8a13d06e4e34fdd8eee041cf34907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:46 +0000
Subject: [PATCH 42/76] fix: valueset could not grow or shrink after all
 elements were removed

---
 ir/ir/valueset.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/ir/ir/valueset.c b/ir/ir/valueset.c
index 3f347d0..7c0fdcd 100644
--- a/ir/ir/valueset.c
+++ b/ir/ir/valueset.c
@@ -59,7 +59,7 @@ static void resize(HashSet *self, size_t new_size)
 {
 	HashSetEntry *old_entries = self->entries;
 	HashSetEntry *new_entries;
-	list_head    list = self->elem_list;
+	list_head    list;
 	int          res = 1;
 
 	/* allocate a new array with double size */
@@ -76,12 +76,11 @@ static void resize(HashSet *self, size_t new_size)
 #endif
 	reset_thresholds(self);
 
-	assert(!list_empty(&self->elem_list));
-	list.next->prev = &list;
-	list.prev->next = &list;
+	/* all elements may have been removed again */
+	INIT_LIST_HEAD(&list);
+	list_splice_init(&self->elem_list, &list);
 
 	/* reinsert all elements */
-	INIT_LIST_HEAD(&self->elem_list);
 	list_for_each_entry(ValueType, entry, &list, list) {
 		res &= ir_valueset_insert(self, entry->value, entry->expr);
 	}
-- 
2.43.0


From c419524115773d4db8ccf583ea96e7ff1403ca72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:46 +0000
Subject: [PATCH 43/76] fix: pset_new took pointers for equal that agree in
 their low 32 bits

---
 ir/adt/pset_new.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ir/adt/pset_new.c b/ir/adt/pset_new.c
index 80462a6..dae3b74 100644
--- a/ir/adt/pset_new.c
+++ b/ir/adt/pset_new.c
@@ -18,7 +18,7 @@
 #define ValueType                  void*
 #define NullValue                  NULL
 #define DeletedValue               ((void*)-1)
-#define KeysEqual(this,key1,key2)  1
+#define KeysEqual(this,key1,key2)  ((key1) == (key2))
 #define SetRangeEmpty(ptr,size)    memset(ptr, 0, (size) * sizeof(HashSetEntry))
 
 #define hashset_init            pset_new_init
-- 
2.43.0


From d69e10a8f0f0705130c19be262d8ace7922dad36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:22 +0000
Subject: [PATCH 44/76] fix: bitset_minus1 borrowed from the next word although
 the word was not zero

---
 ir/adt/raw_bitset.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ir/adt/raw_bitset.h b/ir/adt/raw_bitset.h
index b8d51af..5ba3ce8 100644
--- a/ir/adt/raw_bitset.h
+++ b/ir/adt/raw_bitset.h
@@ -542,10 +542,10 @@ static inline void rbitset_minus1(unsigned *bitset, size_t size)
 							? rbitset_last_mask_(size)
 							: ~0u;
 		unsigned val        = bitset[i] & mask;
-		unsigned val_minus1 = val - 1;
-		bitset[i] = val_minus1 & mask;
+		bitset[i] = (val - 1) & mask;
 
-		if (((val >> (BITS_PER_ELEM-1)) ^ (val_minus1 >> (BITS_PER_ELEM-1))) == 0)
+		/* only borrow from the next unit, if this one was zero */
+		if (val != 0)
 			break;
 	}
 }
-- 
2.43.0


From 48b8f53c0cbf4c2993d5adeef473d612e9678cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:45 +0000
Subject: [PATCH 45/76] fix: bipartite matching missed longer augmenting paths

---
 ir/adt/bipartite.c | 86 ++++++++++++++++------------------------------
 1 file changed, 29 insertions(+), 57 deletions(-)

diff --git a/ir/adt/bipartite.c b/ir/adt/bipartite.c
index 7e49e75..18f9578 100644
--- a/ir/adt/bipartite.c
+++ b/ir/adt/bipartite.c
@@ -59,75 +59,47 @@ int bipartite_adj(bipartite_t const *const gr, unsigned const i,
 	return bitset_is_set(gr->adj[i], j);
 }
 
-static int apply_alternating_path(bipartite_t const *const gr,
-                                  int *const matching,
-                                  bitset_t *const matched_left,
-                                  bitset_t *const matched_right)
+/**
+ * Searches an augmenting path starting at the left node @p left and applies it.
+ *
+ * @param matching     the right partner of each left node or -1
+ * @param partner      the left partner of each right node or -1
+ * @param unvisited    the right nodes not visited by this search
+ * @return true if an augmenting path was found
+ */
+static bool augment(bipartite_t const *const gr, unsigned const left,
+                    int *const matching, int *const partner,
+                    bitset_t *const unvisited)
 {
-	bool done_something = false;
-	bitset_t *const tmp = bitset_alloca(gr->n_right);
-
-	for (unsigned left = 0; left < gr->n_left; ++left) {
-		bitset_t *left_adj = gr->adj[left];
-		bitset_copy(tmp, left_adj);
-
-		if (matching[left] >= 0) {
-			int old_right = matching[left];
-
-			/* Check of all neighbors of the left node are already matched.
-			 * We cannot improve this edge then. */
-			if (bitset_contains(left_adj, matched_right))
-				continue;
-
-			bitset_andnot(tmp, matched_right);
-			unsigned right = bitset_next_set(tmp, 0);
-			assert(right != ~0u);
+	for (size_t right = 0; (right = bitset_next_set(gr->adj[left], right)) != (size_t)-1; ++right) {
+		if (!bitset_is_set(unvisited, right))
+			continue;
+		bitset_clear(unvisited, right);
 
-			/* We have to find another left node which has the old right one as
-			 * a neighbor. This node must not be part of a matching */
-			unsigned i;
-			for (i = 0; i < gr->n_left; ++i)
-				if (i != left && bitset_is_set(gr->adj[i], old_right) && !bitset_is_set(matched_left, i))
-					break;
-
-			/* If no such node can be found, exit. */
-			if (i >= gr->n_left)
-				continue;
-
-			/* Else, we can improve this edge. */
-			matching[left] = right;
-			matching[i] = old_right;
-			bitset_set(matched_left, i);
-			bitset_set(matched_right, right);
-			done_something = true;
-		} else {
-			/* We have to create a new single edge */
-			assert(!bitset_is_set(matched_left, left));
-
-			bitset_andnot(tmp, matched_right);
-			if (bitset_is_empty(tmp))
-				continue;
-
-			unsigned right = bitset_next_set(tmp, 0);
-			assert(!bitset_is_set(matched_right, right));
+		int const other = partner[right];
+		if (other < 0 || augment(gr, other, matching, partner, unvisited)) {
 			matching[left] = right;
-			bitset_set(matched_left, left);
-			bitset_set(matched_right, right);
-			done_something = true;
+			partner[right] = left;
+			return true;
 		}
 	}
-
-	return done_something;
+	return false;
 }
 
 void bipartite_matching(bipartite_t const *const gr, int *const matching)
 {
-	bitset_t *const matched_left = bitset_alloca(gr->n_left);
-	bitset_t *const matched_right = bitset_alloca(gr->n_right);
+	int      *const partner   = XMALLOCN(int, gr->n_right);
+	bitset_t *const unvisited = bitset_malloc(gr->n_right);
 
 	memset(matching, -1, gr->n_left * sizeof(int));
-	while (apply_alternating_path(gr, matching, matched_left, matched_right)) {
+	memset(partner, -1, gr->n_right * sizeof(int));
+	for (unsigned left = 0; left < gr->n_left; ++left) {
+		bitset_set_all(unvisited);
+		augment(gr, left, matching, partner, unvisited);
 	}
+
+	free(unvisited);
+	free(partner);
 }
 
 void bipartite_dump_f(FILE *const f, bipartite_t const *gr)
-- 
2.43.0


From 277d621f461a27ad4524f24333cc8f54a0db5479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:39 +0000
Subject: [PATCH 46/76] fix: changing the visibility of a global left the
 lookup by linker name stale

---
 ir/tr/entity.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/ir/tr/entity.c b/ir/tr/entity.c
index 2e82dce..4dbb417 100644
--- a/ir/tr/entity.c
+++ b/ir/tr/entity.c
@@ -379,7 +379,21 @@ ir_label_t get_entity_label(const ir_entity *ent)
 
 void set_entity_visibility(ir_entity *entity, ir_visibility visibility)
 {
+	ir_visibility const old_visibility = get_entity_visibility(entity);
 	entity->visibility = visibility;
+
+	/* private entities are not in the globals map */
+	bool const was_private = old_visibility == ir_visibility_private;
+	bool const is_private  = visibility == ir_visibility_private;
+	if (was_private != is_private) {
+		ir_type *owner = get_entity_owner(entity);
+		if (is_segment_type(owner) && !(owner->flags & tf_info)) {
+			pmap  *globals  = irp->globals;
+			ident *ld_ident = get_entity_ld_ident(entity);
+			assert((is_private ? entity : NULL) == pmap_get(ir_entity, globals, ld_ident));
+			pmap_insert(globals, ld_ident, is_private ? NULL : entity);
+		}
+	}
 }
 
 ir_visibility get_entity_visibility(const ir_entity *entity)
-- 
2.43.0


From 70e0774af61bcc4808ea1ec0a6a0d6557a10bcf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:03 +0000
Subject: [PATCH 47/76] fix: set_irn_in made the in array of nodes with dynamic
 arity inflexible

---
 ir/ir/irnode.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/ir/ir/irnode.c b/ir/ir/irnode.c
index 585436c..95e4e1c 100644
--- a/ir/ir/irnode.c
+++ b/ir/ir/irnode.c
@@ -183,14 +183,23 @@ void set_irn_in(ir_node *const node, int const arity, ir_node *const *const in)
 		edges_notify_edge(node, i, NULL, (*pOld_in)[i+1], irg);
 	}
 
+	ir_node **flexible_in = NULL;
 	if (arity != (int)ARR_LEN(*pOld_in) - 1) {
 		ir_node * block = (*pOld_in)[0];
-		*pOld_in = NEW_ARR_D(ir_node*, get_irg_obstack(irg), arity + 1);
+		/* Nodes with dynamic arity must always have a flexible array. */
+		if (is_irn_dynamic(node)) {
+			flexible_in = *pOld_in;
+			*pOld_in    = NEW_ARR_F(ir_node*, arity + 1);
+		} else {
+			*pOld_in = NEW_ARR_D(ir_node*, get_irg_obstack(irg), arity + 1);
+		}
 		(*pOld_in)[0] = block;
 	}
 	fix_backedges(get_irg_obstack(irg), node);
 
 	MEMCPY(*pOld_in + 1, in, arity);
+	if (flexible_in != NULL)
+		DEL_ARR_F(flexible_in);
 
 	/* update irg flags */
 	clear_irg_properties(irg, IR_GRAPH_PROPERTY_CONSISTENT_OUTS | IR_GRAPH_PROPERTY_CONSISTENT_LOOPINFO);
-- 
2.43.0


From 3bebedc4fa092ed24555cd4b8c0927b32765ddc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:15 +0000
Subject: [PATCH 48/76] fix: compute_cdep corrupted the postdominator tree's
 child lists

It temporarily made the end block the immediate postdominator of the start
block with set_Block_ipostdom(), which links the start block into a second
list of postdominated blocks. The lists were cyclic afterwards although the
postdominance information was still claimed to be consistent.
---
 ir/ana/cdep.c | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/ir/ana/cdep.c b/ir/ana/cdep.c
index 714a1b1..652da18 100644
--- a/ir/ana/cdep.c
+++ b/ir/ana/cdep.c
@@ -83,6 +83,19 @@ static void add_cdep(ir_node *node, ir_node *dep_on)
 	}
 }
 
+/**
+ * Returns the immediate postdominator of a block, as if there was an edge from
+ * the start block to the end block: the ipdom of the start block is the end
+ * block.  Firm does NOT add the phantom edge from Start to End.
+ */
+static ir_node *get_cdep_ipostdom(ir_node *block)
+{
+	ir_graph *const irg = get_irn_irg(block);
+	if (block == get_irg_start_block(irg))
+		return get_irg_end_block(irg);
+	return get_Block_ipostdom(block);
+}
+
 /**
  * Pre-block-walker: calculate the control dependence
  */
@@ -94,9 +107,9 @@ static void cdep_pre(ir_node *node, void *ctx)
 		if (pred == NULL)
 			continue;
 
-		ir_node *pdom = get_Block_ipostdom(pred);
+		ir_node *pdom = get_cdep_ipostdom(pred);
 		for (ir_node *dependee = node; dependee != pdom;
-		     dependee = get_Block_ipostdom(dependee)) {
+		     dependee = get_cdep_ipostdom(dependee)) {
 			assert(!is_Bad(pdom));
 			add_cdep(dependee, pred);
 		}
@@ -128,21 +141,9 @@ void compute_cdep(ir_graph *irg)
 
 	assure_irg_properties(irg, IR_GRAPH_PROPERTY_CONSISTENT_POSTDOMINANCE);
 
-	/* we must temporary change the post dominator relation:
-	   the ipdom of the startblock is the end block.
-	   Firm does NOT add the phantom edge from Start to End.
-	 */
-	ir_node *const start_block = get_irg_start_block(irg);
-	ir_node *const end_block   = get_irg_end_block(irg);
-	ir_node *const rem         = get_Block_ipostdom(start_block);
-	set_Block_ipostdom(start_block, end_block);
-
 	irg_block_walk_graph(irg, cdep_pre, NULL, NULL);
 
 	(void)cdep_edge_hook;
-
-	/* restore the post dominator relation */
-	set_Block_ipostdom(start_block, rem);
 }
 
 void free_cdep(ir_graph *irg)
-- 
2.43.0


From 6d262f04f7d8dc9e6b8a74f1736a22d6f5bbae1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:36 +0000
Subject: [PATCH 49/76] fix: optimize_cf removed an empty start block

Nothing can take the place of a start block, so its successor lost the edge
from it; in a graph consisting of an endless loop this left a block that is
its own only predecessor (assertion old != nw in exchange).
---
 ir/opt/cfopt.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ir/opt/cfopt.c b/ir/opt/cfopt.c
index b52c79f..a8865cc 100644
--- a/ir/opt/cfopt.c
+++ b/ir/opt/cfopt.c
@@ -69,8 +69,10 @@ static void collect_nodes(ir_node *n, void *ctx)
 	}
 	if (is_Block(n)) {
 		/* do not merge blocks with Jump labels for now (we cannot currently
-		 * have multiple labels on a block) */
-		if (get_Block_entity(n) != NULL)
+		 * have multiple labels on a block).  The start block has no
+		 * predecessors which could take its place, even if it is empty. */
+		if (get_Block_entity(n) != NULL
+		    || n == get_irg_start_block(get_irn_irg(n)))
 			set_Block_removable(n, false);
 		return;
 	}
-- 
2.43.0


From 7181c2ca7930635fa78c225cc4726687c7f2fe13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:36 +0000
Subject: [PATCH 50/76] fix: dead_node_elimination kept claiming postdominance
 and frontiers

The copied blocks carry no such information.
---
 ir/opt/dead_code_elimination.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ir/opt/dead_code_elimination.c b/ir/opt/dead_code_elimination.c
index 242cb34..53b336d 100644
--- a/ir/opt/dead_code_elimination.c
+++ b/ir/opt/dead_code_elimination.c
@@ -81,7 +81,10 @@ void dead_node_elimination(ir_graph *irg)
 	free_irg_outs(irg);
 	free_loop_information(irg);
 	free_vrp_data(irg);
-	clear_irg_properties(irg, IR_GRAPH_PROPERTY_CONSISTENT_DOMINANCE);
+	ir_free_dominance_frontiers(irg);
+	clear_irg_properties(irg, IR_GRAPH_PROPERTY_CONSISTENT_DOMINANCE
+	                        | IR_GRAPH_PROPERTY_CONSISTENT_POSTDOMINANCE
+	                        | IR_GRAPH_PROPERTY_CONSISTENT_DOMINANCE_FRONTIERS);
 
 	/* A quiet place, where the old obstack can rest in peace,
 	   until it will be cremated. */
-- 
2.43.0


From ce2774f5b813449e5e947b56a6291e2475fd4e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:36 +0000
Subject: [PATCH 51/76] fix: local_optimize_node left stale claims behind

Deciding a Switch, replacing Loads by Tuples etc. while optimising locally
invalidates more than dominance: postdominance, dominance frontiers, and the
absence of Bads, Tuples and unreachable code stayed claimed.
---
 ir/opt/irgopt.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/ir/opt/irgopt.c b/ir/opt/irgopt.c
index f901a44..9132b91 100644
--- a/ir/opt/irgopt.c
+++ b/ir/opt/irgopt.c
@@ -43,7 +43,16 @@ void local_optimize_node(ir_node *n)
 
 	if (get_opt_global_cse())
 		set_irg_pinned(irg, op_pin_state_floats);
-	clear_irg_properties(irg, IR_GRAPH_PROPERTY_CONSISTENT_DOMINANCE);
+	/* Branches may be decided, Loads and Stores replaced. */
+	clear_irg_properties(irg, IR_GRAPH_PROPERTY_NO_BADS
+	                        | IR_GRAPH_PROPERTY_NO_TUPLES
+	                        | IR_GRAPH_PROPERTY_NO_UNREACHABLE_CODE
+	                        | IR_GRAPH_PROPERTY_CONSISTENT_DOMINANCE
+	                        | IR_GRAPH_PROPERTY_CONSISTENT_POSTDOMINANCE
+	                        | IR_GRAPH_PROPERTY_CONSISTENT_DOMINANCE_FRONTIERS
+	                        | IR_GRAPH_PROPERTY_CONSISTENT_OUTS
+	                        | IR_GRAPH_PROPERTY_CONSISTENT_LOOPINFO
+	                        | IR_GRAPH_PROPERTY_CONSISTENT_ENTITY_USAGE);
 
 	/* Clean the value_table in irg for the CSE. */
 	new_identities(irg);
-- 
2.43.0


From 474e9e53b05126efd95001223fafe40c5c14c644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:33 +0000
Subject: [PATCH 52/76] fix: lower_mux left postdominance, frontiers and loop
 information claimed

It splits blocks and inserts branches.
---
 ir/lower/lower_mux.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ir/lower/lower_mux.c b/ir/lower/lower_mux.c
index 3d25727..d5a812d 100644
--- a/ir/lower/lower_mux.c
+++ b/ir/lower/lower_mux.c
@@ -97,7 +97,12 @@ void lower_mux(ir_graph *irg, lower_mux_callback *cb_func)
 		/* Cleanup, verify the graph. */
 		ir_free_resources(irg, resources);
 
-		clear_irg_properties(irg, IR_GRAPH_PROPERTY_CONSISTENT_DOMINANCE | IR_GRAPH_PROPERTY_NO_CRITICAL_EDGES);
+		clear_irg_properties(irg, IR_GRAPH_PROPERTY_CONSISTENT_DOMINANCE
+		                        | IR_GRAPH_PROPERTY_CONSISTENT_POSTDOMINANCE
+		                        | IR_GRAPH_PROPERTY_CONSISTENT_DOMINANCE_FRONTIERS
+		                        | IR_GRAPH_PROPERTY_CONSISTENT_LOOPINFO
+		                        | IR_GRAPH_PROPERTY_CONSISTENT_OUTS
+		                        | IR_GRAPH_PROPERTY_NO_CRITICAL_EDGES);
 	}
 	DEL_ARR_F(env.muxes);
 }
-- 
2.43.0


From bcc24f544bf94389f12fbcfcc86f8ab69029f1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:46 +0000
Subject: [PATCH 53/76] fix: lower_switch: range checks of signed selectors
 have to be unsigned

---
 ir/lower/lower_switch.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ir/lower/lower_switch.c b/ir/lower/lower_switch.c
index a58a055..0781037 100644
--- a/ir/lower/lower_switch.c
+++ b/ir/lower/lower_switch.c
@@ -286,6 +286,13 @@ static ir_node *create_case_cond(const ir_switch_table_entry *entry,
 	} else {
 		ir_tarval *adjusted_max = tarval_sub(entry->max, entry->min);
 		ir_node   *sub          = new_rd_Sub(dbgi, block, selector, minconst);
+		ir_mode   *mode         = get_irn_mode(selector);
+		/* the range check only works with unsigned values */
+		if (mode_is_signed(mode)) {
+			mode         = find_unsigned_mode(mode);
+			sub          = new_r_Conv(block, sub, mode);
+			adjusted_max = tarval_convert_to(adjusted_max, mode);
+		}
 		ir_node   *maxconst     = new_r_Const(irg, adjusted_max);
 		cmp = new_rd_Cmp(dbgi, block, sub, maxconst, ir_relation_less_equal);
 	}
-- 
2.43.0


From f94b09065e869a35d6f631cb23bc94347fc66a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:46 +0000
Subject: [PATCH 54/76] fix: irarch: no Mulh for modes below 32 bit and none in
 Bad blocks

---
 ir/ir/irarch.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/ir/ir/irarch.c b/ir/ir/irarch.c
index 6e4fe64..659ff0b 100644
--- a/ir/ir/irarch.c
+++ b/ir/ir/irarch.c
@@ -48,7 +48,9 @@ void ir_arch_lower(ir_settings_arch_dep_t const *const new_settings)
 /** check, whether a mode allows a Mulh instruction. */
 static bool allow_Mulh(ir_mode *mode)
 {
-	if (get_mode_size_bits(mode) > settings.max_bits_for_mulh)
+	unsigned const bits = get_mode_size_bits(mode);
+	/* the backends have no Mulh for less than a word */
+	if (bits < 32 || bits > settings.max_bits_for_mulh)
 		return false;
 	return mode_is_signed(mode) ? settings.allow_mulhs : settings.allow_mulhu;
 }
@@ -865,7 +867,7 @@ static ir_node *replace_div_by_mulh(ir_node *div, ir_tarval *tv)
 			ir_node *increment = new_rd_Builtin(dbg, block, no_mem, 1, in,
 			                                    ir_bk_saturating_increment, utype);
 
-			n = new_r_Proj(increment, mode_Iu, pn_Builtin_max + 1);
+			n = new_r_Proj(increment, mode, pn_Builtin_max + 1);
 		}
 
 		/* generate the Mulh instruction */
@@ -1044,9 +1046,11 @@ ir_node *arch_dep_replace_mod_by_const(ir_node *irn)
 		}
 	/* other constant */
 	} else if (allow_Mulh(mode)) {
-		res = replace_div_by_mulh(irn, tv);
-		res = new_rd_Mul(dbg, block, res, c);
-		res = new_rd_Sub(dbg, block, left, res);
+		ir_node *const quot = replace_div_by_mulh(irn, tv);
+		if (quot != irn) {
+			res = new_rd_Mul(dbg, block, quot, c);
+			res = new_rd_Sub(dbg, block, left, res);
+		}
 	}
 
 	return res;
-- 
2.43.0


From 14b6819a8093eea36af0b8293067643284da7e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:46 +0000
Subject: [PATCH 55/76] fix: amd64: extend the operands of divisions on less
 than 32 bits

---
 ir/be/amd64/amd64_transform.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ir/be/amd64/amd64_transform.c b/ir/be/amd64/amd64_transform.c
index a8048a8..d2f69a0 100644
--- a/ir/be/amd64/amd64_transform.c
+++ b/ir/be/amd64/amd64_transform.c
@@ -1320,6 +1320,9 @@ static ir_node *gen_Shrs(ir_node *const node)
 	                       match_immediate);
 }
 
+static ir_node *extend_if_necessary(dbg_info *dbgi, ir_node *block,
+                                    ir_node *value);
+
 static ir_node *create_div(ir_node *const node, ir_mode *const mode,
                            ir_node *const op1, ir_node *const op2,
                            ir_node *const mem)
@@ -1328,8 +1331,9 @@ static ir_node *create_div(ir_node *const node, ir_mode *const mode,
 	ir_node        *const new_block = be_transform_nodes_block(node);
 	x86_insn_size_t const size      = get_size_32_64_from_mode(mode);
 
-	ir_node *const new_op1 = be_transform_node(op1);
-	ir_node *const new_op2 = be_transform_node(op2);
+	/* there is no division on less than 32 bits, so extend the operands */
+	ir_node *const new_op1 = extend_if_necessary(dbgi, new_block, op1);
+	ir_node *const new_op2 = extend_if_necessary(dbgi, new_block, op2);
 	ir_node *const new_mem = be_transform_node(mem);
 	ir_node *upper_value;
 	ir_node *(*constructor)(dbg_info*, ir_node*, int, ir_node *const*,
-- 
2.43.0


From 2288b5b8b153f43faf8a183074c2af5cd9b75bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:04 +0000
Subject: [PATCH 56/76] fix: lower_mux: the new Phi may be optimized to one of
 its values

---
 ir/lower/lower_mux.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ir/lower/lower_mux.c b/ir/lower/lower_mux.c
index d5a812d..732e47e 100644
--- a/ir/lower/lower_mux.c
+++ b/ir/lower/lower_mux.c
@@ -63,7 +63,9 @@ static void lower_mux_node(ir_node* mux)
 	ir_mode *mode = get_irn_mode(mux);
 	ir_node *phi  = new_r_Phi(lower_block, ARRAY_SIZE(mux_values), mux_values,
 	                          mode);
-	collect_new_phi_node(phi);
+	/* the Phi may have been optimized to one of the values */
+	if (is_Phi(phi) && get_nodes_block(phi) == lower_block)
+		collect_new_phi_node(phi);
 	exchange(mux, phi);
 
 	/* Add links and update phi node lists, for the next part_block() call.
-- 
2.43.0


From 75a382fe29c1f787f0d881d798c6d40e33c0226e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:18 +0000
Subject: [PATCH 57/76] fix: amd64: conversions from float to 64-bit integers
 used a 32-bit register

---
 ir/be/amd64/amd64_transform.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ir/be/amd64/amd64_transform.c b/ir/be/amd64/amd64_transform.c
index d2f69a0..0c367a0 100644
--- a/ir/be/amd64/amd64_transform.c
+++ b/ir/be/amd64/amd64_transform.c
@@ -2617,6 +2617,9 @@ static ir_node *gen_Conv(ir_node *const node)
 		 /* In this case the size of the the floating point mode is irrelevant
 		  * and could result in invalid register sizes. */
 		size = x86_size_from_mode(src_mode);
+	} else if (src_float && !dst_float) {
+		/* The size of the integer register counts. */
+		size = x86_size_from_mode(dst_mode);
 	} else {
 		size = x86_size_from_mode(min_mode);
 	}
-- 
2.43.0


From f1854b79aaeee7eab40702405aaa9ad28e3b9178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:02 +0000
Subject: [PATCH 58/76] fix: backends took the upper bits of converted floats
 for clean in modes smaller than the destination

---
 ir/be/amd64/amd64_transform.c | 12 ++++--------
 ir/be/betranshlp.c            | 11 +++++++----
 2 files changed, 11 insertions(+), 12 deletions(-)

diff --git a/ir/be/amd64/amd64_transform.c b/ir/be/amd64/amd64_transform.c
index 0c367a0..1cfbab3 100644
--- a/ir/be/amd64/amd64_transform.c
+++ b/ir/be/amd64/amd64_transform.c
@@ -2617,9 +2617,6 @@ static ir_node *gen_Conv(ir_node *const node)
 		 /* In this case the size of the the floating point mode is irrelevant
 		  * and could result in invalid register sizes. */
 		size = x86_size_from_mode(src_mode);
-	} else if (src_float && !dst_float) {
-		/* The size of the integer register counts. */
-		size = x86_size_from_mode(dst_mode);
 	} else {
 		size = x86_size_from_mode(min_mode);
 	}
@@ -2662,12 +2659,11 @@ static ir_node *gen_Conv(ir_node *const node)
 	} else if (src_float && !dst_float) {
 		/* float to int */
 
-		if (!mode_is_signed(dst_mode) && dst_bits <= 32) {
-			/* The conversion is signed only; simply use 64-bit register*/
-			size = X86_SIZE_64;
-		} else if (!mode_is_signed(dst_mode) && dst_bits == 64) {
+		if (!mode_is_signed(dst_mode) && dst_bits == 64)
 			panic("cannot convert floating point to 64-bit unsigned");
-		}
+		/* The conversion is signed only; simply use a 64-bit register. This
+		 * also extends the result properly (see be_upper_bits_clean()). */
+		size = X86_SIZE_64;
 
 		if (src_bits == 32) {
 			conv   = new_bd_amd64_cvttss2si(dbgi, block, n_in, in,
diff --git a/ir/be/betranshlp.c b/ir/be/betranshlp.c
index 7337877..c79e1fc 100644
--- a/ir/be/betranshlp.c
+++ b/ir/be/betranshlp.c
@@ -415,11 +415,14 @@ static bool conv_upper_bits_clean(const ir_node *node, ir_mode *mode)
 	ir_mode       *dest_mode = get_irn_mode(node);
 	const ir_node *op        = get_Conv_op(node);
 	ir_mode       *src_mode  = get_irn_mode(op);
-	if (mode_is_float(src_mode))
-		return true;
+	unsigned       src_bits  = get_mode_size_bits(src_mode);
+	unsigned       dest_bits = get_mode_size_bits(dest_mode);
+	if (mode_is_float(src_mode)) {
+		/* the value is representable in the destination mode */
+		return dest_bits <= get_mode_size_bits(mode)
+		    && mode_is_signed(dest_mode) == mode_is_signed(mode);
+	}
 
-	unsigned src_bits  = get_mode_size_bits(src_mode);
-	unsigned dest_bits = get_mode_size_bits(dest_mode);
 	/* downconvs are a nop */
 	if (src_bits >= dest_bits)
 		return be_upper_bits_clean(op, mode);
-- 
2.43.0


From 5d6aff2fc32f990fb844d720dd0c738c180de6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:11 +0000
Subject: [PATCH 59/76] fix: (C1 - x) + C2 was reassociated for floats without
 permission

---
 ir/opt/iropt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ir/opt/iropt.c b/ir/opt/iropt.c
index 214f409..6be6742 100644
--- a/ir/opt/iropt.c
+++ b/ir/opt/iropt.c
@@ -3131,7 +3131,7 @@ static ir_node *transform_node_Add(ir_node *n)
 					return new_rd_Confirm(dbgi, block, add, cnst, ir_relation_less_equal);
 				}
 			}
-		} else if (is_Sub(a)) {
+		} else if (is_Sub(a) && (!mode_is_float(mode) || ir_imprecise_float_transforms_allowed())) {
 			const ir_node *sub_l = get_Sub_left(a);
 			ir_tarval     *ts    = value_of(sub_l);
 
-- 
2.43.0


From c73b40ea4397cf634f994ecb43327d127d9d0068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:51 +0000
Subject: [PATCH 60/76] fix: amd64: the jump table index used the undefined
 upper half of a 32-bit selector

---
 ir/be/amd64/amd64_transform.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/ir/be/amd64/amd64_transform.c b/ir/be/amd64/amd64_transform.c
index 1cfbab3..0c46821 100644
--- a/ir/be/amd64/amd64_transform.c
+++ b/ir/be/amd64/amd64_transform.c
@@ -1692,16 +1692,26 @@ static ir_node *gen_Jmp(ir_node *const node)
 	return new_bd_amd64_jmp(dbgi, new_block);
 }
 
+static ir_node *gen_extend(dbg_info *dbgi, ir_node *block, ir_node *value,
+                           ir_mode *from);
+
 static ir_node *gen_Switch(ir_node *const node)
 {
 	ir_graph *irg       = get_irn_irg(node);
 	ir_node  *new_block = be_transform_nodes_block(node);
 	ir_node  *sel       = get_Switch_selector(node);
 	dbg_info *dbgi      = get_irn_dbg_info(node);
-	ir_node  *new_sel   = be_transform_node(sel);
+	ir_mode  *sel_mode  = get_irn_mode(sel);
 	const ir_switch_table *table  = get_Switch_table(node);
 	unsigned               n_outs = get_Switch_n_outs(node);
 
+	/* The selector is used as 64-bit index of the jump table. */
+	bool     const extended = get_mode_size_bits(sel_mode) >= 64
+	                       || be_upper_bits_clean(sel, sel_mode);
+	ir_node *const new_sel  = extended
+		? be_transform_node(sel)
+		: gen_extend(dbgi, new_block, sel, sel_mode);
+
 	ir_type   *const utype = get_unknown_type();
 	ir_entity *const entity
 		= new_global_entity(irp->dummy_owner, id_unique("TBL"), utype,
-- 
2.43.0


From 75d384abfa14fdb2b1db054e9b93cb82ea21a14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:26 +0000
Subject: [PATCH 61/76] fix: ia32: the jump table access of PIC code was moved
 above the range check

---
 ir/be/ia32/ia32_transform.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ir/be/ia32/ia32_transform.c b/ir/be/ia32/ia32_transform.c
index f051e49..c7e0630 100644
--- a/ir/be/ia32/ia32_transform.c
+++ b/ir/be/ia32/ia32_transform.c
@@ -2814,6 +2814,8 @@ static ir_node *gen_Switch(ir_node *node)
 		ir_node *const add = new_bd_ia32_Add(dbgi, block, base, new_sel, nomem,
 		                                     base, noreg_GP, X86_SIZE_32);
 		set_ia32_commutative(add);
+		/* Reads the jump table: must not move before the range check. */
+		set_irn_pinned(add, true);
 		table_am = add;
 		switchjmp = new_bd_ia32_SwitchJmp(dbgi, block, add, noreg_GP, n_outs,
 		                                  table, entity);
-- 
2.43.0


From 3389193840fb1dc40d74572e8e41ea0a1cafd983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:22 +0000
Subject: [PATCH 62/76] fix: ia32: every 16 bit rotation became a byte swap
 when optimizing for size

---
 ir/be/ia32/ia32_optimize.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ir/be/ia32/ia32_optimize.c b/ir/be/ia32/ia32_optimize.c
index c967440..8a2aa20 100644
--- a/ir/be/ia32/ia32_optimize.c
+++ b/ir/be/ia32/ia32_optimize.c
@@ -1065,6 +1065,13 @@ static void peephole_ia32_Rol(ir_node *node)
 {
 	ia32_attr_t const *const attr = get_ia32_attr_const(node);
 	if (attr->size == X86_SIZE_16) {
+		ir_node *const count = get_irn_n(node, n_ia32_Rol_count);
+		if (!is_ia32_Immediate(count))
+			return;
+		x86_imm32_t const *const imm
+			= &get_ia32_immediate_attr_const(count)->imm;
+		if (imm->entity != NULL || (imm->offset & 0x1F) != 8)
+			return;
 		arch_register_t const *const reg
 			= arch_get_irn_register_out(node, pn_ia32_Rol_res);
 		if (is_hl_register(reg)) {
-- 
2.43.0


From c9ef3f262ce501690ddd79956bbff72d4fffc5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:27 +0000
Subject: [PATCH 63/76] fix: x86: parameter values were reloaded after the
 program wrote to the parameter entity

---
 ir/be/ia32/x86_cconv.c | 17 ++++++++++++++++-
 ir/be/ia32/x86_cconv.h |  2 ++
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/ir/be/ia32/x86_cconv.c b/ir/be/ia32/x86_cconv.c
index dad4887..72c9e6e 100644
--- a/ir/be/ia32/x86_cconv.c
+++ b/ir/be/ia32/x86_cconv.c
@@ -33,6 +33,9 @@ void x86_create_parameter_loads(ir_graph *irg, const x86_cconv_t *cconv)
 	ir_node *nomem       = get_irg_no_mem(irg);
 	ir_node *frame       = get_irg_frame(irg);
 	ir_node *proj_args   = get_Proj_for_pn(start, pn_Start_T_args);
+	ir_node *initial_mem = get_irg_initial_mem(irg);
+	ir_node *mem         = initial_mem;
+	ir_node *first_load  = NULL;
 	foreach_out_edge_safe(proj_args, edge) {
 		ir_node *proj = get_edge_src_irn(edge);
 		if (!is_Proj(proj))
@@ -46,10 +49,21 @@ void x86_create_parameter_loads(ir_graph *irg, const x86_cconv_t *cconv)
 		ir_mode  *const mode   = get_type_mode(type);
 		dbg_info *const dbgi   = get_irn_dbg_info(proj);
 		ir_node  *const member = new_rd_Member(dbgi, start_block, frame, entity);
-		ir_node  *const load   = new_rd_Load(dbgi, start_block, nomem, member, mode, type, cons_none);
+		/* The program may write to the entity: load before everything else. */
+		ir_node  *const in_mem = param->accessed ? mem : nomem;
+		ir_node  *const load   = new_rd_Load(dbgi, start_block, in_mem, member, mode, type, cons_none);
 		ir_node  *const res    = new_r_Proj(load, mode, pn_Load_res);
+		if (param->accessed) {
+			mem = new_r_Proj(load, mode_M, pn_Load_M);
+			if (first_load == NULL)
+				first_load = load;
+		}
 		exchange(proj, res);
 	}
+	if (first_load != NULL) {
+		edges_reroute_except(initial_mem, mem, first_load);
+		set_irg_initial_mem(irg, initial_mem);
+	}
 }
 
 void x86_layout_param_entities(ir_graph *const irg, x86_cconv_t *const cconv,
@@ -67,6 +81,7 @@ void x86_layout_param_entities(ir_graph *const irg, x86_cconv_t *const cconv,
 			continue;
 
 		ir_entity *entity = param_map[p];
+		param->accessed = entity != NULL;
 		if (entity == NULL)
 			entity = new_parameter_entity(frame_type, p, param->type);
 		param->entity = entity;
diff --git a/ir/be/ia32/x86_cconv.h b/ir/be/ia32/x86_cconv.h
index 9659a6a..63681d5 100644
--- a/ir/be/ia32/x86_cconv.h
+++ b/ir/be/ia32/x86_cconv.h
@@ -25,6 +25,8 @@ typedef struct reg_or_stackslot_t
 	 * call. Undefined if a register is used. */
 	unsigned               offset;
 	ir_entity             *entity; /**< entity in frame type */
+	/** The program itself accesses the entity, so it may change the value. */
+	bool                   accessed;
 } reg_or_stackslot_t;
 
 /** The calling convention info for one call site. */
-- 
2.43.0


From 397021d2168518d2a23f1b9b51b045d8146a6593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:09 +0000
Subject: [PATCH 64/76] fix: lower_mux: constant selectors invalidated the
 lists of start block nodes

---
 ir/lower/lower_mux.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ir/lower/lower_mux.c b/ir/lower/lower_mux.c
index 732e47e..f267e4b 100644
--- a/ir/lower/lower_mux.c
+++ b/ir/lower/lower_mux.c
@@ -92,9 +92,13 @@ void lower_mux(ir_graph *irg, lower_mux_callback *cb_func)
 		ir_reserve_resources(irg, resources);
 		collect_phiprojs_and_start_block_nodes(irg);
 
+		/* A Cond folded to Jmp and Bad would invalidate the collected lists. */
+		int const rem_opt = get_optimize();
+		set_optimize(0);
 		for (size_t i = 0; i < n_muxes; ++i) {
 			lower_mux_node(env.muxes[i]);
 		}
+		set_optimize(rem_opt);
 
 		/* Cleanup, verify the graph. */
 		ir_free_resources(irg, resources);
-- 
2.43.0


From 54261f69aa1e162b19b0f0bf09e382e690b3d979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:16 +0000
Subject: [PATCH 65/76] fix: copy coalescing depended on the addresses of nodes

The nodes of an affinity chunk were sorted by their addresses and visited in
this order, so the assigned registers changed with the layout of the heap.
Sort them by their index. Do not search the array while it has holes.
---
 ir/be/becopyheur4.c | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/ir/be/becopyheur4.c b/ir/be/becopyheur4.c
index f70c9fe..fda66f3 100644
--- a/ir/be/becopyheur4.c
+++ b/ir/be/becopyheur4.c
@@ -320,7 +320,9 @@ static inline void delete_aff_chunk(aff_chunk_t *c)
 }
 
 /**
- * binary search of sorted nodes.
+ * binary search of nodes sorted by their index.
+ * The order must not depend on the addresses of the nodes, because the nodes
+ * of a chunk are visited in this order.
  *
  * @return the position where n is found in the array arr or ~pos
  * if the nodes is not here.
@@ -329,13 +331,14 @@ static inline int nodes_bsearch(const ir_node **arr, const ir_node *n)
 {
 	unsigned hi = ARR_LEN(arr);
 	unsigned lo = 0;
+	unsigned idx = get_irn_idx(n);
 
 	while (lo < hi) {
 		unsigned md = lo + ((hi - lo) / 2);
 
 		if (arr[md] == n)
 			return md;
-		if (arr[md] < n)
+		if (get_irn_idx(arr[md]) < idx)
 			lo = md + 1;
 		else
 			hi = md;
@@ -1178,16 +1181,10 @@ static void color_aff_chunk(co_mst_env_t *env, aff_chunk_t *c)
 	}
 
 	/* remove the nodes in best chunk from original chunk */
-	for (size_t idx = 0, len = ARR_LEN(best_chunk->n); idx < len; ++idx) {
-		const ir_node *irn = best_chunk->n[idx];
-		int            pos = nodes_bsearch(c->n, irn);
-		if (pos > 0)
-			c->n[pos] = NULL;
-	}
 	size_t nidx = 0;
 	for (size_t idx = 0, len = ARR_LEN(c->n); idx < len; ++idx) {
 		const ir_node *irn = c->n[idx];
-		if (irn != NULL) {
+		if (!node_contains(best_chunk->n, irn)) {
 			c->n[nidx++] = irn;
 		}
 	}
-- 
2.43.0


From df0175a0fee1aa46326fb35b607255922c414393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:03 +0000
Subject: [PATCH 66/76] fix: live nodes were visited in the order of their
 addresses

The live sets of a block are sorted arrays; sorting by address made the
result of the preference register allocator depend on the layout of the
heap. Sort by node index.
---
 ir/be/belive.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/ir/be/belive.c b/ir/be/belive.c
index 1a34ce9..bfab30c 100644
--- a/ir/be/belive.c
+++ b/ir/be/belive.c
@@ -30,22 +30,27 @@ DEBUG_ONLY(static firm_dbg_module_t *dbg = NULL;)
 
 #define LV_STD_SIZE             63
 
+/**
+ * The nodes are sorted by their index: their addresses must not influence the
+ * order in which the live nodes of a block are visited.
+ */
 static unsigned _be_liveness_bsearch(be_lv_info_t const *const arr, ir_node const *const node)
 {
 	unsigned const n = arr->n_members;
 	if (n == 0)
 		return 0;
 
-	unsigned lo = 0;
-	unsigned hi = n;
-	unsigned res;
+	unsigned const idx = get_irn_idx(node);
+	unsigned       lo  = 0;
+	unsigned       hi  = n;
+	unsigned       res;
 	do {
-		unsigned md      = lo + ((hi - lo) >> 1);
-		ir_node *md_node = arr->nodes[md].node;
+		unsigned md     = lo + ((hi - lo) >> 1);
+		unsigned md_idx = get_irn_idx(arr->nodes[md].node);
 
-		if (node > md_node) {
+		if (idx > md_idx) {
 			lo = md + 1;
-		} else if (node < md_node) {
+		} else if (idx < md_idx) {
 			hi = md;
 		} else {
 			res = md;
-- 
2.43.0


From 1542ed2feb84855f628cc22c67b571df0d9da368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:21 +0000
Subject: [PATCH 67/76] fix: riscv, mips: the memory result of Div and Mod was
 left in the old graph

---
 ir/be/mips/mips_transform.c   | 4 ++--
 ir/be/riscv/riscv_transform.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ir/be/mips/mips_transform.c b/ir/be/mips/mips_transform.c
index 974036b..28a087d 100644
--- a/ir/be/mips/mips_transform.c
+++ b/ir/be/mips/mips_transform.c
@@ -885,7 +885,7 @@ static ir_node *gen_Proj_Div(ir_node *const node)
 	ir_node *const pred = get_Proj_pred(node);
 	unsigned const pn   = get_Proj_num(node);
 	switch ((pn_Div)pn) {
-	case pn_Div_M:   return get_Div_mem(pred);
+	case pn_Div_M:   return be_transform_node(get_Div_mem(pred));
 	case pn_Div_res: return be_transform_node(pred);
 	case pn_Div_X_regular:
 	case pn_Div_X_except:
@@ -914,7 +914,7 @@ static ir_node *gen_Proj_Mod(ir_node *const node)
 	ir_node *const pred = get_Proj_pred(node);
 	unsigned const pn   = get_Proj_num(node);
 	switch ((pn_Mod)pn) {
-	case pn_Mod_M:   return get_Mod_mem(pred);
+	case pn_Mod_M:   return be_transform_node(get_Mod_mem(pred));
 	case pn_Mod_res: return be_transform_node(pred);
 	case pn_Mod_X_regular:
 	case pn_Mod_X_except:
diff --git a/ir/be/riscv/riscv_transform.c b/ir/be/riscv/riscv_transform.c
index e4a4a6e..76035e8 100644
--- a/ir/be/riscv/riscv_transform.c
+++ b/ir/be/riscv/riscv_transform.c
@@ -906,7 +906,7 @@ static ir_node *gen_Proj_Div(ir_node *const node)
 	ir_node *const pred = get_Proj_pred(node);
 	unsigned const pn   = get_Proj_num(node);
 	switch ((pn_Div)pn) {
-	case pn_Div_M:   return get_Div_mem(pred);
+	case pn_Div_M:   return be_transform_node(get_Div_mem(pred));
 	case pn_Div_res: return be_transform_node(pred);
 	case pn_Div_X_regular:
 	case pn_Div_X_except:
@@ -935,7 +935,7 @@ static ir_node *gen_Proj_Mod(ir_node *const node)
 	ir_node *const pred = get_Proj_pred(node);
 	unsigned const pn   = get_Proj_num(node);
 	switch ((pn_Mod)pn) {
-	case pn_Mod_M:   return get_Mod_mem(pred);
+	case pn_Mod_M:   return be_transform_node(get_Mod_mem(pred));
 	case pn_Mod_res: return be_transform_node(pred);
 	case pn_Mod_X_regular:
 	case pn_Mod_X_except:
-- 
2.43.0


From 599c0fc3ea710dafea5e468864fb6c1a4b495a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:30 +0000
Subject: [PATCH 68/76] fix: import: members of imported types with equal names
 were merged

---
 ir/ir/irio.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/ir/ir/irio.c b/ir/ir/irio.c
index df9c5ad..0017b3e 100644
--- a/ir/ir/irio.c
+++ b/ir/ir/irio.c
@@ -1756,6 +1756,16 @@ extend_env:
 	set_id(env, typenr, type);
 }
 
+/** Checks whether the type existed before the import. */
+static bool is_initial_type(ir_type const *const type)
+{
+	for (int i = 0; i < n_initial_types; ++i) {
+		if (get_irp_type(i) == type)
+			return true;
+	}
+	return false;
+}
+
 static void read_unknown_entity(read_env_t *env)
 {
 	long       entnr  = read_long(env);
@@ -1819,7 +1829,7 @@ static void read_entity(read_env_t *env, ir_entity_kind kind)
 		unsigned    bitfield_size   = read_int(env);
 
 		// Try to deduplicate compound_members added by ir_init()
-		for (int i = 0, n = get_compound_n_members(owner); i < n; ++i) {
+		for (int i = 0, n = is_initial_type(owner) ? get_compound_n_members(owner) : 0; i < n; ++i) {
 			ir_entity *e = get_compound_member(owner, i);
 			if (e->type == type
 				&& streq_null(e->name, name)
-- 
2.43.0


From e3b269b72d72d1bc54b8abf89da801e578a7a9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:30 +0000
Subject: [PATCH 69/76] fix: import: constants of mode_b could not be read

---
 ir/tv/tv.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ir/tv/tv.c b/ir/tv/tv.c
index d11bfdc..d669464 100644
--- a/ir/tv/tv.c
+++ b/ir/tv/tv.c
@@ -1162,8 +1162,9 @@ ir_tarval *ir_tarval_from_ascii(const char *buf, ir_mode *mode)
 {
 	size_t len = strlen(buf);
 	switch (get_mode_sort(mode)) {
-	case irms_reference:
 	case irms_internal_boolean:
+		return streq(buf, "0") ? tarval_b_false : tarval_b_true;
+	case irms_reference:
 	case irms_int_number:
 		return new_integer_tarval_from_str(buf, len, false, 16, mode);
 	case irms_float_number: {
-- 
2.43.0


From a0c83dde170e217afbcfcb16dda0c290c926f1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:30 +0000
Subject: [PATCH 70/76] fix: import: the name of the program could not be read

---
 ir/ir/irio.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ir/ir/irio.c b/ir/ir/irio.c
index 0017b3e..5509a4b 100644
--- a/ir/ir/irio.c
+++ b/ir/ir/irio.c
@@ -61,6 +61,7 @@ typedef enum keyword_t {
 	kw_label,
 	kw_method,
 	kw_modes,
+	kw_name,
 	kw_parameter,
 	kw_program,
 	kw_reference_mode,
@@ -212,6 +213,7 @@ static void symtbl_init(void)
 	INSERTKEYWORD(label);
 	INSERTKEYWORD(method);
 	INSERTKEYWORD(modes);
+	INSERTKEYWORD(name);
 	INSERTKEYWORD(parameter);
 	INSERTKEYWORD(program);
 	INSERTKEYWORD(reference_mode);
@@ -2235,6 +2237,11 @@ static void read_program(read_env_t *env)
 			add_irp_asm(text);
 			break;
 		}
+		case kw_name: {
+			ident *name = read_ident(env);
+			set_irp_prog_name(name);
+			break;
+		}
 		default:
 			parse_error(env, "unexpected keyword %d\n", kwkind);
 			skip_to(env, '\n');
-- 
2.43.0


From 37a9a9976abf13221027a84e88c4f1f62cc54de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:30 +0000
Subject: [PATCH 71/76] fix: textual format: the linker names of aliases and
 the linkage no_codegen and no_identity were lost

---
 ir/ir/irio.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ir/ir/irio.c b/ir/ir/irio.c
index 5509a4b..cdbcdfa 100644
--- a/ir/ir/irio.c
+++ b/ir/ir/irio.c
@@ -188,6 +188,8 @@ static void symtbl_init(void)
 	INSERT(tt_linkage, "garbage_collect", IR_LINKAGE_GARBAGE_COLLECT);
 	INSERT(tt_linkage, "merge", IR_LINKAGE_MERGE);
 	INSERT(tt_linkage, "hidden_user", IR_LINKAGE_HIDDEN_USER);
+	INSERT(tt_linkage, "no_codegen", IR_LINKAGE_NO_CODEGEN);
+	INSERT(tt_linkage, "no_identity", IR_LINKAGE_NO_IDENTITY);
 
 	INSERT(tt_loop, "loop",   true);
 	INSERT(tt_loop, "noloop", false);
@@ -723,6 +725,10 @@ static void write_entity(write_env_t *env, ir_entity *ent)
 		write_symbol(env, "merge");
 	if (linkage & IR_LINKAGE_HIDDEN_USER)
 		write_symbol(env, "hidden_user");
+	if (linkage & IR_LINKAGE_NO_CODEGEN)
+		write_symbol(env, "no_codegen");
+	if (linkage & IR_LINKAGE_NO_IDENTITY)
+		write_symbol(env, "no_identity");
 	write_list_end(env);
 
 	write_type_ref(env, type);
@@ -1807,6 +1813,8 @@ static void read_entity(read_env_t *env, ir_entity_kind kind)
 	case IR_ENTITY_ALIAS: {
 		ir_entity *aliased = read_entity_ref(env);
 		entity = new_alias_entity(owner, name, aliased, type, visibility);
+		if (ld_name != NULL)
+			set_entity_ld_ident(entity, ld_name);
 		break;
 	}
 	case IR_ENTITY_NORMAL:
-- 
2.43.0


From 30bb57c2df1d7725ec446157c25eb47f55d6649f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:23 +0000
Subject: [PATCH 72/76] fix: irmemory: references were claimed to be surely
 aliased that may be apart

---
 ir/ana/irmemory.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/ir/ana/irmemory.c b/ir/ana/irmemory.c
index 3e954be..2986777 100644
--- a/ir/ana/irmemory.c
+++ b/ir/ana/irmemory.c
@@ -339,7 +339,8 @@ static ir_alias_relation _get_alias_relation(const ir_node *addr1, const ir_type
 			first_size = size2;
 		}
 
-		return first_offset + first_size <= last_offset
+		/* the offsets may be negative, so only their distance can be compared */
+		return first_size <= last_offset - first_offset
 		     ? ir_no_alias : ir_sure_alias;
 	}
 
@@ -352,8 +353,9 @@ static ir_alias_relation _get_alias_relation(const ir_node *addr1, const ir_type
 	/* two struct accesses -> compare entities */
 	if (ent1 != NULL && ent2 != NULL) {
 		if (ent1 == ent2) {
+			/* possibly different elements of the same array */
 			if (base1 == base2)
-				return ir_sure_alias;
+				return ir_may_alias;
 			goto check_classes;
 		}
 		ir_type *owner1 = get_entity_owner(ent1);
@@ -418,16 +420,19 @@ pointer:
 			ir_entity *entity2 = get_Member_entity(base2);
 			return entity1 != entity2 ? ir_no_alias : ir_may_alias;
 		} else if (class1 == ir_sc_globaladdr) {
+			if (info1.sym_offset != info2.sym_offset || !info1.has_const_offset || !info2.has_const_offset)
+				return ir_may_alias;
+
 			offset1 += get_Const_long(base1);
 			offset2 += get_Const_long(base2);
 
-			unsigned type_size = MAX(size1, size2);
-			if ((unsigned long)labs(offset2 - offset1) >= type_size)
+			unsigned first_size = offset1 <= offset2 ? size1 : size2;
+			if ((unsigned long)labs(offset2 - offset1) >= first_size)
 				return ir_no_alias;
 			else
 				return ir_sure_alias;
 		} else if (class1 == ir_sc_malloced) {
-			return base1 == base2 ? ir_sure_alias : ir_no_alias;
+			return base1 == base2 ? ir_may_alias : ir_no_alias;
 		}
 	}
 
-- 
2.43.0


From 71460427e80ec59b58432b2b7c1d5d6b9d063ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:23 +0000
Subject: [PATCH 73/76] fix: inheritance: the transitive closure missed classes
 of hierarchies with multiple inheritance

---
 ir/tr/tr_inheritance.c | 89 ++++++------------------------------------
 1 file changed, 11 insertions(+), 78 deletions(-)

diff --git a/ir/tr/tr_inheritance.c b/ir/tr/tr_inheritance.c
index 05ca236..d2d049c 100644
--- a/ir/tr/tr_inheritance.c
+++ b/ir/tr/tr_inheritance.c
@@ -121,31 +121,19 @@ static pset *get_type_map(const ir_type *tp, dir d)
 
 
 /**
- * Walk over all types reachable from tp in the sub/supertype
- * relation and compute the closure for the two downwards directed
- * relations.
+ * Compute the downwards directed closures of tp and of all types below it.
  *
- * The walk in the dag formed by the relation is tricky:  We must visit
- * all subtypes before visiting the supertypes.  So we first walk down.
- * Then we can compute the closure for this type.  Then we walk up.
- * As we call ourselves recursive, and walk in both directions, there
- * can be cycles.  So we have to make sure, that if we visit a node
- * a second time (in a walk up) we do nothing.  For this we increment
- * the master visited flag twice.
- * If the type is marked with master_flag_visited-1 it is on the stack.
- * If it is marked with master_flag_visited it is fully processed.
- *
- * Well, we still miss some candidates ... */
+ * The relation forms a DAG: the sets of all subtypes are complete before they
+ * are merged into the set of their supertype. */
 static void compute_down_closure(ir_type *tp)
 {
-	ir_visited_t master_visited = get_master_type_visited();
-	set_type_visited(tp, master_visited-1);
+	mark_type_visited(tp);
 
 	/* Recursive descend. */
 	size_t n_subtypes = get_class_n_subtypes(tp);
 	for (size_t i = 0; i < n_subtypes; ++i) {
 		ir_type *stp = get_class_subtype(tp, i);
-		if (get_type_visited(stp) < master_visited-1) {
+		if (!type_visited(stp)) {
 			compute_down_closure(stp);
 		}
 	}
@@ -173,29 +161,17 @@ static void compute_down_closure(ir_type *tp)
 			pset_insert_pset_ptr(myset, subset);
 		}
 	}
-
-	mark_type_visited(tp);
-
-	/* Walk up. */
-	for (size_t i = 0, n_supertypes = get_class_n_supertypes(tp);
-	     i < n_supertypes; ++i) {
-		ir_type *stp = get_class_supertype(tp, i);
-		if (get_type_visited(stp) < master_visited-1) {
-			compute_down_closure(stp);
-		}
-	}
 }
 
 static void compute_up_closure(ir_type *tp)
 {
-	ir_visited_t master_visited = get_master_type_visited();
-	set_type_visited(tp, master_visited-1);
+	mark_type_visited(tp);
 
 	/* Recursive descend. */
 	size_t n_supertypes = get_class_n_supertypes(tp);
 	for (size_t i = 0; i < n_supertypes; ++i) {
 		ir_type *stp = get_class_supertype(tp, i);
-		if (get_type_visited(stp) < get_master_type_visited()-1) {
+		if (!type_visited(stp)) {
 			compute_up_closure(stp);
 		}
 	}
@@ -222,17 +198,6 @@ static void compute_up_closure(ir_type *tp)
 			pset_insert_ptr(myset, ov);
 		}
 	}
-
-	mark_type_visited(tp);
-
-	/* Walk down. */
-	for (size_t i = 0, n_subtypes = get_class_n_subtypes(tp);
-	     i < n_subtypes; ++i) {
-		ir_type *stp = get_class_subtype(tp, i);
-		if (get_type_visited(stp) < master_visited-1) {
-			compute_up_closure(stp);
-		}
-	}
 }
 
 void compute_inh_transitive_closure(void)
@@ -241,52 +206,20 @@ void compute_inh_transitive_closure(void)
 
 	/* The 'down' relation */
 	irp_reserve_resources(irp, IRP_RESOURCE_TYPE_VISITED);
-	inc_master_type_visited();  /* Inc twice: one if on stack, second if values computed. */
 	inc_master_type_visited();
 	size_t n_types = get_irp_n_types();
 	for (size_t i = 0; i < n_types; ++i) {
 		ir_type *tp = get_irp_type(i);
-		if (is_Class_type(tp) && !type_visited(tp)) { /* For others there is nothing to accumulate. */
-			size_t n_subtypes = get_class_n_subtypes(tp);
-			int has_unmarked_subtype = 0;
-
-			assert(get_type_visited(tp) < get_master_type_visited()-1);
-			for (size_t j = 0; j < n_subtypes; ++j) {
-				ir_type *stp = get_class_subtype(tp, j);
-				if (!type_visited(stp)) {
-					has_unmarked_subtype = 1;
-					break;
-				}
-			}
-
-			/* This is a good starting point. */
-			if (!has_unmarked_subtype)
-				compute_down_closure(tp);
-		}
+		if (is_Class_type(tp) && !type_visited(tp)) /* For others there is nothing to accumulate. */
+			compute_down_closure(tp);
 	}
 
 	/* The 'up' relation */
 	inc_master_type_visited();
-	inc_master_type_visited();
 	for (size_t i = 0; i < n_types; ++i) {
 		ir_type *tp = get_irp_type(i);
-		if (is_Class_type(tp) && !type_visited(tp)) { /* For others there is nothing to accumulate. */
-			size_t n_supertypes = get_class_n_supertypes(tp);
-			int has_unmarked_supertype = 0;
-
-			assert(get_type_visited(tp) < get_master_type_visited()-1);
-			for (size_t j = 0; j < n_supertypes; ++j) {
-				ir_type *stp = get_class_supertype(tp, j);
-				if (!type_visited(stp)) {
-					has_unmarked_supertype = 1;
-					break;
-				}
-			}
-
-			/* This is a good starting point. */
-			if (!has_unmarked_supertype)
-				compute_up_closure(tp);
-		}
+		if (is_Class_type(tp) && !type_visited(tp)) /* For others there is nothing to accumulate. */
+			compute_up_closure(tp);
 	}
 
 	irp->inh_trans_closure_state = inh_transitive_closure_valid;
-- 
2.43.0


From 1711f6982d538d9a558cbbbcbd6b39b505d3046a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:41 +0000
Subject: [PATCH 74/76] fix: is_overwritten_by: the search without closure
 followed the wrong direction

---
 ir/tr/tr_inheritance.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ir/tr/tr_inheritance.c b/ir/tr/tr_inheritance.c
index d2d049c..57a9b26 100644
--- a/ir/tr/tr_inheritance.c
+++ b/ir/tr/tr_inheritance.c
@@ -359,7 +359,7 @@ int is_overwritten_by(ir_entity *high, ir_entity *low)
 	     i < n_overwrittenby; i++) {
 		ir_entity *ov = get_entity_overwrittenby(high, i);
 		if (low == ov) return 1;
-		if (is_overwritten_by(low, ov))
+		if (is_overwritten_by(ov, low))
 			return 1;
 	}
 	return 0;
-- 
2.43.0


From e72ca21c09ffdc5bdb945356007f46b05734735c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:37 +0000
Subject: [PATCH 75/76] fix: iropt: the Mod replacing a Mod of a Mod used the
 memory of the inner one

transform_node_Mod() turns (a % c1) % c2 into a % c2.  The new node took
its memory operand from the inner Mod.  That one may already have been
disconnected from memory (its memory Proj routed around it), so that the
users of the outer Mod's memory lost every side effect before it.
---
 ir/opt/iropt.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ir/opt/iropt.c b/ir/opt/iropt.c
index 6be6742..96e8186 100644
--- a/ir/opt/iropt.c
+++ b/ir/opt/iropt.c
@@ -4119,7 +4119,9 @@ static ir_node *transform_node_Mod(ir_node *n)
 						ir_node  *mod_a  = get_Mod_left(mod);
 						dbg_info *dbgi   = get_irn_dbg_info(n);
 						ir_node  *block  = get_nodes_block(n);
-						ir_node  *mem    = get_Mod_mem(mod);
+						/* the memory of the inner Mod may be from before
+						 * the side effects between the two */
+						ir_node  *mem    = get_Mod_mem(n);
 						int       pinned = get_irn_pinned(n);
 						return new_rd_Mod(dbgi, block, mem, mod_a, b, pinned);
 					}
-- 
2.43.0


From 77edb60ab3aba7337f7d17ce63669eca53713775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:24 +0000
Subject: [PATCH 76/76] fix: iropt: equal operations removed from both sides of
 a Cmp kept an ordered relation

If only some relations are possible between the operands of a Cmp, an
ordered relation may stand for (in)equality: x - 32 < x + 100 was taken for
!= because greater was impossible.  The relation was then kept for
the remaining operands, for which greater may be possible.
---
 ir/opt/iropt.c | 44 ++++++++++++++++++++++++++------------------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/ir/opt/iropt.c b/ir/opt/iropt.c
index 96e8186..e7d5266 100644
--- a/ir/opt/iropt.c
+++ b/ir/opt/iropt.c
@@ -5139,15 +5139,18 @@ restart:
 	if (rel_eq != ir_relation_false && (mode_is_int(mode) || mode_is_reference(mode))) {
 		unsigned const lop = get_irn_opcode(left);
 		if (lop == get_irn_opcode(right)) {
-			/* same operation on both sides, try to remove */
+			/* same operation on both sides, try to remove
+			 * The possible relations of the new operands may be others, so
+			 * use the plain (in)equality. */
 			switch (lop) {
 			case iro_Not:
 			case iro_Minus:
 				/* ~a CMP ~b => a CMP b, -a CMP -b ==> a CMP b */
 				assert((int)n_Minus_op == (int)n_Not_op);
-				left    = get_irn_n(left, n_Minus_op);
-				right   = get_irn_n(right, n_Not_op);
-				changed = true;
+				left     = get_irn_n(left, n_Minus_op);
+				right    = get_irn_n(right, n_Not_op);
+				relation = rel_eq;
+				changed  = true;
 				DBG_OPT_ALGSIM0(n, n);
 				goto restart;
 
@@ -5158,18 +5161,20 @@ restart:
 				ir_node *const r0 = get_commutative_other_op(right, ll);
 				if (r0) {
 					/* X op a CMP X op b ==> a CMP b */
-					left    = lr;
-					right   = r0;
-					changed = true;
+					left     = lr;
+					right    = r0;
+					relation = rel_eq;
+					changed  = true;
 					DBG_OPT_ALGSIM0(n, n);
 					goto restart;
 				} else {
 					ir_node *const r1 = get_commutative_other_op(right, lr);
 					if (r1) {
 						/* a op X CMP X op b ==> a CMP b */
-						left    = ll;
-						right   = r1;
-						changed = true;
+						left     = ll;
+						right    = r1;
+						relation = rel_eq;
+						changed  = true;
 						DBG_OPT_ALGSIM0(n, n);
 						goto restart;
 					}
@@ -5184,16 +5189,18 @@ restart:
 				ir_node *const rr = get_Sub_right(right);
 				if (ll == rl) {
 					/* X - a CMP X - b ==> a CMP b */
-					left    = lr;
-					right   = rr;
-					changed = true;
+					left     = lr;
+					right    = rr;
+					relation = rel_eq;
+					changed  = true;
 					DBG_OPT_ALGSIM0(n, n);
 					goto restart;
 				} else if (lr == rr) {
 					/* a - X CMP b - X ==> a CMP b */
-					left    = ll;
-					right   = rl;
-					changed = true;
+					left     = ll;
+					right    = rl;
+					relation = rel_eq;
+					changed  = true;
 					DBG_OPT_ALGSIM0(n, n);
 					goto restart;
 				}
@@ -5324,8 +5331,9 @@ cmp_x_eq_0:
 					ir_mode *mode = get_irn_mode(v);
 
 					tv      = tarval_sub(tv, get_mode_one(mode));
-					left    = new_rd_And(get_irn_dbg_info(op), blk, v, new_r_Const(irg, tv));
-					changed = true;
+					left     = new_rd_And(get_irn_dbg_info(op), blk, v, new_r_Const(irg, tv));
+					relation = rel_eq;
+					changed  = true;
 					DBG_OPT_ALGSIM0(n, n);
 					goto restart;
 				}
-- 
2.43.0

