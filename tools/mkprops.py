import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Integer target values follow exact two's-complement arithmetic",
"For every integer mode (any bit width, signed or unsigned) and all operands, each compile-time operation on target values (add, sub, neg, mul, high-mul, div, mod, bitwise, shifts, comparison, mode conversion, bit casts, sub-byte access, bit counts, min/max, text input and output) yields exactly the value that fixed-width two's-complement arithmetic defines. Division truncates towards zero and the remainder has the sign of the dividend; shift amounts are reduced modulo the mode's shift modulus (if it has one) and otherwise over-wide shifts give 0 or the sign (arithmetic right shifts of modes whose width is not a whole number of bytes are not defined by the library).",
["inputs"],"all modes x all operand values x all operations",
"unittests sample a handful of constants and algebraic identities; the value space is 2^128 operand pairs per operation and mode",
["ir/tv/tv.c","ir/tv/strcalc.c","include/libfirm/tv.h","ir/ir/irmode.c"],
[("byte-string arithmetic","ir/tv/strcalc.c"),("mode-dependent normalisation (carry/sign extension) and hash-consing of values","ir/tv/tv.c")],
observe=["tarval_* API results"])

p("C02","Floating target values are correctly rounded IEEE-754",
"For every binary floating-point format a mode can describe, compile-time add, sub, mul, div, negation, comparison, conversion between float formats and to/from integers, and construction from bits return the IEEE-754 round-to-nearest-even result, including subnormals, signed zeros, infinities and NaN. Operations the library declares impossible to fold are reported as such and never answered with a wrong value.",
["inputs"],"all formats (exponent x mantissa width) x all operand bit patterns",
"unittests check a few identities on float/double constants; rounding, subnormal and overflow corner cases are only visible on rare operand pairs",
["ir/tv/fltcalc.c","ir/tv/tv.c"],
[("software floating point with guard/sticky rounding","ir/tv/fltcalc.c: normalize,_fadd,_fmul,_fdiv,fc_cast"),("float<->int conversion","ir/tv/tv.c: tarval_convert_to")],
observe=["tarval_* API results on float modes"])

p("C03","Hash sets and maps behave as mathematical sets and maps",
"After any history of insertions, lookups, removals, removals during iteration and iterations (with any key distribution, hash collisions and growth/shrink included), every hash set and hash map container answers membership, lookup and size exactly as the set/map of the keys inserted and not removed. An iteration visits every element exactly once, and pointers handed out by insert/find denote the stored element.",
["histories","inputs"],"all operation histories over all keys and hash functions",
"no unit test covers these containers at all; resize, tombstone and collision paths need specific multi-step histories",
["ir/adt/hashset.c.h","ir/adt/set.c","ir/adt/pset.c","ir/adt/pset_new.c","ir/adt/cpset.c","ir/adt/pmap.c","ir/ir/irnodehashmap.c","ir/ir/irnodeset.c","ir/ir/valueset.c"],
[("linear hashing with split segments","ir/adt/set.c"),("open addressing, deleted markers, rehash thresholds","ir/adt/hashset.c.h")],
observe=["return values of the container API"])

p("C04","Deques, priority queues, bitsets and arrays behave as specified",
"After any history of operations a double-ended queue returns its items in deque order each exactly once, a priority queue always returns an element of maximal priority and loses none, a flexible array keeps its elements across resizes, and both bitset families answer every query (next/previous set or clear bit, population count, subset, range and bulk operations) exactly as the set of their bit positions, for every size including sizes that are not a multiple of the word width.",
["histories","inputs"],"all operation histories, all sizes",
"unit tests replay a few fixed sequences; wrap-around, block growth and word-boundary cases need specific histories and sizes",
["ir/adt/deq.c","ir/adt/deq.h","ir/adt/pdeq.h","ir/adt/pqueue.c","ir/adt/bitset.h","ir/adt/raw_bitset.h","ir/adt/array.c","include/libfirm/adt/array.h","include/libfirm/adt/unionfind.h","include/libfirm/adt/list.h"],
[("ring buffer growth","ir/adt/deq.c"),("binary heap","ir/adt/pqueue.c"),("word masks","ir/adt/raw_bitset.h")],
observe=["return values of the container API"])

p("C05","Names: identifiers are interned, global lookup matches entity ownership",
"Two identifiers are the same object exactly when their byte strings are equal, and an identifier's text always agrees with that string, however it was produced (from a string, a character range, a format, or as a fresh unique name). After any history of creating, renaming, moving and freeing entities, looking up a linker name yields exactly the entity that currently owns that name among the program's globals, and each compound type's member list contains exactly its current members in order.",
["histories","inputs"],"all histories of entity/type mutation and all names",
"one unit test moves one entity back and forth; collisions, renames and removals in the middle of member lists are not exercised",
["ir/ident/ident.c","ir/tr/entity.c","ir/tr/type.c","ir/ir/irprog.c"],
[("interning set","ir/ident/ident.c"),("globals map maintained by add/remove/rename","ir/tr/type.c, ir/tr/entity.c"),("member array with stable order","ir/tr/type.c")],
observe=["get_id_str/new_id_*","ir_get_global","get_compound_member/get_entity_owner"])

p("C06","SSA construction preserves the meaning of the variables",
"For every program built through the construction interface with numbered local variables and memory (blocks filled in any order, matured at any legal time, any control flow including irreducible flow and unreachable code), the resulting graph computes, on every input, exactly the results and side effects of the imperative program in which variables are mutable cells. Every use in the graph is dominated by its definition.",
["programs","inputs","histories"],"all construction histories x all inputs",
"nothing in the test suite builds a graph",
["ir/ir/ircons.c","ir/ir/irssacons.c","scripts/templates/gen_irnode.c"],
[("per-block variable arrays, Phi0 placeholders completed on maturing","ir/ir/ircons.c: get_r_value_internal, set_phi_arguments, mature_immBlock"),("SSA reconstruction","ir/ir/irssacons.c")],
state=[("graph_arr","current value of each variable at the end of each block","ir/ir/ircons.c")],
observe=["the finished ir_graph, executed by the specification"])

p("C07","Local simplification never changes what a program computes",
"Replacing nodes by simpler ones while a graph is built or re-optimised locally (constant folding, algebraic rewriting, normalisation, common-subexpression elimination, comparison and selection rewriting, conversion and shift rewriting, multiplication/division by constants) preserves, for every expression and every input, the computed results, memory effects and control-flow decisions. This holds for every integer mode, every combination of optimisation flags, and also in the late normalisation phase.",
["programs","inputs","configurations"],"all expressions over all operators/modes/constants x all operand values x flag settings",
"nothing in the test suite optimises an expression; each of the several hundred rewrite rules has its own side conditions",
["ir/opt/iropt.c","ir/opt/irgopt.c","ir/ir/irarch.c","ir/ana/constbits.c","ir/opt/convopt.c","ir/opt/reassoc.c","ir/opt/boolopt.c","ir/opt/occult_const.c"],
[("computed_value_*, equivalent_node_*, transform_node_* tables","ir/opt/iropt.c"),("magic-number division and shift/add multiplication","ir/ir/irarch.c"),("value numbering","ir/opt/iropt.c: identify_remember")],
observe=["optimised ir_graph executed by the specification against the source program"])

p("C08","Scalar and control-flow optimisations preserve program behaviour",
"Each intraprocedural optimisation of values and control flow (control-flow simplification, jump threading, boolean and conversion optimisation, combined constant propagation/value numbering, partial-redundancy elimination, reassociation, code placement, if-conversion, block-tail merging, return normalisation, unreachable/bad/tuple/critical-edge removal, range- and bit-based simplification), alone or in any sequence, leaves every terminating execution's return value, sequence of external calls with arguments, and final global memory unchanged, for every input.",
["programs","inputs","configurations"],"all programs x all inputs x all pass sequences",
"nothing in the test suite runs an optimisation",
["ir/opt/cfopt.c","ir/opt/jumpthreading.c","ir/opt/boolopt.c","ir/opt/convopt.c","ir/opt/combo.c","ir/opt/gvn_pre.c","ir/opt/reassoc.c","ir/opt/code_placement.c","ir/opt/ifconv.c","ir/opt/opt_blocks.c","ir/opt/return.c","ir/opt/unreachable.c","ir/opt/critical_edges.c","ir/opt/rm_bads.c","ir/opt/rm_tuples.c","ir/opt/opt_confirms.c","ir/ana/irconsconfirm.c"],
[("each pass's own legality conditions","ir/opt/*.c")],
observe=["ir_graph after the pass, executed by the specification"])

p("C09","Memory optimisations preserve program behaviour",
"Eliminating, forwarding, moving, combining or parallelising loads and stores, replacing aggregates by scalars, and laying out or dropping frame variables leaves every terminating execution's return value, sequence of external calls and volatile accesses, and final global memory unchanged. This holds in the presence of aliasing pointers, partially overlapping accesses of different sizes, constant-initialised memory, block copies and calls that may read or write memory.",
["programs","inputs"],"all programs with memory x all inputs x all pass sequences",
"nothing in the test suite runs a memory optimisation",
["ir/opt/opt_ldst.c","ir/opt/ldstopt.c","ir/opt/parallelize_mem.c","ir/opt/scalar_replace.c","ir/opt/opt_frame.c","ir/ana/irmemory.c"],
[("alias queries","ir/ana/irmemory.c"),("available-value/anticipation data flow","ir/opt/opt_ldst.c"),("per-graph load/store walker","ir/opt/ldstopt.c")],
observe=["ir_graph after the pass, executed by the specification"])

p("C10","Loop transformations preserve program behaviour",
"Loop inversion, peeling, unrolling (fixed and variable factor), operator strength reduction, linear function test replacement, phi-cycle removal and loop-closed SSA construction leave every terminating execution's return value, external calls and final memory unchanged for every trip count (zero, one, not a multiple of the unroll factor, wrapping induction variables), every step and every exit structure.",
["programs","inputs"],"all loops x all inputs",
"nothing in the test suite transforms a loop",
["ir/opt/loop.c","ir/opt/loop_unrolling.c","ir/opt/opt_osr.c","ir/opt/lcssa.c"],
[("loop copying with phi repair","ir/opt/loop.c"),("Duff-like/constant unrolling","ir/opt/loop_unrolling.c"),("induction variable rewriting","ir/opt/opt_osr.c")],
observe=["ir_graph after the pass, executed by the specification"])

p("C11","Whole-program transformations preserve program behaviour",
"Inlining, tail-recursion elimination, procedure cloning, pure/const/noreturn-call optimisation, calling-convention adjustment and removal of unused functions and variables leave the behaviour of every externally visible function unchanged (return value, external calls in order, final memory), for every program including recursive, mutually recursive and address-taken functions. No entity that is still referenced or externally visible is removed.",
["programs","inputs"],"all multi-function programs x all inputs",
"nothing in the test suite builds more than one function",
["ir/opt/opt_inline.c","ir/opt/tailrec.c","ir/opt/proc_cloning.c","ir/opt/funccall.c","ir/opt/garbage_collect.c","ir/opt/ircgopt.c","ir/ana/cgana.c","ir/ana/analyze_irg_args.c"],
[("call-site graph splicing","ir/opt/opt_inline.c"),("accumulator recognition","ir/opt/tailrec.c"),("purity analysis","ir/opt/funccall.c")],
observe=["all ir_graphs after the pass, executed by the specification"])

p("C12","Lowering preserves program behaviour",
"Lowering of high-level constructs (member/array/offset/size selection, block copies, switches, selections, booleans, builtins, intrinsics, stack allocation, aggregate parameters and results, constants of arithmetic unsuitable for the target) and of operations wider than the target's registers leaves every execution's return value, external calls and final memory unchanged. After lowering, none of the lowered constructs remains.",
["programs","inputs","configurations"],"all programs x all inputs x all targets' lowering configurations",
"nothing in the test suite runs a lowering",
["ir/lower/lower_hl.c","ir/lower/lower_switch.c","ir/lower/lower_copyb.c","ir/lower/lower_mux.c","ir/lower/lower_mode_b.c","ir/lower/lower_dw.c","ir/lower/lower_builtins.c","ir/lower/lower_intrinsics.c","ir/lower/lower_calls.c","ir/lower/lower_alloc.c","ir/ir/irarch.c"],
[("double-word splitting","ir/lower/lower_dw.c"),("decision tree / jump table normalisation","ir/lower/lower_switch.c")],
observe=["ir_graph after the lowering, executed by the specification"])

p("C13","x86-64 code behaves as the program it was generated from",
"For every program, the x86-64 assembly produced by the compiler (any register allocator, spiller, scheduler and position-independence setting), when assembled and run, returns the same values, performs the same calls with the same arguments following the System V calling convention, and leaves the same global memory as the source program. Callee-saved registers and the stack pointer are preserved across every generated function.",
["programs","inputs","configurations"],"all programs x inputs x back-end options",
"no back end is exercised by the test suite",
["ir/be/amd64","ir/be/belower.c","ir/be/bespill.c","ir/be/bessaconstr.c","ir/be/besched.c","ir/be/begnuas.c"],
[("instruction selection","ir/be/amd64/amd64_transform.c"),("peephole/finish","ir/be/amd64/amd64_optimize.c, amd64_finish.c"),("emission","ir/be/amd64/amd64_emitter.c")],
observe=["behaviour of the assembled program, recorded and checked against the specification"])

p("C14","IA-32 code behaves as the program it was generated from",
"For every program, the IA-32 assembly (and the machine code produced by its just-in-time mode) returns the same values, performs the same calls with the same arguments following the cdecl convention, and leaves the same global memory as the source program, including 64-bit integers on this 32-bit target and x87/SSE floating point results. Callee-saved registers and the stack pointer are preserved across every generated function.",
["programs","inputs","configurations"],"all programs x inputs x back-end options",
"no back end is exercised by the test suite",
["ir/be/ia32","ir/lower/lower_dw.c"],
[("instruction selection and address-mode folding","ir/be/ia32/ia32_transform.c"),("x87 stack simulation","ir/be/ia32/x86_x87.c"),("binary encoding","ir/be/ia32/ia32_encode.c")],
observe=["behaviour of the assembled program, recorded and checked against the specification"])

p("C15","RISC back ends generate code that behaves as the program",
"For every integer program within the supported subset, the RISC-V 32 assembly produced by the compiler, executed on an ISA-conforming machine, returns the same values, performs the same calls with the same arguments following the standard calling convention, and leaves the same global memory as the source program. Callee-saved registers and the stack pointer are preserved across every generated function.",
["programs","inputs"],"all integer programs x inputs",
"no back end is exercised by the test suite, and no RISC-V machine is available to it",
["ir/be/riscv","ir/lower/lower_dw.c"],
[("instruction selection","ir/be/riscv/riscv_transform.c"),("immediate splitting, frame setup","ir/be/riscv/riscv_finish.c, riscv_emitter.c")],
observe=["assembled instructions executed by a specification of the ISA"])

p("C16","Register allocation never lets live values clobber each other",
"In every function of every back end after register allocation, under every allocator, spiller and coalescing choice, on every control-flow path each instruction finds in every operand's register exactly the value that operand names, every operand and result satisfies its instruction's register constraint (class, allowed registers, same-as, must-be-different), and parallel copies and phi transfers move every value to its destination.",
["programs","schedules","configurations"],"all functions x all control-flow paths x allocator configurations",
"no back end is exercised by the test suite; a clobber needs a specific interference pattern",
["ir/be/bechordal.c","ir/be/bechordal_common.c","ir/be/beprefalloc.c","ir/be/bepbqpcoloring.c","ir/be/becopyopt.c","ir/be/becopyheur4.c","ir/be/belower.c","ir/be/bespill.c","ir/be/bespillbelady.c","ir/be/bespilldaemel.c","ir/be/bespillutil.c","ir/be/bessadestr.c","ir/be/bessaconstr.c","ir/be/belive.c"],
[("chordal colouring with constraint handling","ir/be/bechordal.c"),("permutation lowering","ir/be/belower.c"),("spill/reload placement and SSA repair","ir/be/bespillutil.c")],
observe=["scheduled back-end graph with register assignment after allocation"],hook="guarded dump callback after register allocation")

p("C17","Instruction schedules respect every dependency",
"In every scheduled function, for every scheduler and back end, each instruction of a block appears exactly once, after all instructions of the same block whose results (values or memory) it uses, phis come first, control transfers come last, and values that must stay adjacent to their producer keep that order.",
["programs","configurations"],"all functions x all schedulers x all back ends",
"no back end is exercised by the test suite",
["ir/be/besched.c","ir/be/belistsched.c","ir/be/beschednormal.c","ir/be/beschedrand.c","ir/be/beschedtrivial.c"],
[("ready-list scheduling","ir/be/belistsched.c")],
observe=["schedule of the back-end graph"],hook="guarded dump callback after scheduling")

p("C18","Emitted data is exactly the initialised memory image",
"For every global variable with any initialiser (scalars of any mode and byte order, nested arrays and structs, bit fields, null and partial initialisers, addresses with offsets, strings), the assembled output contains at the entity's symbol exactly the bytes, size, alignment, section kind, visibility and relocations the initialiser and type layout define.",
["inputs","configurations"],"all types x all initialisers x targets",
"no test emits assembly",
["ir/be/begnuas.c","ir/tr/entity.c","ir/tr/type.c"],
[("normalisation of initialisers into byte ranges","ir/be/begnuas.c: emit_ir_initializer, emit_bitfield")],
observe=["sections and symbols of the assembled object file"])

p("C19","Writing a program to text and reading it back is the identity",
"For every program (types, entities, initialisers, constant values, modes and graphs), exporting it to the textual format and importing the text into a fresh compiler yields a program with the same types, entities and isomorphic graphs, behaving identically on every input; exporting again yields the same program. (Outside the format's scope: debug information, class inheritance, and types nothing refers to.)",
["programs","inputs"],"all programs",
"no test writes or reads the textual format",
["ir/ir/irio.c","scripts/templates/gen_irio.c"],
[("symbolic writer/reader with forward references","ir/ir/irio.c")],
observe=["ir_export_file/ir_import_file"])

p("C20","The graph verifier accepts valid graphs and rejects invalid ones",
"The graph verifier accepts every well-formed graph the library constructs or transforms, and reports an error for every graph in which a node's operands violate its operator's arity, mode or dominance rules (wrong operand mode, use not dominated by definition, phi arity different from its block, wrong projection number, malformed control flow).",
["programs","inputs"],"all graphs, valid and with one ill-formed spot",
"no test calls the verifier",
["ir/ir/irverify.c","ir/tr/trverify.c"],
[("per-opcode verify functions","ir/ir/irverify.c")],
observe=["irg_verify result"])

p("C21","Use lists always mirror the operand lists",
"Whenever use (out-edge) information is active, after any history of node creation, operand changes, rerouting, exchanging, operand insertion/removal, deactivation and reactivation, the recorded users of each node are exactly the (node, operand position) pairs whose operand it is, separately for data, block and block-successor edges, with exact counts. Iteration that tolerates modification visits each edge present at the start that is not removed.",
["histories"],"all mutation histories over all graphs",
"no test activates edges",
["ir/ir/iredges.c","ir/ir/iredges_t.h","ir/ir/irnode.c","ir/ir/irgmod.c","ir/ana/irouts.c"],
[("edge notification on operand change","ir/ir/iredges.c: edges_notify_edge_kind"),("recomputed out arrays","ir/ana/irouts.c")],
observe=["get_irn_n_edges, foreach_out_edge*, get_irn_out"])

p("C22","Dominance information equals its definition on every control-flow graph",
"For every control-flow graph (irreducible loops, endless loops, unreachable blocks, multiple returns included), the computed dominator and postdominator trees, their depth, pre-order numbering and subtree queries, the dominance relation between blocks, the deepest common dominator and the dominance frontiers coincide with the path-based definitions.",
["inputs"],"all control-flow graphs",
"no test computes dominance",
["ir/ana/irdom.c","ir/ana/domfront.c"],
[("Lengauer-Tarjan","ir/ana/irdom.c"),("frontier computation","ir/ana/domfront.c")],
observe=["get_Block_idom, block_dominates, ir_deepest_common_dominator, ir_get_dominance_frontier, postdominance equivalents"])

p("C23","Loop, liveness, height and out-array analyses match their definitions",
"For every control-flow graph and program, the computed loop tree is a properly nested decomposition of the reachable blocks in which two blocks share a loop exactly when they lie on a common cycle at that nesting level, back edges are exactly edges whose removal breaks the loop's cycles, liveness queries agree with path-based liveness, heights are consistent with data dependence, and the control-dependence relation matches its postdominance definition.",
["inputs","programs"],"all control-flow graphs and graphs",
"no test runs an analysis",
["ir/ana/ircfscc.c","ir/ana/irloop.c","ir/ana/irbackedge.c","ir/ana/irlivechk.c","ir/ana/heights.c","ir/ana/cdep.c","ir/ana/dfs.c","ir/be/belive.c"],
[("iterated SCC decomposition","ir/ana/ircfscc.c"),("precomputed reachability for liveness","ir/ana/irlivechk.c")],
observe=["get_irn_loop, get_loop_depth, is_backedge, lv_chk, get_irn_height, find_cdep"])

p("C24","Graph properties a graph claims to have are true",
"At any point of any sequence of transformations, every structural property a graph advertises as established (no critical edges, no bad nodes, no tuples, no unreachable code, one return, many returns, valid dominance/postdominance/frontiers, valid out edges, valid out arrays, valid loop information, valid entity usage) actually holds of the graph or the stored information, and requesting properties establishes all of them.",
["programs","histories"],"all programs x all sequences of passes and property requests",
"no test runs passes; a stale claim shows only when a later pass trusts it",
["ir/ir/irgraph.c","ir/opt","ir/ana"],
[("confirm_irg_properties at the end of each pass, assure_irg_properties before","ir/ir/irgraph.c")],
state=[("irg properties","claimed properties","ir/ir/irgraph_t.h")],
observe=["irg_has_properties versus recomputation"])

p("C25","Inferred value facts hold in every execution",
"Every fact the value analyses report (known-zero/known-one bits, value ranges, constants, comparisons decided at compile time, pointer non-nullness, path conditions attached to values) is true of the value in every execution that reaches it, for every input.",
["programs","inputs"],"all programs x all inputs",
"no test runs a value analysis",
["ir/ana/constbits.c","ir/ana/vrp.c","ir/ana/irconsconfirm.c","ir/opt/opt_confirms.c"],
[("monotone bit lattice fixpoint","ir/ana/constbits.c"),("range lattice","ir/ana/vrp.c")],
observe=["get_bitinfo, vrp_get_info, value_not_null, ir_relation queries"])

p("C26","Alias answers are sound",
"Whenever the memory disambiguator says two accesses do not alias, no execution makes them touch a common byte, and whenever it says they surely alias they touch a common byte in every execution that performs both with operands from the same evaluation; entity-usage flags over-approximate every read, write, address-taking and reinterpretation that any execution performs.",
["programs","inputs"],"all pairs of accesses in all programs x all inputs",
"no test asks an alias question",
["ir/ana/irmemory.c"],
[("storage classes, base/offset decomposition, type-based rules","ir/ana/irmemory.c")],
observe=["get_alias_relation, get_entity_usage"])

p("C27","Type layout and class hierarchy queries are exact",
"Default layout of any struct, union, class or nested array places members in order without overlap at properly aligned offsets, with the size and alignment their definition implies. Subclass, super-class, overwrite and transitive-closure queries agree with the declared inheritance relation after any history of adding and removing classes and relations.",
["histories","inputs"],"all compound types; all histories of hierarchy mutation",
"no test lays out a type",
["ir/tr/type.c","ir/tr/tr_inheritance.c","ir/tr/entity.c","ir/lower/lower_hl.c"],
[("default_layout_compound_type","ir/tr/type.c"),("transitive closure","ir/tr/tr_inheritance.c")],
observe=["get_entity_offset, get_type_size, is_SubClass_of, get_class_trans_subtype_first"])

p("C28","Combinatorial solvers return valid and, where promised, optimal solutions",
"The minimum assignment solver returns a perfect assignment of minimal (or, in maximising mode, maximal) total cost whenever one exists; the bipartite matcher returns a matching of maximum size; the partitioned boolean quadratic solver returns for every node an admissible alternative whose cost is exactly the reported cost (the late-decision variant: unless it had to decide nodes late), finite whenever its reductions are exact and a finite solution exists, and minimal for graphs it can reduce exactly.",
["inputs"],"all cost matrices and graphs",
"no test calls a solver",
["ir/adt/hungarian.c","ir/adt/bipartite.c","ir/kaps"],
[("Hungarian method","ir/adt/hungarian.c"),("augmenting paths","ir/adt/bipartite.c"),("R0/RI/RII reductions and back propagation","ir/kaps/optimal.c")],
observe=["hungarian_solve, bipartite_matching, get_solution/get_node_solution"])

p("C29","Graph walkers and copies see every node exactly once",
"Every walker visits each node (or block, or anchored/phi/type item) reachable from its start exactly once, pre- and post-order callbacks in an order consistent with depth-first traversal over operands; copying a graph or compacting it yields an isomorphic graph containing exactly the nodes that can still influence the result.",
["programs"],"all graphs",
"no test walks a graph",
["ir/ir/irgwalk.c","ir/ir/irgwalk_blk.c","ir/opt/dead_code_elimination.c","ir/ir/irgraph.c","ir/ir/irtools.c","ir/tr/typewalk.c"],
[("visited counters","ir/ir/irgwalk.c"),("copy through links","ir/opt/dead_code_elimination.c")],
observe=["callback sequence, copied graph"])

p("C30","Compilation is deterministic",
"Compiling the same program with the same options yields the same assembly text, independent of address-space layout, of other programs' unrelated identifiers, and of how often it is repeated.",
["programs","configurations"],"all programs, all memory layouts",
"no test compiles anything",
["ir/be","ir/opt","ir/adt"],
[("index-ordered iteration instead of pointer order","throughout")],
observe=["emitted assembly text"])

p("C31","Profile instrumentation counts block executions exactly",
"A program compiled with execution-count instrumentation behaves as without it, and the counters it writes equal, per basic block, the number of times the block was executed; reading that profile back attaches those counts to the same blocks.",
["programs","inputs"],"all programs x inputs",
"no test instruments a program",
["ir/ir/irprofile.c","ir/ana/execfreq.c"],
[("counter increment per block, constructor/destructor registration","ir/ir/irprofile.c")],
observe=["profile data written by the running program"])

p("C32","Call graph over-approximates every call that happens",
"For every call executed in any run, the callee analysis lists the callee among the call's possible callees (or declares it unknown), the call graph contains the caller/callee edge, recursion is detected, and functions reported unreachable or without callers are never entered.",
["programs","inputs"],"all multi-function programs x inputs",
"no test builds a call graph",
["ir/ana/cgana.c","ir/ana/callgraph.c"],
[("callee sets by type and address-taken analysis","ir/ana/cgana.c"),("call graph construction","ir/ana/callgraph.c")],
observe=["get_Call_callee, get_irg_n_callees, is_irg_callee_backedge"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
import jsonschema
for x in P: jsonschema.validate(x,sch)
print(len(P))
