prop('C01', 'A reported proof exists only for contradictory input',
 'Whatever the strategy settings, input syntax and problem, gkc reports "proof found" only when the input clauses (with the negated goal) have no model. '
 'Every clause the search derives, keeps as given, or uses as a rewrite rule is a logical consequence of the input.',
 ['inputs', 'configurations'], 'every clause set in every input syntax, with or without equality and function symbols, under every combination of strategy settings',
 'The tests run some dozens of fixed problems whose expected answer is "proof found"; almost none is satisfiable, none varies the strategy settings, and none looks at the clauses derived on the way.',
 ['Reasoner/resolve.c', 'Reasoner/derive.c', 'Reasoner/unify.c', 'Reasoner/subsume.c', 'Reasoner/simp.c', 'Reasoner/rewrite.c', 'Reasoner/rgenloop.c', 'Reasoner/rmain.c'],
 [('binary resolution and factoring', 'Reasoner/resolve.c'), ('paramodulation and rewriting', 'Reasoner/resolve.c, Reasoner/rewrite.c'),
  ('unification with occurs check', 'Reasoner/unify.c'), ('cutting literals by unit and two-literal clauses', 'Reasoner/subsume.c, Reasoner/simp.c')],
 'TLA+ specification of clause-logic semantics (Fol, Refutation) checked by TLC on the inputs and search traces of real runs',
 'TLC decides satisfiability of each generated clause set exactly (function-free sets) or has a finite interpretation in which it evaluates the input and every traced derived clause; the real prover runs on the same sets under random strategies. Bounded: small clause sets, sampled strategies.')
prop('C02', 'A search that runs dry with a complete strategy means no contradiction',
 'With a complete strategy (no preference or negative_pref; for input without equality also positive_pref, hardness_pref, knuthbendix_pref and hyper; no clause limits, no query focus) gkc never reports, well before its time limit, that the search finished without a proof when the input is contradictory, '
 'provided no positive equation has a bare variable as one side and no clause has two positive equations. Small contradictory inputs are refuted within seconds.',
 ['inputs', 'configurations'], 'every contradictory clause set whose clauses have at most one positive equation, none of them with a bare variable side, in every input syntax, under every complete strategy',
 'The tests only contain problems that some automatically chosen strategy solves; whether one particular complete strategy loses a proof on some input is never asked.',
 ['Reasoner/rgenloop.c', 'Reasoner/clstore.c', 'Reasoner/resolve.c', 'Reasoner/subsume.c', 'Reasoner/unify.c', 'Reasoner/rewrite.c', 'Reasoner/clmeta.c', 'Reasoner/strat.c'],
 [('given-clause loop and clause queues', 'Reasoner/rgenloop.c, Reasoner/clstore.c'), ('literal selection (resolvability)', 'Reasoner/strat.c'),
  ('forward subsumption and meta pre-filters', 'Reasoner/subsume.c, Reasoner/clmeta.c'), ('literal and term hash indexes', 'Reasoner/hash.c, Reasoner/clterm.c')],
 'TLA+ decision procedure for clause sets (Fol, Refutation) checked by TLC against the verdicts of real runs',
 'TLC decides satisfiability exactly for function-free sets (with equality, by enumerating the partitions of the constants) and certifies unsatisfiability of sets with functions from unsatisfiable ground instances; any dry run of a complete strategy on them is reported. Bounded: small clause sets.')
prop('C03', 'Every printed proof is a derivation from the input',
 'Each proof gkc prints is a finite derivation: every leaf is an input clause under its own name and role, every other line is obtained from the earlier lines it cites '
 'by the rule it names at the literal and term positions it gives followed by simplification with the further lines it cites, and the last line is the contradiction or exactly the printed answer. '
 'A line is marked as coming from the goal (assumptions) only if a goal (non-axiom) clause is among its ancestors.',
 ['inputs', 'configurations'], 'every proof printed for any clause set, roles, input syntax and strategy (arithmetic evaluation, instance generation and propositional prover steps excepted)',
 'The tests search the output for "proof found" and sometimes for a fragment; no test reads a proof, so a wrong or incomplete proof line passes.',
 ['Reasoner/history.c', 'Reasoner/derive.c', 'Reasoner/resolve.c', 'Reasoner/simp.c', 'Reasoner/rgenloop.c', 'Reasoner/printerrutils.c'],
 [('history records of derived clauses', 'Reasoner/history.c wr_build_*_history'), ('proof flattening and printing', 'Reasoner/history.c wr_flatten_history, wr_strprint_flat_history'),
  ('copying of the given clause to the active list', 'Reasoner/rgenloop.c wr_process_given_cl, wr_add_given_cl_active_list')],
 'TLA+ specification of the inference system (Calculus) and of proofs as behaviours (Proof), checked by TLC on every proof the real prover prints',
 'Each printed proof is replayed line by line by TLC against the inference rules at the positions cited. Simplification steps are searched for to a bounded length. Bounded: proofs up to 60 lines of generated problems.')
prop('C17', 'The allocator never hands out storage twice, and never loses it',
 'Every object the database layer allocates (records, raw gint objects, fixed-length objects) lies inside the memory segment and is disjoint from every other live object and from the headers; its contents stay as written until it is freed. '
 'Freed storage becomes allocatable again, freeing never reports corruption for a live object, and a scan over the records visits every live record exactly once.',
 ['histories', 'inputs'], 'every sequence of allocations and frees of objects of every size and kind, until memory runs out',
 'The tests never free a record and never look at the offsets the allocator returns; the free-list buckets, splitting and coalescing paths are reached only by particular sequences of sizes.',
 ['Db/dballoc.c', 'Db/dballoc.h', 'Db/dbdata.c'],
 [('variable-length allocation: buckets, designated victim, splitting', 'Db/dballoc.c wg_alloc_gints, split_free'), ('freeing and merging', 'Db/dballoc.c wg_free_object'),
  ('fixed-length free lists and subareas', 'Db/dballoc.c wg_alloc_fixlen_object'), ('record scan', 'Db/dbdata.c wg_get_next_raw_record')],
 'TLA+ specification of storage as disjoint intervals (Alloc), checked by TLC on recorded histories of the real allocator',
 'TLC replays each recorded history of the real allocator as a behaviour of the specification (each allocation must be one the specification allows). Bounded: some hundreds of random histories of some hundred operations.',
 observe=['wg_alloc_gints, wg_free_object, wg_create_record, wg_delete_record'])
prop('C18', 'Encoded values decode to what was stored, and compare consistently',
 'Every value of every data type that is encoded into the database decodes to the same type and value later, whatever is stored in between, also from a local database attached to a shared knowledge base. '
 'Equal strings and URIs with equal extra part are interned to one encoding, different ones are not, and the comparison of encoded values is a total order in which equal values are equal.',
 ['inputs', 'histories'], 'every value of every type (integers of any size, doubles, characters, dates, times, fixed-point numbers, strings, URIs, XML literals, blobs, variables), in every order of storage',
 'The tests store the constants of some dozens of problems; interning under hash collisions, boundary values of the inline encodings, embedded extra parts and values shared with a knowledge base are not sampled.',
 ['Db/dbdata.c', 'Db/dbdata.h', 'Db/dbcompare.c', 'Db/dbhash.c'],
 [('inline and out-of-line encodings', 'Db/dbdata.c wg_encode_*, wg_decode_*'), ('interning of strings', 'Db/dbdata.c find_create_longstr, Db/dbhash.c'), ('comparison', 'Db/dbcompare.c wg_compare')],
 'TLA+ specification of the value store (Values), checked by TLC on recorded histories of the real encoder, decoder and comparison',
 'TLC replays each recorded history as a behaviour of the specification: each decode must return the value stored, encodings of interned values must coincide exactly when the values do, comparisons must follow the specified order. Bounded: some hundreds of random histories.',
 observe=['wg_encode_*, wg_decode_*, wg_compare'])
prop('C19', 'Queries and indexes return exactly the matching records',
 'A query over the records (conditions on columns, a match record, a row limit), a search for a record by one condition, and a lookup in a hash index return exactly the live records that meet all conditions, each once, '
 'whatever indexes exist, whenever they were created or dropped, and whatever records were added or deleted before (deleted records holding no strings or out-of-line numbers that other records share). Integer maps and sets return what was put into them.',
 ['histories', 'inputs'], 'every history of record creations and deletions, index creations and drops (T-tree, hash, with or without template), and every query',
 'No test of the suite issues a query; T-tree rebalancing, range bounds and index maintenance depend on the particular order of insertions and deletions.',
 ['Db/dbindex.c', 'Db/dbquery.c', 'Db/dbhash.c', 'Db/dbcompare.c'],
 [('T-tree insertion, deletion, rotation', 'Db/dbindex.c ttree_add_row, ttree_remove_row'), ('range bounds and fetching', 'Db/dbquery.c find_ttree_bounds, wg_fetch'),
  ('hash index', 'Db/dbindex.c hash_add_row, Db/dbhash.c wg_idxhash_*'), ('index templates', 'Db/dbindex.c wg_match_template')],
 'TLA+ specification of records, indexes and the meaning of a query (Query), checked by TLC on recorded histories of the real database',
 'TLC replays each recorded history and compares every query result with the set the specification determines. Bounded: about a thousand random histories of up to some 300 operations per run.',
 observe=['wg_make_query, wg_fetch, wg_find_record, wg_search_hash'])
prop('C16', 'A dump is a faithful copy, and a damaged one is recognised',
 'wg_dump writes a file from which wg_import_dump restores the database exactly as it was (records, values, indexes, free storage), into a memory segment of any size that can hold it, and after which the database can be used and changed as before. '
 'wg_check_dump accepts every such file or exact copy of it, and rejects one in which a bit was changed, or from which bytes were cut.',
 ['histories', 'inputs'], 'every history of record and index operations before the dump, between dump and load, and after the load; every target size; every single-bit change and truncation of the file',
 'No test of the suite writes a dump and reads it back; what a stale pointer, a short read, a skipped checksum or a wrong size does shows only in some later operation.',
 ['Db/dbdump.c', 'Db/dbmem.c', 'Db/dballoc.c'],
 [('writing and checksum', 'Db/dbdump.c wg_dump_internal'), ('check of size, headers and checksum', 'Db/dbdump.c check_dump'), ('import with the segment size kept', 'Db/dbdump.c wg_import_dump')],
 'TLA+ specification of the database with files as snapshots of it (Query), checked by TLC on recorded histories of the real database',
 'TLC replays each recorded history: after a load every scan, query, index lookup and later change must be as the snapshot determines, and each check of a file must tell undamaged from damaged ones. Bounded: some hundreds of random histories with some damaged files each.',
 observe=['wg_dump, wg_check_dump, wg_import_dump'])
prop('C20', 'The database lock excludes, shares, keeps order and never loses a request',
 'Between wg_start_write and wg_end_write (db_wlock, db_wulock) no other thread or process holds the lock; readers (wg_start_read, wg_end_read) share it with readers only. A request is not overtaken by one made after it began to wait (two readers excepted), '
 'a released lock passes to the next request, a request fails only after its timeout with another request in its way, and each lock can be released and acquired again without end.',
 ['schedules', 'histories'], 'every interleaving of any number of readers and writers (up to the 64 queue nodes), with waits ended by wakeups, signals and timeouts at any moment',
 'The tests run one process that never competes for a lock; the races between timing out, being granted the lock, and reusing a queue node need particular interleavings.',
 ['Db/dblock.c', 'Db/dblock.h'],
 [('queue, futex wait and hand-over', 'Db/dblock.c db_tfqueue_wlock, db_tfqueue_wulock, db_tfqueue_rlock, db_tfqueue_rulock'), ('leaving the queue on timeout', 'Db/dblock.c DEQUEUE_LOCK'), ('queue mutex', 'Db/dblock.c lock_queue'), ('queue nodes', 'Db/dblock.c alloc_lock, free_lock')],
 'TLA+ specification of the lock (Lock) checked by TLC on traces of the real code under controlled schedules; TLA+ specification of the queue algorithm (LockQueue) model-checked for safety and liveness',
 'The real lock code runs in coroutines that are switched at random or by priorities at its memory accesses, with a simulated futex; TLC checks every distinct trace. The algorithm is model-checked exhaustively for three threads. Bounded: some ten thousand schedules of up to five threads; the default lock protocol.',
 observe=['wg_start_write, wg_end_write, wg_start_read, wg_end_read'])
prop('C05', 'The clauses made of a formula mean what the formula means',
 'The clauses gkc makes of first-order formulas (-clausify, and the clauses a search starts from) hold in exactly the interpretations in which the formulas (goals negated) hold, up to the meaning of the predicates and functions it introduces: '
 'each new Skolem function or definition symbol is fresh, every introduced symbol has one meaning, and no predicate, function or constant of the input is lost or mixed up with another.',
 ['inputs'], 'every set of formulas with any nesting of connectives and quantifiers, in every input syntax and role',
 'The tests clausify a handful of fixed formulas; nested equivalences under quantifiers and negation, shared variable names, and the shortcut for large formulas (definitions) combine in ways no list of examples covers.',
 ['Builtparser/dbclausify.c', 'Parser/dbclausify.c', 'Builtparser/dbparse.c', 'Parser/dbparse.c', 'Builtparser/jsparse.c'],
 [('negation normal form, Skolemisation, distribution', 'dbclausify.c wr_clausify_*'), ('Skolem terms and definition predicates', 'Parser/dbclausify.c'), ('roles and negation of goals', 'dbparse.c, Builtparser/jsparse.c')],
 'TLA+ specification of formula semantics (Formula), checked by TLC on the clauses the real clausifier prints',
 'TLC evaluates every formula and its clauses in a set of interpretations (all values of the introduced symbols are searched) and checks the sets of symbols. Bounded: some thousand random formulas of up to about 40 nodes, domains of size 1 to 3.',
 observe=['gkc -clausify'])
prop('C06', 'Converting a formula to another syntax keeps its meaning',
 'A formula converted with -convert to JSON-LD-LOGIC or TPTP is true in exactly the interpretations in which the original is true, keeps its name and role, and gkc can read the output again and converts it back to a formula of the same meaning. '
 'No formula is lost, added, or mixed up with another, whatever the nesting of connectives, quantifiers and variable names and however long or oddly quoted the symbols (backslashes and control characters excepted).',
 ['inputs'], 'every set of formulas in the simple, TPTP and JSON syntaxes, converted to JSON or TPTP',
 'The tests convert a few files and look for fragments of the output; precedence, quantifier scope, negation and quoting in three readers and two printers combine in ways the examples do not reach.',
 ['Printer/dbotterprint.c', 'Builtparser/jsparse.c', 'Builtparser/dbparse.c', 'Builtparser/dbotter.tab.c', 'Parser/dbotter.y', 'Parser/dbparse.c', 'Db/dbmpool.c'],
 [('printing of formulas', 'Printer/dbotterprint.c'), ('reading of JSON', 'Builtparser/jsparse.c'), ('reading of simple and TPTP syntax', 'Parser/dbotter.y, Parser/dbotter.lex, Builtparser')],
 'TLA+ specification of formula semantics (Formula), checked by TLC on the formulas before and after the conversions of the real program',
 'TLC evaluates the source formula and the converted one (and the one converted back) in a set of interpretations and compares names and roles. Bounded: some thousand random formulas of up to about 40 nodes, domains of size 1 to 3.',
 observe=['gkc -convert'])
prop('C08', 'Arithmetic is evaluated to its mathematical value or not at all',
 'A ground arithmetic term in the input or in a derived clause evaluates to its mathematical value: integers are exact in 64 bits (a result outside, or a division by zero, stays an unevaluated term), $quotient of integers truncates, the _e/_t/_f quotients and remainders follow their definitions, '
 'conversions and the comparisons of integers and reals are exact, an integer and a real are never equal terms. A comparison that evaluates to true or false is removed from or satisfies its clause accordingly, one that is not determined is left alone. '
 'Numbers are read and printed unchanged, and an answer found by numeric instantiation satisfies the constraints.',
 ['inputs'], 'every ground expression over 64-bit integers and reals, in every syntax, placed in facts, reached through resolution, or through equations; every set of constraints on one or two unknowns',
 'The tests evaluate a few small positive numbers; negative operands, mixed types, limits of 64 bits and expressions completed only by an inference are not there, and tests of numeric instantiation check one answer each.',
 ['Reasoner/build.c', 'Reasoner/arithinst.c', 'Reasoner/rewrite.c', 'Db/dbmpool.c', 'Builtparser/dbotter.yy.c', 'Parser/dbotter.lex', 'Builtparser/jsparse.c', 'Printer/dbotterprint.c'],
 [('evaluation of functions', 'Reasoner/build.c wr_compute_fun_*'), ('evaluation of predicates', 'Reasoner/build.c wr_compute_fun_less and others'), ('numeric instantiation', 'Reasoner/arithinst.c'), ('reading and printing numbers', 'Db/dbmpool.c, Parser/dbotter.lex, Builtparser/jsparse.c')],
 'TLA+ specification of arithmetic (BigNum, Compute), checked by TLC on the answers of the real prover',
 'TLC computes every expression with integers of any size (base 10000 digits) and reals in 1/1024 steps and compares the answers the prover prints. Bounded: some thousand random expressions of depth up to 3, reals with exact results.')

prop('C09', 'List and string operations have their documented values',
'$first and $rest of a list, $strlen of a distinct symbol, $is_list, $is_distinct, $substr and $substrat evaluate as documented wherever their arguments are determined, and stay unevaluated terms or undecided literals otherwise. '
'Equality of typed values is decided: equal only when the same number, distinct symbol or list; distinct symbols are unequal to other distinct symbols, numbers and lists, lists to numbers, distinct symbols and lists that differ at some position in typed values. '
'The bracket notation [a,b] and $list(a,$list(b,$nil)) are the same term everywhere, in facts, clauses and formulas, and distinct symbols of any content (empty, like an operator, like a variable) are read and printed as they are.',
['inputs'], 'every list, nested or open, with numbers, distinct symbols, constants and terms in it, and every string, in every syntax, placed in facts or reached through resolution',
'The tests evaluate a few examples; nested lists in clauses with variables, empty or unusual strings, positions outside of a string and values completed only by an inference are not there.',
['Reasoner/build.c', 'Reasoner/printerrutils.c', 'Builtparser/dbparse.c', 'Builtparser/jsparse.c', 'Parser/dbparse.c', 'Printer/dbotterprint.c'],
[('list functions', 'Reasoner/build.c wr_compute_fun_first, _rest, _is_list'), ('typed equality', 'Reasoner/build.c wr_compute_fun_equal_terms'), ('string functions', 'Reasoner/build.c wr_compute_fun_strlen, _substr, _substrat, _is_distinct'), ('list notation', 'Builtparser/dbparse.c wg_expand_frm_for_print')],
'TLA+ specification of list and string values (Compute), checked by TLC on the answers of the real prover',
'TLC computes the value of every expression and the truth of every atom and compares with the answers the prover prints, in both polarities of each atom. Bounded: a thousand random inputs of 6 expressions and 9 atoms, nesting up to about 4, ASCII strings without backslashes.')
prop('C04', 'Answers follow from the input, and a search that runs dry has found them all',
 'Every answer gkc prints for a question (answer literals $ans in any input syntax, or "@question" in JSON) is a clause of answer literals that follows logically from the input, and the proof printed with it ends with exactly that clause. '
 'A result block has at most max_answers answers and no variable-free answer twice, and a proof is reported exactly when something is printed as proved. For Horn input, a complete strategy whose search ends with fewer answers than asked for has printed, '
 'up to instances, every tuple of constants that satisfies the question (or the contradiction in the input).',
 ['inputs', 'configurations'], 'every set of clauses with a question, in every input syntax, for every max_answers, under every strategy, and several runs after each other',
 'The tests ask a handful of questions with one or two answers and look for one of them in the output; wrong bindings for other questions, lost answers, repeated answers and answers of disjunctive form are not sampled.',
 ['Reasoner/history.c', 'Reasoner/derive.c', 'Reasoner/subsume.c', 'Reasoner/rgenloop.c', 'Reasoner/rmain.c', 'Builtparser/jsparse.c'],
 [('registering answers', 'Reasoner/history.c wr_register_answer, wr_same_answers, wr_enough_answers'), ('recognising answer clauses', 'Reasoner/derive.c wr_cl_derived_is_answer'),
  ('answer literals in subsumption', 'Reasoner/subsume.c ANS_IGNORE'), ('questions in JSON', 'Builtparser/jsparse.c wr_process_json_object (question)')],
 'TLA+ specification of question answering (Answers, over Fol) checked by TLC on the answers printed by real runs',
 'TLC decides for each printed answer whether the function-free input entails it (or evaluates it in a finite interpretation of the input in which the answer predicate is the set of tuples that satisfy the question), and for Horn inputs enumerates the tuples that must have been printed. Bounded: small clause sets, sampled strategies.')
prop('C14', 'A shared knowledge base is searched like its clauses and never changes',
 'A search on a knowledge base kept in shared memory (-usekb) finds a proof only if the clauses the number was last loaded with (-readkb, -readwritekb, -loadkb) and the clauses of the query together are contradictory, and with a complete strategy misses no proof of them (input as in C02), '
 'each proof being a derivation from these clauses. However many query processes run at once, one after another, or are killed, the memory image stays the same; only building, loading or deleting changes it, and only its own number. '
 'A dump (-writekb, -readwritekb) loaded into a free number later is the same knowledge base. A query on a number without a knowledge base is refused, as is loading into a number in use.',
 ['histories', 'schedules'], 'every history of building, dumping, loading, querying (also at the same time), killing and deleting on any numbers, any clauses in any syntax split in any way between knowledge base and query',
 'The tests build one knowledge base and ask a fixed query of it; no test splits a problem between knowledge base and query in more than one way, shares symbols of every kind between the two, or looks whether the image stays unchanged.',
 ['Main/gkc.c', 'Db/dbmem.c', 'Db/dbdata.c', 'Db/dbdump.c', 'Reasoner/rmain.c', 'Reasoner/rgenloop.c', 'Reasoner/subsume.c', 'Reasoner/resolve.c', 'Reasoner/rewrite.c', 'Reasoner/hash.c', 'Reasoner/clstore.c', 'Reasoner/history.c'],
 [('attaching the knowledge base, read-only', 'Db/dbmem.c link_shared_memory, wg_in_attached_kb; Main/gkc.c -usekb, -readkb, -writekb, -loadkb, -deletekb'), ('symbols of the knowledge base in a query', 'Db/dbdata.c find_create_longstr'),
  ('indexes of the knowledge base in the search', 'Reasoner/subsume.c, resolve.c, rewrite.c (r_kb_g)'), ('nothing is written into it', 'Reasoner/rgenloop.c, clstore.c, history.c, hash.c (wg_in_attached_kb)')],
 'TLA+ specification of knowledge bases as a state machine (SharedKB, over Refutation), checked by TLC on histories of real processes; proofs from them checked with Proof',
 'TLC replays each recorded history: every verdict is compared with the decided satisfiability of what the number holds then together with the query, and the hash of every memory image is compared before and after each command. Bounded: some hundred random histories of about ten commands on three numbers; small clause sets.',
 observe=['gkc -readkb, -usekb, -writekb, -readwritekb, -loadkb, -deletekb'])
