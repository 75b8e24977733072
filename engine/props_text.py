ALLF = ["utils", "decoder", "training", "extractor", "mteval", "klm"]

prop("C01", "Ordering relations used for sorting and ranking are strict weak orders",
     "Every ordering the system sorts, ranks, searches or keys a container by is a strict weak order: nothing precedes itself, no two items precede each other, precedence is transitive, and so is being tied. Comparison operators offered for one type agree with one another (a>b means b<a, a<=b means not b<a, a!=b means not a==b, and a<b excludes a==b).",
     ["inputs"], "for all triples of values the compared type can take (NaN keys aside), for every comparator in the code base",
     "The laws quantify over all triples of elements; tests sort a few samples, and a broken comparator only corrupts a sort, heap or tree for particular ties.",
     ["decoder/hg.cc", "decoder/apply_models.cc", "decoder/kbest.h", "utils/logval.h", "utils/weights.cc", "klm/lm/state.hh", "klm/lm/builder/sort.hh", "training/dpmert/mert_geometry.cc", "utils/maxent.h", "extractor/phrase.cc"],
     [("comparison functors and operators", "decoder/hg.cc EdgeWeightSorter, decoder/kbest.h HeapCompare, utils/logval.h operator<")],
     "finite-order evaluation of comparator syntax trees",
     "Complete for comparators whose result depends only on comparisons between attributes of the two arguments (any violation of the laws shows on three values per attribute); attributes are taken as independent, NaN excluded; undecidable comparators are listed in the evidence.",
     ["order of sorted output, heap extraction order"])

prop("C02", "Equality is an equivalence and every hash respects it",
     "Equality of keys (parser states, candidates, derivations, language-model states, rules, feature-state blocks) is reflexive, symmetric and transitive. Keys that compare equal hash equally, so an item that has been stored in a hash table is found again by any equal key and is never stored twice.",
     ["inputs"], "for all pairs and triples of key values, for every hash-table key type and every equality operator",
     "Quantifies over all pairs of keys; a hash that reads one field too many loses lookups only for particular colliding states, which the tests do not construct.",
     ["decoder/apply_models.cc", "decoder/earley_composer.cc", "decoder/tree2string_translator.cc", "decoder/kbest.h", "decoder/trule.h", "utils/value_array.h", "utils/small_vector.h", "klm/lm/state.hh", "training/utils/candidate_set.cc", "decoder/phrasebased_translator.cc"],
     [("hash functors paired with equality functors", "decoder/earley_composer.cc UniqueEdgeHash/UniqueEdgeEquals, training/utils/candidate_set.cc CandidateHasher/CandidateCompare")],
     "finite-domain evaluation of equality and hash syntax trees, hash terms uninterpreted",
     "Complete for equality/hash functions over directly read attributes; library hash and mixing functions are trusted to be functions of what they are given.",
     ["hash-table lookups and deduplication"])

prop("C03", "Binary readers consume exactly what the matching writers emit",
     "For every kind of object stored in binary form (forests with their nodes, edges, rules and feature vectors; the grammar extractor's data array, suffix array, vocabulary, alignment, translation table and precomputation; optimizer state; error surfaces; hashed weights), the reader consumes exactly what the writer emits: the same items in the same order, the same widths and signs and the same counts. Every member of a stored object is written and then restored, rebuilt or derived on reading, no stored length is truncated, and a raw read never delivers more bytes than the object it fills.",
     ["inputs"], "for every object the writers can be given, of any size",
     "Round trips hold for every object or for none of a kind; tests store two or three small ones, which leave rarely set fields, long lengths and empty or multi-block containers untouched.",
     ["decoder/hg_io.cc", "decoder/hg.h", "decoder/trule.h", "utils/fast_sparse_vector.h", "utils/small_vector.h", "utils/weights.cc", "training/utils/optimize.cc", "training/dpmert/error_surface.cc", "extractor/data_array.h", "extractor/suffix_array.h", "extractor/precomputation.h", "extractor/translation_table.h", "extractor/alignment.h"],
     [("save/load and serialize members, explicit binary read/write functions", "decoder/hg.h Edge::save/load, training/dpmert/error_surface.cc ErrorSurface::Serialize/Deserialize")],
     "symbolic wire-format extraction and comparison of writer and reader syntax trees",
     "Compares the sequence of primitive reads and writes with loop bounds and guards; value transforms (arithmetic on what is stored) and text formats are outside. One known finding (rule alignments are not stored).",
     ["contents of an object after writing and reading back"])

prop("C04", "Copying a forest element or object carries every member",
     "Copy constructors, copy assignments and swaps transfer every data member, each to the member of the same name, on every branch. When a forest is built from another (union, subsetting, pruning, rescoring, refinement), an edge that takes another edge's rule, span or wiring also takes its features, its source span and its previous span (and its weight where the edge is cloned), and a node copied from another takes its category and hash.",
     ["inputs"], "for every object copied, whatever its size or representation, and every forest transformation",
     "A forgotten member shows only for inputs where it is set (constrained decoding, unions of forests, vectors on the heap); tests copy a few typical objects and compare a few members.",
     ["decoder/hg.h", "decoder/hg.cc", "decoder/hg_union.cc", "decoder/apply_models.cc", "decoder/scfg_translator.cc", "decoder/trule.h", "utils/small_vector.h", "utils/fast_sparse_vector.h", "utils/value_array.h", "utils/array2d.h", "mteval/ns.h", "training/utils/candidate_set.h"],
     [("copy/assign/swap members and forest copy code", "decoder/hg.h Edge::copy_pod/copy_fixed/copy_reindex, Hypergraph::swap; decoder/hg.cc Hypergraph::Union")],
     "member-coverage dataflow over copy code (must-transfer sets through helpers)",
     "Covers user-written copy code; members deliberately not carried (decode-time coordinates of rules and similar) are listed with a reason in the rule. The max-translation scratch forest is not judged.",
     ["members of the copy after copying"])

prop("C05", "No use of an element after its container reallocated or erased it",
     "No reference, pointer or iterator into a container (vector, string, small vector, deque, hash table, map; in particular forest nodes and edges) is used after an operation that may have reallocated that container or destroyed the element, whether the operation is written in the same function or happens inside a called one. A range-for never changes the size of what it walks. Pointers into a growing vector that are kept for later are backed by a reservation, and no function hands out a reference or pointer into its own locals.",
     ["inputs", "histories"], "for every sequence of insertions and removals, every capacity the container may have at that moment, and every path through the code",
     "Whether a stale reference is harmful depends on the vector's capacity at that moment; small test inputs usually never reallocate at the wrong time.",
     ["decoder/hg.h", "decoder/hg.cc", "decoder/hg_union.cc", "decoder/apply_models.cc", "decoder/bottom_up_parser.cc", "decoder/earley_composer.cc", "decoder/lextrans.cc", "decoder/lexalign.cc", "decoder/fst_translator.cc", "training", "extractor", "utils"],
     [("functions returning element pointers and functions that grow containers", "decoder/hg.h Hypergraph::AddNode/AddEdge; decoder/bottom_up_parser.cc PassiveChart::ApplyRule")],
     "flow-sensitive element-binding typestate with interprocedural may-grow and returns-element summaries",
     "Containers are identified by access path; elements reached through unrelated aliases of the same container are not connected. Reserved vectors are taken not to reallocate.",
     ["memory safety of element access"])

prop("C06", "No scalar is read before it has been given a value",
     "A local number, flag or pointer declared without a value receives one on every path before it is read, and every constructor gives each scalar data member of its object a value (a few members that the class sets before their first read, under a flag or in a preparation hook, are listed by name). Results therefore never depend on what the memory happened to contain.",
     ["inputs"], "for every path through every function and every way of constructing an object",
     "Uninitialised memory is usually zero in a short test run; whether the value matters depends on the path and on the allocator's history.",
     ["decoder/hg.h", "decoder/trule.h", "decoder/ff_spans.cc", "decoder/apply_models.cc", "decoder/scfg_translator.cc", "decoder/sentence_metadata.h", "training", "utils", "mteval", "extractor"],
     [("constructors and local declarations", "decoder/hg.h Hypergraph::Edge, decoder/trule.h TRule, training/dpmert/mert_geometry.cc")],
     "definite-assignment dataflow for locals (path facts on repeated conditions) and for members in constructors through own-class helpers",
     "Scalars only (numbers, flags, enums, pointers); array contents and aggregates without constructors are not tracked.",
     ["dependence of results on uninitialised memory"])

prop("C07", "Arithmetic on statistics and semiring values acts on every component",
     "Adding, subtracting or scaling evaluation statistics (every metric's score object, and sufficient statistics), sparse and dense vectors, count tables and semiring values leaves in every component exactly the sum, difference, product or quotient of that component and its counterpart, on every branch and for every element, however the object is stored. Statistics report being the additive identity exactly when all components are zero. Logarithm-valued numbers add, subtract, multiply, divide, negate and invert the signed numbers they stand for; expectation-semiring products obey (p,r)(p',r') = (pp', pr'+p'r), and tropical sums take the larger value.",
     ["inputs"], "for all operand values, signs and sizes, for every class with compound arithmetic",
     "Algebraic identities over all operands: corpus scores, optimizer error surfaces and inside-outside sums are accumulated through these members, and a component that is skipped or mixed up on one branch changes totals only for particular operands.",
     ["mteval/scorer.cc", "mteval/ter.cc", "mteval/wer.cc", "mteval/aer_scorer.cc", "mteval/comb_scorer.cc", "mteval/external_scorer.cc", "mteval/ns.h", "utils/logval.h", "utils/exp_semiring.h", "utils/fast_sparse_vector.h", "utils/maxent.h", "training/dtrain/score.h", "decoder/hg.cc", "decoder/ff_wordalign.cc"],
     [("compound arithmetic members", "mteval/scorer.cc BLEUScore::PlusEquals, utils/logval.h LogVal::operator+=, utils/exp_semiring.h PRPair::operator*=")],
     "per-branch update summaries in polynomial normal form, compared component by component",
     "Floating-point rounding is ignored; the values of scores computed from the statistics (BLEU, TER formulas) are not judged; hulls (ConvexHull) are excluded.",
     ["statistics after PlusEquals/Subtract, values of semiring sums and products"])

prop("C08", "Command-line options are declared, typed and present when consulted",
     "Every option a program of the suite looks up in its parsed command line or configuration is one that the program declares; its value is read as exactly the type it was declared with; and an option without a default is read only where it is known to have been given (its presence was tested, or its absence has already ended the program). No two options of one program share a name or a one-letter form. So no combination of options makes a program fail with a cast of a missing or differently typed value, and no option is silently ignored because it is looked up under another name.",
     ["inputs", "configurations"], "for all combinations of options on the command line and in configuration files, for every program of the suite",
     "The number of option combinations is exponential; the tests run each program with one or two command lines, and many training programs are never run at all.",
     ["decoder/decoder.cc", "decoder/lexalign.cc", "decoder/scfg_translator.cc", "training", "extractor/extract.cc", "extractor/sacompile.cc", "mteval", "utils/atools.cc", "word-aligner/fast_align.cc"],
     [("option declarations and reads of boost::program_options maps", "decoder/decoder.cc DecoderImpl::DecoderImpl, training/dtrain/dtrain.cc dtrain_init")],
     "declaration/use matching with propositional path facts over option-presence tests",
     "Options read through iterators or through names that cannot be resolved are listed in the evidence; what a program does with an option's value is outside.",
     ["whether a program accepts an option and which value it uses"])

prop("C09", "Dynamic dispatch reaches the implementation written for the class",
     "Every extension point works: a member function of a feature function, translator, grammar, scorer, metric, observer or optimizer that is meant to replace an inherited virtual function really overrides it, so calls through the base class reach it; no member hides an inherited function of a polymorphic class; objects deleted through a base class are destroyed completely (virtual destructor); constructors and destructors do not rely on overrides that are not active yet; objects are never sliced to their base; switches over an enumeration and name tables indexed by one cover every enumerator; and feature functions are registered under distinct names.",
     ["inputs", "configurations"], "for every class in every hierarchy and every call through a base class",
     "An override lost through a changed signature compiles silently and the base version (usually empty) runs instead; tests configure only a few of the feature functions, metrics and training programs.",
     ["decoder/ff.h", "decoder/ff_ngrams.h", "decoder/translator.h", "decoder/grammar.h", "decoder/cdec_ff.cc", "mteval/scorer.h", "mteval/ns.h", "training/dtrain/score.h", "training/utils/optimize.h", "extractor"],
     [("class hierarchies with virtual functions", "decoder/ff.h FeatureFunction, decoder/translator.h Translator, mteval/scorer.h Score")],
     "class-hierarchy analysis over the type-checked program",
     "Whether an override does the right thing is outside; enumerations used through if-chains are not judged.",
     ["which function a call through a base pointer runs"])

prop("C10", "Search results are used only after something was found",
     "What a lookup or search returns (the position of a key in a map, set or hash table, of an element in a range, of a substring in a string; a pointer from a dynamic cast, environment lookup or file opening) is used as an element, index or object only where the code has made sure, on every path, that something was found, by comparing it with the end of that same container, with 'not found' or with null. Inputs that lack the key, separator or file therefore never lead to reading past the end of a container.",
     ["inputs"], "for all inputs, present or missing keys, separators, files and environment variables, and every path from the search to the use",
     "Tests use well-formed inputs in which every lookup succeeds; the unchecked path is exercised only by the missing key.",
     ["decoder/tree2string_translator.cc", "decoder/lextrans.cc", "decoder/ff_wordalign.cc", "decoder/grammar.cc", "decoder/ff_factory.h", "decoder/scfg_translator.cc", "utils/stringlib.cc", "utils/dict.cc", "mteval/ter.cc", "extractor/translation_table.cc", "extractor/target_phrase_extractor.cc", "training", "word-aligner"],
     [("lookups whose result is dereferenced or used as an index", "decoder/tree2string_translator.cc Translate (goal lookup), extractor/translation_table.cc GetTargetGivenSourceScore, utils/stringlib.cc ProcessAndStripSGML")],
     "flow-sensitive typestate of search results (unchecked / found) with path facts and in-expression guards",
     "Results stored into members of other objects or returned to callers are not followed; one lookup is justified by an invariant named in the rule.",
     ["behaviour on inputs with missing keys or separators"])

prop("C11", "Forests are wired consistently",
     "Every edge that code adds to a forest is connected to a head node exactly once on every path before the code goes on to the next edge or ends, and never to one of its own tails. The two ends of every link change together: an edge's head node lists it among its incoming edges, its tail nodes among their outgoing ones, and positions in the node and edge lists equal the ids, also after unions, pruning, reordering and edge removal. An edge built for a rule gets as many tails as the rule has nonterminals, and the goal node stays the last node.",
     ["inputs"], "for every grammar, lattice and forest, and every path through the code that builds or transforms forests",
     "Parsers and translators build forests whose shape depends on the whole input; an edge left unconnected or linked on one side only corrupts inside scores, pruning or k-best extraction for the inputs that produce it.",
     ["decoder/hg.h", "decoder/hg.cc", "decoder/hg_union.cc", "decoder/hg_remove_eps.cc", "decoder/hg_intersect.cc", "decoder/hg_io.cc", "decoder/apply_models.cc", "decoder/bottom_up_parser.cc", "decoder/earley_composer.cc", "decoder/phrasebased_translator.cc", "decoder/csplit.cc", "decoder/tagger.cc", "decoder/lextrans.cc", "decoder/lexalign.cc", "decoder/scfg_translator.cc", "decoder/tree2string_translator.cc", "training/utils/grammar_convert.cc"],
     [("calls of AddEdge, AddNode and ConnectEdgeToHeadNode; writers of head_node_, tail_nodes_, in_edges_, out_edges_", "decoder/hg.h Hypergraph::AddEdge/ConnectEdgeToHeadNode, decoder/hg.cc TopologicallySortNodesAndEdges")],
     "typestate of edges under construction with interprocedural connect summaries; paired-update dataflow on link fields",
     "Whether the forest contains the right edges (parser completeness) is outside; head and tails are compared by value identity, so self-loops through unrelated computations are not seen.",
     ["heads, tails and ids of the nodes and edges of a forest"])

prop("C12", "Edges carry their rule's features and forests are scored with the given weights",
     "An edge built for a grammar rule receives that rule's features, and the lattice or transition features handed in with it, on every path, and features once written to an edge are not lost. Every translator that reports success returns a forest whose edges were all scored with the given weights after the last edge was added and the last feature written; a forest read from a file is scored before its edge probabilities are used; and when features are added to an edge its probability is computed afterwards, from its own features. Every configured feature function is consulted for every edge, and yields of derivations combine the edge with every antecedent.",
     ["inputs", "configurations"], "for every grammar, lattice, forest and weight vector, and every path through the code that builds and scores forests",
     "Scores are sums over all edges of a derivation; a feature dropped on one path or an edge scored too early changes scores only for the inputs that take that path, and most translators and training programs are never run by the tests.",
     ["decoder/bottom_up_parser.cc", "decoder/earley_composer.cc", "decoder/lextrans.cc", "decoder/lexalign.cc", "decoder/phrasebased_translator.cc", "decoder/scfg_translator.cc", "decoder/tree2string_translator.cc", "decoder/fst_translator.cc", "decoder/rescore_translator.cc", "decoder/tagger.cc", "decoder/csplit.cc", "decoder/ffset.cc", "decoder/hg.h", "decoder/viterbi.h", "training/minrisk/minrisk_optimize.cc", "training/pro/mr_pro_map.cc", "training/rampion/rampion_cccp.cc"],
     [("edge construction sites, Translator::TranslateImpl implementations, ModelSet loops, traversal functors", "decoder/bottom_up_parser.cc PassiveChart::ApplyRule, decoder/scfg_translator.cc Translate, decoder/ffset.cc ModelSet::AddFeaturesToEdge")],
     "typestate of features on edges under construction; interprocedural must-reweight-last dataflow over returns",
     "Values of features are not judged; fixed helper rules without features are exempt; which weight vector a later decoding pass uses is outside.",
     ["feature values and scores of edges and derivations"])

prop("C13", "Ids and positions of different kinds are never mixed up",
     "An integer that names one kind of thing is never used as another kind. Forest node ids and edge ids, feature ids, word ids, KenLM vocabulary ids and sentence numbers are kept apart in the decoder and the training programs; in the grammar extractor, suffix-array ranks, positions in the corpus arrays, vocabulary ids of either language, positions in source and target sentences, sentence numbers and grammar symbols are kept apart. This holds for every assignment, comparison, container index, argument and return value.",
     ["inputs", "states"], "for every input on which a value of one kind reaches a place that expects another",
     "All these values are plain ints, so the compiler accepts any mix-up; small test inputs make ids of different kinds coincide (node 0 and edge 0, position 1 in both sentences), so tests pass while real inputs get wrong results or out-of-range accesses.",
     ["decoder/hg.h", "decoder/hg.cc", "decoder/trule.h", "decoder/ff_klm.cc", "utils/fdict.h", "utils/tdict.h", "extractor/data_array.h", "extractor/alignment.h", "extractor/rule_extractor.cc", "extractor/rule_extractor_helper.cc", "extractor/translation_table.cc", "extractor/target_phrase_extractor.cc"],
     [("assignments, comparisons, container accesses, calls and returns over ids", "decoder/hg.cc Hypergraph::TopologicallySortNodesAndEdges, extractor/rule_extractor_helper.cc GetLinksSpans")],
     "polymorphic kind inference (unification with let-generalised function summaries) over the typed program, seeded at the definitions of each kind of id",
     "Integers computed by arithmetic other than +/-1 lose their kind; positions within rule sides, lattices and spans are not distinguished; PLF forests (a node is a lattice position) are a declared bridge.",
     ["which thing an id refers to"])

prop("C14", "Caches return what would be computed afresh, and sentence tables are rebuilt",
     "A value kept in a cache after a failed lookup is computed only from what the lookup key determines, from constants and from settings, so a later hit returns what a fresh computation would; a cache shared by several objects does not hold values that depend on one object's settings, and a static local is not initialised from arguments or members. A feature function's cache keyed by addresses, or holding values that depend on the sentence, is emptied for every sentence, and every table PrepareForInput fills is emptied or overwritten first, on every path, so nothing of an earlier sentence remains.",
     ["inputs", "histories"], "for every sequence of sentences and every order of lookups",
     "A wrong cache key, or a table that is not cleared, gives right results for the first sentence or the first lookup and wrong ones later, depending on what was decoded before; tests decode single sentences.",
     ["decoder/ff_source_syntax.cc", "decoder/ff_source_syntax2.cc", "decoder/ff_rules.cc", "decoder/ff_lexical.h", "decoder/ff_wordalign.cc", "decoder/ff_tagger.cc", "decoder/ff_source_path.cc", "decoder/ff_parse_match.cc", "decoder/ff_context.cc", "decoder/ff_conll.cc", "decoder/factored_lexicon_helper.cc", "decoder/tree2string_translator.cc", "example_extff/ff_example.cc", "extractor/vocabulary.cc", "utils/dict.h"],
     [("lookup-or-compute sites on persistent containers; implementations of FeatureFunction::PrepareForInput", "decoder/ff_source_syntax.cc FireFeatures/InitializeGrids, decoder/ff_rules.cc")],
     "backward slice of cached values against the lookup key; must-kill-before-fill dataflow over PrepareForInput",
     "Only caches written as lookup-or-compute are recognised; members never touched by PrepareForInput count as settings; objects behind an address key are assumed not to change while the cache lives.",
     ["feature values of the second and later sentences, ids returned by caches"])

prop("C15", "Feature functions use their dynamic-programming state consistently",
     "Every access a feature function makes to its output state or an antecedent's state stays inside the bytes it reserved, different parts of the state do not overlap, and what is read from an antecedent was written there with the same offset, width and type. An antecedent is used only where the edge is known to have it; an edge with several antecedents reads the same parts of each one's state, and every branch over the number of antecedents writes every part of the state. Scoring an edge does not depend on values that scoring an earlier edge left in members, static locals or globals.",
     ["inputs", "schedules"], "for every forest, every combination of feature functions and every order in which edges are scored",
     "States are raw bytes shared by all feature functions of a run; an access one word too far or a branch that leaves a byte unset changes only other feature functions' values or hypotheses that happen to meet, which tests with one feature function and short sentences never show.",
     ["decoder/ff.h", "decoder/ff_ngrams.cc", "decoder/ff_lm.cc", "decoder/ff_klm.cc", "decoder/ff_wordalign.cc", "decoder/ff_tagger.cc", "decoder/ff_source_path.cc", "decoder/ff_source_syntax.cc", "decoder/ff_soft_syntax.cc", "decoder/ff_parse_match.cc", "decoder/ff_context.cc", "decoder/ff_const_reorder.cc", "decoder/ff_csplit.cc"],
     [("implementations of TraversalFeaturesImpl and FinalTraversalFeatures and their helpers", "decoder/ff_ngrams.cc NgramDetectorImpl, decoder/ff_wordalign.cc SourceBigram, decoder/ff.h FeatureFunction")],
     "abstract interpretation of state pointers as linear byte offsets; per-arity must-write dataflow",
     "Offsets inside arrays whose index is computed in a loop are followed to the array start only; which words a language model keeps in its state is outside.",
     ["bytes of the state of partial hypotheses, feature values"])

prop("C16", "Concurrent parts of the suite do not race",
     "Code that several threads run at once (the grammar extractor's parallel loops, parallel training loops, the client threads of the sentence server) writes memory shared between them only under a lock or critical section that also guards every other access, into a slot only that thread uses, or atomically. A lookup in a shared table and the insertion it decides happen in one critical section, static and global objects are not changed without a guard, and results are gathered before they are used. Mutexes are released on every path, never taken again while held, and taken in one order, so neither a race nor a deadlock depends on timing.",
     ["schedules"], "for every interleaving of the threads and every number of threads",
     "A race or deadlock shows only under particular interleavings; the tests run the extractor with one or two threads on a few sentences and never start the sentence server.",
     ["extractor/extract.cc", "extractor/extract.cc", "extractor/vocabulary.cc", "extractor/grammar_extractor.cc", "extractor/rule_factory.cc", "extractor/precomputation.cc", "extractor/translation_table.cc", "extractor/data_array.cc", "training/utils/sentserver.cc"],
     [("OpenMP parallel regions and everything they call", "extractor/extract.cc parallel for over sentences, extractor/vocabulary.cc critical (vocabulary)"), ("pthread mutexes and the globals they guard", "training/utils/sentserver.cc queue_mutex, clients_mutex, input_mutex")],
     "context-sensitive sharing and lockset analysis of OpenMP regions and pthread code",
     "Slots indexed by the loop variable of the parallel loop count as private; library containers are taken as safe for concurrent reads only; KenLM's builder threads are not part of the build and are outside.",
     ["output of the extractor and of the sentence server under concurrency"])

prop("C17", "Memory managed by hand is released once, rightly, and not used afterwards",
     "Memory and files obtained by hand are released in the form they were obtained (new with delete, new[] with delete[], malloc with free, file handles with their own close), at most once on every path, and are not used, returned or handed to an owner afterwards; a member, field or container element whose memory was released is replaced, reset or emptied before others can reach it. An owning pointer only gets memory that nobody else releases, and an object that releases memory in its destructor is never copied pointer by pointer. Buffers are allocated for the type they hold and with room for the text, including its terminator, that is copied into them.",
     ["inputs", "histories"], "for every input and every sequence of calls, error paths included",
     "Double releases and uses after release sit on error paths and in second calls, corrupt memory silently and show only under particular allocation histories; the tests follow the normal paths once.",
     ["utils/small_vector.h", "utils/fast_sparse_vector.h", "utils/sparse_vector.cc", "decoder/apply_models.cc", "decoder/kbest.h", "decoder/trule.cc", "decoder/earley_composer.cc", "decoder/grammar.cc", "decoder/ff_const_reorder.cc", "decoder/ff_const_reorder_common.h", "decoder/ff_factory.h", "training/mira/kbest_cut_mira.cc", "training/utils/sentserver.cc", "training/const_reorder/trainer.cc"],
     [("delete and free sites, owning pointers, destructors that release members", "utils/small_vector.h SmallVector, decoder/apply_models.cc CubePruningRescorer::FreeAll, utils/sparse_vector.cc B64::Decode")],
     "typestate analysis of owned pointers with interprocedural release summaries; allocation-form unification; copyability of owners",
     "Leaks are not claimed; pointers kept in two containers at once are not related to each other; ownership decided by flags is accepted when a flag the destructor consults is reset.",
     ["crashes and memory corruption"])

prop("C18", "Results do not depend on chance, the clock or memory addresses",
     "The same input, options and seed give the same output on every run. Random sources are used only where sampling is meant, and every random generator is seeded with the seed the user gives whenever one can be given; what a clock returns reaches only messages, time sums and time limits. Nothing is ordered, walked, numbered, hashed for output or printed by memory address.",
     ["inputs", "histories"], "for every input, every seed and every layout of memory",
     "A dependence on an unseeded generator or on addresses shows as rare differences between runs; a test runs once and compares with an expected output that the usual allocation order happens to give.",
     ["utils/sampler.h", "utils/timing_stats.cc", "training/pro/mr_pro_map.cc", "training/mira/kbest_cut_mira.cc", "training/mira/kbest_mira.cc", "training/crf/mpi_online_optimize.cc", "decoder/decoder.cc", "decoder/apply_models.cc", "extractor/suffix_array.cc", "extractor/grammar_extractor.cc"],
     [("random generators and their seeds", "utils/sampler.h RandomNumberGenerator, random_seed options"), ("clock readings", "utils/timing_stats.cc, training programs"), ("comparators, ordered and hashed containers, printed values", "sort calls, map/set keys and stream output everywhere")],
     "effect analysis of random and clock sources; type-based address-order lint with walk-order check",
     "Walking a hash table whose keys are values (not addresses) is not claimed; the unseeded generators of programs that offer no seed (decoder sampling, dtrain forest sampling) are listed in the rule.",
     ["differences between runs with the same seed"])

# ---------------------------------------------------------------------------------------------------------------- not claimed
na("N01", "The best derivation reported is the best in the forest",
   "For every forest and every weight vector, the translation and score printed as best are those of a derivation with maximal model score among all derivations of the forest.",
   ["inputs"], "for every acyclic forest and weight vector",
   "Holds or fails per forest; tests check a few small ones.",
   ["decoder/viterbi.h", "decoder/viterbi.cc", "decoder/inside_outside.h"], [("Viterbi over a topologically ordered forest", "decoder/viterbi.h Viterbi")],
   "The maximum over derivations is a runtime quantity: whether the recurrence computes it depends on numeric values and on the order of edges of forests built at run time. The static parts that it rests on are claimed elsewhere (wiring and order of nodes C11, edge scores C12, comparison C01, component-wise semiring arithmetic C07).")

na("N02", "The k-best list is complete, ordered and free of duplicates",
   "For every forest and k, the k-best list holds the k highest-scoring derivations in non-increasing order, without duplicates when uniqueness is asked for.",
   ["inputs"], "for every forest and every k",
   "Quantifies over forests and k.", ["decoder/kbest.h"], [("lazy k-best enumeration", "decoder/kbest.h KBestDerivations::LazyKthBest")],
   "Completeness of lazy enumeration is an inductive argument over heap contents at run time; the heap order (C01), equality/hash of derivations (C02) and reference stability (C05) are claimed.")

na("N03", "Inside and outside scores and expectations are numerically right",
   "Inside-outside computation gives every edge its exact posterior and every feature its exact expectation under the log-linear model.",
   ["inputs"], "for every forest and weight vector", "Quantifies over forests and real-valued weights.",
   ["decoder/inside_outside.h", "utils/exp_semiring.h", "training/crf/mpi_compute_cllh.cc"], [("inside-outside recurrences", "decoder/inside_outside.h Inside, InsideOutside")],
   "Value-level correctness of a numeric recurrence over run-time graphs; no static bound in reach. Semiring laws per component are in C07.")

na("N04", "Cube pruning only drops hypotheses and never changes those it keeps",
   "Every derivation of the pruned, rescored forest is a derivation of the unpruned forest with the score full rescoring would give it, and raising the limit never worsens the best score.",
   ["inputs", "configurations"], "for every forest, feature set and pop limit", "Quantifies over forests and limits.",
   ["decoder/apply_models.cc"], [("cube pruning and growing", "decoder/apply_models.cc CubePruningRescorer")],
   "Relates two run-time forests; the static ingredients (state bytes C15, copies C04, feature carry-over C12, candidate hash and order C01/C02) are claimed.")

na("N05", "Parsers find every derivation the grammar licenses",
   "For every grammar and input, the chart parser builds exactly the derivations the grammar licenses within the configured span limits.",
   ["inputs"], "for every grammar and sentence or lattice", "Quantifies over grammars and inputs.",
   ["decoder/bottom_up_parser.cc", "decoder/earley_composer.cc", "decoder/tree2string_translator.cc"], [("passive/active chart", "decoder/bottom_up_parser.cc PassiveChart::Parse")],
   "Completeness of a chart is an inductive property of run-time chart contents; a static pass can see that items are added and looked up consistently (C02, C11) but not that all are.")

na("N06", "Rules extracted from aligned text are consistent with the alignment",
   "Every rule the grammar extractor outputs is consistent with the word alignment of the sentence it comes from and respects the configured limits on span, symbols and gaps.",
   ["inputs", "configurations"], "for every corpus, alignment and setting", "Quantifies over alignments.",
   ["extractor/rule_extractor.cc", "extractor/rule_extractor_helper.cc", "extractor/target_phrase_extractor.cc"], [("fixpoint over alignment links", "extractor/rule_extractor_helper.cc FindFixPoint")],
   "The consistency condition relates index sets computed from data at run time; kinds of positions (C13) and uninitialised values (C06) are the part a static analysis decides.")

na("N07", "Suffix-array lookups return exactly the occurrences in the corpus",
   "Looking up a phrase with or without gaps returns every occurrence in the indexed corpus and nothing else.",
   ["inputs"], "for every corpus and pattern", "Quantifies over corpora and patterns.",
   ["extractor/suffix_array.cc", "extractor/intersector.cc", "extractor/fast_intersector.cc", "extractor/matchings_finder.cc"], [("suffix array built by prefix doubling, binary search", "extractor/suffix_array.cc")],
   "Sortedness of an array built at run time is a data invariant beyond sound static reach.")

na("N08", "Metric scores equal the metrics' definitions",
   "BLEU, TER, METEOR-style, SSK, CER, QCRI and combined scores computed from any hypothesis and references equal their published definitions and lie in their documented range.",
   ["inputs"], "for every hypothesis and reference set", "Quantifies over strings.",
   ["mteval/ns.cc", "mteval/ns_ter.cc", "mteval/ns_ssk.cc", "mteval/scorer.cc", "mteval/ter.cc"], [("evaluation metrics", "mteval/ns.h EvaluationMetric")],
   "The definition is a numeric function; there is no static oracle for it. Additivity of the statistics is claimed in C07.")

na("N09", "Optimizers converge to the optimum of their objective",
   "Line search, L-BFGS, online updates and margin-based training reach weights whose objective is at least as good as the starting point and, where convex, optimal up to the tolerance.",
   ["inputs", "histories"], "for every objective and starting point", "Quantifies over real-valued functions.",
   ["training/utils/optimize.cc", "training/utils/lbfgs.h", "training/dpmert/line_optimizer.cc", "training/mira/kbest_mira.cc"], [("batch and online optimizers", "training/utils/optimize.cc")],
   "Convergence is a numeric property over real-valued runs.")

na("N10", "Gradients are the derivatives of the objectives they are paired with",
   "Every gradient a trainer hands to its optimizer is the derivative of the objective value handed over with it.",
   ["inputs"], "for every weight vector and data set", "Quantifies over weights.",
   ["training/crf/mpi_batch_optimize.cc", "training/pro/mr_pro_reduce.cc", "training/latent_svm/latent_svm.cc"], [("objective and gradient accumulators", "training/pro/mr_pro_reduce.cc")],
   "Would need symbolic differentiation of code with data-dependent loops; no static oracle.")

na("N11", "Samplers draw from the distribution they are given",
   "Random draws (derivation samples, multinomial and Gumbel draws, reservoir samples of occurrences) follow the stated distribution.",
   ["inputs", "schedules"], "for every distribution and random seed", "A statistical property over random seeds.",
   ["utils/sampler.h", "decoder/hg_sampler.cc", "extractor/backoff_sampler.cc"], [("inverse-transform sampling", "utils/sampler.h SampleSet")],
   "Distributional correctness is not decidable from syntax; determinism where no sampling is meant is a separate question.")

na("N12", "Language-model scores equal the model's probabilities",
   "For every word sequence the score contributed by a language model equals the model's back-off probability, no matter how the derivation splits the sequence.",
   ["inputs"], "for every model and derivation", "Quantifies over models and derivations.",
   ["decoder/ff_lm.cc", "decoder/ff_klm.cc", "klm/lm/model.cc", "klm/lm/left.hh"], [("partial state scoring", "klm/lm/left.hh RuleScore")],
   "Equality of floating-point sums over run-time trie contents; the state handling it rests on is claimed in C15 and the key handling in C02.")

na("N13", "Decoding and training terminate within their resource limits",
   "Every program terminates on every finite input and respects the limits (pop limit, beam, maximum span, time) it was configured with.",
   ["inputs", "configurations"], "for every input and configuration", "Quantifies over inputs.",
   ["decoder/decoder.cc", "decoder/apply_models.cc", "extractor/matchings_sampler.cc"], [("work lists and limits", "decoder/apply_models.cc CubePruningRescorer::LazyKBest")],
   "Termination of work-list algorithms depends on the data (ranking functions over run-time sets).")

na("N14", "Union, intersection and pruning of forests act on their sets of derivations",
   "The union of forests has exactly the derivations of both, intersection with a reference exactly those yielding it, and pruning keeps exactly those within the threshold.",
   ["inputs"], "for every pair of forests and threshold", "Quantifies over forests.",
   ["decoder/hg_union.cc", "decoder/hg_intersect.cc", "decoder/hg.cc"], [("forest transformations", "decoder/hg_union.cc HG::Union")],
   "Set equality of derivations of run-time forests; element-wise copying (C04) and wiring (C11) are the statically decidable part.")

na("N15", "Crashes and partial output never corrupt stored results",
   "If a program of the suite is killed, or a write fails, files it was writing are either complete or recognisably incomplete to their readers.",
   ["crash_points", "fault_sequences"], "for every point at which the process can die or a write can fail", "Quantifies over crash points.",
   ["utils/filelib.h", "utils/weights.cc", "decoder/hg_io.cc", "klm/util/file.cc"], [("plain stream output without temporary files", "utils/filelib.h WriteFile")],
   "The suite makes no such guarantee (files are written in place, without markers or renames), so there is nothing for a check to hold it to.")
