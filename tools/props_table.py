NOTES = 'See DESIGN.md. Every check extracts LLVM IR of the named functions from /repo on every run and discharges the contracts in props/<id>.py; harness/<id>.cc is the bounded native stand-in and replayer.'
P = [
 dict(id='C01', title='Flag diacritics are obeyed exactly as defined',
  statement='For every sequence of symbols, each flag diacritic evaluator accepts it exactly when no P, N, R, D, C or U operation met on the way is blocked under the documented meaning of the operators; features and values never interfere with one another. The numeric-table, lookup-table and xfst evaluators therefore give the same answer.',
  over=['inputs', 'histories'], forall='all symbol sequences of any length, any features and (nonempty) values, any order in which diacritics are defined',
  why='Tests try a handful of words with one or two features; the operator table, negative settings, repeated use of an evaluator and the numbering of features need every sequence.',
  files=['libhfst/src/HfstFlagDiacritics.h', 'libhfst/src/HfstFlagDiacritics.cc', 'libhfst/src/HfstLookupFlagDiacritics.cc', 'libhfst/src/parsers/XfstCompiler.cc'],
  mech=[('FdState::apply_operation', 'libhfst/src/HfstFlagDiacritics.h'), ('FdTable::define_diacritic, is_valid_string', 'libhfst/src/HfstFlagDiacritics.h'), ('FlagDiacriticTable::insert_symbol, is_valid_string', 'libhfst/src/HfstLookupFlagDiacritics.cc'), ('xfst is_valid_string', 'libhfst/src/parsers/XfstCompiler.cc')],
  note='Proved for all inputs: one-step semantics of both evaluators, numbering of features and values, whole-word loops of FdTable (numbers), FlagDiacriticTable and xfst. Bounded: FdTable::is_valid_string(text), get_symbols_with_feature. Assumes std containers as modelled.'),
 dict(id='C02', title='Flag diacritic symbols are recognised and split correctly',
  statement='A symbol is treated as a flag diacritic exactly when it has the form @X.FEATURE@ or @X.FEATURE.VALUE@ with X one of P, N, R, D, C, U (value optional only for R, D, C). Its operator, feature and value are read off exactly as written, the same way everywhere.',
  forall='all byte strings', why='Tests use a few well-formed diacritics; near misses, empty parts and values that contain full stops are not sampled.',
  files=['libhfst/src/HfstFlagDiacritics.cc', 'libhfst/src/HfstLookupFlagDiacritics.cc'],
  mech=[('FdOperation::is_diacritic, get_operator, get_feature, get_value, has_value, find_diacritic', 'libhfst/src/HfstFlagDiacritics.cc'), ('FlagDiacriticTable::is_genuine_diacritic, split_diacritic', 'libhfst/src/HfstLookupFlagDiacritics.cc')],
  note='Proved for all strings; find_diacritic in running text is bounded.'),
 dict(id='C03', title='Symbols and symbol numbers correspond one to one',
  statement='Within a process every non-empty symbol has exactly one number and every number in use exactly one symbol; epsilon, unknown and identity are 0, 1 and 2; a number once given never changes. A transition therefore keeps exactly the input symbol, output symbol, target and weight it was given, through copying, assignment and setters, and harmonization vectors map each symbol to its own number.',
  over=['inputs', 'histories'], forall='all symbols (any bytes) and all histories of coding operations',
  why='The coding is process-wide state that grows with every symbol; tests see short histories of plain letters.',
  files=['libhfst/src/implementations/HfstTropicalTransducerTransitionData.cc', 'libhfst/src/implementations/HfstTropicalTransducerTransitionData.h', 'libhfst/src/implementations/HfstBasicTransition.cc'],
  mech=[('HfstTropicalTransducerTransitionData::get_number, get_symbol, get_harmonization_vector, get_reverse_harmonization_vector', 'libhfst/src/implementations/HfstTropicalTransducerTransitionData.cc'), ('string_comparison', 'libhfst/src/implementations/HfstTropicalTransducerTransitionData.h'), ('HfstBasicTransition', 'libhfst/src/implementations/HfstBasicTransition.cc')],
  note='Proved for all inputs and all histories: the coding invariant over all three static tables, constructors, setters, getters, harmonization vectors. Assumes fewer than 2^32-32 symbols and std containers as modelled.'),
 dict(id='C04', title='Sorted transition sets use true orderings and lose nothing',
  statement='The comparisons used to keep transitions, composition transitions and traversal states in sorted containers are strict weak orders under which two elements are equivalent only if they are equal (weights that are numbers). Inserting into the composition sets keeps them strictly sorted, adds the element if it was absent, and loses or duplicates nothing.',
  forall='all elements, all pairs and triples, all sets', why='A comparison that is asymmetric or transitive only for the samples tested silently drops or duplicates transitions for others.',
  files=['libhfst/src/implementations/HfstTropicalTransducerTransitionData.cc', 'libhfst/src/implementations/HfstBasicTransition.cc', 'libhfst/src/implementations/compose_intersect/ComposeIntersectFst.cc', 'libhfst/src/implementations/compose_intersect/ComposeIntersectUtilities.h', 'libhfst/src/implementations/optimized-lookup/find_epsilon_loops.cc'],
  mech=[('operator<, less_than_ignore_weight', 'libhfst/src/implementations/HfstTropicalTransducerTransitionData.cc'), ('ComposeIntersectFst::CompareTransitions', 'libhfst/src/implementations/compose_intersect/ComposeIntersectFst.cc'), ('SpaceSavingSet::insert', 'libhfst/src/implementations/compose_intersect/ComposeIntersectUtilities.h'), ('TraversalState::operator<, operator==', 'libhfst/src/implementations/optimized-lookup/find_epsilon_loops.cc')],
  note='Proved for all inputs: each comparison computes the stated lexicographic order, lemmas prove that order strict weak and total up to equality, SpaceSavingSet::insert keeps its invariant. Assumes weights are not NaN and that states of one search have equally many flags.'),
 dict(id='C05', title='Tokenization is leftmost longest match and loses no text',
  statement='Tokenizing a text skips the skip symbols and cuts the rest into the longest multicharacter symbols it starts with at each point, else single UTF-8 characters. The concatenation of the tokens is the text without the skipped parts; for pairs the shorter side is padded with epsilons only at the end.',
  over=['inputs', 'histories'], forall='all texts and all sets of multicharacter and skip symbols added in any order',
  why='Tests use a few words; overlapping symbols, bytes above 127, skip symbols next to symbols, and unequal sides are not sampled.',
  files=['libhfst/src/HfstTokenizer.cc', 'libhfst/src/HfstTokenizer.h'],
  mech=[('MultiCharSymbolTrie::add, find', 'libhfst/src/HfstTokenizer.cc'), ('HfstTokenizer::tokenize, tokenize_one_level, tokenize_space_separated', 'libhfst/src/HfstTokenizer.cc')],
  note='Proved for all inputs: trie insertion and longest match, skip symbols, the four tokenize loops as folds over the text. Trusted: size bounds of get_next_symbol_size when ICU segmentation is used, check_utf8_correctness. Bounded: tokenize_and_align_flag_diacritics, ICU segmentation.'),
 dict(id='C06', title='Editing a graph changes exactly what was asked',
  statement='On the mutable transducer graph, adding, removing and swapping states and transitions, setting and removing final weights, changing and pruning the alphabet, and copying change exactly the states, transitions, weights and symbols asked for: nothing else moves or is lost, new states are empty, and the alphabet queries report exactly the symbols that occur in transitions.',
  over=['inputs', 'histories'], forall='all graphs, all states, symbols and weights, all histories of edits',
  why='Every conversion and parser goes through these edits; tests check a few small graphs, not duplicate transitions, states out of range, both ends final, or alphabets that hold unused symbols.',
  files=['libhfst/src/implementations/HfstBasicTransducer.cc', 'libhfst/src/implementations/HfstBasicTransition.cc'],
  mech=[('HfstBasicTransducer::add_state, add_transition, remove_transition, swap_state_numbers, set_final_weight', 'libhfst/src/implementations/HfstBasicTransducer.cc'), ('HfstBasicTransducer::prune_alphabet, prune_alphabet_after_substitution, symbols_used, check_alphabet', 'libhfst/src/implementations/HfstBasicTransducer.cc')],
  note='Proved for all graphs: state and transition addition, final weights, swapping, access, alphabet operations, both prunings, symbol and pair collectors, copying. Bounded: remove_transition, sort_arcs. Uses the coding contracts proved by C03.'),
 dict(id='C07', title='Optimized-lookup files read back exactly what was written',
 statement='An optimized-lookup transducer written to a stream consists of its header fields, its symbols each followed by a NUL byte, its transition index table and its transition table in the documented little-endian layout (weights only when weighted; an unweighted final index marked by target 1); reading such bytes gives a transducer with the same header numbers and flags, the same symbols under the same numbers, the same index and transition entries, finalities and weights, consumes exactly its bytes, and writing it again gives the same bytes. The reading alphabet recognises exactly the symbols in flag-diacritic form as flag diacritics, and exactly the unknown, identity and default symbols as standing for others. A stream that ends early or whose header truth values are neither 0 nor 1 raises TransducerHasWrongTypeException. Header flags probe as they were set.',
 over=['inputs'], forall='all headers, symbol tables, index tables and transition tables, weighted and unweighted, and all byte sequences as header', why='The tests convert a handful of transducers through the tools; a layout or classification error that writer and reader share, or that only shows with certain flags, symbol orders, special entries or cut files, passes them.',
 files=['libhfst/src/implementations/optimized-lookup/transducer.cc','libhfst/src/implementations/optimized-lookup/transducer.h'],
 mech=[('TransducerHeader, TransducerAlphabet, TransitionIndex, Transition, TransducerTable: read, write', 'libhfst/src/implementations/optimized-lookup/transducer.h'),('Transducer::write, load_tables', 'libhfst/src/implementations/optimized-lookup/transducer.cc')],
 note='Proved for all inputs: every reader and writer of header, alphabet, index entry, transition entry and table, and the alphabet queries. Bounded: the whole-transducer write and load_tables (virtual dispatch over table types) and the truncated-table exception.'),
 dict(id='C08', title='Optimized lookup returns the analyses of the transducer',
 statement='Looking up a word in an optimized-lookup transducer cuts it into the longest input symbols it starts with at each point (single UTF-8 characters otherwise) and returns each path of the transducer whose input side, epsilons and flag diacritics left out, matches the symbols of the word and whose flag diacritics are obeyed, with the symbols of the path and the sum of its weights and final weight, and returns nothing else. A symbol that no transition has on its input side counts as unknown: identity and unknown transitions match exactly these and repeat them on the output side where that is identity or unknown; a default transition is followed only where nothing else applies. A result limit gives that many of the results, or all if there are fewer. Earlier lookups do not influence later ones. (Transducers without cycles of input epsilons and flag diacritics.)',
 over=['inputs', 'histories'], forall='all transducers, all words, all limits, any lookups made before', why='The tests look up a few words in a few transducers; flag states, weights and tapes must be restored on every backtrack, which only shows when particular arcs, flags and limits meet.',
 files=['libhfst/src/implementations/optimized-lookup/transducer.cc', 'libhfst/src/implementations/optimized-lookup/transducer.h', 'libhfst/src/HfstFlagDiacritics.h'],
 mech=[('Transducer::get_analyses, try_epsilon_transitions, try_epsilon_indices, find_transitions, find_index, note_analysis', 'libhfst/src/implementations/optimized-lookup/transducer.cc'), ('OlLetterTrie::add_string, find_key; Encoder', 'libhfst/src/implementations/optimized-lookup/transducer.cc')],
 note='Proved for all tables and inputs: every result found is the accepting path of the tables on the input with its weight, tapes, flags and weight are restored by each search function, the limit is respected, symbol trie and encoder. Bounded: completeness of the search, tokenisation, results compared to a plain search of the source graph.'),
 dict(id='C09', title='Conversion to and from optimized lookup keeps the transducer',
 statement='Converting a transducer graph to the optimized-lookup format gives index and transition tables from which, by the documented layout, exactly the reachable states of the graph can be read off, each with its finality and final weight and with exactly its transitions (input, output, weight, target, repeated ones as often as they occur); weights are dropped only in the unweighted format. Epsilon is symbol 0, input symbols come before all others, and every symbol of the alphabet appears once. Converting back gives the same reachable states, transitions and weights, and the same alphabet, and neither conversion changes its source.',
 forall='all transducer graphs', why='The converter packs states into shared index ranges; a collision, a wrong offset or a wrong state type only shows with particular combinations of inputs, flags and state order.',
 files=['libhfst/src/implementations/ConvertOlTransducer.cc', 'libhfst/src/implementations/optimized-lookup/convert.cc', 'libhfst/src/implementations/optimized-lookup/convert.h', 'libhfst/src/implementations/optimized-lookup/transducer.cc'],
 mech=[('StatePlaceholder::add_input, add_transition, symbol_offset; IndexPlaceholders::fits, assign', 'libhfst/src/implementations/optimized-lookup/convert.h'), ('add_transitions_with, write_transitions_from_state_placeholders', 'libhfst/src/implementations/optimized-lookup/convert.cc'), ('hfst_basic_transducer_to_hfst_ol, hfst_ol_to_hfst_basic_transducer', 'libhfst/src/implementations/ConvertOlTransducer.cc'), ('Transducer::get_transitions_from_state', 'libhfst/src/implementations/optimized-lookup/transducer.cc')],
 note='Proved for all states and tables: inputs and state types, lists of transitions, index placement (fits, assign, used), offsets of inputs, writing the transitions of an input. Bounded: the two conversions as a whole, decoded from the written bytes.'),
 dict(id='C10', title='Substitution replaces exactly the transitions asked for',
 statement='Substituting symbols, symbol pairs, sets of pairs or graphs in a transducer graph replaces exactly the transitions that match, at the same state, target and weight, all substitutions of one call simultaneously; every other transition, the states and the final weights stay as they were. A pair replaced by a set becomes one transition for each pair of the set (none for the empty set); a pair or symbol replaced by a graph becomes a copy of the graph entered with the weight of the transition and left with its final weights. The alphabet gains the symbols put in and loses those substituted away where the operation says so. Inserting freely adds to each state a loop with the pair, pairs or graph and the weight. Empty symbols are refused.',
 over=['inputs'], forall='all graphs, symbols, pairs, maps, sets and substituting graphs', why='Tests substitute one symbol in small graphs; swaps and chains, parallel matching transitions, symbols left on one side and substitutions that do not occur are not sampled.',
 files=['libhfst/src/implementations/HfstBasicTransducer.cc'],
 mech=[('HfstBasicTransducer::substitute_, substitute, add_substitution, remove_transitions, insert_freely', 'libhfst/src/implementations/HfstBasicTransducer.cc')],
 note='Proved for all graphs: substitution symbol by symbol, symbols by symbols and pairs by pairs (number vectors and maps), free insertion of a pair. Bounded: building the vectors and maps, substitution by sets, functions and graphs, removal, insertion of sets and graphs.'),
]
NA = [
 dict(id='C90', title='Finite-state algebra computes the right language or relation',
  statement='Union, concatenation, closure, composition, intersection, difference, determinisation, minimisation, epsilon removal and weight pushing on transducers give exactly the weighted relation the operation denotes, whatever back end is used.',
  forall='all pairs of transducers', why='The operand space is infinite; tests compare a few small machines.', files=['libhfst/src/HfstTransducer.cc', 'libhfst/src/implementations/TropicalWeightTransducer.cc'], mech=[('HfstTransducer operators', 'libhfst/src/HfstTransducer.cc')],
  reason='The algorithms live in OpenFst, SFST and foma (dependencies, template-heavy C++ outside /repo or imported); libhfst only dispatches to them, so there is no code in /repo whose contracts would decide the property, and assumed contracts on the back ends would be the property itself.'),
 dict(id='C91', title='Rule and lexicon compilers produce the relation their source denotes',
  statement='Every regular expression, lexc lexicon, two-level grammar and pmatch script compiles to the relation that the notation documents.',
  forall='all source texts', why='The source languages are infinite; tests compile a few dozen files.', files=['libhfst/src/parsers'], mech=[('xre, lexc, twolc, pmatch compilers', 'libhfst/src/parsers')],
  over=['programs'], reason='Deciding it needs a formal semantics of four source languages composed with the back-end algebra of C90 through generated bison/flex tables; no per-function contract within reach of the verifier expresses it. Leaf guarantees of these parsers are claimed separately.'),
]
