"""What each check runs."""

ALWAYS_TRUSTED = [
    'Verus and Z3; rustc',
    '/verif/vx: extraction and the desugaring rules listed in DESIGN.md',
    "derive(PartialEq, Eq, PartialOrd, Ord, Hash, Clone) expanded by hand in the specs",
]

PARSE_ASSUMPTIONS = [
    'fewer than 2^31 events and fewer than 2^64 - 1 steps',
    'the whitespace test and the rule cache (HashMap) behave as specified by the shims in specs/parser.rs',
    'Vec::set_len in truncate_fast is Vec::truncate (Event needs no drop)',
    'termination is not proved: the contracts hold for every call that returns',
    'grammars are closed and bodies start as stated in specs/good.rs (rule_ok, rule_opens, contextual_ok); at most 16 contexts and arguments',
    'the equations of the semantics have a solution (specs/grammar.rs)',
]

LIB_ASSUMPTIONS = [
    'a LanguageImpl calls fall_parse::parse with its own lexer and grammar (the generated code does)',
    'closures `|ty| …whitespace_like` and the binder closure are the functions ws_of and binder_of (converted by exact text)',
    'Box<dyn Any> stores and gives back the same value',
    'texts are shorter than 2^31 bytes; binders claim at most the spaces they are given',
]

CHECKS = {
    'C07': dict(
        units=['range'], harness=[('core', 'C07')], level='proof', secs=6,
        technique='Verus contracts on the extracted TextUnit and TextRange functions',
        note='Every function of text_unit.rs and text_range.rs is proved against interval arithmetic for all u32 values. '
             'Overflowing arithmetic is excluded by precondition (the build panics on it with overflow checks on; that it is rejected, not wrapped, is checked by the bounded search).',
    ),
    'C06': dict(
        units=['edit'], harness=[('core', 'C06')], level='proof', secs=6,
        technique='Verus contracts on the extracted TextEdit::apply and TextEditBuilder functions',
        note='Every function of text_edit.rs is proved: apply yields the concatenation of the operations, each builder operation extends the output by exactly the copied gap and the inserted text, '
             'copied ranges stay disjoint and increasing, and going back diverges (advance_to under the rejecting contract).',
    ),
    'C08': dict(
        units=['text'], harness=[('core', 'C08')], level='proof', secs=6,
        technique='Verus contracts on the extracted Text, TextBuf and TextSuffix functions over byte sequences',
        note='Every function of text.rs, text_buf.rs and text_slice.rs is proved against byte sequences, given the documented behaviour of the standard string functions it calls (specs/str.rs).',
    ),
    'C03': dict(
        units=['lex'], harness=[('core', 'C03')], level='proof', secs=8,
        technique='Verus contracts on the extracted lexing loop and RegexLexer',
        note='lex and step are proved to give the tokens of the recursive specification for every lexer; RegexLexer::next_token is proved to select the longest match, the first rule on ties, '
             'and an error token where no rule matches, given an assumed contract of the regular-expression library (longest match of each rule at the start).',
        assumptions=['contract of m_lexer (regular-expression library): specs/regex_lexer.rs'],
        bounded_for='the regular-expression library',
    ),
    'C04': dict(
        units=['lex'], harness=[('core', 'C04')], level='proof', secs=8,
        technique='Verus contracts on the extracted relex, stated against lexing from scratch',
        note='relex is proved to return exactly the tokens of lexing the edited text, for all texts, all edits and every lexer with one character of lookahead.',
    ),
    'C09': dict(
        units=['visit'], harness=[('core', 'C09')], level='proof', secs=6,
        technique='Verus contracts on the extracted TreeBuilder, Node and navigation functions, with an invariant of half-built trees',
        note='Every function of tree_builder.rs is proved to preserve the invariant (children name their parent, parents list their children, siblings in order, ranges tile) for every sequence of calls; '
             'finish yields a well-formed tree; parent, children, ancestors, sibling and the by-type queries are proved against that tree.',
        assumptions=['two references to files that are equal as values refer to the same file (node equality is by address)',
                     'a tree has fewer than 2^32 nodes'],
    ),
    'C10': dict(
        units=['visit'], harness=[('core', 'C10')], level='proof', secs=6,
        technique='Verus contracts on the extracted offset queries over well-formed trees',
        note='find_leaf_at_offset is proved to return exactly the leaves that touch the offset, find_covering_node the smallest node that covers the range (for a caret: the lowest node above the touching leaves), '
             'for all well-formed trees, including empty nodes and unary chains; lemma_leaf_answer shows the answer is unique.',
        assumptions=['two references to files that are equal as values refer to the same file (node equality is by address)'],
    ),
    'C11': dict(
        units=['tedit'], harness=[('core', 'C11')], level='proof', secs=6,
        technique='Verus contracts on the extracted FileEdit functions, composed with the contracts of the text edit builder and the covering-node query',
        note='text_edit_for_node and into_text_edit are proved to yield the text given by a recursive specification over the tree (deleted, replaced, children, inserted), for all trees and all sets of edits; '
             'replace_substring is proved to change exactly the substring of the covering node; copied ranges are proved to lie on character boundaries, so applying the edit cannot fail.',
        assumptions=['two references to files that are equal as values refer to the same file (node equality is by address)'],
    ),
    'C17': dict(
        units=['lines'], harness=[('editor', 'C17')], level='proof', secs=5,
        technique='Verus contracts on the extracted LineIndex::new and LineIndex::translate',
        note='new is proved to collect exactly the starts of the lines of the text, translate to return the number of newline characters before the offset and the distance from the start of the line, for all texts and all offsets.',
        assumptions=['str::chars: consecutive characters; the byte 10 is the character newline and part of no other (specs/line_index.rs)',
                     'ordslice upper_bound on a sorted vector'],
    ),
    'C18': dict(
        units=['subseq'], harness=[('editor', 'C18')], level='proof', secs=5,
        technique='Verus contracts on the extracted functions of the automaton, with lemmas over its runs',
        note='start, accept, is_match, can_match and will_always_match are proved against a specification whose runs accept exactly the names that contain the query as a subsequence (lemma_accepts); '
             'lemma_always shows the hints agree with the answers on every extension.',
        assumptions=['str::as_bytes, AsRef<str>', 'the fst crate runs the automaton as documented (searches through it are part of the bounded search)'],
    ),
    'C19': dict(
        units=['sel'], harness=[('core', 'C19')], level='proof', secs=6,
        technique='Verus contract on the extracted extend_selection, composed with the contracts of the offset queries',
        note='For a non-empty selection the result is proved to be the range of the smallest node that encloses it and is larger, and nothing exactly when the selection is the whole file; '
             'for a caret the range of a touching non-whitespace leaf, otherwise the whitespace leaf or the following line.',
        assumptions=['two references to files that are equal as values refer to the same file (node equality is by address)',
                     'a language answers the same for the same node type'],
    ),
    'C15': dict(
        units=['conv'], harness=[('core', 'C15')], level='proof', secs=8,
        technique='Verus contracts on the extracted functions of convert.rs: the tree is a fold over the events put in place',
        note='reshuffle_events is proved to put every start event before the one it was wrapped around, outermost first, for chains of any length, keeping balance and tokens; '
             'convert, go and fill are proved to build exactly the tree the events describe: nested as they nest, spaces outside except those the binder claims, for all balanced event sequences, texts and binders; '
             'with a root binder that claims everything the tree covers the text.',
        assumptions=['a binder and the whitespace test are functions of their arguments and claim no more spaces than there are',
                     'that the parser only produces such event sequences is the subject of C12 and C13 and of the bounded search'],
        trusted=['IsWs::call, Binder::call (the two callback parameters)'],
    ),
    'C12': dict(
        units=['parse'], harness=[('core', 'C12')], level='proof', secs=8,
        technique='Verus contracts on every extracted function of the parser state and of the expression interpreter: outcome and frame stated against a big-step semantics of grammars',
        note='Every parse_* function is proved to leave contexts, parameters, mode and the events produced before it untouched, whether it succeeds or fails; on failure the events are exactly those from before, '
             'in predicate mode nothing is produced, and the position never passes the end of the layer. Proved for all grammars, token sequences and parser states that meet the stated invariants.',
        assumptions=PARSE_ASSUMPTIONS,
    ),
    'C13': dict(
        units=['parse'], harness=[('core', 'C13')], level='proof', secs=8,
        technique='Verus contracts on every extracted function of the expression interpreter against a big-step semantics of the grammar language',
        note='Each construct has its own equation (specs/grammar.rs); every parse_* function is proved to return the position, the events and the replacement its equation gives, for every solution of the equations. '
             'The events of a whole parse are those of the start rule with uncovered tokens in an error node (file_events).',
        assumptions=PARSE_ASSUMPTIONS,
    ),
    'C14': dict(
        units=['parse'], harness=[('core', 'C14')], level='proof', secs=8,
        technique='Verus contracts on the extracted operator parser (parse_pratt, pratt_go, pratt_prefix, infixes) against recursive equations of precedence climbing',
        note='parse_pratt, pratt_go, pratt_prefix and PrattTable::infixes are proved to follow the equations of precedence climbing: first listed operator that applies and is admitted by the minimal priority, '
             'right operand with strictly higher priority, prefix operand with its own, error node for a missing right operand, postfix without operand.',
        assumptions=PARSE_ASSUMPTIONS,
    ),
    'C01': dict(
        units=['lex', 'parse', 'conv', 'lib'], harness=[('core', 'C01')], level='proof', secs=8,
        technique='Verus contracts on the extracted lexing loop, parser, event-to-tree conversion, and Language::parse',
        note='lex tiles the text, parse covers the tokens with one balanced node, convert builds a tree that covers the text; Language::parse returns a file whose text is the input '
             'and whose tree is well formed, spans exactly the text, and has every node start and end between characters; each proved for all inputs.',
        assumptions=PARSE_ASSUMPTIONS + LIB_ASSUMPTIONS,
    ),
    'C02': dict(
        units=['lex', 'parse', 'conv', 'lib'], harness=[('core', 'C02')], level='proof', secs=8,
        technique='Verus contracts on the extracted lexing loop, parser and event-to-tree conversion: indexing, arithmetic, unwrap and unreachable are obligations',
        note='No function of the lexer loop, parser or conversion can panic on closed grammars; the result is a function of lexer, grammar and text; termination is not proved (bounded search).',
        assumptions=PARSE_ASSUMPTIONS + LIB_ASSUMPTIONS,
    ),
    'C05': dict(
        units=['lex', 'parse', 'salvage', 'lib'], harness=[('core', 'C05')], level='proof', secs=8,
        technique='Verus contracts on the extracted relex, salvage_segments, parser with rule cache, and File::edit, stated against parsing the edited text from scratch',
        note='relex is proved equal to lexing from scratch; the parser to give the same events with any sound cache; salvage_segments to return only segments that the rule would give again at that place of the new text; '
             'File::edit composes them: its tree is the tree of the edited text, for all texts, edits and closed grammars.',
        assumptions=PARSE_ASSUMPTIONS + LIB_ASSUMPTIONS + [
            'the lexer looks at one character past a token (lookahead1); the error node type is not whitespace-like; contextual tokens are not made of lexer-error tokens',
            'an error-free result of a rule marked cached depends only on the tokens it consumed (local, specs/salvage.rs): the use of `<prev>`, contexts and lookahead in cached rules is a grammar mistake',
        ],
    ),
    'C16': dict(
        units=['visit'], harness=[('core', 'C16')], level='proof', secs=6,
        technique='Verus contracts on the extracted traversals and visitors, callbacks as state transformers',
        note='bottom_up and subtree are proved to go through exactly the post-order sequence of nodes, walk_tree through the pre-order one; lemma_orders_complete shows both orders contain each node below the root exactly once; '
             'visitors are proved to run the earlier-registered visitor first and then their callback exactly on nodes of their type; the collecting functions return exactly the matching nodes in order.',
        assumptions=['callbacks (FnMut) are deterministic state transformers: NodeCall, CtxCall in specs/visit.rs',
                     'the closure `|node, nodes| nodes.push(node)` is the trusted PushCall'],
    ),
    'C22': dict(
        units=['index'], harness=[('index', 'C22'), ('watch', 'C22')], level='proof', secs=8,
        technique='Verus contracts on the extracted functions of indxr: processing of a path, the watching loop with its invariant, construction and reading',
        note='change is proved to make the index hold exactly the wanted values below the path and to leave the rest alone; watch is proved to keep the invariant that everything below the roots is up to date '
             'except below paths announced by an event still to be received, while files change at any time; theorem_mirror: with no event outstanding the index is the mirror of the files; '
             'process_files is proved to hand every entry to its sink once, until told to stop.',
        assumptions=['notify announces every change below a watched directory by the path changed or one above it, or by Rescan (specs/index.rs: evolves, announced); attribute changes and watcher errors are not changes',
                     'files do not change while one path is being processed (a later change is announced later); regular files and directories only',
                     'walkdir lists every file below a directory; Path and HashMap operations as specified by the shims',
                     'the lock gives the watching thread exclusive access (Mutex and Arc are dropped by extraction); dropping a watcher is not modelled (bounded search through real notifications)',
                     'mapper and filter are functions of path and content; the mapper is only called on existing files'],
        trusted=['the filter closure of IndexableFileSet::new (Path::extension)', 'thread::spawn'],
    ),
    'C20': dict(
        units=['gram'], harness=[('grammar', 'C20')], level='proof', secs=8,
        technique='Verus contracts on the extracted queries of the grammar analysis, their cache and the accessors of the syntax tree, against a specification of names over the bare tree',
        note='resolve_ref_expr is proved to give parameter, else first rule, else token, else nothing with one error (except the quoted context of a call); resolve_call the construct or rule of that name and exactly the errors of wrong '
             'arity, contexts and arguments of <prev_is>; theorem_calls_reported: a call that is not resolved or has a wrong number of arguments is reported; duplicate rules and tokens are reported and the first rule counts; '
             'the cache is proved to keep only right answers whose diagnostics were added, once (the answer is stored only after that), for all grammar files.',
        assumptions=['the parts that the grammar of grammars gives every node of its type are there: specs/gram.rs node_shape (e.g. a reference has a name and lies in a rule)',
                     'HashMap, HashSet, Mutex and derived Clone/Eq/Hash of queries as specified by the shims; one thread',
                     'the query of all contexts (a BTreeMap filled by a visitor) gives some fixed list of at most 2^32 contexts (bounded search)',
                     'Analysis::collect_all_diagnostics asks these questions for every node: bounded search only',
                     'string literals are different exactly when their bytes are; messages are not looked at'],
        trusted=['AllContexts::execute', 'QMap, QGuard, QVacant, QOccupied, AllDiagnostics, TextMap, TextSet (shims)'],
        bounded_for='collect_all_diagnostics and the context query',
    ),
    'C21': dict(
        units=['gen'], harness=[('gen', 'C21')], level='proof', secs=20,
        technique='Verus contracts on the extracted code generator (Codegen), against a specification of what a rule of the grammar denotes over the bare tree',
        note='Codegen::generate, gen_rule, gen_expr, gen_pratt and everything they use are proved, for all grammar files without syntax errors: if no error is returned, the list of expressions starts with one expression '
             'for every rule, every other index is that of a rule or of an earlier expression (theorem: denotes), and every expression is what its part of the grammar denotes (position of <commit>, order of arguments, '
             'node types, contexts and parameters below the limits of the parser, operator tables, public/replaceable/replaces/cached); node types and lexer rules are those of the file in order; the JSON text is the one of '
             'these expressions and cannot end its raw string; an error is returned only for a grammar that is wrong (gen_fails).',
        assumptions=['the file has no syntax errors: every part that the grammar of grammars demands is there (specs/gen.rs full_node, whole), and fewer than 2^32 tokens, rules and parameters',
                     'fewer than 2^32 expressions (specs/gen.rs fits)',
                     'serde_json writes and reads expressions faithfully; replacing `"#` by `"\\u0023` keeps the meaning of the JSON text and leaves no `"##` (axiom_json)',
                     'the template prints the values it is given (TEMPLATE: bounded search); the accessors for the syntax tree (ast block) and verbatim code are outside the contract',
                     'which kind of operator a rule is (ResolvePrattVariant) is some function of the rule (bounded search)',
                     'resolution of names and calls as proved for C20'],
        trusted=['Codegen::ast_part (a stand-in for the ast block of generate)', 'LexRule::token_re, LexRule::extern_fn, VerbatimDef', 'tera::Context and String shims', 'Analysis::resolve_pratt_variant'],
        bounded_for='the template, the regular expressions of tokens, ResolvePrattVariant',
    ),
}
NOT_APPLICABLE = {}
