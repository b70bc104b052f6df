#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only so the long lines stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))

p("C01", "Parsing is lossless: the tree tiles the text",
  "For every grammar and every input text, the tree produced by parsing covers the whole text: the root spans the text from first to last byte, and the leaves, read left to right, are exactly the consecutive pieces of the text with nothing lost, duplicated, overlapped or reordered (whitespace, comments and erroneous input included). Every inner node spans exactly the concatenation of its children.",
  ["inputs", "programs"], "all grammars (rule tables, node types, whitespace binders), all token sequences, all texts",
  "The tests compare tree dumps of some dozens of hand-written inputs in four grammars; whether any token can be dropped or duplicated depends on the interaction of arbitrary event streams (forward parents, empty nodes, error nodes, whitespace binding) with arbitrary token sequences.",
  ["fall/parse/src/syn_engine/convert.rs", "fall/parse/src/syn_engine/expr.rs", "fall/tree/src/node/tree_builder.rs", "fall/parse/src/lex_engine.rs"],
  [("events to tree conversion", "fall/parse/src/syn_engine/convert.rs"), ("leftover tokens wrapped into a trailing error node", "fall/parse/src/syn_engine/expr.rs parse"), ("node range growth", "fall/tree/src/node/tree_builder.rs")],
  ["File::root, Node::range, Node::children, Node::text, File::text"])

p("C02", "Parsing any text succeeds and never panics",
  "For every text (empty, garbage, truncated, multi-byte) and every shipped language, and for every grammar whose rules refer only to existing rules, node types, contexts and parameters and whose recursion always consumes input, parsing returns a tree and does not panic. Malformed input is reported only as error nodes inside the tree.",
  ["inputs", "programs"], "all texts; all well-formed grammars",
  "A test can only show that its own inputs do not panic; index, slice and arithmetic safety of the interpreter must hold for every token sequence and every combination of grammar constructs (predicates around operators, replacements, injections, layers).",
  ["fall/parse/src/syn_engine/parser.rs", "fall/parse/src/syn_engine/expr.rs", "fall/parse/src/syn_engine/pratt.rs", "fall/parse/src/syn_engine/convert.rs"],
  [("speculative (predicate) mode emits nothing", "fall/parse/src/syn_engine/parser.rs event"), ("error nodes and leftovers", "fall/parse/src/syn_engine/expr.rs parse, parse_layer, parse_with_skip")],
  ["Language::parse"])

p("C03", "Lexing tiles the text with longest match, first rule wins",
  "For every text, the token sequence of a language tiles the text from start to end with non-empty tokens. Each token is the longest match of any lexical rule's pattern at its position, ties go to the rule listed first (a rule with a custom function is chosen by its pattern and measured by its function), and text that no rule matches becomes error tokens, one for each maximal run.",
  ["inputs", "programs"], "all texts, all lexical rule lists whose rules match non-empty text",
  "The tests lex a few inputs; the tiling is an induction over an unbounded text and the choice of rule depends on every pair of rules that can match at one position.",
  ["fall/parse/src/lex_engine.rs", "fall/parse/src/lib.rs"],
  [("lexing loop", "fall/parse/src/lex_engine.rs lex, Lexer::step"), ("rule number to node type", "fall/parse/src/lib.rs RegexLexer")],
  ["leaves of the parse tree"])

p("C04", "Relexing after an edit equals lexing from scratch",
  "For every text, every edit of it (any sequence of copied ranges and insertions) and every lexer whose decision about a token depends only on the token itself and the character after it, relexing the edited text from the old tokens gives exactly the tokens that lexing the edited text from scratch gives. A token is reused only where the text around it was copied.",
  ["inputs", "histories"], "all old texts, all edits, all chains of edits, all lexers with one character of lookahead",
  "Whether a token may be reused depends on the alignment of token boundaries with the borders of copied ranges; the existing proptest covers one toy lexer.",
  ["fall/parse/src/lex_engine.rs"],
  [("reuse of old tokens strictly inside a copied range", "fall/parse/src/lex_engine.rs relex"), ("full relex if there was an error token", "fall/parse/src/lex_engine.rs relex")],
  ["Language::reparse, File::edit, relexed region metric"])

p("C05", "Incremental reparse equals a full parse",
  "For every text, every sequence of edits and every language with one character of lexical lookahead whose cached rules depend only on the tokens they consume, the tree obtained by editing a parsed file is identical (node types, nesting, ranges, text) to the tree obtained by parsing the edited text from scratch. Reused pieces only ever come from regions that the edit copied unchanged and that contained no syntax error.",
  ["inputs", "histories"], "all texts, all edit sequences, shipped languages and all grammars with context-independent cached rules",
  "Cache hits depend on offsets shifted by arbitrary combinations of deletions and insertions, on stale entries after several edits, on speculation and on the end of input; a handful of sampled edits reaches few of these.",
  ["fall/parse/src/syn_engine/mod.rs", "fall/parse/src/syn_engine/parser.rs", "fall/parse/src/lib.rs", "fall/tree/src/lang.rs"],
  [("collecting reusable segments and shifting their offsets", "fall/parse/src/syn_engine/mod.rs salvage_segments"), ("replaying a cached segment", "fall/parse/src/syn_engine/parser.rs get_from_cache"), ("cache brackets in the event stream", "fall/parse/src/syn_engine/expr.rs parse_cached")],
  ["File::edit vs Language::parse"])

p("C06", "Text edits are exact splices",
  "Applying an edit gives exactly the concatenation of its copied ranges of the old text and its inserted strings, in order. An edit built from in-order insertions, deletions and replacements yields the old text with exactly those pieces changed and everything else copied once, in place; an operation that goes back before the end of the previous one is rejected instead of producing a corrupted text.",
  ["inputs", "histories"], "all texts, all sequences of builder operations, all copy/insert lists",
  "One test builds one edit; the statement is about every sequence of operations, including adjacent, empty and out-of-order ones.",
  ["fall/text/src/text_edit.rs", "fall/text/src/text.rs", "fall/text/src/text_range.rs"],
  [("builder cursor", "fall/text/src/text_edit.rs advance_to"), ("application", "fall/text/src/text_edit.rs TextEdit::apply")],
  ["TextEditBuilder, TextEdit::apply"])

p("C07", "Offsets and ranges form an interval algebra",
  "Ranges are always well ordered (start <= end; an inverted range is rejected), and length, emptiness, containment, disjointness/intersection, gluing, shifting and the partial order of ranges agree with half-open intervals of offsets for all values. Offset arithmetic is exact and never wraps silently.",
  ["inputs"], "all offsets and pairs of ranges",
  "Only a proof covers all 2^32 offsets and their pairs; there are no unit tests for ranges.",
  ["fall/text/src/text_unit.rs", "fall/text/src/text_range.rs"],
  [("range operations", "fall/text/src/text_range.rs"), ("offset arithmetic", "fall/text/src/text_unit.rs")],
  ["TextRange, TextUnit"])

p("C08", "Text slices denote the right substring",
  "A slice of a text (also a slice of a slice, or a suffix) denotes exactly the bytes of the requested range relative to the text it was taken from; a range that reaches outside it is rejected. Length, emptiness, comparison, searching (first and last occurrence, prefix, suffix, containment) and trimming of a slice agree with the same operation on the string it denotes.",
  ["inputs"], "all strings, all nested ranges, all needles",
  "Offset bugs show only for slices that do not start at zero, nested slices, multi-byte text or empty slices; the tests use whole files.",
  ["fall/text/src/text.rs", "fall/text/src/text_slice.rs", "fall/text/src/text_buf.rs"],
  [("slicing", "fall/text/src/text.rs slice"), ("suffix ranges", "fall/text/src/text_slice.rs")],
  ["Text, TextBuf, TextSuffix"])

p("C09", "Tree links are mutually consistent",
  "In every tree, each child of a node names that node as its parent, every node except the root has exactly one parent and is reachable from the root, and siblings are ordered by position. Walking to the left or right sibling, to the ancestors and to children of a type gives exactly the neighbours, the chain of parents ending at the root, and the children of that type in order.",
  ["inputs", "programs"], "all sequences of tree-building calls, all nodes",
  "Links are built by a stateful builder from arbitrary event sequences; a sampled tree does not settle all sequences.",
  ["fall/tree/src/node/tree_builder.rs", "fall/tree/src/node/imp.rs", "fall/tree/src/search.rs"],
  [("builder", "fall/tree/src/node/tree_builder.rs"), ("node handles", "fall/tree/src/node/imp.rs"), ("navigation", "fall/tree/src/search.rs")],
  ["Node::parent, Node::children, search::*"])

p("C10", "Offset queries find the right leaf and covering node",
  "For every tree and every offset inside a node, the leaf query returns no leaf exactly when the node is empty, two leaves exactly when the offset is the boundary between these two adjacent non-empty leaves, and otherwise the one non-empty leaf that contains the offset. For every range inside the root, the covering-node query returns the lowest common ancestor of the leaves at the range's ends (for a boundary: the leaf inside the range), which contains the range, and no child of it contains both these leaves.",
  ["inputs"], "all trees (including empty nodes anywhere), all offsets, all ranges",
  "Boundary cases (empty nodes at the boundary, offsets at the very start and end, unary chains) multiply with tree shapes.",
  ["fall/tree/src/search.rs"],
  [("descent by offset", "fall/tree/src/search.rs find_leaf_at_offset"), ("lowest common ancestor", "fall/tree/src/search.rs find_covering_node, common_ancestor")],
  ["search::find_leaf_at_offset, search::find_covering_node"])

p("C11", "Structural edits change exactly the named nodes",
  "For every tree and every set of deletions, replacements and insertions attached to nodes, the resulting text edit yields the old text in which each outermost edited node's text is deleted or replaced as asked and each insertion appears right after its anchor node, with all other text unchanged and in order. A node carries one edit (deletion before replacement before insertion, the first replacement or insertion given); edits inside a deleted or replaced node are subsumed by it. Replacing a substring replaces exactly that substring.",
  ["inputs", "histories"], "all trees, all sets of node edits, all substrings",
  "Edits nest, touch empty nodes and neighbouring nodes; tests exercise a few refactorings.",
  ["fall/tree/src/edit.rs", "fall/text/src/text_edit.rs"],
  [("tree walk emitting builder operations", "fall/tree/src/edit.rs text_edit_for_node"), ("substring replacement", "fall/tree/src/edit.rs replace_substring")],
  ["FileEdit::into_text_edit"])

p("C12", "Failed and speculative parses leave no trace",
  "When a grammar expression fails, everything it produced so far is discarded, and the contexts and rule parameters in force are what they were before it was tried, whatever it did inside; when it succeeds, contexts, parameters and what was produced before it are untouched and it never moves past the end of the enclosing layer. An expression tried only as a predicate (lookahead, layer head, recovery probe) produces nothing at all.",
  ["inputs", "programs", "histories"], "all grammars, all token sequences, all nestings of expressions",
  "Backtracking bugs appear only when a particular expression fails after particular side effects inside particular enclosing constructs.",
  ["fall/parse/src/syn_engine/expr.rs", "fall/parse/src/syn_engine/pratt.rs", "fall/parse/src/syn_engine/parser.rs"],
  [("rollback on failure", "fall/parse/src/syn_engine/expr.rs parse_expr"), ("predicate mode", "fall/parse/src/syn_engine/expr.rs parse_expr_pred"), ("save/restore of contexts and arguments", "fall/parse/src/syn_engine/expr.rs parse_enter, parse_exit, parse_call")],
  ["tree shape produced by Language::parse"],
  [dict(name="parser state", meaning="events, contexts, arguments, predicate flag", where="fall/parse/src/syn_engine/parser.rs Parser")])

p("C13", "Grammar constructs mean what the grammar language says",
  "For every grammar and token sequence: alternatives are tried in order and the first success wins; a sequence without a commit point succeeds only if all parts do, and one with a commit point fails before it and yields the parsed prefix with an error node after it; repetition takes as many as possible; optional, lookahead, end-of-input, any-token, token and contextual-token tests, context enter/exit/test, rule parameters, previous-node tests, skip-recovery, layers and node injection behave as documented, consuming exactly the tokens they match.",
  ["inputs", "programs"], "all grammars, all token sequences, all nesting of constructs",
  "The tests exercise the constructs in the combinations of four grammars; the meaning of each construct must hold in all contexts.",
  ["fall/parse/src/syn_engine/expr.rs", "fall/parse/src/syn_engine/parser.rs"],
  [("interpreter", "fall/parse/src/syn_engine/expr.rs parse_expr_inner and the parse_* functions")],
  ["tree produced by Language::parse for a hand-made ParserDefinition"])

p("C14", "Operator precedence and associativity are respected",
  "For every operator table and every input, an operator expression groups as the table says: a right operand only contains operators of strictly higher priority, so operators of equal priority group to the left; a prefix operator's operand contains the operators of its own or higher priority; a missing right operand gives an error node instead of losing the operator; postfix operators take no right operand. Among operators that apply at a position the one listed first is used.",
  ["inputs", "programs"], "all operator tables, all token sequences",
  "Grouping is decided by the recursion over every interleaving of operators of different priorities; the tests check a few expressions.",
  ["fall/parse/src/syn_engine/pratt.rs", "fall/parse/src/lib.rs"],
  [("operator loop", "fall/parse/src/syn_engine/pratt.rs pratt_go, pratt_prefix"), ("priority filter", "fall/parse/src/lib.rs PrattTable::infixes")],
  ["tree produced by Language::parse"])

p("C15", "Tree shape follows the parse, whitespace goes to the binder's side",
  "Node nesting is exactly the nesting the parser reported, with every node that was wrapped after the fact placed inside its later-opened parent, for arbitrarily long chains of wrapping. Whitespace and comments before and after a node are placed outside it except for exactly the adjacent ones which the language's binder claims for it (those before a node are the ones before its first token: an empty node has none), and the file node takes everything.",
  ["inputs", "programs"], "all event streams a parse can produce, all token sequences, all binders that claim at most what they are given",
  "Chains of wrapping combined with empty nodes and bound comments produce event orders that the sample inputs do not contain.",
  ["fall/parse/src/syn_engine/convert.rs", "fall/parse/src/lib.rs"],
  [("resolving forward parents", "fall/parse/src/syn_engine/convert.rs reshuffle_events"), ("binding whitespace", "fall/parse/src/syn_engine/convert.rs Convertor::go, fill")],
  ["tree produced by Language::parse"])

p("C16", "Traversals visit every node once, in order, with the right callback",
  "For every tree, the bottom-up traversal visits every node of the subtree exactly once, children left to right before their parent, and the top-down walk visits parents before their children. A visitor calls each registered callback exactly for the nodes of its type, in registration order, and collecting descendants or children of a type returns all and only those, in traversal order.",
  ["inputs"], "all trees, all sets of node types",
  "Tests use traversals on sample files and would not notice a skipped node in an untested shape.",
  ["fall/tree/src/search.rs", "fall/tree/src/visitor.rs", "fall/tree/src/util.rs", "fall/tree/src/ast.rs"],
  [("recursion", "fall/tree/src/search.rs traversal::bottom_up, subtree"), ("dispatch", "fall/tree/src/visitor.rs"), ("typed children", "fall/tree/src/ast.rs AstChildren")],
  ["visitor::process_subtree_bottom_up, walk_tree, search::subtree, search::descendants_of_type"])

p("C17", "Offset to line/column translation is exact",
  "For every text and every offset, the reported line is the number of newline characters before the offset, and the column is the distance in bytes from the start of that line, so the line start plus the column is the offset.",
  ["inputs"], "all texts (multi-byte, empty, with or without final newline), all offsets",
  "A unit test checks a dozen offsets in two ASCII texts.",
  ["lang/rust/src/editor/line_index.rs"],
  [("table of line starts and binary search", "lang/rust/src/editor/line_index.rs")],
  ["LineIndex::new, LineIndex::translate via SymbolIndex results"])

p("C18", "Symbol search matches exactly the names containing the query as a subsequence",
  "The matcher used by symbol search accepts a name if and only if the query is a subsequence of its bytes, whatever the name and query (empty and multi-byte included). Its pruning hints never contradict this: once it says a prefix will always match, every extension matches, and it never says that a prefix cannot match although an extension does.",
  ["inputs"], "all queries, all names",
  "The automaton has unboundedly many states and inputs; no test covers it.",
  ["lang/rust/src/editor/fst_subseq.rs"],
  [("subsequence automaton", "lang/rust/src/editor/fst_subseq.rs")],
  ["SymbolIndex::query"])

p("C19", "Extending a selection grows it to the next enclosing node",
  "For every tree and every non-empty selection inside it, extending the selection gives the range of the smallest enclosing node whose range differs from the selection (so it strictly contains the selection), and nothing exactly when the selection is already the whole file. For a caret (at a character boundary) inside or next to non-whitespace it gives the range of a leaf touching the caret; inside whitespace that of the whitespace.",
  ["inputs", "histories"], "all trees, all selections, repeated extension",
  "A handful of samples check the result for particular carets; the growth guarantee is over all trees and selections.",
  ["fall/editor/src/extend_selection.rs", "fall/tree/src/search.rs"],
  [("covering node and ancestors", "fall/editor/src/extend_selection.rs")],
  ["EditorFileImpl::extend_selection"])

p("C20", "Names in a grammar resolve by scope and precedence",
  "In a grammar file every name used in a rule body resolves to exactly one thing: the enclosing rule's parameter of that name if there is one, otherwise the syntax rule of that name, otherwise the token of that name, and otherwise it is reported as unresolved (a quoted name that is the context of a call is not a reference). A call resolves to the built-in construct of that name, or else to the rule of that name if it has a parameter list; a call that resolves to nothing or has not as many arguments as it should is reported as an error. A second rule or token of a name is reported as a duplicate; the first rule of a name counts. The diagnostics of a file are computed for every text, malformed ones included, without panicking, each error once.",
  ["inputs", "programs"], "all grammar files",
  "Shadowing and arity combinations are not covered by the analysis tests' samples.",
  ["lang/fall/src/analysis/query/resolve_ref_expr.rs", "lang/fall/src/analysis/query/resolve_call.rs", "lang/fall/src/analysis/query/all_syn_rules.rs", "lang/fall/src/analysis/query/all_lex_rules.rs", "lang/fall/src/analysis/db.rs", "lang/fall/src/analysis/mod.rs", "lang/fall/syntax/src/ast_ext.rs"],
  [("lookup chain", "lang/fall/src/analysis/query/resolve_ref_expr.rs")],
  ["Analysis, diagnostics"])

p("C21", "Generated parsers implement their grammar",
  "For every grammar file without syntax errors the generator either reports an error, and then only if the grammar is wrong (an unresolved name or call, a node type that does not exist, more contexts or parameters than a parser can track, a misplaced <commit>, an operator rule of another shape than references), or generates a definition that is closed (every rule, node type, context and parameter index it mentions exists) and denotes the grammar: every rule's expression has the structure written in the grammar, with its node type, its attributes (public, cached, replaceable, replaces), the position of its first <commit>, the order of its arguments and its operators with their priorities; token types and lexer rules are those of the file in order. It never panics, and the generated text is valid whatever the tokens contain.",
  ["programs", "inputs"], "all grammar files without syntax errors",
  "The tests regenerate the shipped grammars only.",
  ["fall/gen/src/generate/codegen.rs", "fall/gen/src/generate/mod.rs", "fall/gen/src/generate/template.txt", "lang/fall/syntax/src/ast_ext.rs"],
  [("expression compilation", "fall/gen/src/generate/codegen.rs")],
  ["fall_gen::generate"])

p("C22", "The source index mirrors the files on disk",
  "After any history of creations, modifications, deletions and renames of files and directories below its roots has been announced by the file watcher and processed, the index holds exactly one up-to-date value for every indexable file below the roots and nothing for others, and a reader is handed each entry once. This covers changes made while the roots are first indexed, relative roots, and lost events reported as a rescan.",
  ["histories", "schedules"], "all histories of file system changes and scheduling of the indexing threads",
  "Depends on real file system events and thread scheduling.",
  ["indxr/src/lib.rs"], [("index update", "indxr/src/lib.rs")], ["FileIndex::process_files"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
