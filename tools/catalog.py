"""The catalogue: one entry per property. properties.jsonl and MANIFEST.json are generated from it by tools/gen.py; run.py takes
the explorers and bounds of a check from it."""

P = {}


def prop(id, title, statement, over, quant, why, files, mech, runs, bounds, rule, assumptions=(), note="", level="model_checking",
         technique="exhaustive bounded exploration of the real code against an independent reference model", limit=800, observe=()):
    assert id not in P and len(title) <= 80, (id, len(title))
    P[id] = dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, runs=runs,
                 bounds=bounds, rule=rule, assumptions=list(assumptions), note=note, level=level, technique=technique, limit=limit, observe=list(observe))


UTF16 = "Characters are UTF-16 code units, as everywhere in the code base (one wchar_t holds one unit)."

prop("C01", "A regular expression matches exactly the strings it denotes",
     "For every regular expression, the recogniser built from it accepts exactly the strings the expression denotes: concatenation, alternatives, "
     "groups, the repetitions * + ?, sets, the any-character dot and references to named expressions, with postfix binding tightest and alternatives loosest. "
     "This holds however many other expressions are added to the same lexer, and each match is reported under the identifier its own expression was given.",
     ["inputs", "programs"], "all regular expressions (nested to any depth), added alone or with others, and all strings of every length",
     "The tests try about thirty expressions on a few strings each; they cannot rule out that some nesting of operators (e.g. a group ending in a repetition, followed by more) matches too much or too little.",
     ["TameParse/Dfa/ndfa_regex.cpp", "TameParse/Dfa/ndfa.cpp", "TameParse/Dfa/ndfa_regex.h"],
     [("expression compiler", "ndfa_regex::compile, ndfa_regex::builder"), ("automaton builder", "ndfa::builder")],
     [dict(harness="regex_lang")],
     {"quick": "all expressions of up to 5 operators/atoms over {a,b}, smaller ones over sets, dot, negated sets and references, minimally and fully parenthesised, alone and in pairs; all strings of every length (product automaton explored to its fixed point)",
      "thorough": "as quick with one more operator per family"},
     "every syntax tree of the bounded size is one case; non-trivial: the language is neither empty nor just the empty string",
     [UTF16], "Complete for the bounded expressions: strings are not bounded. Trusts the derivative-based reference and the view of the automaton's transitions.")

prop("C02", "A pattern's atoms denote exactly their documented characters",
     "Each character, escape, set, range, negated set, named class or case-insensitive pattern in a regular expression or literal denotes exactly the documented set of characters over the whole Unicode code space, "
     "characters beyond 16 bits being matched as their surrogate pairs. "
     "A malformed pattern (an unclosed bracket, or a reference to an unknown name) is reported as an error and a well-formed one never is.",
     ["inputs", "programs"], "all atoms (every code unit as a literal or escape, every range between boundary points, every named class) and all characters",
     "The tests use a dozen escapes and ranges and probe a handful of characters; off-by-one errors at surrogate or case-table boundaries only show for particular code points.",
     ["TameParse/Dfa/ndfa_regex.cpp", "TameParse/Util/unicode.cpp", "TameParse/Dfa/ndfa.cpp"],
     [("escapes and sets", "ndfa_regex::read_symbol, symbol_set parsing"), ("case mapping", "unicode::to_lower/to_upper"), ("surrogate pairs", "ndfa::builder"), ("validity check", "ndfa_regex::check_regex")],
     [dict(harness="regex_chars", args=["chars"]), dict(harness="regex_chars", args=["classes"]), dict(harness="regex_chars", args=["case"]), dict(harness="regex_chars", args=["malformed"])],
     "every code unit as literal and as each escape form (octal ones up to six digits, and every escape with fewer digits than it can have or followed by one more); ranges and negated ranges between all pairs of boundary points (incl. supplementary planes); all named classes; case-insensitive ranges in ASCII and Cyrillic; all strings up to a length over the bracket alphabet for malformedness; the accepted character sets are computed exactly, not sampled",
     "one case per atom; non-trivial: the denoted set is not empty",
     [UTF16, "Case pairs are judged by an independent table for scripts with regular case pairs (ASCII, Latin-1, Greek, Cyrillic)."],
     "Exact set comparison over the whole code space for every enumerated atom.")

prop("C03", "Automaton transformations keep the recognised language",
     "Splitting overlapping symbol sets, converting to a deterministic automaton, compacting it, merging equivalent symbols, copying it and building its run-time tables all preserve, for every starting state, which inputs are accepted and under which identifiers. "
     "The deterministic results have at most one move per state and character and no empty moves, and compaction never adds states.",
     ["programs", "inputs"], "all automata (any transitions, overlapping sets, several start states and accepting actions) and all inputs",
     "The tests transform about ten automata and compare a few strings; wrong state merging or numbering needs a particular shape of automaton.",
     ["TameParse/Dfa/ndfa_transformations.cpp", "TameParse/Dfa/ndfa.cpp", "TameParse/Dfa/state_machine.h", "TameParse/Dfa/remapped_symbol_map.cpp"],
     [("subset construction", "ndfa::to_dfa"), ("minimisation", "ndfa::to_compact_dfa"), ("symbol splitting", "ndfa::to_ndfa_with_unique_symbols"), ("run-time tables", "state_machine")],
     [dict(harness="transform")],
     {"quick": "all NFAs with 2 states and up to 5 transitions, 3 states and up to 4 transitions (3 overlapping symbol sets incl. the empty move, up to 4 kinds of acceptance, eager actions); all DFAs with 2-4 states over 2-3 symbols; all inputs of every length by product exploration",
      "thorough": "more transitions and all 5-state DFAs in canonical numbering"},
     "one case per automaton; non-trivial: it has a transition and an accepting state",
     [], "Complete for the bounded automata; inputs unbounded.")

prop("C04", "Tokenisation is longest match, best action first, and loses nothing",
     "A lexer splits any input into consecutive lexemes whose text concatenates back to the input: each is the longest match at its position, reported with the highest-priority action that matches that text, and where nothing matches exactly one character is returned marked as unrecognised. "
     "The result is the same whichever deterministic form or table layout the lexer was compiled to and however the lexemes are read.",
     ["inputs", "programs"], "all sets of token definitions and all inputs",
     "The tests lex a few fixed strings with a few lexers; backtracking to an earlier accepting position, end of input inside a partial match and unmatched characters interact per input.",
     ["TameParse/Dfa/lexer.h", "TameParse/Dfa/basic_lexer.cpp", "TameParse/Dfa/lexer.cpp", "TameParse/Dfa/character_lexer.cpp", "TameParse/Dfa/lexeme.cpp"],
     [("longest match loop", "dfa_lexer stream operator>>"), ("action priority", "accept_action comparison")],
     [dict(harness="lexing", args=["tokens"])],
     {"quick": "all sets of up to 3 of the pool's token definitions, all inputs up to length 6 over 3 characters; start conditions; every 16-bit code unit", "thorough": "inputs up to length 8"},
     "one case per token set; every input string is a trace replayed through the real lexer and compared with a derivative-based reference tokeniser",
     [UTF16], "Complete within the bounds.")

prop("C05", "Character tables return exactly the symbol assigned to each character",
     "A table from character ranges to symbols returns, for every character, the symbol of the range containing it and 'none' for all others, for every set of disjoint ranges in every insertion order. "
     "Copies of the table and its flattened form (the one written into generated parsers) give the same answer for every character without reading outside their data.",
     ["inputs", "histories"], "all assignments of disjoint ranges, all insertion orders, all characters",
     "The tests check a table of two or three ranges at a few characters; page boundaries and shared pages only matter for particular layouts.",
     ["TameParse/Dfa/symbol_table.h", "TameParse/Dfa/hard_coded_symbol_table.h", "TameParse/Dfa/symbol_translator.h"],
     [("multi-level table", "symbol_level::add_range/lookup"), ("flattening", "to_hard_coded_table"), ("flattened lookup", "hard_coded_symbol_table::lookup")],
     [dict(harness="symtab", full=False)],
     "up to 3 disjoint ranges between 10 (thorough: 14) boundary points of the 16-bit space in every insertion order, every one of the 65536 characters looked up; likewise 8-bit (all 256) and 32-bit (boundary probes) tables and translators of 3 multi-range sets",
     "one case per range assignment and insertion order",
     [UTF16, "Overlapping ranges are excluded: the lexer splits sets before building tables."], "Complete within the bounds (32-bit tables: probes around every boundary).")

prop("C06", "Symbol sets obey set algebra and splitting keeps membership",
     "Union, exclusion, intersection and inversion of symbol sets give exactly the set-theoretic result in canonical form, independent of the order of operations, and comparison is a total order that is consistent with equality of contents. "
     "Splitting a collection of overlapping sets yields disjoint sets such that every original set is exactly the union of the sets it is mapped to.",
     ["histories", "inputs"], "all sequences of set operations, all pairs of sets, all collections of overlapping sets",
     "The tests perform about twenty fixed operations; merging of adjacent, nested or touching ranges depends on the exact history.",
     ["TameParse/Dfa/symbol_set.cpp", "TameParse/Dfa/symbol_map.cpp", "TameParse/Dfa/remapped_symbol_map.cpp", "TameParse/Dfa/range.h"],
     [("set operations", "symbol_set"), ("splitting", "remapped_symbol_map::deduplicate")],
     [dict(harness="symset")],
     "all states reachable by operations with every range over a 6 (thorough: 8) character universe plus 'everything above'; all pairs of states; all collections of up to 3 sets split",
     "one case per reachable set; states and transitions are those of the explored state space",
     ["Ranges have lower <= upper."], "Fixed point reached: histories of any length within the universe are covered.")

prop("C07", "Input streams deliver exactly the characters of the text",
     "Reading UTF-8 delivers exactly the UTF-16 units of the encoded text and ends exactly at its end, for every well-formed text; text that is cut short or starts a character with an invalid byte never yields an invented character. "
     "Reading from strings and narrow streams delivers every character once, in order, and nothing after the end.",
     ["inputs"], "all byte sequences / all texts",
     "The tests decode one short sample; boundaries between encoding lengths, surrogate pairs and truncated sequences are not reached.",
     ["TameParse/Util/utf8reader.cpp", "TameParse/Util/stringreader.cpp", "TameParse/Dfa/basic_lexer.cpp", "TameParse/Dfa/lexer.h"],
     [("UTF-8 decoding", "utf8reader"), ("string streams", "stringreader")],
     [dict(harness="lexing", args=["input"])],
     "every Unicode scalar value; all triples of boundary scalars; every 1- and 2-byte string, every lead byte with boundary continuation bytes and every truncation; all strings up to a bounded length for string readers",
     "one case per block of texts; every text is a trace through the real reader",
     [UTF16, "Overlong 2/3-byte forms and encoded surrogates are not judged (the documentation is silent)."], "Complete within the bounds.")

prop("C08", "Positions are the true offset, line and column",
     "After any text the current position is exactly: the number of characters consumed, the number of line ends passed (CR LF counting once) and the number of characters since the last line end. "
     "Every lexeme starts where the previous one ended, and positions are ordered by where they are in the text.",
     ["inputs"], "all texts containing any mixture of newline conventions",
     "The tests step through one text per newline convention; mixtures (CR before VT, CR LF split over lexemes) need every combination.",
     ["TameParse/Dfa/position.cpp", "TameParse/Dfa/position.h", "TameParse/Dfa/lexeme.cpp", "TameParse/Dfa/lexer.h"],
     [("line counting", "position_tracker::update_position")],
     [dict(harness="lexing", args=["position"])],
     "all texts up to a bounded length over every newline character (LF, CR, VT, FF, NEL, LS, PS), a plain character and a supplementary-plane unit; all small positions pairwise; positions of lexemes for all inputs up to a bounded length",
     "one case per text prefix",
     [UTF16], "Complete within the bounds.")

GRAMMARS = ("all grammars of the bounded families: one nonterminal with up to 3 rules of up to 3 symbols; two with up to 2 rules of up to 2 symbols each (also with both as start symbols); three with 1-2 rules; "
            "nullable families; three terminals; rules of up to 5 items over three terminals with nested optional, nullable and list parts; rules of up to 3 items from a pool of 22 nested EBNF items; textbook grammars (LALR-not-SLR, LR(1)-not-LALR, hidden left recursion, cycles)")

prop("C09", "FIRST and FOLLOW sets are exactly those of the grammar",
     "For every grammar item, FIRST contains exactly the terminals that can begin something it derives, plus the empty item exactly when it can derive nothing; FOLLOW of a nonterminal contains exactly the terminals that can come after it. "
     "The answers do not depend on which sets were asked for before.",
     ["programs", "histories"], "all context-free grammars with EBNF items and all orders of asking",
     "The tests compute the sets of a handful of small grammars; recursion, nullability and EBNF items inside one another combine in ways only enumeration reaches.",
     ["TameParse/ContextFree/grammar.cpp", "TameParse/ContextFree/ebnf_items.cpp", "TameParse/ContextFree/item.cpp", "TameParse/ContextFree/standard_items.cpp", "TameParse/ContextFree/item_set.cpp"],
     [("FIRST", "grammar::first, item::fill_first"), ("FOLLOW", "grammar::follow, ebnf::fill_follow")],
     [dict(harness="lalr", args=["first"])],
     GRAMMARS + "; every item of each grammar, asked in every rotation and again afterwards",
     "one case per grammar; non-trivial: more than one item to ask for",
     [], "Complete within the bounds. Compared with fixed-point sets of an independently desugared grammar.")

prop("C10", "A conflict-free parser accepts exactly the language of its grammar",
     "When no conflict is reported for a grammar, the parser built from it accepts exactly the sentences of each of its start symbols, always terminates, and on anything else stops at the first token that cannot continue a sentence: no earlier and no later.",
     ["programs", "inputs"], "all grammars without conflicts, all start symbols, all token sequences",
     "The tests parse a few sentences of a few grammars; a wrong lookahead set or merged state rejects or accepts only particular sentences.",
     ["TameParse/Lr/lalr_builder.cpp", "TameParse/Lr/lalr_machine.cpp", "TameParse/Lr/lalr_state.cpp", "TameParse/Lr/lr_item.cpp", "TameParse/Lr/lr1_item_set.cpp", "TameParse/Lr/parser_tables.cpp", "TameParse/Lr/parser.h", "TameParse/Lr/parser_state.h"],
     [("state construction", "lalr_builder::complete_parser"), ("lookahead propagation", "lalr_builder::complete_lookaheads"), ("tables", "parser_tables"), ("parse loop", "parser::state::process")],
     [dict(harness="lalr", args=["language"])],
     {"quick": GRAMMARS + "; every token string up to length 5 (7 for small families) through the real parser", "thorough": "as quick with more rules per nonterminal and strings up to length 7-8"},
     "one case per grammar; every (grammar, start symbol, string) is a trace replayed on the real parser and compared with the language computed by fixed point over all strings; non-trivial: conflict-free with at least two sentences",
     ["The place of the error is judged only for grammars whose nonterminals all derive something."], "Complete within the bounds.")

prop("C11", "A parse tree is a derivation of the input",
     "For every accepted input the resulting tree is a derivation of it: the root is the language's start symbol, every inner node is labelled with a rule of the grammar and has exactly that rule's items as children in order, and the leaves are exactly the tokens of the input in order, each with its own lexeme.",
     ["programs", "inputs"], "all conflict-free grammars and all their sentences",
     "The tests look at the shape of very few trees; a popped item too many or a mislabelled repetition shows only for particular rules.",
     ["TameParse/Lr/ast_parser.cpp", "TameParse/Lr/ast_parser.h", "TameParse/Util/astnode.cpp", "TameParse/Lr/parser_state.h", "TameParse/Lr/lalr_builder.cpp"],
     [("tree building", "ast_parser_actions::reduce"), ("reduction", "parser state reduce")],
     [dict(harness="lalr", args=["ast"])],
     {"quick": GRAMMARS + "; every sentence up to length 5 (7 for small families)", "thorough": "as quick with more rules per nonterminal and sentences up to length 7-8"},
     "one case per grammar; states: tree nodes checked", [], "Complete within the bounds.")

prop("C12", "Conflicts are reported exactly where the grammar is not LALR(1)",
     "For every grammar the set of reported conflicts is exactly the set of (state, token) pairs of its LALR(1) automaton where more than one action applies, and each report names all and only the rules and shifts involved, and for each rule the items that its lookahead comes from. "
     "The constructed automaton is the LALR(1) automaton of the grammar.",
     ["programs"], "all context-free grammars with EBNF items",
     "The tests check three or four grammars with known conflicts; missed or spurious reports depend on lookahead propagation through particular cycles.",
     ["TameParse/Lr/conflict.cpp", "TameParse/Lr/lalr_builder.cpp", "TameParse/Lr/lalr_machine.cpp", "TameParse/Lr/lr_action.cpp"],
     [("detection", "conflict::find_conflicts"), ("actions", "lalr_builder::actions_for_state"), ("sources", "lalr_builder::find_lookahead_source")],
     [dict(harness="lalr", args=["conflicts"])],
     GRAMMARS, "one case per grammar; states and transitions are those of the two automata walked in step; non-trivial: the grammar has a conflict",
     ["No rewriter is installed (rewriters are the subject of C14-C17)."], "Complete within the bounds. The reference automaton is built by fixed-point propagation on merged LR(1) kernels.")

prop("C13", "A guard is passed exactly where the input ahead begins with its pattern",
     "In a grammar with guards ([=> ...]), the rule containing a guard is followed exactly when the input from that point begins with something the guard's pattern derives - however far ahead that is, through reductions, "
     "inside other guards and inside repetitions; otherwise parsing goes on as if the guard were not there. A guard consumes nothing: the tree's leaves are still the whole input, and inputs are accepted or rejected accordingly. A weak symbol is itself in guards that ask for it, and its strong equivalent wherever the grammar does not.",
     ["programs", "inputs"], "all guarded grammars without conflicts and all token sequences",
     "The tests have a handful of guarded grammars; nested guards, guards met in the middle of reductions and guards whose prefix ends in an optional part each take another path through the parser.",
     ["TameParse/Lr/parser_state.h", "TameParse/Lr/parser.h", "TameParse/Lr/lalr_builder.cpp", "TameParse/ContextFree/guard.cpp"],
     [("evaluating guards", "parser::state::check_guard, process_guard, can_reduce"), ("guard states", "lalr_builder::generate_closure, add_guard")],
     [dict(harness="guards", args=["parse"]), dict(harness="guards", args=["exact"], variant="asan"), dict(harness="guards", args=["weak"], variant="asan"), dict(harness="guards", args=["keywords"])],
     {"quick": "9 guard patterns (recursive, optional, alternative, nested guards) in all pairs of rules of up to 3 symbols, pairs of different guards, guards in EBNF items and in a second nonterminal, guards with a choice between another guard and a symbol, three-terminal grammars with rules of up to 4 symbols; every token string up to length 5 (4 over three terminals); again with exact-size tables under AddressSanitizer; every string up to length 3 with every subset of its tokens replaced by weak ones that the grammar does not use; 12 patterns with weak symbols that only guards use, with every string of weak and strong tokens up to length 3 (thorough: 4)",
      "thorough": "as quick with rules of up to 4 symbols, more EBNF pairs and strings up to length 7 (5)"},
     "one case per grammar; each (grammar, string) is a trace replayed on the real parser and compared with a reference machine in which a guard is a symbol of its own, available where the rest of the input has a prefix in its language; non-trivial: some string is accepted",
     ["Grammars with conflicts, inputs where several guards hold at once and endless repetitions of a guard alone are not judged (the result is documented as unspecified there)."], "Complete within the bounds.")

prop("C14", "A weak symbol is itself where the grammar can use it, else its strong equivalent",
     "Text that matches a weak symbol is taken as that symbol exactly where what has been read so far can be continued with it; everywhere else it is taken as the strong symbol that also matches it - or ignored, if that one is ignored - and the tree shows which. "
     "It makes no difference how the symbols are declared (weak keywords, literals in the grammar, weak patterns, several weak or strong symbols matching the same text, inherited blocks).",
     ["programs", "inputs"], "all grammars without conflicts, all ways of declaring symbols weak, all token sequences",
     "The tests know one grammar with a weak keyword; what happens when a weak symbol meets a merged state, a failing weak reduction, several strong equivalents or an ignored one depends on combinations of grammar and lexer that they do not have.",
     ["TameParse/Lr/weak_symbols.cpp", "TameParse/Lr/parser_state.h", "TameParse/Compiler/lexer_stage.cpp", "TameParse/Compiler/lr_parser_stage.cpp", "TameParse/Compiler/language_stage.cpp"],
     [("equivalents", "weak_symbols::add_symbols"), ("actions", "weak_symbols::rewrite_actions"), ("weak reductions", "parser::state::can_reduce")],
     [dict(harness="weak", full=True), dict(harness="guards", args=["keywords"])],
     {"quick": "12 lexical configurations x every grammar with one nonterminal (up to 3 rules of 2 items), two nonterminals, and three nonterminals in several contexts (LALR-merged states): 468,000 language definitions; every token string up to length 5, cut off after the first error; keywords that only guards use: the guard grammars of C13",
      "thorough": "as quick with more rules per nonterminal and strings up to length 6"},
     "one case per (configuration, grammar): the definition is compiled by the real compiler; each token string is one trace, replayed on the real lexer and parser and compared with the resolution of every token by the viable prefixes of the grammar's language; non-trivial: some token can be weak or strong",
     ["Grammars with LALR(1) conflicts are not judged."], "Complete within the bounds.")

prop("C15", "Ignored symbols change nothing, wherever they stand",
     "Text matched by an ignored symbol may stand before, between and after the tokens of an input, any amount of it, without changing whether it is accepted or the tree - also in the middle of what a guard looks at. "
     "If the grammar itself uses an ignored symbol, it is taken as that symbol exactly where what has been read so far can be continued with it, and ignored elsewhere.",
     ["programs", "inputs"], "all grammars, all ways of declaring ignored symbols, all placements of ignored text",
     "The tests use whitespace in inputs of a few grammars; a lookahead that stops at ignored text, an ignored symbol used by the grammar in a merged state or ignored symbols sharing an identifier need particular combinations.",
     ["TameParse/Lr/ignored_symbols.cpp", "TameParse/Lr/parser_state.h", "TameParse/Compiler/lexer_stage.cpp", "TameParse/Compiler/lr_parser_stage.cpp"],
     [("actions", "ignored_symbols::rewrite_actions"), ("shared identifiers", "lexer_stage::compile"), ("guards", "parser::state::check_guard")],
     [dict(harness="weak", args=["ignored"], full=True), dict(harness="ignored", full=True)],
     {"quick": "9 lexical configurations x the 39,000 grammars of C14 with every token string of up to 4 tokens and ignored texts; 13,200 definitions with EBNF items and guards: every token string up to length 3 with every combination of 3 fillings of every gap",
      "thorough": "as quick with strings up to length 5 (4 for EBNF and guards), more grammars"},
     "one case per definition, compiled by the real compiler; each input is one trace replayed on the real lexer and parser, and compared with the viable prefixes of the grammar's language or with the tree of the input without ignored text; non-trivial: some token can be used or ignored, or some string is accepted",
     ["Grammars with LALR(1) conflicts are not judged where the grammar uses the ignored symbol.", "One known finding: see known_findings.json (K1)."], "Complete within the bounds.")

prop("C16", "Precedence and conflict attributes settle just the conflicts they are meant for",
     "With operators given precedence levels and associativity, every expression is grouped accordingly: operators of later declarations bind tighter, equal ones group to the left or right as declared; non-associative and undeclared operators leave the conflict, which is reported and settled by shifting. "
     "A [conflict=...] attribute on a symbol makes the parser shift it, reduce instead, or reduce if what follows permits it. Conflicts settled this way are not reported, all others are, and nothing else about the parser changes.",
     ["programs", "inputs"], "all ambiguous grammars with all precedence declarations and attributes, all token sequences",
     "The tests and examples have one expression grammar; how declarations interact with unary, ternary and nullable rules, repetitions and rules sharing a state is never sampled.",
     ["TameParse/Lr/precedence_rewriter.cpp", "TameParse/Compiler/precedence_block_rewriter.cpp", "TameParse/Compiler/conflict_attribute_rewriter.cpp", "TameParse/Compiler/Data/rule_item_data.cpp", "TameParse/Compiler/lr_parser_stage.cpp", "TameParse/Language/precedence_block.cpp"],
     [("precedence", "precedence_rewriter::rewrite_actions"), ("levels", "precedence_block_rewriter::precedence_block_rewriter"), ("attributes", "conflict_attribute_rewriter::rewrite_actions"), ("reporting", "lr_parser_stage::compile")],
     [dict(harness="resolve", full=True)],
     {"quick": "2 and 3 binary operators with every assignment of levels and associativity in 5 styles of declaration; every set of up to 3 rule shapes from 13 (prefix, postfix, ternary, juxtaposition, indirect) with every precedence of 2 operators; EBNF forms; every pair of rules of up to 3 items with conflicts and every attribute on every (or every single) occurrence of a terminal; attributes with precedence; every token string up to length 6 (5)",
      "thorough": "as quick with up to 4 rule shapes, 3 rules, and strings up to length 8 (7)"},
     "one case per definition; each (definition, string) is a trace replayed on the compiled parser and compared with a reference LALR(1) automaton with the documented resolutions, and for binary operators with the grouping computed from the declarations alone; non-trivial: some conflict is settled",
     ["A rule with several declared operators may have the precedence of the first (as the manual says) or none (as the code says), alike in the whole language; symbols with contradictory attributes in one state, and resolutions that reduce for ever are not judged."], "Complete within the bounds.")

prop("C17", "The LR(1) resolver settles only conflicts that LR(1) does not have",
     "With the resolver enabled, a grammar for which no conflict is reported gets a parser that accepts exactly the grammar's language with derivation trees; grammars that are not LR(1) still have their conflicts reported; and nothing changes for grammars without conflicts.",
     ["programs", "inputs"], "all context-free grammars with reduce/reduce conflicts",
     "The one example is the textbook grammar; a resolution that is wrong for another shape of grammar hides the conflict and silently rejects input.",
     ["TameParse/Lr/lr1_rewriter.cpp", "TameParse/Lr/lalr_builder.cpp", "TameParse/Compiler/lr_parser_stage.cpp", "TameParse/Lr/parser_state.h"],
     [("resolution", "lr1_rewriter::rewrite_actions"), ("weak reductions", "parser::state::can_reduce")],
     [dict(harness="resolve", args=["lr1"], full=True)],
     {"quick": "56,500 grammars with two to five nonterminals (merged contexts, chains of reductions, three competing reductions, empty rules, EBNF items); every token string up to length 5-6",
      "thorough": "as quick with more rules and strings up to length 6-8"},
     "one case per definition compiled with the resolver on; traces: strings parsed and compared with the grammar's language; the canonical LR(1) automaton decides which conflicts are real; non-trivial: a conflict was resolved",
     ["The resolver is documented to be limited: conflicts it leaves are fine as long as they are reported."], "Complete within the bounds.")

prop("C18", "Parser tables hold exactly the builder's actions, and so do their copies",
     "The tables of a parser contain, for every state and symbol, exactly the actions the grammar calls for, ordered so that guards come before weak reductions, shifts, reductions; lookups of symbols without an action find nothing. "
     "Tables made by copying, assigning (over larger or smaller ones) or from arrays of a generated parser are identical, stay valid when the original is gone, and leave it unchanged.",
     ["programs", "histories"], "all grammars with and without weak symbols and guards; all ways of copying",
     "The tests never copy tables and only look at what a few parsers accept.",
     ["TameParse/Lr/parser_tables.cpp", "TameParse/Lr/parser_tables.h", "TameParse/Lr/parser.h"],
     [("construction", "parser_tables::parser_tables"), ("lookup", "parser_tables::find_terminal, find_nonterminal, strong_for_weak"), ("copying", "parser_tables::operator=, parser::parser")],
     [dict(harness="lalr", args=["tables"]), dict(harness="guards", args=["tables"]), dict(harness="lalr", args=["copies"], variant="asan"), dict(harness="guards", args=["copies"], variant="asan")],
     GRAMMARS + "; each without and with weak symbols; the guard families of C13; all copies under AddressSanitizer for the smaller families",
     "one case per grammar; states: table rows compared; transitions: table entries; non-trivial: some symbol has several actions",
     ["Actions of equal priority may come in any order."], "Complete within the bounds.")

prop("C19", "Copies of a parser in mid-parse are independent and memory-safe",
     "A parser state can be copied at any point, any number of times; each copy then parses the rest of the input exactly as the original would from there, whatever the others do and in whatever order they move on or are destroyed. "
     "Asking what comes next or whether a symbol could be accepted never changes the outcome. The stack behind it behaves as a stack of values: what is pushed is what is popped, for every copy.",
     ["histories"], "all sequences of push, pop, copy, assign and destroy; all points of copying and all interleavings of the copies",
     "The tests push a few items and never destroy an original before its copy.",
     ["TameParse/Lr/parser_stack.h", "TameParse/Lr/parser_state.h", "TameParse/Lr/parser.h"],
     [("shared stack", "parser_stack::reference, get_new, collect"), ("shared lookahead", "parser::session, parser::state::look, trim_lookahead")],
     [dict(harness="pstate", args=["stack"], variant="asan"), dict(harness="pstate", args=["clone"], variant="asan")],
     {"quick": "all operation sequences (push, pop, copy, assign, destroy over 3 stacks) up to a bounded depth against a list model, with small pages so that pages are reused; all interleavings of up to 3 copies of parsers over 5 grammars",
      "thorough": "one more operation per sequence"},
     "one case per operation prefix; states: model states; every sequence is replayed on the real stack under AddressSanitizer", [], "Complete within the bounds.")

prop("C20", "Definition files are read exactly as the definition language says",
     "Every text is either accepted or rejected as the published definition of the definition language demands. If accepted, the definition_file holds just the blocks, symbols, rules, items, attributes and positions written, "
     "whatever white space and comments lie between them, through each of the ways of giving the text to the parser, and it stays so when copied. If rejected, the one error is at the first token that cannot be there.",
     ["texts"], "all definition files: token sequences, layouts and characters",
     "The tests read two or three whole files.",
     ["TameParse/Language/language_parser.cpp", "TameParse/Language/definition.tp", "TameParse/Language/ebnf_item.cpp", "TameParse/Compiler/OutputStages/cplusplus.cpp"],
     [("conversion", "definition_for functions of language_parser.cpp"), ("grammar", "definition.tp, as compiled by the tool itself"), ("positions", "output_cplusplus::source_ast_position_functions, source_reduce_actions"), ("copies", "operator= of the block classes")],
     [dict(harness="deffile", full=True, args=["tokens"]), dict(harness="deffile", full=True, args=["layout"]), dict(harness="deffile", full=True, args=["chars"]), dict(harness="deffile", full=True, args=["overloads"], variant="asan")],
     {"quick": "in each of 14 contexts, all sequences of up to 6 or 7 of 6-12 token kinds (extensions of a rejected prefix cut after one more token), with and without the closing brackets; every valid sequence of up to 4 or 5 tokens with 12 kinds of white space and comments in each gap and in each pair of gaps; all strings of up to 5-7 characters over 7-9 characters in 9 contexts; every part of 12 definitions assigned to every part of the same class of all 12",
      "thorough": "sequences of up to 7-9 tokens, strings of up to 6-9 characters"},
     "one case per text; the model is an independent recursive-descent reader of the definition language with its own tokeniser, which gives the definition with positions or the place of the error; every text is read by the real parser and the two results compared in full",
     ["'X = Language.Y' is not implemented: such a file gives no definition, without an error from the parser itself", "attributes on a parenthesised sequence without alternatives have nothing to belong to and are dropped", "a node that ends in an empty item may extend up to the next token"], "Complete within the bounds.")

prop("C21", "Languages compile to what their definitions and base languages say",
     "The language compiled from any sequence of symbol, nonterminal and precedence definitions, =, |= and replace, in any blocks, of a language and the languages it inherits from, in one file or several, means the same as its definitions applied in order: "
     "every string is split into the same symbols and parsed to the same trees as with an equivalent language in one block. Definitions that cannot be applied are reported where they are, and nothing else is.",
     ["sequences"], "all sequences of definitions spread over base and derived languages, and all inputs",
     "The tests compile a handful of languages, none with replacements over several levels.",
     ["TameParse/Compiler/language_stage.cpp", "TameParse/Compiler/lexer_stage.cpp", "TameParse/Compiler/language_builder_stage.cpp"],
     [("lexer symbols", "language_stage::add_lexer_items, lexer_data"), ("grammars", "language_stage::add_grammar_definition, compile_item"), ("inheritance", "language_stage::compile of the base")],
     [dict(harness="language", full=True, args=["lexer"]), dict(harness="language", full=True, args=["grammar"])],
     {"quick": "all single definitions, all pairs of definitions in one or two languages and triples over up to three languages of 5 kinds of block (weak or not) x 2 names x 3 operators with up to 7 expressions, definitions of symbols that a grammar uses and then changes; all sequences of up to 3 grammar definitions (2 nonterminals x 3 operators x 12 right hand sides, 3 precedence blocks) over up to three languages, thinned to a third at length 3, and changes to both nonterminals; strings of up to 4-5 characters",
      "thorough": "all triples, four definitions, more expressions, strings of up to 5 characters"},
     "one case per sequence of definitions; the model applies the definitions to a map of symbols (or rules); tokens are compared with the maximal munch of the model's symbols by an independent matcher, trees with those of an equivalent single-block language",
     ["the order in which blocks of different kinds in one language that define the same name are looked at is not specified", "which of two rules wins a reduce/reduce conflict is not specified", "once a definition is mistaken, later ones that depend on it may be reported too"],
     "Complete within the bounds.")
prop("C22", "Mistakes in a definition are reported where they were made, and only there",
     "For every definition, each mistake in it (undefined, doubly defined, missing, wrongly added or unused symbols, bad regular expressions, symbols that cannot be matched, empty, ineffective or clashing guards, conflicts) is reported with its code and severity, naming the symbol, "
     "in the file and at the line, column and offset where it was made, whichever language, file, block or item it is in and whatever other mistakes there are before it; a definition without mistakes is reported on by nobody, and options change just the severities they say.",
     ["inputs"], "all definitions, and places of mistakes in them",
     "The tests look at no diagnostic's position and at few of their codes; the messages were lost or misplaced for symbols in guards and for guards at the start of rules without a test failing.",
     ["TameParse/Compiler/language_stage.cpp", "TameParse/Compiler/lexer_stage.cpp", "TameParse/Compiler/lr_parser_stage.cpp", "TameParse/Compiler/error.h"],
     [("language", "language_stage::compile, define_ebnf_lexer_items, compile_item, report_unused_symbols"), ("lexer", "lexer_stage::compile, ndfa_lexer_compiler"), ("parser", "lr_parser_stage::compile, warn_clashing_guards, report_reduce_conflict")],
     [dict(harness="diag", full=True, args=[]), dict(harness="diag", full=True, args=["details"])],
     {"quick": "45 mistakes (and mistake-free variations) alone, in 7 arrangements of languages and files, on both sides of them, behind 8 kinds of white space; all pairs of them in all arrangements; 7 uses of symbols and guards inside all nestings of 12 items; 10 x 7 x 3 broken regular expressions in 4 kinds of block; options; the details (--show-conflict-details) of all conflicts of 14,000 grammars, in one and two files",
      "thorough": "all triples of mistakes, and all arrangements for all of them (584,000 definitions)"},
     "one case per definition; the text carries marks from which the places of the expected reports are known; reports of all stages are compared as sets with those expected up to the first stage with an error",
     ["guards that are written the same are one item of the grammar, and reported in one place", "only the severities error, warning and below are told apart", "the indentation of the details of conflicts is not looked at"], "Complete within the bounds.")
prop("C23", "Test blocks report the right verdicts, totals and places",
     "When the tests of a definition file are run, each test passes just when its text belongs (or, for !=, does not belong) to the nonterminal, texts from files included; every failing test is reported at its string, with the place in it where it fails, "
     "every block ends with the right totals, missing languages and files are reported, and the exit code tells of any failure.",
     ["test blocks"], "all sequences of test blocks and tests in them, all texts and layouts",
     "No unit test runs test blocks that fail.",
     ["TameParse/Compiler/test_stage.cpp", "TameParse/Language/test_definition.cpp"],
     [("verdicts and reports", "test_stage::compile"), ("languages and parsers", "test_stage::get_language, get_lexer, get_parser")],
     [dict(harness="pipeline", full=True, args=["tests"]), dict(harness="pipeline", full=True, args=["endings"], shards=2)],
     {"quick": "all blocks of one test (3 nonterminals x 3 kinds x 10 texts x 3 lengths of name, 4 languages (one inherited from another file, one in which the nonterminals mean something else, one that does not exist), 2 layouts), a fifth of all pairs of tests in a block with 3 layouts, a third of all pairs of blocks, triples of tests (1 in 23)",
      "thorough": "all pairs and triples"},
     "one case per file; the expected verdict and failing token of each text are tabulated for the two nonterminals of the language, and the reported errors, totals and exit code are compared with what follows from them",
     ["long test names and undefined nonterminals end the program: known findings K2 and K3 (test_stage.cpp counts as a test file in this task, so it is not repaired)"], "Complete within the bounds.")
prop("C24", "Imports read each file once; inheritance finds the right languages",
     "However files import each other (in circles, repeatedly, by several names, missing files), each file reached is read exactly once and no other is; a language defined twice, a missing base, or languages that inherit from themselves are errors at the right places, "
     "and otherwise each language is built from exactly the languages it inherits from, whatever files they are in.",
     ["graphs"], "all graphs of imports and of inheritance",
     "The tests have no imports with more than two files.",
     ["TameParse/Compiler/import_stage.cpp", "TameParse/Compiler/language_builder_stage.cpp", "TameParse/Compiler/language_stage.cpp"],
     [("files", "import_stage::compile"), ("languages", "import_stage::add_definitions, language_with_name, file_with_language"), ("bases", "language_stage::compile")],
     [dict(harness="pipeline", full=True, args=["imports"])],
     {"quick": "all import relations over 2 files and a quarter of those over 3 files, with every inheritance relation over their languages (missing bases included); lists of imports with missing files and repetitions, files without languages, and doubly defined languages over 3 files; a fifth of the import and inheritance functions over 4 files",
      "thorough": "all of them"},
     "one case per set of files; reachability, ambiguities and base chains are computed on the graph; opened files are recorded by the console, and the language built is tested on one word per file",
     ["only the first inherited language is used"], "Complete within the bounds.")
prop("C25", "Shared objects live exactly as long as something refers to them",
     "Through any history of copying, assigning, clearing, nesting and comparing references, an object held by a container or syntax_ptr is destroyed exactly once, when the last owning reference goes, and never used afterwards; references, tokens and tree nodes are ordered by a strict total order that agrees with their equality.",
     ["histories"], "all histories of operations on references",
     "The tests assign a container or two.",
     ["TameParse/Util/container.h", "TameParse/Util/syntax_ptr.h", "TameParse/Util/astnode.h", "TameParse/Dfa/lexeme.h"],
     [("references", "container, syntax_ptr: copy, assignment, destruction"), ("order", "container::operator<, astnode::operator<, lexeme::operator<")],
     [dict(harness="sharing", args=["histories"], variant="asan"), dict(harness="sharing", args=["order"], variant="asan", shards=2)],
     {"quick": "all histories of 4 operations on 2 references and of 3 operations on 3, to objects which hold references themselves; all pairs and triples of about 100 references, tokens and nodes", "thorough": "5 and 4 operations"},
     "one case per prefix of a history; the model computes which objects are reachable after each operation and compares this with those alive; AddressSanitizer is a second monitor",
     ["cycles of owning references are not made"], "Complete within the bounds.")
prop("C26", "Grammar items, rules, item sets and symbol numbers have consistent identities",
     "Items and rules are equal just when they have the same structure, and ordered by a strict total order that agrees; identifiers handed out by a grammar are stable and distinct for distinct items, rules and names, also over copies and assignments of grammars; "
     "item sets, LR(1) item sets and terminal dictionaries hold just what was put into them.",
     ["structures", "histories"], "all item structures and all histories of operations",
     "The tests compare a few items.",
     ["TameParse/ContextFree/item.cpp", "TameParse/ContextFree/rule.cpp", "TameParse/ContextFree/grammar.cpp", "TameParse/ContextFree/item_set.cpp", "TameParse/ContextFree/terminal_dictionary.cpp", "TameParse/Lr/lr1_item_set.cpp"],
     [("items", "item::compare, operator==, operator< of the item classes"), ("identifiers", "grammar::identifier_for_item, identifier_for_rule, rule::identifier"), ("sets", "item_set, lr1_item_set::insert"), ("symbols", "terminal_dictionary::add_symbol, split")],
     [dict(harness="items", args=["identity"], shards=4), dict(harness="items", args=["identifiers"]), dict(harness="items", args=["identifiers-shallow"], variant="asan"), dict(harness="items", args=["sets"]), dict(harness="items", args=["lr1sets"]), dict(harness="items", args=["dictionary"])],
     {"quick": "all pairs of about 600 items (nesting depth 2) and 1000 rules; all histories of 5 operations on two grammars (4 with AddressSanitizer), on two item sets and on dictionaries; all insertion sequences of 4 LR(1) items", "thorough": "6 operations, 5 insertions"},
     "structures are compared by their text; identifiers, sets and dictionaries with maps",
     [], "Complete within the bounds.")

prop("C27", "A generated C++ parser compiles and builds the same trees as the tool's own",
     "For every definition that TameParse accepts, the C++ it writes compiles, and the parser accepts exactly the strings that the definition's parser accepts, stopping at the same symbol on the others. "
     "On acceptance it builds a tree of the generated classes with one object per symbol in the text's derivation: each rule's items in fields named after the items (or by the name given in the definition), closures as lists in the order of the text, "
     "guards leaving no trace, and each object with the position and text of what it stands for. All symbols have constants and all start symbols have functions of their own.",
     ["definitions", "inputs"], "all definitions that compile, all their start symbols, and all strings",
     "The tests compile two generated parsers and run neither on more than a few texts.",
     ["TameParse/Compiler/OutputStages/cplusplus.cpp", "TameParse/Compiler/output_stage.cpp", "TameParse/Dfa/state_machine.h", "TameParse/Dfa/hard_coded_symbol_table.h", "TameParse/Lr/parser_tables.cpp", "TameParse/Util/syntax_ptr.h"],
     [("output stage", "output_cplusplus::compile and everything it writes"), ("tables", "state_machine_tables, hard_coded_symbol_table, parser_tables of constant tables"), ("names", "output_stage::generate_ast_rules, output_cplusplus::class_name_for_item")],
     [dict(harness="gencode", full=True)],
     {"quick": "about 1,570 definitions (plain, EBNF, nested and guarded rules, named items, look-alike and reserved names, weak, ignored and non-ASCII lexers with each lexer option, several start symbols), each on all strings of up to 4 to 7 characters", "thorough": "about ten times as many definitions"},
     "each definition goes through the tool's stages, is written as C++, compiled by g++ and run in-process; tree, classes, fields, text and positions are compared with those of the tool's own ast_parser on the same string; non-trivial: some string is accepted",
     ["g++ compiles C++ correctly.", "The tool's own parser (ast_parser) is right: this is what C05 to C14 decide."], "Complete within the bounds. The generated text is judged only by what it does when compiled.")

prop("C28", "The command line decides what the tool compiles, writes, accepts and returns",
     "For every definition and command line, the tool compiles the language and start symbols that the options name, else those of the only parser block, else the only language; it writes the two generated files exactly when everything succeeded (under the given names, with the given class and namespace), "
     "with --test it succeeds exactly on the inputs the chosen symbol matches, and it returns success exactly when no error was reported. Options which are about what is displayed or how tables are made change none of this; a file is the same however it is named, and wherever the tool is run; files that are imported are found in the current directory, next to the input file, and then in the directories of the include path, in that order.",
     ["configurations", "inputs"], "all command lines, definitions, working directories and inputs",
     "No test runs the tool: an output that could not be written was reported as success, a syntax error at the end of the input crashed the tracing parser, and a file imported by two names was read twice.",
     ["parsetool/main.cpp", "parsetool/boost_console.cpp", "TameParse/Compiler/std_console.cpp", "TameParse/Compiler/OutputStages/cplusplus.cpp", "TameParse/Compiler/parser_stage.cpp"],
     [("stages and choices", "parsetool/main.cpp: main"), ("options and files", "boost_console::get_option, open_file, real_path, search_path, open_binary_file_for_writing"), ("exit status and messages", "std_console::report_error, exit_code")],
     [dict(harness="cmdline", full=True, args=["choose"]), dict(harness="cmdline", full=True, args=["display"]), dict(harness="cmdline", full=True, args=["places"])],
     {"quick": "22 sets of definition files x all combinations of language (4), start symbols (6), target (6), --run-tests, output file, in 4 ways of writing options, with 7 inputs where one is read; output names, classes, namespaces and conflict options; "
               "subsets of up to 3 and of 10 and more of 11 display and table options; imports by 5 x 5 x 7 names from 3 working directories, with relative and full names; imports by 5 names with each of 9 include paths, the file being in any subset of 4 directories (50,000 command lines)",
      "thorough": "all subsets of the display and table options and all ways of writing (200,000 command lines)"},
     "one case per command line (per input for --test); the real main() runs in a child process in a scratch directory; exit status, error codes and files are compared with a model of the command line, and runs with display options with the run without them",
     ["the date in generated files is not compared", "messages are compared without the details of conflicts"], "Complete within the bounds.")

prop("C29", "Values that key sets and maps have one order, which agrees with equality",
     "Positions, ranges, symbol sets, transitions, accept actions, LR(0) and LR(1) items, parser actions, parser states and conflicts are ordered by a strict (total, except for accept actions, which go by importance) order: no value is before itself, no two are before each other, the order is transitive, "
     "and any two values that differ in content are ordered one way or the other. Each of the operators ==, !=, <, >, <=, >= and compare that a class has gives the answer which that order demands; copies, clones and assigned values are the same value, and do not change with the original.",
     ["values"], "all pairs and triples of values",
     "The tests compare a few items. One wrong comparison makes a set lose an element, or a map find the wrong one, for particular values only; comparisons of transitions, of LR(1) items and of states contradicted each other.",
     ["TameParse/Dfa/position.h", "TameParse/Dfa/range.h", "TameParse/Dfa/symbol_set.cpp", "TameParse/Dfa/transition.cpp", "TameParse/Dfa/accept_action.cpp", "TameParse/Lr/lr_item.cpp", "TameParse/Lr/lr_action.h", "TameParse/Lr/lr_state.h", "TameParse/Lr/lalr_state.cpp", "TameParse/Lr/conflict.cpp"],
     [("characters", "operators of position, range, symbol_set, transition, accept_action"), ("items", "operators of lr0_item, lr1_item, lr_action"), ("states", "lr_state, lalr_state: operators, add, find_identifier, copy"), ("conflicts", "conflict::operator<, clone")],
     [dict(harness="orders", variant="asan")],
     {"quick": "all pairs and triples of: 64 positions, 64 ranges and 16 transitions over small coordinates; the 64 sets of 6 symbols, each built in 3 ways; 30 LR(0) items and 64 LR(1) items; 162 actions; the 41 sequences of up to 3 of 4 items as states; 144 conflicts",
      "thorough": "125 positions, 81 ranges, 36 transitions, 128 sets, 270 actions, 65 states, 192 conflicts"},
     "one case per class; every pair and triple of objects is compared; two objects are the same value just when their contents are the same; AddressSanitizer is a second monitor",
     ["two states with the same items added in a different order count as different, as the code has it"], "Complete within the bounds.")
prop("C30", "An automaton is just what was built into it",
     "After any history of operations on automata (adding states and transitions, moving to a state, adding and clearing actions, copying and assigning) each automaton has exactly the states, transitions and actions, in order, that were put into it, operations on states that do not exist change nothing, "
     "its verdicts about itself (deterministic, overlapping sets) are true, copies are independent, and every action it was given is destroyed once. After any history of a builder (symbols, empty transitions, brackets, alternatives, rejoining, loops, moving, copies of the builder) the automaton accepts exactly the strings "
     "that the drawing made by these steps accepts, with the same symbols.",
     ["histories"], "all histories of operations",
     "The tests build a few automata, each in one way. Clearing the actions of a state left them undestroyed.",
     ["TameParse/Dfa/ndfa.cpp", "TameParse/Dfa/ndfa.h", "TameParse/Dfa/state.cpp", "TameParse/Dfa/symbol_map.cpp"],
     [("automaton", "ndfa::add_state, add_transition, goto_state, accept, clear_accept, operator=, verify_is_dfa, verify_no_symbol_overlap"), ("builder", "ndfa::builder: operator>>, push, pop, begin_or, rejoin, goto_state")],
     [dict(harness="ndfabuild", args=["operations"]), dict(harness="ndfabuild", variant="asan", args=["shallow"]), dict(harness="ndfabuild", args=["builder"])],
     {"quick": "all histories of 5 of 22 operations on two automata, from empty ones and from two with states and actions; all histories of 3 with AddressSanitizer; all histories of 7 of 12 steps of a builder (35 million)", "thorough": "6, 4 and 8 steps"},
     "one case per prefix of a history; states, transitions, actions and verdicts are compared with a model's at the end of every history (every prefix is a history); automata that were built are compared with the model's as languages, by exploring all pairs of reachable sets of states",
     ["pop() of the marker that begin_or() leaves when nothing was pushed is not judged"], "Complete within the bounds.")
prop("C31", "What is shown of grammars, states, conflicts and trees is what they are",
     "The text of every grammar, rule (with and without a dot), item, set of symbols, state, closure, action, transition, conflict and syntax tree can be read back, in the notation of definition files and of the drawing of trees, as exactly the object that it shows: no item, "
     "rule, lookahead, action or child is left out, added, moved or shown as another; and the text of the grammar of a definition, used in a definition, is compiled to the same rules.",
     ["values"], "all grammars with EBNF items and guards, their automata and their trees",
     "The tests print nothing that they look at; messages about conflicts and guards, and the trees that --test -v shows, consist of these texts.",
     ["TameParse/Language/formatter.cpp"],
     [("grammar", "formatter::to_string of item, guard, rule, item_set, grammar"), ("automata", "formatter::to_string of lr0_item, lr1_item, lalr_state, lr_action, lalr_machine, lalr_builder, conflict"), ("trees", "formatter::to_string(astnode)")],
     [dict(harness="textform", full=True)],
     {"quick": "19,000 grammars: pairs of rules of up to 4 symbols with each of 3 second nonterminals; 7 EBNF items and guards nested to depth 3 in 5 places of a rule; rules of up to 4 of 6 EBNF items; four nonterminals; all trees of strings up to length 5; with and without weak symbols; 2,000 definitions with 5 sets of terminal names", "thorough": "rules of up to 5 symbols, definitions with all nestings, strings up to length 6"},
     "one case per grammar; a reader written from the notation reads every text and the result is compared with the object",
     ["trees with line breaks inside the text of symbols are not read"], "Complete within the bounds.")
prop("C32", "Compiling a definition ends, soundly, and the same way every time",
     "Whatever the definition says - sound or not, however its statements and mistakes are combined in a language and its base - compiling it comes to an end without misusing memory. Either something is reported, at a place inside the file that the report names, and no parser is made, or a parser is made and written, and comes to an end on every input. "
     "Compiling the same definition again gives the same reports, the same parser and the same generated source, whatever was compiled before and wherever memory happens to be.",
     ["definitions", "inputs"], "all definitions and inputs",
     "The tests compile sound definitions, once. Symbols and guards defined in terms of themselves ended the compiler or the parser with a stack overflow.",
     ["TameParse/Compiler/language_stage.cpp", "TameParse/Compiler/lexer_stage.cpp", "TameParse/Compiler/lr_parser_stage.cpp", "TameParse/Compiler/OutputStages/cplusplus.cpp", "TameParse/Lr/parser_state.h"],
     [("stages", "compile() of parser_stage, import_stage, language_builder_stage, lexer_stage, lr_parser_stage, output_cplusplus"), ("expressions", "ndfa_regex::compile, compile_expression"), ("guards", "parser::state::check_guard")],
     [dict(harness="robust", full=True, args=["memory"], variant="asan"), dict(harness="robust", full=True, args=["same"])],
     {"quick": "sequences of 55 statements (symbols, expressions, grammars, guards, attributes, precedence, sound and not): all single ones and ordered pairs, in one language or spread over a language and its base, on one line or several; a seventh of the ordered triples, and of the triples behind two lexer blocks; every input of up to 3 characters of 4", "thorough": "all ordered triples, and all behind two lexer blocks"},
     "one case per definition; every string of up to 3 characters is parsed if there is a parser; AddressSanitizer and a time limit are the monitors of the first run; the second run compiles each definition twice, with the free memory left in another order, and compares everything",
     ["grammars that repeat something empty without end are not in the menu"], "Complete within the bounds.")
SPECS = P
