C.update({
 "C07": ("explicit-state exploration of parse histories sharing one prediction cache, to closure of the reached cache states; every step compared with a fresh parser",
         "all histories over the stated alphabet of inputs, cache states merged by content"),
 "C09": ("bounded exhaustive enumeration of predicate placements, truth assignments (also changing between parses) and token strings against a reference derivation",
         "all placements, assignments and inputs within the stated bounds"),
 "C22": ("bounded exhaustive enumeration of grammars and token strings, the expected set at every parser step compared with a first-set computation over explicit call stacks",
         "all grammars of the listed families and all token strings up to the stated length"),
 "C24": ("bounded exhaustive enumeration of grammars and token strings, every diagnostic compared with two explicit-state simulations of lookahead, without callers and with the whole call stack",
         "all grammars of the listed families and all token strings up to the stated length; up to two predicates under all truth values; exact and LL mode"),
})
C.update({
 "C01": ("bounded exhaustive enumeration of lexer grammars and inputs, the real lexer's tokens and reports compared with a reference lexer over the grammar text",
         "all pairs and triples of rules of the listed shapes, all inputs up to the stated length, including characters at the borders of the encodings"),
 "C02": ("explicit-state exploration of lexing histories sharing one cache, to closure of the reached cache states or the stated bound; every step compared with a fresh lexer",
         "all histories over the stated alphabet of inputs, cache states merged by content"),
 "C03": ("bounded exhaustive enumeration of commands, actions, predicates and non-greedy loops in small multi-mode grammars and of inputs, compared with a reference lexer",
         "all placements of the listed commands and all inputs up to the stated length"),
 "C04": ("bounded exhaustive enumeration of inputs over an alphabet with line feeds and one- to four-byte characters, for every input stream and token factory, against positions counted directly",
         "all inputs up to the stated length for all combinations of stream and factory"),
})
C.update({
 "C17": ("exhaustive enumeration of small stack graphs and merge sequences, each merge compared with the union of explicit stack sets",
         "all stack sets within the stated depth and width, all pairs and triples, both wildcard modes, with and without shared merge and context caches"),
 "C18": ("stateless exploration of thread interleavings of the real lexers and parsers under a controlled scheduler that owns every lock operation, preemption-bounded depth-first search",
         "all schedules of two or three threads up to the stated number of preemptions, for each listed grammar and input combination"),
 "C23": ("exhaustive enumeration of predicate formulas built with and/or, each evaluated under every truth assignment and precedence level against the plain boolean combination",
         "all formulas up to the stated number of leaves, all assignments and levels"),
})
C.update({
 "C21": ("exhaustive enumeration of serialized grammars of every supported format, the loaded graph compared state by state and edge by edge with the graph that was written; lexer actions executed and compared with a reference lexer",
         "all grammars of the listed families, all edge, set and action arguments at the borders of the encoding, all one-bit changes of the identifiers"),
})
C.update({
 "C19": ("bounded exhaustive enumeration of grammars, token strings and listener registrations on the real parser: the event trace is replayed into a tree and compared with the returned one; exhaustive enumeration of add/remove/parse histories against a list model",
         "all grammars of the listed families and all token strings up to the stated length with one to three listeners; all registration histories up to the stated depth"),
 "C20": ("bounded exhaustive enumeration of grammars and token strings with hidden tokens; every query on every node of every resulting tree compared with values computed from the children and the token list",
         "all grammars of the listed families and all token strings up to the stated length, three patterns of hidden tokens, valid and recovered trees"),
})
C.update({
 "C25": ("bounded exhaustive enumeration of grammars, token strings and hidden tokens with texts that need escaping; every message compared with one rebuilt from the tokens, and what several listeners are told compared",
         "all grammars of the listed families and all token strings up to the stated length; all inputs of three lexers over letters, tabs and line ends"),
 "C26": ("bounded exhaustive enumeration of grammars and token strings; at every step of every parse the runtime's rule context is compared with a call stack kept by the explorer",
         "all grammars of the listed families, every start rule, all token strings up to the stated length, four configurations"),
 "C27": ("bounded exhaustive enumeration of grammars, token strings and pairs of rules called in turn on one parser, compared with a new parser at the same token",
         "all grammars of the listed families, all pairs of rules, all token strings up to the stated length"),
 "C28": ("bounded exhaustive enumeration of grammars, predicate values and token strings; every decision before the first error compared with an explicit-state pushdown simulation of the grammar",
         "all grammars of the listed families, with up to two predicates, with required, open and optional end of input, all token strings up to the stated length"),
})
C.update({
 "C29": ("exhaustive enumeration of name tables, token sets and tokens against the tables themselves",
         "all literal/symbolic/display tables and all one-table vocabularies up to the stated size, all token sets over them, tokens of four factories with all texts up to the stated length"),
 "C30": ("bounded exhaustive enumeration of grammars, modes and histories of token strings; after each the real tables are walked along every lookahead and compared with what was decided, before and after repetition and in both orders; the dump is compared with the tables",
         "all grammars of the listed families and lexers, all token strings up to the stated length in both orders, each twice"),
 "C31": ("bounded exhaustive enumeration of grammars and token strings; every call of the error strategy in every parse is stepped in lockstep with an explicit-state model of the documented strategy over the grammar's graph",
         "all grammars of the listed families, every start rule, all token strings up to the stated length, five configurations"),
 "C32": ("bounded exhaustive enumeration of grammars, token strings and held parts of trees; live memory counted by the allocator around repeated parses, liveness of every node compared with reachability from what is held",
         "all grammars of the listed families and lexers, all token strings up to the stated length, every node held alone for the shorter ones"),
 "C33": ("bounded exhaustive enumeration of grammars and token strings; the furthest token each decision looked at, and the furthest the token source was asked for, compared with the first at which an explicit-state pushdown simulation has to stop",
         "all grammars of the listed families, all token strings up to the stated length, SLL/LL/exact, buffered and unbuffered, cold and warm, open/optional/non-greedy end of input"),
 "C35": ("bounded exhaustive enumeration of lexer grammars and texts; the furthest character looked at by the end of every token compared with where the explicit-state reference lexer has no thread left",
         "all lexer grammars of the listed weights, modes, commands, actions and predicates, all texts up to the stated length, cold and warm"),
 "C36": ("bounded exhaustive enumeration of grammars with failing predicates and actions and of inputs; every error passing through a listener, a strategy or to the caller compared with the token stream, the parser's state and the expected sets of the explicit-state model of the ATN",
         "all parser families of up to 3 rules, every choice guarded by failing predicates, every place with a failing action; all inputs up to length 3-4 (thorough 4-6); default and bail strategies"),
 "C34": ("bounded exhaustive enumeration of texts for the generated parsers; every text read by generated code, by the interpreter that the other checks drive (conformance of model and code) and by explicit-state reference recognizers",
         "seven generated grammars; all texts of up to 6 (XML 4) pieces of an alphabet of 2 to 21 pieces; thorough 7 (5)"),
})
