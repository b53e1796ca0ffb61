#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run by hand when a property changes)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": "shared cache", "meaning": state, "where": files[0]}]
    if observe: a["observe_at"] = observe
    if hook: a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Lexer picks the longest match, ties go to the first rule, nothing is lost",
  "For every lexer grammar and every input, each token is the longest prefix of the remaining input that any rule of the current mode matches, and when several rules match that same text the one listed first wins. "
  "Where no rule matches, the text from the token's start up to and including the character at which matching stopped is reported to the error listeners once and dropped, so tokens, skipped text and reported text together cover the input exactly, in order, and the stream ends with one end-of-file token.",
  ["inputs", "programs"], "all lexer grammars built from a small set of rule shapes, all inputs over a 3-4 symbol alphabet up to a length bound",
  "The tests run a few fixed texts through a few generated lexers; they cannot quantify over grammars and inputs, which is where longest-match and tie-breaking go wrong.",
  ["src/lexer.rs", "src/lexer_atn_simulator.rs", "src/transition.rs", "src/atn_config_set.rs"],
  [("token loop and error recovery", "src/lexer.rs next_token, notify_listeners"), ("match simulation", "src/lexer_atn_simulator.rs exec_atn, get_reachable_config_set, closure, fail_or_accept"), ("symbol matching", "src/transition.rs matches")])

p("C02", "Tokenization does not depend on what was lexed before",
  "The tokens, actions and errors a lexer produces for an input depend only on the grammar and that input, never on which inputs this or other lexers of the same grammar processed earlier. "
  "A lexer whose shared prediction cache has been warmed by any history of inputs behaves exactly like a fresh one.",
  ["histories", "inputs", "programs"], "all reachable states of the shared lexer cache under any history of inputs from a bounded set, each followed by every input of the set",
  "Existing tests lex each text once with an arbitrary cache state; they never compare a warmed cache with a cold one.",
  ["src/lexer_atn_simulator.rs", "src/lexer_action_executor.rs", "src/dfa_state.rs", "src/dfa.rs", "src/atn_config.rs", "src/atn_config_set.rs"],
  [("DFA state de-duplication", "src/lexer_atn_simulator.rs add_dfastate"), ("cached edges", "src/lexer_atn_simulator.rs add_dfaedge, get_existing_target_state"), ("hash and equality of configurations", "src/atn_config.rs, src/lexer_action_executor.rs")],
  state="per-mode DFA shared by all lexers of a grammar")

p("C03", "Lexer commands, modes, actions and non-greedy loops take effect as written",
  "Skip, more, type, channel, mode, pushMode and popMode commands, embedded actions, semantic predicates and non-greedy loops take effect exactly for the token whose rule was matched, in the order written, and only once that rule has won. "
  "Embedded actions run with the input positioned where they stand in the rule, and their overrides of the token's type, text, channel or of the token itself are what the consumer sees.",
  ["inputs", "programs"], "all combinations of commands on the rules of small two-mode grammars and all inputs up to a bound, checked against a reference lexer",
  "The tests exercise only skip and push/pop in the XML lexer on one text; interactions (more+type, push in a looped mode, action offset) are not sampled.",
  ["src/lexer.rs", "src/lexer_action.rs", "src/lexer_action_executor.rs", "src/lexer_atn_simulator.rs"],
  [("command execution", "src/lexer_action.rs execute, src/lexer_action_executor.rs execute, fix_offset_before_match"), ("mode stack", "src/lexer.rs push_mode, pop_mode, set_mode"), ("predicates", "src/lexer_atn_simulator.rs evaluate_predicate"), ("non-greedy pruning", "src/lexer_atn_simulator.rs get_reachable_config_set, closure")])

p("C04", "Tokens carry exact positions and text for every input and token kind",
  "Every token's start and stop offsets delimit exactly the text it reports, its line and column are those of its first character (lines counted by line feeds), and its index is its position in the token sequence. "
  "This holds alike for borrowed, owned, byte and code-point inputs and for every token factory, all of which yield the same token sequence.",
  ["inputs", "configurations"], "all inputs over an alphabet with newline, ASCII, 2-, 3- and 4-byte characters up to a length bound, for every input-stream kind and token factory",
  "One CSV test checks positions for one ASCII text; multi-byte text, multi-line tokens and other streams and factories are never compared.",
  ["src/lexer.rs", "src/lexer_atn_simulator.rs", "src/token_factory.rs", "src/token.rs", "src/input_stream.rs", "src/char_stream.rs"],
  [("line and column tracking", "src/lexer_atn_simulator.rs consume, accept"), ("token creation", "src/lexer.rs emit, emit_eof, src/token_factory.rs create"), ("text extraction", "src/input_stream.rs get_text")])

p("C05", "Valid input parses without errors to the lowest-alternative derivation",
  "For every grammar without left recursion and every input it derives, parsing from the start rule reports no error and consumes the whole input. "
  "The resulting tree is the derivation obtained by taking, at each decision point, the lowest-numbered alternative from which the rest of the input can still be derived in the actual calling context.",
  ["inputs", "programs"], "all grammars of bounded shape (two to three rules, choices, optional, greedy and non-greedy loops, shared sub-rules) and all inputs up to a length bound",
  "Tests parse a handful of inputs with five grammars; arbitrary lookahead and context-sensitive prediction need quantification over grammars and inputs.",
  ["src/parser_atn_simulator.rs", "src/prediction_mode.rs", "src/prediction_context.rs", "src/atn_config_set.rs", "src/parser.rs"],
  [("adaptive prediction", "src/parser_atn_simulator.rs adaptive_predict, exec_atn, compute_reach_set, closure_checking_stop_state"), ("conflict detection", "src/prediction_mode.rs"), ("stack merging", "src/prediction_context.rs merge")])

p("C06", "Prediction modes agree: SLL never differs silently, exact LL equals LL",
  "On every valid input the exact-ambiguity mode produces the same tree and decisions as the default LL mode and reports no error, and on every invalid input both modes report a syntax error. "
  "The SLL mode either produces the same tree as LL or reports a syntax error on it; it never accepts an input LL rejects.",
  ["inputs", "programs", "configurations"], "all bounded grammars and inputs of C05, each parsed in all three prediction modes",
  "No existing test switches prediction mode.",
  ["src/parser_atn_simulator.rs", "src/prediction_mode.rs"],
  [("mode-dependent conflict resolution", "src/parser_atn_simulator.rs compute_target_state, exec_atn_with_full_context"), ("SLL termination", "src/prediction_mode.rs has_sll_conflict_terminating_prediction")])

p("C07", "Parsing does not depend on what was parsed before",
  "The tree, the errors and every decision made for an input depend only on the grammar, the settings and that input, never on which inputs parsers of the same grammar processed earlier, valid or not. "
  "A parser whose shared prediction cache has been warmed by any history behaves exactly like a fresh one.",
  ["histories", "inputs", "programs"], "all reachable shared-cache states under any history of inputs (valid and invalid) from a bounded set, then every input of the set, with and without predicates and left recursion",
  "Tests parse each input once per process; none compares warmed with cold behaviour.",
  ["src/parser_atn_simulator.rs", "src/dfa.rs", "src/dfa_state.rs", "src/atn_config_set.rs", "src/prediction_context.rs"],
  [("DFA construction and reuse", "src/parser_atn_simulator.rs add_dfastate, add_dfaedge, exec_atn"), ("precedence start states", "src/dfa.rs get_precedence_start_state, set_precedence_start_state"), ("context cache", "src/prediction_context.rs PredictionContextCache")],
  state="per-decision DFA and prediction-context cache shared by all parsers of a grammar")

p("C08", "Left-recursive rules honour precedence and associativity",
  "For every left-recursive expression rule made of binary, prefix, suffix and ternary operators with any precedence order and associativity, every well-formed expression parses without error to the one tree given by operator precedence (earlier alternatives bind tighter) and declared associativity. "
  "Parsing the same expression as a sub-rule or as the start rule gives the same sub-tree.",
  ["inputs", "programs"], "all left-recursive rules with up to three operator alternatives of each kind and associativity, all expressions up to a token bound",
  "Tests parse 'x y z' and one calculator expression; precedence climbing interacts with cached start states per precedence level.",
  ["src/parser_atn_simulator.rs", "src/parser.rs", "src/atn_deserializer.rs", "src/semantic_context.rs", "src/dfa.rs"],
  [("precedence filtering", "src/parser_atn_simulator.rs apply_precedence_filter, can_drop_loop_entry_edge_in_left_recursive_rule, precedence_transition"), ("recursion contexts", "src/parser.rs enter_recursion_rule, push_new_recursion_context, unroll_recursion_context"), ("precedence decisions", "src/atn_deserializer.rs mark_precedence_decisions")])

p("C09", "Semantic predicates gate alternatives exactly",
  "An alternative guarded by a semantic predicate is chosen only when the predicate holds, an unguarded or passing viable alternative is chosen when the lower ones fail, and an error is reported when every viable alternative is ruled out. "
  "The decision uses the predicate's value at that moment even if earlier parses saw other values.",
  ["inputs", "programs", "histories"], "all placements of predicates on the alternatives and sub-rules of small grammars, all truth assignments, all inputs up to a bound, warm and cold",
  "No existing test has a user-written semantic predicate in a parser.",
  ["src/parser_atn_simulator.rs", "src/semantic_context.rs", "src/dfa_state.rs", "src/error_strategy.rs"],
  [("predicate collection and evaluation", "src/parser_atn_simulator.rs predicate_dfa_state, eval_semantic_context, pred_transition"), ("boolean simplification", "src/semantic_context.rs")])

p("C10", "A syntax error is reported exactly when the input is not in the language",
  "Parsing reports at least one syntax error if and only if the grammar does not derive the input. "
  "The first error is never reported later than the first token that cannot continue any valid input, and it is reported at exactly that token unless prediction had already ended a sub-rule early because no alternative could match; an alternative-choice error spans that token; the offending token, line and column given to listeners are those of a real token of the input.",
  ["inputs", "programs"], "all bounded grammars and all token strings (valid and invalid) up to a length bound, for the default recovery strategy",
  "Tests contain no invalid input with a checked error position.",
  ["src/error_strategy.rs", "src/errors.rs", "src/parser_atn_simulator.rs", "src/parser.rs", "src/error_listener.rs"],
  [("no-viable-alternative detection", "src/parser_atn_simulator.rs no_viable_alt, exec_atn_with_full_context"), ("inline matching", "src/parser.rs match_token"), ("reporting", "src/error_strategy.rs report_*, src/parser.rs notify_error_listeners")])

p("C11", "Error recovery always terminates with a faithful tree",
  "On every token sequence the default recovery strategy finishes without panicking and returns a tree. "
  "End of file aside, the tokens in the tree's leaves are input tokens in order with no duplicate, a token the parser made up appears only as an error node outside the input, every leaf lies within the token span of its ancestors, and input that did not match appears only as error nodes or not at all.",
  ["inputs", "programs", "fault_sequences"], "all bounded grammars (including left recursive ones) and all token strings up to a bound, each run to completion under a step limit",
  "Tests recover from no error at all.",
  ["src/error_strategy.rs", "src/parser.rs", "src/ll1_analyzer.rs", "src/atn.rs", "src/tree.rs"],
  [("synchronisation and inline repair", "src/error_strategy.rs sync, recover_inline, single_token_deletion, single_token_insertion, recover"), ("tree attachment", "src/parser.rs consume, match_token")])

p("C12", "The bail strategy stops at the first error and accepts all valid input",
  "With the bail-out strategy, parsing returns an error if and only if the grammar does not derive the input, it does so without consuming past the first token that cannot continue any valid input and without inserting or deleting tokens. "
  "On valid input it produces the same tree as the default strategy.",
  ["inputs", "programs"], "all bounded grammars and token strings up to a bound under the bail strategy",
  "No existing test uses the bail strategy on invalid input.",
  ["src/error_strategy.rs", "src/parser.rs"],
  [("bail strategy", "src/error_strategy.rs BailErrorStrategy")])

p("C13", "Buffered token streams present exactly the tokens of their channel",
  "A buffered token stream behaves as the token source's whole sequence viewed through one channel: looking ahead or behind by k skips off-channel tokens, consuming moves to the next on-channel token, seeking to a visited position and continuing replays the same view, and the end-of-file token repeats forever. "
  "Off-channel tokens stay reachable by absolute index and text of a range includes them.",
  ["histories", "inputs"], "all operation sequences (look, consume, seek, mark, release, reset, text) up to a depth over all channel assignments of short token sequences",
  "Existing tests only iterate forward over on-channel tokens.",
  ["src/common_token_stream.rs", "src/token_stream.rs", "src/int_stream.rs"],
  [("channel filtering", "src/common_token_stream.rs adjust_seek_index, next_token_on_channel, lb, lt"), ("iteration", "src/int_stream.rs IterWrapper, src/token_stream.rs")])

p("C14", "Unbuffered token streams honour lookahead and marks",
  "While a mark is held, an unbuffered token stream answers every look-ahead, look-behind, seek and text query within the marked window exactly as if the whole token sequence were stored, and without marks it always answers look-ahead and the previous token, while tokens before the previous one are let go as it goes. "
  "Releasing marks in order never loses or duplicates a token.",
  ["histories", "inputs"], "all operation sequences (look, consume, mark, release, seek) up to a depth over short token sequences",
  "Existing tests only consume forward.",
  ["src/token_stream.rs"],
  [("window management", "src/token_stream.rs UnbufferedTokenStream sync, fill, mark, release, seek, lt")])

p("C15", "Character streams are a faithful cursor over the input text",
  "For every supported input representation, look-ahead and look-behind by k, consume, seek, size and text of a range agree with a plain cursor over the sequence of symbols, with end-of-file beyond both ends. "
  "Offsets used by tokens and by text queries are the stream's own offsets, so text of a token's range is always the token's text.",
  ["histories", "inputs"], "all operation sequences up to a depth over all short texts containing 1-, 2-, 3- and 4-byte characters",
  "Existing unit tests walk a few fixed strings.",
  ["src/input_stream.rs", "src/char_stream.rs", "src/int_stream.rs"],
  [("stream implementations", "src/input_stream.rs"), ("data access", "src/char_stream.rs InputData")])

p("C16", "Integer interval sets behave as mathematical sets",
  "After any sequence of adding elements, ranges and sets, removing elements, complementing and subtracting, membership, size, minimum, emptiness, equality and enumeration agree with the mathematical set of integers. "
  "Two sets with the same elements compare equal however they were built.",
  ["histories", "inputs"], "all operation sequences over a universe of small integers up to a depth, explored as a state graph",
  "Unit tests check a few fixed unions.",
  ["src/interval_set.rs"],
  [("set operations", "src/interval_set.rs")])

p("C17", "Merging prediction stacks loses and invents no call stack",
  "Merging two graph-structured call stacks yields a structure that represents exactly the union of the stacks of both, with the wildcard stack absorbing all others only when wildcards are allowed. "
  "The result does not depend on the order of the arguments or on what was merged before, equal stacks compare and hash equal, and de-duplication through the shared cache changes no stack.",
  ["inputs", "histories"], "all pairs (and merge sequences) of stack graphs up to a bounded depth and width over a few return states, wildcard and non-wildcard mode",
  "The unit tests merge 40 hand-drawn pairs with a fresh merge cache.",
  ["src/prediction_context.rs", "src/parser_atn_simulator.rs"],
  [("merge", "src/prediction_context.rs merge, merge_singletons, merge_arrays, merge_root, combine_common_parents"), ("cache", "src/prediction_context.rs PredictionContextCache, get_cached_base_prediction_context")],
  hook="prediction stacks are private to the crate; a feature-gated module exposes them to the harness")

p("C18", "Concurrent lexers and parsers of one grammar behave as if alone",
  "Any number of threads lexing and parsing with the same grammar at the same time each obtain exactly the tokens, trees and errors they would obtain alone, under every interleaving. "
  "No interleaving deadlocks, panics, or leaves shared prediction data in a state that changes later results.",
  ["schedules", "inputs"], "all interleavings of 2-3 threads at lock operations up to a preemption bound, over inputs forced to build the same cache entries",
  "The tests never run two recognizers of one grammar concurrently on purpose.",
  ["src/parser_atn_simulator.rs", "src/lexer_atn_simulator.rs", "src/dfa.rs", "src/prediction_context.rs", "src/atn.rs", "src/atn_state.rs"],
  [("DFA locks", "src/parser_atn_simulator.rs, src/lexer_atn_simulator.rs lock upgrades"), ("shared context cache", "src/prediction_context.rs PredictionContextCache"), ("lazy follow sets", "src/atn_state.rs next_tokens_within_rule")],
  state="per-decision DFAs, prediction-context cache, lazily computed follow sets")

p("C19", "Parse listeners see a balanced trace that matches the tree",
  "During a parse, listeners receive properly nested enter and exit events and terminal and error-node events which, replayed, rebuild exactly the returned tree, for non-recursive and left-recursive rules alike and also when errors were recovered (tokens made up for a missing symbol apart, which are in the tree only). "
  "Walking the finished tree delivers the same terminals in the same order, a removed listener is handed back intact with the state it accumulated, and the remaining listeners keep receiving events. "
  "Several listeners are told in the order they were added, on leaving a rule in the opposite order, also after others were removed.",
  ["inputs", "histories", "programs"], "all bounded grammars and inputs with one to three listeners, and all add/remove sequences of listeners up to a bound",
  "Two tests look at the terminals seen by one listener on 'x y z'.",
  ["src/parser.rs", "src/tree.rs"],
  [("event triggering", "src/parser.rs trigger_enter_rule_event, trigger_exit_rule_event, consume"), ("listener registry", "src/parser.rs add_parse_listener, remove_parse_listener"), ("walker", "src/tree.rs ParseTreeWalker")])

p("C20", "Parse-tree queries agree with the tree",
  "For every parse tree, text, source interval, start and stop tokens, child access by index, by type and by token, parent links of rule nodes, rendered tree text, walker and visitor traversals all agree with one another and with the matched input. "
  "The text of a node is the concatenation of its leaves, and its start and stop tokens are the first and last tokens it matched.",
  ["inputs", "programs"], "trees of all bounded grammars and inputs, valid and recovered",
  "Tests print a handful of trees.",
  ["src/tree.rs", "src/trees.rs", "src/parser_rule_context.rs", "src/rule_context.rs"],
  [("tree API", "src/tree.rs, src/parser_rule_context.rs"), ("rendering", "src/trees.rs")])

p("C21", "Loading a serialized grammar reproduces it exactly",
  "Every well-formed serialized grammar loads into an in-memory graph with exactly the states, rules, modes, transitions, symbol sets, decisions and actions it describes, plus the derived rule-exit links. "
  "Data with an unsupported version or identifier, or with state, transition or action kinds that do not exist, is rejected rather than loaded.",
  ["inputs", "programs"], "serializations of all bounded grammars plus boundary values (end-of-file flags, 16- and 32-bit code points, precedence, every action and transition kind)",
  "Only the serialized grammars of the generated tests are loaded, and the result is not compared with anything.",
  ["src/atn_deserializer.rs", "src/atn.rs", "src/atn_state.rs", "src/transition.rs"],
  [("deserializer", "src/atn_deserializer.rs")])

p("C22", "Expected-token sets are exact",
  "At any point of a parse, the set of tokens reported as expected is exactly the set of tokens with which some continuation, in the actual chain of calling rules, could proceed, including end-of-file when the start rule may end. "
  "Error messages list exactly such a set, that of the failing point or of one passed since the last matched token.",
  ["inputs", "programs"], "every parser state and call stack reached while parsing all prefixes of all inputs of all bounded grammars",
  "No test inspects an expected-token set.",
  ["src/ll1_analyzer.rs", "src/atn.rs", "src/atn_state.rs", "src/parser.rs", "src/error_strategy.rs"],
  [("lookahead analysis", "src/ll1_analyzer.rs"), ("context walk", "src/atn.rs get_expected_tokens, next_tokens"), ("messages", "src/error_strategy.rs, src/interval_set.rs to_token_string")])

p("C23", "Predicate formulas keep their truth value under simplification",
  "Combining predicates with and/or, including duplicates, constants, nested formulas and precedence predicates, yields a formula whose value equals the boolean combination of its parts under every truth assignment and precedence level. "
  "Partially evaluating precedence predicates leaves an equivalent formula for that level with no precedence predicate in it, and one combination compares and hashes equal however often and in whichever argument order it is built.",
  ["inputs", "histories"], "all formulas up to a bounded depth over a few predicates and precedence levels, all assignments",
  "No unit test covers predicate formulas.",
  ["src/semantic_context.rs"],
  [("simplification", "src/semantic_context.rs and, or, new_and, new_or, filter_precedence_predicate, eval_precedence")],
  hook="evaluation of formulas is crate-private; a feature-gated module exposes it to the harness")

p("C24", "Ambiguity diagnostics are truthful and complete in exact mode",
  "In exact-ambiguity mode a decision is reported ambiguous for an input span exactly when at least two alternatives can each match that span and then continue identically, and the reported set of alternatives is exactly those. "
  "In LL mode it is reported once the lowest alternative would win at every position left. A full-context attempt is reported exactly when lookahead without the callers comes to a conflict the predicates do not settle, at that token and with the alternatives whose predicates hold; it is followed by either an ambiguity or a context-sensitivity report or an error. Reports never change the parse.",
  ["inputs", "programs", "configurations"], "all bounded ambiguous and unambiguous grammars and inputs, with and without predicates under all truth values, with a recording diagnostic listener",
  "No existing test installs a diagnostic listener.",
  ["src/parser_atn_simulator.rs", "src/prediction_mode.rs", "src/error_listener.rs"],
  [("reporting", "src/parser_atn_simulator.rs report_ambiguity, report_attempting_full_context, report_context_sensitivity"), ("conflict sets", "src/prediction_mode.rs")])

p("C25", "Every error listener hears every report, and messages quote the offending input",
  "Every error listener registered with a lexer or parser is told of every syntax error, ambiguity, full-context attempt and context sensitivity, each once, in order and with the same arguments, errors at the line and column of the offending token; a removed listener is told nothing more. "
  "A message quotes exactly the text it is about (the dropped characters, the offending token, or the tokens from the failed decision's first to the offending one, hidden ones included), with line breaks and tabs shown as escapes, so that it is one line.",
  ["inputs", "programs", "configurations"], "all bounded grammars and invalid inputs whose texts hold line breaks and tabs, with several listeners",
  "The tests look at a few messages of one listener.",
  ["src/error_listener.rs", "src/error_strategy.rs", "src/parser.rs", "src/lexer.rs"],
  [("listener dispatch", "src/parser.rs notify_error_listeners, src/error_listener.rs ProxyErrorListener, src/lexer.rs notify_listeners"), ("messages", "src/error_strategy.rs report_*, src/utils.rs escape_whitespaces")])

p("C26", "While parsing, the rule context is the actual chain of rule calls",
  "At every point of a parse, valid or recovering, the rule invocation stack, the invoking states and the start token of the current rule, and the current precedence level with the operators it admits, are those of the chain of rule calls being executed. "
  "This holds inside left-recursive rules at every operand, with and without parse trees, listeners and labelled alternatives.",
  ["inputs", "programs", "configurations"], "all bounded grammars and inputs, compared at every step with a call stack kept by the caller",
  "No test looks at the rule context during a parse.",
  ["src/parser.rs", "src/rule_context.rs", "src/parser_rule_context.rs"],
  [("rule entry and exit", "src/parser.rs enter_rule, exit_rule, enter_recursion_rule, push_new_recursion_context, unroll_recursion_context"), ("stack", "src/parser.rs get_rule_invocation_stack, precpred")])

p("C27", "A parser serves again: successive rule calls are independent",
  "Calling a rule on a parser that has already executed another rule, where that one ended, after rewinding, or on another token stream, gives the same tree, decisions, events, errors and input position as a new parser placed at that token, whether the first call was valid, or failed and the error strategy was reset. "
  "Only the expected tokens listed by a message may include those of a place passed before the call.",
  ["inputs", "programs", "histories"], "all bounded grammars and inputs, all pairs of rules called in turn, going on, after rewinding, or on another stream",
  "No test calls two rules on one parser.",
  ["src/parser.rs", "src/error_strategy.rs", "src/parser_atn_simulator.rs"],
  [("leftover state", "src/parser.rs unroll_recursion_context, exit_rule; src/error_strategy.rs reset, end_error_condition")])

p("C28", "Every decision up to the first error follows the lookahead, on invalid input too",
  "A decision takes the one alternative that the tokens ahead leave over, whatever follows later; when no alternative can match them, it takes the lowest one that had completed the deciding rule on the way (those whose predicates hold before those whose do not), so that the error is reported where the input goes wrong, and only if there is none it fails, naming the token that no alternative can match. "
  "This also holds for start rules that do not ask for the end of the input, and in SLL mode; following the decisions taken leads to an error exactly when one is reported.",
  ["inputs", "programs"], "all bounded grammars, with and without predicates and required end of input, and all token strings",
  "No test looks at a decision on invalid input.",
  ["src/parser_atn_simulator.rs", "src/prediction_mode.rs", "src/atn_config_set.rs"],
  [("choice on failure", "src/parser_atn_simulator.rs get_syn_valid_or_sem_invalid_alt_that_finished_decision_entry_rule"), ("lookahead sets", "src/parser_atn_simulator.rs compute_reach_set, closure")])

p("C29", "Names of tokens and printed tokens say what they stand for",
  "A vocabulary gives for every token type exactly the literal, symbolic and display name its tables hold (display name, else literal, else symbolic, else the number; EOF is always named), and token sets are printed with these names in order. "
  "A token keeps type, channel, positions, index and text as created, through every factory and every copy; it is printed with all of them, line ends and tabs escaped, and a copy does not affect the original.",
  ["inputs", "histories"], "all bounded name tables, all sets of token types of a bounded vocabulary, all bounded token texts, channels and positions",
  "Tests print a handful of tokens.",
  ["src/vocabulary.rs", "src/token.rs", "src/token_factory.rs", "src/interval_set.rs"],
  [("names", "src/vocabulary.rs VocabularyImpl; src/interval_set.rs to_token_string"), ("tokens", "src/token.rs GenericToken; src/token_factory.rs create")])

p("C30", "What prediction has learned is complete, stable and shown truthfully",
  "After a parse the learned table of every decision, followed along the lookahead, gives the alternative that was taken (or asks for predicates or the full context, or fails where the decision failed); a lexer's tables alone give its tokens. "
  "Reading the same input again changes no table, the order in which inputs are read does not matter for what is learned, every state can be reached, decides at most once and is learned once, and the printed form of a table shows exactly its states and edges.",
  ["inputs", "programs", "histories"], "all bounded grammars with and without predicates and all token strings, in both orders, each twice, in all prediction modes; all bounded lexers and texts",
  "Tests look at results, never at what was learned; a table that is never used or grows without end gives right results.",
  ["src/parser_atn_simulator.rs", "src/lexer_atn_simulator.rs", "src/dfa.rs", "src/dfa_serializer.rs", "src/dfa_state.rs"],
  [("learning", "src/parser_atn_simulator.rs compute_target_state, add_dfaedge, add_dfastate; src/lexer_atn_simulator.rs add_dfaedge, add_dfastate"), ("dump", "src/dfa.rs to_string, to_lexer_string; src/dfa_serializer.rs")])

p("C31", "Error recovery makes the documented, smallest repair",
  "Where a token does not fit: if the token after it does, the wrong one alone is dropped; otherwise, if it could follow the missing token, that one alone is supplied (not twice at one place), as the lowest expected one, marked as missing and placed where it is missed; otherwise the rule is given up and tokens are skipped just up to the first that can follow one of the rules being executed, or the end; failing twice in one place costs a token. "
  "Before choices and loops a wrong token is dropped if the next one fits, and between iterations tokens are skipped up to the first that can come there or follow an active rule. From a report until a token has been matched again nothing more is reported.",
  ["inputs", "programs", "histories"], "all bounded grammars, every start rule, all token strings, three ways to predict, with and without trees and predicates; every call of the strategy in every parse",
  "Tests recover from a few errors and look at the final tree.",
  ["src/error_strategy.rs", "src/parser.rs", "src/ll1_analyzer.rs", "src/atn.rs"],
  [("strategy", "src/error_strategy.rs recover_inline, recover, sync, single_token_insertion, single_token_deletion, get_error_recovery_set, consume_until, get_missing_symbol")])

p("C32", "Nothing is leaked, and a tree lives exactly as long as it is held",
  "Parsing or lexing again what has been read before leaves no memory behind once its results are dropped, whether it succeeds, recovers or bails out. "
  "A returned tree, with its parent links, stays valid after parser and input stream are gone; a part that is held alone stays valid, has no parent once the rest is gone, and everything else is freed.",
  ["inputs", "programs", "histories"], "all bounded grammars and token strings, every node of every tree held alone, all bounded lexers and texts",
  "Tests drop everything at exit and notice no leak.",
  ["src/rule_context.rs", "src/parser_rule_context.rs", "src/parser.rs", "src/error_strategy.rs", "src/errors.rs"],
  [("links", "src/rule_context.rs parent_ctx, set_parent; src/parser.rs unroll_recursion_context, push_new_recursion_context"), ("errors holding contexts", "src/errors.rs, src/error_strategy.rs next_tokens_ctx")])

p("C33", "Prediction reads no further ahead than it must",
  "A decision looks at no token beyond the first one at which the tokens ahead leave at most one alternative, or at which those left are in a conflict (in LL and exact mode: one that knowing the callers does not settle either). "
  "The parser as a whole asks the token source for no token beyond those and the one after the last it consumed. This holds with a cold or learned cache, with a buffered or unbuffered stream, and in all prediction modes (which may need the more of the two stages).",
  ["inputs", "programs", "histories"], "all bounded grammars and token strings, in all prediction modes, buffered and unbuffered, cold and warm",
  "Interactive input hangs if one token too many is asked for; tests have all their input at hand.",
  ["src/parser_atn_simulator.rs", "src/error_strategy.rs", "src/token_stream.rs", "src/common_token_stream.rs"],
  [("stopping", "src/parser_atn_simulator.rs exec_atn, compute_target_state, exec_atn_with_full_context, get_unique_alt; src/prediction_mode.rs"), ("fetching", "src/token_stream.rs sync, fetch; src/error_strategy.rs sync")])

p("C35", "The lexer reads no further ahead than it must",
  "By the time a lexer hands out a token it has looked at no character beyond the first one at which no rule could go on any more, or the one right after the token. "
  "This holds with a cold or learned cache, in every mode, after errors, and with more, skip, actions, predicates and non-greedy loops.",
  ["inputs", "programs", "histories"], "all bounded lexer grammars and texts, cold and warm",
  "Interactive input hangs if one character too many is asked for; tests have all their input at hand.",
  ["src/lexer.rs", "src/lexer_atn_simulator.rs", "src/input_stream.rs"],
  [("matching", "src/lexer_atn_simulator.rs exec_atn, fail_or_accept, consume"), ("end of input", "src/lexer.rs next_token, recover")])

p("C36", "An error value says what went wrong, where, and what was expected there",
  "The errors that listeners, error strategies and callers get name their kind, the offending token with all its fields, where the decision began, the parser's state, and for a failed predicate its rule, text and message. "
  "The tokens they expect are those of the point of failure (or one passed since the last token matched), whenever asked, even after the parse. "
  "Each error raised is reported once and then recovered from once; bailing out returns an error that leads to its cause; an error of the user's own from an action is reported and recovered from, and one meant to fall through ends the parse and reaches the caller unchanged.",
  ["inputs", "programs"], "all bounded grammars with predicates and failing actions, and inputs",
  "Tests look at messages, hardly at error values; users write strategies and tools on them.",
  ["src/errors.rs", "src/error_strategy.rs", "src/parser.rs", "src/atn.rs"],
  [("values", "src/errors.rs"), ("expected tokens", "src/atn.rs get_expected_tokens"), ("bailing out", "src/error_strategy.rs BailErrorStrategy")])

p("C34", "Generated parsers do what their grammars say",
  "The parsers and lexers the ANTLR tool generated for the repository's grammars give, for every text, the tokens, trees and errors the grammar and the library's rules for errors imply. "
  "Labels, accessors and labelled alternatives name the right children, embedded actions see the right attributes and text, typed listeners and visitors are called for every node in order with the right type, and bailing out gives a tree exactly where nothing is wrong.",
  ["inputs"], "seven generated grammars (CSV, Labels, VisitorCalc, SimpleLR, ReferenceToATN, VisitorBasic, XMLLexer), all texts of up to 6 pieces (XML: 4)",
  "The repository's own tests read a few texts with each.",
  ["src/parser.rs", "src/lexer.rs", "src/parser_rule_context.rs", "src/rule_context.rs", "src/tree.rs", "src/lib.rs"],
  [("typed trees", "src/parser_rule_context.rs copy_from, child_of_type, get_token, cast, cast_mut; src/tree.rs"), ("generated code", "tests/gen")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
