"""The properties: statements, anchors, and which functions' contracts / which rules decide each.

`fns`: globs over resolved function names (the reviewed reference must match each glob at least once).
`rules`: repository-specific dataflow/graph/type rules in engine/rules.py.
"""

def P(id, title, statement, over, qtext, why, files, mech, fns, rules=(), observe=(), state=()):
    return dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                fns=fns, rules=list(rules), observe=list(observe), state=list(state))

SIM = 'src/lexer_atn_simulator.rs'
PSIM = 'src/parser_atn_simulator.rs'
L = '<LexerATNSimulator as ILexerATNSimulator>::'
BL = '<BaseLexer as Lexer>::'

PROPS = [
P('C01', 'Token line and column are those of its first character',
  "For every input, each token produced by a lexer carries the line and column of its first character, where lines start at 1, columns at 0, "
  "each consumed line feed advances the line and resets the column to 0, and every other consumed character advances the column by one. "
  "Characters looked at speculatively (a longer match that fails, a predicate evaluated mid-match, an error being recovered) leave the reported position exactly as if only the accepted or skipped characters had been consumed. "
  "Setting the line or the column programmatically changes that one coordinate and nothing else.",
  ['inputs', 'histories'], 'all character inputs, all grammars, all interleavings of speculative lookahead and acceptance',
  'The tests check a few token positions on one-line inputs; no test looks at positions after an abandoned longer match, after a predicate, or after recovery.',
  ['src/lexer.rs', SIM], [('position counters advanced on consume', SIM), ('accept/predicate save and restore of the position', SIM), ('token start captured once per token', 'src/lexer.rs')],
  [L + 'consume', L + 'get_char_position_in_line', L + 'set_char_position_in_line', L + 'get_line', L + 'set_line', L + 'reset', L + 'match_token',
   'SimState::*', 'LexerATNSimulator::accept', 'LexerATNSimulator::capture_sim_state', 'LexerATNSimulator::evaluate_predicate', 'LexerATNSimulator::new_lexer_atnsimulator',
   'LexerATNSimulator::fail_or_accept', 'ILexerATNSimulator::recover',
   '<BaseLexer as TokenSource>::next_token', '<BaseLexer as TokenSource>::get_line', '<BaseLexer as TokenSource>::get_char_position_in_line',
   'BaseLexer::emit', 'BaseLexer::emit_eof', BL + 'reset', '<GenericToken as Token>::get_line', '<GenericToken as Token>::get_column',
   'TokenSource::get_line', 'TokenSource::get_char_position_in_line', 'BaseLexer::new_base_lexer', 'LexerATNSimulator::exec_atn'],
  observe=['line and column of tokens', 'position in lexer error reports']),

P('C02', 'Tokens cover exactly the text they matched, with the chosen type and channel',
  "For every input, a token's start and stop offsets delimit exactly the characters matched for it (including those kept by 'more'), its text is that slice unless an action replaced it, and its type and channel are the ones the matched rule or its actions selected, the default channel otherwise. "
  "Skipped matches produce no token; a token supplied by an action is delivered as is. "
  "At the end of input every further request yields an end-of-file token, empty and positioned at the end of the input.",
  ['inputs', 'histories'], 'all inputs and all sequences of skip/more/type/channel/text/emit effects of actions',
  'Tests compare token lists of a handful of inputs; they do not quantify over action sequences (more then skip, text override, repeated EOF).',
  ['src/lexer.rs', 'src/token_factory.rs', 'src/token.rs'], [('next-token loop and emit', 'src/lexer.rs'), ('token construction', 'src/token_factory.rs')],
  ['<BaseLexer as TokenSource>::next_token', 'BaseLexer::emit', 'BaseLexer::emit_token', 'BaseLexer::emit_eof', 'BaseLexer::get_char_index', 'BaseLexer::get_text', 'BaseLexer::set_text',
   BL + 'set_channel', BL + 'set_type', BL + 'more', BL + 'skip', BL + 'input', 'LexerRecog::before_emit', 'BaseLexer::new_base_lexer',
   'LexerATNSimulator::accept', '<* as TokenFactory>::create', '<InputStream<* as CharStream>::get_text*', 'InputStream::get_text_inner', BL + 'reset'],
  observe=['token start/stop/text/type/channel']),

P('C03', 'Lexer takes the longest match, earliest rule on ties',
  "For every input position, the lexer accepts the longest prefix that any rule active in the current mode matches, and among rules matching that same prefix the one listed first in the grammar; non-greedy subrules stop at their first accepting alternative. "
  "Whether the decision is computed afresh or taken from previously recorded decisions does not change the outcome. "
  "A rule whose predicate fails at that position never matches.",
  ['inputs', 'programs'], 'all grammars (automata) and all inputs',
  'The language of a grammar is infinite; tests sample a few inputs per grammar.',
  [SIM, 'src/atn_config.rs', 'src/atn_config_set.rs'], [('reach/closure computation and accept capture', SIM), ('ordered configuration sets', 'src/atn_config_set.rs')],
  ['LexerATNSimulator::match_atn', 'LexerATNSimulator::exec_atn', 'LexerATNSimulator::compute_target_state', 'LexerATNSimulator::get_reachable_config_set',
   'LexerATNSimulator::compute_start_state', 'LexerATNSimulator::closure', 'LexerATNSimulator::get_epsilon_target', 'LexerATNSimulator::evaluate_predicate', 'LexerATNSimulator::capture_sim_state',
   'LexerATNSimulator::fail_or_accept', 'LexerATNSimulator::accept', L + 'match_token', 'LexerATNSimulator::add_dfastate', 'LexerATNSimulator::add_dfaedge', 'LexerATNSimulator::get_existing_target_state',
   'LexerATNSimulator::get_dfa*', 'atn_config::check_non_greedy_decision', '<ATNConfig as Clone>::clone', '<ATNConfigType as Clone>::clone', 'ATNConfig::new*', 'ATNConfig::cloned*', 'ATNConfigSet::add', 'ATNConfigSet::add_cached', 'ATNConfigSet::new_ordered', 'ATNConfigSet::full_hash_key', '<ATNConfig as PartialEq>::eq',
   '<BaseLexer as Recognizer>::sempred'],
  observe=['token types and boundaries']),

P('C04', 'Lexer actions run once, in order, for the accepted match only; modes nest',
  "For every accepted token, exactly the actions on the accepted path run, once each, in grammar order, with position-dependent actions seeing the input position at which they occurred and the position afterwards unchanged; no action runs for a match that is not accepted. "
  "Each lexer command (skip, more, type, channel, mode, push mode, pop mode, custom) has exactly its own effect. "
  "Push mode saves the current mode and pop mode restores the most recently saved one.",
  ['inputs', 'programs', 'histories'], 'all grammars with lexer commands, all inputs, all push/pop sequences',
  'Tests use few lexer commands and never observe position-dependent actions.',
  ['src/lexer_action.rs', 'src/lexer_action_executor.rs', 'src/lexer.rs', SIM],
  [('action list accumulated along the path', SIM), ('executor with recorded offsets', 'src/lexer_action_executor.rs'), ('mode stack', 'src/lexer.rs')],
  ['<LexerAction as Clone>::clone', '<LexerActionExecutor as Clone>::clone', 'LexerAction::*', 'LexerActionExecutor::*', '<LexerActionExecutor as Hash>::hash', '<LexerActionExecutor as PartialEq>::eq', '<LexerAction as PartialEq>::eq',
   BL + 'push_mode', BL + 'pop_mode', BL + 'set_mode', BL + 'set_type', BL + 'set_channel', BL + 'more', BL + 'skip', 'LexerATNSimulator::get_epsilon_target', 'LexerATNSimulator::get_reachable_config_set', 'LexerATNSimulator::accept',
   'ATNConfig::get_lexer_executor', 'ATNConfig::cloned_with_new_exec', '<BaseLexer as Recognizer>::action', 'ATNDeserializer::read_lexer_actions', 'ATNDeserializer::lexer_action_factory'],
  observe=['mode, type, channel, callbacks seen by generated lexers']),

P('C05', 'Lexer errors are reported once and lexing resumes after them',
  "Whenever no rule matches at the current position, the lexer reports exactly one error, to every registered listener, located at the start of the offending token, and then discards at least one character (unless at end of input) and continues as a fresh match. "
  "An error never ends the token stream early and never produces a token for the offending text. "
  "A match that had already accepted a shorter prefix is not an error.",
  ['inputs', 'histories'], 'all inputs, including ones with unmatchable characters anywhere',
  'Tests lex only valid inputs.',
  ['src/lexer.rs', SIM], [('failed match becomes an error unless an accept was recorded', SIM), ('report, recover, continue', 'src/lexer.rs')],
  ['LexerATNSimulator::fail_or_accept', 'ILexerATNSimulator::recover', 'lexer::notify_listeners', '<BaseLexer as TokenSource>::next_token', 'BaseLexer::add_error_listener', 'BaseLexer::remove_error_listeners',
   L + 'match_token', L + 'consume', 'LexerATNSimulator::exec_atn', 'LexerATNSimulator::match_atn'],
  observe=['listener callbacks', 'subsequent tokens']),

P('C06', 'Deciding between alternatives never moves the input',
  "For every decision, input and outcome (an alternative chosen or an error returned), predicting leaves the token stream at the position where it was called and leaves no outstanding mark on it. "
  "The same holds for evaluating a predicate in the middle of a lexer match and for computing error messages. "
  "Predicates consulted during prediction see the stream at the position of the decision.",
  ['inputs', 'programs', 'fault_sequences'], 'all grammars, inputs and exits (success, failure) of prediction',
  'Tests exercise successful predictions on small inputs; error exits of prediction are not tested.',
  [PSIM, SIM], [('mark/seek/release around prediction', PSIM), ('mark/seek/release around speculative predicates', SIM)],
  ['ParserATNSimulator::adaptive_predict', 'LexerATNSimulator::evaluate_predicate', 'ParserATNSimulator::eval_semantic_context', 'ParserATNSimulator::eval_predicate', 'ParserATNSimulator::pred_transition', 'ParserATNSimulator::precedence_transition',
   'ParserATNSimulator::no_viable_alt', 'ParserATNSimulator::exec_atn', 'ParserATNSimulator::exec_atn_with_full_context'],
  observe=['stream index after prediction']),

P('C07', 'Adaptive prediction follows the SLL then full-context procedure',
  "For every decision and input, prediction consumes lookahead until the surviving alternatives are unique, conflict, or die; a conflict in context-insensitive mode restarts from the decision start with full parser context, and a full-context conflict that cannot be resolved picks the smallest viable alternative. "
  "If no alternative survives, it picks an alternative that already finished the rule if one exists and otherwise fails naming the offending token. "
  "Alternatives whose predicates are false in the current state are not chosen.",
  ['inputs', 'programs'], 'all grammars (automata), inputs and invocation contexts',
  'Conflicts, full-context restarts and end-of-input cases depend on unbounded lookahead; tests contain a handful of such inputs.',
  [PSIM, 'src/prediction_mode.rs'], [('SLL loop', PSIM), ('LL loop', PSIM), ('conflict detection', 'src/prediction_mode.rs')],
  ['ParserATNSimulator::adaptive_predict', 'ParserATNSimulator::exec_atn', 'ParserATNSimulator::exec_atn_with_full_context', 'ParserATNSimulator::compute_target_state', 'ParserATNSimulator::predicate_dfa_state',
   'ParserATNSimulator::compute_reach_set', 'ParserATNSimulator::*rule_stop_state', 'ParserATNSimulator::compute_start_state', 'ParserATNSimulator::get_reachable_target',
   'ParserATNSimulator::get_syn_valid*', 'ParserATNSimulator::split_according*', 'ParserATNSimulator::get_alt_that*', 'ParserATNSimulator::get_unique_alt', 'ParserATNSimulator::get_conflicting*', 'ParserATNSimulator::no_viable_alt',
   'ParserATNSimulator::get_prediction_mode', 'ParserATNSimulator::set_prediction_mode', 'ParserATNSimulator::new',
   'ParserATNSimulator::get_preds_for_ambig_alts', 'ParserATNSimulator::get_predicate_predictions', 'ParserATNSimulator::eval_semantic_context'],
  observe=['alternative chosen by generated parsers']),

P('C08', 'Recorded decisions equal computed ones (lookahead cache is transparent)',
  "For every sequence of inputs parsed or lexed with one shared decision cache, each result equals the result with an empty cache: a recorded transition is found under exactly the symbol it was recorded for, unknown transitions are recomputed, and error states are recorded only as errors. "
  "Two automaton states are merged only if they are equal. "
  "Transitions that depended on the calling context, on predicates evaluated at that moment, or on symbols outside the recorded range are never recorded as context-free facts.",
  ['histories', 'inputs', 'programs'], 'all histories of inputs over a shared cache, all grammars',
  'A test would have to compare every history against a fresh cache; the suite never reuses a cache across differing inputs deliberately.',
  ['src/dfa.rs', 'src/dfa_state.rs', PSIM, SIM], [('edge table store/lookup', PSIM), ('edge table store/lookup', SIM), ('state dedup by equality', 'src/dfa_state.rs'), ('precedence start states', 'src/dfa.rs')],
  ['LexerATNSimulator::add_dfaedge', 'LexerATNSimulator::add_dfastate', 'LexerATNSimulator::get_existing_target_state', 'LexerATNSimulator::compute_target_state', 'LexerATNSimulator::match_atn', 'LexerATNSimulator::get_dfa*', L + 'match_token',
   'ParserATNSimulator::add_dfaedge', 'ParserATNSimulator::add_dfastate', 'ParserATNSimulator::get_existing_target_state', 'ParserATNSimulator::compute_target_state', 'ParserATNSimulator::adaptive_predict',
   'DFA::new', 'DFA::get_precedence_start_state', 'DFA::set_precedence_start_state', 'DFA::is_precedence_dfa', 'DFA::set_precedence_dfa', 'DFAState::new_dfastate', '<DFAState as PartialEq>::eq', '<DFAState as Hash>::hash', 'DFAState::default_hash', '<ATNConfigSet as PartialEq>::eq', '<ATNConfigSet as Hash>::hash'],
  observe=['results over a warm cache']),

P('C09', 'Merging invocation stacks keeps exactly the union of the stacks',
  "For every pair of call-stack sets, merging yields a set containing exactly the stacks of both: no stack is lost and none is invented, return states stay sorted and unique, and the empty stack is treated as a wildcard only when the caller works without full context. "
  "Equality of stack sets is structural equality. "
  "A stack set built from a live rule invocation contains exactly that invocation's return states, innermost first.",
  ['inputs', 'programs'], 'all stack graphs reachable during prediction, in both context modes',
  'Merging is only tested indirectly through small grammars.',
  ['src/prediction_context.rs', 'src/atn_config_set.rs'], [('merge of singletons/arrays/roots', 'src/prediction_context.rs'), ('config merge on add', 'src/atn_config_set.rs')],
  ['<*PredictionContext as Clone>::clone', 'PredictionContext::*', 'SingletonPredictionContext::is_empty', '<*PredictionContext as PartialEq>::eq', 'prediction_context::opt_eq', 'PredictionContextCache::*', 'ATNConfigSet::add_cached', 'ATNConfigSet::optimize_configs', 'rule_context::states_stack', '*EMPTY_PREDICTION_CONTEXT*', 'prediction_context::Impl::*', '<PredictionContext as Display>::fmt'],
  observe=['alternatives surviving prediction']),

P('C10', 'Reading a serialized grammar rebuilds exactly the automaton it encodes',
  "For every serialized grammar of the supported version, deserializing yields the automaton encoded: every state with its kind and rule, every transition with its kind, arguments and target, every rule start/stop link, mode, decision, token set and lexer action, plus the derived rule-return transitions and block/loop links. "
  "Input of an unsupported version or identifier is rejected instead of being misread. "
  "After deserialization the automaton is never modified.",
  ['inputs', 'programs', 'configurations'], 'all serialized grammars',
  'Tests deserialize the fixed grammars of the suite only.',
  ['src/atn_deserializer.rs', 'src/atn.rs'], [('section-by-section reader', 'src/atn_deserializer.rs'), ('edge/state/action factories', 'src/atn_deserializer.rs')],
  ['ATNDeserializer::*', '*SUPPORTED_UUIDS*', '*ADDED_*', '*BASE_SERIALIZED*', 'atn_deserializer::Impl::*', 'ATN::new_atn', 'ATN::add_state', 'BaseATNState::*', '<BaseATNState as ATNState>::*', 'ATNDeserializationOptions::*', '<ATNDeserializationOptions as Default>::default', 'ATN::get_decision_state'],
  observe=['behaviour of every generated recognizer']),

P('C11', 'A transition matches exactly the symbols it denotes',
  "For every transition and every symbol, an atom matches its one symbol, a range matches its bounds and everything between, a set matches its members, a negated set matches every vocabulary symbol outside its set, a wildcard matches every vocabulary symbol, and epsilon, predicate and action transitions consume nothing and match no symbol. "
  "End-of-file is matched only by transitions that name it explicitly. "
  "Each transition's declared kind, target and label are its own.",
  ['inputs', 'programs'], 'all transitions, all symbols including the vocabulary bounds and end-of-file',
  'Boundary symbols (first, last, end-of-file) are hardly covered.',
  ['src/transition.rs', 'src/interval_set.rs'], [('matches of each transition kind', 'src/transition.rs'), ('reachability helpers', PSIM)],
  ['Transition::*', '<*Transition as Transition>::*', 'dyn Transition::cast', 'IntervalSet::contains', 'ParserATNSimulator::get_reachable_target'],
  observe=['accepted symbols']),

P('C12', 'Interval sets behave as mathematical sets of integers',
  "For every sequence of additions, removals, subtractions and complements, a symbol set contains exactly the integers the same operations give on mathematical sets, kept as sorted, disjoint, non-adjacent ranges. "
  "Membership, size and minimum agree with that set. "
  "Rendering a set lists every member range once with the right names.",
  ['inputs', 'histories'], 'all operation sequences on all sets',
  'Tests add a few ranges; overlapping and adjacent ranges in all relative positions are not enumerated.',
  ['src/interval_set.rs'], [('range merge on add', 'src/interval_set.rs'), ('subtraction and complement', 'src/interval_set.rs')],
  ['<Interval as Clone>::clone', '<IntervalSet as Clone>::clone', 'const interval_set::INVALID', 'Interval::*', 'IntervalSet::*', '<Interval as PartialEq>::eq', '<IntervalSet as PartialEq>::eq'],
  observe=['expected-token sets', 'set transitions']),

P('C13', 'Expected-token sets are exactly the tokens that can come next',
  "For every parser state and invocation stack, the set of expected tokens contains a token type exactly if some path of the grammar from that state can consume it next, following rule exits into the callers on the stack; end-of-file is included exactly when the whole stack can be exited. "
  "Computing the set has no side effect and a cached set equals a recomputed one. "
  "The set attached to an error is the one for the state and stack recorded in that error.",
  ['programs', 'histories'], 'all automata, states and invocation stacks',
  'Error messages in tests cover a few states with shallow stacks.',
  ['src/ll1_analyzer.rs', 'src/atn.rs', 'src/parser.rs'], [('lookahead walk with call stack', 'src/ll1_analyzer.rs'), ('expected tokens with follow of callers', 'src/atn.rs')],
  ['LL1Analyzer::*', 'ATN::next_tokens', 'ATN::next_tokens_in_ctx', 'ATN::get_expected_tokens', '<BaseParser as Parser>::get_expected_tokens', 'BaseRecognitionError::get_expected_tokens', '<BaseATNState as ATNState>::get_next_tokens_within_rule', 'DefaultErrorStrategy::get_expected_tokens'],
  observe=['expected tokens in messages and recovery']),

P('C14', 'A channel-filtered token stream shows the parser only its channel, in order',
  "For every token source, a stream over one channel yields, by lookahead, lookbehind and consuming, exactly the tokens of that channel in source order, starting at the first one and ending at end-of-file, which belongs to every channel and is never passed. "
  "Tokens of other channels stay retrievable by index and in text. "
  "Lookahead never changes the current position, and seeking or resetting lands on a token of the channel or end-of-file.",
  ['inputs', 'histories'], 'all token sequences, channel assignments and operation sequences',
  'Tests use whitespace skipping, rarely hidden channels, and never leading hidden tokens.',
  ['src/common_token_stream.rs'], [('on-channel search', 'src/common_token_stream.rs'), ('lookahead/lookbehind', 'src/common_token_stream.rs')],
  ['CommonTokenStream::*', '<CommonTokenStream as *>::*'],
  observe=['lookahead, lookbehind, position, text']),

P('C15', 'Buffered tokens keep source order, indices and text',
  "For every token source, the buffering stream delivers each token exactly once in source order, gives the n-th token index n, fetches exactly as many tokens as requested positions require and never beyond end-of-file. "
  "Lookahead by k returns the k-th token from the current position (end-of-file past the end) without moving; lookbehind by k returns the k-th token before it or nothing; consuming advances by one and is refused at end-of-file, and seeking to any token of the source lands on it. "
  "Text of an index range is the concatenation of those tokens' text, inclusive at both ends.",
  ['inputs', 'histories'], 'all token sequences and operation sequences',
  'Tests parse forward only; seeks, lookbehind and range texts are barely exercised.',
  ['src/token_stream.rs', 'src/int_stream.rs'], [('fill/sync', 'src/token_stream.rs'), ('lt/la/consume', 'src/token_stream.rs')],
  ['UnbufferedTokenStream::*', '<UnbufferedTokenStream as *>::*', 'TokenStream::*', '<TokenIter as Iterator>::next', '<IterWrapper as Iterator>::next'],
  observe=['tokens, indices, text']),

P('C16', 'Character streams report position, lookahead and text exactly',
  "For every input, in any supported encoding, consuming advances over exactly one character and is refused at the end, lookahead k returns the k-th character from the position (lookbehind for negative k) or end-of-file beyond either end without moving, and seeking restores any earlier position. "
  "The text between two offsets is exactly the characters between them, both ends included. "
  "Position and size are in the units of the underlying encoding and offsets always fall on character boundaries.",
  ['inputs', 'histories'], 'all inputs (including multi-byte characters) and operation sequences',
  'Tests use short ASCII inputs forward only.',
  ['src/input_stream.rs', 'src/char_stream.rs'], [('stream operations', 'src/input_stream.rs'), ('per-encoding offset/item', 'src/char_stream.rs')],
  ['InputStream::*', '<InputStream as IntStream>::*', '<InputStream<* as CharStream>::*', '<str as InputData>::*', '<*T* as InputData>::*'],
  observe=['characters, positions, text']),

P('C17', 'Matching a token consumes it exactly when it matches and records it in the tree',
  "For every parser state and current token, matching an expected type returns the current token, advances the input by exactly one and leaves error-recovery mode; otherwise recovery decides and the input is not advanced by the match itself. "
  "Consuming end-of-file is recorded but does not advance past it. "
  "Every consumed token appears in the tree exactly once, as an error node exactly if it was consumed while recovering, and listeners are told about it exactly once.",
  ['inputs', 'histories'], 'all parser states and inputs, with and without tree building and listeners',
  'Error-mode consumption and listener/tree combinations are not enumerated by tests.',
  ['src/parser.rs'], [('match / match wildcard', 'src/parser.rs'), ('consume with tree node and listener event', 'src/parser.rs')],
  ['BaseParser::match_token', 'BaseParser::match_wildcard', '<BaseParser as Parser>::consume', 'BaseParser::create_token_node', 'BaseParser::create_error_node', '<BaseParser as Parser>::get_current_token', '<LeafNode<* as Listenable>::*', 'LeafNode::new', 'BaseParser::new_base_parser', '<BaseParser as Parser>::get_input_stream*', '<BaseParser as Parser>::get_state', '<BaseParser as Parser>::set_state'],
  observe=['tree leaves', 'listener callbacks', 'stream position']),

P('C18', 'The parse tree mirrors rule invocations and left-recursive unrolling',
  "For every parse with tree building on, each rule invocation adds exactly one node as the last child of its caller's node, replacing the provisional node on entering a labelled alternative; entering sets its start token to the current token and leaving sets its stop token to the last consumed token and restores the caller's context and state. "
  "For left-recursive rules the growing node becomes the first child of the new one with the same start, precedence levels are pushed and popped in pairs, and the finished node is attached to the original caller. "
  "With tree building off and no parse listener attached, no children are recorded.",
  ['inputs', 'programs', 'histories'], 'all sequences of rule entries, exits, alternative labels and recursion steps',
  'Trees of a few inputs are compared; links, start/stop tokens and recursion nesting are not quantified.',
  ['src/parser.rs', 'src/parser_rule_context.rs', 'src/rule_context.rs'], [('rule entry/exit bookkeeping', 'src/parser.rs'), ('child/parent links', 'src/parser_rule_context.rs')],
  ['BaseParser::add_context_to_parse_tree', 'BaseParser::enter_rule', 'BaseParser::exit_rule', 'BaseParser::enter_outer_alt', 'BaseParser::enter_recursion_rule', 'BaseParser::push_new_recursion_context', 'BaseParser::unroll_recursion_context',
   '<BaseParser as Parser>::get_precedence', '<BaseParser as Parser>::precpred', '<BaseParserRuleContext as ParserRuleContext>::*', 'BaseParserRuleContext::*', '<BaseRuleContext as *>::*', 'BaseRuleContext::*', '<BaseParser as Parser>::get_parser_rule_context',
   'RuleContext::*', 'ParserRuleContext::set*', 'ParserRuleContext::st*', 'ParserRuleContext::add_child', 'ParserRuleContext::remove_last_child', '<BaseParser as Parser>::get_rule_invocation_stack'],
  observe=['tree shape, start/stop tokens, parents']),

P('C19', 'Tree queries and renderings reflect the tree exactly',
  "For every tree, child access by position, by rule type and by token type returns exactly the matching children in order (and nothing past the end), parents are the inverse of children, and a node's source interval runs from its start token to its stop token. "
  "A node's text is the concatenation of the text of its leaves in order. "
  "The parenthesised rendering shows every node once, with rule names, alternative numbers and escaped token text, in pre-order.",
  ['inputs', 'programs'], 'all trees',
  'Tests query a few shapes.',
  ['src/parser_rule_context.rs', 'src/tree.rs', 'src/trees.rs'], [('typed child accessors', 'src/parser_rule_context.rs'), ('string rendering', 'src/trees.rs')],
  ['ParserRuleContext::child_of_type', 'ParserRuleContext::children_of_type', 'ParserRuleContext::get_token*', '<BaseParserRuleContext as Tree>::*', '<BaseParserRuleContext as ParseTree>::*', 'Tree::*', 'ParseTree::*', '<LeafNode as ParseTree>::*', '<LeafNode as CustomRuleContext>::*', 'trees::*', 'utils::escape_whitespaces', 'CustomRuleContext::*', 'parser_rule_context::cast*', '<BaseParserRuleContext as CustomRuleContext>::*'],
  observe=['accessors of generated contexts', 'string trees']),

P('C20', 'Walking a tree visits every node once, in order, with paired events',
  "For every tree, walking it with a listener enters each rule node before its children, visits children left to right and exits the node after them, giving the generic event before the specific one on entry and after it on exit; leaves and error leaves get exactly one event of their kind. "
  "Listeners attached during parsing get the same events in the same nesting while the tree is built, in registration order on entry and reverse order on exit, and a removed listener gets none. "
  "Visitors visit children left to right, combining results in that order.",
  ['inputs', 'programs', 'histories'], 'all trees and listener sets',
  'Tests record events for one or two trees with one listener.',
  ['src/tree.rs', 'src/parser.rs'], [('walker recursion', 'src/tree.rs'), ('parse-time events', 'src/parser.rs')],
  ['ParseTreeWalker::*', 'BaseParser::trigger_enter_rule_event', 'BaseParser::trigger_exit_rule_event', 'BaseParser::add_parse_listener', 'BaseParser::remove_parse_listener', 'BaseParser::remove_parse_listeners', 'ListenerId::*', 'Listenable::*', '<LeafNode<* as Listenable>::*', '<LeafNode<* as Visitable>::*', 'ParseTreeVisitor*::*', '<T as ParseTreeVisitor>::*', '<T as VisitChildren>::*', 'Visitable*::*', 'ParseTreeListener::*', 'BaseParser::unroll_recursion_context', 'BaseParser::push_new_recursion_context', 'BaseParser::exit_rule'],
  observe=['listener and visitor callbacks']),

P('C21', 'Error recovery follows the documented strategy and always makes progress',
  "On a mismatched token the default strategy drops one token if the next one is what was expected, else conjures a missing token (of an expected type, positioned at the current token) if the current one can follow it, else fails; before and inside loops and optional parts it resynchronises by dropping one token or skipping to a token that can follow. "
  "Recovering from an error skips input up to a token in the recovery set of the invocation stack or end-of-file, and consumes at least one token when the same error recurs at the same position and state. "
  "Recovery never skips end-of-file, and error mode ends only when a token is matched or the parser is reset.",
  ['inputs', 'histories', 'fault_sequences'], 'all erroneous inputs and parser states',
  'Only a few erroneous inputs are tested.',
  ['src/error_strategy.rs'], [('recover_inline, sync, recover', 'src/error_strategy.rs'), ('recovery sets', 'src/error_strategy.rs')],
  ['<DefaultErrorStrategy as ErrorStrategy>::recover_inline', '<DefaultErrorStrategy as ErrorStrategy>::recover', '<DefaultErrorStrategy as ErrorStrategy>::sync', '<DefaultErrorStrategy as ErrorStrategy>::reset', '<DefaultErrorStrategy as ErrorStrategy>::in_error_recovery_mode', '<DefaultErrorStrategy as ErrorStrategy>::report_match',
   'DefaultErrorStrategy::single_token_insertion', 'DefaultErrorStrategy::single_token_deletion', 'DefaultErrorStrategy::get_missing_symbol', 'DefaultErrorStrategy::get_error_recovery_set', 'DefaultErrorStrategy::consume_until', 'DefaultErrorStrategy::begin_error_condition', 'DefaultErrorStrategy::end_error_condition', 'DefaultErrorStrategy::new', '<DefaultErrorStrategy as Default>::default', 'DefaultErrorStrategy::get_expected_tokens'],
  observe=['tokens consumed/inserted during recovery']),

P('C22', 'Every syntax error reaches every listener once, with the right token and text',
  "Each distinct syntax error is reported exactly once to every registered listener and counted once; further errors are suppressed until a token has been matched again. "
  "A report names the offending token, its line and column, and a message of the form documented for its kind (no viable alternative, mismatched, extraneous, missing, failed predicate), with the expected tokens and escaped input text of that point. "
  "Listeners removed before the error get nothing, and an error value carries the offending token, state and message it was created with.",
  ['inputs', 'fault_sequences', 'histories'], 'all erroneous inputs and listener sets',
  'Messages of two or three errors are compared.',
  ['src/error_strategy.rs', 'src/error_listener.rs', 'src/errors.rs', 'src/parser.rs'], [('report once until match', 'src/error_strategy.rs'), ('dispatch to listeners', 'src/parser.rs'), ('error values', 'src/errors.rs')],
  ['<DefaultErrorStrategy as ErrorStrategy>::report_error', 'DefaultErrorStrategy::report_*', 'DefaultErrorStrategy::get_token_error_display', 'DefaultErrorStrategy::escape_ws_and_quote', 'DefaultErrorStrategy::begin_error_condition', '<DefaultErrorStrategy as ErrorStrategy>::report_match', 'DefaultErrorStrategy::end_error_condition',
   '<BaseParser as Parser>::notify_error_listeners', '<BaseParser as Parser>::add_error_listener', '<BaseParser as Parser>::remove_error_listeners', '<BaseParser as Parser>::get_error_lister_dispatch', '<ProxyErrorListener as ErrorListener>::syntax_error', '<ConsoleErrorListener as ErrorListener>::syntax_error', 'ErrorListener::*',
   '<*Error as Clone>::clone', '<ANTLRError as *>::*', 'ANTLRError::*', 'BaseRecognitionError::new', 'NoViableAltError::*', 'InputMisMatchError::*', 'FailedPredicateError::*', 'ParserATNSimulator::no_viable_alt'],
  observe=['listener callbacks, error count, error values']),

P('C23', 'The bail strategy stops at the first error',
  "With the bail strategy, any recognition error ends the parse with an error that wraps the original one; nothing is consumed, inserted or resynchronised in response. "
  "The wrapped error is the original error value, unchanged. "
  "Correct input parses exactly as with the default strategy.",
  ['inputs', 'fault_sequences'], 'all erroneous inputs and parser states',
  'No test uses the bail strategy on erroneous input at several nesting depths.',
  ['src/error_strategy.rs'], [('bail strategy methods', 'src/error_strategy.rs')],
  ['BailErrorStrategy::*', '<BailErrorStrategy as ErrorStrategy>::*', '<ParseCancelledError as *>::*', '<BailErrorStrategy as Default>::default'],
  observe=['result of the parse']),

P('C24', 'Predicate combinations evaluate as boolean logic in the given context',
  "For every combination of semantic and precedence predicates gathered during prediction, evaluating it equals evaluating the boolean and/or of its parts against the current parser state: an absent predicate is true, a conjunction is true exactly if all operands are, a disjunction exactly if one is, and simplification (duplicates, precedence predicates, true operands) never changes the value. "
  "Precedence predicates compare against the current precedence level, inclusive. "
  "An alternative with several predicated paths is guarded by the disjunction of their conjunctions.",
  ['inputs', 'programs'], 'all predicate combinations and precedence levels',
  'Combinations arise from ambiguity; tests reach one or two.',
  ['src/semantic_context.rs', PSIM], [('combination and evaluation', 'src/semantic_context.rs'), ('predicate collection', PSIM)],
  ['<SemanticContext as Clone>::clone', 'const SemanticContext::NONE', 'SemanticContext::*', 'semantic_context::*', 'ParserATNSimulator::get_preds_for_ambig_alts', 'ParserATNSimulator::get_predicate_predictions', 'ParserATNSimulator::eval_semantic_context', 'ParserATNSimulator::eval_predicate', 'ParserATNSimulator::pred_transition', 'ParserATNSimulator::precedence_transition', 'ParserATNSimulator::predicate_dfa_state', '<*PredicateTransition as Transition>::get_predicate', '<BaseParser as Parser>::precpred', '<BaseParser as Recognizer>::sempred', 'ParserATNSimulator::split_according*', 'ParserATNSimulator::apply_precedence_filter', 'ATNConfig::cloned_with_new_semantic', 'ATNConfig::new_with_semantic', '<SemanticContext as PartialEq>::eq'],
  observe=['alternative chosen']),

P('C25', 'Closure explores exactly the epsilon-reachable configurations',
  "For every configuration set, the parser's closure operation adds exactly the configurations reachable without consuming a token: rule calls push the return point, rule stops pop every stack alternative or, with no caller left, continue in any caller or in the full context only, and each configuration is expanded once per closure. "
  "Leaving the decision rule is counted, so that context-dependent results are marked as such. "
  "Precedence filtering keeps every first-alternative configuration whose precedence predicates hold and, of the other alternatives, drops only those with a state and stack such a configuration already has.",
  ['inputs', 'programs'], 'all automata and configuration sets, in both context modes',
  'Reaching the corner cases needs particular recursive grammars.',
  [PSIM], [('closure recursion with busy set', PSIM), ('epsilon targets', PSIM), ('loop-entry drop', PSIM), ('precedence filter', PSIM)],
  ['<ATNConfig as Clone>::clone', '<ATNConfigType as Clone>::clone', 'ParserATNSimulator::closure*', 'ParserATNSimulator::can_drop_loop_entry*', 'ParserATNSimulator::get_epsilon_target', 'ParserATNSimulator::action_transition', 'ParserATNSimulator::precedence_transition', 'ParserATNSimulator::pred_transition', 'ParserATNSimulator::rule_transition', 'ParserATNSimulator::compute_start_state', 'ParserATNSimulator::apply_precedence_filter', 'ATNConfig::*', 'ATNConfigSet::*'],
  observe=['alternatives surviving prediction']),

P('C26', 'Recognizers sharing a grammar can run concurrently',
  "Any number of recognizers of one grammar may run on different threads: every access to the shared decision caches happens under their lock, modification only under exclusive access, and a recorded state refers only to states already recorded. "
  "No lock is requested while the same thread already holds it, so recognizers cannot deadlock on their own caches. "
  "The shared automaton and context cache are usable from any thread and are not mutated outside synchronised storage.",
  ['schedules', 'histories'], 'all interleavings of any number of threads',
  'The suite runs each recognizer on one thread.',
  [PSIM, SIM, 'src/dfa.rs', 'src/prediction_context.rs'], [('read/upgradable/write lock on each cache', PSIM), ('lock per decision cache', 'src/dfa.rs'), ('lock on the shared context cache', 'src/prediction_context.rs')],
  ['Local::*', 'ScopeExt::*', 'PredictionContextCache::*', L + 'match_token', 'LexerATNSimulator::match_atn', 'LexerATNSimulator::compute_target_state', 'LexerATNSimulator::add_dfastate', 'LexerATNSimulator::add_dfaedge',
   'ParserATNSimulator::adaptive_predict', 'ParserATNSimulator::compute_target_state', 'ParserATNSimulator::add_dfastate', 'ParserATNSimulator::add_dfaedge'],
  rules=['lock_protocol', 'send_sync'],
  observe=['concurrent parses']),

P('C27', 'Wrappers and forwarding layers are transparent',
  "Using a recognizer component through any provided wrapper (boxed error strategies, borrowed token sources, typed contexts, the recognizer facades) behaves as using the wrapped component: every operation forwards to the same operation with the same arguments and returns its result. "
  "No forwarding layer drops a call or substitutes a default. "
  "Error and ambiguity reports forwarded to a group of listeners reach each of them with unchanged arguments.",
  ['inputs', 'programs', 'histories'], 'all operations of every forwarding implementation',
  'Only a few forwarded operations are exercised.',
  ['src/error_strategy.rs', 'src/token_source.rs', 'src/parser_rule_context.rs', 'src/recognizer.rs', 'src/parser.rs', 'src/error_listener.rs'], [('forwarding impls', 'src/parser_rule_context.rs')],
  ['<Box as ErrorStrategy>::*', '<&mut T as TokenSource>::*', '<T as ParserRuleContext>::*', '<T as RuleContext>::*', '<T as Tree>::*', '<T as ParseTree>::*', '<T as CustomRuleContext>::*', '<ProxyErrorListener as ErrorListener>::*',
   '<BaseParser as Recognizer>::*', '<BaseLexer as Recognizer>::*', '<BaseLexer as TokenSource>::get_*', '<BaseParser as Deref*>::*', '<BaseLexer as Deref*>::*', '<BaseParser as Parser>::get_interpreter', '<BaseParser as Parser>::get_token_factory', '<BaseLexer as Lexer>::get_interpreter', '<*Simulator as IATNSimulator>::*', 'BaseATNSimulator::*', '<X as CoerceTo>::*', '<T as RuleContextExt>::*', '<BaseParserRuleContext as RuleContext>::*', '<BaseParserRuleContext as Deref*>::*', '<BaseParserRuleContext as Borrow*>::*', 'Recognizer::*', 'Actions::*', 'recognizer::check_version', '<BaseParser as Parser>::*listener*', '<T as ParseTreeVisitor>::*', 'ParseTreeVisitorCompat::*'],
  observe=['any API call through a wrapper']),

P('C28', 'Equal values hash equally wherever they are used as keys',
  "For every type of value the runtime stores in hash-based collections, two values that compare equal have equal hashes, and equality is structural over the parts that determine behaviour. "
  "A cached hash is computed from the same parts that equality compares. "
  "Values used as keys are not modified in a way that changes their hash while they are in a collection.",
  ['inputs', 'histories'], 'all pairs of values',
  'Tests do not compare hashes of equal values.',
  ['src/atn_config.rs', 'src/atn_config_set.rs', 'src/dfa_state.rs', 'src/prediction_context.rs', 'src/semantic_context.rs', 'src/lexer_action_executor.rs'], [('Eq/Hash pairs', 'src/prediction_context.rs')],
  ['<* as Hash>::hash', '<* as PartialEq>::eq', 'ATNConfig::default_hash', 'DFAState::default_hash', 'PredictionContext::calc_hash', 'PredictionContext::hash_code', 'PredictionContext::new_*', 'LexerActionExecutor::new', 'ATNConfigSet::full_hash_key', 'ATNConfigSet::local_hash_key', 'prediction_context::opt_eq', '<MurmurHasherBuilder as BuildHasher>::build_hasher'],
  rules=['hash_eq'],
  observe=['cache hits']),

P('C29', 'Unchecked casts are always preceded by the matching kind check',
  "Every place where the runtime reinterprets a value as a more specific kind without a runtime-checked cast first establishes that kind (the transition's declared kind, the node's type identity), so no input or grammar can make it read a value as the wrong type. "
  "A typed child lookup never returns a node of another type. "
  "Lifetimes extended internally never outlive the data they refer to in the public interface.",
  ['inputs', 'programs'], 'all grammars and inputs',
  'A wrong cast may work by accident in tests.',
  ['src/transition.rs', 'src/parser_rule_context.rs', 'src/tree.rs', PSIM, SIM], [('kind-checked casts', 'src/transition.rs')],
  ['dyn Transition::cast', 'parser_rule_context::cast*', '<*Transition as Transition>::get_serialization_type', 'ParserRuleContext::child_of_type', 'ParserRuleContext::children_of_type', 'ParserRuleContext::get_token*', 'BaseParserRuleContext::copy_from'],
  rules=['unsafe_forms'],
  observe=['memory safety of typed accessors']),

P('C30', 'Results are reproducible: no dependence on addresses, time or hash seeds',
  "For every grammar and input, two runs give the same tokens, trees, predictions, error messages and diagnostic reports, in the same order. "
  "Nothing observable depends on memory addresses, the clock, thread identity, environment or the iteration order of randomly seeded collections. "
  "Order-sensitive results come only from ordered collections or order-insensitive reductions.",
  ['inputs', 'schedules', 'configurations'], 'all runs of all inputs',
  'A nondeterministic order can pass any number of test runs.',
  ['src/semantic_context.rs', 'src/prediction_mode.rs', PSIM], [('seedless hashing', 'src/prediction_context.rs')],
  ['<MurmurHasherBuilder as BuildHasher>::build_hasher', 'semantic_context::sort_prec_pred', 'semantic_context::filter_precedence_predicate', 'SemanticContext::new_and', 'SemanticContext::new_or'],
  rules=['determinism'],
  observe=['any output']),

P('C31', 'Conflict detection over configuration sets is exact',
  "For every configuration set, the conflict tests answer exactly: whether all alternatives' sets conflict, whether some state is tied to one alternative only, whether all conflicting sets are equal, and which single alternative (if any) is viable; stack-sensitive duplicates are counted per state and stack. "
  "Configurations that reached the end of the rule count as in the prediction mode in force. "
  "The set of conflicting alternatives contains exactly the alternatives present.",
  ['inputs', 'programs'], 'all configuration sets and prediction modes',
  'Ambiguity-related results are only compared for one or two grammars.',
  ['src/prediction_mode.rs', 'src/atn_config_set.rs', PSIM], [('conflict predicates', 'src/prediction_mode.rs')],
  ['prediction_mode::*', 'ParserATNSimulator::get_conflicting*', 'ParserATNSimulator::get_unique_alt', 'ATNConfigSet::get_alts', 'ATNConfigSet::get_unique_alt', 'ATNConfigSet::get_items', 'ATNConfigSet::length', 'ATNConfigSet::is_empty'],
  observe=['when prediction stops and what is reported']),

P('C32', 'Ambiguity and context diagnostics describe what prediction did',
  "Full-context attempts, context sensitivities and ambiguities are reported to listeners exactly when prediction switches to full context, resolves uniquely there, or ends in a true conflict, with the decision, the start and stop positions of the inspected input and the alternatives concerned. "
  "The diagnostic listener reports only exact ambiguities when asked to, naming the rule and the conflicting alternatives in order. "
  "Reporting has no effect on the parse.",
  ['inputs', 'programs'], 'all ambiguous and context-sensitive decisions',
  'Only one grammar in the suite triggers them.',
  [PSIM, 'src/error_listener.rs'], [('report hooks', PSIM), ('diagnostic listener', 'src/error_listener.rs')],
  ['ParserATNSimulator::report_*', 'DiagnosticErrorListener::*', '<DiagnosticErrorListener as ErrorListener>::*', '<ProxyErrorListener as ErrorListener>::report_*', 'ParserATNSimulator::exec_atn_with_full_context', 'ParserATNSimulator::exec_atn'],
  observe=['diagnostic callbacks']),

P('C33', 'Tokens and token factories preserve every field they are given',
  "For every token created through any provided factory, each field reads back exactly what it was created with, setting the index or text changes only that, and copying or converting a token to its owned form changes nothing else. "
  "Text not overridden is the input slice the offsets denote, or a fixed end-of-file marker for end-of-file. "
  "The placeholder for an invalid token is always the same invalid kind.",
  ['inputs'], 'all field values',
  'Tests read a few fields.',
  ['src/token.rs', 'src/token_factory.rs'], [('token accessors', 'src/token.rs'), ('factories', 'src/token_factory.rs')],
  ['<GenericToken as *>::*', 'Token::*', '<*TokenFactory as *>::*', '<ArenaFactory as *>::*', '<&GenericToken<*> as Default>::default', 'token_factory::Impl::*', '*INVALID_*', '*_FACTORY_DEFAULT*'],
  observe=['token fields']),

P('C34', 'Token and rule names are those of the grammar',
  "For every token type, its display name is the literal name if there is one, else the symbolic name, else its number; names of types outside the vocabulary never fail, and end-of-file has its fixed name. "
  "Vocabularies built from plain token names classify quoted names as literals and capitalised ones as symbolic. "
  "The largest token type is the largest index any name table covers.",
  ['inputs', 'configurations'], 'all name tables and token types',
  'Tests use complete name tables.',
  ['src/vocabulary.rs'], [('name tables', 'src/vocabulary.rs')],
  ['VocabularyImpl::*', '<VocabularyImpl as Vocabulary>::*', 'vocabulary::*', '<DummyVocab as Vocabulary>::*', 'IntervalSet::element_name', 'IntervalSet::to_token_string', 'IntervalSet::to_index_string'],
  observe=['messages and diagnostics']),

P('C35', 'Decision dumps list every recorded transition once',
  "Rendering a decision cache lists, for every recorded state in order, each recorded transition once with its label, source and target, marking accepting states with their prediction and states that need full context, and omits error transitions. "
  "Rendering does not modify the cache. "
  "An empty cache renders as empty text.",
  ['inputs', 'histories'], 'all caches',
  'No test renders a cache.',
  ['src/dfa_serializer.rs', 'src/dfa.rs'], [('serializer', 'src/dfa_serializer.rs')],
  ['DFASerializer::*', '<DFASerializer as Display>::fmt', 'DFA::to_string', 'DFA::to_lexer_string', '<PredPrediction as Display>::fmt', 'BaseParser::dump_dfa'],
  observe=['dump text']),
]

ASSUMPTIONS = [
 'rustc MIR of the library target (nightly front end, no optimisation) is faithful to the source; unwinding paths are not analysed',
 'standard-library and third-party operations behave as documented; calls through user-supplied traits (actions, predicates, listeners) are boundaries whose arguments, order and results are compared, not their bodies',
 'the reviewed contracts in spec/ref.json.gz state the intended behaviour (reviewed against the ANTLR 4.8 runtime and the documentation; deviations found were repaired or are listed)',
 'integer arithmetic is compared as mathematical integers except where a cast narrows',
]

RULE_TEXT = {
 'lock_protocol': 'a may-hold dataflow of lock guards through calls and closures: every lock is taken in a mode its protocol allows, never while a hold on it may be live, never released and retaken within one decision, and never bypassed',
 'send_sync': 'no assertion of thread safety the compiler cannot check, and no mutable static',
 'hash_eq': 'the fields a hash reads, through everything it calls, are among those the equality of that type compares',
 'determinism': 'no iteration of a randomly seeded collection, no clock, thread, environment or address enters a computation beyond the reviewed order-insensitive uses',
 'unsafe_forms': 'every unchecked operation or pointer reinterpretation has a reviewed form',
}

NA = [
 P('C90', 'The parser accepts exactly the language of the grammar',
   "For every grammar and input, a generated parser accepts the input exactly if the grammar derives it, resolving ambiguity to the smallest alternative.",
   ['inputs', 'programs'], 'all grammars and inputs', 'Infinite languages.', [PSIM], [('prediction', PSIM)], []),
 P('C91', 'Recognition terminates without panicking on every input',
   "For every grammar and input, lexing and parsing terminate, and return or report errors instead of aborting.",
   ['inputs', 'programs'], 'all grammars and inputs', 'Unbounded inputs.', ['src/lexer.rs', 'src/parser.rs'], [('error strategy', 'src/error_strategy.rs')], []),
 P('C92', 'Warm prediction costs one table lookup per token',
   "Once the decision cache covers an input, predicting over it performs a bounded amount of work per lookahead token and memory held is bounded by the recorded states.",
   ['inputs', 'histories'], 'all histories', 'Cost is not asserted.', [PSIM], [('edge table', PSIM)], []),
]
NA_REASON = {
 'C90': 'Equivalence of the recognized and the derived language quantifies over the fixpoint of unbounded runtime configuration sets and stacks; no static argument in reach bounds them. The procedure clauses that are visible in the code are claimed as C03, C07, C25, C31.',
 'C91': 'Termination and absence of index/unwrap/RefCell panics depend on runtime automata (edge lists, alternation counts, recursion depth) and on user callbacks; a sound static proof would need numeric invariants over deserialized data that the type system does not carry.',
 'C92': 'Cost and memory bounds are quantitative runtime properties; the structural part (edges recorded and looked up under the same index) is claimed in C08.',
}
