import sys; sys.path.insert(0,'/tmp')
from genlib import *
import re
def B(n,*c): E(n,*c,kind='B')
B('k-max-edge',('lexer_atn_simulator.rs','pub const MAX_DFA_EDGE: isize = 127;','pub const MAX_DFA_EDGE: isize = 128;'))
B('k-min-edge',('lexer_atn_simulator.rs','pub const MIN_DFA_EDGE: isize = 0;','pub const MIN_DFA_EDGE: isize = 1;'))
B('k-maxchar',('lexer.rs','LEXER_MAX_CHAR_VALUE: isize = 0x10FFFF;','LEXER_MAX_CHAR_VALUE: isize = 0xFFFF;'))
B('k-skip',('lexer.rs','pub const LEXER_SKIP: isize = -3;','pub const LEXER_SKIP: isize = -2;'))
B('k-eps',('token.rs','pub const TOKEN_EPSILON: isize = -2;','pub const TOKEN_EPSILON: isize = -3;'))
B('k-empty',('prediction_context.rs','PREDICTION_CONTEXT_EMPTY_RETURN_STATE: isize = 0x7FFFFFFF','PREDICTION_CONTEXT_EMPTY_RETURN_STATE: isize = 0x7FFF'))
B('k-acttype',('lexer_action.rs','LEXER_ACTION_TYPE_SKIP: isize = 6;','LEXER_ACTION_TYPE_SKIP: isize = 7;'),('lexer_action.rs','LEXER_ACTION_TYPE_TYPE: isize = 7;','LEXER_ACTION_TYPE_TYPE: isize = 6;'))
B('k-trans',('transition.rs','TRANSITION_SET: isize = 7;','TRANSITION_SET: isize = 8;'),('transition.rs','TRANSITION_NOTSET: isize = 8;','TRANSITION_NOTSET: isize = 7;'))
B('k-state',('atn_state.rs','ATNSTATE_STAR_LOOP_BACK: isize = 9;','ATNSTATE_STAR_LOOP_BACK: isize = 11;'),('atn_state.rs','ATNSTATE_PLUS_LOOP_BACK: isize = 11;','ATNSTATE_PLUS_LOOP_BACK: isize = 9;'))
B('k-invalid',('interval_set.rs','INVALID: Interval = Interval { a: -1, b: -2 }','INVALID: Interval = Interval { a: -1, b: -1 }'))
B('k-uuidorder',('atn_deserializer.rs',"re:(static ref SUPPORTED_UUIDS: Vec<Uuid> = vec!\\[\\s*)(\\*\\w+),(\\s*)(\\*\\w+),",r'\1\4,\3\2,'))
B('k-hidden',('token.rs','TOKEN_HIDDEN_CHANNEL: isize = 1;','TOKEN_HIDDEN_CHANNEL: isize = 2;'))
B('k-minuser',('token.rs','TOKEN_MIN_USER_TOKEN_TYPE: isize = 1;','TOKEN_MIN_USER_TOKEN_TYPE: isize = 0;'))
B('k-none',('semantic_context.rs',"re:(pub const NONE: SemanticContext = SemanticContext::Predicate \\{\\s*rule_index: )-1",r'\g<1>0'))
s=open('/repo/src/token_factory.rs').read(); i=s.index('INVALID_OWNING'); print(s[i:i+600])
dump('/tmp/ed/m3.txt')
