import sys; sys.path.insert(0,'/tmp')
from genlib import *
def B(n,*c): E(n,*c,kind='B')
D='atn_deserializer.rs'
B('u-drop',(D,'''        *ADDED_LEXER_ACTIONS,
        *ADDED_UNICODE_SMP,''','''        *ADDED_UNICODE_SMP,'''))
B('u-str',(D,'"59627784-3BE5-417A-B9EB-8131A7286089"','"59627784-3BE5-417A-B9EB-8131A7286088"'))
B('u-str2',(D,'re:(ADDED_LEXER_ACTIONS: Uuid =\\s*Uuid::from_str\\(")A',r'\1B'))
dump('/tmp/ed/m4.txt')
