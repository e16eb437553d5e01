"""rows.py FN regex [width]: rows whose condition text matches; short"""
import sys; sys.path.insert(0,'/verif/engine')
from relate import *; from policy import *
p=Program('/tmp/ref.json'); pol=Policy(p,p)
import re
for l in render(canon(Paths(p,pol).run(sys.argv[1]))):
    l=l.replace('ParserATNSimulator::','').replace('IntStream::la(Parser::get_input_stream_mut(a1.parser), 1)','LA').replace('Parser::get_input_stream_mut(a1.parser)','IN')
    if re.search(sys.argv[2],l): print(l[:int(sys.argv[3]) if len(sys.argv)>3 else 500])
