cd /verif && python3 -c "
import sys; sys.path.insert(0,'engine')
import time; t=time.time()
from checker import run_all
r=run_all('/tmp/ref.json', open('/tmp/ref.json').read())
print(len(r), time.time()-t)
for x in r[:20]: print(x[:600])
"
