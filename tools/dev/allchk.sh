# run every check on /repo
cd /verif; for i in $(python3 -c "
import json;print(' '.join(c['property'] for c in json.load(open('MANIFEST.json'))['checks']))"); do echo $i; done | xargs -P8 -I{} sh -c 'python3 check.py {} '${1:-quick}' > /tmp/out.{} 2>&1; echo "{} rc=$? $(grep -c VIOLATION /tmp/out.{}) $(tail -1 /tmp/out.{} | cut -c1-150)"'
