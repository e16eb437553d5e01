# regression over all edit files
cd /verif; bash /tmp/self.sh 2>&1 | tail -3
for f in ${@:-r1 b1 r2 r3}; do echo "== $f"; python3 /tmp/mt.py /tmp/ed/$f.txt 2>&1 | tail -60 | cut -c1-${W:-300} | grep -v 'ok B'; done
