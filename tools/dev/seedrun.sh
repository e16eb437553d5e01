# seedrun.sh ID : run its property check against a scratch copy... uses /repo in place
id=$1; P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
git -C /repo apply /verif/seeded/$id/patch.diff && (cd /verif && python3 check.py $P quick | tail -5; echo rc=$?); git -C /repo checkout -- .
