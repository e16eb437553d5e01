cd /verif && VERIF_BUILD=/tmp/vb python3 engine/extract.py /repo > /tmp/ref.json && gzip -9nc /tmp/ref.json > spec/ref.json.gz && python3 tools/gen.py && python3 /tmp/cov.py | head -3
