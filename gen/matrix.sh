#!/bin/bash
# runs each planted bug against the check of its property; prints caught / MISSED
cd /verif/seeded; if [ -d /tmp/reposnap ]; then export VERIF_SRC=/tmp/reposnap; fi
for s in ${*:-*}; do p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])"); r=$(bash /verif/mut.sh $s/patch.diff $p); if echo "$r" | grep -q "^VIOLATION"; then echo "caught $s"; else echo "MISSED $s $r"; fi; done
