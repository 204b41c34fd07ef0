#!/bin/bash
# t.sh ID [seeds...]: run a check on several seeds, stop at the first failure
cd "$(dirname "$0")/.."; id=$1; shift
python3 tools/tlax.py && python3 tools/catalog.py >/dev/null || exit 1
for s in ${@:-1 2 3}; do VERIF_SEED=$s ./check.py $id > /tmp/t.$id.out 2>&1; r=$?; head -c 3000 /tmp/t.$id.out; [ $r = 0 ] || exit $r; done
