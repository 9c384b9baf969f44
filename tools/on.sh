#!/bin/bash
# on.sh ID ARGS...: run gosym on a copy with the planted bug
id=$1; shift
python3 - "$id" <<'P'
import sys; sys.path.insert(0,'/verif/tools')
import seeds, seedlib
d=seedlib.copy(sys.argv[1]); seedlib.apply(d, seeds.S[sys.argv[1]][1])
P
GOSYM_REPO=/tmp/seed-$id GOSYM_VERIF=/verif /verif/bin/gosym "$@"
rm -rf /tmp/seed-$id
