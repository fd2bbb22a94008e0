#!/bin/bash
# dev helper: try.sh tu seconds [driver args]
tu=$1; t=${2:-10}; shift 2
bash /verif/build1.sh $tu || exit 2
cd /verif/build/dev3 && ./$tu search --prop DEV --time $t --replay-out /tmp/$tu.replay --out /tmp/$tu.json "$@"
python3 - <<P
import json
d=json.load(open('/tmp/$tu.json'))
print({k:v for k,v in d.items() if k in('probes','ignored','given_up','max_used')})
P
