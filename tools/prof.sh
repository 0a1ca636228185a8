#!/bin/bash
# prof.sh ID entry [budget]: where the paths fork and which queries are slow
cd /verif; W=$(mktemp -d /tmp/prof.XXXX); SE_KEEP=1 SE_BUDGET=1 python3 tools/check.py run $1 ${T:+--tier $T} >/dev/null 2>&1; mv build/run/$1.*/* $W; rm -rf build/run/$1.*
mkdir $W/o
SYMX_FORKS=1 SYMX_SLOW=0.3 build/symx --bc $W/prog.bc --out $W/o --budget ${3:-30} --jobs 8 --entry $2 2>$W/err
grep "slow query" $W/err | sed 's/.*at //' | sort | uniq -c | sort -rn | head -12
grep ^FORK $W/err | awk '{n=$2; $1="";$2=""; a[$0]+=n} END {for (x in a) print a[x], x}' | sort -rn | head -${4:-30}
python3 -c "
import json,glob
t={}
for f in glob.glob('$W/o/res.*.json'):
    for k,v in json.load(open(f)).items():
        if isinstance(v,(int,float)) and not isinstance(v,bool): t[k]=t.get(k,0)+v
print({k:t[k] for k in ('paths','forks','queries','solved','dl','dl_checked','solver_s','unexplored','instructions') if k in t})"
rm -rf "$W"
