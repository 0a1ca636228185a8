#!/bin/bash
# dumpq.sh ID entry [budget]: dump the queries left to Z3
cd /verif; W=$(mktemp -d /tmp/prof.XXXX); SE_KEEP=1 SE_BUDGET=1 python3 tools/check.py run $1 ${T:+--tier $T} >/dev/null 2>&1; mv build/run/$1.*/* $W; rm -rf build/run/$1.*
mkdir -p $W/o /tmp/dumpq; rm -f /tmp/dumpq/*
SYMX_DLSAMPLE=1000000000 SYMX_DUMP=/tmp/dumpq SYMX_DUMPT=0 build/symx --bc $W/prog.bc --out $W/o --budget ${3:-15} --jobs 8 --entry $2 2>$W/err
rm -rf "$W"; ls /tmp/dumpq | wc -l
