#!/bin/bash
# development: proof only, kept scratch, full verifier output of unit $2
export VP_SCRATCH=/tmp/vs
cd /verif; VP_NO_NATIVE=1 python3 vp/check.py $1 | grep -v "no answer"
if [ -n "$2" ]; then cd /tmp/vs && verus $1_$2.rs --triggers-mode silent --multiple-errors 10 ${@:3} 2>&1 | head -${LINES_MAX:-100}; fi
true
