#!/bin/bash
# development aid: run.sh SLICE [vx args]: extract one slice and verify it
cd /verif; S=$1; shift; mkdir -p .work; : > .work/$S.log
.build/vx/release/vx --src /repo/src --contracts contracts --slice $S --out .work/$S.rs --map .work/$S.json "$@" && verus .work/$S.rs --triggers-mode silent --multiple-errors 20 --expand-errors > .work/$S.log 2>&1; grep -A${A:-4} "^error\|✘\|verification res" .work/$S.log
