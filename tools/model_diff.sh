#!/bin/bash
# differential test of the libm4ri model against the installed library (tools/model_diff.c)
set -e; cd "$(dirname "$0")/.."; D=$(mktemp -d); trap 'find "$D" -delete' EXIT
gcc -O1 -g -w -I m4ri_model/include -DMODEL_DIFF -c m4ri_model/m4ri_model.c -o $D/m.o
nm --defined-only $D/m.o | awk '$2=="T"||$2=="D"||$2=="B"{print $3" model_"$3}' > $D/syms
objcopy --redefine-syms=$D/syms $D/m.o
gcc -O1 -g -w tools/model_diff.c $D/m.o -o $D/t -lm4ri -lm; $D/t ${1:-20000} 2>/dev/null
