#!/bin/bash
# mkdemo.sh ID 'g++ arguments after the program' [shim]: main.cpp from stdin
D=/verif/seeded/$1; mkdir -p $D; cat > $D/main.cpp
{ cat /verif/meta/demo_head.sh; echo "cc \"\$H/main.cpp\" $2 -o \"\$W/demo\" || exit 3"; echo 'timeout 250 "$W/demo"'; } > $D/demo.sh
mkdir -p $D/shim; cp -r /verif/shim/. $D/shim/
