#!/bin/bash
# tlcrun.sh MODULE [CFG]: run TLC on a module of spec/ by hand
cd /verif/spec || exit 1
m=$1; c=${2:-$1}
d=$(mktemp -d)
java -XX:+UseParallelGC -Xss512m -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -noGenerateSpecTE -workers 8 -metadir $d -config $c.cfg $m.tla | grep -v "^Parsing\|^Semantic\|^Linting\|^TLC2\|^Running\|^Starting\|^Comput\|^Estimates"
rm -rf "$d"
