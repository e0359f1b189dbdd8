#!/bin/bash
# tlcx.sh MODULE CONST=VALUE... : TLC with extra constants
cd /verif/spec; m=$1; shift
c=$(mktemp /tmp/tlcx.XXXX.cfg); cat $m.cfg > $c
for x in "$@"; do echo "CONSTANT ${x%%=*} = ${x#*=}" >> $c; done
timeout 600 java -XX:+UseParallelGC -Xmx8g -Xss16m -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -workers 4 -metadir /tmp/tlcx.meta.$$ -noGenerateSpecTE -config $c $m.tla 2>&1 | grep -vE "^(TLC2|Running|Parsing|Semantic|Starting|Computing|Linting|Warning: Please|\(Use)" | tail -${TAIL:-25}
