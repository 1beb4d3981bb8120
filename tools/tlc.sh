#!/bin/bash
# usage tlc.sh Module cfg [args]
d=$(mktemp -d /tmp/tlcXXXX); cp /verif/specs/* $d; cd $d; M=$1; C=$2; shift 2
java -Xmx6g -Xss16m -XX:+UseParallelGC -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -metadir $d/m -noGenerateSpecTE -config $C "$@" $M.tla; rm -rf $d
