#!/bin/sh
# tlc.sh ARGS... : TLC with the word overrides on the class path
V=$(cd "$(dirname "$0")/.." && pwd)
CP=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
exec java ${TLC_JAVA_OPTS:--Xmx3g -XX:+UseParallelGC} -Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:KripOver \
  -DTLA-Library="$V/spec:$V/spec/hash:$V/spec/cipher:$V/spec/stream" -cp "$V/build/cls:$CP" tlc2.TLC "$@"
