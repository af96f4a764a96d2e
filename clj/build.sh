#!/bin/bash
# build the interpreter into $1 (default /verif/.build/clj)
OUT=${1:-/verif/.build/clj}
mkdir -p "$OUT" && cd "$(dirname "$0")/src/clojure/lang" && javac -nowarn -Xlint:none -d "$OUT" *.java 2>&1 | grep -v '^Note:'
exit ${PIPESTATUS[0]}
