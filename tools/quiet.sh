#!/bin/bash
# runs checks against a scratch copy of /repo which behaves the same: usage: quiet.sh WORKDIR (holding repo/, a changed copy) [CHECK...]. All have to be quiet.
W=$1; shift; R=$W/repo; V=$W/verif
rm -rf "$V"; git clone -q /verif "$V"; cp -a /verif/mc "$V"/; cp -a /verif/.build "$V"/.build
cd "$V" && sed -i "s#/verif\b#$V#g; s#/repo\b#$R#g" env.sh build.sh check.sh mc/launch.py mc/clj.py clj/*.sh
. ./env.sh; ./build.sh || exit 2
[ $# -gt 0 ] || set -- $(ls mc/checks | sed -n 's/^c\([0-9]*\)\.py/C\1/p')
for c; do
    o=$(timeout 900 python3 -m mc.main "$c" 2>&1); rc=$?
    echo "$c rc=$rc $(echo "$o" | grep -v KNOWN-FINDING | grep -aE 'quick|VIOLATION|INCOMPLETE|Error' | cut -c1-200 | tr '\n' '|')"
    [ $rc = 0 ] || echo "$o" | cut -c1-700 | head -8
done
