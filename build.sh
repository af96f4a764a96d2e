#!/bin/bash
# Builds limabean-pod and limabean from /repo's working tree into /verif/.build/target/release.
. "$(dirname "$0")/env.sh"
mkdir -p /verif/.build
exec 9>/verif/.build/lock; flock 9
cd /repo/rust || exit 1
# never trust mtimes of a working tree that may have been rewritten: always recompile the limabean crate itself
rm -rf "$CARGO_TARGET_DIR"/release/.fingerprint/limabean-????????????????
cargo build --release --locked --offline --bins >/verif/.build/build.log 2>&1 || { tail -40 /verif/.build/build.log >&2; exit 1; }
# the interpreter for the Clojure half (its own sources are in /verif/clj and rarely change)
H=$(cat /verif/clj/src/clojure/lang/*.java | sha256sum)
if [ "$(cat /verif/.build/clj/stamp 2>/dev/null)" != "$H" ]; then
    rm -rf /verif/.build/clj && bash /verif/clj/build.sh /verif/.build/clj && echo "$H" >/verif/.build/clj/stamp || exit 1
fi
