#!/bin/bash
# run a Clojure script on the interpreter: clj/run.sh FILE ARGS…
R=${REPO:-/repo}; export PATH=${POD_DIR:-/repo/rust/target/debug}:$PATH
exec java -Xss1g -Xlog:disable -Xlog:all=warning:stderr -XX:-UsePerfData -XX:+UseSerialGC -XX:TieredStopAtLevel=4 -Dclj.trace=$CLJ_TRACE -Dclj.path=/verif/clj/lib:$R/clj/src:$R/clj/resources:$R/clj/test-plugins/src:$R/clj-test/src:$R/clj/test -cp ${CLJ_CLASSES:-/verif/.build/clj} clojure.lang.Main "$@"
