#!/bin/bash
# dev helper: build a feature and run checks: b.sh feature ID...
cd /verif; . ./env.sh
f=$1; shift
( cd mc && cargo build --release --offline --no-default-features --features $f >/tmp/hb.log 2>&1 ) || { grep -A12 -E "^error" /tmp/hb.log | head -${LINES_MAX:-70}; exit 1; }
cp target/release/mc target/bin/mc-$f
for i in "$@"; do timeout ${TO:-900} target/bin/mc-$f check $i 2>&1 | cut -c1-${W:-420}; done
