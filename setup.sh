#!/bin/bash
# build every harness variant once (each check rebuilds what it needs anyway)
cd "$(dirname "$0")" || exit 2
. ./env.sh
for f in $(python3 -c '
import json,re
m=json.load(open("MANIFEST.json"))
print(" ".join(sorted({c["quick_cmd"].split()[3] for c in m["checks"]})))'); do
  build_harness "$f" || exit 2
done
