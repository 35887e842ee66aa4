#!/bin/bash
# catch.sh ID...: which planted changes does their property's check report?
for id in "$@"; do
  s=/verif/seeded/$id; W=/tmp/wt-$id
  p=${PROP:-$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")}
  rm -rf "/tmp/wt-$id"; mkdir "$W"; cp -a /repo/pystruct /repo/src "$W/"
  (cd "$W" && patch -p1 -s < "$s/patch.diff")
  PA_REPO=$W PA_EVID=/tmp/wt-$id/ev timeout 600 python3 /verif/run.py $p > /tmp/catch-$id.log 2>&1; rc=$?
  echo "$id $p rc=$rc $(grep -c '^VIOLATION' /tmp/catch-$id.log) $(grep -B1 -m1 '^VIOLATION' /tmp/catch-$id.log | head -1 | cut -c1-180)"
  rm -rf "/tmp/wt-$id"
done
