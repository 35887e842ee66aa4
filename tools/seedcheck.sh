#!/bin/bash
# seedcheck.sh ID...: confirm planted changes in scratch copies of /repo:
# the patch applies, demo passes without and fails with it, stable tests pass.
export PATH=/opt/venv/bin:/usr/local/bin:/usr/bin:/bin
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MPLBACKEND=Agg
one() {
  id=$1; sd=/verif/seeded/$id; W=/tmp/seed-$id
  rm -rf "/tmp/seed-$id"; cp -a /repo "$W"; cd "$W" || exit 1
  export PYTHONPATH=$W
  bash "$sd/demo.sh" >"$W.log" 2>&1; a=$?
  git apply "$sd/patch.diff" || { echo "$id: patch does not apply"; rm -rf "/tmp/seed-$id"; return; }
  if git diff --name-only | grep -q pyx; then sed "s#/repo#$W#g" /opt/vp/build_repo.py > "$W/_b.py"; python -W ignore "$W/_b.py" >>"$W.log" 2>&1; fi
  bash "$sd/demo.sh" >>"$W.log" 2>&1; b=$?
  t=skipped
  if [ -z "$NOTEST" ]; then
    python -m pytest -q -p no:cacheprovider -n ${NJ:-4} --timeout=600 --disable-warnings --tb=line --continue-on-collection-errors --doctest-glob='*.rst' -o junit_family=xunit2 --junitxml="$W/j.xml" pystruct doc >>"$W.log" 2>&1
    sed "s#/repo#$W#g" /opt/vp/results.py > "$W/_r.py"
    python3 "$W/_r.py" "$W/r.json" "junit:$W/j.xml" >>"$W.log" 2>&1
    t=$(python3 - "$W/r.json" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open(sys.argv[1]))
def names(x,k):
    v=x.get(k,x) if isinstance(x,dict) else x
    return v
base=set(b.get('stable') or b.get('passed') or b.get('pass') or b)
ok=set(r.get('passed') or r.get('pass') or [])
miss=sorted(base-ok)
print("tests-ok(%d)"%len(base) if not miss else "TESTS-FAIL %s"%miss[:3])
P
)
  fi
  echo "$id: demo unchanged=$a patched=$b $t"
  rm -rf "/tmp/seed-$id"
}
for i in "$@"; do one "$i"; done
