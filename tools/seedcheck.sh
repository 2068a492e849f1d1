#!/bin/bash
# seedcheck.sh [-j N]: run, for every planted bug, the quick check of its property against a scratch copy with the patch applied
J=${2:-4}
one() { b=$1; d=/tmp/sc_$b; rm -rf "$d"; mkdir -p "$d"; cp -a /repo/coax "$d/coax"; (cd "$d" && git init -q . && git apply "/verif/seeded/$b/patch.diff") || { echo "$b APPLY FAILED"; rm -rf "$d"; return; }
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$b/meta.json'))['property'])")
  (cd /verif && COAX_REPO=$d VERIF_OUT=$d ./run "$p" > "$d/log" 2>&1); rc=$?; echo "$b $p rc=$rc $([ $rc = 1 ] && echo caught || echo '*** NOT CAUGHT')"; rm -rf "$d"; }
export -f one
ls /verif/seeded | xargs -P "$J" -I{} bash -c 'one {}'
