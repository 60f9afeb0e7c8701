#!/bin/bash
# vet.sh ID [PROP...]: with the planted bug ID: builds, tests, demo both ways, and which checks catch it. Restores /repo.
id=$1; shift; d=/verif/seeded/$id
cd /repo; [ -z "$(git status --porcelain)" ] || { echo "/repo is not clean"; exit 9; }
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
[ -n "$SKIPCLEAN" ] || { bash $d/demo.sh >/tmp/demo.clean 2>&1; echo "demo clean: $?"; }
git apply $d/patch.diff || exit 9
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh >/tmp/vet.build 2>&1 || { echo "DOES NOT BUILD"; tail -20 /tmp/vet.build; exit 9; }
bash /opt/vp/test.sh /tmp/o.json | tail -1
bash $d/demo.sh >/tmp/demo.bug 2>&1; echo "demo bug: $?"; tail -3 /tmp/demo.bug
for p in ${@:-$prop}; do
  out=$(WZSIM_NO_EVIDENCE=1 VERIF_SEED=1 bash /verif/check.sh $p quick 2>&1); echo "$p: exit $?"; echo "$out" | grep -a -E "VIOLATION|^  " | cut -c1-250 | head -3
done
