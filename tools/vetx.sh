#!/bin/bash
# vetx.sh ID [PROP...]: as vet.sh, but in copies below /tmp/vx (of /repo's HEAD and of /verif's working tree), so that /repo stays as it is
id=$1; shift; d=/verif/seeded/$id
X=/tmp/vx; R=$X/repo; V=$X/verif; mkdir -p $X
[ -d $R ] || git clone -q /repo $R
git -C $R checkout -q -- . && git -C $R pull -q
mkdir -p $V; for f in build.sh check.sh known_findings.json MANIFEST.json properties.jsonl regress sim; do cp -a /verif/$f $V/; done
[ -d $V/target ] || cp -a /verif/target $V/
sed "s|\"/repo\"|\"$R\"|" /verif/sim/harness/Cargo.toml > $V/c.toml; cmp -s $V/c.toml $V/sim/harness/Cargo.toml || cp $V/c.toml $V/sim/harness/Cargo.toml
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
mkdir -p $X/demo && cp $d/* $X/demo/ && sed -i "s|/repo|$R|g" $X/demo/demo.sh
[ -n "$SKIPCLEAN" ] || { (cd $R && bash $X/demo/demo.sh >$X/demo.clean 2>&1); echo "demo clean: $?"; }
git -C $R apply $d/patch.diff || exit 9
trap "git -C $R checkout -q -- ." EXIT
(. /opt/vp/env.sh; cd $R && CARGO_TARGET_DIR=$X/t cargo test --workspace --offline --features json --no-fail-fast -- --test-threads 8 >$X/test.log 2>&1); grep -h "^test result" $X/test.log | awk '{p+=$4;f+=$6} END {print p" passed, "f" failed"}'
(cd $R && bash $X/demo/demo.sh >$X/demo.bug 2>&1); echo "demo bug: $?"; tail -3 $X/demo.bug
for p in ${@:-$prop}; do
  out=$(WZSIM_NO_EVIDENCE=1 VERIF_SEED=1 bash $V/check.sh $p quick 2>&1); echo "$p: exit $?"; echo "$out" | grep -a -E "VIOLATION|^  |^[a-z-]*: " | cut -c1-250 | head -3
done
