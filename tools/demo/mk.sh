#!/bin/bash
# mk.sh ID: makes /verif/seeded/ID from /repo's uncommitted change; lays the demo's common files beside main.rs
d=/verif/seeded/$1; mkdir -p $d
git -C /tmp/wt diff > $d/patch.diff; git -C /tmp/wt checkout -q -- .
cp /verif/tools/demo/demo.sh $d/
python3 - $d <<'P'
import sys
s=open('/verif/sim/harness/src/gen.rs').read()
r=open('/verif/sim/simstd/sim.rs').read()
a=r.index('pub struct Rng'); a=r.rindex('\n\n',0,a) if '\n\n' in r[:a] else 0
b=r.index('#[derive(Clone, Debug)]\npub enum Policy')
s=s.replace('use simstd::sim::Rng;', '').replace('use crate::snow2','use crate::snow2')
i=s.index('use aes')
open(sys.argv[1]+'/gen.rs','w').write('#![allow(dead_code, unused)]\n'+s+'\n'+r[a:b])
P
cp /verif/sim/harness/src/snow2.rs $d/
