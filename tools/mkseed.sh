#!/bin/bash
# mkseed.sh ID PROPERTY : makes /verif/seeded/ID from /tmp/seed/{patch.diff,main.rs,meta.json,features}
set -e
S=/verif/seeded/$1; mkdir -p $S/src
cp /tmp/seed/patch.diff /tmp/seed/meta.json $S/
cp /verif/tools/demokit/demo.sh $S/demo.sh; chmod +x $S/demo.sh
for f in util alloc world sim ops model gen mon; do cp /verif/harness/src/$f.rs $S/src/; done
cp /tmp/seed/main.rs $S/src/main.rs; cp /verif/harness/Cargo.lock $S/
cp /tmp/seed/features $S/ 2>/dev/null || echo "hashed,mutauth" > $S/features
