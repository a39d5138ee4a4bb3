# mk.sh ID PROP : takes /tmp/seed/body.rs (fn main) and the diff in /repo's working tree
set -e
cat /tmp/seed/common.rs /tmp/seed/body.rs > /tmp/seed/main.rs
git -C /repo diff > /tmp/seed/patch.diff; git -C /repo checkout -- .
mkdir -p /verif/seeded; bash /verif/tools/mkseed.sh $1 $2
