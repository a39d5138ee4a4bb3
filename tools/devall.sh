. /verif/tools/env.sh; cd /verif/harness
b() { cargo build --offline --release ${2:+--features $2} --target-dir target.$1 2>&1 | grep -E "^error" -A6 | head -20; }
b hm hashed,mutauth; b p "" & b h hashed & b m mutauth & wait
