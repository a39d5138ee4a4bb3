# developer build: main configuration only
. /verif/tools/env.sh; cd /verif/harness; cargo build --offline --release --features hashed,mutauth --target-dir target.hm 2>&1 | grep -E "^error" -A6 | head -${1:-40}
