# t.sh PROP [seed] [cases] : run in the main configuration and summarise
cd /verif/harness; target.hm/release/spdmmon $1 --seed ${2:-1} --cases ${3:-400} --secs 20 > /tmp/o.json && python3 /verif/tools/show.py /tmp/o.json | cut -c1-1200
