# t4.sh PROP seed cases
cd /verif/harness; for c in hm p h m; do target.$c/release/spdmmon $1 --seed ${2:-1} --cases ${3:-400} --secs 20 > /tmp/o.json && python3 /verif/tools/show.py /tmp/o.json | cut -c1-${4:-900}; done
