#!/bin/bash
# dev helper: r.sh PROP [scale] [repo]
cd /verif/replay && CARGO_NET_OFFLINE=true RUSTFLAGS=-Awarnings cargo build -q --offline --features ${F:-base} --target-dir /verif/build/r-${F:-base} || exit 1
rm -f /tmp/r.json; /verif/build/r-${F:-base}/debug/vx-replay $1 ${S:-1} ${2:-1} /tmp/r.json 2>/tmp/r.err; python3 -c "
import json;d=json.load(open('/tmp/r.json'));print(d['evaluations'],d['distinct'],len(d['violations']))
for v in d['violations'][:12]: print(v['key'],'|',v['case'][:400],'\n   want',v['expected'][:500],'\n   got ',v['got'][:500])"
