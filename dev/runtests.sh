#!/bin/bash
# Run the repository's tests and compare with the stable list.
. /opt/vp/lib/env.sh >/dev/null 2>&1
bash /opt/vp/test.sh /tmp/t_$$.json > /tmp/t_$$.log 2>&1
python3 - /tmp/t_$$.json <<'P'
import json, sys
b = set(json.load(open('/opt/vp/BASELINE.json'))['stable']); t = json.load(open(sys.argv[1]))
m = sorted(b - set(t['passed'])); print('missing', len(m), m[:10])
P
rm -f /tmp/t_$$.json /tmp/t_$$.log
