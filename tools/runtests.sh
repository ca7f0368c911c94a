#!/bin/bash
# full build and stable tests of /repo's working tree; last line says whether the stable ones pass
bash /opt/vp/test.sh /var/tmp/t.json > /var/tmp/test.log 2>&1
python3 - <<'P' | tee -a /var/tmp/test.log
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/var/tmp/t.json'))
m=[x for x in b['stable'] if x not in set(t['passed'])]
print('tests:', 'ok' if not m else 'BROKEN %d %s' % (len(m), m[:6]))
P
