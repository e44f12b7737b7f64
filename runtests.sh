bash /opt/vp/test.sh /tmp/o.json 2>&1 | tail -1; python3 - <<'E'
import json
o=json.load(open('/tmp/o.json')); b=json.load(open('/opt/vp/BASELINE.json'))
print('FAILED',o['failed'], 'missing', [x for x in b['stable'] if x not in o['passed']][:5])
E
