"""Lists the fix commits of /repo in known_findings.json: tools/findings.py HASH=CNN ... (a tool for the author; no check runs it)."""
import json
import os
import subprocess
import sys

PATH = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
BASE = '2a138ce'
have = json.load(open(PATH))['findings']
props = {e['commit']: e['property'] for e in have if e['status'] == 'fixed'}
props.update(a.split('=') for a in sys.argv[1:])
out = []
for line in subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', BASE + '..HEAD'], capture_output=True, text=True).stdout.splitlines():
    h, m = line.split(' ', 1)
    if h not in props:
        print('NO PROPERTY', line)
        continue
    what = m[5:]
    out.append({'property': props[h], 'id': h, 'status': 'fixed', 'commit': h, 'what': what, 'entry': 'fixed: property={} {} {}'.format(props[h], h, what)})
with open(PATH, 'w') as f:
    json.dump({'findings': out + [e for e in have if e['status'] == 'known']}, f, indent=1)
    f.write('\n')
