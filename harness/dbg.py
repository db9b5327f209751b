"""python dbg.py PID i [timeout]: run one session, show its verdict."""
import sys, json, main, tlc
pid, i = sys.argv[1], int(sys.argv[2])
s = main.one((pid, '1', i, 'quick'))
json.dump([s], open('/tmp/dbg.json', 'w'))
for k, e in enumerate(s['ev'], 1): print(k, json.dumps(e)[:300])
r = tlc.validate([s], timeout=int(sys.argv[3]) if len(sys.argv) > 3 else 60, workers=1)
print(r)
