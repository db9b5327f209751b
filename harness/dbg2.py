import json, tlc, sys, time
s=json.load(open('/tmp/dbg.json'))[0]
for k in map(int, sys.argv[1:]):
    t=dict(s, ev=s['ev'][:k]); t0=time.time(); r=tlc.validate([t],timeout=40,workers=1); print(k, s['ev'][k-1]['op'], r[:3], round(time.time()-t0,1), flush=True)
