"""summary of a harness run: rts.py c07 [args]"""
import json, os, subprocess, sys
out = f"/tmp/rts_{sys.argv[1]}_{os.getpid()}.json"
r = subprocess.run(["/verif/run_rt.sh"] + sys.argv[1:] + ["--out", out], capture_output=True, text=True)
try:
    d = json.load(open(out))
    os.remove(out)
    print(sys.argv[1:], d['inputs'], d['checks'], d['times'], d['wall_s'], 'skipped', len(d['skipped']))
    for v in d['violations'][:6]:
        print(json.dumps(v)[:600])
except Exception:
    print(r.stdout[-2000:], r.stderr[-3000:])
