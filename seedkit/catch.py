"""catch.py [ids]: which checks report each planted bug (applies it to /repo, runs all checks, undoes it)."""
import os, re, subprocess, sys, time
ids = sys.argv[1:] or sorted(os.listdir('/verif/seeded'))
import json
for i in ids:
    d = f'/verif/seeded/{i}'
    pid = json.load(open(d + '/meta.json'))['property']
    r = subprocess.run(['git', '-C', '/repo', 'apply', d + '/patch.diff'], capture_output=True, text=True)
    if r.returncode:
        print(i, 'does not apply', r.stderr[:200])
        continue
    t = time.time()
    try:
        r = subprocess.run(['python3', '/verif/sa/check.py', 'all'], capture_output=True, text=True, cwd='/verif')
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
    hit = sorted(set(re.findall(r'VIOLATION property=(\S+)', r.stdout)))
    print(f'{i:32s} {pid} {"CAUGHT" if pid in hit else "missed"} by {" ".join(hit)} ({time.time()-t:.0f}s)' + ('' if hit else ' ' + r.stderr[-300:]), flush=True)
