"""addfixed.py PROP 'substring of commit message=>what failed' ... : list fixes before the open findings"""
import os, subprocess, sys
log = [l.split(" ", 1) for l in subprocess.run("git -C %s log --oneline -60" % os.environ.get('VERIF_REPO','/repo') + "", shell=True, capture_output=True, text=True).stdout.strip().split("\n")]
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.txt')
t = open(p).read().rstrip("\n").split("\n")
k = next((i for i, l in enumerate(t) if l.startswith("{")), len(t))
new = []
for a in sys.argv[2:]:
    m, w = a.split("=>")
    h = [x[0] for x in log if m in x[1]]
    assert len(h) == 1, (m, h)
    new.append("fixed: property=%s %s %s" % (sys.argv[1], h[0], w))
t[k:k] = new
open(p, 'w').write("\n".join(t) + "\n")
