"""Rewrite the "fixed" list of known_findings.json from the fix: commits of /repo (run by hand after a repair)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = '14bc1c4'
# first commit of each block of repairs, in order of the history -> property
BLOCKS = [('dfbea2c', 'P01'), ('2138680', 'P01'), ('62b7eef', 'P02'), ('2e06c7d', 'P01'), ('6ac513f', 'P02'), ('b22beff', 'P01'), ('7c80d9b', 'P02'), ('54f9948', 'P01'), ('93b7c7c', 'P02'), ('7d53fab', 'P03'),
          ('4938aef', 'P04'), ('d2b98a6', 'P05'), ('42461bf', 'P06'), ('46fab60', 'P07'), ('0c46e12', 'P08'), ('8667194', 'P09'), ('fd6f574', 'P11'), ('f080894', 'P10'), ('b496265', 'P13'), ('f335e8e', 'P12'),
          ('b02dd34', 'P14'), ('cd59868', 'P15'), ('53dd549', 'P14'), ('5add1e7', 'P15'), ('a212cfc', 'P16'), ('37fa13c', 'P17'), ('ca287d4', 'P18'), ('38f3b79', 'P19'), ('18c69d3', 'P20'), ('2d6a409', 'P21'),
          ('46ba17d', 'P20'), ('e2241eb', 'P21'), ('eb197c2', 'P22'), ('5430ba0', 'P23'), ('c17de07', 'P24'), ('ca3a0f9', 'P25'), ('c2ff2d7', 'P26'), ('734c3ab', 'P28'), ('ca5599d', 'P12'), ('682d799', 'P27'), ('c73b965', 'P28'), ('a6d9d9c', 'P09'), ('64edf1f','P10'), ('8957ad7', 'P17')]
first = dict(BLOCKS)
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', BASE + '..HEAD'], capture_output=True, text=True, check=True).stdout
out, cur = [], 'P01'
for line in log.splitlines():
    h, s = line.split(' ', 1)
    if not s.startswith('fix: '):
        continue
    cur = first.get(h[:7], cur)
    out.append('fixed: property=%s %s %s' % (cur, h[:7], s[5:]))
p = os.path.join(V, 'known_findings.json')
d = json.load(open(p))
d['fixed'] = out
json.dump(d, open(p, 'w'), indent=1)
print(len(out))
