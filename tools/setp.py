"""setp.py ID < new-statement : replace the statement of a property in properties_table.py (optional 2nd arg: new title)."""
import re, sys, os
f = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'properties_table.py')
s = open(f).read()
i = sys.argv[1]
new = ' '.join(sys.stdin.read().split())
m = re.search(r"p\('%s', '((?:[^'\\]|\\.)*)',\n((?:  '(?:[^'\\]|\\.)*'\s*\n?)+?),\n" % i, s)
if not m:
    m = re.search(r"p\('%s', ('(?:[^'\\]|\\.)*'|\"(?:[^\"\\])*\"),\n(.*?),\n  \[" % i, s, re.S)
    title = eval(m.group(1)); end = m.end() - 4
else:
    title = m.group(1); end = m.end()
if len(sys.argv) > 2:
    title = sys.argv[2]
block = "p(%r, %r,\n  %r,\n" % (i, title, new)
s = s[:m.start()] + block + s[end:]
open(f, 'w').write(s)
