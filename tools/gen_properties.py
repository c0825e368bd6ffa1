"""Writes properties.jsonl from the table below (run by hand when a statement changes)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    a = dict(files=['src/tools21cm/' + f for f in files],
             mechanism=[dict(name=n, where=('src/tools21cm/' + w)) for n, w in mech],
             observe_at=observe, hook_needed=None)
    if state:
        a['state'] = state
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=a))


exec(open(os.path.join(os.path.dirname(__file__), 'properties_table.py')).read())
ids = [x['id'] for x in P]
assert len(set(ids)) == len(ids)
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P), 'properties')
