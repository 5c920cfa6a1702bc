"""Single source of properties.jsonl and MANIFEST.json (run to regenerate)."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
P = []          # claimed properties
N = []          # not applicable


def prop(id_, title, statement, over, text, why, files, mech, state=(),
         observe=(), note='', technique=''):
    assert len(title) <= 80, (id_, len(title))
    P.append(dict(
        rec=dict(id=id_, title=title, statement=statement,
                 quantifier=dict(over=[o.replace(' ', '_') for o in over], text=text),
                 why_tests_cant=why,
                 anchors=dict(files=list(files),
                              mechanism=[dict(name=a, where=b) for a, b in mech],
                              state=[dict(name=a, meaning=b, where=c)
                                     for a, b, c in state],
                              observe_at=list(observe), hook_needed=None)),
        note=note, technique=technique))


def na(id_, title, statement, over, text, why, files, mech, reason):
    prop(id_, title, statement, over, text, why, files, mech)
    r = P.pop()['rec']
    N.append(dict(rec=r, reason=reason))


exec(open(os.path.join(HERE, 'entries.py')).read())

with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
    for r in [p['rec'] for p in P] + [n['rec'] for n in N]:
        f.write(json.dumps(r) + '\n')
man = dict(
    version=1,
    setup_cmd='bash tools/setup.sh',
    checks=[dict(
        property=p['rec']['id'],
        quick_cmd='python3 dst/main.py check %s --tier quick' % p['rec']['id'],
        thorough_cmd='python3 dst/main.py check %s --tier thorough' % p['rec']['id'],
        technique='deterministic simulation with fault injection: ' + p['technique'],
        level='exploration',
        level_note=p['note']) for p in P],
    not_applicable=[dict(property=n['rec']['id'], reason=n['reason']) for n in N])
with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
ids = [r['rec']['id'] for r in P + N]
assert len(ids) == len(set(ids))
print(len(P), 'claimed', len(N), 'not applicable')
