"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import props
V = os.path.dirname(HERE)
with open(V + '/properties.jsonl', 'w') as f:
    for pid, s in sorted({**props.PROPS, **getattr(props, 'NA', {})}.items()):
        f.write(json.dumps({'id': pid, 'title': s['title'], 'statement': s['statement'], 'quantifier': {'over': s['over'], 'text': s['text']},
                            'why_tests_cant': s['why'], 'anchors': {'files': s['files'], 'mechanism': [{'name': a, 'where': b} for a, b in s['mechanism']]}}) + '\n')
TECH = 'Static analysis: path-sensitive interprocedural dataflow over MIR (lock sets, value provenance, order of effects)'
m = {'version': 1, 'setup_cmd': 'python3 sa/check.py setup', 'checks': [], 'not_applicable': []}
for pid, s in sorted(props.PROPS.items()):
    docs = '; '.join(f.__name__ for f in s['clauses'])
    m['checks'].append({'property': pid, 'quick_cmd': f'python3 sa/check.py {pid}', 'thorough_cmd': f'python3 sa/check.py {pid} --fresh', 'technique': TECH, 'level': 'other',
                        'level_note': f'Decided on every abstract path of the current source; rules: {docs}. Calls leaving the crate are modelled (sa/models.py).'})
for pid, s in sorted(getattr(props, 'NA', {}).items()):
    m['not_applicable'].append({'property': pid, 'reason': s['reason']})
with open(V + '/MANIFEST.json', 'w') as f:
    json.dump(m, f, indent=1)
import re, subprocess
rules = []
for pid, s in sorted(props.PROPS.items()):
    rules.append(f'**{pid} {s["title"]}.** Anchored in {", ".join(dict.fromkeys(s["files"]))}.\n')
    for f in s['clauses']:
        rules.append(f'- `{f.__name__}`: ' + ' '.join((f.__doc__ or '').split()))
    rules.append('')
na = [f'- **{pid} {s["title"]}.** {s["reason"]}' for pid, s in sorted(getattr(props, 'NA', {}).items())]
fixed = []
for l in open(V + '/known_findings.txt'):
    g = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
    if g:
        fixed.append(f'- {g.group(1)}, `{g.group(2)}`: {g.group(3)}.')
catch = []
if os.path.exists(V + '/seedkit/catch.txt'):
    for l in open(V + '/seedkit/catch.txt'):
        g = re.match(r'(\S+)\s+(\S+) (CAUGHT|missed) by ([^(]*)', l)
        if g and os.path.isdir(V + '/seeded/' + g.group(1)):
            meta = json.load(open(f'{V}/seeded/{g.group(1)}/meta.json'))
            catch.append(f'- `{g.group(1)}` ({g.group(2)}): {"reported by " + ", ".join(g.group(4).split()) if g.group(3) == "CAUGHT" else "MISSED by its own check; reported by " + (g.group(4).strip() or "none")}. {meta["what_it_breaks"]}')
sys.path.insert(0, V + '/seedkit')
nref = '@'
try:
    import importlib
    R = importlib.import_module('refactors')
    nref = str(len(R.R))
except Exception:
    pass
prose = open(V + '/design/prose.md').read()
for k, v in (('FIXED', '\n'.join(fixed)), ('NA', '\n'.join(na)), ('RULES', '\n'.join(rules)), ('CATCH', '\n'.join(catch)), ('NREF', nref)):
    prose = prose.replace(f'@{k}@', v)
with open(V + '/DESIGN.md', 'w') as f:
    f.write(prose)
print(len(m['checks']), 'checks', len(m['not_applicable']), 'not applicable')
