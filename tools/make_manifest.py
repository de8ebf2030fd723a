"""writes MANIFEST.json and levels.json from properties.jsonl, baseline.json (proved specs) and the notes below"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
base = json.load(open(H + '/baseline.json'))
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
NOTE = json.load(open(H + '/tools/notes.json'))
checks, levels = [], {}
for p in props:
    i = p['id']
    sp = {s: b for s, b in base.items() if i in b['props']}
    un = [s for s, b in sp.items() if b['mode'] == 'unbounded']
    bo = [s for s, b in sp.items() if b['mode'] != 'unbounded']
    level = 'proof' if un else 'exploration'
    levels[i] = level
    note = f'{len(un)} contracts discharged for symbolic sizes ({", ".join(s.split("/")[1] for s in un) or "none"}); {len(bo)} discharged for fixed small sizes with symbolic entries, labelled bounded ({", ".join(s.split("/")[1] for s in bo) or "none"}); the remaining clauses by bounded runtime evaluation of the contracts on the real code. ' + NOTE.get(i, '')
    tech = 'contract-based deductive verification: contracts on the current source, obligations by symbolic execution with loop closed forms/induction, discharged by z3 and a term normaliser; runtime contract evaluation as bounded stand-in and counterexample search' if sp else \
        'contract-based: contracts of the real functions evaluated at run time (bounded stand-in; no obligation of this property is within the verifier\'s reach)'
    checks.append({'property': i, 'quick_cmd': f'./check {i}', 'thorough_cmd': f'./check {i} --tier thorough', 'technique': tech, 'level': level, 'level_note': note.strip()})
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': [], 'notes': 'No hooks are needed: the obligations are generated from the current source text of /repo and the contracts are evaluated through the public interface.'}, open(H + '/MANIFEST.json', 'w'), indent=1)
json.dump(levels, open(H + '/levels.json', 'w'), indent=1)
