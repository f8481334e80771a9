"""Writes properties.jsonl and MANIFEST.json from one table, so the two stay in step."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'static value-flow analysis (abstract interpretation of the clang AST into algebraic normal forms)'
PROPS = []
def P(id, title, statement, over, q, why, files, mech, technique=None, note=None, na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files, mech=mech, technique=technique or TECH, note=note, na=na))

exec(open(os.path.join(V, 'tool', 'props_table.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
            quantifier=dict(over=p['over'], text=p['q']), why_tests_cant=p['why'],
            anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']]))) + '\n')
man = dict(version=1, setup_cmd='python3 engine/extract.py', hooks=dict(guard='none', enable='no hooks: the checks read the unmodified sources', source_commits=[]),
    checks=[dict(property=p['id'], quick_cmd='python3 engine/main.py %s --tier quick' % p['id'], thorough_cmd='python3 engine/main.py %s --tier thorough' % p['id'],
                 technique=p['technique'], level='other', level_note=p['note']) for p in PROPS if not p['na']],
    not_applicable=[dict(property=p['id'], reason=p['na']) for p in PROPS if p['na']],
    notes='Every check parses the current /repo sources with clang (tool/extract.cpp builds once in setup), interprets the functions abstractly and compares value terms; nothing of /repo is executed. See DESIGN.md.')
json.dump(man, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
