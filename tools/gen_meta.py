#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below (run after editing them)."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CORE, STY, MAC = 'packages/stylist-core/src/', 'packages/stylist/src/', 'packages/stylist-macros/src/'
PROPS = []
def P(id, title, statement, over, text, why, files, mech, observe, technique, note, state=None, hook=None, level='exploration'):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
        mech=mech, observe=observe, technique=technique, note=note, state=state or [], hook=hook, level=level))

exec(open(os.path.join(R, 'tools', 'props.py')).read())

with open(os.path.join(R, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['id']
        d = dict(id=p['id'], title=p['title'], statement=p['statement'],
            quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
            anchors=dict(files=p['files'], state=[dict(name=n, meaning=m, where=w) for n, m, w in p['state']],
                mechanism=[dict(name=n, where=w) for n, w in p['mech']], observe_at=p['observe'], hook_needed=p['hook']))
        f.write(json.dumps(d, ensure_ascii=False) + '\n')
checks = [dict(property=p['id'], quick_cmd=f"python3 run.py {p['id']} quick", thorough_cmd=f"python3 run.py {p['id']} thorough",
        technique=p['technique'], level=p['level'], level_note=p['note']) for p in PROPS if p['id'] not in NOT_CLAIMED]
man = dict(version=1, setup_cmd='python3 run.py setup', checks=checks,
    not_applicable=[dict(property=k, reason=v) for k, v in NOT_CLAIMED.items()],
    notes=NOTES)
open(os.path.join(R, 'MANIFEST.json'), 'w').write(json.dumps(man, indent=1, ensure_ascii=False) + '\n')
print(len(PROPS), 'properties,', len(checks), 'claimed')
