#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run: python3 registry.py)."""
import json
import os

P = []

TECH = 'bounded symbolic execution of the real Python code with z3 (path enumeration, SMT verdict per assertion, replay of models)'
NOTE = ('The real functions run on symbolic values (source re-read and instrumented on every run); '
        'for every explored path z3 shows that no input within the stated bounds violates the '
        'assertion, and every counterexample is replayed on the unmodified code before it is '
        'reported. Floats are modelled as exact reals, integers as unbounded; trusted: z3, the '
        'proxy/sympy bridge of /verif/symx (cross-checked by replaying path models concretely). ')


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(),
         note='', technique=TECH, level='model_checking', na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mechanism=mechanism, state=state, observe=observe, note=note,
                  technique=technique, level=level, na=na))


def main():
    here = os.path.dirname(os.path.abspath(__file__))
    P.sort(key=lambda p: p['id'])
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(dict(
                id=p['id'], title=p['title'], statement=p['statement'],
                quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                anchors=dict(files=p['files'],
                             state=[dict(name=a, meaning=b, where=c) for a, b, c in p['state']],
                             mechanism=[dict(name=a, where=b) for a, b in p['mechanism']],
                             observe_at=list(p['observe']), hook_needed=None))) + '\n')
    man = dict(
        version=1, setup_cmd='/opt/venv/bin/python -B setup_check.py',
        checks=[dict(property=p['id'], quick_cmd='./run.py %s' % p['id'],
                     thorough_cmd='./run.py %s --tier thorough' % p['id'],
                     technique=p['technique'], level=p['level'],
                     level_note=NOTE + p['note']) for p in P if not p['na']],
        not_applicable=[dict(property=p['id'], reason=p['na']) for p in P if p['na']],
        notes='No hooks in /repo. Every check re-reads /repo/kerncraft on each run.')
    with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    import registry
    import registry_props  # noqa: F401  (fills registry.P)
    registry.main()
