"""writes properties.jsonl and MANIFEST.json from tools/meta.py"""
import json
import os
import re
import subprocess
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from meta import P          # noqa: E402

LEVEL = ('Bounded symbolic execution of the real functions: z3 shows each assertion for all inputs of every feasible path within the '
         'bounds recorded in the evidence file, or returns inputs that are replayed on the unmodified code before a violation is '
         'reported. Trusts z3, the numpy/torch semantics implemented in symx/ (cross-checked by replaying path witnesses on real '
         'numpy/torch), real arithmetic in place of floating point.')


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            n = len(re.findall(r'[.](?:\s|$)', p['statement']))
            assert n <= 3, (p['id'], n)
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                            'hook_needed': None}}) + '\n')
    m = {'version': 1, 'setup_cmd': 'bash setup.sh',
         'hooks': {'guard': 'none', 'enable': 'no hooks: the checks import /repo\'s working tree as it is', 'source_commits': []},
         'checks': [{
             'property': p['id'], 'quick_cmd': '/opt/venv/bin/python check.py %s --tier quick' % p['id'],
             'thorough_cmd': '/opt/venv/bin/python check.py %s --tier thorough' % p['id'],
             'evidence_file': 'evidence/%s.json' % p['id'],
             'technique': 'symbolic execution of the real Python code with z3 (numpy/torch interpreted over SMT terms), '
                          'counterexamples replayed',
             'level': 'model_checking', 'level_note': LEVEL + (' ' + p['note'] if p['note'] else '')}
             for p in P if not p['na']],
         'not_applicable': [{'property': p['id'], 'reason': p['na']} for p in P if p['na']],
         'notes': 'Bounds of every scenario are in the evidence files and DESIGN.md. known_findings.json lists the findings.'}
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)

    head = open(os.path.join(HERE, 'tools', 'design_head.md')).read()
    props = []
    for p in P:
        props.append('### %s — %s\n\n%s\n\n*Decided by:* %s%s\n' % (p['id'], p['title'], p['statement'],
                     p['design'] or 'not claimed', ('\n\n*Not applicable:* ' + p['na']) if p['na'] else ''))
    kf = json.load(open(os.path.join(HERE, 'known_findings.json')))['findings']
    fnd = ['* **%s** (%s, `%s`): %s' % (e['status'], e['property'], e['scenario'], e['what']) for e in kf]
    bugs = ['| bug | property | needs | breaks | caught by |', '|---|---|---|---|---|']
    cp = os.path.join(HERE, 'tools', 'caught.json')
    caught = json.load(open(cp)) if os.path.exists(cp) else {}
    sd = os.path.join(HERE, 'seeded')
    for b in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
        m_ = json.load(open(os.path.join(sd, b, 'meta.json')))
        bugs.append('| %s | %s | %s | %s | %s |' % (b, m_['property'], m_['needs'], m_['what_it_breaks'], caught.get(b, '?')))
    out = head.replace('@@PROPS@@', '\n'.join(props)).replace('@@FINDINGS@@', '\n'.join(fnd)).replace('@@BUGS@@', '\n'.join(bugs))
    open(os.path.join(HERE, 'DESIGN.md'), 'w').write(out)


main()
