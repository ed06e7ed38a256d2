"""kf.add(status, property, scenario, label, what, commit=None)"""
import json
import subprocess
PATH = '/verif/known_findings.json'


def add(status, prop, scenario, label, what, commit=None):
    d = json.load(open(PATH))
    e = {'property': prop, 'scenario': scenario, 'label': label, 'status': status}
    if status == 'fixed':
        c = subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h', '--fixed-strings', '--grep', commit, '-1'], text=True).strip()
        assert c, commit
        e['what'] = 'fixed: property=%s %s %s' % (prop, c, what)
    else:
        e['what'] = what
    d['findings'] = [x for x in d['findings'] if (x['property'], x['scenario'], x['label'], x['what']) !=
                     (e['property'], e['scenario'], e['label'], e['what'])] + [e]
    with open(PATH, 'w') as f:
        f.write('{"findings": [\n' + ',\n'.join(' ' + json.dumps(x) for x in d['findings']) + '\n]}\n')
