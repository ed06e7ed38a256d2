"""mkbug.py ID PROP FILE  <<< json {old,new,needs,breaks,demo}: creates seeded/ID from an edit of /repo (scratch copy)"""
import json
import os
import shutil
import subprocess
import sys
import tempfile


def mk(id, prop, edits, needs, breaks, demo):
    d = '/verif/seeded/' + id
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix='mkbug_', dir='/tmp')
    try:
        subprocess.check_call(['git', '-C', '/repo', 'worktree', 'list'], stdout=subprocess.DEVNULL)
        subprocess.check_call('git -C /repo archive HEAD mushroom_rl | tar x -C ' + w, shell=True)
        subprocess.check_call('git init -q . && git add -A && git -c user.name=a -c user.email=a@a commit -qm x', shell=True, cwd=w)
        for f, old, new in edits:
            p = os.path.join(w, f)
            s = open(p).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.check_output(['git', 'diff'], cwd=w, text=True)
        open(d + '/patch.diff', 'w').write(diff)
    finally:
        shutil.rmtree(w)
    open(d + '/demo.py', 'w').write(demo)
    open(d + '/demo.sh', 'w').write('#!/bin/bash\nHERE="$(cd "$(dirname "$0")" && pwd)"\nexport PYTHONPATH="$PWD" '
                                    'MPLBACKEND=agg SDL_VIDEODRIVER=dummy PYTHONDONTWRITEBYTECODE=1 '
                                    'TORCH_FORCE_NO_WEIGHTS_ONLY_LOAD=1\n'
                                    'exec /opt/venv/bin/python "$HERE/demo.py"\n')
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
