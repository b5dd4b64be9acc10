"""mkbug.py <id> <property> <file> : reads a JSON description on stdin
{"old":..., "new":..., "needs":..., "breaks":..., "demo": python source}
and writes seeded/<id>/ (edits may be a list of [file, old, new])."""
import json, os, subprocess, sys, tempfile, shutil


def make(id, prop, edits, needs, breaks, demo, root='/verif/seeded'):
    tmp = tempfile.mkdtemp(prefix='mkbug.')
    try:
        subprocess.run(['git', 'worktree', 'prune'], cwd='/repo', check=True)
        subprocess.run(f'git -C /repo archive HEAD | tar x -C {tmp}', shell=True, check=True)
        subprocess.run('git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm base', shell=True, cwd=tmp, check=True,
                       stdout=subprocess.DEVNULL)
        for f, old, new in edits:
            p = os.path.join(tmp, 'src/solarspatialtools', f)
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.run(['git', 'diff'], cwd=tmp, stdout=subprocess.PIPE, check=True).stdout
    finally:
        shutil.rmtree(tmp)
    d = os.path.join(root, id)
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
    open(os.path.join(d, 'demo.py'), 'w').write(demo)
    open(os.path.join(d, 'demo.sh'), 'w').write('''#!/bin/bash
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
export PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
work="$(mktemp -d)" || exit 3
trap 'rm -rf -- "$work"' EXIT
export HOME="$work" MPLCONFIGDIR="$work" WORK="$work"
"$py" -W ignore "$here/demo.py"
''')
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    print('made', id)
