"""Helper to write a planted bug: plant(id, property, [(file, old, new)],
needs, breaks, demo): makes seeded/<id>/ from edits of /repo (undone after)."""
import json
import os
import pathlib
import subprocess

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get('VP_REPO', '/repo'))

HEAD = '''import os, pathlib, shutil, sys, tempfile
sys.path.insert(0, os.path.join(os.getcwd(), 'src'))
from disseminate.builders import Environment
from disseminate.document import Document
from disseminate.paths import SourcePath, TargetPath

ROOT = pathlib.Path(tempfile.mkdtemp())
TICK = [1600000000]


def write(name, text):
    f = ROOT / 'src' / name
    f.parent.mkdir(parents=True, exist_ok=True)
    if isinstance(text, str):
        text = text.encode('utf-8')
    f.write_bytes(text)
    TICK[0] += 10
    os.utime(str(f), (TICK[0], TICK[0]))


def environment(main='main.dm'):
    return Environment(SourcePath(project_root=ROOT / 'src', subpath=main),
                       target_root=TargetPath(target_root=ROOT))


def read(name):
    return (ROOT / name).read_text(encoding='utf-8')


def test():
'''
TAIL = '''

try:
    test()
finally:
    shutil.rmtree(str(ROOT))
'''
SH = '''#!/bin/bash
export PATH=/opt/pvenv/bin:$PATH LANG=C.UTF-8 LC_ALL=C.UTF-8 TZ=UTC
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
exec /opt/pvenv/bin/python -X utf8 "$(dirname "$0")/demo.py"
'''


def plant(id, prop, edits, needs, breaks, demo):
    d = VERIF / 'seeded' / id
    d.mkdir(parents=True, exist_ok=True)
    try:
        for f, old, new in edits:
            p = REPO / 'src/disseminate' / f
            s = p.read_text()
            assert s.count(old) == 1, (id, f, s.count(old))
            p.write_text(s.replace(old, new))
        diff = subprocess.check_output(['git', '-C', str(REPO), 'diff'])
    finally:
        subprocess.check_call(['git', '-C', str(REPO), 'checkout', '-q',
                               '--', '.'])
    assert diff
    # the lines have to be those of the original repository
    files = {}
    cur = None
    for line in diff.decode().splitlines():
        if line.startswith('--- a/'):
            cur = line[6:]
        elif line.startswith('@@'):
            a = line.split()[1][1:].split(',')
            files.setdefault(cur, []).append(
                (int(a[0]), int(a[1]) if len(a) > 1 else 1))
    for line in diff.decode().splitlines():
        if line.startswith('-') and not line.startswith('---'):
            for f in files:
                base = subprocess.run(
                    ['git', '-C', str(REPO), 'show', 'bd2b7c1:' + f],
                    capture_output=True, text=True).stdout
                if line[1:] in base.splitlines():
                    break
            else:
                print(id, 'NOT ORIGINAL:', line)
    (d / 'patch.diff').write_bytes(diff)
    body = '\n'.join('    ' + x if x else '' for x in
                     demo.strip('\n').splitlines())
    (d / 'demo.py').write_text(HEAD + body + '\n' + TAIL)
    (d / 'demo.sh').write_text(SH)
    (d / 'meta.json').write_text(json.dumps(
        {'property': prop, 'needs': needs, 'what_it_breaks': breaks},
        indent=1) + '\n')
