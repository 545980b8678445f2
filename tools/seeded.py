"""Try the planted bugs of /verif/seeded: each in its own copy of /repo, which
is mounted over /repo in a mount namespace of its own.

python3 tools/seeded.py [--no-tests] [--checks P01,P02] [ID ...]
"""
import json
import os
import pathlib
import shutil
import subprocess
import sys
import tempfile

VERIF = pathlib.Path(__file__).resolve().parent.parent

SCRIPT = r'''
set -u
mount --bind {copy} /repo || exit 9
cd /repo
run_demo() {{ rm -rf {tmp}/demo; mkdir {tmp}/demo; cp -a {seed}/. {tmp}/demo/
  rm -f {tmp}/demo/patch.diff {tmp}/demo/meta.json
  (cd /repo; timeout 300 bash {tmp}/demo/demo.sh > {tmp}/demo.$1.log 2>&1; echo $? > {tmp}/demo.$1) }}
bash /opt/vp/build.sh > {tmp}/build.log 2>&1 || echo BUILDFAIL-CLEAN
run_demo clean
git apply {seed}/patch.diff || {{ echo APPLYFAIL; exit 8; }}
bash /opt/vp/build.sh > {tmp}/build.log 2>&1; echo $? > {tmp}/build
run_demo patched
[ -n "{tests}" ] && taskset -c {cpu} bash /opt/vp/test.sh {tmp}/t.json > {tmp}/test.log 2>&1
cd /verif
for p in {checks}; do
  VP_JOBS={jobs} VERIF_SEED=1 timeout 900 ./run $p quick > {tmp}/check.$p.log 2>&1
  echo $? > {tmp}/check.$p
done
true
'''


def start(name, cpu, tests, checks, jobs):
    seed = VERIF / 'seeded' / name
    meta = json.loads((seed / 'meta.json').read_text())
    tmp = pathlib.Path(tempfile.mkdtemp(prefix='seed-' + name + '-'))
    copy = tmp / 'repo'
    subprocess.run(['cp', '-a', '/repo', str(copy)], check=True)
    s = SCRIPT.format(copy=copy, tmp=tmp, seed=seed, cpu=cpu,
                      tests='1' if tests else '', jobs=jobs,
                      checks=' '.join(checks or [meta['property']]))
    return name, tmp, subprocess.Popen(['unshare', '-m', 'bash', '-c', s])


def report(name, tmp):
    def read(f):
        p = tmp / f
        return p.read_text().strip() if p.exists() else '?'
    out = [name, 'build ' + read('build'),
           'demo clean {} patched {}'.format(read('demo.clean'),
                                             read('demo.patched'))]
    if (tmp / 't.json').exists():
        o = json.loads((tmp / 't.json').read_text())
        base = set(json.loads(pathlib.Path(
            '/opt/vp/BASELINE.json').read_text())['stable'])
        bad = [f for f in o['failed'] if f in base]
        out.append('tests ' + ('ok' if not bad else 'FAIL ' + str(bad[:3])))
    for f in sorted(tmp.glob('check.*')):
        if f.suffix == '.log':
            continue
        log = (tmp / (f.name + '.log')).read_text()
        out.append('{} exit {} {}'.format(
            f.name, f.read_text().strip(),
            'CAUGHT' if 'VIOLATION property=' in log else 'missed'))
    print(' | '.join(out), flush=True)
    if '--keep' not in sys.argv:
        shutil.rmtree(str(tmp))
    else:
        print('   ', tmp)


def main(argv):
    tests = '--no-tests' not in argv
    checks = []
    if '--checks' in argv:
        i = argv.index('--checks')
        checks = argv[i + 1].split(',')
        del argv[i:i + 2]
    names = [a for a in argv if not a.startswith('--')] or sorted(
        p.name for p in (VERIF / 'seeded').iterdir())
    width = 4
    jobs = 2
    running = []
    while names or running:
        while names and len(running) < width:
            used = {x[3] for x in running}
            cpu = [i for i in range(8) if i not in used][0]
            running.append(start(names.pop(0), cpu, tests, checks,
                                 jobs) + (cpu,))
        for x in list(running):
            try:
                x[2].wait(0.5)
            except subprocess.TimeoutExpired:
                continue
            running.remove(x)
            report(x[0], x[1])


main(sys.argv[1:])
