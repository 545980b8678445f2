"""Run the check of one property: python -m vp.runner ID [quick|thorough]
or python -m vp.runner ID replay FILE.

Exit 0: the property held on everything explored (known findings are printed).
Exit 1: a line "VIOLATION property=<id> replay=<path>" was printed.
Exit 3: the harness itself failed (no answer).
"""
import errno
import hashlib
import importlib
import json
import logging
import os
import pathlib
import pickle
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get('VP_REPO', '/repo'))
SRC = str(REPO / 'src')
sys.path.insert(0, SRC)

from .engine import (Case, Overrun, Reject, Shrinker, Violation,  # noqa: E402
                     case_rng)

HANG_S = 240
WALL = {'quick': 300, 'thorough': 800}


class Hang(BaseException):
    pass


def describe(case):
    return [str(x) for x in case.labels]


def from_repo(exc):
    """Whether the exception passed through the code under test."""
    tb = exc.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(SRC + os.sep):
            return True
        tb = tb.tb_next
    return False


def run_case(fn, case):
    """Run one case. Returns (status, violation)."""
    try:
        fn(case)
        return 'ok', None
    except Reject:
        return 'reject', None
    except Overrun:
        return 'overrun', None
    except Violation as v:
        return 'fail', v
    except Hang:
        return 'fail', Violation('The code under test did not finish within '
                                 '{} s.'.format(HANG_S // 2), 'hang')
    except RecursionError as e:
        if from_repo(e):
            return 'fail', Violation('RecursionError in the code under test',
                                     'recursion')
        raise
    except Exception as e:
        if from_repo(e):
            frames = traceback.extract_tb(e.__traceback__)
            inner = [f for f in frames if f.filename.startswith(SRC)][-1]
            where = os.path.relpath(inner.filename, SRC)
            msg = 'Unexpected {}: {}\n{}'.format(
                type(e).__name__, e,
                ''.join(traceback.format_tb(e.__traceback__)[-6:]))
            return 'fail', Violation(msg, 'crash:{}:{}:{}'.format(
                type(e).__name__, where, inner.name))
        if isinstance(e, (ImportError, MemoryError)) or \
                getattr(e, 'errno', None) in (errno.ENOSPC, errno.EMFILE,
                                              errno.ENOMEM, errno.EAGAIN):
            raise
        # Something else than the kind of result that is to be examined
        # (ex: None, a missing file). On the unchanged tree, all results can
        # be examined.
        msg = 'The result cannot be examined: {}: {}\n{}'.format(
            type(e).__name__, e,
            ''.join(traceback.format_tb(e.__traceback__)[-4:]))
        return 'fail', Violation(msg, 'result:' + type(e).__name__)


def scratch_base():
    return '/dev/shm' if os.access('/dev/shm', os.W_OK) else None


class ScratchDir:
    """Gives every case an empty scratch directory."""

    def __init__(self, base=None):
        if base is None:
            base = scratch_base()
        self.root = pathlib.Path(tempfile.mkdtemp(prefix='vp-', dir=base))
        self.n = 0

    def new(self):
        self.n += 1
        p = self.root / 'c'
        if p.exists():
            shutil.rmtree(str(p), ignore_errors=True)
        p.mkdir(exist_ok=True)
        return p

    def remove(self):
        shutil.rmtree(str(self.root), ignore_errors=True)


def load_known(prop):
    path = VERIF / 'known_findings.json'
    if not path.is_file():
        return {}
    data = json.loads(path.read_text())
    return {f['key']: f['what'] for f in data.get('findings', [])
            if f['property'] == prop}


def worker(prop, mod, seed, tier, w, nworkers, outpath, hb, deadline, scale,
           base):
    scratch = ScratchDir(base)
    os.chdir(str(scratch.root))
    known = load_known(prop)
    res = dict(evaluations=0, rejected=0, keys=set(), samples=[], stats={},
               failure=None, known={}, error=None, unreproduced=0,
               truncated=False, parts={})

    def alarm(*a):
        raise Hang()
    signal.signal(signal.SIGALRM, alarm)

    try:
        plan = []
        for pname, fn, nquick, nthorough in mod.PARTS:
            n = nquick if tier == 'quick' else nthorough
            n = max(1, int(n * scale)) if n else 0
            plan += [(i / max(n, 1), pname, fn, i)
                     for i in range(n) if i % nworkers == w]
        plan.sort(key=lambda t: (t[0], t[1]))
        for _, pname, fn, i in plan:
            if time.time() > deadline:
                res['truncated'] = True
                break
            hb(pname, i)
            case = Case(rng=case_rng(seed, prop + pname, 0, i),
                        scratch=scratch.new(), tier=tier)
            signal.alarm(HANG_S // 2)
            status, v = run_case(fn, case)
            signal.alarm(0)
            if status == 'reject':
                res['rejected'] += 1
                continue
            res['evaluations'] += 1
            res['parts'][pname] = res['parts'].get(pname, 0) + 1
            for k, n in case.stats.items():
                res['stats'][k] = res['stats'].get(k, 0) + n
            if case.nontrivial_key is not None:
                res['keys'].add(case.nontrivial_key)
                if len(res['samples']) < 3 and case.labels:
                    res['samples'].append([pname] + describe(case))
            if status != 'fail':
                continue
            if v.key in known:
                res['known'].setdefault(v.key, v.message)
                continue

            # A failure: reproduce it from its choices, then shrink it.
            def replay(choices, fn=fn):
                c = Case(prefix=list(choices), scratch=scratch.new(),
                         tier=tier)
                signal.alarm(HANG_S // 2)
                st, vv = run_case(fn, c)
                signal.alarm(0)
                hb(pname, i)
                bad = st == 'fail' and vv.key not in known
                return bad, c.choices, c.spans, (vv, describe(c))

            bad, ch, spans, result = replay(case.choices)
            if not bad:
                bad, ch, spans, result = replay(case.choices)
            if not bad:
                res['unreproduced'] += 1
                res['unreproduced_msg'] = v.message[:2000]
                continue
            sh = Shrinker(replay, ch, spans, result,
                          max_runs=getattr(mod, 'SHRINK_RUNS', 400),
                          deadline=min(time.time() + 60, deadline + 60))
            ch, (vv, labels) = sh.shrink()
            res['failure'] = dict(part=pname, index=i, choices=ch,
                                  message=vv.message, key=vv.key,
                                  case=labels)
            break
    except BaseException:
        res['error'] = traceback.format_exc()
    finally:
        signal.alarm(0)
        os.chdir('/')
        scratch.remove()
        with open(outpath + '.tmp', 'wb') as f:
            pickle.dump(res, f)
        os.rename(outpath + '.tmp', outpath)


#: the interpreter was ended by the code under test (ex: endless recursion
#: within an extension module, or memory without end)
DEATHS = (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL,
          signal.SIGKILL)


def confirm_death(prop, mod, seed, tier, part, index, st, base):
    """The failure of a case that ended its worker, if it does so again."""
    fns = {p[0]: p[1] for p in mod.PARTS}
    if not os.WIFSIGNALED(st) or os.WTERMSIG(st) not in DEATHS or \
            part not in fns:
        return None
    sys.stdout.flush()
    sys.stderr.flush()
    out = os.path.join(base, 'confirm-{}-{}'.format(part, index))
    pid = os.fork()
    if pid == 0:
        try:
            os.setpgid(0, 0)
            scratch = ScratchDir(base)
            os.chdir(str(scratch.root))
            signal.alarm(HANG_S // 2)       # (not handled: ends the child)
            case = Case(rng=case_rng(seed, prop + part, 0, index),
                        scratch=scratch.new(), tier=tier)
            status, v = run_case(fns[part], case)
            if status == 'fail' and v.key not in load_known(prop):
                with open(out, 'wb') as f:
                    pickle.dump(dict(
                        part=part, index=index, choices=None, key=v.key,
                        message=v.message, case=describe(case)), f)
        finally:
            os._exit(0)
    st = os.waitpid(pid, 0)[1]
    if os.path.exists(out):
        with open(out, 'rb') as f:
            return pickle.load(f)
    if not os.WIFSIGNALED(st) or os.WTERMSIG(st) not in DEATHS:
        return None
    return dict(part=part, index=index, choices=None, key='died',
                message='The code under test ended the interpreter with '
                'signal {}.'.format(os.WTERMSIG(st)),
                case=['{} {}'.format(part, index)])


def write_replay(prop, seed, tier, failure):
    d = VERIF / 'replays'
    d.mkdir(exist_ok=True)
    body = dict(property=prop, seed=seed, tier=tier, **failure)
    digest = hashlib.sha1(json.dumps(body, sort_keys=True).encode(
        'utf-8', 'backslashreplace')).hexdigest()[:10]
    path = d / '{}-{}.json'.format(prop, digest)
    path.write_text(json.dumps(body, indent=1))
    return path


def setup(prop):
    logging.disable(logging.CRITICAL)
    import disseminate
    got = os.path.realpath(disseminate.__file__)
    assert got.startswith(os.path.realpath(SRC)), got
    mod = importlib.import_module('vp.props.' + prop.lower())
    return mod


def do_replay(prop, path):
    mod = setup(prop)
    data = json.loads(pathlib.Path(path).read_text())
    fn = {p[0]: p[1] for p in mod.PARTS}[data['part']]
    scratch = ScratchDir()
    os.chdir(str(scratch.root))
    try:
        if data.get('key') == 'died':
            print('the interpreter is expected to end with a signal')
            sys.stdout.flush()
        if data.get('choices') is not None:
            case = Case(prefix=data['choices'], scratch=scratch.new())
        else:
            case = Case(rng=case_rng(data['seed'], prop + data['part'], 0,
                                     data['index']), scratch=scratch.new())
        status, v = run_case(fn, case)
    finally:
        os.chdir('/')
        scratch.remove()
    for line in describe(case):
        print(line)
    print(status)
    if v is not None:
        print(v.message, v.key)
        print('VIOLATION property={} replay={}'.format(prop, path))
        return 1
    return 0


def main(argv):
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    if tier == 'replay':
        return do_replay(prop, argv[2])
    seed = int(os.environ.get('VERIF_SEED', '1'))
    nworkers = int(os.environ.get('VP_JOBS', '8'))
    scale = float(os.environ.get('VP_SCALE', '1'))
    t0 = time.time()
    deadline = t0 + WALL[tier]
    mod = setup(prop)

    tmp = tempfile.mkdtemp(prefix='vpm-')
    base = tempfile.mkdtemp(prefix='vpb-', dir=scratch_base())
    procs = {}
    for w in range(nworkers):
        out = os.path.join(tmp, 'w{}'.format(w))
        hbfile = os.path.join(tmp, 'h{}'.format(w))

        def hb(part, i, hbfile=hbfile):
            with open(hbfile, 'w') as f:
                f.write('{} {}'.format(part, i))
        hb('-', -1)
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.setpgid(0, 0)
                worker(prop, mod, seed, tier, w, nworkers, out, hb, deadline,
                       scale, base)
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        procs[pid] = (w, out, hbfile)

    results, hung, died = {}, [], []
    pending = dict(procs)
    while pending:
        time.sleep(0.05)
        for pid in list(pending):
            w, out, hbfile = pending[pid]
            done, st = os.waitpid(pid, os.WNOHANG)
            if done:
                del pending[pid]
                if os.path.exists(out):
                    with open(out, 'rb') as f:
                        results[w] = pickle.load(f)
                else:
                    died.append((w, open(hbfile).read(), st))
            elif time.time() - os.stat(hbfile).st_mtime > HANG_S:
                hung.append((w, open(hbfile).read()))
                os.killpg(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                del pending[pid]
        if any(r['failure'] for r in results.values()) and pending:
            # a failure is known: let the others finish only if they are
            # shrinking too
            for pid in list(pending):
                try:
                    os.killpg(pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                os.waitpid(pid, 0)
                del pending[pid]
    crashed = []
    if not any(r['failure'] for r in results.values()):
        for d in died[:2]:
            part, i = d[1].rsplit(' ', 1)
            failure = confirm_death(prop, mod, seed, tier, part, int(i),
                                    d[2], base)
            if failure:
                crashed.append(failure)
    shutil.rmtree(tmp, ignore_errors=True)
    shutil.rmtree(base, ignore_errors=True)
    for r in results.values():
        if crashed and not r['failure']:
            crashed, r['failure'] = [], crashed[0]
    if crashed:
        results[nworkers] = dict(
            evaluations=1, rejected=0, keys=set(), samples=[], stats={},
            failure=crashed[0], known={}, error=None, unreproduced=0,
            truncated=False, parts={})
    return report(prop, mod, seed, tier, results, hung, died, t0)


def report(prop, mod, seed, tier, results, hung, died, t0):
    keys, samples, stats, parts, known = set(), [], {}, {}, {}
    evals = rejected = unrep = 0
    errors, failures, truncated = [], [], False
    for w in sorted(results):
        r = results[w]
        evals += r['evaluations']
        rejected += r['rejected']
        unrep += r['unreproduced']
        truncated |= r['truncated']
        keys |= r['keys']
        samples += r['samples'][:2]
        known.update(r['known'])
        for src, dst in ((r['stats'], stats), (r['parts'], parts)):
            for k, n in src.items():
                dst[k] = dst.get(k, 0) + n
        if r['error']:
            errors.append(r['error'])
        if r['failure']:
            failures.append(r['failure'])
        if r.get('unreproduced_msg'):
            print('note: a failure did not reproduce when replayed: ' +
                  r['unreproduced_msg'])
    for w, where in hung:
        part, i = where.rsplit(' ', 1)
        failures.append(dict(part=part, index=int(i), choices=None,
                             message='The code under test did not finish '
                             'within {} s.'.format(HANG_S), key='hang',
                             case=[where]))
    code = 0
    listed = load_known(prop)
    directed = getattr(mod, 'known_findings', None)
    if directed is not None and listed:
        # directed reproductions of the listed findings
        scratch = ScratchDir()
        try:
            for key in directed(listed, scratch):
                known.setdefault(key, '')
        except Exception:
            # (the generated cases decide)
            print('note: a reproduction of a known finding raised\n' +
                  traceback.format_exc()[-1500:])
        finally:
            scratch.remove()
    for key in sorted(known):
        print('KNOWN-FINDING: property={} {}'.format(prop, listed[key]))
    for f in failures[:1]:
        path = write_replay(prop, seed, tier, f)
        for line in f['case'][:60]:
            print('  ' + str(line)[:1500])
        print(f['message'][:3000])
        print('key: {}'.format(f['key']))
        print('VIOLATION property={} replay={}'.format(prop, path))
        code = 1
    if code == 0 and (errors or died):
        for e in errors[:2]:
            print(e, file=sys.stderr)
        for d in died:
            print('worker died:', d, file=sys.stderr)
        code = 3
    evidence = dict(
        property=prop, tier=tier, seed=seed, level='exploration',
        coverage=dict(evaluations=evals, distinct_nontrivial=len(keys),
                      rule=mod.RULE,
                      samples=[' | '.join(s)[:1200] for s in samples][:12],
                      rejected=rejected, parts=parts, stats=stats,
                      truncated=truncated, unreproduced=unrep),
        assumptions=list(getattr(mod, 'ASSUMPTIONS', [])),
        wall_s=round(time.time() - t0, 1),
        violations=len(failures))
    ev = VERIF / 'evidence'
    ev.mkdir(exist_ok=True)
    (ev / (prop + '.json')).write_text(json.dumps(evidence, indent=1))
    print('{} {}: {} cases ({} rejected), {} distinct non-trivial, {} '
          'violations, {:.0f} s {}{}'.format(
              prop, tier, evals, rejected, len(keys), len(failures),
              time.time() - t0, json.dumps(stats, sort_keys=True),
              ' (truncated)' if truncated else ''))
    return code


if __name__ == '__main__':
    try:
        rc = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    os._exit(rc)
