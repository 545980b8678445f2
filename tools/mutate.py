"""Mutation analysis: small changes of the code, to find what no check sees.

python3 tools/mutate.py OUT [--n N] [--seed S] [--jobs J] [--scale X]
                        [--files REGEX] [--tests]

Each mutant is a copy of VP_REPO's sources (default /repo) with one change;
the checks whose anchors hold the file are run on it until one reports. What
no check reports is written to OUT/<n>.diff; with --tests, the tests of the
repository are then run on those too.
"""
import argparse
import ast
import concurrent.futures
import difflib
import json
import os
import pathlib
import random
import re
import shutil
import subprocess
import tempfile

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get('VP_REPO', '/repo'))
SRC = 'src/disseminate/'
DEFAULT = ['P14', 'P20', 'P12']
SKIP = ('checkers/', 'cli/', 'server/', '__init__')
SLOW = ['P35', 'P17', 'P26', 'P18', 'P20', 'P33', 'P21', 'P15']

CMP = {ast.Eq: '!=', ast.NotEq: '==', ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=',
       ast.GtE: '>', ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not',
       ast.IsNot: 'is'}


class Sites(ast.NodeVisitor):
    def __init__(self, text):
        self.text = text
        self.lines = text.split('\n')
        self.starts = [0]
        for x in text.encode().split(b'\n'):
            self.starts.append(self.starts[-1] + len(x) + 1)
        self.data = text.encode()
        self.out = []

    def span(self, n):
        return (self.starts[n.lineno - 1] + n.col_offset,
                self.starts[n.end_lineno - 1] + n.end_col_offset)

    def src(self, n):
        a, b = self.span(n)
        return self.data[a:b].decode()

    def add(self, n, new, kind):
        self.out.append((self.span(n), new, kind, n.lineno))

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            op = CMP[type(n.ops[0])]
            self.add(n, '{} {} {}'.format(self.src(n.left), op,
                                          self.src(n.comparators[0])), 'cmp')
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        for i in range(len(n.values)):
            rest = [self.src(v) for j, v in enumerate(n.values) if j != i]
            op = ' and ' if isinstance(n.op, ast.And) else ' or '
            self.add(n, '(' + op.join(rest) + ')', 'drop operand')
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, ast.Not):
            self.add(n, '(' + self.src(n.operand) + ')', 'not')
        self.generic_visit(n)

    def visit_Constant(self, n):
        if n.value is True or n.value is False:
            self.add(n, str(not n.value), 'bool')
        elif isinstance(n.value, int):
            self.add(n, str(n.value + 1), 'int')

    def visit_If(self, n):
        self.add(n.test, 'True', 'if')
        self.add(n.test, 'False', 'if')
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.add(n, '(' + self.src(n.body) + ')', 'ifexp')
        self.add(n, '(' + self.src(n.orelse) + ')', 'ifexp')
        self.generic_visit(n)

    def visit_Call(self, n):
        for k in n.keywords:
            if k.arg:
                a, b = self.span(k)
                # with the comma before or after it
                m = re.compile(rb'\s*,\s*').match(self.data, b)
                if m:
                    self.out.append(((a, m.end()), '', 'kwarg', k.lineno))
                else:
                    s = self.data[:a].rstrip()
                    if s.endswith(b','):
                        s = s[:-1]
                    self.out.append(((len(s), b), '', 'kwarg', k.lineno))
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr in (
                'strip', 'lower', 'copy', 'rstrip', 'lstrip', 'resolve',
                'absolute', 'title') and not n.keywords:
            self.add(n, self.src(f.value), 'call')
        if isinstance(f, ast.Name) and f.id in (
                'sorted', 'list', 'copy', 'deepcopy', 'set', 'reversed',
                'str') and len(n.args) == 1:
            self.add(n, '(' + self.src(n.args[0]) + ')', 'call')
        self.generic_visit(n)

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Call):
            self.add(n, 'pass', 'delete')
        self.generic_visit(n)

    def visit_Assign(self, n):
        if len(n.targets) == 1 and isinstance(
                n.targets[0], (ast.Attribute, ast.Subscript)):
            self.add(n, 'pass', 'delete')
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        self.add(n, 'pass', 'delete')
        self.generic_visit(n)

    def visit_Subscript(self, n):
        self.generic_visit(n)

    def visit_Continue(self, n):
        self.add(n, 'break', 'continue')

    def visit_Break(self, n):
        self.add(n, 'continue', 'break')

    def visit_BinOp(self, n):
        if isinstance(n.op, ast.Add):
            self.add(n, '(' + self.src(n.left) + ')', 'add')
            self.add(n, '(' + self.src(n.right) + ')', 'add')
        self.generic_visit(n)

    def visit_Return(self, n):
        if n.value is not None and not isinstance(n.value, ast.Constant):
            self.add(n.value, 'None', 'return')
        self.generic_visit(n)

    def visit_FunctionDef(self, n):
        # defaults of functions are sites too, docstrings are not
        self.generic_visit(n)


def sites(path):
    text = path.read_text()
    v = Sites(text)
    v.visit(ast.parse(text))
    return text, v.out


def one(n, rel, site, checks, args):
    (a, b), new, kind, line = site
    tmp = pathlib.Path(tempfile.mkdtemp(prefix='mut-', dir='/dev/shm'))
    try:
        repo = tmp / 'repo'
        shutil.copytree(str(REPO / 'src'), str(repo / 'src'), symlinks=True)
        f = repo / SRC / rel
        data = f.read_bytes()
        mutated = data[:a] + new.encode() + data[b:]
        f.write_bytes(mutated)
        try:
            compile(mutated, rel, 'exec')
        except SyntaxError:
            return n, rel, line, kind, 'syntax', None
        env = dict(os.environ, VP_REPO=str(repo), VP_JOBS='1',
                   VP_SCALE=str(args.scale), VERIF_SEED='1',
                   TMPDIR=str(tmp))
        for p in checks:
            try:
                r = subprocess.run(['./run', p, 'quick'], cwd=str(tmp / 'v')
                                   if False else args.copy, env=env,
                                   stdout=subprocess.DEVNULL,
                                   stderr=subprocess.DEVNULL, timeout=300)
                code = r.returncode
            except subprocess.TimeoutExpired:
                code = 'timeout'
            if code != 0:
                return n, rel, line, kind, '{} {}'.format(p, code), None
        diff = ''.join(difflib.unified_diff(
            data.decode().splitlines(True), mutated.decode().splitlines(True),
            'a/' + SRC + rel, 'b/' + SRC + rel))
        return n, rel, line, kind, 'survived', diff
    finally:
        shutil.rmtree(str(tmp), ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('out')
    ap.add_argument('--n', type=int, default=100)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--scale', type=float, default=0.2)
    ap.add_argument('--files', default='')
    args = ap.parse_args()
    out = pathlib.Path(args.out)
    out.mkdir(parents=True, exist_ok=True)
    # evidence and replay files go to a copy
    args.copy = tempfile.mkdtemp(prefix='mutv-', dir='/dev/shm')
    subprocess.run(['cp', '-a'] + [str(VERIF / x) for x in (
        'run', 'vp', 'known_findings.json', 'MANIFEST.json',
        'properties.jsonl')] + [args.copy], check=True)
    os.makedirs(args.copy + '/evidence')
    anchors = {}
    for line in (VERIF / 'properties.jsonl').read_text().splitlines():
        p = json.loads(line)
        for f in p['anchors']['files']:
            anchors.setdefault(f, []).append(p['id'])
    rng = random.Random(args.seed)
    todo = []
    for f in sorted((REPO / SRC).rglob('*.py')):
        rel = str(f.relative_to(REPO / SRC))
        if rel.startswith(SKIP) or rel.endswith('__init__.py') or \
                not re.search(args.files, rel):
            continue
        checks = sorted(set(anchors.get(SRC + rel) or DEFAULT),
                        key=lambda x: (SLOW.index(x) if x in SLOW else -1, x))
        for s in sites(f)[1]:
            todo.append((rel, s, checks))
    rng.shuffle(todo)
    print(len(todo), 'sites')
    todo = todo[:args.n]
    log = open(str(out / 'log'), 'a')
    with concurrent.futures.ThreadPoolExecutor(args.jobs) as ex:
        fs = [ex.submit(one, i, *t, args) for i, t in enumerate(todo)]
        for x in concurrent.futures.as_completed(fs):
            n, rel, line, kind, what, diff = x.result()
            print(n, rel, line, kind, what, file=log, flush=True)
            if diff:
                (out / '{}-{}.diff'.format(args.seed, n)).write_text(diff)
    shutil.rmtree(args.copy, ignore_errors=True)


if __name__ == '__main__':
    main()
