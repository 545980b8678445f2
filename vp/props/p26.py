"""P26: converted files are whole conversions of their own source."""
import os
import posixpath
import re
import stat
import urllib.parse
import zipfile

from disseminate.builders.exceptions import BuildError

from ..project import Project, header

RULE = ("Random projects with equations, diagrams, scaled diagrams and images "
        "that need conversion (some of them the same in several documents), "
        "for html, xhtml, tex, pdf and epub, built with stand-ins of the "
        "conversion programs in the path. The stand-ins write the chain of "
        "conversions with the converted contents, in two halves, with random "
        "delays, and some fail (exit code, killed, half a file, no file) or "
        "print much. Without faults the build has to be done and each image "
        "has to be the whole conversion of its own source; with faults the "
        "build has to fail, and a build without the faults (in a new session "
        "or after an edit in the same session) has to complete it. "
        "Non-trivial: the same source is converted twice, or a fault.")
ASSUMPTIONS = ['The programs are stand-ins: only how they are called, in '
               'which order and with which files is decided.']
SHRINK_RUNS = 60

TOOL = r'''#!/bin/sh
name=${0##*/}
opts=
out=
in=
prev=
for a in "$@"; do
  if [ "$prev" = -o ]; then out=$a
  else case "$a" in
    -o) ;;
    -output-directory=*) dir=${a#*=};;
    -jobname=*) job=${a#*=};;
    /*) if [ -z "$in" ]; then in=$a; else out=$a; fi;;
    *) opts="$opts $a";;
  esac; fi
  prev=$a
done
[ $name = pdflatex ] && out=$dir/$job.pdf
echo "$name" >> "$VP_TOOLS/log"
n=$(wc -l < "$VP_TOOLS/log")
delay=$(sed -n "$((n % 7 + 1))p" "$VP_TOOLS/delays")
if ! text=$(cat "$in"); then exit 8; fi
case "$text" in
  "<"*) case "$text" in *"</pdflatex>"|*"</pdf2svg>"|*"</asy>"|*"</source>"|*"</pdf-crop-margins>"|*"</rsvg-convert>") ;;
    *) echo incomplete "$in" >> "$VP_TOOLS/incomplete"; exit 9;; esac;;
esac
fault=
while read -r tool marker kind; do
  if [ "$tool" = $name ]; then
    case "$text" in *"$marker"*) fault=$kind;; esac
  fi
done < "$VP_TOOLS/faults"
case $fault in
  exit) exit 3;;
  nothing) exit 0;;
  noisy) i=0; line=0123456789012345678901234567890123456789012345678901234567890
    while [ $i -lt 3000 ]; do echo $line$line; i=$((i+1)); done;;
  noisyerr) i=0; line=012345678901234567890123456789012345678901234567890123456789
    while [ $i -lt 3000 ]; do echo $line$line >&2; i=$((i+1)); done;;
esac
echo "<$name$opts>" > "$out"
sleep $delay
[ "$fault" = half ] && exit 4
[ "$fault" = kill ] && kill -9 $$
printf '%s\n' "$text" >> "$out"
echo "</$name>" >> "$out"
'''
NAMES = ['pdflatex', 'pdf-crop-margins', 'pdf2svg', 'rsvg-convert', 'asy',
         'convert']


def tools(c):
    """Write the stand-ins and put them in the path."""
    top = c.scratch / 'tools'
    (top / 'bin').mkdir(parents=True)
    for n in NAMES:
        p = top / 'bin' / n
        p.write_text(TOOL)
        p.chmod(p.stat().st_mode | stat.S_IEXEC)
    (top / 'log').write_text('')
    (top / 'faults').write_text('')
    (top / 'delays').write_text(''.join(
        c.choice(['0', '0.005', '0.02', '0.05']) + '\n' for _ in range(7)))
    os.environ['VP_TOOLS'] = str(top)
    path = os.environ['PATH'].split(':')
    os.environ['PATH'] = ':'.join(
        [str(top / 'bin')] + [d for d in path if 'tools/bin' not in d])
    return top


class Item:
    def __init__(self, kind, marker, opt=''):
        self.kind = kind
        self.marker = marker
        self.opt = opt

    def source(self):
        if self.kind == 'eq':
            return '@eq{' + self.marker + '}'
        if self.kind == 'block':
            return '@eq[env=align*]{' + self.marker + '}'
        if self.kind == 'asy':
            return '@asy{' + self.marker + '}'
        if self.kind == 'scaled':
            return '@asy[scale=' + self.opt + ']{' + self.marker + '}'
        return '@img{' + self.opt + self.marker + '.' + self.kind + '}'

    def chain(self, target):
        """The programs from the last to the first, with what they get."""
        svg = target in ('html', 'xhtml')
        if self.kind in ('eq', 'block'):
            return ['pdf2svg', 'pdf-crop-margins', 'pdflatex'] if svg else None
        if self.kind == 'asy':
            return ['pdf2svg', 'asy'] if svg else ['asy']
        if self.kind == 'scaled':
            return ['rsvg-convert', 'pdf2svg', 'asy'] if svg else ['asy']
        if self.kind == 'pdf':
            return ['pdf2svg'] if svg else []
        return ['convert']

    def key(self):
        return (self.kind, self.marker, self.opt)


def item(c, n):
    k = c.weighted([(4, 'eq'), (1, 'block'), (2, 'asy'), (2, 'scaled'),
                    (2, 'pdf'), (1, 'tif')])
    m = 'mk' + c.choice('abcd')
    if k == 'scaled':
        return Item(k, m, c.choice(['2.0', '3.0']))
    if k in ('pdf', 'tif'):
        return Item(k, m, c.weighted([(4, ''), (1, 'two words/'),
                                      (1, 'two words/q r ')]))
    return Item(k, m)


def project(c):
    p = Project(c.scratch / c.weighted([(4, 'p'), (1, 'my project')]))
    names = ['main.dm'] + c.subset(['a.dm', c.choice(['d/b.dm', 'd/b.dm',
                                                      'd e/b c.dm'])], 0.5)
    docs = {n: c.list(lambda: item(c, n), 0, 5, 3) for n in names}
    targets = c.choice([['html'], ['html'], ['html', 'tex'], ['pdf'],
                        ['html', 'pdf'], ['html', 'epub'],
                        ['html', 'xhtml', 'tex'], ['epub', 'pdf']])
    return p, names, docs, targets


def write_doc(p, n, names, docs, targets, extra=''):
    head = {}
    if n == 'main.dm':
        head['targets'] = ', '.join(targets)
        if names[1:]:
            head['include'] = '\n' + '\n'.join('  ' + x for x in names[1:])
    p.write(n, header(**head) + '\n\n'.join(
        ['P{}: {} Q'.format(j, i.source()) for j, i in enumerate(docs[n])] +
        ['End.' + extra]) + '\n')


def find_images(text, target):
    if target == 'tex':
        got = re.findall(r'\\includegraphics(?:\[[^]]*\])?\{\{(.*?)\}(\.\w+)\}',
                         text)
        return [a + b for a, b in got]
    return [urllib.parse.unquote(u)
            for u in re.findall(r'<img [^>]*src="([^"]*)"', text)
            if '/icons/' not in u]


def check_image(c, text, i, target, where):
    """text: the contents of the image of an item."""
    lines = text.split('\n')
    want = list(i.chain(target))
    for w in want:
        m = re.match(r'<([\w-]+)([^>]*)>$', lines[0]) if lines else None
        c.check(m and m.group(1) == w, lambda: '{}: expected a conversion '
                'with {}, found {!r}'.format(where, w, lines[:3]),
                key='chain')
        while lines and not lines[-1]:
            lines.pop()
        c.check(lines[-1] == '</' + w + '>', lambda: '{}: the output of {} '
                'is not whole: {!r}'.format(where, w, lines[-3:]),
                key='whole')
        if w == 'rsvg-convert':
            c.check(i.opt in m.group(2), lambda: '{}: scale {} not in '
                    '{!r}'.format(where, i.opt, m.group(2)), key='scale')
        lines = lines[1:-1]
    rest = '\n'.join(lines)
    marks = set(re.findall(r'mk[a-d]', rest))
    c.check(marks == {i.marker}, lambda: '{}: the image is of {} and not of '
            '{}'.format(where, marks, i.marker), key='source')
    if i.kind in ('pdf', 'tif'):
        c.eq(rest, '<source>\n{}{}\n</source>'.format(i.opt, i.marker),
             where + ': source', key='source')
    if i.kind in ('eq', 'block'):
        c.check(('align*' in rest) == (i.kind == 'block'),
                lambda: '{}: another kind of equation'.format(where),
                key='source')


def check_outputs(c, p, docs, targets):
    for n, items in docs.items():
        for t in targets:
            if t == 'epub':
                continue
            out = p.target_root / t / (n[:-3] + '.' + t)
            c.check(out.is_file(), lambda: 'no {}'.format(out), key='output')
            text = out.read_text()
            if t == 'pdf':
                c.check(text.startswith('<pdflatex') and
                        text.strip().endswith('</pdflatex>'),
                        lambda: '{} is not whole'.format(out), key='whole')
                continue
            got = find_images(text, t)
            want = [i for i in items if i.chain(t) is not None]
            c.eq(len(got), len(want), 'number of images in ' + str(out))
            for u, i in zip(got, want):
                f = out.parent / u
                c.check(f.is_file(), lambda: '{}: no image {}'.format(n, u),
                        key='missing image')
                check_image(c, f.read_text(), i, t, '{} in the {} of '
                            '{}'.format(i.source(), t, n))
    if 'epub' in targets:
        with zipfile.ZipFile(str(p.target_root / 'epub/main.epub')) as z:
            for n, items in docs.items():
                x = 'xhtml/' + n[:-3] + '.xhtml'
                got = find_images(z.read(x).decode(), 'xhtml')
                c.eq(len(got), len(items), 'number of images in ' + x)
                for u, i in zip(got, items):
                    f = posixpath.normpath(posixpath.join(
                        posixpath.dirname(x), u))
                    c.check(f in z.namelist(), lambda: 'no {} in the '
                            'epub'.format(f), key='missing image')
                    check_image(c, z.read(f).decode(), i, 'xhtml',
                                '{} in {} of the epub'.format(i.source(), x))


def prop(c):
    top = tools(c)
    p, names, docs, targets = project(c)
    for m in 'abcd':
        for ext in ('pdf', 'tif'):
            for d in ('', 'two words/', 'two words/q r '):
                p.write(d + 'mk' + m + '.' + ext,
                        '<source>\n{}mk{}\n</source>'.format(d, m))
    for n in names:
        write_doc(p, n, names, docs, targets)
        c.note('{}: {}'.format(n, [i.source() for i in docs[n]]))
    keys = [i.key() for n in names for i in docs[n]]
    used = [(t, i.marker) for n in names for i in docs[n]
            for tg in targets
            for t in (i.chain({'pdf': 'tex', 'epub': 'xhtml'}.get(tg, tg)) or
                      [])]
    fault = None
    if used and c.bool(0.4):
        tool, marker = c.choice(sorted(set(used)))
        fault = c.choice(['exit', 'nothing', 'half', 'kill', 'noisy',
                          'noisyerr'])
        (top / 'faults').write_text('{} {} {}\n'.format(tool, marker, fault))
        c.note('fault: {} {} {}'.format(tool, marker, fault))
    c.note('targets: {}'.format(targets))
    env = p.open()
    status = error = None
    try:
        status = env.build()
    except BuildError as e:
        error = str(e)
    def stray():
        f = top / 'incomplete'
        return f.is_file() and f.read_text()
    if fault in (None, 'noisy', 'noisyerr'):
        c.check(not stray(), lambda: 'a program was started on a file that '
                'is not whole: ' + stray(), key='incomplete')
        c.check(error is None, lambda: 'the build failed: {}'.format(error),
                key='fails')
        c.eq(status, 'done', 'status of the build')
        check_outputs(c, p, docs, targets)
    else:
        c.check(status != 'done', lambda: 'the build is done, although '
                '{} had the fault "{}"'.format(tool, fault), key='fault lost')
        (top / 'faults').write_text('')
        if c.bool():
            c.note('new session')
            env = p.open()
            c.eq(env.build(), 'done', 'status of the build after the fault')
        else:
            n = c.choice(names)
            c.note('edit of ' + n)
            write_doc(p, n, names, docs, targets, extra=' Edited.')
            if c.bool():
                c.eq(p.doc.build(), 'done',
                     'status of the build after the fault')
            else:
                p.doc.load()
                c.eq(env.build(), 'done',
                     'status of the build after the fault')
        check_outputs(c, p, docs, targets)
    if fault or len(set(keys)) < len(keys):
        c.nontrivial([keys, targets, fault])


PARTS = [('conversions', prop, 240, 3000)]
