"""Scratch projects driven through the public classes of disseminate."""
import os
import pathlib

import jinja2

from disseminate.builders import Environment
from disseminate.paths import SourcePath, TargetPath

EPOCH = 1600000000


def cache_templates():
    """Parse and compile each text of a template once in a process.

    (A function of the jinja2 library, whose results aren't changed: only
    done for speed.)"""
    def cached(name):
        method = getattr(jinja2.Environment, name)
        memo = {}

        def wrapper(self, source, *args):
            # (the repository gives the tuple of a loader)
            text = source[:2] if isinstance(source, tuple) else source
            key = (text, args, self.autoescape if isinstance(
                self.autoescape, bool) else id(self.autoescape),
                self.trim_blocks, self.lstrip_blocks,
                self.block_start_string, self.variable_start_string,
                self.comment_start_string, self.undefined)
            if key not in memo:
                memo[key] = method(self, source, *args)
            return memo[key]
        setattr(jinja2.Environment, name, wrapper)
    cached('parse')
    cached('compile')


cache_templates()


class Project:
    """A project in a scratch directory.

    Files are written with strictly increasing modification times (a second, or
    'step', apart), so that the time resolution of the filesystem plays no role.
    """

    def __init__(self, root, src='src', main='main.dm', target_root=None):
        self.root = pathlib.Path(root)
        self.src = self.root / src
        self.src.mkdir(parents=True, exist_ok=True)
        self.target_root = (pathlib.Path(target_root)
                            if target_root is not None else self.root)
        self.main = main
        self.tick = EPOCH
        self.step = 1
        self.env = None

    def write(self, path, text, mtime=True):
        p = self.src / path
        p.parent.mkdir(parents=True, exist_ok=True)
        if isinstance(text, bytes):
            p.write_bytes(text)
        else:
            with open(str(p), 'w', encoding='utf-8', newline='') as f:
                f.write(text)
        self.touch(path)
        return p

    def touch(self, path):
        self.tick += self.step
        os.utime(str(self.src / path), (self.tick, self.tick))

    def open(self, target_root=None):
        """A new environment (a fresh load of the project)."""
        root = self.target_root if target_root is None else target_root
        sp = SourcePath(project_root=self.src, subpath=self.main)
        self.env = Environment(src_filepath=sp,
                               target_root=TargetPath(target_root=root))
        return self.env

    @property
    def doc(self):
        return self.env.root_document

    def docs(self):
        return self.doc.documents_list(only_subdocuments=False,
                                       recursive=True)


def header(**entries):
    """Write a header from entries; lists become comma separated."""
    if not entries:
        return ''
    lines = ['---']
    for k, v in entries.items():
        if isinstance(v, (list, tuple)):
            v = ', '.join(v)
        lines.append('{}: {}'.format(k, v))
    lines.append('---')
    return '\n'.join(lines) + '\n'


def one_doc(root, text, targets='html, xhtml, tex, txt', **entries):
    """Load a single document; returns (project, document)."""
    p = Project(root)
    entries = dict(entries)
    entries['targets'] = targets
    p.write('main.dm', header(**entries) + text)
    p.open()
    return p, p.doc
