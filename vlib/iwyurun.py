"""Runs the built IWYU and reads its report (independently of fix_includes)."""
import os
import re
import subprocess

from vlib import build

BIN = None


def prepare():
    global BIN
    BIN = build.iwyu()


class FileReport:
    def __init__(self):
        self.correct = False
        self.add, self.remove, self.full = [], [], []   # (text, comment) / (text, first, last) / (text, comment)
        self.seen = []

    def full_includes(self):
        return [t[len('#include '):] for t, c in self.full if t.startswith('#include ')]

    def full_fwds(self):
        return [t for t, c in self.full if not t.startswith('#')]

    def add_includes(self):
        return [t[len('#include '):] for t, c in self.add if t.startswith('#include ')]

    def add_fwds(self):
        return [t for t, c in self.add if not t.startswith('#')]


class Garbled(Exception):
    pass


def split_comment(line):
    m = re.match(r'(.*?)\s*//\s?(.*)$', line)
    if line.startswith('#include'):
        m = re.match(r'(#include\s+[<"][^>"]*[>"])\s*(?://\s?(.*))?$', line)
        if not m:
            raise Garbled('include line %r' % line)
        return m.group(1), m.group(2)
    return (m.group(1), m.group(2)) if m else (line, None)


def parse(text, strict=True):
    """Report text -> ({file: FileReport}, other lines)."""
    files, other = {}, []
    cur = None
    state = None
    for line in text.split('\n'):
        m = re.match(r'\((.*) has correct #includes/fwd-decls\)$', line)
        if m and state is None:
            f = files.setdefault(m.group(1), FileReport())
            f.correct = True
            f.seen.append('correct')
            continue
        m = re.match(r'(.*) should add these lines:$', line)
        if m:
            if state is not None:
                raise Garbled('add section inside a report')
            cur = files.setdefault(m.group(1), FileReport())
            cur.name = m.group(1)
            cur.seen.append('add')
            state = 'add'
            continue
        m = re.match(r'(.*) should remove these lines:$', line)
        if m:
            if state != 'add' or m.group(1) != cur.name:
                raise Garbled('remove section out of place')
            cur.seen.append('remove')
            state = 'remove'
            continue
        m = re.match(r'The full include-list for (.*):$', line)
        if m:
            if state != 'remove' or m.group(1) != cur.name:
                raise Garbled('full list out of place')
            cur.seen.append('full')
            state = 'full'
            continue
        if line == '---' and state == 'full':
            state = None
            continue
        if state is None:
            if line.strip():
                other.append(line)
            continue
        if not line.strip():
            continue
        if state == 'add':
            cur.add.append(split_comment(line))
        elif state == 'full':
            cur.full.append(split_comment(line))
        else:
            m = re.match(r'- (.*?)  // lines (\d+)-(\d+)$', line)
            if m:
                cur.remove.append((m.group(1), int(m.group(2)), int(m.group(3))))
            elif strict != 'lines' and line.startswith('- ') and '//' not in line:
                cur.remove.append((line[2:], 0, 0))     # --no_comments
            else:
                raise Garbled('removal %r' % line)
    if state is not None and strict is not False:
        raise Garbled('report not finished')
    return files, other


class Result:
    pass


def run(cwd, args, timeout=60, binary=None):
    p = subprocess.run([binary or BIN] + list(args), cwd=cwd, stdin=subprocess.DEVNULL,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout,
                       preexec_fn=None)
    r = Result()
    r.status = p.returncode
    r.stdout = p.stdout.decode('utf-8', 'surrogateescape')
    r.stderr = p.stderr.decode('utf-8', 'surrogateescape')
    r.text = r.stdout + r.stderr
    return r


def write_tree(root, files):
    for name, text in files.items():
        p = os.path.join(root, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w', encoding='utf-8', newline='') as f:
            f.write(text)
