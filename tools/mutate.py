#!/usr/bin/env python3
"""Systematic first order mutations of a source file, run against checks.

    tools/mutate.py WORK FILE CHECKS [--slots N] [--only A-B] [--list]

WORK: scratch directory for the copies of /repo (one by slot); CHECKS: comma
separated, tried in order until one reports a violation. Prints the mutants
which no check detects. (Development tool: nothing registered uses it.)
"""
import ast
import os
import shutil
import subprocess
import sys
import threading

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'

CMP = {ast.Lt: ['<=', '>='], ast.LtE: ['<', '>'], ast.Gt: ['>=', '<='],
       ast.GtE: ['>', '<'], ast.Eq: ['!='], ast.NotEq: ['=='],
       ast.Is: ['is not'], ast.IsNot: ['is'], ast.In: ['not in'],
       ast.NotIn: ['in']}
CMPTXT = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=',
          ast.Eq: '==', ast.NotEq: '!=', ast.Is: 'is', ast.IsNot: 'is not',
          ast.In: 'in', ast.NotIn: 'not in'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '+', ast.FloorDiv: '*',
       ast.Div: '*', ast.Mod: '//', ast.Pow: '*'}


def mutants(src):
    tree = ast.parse(src)
    lines = src.splitlines(True)
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()))
    data = src.encode()

    def pos(line, col):
        return starts[line - 1] + col

    def span(n):
        return pos(n.lineno, n.col_offset), pos(n.end_lineno,
                                                n.end_col_offset)

    def text(n):
        a, b = span(n)
        return data[a:b].decode()
    out = []

    def rep(n, new, kind):
        a, b = span(n)
        if data[a:b].decode() != new:
            out.append((n.lineno, kind, a, b, new))
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            docs.add(n.value)
    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for new in CMP[type(n.ops[0])]:
                rep(n, '(%s %s %s)' % (text(n.left), new,
                                       text(n.comparators[0])), 'cmp')
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            if isinstance(n.left, ast.Constant) and isinstance(
                    n.left.value, str):
                continue
            rep(n, '(%s %s %s)' % (text(n.left), BIN[type(n.op)],
                                   text(n.right)), 'bin')
            if isinstance(n.op, (ast.Add, ast.Sub)):
                rep(n, '(%s)' % text(n.left), 'left')
        elif isinstance(n, ast.BoolOp):
            op = ' or ' if isinstance(n.op, ast.And) else ' and '
            rep(n, '(' + op.join('(%s)' % text(v) for v in n.values) + ')',
                'bool')
            for i in range(len(n.values)):
                rest = [v for j, v in enumerate(n.values) if j != i]
                o = ' and ' if isinstance(n.op, ast.And) else ' or '
                rep(n, '(' + o.join('(%s)' % text(v) for v in rest) + ')',
                    'boolpart')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            rep(n, '(%s)' % text(n.operand), 'not')
        elif isinstance(n, ast.Constant) and n not in docs:
            if isinstance(n.value, bool):
                rep(n, str(not n.value), 'const')
            elif isinstance(n.value, int):
                rep(n, str(n.value + 1), 'const')
                if n.value > 0:
                    rep(n, str(n.value - 1), 'const')
            elif isinstance(n.value, float):
                rep(n, repr(n.value * 2 + 1), 'const')
            elif n.value is None:
                pass
        elif isinstance(n, ast.Slice):
            a = text(n)
            if n.lower is not None and n.step is None:
                up = text(n.upper) if n.upper is not None else ''
                rep(n, ':' + up, 'slice')
            if n.upper is not None and n.step is None:
                lo = text(n.lower) if n.lower is not None else ''
                rep(n, lo + ':', 'slice')
        elif isinstance(n, ast.Call):
            for i, k in enumerate(n.keywords):
                if k.arg is None:
                    continue
                args = [text(a) for a in n.args] + [
                    ('%s=%s' % (q.arg, text(q.value)) if q.arg else
                     '**' + text(q.value))
                    for q in n.keywords if q is not k]
                rep(n, '%s(%s)' % (text(n.func), ', '.join(args)),
                    'kwarg ' + k.arg)
            if len(n.args) == 2 and not n.keywords and not isinstance(
                    n.args[0], ast.Starred) and not isinstance(
                    n.args[1], ast.Starred):
                rep(n, '%s(%s, %s)' % (text(n.func), text(n.args[1]),
                                       text(n.args[0])), 'swap')
        elif isinstance(n, (ast.Continue,)):
            rep(n, 'break', 'stmt')
            rep(n, 'pass', 'stmt')
        elif isinstance(n, ast.Break):
            rep(n, 'continue', 'stmt')
            rep(n, 'pass', 'stmt')
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete, ast.Raise,
                          ast.Assert)) or (
                isinstance(n, ast.Expr) and n.value not in docs):
            if isinstance(n, ast.Assert):
                continue
            rep(n, 'pass', 'drop')
        if isinstance(n, ast.AugAssign):
            rep(n, '%s = %s' % (text(n.target), text(n.value)), 'aug')
        if isinstance(n, ast.If):
            rep(n.test, 'True', 'if')
            rep(n.test, 'False', 'if')
        if isinstance(n, ast.Return) and n.value is not None:
            pass
        if isinstance(n, ast.Attribute) and n.attr in ('A', 'B', 'X'):
            rep(n, '%s.%s' % (text(n.value), {
                'A': 'B', 'B': 'X', 'X': 'A'}[n.attr]), 'abx')
    seen, res = set(), []
    for m in sorted(out, key=lambda m: (m[0], m[2], m[1], m[4])):
        if m[2:] not in seen:
            seen.add(m[2:])
            new = data[:m[2]] + m[4].encode() + data[m[3]:]
            try:
                ast.parse(new.decode())
            except SyntaxError:
                continue
            res.append((m[0], m[1], data[m[2]:m[3]].decode(), m[4], new))
    return res


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    opts = dict(a[2:].partition('=')[::2] for a in sys.argv[1:]
                if a.startswith('--'))
    work, path, checks = args[:3]
    with open(os.path.join('/repo', path), newline='') as f:
        src = f.read()
    ms = mutants(src)
    idx = list(range(len(ms)))
    # nothing to observe in what is displayed; main is slow (C23)
    skip = set()
    for n in ast.walk(ast.parse(src)):
        if isinstance(n, ast.FunctionDef) and n.name in opts.get(
                'skip', 'main').split(','):
            skip |= set(range(n.lineno, n.end_lineno + 1))
    idx = [i for i in idx if ms[i][0] not in skip and not any(
        w in ms[i][2] for w in ('verbose', 'display', 'print(', 'warnings.',
                                'sys.path', 'sys.std'))]
    if 'lines' in opts:
        a, b = map(int, opts['lines'].split('-'))
        idx = [i for i in idx if a <= ms[i][0] <= b]
    if 'only' in opts:
        keep = set(map(int, opts['only'].split(',')))
        idx = [i for i in idx if i in keep]
    idx = idx[::int(opts.get('step', 1))]
    if 'list' in opts:
        for i in idx:
            print(i, ms[i][:4])
        return
    slots = int(opts.get('slots', 3))
    lock = threading.Lock()
    todo = iter(idx)
    stats = {}
    done = [0]

    def run(slot):
        copy = os.path.join(work, 'mut%d' % slot)
        shutil.rmtree(copy, True)
        shutil.copytree('/repo', copy, symlinks=True)
        env = dict(os.environ, ABX_VERIF_REPO=copy)
        while True:
            with lock:
                i = next(todo, None)
            if i is None:
                break
            line, kind, old, new, data = ms[i]
            with open(os.path.join(copy, path), 'wb') as f:
                f.write(data)
            res = 'SURVIVED'
            for c in checks.split(','):
                p = subprocess.Popen(
                    [PY, os.path.join(ROOT, 'check.py'), c], env=env,
                    cwd=ROOT, stdout=subprocess.PIPE,
                    stderr=subprocess.STDOUT, start_new_session=True)
                try:
                    out, _ = p.communicate(timeout=400)
                except subprocess.TimeoutExpired:
                    os.killpg(p.pid, 9)
                    res = 'timeout ' + c
                    break
                if p.returncode == 1:
                    res = c
                    break
                if p.returncode != 0:
                    res = 'harness %s %s' % (
                        c, out.decode()[-300:].replace('\n', ' '))
                    break
            with lock:
                stats[res.split()[0]] = stats.get(res.split()[0], 0) + 1
                done[0] += 1
                if done[0] % 50 == 0:
                    print(done[0], 'of', len(idx), flush=True)
                if res[:1] != 'C' or 'v' in opts:
                    print('%-9s #%d line %d %s: %s  ->  %s' % (
                        res, i, line, kind, ' '.join(old.split())[:90],
                        ' '.join(new.split())[:90]), flush=True)
        shutil.rmtree(copy, True)
    ts = [threading.Thread(target=run, args=(s,)) for s in range(slots)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    print(path, stats)


if __name__ == '__main__':
    main()
