"""Filters, in the syntax of ABXpy and as predicates of the model

A filter is a dict:
  {'name': 'col_ext'}                      a column used as a filter
  {'var': 'col_ext', 'op': '==', 'value': v}
  {'vars': ['col_ext', 'col_ext'], 'op': '=='}
  {'var': ..., 'form': 'def', ...}         the same, written otherwise

Regressors are columns ('zz_A') or computed by a script ('calc:half:zz_A').
"""
import operator
import os

OPS = {'==': operator.eq, '!=': operator.ne, '<': operator.lt,
       '>=': operator.ge}


NAMES = {'==': 'eq', '!=': 'ne', '<': 'lt', '>=': 'ge'}
# other ways to write [v op ref for v in var]
FORMS = {
    'import': 'import math\nref = {0}\n[v {1} ref for v in {2}]',
    'def': 'import operator\nref = {0}\ndef keep(v):\n'
           '    return operator.{3}(v, ref)\n[keep(v) for v in {2}]',
    'from': 'from operator import {3}\n[{3}(v, {0}) for v in {2}]',
    'generator': 'ref = {0}\nlist(v {1} ref for v in {2})',
    'lambda': 'ref = {0}\nlist(map(lambda v: v {1} ref, {2}))',
    'numpy': 'import numpy as np\nnp.array({2}, dtype=object) {1} {0}',
    'loop': 'out = []\nfor v in {2}:\n    out.append(v {1} {0})\nout',
    'with': 'import contextlib\nwith contextlib.suppress(KeyError):\n'
            '    ref = {0}\n[v {1} ref for v in {2}]',
    'count': '[2 * int(v {1} {0}) for v in {2}]  # any true value',
    'minus': '[-int(v {1} {0}) for v in {2}]',
    'body': 'def keep():\n    return [v {1} {0} for v in {2}]\nkeep()',
    'doc': '"""keeps some items"""\n[not not (v {1} {0}) for v in {2}]',
    'nested': 'ref = [{0}]\n[all(v {1} w for w in ref) for v in {2}]',
    'index': '[{2}[i] {1} {0} for i in range(len({2}))]',
    'file': 'import operator\nref = {0}\ndef keep(v):\n'
            '    return operator.{3}(v, ref)\n[keep(v) for v in {2}]\n',
    'deep': 'def all_of(ref):\n    def keep(v):\n'
            '        return v {1} ref\n    return keep\n'
            'keep = all_of({0})\nlist(map(keep, {2}))',
}


def text(f, folder=None):
    if 'name' in f:
        return f['name']
    if 'var' in f:
        lit = repr(f['value'])
        form = f.get('form')
        if form is None:
            return '[v %s %s for v in %s]' % (f['op'], lit, f['var'])
        script = FORMS[form].format(lit, f['op'], f['var'], NAMES[f['op']])
        if form != 'file':
            return script
        path = os.path.join(folder, 'filter%d.py' % len(os.listdir(folder)))
        with open(path, 'w') as h:
            h.write(script)
        return path
    return '[v %s w for v, w in zip(%s, %s)]' % (
        (f['op'],) + tuple(f['vars']))


# ---------------------------------------------------- computed regressors
CALC = {
    'neg': ('np.array({}) - 1', lambda v: v - 1),
    'half': ('np.array({}) * .5', lambda v: v * .5),
    'flag': ('np.array([v != 0 for v in {}])', lambda v: v != 0),
    # integers or floating point numbers
    'part': ('np.array([v / 4 if v % 2 else v for v in {}])',
             lambda v: v / 4 if v % 2 else v),
    'code': ('np.array([ord(str(v)[0]) for v in {}])',
             lambda v: ord(str(v)[0])),
    'big': ('np.array([10 ** 18 * v for v in {}])', lambda v: 10 ** 18 * v),
}


def is_calc(r):
    return r.startswith('calc:')


def reg_var(r):
    """the column used by a regressor"""
    return r.split(':')[2] if is_calc(r) else r


def reg_text(r):
    if not is_calc(r):
        return r
    _, name, var = r.split(':')
    return 'import numpy as np\n[%s]' % CALC[name][0].format(var)


def reg_value(r, v):
    return CALC[r.split(':')[1]][1](v) if is_calc(r) else v


def split(var):
    if '_' in var:
        col, ext = var.rsplit('_', 1)
        return col, ext
    return var, ''


# columns of auxiliary files: determined by another column
PARENTS = {'oo': 'on', 'aa': 'ac', 'bb': 'by'}


def root(col):
    return PARENTS.get(col, col)


def among(col, names):
    """one of some columns, or determined by one of them"""
    return col in names or root(col) in names


def used(f):
    if 'name' in f:
        return [f['name']]
    if 'var' in f:
        return [f['var']]
    return list(f['vars'])


def value(var, a, b, x, on, across, by):
    col, ext = split(var)
    if among(col, by):
        return a[col]
    if ext == 'A':
        return a[col]
    if ext == 'B':
        return b[col]
    if ext == 'X':
        return x[col]
    if ext == '1':
        return a[col]
    if ext == '2':
        return b[col] if among(col, [on]) else x[col]
    raise ValueError(var)


def evaluate(f, get):
    if 'name' in f:
        return bool(get(f['name']))
    if 'var' in f:
        return OPS[f['op']](get(f['var']), f['value'])
    return OPS[f['op']](get(f['vars'][0]), get(f['vars'][1]))


def is_generic(f, by):
    """only unsuffixed columns, besides the by columns"""
    rest = [v for v in used(f) if not among(split(v)[0], by)]
    return bool(rest) and all(split(v)[1] == '' for v in rest)


def is_by(f, by):
    return all(among(split(v)[0], by) for v in used(f))


def ambiguous(f, by):
    rest = [v for v in used(f) if not among(split(v)[0], by)]
    exts = {split(v)[1] == '' for v in rest}
    return len(exts) == 2


def keep(filters, on, across, by):
    """predicate on the rows of a triplet"""
    def fun(a, b, x):
        for f in filters:
            if is_generic(f, by):
                for r in (a, b, x):
                    if not evaluate(f, lambda v: r[split(v)[0]]):
                        return False
            elif not evaluate(
                    f, lambda v: value(v, a, b, x, on, across, by)):
                return False
        return True
    return fun


def keep_item(filters, by):
    """predicate on single items: generic and by filters only"""
    def fun(r):
        for f in filters:
            if is_generic(f, by) or is_by(f, by):
                if not evaluate(f, lambda v: r[split(v)[0]]):
                    return False
        return True
    return fun


def level(f, on, across, by):
    """by, generic, block (labels of the A cell), or item"""
    if is_by(f, by):
        return 'by'
    if is_generic(f, by):
        return 'generic'
    for v in used(f):
        col, ext = split(v)
        if among(col, by):
            continue
        if ext == '1' or (ext in 'AX' and among(col, [on])):
            continue
        return 'item'
    return 'block'
