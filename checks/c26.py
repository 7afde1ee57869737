"""C26: the hierarchy of columns stays a tree under any sequence of edits"""
import itertools

from lib.core import require

ID = 'C26'
BOUNDS = {
    'quick': 'all the states of a forest of 4 or 5 nodes reachable by the '
             'edits (193 and 2721 ordered labelled forests), all the edits '
             'in each of them (addition, removal, clearing, replacement by '
             'up to 2 nodes, insertion below and above, addition of nested '
             'lists, refused ones), all the queries before and after; all '
             'the nested lists of up to 6 nodes',
    'thorough': 'as quick with replacement by up to 3 nodes and nested lists '
                'of up to 8 nodes',
}


def cases(tier):
    deep = tier == 'thorough'
    out = []
    for n, parts in ((4, 4), (5, 48)):
        for part in range(parts):
            out.append({'nodes': n, 'part': part, 'parts': parts,
                        'width': 3 if deep else 2})
    for n in range(1, 9 if deep else 7):
        out.append({'lists': n})
    out.append({'wrong': 1})
    return out


# ------------------------------------------------------------------- model
# a state gives the children of each node; the parent follows
def parents(state):
    p = [None] * len(state)
    for i, c in enumerate(state):
        for j in c:
            p[j] = i
    return p


def pre(state, i):
    out = [i]
    for j in state[i]:
        out += pre(state, j)
    return out


def post(state, i):
    out = []
    for j in state[i]:
        out += post(state, j)
    return out + [i]


def up(state, i):
    p = parents(state)
    out = [i]
    while p[out[-1]] is not None:
        out.append(p[out[-1]])
    return out


def put(state, changes):
    s = list(state)
    for i, c in changes.items():
        s[i] = tuple(c)
    return tuple(s)


def nested(roots):
    """nested lists made of one or two free nodes, in their order"""
    out = []
    for a in roots:
        for b in roots:
            if a != b:
                out += [(a, (b,)), (a, b)]
                for c in roots:
                    if c not in (a, b):
                        out += [(a, (b,), c), (a, (b, (c,)))]
    return out


def attach(state, i, spec):
    """the nodes of the nested list become the last children of i"""
    last = None
    for x in spec:
        if isinstance(x, tuple):
            state = attach(state, last, x)
        else:
            state = put(state, {i: state[i] + (x,)})
            last = x
    return state


def edits(state, width):
    """(operation, new state or None when refused, result)"""
    n = len(state)
    par = parents(state)
    root = [up(state, i)[-1] for i in range(n)]
    roots = [i for i in range(n) if par[i] is None]
    for i in range(n):
        free = [r for r in roots if r != root[i]]
        yield ('clear', i), put(state, {i: ()}), list(state[i])
        for r in free:
            yield ('add', i, r), put(state, {i: state[i] + (r,)}), None
            yield ('inject', i, r), put(state, {
                r: state[r] + state[i], i: (r,)}), r
        for spec in nested(free):
            yield ('list', i, spec), attach(state, i, spec), None
        if par[i] is None:
            yield ('remove', i), None, None
            for r in free:
                yield ('reparent', i, r), None, None
                yield ('replace', i, (r,)), None, None
            continue
        p = par[i]
        at = state[p].index(i)
        yield ('remove', i), put(state, {
            p: state[p][:at] + state[p][at + 1:]}), at
        for k in range(width + 1):
            for nodes in itertools.permutations(free, k):
                yield ('replace', i, nodes), put(state, {
                    p: state[p][:at] + nodes + state[p][at + 1:]}), None
        for r in free:
            yield ('reparent', i, r), put(state, {
                p: state[p][:at] + (r,) + state[p][at + 1:],
                r: state[r] + (i,)}), r


_reach = {}


def reachable(n, width):
    if (n, width) not in _reach:
        first = ((),) * n
        seen = {first: ()}
        todo = [first]
        for s in todo:
            for op, new, _ in edits(s, width):
                if new is not None and new not in seen:
                    seen[new] = seen[s] + (op,)
                    todo.append(new)
        _reach[(n, width)] = seen
    return _reach[(n, width)]


# --------------------------------------------------------------- execution
def make(n):
    from ABXpy.misc import tinytree

    class Node(tinytree.Tree):
        prop = tinytree.Tree.treeProp('prop')
    nodes = []
    for i in range(n):
        node = Node()
        node.name = 'n%d' % i
        node.even = i % 2 == 0
        if i % 3 == 1:
            node.extra = 'x%d' % i
        nodes.append(node)
    return nodes


def tree_list(nodes, spec):
    return [tree_list(nodes, x) if isinstance(x, tuple) else nodes[x]
            for x in spec]


def apply(nodes, op):
    node = nodes[op[1]]
    if op[0] == 'add':
        return node.addChild(nodes[op[2]])
    if op[0] == 'list':
        return node.addChildrenFromList(tree_list(nodes, op[2]))
    if op[0] == 'replace':
        return node.replace(*[nodes[i] for i in op[2]])
    if op[0] in ('inject', 'reparent'):
        return getattr(node, op[0])(nodes[op[2]])
    return getattr(node, op[0])()


def number(nodes, seq):
    where = {id(x): i for i, x in enumerate(nodes)}
    return [where.get(id(x)) for x in seq]


def structure(nodes, state, what):
    par = parents(state)
    for i, x in enumerate(nodes):
        got = number(nodes, x.children)
        require(got == list(state[i]), '%s: children of node %d: %s instead '
                'of %s', what, i, got, state[i])
        want = None if par[i] is None else nodes[par[i]]
        require(x.parent is want, '%s: wrong parent of node %d', what, i)


def first(seq):
    for x in seq:
        return x
    return None


def queries(nodes, state, what):
    n = len(nodes)
    par = parents(state)

    def same(name, i, got, want):
        require(got == want, '%s: %s of node %d: %s instead of %s', what,
                name, i, got, want)
    num = lambda seq: number(nodes, seq)
    one = lambda x: None if x is None else num([x])[0]
    for i, x in enumerate(nodes):
        path = up(state, i)
        sub = pre(state, i)
        whole = pre(state, path[-1])
        at = whole.index(i)
        same('preOrder', i, num(x.preOrder()), sub)
        same('postOrder', i, num(x.postOrder()), post(state, i))
        same('pathToRoot', i, num(x.pathToRoot()), path)
        same('pathFromRoot', i, num(x.pathFromRoot()), path[::-1])
        same('getRoot', i, one(x.getRoot()), path[-1])
        same('getDepth', i, x.getDepth(), len(path))
        same('count', i, x.count(), len(sub))
        brothers = [i] if par[i] is None else list(state[par[i]])
        same('siblings', i, num(x.siblings()), brothers)
        for j, y in enumerate(nodes):
            same('isDescendantOf', i, bool(x.isDescendantOf(y)),
                 i in up(state, j))
            same('isSiblingOf', i, bool(x.isSiblingOf(y)),
                 i in ([j] if par[j] is None else state[par[j]]))
            name = 'n%d' % j
            same('findChild', i, one(x.findChild(name=name)),
                 j if j in sub else None)
            same('findParent', i, one(x.findParent(name=name)),
                 j if j in path[1:] else None)
            same('findForwards', i, one(x.findForwards(name=name)),
                 j if j in whole[at + 1:] else None)
            same('findBackwards', i, one(x.findBackwards(name=name)),
                 j if j in whole[:at] else None)
        for kw, f in (({'even': True}, lambda k: k % 2 == 0),
                      ({'even': False}, lambda k: k % 2 == 1),
                      ({'extra': 'x1'}, lambda k: k == 1),
                      ({'even': False, 'extra': 'x1'}, lambda k: k == 1),
                      ({'even': True, 'extra': 'x1'}, lambda k: False),
                      ({'nothing': None}, lambda k: False)):
            same('findChild', i, one(x.findChild(**kw)),
                 first(filter(f, sub)))
            same('findParent', i, one(x.findParent(**kw)),
                 first(filter(f, path[1:])))
            same('findForwards', i, one(x.findForwards(**kw)),
                 first(filter(f, whole[at + 1:])))
            same('findBackwards', i, one(x.findBackwards(**kw)),
                 first(filter(f, whole[:at][::-1])))
        same('findChild', i, one(x.findChild(
            lambda k: k.even, lambda k: k is not x)),
            first(k for k in sub if k % 2 == 0 and k != i))
        same('findChild', i, one(x.findChild(
            lambda k: k is not x, even=False)),
            first(k for k in sub if k % 2 and k != i))
        same('getPrevious', i, one(x.getPrevious()),
             whole[at - 1] if at else None)
        same('getNext', i, one(x.getNext()),
             whole[at + 1] if at + 1 < len(whole) else None)
        extra = ['x%d' % k for k in path if k % 3 == 1]
        same('findAttr', i, x.findAttr('extra'), first(extra))
        same('findAttr', i, x.findAttr('extra', 5), (extra + [5])[0])
        same('findAttr', i, x.findAttr('even'), i % 2 == 0)
        same('attrsToRoot', i, list(x.attrsToRoot('extra')), extra)
        same('attrsToRoot', i, list(x.attrsToRoot('name')),
             ['n%d' % k for k in path])
        if par[i] is None:
            try:
                x.index()
            except ValueError:
                pass
            else:
                require(False, '%s: index of a root', what)
        else:
            same('index', i, x.index(), state[par[i]].index(i))
    # values looked up on the path to the root
    for j in range(n):
        nodes[j].prop = 'p%d' % j
        for i, x in enumerate(nodes):
            path = up(state, i)
            try:
                got = x.prop
            except ValueError:
                got = None
            same('property', i, got, 'p%d' % j if j in path else None)
        del nodes[j].__dict__['prop']


def robust(make_state, state, what):
    """nodes removed during a traversal: the others are still visited"""
    for i in range(len(state)):
        for order, want in (('preOrder', pre(state, i)),
                            ('postOrder', post(state, i))):
            for k in want:
                if k == i:
                    continue
                nodes = make_state()
                got = []
                for x in getattr(nodes[i], order)():
                    got += number(nodes, [x])
                    if got[-1] == k:
                        x.remove()
                require(got == want, '%s: %s of node %d, removing node %d: '
                        '%s', what, order, i, k, got)


def run(case, ctx):
    if 'lists' in case:
        return lists(case['lists'], ctx)
    if 'wrong' in case:
        return wrong(ctx)
    n = case['nodes']
    states = reachable(n, case['width'])

    def build(state):
        nodes = make(n)
        for op in states[state]:
            apply(nodes, op)
        return nodes
    for k, state in enumerate(states):
        if k % case['parts'] != case['part']:
            continue
        what = 'after %s' % (states[state],)
        nodes = build(state)
        structure(nodes, state, what)
        queries(nodes, state, what)
        structure(nodes, state, what + ' and the queries')
        if n < 5 or k % 8 == 0:
            robust(lambda: build(state), state, what)
        ctx.state(state)
        for op, new, result in edits(state, case['width']):
            nodes = build(state)
            what = 'after %s, %s' % (states[state], op)
            try:
                got = apply(nodes, op)
            except ValueError:
                require(new is None, '%s: refused', what)
                structure(nodes, state, what)
                ctx.step()
                continue
            require(new is not None, '%s: not refused', what)
            structure(nodes, new, what)
            if op[0] in ('inject', 'reparent'):
                got = number(nodes, [got])[0]
            elif op[0] == 'clear':
                got = number(nodes, got)
            if result is not None:
                require(got == result, '%s: returned %s', what, got)
            ctx.step()


def shapes(n):
    """nested lists of n nodes: a list of (node, children)"""
    if n == 0:
        return [()]
    out = []
    for k in range(n):
        for below in shapes(k):
            for rest in shapes(n - 1 - k):
                out.append(((below),) + rest)
    return out


def label(shape, at, empty):
    """nested list of numbers in pre-order, {node: children}"""
    spec, children, kids = [], {}, []
    for below in shape:
        me = at
        at += 1
        inner, more, at, under = label(below, at, empty)
        spec.append(me)
        if below or empty:
            spec.append(tuple(inner))
        children.update(more)
        children[me] = tuple(under)
        kids.append(me)
    return spec, children, at, kids


def lists(n, ctx):
    from ABXpy.misc import tinytree
    for shape in shapes(n):
        for empty in (False, True):
            spec, children, _, kids = label(shape, 0, empty)
            state = tuple(children[i] for i in range(n))
            for kind in (list, tuple):
                def conv(s, nodes):
                    return kind(conv(x, nodes) if isinstance(x, tuple)
                                else nodes[x] for x in s)
                what = 'nested %s' % (spec,)
                nodes = make(n)
                heads = tinytree.constructFromList(conv(spec, nodes))
                require(number(nodes, heads) == kids, '%s: heads', what)
                structure(nodes, state, what)
                if kind is list:
                    queries(nodes, state, what)
                for how in range(2):
                    nodes = make(n)
                    if how:
                        top = tinytree.Tree(conv(spec, nodes))
                    else:
                        top = tinytree.Tree()
                        top.addChildrenFromList(conv(spec, nodes))
                    require(number(nodes, top.children) == kids and
                            top.parent is None, '%s: children', what)
                    for i in kids:
                        require(nodes[i].parent is top, '%s: parent', what)
                        nodes[i].parent = None
                    structure(nodes, state, what)
                ctx.step(3)
        ctx.state(shape)


def wrong(ctx):
    from ABXpy.misc import tinytree

    def refused(f, what):
        try:
            f()
        except ValueError:
            ctx.step()
            return
        require(False, '%s: not refused', what)
    for bad in (None, 'a', 5, object()):
        node = tinytree.Tree()
        refused(lambda: node.addChild(bad), 'child %r' % (bad,))
        require(node.children == [], 'refused child %r', bad)
    nodes = make(3)
    refused(lambda: tinytree.constructFromList(
        [[nodes[0]], nodes[1]]), 'a list which starts with a list')
    nodes = make(3)
    refused(lambda: tinytree.constructFromList(
        [nodes[0], [nodes[1]], [nodes[2]]]), 'two lists of children')
    ctx.state('wrong')
