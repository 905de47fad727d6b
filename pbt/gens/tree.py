"""C13-C15: tree structure and path lookups."""
from hypothesis import strategies as st

from pbt import specs, strat as S
from pbt.core import Prop

OPT = dict(max_depth=3, max_fields=3)


def containers_in(spec, path=()):
    """[(path of field positions, spec)] of container nodes."""
    out = []
    t = spec['t']
    if t in ('List', 'Array', 'MultiValue', 'JoinedString', 'Dict',
             'SparseDict', 'DateYYYYMMDD'):
        out.append((list(path), spec))
    if t == 'List' and len(spec['of']) > 1:
        out.extend(containers_in(specs.member(spec), path + (0,)))
    elif t in ('List', 'Dict', 'SparseDict'):
        for i, s in enumerate(spec['of']):
            out.extend(containers_in(s, path + (i,)))
    return out


SEQ_OPS = ['append', 'append', 'appendel', 'insert', 'insertel', 'setitem',
           'setel', 'setslice', 'del', 'pop', 'move', 'remove', 'reverse',
           'assign', 'extend', 'iadd', 'setdefault_', 'reslice', 'clear']
MAP_OPS = ['setitem', 'setitem', 'update', 'assign', 'setdefault_']
SPARSE_OPS = MAP_OPS + ['setel', 'setel', 'del', 'clear', 'setdefault',
                        'pop', 'reput']


@st.composite
def an_op(draw, spec):
    path, node = draw(st.sampled_from(containers_in(spec)))
    t = node['t']
    op = {'at': path, 'pick': draw(st.integers(0, 5)),
          'i': draw(st.integers(-4, 4)), 'j': draw(st.integers(-4, 4))}
    if draw(st.integers(0, 14)) == 0:
        op['op'] = 'flat'
        return op
    if t in ('List', 'Array', 'MultiValue', 'JoinedString'):
        op['op'] = draw(st.sampled_from(SEQ_OPS))
        m = specs.member(node)
        op['values'] = [specs.value_for(draw, m, hostile=1, max_len=2)
                        for _ in range(draw(st.integers(1, 3)))]
        if t == 'JoinedString' and op['op'] == 'assign':
            op['values'] = [draw(S.plain_text)]
    elif t == 'DateYYYYMMDD':
        op['op'] = draw(st.sampled_from(['assign1', 'part', 'part']))
        op['values'] = [draw(st.one_of(S.dates, st.none()))]
        op['key'] = draw(st.sampled_from([u'year', u'month', u'day']))
    else:
        op['op'] = draw(st.sampled_from(
            SPARSE_OPS if t == 'SparseDict' else MAP_OPS))
        f = draw(st.sampled_from(node['of']))
        op['key'] = f['n']
        op['values'] = [specs.value_for(draw, f, hostile=1, max_len=2)]
        if op['op'] in ('assign', 'update'):
            op['values'] = [specs.value_for(draw, node, hostile=1,
                                            max_len=2)]
    return op


@st.composite
def tree_ops(draw):
    sep = draw(st.sampled_from([u'.', u'.', u'/', u'::', u'_', u'|', u'#']))
    names = [n for n in specs.names_for(sep) if not set(n) & set(u'_')]
    opt = specs.Opt(names, **OPT)
    spec = specs.root_spec(draw, opt)
    ops = draw(st.lists(an_op(spec), min_size=2, max_size=10))
    return {'spec': spec, 'sep': sep,
            'value': specs.value_for(draw, spec, hostile=0, max_len=3,
                                     full=draw(st.booleans())),
            'ops': ops}


@st.composite
def exchanges(draw):
    """Members of one kind moved between sibling containers."""
    opt = specs.Opt(specs.SAFE_NAMES[:6], leaf_types=['String', 'Integer'],
                    containers=['List', 'SparseDict', 'Array'], max_depth=1,
                    max_fields=3)
    inner = draw(st.sampled_from(['SparseDict', 'SparseDict', 'List',
                                  'Array', 'MultiValue']))
    opt.containers = [inner]
    node = specs.node_spec(draw, opt, 0, False, container=True)
    for s in node['of'] if inner == 'SparseDict' else ():
        if draw(st.booleans()):
            s['o']['optional'] = True
    spec = {'t': 'List', 'n': draw(st.sampled_from([None, u'top'])),
            'of': [node], 'o': {'prune': False}}
    ops = []
    for _ in range(draw(st.integers(3, 10))):
        op = {'at': [0], 'pick': draw(st.integers(0, 3)),
              'i': draw(st.integers(-3, 3)), 'j': draw(st.integers(-3, 3))}
        if inner == 'SparseDict':
            f = draw(st.sampled_from(node['of']))
            op['key'] = f['n']
            op['op'] = draw(st.sampled_from(
                ['pop', 'pop', 'reput', 'reput', 'reput', 'setel', 'del',
                 'setitem']))
            op['values'] = [specs.value_for(draw, f, hostile=0, max_len=2)]
        else:
            m = specs.member(node)
            op['op'] = draw(st.sampled_from(
                ['pop', 'pop', 'appendel', 'appendel', 'insertel', 'setel',
                 'move', 'append']))
            op['values'] = [specs.value_for(draw, m, hostile=0, max_len=2)]
        ops.append(op)
    return {'spec': spec, 'sep': u'.',
            'value': {'l': [specs.value_for(draw, node, hostile=0, max_len=3,
                                            full=True)
                            for _ in range(draw(st.integers(2, 3)))]},
            'ops': ops}


# -- paths -----------------------------------------------------------------

@st.composite
def steps_for(draw, spec, chain=()):
    """A list of steps, mostly guided by the schema."""
    node, ups = spec, list(chain)
    out = []
    for _ in range(draw(st.integers(0, 5))):
        k = draw(st.integers(0, 19))
        if k == 0:
            out.append(['name', draw(st.sampled_from(
                specs.SAFE_NAMES + [u'0', u'zz', u'-1']))])
            node = None
        elif k < 4:
            out.append(['up'])
            node = ups.pop() if ups else node
        elif k == 4:
            out.append(['here'])
        elif node is None:
            continue
        elif node['t'] in ('List', 'Array', 'MultiValue', 'JoinedString'):
            if draw(st.booleans()):
                out.append(['index', draw(st.integers(0, 4)),
                            draw(st.booleans())])
            else:
                out.append(['last', draw(st.integers(1, 4))] if draw(
                    st.integers(0, 5)) == 0 else ['slice', draw(st.one_of(
                    st.none(), st.integers(-4, 4))), draw(st.one_of(
                        st.none(), st.integers(-4, 4))), draw(
                            st.sampled_from([None, None, 1, 2, -1, -2, 3]))])
            ups.append(node)
            node = specs.member(node)
        elif node['t'] in ('Dict', 'SparseDict', 'DateYYYYMMDD'):
            j = draw(st.integers(0, 5))
            if j == 0:
                out.append(['slice', None, None, None])
                ups.append(node)
                node = None
            elif node['t'] == 'DateYYYYMMDD':
                out.append(['name', draw(st.sampled_from(
                    [u'year', u'month', u'day']))])
                ups.append(node)
                node = {'t': 'Integer'}
            else:
                f = draw(st.sampled_from(node['of']))
                out.append(['name', f['n']])
                ups.append(node)
                node = f
        else:
            continue
    return out


@st.composite
def lookups(draw):
    opt = specs.Opt(specs.SAFE_NAMES[:8], leaf_types=['Integer', 'String'],
                    containers=['List', 'List', 'Dict', 'Dict', 'SparseDict',
                                'Array', 'JoinedString', 'DateYYYYMMDD',
                                'MultiValue'], max_depth=4, max_fields=3)
    spec = specs.root_spec(draw, opt)
    queries = []
    for _ in range(draw(st.integers(2, 8))):
        absolute = draw(st.integers(0, 2)) > 0
        if absolute:
            start = draw(st.integers(0, 30))
            steps = draw(steps_for(spec))
        else:
            start = draw(st.one_of(st.just(0), st.integers(0, 30)))
            node = spec
            steps = draw(steps_for(spec))
            if start:
                steps = [['up']] * draw(st.integers(0, 3)) + steps
        queries.append({'start': start, 'abs': absolute, 'steps': steps})
    return {'spec': spec,
            'value': specs.value_for(draw, spec, hostile=0, max_len=4,
                                     full=draw(st.booleans())),
            'queries': queries}


META = u'/[].\\:-0159ab '
meta_name = st.text(alphabet=META, min_size=1, max_size=5)
bracket_names = st.builds(
    lambda a, b: a + u'[' + b + u']',
    st.sampled_from([u'a', u'foo', u'x y', u'', u'.a', u'a/b', u'..']),
    st.sampled_from([u'b', u'-', u'1-2', u'a:b', u'1:x', u'', u' 1', u'1:2:3:4',
                     u'--1', u'1.5', u':-', u'bogus', u'*']))


@st.composite
def odd_paths(draw):
    names = draw(st.lists(st.one_of(meta_name, meta_name, bracket_names,
                                    st.sampled_from(
                                        [u'.', u'..', u'...', u'[0]', u'[:]', u'[b]', u'[]',
                                         u'\\', u'\\\\', u'a/b', u'//',
                                         u'a', u'b', u'foo', u'-1', u':'])),
                          min_size=2, max_size=4, unique=True))
    # two levels with the same names, and a list
    queries = []
    for _ in range(draw(st.integers(2, 8))):
        walk = draw(st.lists(st.sampled_from(names), min_size=1, max_size=2))
        if len(walk) == 2:
            tail = draw(st.sampled_from([None, None, 0, 1]))
        else:
            tail = None
        queries.append({
            'walk': walk, 'tail': tail, 'abs': draw(st.booleans()),
            'raw': draw(st.booleans()), 'dots': draw(st.booleans()),
            'detours': draw(st.lists(st.tuples(
                st.integers(0, 3), st.sampled_from(
                    ['here', 'here', 'there', 'slash-here'])).map(list),
                max_size=3)),
            'from': draw(st.integers(0, 3))})
    return {'names': names, 'queries': queries,
            'flood': 0}


@st.composite
def floods(draw):
    case = draw(odd_paths())
    case['flood'] = draw(st.sampled_from([3, 900, 1023, 1024, 1025, 1100,
                                          2100]))
    case['tag'] = draw(st.integers(0, 10**9))
    return case


PROPS = [
    Prop('C13',
         'Random schema trees put through up to 10 random structural '
         'operations at random containers (with values and elements), fully '
         'checked for consistency after each, and members moved between '
         'siblings. Non-trivial: at least two '
         'operations took effect on a tree of four or more elements.',
         [('ops', 4, tree_ops), ('exchange', 1, exchanges)], quick=3000, thorough=80000,
         quick_shards=7),
    Prop('C14',
         'Random populated trees and random paths (names, indexes, slices, '
         '"." and "..", absolute and relative, from every kind of element), '
         'evaluated strictly, leniently and singly and compared with a '
         'reference evaluator. Non-trivial: some path of two or more steps '
         'selected an element.',
         [('lookups', 1, lookups)], quick=5000, thorough=150000),
    Prop('C15',
         'Dicts whose names are made of path metacharacters, addressed '
         'through escaped, redundant and bracketed paths, before and after '
         'up to 2100 other paths were evaluated. Non-trivial: a name that '
         'needs escaping, a redundant path or a flood of lookups.',
         [('odd', 50, odd_paths), ('flood', 1, floods)],
         quick=2600, thorough=60000),
]
