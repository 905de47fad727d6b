"""C32 and C39: objects in and out of Dicts, utilities."""
from hypothesis import strategies as st

from pbt import specs, strat as S
from pbt.core import Prop

POOL = ['a', 'ab', 'abc', 'b', 'bb', 'c', 'd1', 'x', 'y', 'z']
KEYS = [None, None, 'str', 'upper', 'suffix', 'strip_a']


def field_list(draw):
    opt = specs.Opt(POOL, max_depth=2, max_fields=3)
    names = draw(st.lists(st.sampled_from(POOL[:7]), min_size=1, max_size=5,
                          unique=True))
    out = []
    for n in names:
        s = (specs.leaf_spec(draw, opt, n) if draw(st.integers(0, 3))
             else specs.node_spec(draw, opt, 1, True))
        s['n'] = n
        out.append(s)
    return out


@st.composite
def chooser(draw, names):
    """include / omit / rename arguments."""
    def some(shape=True):
        return {'keys': draw(st.lists(st.sampled_from(names), max_size=4)),
                'as': draw(st.sampled_from(['list', 'tuple', 'set', 'iter',
                                            'frozenset', 'dict']))}
    out = {'include': None, 'omit': None, 'rename': None}
    k = draw(st.integers(0, 11))
    if k < 4:
        out['include'] = some()
    elif k < 8:
        out['omit'] = some()
    elif k == 8:
        out['include'], out['omit'] = some(), some()
    if draw(st.booleans()):
        srcs = draw(st.lists(st.sampled_from(names), min_size=0, max_size=4,
                             unique=True))
        out['rename'] = {'pairs': [[s, draw(st.sampled_from(names))]
                                   for s in srcs],
                         'as': draw(st.sampled_from(
                             ['dict', 'list', 'tuple', 'iter', 'duck']))}
    return out


@st.composite
def objects(draw):
    fields = field_list(draw)
    spec = {'t': draw(st.sampled_from(['Dict', 'Dict', 'SparseDict',
                                       'SparseDict', 'Form'])),
            'n': draw(st.sampled_from([None, u'q'])), 'of': fields, 'o': {}}
    if spec['t'] == 'SparseDict':
        spec['o']['minimum'] = draw(st.sampled_from([None, 'required']))
    value = specs.value_for(draw, spec)
    by_name = {f['n']: f for f in fields}
    attrs = []
    for n in draw(st.lists(st.sampled_from(POOL + ['zz', 'set', '_p']),
                           max_size=7, unique=True)):
        f = by_name.get(n) or draw(st.sampled_from(fields))
        attrs.append([n, specs.value_for(draw, f),
                      draw(st.sampled_from(['instance', 'instance', 'class',
                                            'property', 'slot']))])
    steps = []
    for _ in range(draw(st.integers(1, 3))):
        steps.append({
            'op': draw(st.sampled_from(
                ['slice', 'slice', 'update', 'set_by', 'set_by',
                 'from_object', 'round'])),
            'args': draw(chooser(POOL)),
            'key': draw(st.sampled_from(KEYS))})
    return {'spec': spec, 'value': value, 'attrs': attrs, 'steps': steps}


# -- C39 -------------------------------------------------------------------

def tern(depth=4):
    return st.recursive(
        st.sampled_from(['T', 'F', 'M']),
        lambda sub: st.tuples(st.sampled_from('&|'), sub, sub).map(list),
        max_leaves=12)


@st.composite
def logic(draw):
    return {'tree': draw(tern()), 'other': draw(st.one_of(
        S.ints, st.none(), S.plain_text, st.just({'l': []}), S.floats))}


name = st.one_of(
    st.text(alphabet='abcXYZ_09 .-', max_size=8),
    st.sampled_from(['Unspecified', 'Skip', 'symbol', '', 'None', 'Root',
                     'a', 'b', 'name']))


@st.composite
def symbols(draw):
    return {'names': draw(st.lists(name, min_size=1, max_size=5)),
            'how': draw(st.lists(st.sampled_from(
                ['again', 'pickle0', 'pickle1', 'pickle2', 'copy', 'deep',
                 'nested', 'threads']), min_size=1, max_size=4))}


@st.composite
def descriptors(draw):
    ops = draw(st.lists(st.tuples(
        st.sampled_from(['get', 'get', 'get', 'set', 'del', 'del', 'class',
                         'new', 'vars', 'classset']),
        st.integers(0, 3), st.integers(-1, 9)).map(list), min_size=3,
        max_size=24))
    return {'kind': draw(st.sampled_from(
        ['assignable', 'assignable', 'lazy', 'class', 'class'])),
        'name': draw(st.sampled_from([None, None, 'other'])), 'ops': ops}


@st.composite
def keyslice(draw):
    keys = ['a', 'b', 'c', 'A', 'B', 'aa', 'x']
    pairs = draw(st.lists(st.tuples(st.sampled_from(keys),
                                    st.integers(0, 9)).map(list),
                          max_size=8))
    return {'pairs': pairs,
            'shape': draw(st.sampled_from(
                ['list', 'iter', 'dict', 'duck', 'iteritems', 'tuple',
                 'namedtuple', 'ordered'])),
            'args': draw(chooser(keys)),
            'key': draw(st.sampled_from([None, None, 'str', 'upper',
                                         'suffix', 'strip_a']))}


@st.composite
def texts(draw):
    t = draw(st.one_of(S.odd_text, S.any_text, st.text(
        alphabet=u'\x00\x01012\\.*+?()[]{}|^$a\n-#\' \u00e9', max_size=8)))
    return {'text': t, 'other': draw(st.one_of(S.odd_text, S.any_text)),
            'attrs': draw(st.lists(st.sampled_from(POOL), max_size=4,
                                   unique=True)),
            'ask': draw(st.lists(st.sampled_from(
                POOL + ['__class__', 'keys_']), min_size=1, max_size=4)),
            'trool': draw(st.one_of(
                st.sampled_from([u'on', u'off', u'auto', u'yes', u'no', u'1',
                                 u'0', u'true', u'false', u't', u'nil', u'f',
                                 u'n', u'y', u'none', u'maybe', u'', u' on']),
                S.plain_text)),
            'case': draw(st.integers(0, 2))}


def all_logic():
    vals = ['T', 'F', 'M']
    out = []
    for a in vals:
        for b in vals:
            for op in '&|':
                out.append(('logic', {'tree': [op, a, b], 'other': None}))
                for c in vals:
                    for op2 in '&|':
                        out.append(('logic', {'tree': [op2, [op, a, b], c],
                                              'other': {'i': '1'}}))
    return out


PROPS = [
    Prop('C32',
         'Random Dicts, SparseDicts and Forms and objects with attributes of '
         'every kind, through slice, update_object, set_by_object and '
         'from_object with random include, omit, rename and key arguments, '
         'compared to a set-theoretic model. Non-trivial: include, omit or '
         'rename was given and two or more fields were concerned.',
         [('objects', 1, objects)], quick=8000, thorough=160000),
    Prop('C39',
         'Random ternary expressions (all of up to two operators always), '
         'symbol names taken through copies, pickles and threads, histories '
         'of get/set/delete on property-like descriptors, key slices and '
         'escaped texts against models. Non-trivial: an expression with two '
         'operators, a history with a set and a delete, a filtered slice.',
         [('logic', 2, logic), ('symbols', 2, symbols),
          ('descriptors', 4, descriptors), ('keyslice', 4, keyslice),
          ('texts', 2, texts)],
         quick=8000, thorough=160000, fixed=all_logic),
]
