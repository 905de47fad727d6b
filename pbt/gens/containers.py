"""C07-C12, C37, C38: sequences, mappings, defaults, comparison."""
from hypothesis import strategies as st

from pbt import specs, strat as S
from pbt.core import Prop

# -- sequences -------------------------------------------------------------

INT = {'t': 'Integer', 'n': None, 'o': {}}
STR = {'t': 'String', 'n': u's', 'o': {}}
POINT = {'t': 'Dict', 'n': None, 'o': {}, 'of': [
    {'t': 'Integer', 'n': u'x', 'o': {}},
    {'t': 'String', 'n': u'y', 'o': {}}]}
INNER = {'t': 'List', 'n': u'in', 'o': {}, 'of': [INT]}
DATE = {'t': 'DateYYYYMMDD', 'n': u'when', 'o': {}}

small = st.integers(-2, 3).map(S.i)
int_value = st.one_of(small, small, st.sampled_from([u'1', u'2', u'x', u'',
                                                     None, u' 3 ']))
str_value = st.sampled_from([u'a', u'b', u'', u' a ', u'c', None, u'1'])
point_value = st.builds(
    lambda x, y, keep: {'m': [p for p, k in
                              (([u'x', x], keep & 1), ([u'y', y], keep & 2))
                              if k]},
    int_value, str_value, st.integers(0, 3))
inner_value = st.lists(int_value, max_size=3).map(lambda l: {'l': l})
date_value = st.sampled_from([{'da': [2000, 1, 2]}, {'da': [1999, 12, 31]},
                              u'2000-01-02', None])
MEMBERS = {'int': (INT, int_value), 'str': (STR, str_value),
           'point': (POINT, point_value), 'inner': (INNER, inner_value),
           'date': (DATE, date_value)}

index = st.integers(-7, 7)
bound = st.one_of(st.none(), st.integers(-7, 7))
step = st.sampled_from([None, None, None, 1, 2, 3, -1, -2])


def value_of(strategy, elements=True):
    return st.builds(lambda v, e: {'v': v, 'el': e}, strategy,
                     st.booleans() if elements else st.just(False))


def seq_op(value, kinds):
    some = st.lists(value, max_size=4)
    table = {
        'append': st.tuples(value),
        'extend': st.tuples(some, st.sampled_from(['list', 'iter'])),
        'iadd': st.tuples(some),
        'insert': st.tuples(index, value),
        'set': st.tuples(index, value),
        'setslice': st.tuples(bound, bound, step, some),
        'reslice': st.tuples(bound, bound),
        'del': st.tuples(index),
        'delslice': st.tuples(bound, bound, step),
        'pop': st.tuples(st.one_of(st.none(), index)),
        'popappend': st.tuples(index),
        'remove': st.tuples(value),
        'removeown': st.tuples(index),
        'reverse': st.tuples(),
        'sort': st.tuples(st.booleans()),
        'assign': st.tuples(some),
        'assignbad': st.tuples(st.sampled_from([None, {'i': '5'},
                                                {'f': '1.5'}, True])),
        'clear': st.tuples(),
        'setu': st.tuples(str_value.filter(lambda v: v is not None)),
        'setvalue': st.tuples(int_value),
    }
    return st.one_of(*[st.tuples(st.just(k), table[k]).map(
        lambda p: [p[0]] + list(p[1])) for k in kinds])


COMMON = ['append', 'extend', 'iadd', 'insert', 'insert', 'set', 'setslice',
          'setslice', 'reslice', 'del', 'delslice', 'pop', 'popappend',
          'remove', 'removeown', 'reverse', 'sort', 'assign', 'assignbad',
          'clear']


@st.composite
def sequence(draw, types, members, kinds):
    t = draw(st.sampled_from(types))
    m = draw(st.sampled_from(members))
    mspec, mvalue = MEMBERS[m]
    value = value_of(mvalue)
    k = [x for x in kinds if x not in ('setu', 'setvalue') or
         t == 'MultiValue']
    return {'spec': {'t': t, 'n': draw(st.sampled_from([None, u'l', u'li'])),
                     'of': [mspec], 'o': {}},
            'start': draw(st.lists(mvalue, max_size=6)),
            'wrap': draw(st.sampled_from([None, None, u'd', u''])),
            'ops': draw(st.lists(seq_op(value, k), min_size=1, max_size=12)),
            'slices': draw(st.lists(st.tuples(bound, bound, step).map(list),
                                    min_size=1, max_size=3)),
            'probes': draw(st.lists(value, min_size=1, max_size=2))}


# -- mappings --------------------------------------------------------------

KEYS = [u'a', u'b', u'c', u'd', u'e']
FIELD = {
    u'a': ({'t': 'Integer', 'n': u'a', 'o': {}}, int_value),
    u'b': ({'t': 'String', 'n': u'b', 'o': {}}, str_value),
    u'c': (dict(INNER, n=u'c'), inner_value),
    u'd': (dict(POINT, n=u'd'), point_value),
    u'e': ({'t': 'Boolean', 'n': u'e', 'o': {}},
           st.sampled_from([True, False, u'on', u'zzz'])),
}


@st.composite
def a_pair(draw, keys, unknown=6):
    if draw(st.integers(0, unknown)) == 0:
        return [draw(st.sampled_from([u'zz', u'A', u'', u'ab'])),
                draw(int_value)]
    k = draw(st.sampled_from(keys))
    return [k, draw(FIELD[k][1])]


@st.composite
def mapping(draw, t):
    keys = draw(st.lists(st.sampled_from(KEYS), min_size=1, max_size=5,
                         unique=True))
    fields = []
    for k in keys:
        spec = dict(FIELD[k][0], o={})
        if draw(st.booleans()):
            spec['o'] = {'optional': True}
        fields.append(spec)
    spec = {'t': t, 'n': draw(st.sampled_from([None, u'm'])), 'of': fields,
            'o': {}}
    if t == 'SparseDict':
        spec['o']['minimum'] = draw(st.sampled_from([None, u'required']))
    ops = []
    for _ in range(draw(st.integers(1, 10))):
        k, v = draw(a_pair(keys))
        kind = draw(st.sampled_from(
            ['setitem'] * 4 + ['setel', 'setforeign', 'update', 'update', 'updatekw',
             'updateboth', 'updateboth', 'set',
             'set', 'del', 'del', 'pop', 'pop', 'popitem', 'clear',
             'setdefault', 'setdefault', 'get', 'in', 'set_default']))
        if kind in ('update', 'updatekw', 'set'):
            pairs = draw(st.lists(a_pair(keys, 8), max_size=4))
            ops.append([kind, draw(st.sampled_from(['dict', 'pairs', 'iter'])),
                        pairs])
        elif kind == 'updateboth':
            # a mapping and keywords, most often about the same keys
            pairs = draw(st.lists(a_pair(keys, 40), min_size=1, max_size=3))
            over = draw(st.lists(st.sampled_from(pairs).map(lambda p: p[0]),
                                 min_size=1, max_size=2, unique=True))
            ops.append([kind, [draw(st.sampled_from(['dict', 'pairs',
                                                     'iter'])), pairs],
                        [[n, draw(FIELD[n][1] if n in FIELD else int_value)]
                         for n in over]])
        else:
            ops.append([kind, k, v])
    return {'spec': spec, 'ops': ops}


@st.composite
def policy(draw):
    keys = draw(st.lists(st.sampled_from(KEYS), min_size=1, max_size=5,
                         unique=True))
    t = draw(st.sampled_from(['Dict', 'Dict', 'SparseDict', 'Form']))
    spec = {'t': t, 'n': u'm', 'of': [FIELD[k][0] for k in keys], 'o': {}}
    if draw(st.booleans()):
        spec['o']['policy'] = draw(st.sampled_from(['strict', 'subset',
                                                    'duck']))
    if t == 'SparseDict':
        spec['o']['minimum'] = draw(st.sampled_from([None, u'required']))
    sets = []
    for _ in range(draw(st.integers(1, 3))):
        mode = draw(st.sampled_from(['exact', 'exact', 'some', 'extra',
                                     'both']))
        use = list(keys)
        if mode in ('some', 'both'):
            use = draw(st.lists(st.sampled_from(keys), unique=True,
                                max_size=max(0, len(keys) - 1)))
        pairs = [[k, draw(FIELD[k][1])] for k in use]
        if mode in ('extra', 'both'):
            for k in draw(st.lists(st.sampled_from([u'zz', u'A', u'q']),
                                   min_size=1, max_size=2, unique=True)):
                pairs.insert(draw(st.integers(0, len(pairs))),
                             [k, draw(int_value)])
        if draw(st.integers(0, 4)) == 0 and pairs:
            # a key given twice
            k = draw(st.sampled_from(pairs))[0]
            pairs.append([k, draw(FIELD[k][1] if k in FIELD else int_value)])
        else:
            pairs = list(draw(st.permutations(pairs)))
        sets.append({
            'pairs': pairs,
            'form': draw(st.sampled_from(['dict', 'pairs', 'iter', 'tuple',
                                          'keys', 'namedtuple', 'element'])),
            'policy': draw(st.sampled_from([None, None, None, 'strict',
                                            'subset', 'duck', 'bogus', '',
                                            'Duck']))})
    return {'spec': spec, 'sets': sets}


@st.composite
def structured(draw):
    opt = specs.Opt(specs.names_for(u'_'), optional=False)
    spec = specs.root_spec(draw, opt)
    return {'spec': spec,
            'before': draw(st.one_of(st.none(), st.just(0))) if
            draw(st.integers(0, 2)) == 0 else
            specs.value_for(draw, spec, hostile=1),
            'value': specs.value_for(draw, spec,
                                     hostile=draw(st.sampled_from([0, 0, 1,
                                                                   2]))),
            'form': draw(st.sampled_from(['plain', 'plain', 'tuple', 'iter'])),
            'bad': draw(st.sampled_from([None, {'i': '3'}, {'f': '0.5'},
                                         True]))}


# -- defaults --------------------------------------------------------------

def add_defaults(draw, spec):
    t = spec['t']
    if draw(st.integers(0, 9)) < 4:
        o = spec['o']
        v = good_default(draw, spec)
        how = draw(st.sampled_from(['default', 'default', 'factory', 'both']))
        if how in ('default', 'both'):
            o['default'] = v
        if how in ('factory', 'both'):
            o['factory'] = good_default(draw, spec)
    for s in spec.get('of', ()):
        if t != 'Enum':
            add_defaults(draw, s)


def good_default(draw, spec):
    t = spec['t']
    if t == 'List' and draw(st.booleans()):
        return {'i': str(draw(st.integers(0, 4)))}
    if t == 'JoinedString' and draw(st.booleans()):
        return draw(st.sampled_from([u'a,b', u'1', u'1,2|3', u'']))
    if draw(st.integers(0, 9)) == 0:
        return None
    return specs.value_for(draw, spec, hostile=1, max_len=3)


@st.composite
def defaults(draw):
    opt = specs.Opt(specs.SAFE_NAMES, optional=True)
    spec = specs.root_spec(draw, opt, scalar_ok=draw(st.integers(0, 4)) == 0)
    add_defaults(draw, spec)
    return {'spec': spec,
            'before': None if draw(st.booleans()) else
            {'v': specs.value_for(draw, spec, hostile=1)}}


# -- comparison ------------------------------------------------------------

@st.composite
def compare(draw):
    opt = specs.Opt(specs.SAFE_NAMES[:6], max_depth=2, max_fields=2)
    states = []
    for i in range(2):
        how = draw(st.integers(0, 5))
        if i and how < 3:
            spec = states[0]['spec']
        else:
            spec = specs.root_spec(draw, opt,
                                   scalar_ok=draw(st.integers(0, 3)) < 3)
        if i and how in (1, 3, 4):
            value = states[0]['value']
        else:
            value = specs.value_for(draw, spec, hostile=2, max_len=2)
        if i and how == 5:
            value = {'text': 1}
        states.append({'spec': spec, 'value': value,
                       'flat': draw(st.integers(0, 4)) == 0})
    poke = draw(st.one_of(st.none(), st.none(), st.tuples(
        st.sampled_from(['value', 'u']), S.any_text).map(list)))
    return {'states': states, 'poke': poke}


@st.composite
def escaped(draw):
    nasty = st.text(alphabet=u'<>&"\'\n\r\t;#a\u00e9\u2603 ', max_size=12)
    return {'text': draw(st.one_of(nasty, nasty, S.any_text, st.sampled_from(
        [u'&amp;', u'&#10;', u']]>', u'"\'', u'&quot;', u'<a b="c">'])))}


PROPS = [
    Prop('C07',
         'Lists of Integer, String, Dict, List and compound members under '
         'sequences of up to 12 random list operations with plain values, '
         'member elements, out-of-range and negative indexes and extended '
         'slices, compared with a Python list after every step. Non-trivial: '
         'at least three operations succeeded on a List that held two or '
         'more members at some point.',
         [('ops', 1, lambda: sequence(
             ['List'], ['int', 'int', 'str', 'point', 'inner', 'date'],
             COMMON))],
         quick=3500, thorough=100000),
    Prop('C08',
         'Arrays and MultiValues of Integer and String under sequences of up '
         'to 12 random list operations and value/text assignments, compared '
         'with a Python list after every step. Non-trivial: at least three '
         'operations succeeded on a sequence of two or more members.',
         [('ops', 1, lambda: sequence(
             ['Array', 'MultiValue'], ['int', 'int', 'str'],
             COMMON + ['setu', 'setvalue', 'setu', 'setvalue']))],
         quick=4000, thorough=120000),
    Prop('C09',
         'Dicts of 1-5 mixed fields under sequences of up to 10 random dict '
         'operations with known and unknown keys, compared with a model after '
         'every step. Non-trivial: at least two operations changed the Dict.',
         [('ops', 1, lambda: mapping('Dict'))],
         quick=5000, thorough=150000),
    Prop('C10',
         'SparseDicts of 1-5 mixed fields, optional or not, with both minimum '
         'settings, under sequences of up to 10 random dict operations with '
         'values and elements, compared with a model after every step. '
         'Non-trivial: at least two operations changed the SparseDict.',
         [('ops', 1, lambda: mapping('SparseDict'))],
         quick=5000, thorough=150000),
    Prop('C11',
         'Dict, Form and SparseDict schemas set repeatedly from exact, '
         'partial, extended and repeated key sets in seven dict-like forms '
         'under every schema policy and policy argument. Non-trivial: a '
         'policy decision depended on a missing or unknown key, or all keys '
         'were given.',
         [('policy', 1, policy)], quick=6000, thorough=150000),
    Prop('C12',
         'Random schema trees set from matching structures with some '
         'unsuitable leaves, on fresh and populated elements and from lists, '
         'tuples and iterators, compared with a recursive reference. '
         'Non-trivial: at least three leaves were set.',
         [('structured', 1, structured)], quick=5000, thorough=150000),
    Prop('C37',
         'Random schema trees with static defaults and factories at any '
         'nodes, applied to fresh and populated elements. Non-trivial: at '
         'least one default beneath or at the root took effect.',
         [('defaults', 1, defaults)], quick=5000, thorough=150000),
    Prop('C38',
         'Pairs of elements of same and different types in equal, nearly '
         'equal and unrelated states; hostile text for the escaped forms. '
         'Non-trivial: the elements agree in value or in text, or the text '
         'needs escaping.',
         [('compare', 2, compare), ('escape', 1, escaped)],
         quick=8000, thorough=200000),
]
