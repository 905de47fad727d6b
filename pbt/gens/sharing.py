"""C40, C41: elements sharing schemas and threads; user code that fails."""
from hypothesis import strategies as st

from pbt import specs, strat as S
from pbt.core import Prop
from pbt.gens.tree import an_op, containers_in

LEAVES = ['String', 'String', 'Integer', 'Long', 'Float', 'Decimal',
          'Boolean', 'Date', 'DateTime', 'Time', 'Enum']
OPT = specs.Opt(specs.SAFE_NAMES[:8], leaf_types=LEAVES, max_depth=3,
                max_fields=3)
COMPOUNDS = specs.Opt(specs.SAFE_NAMES[:8], leaf_types=['Integer', 'String'],
                      containers=['DateYYYYMMDD', 'DateYYYYMMDD', 'Dict',
                                  'Dict', 'List', 'SparseDict',
                                  'JoinedString'],
                      max_depth=3, max_fields=3)
WORDS = [u'm', u'n', u'wrong', u'%(label)s', u'\u2603']


def sprinkle(draw, spec):
    """Defaults, properties and validators here and there."""
    o = spec['o']
    if draw(st.integers(0, 3)) == 0 and spec['t'] != 'SparseDict':
        o['default'] = specs.value_for(draw, spec, hostile=0, max_len=2)
    if draw(st.integers(0, 2)) == 0:
        o['props'] = draw(st.lists(st.tuples(
            st.sampled_from([u'p', u'q']), st.sampled_from(WORDS)).map(list),
            max_size=2))
    if draw(st.integers(0, 2)) == 0:
        o['check'] = draw(st.sampled_from(['short', 'even', 'note', 'warn']))
    if draw(st.integers(0, 4)) == 0:
        o['optional'] = True
    if spec['t'] in ('List', 'Dict', 'SparseDict', 'Array', 'MultiValue',
                     'JoinedString'):
        for s in spec['of']:
            sprinkle(draw, s)
    return spec


@st.composite
def a_step(draw, spec):
    k = draw(st.sampled_from(
        ['op', 'op', 'op', 'op', 'validate', 'validate', 'note', 'prop',
         'unprop', 'attr', 'find', 'render', 'mutate', 'flat', 'set',
         'default']))
    if k == 'op' and not containers_in(spec):
        k = 'set'
    step = {'k': k, 'pick': draw(st.integers(0, 9))}
    if k == 'op':
        step['op'] = draw(an_op(spec))
    elif k == 'note':
        step['text'] = draw(st.sampled_from(WORDS))
        step['warn'] = draw(st.booleans())
    elif k in ('prop', 'unprop'):
        step['key'] = draw(st.sampled_from([u'p', u'q']))
        step['value'] = draw(st.sampled_from(WORDS))
    elif k == 'attr':
        step['attr'] = draw(st.sampled_from(
            ['label', 'optional', 'default', 'validators', 'valid', 'name']))
        step['value'] = draw(st.sampled_from(WORDS))
    elif k in ('flat', 'set'):
        step['value'] = specs.value_for(draw, spec, hostile=1, max_len=2)
    return step


@st.composite
def programs(draw, opt, most, least=2):
    spec = sprinkle(draw, specs.root_spec(draw, opt))
    progs = []
    for _ in range(draw(st.integers(least, 3))):
        progs.append({
            'make': draw(st.sampled_from(['bare', 'value', 'value',
                                          'defaults', 'flat', 'kw'])),
            'value': specs.value_for(draw, spec, hostile=1, max_len=2,
                                     full=draw(st.booleans())),
            'steps': draw(st.lists(a_step(spec), min_size=most // 2,
                                   max_size=most))})
    return {'spec': spec, 'progs': progs}


@st.composite
def woven(draw):
    case = draw(programs(OPT, 6))
    case['order'] = draw(st.lists(st.integers(0, 2), min_size=6,
                                  max_size=20))
    case['nested'] = draw(st.integers(0, 2)) == 0
    return case


@st.composite
def threaded(draw):
    case = draw(programs(draw(st.sampled_from([OPT, COMPOUNDS, COMPOUNDS])),
                         2))
    for p in case['progs']:
        if draw(st.booleans()):
            p['steps'].append({'k': 'find', 'pick': draw(st.integers(0, 3))})
    case['switches'] = draw(st.lists(st.one_of(
        st.integers(1, 12), st.integers(1, 60), st.integers(1, 400)), min_size=1, max_size=16))
    case['symbols'] = draw(st.integers(0, 2))
    return case


# TypeErrors are taken for values that can not be iterated
BOOMS = ['plain', 'runtime', 'halt', 'arith', 'value', 'lookup', 'attribute']

# -- C41 ---------------------------------------------------------------------

PLAIN = specs.Opt(specs.SAFE_NAMES[:8], leaf_types=LEAVES,
                  containers=['List', 'List', 'Dict', 'Dict', 'SparseDict',
                              'Array', 'MultiValue', 'JoinedString'],
                  max_depth=3, max_fields=3)


@st.composite
def faulty_set(draw):
    spec = specs.root_spec(draw, PLAIN)
    for node in every(spec):
        if 'of' not in node and draw(st.integers(0, 3)) == 0:
            node['o']['default'] = specs.leaf_value(draw, node, 0)
    return {'spec': spec,
            'before': specs.value_for(draw, spec, hostile=0, max_len=3,
                                      full=draw(st.booleans())),
            'value': specs.value_for(draw, spec, hostile=0, max_len=3,
                                     full=draw(st.integers(0, 3)) > 0),
            'op': draw(st.sampled_from(['set', 'set', 'flat', 'flat',
                                        'default', 'value', 'make',
                                        'make_flat', 'make_default'])),
            'at': draw(st.integers(0, 12)),
            'boom': draw(st.sampled_from(BOOMS))}


def every(spec):
    yield spec
    if spec['t'] in ('List', 'Dict', 'SparseDict', 'Array', 'MultiValue',
                     'JoinedString'):
        for s in spec['of']:
            for sub in every(s):
                yield sub


@st.composite
def faulty_iter(draw):
    spec = specs.root_spec(draw, PLAIN)
    op = draw(st.sampled_from(['set', 'extend', 'iadd', 'setslice', 'update',
                               'pairs', 'set_flat', 'from_flat']))
    return {'spec': spec,
            'before': specs.value_for(draw, spec, hostile=0, max_len=3,
                                      full=draw(st.booleans())),
            'value': specs.value_for(draw, spec, hostile=0, max_len=4,
                                     full=True),
            'op': op, 'pick': draw(st.integers(0, 5)),
            'i': draw(st.integers(-3, 3)), 'j': draw(st.integers(-3, 3)),
            'at': draw(st.integers(0, 4)),
            'boom': draw(st.sampled_from(BOOMS))}


@st.composite
def faulty_check(draw):
    spec = specs.root_spec(draw, PLAIN)
    for node in every(spec):
        if draw(st.integers(0, 2)):
            node['o']['check'] = draw(st.sampled_from(
                ['short', 'even', 'note', 'warn']))
        if draw(st.integers(0, 4)) == 0:
            node['o']['optional'] = True
    return {'spec': spec,
            'value': specs.value_for(draw, spec, hostile=1, max_len=3,
                                     full=draw(st.integers(0, 3)) > 0),
            'at': draw(st.integers(0, 14)),
            'where': draw(st.sampled_from(['validator', 'validator',
                                           'receiver'])),
            'boom': draw(st.sampled_from(BOOMS))}


@st.composite
def faulty_tags(draw):
    calls = []
    for _ in range(draw(st.integers(2, 7))):
        k = draw(st.sampled_from(['tag', 'tag', 'tag', 'begin', 'end',
                                  'settings']))
        call = {'k': k}
        if k == 'tag':
            call['name'] = draw(st.sampled_from(
                ['input', 'textarea', 'label', 'select', 'button', 'form',
                 'option']))
            call['bind'] = draw(st.booleans())
            call['attrs'] = draw(st.lists(st.tuples(
                st.sampled_from([u'class_', u'id', u'value']),
                st.sampled_from(WORDS)).map(list), max_size=2))
            call['open'] = draw(st.integers(0, 3)) == 0
        elif k in ('begin', 'settings'):
            call['keys'] = draw(st.lists(st.tuples(
                st.sampled_from([u'auto_name', u'auto_value', u'auto_domid',
                                 u'auto_for', u'auto_filter']),
                st.booleans()).map(list), max_size=2))
        calls.append(call)
    return {'calls': calls, 'at': draw(st.integers(0, 6)),
            'boom': draw(st.sampled_from(BOOMS))}


@st.composite
def faulty_prepare(draw):
    return {'fails': draw(st.integers(0, 3)),
            'uses': draw(st.integers(1, 4)),
            'derive': draw(st.sampled_from(['no', 'named', 'using'])),
            'inside': draw(st.booleans()),
            'threads': draw(st.booleans()),
            'date': draw(S.dates),
            'boom': draw(st.sampled_from(BOOMS))}


PROPS = [
    Prop('C40',
         'Two or three random programs (construction, up to six steps of '
         'structural operations, validation, annotation, attribute and '
         'property changes, lookups, rendering, mutation of returned values) '
         'on elements of one schema, woven by a random schedule (in one '
         'thread, re-entrantly from validators, or in threads switched '
         'between source lines as the case dictates), each compared step by '
         'step with a run of its own on a schema of its own. Non-trivial: '
         'two programs really alternated and a third observed both.',
         [('woven', 3, woven), ('threaded', 2, threaded)],
         quick=2000, thorough=40000),
    Prop('C41',
         'Random schemas, values, validators, filters and receivers in which '
         'the n-th call into user code (adapt, serialize, a validator, a '
         'signal receiver, a markup filter, an iterated input, a compound '
         'init) raises; the operation is then repeated without the fault and '
         'compared with one that never failed. Non-trivial: the fault '
         'happened.',
         [('set', 4, faulty_set), ('iter', 3, faulty_iter),
          ('check', 4, faulty_check), ('tags', 3, faulty_tags),
          ('prepare', 1, faulty_prepare)],
         quick=6000, thorough=120000),
]
