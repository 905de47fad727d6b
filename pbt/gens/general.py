"""C42, C43: reading is free of effects; shorthands and longhands agree."""
from hypothesis import strategies as st

from pbt import specs, strat as S
from pbt.core import Prop
from pbt.gens.sharing import LEAVES, OPT, WORDS, a_step, sprinkle

READS = ['value', 'u', 'repr', 'str', 'unicode', 'bool', 'is_empty', 'valid',
         'children', 'all_children', 'family', 'fq_name', 'flattened',
         'flatten', 'flatten value', 'find', 'find leniently', 'find one',
         'el', 'escaped', 'label', 'properties', 'default', 'compare', 'raw',
         'notes', 'hash', 'render']
SEQUENCE_READS = ['len', 'in', 'in, as children', 'index', 'count', 'item',
                  'slices', 'reversed', 'first']
MAPPING_READS = ['len', 'in', 'keys', 'get', 'get key', 'getitem', 'schema',
                 'slice', 'object']
PATHS = [u'.', u'..', u'/', u'[:]', u'/[:]', u'[:]/[:]', u'../[:]', u'[0]',
         u'[-1]', u'0', u'9', u'a', u'b', u'ab', u'a/b', u'/a', u'a[:]',
         u'nowhere', u'', u'a/0/b', u'p', u'1', u'2000-01-01']


LOOKUPS = ['find', 'find leniently', 'find one', 'el', 'get', 'getitem',
           'in', 'properties']


def names_in(spec):
    out = [s['n'] for s in spec.get('of', ()) if s['n']]
    for s in spec.get('of', ()):
        out.extend(names_in(s))
    return out


@st.composite
def reads(draw):
    opt = draw(st.sampled_from([OPT, OPT, SPARSE]))
    spec = sprinkle(draw, specs.root_spec(draw, opt))
    name = st.sampled_from(names_in(spec) or [u'a'])
    arg = st.one_of(st.sampled_from(PATHS), st.integers(0, 9), name, name,
                    st.lists(name, min_size=2, max_size=3).map(u'/'.join))
    taken = []
    for _ in range(draw(st.integers(4, 14))):
        taken.append({
            'read': draw(st.one_of(st.sampled_from(READS),
                                   st.sampled_from(SEQUENCE_READS),
                                   st.sampled_from(LOOKUPS),
                                   st.sampled_from(MAPPING_READS))),
            'pick': draw(st.one_of(st.just(0), st.integers(0, 9))),
            'arg': draw(arg)})
    # what is done to the classes and the elements once they have been read
    later = draw(st.lists(st.tuples(
        st.one_of(st.just(0), st.integers(0, 9)),
        st.sampled_from(['props', 'props', 'label', 'optional',
                         'default']),
        st.sampled_from([u'p', u'q']), st.sampled_from(WORDS)).map(list),
        max_size=3))
    return {'spec': spec, 'prog': a_program(draw, spec, 4), 'reads': taken,
            'later': later,
            'then': draw(st.lists(a_step(spec), max_size=3))}


SPARSE = specs.Opt(specs.SAFE_NAMES[:5], leaf_types=['String', 'Integer'],
                   containers=['SparseDict', 'SparseDict', 'Dict', 'List',
                               'MultiValue', 'DateYYYYMMDD', 'JoinedString'],
                   max_depth=3, max_fields=3)


def a_program(draw, spec, most):
    return {'make': draw(st.sampled_from(['bare', 'value', 'value',
                                          'defaults', 'flat', 'kw'])),
            'value': specs.value_for(draw, spec, hostile=2, max_len=3,
                                     full=draw(st.booleans())),
            'steps': draw(st.lists(a_step(spec), max_size=most))}


@st.composite
def arguments(draw):
    opt = draw(st.sampled_from([OPT, SPARSE]))
    spec = sprinkle(draw, specs.root_spec(draw, opt))
    extra = draw(st.lists(st.sampled_from([u'extra', u'zz']), max_size=2,
                          unique=True))
    if extra and spec['t'] == 'Dict':
        spec['o']['policy'] = u'duck'
    return {'spec': spec, 'extra': extra,
            'how': draw(st.sampled_from(['set', 'set', 'construct', 'flat',
                                         'update', 'items', 'policy',
                                         'default'])),
            'before': specs.value_for(draw, spec, hostile=0, max_len=2),
            'value': specs.value_for(draw, spec, hostile=1, max_len=3,
                                     full=draw(st.booleans())),
            'steps': draw(st.one_of(
                st.just([]), st.lists(a_step(spec), min_size=1,
                                      max_size=4)))}


# -- C43 ---------------------------------------------------------------------

CHECKS = st.lists(st.sampled_from(['short', 'even', 'note', 'warn']),
                  max_size=3)
ALL = specs.Opt(specs.SAFE_NAMES[:8], leaf_types=LEAVES, max_depth=2,
                max_fields=3)


def own_options(spec):
    """Overrides particular to a type of element: {name: strategy}."""
    t = spec['t']
    if t in ('String', 'Date', 'DateTime', 'Time'):
        return {'strip': st.booleans()}
    if t in ('Integer', 'Long'):
        return {'signed': st.booleans(),
                'format': st.sampled_from([u'%04i', u'%+i', u'%i'])}
    if t in ('Float', 'Decimal'):
        return {'signed': st.booleans(),
                'format': st.sampled_from([u'%.2f', u'%0.3f'])}
    if t == 'Boolean':
        return {'true': st.sampled_from([u'yes', u'Y', u'on']),
                'false': st.sampled_from([u'no', u'N']),
                'true_synonyms': st.lists(
                    st.sampled_from([u'1', u'ja', u'on']), max_size=2),
                'false_synonyms': st.lists(
                    st.sampled_from([u'', u'0', u'nein']), max_size=2)}
    if t == 'List':
        return {'prune_empty': st.booleans(),
                'descent_validators': CHECKS,
                'maximum_set_flat_members': st.integers(1, 4)}
    if t in ('Array', 'MultiValue'):
        return {'prune_empty': st.booleans(), 'descent_validators': CHECKS}
    if t == 'JoinedString':
        return {'prune_empty': st.booleans(),
                'separator': st.sampled_from([u',', u';', u'ab'])}
    if t == 'Dict':
        return {'policy': st.sampled_from([u'strict', u'subset', u'duck']),
                'descent_validators': CHECKS}
    if t == 'SparseDict':
        return {'minimum_fields': st.sampled_from([None, u'required']),
                'descent_validators': CHECKS}
    return {}


@st.composite
def overrides(draw, spec):
    options = {
        'name': st.sampled_from([None, u'other', u'a']),
        'label': st.sampled_from(WORDS),
        'optional': st.booleans(),
        'validators': CHECKS,
        'properties': st.lists(st.tuples(
            st.sampled_from([u'p', u'q']),
            st.sampled_from(WORDS)).map(list), max_size=2),
        'default': st.just(None) if spec['t'] == 'SparseDict' else
        st.deferred(lambda: value(spec)),
    }
    if 'of' not in spec and spec['t'] != 'DateYYYYMMDD' or \
            spec['t'] == 'Enum':
        options['default_factory'] = st.just(None)
    options.update(own_options(spec))
    keys = draw(st.lists(st.sampled_from(sorted(options)), max_size=4,
                         unique=True))
    return [[k, draw(options[k])] for k in keys]


@st.composite
def value(draw, spec):
    return specs.value_for(draw, spec, hostile=0, max_len=2)


@st.composite
def constructing(draw):
    spec = sprinkle(draw, specs.root_spec(draw, ALL, scalar_ok=True))
    return {'spec': spec, 'kw': draw(overrides(spec)),
            'how': draw(st.sampled_from(
                ['value', 'keyword', 'flat', 'defaults', 'derived',
                 'derived', 'derived defaults', 'derived flat'])),
            'value': specs.value_for(draw, spec, hostile=1, max_len=2,
                                     full=draw(st.booleans())),
            'later': draw(st.one_of(st.just([]), st.lists(st.tuples(
                st.sampled_from(['label', 'default', 'properties']),
                st.sampled_from(WORDS)).map(list), max_size=2))),
            'steps': draw(st.lists(a_step(spec), max_size=3))}


@st.composite
def deriving(draw):
    if draw(st.integers(0, 3)) == 0:
        # an anonymous Dict in between
        spec = {'t': draw(st.sampled_from(['List', 'List', 'Array'])),
                'n': draw(st.sampled_from([None, u'top'])), 'o': {},
                'of': specs.fields(draw, ALL, 1, 2)}
        if spec['t'] == 'Array' or len(spec['of']) < 2:
            spec['t'] = 'List'
    else:
        spec = specs.root_spec(draw, ALL, scalar_ok=True)
    t = spec['t']
    calls = []
    if spec.get('of') and t not in ('Enum',):
        calls.append(['of', spec['of']])
    if t == 'Enum':
        calls.append(['valued', spec['o']['values']])
        spec.pop('of', None)
    if draw(st.booleans()):
        calls.append(['named', draw(st.sampled_from(
            specs.SAFE_NAMES + [None]))])
    if draw(st.booleans()):
        calls.append(['validated', draw(CHECKS)])
    if t in ('List', 'Dict', 'SparseDict', 'Array') and draw(st.booleans()):
        calls.append(['descent', draw(CHECKS)])
    if draw(st.booleans()):
        some = st.lists(st.tuples(
            st.sampled_from([u'p', u'q']),
            st.sampled_from(WORDS + [u'', None])).map(list), max_size=3)
        calls.append(['props', [draw(some), draw(some)]])
    kw = [item for item in draw(overrides(spec)) if item[0] not in (
        'name', 'validators', 'descent_validators', 'properties')]
    cut = draw(st.integers(0, len(kw)))
    calls.append(['using', kw[:cut]])
    calls.append(['using', kw[cut:]])
    return {'spec': spec, 'calls': calls,
            'order': draw(st.lists(st.integers(0, 6), min_size=2,
                                   max_size=8)),
            'longer': draw(st.lists(st.booleans(), min_size=4, max_size=4)),
            'use': draw(st.booleans()),
            'value': specs.value_for(draw, spec, hostile=1, max_len=2,
                                     full=draw(st.booleans())),
            'steps': draw(st.lists(a_step(spec), max_size=3))}


DICTS = specs.Opt(specs.SAFE_NAMES[:8], leaf_types=LEAVES, max_depth=2,
                  max_fields=4)


@st.composite
def declaring(draw):
    spec = {'t': 'Dict', 'n': draw(st.sampled_from([None, u'top'])), 'o': {},
            'of': specs.fields(draw, DICTS, 1, 1)}
    sprinkle(draw, spec)
    return {'spec': spec, 'prog': a_program(draw, spec, 6)}


PROPS = [
    Prop('C42', 'at least four reads are made of a tree of three elements or '
         'more; or the argument is a structure that is not empty',
         [('reads', 3, reads), ('arguments', 2, arguments)],
         quick=4000, thorough=100000),
    Prop('C43', 'the element has overrides or children; the calls are made in '
         'another order or by other means; the form has two fields or more '
         'and is used',
         [('constructing', 3, constructing), ('deriving', 3, deriving),
          ('declaring', 2, declaring)],
         quick=5000, thorough=120000),
]
