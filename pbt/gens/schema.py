"""C22-C26, C36: schema construction, properties, compounds, refs, forms."""
from hypothesis import strategies as st

from pbt import specs, strat as S
from pbt.core import Prop

# -- C22 ---------------------------------------------------------------------

TYPES = ['String', 'Integer', 'Float', 'Boolean', 'Date', 'Enum', 'List',
         'Array', 'MultiValue', 'JoinedString', 'Dict', 'SparseDict', 'Form',
         'DateYYYYMMDD', 'Ref', 'Constrained']
CONTAINERS = {'List', 'Array', 'MultiValue', 'JoinedString', 'Dict',
              'SparseDict', 'Form', 'DateYYYYMMDD'}
text_attr = st.sampled_from([u'x', u'', u'\u2603', u'a b'])
NAMES = [None, u'a', u'b', u'', u'\u2603', u'x_y']
SPECIFIC = {
    'String': {'strip': st.booleans()},
    'Integer': {'signed': st.booleans(),
                'format': st.sampled_from([u'%i', u'%04i'])},
    'Float': {'signed': st.booleans(),
              'format': st.sampled_from([u'%s', u'%.2f'])},
    'Boolean': {'true': text_attr, 'false': text_attr,
                'true_synonyms': st.lists(text_attr, max_size=2)},
    'Date': {'strip': st.booleans()},
    'Enum': {'valid_values': st.lists(text_attr, max_size=3)},
    'Constrained': {'valid_value': st.just('fn')},
    'List': {'prune_empty': st.booleans(),
             'maximum_set_flat_members': st.integers(0, 9).map(S.i)},
    'Array': {'prune_empty': st.booleans()},
    'MultiValue': {'prune_empty': st.booleans()},
    'JoinedString': {'prune_empty': st.booleans(), 'separator': text_attr},
    'Dict': {'policy': st.sampled_from([u'strict', u'subset', u'duck'])},
    'Form': {'policy': st.sampled_from([u'strict', u'subset', u'duck'])},
    'SparseDict': {'minimum_fields': st.sampled_from([None, u'required'])},
    'DateYYYYMMDD': {'strip': st.booleans()},
    'Ref': {'writable': st.sampled_from([u'ignore', True, False])},
}
GENERAL = {
    'name': st.sampled_from(NAMES),
    'optional': st.booleans(),
    'default': st.sampled_from([None, u'x', u'2000-01-01']),
    'label': text_attr,
    'default_factory': st.just('fn'),
    'ugettext': st.just('fn'),
    'ungettext': st.just('fn'),
    'flattenable': st.booleans(),
    'children_flattenable': st.booleans(),
}
fns = st.lists(st.integers(0, 5), max_size=3)
props = st.lists(st.tuples(st.sampled_from([u'k', u'l', u'm']),
                           st.integers(0, 9).map(S.i)).map(list), max_size=3)


def overrides(draw, t, least, init=False):
    out = {}
    pool = dict(GENERAL, **SPECIFIC[t])
    for a in draw(st.lists(st.sampled_from(sorted(pool)), min_size=0,
                           max_size=2, unique=True)):
        out[a] = draw(pool[a])
    k = draw(st.integers(0, 5))
    if k < 2 or (least and not out):
        out['validators'] = draw(fns)
    if k == 2:
        out['properties'] = draw(props)
    if k == 3 and t in CONTAINERS:
        out['descent_validators'] = draw(fns)
    return out


@st.composite
def derivations(draw):
    t = draw(st.sampled_from(TYPES))
    ops = []
    for _ in range(draw(st.integers(2, 9))):
        kind = draw(st.sampled_from(
            ['named', 'using', 'using', 'validated_by', 'including',
             'including', 'with_properties', 'new', 'new', 'new', 'refuse',
             'element', 'element', 'special'] +
            (['descent', 'including_descent'] if t in CONTAINERS else [])))
        op = {'op': kind, 'on': draw(st.integers(0, 9))}
        if kind == 'named':
            op['name'] = draw(st.one_of(st.sampled_from(NAMES),
                                        st.just(S.i(5)), st.just(S.b(b'ab'))))
        elif kind in ('using', 'new'):
            op['with'] = overrides(draw, t, kind == 'using')
            op['as'] = draw(st.sampled_from(['list', 'tuple', 'iter']))
        elif kind in ('validated_by', 'descent'):
            op['fns'] = draw(fns)
        elif kind in ('including', 'including_descent'):
            op['fns'] = draw(fns)
            op['position'] = draw(st.one_of(st.none(), st.integers(-3, 4)))
        elif kind == 'with_properties':
            op['props'] = draw(props)
            op['as'] = draw(st.sampled_from(['kw', 'dict', 'pairs']))
        elif kind == 'refuse':
            op['how'] = draw(st.sampled_from(
                ['using', 'new', 'validated_by', 'including', 'descent', 'of',
                 'dupes']))
        elif kind == 'element':
            op['do'] = draw(st.sampled_from(
                ['attr', 'attr', 'error', 'warning', 'prop', 'set', 'validate',
                 'props']))
            if op['do'] == 'attr':
                op['with'] = overrides(draw, t, True)
                op['with'].pop('properties', None)
            op['k'] = draw(st.sampled_from([u'k', u'l']))
        ops.append(op)
    return {'t': t, 'ops': ops}


HISTORY_OPT = specs.Opt(
    specs.SAFE_NAMES, max_depth=2, max_fields=3,
    containers=['DateYYYYMMDD', 'DateYYYYMMDD', 'JoinedString', 'Dict',
                'SparseDict', 'List', 'Array', 'MultiValue'])


@st.composite
def histories(draw):
    spec = specs.root_spec(draw, HISTORY_OPT, scalar_ok=True)
    t = spec['t']
    steps = []
    for _ in range(draw(st.integers(1, 4))):
        kind = draw(st.sampled_from(['named', 'using', 'using', 'using',
                                     'validated_by', 'including',
                                     'with_properties', 'of']))
        step = {'op': kind}
        if kind == 'named':
            step['name'] = draw(st.sampled_from([u'p', u'q']))
        elif kind == 'using':
            a = draw(st.sampled_from(['optional', 'optional', 'label',
                                      'default'] + sorted(
                                          SPECIFIC.get(t, {}))))
            pool = dict(GENERAL, **SPECIFIC.get(t, {}))
            step['attr'], step['value'] = a, draw(pool[a])
        elif kind == 'with_properties':
            step['k'] = draw(st.integers(0, 9))
        elif kind == 'of':
            step['n'] = draw(st.integers(0, 3))
        step['use'] = draw(st.lists(st.sampled_from(
            ['new', 'set', 'defaults', 'flat', 'override', 'validate',
             'find']), max_size=3))
        steps.append(step)
    return {'spec': spec, 'steps': steps,
            'value': specs.value_for(draw, spec, hostile=0)}


# -- C23 ---------------------------------------------------------------------

KEYS = st.sampled_from([u'a', u'b', u'c', u'a', u'b', S.i(1)])
VALS = st.one_of(st.integers(0, 5).map(S.i), st.sampled_from(
    [None, u'', u'x', False]))


@st.composite
def property_ops(draw):
    ops = []
    for i in range(draw(st.integers(4, 16))):
        kind = draw(st.sampled_from(
            ['derive', 'derive', 'element', 'element', 'on', 'on', 'on', 'on',
             'on', 'on', 'assign'] if i > 1 else ['derive', 'derive', 'on']))
        op = {'op': kind, 'at': draw(st.integers(0, 9))}
        pairs = st.lists(st.tuples(KEYS, VALS).map(list), max_size=3)
        if kind == 'derive':
            op['how'] = draw(st.sampled_from(
                ['named', 'using', 'with', 'subclass', 'subclass', 'body',
                 'two', 'plain']))
            op['pairs'] = draw(pairs)
            op['other'] = draw(st.integers(0, 20))
        elif kind == 'element':
            op['pairs'] = draw(st.one_of(st.none(), st.none(), pairs))
        elif kind == 'assign':
            op['pairs'] = draw(pairs)
        else:
            op['do'] = draw(st.sampled_from(
                ['set', 'set', 'set', 'del', 'del', 'pop', 'pop1',
                 'setdefault', 'update', 'clear', 'get', 'popitem']))
            op['k'], op['v'] = draw(KEYS), draw(VALS)
            op['pairs'] = draw(pairs)
        ops.append(op)
    return {'ops': ops, 't': draw(st.sampled_from(
        ['String', 'List', 'Dict', 'Form', 'DateYYYYMMDD']))}


@st.composite
def property_focus(draw):
    """A short line of classes, one element, and much done to the ends."""
    key = st.sampled_from([u'a', u'b'])
    val = st.sampled_from([S.i(1), S.i(2), u'', u'x', None])
    pairs = st.lists(st.tuples(key, val).map(list), max_size=2)
    ops = []
    line = draw(st.integers(1, 2))
    for i in range(line):
        ops.append({'op': 'derive', 'at': i, 'other': 0,
                    'how': draw(st.sampled_from(['with', 'with', 'using',
                                                 'named', 'subclass'])),
                    'pairs': draw(pairs)})
    ops.append({'op': 'element', 'at': line,
                'pairs': draw(st.one_of(st.none(), st.none(), pairs))})
    for _ in range(draw(st.integers(2, 8))):
        ops.append({'op': 'on', 'at': draw(st.sampled_from(
                        [line, line + 1, line + 1, line + 1])),
                    'do': draw(st.sampled_from(
                        ['set', 'set', 'del', 'pop', 'pop1', 'setdefault',
                         'update', 'clear', 'get'])),
                    'k': draw(key), 'v': draw(val), 'pairs': draw(pairs)})
    return {'ops': ops, 't': draw(st.sampled_from(
        ['String', 'List', 'Form', 'DateYYYYMMDD']))}


# -- C24 ---------------------------------------------------------------------

part_value = st.one_of(
    st.sampled_from([1, 2, 12, 13, 28, 29, 30, 31, 32, 0, -1, 1999, 2000,
                     2004, 1900, 9999, 10000]).map(S.i),
    st.sampled_from([u'1', u'02', u' 3 ', u'12', u'29', u'x', u'', u'2000',
                     u'0005', u'1.5']),
    st.none(), S.any_value)
year = st.sampled_from([2000, 2001, 1900, 1, 9999, 10000, 0, -5])
whole_value = st.one_of(
    S.dates, S.dates, S.date_text, S.padded(S.date_text), st.none(),
    S.datetimes, S.any_value)


@st.composite
def compound_ops(draw):
    count = draw(st.sampled_from([0, 0, 0, 1, 2, 3]))
    names = draw(st.permutations([u'y', u'm', u'd', u'day', u'year',
                                  u'\u2603']))[:count]
    # (names may not repeat among those that are added)
    rest = [u'year', u'month', u'day'][count:]
    names = [n if n not in rest else n + u'x' for n in names]
    declared = []
    for n in names:
        o = {}
        if draw(st.booleans()):
            o['format'] = draw(st.sampled_from([u'%i', u'%05i', u'%s']))
        if draw(st.integers(0, 3)) == 0:
            o['signed'] = False
        declared.append({'t': draw(st.sampled_from(['Integer', 'Long'])),
                         'n': n, 'o': o})
    ops = []
    for _ in range(draw(st.integers(1, 8))):
        kind = draw(st.sampled_from(
            ['set', 'set', 'part', 'part', 'part', 'setitem', 'update',
             'flat', 'valid', 'valid', 'u', 'value', 'default', 'holder']))
        op = {'op': kind}
        if kind in ('set', 'u', 'value', 'holder'):
            op['value'] = draw(whole_value)
        elif kind in ('part', 'setitem'):
            op['i'] = draw(st.integers(0, 2))
            op['value'] = draw(part_value)
        elif kind in ('update', 'flat'):
            op['values'] = [[draw(st.integers(0, 2)), draw(part_value)]
                            for _ in range(draw(st.integers(0, 3)))]
            if kind == 'flat':
                op['values'] = [[k, v if isinstance(v, str) else u'7']
                                for k, v in op['values']]
                op['noise'] = draw(st.lists(st.sampled_from(
                    [u'', u'_', u'x', u'dt_', u'dt_x', u'dt_year_x']),
                    max_size=2))
        elif kind == 'valid':
            op['value'] = draw(S.dates)
            op['order'] = draw(st.permutations([0, 1, 2]))
            op['text'] = draw(st.booleans())
        ops.append(op)
    return {'declared': declared, 'optional': draw(st.booleans()),
            'default': draw(st.one_of(st.just('none'), S.dates, S.date_text)),
            'wrap': draw(st.sampled_from([None, 'dict', 'list'])),
            'ops': ops}


# -- C25 ---------------------------------------------------------------------

piece = st.one_of(
    st.sampled_from([u'', u' ', u'a', u'b', u' a ', u'1', u'02', u' 3', u'x y',
                     u'\u2603', u'a,b', u'|', u';']), S.any_text)


@st.composite
def joined_ops(draw):
    sep = draw(st.sampled_from([u',', u', ', u'|', u';', u'ab', u' ', u'--',
                                u'\u2603', u'.']))
    o = {'sep': sep, 'prune': draw(st.booleans())}
    if draw(st.integers(0, 2)) == 0:
        o['sep_re'] = draw(st.sampled_from(
            [u'\\s*,\\s*', u'[,;|]', u'\\s+', u',', u'(?:ab)+', u'\\W+']))
    member = specs.leaf_spec(draw, specs.Opt(
        specs.SAFE_NAMES, leaf_types=['String', 'String', 'Integer', 'Boolean',
                                      'Date', 'Enum', 'Float']), None)
    spec = {'t': 'JoinedString', 'n': draw(st.sampled_from([u'j', u'a_b'])),
            'o': o, 'of': [member]}
    seps = [sep, u',', u';', u'  ', u' , ']
    alt = st.one_of(piece, st.builds(
        lambda v: v, st.just(specs.leaf_value(draw, member, 1))))

    def text():
        parts = [draw(piece) for _ in range(draw(st.integers(0, 4)))]
        glue = draw(st.sampled_from(seps[:1] * 3 + seps))
        return glue.join(parts)

    ops = []
    for _ in range(draw(st.integers(1, 7))):
        kind = draw(st.sampled_from(
            ['text', 'text', 'text', 'list', 'list', 'tuple', 'iter', 'none',
             'odd', 'bytes', 'append', 'extend', 'insert', 'pop', 'setitem',
             'member', 'del', 'reverse', 'sort', 'slice', 'flat', 'again',
             'iadd']))
        op = {'op': kind}
        if kind == 'text' or kind == 'flat':
            op['v'] = text()
        elif kind == 'bytes':
            op['v'] = S.b(draw(st.sampled_from(
                [b'a,b', b'', b'1|2', b'a', b'\xff,b', b'caf\xc3\xa9'])))
        elif kind in ('list', 'tuple', 'iter', 'extend', 'slice', 'iadd'):
            op['v'] = draw(st.lists(alt, max_size=4))
        elif kind == 'odd':
            op['v'] = draw(st.sampled_from([S.i(5), S.f(1.5), True, {
                'o': u'odd'}, {'m': [[u'a', u'b']]}, {'da': [2000, 1, 1]}]))
        elif kind in ('append', 'insert', 'setitem', 'member'):
            op['v'] = draw(alt)
        op['i'] = draw(st.integers(-4, 4))
        op['j'] = draw(st.integers(-4, 4))
        ops.append(op)
    return {'spec': spec, 'ops': ops}


# -- C26 ---------------------------------------------------------------------

REF_TYPES = ['String', 'Integer', 'Boolean', 'Date', 'Enum', 'Float']
TARGETS = ['a', 'b', 'sub.x', 'sub.y', 'sub.deep.z', 'items.0', 'items.1',
           'rows.0.p', 'rows.1.q', 'sparse.s', 'when', 'joined']
HOLDERS = ['', 'sub', 'sub.deep', 'row', 'sparse']


@st.composite
def ref_ops(draw):
    leaf = lambda n: specs.leaf_spec(draw, specs.Opt(
        specs.SAFE_NAMES, leaf_types=REF_TYPES), n)
    leaves = dict((n, leaf(n)) for n in ['a', 'b', 'x', 'y', 'z', 'p', 'q',
                                         's', 'item'])
    refs = []
    for i in range(draw(st.integers(1, 4))):
        targets = list(TARGETS)
        if i:
            targets += ['ref0'] * 2
        refs.append({'to': draw(st.sampled_from(targets)),
                     'in': draw(st.sampled_from(HOLDERS if i else [''])),
                     'n': 'ref%d' % i,
                     'style': draw(st.sampled_from(
                         ['plain', 'leading', 'sep', 'parts'])),
                     'writable': draw(st.sampled_from(
                         [u'ignore', None, True, True, False]))})
    ops = []
    for _ in range(draw(st.integers(1, 10))):
        kind = draw(st.sampled_from(
            ['target', 'target', 'ref', 'ref', 'ref', 'refvalue', 'refu',
             'replace', 'flat', 'all', 'pop', 'insert', 'reverse', 'default',
             'rawvalue']))
        op = {'op': kind, 'i': draw(st.integers(0, 9)),
              'at': draw(st.sampled_from(TARGETS))}
        t = leaves.get(op['at'].split('.')[-1], leaves['item'])
        op['v'] = draw(st.one_of(st.builds(
            lambda v: v, st.just(specs.leaf_value(draw, t, 2))), S.any_text,
            S.any_value))
        op['text'] = draw(S.any_text)
        ops.append(op)
    return {'leaves': leaves, 'refs': refs, 'ops': ops,
            'name': draw(st.sampled_from([None, u'root'])),
            'list': draw(st.integers(0, 3))}


# -- C36 ---------------------------------------------------------------------

FIELD_NAMES = ['a', 'b', 'c', 'd', 'name', 'label', 'value', 'default',
               'optional', 'keys', 'u', 'valid']


@st.composite
def forms(draw):
    classes = []
    count = draw(st.integers(1, 6))
    serial = [0]

    def field(n):
        serial[0] += 1
        return {'n': n, 'id': serial[0],
                't': draw(st.sampled_from(['String', 'Integer', 'List',
                                           'Dict'])),
                'named': draw(st.sampled_from(['same', 'none', 'other'])),
                'label': draw(st.sampled_from([None, None, n, 'other',
                                               u'']))}
    for i in range(count):
        kind = draw(st.sampled_from(['form', 'form', 'form', 'form', 'dict']))
        names = lambda m: draw(st.lists(st.sampled_from(FIELD_NAMES[:draw(
            st.sampled_from([4, 4, 12]))]), max_size=m, unique=True))
        c = {'kind': kind}
        if kind == 'dict':
            c['fs'] = [field(n) for n in names(3)] or [field('a')]
        else:
            c['bases'] = draw(st.lists(st.integers(0, max(0, i - 1)),
                                       max_size=min(i, 3), unique=True)) \
                if i else []
            c['attrs'] = [field(n) for n in names(3)]
            c['fs'] = draw(st.one_of(st.none(), st.just(
                [field(n) for n in names(2)])))
            c['plain'] = draw(st.lists(st.sampled_from(
                ['helper', 'const', 'instance']), max_size=2, unique=True))
            c['derive'] = draw(st.lists(st.sampled_from(
                ['named', 'using', 'with_properties', 'validated_by', 'of',
                 'subclass']), max_size=2))
        classes.append(c)
    return {'classes': classes}


PROPS = [
    Prop('C22',
         'Random sequences of derivations, refused derivations, '
         'instantiations with overrides and element changes over every '
         'element type, with every class and element compared to a model '
         'after each; and schemas derived from used and from unused originals '
         'compared. Non-trivial: two or more derivations and an element.',
         [('derive', 3, derivations), ('history', 2, histories)],
         quick=3600, thorough=90000),
    Prop('C23',
         'Random class hierarchies (cloned, subclassed, multiply inherited, '
         'with own property sets) and elements, under random mapping '
         'operations on any of them, all views compared to a frame model '
         'after each. Non-trivial: some class inherits through two or more '
         'levels and something was deleted or overridden.',
         [('ops', 2, property_ops), ('focus', 1, property_focus)],
         quick=5000, thorough=120000),
    Prop('C24',
         'Compound dates with 0-3 custom parts under random whole, part, '
         'flat and default assignments, inside and outside containers. '
         'Non-trivial: the whole was a date at some point and not at another.',
         [('ops', 1, compound_ops)], quick=6000, thorough=150000),
    Prop('C25',
         'JoinedStrings with random separators, patterns and member types '
         'under random text and list assignments and list operations. '
         'Non-trivial: two or more members at some point.',
         [('ops', 1, joined_ops)], quick=5000, thorough=120000),
    Prop('C26',
         'Trees with Refs at random places and random writes to Refs, '
         'targets and containers of targets. Non-trivial: a write through a '
         'Ref was attempted and some target changed.',
         [('ops', 1, ref_ops)], quick=5000, thorough=120000),
    Prop('C36',
         'Random hierarchies of up to six Form and Dict classes with declared '
         'attributes, field lists and bases. Non-trivial: some field name is '
         'declared in two or more places.',
         [('forms', 1, forms)], quick=5000, thorough=120000),
]
