"""C16-C21, C33-C35: validation."""
from hypothesis import strategies as st

from pbt import specs, strat as S
from pbt.core import Prop

# -- C16, C18: trees of validators -------------------------------------------

OUTCOMES = ['T', 'T', 'T', 'T', '1', 'F', 'F', 'N', '0', 'S', 'S', 'A', 'AF']
KIND = {'List': 1, 'Array': 1, 'MultiValue': 1, 'JoinedString': 1, 'Dict': 1,
        'SparseDict': 1, 'DateYYYYMMDD': 1}


def outcomes(draw, size=3):
    return [draw(st.lists(st.sampled_from(OUTCOMES), min_size=1, max_size=3))
            for _ in range(draw(st.integers(1, size)))]


def decorate(draw, spec):
    o = spec['o']
    if draw(st.integers(0, 2)):
        o['v'] = outcomes(draw)
    elif draw(st.integers(0, 3)) == 0:
        o['v'] = []
    if spec['t'] in KIND and draw(st.booleans()):
        o['dv'] = outcomes(draw)
    if draw(st.integers(0, 3)) == 0:
        o['optional'] = True
    if spec['t'] in ('List', 'Dict', 'SparseDict', 'Array', 'MultiValue',
                     'JoinedString'):
        for s in spec['of']:
            decorate(draw, s)
    return spec


TREE_OPT = specs.Opt(specs.SAFE_NAMES, leaf_types=['Integer', 'String'],
                     containers=['List', 'List', 'Dict', 'Dict', 'SparseDict',
                                 'Array', 'JoinedString', 'DateYYYYMMDD',
                                 'MultiValue'], max_depth=3, max_fields=3)


@st.composite
def validated_tree(draw, receivers=False):
    spec = decorate(draw, specs.root_spec(
        draw, TREE_OPT, scalar_ok=draw(st.integers(0, 5)) == 0))
    case = {'spec': spec,
            'value': specs.value_for(draw, spec, hostile=1, max_len=3,
                                     full=draw(st.booleans()))}
    rounds = []
    for _ in range(draw(st.integers(1, 3))):
        rounds.append({
            'at': draw(st.one_of(st.just(0), st.integers(0, 12))),
            'recurse': draw(st.integers(0, 4)) > 0,
            'state': draw(st.sampled_from(['none', 'dict', 'object',
                                           'empty'])),
            'set': draw(st.sampled_from([None, None, None, True, False]))})
    case['rounds'] = rounds
    if receivers:
        case['receivers'] = draw(st.lists(st.sampled_from(
            ['all', 'all', 'first', 'default', 'weird']), min_size=1,
            max_size=3))
    return case


# -- C17 ---------------------------------------------------------------------

MESSAGES = [u'm', u'n', u'wrong', u'%', u'%(label)s', u'\u2603', u'']


@st.composite
def one_chain(draw):
    t = draw(st.sampled_from(['String', 'Integer', 'Boolean', 'Date', 'Enum',
                              'List', 'Array', 'MultiValue', 'Dict',
                              'SparseDict', 'JoinedString', 'DateYYYYMMDD']))
    opt = specs.Opt(specs.SAFE_NAMES, leaf_types=['String', 'Integer'],
                    max_depth=2, max_fields=2)
    if t in KIND:
        opt.containers = [t]
        spec = specs.root_spec(draw, opt)
        while spec['t'] != t:
            spec = specs.root_spec(draw, opt)
    else:
        opt.leaf_types = [t]
        spec = specs.leaf_spec(draw, opt, draw(st.sampled_from(
            specs.SAFE_NAMES)))
    if draw(st.booleans()):
        spec['o']['optional'] = True
    chain = []
    for _ in range(draw(st.integers(0, 5))):
        chain.append({'r': draw(st.sampled_from(OUTCOMES)),
                      'errors': draw(st.lists(st.sampled_from(MESSAGES),
                                              max_size=3)),
                      'warnings': draw(st.lists(st.sampled_from(MESSAGES),
                                                max_size=2)),
                      'obj': draw(st.booleans())})
    return {'spec': spec, 'chain': chain,
            'how': draw(st.sampled_from(['using', 'validated_by', 'including',
                                         'constructor', 'attribute'])),
            'down': draw(st.booleans()) if t in KIND else False,
            'value': draw(st.one_of(
                st.just(['unset']),
                st.just(['unset']) if t in KIND else
                st.sampled_from([['value', None], ['value', u'']]),
                st.builds(lambda v: ['value', v],
                          st.just(specs.value_for(draw, spec, hostile=2))))),
            'times': draw(st.integers(1, 2))}


# -- C19 ---------------------------------------------------------------------

LEAF_OPT = specs.Opt(specs.SAFE_NAMES)


def near(draw, t, base):
    """A bound near, at or beyond the value."""
    return base


def likenesses(value):
    """Values of other types and texts that look like *value*."""
    out = [u'']
    text = value
    if isinstance(value, dict):
        text = value.get('i', value.get('f', value.get('d', u'')))
    if isinstance(text, str):
        out += [text, text.strip(), text.upper(), text.lower(), text + u' ',
                u'0' + text]
        try:
            out += [S.i(int(text)), S.f(float(int(text[:9])))]
        except ValueError:
            pass
    if isinstance(value, dict) and 'da' in value:
        out.append(u'%04d-%02d-%02d' % tuple(value['da']))
    if isinstance(value, dict) and 'ti' in value:
        out.append(u'%02d:%02d:%02d' % tuple(value['ti'][:3]))
    if value is True or value is False:
        out += [u'1', u'', u'True', u'False', S.i(1), S.i(0)]
    return out


WHOLE = specs.Opt(specs.SAFE_NAMES, leaf_types=['Integer', 'String', 'Date'],
                  max_depth=2, max_fields=3)


@st.composite
def scalar_validator(draw):
    name = draw(st.sampled_from([
        'Present', 'IsTrue', 'IsFalse', 'ValueIn', 'Converted', 'ShorterThan',
        'NoLongerThan', 'LongerThan', 'LengthBetween', 'ValueLessThan',
        'ValueAtMost', 'ValueGreaterThan', 'ValueAtLeast', 'ValueBetween',
        'ValueBetween']))
    spec = specs.leaf_spec(draw, LEAF_OPT, draw(st.sampled_from(
        [None, u'age', u'a b', u'\u2603'])))
    params = {}
    bound = lambda: draw(st.integers(0, 10))
    whole = ('Long' in name or 'Short' in name or
             name == 'LengthBetween') and draw(st.integers(0, 2)) == 0
    if whole:
        # the text of a whole container is what is measured
        spec = specs.root_spec(draw, WHOLE)
        value = specs.value_for(draw, spec, 0, max_len=3, full=True)
        bound = lambda: draw(st.integers(0, 24))
    if name in ('ShorterThan', 'NoLongerThan'):
        params['maxlength'] = bound()
    elif name == 'LongerThan':
        params['minlength'] = bound()
    elif name == 'LengthBetween':
        params['minlength'], params['maxlength'] = bound(), bound()
    elif name.startswith('Value') and name != 'ValueIn':
        spec = specs.leaf_spec(draw, specs.Opt(
            specs.SAFE_NAMES, leaf_types=['Integer', 'Long', 'Float', 'Date',
                                          'DateTime', 'Time', 'String',
                                          'Decimal']), spec['n'])
        if spec['t'] in ('Integer', 'Long'):
            num = lambda: S.i(draw(st.integers(-5, 5)))
            value = draw(st.one_of(st.integers(-5, 5).map(S.i), st.integers(
                -6, 6).map(str), S.any_text))
        elif spec['t'] == 'Float':
            num = lambda: S.f(draw(st.integers(-5, 5)) / 2.0)
            value = draw(st.one_of(st.integers(-6, 6).map(
                lambda n: S.f(n / 2.0)), S.any_text))
        elif spec['t'] == 'Decimal':
            num = lambda: S.d('%d.5' % draw(st.integers(-3, 3)))
            value = draw(st.one_of(st.integers(-3, 3).map(
                lambda n: S.d('%d.5' % n)), S.any_text))
        elif spec['t'] == 'String':
            num = lambda: draw(st.sampled_from(
                [u'', u'a', u'b', u'ab', u'B', u'\xe9', u'10', u'9']))
            value = draw(st.one_of(st.just(num()), S.any_text))
        elif spec['t'] == 'Date':
            num = lambda: {'da': [2000, 1, draw(st.integers(1, 5))]}
            value = draw(st.one_of(st.just(num()), S.date_text))
        elif spec['t'] == 'DateTime':
            num = lambda: {'dt': [2000, 1, draw(st.integers(1, 3)), 0, 0,
                                  draw(st.integers(0, 2))]}
            value = draw(st.one_of(st.just(num()), S.datetime_text))
        else:
            num = lambda: {'ti': [12, 0, draw(st.integers(0, 4))]}
            value = draw(st.one_of(st.just(num()), S.time_text))
        if name in ('ValueLessThan', 'ValueGreaterThan'):
            params['boundary'] = num()
        elif name == 'ValueAtMost':
            params['maximum'] = num()
        elif name == 'ValueAtLeast':
            params['minimum'] = num()
        else:
            params['minimum'], params['maximum'] = num(), num()
            inc = draw(st.sampled_from([None, True, False]))
            if inc is not None:
                params['inclusive'] = inc
        return {'v': name, 'spec': spec, 'params': params, 'value': value,
                'set': draw(st.integers(0, 9)) > 0,
                'label': draw(st.sampled_from([None, u'The Label']))}
    if name == 'ValueIn':
        pool = draw(st.lists(specs.S.any_value.filter(
            lambda v: not isinstance(v, dict) or
            set(v) & set('ifd') or 'da' in v), min_size=0, max_size=4))
        own = [specs.leaf_value(draw, spec) for _ in range(
            draw(st.integers(0, 3)))]
        value = draw(st.sampled_from(own)) if own and draw(
            st.booleans()) else specs.leaf_value(draw, spec, 2)
        if draw(st.booleans()):
            # only what resembles the value
            own = [v for v in own if v != value] + draw(st.lists(
                st.sampled_from(likenesses(value)), max_size=3))
        params['valid_options'] = pool + own
    elif not whole:
        value = specs.leaf_value(draw, spec, draw(st.sampled_from([0, 3])))
        if spec['t'] == 'String' and draw(st.booleans()):
            value = draw(st.text(alphabet=u'ab \u2603', max_size=11))
    return {'v': name, 'spec': spec, 'params': params, 'value': value,
            'set': draw(st.integers(0, 9)) > 0,
            'label': draw(st.sampled_from([None, u'The Label']))}


@st.composite
def value_in(draw):
    spec = specs.leaf_spec(draw, LEAF_OPT, draw(st.sampled_from(
        [None, u'age'])))
    value = specs.leaf_value(draw, spec, draw(st.sampled_from([0, 0, 0, 3])))
    options = draw(st.lists(st.one_of(
        st.sampled_from(likenesses(value)), st.sampled_from(likenesses(value)),
        st.builds(lambda: specs.leaf_value(draw, spec)),
        st.sampled_from([S.i(0), u'', u'a', True])), max_size=4))
    if draw(st.integers(0, 2)) == 0:
        options.insert(draw(st.integers(0, len(options))), value)
    return {'v': 'ValueIn', 'spec': spec,
            'params': {'valid_options': options}, 'value': value,
            'set': draw(st.integers(0, 9)) > 0, 'label': None}


@st.composite
def map_equal(draw):
    names = draw(st.lists(st.sampled_from(specs.SAFE_NAMES), min_size=2,
                          max_size=4, unique=True))
    fields = [specs.leaf_spec(draw, specs.Opt(
        specs.SAFE_NAMES, leaf_types=['String', 'Integer', 'Float',
                                      'Boolean']), n) for n in names]
    same = draw(st.booleans())
    if same:
        fields = [dict(fields[0], n=n) for n in names]
    pool = [draw(st.sampled_from([u'1', u'1.0', u' 1', u'a', u'A', u'',
                                  None, S.i(1), S.i(0), True, u'x',
                                  u'01'])) for _ in range(2)]
    return {'v': draw(st.sampled_from(['ValuesEqual', 'UnisEqual', 'MapEqual',
                                       'MapEqual-fn'])),
            'fields': fields,
            'values': [[n, draw(st.sampled_from(pool))] for n in names
                       if draw(st.integers(0, 7))],
            'paths': draw(st.lists(st.sampled_from(names), min_size=2,
                                   max_size=4)),
            'style': draw(st.sampled_from(['plain', 'abs', 'sibling'])),
            'labels': draw(st.lists(st.sampled_from(names), max_size=2)),
            'outer': draw(st.booleans())}


# -- C20 ---------------------------------------------------------------------

@st.composite
def not_duplicated(draw):
    kind = draw(st.sampled_from(['List', 'List', 'Array', 'MultiValue']))
    shape = draw(st.sampled_from(['String', 'String', 'Integer', 'Dict',
                                  'List'])) if kind == 'List' else \
        draw(st.sampled_from(['String', 'Integer']))
    atom = st.sampled_from([u'a', u'A', u'b', u'', u'1', u' 1', u'x', u'01'])
    if shape == 'Dict':
        value = st.tuples(st.sampled_from([u'1', u'2', u'x']), st.sampled_from(
            [u'1', u'2'])).map(lambda p: {'m': [[u'x', p[0]], [u'y', p[1]]]})
    elif shape == 'List':
        value = st.lists(st.sampled_from([u'1', u'2', u'']), max_size=2).map(
            lambda l: {'l': l})
    else:
        value = atom
    return {'kind': kind, 'shape': shape,
            'name': draw(st.sampled_from([None, u'things'])),
            'mname': draw(st.sampled_from([None, u'thing'])),
            'values': draw(st.lists(value, max_size=7)),
            'comparator': draw(st.sampled_from([None, None, 'lower', 'never',
                                                'always', 'u', 'order'])),
            'message': draw(st.sampled_from([None, 'position', 'callable'])),
            'wrap': draw(st.sampled_from([None, 'dict', 'list'])),
            'shuffle': draw(st.lists(st.tuples(
                st.sampled_from(['pop', 'move', 'reverse', 'insert']),
                st.integers(0, 6), st.integers(0, 6)).map(list),
                max_size=3))}


@st.composite
def lengths(draw):
    kind = draw(st.sampled_from(['List', 'Array', 'MultiValue',
                                 'JoinedString', 'List-Dict']))
    v = draw(st.sampled_from(['HasAtLeast', 'HasAtMost', 'HasBetween',
                              'HasBetween']))
    bound = st.integers(0, 5)
    params = {}
    if v == 'HasAtLeast':
        if draw(st.integers(0, 3)):
            params['minimum'] = draw(bound)
    elif v == 'HasAtMost':
        if draw(st.integers(0, 3)):
            params['maximum'] = draw(bound)
    else:
        if draw(st.integers(0, 9)):
            params['minimum'] = draw(bound)
        if draw(st.integers(0, 9)):
            params['maximum'] = draw(bound)
    return {'v': v, 'kind': kind, 'params': params,
            'name': draw(st.sampled_from([None, u'wishes'])),
            'mname': draw(st.sampled_from([None, u'wish'])),
            'count': draw(st.integers(0, 6)),
            'set': draw(st.booleans()),
            'text': draw(st.sampled_from([u'abc', u'', u'x', u'12'])),
            'mtype': draw(st.sampled_from(['String', 'Integer']))}


# -- C21 ---------------------------------------------------------------------

KEYS = ['k1', 'k2', 'k3', 'label', 'name', 'u', 'value', 'limit']


@st.composite
def template(draw):
    parts = []
    for _ in range(draw(st.integers(0, 3))):
        parts.append(draw(st.sampled_from([u'text', u'\u2603', u' ', u'%%',
                                           u'a.b'])))
        parts.append(u'%%(%s)s' % draw(st.sampled_from(KEYS)))
    parts.append(draw(st.sampled_from([u'end', u'!', u'%%'])))
    return u''.join(parts)


@st.composite
def message_case(draw):
    form = lambda: draw(st.one_of(
        template(), st.tuples(template(), template(), st.sampled_from(
            ['k1', 'k2', 'limit', 'limit', 'nope'])).map(
                lambda t: {'plural': list(t)})))
    val = lambda: draw(st.one_of(
        st.sampled_from([u'1', u'2', u'x', u'\u2603', None, u'one']),
        st.integers(0, 3).map(S.i)))
    values = lambda p: [[k, val()] for k in ('k1', 'k2', 'k3', 'limit')
                        if draw(st.integers(0, 9)) < p]
    places = ['state', 'leaf', 'list', 'mid', 'top', 'builtins']
    return {
        'key': form(), 'key_callable': draw(st.integers(0, 3)) == 0,
        'explicit': form() if draw(st.booleans()) else None,
        'explicit_callable': draw(st.integers(0, 3)) == 0,
        'give_key': draw(st.booleans()),
        'warning': draw(st.booleans()),
        'kwargs': values(3), 'state_values': values(4),
        'validator_values': values(7), 'element_values': values(9),
        'state': draw(st.sampled_from(['none', 'dict', 'object', 'string',
                                       'list', 'both', 'raises'])),
        'ug': draw(st.lists(st.sampled_from(places), max_size=2,
                            unique=True)),
        'ung': draw(st.lists(st.sampled_from(places), max_size=2,
                             unique=True)),
        'schema': draw(st.booleans()),
        'leaf': draw(st.sampled_from([u'1', u'2', u'abc', None])),
        'twice': draw(st.booleans()),
        'where': draw(st.sampled_from(['leaf', 'leaf', 'list', 'mid', 'top'])),
        'override': draw(st.booleans()),
    }


# -- C33 ---------------------------------------------------------------------

def luhn_digits(digits):
    total = 0
    for i, ch in enumerate(reversed(digits)):
        d = int(ch)
        if i % 2:
            d *= 2
            if d > 9:
                d -= 9
        total += d
    return total % 10


def complete(digits):
    for d in '0123456789':
        if luhn_digits(digits + d) == 0:
            return digits + d


@st.composite
def luhn_case(draw):
    k = draw(st.integers(0, 5))
    if k == 0:
        n = draw(st.one_of(st.integers(-200, 200), st.integers(
            -10**20, 10**20)))
    else:
        digits = draw(st.text(alphabet='0123456789', min_size=0,
                              max_size=draw(st.sampled_from([3, 8, 15, 16,
                                                             20, 40]))))
        n = int(complete(digits))
        if k > 3:
            n += draw(st.integers(1, 9))
    return {'n': str(n), 'type': draw(st.sampled_from(['Integer', 'Long'])),
            'pos': draw(st.integers(0, 30)), 'to': draw(st.integers(1, 9)),
            'unset': draw(st.integers(0, 9)) == 0}


PREFIXES = ['4', '51', '52', '55', '50', '56', '34', '37', '35', '6011',
            '6010', '3', '5', '1', '0', '41', '36', '9']


@st.composite
def card_case(draw):
    prefix = draw(st.sampled_from(PREFIXES))
    length = draw(st.sampled_from([12, 13, 14, 15, 15, 16, 16, 16, 17, 18,
                                   19]))
    body = draw(st.text(alphabet='0123456789', min_size=length, max_size=length))
    digits = (prefix + body)[:length - 1]
    digits = complete(digits)
    if draw(st.integers(0, 3)) == 0:
        digits = digits[:-1] + draw(st.sampled_from('0123456789'))
    style = draw(st.sampled_from(['int', 'plain', 'group', 'odd', 'junk']))
    text = digits
    if style == 'group':
        sep = draw(st.sampled_from([' ', '-', '  ']))
        n = draw(st.integers(2, 6))
        text = sep.join(digits[i:i + n] for i in range(0, len(digits), n))
    elif style in ('odd', 'junk'):
        extra = u' -\t\n' if style == 'odd' else u' -.x+\u0661_,'
        out = u''
        for ch in digits:
            out += ch
            if draw(st.integers(0, 3)) == 0:
                out += draw(st.sampled_from(extra))
        text = out
    types = draw(st.lists(st.sampled_from(['VISA', 'MASTERCARD', 'AMEX',
                                           'DISCOVER']), min_size=1,
                          max_size=4, unique=True))
    return {'digits': digits, 'text': text, 'int': style == 'int',
            'accepted': draw(st.sampled_from([None, 1])) and types,
            'bytes': style == 'group' and draw(st.booleans())}


# -- C34 ---------------------------------------------------------------------

label = st.one_of(
    st.text(alphabet='abz09-', min_size=1, max_size=6),
    st.sampled_from([u'x' * 62, u'x' * 63, u'x' * 64, u'x' * 65, u'', u'-',
                     u'snow\u2603', u'\u0431\u0443\u043a', u'A', u'a_b',
                     u'a b', u'[1]', u'a\n', u'xn--n3h', u'com', u'\xe9' * 20,
                     u'\u2603' * 60]))


@st.composite
def email(draw):
    tame = draw(st.booleans())
    if tame:
        labels = draw(st.lists(st.sampled_from(
            [u'example', u'com', u'x', u'a-b', u'A0', u'sn\xf6', u'\u2603',
             u'y' * 63, u'z' * 64, u'9']), min_size=1, max_size=4))
    else:
        labels = draw(st.lists(label, min_size=0, max_size=4))
    if draw(st.integers(0, 9)) == 0:
        # around 253 characters
        if draw(st.booleans()):
            labels = [u'x' * 60] * draw(st.integers(3, 5))
        else:
            # longer once encoded
            labels = [draw(st.sampled_from([u'\xe9', u'\u2603'])) * draw(
                st.integers(15, 25))] * draw(st.integers(6, 12))
        labels.append(u'y' * draw(st.integers(1, 12)))
    domain = draw(st.sampled_from([u'.', u'.', u'.', u'.', u'\u3002',
                                   u'..'] if not tame else [u'.'])).join(
                                       labels)
    if draw(st.integers(0, 9)) == 0:
        domain += draw(st.sampled_from([u'.', u'\n', u' ', u'/']))
    if tame:
        local = draw(st.sampled_from([u'bob', u'bob', u'x+y', u'"x"', u' a ',
                                      u'\u2603', u' ', u'0']))
        at = u'@'
    else:
        local = draw(st.one_of(
            S.any_text, st.sampled_from([u'', u' ', u'\u2003', u'bob', u'a@b',
                                         u'"x"', u'\n', u'x\n'])))
        at = draw(st.sampled_from([u'@', u'@', u'@', u'@', u'@', u'', u'@@',
                                   u'\uff20']))
    addr = local + at + domain
    if not tame and draw(st.integers(0, 14)) == 0:
        addr = draw(S.any_text)
    return {'addr': addr, 'non_local': draw(st.sampled_from(
        [None, True, False])),
        'pattern': draw(st.sampled_from([None, None, None, u'^bob$',
                                         u'[a-z]']))}


part_text = st.text(alphabet='abc09-_.~', min_size=1, max_size=5)
URL_PARTS = ['scheme', 'netloc', 'path', 'params', 'query', 'fragment']


@st.composite
def url_parts(draw):
    scheme = draw(st.sampled_from([u'http', u'http', u'https', u'ftp', u'',
                                   u'ssh', u'HTTP', u'mailto', u'x-y']))
    maybe = lambda s, p=5: draw(s) if draw(st.integers(0, 9)) < p else u''
    host = draw(st.sampled_from([u'example.com', u'Host', u'localhost',
                                 u'1.2.3.4', u'a-b.c']))
    netloc = u''
    user = pw = port = None
    if draw(st.integers(0, 5)):
        if draw(st.integers(0, 4)) == 0:
            user = draw(st.sampled_from([u'bob', u'', u'x']))
            if draw(st.booleans()):
                pw = draw(st.sampled_from([u'pw', u'', u'1']))
        if draw(st.integers(0, 3)) == 0:
            port = draw(st.sampled_from([u'80', u'443', u'8080', u'1', u'0']))
        netloc = host
        if user is not None:
            netloc = user + (u'' if pw is None else u':' + pw) + u'@' + netloc
        if port:
            netloc += u':' + port
    path = maybe(part_text.map(lambda p: u'/' + p), 7)
    if not path and draw(st.booleans()):
        path = u'/'
    params = maybe(part_text, 3) if path and len(path) > 1 and scheme in (
        u'', u'http', u'https', u'ftp', u'HTTP') else u''
    return {'scheme': scheme, 'netloc': netloc, 'user': user, 'pw': pw,
            'port': port, 'host': host, 'path': path, 'params': params,
            'query': maybe(part_text, 4), 'fragment': maybe(part_text, 4)}


@st.composite
def url_case(draw):
    case = {'parts': draw(url_parts()), 'raw': None}
    if draw(st.integers(0, 3)) == 0:
        case['raw'] = draw(st.one_of(
            S.any_text, st.none(),
            st.text(alphabet=u'htp:/@[]?#;.%1a \u2603', max_size=14),
            st.sampled_from([u'http://[::1', u'http://[::1]:80/',
                             u'http://h:99999/', u'http://h:x/', u'//h',
                             u'http://', u'http:///p', u'http:h', u':', u'#',
                             u' http://h ', u'http://h/\n', u'http://a@b@c/',
                             u'http://h:-1/', u'http://h:/', u'a:b'])))
        case['use_raw'] = True
    else:
        case['use_raw'] = False
    case['strip'] = draw(st.booleans())
    some = lambda names: draw(st.lists(st.sampled_from(names), max_size=4,
                                       unique=True))
    v = draw(st.sampled_from(['url', 'http', 'canon']))
    case['v'] = v
    if v == 'url':
        case['schemes'] = draw(st.sampled_from(
            [None, [u'*'], [u'http', u'https'], [u'ssh'], []]))
        case['allowed'] = draw(st.one_of(
            st.none(), st.just(None), st.just(0))) if draw(
                st.booleans()) else some(URL_PARTS)
        if case['allowed'] == 0:
            case['allowed'] = URL_PARTS
    elif v == 'http':
        rule = lambda: [[p, draw(st.sampled_from(
            [True, True, False] if p not in OPTIONS else
            [True, OPTIONS[p][:1], OPTIONS[p]]))] for p in some(
            ['scheme', 'username', 'password', 'hostname', 'port', 'path',
             'params', 'query', 'fragment'])]
        case['required'] = rule() if draw(st.booleans()) else None
        case['forbidden'] = rule() if draw(st.booleans()) else None
        case['all_parts'] = draw(st.sampled_from(
            [None, None, [u'scheme', u'hostname'], [u'port', u'path']]))
    else:
        case['discard'] = some(URL_PARTS) if draw(st.booleans()) else None
    return case


OPTIONS = {'scheme': [u'https', u'http'], 'hostname': [u'example.com',
                                                       u'host'],
           'port': [u'80', u'443', u'0'], 'path': [u'/', u'']}


# -- C35 ---------------------------------------------------------------------

@st.composite
def phone_case(draw):
    n = draw(st.sampled_from([0, 3, 9, 10, 10, 10, 11, 12, 14, 15]))
    digits = draw(st.text(alphabet='0123456789', min_size=n, max_size=n))
    out = draw(st.sampled_from([u'', u'+', u'(', u' ', u'tel:', u'x']))
    every = draw(st.sampled_from([0, 2, 4]))
    for d in digits:
        if draw(st.integers(0, 19)) == 0:
            d = chr(0x660 + int(d)) if draw(st.booleans()) else chr(
                0xff10 + int(d))
        out += d
        if every and draw(st.integers(0, every)) == 0:
            out += draw(st.sampled_from([u' ', u'-', u'.', u')', u' x',
                                         u'ext', u'\u2003', u'\xb2', u'\n',
                                         u'/']))
    if draw(st.integers(0, 19)) == 0:
        out = draw(S.any_text)
    return {'text': out, 'ext': draw(st.sampled_from([False, True, 'strip',
                                                      None])),
            'strip': draw(st.booleans()), 'unset': draw(
                st.integers(0, 19)) == 0}


PROPS = [
    Prop('C16',
         'Random element trees with random chains of validators (ascent and '
         'descent) returning True, False, None, 0, 1, Skip, SkipAll and '
         'SkipAllFalse as the case dictates for each element and round, '
         'validated up to three times from random elements with and without '
         'recursion. Non-trivial: four or more elements visited and some '
         'validator did not return True.',
         [('tree', 1, validated_tree)], quick=5000, thorough=120000),
    Prop('C17',
         'One element of a random type, value and optionality with a chain '
         'of up to five validators that return various results and add '
         'errors and warnings. Non-trivial: two or more validators in the '
         'chain.',
         [('chain', 1, one_chain)], quick=6000, thorough=150000),
    Prop('C18',
         'As C16, with one to three receivers connected to the validation '
         'signal, for all senders, one validator or the default validation. '
         'Non-trivial: three or more signals were due.',
         [('tree', 1, lambda: validated_tree(receivers=True))], quick=4500,
         thorough=120000),
    Prop('C19',
         'Each bundled scalar validator with random bounds and options '
         'against random scalar values, set, unset and unadaptable, and the '
         'field equality validators over random fields. Non-trivial: the '
         'element has a value.',
         [('scalar', 5, scalar_validator), ('member', 2, value_in),
          ('equal', 2, map_equal)],
         quick=8000, thorough=200000),
    Prop('C20',
         'NotDuplicated as member validator of random sequences with '
         'repeated, shuffled members and several comparators, and the length '
         'validators on every kind of sequence around their bounds. '
         'Non-trivial: three or more members, or a length within one of a '
         'bound.',
         [('dup', 2, not_duplicated), ('length', 2, lengths)], quick=6000,
         thorough=150000),
    Prop('C21',
         'A custom validator with a random message (plain, plural, callable, '
         'keyed or explicit), template keys, values in keywords, state, '
         'validator and element, and translators placed anywhere from the '
         'state to builtins. Non-trivial: a translator or a plural message '
         'was involved.',
         [('message', 1, message_case)], quick=6000, thorough=150000),
    Prop('C33',
         'Random integers up to 40 digits, about half with a correct check '
         'digit, and card numbers of all issuers and lengths written with '
         'various grouping and junk. Non-trivial: ten or more digits.',
         [('luhn', 1, luhn_case), ('card', 1, card_case)], quick=7000,
         thorough=200000),
    Prop('C34',
         'E-mail addresses assembled from good and bad local parts, labels '
         'and separators, and URLs assembled from known parts or arbitrary '
         'text, against random validator settings. Non-trivial: an "@" with '
         'text on both sides, or a URL with a scheme.',
         [('email', 1, email), ('url', 2, url_case)], quick=9000,
         thorough=250000),
    Prop('C35',
         'Digit strings of 0 to 15 digits with random punctuation and '
         'non-ASCII digits, for every extension setting. Non-trivial: ten or '
         'more digits.',
         [('phone', 1, phone_case)], quick=6000, thorough=200000),
]
