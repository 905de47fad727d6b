"""C01-C03: the flat (form submission) representation."""
from hypothesis import strategies as st

from pbt import specs, strat as S
from pbt.core import Prop


@st.composite
def roundtrip(draw):
    sep = draw(st.sampled_from(specs.SEPS[:1] * 6 + specs.SEPS))
    opt = specs.Opt(specs.names_for(sep, True), list_max=True)
    spec = specs.root_spec(draw, opt, scalar_ok=draw(st.integers(0, 9)) == 0)
    value = specs.value_for(draw, spec, hostile=1)
    return {'sep': sep, 'spec': spec, 'value': value,
            'as_dict': draw(st.integers(0, 3)) == 0}


@st.composite
def lossless(draw):
    """Only non-empty text beneath lists: nothing may be lost at all."""
    sep = draw(st.sampled_from(specs.SEPS[:1] * 6 + specs.SEPS))
    opt = specs.Opt(specs.names_for(sep, True), leaf_types=[
        'String', 'Integer', 'Decimal', 'Date', 'DateTime', 'Time'],
        containers=['List', 'List', 'Dict', 'Dict', 'SparseDict', 'Array',
                    'MultiValue', 'DateYYYYMMDD'])
    spec = specs.root_spec(draw, opt)
    strip_options(spec)
    return {'sep': sep, 'spec': spec, 'value': exact_value(draw, spec),
            'as_dict': False}


def strip_options(spec):
    if spec['t'] not in ('List', 'Array', 'MultiValue', 'String'):
        spec['o'] = {}
    spec['o'].pop('max', None)
    for s in spec.get('of', ()):
        strip_options(s)


def exact_value(draw, spec):
    t = spec['t']
    if t in ('List', 'Array', 'MultiValue'):
        m = specs.member(spec)
        n = draw(st.integers(1, 4))
        if t == 'List' and 'of' not in m and draw(st.integers(0, 5)) == 5:
            n = draw(st.integers(10, 13))
        return {'l': [exact_value(draw, m) for _ in range(n)]}
    if t in ('Dict', 'SparseDict'):
        return {'m': [[s['n'], exact_value(draw, s)] for s in spec['of']]}
    if t == 'String':
        return draw(S.nonblank_text)
    if t == 'DateYYYYMMDD':
        return draw(S.dates)
    if t == 'Decimal':
        return draw(st.integers(-10**6, 10**6).map(lambda n: S.d('%d.5' % n)))
    return draw(S.native_for(t))


@st.composite
def flat_value(draw, leaf):
    k = draw(st.integers(0, 9))
    if k == 0:
        return u''
    if k < 3 or leaf['t'] == 'JoinedString':
        return draw(S.any_text)
    if leaf['t'] == 'Enum':
        v = draw(st.sampled_from(leaf['o']['values']))
        return v if isinstance(v, str) else v['i']
    v = draw(S.text_for(leaf['t']))
    return v


@st.composite
def pairs_for(draw, spec, sep, names, max_pairs=8, junk=True,
              indexes=(0, 0, 1, 1, 2, 3, 5, 7, 11, '00', '01', '007')):
    paths = specs.leaf_paths(spec)
    out = []
    for _ in range(draw(st.integers(1, max_pairs))):
        tokens, leaf = draw(st.sampled_from(paths))
        tokens = [str(draw(st.sampled_from(indexes))) if t == '#' else t
                  for t in tokens]
        value = draw(flat_value(leaf))
        if junk and draw(st.integers(0, 3)) == 0:
            tokens = draw(perturb(tokens, names))
        out.append([sep.join(tokens), value])
    return out


@st.composite
def perturb(draw, tokens, names):
    tokens = list(tokens)
    how = draw(st.sampled_from(['drop', 'add', 'swap', 'grow', 'shrink',
                                'case', 'other', 'wrap']))
    if not tokens:
        return [draw(st.sampled_from(names))]
    at = draw(st.integers(0, len(tokens) - 1))
    if how == 'drop':
        if len(tokens) > 1:
            del tokens[at]
    elif how == 'add':
        tokens.insert(draw(st.integers(0, len(tokens))),
                      draw(st.sampled_from(list(names) + [u'0', u'3'])))
    elif how == 'swap' and len(tokens) > 1:
        j = (at + 1) % len(tokens)
        tokens[at], tokens[j] = tokens[j], tokens[at]
    elif how == 'grow':
        tokens[at] = tokens[at] + draw(st.sampled_from([u'b', u'1', u'a']))
    elif how == 'shrink':
        if len(tokens[at]) > 1:
            tokens[at] = tokens[at][:-1]
    elif how == 'case':
        tokens[at] = tokens[at].swapcase()
    elif how == 'other':
        tokens[at] = draw(st.sampled_from(names))
    else:
        tokens = [draw(st.sampled_from(names))] + tokens
    return tokens


@st.composite
def routing(draw):
    sep = draw(st.sampled_from(specs.SEPS[:1] * 6 + specs.SEPS))
    names = specs.names_for(sep, True)
    opt = specs.Opt(names, list_max=True)
    spec = specs.root_spec(draw, opt, scalar_ok=draw(st.integers(0, 9)) == 0)
    steps = [draw(pairs_for(spec, sep, names))]
    if draw(st.integers(0, 2)) == 0:
        steps.append(draw(pairs_for(spec, sep, names, junk=False)))
    return {'sep': sep, 'spec': spec, 'steps': steps,
            'shape': draw(st.sampled_from(['list', 'tuple', 'dict', 'from',
                                           'iter']))}


@st.composite
def deep_list(draw):
    """Long and sparse indexes around the configured maximum."""
    sep = u'_'
    leaf = {'t': 'String', 'n': draw(st.sampled_from([None, u's'])), 'o': {}}
    mx = draw(st.sampled_from([1, 2, 3, 10, 1024, 1024]))
    spec = {'t': 'List', 'n': draw(st.sampled_from([None, u'l'])),
            'of': [leaf], 'o': {'prune': draw(st.booleans()), 'max': mx}}
    near = [mx - 2, mx - 1, mx, mx + 1, 2 * mx, 0, 1, 10**6, 10**12]
    idx = draw(st.lists(st.sampled_from([n for n in near if n >= 0]),
                        min_size=1, max_size=6))
    if draw(st.booleans()):
        lo = draw(st.integers(0, 3))
        idx += list(range(lo, lo + min(mx, 12) + draw(st.integers(-2, 2))))
    pairs = [[sep.join(([spec['n']] if spec['n'] else []) + [str(n)] +
                       ([leaf['n']] if leaf['n'] else [])), u'v%d' % k]
             for k, n in enumerate(idx)]
    pairs = draw(st.permutations(pairs))
    return {'sep': sep, 'spec': spec, 'steps': [list(pairs)], 'shape': 'list'}


FRAGS = [u'_', u'_', u'__', u'', u'0', u'1', u'9' * 30, u'-1', u'1.5',
         u'\u0663', u'\u00b2', u'.', u'*', u'(', u')', u'[', u']', u'\\',
         u'^', u'$', u'\n', u'\x00', u'None', u'#', u' ', u'+1', u'0x1',
         u'01', u'1024', u'1023', u'99999']


@st.composite
def hostile(draw):
    names = specs.names_for(u'_')
    opt = specs.Opt(names, list_max=True)
    spec = specs.root_spec(draw, opt, scalar_ok=draw(st.integers(0, 9)) == 0)
    tame_max(spec)
    paths = specs.leaf_paths(spec)
    pairs = []
    for _ in range(draw(st.integers(1, 10))):
        tokens = [draw(st.sampled_from(FRAGS)) if t == '#' and
                  draw(st.integers(0, 2)) == 0 else
                  (str(draw(st.integers(0, 12))) if t == '#' else t)
                  for t in draw(st.sampled_from(paths))[0]]
        how = draw(st.integers(0, 5))
        if how == 0:
            key = u'_'.join(tokens)
        elif how == 1:
            key = u'_'.join(tokens[:draw(st.integers(0, len(tokens)))])
        elif how == 2:
            key = u'_'.join(tokens) + draw(st.sampled_from(FRAGS))
        elif how == 3:
            key = draw(st.sampled_from(FRAGS)).join(tokens)
        elif how == 4:
            key = u''.join(draw(st.lists(
                st.sampled_from(FRAGS + tokens + [spec['n'] or u'']),
                max_size=7)))
        else:
            key = draw(S.any_text)
        pairs.append([key, draw(st.one_of(S.hostile_text, S.hostile_text,
                                          st.just(u'x' * 5000)))])
    return {'spec': spec, 'pairs': pairs}


def tame_max(spec):
    """Nested non-pruning lists multiply; the limit is per list."""
    if spec['t'] == 'List' and not spec['o'].get('prune', True):
        spec['o']['max'] = min(spec['o'].get('max', 1024), 8)
    for s in spec.get('of', ()):
        tame_max(s)


@st.composite
def noise(draw):
    """Pairs plus pairs under a name that is not the root's."""
    sep = draw(st.sampled_from([u'_', u'_', u'.', u'--']))
    names = specs.names_for(sep)
    opt = specs.Opt(names, list_max=True)
    spec = specs.root_spec(draw, opt)
    spec['n'] = draw(st.sampled_from(names))
    pairs = draw(pairs_for(spec, sep, names, junk=False))
    others = [n for n in names if n != spec['n']]
    noise = []
    for _ in range(draw(st.integers(1, 6))):
        tokens = draw(st.sampled_from(specs.leaf_paths(spec)))[0][1:]
        tokens = [u'0' if t == '#' else t for t in tokens]
        head = draw(st.one_of(
            st.sampled_from(others),
            st.sampled_from([spec['n'] + u'x', u'x' + spec['n'],
                             spec['n'] + spec['n'], u'', u'csrf'])))
        noise.append([draw(st.integers(0, 20)),
                      sep.join([head] + tokens), draw(S.any_text)])
    return {'sep': sep, 'spec': spec, 'pairs': pairs, 'noise': noise}


PROPS = [
    Prop('C01',
         'Random schema trees (scalars, List, Array, MultiValue, Dict, '
         'SparseDict, JoinedString, DateYYYYMMDD, depth <= 3, adversarial '
         'names, 15 separators) populated by set(), flattened and restored. '
         'Non-trivial: at least 3 flat pairs and at least one List or Array '
         'member or nested mapping.',
         [('tree', 3, roundtrip), ('lossless', 2, lossless)],
         quick=5000, thorough=150000),
    Prop('C02',
         'Random schema trees and key/value pairs addressing them (sparse, '
         'repeated and zero-padded indexes, near-miss names) in random order, '
         'applied in one or two set_flat steps and compared with a reference '
         'model. Non-trivial: at least two leaves were addressed.',
         [('routing', 5, routing), ('index', 1, deep_list)],
         quick=5000, thorough=150000),
    Prop('C03',
         'Random schema trees fed keys assembled from name fragments, '
         'separators, huge and malformed indexes, and random text; and valid '
         'pairs with foreign pairs interleaved. Non-trivial: the schema has a '
         'container member and at least two pairs share its prefix.',
         [('hostile', 3, hostile), ('noise', 2, noise)],
         quick=5000, thorough=150000),
]
