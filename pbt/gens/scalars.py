"""C04-C06: scalars."""
from hypothesis import strategies as st

from pbt import specs, strat as S
from pbt.core import Prop

TYPES = ['String', 'Integer', 'Long', 'Float', 'Decimal', 'Boolean', 'Date',
         'DateTime', 'Time', 'Enum']
OPT = specs.Opt(specs.SAFE_NAMES, leaf_types=TYPES)


@st.composite
def input_for(draw, spec):
    k = draw(st.integers(0, 9))
    if k < 3:
        return draw(S.any_value)
    if k == 3:
        return draw(S.byte_strings)
    if k == 4:
        return None
    return specs.leaf_value(draw, spec)


@st.composite
def history(draw):
    spec = specs.leaf_spec(draw, OPT, draw(st.sampled_from([None, u'n'])))
    steps = []
    for _ in range(draw(st.integers(1, 6))):
        how = draw(st.sampled_from(['set', 'set', 'set', 'set', 'flat',
                                    'new', 'default']))
        v = draw(input_for(spec))
        if how == 'flat':
            v = draw(S.hostile_text) if draw(st.booleans()) else draw(
                S.text_for(spec['t']) if spec['t'] != 'Enum'
                else S.any_text)
        steps.append([how, v])
    return {'spec': spec, 'steps': steps}


@st.composite
def fixpoint(draw):
    spec = specs.leaf_spec(draw, OPT, None)
    values = [draw(input_for(spec)) for _ in range(draw(st.integers(1, 3)))]
    return {'spec': spec, 'values': values}


@st.composite
def native(draw):
    t = draw(st.sampled_from([t for t in TYPES if t != 'Enum']))
    spec = specs.leaf_spec(draw, specs.Opt([], leaf_types=[t]), None)
    return {'spec': spec, 'value': draw(S.native_for(t))}


@st.composite
def constrained(draw):
    t = draw(st.sampled_from(['Enum', 'Enum', 'Constrained']))
    child = specs.leaf_spec(draw, specs.Opt([], leaf_types=[
        'String', 'Integer', 'Long', 'Float', 'Decimal', 'Boolean', 'Date',
        'DateTime', 'Time']), None)
    values = draw(st.lists(
        st.one_of(good_native(child['t']), good_native(child['t']),
                  st.none(), good_native(child['t'])),
        min_size=0 if t == 'Constrained' else 1, max_size=5))
    spec = {'t': t, 'n': draw(st.sampled_from([None, u'e'])), 'of': [child],
            'o': {'values': values}}
    steps = []
    for _ in range(draw(st.integers(1, 6))):
        how = draw(st.sampled_from(['set', 'set', 'set', 'flat', 'new',
                                    'default']))
        k = draw(st.integers(0, 9))
        if k < 4 and values:
            v = {'pick': draw(st.integers(0, len(values) - 1)),
                 'form': draw(st.sampled_from(['native', 'text', 'padded',
                                               'bytes']))}
        elif k < 8:
            v = {'value': specs.leaf_value(draw, child)}
        else:
            v = {'value': draw(S.any_value)}
        steps.append([how, v])
    return {'spec': spec, 'steps': steps}


def good_native(t):
    small = st.integers(-3, 12)
    return {
        'String': st.sampled_from([u'a', u'b', u' a', u'', u'on', u'1',
                                   u'\u2603', u'a b', u'A']),
        'Integer': small.map(S.i), 'Long': small.map(S.i),
        'Float': small.map(lambda n: S.f(n / 2.0)),
        'Decimal': small.map(lambda n: S.d('%d.5' % n)),
        'Boolean': st.booleans(),
        'Date': S.dates, 'DateTime': S.datetimes, 'Time': S.times}[t]


PROPS = [
    Prop('C04',
         'Scalar specs of every type with random options, each given a '
         'sequence of set/set_flat/construction/default inputs drawn from '
         'native values, near-miss texts, bytes and foreign objects. '
         'Non-trivial: at least one input adapted to a non-None value or at '
         'least one failed with non-empty text.',
         [('history', 1, history)], quick=12000, thorough=400000),
    Prop('C05',
         'Scalar specs of every type with random options and values set, '
         're-set from their own text on the same, a fresh and a third '
         'element; native values of each type. Non-trivial: a value adapted '
         'to something other than None.',
         [('fixpoint', 1, fixpoint), ('native', 1, native)],
         quick=12000, thorough=400000),
    Prop('C06',
         'Enum and Constrained over every child type with random permitted '
         'sets and sequences of inputs (members in native, text, padded and '
         'bytes form; non-members; foreign values). Non-trivial: at least '
         'one input was accepted or refused by the constraint itself.',
         [('constrained', 1, constrained)], quick=10000, thorough=300000),
]
