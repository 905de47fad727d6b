"""Strategies shared by the generators.  Everything is JSON-able."""
from hypothesis import strategies as st

# -- text ------------------------------------------------------------------

WS = u' \t\n\r\x0b\x0c\xa0\u2003\u3000'
NASTY = u'<>&"\'%\\/[](){}.*+?^$|_-:;,#~@!= \t\n\u00e9\u0663\u2603\ufeff'

# (Jython miscounts characters outside the basic plane in str.join)
BMP = st.characters(max_codepoint=0xffff, exclude_categories=('Cs',))

plain_text = st.text(alphabet=u'abcXYZ019 ', max_size=8)
odd_text = st.text(alphabet=NASTY + u'ab1', max_size=10)
any_text = st.one_of(
    plain_text, odd_text,
    st.text(alphabet=BMP, max_size=12),
    st.builds(lambda a, b, c: a + b + c, st.sampled_from(
        [u'', u' ', u'\t', u'\n', u'\u2003']), plain_text, st.sampled_from(
        [u'', u' ', u'\t', u'\n', u'\u2003'])))
nonblank_text = st.one_of(
    st.text(alphabet=u'abcXYZ019', min_size=1, max_size=6),
    st.text(alphabet=NASTY + u'ab1', max_size=6).map(lambda s: u'x' + s + u'y'),
)


def i(n):
    return {'i': str(n)}


def f(x):
    return {'f': repr(x)}


def d(s):
    return {'d': str(s)}


def b(raw):
    return {'b': raw.hex()}


ints = st.one_of(st.integers(-20, 20), st.integers(-10**6, 10**6),
                 st.sampled_from([0, 1, -1, 2**31 - 1, 2**31, -2**31,
                                  2**63, -2**63, 10**20, -10**20])).map(i)
floats = st.one_of(
    st.integers(-1000, 1000).map(lambda n: n / 8.0),
    st.floats(allow_nan=True, allow_infinity=True),
    st.sampled_from([0.0, -0.0, 1e308, 1e-308, float('inf'), -float('inf'),
                     float('nan'), 0.1, 2.5])).map(f)
decimals = st.one_of(
    st.integers(-10**6, 10**6).map(lambda n: d('%d' % n)),
    st.tuples(st.integers(-10**5, 10**5), st.integers(0, 5)).map(
        lambda t: d('%dE-%d' % t)),
    st.sampled_from(['0', '-0', '1E+5', 'NaN', 'Infinity', '-Infinity',
                     '1E-8', '0.10', 'sNaN']).map(d))
dates = st.one_of(
    st.dates(), st.sampled_from([
        __import__('datetime').date(*a) for a in
        [(1, 1, 1), (9999, 12, 31), (2000, 2, 29), (1900, 1, 1),
         (1899, 12, 31)]])).map(lambda x: {'da': [x.year, x.month, x.day]})
datetimes = st.datetimes().map(lambda x: {'dt': [
    x.year, x.month, x.day, x.hour, x.minute, x.second]})
times = st.times().map(lambda x: {'ti': [x.hour, x.minute, x.second]})
byte_strings = st.one_of(
    st.binary(max_size=6),
    st.sampled_from([b'', b'abc', b' 12 ', b'\xff', b'caf\xc3\xa9', b'1',
                     b'on', b'2000-01-01'])).map(b)
odd_objects = st.one_of(
    st.just({'o': u'odd'}), any_text.map(lambda t: {'o': t}),
    st.lists(st.integers(0, 3).map(i), max_size=2).map(lambda l: {'l': l}),
    st.lists(st.integers(0, 3).map(i), max_size=3).map(lambda l: {'t': l}),
    st.just({'m': []}), st.just({'m': [[u'a', {'i': '1'}]]}))

number_text = st.one_of(
    st.integers(-10**6, 10**6).map(str),
    st.integers(-1000, 1000).map(lambda n: str(n / 8.0)),
    st.sampled_from(['+5', '- 5', '--5', '0x10', '1_0', '1e5', '10L', '007',
                     '1.', '.5', 'nan', '-inf', 'Infinity', '1e400', 'sNaN',
                     '0', '-0', '00', u'\u0663', u'\u00b2', '1,5', '9' * 25,
                     '1.5e3', '2147483648', '9223372036854775808']))
pad = st.sampled_from([u'', u' ', u'\t', u'\n ', u'\u2003', u'\xa0'])


def padded(strategy):
    return st.builds(lambda a, s, z: a + s + z, pad, strategy, pad)


def _two(n):
    return '%02d' % n


date_text = st.one_of(
    st.builds(lambda y, m, dd: '%04d-%02d-%02d' % (y, m, dd),
              st.integers(0, 9999), st.integers(0, 13), st.integers(0, 32)),
    st.builds(lambda y, m, dd: '%04d-%02d-%02d' % (y, m, dd),
              st.integers(1, 9999), st.integers(1, 12), st.integers(1, 28)),
    st.sampled_from(['2000-1-1', '20000-01-01', '2000-01-01x', '2000-02-30',
                     '2000/01/01', '2000-01-01\n', '2000-01-01 ', '0000-01-01',
                     u'\u0662000-01-01', '2000-02-29', '1900-02-29']))
time_text = st.one_of(
    st.builds(lambda h, m, s: '%02d:%02d:%02d' % (h, m, s),
              st.integers(0, 25), st.integers(0, 61), st.integers(0, 61)),
    st.builds(lambda h, m, s: '%02d:%02d:%02d' % (h, m, s),
              st.integers(0, 23), st.integers(0, 59), st.integers(0, 59)),
    st.sampled_from(['1:2:3', '23:59:59', '24:00:00', '00:00:00', '12:30',
                     '12:30:30.5', '']))
datetime_text = st.one_of(
    st.builds(lambda a, c: a + ' ' + c, date_text, time_text),
    st.builds(lambda a, s, c: a + s + c, date_text,
              st.sampled_from(['T', '  ', '\t']), time_text))
bool_text = st.sampled_from(['on', 'off', 'true', 'True', 'TRUE', 'false',
                             'False', '0', '1', '', 'yes', 'no', ' 1', '2',
                             't', 'None'])

hostile_text = st.one_of(any_text, number_text, date_text, time_text,
                         datetime_text, bool_text, padded(number_text))

any_value = st.one_of(
    hostile_text, st.none(), st.booleans(), ints, floats, decimals, dates,
    datetimes, times, byte_strings, odd_objects)


# -- scalar specs and the values that suit them ----------------------------

def native_for(t):
    """Native values of a scalar type (JSON)."""
    return {
        'String': any_text,
        'Integer': ints, 'Long': ints,
        'Float': floats, 'Decimal': decimals,
        'Boolean': st.booleans(),
        'Date': dates, 'DateTime': datetimes, 'Time': times,
    }[t]


def text_for(t):
    return {
        'String': any_text,
        'Integer': padded(number_text), 'Long': padded(number_text),
        'Float': padded(number_text), 'Decimal': padded(number_text),
        'Boolean': bool_text,
        'Date': padded(date_text), 'DateTime': padded(datetime_text),
        'Time': padded(time_text),
    }[t]
