# -*- coding: utf-8 -*-
"""Shared by the oracles: verdicts, value decoding, schema construction."""
import datetime
import decimal
import json
import re


class Violation(Exception):
    def __init__(self, message):
        if isinstance(message, str):
            message = message.decode('utf8', 'replace')
        Exception.__init__(self, message)
        self.message = message


class HarnessFault(Exception):
    pass


def show(obj, limit=700):
    try:
        text = repr(obj)
    except Exception, exc:
        text = '<unprintable %s: %s>' % (type(obj).__name__, exc)
    if isinstance(text, str):
        text = text.decode('latin1')
    return text if len(text) <= limit else text[:limit] + u'...'


class Ctx(object):
    def __init__(self):
        self.labels = set()
        self.nontrivial = False

    def label(self, name):
        self.labels.add(name)

    def nt(self, cond=True):
        if cond:
            self.nontrivial = True

    def fail(self, message, *args):
        raise Violation(message % tuple(
            a if isinstance(a, (unicode, str)) else show(a) for a in args)
            if args else message)

    def ok(self, cond, message, *args):
        if not cond:
            self.fail(message, *args)

    def eq(self, got, want, what):
        if not same(got, want):
            self.fail(u'%s: got %s, want %s', what, show(got), show(want))

    def text(self, got, want, what):
        if not isinstance(got, unicode):
            self.fail(u'%s: got %s, which is not unicode', what, show(got))
        self.eq(unicode(got), want, what)

    def raises(self, kinds, fn, what):
        try:
            res = fn()
        except kinds:
            return
        except Exception, exc:
            self.fail(u'%s: raised %s, want %s', what, show(exc), show(kinds))
        self.fail(u'%s: returned %s, want %s', what, show(res), show(kinds))


def same(a, b):
    """Equality that treats NaN as itself and distinguishes bool/None."""
    if a is b:
        return True
    if isinstance(a, bool) != isinstance(b, bool):
        return False
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return (isinstance(a, list) == isinstance(b, list) and
                len(a) == len(b) and
                all(same(x, y) for x, y in zip(a, b)))
    if isinstance(a, dict) and isinstance(b, dict):
        return (len(a) == len(b) and
                all(k in b and same(v, b[k]) for k, v in a.items()))
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b)
    if isinstance(a, decimal.Decimal) or isinstance(b, decimal.Decimal):
        return type(a) is type(b) and (
            repr(a) == repr(b) or (not a.is_snan() and not b.is_snan() and
                                   a == b))
    if isinstance(a, (datetime.date, datetime.time)):
        return type(a) is type(b) and a == b
    return a == b


class Odd(object):
    """A value of no type any element knows."""
    def __init__(self, text):
        self.text = text

    def __unicode__(self):
        return self.text

    def __str__(self):
        return self.text.encode('utf8')

    def __repr__(self):
        return 'Odd(%r)' % self.text

    def __eq__(self, other):
        return isinstance(other, Odd) and self.text == other.text

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return 5


def dec(x):
    """Decode a generated value."""
    if x is None or isinstance(x, (bool, unicode)):
        return x
    if isinstance(x, str):
        return x.decode('ascii')
    if isinstance(x, dict):
        (tag, v), = x.items()
        if tag == 'i':
            return int(v)
        if tag == 'f':
            return float(v)
        if tag == 'd':
            return decimal.Decimal(v)
        if tag == 'b':
            return v.encode('ascii').decode('hex')
        if tag == 'dt':
            return datetime.datetime(*v)
        if tag == 'da':
            return datetime.date(*v)
        if tag == 'ti':
            return datetime.time(*v)
        if tag == 'l':
            return [dec(i) for i in v]
        if tag == 't':
            return tuple(dec(i) for i in v)
        if tag == 'm':
            return dict((dec(k), dec(i)) for k, i in v)
        if tag == 'pairs':
            return [(dec(k), dec(i)) for k, i in v]
        if tag == 'it':
            return iter([dec(i) for i in v])
        if tag == 'o':
            return Odd(v)
    raise HarnessFault('can not decode %r' % (x,))


def fresh(x):
    """A decoded value, safe to keep for later comparison."""
    return dec(x)


SCALARS = ('String', 'Integer', 'Long', 'Float', 'Decimal', 'Boolean', 'Date',
           'DateTime', 'Time', 'Enum', 'Constrained')


def build(spec, deco=None):
    """Build a flatland schema class from a JSON spec.

    {"t": type, "n": name or None, "of": [specs], "o": {options}}

    *deco* may be called with each class and its spec to derive another.
    """
    cls = _build(spec, deco)
    return deco(cls, spec) if deco is not None else cls


def _build(spec, deco):
    import flatland
    t = spec['t']
    o = spec.get('o') or {}
    cls = getattr(flatland, t)
    using = {}
    if t in ('List', 'Array', 'MultiValue', 'JoinedString', 'Dict',
             'SparseDict'):
        if spec.get('of'):
            cls = cls.of(*[build(s, deco) for s in spec['of']])
    elif t == 'Form':
        cls = type(flatland.Form)('GeneratedForm', (flatland.Form,), dict(
            (s['n'].encode('ascii'), build(s, deco)) for s in spec['of']))
    elif t == 'Enum':
        if spec.get('of'):
            using['child_type'] = build(spec['of'][0])
        if using:
            cls = cls.using(**using)
            using = {}
        cls = cls.valued(*[dec(v) for v in o['values']])
    elif t == 'Constrained':
        allowed = [dec(v) for v in o['values']]
        using['child_type'] = build(spec['of'][0])
        using['valid_value'] = lambda element, value: value in allowed
    elif t == 'Ref':
        cls = cls.to(o['to'])
        if 'writable' in o:
            using['writable'] = o['writable']
    if 'default' in o:
        using['default'] = dec(o['default'])
    for key, attr in (('strip', 'strip'), ('signed', 'signed'),
                      ('format', 'format'), ('optional', 'optional'),
                      ('prune', 'prune_empty'),
                      ('max', 'maximum_set_flat_members'),
                      ('policy', 'policy'), ('minimum', 'minimum_fields'),
                      ('sep', 'separator'), ('true', 'true'),
                      ('false', 'false'), ('true_syn', 'true_synonyms'),
                      ('false_syn', 'false_synonyms')):
        if key in o:
            v = o[key]
            if isinstance(v, list):
                v = tuple(v)
            using[attr] = v
    if 'sep_re' in o:
        using['separator_regex'] = re.compile(o['sep_re'], re.UNICODE)
    if using:
        cls = cls.using(**using)
    if spec.get('n') is not None:
        cls = cls.named(spec['n'])
    return cls


def kind(spec):
    t = spec['t']
    if t in SCALARS:
        return 'scalar'
    if t in ('Array', 'MultiValue'):
        return 'array'
    if t in ('Dict', 'Form'):
        return 'dict'
    return {'List': 'list', 'SparseDict': 'sparse', 'JoinedString': 'joined',
            'DateYYYYMMDD': 'date', 'Ref': 'ref'}[t]


def walk(el):
    """el and everything beneath, depth first, via children."""
    yield el
    for child in el.children:
        for sub in walk(child):
            yield sub


def snapshot(el, spec):
    """A comparable structure of the public state beneath el."""
    k = kind(spec)
    if k == 'scalar' or k == 'ref':
        return ('s', unicode(el.u), el.value)
    if k == 'joined':
        return ('j', unicode(el.u), [unicode(c.u) for c in el])
    if k == 'date':
        return ('c', unicode(el.u), el.value,
                sorted((unicode(n), unicode(el[n].u), el[n].value)
                       for n in el.keys()))
    if k in ('list', 'array'):
        return ('l', [snapshot(c, member(spec)) for c in el])
    fields = dict((s['n'], s) for s in spec['of'])
    return ('m', dict((n, snapshot(el[n], fields[n])) for n in el.keys()))


def member(spec):
    """The member spec of a list-like spec (several fields: anonymous Dict)."""
    if len(spec['of']) == 1:
        return spec['of'][0]
    return {'t': 'Dict', 'n': None, 'of': spec['of'], 'o': {}}


def blob(x):
    return json.dumps(x, sort_keys=True)
