# -*- coding: utf-8 -*-
"""C32 and C39: objects in and out of Dicts, utilities."""
import collections
import copy
import pickle
import re
import threading

from lib import build, dec, kind, same, show, snapshot


class Duck(object):
    def __init__(self, data):
        self.data = data

    def keys(self):
        return self.data.keys()

    def __getitem__(self, key):
        return self.data[key]


class Iteritems(object):
    def __init__(self, data):
        self.data = data

    def iteritems(self):
        return iter(self.data.items())


def group(g):
    if g is None:
        return None
    return {'list': list, 'tuple': tuple, 'set': set, 'iter': iter,
            'frozenset': frozenset, 'dict': dict.fromkeys}[g['as']](
                [str(k) for k in g['keys']])


def renaming(g):
    if g is None:
        return None
    pairs = [(str(a), str(b)) for a, b in g['pairs']]
    return {'dict': dict, 'list': list, 'tuple': tuple, 'iter': iter,
            'duck': lambda p: Duck(dict(p))}[g['as']](pairs)


def arguments(args):
    """Fresh keyword arguments; only what was given."""
    out = {}
    for k in ('include', 'omit'):
        if args[k] is not None:
            out[k] = group(args[k])
    if args['rename'] is not None:
        out['rename'] = renaming(args['rename'])
    return out


KEYFUNCS = {None: None, 'str': str, 'upper': lambda k: k.upper(),
            'suffix': lambda k: k + 'b',
            'strip_a': lambda k: k[1:] if k.startswith('a') else k}


def conflict(args):
    """Both include and omit given and non-empty (True), None if one is
    there but empty in a way that is not ours to say."""
    inc, om = args['include'], args['omit']
    if inc is None or om is None:
        return False
    if inc['keys'] and om['keys']:
        return True
    return None if 'iter' in (inc['as'], om['as']) else False


def selector(args, keyfunc=None):
    """key -> new key or None"""
    inc = set(args['include']['keys']) if args['include'] else set()
    om = set(args['omit']['keys']) if args['omit'] else set()
    ren = dict(args['rename']['pairs']) if args['rename'] else {}

    def select(key):
        if keyfunc:
            key = keyfunc(key)
        if key in ren:
            return ren[key]
        if inc and key not in inc:
            return None
        if not inc and key in om:
            return None
        return key
    return select


def c32(ctx, mode, case):
    spec = case['spec']
    cls = build(spec)
    fields = dict((f['n'], f) for f in spec['of'])
    el = cls()
    el.set(dec(case['value']))
    obj, have = make_object(case['attrs'])
    for i, step in enumerate(case['steps']):
        args = step['args']
        what = u'step %d: %s(%s)' % (i, step['op'], show(args, 300))
        clash = conflict(args)
        if clash is None:
            ctx.label('unjudged')
            return
        before = snapshot(el, spec)
        given = args['include'] or args['omit'] or args['rename']
        if clash:
            ctx.label('clash')
            fn = {'slice': lambda: el.slice(**arguments(args)),
                  'update': lambda: el.update_object(obj, **arguments(args)),
                  'round': lambda: el.update_object(obj, **arguments(args)),
                  'set_by': lambda: el.set_by_object(obj, **arguments(args)),
                  'from_object': lambda: cls.from_object(
                      obj, **arguments(args))}[step['op']]
            ctx.raises(TypeError, fn, what)
            ctx.eq(snapshot(el, spec), before, u'%s: element' % what)
            check_object(ctx, obj, have, what)
            continue
        if step['op'] in ('slice', 'update', 'round'):
            keyfunc = KEYFUNCS[step['key']]
            if step['op'] == 'round':
                args = {'include': None, 'omit': None, 'rename': None}
                keyfunc = None
            select = selector(args, keyfunc or (
                None if step['op'] == 'slice' else str))
            want = {}
            for k in el.keys():
                new = select(k)
                if new is not None:
                    want.setdefault(new, []).append(el[k].value)
            kw = arguments(args)
            if keyfunc:
                kw['key'] = keyfunc
            if step['op'] == 'slice':
                got = el.slice(**kw)
                ctx.ok(type(got) is dict, u'%s: a %s', what, type(got))
                ctx.eq(sorted(got), sorted(want), u'%s: keys' % what)
                for k, vs in want.items():
                    ctx.ok(any(same(got[k], v) for v in vs),
                           u'%s: %s is %s, want %s', what, k, got[k], vs)
            else:
                got = el.update_object(obj, **kw)
                ctx.ok(got is None, u'%s: returned %s', what, got)
                for k, vs in want.items():
                    new = getattr(obj, k)
                    ctx.ok(any(same(new, v) for v in vs),
                           u'%s: attribute %s is %s, want %s', what, k, new,
                           vs)
                    have[k] = new
                check_object(ctx, obj, have, what)
            ctx.eq(snapshot(el, spec), before, u'%s: element' % what)
            ctx.nt(given and len(el.keys()) > 1)
            if step['op'] != 'round':
                continue
            twin = cls()
            twin.set_by_object(obj)
            for k in el.keys():
                again = build(fields[k])()
                again.set(el[k].value)
                ctx.eq(snapshot(twin[k], fields[k]),
                       snapshot(again, fields[k]),
                       u'%s: %s read back' % (what, k))
                if kind(fields[k]) == 'scalar' and el[k].value is not None:
                    ctx.eq(twin[k].value, el[k].value,
                           u'%s: value of %s read back' % (what, k))
            continue
        select = selector(args)
        final = {}
        ren = dict(args['rename']['pairs']) if args['rename'] else {}
        for a, v in have.items():
            if a not in fields and a not in ren:
                continue
            new = select(a)
            if new in fields:
                final.setdefault(new, []).append(v)
        try:
            twins = dict((k, [wanted(fields[k], v) for v in vs])
                         for k, vs in final.items())
        except (TypeError, ValueError, KeyError):
            ctx.label('unsettable')     # not a value for such a field
            return
        old = el
        if step['op'] == 'set_by':
            got = el.set_by_object(obj, **arguments(args))
        else:
            el = cls.from_object(obj, **arguments(args))
            ctx.ok(type(el) is cls and el is not old,
                   u'%s: a %s', what, type(el))
            ctx.eq(snapshot(old, spec), before, u'%s: the old element' % what)
        fresh = cls()
        ctx.eq(sorted(el.keys()), sorted(set(fresh.keys()) | set(final)),
               u'%s: keys' % what)
        for k in el.keys():
            if k not in final:
                ctx.eq(snapshot(el[k], fields[k]),
                       snapshot(fresh[k], fields[k]),
                       u'%s: unselected field %s' % (what, k))
                continue
            options = twins[k]
            got = snapshot(el[k], fields[k])
            ctx.ok(any(same(got, o) for o in options),
                   u'%s: field %s is %s, want %s', what, k, got, options)
        check_object(ctx, obj, have, what)
        ctx.nt(given and len(final) > 1)
        if len(final) < len([a for a in have if a in fields]):
            ctx.label('left out')


def wanted(spec, value):
    twin = build(spec)()
    twin.set(value)
    return snapshot(twin, spec)


def make_object(attrs):
    have = {}
    body = {'__slots__': ['__dict__'] + [str(n) for n, v, how in attrs
                                         if how == 'slot']}

    def prop(name):
        def fget(self):
            return self.__dict__[name + '!']

        def fset(self, value):
            self.__dict__[name + '!'] = value
        return property(fget, fset)
    for n, v, how in attrs:
        if how == 'class':
            body[str(n)] = have[n] = dec(v)
        elif how == 'property':
            body[str(n)] = prop(str(n))
    obj = type('Thing', (object,), body)()
    for n, v, how in attrs:
        if how != 'class':
            have[n] = dec(v)
            setattr(obj, n, have[n])
    return obj, have


def check_object(ctx, obj, have, what):
    for k, v in have.items():
        ctx.ok(hasattr(obj, k) and same(getattr(obj, k), v),
               u'%s: attribute %s of the object is %s, want %s', what, k,
               getattr(obj, k, u'missing'), v)
    extra = [k.rstrip('!') for k in obj.__dict__ if k.rstrip('!') not in have]
    ctx.ok(not extra, u'%s: new attributes %s', what, extra)


# -- C39 ---------------------------------------------------------------------

def c39(ctx, mode, case):
    {'logic': logic, 'symbols': symbols, 'descriptors': descriptors,
     'keyslice': keyslice, 'texts': texts}[mode](ctx, case)


def logic(ctx, case):
    from flatland.util import Maybe
    real = {'T': True, 'F': False, 'M': Maybe}
    rank = {'F': 0, 'M': 1, 'T': 2}
    back = [False, Maybe, True]
    count = [0]

    def walk(tree):
        if not isinstance(tree, list):
            return real[tree], rank[tree]
        op, a, b = tree
        (x, m), (y, n) = walk(a), walk(b)
        count[0] += 1
        got = x & y if op == '&' else x | y
        want = min(m, n) if op == '&' else max(m, n)
        ctx.ok(got is back[want], u'%s %s %s is %s, want %s', x, str(op), y,
               got, back[want])
        return got, want
    value, want = walk(case['tree'])
    ctx.ok(Maybe.not_(value) is back[2 - want], u'not %s is %s', value,
           Maybe.not_(value))
    ctx.ok(Maybe.truth(value) is (want > 0), u'truth of %s is %s', value,
           Maybe.truth(value))
    ctx.raises(NotImplementedError, lambda: bool(Maybe), u'bool(Maybe)')
    other = dec(case['other'])
    if not isinstance(other, bool):
        for fn in (lambda: Maybe & other, lambda: Maybe | other,
                   lambda: Maybe.not_(other), lambda: Maybe.truth(other)):
            ctx.raises(TypeError, fn, u'Maybe with %s' % show(other))
        if not isinstance(other, (set, frozenset)):
            ctx.raises(TypeError, lambda: other & Maybe, u'with Maybe')
            ctx.raises(TypeError, lambda: other | Maybe, u'with Maybe')
    ctx.nt(count[0] > 1)


def symbols(ctx, case):
    from flatland.util import symbol
    names = [str(n) for n in case['names']]
    syms = [symbol(n) for n in names]
    for n, s in zip(names, syms):
        ctx.eq(repr(s), n, u'repr')
        ctx.eq(s.name, n, u'name')
        ctx.eq(s.__name__, n, u'__name__')
        for m, t in zip(names, syms):
            ctx.ok((n == m) == (s is t), u'symbols %s and %s', n, m)
            ctx.ok((n == m) == (s == t), u'symbols %s and %s compare', n, m)
    for how in case['how']:
        if how == 'threads':
            fresh = 'threads-%d-%s' % (len(symbol.symbols), names[0])
            got = []
            gate = threading.Event()

            def run():
                gate.wait()
                got.append(symbol(fresh))
            threads = [threading.Thread(target=run) for _ in range(4)]
            for t in threads:
                t.start()
            gate.set()
            for t in threads:
                t.join()
            ctx.ok(len(got) == 4 and all(g is got[0] for g in got) and
                   symbol(fresh) is got[0], u'%s made in threads: %s',
                   fresh, [id(g) for g in got])
            continue
        for n, s in zip(names, syms):
            if how == 'again':
                other = symbol(''.join(list(n)))
            elif how == 'copy':
                other = copy.copy(s)
            elif how == 'deep':
                other = copy.deepcopy(s)
            elif how == 'nested':
                other = copy.deepcopy({'k': [s, (s,)]})['k'][1][0]
            else:
                other = pickle.loads(pickle.dumps([s], int(how[-1])))[0]
            ctx.ok(other is s, u'%s of symbol %s is another object', how, n)
    ctx.nt(len(set(names)) > 1)


MISSING = object()


def given(n):
    # any value counts as given, whatever its truth
    return {0: None, 1: False, 2: 0, 3: u'', 4: (), 5: NotImplemented}.get(
        n, [n])


def descriptors(ctx, case):
    from flatland import util
    calls = []

    if case['kind'] == 'class':
        def fn(instance, cls):
            """The doc."""
            calls.append((instance, cls))
            return len(calls), instance, cls
        maker = util.assignable_class_property
    else:
        def fn(self):
            """The doc."""
            calls.append((self, type(self)))
            return len(calls), self, type(self)
        maker = (util.lazy_property if case['kind'] == 'lazy'
                 else util.assignable_property)
    custom = case['name'] is not None and case['kind'] != 'lazy'
    attr = 'other' if custom else 'fn'
    descriptor = maker(fn, name='other') if custom else maker(fn)
    Base = type('Base', (object,), {attr: descriptor})
    Sub = type('Sub', (Base,), {})
    objs = [Base(), Sub()]
    assigned = [MISSING, MISSING]
    replaced = MISSING
    kinds = set()
    for op, at, value in case['ops']:
        what = u'%s %s %d' % (case['kind'], op, at)
        n = len(calls)
        kinds.add(op)
        i = at % len(objs)
        o = objs[i]
        if op == 'new':
            objs.append((Base, Sub)[at % 2]())
            assigned.append(MISSING)
        elif op == 'get':
            got = getattr(o, attr)
            if assigned[i] is not MISSING:
                ctx.ok(got is assigned[i], u'%s: got %s, want %s', what, got,
                       assigned[i])
                ctx.eq(len(calls), n, u'%s: computed' % what)
            elif replaced is not MISSING:
                ctx.ok(got is replaced, u'%s: got %s, not the class\'s %s',
                       what, got, replaced)
            else:
                ctx.eq(len(calls), n + 1, u'%s: times computed' % what)
                ctx.ok(got[0] == n + 1 and got[1] is o and
                       got[2] is type(o), u'%s: %s', what, got)
                ctx.ok(calls[-1][0] is o and calls[-1][1] is type(o),
                       u'%s: called with %s', what, calls[-1])
                if case['kind'] == 'lazy':
                    assigned[i] = got
        elif op == 'set':
            value = given(value)
            setattr(o, attr, value)
            assigned[i] = value
            ctx.eq(len(calls), n, u'%s: computed' % what)
        elif op == 'del':
            if assigned[i] is MISSING:
                ctx.raises(AttributeError, lambda: delattr(o, attr), what)
            else:
                delattr(o, attr)
                assigned[i] = MISSING
            ctx.eq(len(calls), n, u'%s: computed' % what)
        elif op == 'class':
            cls = (Base, Sub)[at % 2]
            got = getattr(cls, attr)
            if replaced is not MISSING:
                ctx.ok(got is replaced, u'%s: %s', what, got)
            elif case['kind'] == 'assignable':
                ctx.ok(got is None, u'%s: %s', what, got)
            elif case['kind'] == 'lazy':
                ctx.ok(got is descriptor, u'%s: %s', what, got)
            else:
                ctx.ok(got[0] == n + 1 and got[1] is None and got[2] is cls,
                       u'%s: %s', what, got)
        elif op == 'vars':
            ctx.eq(sorted(o.__dict__), [] if assigned[i] is MISSING
                   else [attr], u'%s: instance dict' % what)
        elif op == 'classset' and case['kind'] == 'class':
            replaced = (value, 'on the class')
            setattr(Base, attr, replaced)
            ctx.eq(len(calls), n, u'%s: computed' % what)
    for i, o in enumerate(objs):
        if assigned[i] is not MISSING:
            ctx.ok(getattr(o, attr) is assigned[i], u'finally: object %d', i)
    ctx.nt('set' in kinds and 'del' in kinds)


def keyslice(ctx, case):
    from flatland.util import keyslice_pairs, to_pairs
    pairs = [(str(k), v) for k, v in case['pairs']]
    shape = case['shape']
    unique = dict(pairs)
    if shape == 'list':
        source = pairs
    elif shape == 'tuple':
        source = tuple(pairs)
    elif shape == 'iter':
        source = iter(pairs)
    else:
        pairs = unique.items()
        source = {'dict': dict, 'duck': Duck, 'iteritems': Iteritems,
                  'ordered': collections.OrderedDict,
                  'namedtuple': lambda d: collections.namedtuple(
                      'NT', sorted(d))(**d)}[shape](unique)
    got = list(to_pairs(source))
    if shape in ('list', 'tuple', 'iter'):
        ctx.eq(got, pairs, u'to_pairs')
    else:
        ctx.eq(sorted(got), sorted(pairs), u'to_pairs of %s' % shape)
    args = case['args']
    clash = conflict(args)
    if clash is None:
        return
    kw = arguments(args)
    key = KEYFUNCS[case['key']]
    if key:
        kw['key'] = key
    if clash:
        ctx.raises(TypeError, lambda: list(keyslice_pairs(pairs, **kw)),
                   u'include and omit')
        return
    select = selector(args, key)
    want = [(select(k), v) for k, v in pairs if select(k) is not None]
    ctx.eq(list(keyslice_pairs(iter(pairs), **kw)), want,
           u'keyslice_pairs(%s, %s)' % (show(pairs), show(args, 300)))
    ctx.nt(args['include'] or args['omit'] or args['rename'])


def texts(ctx, case):
    from flatland import util
    from flatland.out.util import parse_trool
    text, other = case['text'], case['other']
    pattern = util.re_uescape(text)
    rx = util.re_ucompile(u'(?:' + pattern + u')\\Z')
    ctx.ok(rx.flags & re.UNICODE, u're_ucompile without re.UNICODE')
    ctx.ok(rx.match(text), u'%s does not match %s', pattern, text)
    for t in (other, text + u'x', text[:-1], text[1:], text.swapcase()):
        ctx.ok(bool(rx.match(t)) == (t == text), u'pattern %s on %s',
               pattern, t)
    data = dict((str(k), i) for i, k in enumerate(case['attrs']))
    d = util.adict(data)
    holder = type('Holder', (object,), dict(list(data.items())[:1]))()
    holder.__dict__.update(list(data.items())[1:])
    view = util.as_mapping(holder)
    ctx.eq(dict(d), data, u'adict')
    ctx.eq(sorted(view), sorted(dir(holder)), u'names in as_mapping')
    for k in case['ask'] + case['attrs']:
        k = str(k)
        if k in data:
            ctx.eq(getattr(d, k), data[k], u'adict.%s' % k)
            ctx.eq(view[k], data[k], u'as_mapping %s' % k)
            ctx.ok(k in view, u'as_mapping lacks %s', k)
        elif k != '__class__':
            ctx.raises(AttributeError, lambda: getattr(d, k), u'adict')
            ctx.raises(KeyError, lambda: view[k], u'as_mapping')
            ctx.ok(k not in view, u'as_mapping has %s', k)
    t = case['trool']
    want = util.Maybe
    if t.lower() in (u'1', u'true', u't', u'on', u'yes'):
        want = True
    elif t.lower() in (u'0', u'false', u'nil', u'off', u'no'):
        want = False
    for spelt in (t, t.upper(), t.title(), t.lower()):
        ctx.ok(parse_trool(spelt) is want, u'%s parses to %s', spelt,
               parse_trool(spelt))
    for v in (True, False, util.Maybe):
        ctx.ok(parse_trool(v) is v, u'%s parses to %s', v, parse_trool(v))
    ctx.nt(len(text) > 1 and pattern != text)


CHECKS = {'C32': c32, 'C39': c39}
