# -*- coding: utf-8 -*-
"""C42, C43: reading is free of effects; shorthands and longhands agree."""
from lib import build, dec, kind, member, same, show, walk, HarnessFault
from checks.sharing import (CHECKERS, Program, digest, flat_value, one, plain,
                            shared_schema)


# -- C42: reads ---------------------------------------------------------------

def bare(el):
    """The structure beneath el, with as little reading as possible."""
    if isinstance(el, list):
        own = list.__len__(el)
    elif isinstance(el, dict):
        own = sorted(dict.keys(el))
    else:
        own = None
    return (id(el), id(el.parent), el.name, own,
            sorted(bare(c) for c in el.children))


class Bag(object):
    pass


def misses(fn):
    try:
        return fn()
    except LookupError, exc:
        return 'LookupError'


def names_of(els):
    return [e.fq_name() for e in els]


def read_find(el, arg, strict):
    try:
        return names_of(el.find(arg, strict=strict))
    except LookupError:
        return 'LookupError'


def read_one(el, arg):
    try:
        found = el.find(arg, single=True, strict=False)
    except LookupError:
        return 'LookupError'
    return None if found is None else found.fq_name()


def read_el(el, arg):
    try:
        return el.el(arg).fq_name()
    except KeyError:
        return 'KeyError'


def objects(el, arg):
    bag = Bag()
    el.update_object(bag, rename=[(str(el.keys()[0]), 'renamed')]
                     if len(el) else None)
    return sorted((k, plain(v)) for k, v in vars(bag).items())


def sequence(el):
    return isinstance(el, list)


def mapping(el):
    return isinstance(el, dict)


def anything(el):
    return True


def textual(el):
    return not mapping(el) and not (
        sequence(el) and type(el.value) is list)


# what a search for a text no member could be made from may raise
UNSUITABLE = (LookupError, TypeError, ValueError)

READS = {
    'value': (anything, lambda el, a: plain(el.value)),
    'u': (anything, lambda el, a: el.u),
    'repr': (anything, lambda el, a: type(repr(el)).__name__),
    'str': (anything, lambda el, a: type(str(el)).__name__),
    'unicode': (anything, lambda el, a: type(unicode(el)).__name__),
    'bool': (anything, lambda el, a: bool(el)),
    'is_empty': (anything, lambda el, a: el.is_empty),
    'valid': (anything, lambda el, a: (show(el.valid), bool(el.all_valid))),
    'children': (anything, lambda el, a: names_of(el.children)),
    'all_children': (anything, lambda el, a: names_of(el.all_children)),
    'family': (anything, lambda el, a: (
        len(list(el.parents)), len(list(el.path)), el.root.fq_name())),
    'fq_name': (anything, lambda el, a: (el.fq_name(), el.fq_name(u'::'))),
    'flattened': (anything, lambda el, a: (
        el.flattened_name(), el.flattened_name(u'/'))),
    'flatten': (anything, lambda el, a: el.flatten(u'--')),
    'flatten value': (anything, lambda el, a: el.flatten(
        value=lambda e: (e.name, plain(e.value), bool(e.valid)))),
    'find': (anything, lambda el, a: read_find(el, a, True)),
    'find leniently': (anything, lambda el, a: read_find(el, a, False)),
    'find one': (anything, read_one),
    'el': (anything, lambda el, a: read_el(el, a.replace(u'/', u'.'))),
    'escaped': (textual, lambda el, a: (el.x, el.xa)),
    'label': (anything, lambda el, a: (el.label, type(el).label)),
    'properties': (anything, lambda el, a: (
        sorted(el.properties.items()), el.properties.get(a),
        el.properties.get(u'p'), el.properties.get(u'q'),
        a in el.properties, len(list(el.properties.keys())),
        sorted(type(el).properties.items()))),
    'default': (anything, lambda el, a: plain(el.default_value)),
    'compare': (anything, lambda el, a: (
        el == el.root, el != el.root, el == a, el == None)),
    'raw': (anything, lambda el, a: type(el.raw).__name__),
    'notes': (anything, lambda el, a: (list(el.errors), list(el.warnings),
                                       list(el.validators))),
    'hash': (anything, lambda el, a: refuses(TypeError, lambda: hash(el))),
    'len': (lambda el: sequence(el) or mapping(el), lambda el, a: len(el)),
    'in': (lambda el: sequence(el) or mapping(el), lambda el, a: attempt(
        UNSUITABLE, lambda: a in el)),
    'in, as children': (sequence, lambda el, a: [c in el
                                                 for c in el.children]),
    'index': (sequence, lambda el, a: attempt(UNSUITABLE,
                                              lambda: el.index(a))),
    'count': (sequence, lambda el, a: attempt(UNSUITABLE,
                                              lambda: el.count(a))),
    'item': (sequence, lambda el, a: attempt(
        IndexError, lambda: el[len(a) - 2].fq_name())),
    'slices': (sequence, lambda el, a: [names_of(el[1:]), names_of(el[-2:]),
                                        names_of(el[::-1])]),
    'reversed': (sequence, lambda el, a: names_of(reversed(list(el)))),
    'keys': (mapping, lambda el, a: (
        sorted(el.keys()), sorted(el), sorted(k for k, v in el.items()),
        len(el.values()), el.has_key(a), el.may_contain(a))),
    'get': (mapping, lambda el, a: misses(
        lambda: getattr(el.get(a), 'u', None))),
    'get key': (mapping, lambda el, a: [
        misses(lambda: el.get(s.name).u) for s in el.field_schema
        if s.name in el]),
    'getitem': (mapping, lambda el, a: misses(lambda: el[a].u)),
    'schema': (mapping, lambda el, a: sorted(
        type(el).field_schema_mapping) + sorted(el.field_schema_mapping)),
    'slice': (lambda el: hasattr(el, 'slice'), lambda el, a: plain(
        el.slice(omit=[a], rename={a: u'other'}))),
    'object': (lambda el: hasattr(el, 'update_object'), objects),
    'first': (lambda el: sequence(el) and hasattr(el, 'value'),
              lambda el, a: (plain(el.value), el.u)),
    'render': (anything, lambda el, a: render(el)),
}


def attempt(kinds, fn):
    try:
        return fn()
    except kinds, exc:
        return type(exc).__name__


def refuses(kinds, fn):
    try:
        fn()
    except kinds:
        return True
    return False


def render(el):
    from flatland.out.markup import Generator
    gen = Generator(u'xhtml', auto_domid=True, auto_for=True)
    return [unicode(gen.input(el, type=u'text')), unicode(gen.textarea(el)),
            unicode(gen.label(el)),
            unicode(gen.input(el, type=u'checkbox', value=u'1')),
            unicode(gen.option(el, value=u'1')), unicode(gen.select(el)),
            unicode(gen.form(el))]


def c42(ctx, mode, case):
    if mode == 'arguments':
        return arguments(ctx, case)
    spec, prog = case['spec'], case['prog']
    both = []
    for _ in range(2):
        p = Program(shared_schema(spec), spec, prog)
        while not p.done():
            p.step()
        both.append(p.el)
    el, twin = both
    before = bare(el)
    nodes = list(walk(el))
    taken = []
    for read in case['reads']:
        allowed, fn = READS[read['read']]
        node = nodes[read['pick'] % len(nodes)]
        if not allowed(node):
            continue
        what = u'%s of %s' % (read['read'], node.fq_name())
        arg = read['arg']
        if isinstance(arg, int):
            arg = nodes[arg % len(nodes)].fq_name(u'/')
        try:
            got = fn(node, arg)
        except Exception, exc:
            ctx.fail(u'reading %s (%s) raised %s', what, arg, exc)
        ctx.eq(bare(el), before, u'structure after reading %s (%s)' % (
            what, arg))
        taken.append((fn, node, arg, got, what))
        ctx.label(read['read'])
    # (comparing is reading, too: put it off if more is to come)
    if not case.get('later'):
        ctx.eq(digest(el), digest(twin), u'element read, and one not read')
    for fn, node, arg, got, what in taken:
        again = fn(node, arg)
        ctx.ok(again == got or same(again, got),
               u'reading %s (%s) gave %s, then %s', what, arg, got, again)
        # texts and keys of derived forms agree with the element
        if what.startswith(u'flatten value'):
            ctx.eq([k for k, v in got], [k for k, v in node.flatten()],
                   u'keys of %s' % what)
    for node in nodes:
        ctx.ok(isinstance(node.u, unicode), u'text of %s is %s',
               node.fq_name(), node.u)
    if not case.get('later'):
        ctx.eq(digest(el), digest(twin),
               u'element read again, and one not read')
    for at, what, key, word in case.get('later', ()):
        for tree in (el, twin):
            nodes = list(walk(tree))
            cls = type(nodes[at % len(nodes)])
            if what == 'props':
                cls.properties[key] = word
            else:
                setattr(cls, what, word)
        ctx.label('later')
    ctx.eq(digest(el), digest(twin), u'element read, and one not read, '
           u'after changes of %s on classes' % [
               what for at, what, key, word in case.get('later', ())])
    texts(ctx, el, spec)
    if case.get('then') and 'default' not in [
            w for a, w, k, v in case['later']]:
        run_both(ctx, spec, {'steps': case['then']}, el, twin,
                 u'element read, and one not read')
    ctx.nt(len(taken) >= 4 and len(nodes) >= 3)


def texts(ctx, el, spec):
    want = text_of(el, spec)
    if kind(spec) in ('list', 'dict', 'sparse'):
        if kind(spec) == 'list':
            ctx.eq(unicode(el.u), want, u'text of %s' % el.fq_name())
        else:
            ctx.ok(el.u in want, u'text of %s is %s, want one of %s',
                   el.fq_name(), el.u, sorted(want)[:2])


def quoted(text):
    return repr(unicode(text)).decode('raw_unicode_escape')


def text_of(el, spec):
    """The text of el; a set of the possible ones for mappings."""
    k = kind(spec)
    if k == 'list' or (k == 'array' and spec['t'] == 'Array'):
        m = member(spec)
        return u'[%s]' % u', '.join(part(c, m) for c in el)
    if k in ('dict', 'sparse'):
        fields = dict((s['n'], s) for s in spec['of'])
        return set([u'{%s}' % u', '.join(
            u'%s: %s' % (quoted(key), part(el[key], fields[key]))
            for key in el.keys())])
    return el.u


def part(el, spec):
    if kind(spec) in ('list', 'array', 'dict', 'sparse', 'joined', 'date'):
        return el.u
    return quoted(el.u)


# -- C42: arguments -----------------------------------------------------------

def scribble(value):
    """Change a mutable structure, all over."""
    if isinstance(value, list):
        for v in value:
            scribble(v)
        value.append(u'scribble')
        value.reverse()
    elif isinstance(value, dict):
        for v in value.values():
            scribble(v)
        value.clear()
        value[u'scribble'] = 1


def without_raw(el):
    out = []
    for e in walk(el):
        state = one(e)
        out.append(state[:5] + state[6:])
    return out + [plain(list(el.flatten()))]


def arguments(ctx, case):
    spec, how = case['spec'], case['how']
    schema = shared_schema(spec)
    value, keep = dec(case['value']), dec(case['value'])
    before = dec(case['before'])
    if how == 'flat':
        value, keep = flat_value(spec, case['value']), \
            flat_value(spec, case['value'])
    el = schema()
    el.set(before)
    k = kind(spec)
    if isinstance(value, dict) and how in ('set', 'construct', 'policy'):
        for name in case.get('extra', ()):
            value[name], keep[name] = [u'1'], [u'1']
            ctx.label('unknown keys')
    try:
        if how == 'construct':
            el = schema(value)
        elif how == 'flat':
            el.set_flat(value)
        elif how == 'update' and k in ('dict', 'sparse'):
            el.update(value)
        elif how == 'items' and k in ('dict', 'sparse'):
            for name in sorted(value):
                el[name] = value[name]
        elif how == 'items' and k in ('list', 'array'):
            el.extend(value)
            el[1:2] = value
        elif how == 'policy' and k == 'dict':
            el.set(value, policy='duck')
        elif how == 'default' and k != 'scalar':
            el = schema.using(default=value)()
            el.set_default()
            el.set_default()
        else:
            el.set(value)
    except (KeyError, TypeError):
        ctx.label('refused')
    ctx.ok(same(value, keep), u'%s changed what it was given to %s, was %s',
           how, value, keep)
    state = without_raw(el)
    for step in case['steps']:
        p = Program(schema, spec, {'steps': [step]})
        p.at, p.el = 0, el
        p.step()
        ctx.ok(same(value, keep), u'%s after %s changed what was given '
               u'to %s, was %s', step['k'], how, value, keep)
    if not case['steps']:
        scribble(el.value)
        ctx.ok(same(value, keep), u'%s: changing the value of the element '
               u'changed what was given to %s, was %s', how, value, keep)
    if not case['steps'] and how != 'default':
        scribble(value)
        ctx.eq(without_raw(el), state,
               u'element after its %s input was changed' % how)
        ctx.label('scribbled')
    ctx.label(how)
    ctx.nt(isinstance(value, (list, dict)) and len(keep) > 0)


# -- C43: shorthands ----------------------------------------------------------

def fixed_factory(element):
    return element.properties.get(u'p', u'made')


def decode_kw(spec, kw):
    out = {}
    for key, value in kw:
        key = str(key)
        if key in ('validators', 'descent_validators'):
            out[key] = [CHECKERS[v] for v in value]
        elif key == 'properties':
            out[key] = dict(value)
        elif key == 'default_factory':
            out[key] = fixed_factory
        elif key in ('true_synonyms', 'false_synonyms', 'valid_values'):
            out[key] = tuple(dec(v) for v in value)
        elif key == 'member_schema':
            out[key] = build(value)
        elif key == 'field_schema':
            out[key] = [build(s) for s in value]
        else:
            out[key] = dec(value) if key == 'default' else value
    return out


def attempt_all(fn):
    try:
        return fn()
    except (KeyError, TypeError, AssertionError), exc:
        return type(exc).__name__


def same_way(ctx, a, b, what):
    """Two elements, or what constructing them raised."""
    if isinstance(a, str) or isinstance(b, str):
        ctx.ok(isinstance(a, str) and isinstance(b, str),
               u'%s: got %s, longhand %s', what, a, b)
        return False
    got, want = digest(a), digest(b)
    if got != want:
        ctx.fail(u'%s: %s, longhand %s', what,
                 [x for i, x in enumerate(got)
                  if i >= len(want) or want[i] != x][:2],
                 [x for i, x in enumerate(want)
                  if i >= len(got) or got[i] != x][:2])
    return True


def run_both(ctx, spec, prog, a, b, what):
    """The same further steps on two elements."""
    trails = []
    for el in (a, b):
        p = Program(type(el), spec, prog)
        p.at, p.el = 0, el
        while not p.done():
            p.step()
        trails.append((p.trail, p.el))
    for i, (x, y) in enumerate(zip(trails[0][0], trails[1][0])):
        if x != y:
            ctx.fail(u'%s: step %d (%s) gave %s, longhand %s', what, i,
                     prog['steps'][i]['k'], difference(x, y),
                     difference(y, x))


def difference(a, b):
    if a[0] != b[0]:
        return a[0]
    return [x for i, x in enumerate(a[1])
            if i >= len(b[1]) or x != b[1][i]][:2] or len(a[1])


def c43(ctx, mode, case):
    MODES[mode](ctx, case)


def constructing(ctx, case):
    spec = case['spec']
    schema = shared_schema(spec)
    how = case['how']
    kw = lambda: decode_kw(spec, case['kw'])
    value = lambda: dec(case['value'])
    what = u'%s of %s with %s' % (how, spec['t'], [k for k, v in case['kw']])

    if how == 'value':
        a = lambda: schema(value(), **kw())
    elif how == 'keyword':
        a = lambda: schema(value=value(), **kw())
    elif how == 'flat':
        pairs = flat_value(spec, case['value'])
        a = lambda: schema.from_flat(pairs, **kw())
    elif how == 'defaults':
        a = lambda: schema.from_defaults(**kw())
    elif how == 'derived':
        a = lambda: schema.using(**kw())(value())
    elif how == 'derived defaults':
        a = lambda: schema.using(**kw()).from_defaults()
    elif how == 'derived flat':
        pairs = flat_value(spec, case['value'])
        a = lambda: schema.using(**kw()).from_flat(pairs)
    else:
        raise HarnessFault(how)

    def longhand():
        el = schema(**kw())
        if how in ('value', 'keyword', 'derived'):
            el.set(value())
        elif how in ('flat', 'derived flat'):
            el.set_flat(pairs)
        else:
            el.set_default()
        return el
    one_, two = attempt_all(a), attempt_all(longhand)
    ctx.label(how)
    # (an override made by deriving outlives a change of the parent's)
    later = [] if how.startswith('derived') else case.get('later') or []
    if same_way(ctx, one_, two, what):
        for attr, word in later:
            # what was not overridden still follows the class
            for el in (one_, two):
                if attr == 'properties':
                    type(el).properties[u'p'] = word
                else:
                    setattr(type(el), attr, word)
            what += u', and %s changed on the class' % attr
            same_way(ctx, one_, two, what)
            ctx.ok(same(one_.default_value, two.default_value) if not
                   isinstance(one_.default_value, (list, dict)) else
                   one_.default_value == two.default_value,
                   u'%s: default %s, longhand %s', what, one_.default_value,
                   two.default_value)
            ctx.label('changed later')
        if not later:
            run_both(ctx, spec, {'steps': case['steps']}, one_, two, what)
        ctx.nt(bool(case['kw']) or len(list(walk(one_))) > 1)
    # the schema itself is as it was
    if not later:
        ctx.eq(digest(schema()), digest(shared_schema(spec)()),
               u'%s: schema afterwards' % what)


CALLS = {
    'named': lambda cls, a: cls.named(a),
    'using': lambda cls, a: cls.using(**decode_kw(None, a)),
    'validated': lambda cls, a: cls.validated_by(*[CHECKERS[v] for v in a]),
    'descent': lambda cls, a: cls.descent_validated_by(
        *[CHECKERS[v] for v in a]),
    'props': lambda cls, a: cls.with_properties(dict(
        kv for kv in a[0] + a[1])),
    'of': lambda cls, a: cls.of(*[build(s) for s in a]),
    'valued': lambda cls, a: cls.valued(*[dec(v) for v in a]),
    'to': lambda cls, a: cls.to(a),
}


def longer(name, arg):
    """Another way to say the same."""
    if name == 'named':
        return lambda cls: cls.using(name=arg)
    if name == 'validated':
        fns = [CHECKERS[v] for v in arg]
        return lambda cls: cls.validated_by(
            *fns[1:]).including_validators(*fns[:1], **{'position': 0})
    if name == 'descent':
        fns = [CHECKERS[v] for v in arg]
        return lambda cls: cls.using(
            descent_validators=fns[:1]).including_descent_validators(*fns[1:])
    if name == 'using':
        def each(cls):
            for item in arg:
                cls = cls.using(**decode_kw(None, [item]))
            return cls
        return each
    if name == 'props':
        def one_by_one(cls):
            for k, v in arg[0] + arg[1]:
                cls = cls.with_properties(**{str(k): v})
            return cls
        return one_by_one
    if name == 'valued':
        return lambda cls: cls.using(valid_values=tuple(dec(v) for v in arg))
    return None


def deriving(ctx, case):
    import flatland
    spec = case['spec']
    cls = getattr(flatland, spec['t'])
    one_, two = cls, cls
    calls = case['calls']
    order = [i % len(calls) for i in case['order']]
    order = [i for n, i in enumerate(order) if i not in order[:n]] + \
        [i for i in range(len(calls)) if i not in order]
    for name, arg in calls:
        one_ = CALLS[name](one_, arg)
    said = []
    for i in order:
        name, arg = calls[i]
        other = longer(name, arg) if case['longer'][i % 4] else None
        if other is not None:
            ctx.label('said otherwise')
            two = other(two)
        else:
            two = CALLS[name](two, arg)
        if case['use']:
            # use the class on the way, when it can be
            try:
                two()
                ctx.label('used on the way')
            except TypeError:
                pass
        said.append(name)
    what = u'%s.%s, longhand in the order %s' % (
        spec['t'], [n for n, a in calls], said)
    a, b = attempt_all(one_), attempt_all(two)
    if not same_way(ctx, a, b, what):
        ctx.label('unusable')
        return
    a, b = attempt_all(one_.from_defaults), attempt_all(two.from_defaults)
    same_way(ctx, a, b, what + u', with defaults')
    value = case['value']
    a = attempt_all(lambda: one_(dec(value)))
    b = attempt_all(lambda: two(dec(value)))
    if same_way(ctx, a, b, what + u', with a value'):
        run_both(ctx, spec, {'steps': case['steps']}, a, b, what)
    inside = [list(schemas(cls)) for cls in (one_, two)]
    ctx.eq(len(inside[0]), len(inside[1]), u'%s: schemas inside' % what)
    for a, b in zip(*inside):
        same_way(ctx, attempt_all(a), attempt_all(b), what + u': a member')
    ctx.nt(order != sorted(order) or 'said otherwise' in ctx.labels)


def schemas(cls):
    member = getattr(cls, 'member_schema', None)
    for child in ([member] if member is not None else []) + sorted(
            getattr(cls, 'field_schema', None) or (),
            key=lambda c: c.name or u''):
        if isinstance(child, type):
            yield child
            for deeper in schemas(child):
                yield deeper


def declaring(ctx, case):
    """A Form declaration, and a Dict of the same fields."""
    spec = case['spec']
    form = shared_schema(dict(spec, t='Form'))
    plain_dict = shared_schema(dict(spec, t='Dict'))
    trails = []
    for schema, s in ((form, dict(spec, t='Form')),
                      (plain_dict, dict(spec, t='Dict'))):
        p = Program(schema, s, case['prog'])
        while not p.done():
            p.step()
        trails.append(p.trail)
    for i, (x, y) in enumerate(zip(*trails)):
        x = [x[0], tidy(x[1])]
        y = [y[0], tidy(y[1])]
        if x[1] != y[1] or (x[0] != y[0] and not isinstance(x[0], list)):
            ctx.fail(u'step %d: Form %s, Dict %s', i - 1, difference(x, y),
                     difference(y, x))
    ctx.eq(sorted(form.field_schema_mapping),
           sorted(plain_dict.field_schema_mapping), u'fields')
    for s in spec['of']:
        name = str(s['n'])
        ctx.ok(getattr(form, name, None) == getattr(plain_dict, name, None),
               u'the Form kept its field %s as an attribute', name)
    ctx.nt(len(spec['of']) > 1 and len(trails[0]) > 1)


def tidy(state):
    """A digest without what depends on the order of fields."""
    out = []
    for e in state[:-1]:
        e = list(e)
        e[0] = None
        if u'{' in e[3]:
            e[3] = sorted(e[3])
        e[8 - 1] = sorted(e[7])
        out.append(show(e))
    return sorted(out) + [sorted(show(p) for p in state[-1])]


MODES = {'constructing': constructing, 'deriving': deriving,
         'declaring': declaring}

CHECKS = {'C42': c42, 'C43': c43}
