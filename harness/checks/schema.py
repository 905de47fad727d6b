# -*- coding: utf-8 -*-
"""C22-C26, C36: schema construction, properties, compounds, refs, forms."""
import calendar
import datetime

from lib import build, dec, kind, member, same, show, HarnessFault
from checks import scalars


# -- C22 ---------------------------------------------------------------------

def base_of(t):
    import flatland as f
    two = [f.String.named(u'p'), f.Integer.named(u'q')]
    if t in ('List', 'Array', 'MultiValue', 'JoinedString'):
        return getattr(f, t).of(f.String.named(u'm'))
    if t in ('Dict', 'SparseDict'):
        return getattr(f, t).of(*two)
    if t == 'Form':
        return type(f.Form)('Made', (f.Form,), {'p': two[0], 'q': two[1]})
    if t == 'Ref':
        return f.Ref.to(u'x')
    if t == 'Enum':
        return f.Enum.valued(u'a', u'b')
    return getattr(f, t)


GOOD = {'String': u'v', 'Integer': 7, 'Float': 1.5, 'Boolean': True,
        'Date': u'2000-01-02', 'Enum': u'a', 'List': [u'v'], 'Array': [u'v'],
        'MultiValue': [u'v'], 'JoinedString': [u'v'],
        'Dict': {u'p': u'v', u'q': 1}, 'Form': {u'p': u'v', u'q': 1},
        'SparseDict': {u'p': u'v', u'q': 1}, 'DateYYYYMMDD': u'2000-01-02',
        'Constrained': u'v'}
ALWAYS = ['name', 'optional', 'validators', 'default', 'label',
          'default_factory', 'ugettext', 'ungettext', 'flattenable',
          'children_flattenable', 'validates_down', 'validates_up']
EXTRA = {'String': ['strip'], 'Integer': ['signed', 'format'],
         'Float': ['signed', 'format'],
         'Boolean': ['true', 'false', 'true_synonyms', 'false_synonyms'],
         'Date': ['strip', 'format', 'used'],
         'Enum': ['valid_values', 'child_type'],
         'Constrained': ['child_type'],
         'List': ['prune_empty', 'maximum_set_flat_members', 'member_schema'],
         'Array': ['prune_empty', 'member_schema'],
         'MultiValue': ['prune_empty', 'member_schema'],
         'JoinedString': ['prune_empty', 'separator', 'separator_regex',
                          'member_schema'],
         'Dict': ['policy', 'field_schema'],
         'Form': ['policy', 'field_schema'],
         'SparseDict': ['minimum_fields', 'policy', 'field_schema'],
         'DateYYYYMMDD': ['strip', 'format'],
         'Ref': ['writable', 'sep', 'target_path']}


class Thing(object):
    """A class or element with what its attributes should be."""

    def __init__(self, obj, attrs, properties, descent):
        self.obj = obj
        self.attrs = dict(attrs)
        self.properties = dict(properties)
        self.descent = descent
        self.value = None
        self.errors, self.warnings = [], []
        self.reshaped = False


class Schemas(object):
    def __init__(self, ctx, t):
        import flatland
        self.ctx, self.t = ctx, t
        self.log = []
        self.calls = []
        self.fns = [self.validator(i) for i in range(6)]
        self.serial = 0
        base = base_of(t)
        self.container = issubclass(base, flatland.schema.containers.Container)
        attrs = dict((a, getattr(base, a)) for a in ALWAYS + EXTRA[t])
        del attrs['label']
        attrs['validators'] = list(attrs['validators'])
        if t == 'Constrained':
            attrs['valid_value'] = base.valid_value
        self.classes = [Thing(base, attrs, {}, [] if self.container
                              else None)]
        self.originals = [(getattr(flatland, t), dict(
            (a, getattr(getattr(flatland, t), a)) for a in ALWAYS +
            EXTRA[t]))]
        self.elements = []

    def validator(self, i):
        def run(element, state):
            self.calls.append(i)
            return True
        return run

    def function(self):
        self.serial += 1
        n = self.serial

        def made(*args):
            return n
        return made

    def decode(self, attr, v):
        if v == u'fn':
            return self.function()
        if attr in ('validators', 'descent_validators'):
            return [self.fns[i] for i in v]
        if attr == 'properties':
            return dict((k, dec(x)) for k, x in v)
        if isinstance(v, list):
            return tuple(dec(x) for x in v)
        return dec(v)

    # -- comparison

    def check(self, note):
        for i, c in enumerate(self.classes):
            self.compare(c, u'class %d %s' % (i, note))
        for i, e in enumerate(self.elements):
            what = u'element %d %s' % (i, note)
            self.compare(e, what)
            self.ctx.eq(list(e.obj.errors), e.errors, u'errors of ' + what)
            self.ctx.eq(list(e.obj.warnings), e.warnings,
                        u'warnings of ' + what)
            if e.value is not None:
                self.ctx.eq(e.obj.value, e.value, u'value of ' + what)
            want = e.attrs['default']
            if e.attrs['default_factory'] is not None:
                want = e.attrs['default_factory'](e.obj)
            self.ctx.eq(e.obj.default_value, want, u'default of ' + what)
        for cls, attrs in self.originals:
            for a, v in attrs.items():
                self.ctx.ok(getattr(cls, a) == v, u'%s.%s changed to %s %s',
                            cls.__name__, a, getattr(cls, a), note)
            self.ctx.eq(cls.properties.copy(), {}, u'properties of %s' % cls)

    def compare(self, thing, what):
        ctx, obj = self.ctx, thing.obj
        for a, want in thing.attrs.items():
            got = getattr(obj, a)
            if a == 'validators':
                ctx.ok(len(got) == len(want) and all(
                    x is y for x, y in zip(got, want)),
                    u'validators of %s: %s, want %s', what, got, want)
            elif a == 'field_schema':
                ctx.ok(len(got) == len(want) and all(
                    x is y for x, y in zip(got, want)),
                    u'fields of %s: %s, want %s', what, got, want)
            elif a == 'member_schema' and isinstance(want, list):
                import flatland
                ctx.ok(issubclass(got, flatland.Dict) and
                       list(got.field_schema) == want,
                       u'members of %s: %s, want Dict of %s', what, got, want)
            elif callable(want):
                ctx.ok(got is want, u'%s of %s: %s, want %s', a, what, got,
                       want)
            else:
                ctx.eq(got, want, u'%s of %s' % (a, what))
        if 'label' not in thing.attrs:
            ctx.eq(obj.label, thing.attrs['name'], u'label of ' + what)
        ctx.eq(obj.properties.copy(), thing.properties,
               u'properties of ' + what)
        if thing.descent is not None:
            got = obj.descent_validators
            ctx.ok(len(got) == len(thing.descent) and all(
                x is y for x, y in zip(got, thing.descent)),
                u'descent validators of %s: %s, want %s', what, got,
                thing.descent)

    # -- operations

    def apply(self, source, given):
        """What a thing made from *source* with *given* should be."""
        new = Thing(None, source.attrs, source.properties, source.descent)
        new.reshaped = source.reshaped
        for a, v in given.items():
            if a == 'properties':
                new.properties = dict(v)
            elif a == 'descent_validators':
                new.descent = list(v)
            elif a == 'validators':
                new.attrs[a] = list(v)
            else:
                new.attrs[a] = v
        return new

    def passing(self, given, how):
        kw, mutable = {}, []
        for a, v in given.items():
            if a == 'validators':
                if how == 'list':
                    v = list(v)
                    mutable.append(v)
                else:
                    v = tuple(v) if how == 'tuple' else iter(v)
            elif a == 'properties':
                v = dict(v)
                mutable.append(v)
            elif a == 'descent_validators':
                v = tuple(v)
            kw[str(a)] = v
        return kw, mutable

    def derived(self, new, source, cls):
        ctx = self.ctx
        ctx.ok(cls is not source.obj and issubclass(cls, source.obj),
               u'%s from %s is not a new subclass', cls, source.obj)
        ctx.ok(type(cls) is type(source.obj) and
               cls.__name__ == source.obj.__name__,
               u'%s from %s', cls, source.obj)
        new.obj = cls
        self.classes.append(new)

    def do(self, op):
        import flatland
        ctx = self.ctx
        name = op['op']
        source = self.classes[op['on'] % len(self.classes)]
        cls = source.obj
        if name == 'named':
            n = dec(op['name'])
            new = self.apply(source, {
                'name': n if n is None else unicode(n)})
            self.derived(new, source, cls.named(n))
        elif name in ('using', 'new'):
            given = dict((a, self.decode(a, v))
                         for a, v in op['with'].items())
            kw, mutable = self.passing(given, op['as'])
            new = self.apply(source, given)
            if name == 'using':
                self.derived(new, source, cls.using(**kw))
            else:
                args = ()
                if (op['on'] % 3 == 0 and not source.reshaped and
                        self.t in GOOD):
                    args = (GOOD[self.t],)
                new.obj = cls(*args, **kw)
                ctx.ok(isinstance(new.obj, cls), u'%s is not a %s', new.obj,
                       cls)
                ctx.ok(new.obj.valid is flatland.Unevaluated,
                       u'new element is %s', new.obj.valid)
                self.remember(new)
                self.elements.append(new)
            for v in mutable:
                # what was passed stays the caller's
                if not isinstance(v, dict):
                    v.append(self.fns[0])
                elif name == 'using':
                    # (an element's view is the very mapping assigned)
                    ctx.eq(v, given['properties'], u'the mapping passed')
                    v[u'stray'] = 1
        elif name in ('validated_by', 'including', 'descent',
                      'including_descent'):
            fns = [self.fns[i] for i in op['fns']]
            down = 'descent' in name
            have = source.descent if down else source.attrs['validators']
            if 'including' in name:
                p = op['position']
                kw = {} if p is None else {'position': p}
                if p is None:
                    p = -1
                if p < 0:
                    p += len(have) + 1
                if p < 0:
                    return
                want = have[:p] + fns + have[p:]
                method = (cls.including_descent_validators if down
                          else cls.including_validators)
                made = method(*fns, **kw)
            else:
                want = fns
                made = (cls.descent_validated_by if down
                        else cls.validated_by)(*fns)
            new = self.apply(source, {'descent_validators' if down
                                      else 'validators': want})
            self.derived(new, source, made)
        elif name == 'with_properties':
            given = dict((k, dec(v)) for k, v in op['props'])
            new = self.apply(source, {})
            new.properties.update(given)
            if op['as'] == 'kw':
                made = cls.with_properties(**dict(
                    (str(k), v) for k, v in given.items()))
                new.properties = dict(source.properties, **dict(
                    (str(k), v) for k, v in given.items()))
            elif op['as'] == 'dict':
                made = cls.with_properties(given)
                given[u'stray'] = 1
            else:
                made = cls.with_properties(given.items())
            self.derived(new, source, made)
        elif name == 'special':
            self.special(op, source)
        elif name == 'refuse':
            self.refuse(op['how'], cls)
        elif name == 'element':
            self.element(op)

    def special(self, op, source):
        import flatland as f
        cls = source.obj
        fields = [f.Integer.named(u'z'), f.String.named(u'w')]
        if self.t in ('List', 'Array', 'MultiValue', 'JoinedString'):
            if op['on'] % 2 and self.t == 'List':
                new = self.apply(source, {'member_schema': fields})
                made = cls.of(*fields)
            else:
                new = self.apply(source, {'member_schema': fields[0]})
                made = cls.of(fields[0])
        elif self.t in ('Dict', 'SparseDict', 'Form'):
            new = self.apply(source, {'field_schema': fields})
            made = cls.of(*fields)
        elif self.t == 'Enum':
            new = self.apply(source, {'valid_values': (u'x', u'y')})
            made = cls.valued(u'x', u'y')
        elif self.t == 'Ref':
            new = self.apply(source, {'target_path': [u'y', u'z']})
            made = cls.to(u'y.z')
            if source.attrs['sep'] != u'.':
                return
        else:
            return
        new.reshaped = True
        self.derived(new, source, made)

    def refuse(self, how, cls):
        import flatland as f
        raises = self.ctx.raises

        class Bogus(f.validation.Validator):
            pass
        if how == 'using':
            raises(TypeError, lambda: cls.using(bogus=1), u'using(bogus)')
            raises(TypeError, lambda: cls.using(optional=True, bogus=1),
                   u'using(bogus)')
        elif how == 'new':
            raises(TypeError, lambda: cls(bogus=1), u'Class(bogus)')
        elif how == 'validated_by':
            raises(TypeError, lambda: cls.validated_by(self.fns[0], Bogus),
                   u'validated_by(class)')
        elif how == 'including':
            raises(TypeError, lambda: cls.including_validators(
                self.fns[0], bogus=1), u'including_validators(bogus=)')
        elif how == 'descent' and self.container:
            raises(TypeError, lambda: cls.descent_validated_by(Bogus),
                   u'descent_validated_by(class)')
            raises(TypeError, lambda: cls.including_descent_validators(
                self.fns[0], bogus=1),
                u'including_descent_validators(bogus=)')
        elif how == 'of' and hasattr(cls, 'of'):
            raises(TypeError, lambda: cls.of(f.String(name=u's')),
                   u'of(element)')
            if hasattr(cls, 'member_schema'):
                raises(TypeError, lambda: cls.of(), u'of()')
        elif how == 'dupes' and self.t in ('Dict', 'SparseDict', 'Form'):
            raises(TypeError, lambda: cls.of(
                f.String.named(u'a'), f.Integer.named(u'b'),
                f.Integer.named(u'a')), u'of() with duplicates')

    def remember(self, e):
        if self.t not in ('JoinedString', 'Ref'):
            e.value = e.obj.value

    def element(self, op):
        if not self.elements:
            return
        e = self.elements[op['on'] % len(self.elements)]
        el, do = e.obj, op['do']
        if do == 'attr':
            for a, v in op['with'].items():
                v = self.decode(a, v)
                setattr(el, a, v)
                if a == 'validators':
                    e.attrs[a] = v
                elif a == 'descent_validators':
                    e.descent = v
                else:
                    e.attrs[a] = v
        elif do in ('error', 'warning'):
            m = u'message ' + op['k']
            (el.add_error if do == 'error' else el.add_warning)(m)
            seen = e.errors if do == 'error' else e.warnings
            if m not in seen:
                seen.append(m)
        elif do == 'prop':
            el.properties[op['k']] = op['on']
            e.properties[op['k']] = op['on']
        elif do == 'props':
            el.properties = {op['k']: 1}
            e.properties = {op['k']: 1}
        elif do == 'set':
            if self.t in GOOD and not e.reshaped:
                el.set(GOOD[self.t])
                self.remember(e)
        elif do == 'validate' and self.t != 'Ref':
            want = []
            if not (e.attrs['optional'] and el.is_empty):
                want = [self.fns.index(f) for f in
                        (e.descent or []) + e.attrs['validators']]
            del self.calls[:]
            res = el.validate(recurse=False)
            self.ctx.eq(self.calls, want, u'validators run')
            empty = el.is_empty and not e.attrs['optional']
            if not e.attrs['validators'] and not (
                    self.container and e.descent and False):
                self.ctx.ok(bool(res) == (not empty), u'validate() is %s',
                            res)


def c22(ctx, mode, case):
    if mode == 'history':
        return c22_history(ctx, case)
    m = Schemas(ctx, case['t'])
    for op in case['ops']:
        m.log.append(op['op'])
        m.do(op)
        m.check(u'after ' + u', '.join(m.log))
    ctx.nt(len(m.classes) >= 3 and bool(m.elements))
    ctx.label(case['t'])


def flat_view(x):
    """A comparable form of any value."""
    if isinstance(x, dict):
        return sorted((show(k), flat_view(v)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return [flat_view(v) for v in x]
    return show(x)


def outline(el):
    kids = list(el.children)
    import flatland
    if isinstance(el, dict):
        kids.sort(key=lambda c: (c.name is not None, c.name))
    return [type(el).__name__, el.name, bool(el.optional), el.label,
            show(el.valid), len(el.validators), flat_view(el.default),
            flat_view(el.properties.copy()),
            flat_view(getattr(el, 'strip', None)),
            [outline(c) for c in kids]]


def attempt(fn):
    try:
        return flat_view(fn())
    except (KeyError, TypeError, ValueError, AssertionError) as exc:
        return type(exc).__name__


def describe(cls, value):
    el = cls()
    out = [outline(el)]
    out.append(attempt(el.set_default))
    out.append([outline(el), flat_view(el.value)])
    el = cls()
    out.append(attempt(lambda: el.set(dec(value))))
    out.append([outline(el), flat_view(el.value)])
    out.append(attempt(lambda: sorted(el.flatten())))
    out.append(bool(el.validate()))
    out.append(outline(el))
    el = cls()
    out.append(bool(el.validate()))
    out.append(outline(el))
    return out


def evolve(case, used):
    import flatland as f
    cls = build(case['spec'])

    def passing(element, state):
        return True
    for step in case['steps']:
        if used:
            for u in step['use']:
                if u == 'new':
                    cls()
                elif u == 'set':
                    attempt(lambda: cls().set(dec(case['value'])))
                elif u == 'defaults':
                    attempt(cls.from_defaults)
                elif u == 'flat':
                    attempt(lambda: cls.from_flat(cls().flatten()))
                elif u == 'override':
                    cls(optional=True, label=u'over', validators=[passing])
                elif u == 'validate':
                    cls().validate()
                else:
                    el = cls()
                    attempt(lambda: el.find(u'.'))
                    el.properties[u'used'] = True
        op = step['op']
        if op == 'named':
            cls = cls.named(step['name'])
        elif op == 'using':
            v = step['value']
            v = tuple(map(dec, v)) if isinstance(v, list) else dec(v)
            cls = cls.using(**{str(step['attr']): v})
        elif op == 'validated_by':
            cls = cls.validated_by(passing)
        elif op == 'including':
            cls = cls.including_validators(passing)
        elif op == 'with_properties':
            cls = cls.with_properties(k=step['k'])
        elif op == 'of' and hasattr(cls, 'of'):
            t = case['spec']['t']
            if t in ('Dict', 'SparseDict'):
                cls = cls.of(f.DateYYYYMMDD.named(u'p'),
                             f.String.named(u'q'))
            elif t == 'DateYYYYMMDD':
                cls = cls.of(*[f.Integer.named(u'p%d' % i)
                               for i in range(step['n'])])
            else:
                cls = cls.of(f.Integer.named(u'z'))
    return cls


def c22_history(ctx, case):
    plain = describe(evolve(case, False), case['value'])
    used = describe(evolve(case, True), case['value'])
    for a, b in zip(plain, used):
        ctx.eq(b, a, u'derived from used schemas')
    ctx.nt(any(s['use'] for s in case['steps']))
    ctx.label('history:' + case['spec']['t'])


# -- C23 ---------------------------------------------------------------------

GONE = object()


class ClassProps(object):
    def __init__(self, cls, pairs=None):
        self.cls = cls
        self.frame = dict(pairs or {})
        self.own = pairs is not None


class ElementProps(object):
    def __init__(self, el, holder, pairs=None):
        self.el, self.holder = el, holder
        self.frame = {}
        self.whole = pairs


class PropModel(object):
    def __init__(self, base):
        self.classes = [ClassProps(base)]
        self.by_cls = {base: self.classes[0]}
        self.elements = []

    def add(self, node):
        self.classes.append(node)
        self.by_cls[node.cls] = node
        return node

    def definer(self, cls):
        for c in cls.__mro__:
            if c in self.by_cls and self.by_cls[c].own:
                return c
        return None

    def one_lineage(self, cls):
        want = self.definer(cls)
        for c in cls.__mro__:
            if c is want:
                break
            if c in self.by_cls and self.definer(c) is not want:
                return False
        return True

    def view(self, node):
        frames = []
        if isinstance(node, ElementProps):
            if node.whole is not None:
                return dict(node.whole)
            frames.append(node.frame)
            node = node.holder
        for c in node.cls.__mro__:
            if c in self.by_cls:
                frames.append(self.by_cls[c].frame)
                if self.by_cls[c].own:
                    break
        out = {}
        for frame in reversed(frames):
            out.update(frame)
        return dict((k, v) for k, v in out.items() if v is not GONE)


def look(ctx, got, want, what):
    ctx.eq(dict(got.items()), want, what)
    for name, items in (('items', want.items()), ('keys', want.keys()),
                        ('values', want.values())):
        listed = list(getattr(got, name)())
        lazy = list(getattr(got, 'iter' + name)())
        for seen in (listed, lazy):
            ctx.ok(sorted(map(show, seen)) == sorted(map(show, items)),
                   u'%s of %s: %s, want %s', name, what, seen, items)
    ctx.eq(dict(got.copy()), want, u'copy of ' + what)
    for k in (u'a', u'b', u'c', 1, u'zz'):
        ctx.ok((k in got) is (k in want), u'%s in %s', k, what)
        ctx.eq(got.get(k, u'dflt'), want.get(k, u'dflt'), u'get in ' + what)
        ctx.eq(got.get(k), want.get(k), u'get in ' + what)
        if k in want:
            ctx.eq(got[k], want[k], u'[] of ' + what)
        else:
            ctx.raises(KeyError, lambda: got[k], u'[] of ' + what)
    ctx.ok(bool(got) is bool(want), u'truth of %s', what)
    ctx.ok((got == want) is True and (got != want) is False,
           u'%s is not equal to its copy', what)
    other = dict(want, zz=1)
    ctx.ok((got == other) is False and (got != other) is True,
           u'%s is equal to more', what)


def c23(ctx, mode, case):
    import flatland
    from flatland.schema.properties import Properties
    m = PropModel(base_of(case['t']).named(u'base'))
    deep = False
    removed = False
    log = []
    for op in case['ops']:
        everything = m.classes + m.elements
        name = op['op']
        pairs = None
        if op.get('pairs') is not None:
            pairs = dict((dec(k), dec(v)) for k, v in op['pairs'])
        log.append(op.get('do') or op.get('how') or name)
        if name == 'derive':
            src = m.classes[op['at'] % len(m.classes)]
            cls, how = src.cls, op['how']
            if how == 'named':
                m.add(ClassProps(cls.named(u'n')))
            elif how == 'using':
                given = dict(pairs)
                m.add(ClassProps(cls.using(properties=given), pairs))
                given[u'zz'] = 1
            elif how == 'with':
                node = m.add(ClassProps(cls.with_properties(
                    pairs if op['at'] % 2 else pairs.items())))
                node.frame = dict(pairs)
            elif how == 'subclass':
                m.add(ClassProps(type(cls)('Sub', (cls,), {})))
            elif how == 'body':
                m.add(ClassProps(type(cls)('Sub', (cls,), {
                    'properties': Properties(pairs)}), pairs))
            elif how == 'plain':
                class Mixin(object):
                    pass
                m.add(ClassProps(type(cls)('Sub', (Mixin, cls), {})))
            else:
                other = m.classes[op['other'] % len(m.classes)].cls
                try:
                    made = type(cls)('Sub', (cls, other), {})
                except TypeError:
                    made = None
                # a merge of two lineages that replaced the properties apart
                # from each other has no stated order
                if made is not None and m.one_lineage(made):
                    m.add(ClassProps(made))
            deep = deep or sum(
                c in m.by_cls for c in m.classes[-1].cls.__mro__) >= 3
        elif name == 'element':
            src = m.classes[op['at'] % len(m.classes)]
            if pairs is None:
                m.elements.append(ElementProps(src.cls(), src))
            elif case['t'] == 'DateYYYYMMDD':
                # overrides make a subtype
                el = src.cls(properties=dict(pairs))
                node = m.add(ClassProps(type(el), pairs))
                m.elements.append(ElementProps(el, node))
            else:
                el = src.cls(properties=pairs)
                m.elements.append(ElementProps(el, src, pairs))
        elif name == 'assign':
            if m.elements:
                e = m.elements[op['at'] % len(m.elements)]
                e.el.properties = pairs
                e.whole = pairs
                ctx.ok(e.el.properties is pairs,
                       u'an assigned mapping is not what is read back')
        else:
            node = everything[op['at'] % len(everything)]
            removed |= on(ctx, m, node, op, pairs, log)
        last = op is case['ops'][-1]
        for i, node in enumerate(m.classes + m.elements):
            is_class = isinstance(node, ClassProps)
            what = u'%s %d after %s' % (
                u'class' if is_class else u'element', i, u', '.join(log))
            got = (node.cls if is_class else node.el).properties
            want = m.view(node)
            if last or (i + len(log)) % 7 == 0:
                look(ctx, got, want, what)
            else:
                ctx.eq(dict(got.items()), want, what)
                for k in (u'a', u'b'):
                    ctx.eq(got.get(k), want.get(k), what)
    ctx.nt(deep and removed)


def on(ctx, m, node, op, pairs, log):
    """Apply a mapping operation to a node and its model."""
    whole = isinstance(node, ElementProps) and node.whole is not None
    props = (node.el if isinstance(node, ElementProps)
             else node.cls).properties
    frame = node.whole if whole else node.frame
    have = m.view(node)
    do, k, v = op['do'], dec(op['k']), dec(op['v'])
    what = u'%s after %s' % (do, u', '.join(log))

    def drop(key):
        if not whole:
            frame[key] = GONE
    if whole and do in ('popitem', 'get'):
        return False
    if whole:
        # an ordinary dict: the model is the very same object
        if do == 'set':
            props[k] = v
        elif do == 'update':
            props.update(pairs)
        elif do == 'clear':
            props.clear()
        return False
    if do == 'set':
        props[k] = v
        frame[k] = v
        return k in have
    elif do == 'del':
        if k in have:
            del props[k]
            drop(k)
            return True
        ctx.raises(KeyError, lambda: props.__delitem__(k), what)
    elif do == 'pop':
        ctx.eq(props.pop(k, u'dflt'), have.get(k, u'dflt'), what)
        if k in have:
            drop(k)
            return True
    elif do == 'pop1':
        if k in have:
            ctx.eq(props.pop(k), have[k], what)
            drop(k)
            return True
        ctx.raises(KeyError, lambda: props.pop(k), what)
    elif do == 'setdefault':
        ctx.eq(props.setdefault(k, v), have.get(k, v) if k in have else v,
               what)
        if k not in have:
            frame[k] = v
    elif do == 'update':
        if op['at'] % 2:
            props.update(pairs)
        else:
            props.update(pairs.items())
        frame.update(pairs)
        return bool(set(pairs) & set(have))
    elif do == 'clear':
        if isinstance(node, ElementProps):
            # whether clear() also hides names the schema lacks is open
            above = m.view(node.holder)
            if any(key not in above for key in frame):
                return False
        props.clear()
        frame.update((key, GONE) for key in have)
        return bool(have)
    elif do == 'popitem':
        ctx.raises(NotImplementedError, props.popitem, what)
    return False


# -- C24 ---------------------------------------------------------------------

def calendar_date(parts):
    """The date the parts form, or None."""
    y, mo, d = parts
    if y is None or mo is None or d is None:
        return None
    if not (1 <= y <= 9999 and 1 <= mo <= 12):
        return None
    if not 1 <= d <= calendar.monthrange(2000 if calendar.isleap(y)
                                         else 1999, mo)[1]:
        return None
    return datetime.date(int(y), int(mo), int(d))


DATE = {'t': 'Date', 'n': None, 'o': {}}


def c24(ctx, mode, case):
    import flatland as f
    specs = list(case['declared'])
    names = [s['n'] for s in specs]
    for i, (n, fmt) in enumerate([(u'year', u'%04i'), (u'month', u'%02i'),
                                  (u'day', u'%02i')]):
        if i >= len(names):
            names.append(n)
            specs.append({'t': 'Integer', 'n': n, 'o': {'format': fmt}})
    cls = f.DateYYYYMMDD.named(u'dt').using(optional=case['optional'])
    if case['declared']:
        cls = cls.using(field_schema=[build(s) for s in case['declared']])
    default = None
    if case['default'] != u'none':
        default = dec(case['default'])
        cls = cls.using(default=default)
    prefix = u''
    if case['wrap'] == 'dict':
        top = f.Dict.of(cls, f.String.named(u'x'))()
        el = top[u'dt']
    elif case['wrap'] == 'list':
        top = f.List.named(u'l').of(cls)()
        top.append(None)
        el = top[0]
    else:
        top = el = cls()
    prefix = u'dt_' if case['wrap'] != 'list' else u'l_0_dt_'
    ctx.eq(sorted(el.keys()), sorted(names), u'parts')
    for n, s in zip(names, specs):
        if s not in case['declared']:
            ctx.ok(bool(el[n].optional) is case['optional'],
                   u'part %s optional is %s', n, el[n].optional)
    model = [(None, u'')] * 3
    dates = blanks = 0
    log = []

    def adapt(value):
        try:
            return True, scalars.adapt(DATE, value)
        except scalars.Fail:
            return False, None

    def assigned(value):
        good, date = adapt(value)
        if date is None:
            return good, [(None, u'')] * 3
        out = []
        for n, s in zip((date.year, date.month, date.day), specs):
            try:
                native = scalars.adapt(s, n)
                out.append((native, scalars.text_of(s, native)))
            except scalars.Fail:
                out.append((None, unicode(n)))
        return good, out

    for op in case['ops']:
        name = op['op']
        log.append(name)
        what = u'after ' + u', '.join(log)
        if name == 'set':
            value = dec(op['value'])
            good, model = assigned(value)
            ctx.ok(el.set(value) is good, u'set(%s) %s', value, what)
            ctx.ok(same(el.raw, value) or el.raw is value, u'raw %s %s',
                   el.raw, what)
        elif name == 'holder' and case['wrap']:
            value = dec(op['value'])
            good, model = assigned(value)
            if case['wrap'] == 'dict':
                el.parent[u'dt'] = value
            else:
                top.set([value])
                el = top[0]
        elif name == 'u' or name == 'value':
            value = dec(op['value'])
            good, model = assigned(value)
            setattr(el, str(name), value)
        elif name == 'part' or name == 'setitem':
            i = op['i']
            value = dec(op['value'])
            if name == 'part':
                el[names[i]].set(value)
            else:
                el[names[i]] = value
            model = list(model)
            model[i] = part(specs[i], value)
        elif name == 'update':
            model = list(model)
            given = []
            for i, v in op['values']:
                given.append((names[i], dec(v)))
                model[i] = part(specs[i], dec(v))
            el.update(given)
        elif name == 'flat':
            old, model = model, list(model)
            pairs, seen = [], set()
            for i, v in op['values']:
                if i not in seen:
                    seen.add(i)
                    pairs.append((prefix + names[i], v))
                    model[i] = part(specs[i], v)
            noise = [n for n in op['noise']
                     if n not in [u'dt_' + x for x in names]]
            if case['wrap'] == 'list':
                noise = []
                # (a List starts over)
                model = [model[i] if i in seen else (None, u'')
                         for i in range(3)]
                if all(not v for k, v in pairs):
                    log.pop()
                    model = old
                    continue
            top.set_flat(pairs + [(n, u'q') for n in noise])
            if case['wrap'] == 'list':
                el = top[0]
        elif name == 'valid':
            date = dec(op['value'])
            model = list(model)
            for i in op['order']:
                v = (date.year, date.month, date.day)[i]
                v = unicode(v) if op['text'] else v
                el[names[i]].set(v)
                model[i] = part(specs[i], v)
        elif name == 'default':
            el.set_default()
            good, model = assigned(default)
        parts = [el[n] for n in names]
        for n, p, want in zip(names, parts, model):
            ctx.ok(same(p.value, want[0]), u'%s is %s, want %s %s', n, p.value,
                   want[0], what)
            ctx.eq(unicode(p.u), want[1], u'text of %s %s' % (n, what))
        date = calendar_date([p[0] for p in model])
        dates += date is not None
        blanks += date is None
        ctx.ok(same(el.value, date), u'value %s, want %s %s', el.value, date,
               what)
        ctx.eq(unicode(el.u), u'' if date is None else u'%04d-%02d-%02d' % (
            date.year, date.month, date.day), u'text ' + what)
        ctx.ok(bool(el) is (date is not None), u'truth %s %s', bool(el), what)
        empty = all(p[0] is None and p[1] == u'' for p in model)
        ctx.ok(bool(el.is_empty) is empty, u'is_empty %s', what)
        ctx.ok(all(p.parent is el for p in parts), u'parents %s', what)
    ctx.nt(dates and blanks)
    if dates:
        ctx.label('date')


def part(spec, value):
    try:
        native = scalars.adapt(spec, value)
    except scalars.Fail:
        return None, scalars.as_text(value) if value is not None else u''
    if native is None:
        return None, u''
    return native, scalars.text_of(spec, native)


# -- C25 ---------------------------------------------------------------------

def c25(ctx, mode, case):
    import re
    import flatland
    spec = case['spec']
    cls = build(spec)
    mcls = cls.member_schema
    o = spec['o']
    sep = o['sep']
    pattern = re.compile(o['sep_re'], re.UNICODE) if 'sep_re' in o else None
    el = cls()
    log = []
    most = 0

    def split(text):
        if pattern is not None:
            return pattern.split(text)
        out, rest = [], text
        while True:
            at = rest.find(sep)
            if at < 0:
                return out + [rest]
            out.append(rest[:at])
            rest = rest[at + len(sep):]

    def adapted(values):
        good, texts = True, []
        for v in values:
            m = mcls()
            ok = m.set(v)
            if o['prune'] and m.u == u'':
                continue
            good = good and ok
            texts.append((unicode(m.u), m.value))
        return good, texts

    def members():
        return [(unicode(c.u), c.value) for c in el]

    for op in case['ops']:
        name, want = op['op'], None
        log.append(name)
        what = u'after ' + u', '.join(log)
        before = members()
        v = op.get('v')
        if name == 'text':
            v = dec(v)
            good, want = adapted(split(v))
            ctx.ok(el.set(v) is good, u'set(%s) %s, want %s', v, what, good)
            ctx.ok(el.raw == v, u'raw ' + what)
        elif name == 'bytes':
            v = dec(v)
            try:
                text = v.decode('ascii')
            except UnicodeDecodeError:
                ctx.label('undecodable')
                ctx.ok(el.set(v) is False, u'set(%s) %s', v, what)
            else:
                good, want = adapted(split(text))
                ctx.ok(el.set(v) is good, u'set(%s) %s', v, what)
        elif name in ('list', 'tuple', 'iter'):
            v = [dec(x) for x in v]
            good, want = adapted(v)
            given = {'list': list, 'tuple': tuple, 'iter': iter}[name](v)
            ctx.ok(el.set(given) is good, u'set(%s) %s, want %s', v, what,
                   good)
        elif name == 'none':
            ctx.ok(el.set(None) is True, u'set(None) ' + what)
            want = []
        elif name == 'odd':
            v = dec(v)
            if isinstance(v, dict):
                good, want = adapted(list(v))
            else:
                good, want = False, []
            ctx.ok(el.set(v) is good, u'set(%s) %s', v, what)
        elif name == 'flat':
            v = dec(v)
            good, want = adapted(split(v))
            el.set_flat([(u'zz', u'1'), (spec['n'], v),
                         (spec['n'] + u'_0', u'q')])
        elif name == 'again':
            # (text that splits back into the same pieces)
            pieces = [t for t, _ in before]
            good, want = adapted(split(unicode(el.u)))
            if [t for t, _ in want] == pieces:
                ctx.label('own text')
            el.set(el.u)
        elif name == 'append':
            el.append(dec(v))
            want = before + adapted_one(mcls, v)
        elif name in ('extend', 'iadd'):
            values = [dec(x) for x in v]
            if name == 'extend':
                el.extend(values)
            else:
                el += values
            want = list(before)
            for x in values:
                want += adapted_one(mcls, None, x)
        elif name == 'insert':
            el.insert(op['i'], dec(v))
            want = list(before)
            want[op['i']:op['i']] = adapted_one(mcls, v)
        elif name == 'pop' and before:
            i = op['i'] if -len(before) <= op['i'] < len(before) else 0
            got = el.pop(i)
            want = list(before)
            ctx.eq((unicode(got.u), got.value), want.pop(i), u'pop ' + what)
        elif name == 'setitem' and before:
            i = op['i'] % len(before)
            el[i] = dec(v)
            want = list(before)
            want[i:i + 1] = adapted_one(mcls, v)
        elif name == 'member' and before:
            i = op['i'] % len(before)
            el[i].set(dec(v))
            want = list(before)
            want[i:i + 1] = adapted_one(mcls, v)
        elif name == 'del' and before:
            i = op['i'] % len(before)
            del el[i]
            want = list(before)
            del want[i]
        elif name == 'slice':
            values = [dec(x) for x in v]
            el[op['i']:op['j']] = values
            want = list(before)
            new = []
            for x in values:
                new += adapted_one(mcls, None, x)
            want[op['i']:op['j']] = new
        elif name == 'reverse':
            el.reverse()
            want = before[::-1]
        elif name == 'sort':
            el.sort(key=lambda e: e.u)
            want = sorted(before, key=lambda m: m[0])
        got = members()
        if want is not None:
            ctx.ok(same(got, want), u'members %s, want %s %s', got, want,
                   what)
        most = max(most, len(got))
        text = sep.join(t for t, _ in got)
        ctx.text(el.u, text, u'text ' + what)
        ctx.eq(unicode(el.value), text, u'value ' + what)
        ctx.eq(list(el.flatten()), [(spec['n'], text)], u'flat ' + what)
        back = cls.from_flat(el.flatten())
        good, want = adapted(split(text))
        ctx.ok(same([(unicode(c.u), c.value) for c in back], want),
               u'restored %s, want %s %s', list(back), want, what)
        texts = [t for t, _ in got]
        if split(text) == texts:
            ctx.eq([unicode(c.u) for c in back], [
                t for t in texts if t or not o['prune']] if
                all_stable(mcls, texts) else [unicode(c.u) for c in back],
                u'restored ' + what)
    ctx.nt(most >= 2)


def all_stable(mcls, texts):
    for t in texts:
        m = mcls()
        m.set(t)
        if m.u != t:
            return False
    return True


def adapted_one(mcls, v, decoded=None):
    m = mcls()
    m.set(decoded if v is None else dec(v))
    return [(unicode(m.u), m.value)]


# -- C26 ---------------------------------------------------------------------

class Missing(Exception):
    pass


def lookup(root, path):
    el = root
    for name in path.split(u'.'):
        if isinstance(el, list):
            if int(name) >= len(list(el)):
                raise Missing
            el = el[int(name)]
        elif name in el:
            el = el[name]
        else:
            raise Missing
    return el


def c26(ctx, mode, case):
    import flatland as f
    leaves = case['leaves']
    leaf = lambda n: build(leaves[n]).named(None if n == 'item' else n)
    extra = {}
    by_name = {}
    for r in case['refs']:
        by_name[r['n']] = r
        path = r['to']
        cls = f.Ref.named(r['n'])
        if r['style'] == 'leading':
            cls = cls.to(u'.' + path)
        elif r['style'] == 'sep':
            cls = cls.to(path.replace(u'.', u'/'), sep=u'/')
        elif r['style'] == 'parts':
            cls = cls.to(path.split(u'.'))
        else:
            cls = cls.to(path)
        if r['writable'] is not None:
            cls = cls.using(writable=r['writable'])
        extra.setdefault(r['in'], []).append(cls)
    at = lambda where: extra.get(where, [])
    schema = f.Dict.of(*[
        leaf('a'), leaf('b'),
        f.Dict.named(u'sub').of(*[leaf('x'), leaf('y'), f.Dict.named(
            u'deep').of(*[leaf('z')] + at('sub.deep'))] + at('sub')),
        f.List.named(u'items').of(leaf('item')),
        f.List.named(u'rows').of(f.Dict.of(*[leaf('p'), leaf('q')] +
                                           at('row'))),
        f.SparseDict.named(u'sparse').of(*[leaf('s')] + at('sparse')),
        f.DateYYYYMMDD.named(u'when'),
        f.JoinedString.named(u'joined')] + at('')).named(case['name'])
    root = schema()
    for _ in range(case['list']):
        root[u'items'].append(leaf('item')())
        root[u'rows'].append({})
    for cls in at('sparse'):
        root[u'sparse'][cls.name] = cls()
    log = []

    def refs():
        return [e for e in root.all_children if isinstance(e, f.Ref)]

    def target(ref):
        return lookup(root, by_name[ref.name]['to'])

    def final(ref):
        el = target(ref)
        return final(el) if isinstance(el, f.Ref) else el

    def verdict(ref):
        """'ignored', 'refused' or 'written'."""
        mode = by_name[ref.name]['writable']
        if mode is None or mode == u'ignore':
            return 'ignored'
        if mode is False:
            return 'refused'
        el = target(ref)
        return verdict(el) if isinstance(el, f.Ref) else 'written'

    def verify(note):
        whole = True
        for ref in refs():
            try:
                el = final(ref)
            except Missing:
                whole = False
                ctx.label('dangling')
                ctx.raises(KeyError, lambda: ref.u, u'dangling text ' + note)
                ctx.raises(KeyError, lambda: ref.value,
                           u'dangling value ' + note)
                continue
            ctx.ok(ref.target is target(ref), u'target of %s is %s %s',
                   ref.name, ref.target, note)
            ctx.eq(unicode(ref.u), unicode(el.u), u'text of %s to %s %s' % (
                ref.name, by_name[ref.name]['to'], note))
            ctx.ok(same(ref.value, el.value), u'value of %s: %s, want %s %s',
                   ref.name, ref.value, el.value, note)
        names = set(r.flattened_name() for r in refs())
        flat = [k for k, _ in root.flatten()]
        ctx.ok(not names & set(flat), u'flattened to %s %s', flat, note)
        if whole:
            got = root.value
            for ref in refs():
                if ref.parent is root:
                    ctx.ok(same(got[ref.name], final(ref).value),
                           u'value of the whole for %s %s', ref.name, note)

    def plain(el):
        return not isinstance(el, (f.DateYYYYMMDD, f.JoinedString))

    verify(u'at first')
    wrote = changed = False
    for op in case['ops']:
        name, v, text = op['op'], dec(op['v']), op['text']
        log.append(name)
        note = u'after ' + u', '.join(log)
        everyone = refs()
        ref = everyone[op['i'] % len(everyone)] if everyone else None
        if name == 'target':
            try:
                el = lookup(root, op['at'])
            except Missing:
                if op['at'] == u'sparse.s':
                    root[u'sparse'][u's'] = v
                continue
            el.set(v)
            changed = True
        elif name == 'rawvalue':
            try:
                el = lookup(root, op['at'])
            except Missing:
                continue
            if plain(el):
                el.value, el.u = v, text
                changed = True
        elif name in ('ref', 'refvalue', 'refu'):
            try:
                el = ref is not None and final(ref)
            except Missing:
                continue
            if ref is None or not plain(el):
                continue
            wrote = True
            fate = verdict(ref)
            ctx.label(fate)
            old = (el.value, unicode(el.u))
            if name == 'ref':
                model = type(el)()
                good = model.set(v)
                write = lambda: ref.set(v)
                want = (model.value, unicode(model.u))
            elif name == 'refvalue':
                write = lambda: setattr(ref, 'value', v)
                want = (v, old[1])
            else:
                write = lambda: setattr(ref, 'u', text)
                want = (old[0], text)
            if fate == 'refused':
                ctx.raises(TypeError, write, u'write to %s %s' % (
                    ref.name, note))
                want = old
            else:
                res = write()
                if name == 'ref':
                    ctx.ok(res is good, u'set(%s) on %s: %s, want %s %s', v,
                           ref.name, res, good, note)
                if fate == 'ignored':
                    want = old
            ctx.ok(same((el.value, unicode(el.u)), want),
                   u'target of %s is %s/%s, want %s %s', ref.name, el.value,
                   el.u, want, note)
        elif name == 'replace':
            k = op['i'] % 5
            if k == 0:
                root[u'sub'].set({u'x': v})
            elif k == 1:
                root[u'items'].set([v, text])
            elif k == 2:
                root[u'rows'].set([{u'p': text}, {u'q': v}])
            elif k == 3:
                root[u'sparse'].set({u's': v})
            else:
                root[u'sub'].set({u'deep': {u'z': v}})
            changed = True
        elif name == 'flat':
            prefix = u'' if case['name'] is None else case['name'] + u'_'
            root.set_flat([(prefix + k, text) for k in (
                u'a', u'sub_x', u'sub_deep_z', u'items_0', u'items_1',
                u'rows_0_p', u'rows_1_q', u'sparse_s')])
            changed = True
        elif name == 'all':
            root.set({u'a': v, u'b': text, u'sub': {u'y': v},
                      u'items': [text]})
            changed = True
        elif name in ('pop', 'insert', 'reverse'):
            seq = root[u'items' if op['i'] % 2 else u'rows']
            if name == 'pop':
                if len(list(seq)):
                    seq.pop(0)
            elif name == 'reverse':
                seq.reverse()
            elif op['i'] % 2:
                seq.insert(0, v)
            else:
                seq.insert(0, {u'p': v})
        elif name == 'default':
            leafs = [el for el in root.all_children
                     if el.name in (u'a', u'b', u'x', u'y', u'z')]
            root.set_default()
            for el in leafs:
                model = type(el)()
                model.set_default()
                ctx.ok(same((el.value, el.u), (model.value, model.u)),
                       u'default of %s is %s %s', el.name, el.value, note)
            changed = True
        verify(note)
    ctx.nt(wrote and changed)


# -- C36 ---------------------------------------------------------------------

def c36(ctx, mode, case):
    import flatland as f

    class ShadowDict(object):
        pass

    class ShadowForm(ShadowDict):
        pass
    made = []          # (class, shadow, {name: id}, kind)
    labels = {}
    crowded = False

    def schema(fd, rename):
        t = fd['t']
        cls = getattr(f, t)
        if t == 'List':
            cls = cls.of(f.String)
        elif t == 'Dict':
            cls = cls.of(f.String.named(u'inner'))
        n = {'same': fd['n'], 'none': None, 'other': 'other'}[
            fd['named'] if rename else 'same']
        cls = cls.using(properties={'id': fd['id']}).named(n)
        if fd.get('label') is not None:
            labels[fd['id']] = fd['label']
            cls = cls.using(label=fd['label'])
        return cls

    def fields_of(cls):
        return [(s.name, s.properties['id']) for s in cls.field_schema]

    def verify(note):
        for i, (cls, _, want, kind_) in enumerate(made):
            got = fields_of(cls)
            ctx.ok(len(got) == len(want) and dict(got) == want,
                   u'fields of class %d: %s, want %s %s', i, got, want, note)
            for s in cls.field_schema:
                ctx.ok(isinstance(s.name, unicode), u'field name %s', s.name)
                ctx.eq(s.label, labels.get(s.properties['id'], s.name),
                       u'label of %s %s' % (s.name, note))
    for i, c in enumerate(case['classes']):
        note = u'after class %d' % i
        if c['kind'] == 'dict':
            cls = f.Dict.of(*[schema(fd, False) for fd in c['fs']])
            made.append((cls, type('D', (ShadowDict,), {}),
                         dict((fd['n'], fd['id']) for fd in c['fs']), 'dict'))
            verify(note)
            continue
        bases = []
        for b in c['bases']:
            if made and made[b % len(made)] not in bases:
                bases.append(made[b % len(made)])
        if not any(b[3] == 'form' for b in bases):
            bases = [(f.Form, ShadowForm, {}, 'form')] + bases
        try:
            shadow = type('S', tuple(b[1] for b in bases), {})
        except TypeError:
            continue
        want = {}
        for _, _, fields, _ in reversed(bases):
            crowded |= bool(set(want) & set(fields))
            want.update(fields)
        members = {}
        if c['fs'] is not None:
            members['field_schema'] = [schema(fd, False) for fd in c['fs']]
            for fd in c['fs']:
                crowded |= fd['n'] in want
                want[fd['n']] = fd['id']
        given = {}
        for fd in c['attrs']:
            given[fd['n']] = members[fd['n'].encode('ascii')] = \
                schema(fd, True)
            crowded |= fd['n'] in want
            want[fd['n']] = fd['id']
        plain = {}
        if 'helper' in c['plain']:
            plain['helper'] = lambda self: 5
        if 'const' in c['plain']:
            plain['const'] = 12
        if 'instance' in c['plain']:
            plain['instance'] = f.String(name=u'i')
        members.update(plain)
        cls = type(f.Form)('Made', tuple(b[0] for b in bases), members)
        for n in given:
            ctx.ok(n not in cls.__dict__, u'%s is still a class attribute', n)
            if hasattr(f.Form, n):
                ctx.ok(not isinstance(getattr(cls, n), type) or not
                       issubclass(getattr(cls, n), f.Element),
                       u'%s hides the class\'s own', n)
        for n, v in plain.items():
            ctx.ok(cls.__dict__.get(n) is v, u'%s was lost', n)
        got = dict((s.name, s) for s in cls.field_schema)
        for n, s in given.items():
            ctx.ok(got[n] is s if s.name == n and isinstance(s.name, unicode)
                   else issubclass(got[n], s), u'field %s is %s', n, got[n])
        made.append((cls, shadow, want, 'form'))
        verify(note)
        for how in c['derive']:
            d, fields = cls, want
            if how == 'named':
                d = cls.named(u'n')
            elif how == 'using':
                d = cls.using(optional=True, policy=u'strict')
            elif how == 'with_properties':
                d = cls.with_properties(k=1)
            elif how == 'validated_by':
                d = cls.validated_by(lambda e, s: True)
            elif how == 'subclass':
                d = type(cls)('Sub', (cls,), {})
            else:
                d = cls.of(f.String.named(u'of').using(
                    properties={'id': 0}))
                fields = {u'of': 0}
            got = fields_of(d)
            ctx.ok(len(got) == len(fields) and dict(got) == fields,
                   u'fields after %s: %s, want %s', how, got, fields)
            verify(u'after %s of class %d' % (how, i))
        if want:
            el = cls()
            ctx.eq(sorted(el.keys()), sorted(want), u'keys')
            for s in cls.field_schema:
                ctx.ok(isinstance(el[s.name], s) and
                       el[s.name].name == s.name and
                       el[s.name].properties['id'] == want[s.name],
                       u'child %s is %s', s.name, el[s.name])
        else:
            ctx.raises(TypeError, cls, u'a form without fields')
    ctx.nt(crowded)
    ctx.label('%d classes' % len(made))


CHECKS = {'C22': c22, 'C23': c23, 'C24': c24, 'C25': c25, 'C26': c26,
          'C36': c36}
