# -*- coding: utf-8 -*-
"""C16-C21, C33-C35: validation."""
import operator
import re
import unicodedata

from lib import build, dec, kind, member, same, show, HarnessFault
from checks.tree import structure, in_child_order


def outcome(code):
    from flatland import Skip, SkipAll, SkipAllFalse
    return {'T': True, 'F': False, 'N': None, '1': 1, '0': 0, 'S': Skip,
            'A': SkipAll, 'AF': SkipAllFalse}[code]


def tree_order(top):
    """Nodes breadth first, children in the order the element gives."""
    queue, out = [top], []
    while queue:
        node = queue.pop(0)
        out.append(node)
        queue.extend(in_child_order(node))
    return out


def empty(node):
    """Whether the element holds nothing, from its members and values."""
    k = kind(node.spec)
    if k == 'date':
        return all(c.el.value is None and c.el.u == u'' for c in node.kids)
    if k in ('scalar', 'ref'):
        value = node.el.value
        if node.spec['t'] == 'String' and value == u'':
            value = None
        return value is None and node.el.u == u''
    if k == 'dict':
        return False
    return not node.kids


def flag(spec, name):
    return (spec.get('o') or {}).get(name)


# -- C16, C18 ----------------------------------------------------------------

class Plan(object):
    """Validators that act as the case says and log their calls."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.order = {}
        self.round = 0
        self.state = None
        self.log = []
        self.count = 0
        self.fns = {}

    def result(self, results, idx):
        return results[(idx + self.round) % len(results)]

    def make(self, results):
        self.count += 1
        vid = self.count

        def validator(element, state):
            if id(element) not in self.order:
                self.ctx.fail(u'validator called with a stranger %s', element)
            idx = self.order[id(element)]
            if state is not self.state:
                self.ctx.fail(u'validator got state %s, want %s', state,
                              self.state)
            res = outcome(self.result(results, idx))
            self.log.append(('call', vid, idx, res))
            return res
        self.fns[vid] = validator
        return vid, validator

    def deco(self, cls, spec):
        o = spec.get('o') or {}
        if o.get('v') is not None:
            made = [self.make(r) for r in o['v']]
            spec['_v'] = [vid for vid, _ in made]
            cls = cls.using(validators=[fn for _, fn in made])
        if o.get('dv') is not None:
            made = [self.make(r) for r in o['dv']]
            spec['_dv'] = [vid for vid, _ in made]
            cls = cls.using(descent_validators=[fn for _, fn in made])
        return cls


class Model(object):
    def __init__(self, plan):
        self.plan = plan
        self.log = []

    def chain(self, node, idx, results, vids):
        if flag(node.spec, 'optional') and empty(node):
            return True
        if not results:
            res = not empty(node)
            self.log.append(('default', None, idx, res))
            return res
        for spec, vid in zip(results, vids):
            code = self.plan.result(spec, idx)
            res = outcome(code)
            self.log.append(('call', vid, idx, res))
            if code in ('F', 'N', '0', 'AF'):
                return 'stop-false' if code == 'AF' else False
            if code == 'S':
                return True
            if code == 'A':
                return 'stop-true'
        return True

    def down(self, node, idx):
        if kind(node.spec) in ('scalar', 'ref'):
            return self.chain(node, idx, flag(node.spec, 'v'),
                              node.spec.get('_v'))
        if flag(node.spec, 'dv'):
            return self.chain(node, idx, node.spec['o']['dv'],
                              node.spec['_dv'])
        return None

    def up(self, node, idx):
        if kind(node.spec) in ('scalar', 'ref'):
            return None
        return self.chain(node, idx, flag(node.spec, 'v'),
                          node.spec.get('_v'))


def truth(res):
    return res not in (False, 'stop-false')


def validate_model(plan, order, at, recurse, validity):
    """Updates validity (by index) as validating order[at] should."""
    model = Model(plan)
    index = dict((id(n), i) for i, n in enumerate(order))
    visited, queue = [], [order[at]]
    overall = True
    while queue:
        node = queue.pop(0)
        i = index[id(node)]
        visited.append(node)
        res = model.down(node, i)
        if res is None:
            validity[i] = 'unevaluated'
        else:
            validity[i] = truth(res)
            overall = overall and truth(res)
        if recurse and res not in ('stop-true', 'stop-false'):
            queue.extend(in_child_order(node))
    for node in reversed(visited):
        i = index[id(node)]
        res = model.up(node, i)
        if res is None:
            continue
        overall = overall and truth(res)
        if validity[i] is not False:
            validity[i] = truth(res)
    return model.log, overall, visited


def strict_log(ctx, got, want, what):
    ok = len(got) == len(want) and all(
        a[:3] == b[:3] and a[3] is b[3] for a, b in zip(got, want))
    ctx.ok(ok, u'%s: got %s, want %s', what, got, want)


class State(object):
    pass


def c16(ctx, mode, case):
    from flatland import Unevaluated
    signalled = case.get('receivers')
    plan = Plan(ctx)
    spec = case['spec']
    el = build(spec, plan.deco)()
    el.set(dec(case['value']))
    order = tree_order(structure(el, spec))
    plan.order = dict((id(n.el), i) for i, n in enumerate(order))
    validity = ['unevaluated'] * len(order)
    for n in order:
        ctx.ok(n.el.valid is Unevaluated, u'new element is %s', n.el.valid)
    for rnd, r in enumerate(case['rounds']):
        plan.round, plan.log = rnd, []
        plan.state = {'none': None, 'dict': {u'a': 1}, 'empty': {},
                      'object': State()}[r['state']]
        at = r['at'] % len(order)
        target = order[at]
        below = tree_order(target)
        if r['set'] is not None:
            target.el.all_valid = r['set']
            for n in below:
                validity[plan.order[id(n.el)]] = r['set']
        want_log, overall, visited = validate_model(
            plan, order, at, r['recurse'], validity)
        what = u'round %d' % rnd
        kw = {} if r['recurse'] else {'recurse': False}
        if plan.state is not None:
            kw['state'] = plan.state
        if signalled:
            got = with_receivers(ctx, case['receivers'], plan, order, target,
                                 kw, want_log, what)
        else:
            got = target.el.validate(**kw)
            strict_log(ctx, plan.log,
                       [e for e in want_log if e[0] == 'call'],
                       what + u': calls')
        if not r['recurse']:
            overall = validity[at] is not False
        ctx.ok(bool(got) == overall, u'%s: validate() returned %s, want %s',
               what, got, overall)
        for i, n in enumerate(order):
            v = n.el.valid
            good = (v is Unevaluated if validity[i] == 'unevaluated'
                    else v is not Unevaluated and bool(v) == validity[i])
            ctx.ok(good, u'%s: %s (%d) valid is %s, want %s', what, n.el, i,
                   v, validity[i])
        for n in order:
            want = all(validity[plan.order[id(d.el)]] is not False
                       for d in tree_order(n))
            ctx.ok(bool(n.el.all_valid) == want,
                   u'%s: all_valid of %s is %s', what, n.el, n.el.all_valid)
        if signalled:
            ctx.nt(len(want_log) >= 3)
        else:
            ctx.nt(len(visited) >= 4 and any(
                e[3] is not True for e in want_log))
        if any(e[0] == 'default' for e in want_log):
            ctx.label('default validation')
        if len(visited) < len(below) and r['recurse']:
            ctx.label('skipped')
        if not r['recurse']:
            ctx.label('not recursive')


def with_receivers(ctx, kinds, plan, order, target, kw, want_log, what):
    from flatland.signals import validator_validated as signal
    from flatland.schema.base import NotEmpty
    names = dict((id(fn), vid) for vid, fn in plan.fns.items())
    logs = []
    connected = []

    def receiver(sink):
        def receive(sender, **kw):
            ctx.ok(set(kw) == set(['element', 'state', 'result']),
                   u'%s: signal carried %s', what, sorted(kw))
            ctx.ok(kw['state'] is plan.state, u'%s: signalled state %s', what,
                   kw['state'])
            if id(kw['element']) not in plan.order:
                ctx.fail(u'%s: signalled element %s', what, kw['element'])
            if sender is NotEmpty:
                entry = ('default', None)
            elif id(sender) in names:
                entry = ('call', names[id(sender)])
            else:
                ctx.fail(u'%s: signalled sender %s', what, sender)
            entry += (plan.order[id(kw['element'])], kw['result'])
            sink.append(entry)
            if entry[0] == 'call':
                ctx.ok(plan.log and plan.log[-1][:3] == entry[:3],
                       u'%s: signalled before the validator ran', what)
            return False
        return receive
    try:
        for k in kinds:
            sink = []
            fn = receiver(sink)
            if k == 'first':
                ids = sorted(plan.fns)
                if not ids:
                    continue
                signal.connect(fn, sender=plan.fns[ids[0]])
                keep = lambda e, vid=ids[0]: e[:2] == ('call', vid)
            elif k == 'default':
                signal.connect(fn, sender=NotEmpty)
                keep = lambda e: e[0] == 'default'
            elif k == 'weird':
                # listens, but to nobody who will ever send
                signal.connect(fn, sender=State())
                keep = lambda e: False
            else:
                signal.connect(fn)
                keep = lambda e: True
            connected.append(fn)
            logs.append((k, sink, keep))
        got = target.el.validate(**kw)
    finally:
        for fn in connected:
            signal.disconnect(fn)
    strict_log(ctx, plan.log, [e for e in want_log if e[0] == 'call'],
               what + u': calls')
    for k, sink, keep in logs:
        strict_log(ctx, sink, [e for e in want_log if keep(e)],
                   u'%s: signals to %s' % (what, k))
    return got


# -- C17 ---------------------------------------------------------------------

class Link(object):
    def __init__(self, fn):
        self.fn = fn

    def __call__(self, element, state):
        return self.fn(element, state)


def add_new(messages, extra):
    for m in extra:
        if m not in messages:
            messages.append(m)


def c17(ctx, mode, case):
    from flatland import Unevaluated
    spec, chain = case['spec'], case['chain']
    calls = []

    def make(i, link):
        def validator(element, state):
            calls.append(i)
            ctx.ok(element is el, u'validator %d got %s', i, element)
            ctx.ok(state is marker, u'validator %d got state %s', i, state)
            for m in link['errors']:
                element.add_error(m)
            for m in link['warnings']:
                element.add_warning(m)
            return outcome(link['r'])
        return Link(validator) if link['obj'] else validator
    fns = [make(i, link) for i, link in enumerate(chain)]
    down = case['down'] and case['how'] in ('using', 'attribute')
    attr = 'descent_validators' if down else 'validators'
    cls, kw = build(spec), {}
    if case['how'] == 'using':
        cls = cls.using(**{attr: list(fns)})
    elif case['how'] == 'validated_by':
        cls = cls.validated_by(*fns)
    elif case['how'] == 'including':
        half = len(fns) // 2
        cls = cls.validated_by(*fns[half:]).including_validators(
            *fns[:half], **{'position': 0})
    elif case['how'] == 'constructor':
        kw = {'validators': list(fns)}
    el = cls(**kw)
    if case['how'] == 'attribute':
        setattr(el, attr, list(fns))
    if case['value'][0] == 'value':
        el.set(dec(case['value'][1]))
    node = structure(el, spec)
    for n in tree_order(node):
        if n is not node:
            # (only this element is judged)
            n.el.optional = True
    marker = State()
    nothing = empty(node)
    ctx.eq(bool(el.is_empty), nothing, u'is_empty of %s' % show(el))
    errors, warnings, total = [], [], []
    for _ in range(case['times']):
        runs, valid = [], True
        if flag(spec, 'optional') and nothing:
            pass
        elif not chain:
            valid = not nothing
        else:
            for i, link in enumerate(chain):
                runs.append(i)
                add_new(errors, link['errors'])
                add_new(warnings, link['warnings'])
                if link['r'] in ('F', 'N', '0', 'AF'):
                    valid = False
                    break
                if link['r'] in ('S', 'A'):
                    break
        total.extend(runs)
        if down:
            # the ascent then applies default validation
            up = True if flag(spec, 'optional') else not nothing
            if chain:
                valid = valid and up
            else:
                valid = up
        res = el.validate(state=marker, recurse=False)
        ctx.eq(calls, total, u'validators run')
        ctx.ok(bool(res) == valid and bool(el.valid) == valid and
               el.valid is not Unevaluated,
               u'%s: validate() is %s and valid %s, want %s', el, res,
               el.valid, valid)
        ctx.eq(list(el.errors), errors, u'errors')
        ctx.eq(list(el.warnings), warnings, u'warnings')
    ctx.nt(len(chain) >= 2)
    ctx.label('empty' if nothing else 'set')
    if errors or warnings:
        ctx.label('messages')


# -- C19 ---------------------------------------------------------------------

def freeze(el):
    return (el.value, unicode(el.u))


def c19(ctx, mode, case):
    if mode == 'equal':
        return equal(ctx, case)
    import flatland.validation as fv
    name, spec = case['v'], case['spec']
    params = {}
    for key, v in case['params'].items():
        if isinstance(v, list):
            params[key] = [dec(x) for x in v]
        else:
            params[key] = dec(v) if isinstance(v, dict) else v
    if name == 'ValueIn' and len(params['valid_options']) % 2:
        params['valid_options'] = tuple(params['valid_options'])
    kw = dict((str(k), v) for k, v in params.items())
    v = getattr(fv, name)(**kw)
    el = build(spec)()
    if case['label'] is not None:
        el.label = case['label']
    if case['set']:
        el.set(dec(case['value']))
    before = freeze(el)
    value, u = el.value, el.u
    p = params
    key = None
    if name == 'Present':
        want, key = u != u'', 'missing'
    elif name == 'IsTrue':
        want, key = bool(value), 'false'
    elif name == 'IsFalse':
        want, key = not value, 'true'
    elif name == 'Converted':
        want, key = value is not None, 'incorrect'
    elif name == 'ValueIn':
        try:
            want = any(value is o or value == o for o in p['valid_options'])
        except Exception:
            # incomparable options
            return
        key = 'fail'
    elif name in ('ShorterThan', 'NoLongerThan'):
        want, key = len(u) <= p['maxlength'], 'exceeded'
    elif name == 'LongerThan':
        want, key = len(u) >= p['minlength'], 'short'
    elif name == 'LengthBetween':
        want = p['minlength'] <= len(u) <= p['maxlength']
        key = 'breached'
    else:
        if value is None or value != value:
            # nothing to order: Converted or Present belongs before these
            ctx.label('unordered')
            return
        key = 'failure'
        if name == 'ValueLessThan':
            want = value < p['boundary']
            other = fv.ValueAtLeast(minimum=p['boundary'])
        elif name == 'ValueAtLeast':
            want = value >= p['minimum']
            other = fv.ValueLessThan(boundary=p['minimum'])
        elif name == 'ValueGreaterThan':
            want = value > p['boundary']
            other = fv.ValueAtMost(maximum=p['boundary'])
        elif name == 'ValueAtMost':
            want = value <= p['maximum']
            other = fv.ValueGreaterThan(boundary=p['maximum'])
        else:
            other = None
            lo, hi = p['minimum'], p['maximum']
            if p.get('inclusive', True):
                want, key = lo <= value <= hi, 'failure_inclusive'
            else:
                want, key = lo < value < hi, 'failure_exclusive'
        if other is not None:
            twin = build(spec)(value)
            ctx.ok(bool(other.validate(twin, None)) != bool(want),
                   u'%s and its complement agree on %s', name, el)
    got = v.validate(el, None)
    ctx.ok(got is want or (bool(got) == want and isinstance(got, bool)),
           u'%s(%s) on %s: %s, want %s', name, p, el, got, want)
    ctx.ok(same(freeze(el), before), u'%s changed %s', name, el)
    if want:
        ctx.eq(list(el.errors), [], u'%s: errors' % name)
    else:
        data = dict(p, label=el.label, value=value, u=u)
        ctx.eq(list(el.errors), [getattr(type(v), key) % data],
               u'%s: errors' % name)
        # overridden message
        kw[key] = u'custom %(label)s'
        v = getattr(fv, name)(**kw)
        el2 = build(spec)()
        if case['set']:
            el2.set(dec(case['value']))
        ctx.ok(v(el2, None) is False, u'%s called', name)
        ctx.eq(list(el2.errors), [u'custom %s' % el2.label],
               u'%s: custom errors' % name)
    ctx.ok(not el.warnings, u'%s added warnings', name)
    ctx.nt(value is not None)
    ctx.label(name + (':pass' if want else ':fail'))


def equal(ctx, case):
    import flatland
    import flatland.validation as fv
    fields = case['fields']
    inner = flatland.Dict.named(u'in').of(*[build(s) for s in fields])
    if case['outer']:
        cls = flatland.Dict.of(inner, flatland.String.named(u'zz'))
        top = cls()
        holder = top[u'in']
        base = u'/in/'
    else:
        top = holder = inner()
        base = u'/'
    holder.set(dec({'m': case['values']}))
    for n in case['labels']:
        holder[n].label = u'L:' + n
    paths = []
    target = holder
    for i, n in enumerate(case['paths']):
        if case['style'] == 'abs' or (i % 2 and case['style'] == 'plain'):
            paths.append(base + n)
        elif case['style'] == 'sibling':
            target = holder[case['paths'][0]]
            paths.append(u'../' + n if i else u'.')
        else:
            paths.append(n)
    els = [holder[n] for n in case['paths']]
    name = case['v']
    kw = {}
    if name == 'ValuesEqual':
        keys = [e.value for e in els]
    elif name == 'UnisEqual':
        keys = [e.u for e in els]
    elif name == 'MapEqual':
        keys = [(e.value, e.u) for e in els]
    else:
        kw['transform'] = lambda e: e.u.lower()
        keys = [e.u.lower() for e in els]
    cls = getattr(fv, name.split('-')[0])
    if any(isinstance(k, float) and k != k for k in keys):
        return
    want = all(k == keys[0] for k in keys[1:])
    before = [freeze(e) for e in els]
    v = cls(*paths, **kw)
    got = v.validate(target, None)
    ctx.ok(got is want, u'%s%s on %s: %s, want %s', name, paths, els, got,
           want)
    ctx.ok(same([freeze(e) for e in els], before), u'%s changed fields', name)
    labels = [u'L:' + n if n in case['labels'] else n for n in case['paths']]
    ctx.eq(list(target.errors), [] if want else [
        u'%s and %s do not match.' % (u', '.join(labels[:-1]), labels[-1])],
        u'%s: errors' % name)
    for e in els + [top, holder]:
        if e is not target:
            ctx.eq(list(e.errors), [], u'%s: errors of others' % name)
    # as subclass attribute, in validation proper
    sub = type('Sub', (cls,), {'field_paths': tuple(paths),
                               'unequal': u'no %(last_label)s'})(**kw)
    target.errors[:] = []
    ctx.ok(sub(target, None) is want, u'subclass of %s', name)
    ctx.eq(list(target.errors), [] if want else [u'no %s' % labels[-1]],
           u'subclass of %s: errors' % name)
    ctx.nt(any(e.value is not None for e in els))
    ctx.label(name + (':pass' if want else ':fail'))


# -- C20 ---------------------------------------------------------------------

COMPARATORS = {
    'lower': lambda a, b: a.u.lower() == b.u.lower(),
    'never': lambda a, b: False,
    'always': lambda a, b: True,
    'u': lambda a, b: a.u == b.u,
    # not symmetric: called with the element, then an earlier sibling
    'order': lambda a, b: a.u > b.u,
}


def c20(ctx, mode, case):
    if mode == 'length':
        return length(ctx, case)
    import flatland
    import flatland.validation as fv
    kw = {}
    if case['comparator']:
        kw['comparator'] = COMPARATORS[case['comparator']]
    if case['message'] == 'position':
        kw['failure'] = u'%(position)s in %(container_label)s'
    v = fv.NotDuplicated(**kw)
    shape = case['shape']
    if shape == 'Dict':
        m = flatland.Dict.of(flatland.Integer.named(u'x'),
                             flatland.String.named(u'y'))
    elif shape == 'List':
        m = flatland.List.of(flatland.String)
    else:
        m = getattr(flatland, shape)
    if case['mname']:
        m = m.named(case['mname'])
    m = m.validated_by(v)
    cls = getattr(flatland, case['kind']).of(m)
    if case['name']:
        cls = cls.named(case['name'])
    if case['wrap'] == 'dict':
        top = flatland.Dict.of(cls.named(u'w'))()
        seq = top[u'w']
    elif case['wrap'] == 'list':
        top = flatland.List.of(cls)([[], []])
        seq = top[1]
    else:
        top = seq = cls()
    seq.set([dec(x) for x in case['values']])
    for op, i, j in case['shuffle']:
        if not len(seq):
            break
        i, j = i % len(seq), j % len(seq)
        if op == 'pop':
            seq.pop(i)
        elif op == 'move':
            seq.insert(j, seq.pop(i))
        elif op == 'reverse':
            seq.reverse()
        elif case['values']:
            seq.insert(i, dec(case['values'][0]))
    for e in top.all_children:
        e.optional = False
    same_fn = kw.get('comparator') or (
        lambda a, b: a.value == b.value and a.u == b.u)
    members = list(seq)
    before = [freeze(e) for e in members]
    dupes = [any(same_fn(e, earlier) for earlier in members[:i])
             for i, e in enumerate(members)]
    top.validate()
    label = seq.label
    for i, e in enumerate(members):
        ctx.ok(bool(e.valid) == (not dupes[i]),
               u'member %d of %s: valid is %s', i, members, e.valid)
        text = kw.get('failure', fv.NotDuplicated.failure) % {
            'label': e.label, 'container_label': label, 'position': i + 1}
        ctx.eq(list(e.errors), [text] if dupes[i] else [],
               u'errors of member %d of %s' % (i, show(members)))
    ctx.eq(list(seq.errors), [], u'errors of the sequence')
    ctx.ok(same([freeze(e) for e in members], before),
           u'NotDuplicated changed values')
    ctx.raises(TypeError, lambda: v.validate(m(), None), u'without a parent')
    ctx.nt(len(members) >= 3)
    if any(dupes):
        ctx.label('duplicates')


def length(ctx, case):
    import flatland
    import flatland.validation as fv
    params = dict((str(k), n) for k, n in case['params'].items())
    name = case['v']
    lo = params.get('minimum', 1)
    hi = params.get('maximum', 1)
    cls = getattr(fv, name)
    if name == 'HasBetween' and lo > hi:
        ctx.raises(TypeError, lambda: cls(**params), u'HasBetween(%d, %d)' %
                   (lo, hi))
        ctx.label('nonsense')
        return
    m = getattr(flatland, case['mtype'])
    if case['kind'] == 'List-Dict':
        m = flatland.Dict.of(m.named(u'x'), m.named(u'y'))
    if case['mname']:
        m = m.named(case['mname'])
    seq = getattr(flatland, case['kind'].split('-')[0]).of(m)
    if case['name']:
        seq = seq.named(case['name'])
    v = cls(**params)
    el = seq.using(validators=[v])()
    n = case['count']
    if case['set'] or n:
        item = {u'x': case['text']} if case['kind'] == 'List-Dict' \
            else case['text']
        for _ in range(n):
            el.append(item)
    if name == 'HasAtLeast':
        want = n >= lo
    elif name == 'HasAtMost':
        want = n <= hi
    else:
        want = lo <= n <= hi
    before = freeze(el)
    got = el.validate(recurse=False)
    ctx.ok(bool(got) == want and bool(el.valid) == want,
           u'%s(%s) on %s of %d members: %s', name, params, case['kind'], n,
           got)
    ctx.ok(same(freeze(el), before), u'%s changed values', name)
    child = case['mname']
    if want:
        errors = []
    elif name == 'HasAtLeast':
        errors = [u'%s must contain at least one %s' % (el.label, child)
                  if lo == 1 else u'%s must contain at least %d %ss' %
                  (el.label, lo, child)]
    elif name == 'HasAtMost':
        errors = [u'%s must contain at most one %s' % (el.label, child)
                  if hi == 1 else u'%s must contain at most %d %ss' %
                  (el.label, hi, child)]
    elif lo == hi:
        errors = [u'%s must contain exactly one %s' % (el.label, child)
                  if lo == 1 else u'%s must contain exactly %d %ss' %
                  (el.label, lo, child)]
    else:
        errors = [u'%s must contain at least %d and at most %d %s%s' %
                  (el.label, lo, hi, child, u'' if hi == 1 else u's')]
    ctx.eq([unicode(e) for e in el.errors], errors, u'%s errors' % name)
    for c in el:
        ctx.eq(list(c.errors), [], u'member errors')
    ctx.nt(min(abs(n - b) for b in (
        [lo] if name == 'HasAtLeast' else [hi] if name == 'HasAtMost'
        else [lo, hi])) <= 1)
    ctx.label(name + (':pass' if want else ':fail'))


# -- C21 ---------------------------------------------------------------------

class Translator(object):
    def __init__(self, tag, calls):
        self.tag = tag
        self.calls = calls

    def ugettext(self, text):
        self.calls.append((self.tag, text))
        return u'<%s:%s>' % (self.tag, text)

    def ungettext(self, single, plural, n):
        self.calls.append((self.tag, single, plural, n))
        return u'{%s:%s:%r}' % (self.tag, single if n == 1 else plural, n)


class StateObject(object):
    pass


class RaisingState(object):
    def __getitem__(self, key):
        raise KeyError(key)


def c21(ctx, mode, case):
    import flatland
    import __builtin__
    from flatland.validation import Validator
    calls = []
    form = lambda f: tuple(f['plural']) if isinstance(f, dict) else f
    values = lambda name: dict((str(k), dec(v)) for k, v in case[name])
    in_state, in_validator = values('state_values'), values('validator_values')
    in_element, in_kwargs = values('element_values'), values('kwargs')
    received = []

    def dynamic(message):
        def fn(element, state):
            received.append((element, state))
            return message
        return fn
    key_message = form(case['key'])
    attrs = dict(in_validator)
    attrs['msg'] = None if case['override'] else (
        staticmethod(dynamic(key_message)) if case['key_callable']
        else key_message)
    v_cls = type('V', (Validator,), attrs)
    if case['override']:
        v = v_cls(msg=dynamic(key_message) if case['key_callable']
                  else key_message)
    else:
        v = v_cls()

    def placed(cls, place):
        kw = {}
        for fn in ('ugettext', 'ungettext'):
            if place in case['ug' if fn == 'ugettext' else 'ung'] and \
                    case['schema']:
                kw[fn] = getattr(Translator(place, calls), fn)
        return cls.using(**kw) if kw else cls
    leaf = placed(flatland.String.named(u'leaf'), 'leaf')
    seq = placed(flatland.List.named(u'list').of(leaf), 'list')
    mid = placed(flatland.Dict.named(u'mid').of(seq), 'mid')
    top = placed(flatland.Dict.named(u'top').of(mid), 'top')()
    top[u'mid'][u'list'].append(case['leaf'])
    els = {'top': top, 'mid': top[u'mid'], 'list': top[u'mid'][u'list'],
           'leaf': top[u'mid'][u'list'][0]}
    if not case['schema']:
        for place, e in els.items():
            for fn, where in (('ugettext', 'ug'), ('ungettext', 'ung')):
                if place in case[where]:
                    setattr(e, fn, getattr(Translator(place, calls), fn))
    el = els[case['where']]
    for k, val in in_element.items():
        setattr(el, k, val)
    # the state
    how = case['state']
    has_state_tr = how in ('dict', 'object', 'both')
    if has_state_tr:
        for fn, where in (('ugettext', 'ug'), ('ungettext', 'ung')):
            if 'state' in case[where]:
                in_state[fn] = getattr(Translator('state', calls), fn)
    if how == 'none':
        state, in_state = None, {}
    elif how == 'dict':
        state = dict((unicode(k), x) for k, x in in_state.items())
    elif how == 'object':
        state = StateObject()
        state.__dict__.update(in_state)
    elif how == 'both':
        class Both(dict):
            pass
        state = Both((k, x) for k, x in in_state.items() if k != 'k1')
        if 'k1' in in_state:
            state.k1 = in_state['k1']
    elif how == 'string':
        state, in_state = u'a state', {}
    elif how == 'list':
        state, in_state = [1, 2], {}
    else:
        state, in_state = RaisingState(), {}

    def nearest(where):
        if has_state_tr and 'state' in case[where]:
            return 'state'
        line = ['leaf', 'list', 'mid', 'top']
        for place in line[line.index(case['where']):] + ['builtins']:
            if place in case[where]:
                return place
        return None
    ug, ung = nearest('ug'), nearest('ung')

    missing = object()

    def lookup(k):
        for src in (in_kwargs, in_state, in_validator):
            if k in src:
                return src[k]
        if k in in_element:
            return in_element[k]
        if k in ('label', 'name', 'u', 'value'):
            return getattr(el, k)
        return missing
    if case['explicit'] is not None:
        message = form(case['explicit'])
        dynamic_used = case['explicit_callable']
        kw = {'message': dynamic(message) if dynamic_used else message}
        if case['give_key']:
            kw['key'] = 'msg'
    else:
        message = key_message
        dynamic_used = case['key_callable']
        kw = {'key': 'msg'}

    used = re.compile(r'%\((\w+)\)s')

    def expand(text):
        """Expands the original, %%-escapes included, then wraps."""
        data = {}
        for k in used.findall(text):
            val = lookup(k)
            if val is missing:
                return None
            if ug:
                val = u'<%s:%s>' % (ug, val)
            data[k] = val
        return text % data
    if isinstance(message, tuple):
        single, plural, n_key = message
        n = lookup(n_key)
        if n is missing:
            n = n_key
        else:
            try:
                n = int(n)
            except (TypeError, ValueError):
                pass
        chosen = single if n == 1 else plural
        if ung:
            text = u'{%s:%s:%r}' % (ung, chosen, n)
        elif ug:
            text = u'<%s:%s>' % (ug, chosen)
        else:
            text = chosen
        ctx.label('plural')
    else:
        text = u'<%s:%s>' % (ug, message) if ug else message
    want = expand(text)
    if want is None:
        ctx.label('unknown key')
        return
    note = v.note_warning if case['warning'] else v.note_error
    kw.update(in_kwargs)
    saved = {}
    try:
        for fn, where in (('ugettext', 'ug'), ('ungettext', 'ung')):
            if 'builtins' in case[where]:
                setattr(__builtin__, fn,
                        getattr(Translator('builtins', calls), fn))
        for _ in range(2 if case['twice'] else 1):
            res = note(el, state, **kw)
            ctx.ok(res is False, u'noting returned %s', res)
    finally:
        for fn in ('ugettext', 'ungettext'):
            if hasattr(__builtin__, fn):
                delattr(__builtin__, fn)
    got, other = el.errors, el.warnings
    if case['warning']:
        got, other = other, got
    ctx.eq([unicode(m) for m in got], [want], u'messages')
    ctx.eq(list(other), [], u'messages of the other kind')
    for e in els.values():
        if e is not el:
            ctx.eq(list(e.errors) + list(e.warnings), [],
                   u'messages of others')
    if dynamic_used:
        ctx.ok(len(received) == (2 if case['twice'] else 1) and all(
            e is el and s is state for e, s in received),
            u'callable message received %s', received)
    else:
        ctx.ok(not received, u'callable message was called: %s', received)
    ctx.nt(bool(ug or ung) or isinstance(message, tuple))
    if ug:
        ctx.label('translated:' + ug)


# -- C33 ---------------------------------------------------------------------

def check_sum(digits):
    total = 0
    for i, ch in enumerate(reversed(digits)):
        d = int(ch) * (1 + i % 2)
        total += d // 10 + d % 10
    return total % 10


def c33(ctx, mode, case):
    if mode == 'card':
        return card(ctx, case)
    import flatland
    from flatland.validation import Luhn10
    from flatland.util import luhn10
    n = int(case['n'])
    cls = getattr(flatland, case['type'])

    def verdict(num):
        el = cls()
        if num is not None:
            ctx.ok(el.set(num), u'%s did not set', num)
        got = Luhn10().validate(el, None)
        ctx.ok(isinstance(got, bool), u'Luhn10 returned %s', got)
        ctx.ok(len(el.errors) == (0 if got else 1), u'Luhn10 on %s: %s', num,
               el.errors)
        ctx.ok(el.value == num, u'Luhn10 changed %s', num)
        if num is not None:
            ctx.ok(bool(luhn10(num)) == got, u'luhn10(%s)', num)
        return got
    if case['unset']:
        ctx.ok(verdict(None) is False, u'an unset element passed')
        return
    want = n >= 0 and check_sum(str(n)) == 0
    ctx.ok(verdict(n) is want, u'Luhn10 on %s: want %s', n, want)
    if want and n:
        digits = list(str(n))
        pos = case['pos'] % len(digits)
        digits[pos] = str((int(digits[pos]) + case['to']) % 10)
        ctx.ok(verdict(int(''.join(digits))) is False,
               u'%s passed, and so did %s', n, ''.join(digits))
        ctx.label('valid')
    ctx.nt(len(str(n)) >= 10)


def issuer(s):
    if s[0] == '4' and len(s) in (13, 16):
        return 'VISA'
    if len(s) == 16 and s[:2] in ('51', '52', '53', '54', '55'):
        return 'MASTERCARD'
    if len(s) == 15 and s[:2] in ('34', '37'):
        return 'AMEX'
    if len(s) == 16 and s[:4] == '6011':
        return 'DISCOVER'
    return None


NAMES = {'VISA': u'Visa', 'MASTERCARD': u'MasterCard',
         'AMEX': u'American Express', 'DISCOVER': u'Discover'}


def card(ctx, case):
    from flatland.ext import creditcard as cc
    digits, text = case['digits'], case['text']
    cls = cc.CreditCardNumber.named(u'num')
    accepted = ['VISA', 'MASTERCARD', 'AMEX']
    if case['accepted']:
        accepted = case['accepted']
        cls = cls.using(accepted=tuple(getattr(cc, a) for a in accepted))
    el = cls()
    if case['int']:
        good, number, arg = True, int(digits), int(digits)
    else:
        good = len(text) >= 15 and not (
            set(text) - set(u'0123456789 -\t\n'))
        number = int(re.sub(u'[^0-9]', u'', text)) if good else None
        arg = text.encode('utf8') if case['bytes'] else text
    res = el.set(arg)
    ctx.ok(res is good, u'set(%s) returned %s', arg, res)
    ctx.ok(el.value == number, u'set(%s) made value %s', arg, el.value)
    if not good:
        ctx.eq(el.u, text, u'text after failure')
        want, message = False, u'num is not correct.'
    else:
        s = str(number)
        cuts = {16: (4, 8, 12), 15: (4, 10), 13: (4, 7, 10)}.get(len(s), ())
        cuts = (0,) + cuts + (len(s),)
        ctx.text(el.u, u'-'.join(s[a:b] for a, b in zip(cuts, cuts[1:])),
                 u'text of %s' % s)
        if len(s) >= 15 or len(s) == 13:
            again = cls()
            ctx.ok(again.set(el.u) is True and again.value == number,
                   u'%s does not re-parse', el.u)
        kind_ = issuer(s)
        if check_sum(s):
            want, message = False, u'The num was not entered correctly.'
        elif kind_ not in accepted:
            names = [NAMES[a] for a in accepted]
            if len(names) > 2:
                listed = u', '.join(names[:-1]) + u', and ' + names[-1]
            else:
                listed = u' and '.join(names)
            want, message = False, u'We accept %s' % listed
        else:
            want, message = True, None
            ctx.label(kind_)
    got = el.validate()
    ctx.ok(bool(got) == want, u'%s is %s, want %s', arg, got, want)
    ctx.eq([unicode(e) for e in el.errors], [] if want else [message],
           u'errors for %s' % show(arg))
    ctx.nt(len(digits) >= 10)


# -- C34 ---------------------------------------------------------------------

def c34(ctx, mode, case):
    if mode == 'url':
        return url(ctx, case)
    import flatland
    from flatland.validation import IsEmail
    addr = case['addr']
    kw = {}
    if case['non_local'] is not None:
        kw['non_local'] = case['non_local']
    if case['pattern']:
        kw['local_part_pattern'] = re.compile(case['pattern'])
    el = flatland.String(addr, name=u'email', strip=False)
    want = True
    if addr.count(u'@') != 1:
        want = False
    else:
        local, domain = addr.split(u'@')
        if not local.strip():
            want = False
        elif case['pattern'] and not re.match(case['pattern'], local):
            want = False
        else:
            ctx.nt(bool(domain))
            try:
                if all(ord(c) < 128 for c in domain):
                    ascii = domain
                else:
                    ascii = domain.encode('idna').decode('ascii')
            except UnicodeError:
                ascii = u''
            labels = ascii.split(u'.')
            good = u'abcdefghijklmnopqrstuvwxyz0123456789-'
            for label in labels:
                if not 0 < len(label) < 64:
                    want = False
                if set(label.lower()) - set(good):
                    want = False
            if len(ascii) > 253:
                want = False
            if len(labels) < 2 and case['non_local'] is not False:
                want = False
    v = IsEmail(**kw)
    got = v.validate(el, None)
    ctx.ok(got is want, u'IsEmail(%s) on %s: %s', kw.keys(), addr, got)
    ctx.eq(list(el.errors), [] if want else [
        u'email is not a valid email address.'], u'errors')
    ctx.eq([el.value, el.u], [addr, addr], u'the element')
    if want:
        ctx.label('email ok')


def assemble(p):
    out = u''
    if p['scheme']:
        out += p['scheme'] + u':'
    if p['netloc']:
        out += u'//' + p['netloc']
    out += p['path']
    if p['params']:
        out += u';' + p['params']
    if p['query']:
        out += u'?' + p['query']
    if p['fragment']:
        out += u'#' + p['fragment']
    return out


def url(ctx, case):
    import flatland
    import urlparse
    import flatland.validation as fv
    p = case['parts']
    text = case['raw'] if case['use_raw'] else assemble(p)
    el = flatland.String(name=u'url', strip=case['strip'])
    el.set(text)
    value = el.value
    if case['use_raw']:
        try:
            parsed = None if value is None else urlparse.urlparse(value)
            stripped = None if value is None else \
                urlparse.urlparse(value.strip())
        except ValueError:
            parsed = stripped = 'bad'
    names = ('scheme', 'netloc', 'path', 'params', 'query', 'fragment')
    if case['v'] == 'url':
        kw = {'bad_format': u'bad', 'blocked_scheme': u'scheme',
              'blocked_part': u'part'}
        schemes, allowed = case['schemes'], case['allowed']
        if schemes is not None:
            kw['allowed_schemes'] = tuple(schemes)
        if allowed is not None:
            kw['allowed_parts'] = set(allowed) if len(allowed) % 2 else allowed
        else:
            allowed = names
        if not case['use_raw']:
            parts = dict((n, p[n]) for n in names)
            parts['scheme'] = parts['scheme'].lower()
        elif value is None or stripped == 'bad':
            parts = None
        else:
            parts = dict((n, getattr(stripped, n)) for n in names)
        if parts is None:
            want = u'bad'
        elif not parts['scheme']:
            want = u'scheme'
        elif schemes not in (None, [u'*']) and \
                parts['scheme'] not in schemes:
            want = u'scheme'
        elif [n for n in names if parts[n] and n not in allowed]:
            want = u'part'
        else:
            want = None
        v = fv.URLValidator(**kw)
        ctx.nt(bool(parts and parts['scheme']))
    elif case['v'] == 'http':
        kw = {'bad_format': u'bad', 'required_part': u'required',
              'forbidden_part': u'forbidden'}
        required = {'scheme': ('http', 'https'), 'hostname': True}
        forbidden = {'username': True, 'password': True}
        if case['required'] is not None:
            required = kw['required_parts'] = dict(
                (k, r) for k, r in case['required'])
        if case['forbidden'] is not None:
            forbidden = kw['forbidden_parts'] = dict(
                (k, r) for k, r in case['forbidden'])
        every = ('scheme', 'username', 'password', 'hostname', 'port',
                 'path', 'params', 'query', 'fragment')
        if case['all_parts'] is not None:
            every = kw['all_parts'] = tuple(case['all_parts'])
        if not case['use_raw']:
            known = dict((n, p[n]) for n in names)
            known['scheme'] = known['scheme'].lower()
            known.update(username=p['user'], password=p['pw'],
                         hostname=p['host'].lower(), port=p['port'])
            if not p['netloc']:
                known.update(username=None, password=None, hostname=None,
                             port=None)
            part = lambda n: known[n]
        else:
            def part(n):
                got = getattr(parsed, n)
                return unicode(got) if n == 'port' and got is not None \
                    else got
        want = None
        if value is None:
            pass
        elif case['use_raw'] and parsed == 'bad':
            want = u'bad'
        else:
            for n in every:
                try:
                    got = part(n)
                except ValueError:
                    want = u'bad'
                    break
                rule = required.get(n)
                if rule is True and not got or rule and rule is not True \
                        and got not in rule:
                    want = u'required'
                    break
                rule = forbidden.get(n)
                if rule is True and got or rule and rule is not True \
                        and got in rule:
                    want = u'forbidden'
                    break
        v = fv.HTTPURLValidator(**kw)
        ctx.nt(value is not None and u':' in value)
    else:
        return canonical(ctx, case, el)
    what = u'%s(%s) on %s' % (type(v).__name__, show(kw), show(value))
    got = v.validate(el, None)
    ctx.ok(got is (want is None), u'%s: %s', what, got)
    ctx.eq([unicode(e) for e in el.errors], [] if want is None else [want],
           what)
    ctx.ok(same(el.value, value), u'%s changed it to %s', what, el.value)
    ctx.label('%s:%s' % (case['v'], want))


def canonical(ctx, case, el):
    import urlparse
    import flatland
    import flatland.validation as fv
    names = ['scheme', 'netloc', 'path', 'params', 'query', 'fragment']
    kw = {'bad_format': u'bad'}
    discard = [u'fragment']
    if case['discard'] is not None:
        discard = kw['discard_parts'] = case['discard']
    v = fv.URLCanonicalizer(**kw)
    value = el.value
    got = v.validate(el, None)
    what = u'canonicalizing %s without %s' % (show(value), discard)
    if not discard:
        ctx.ok(got is True and same(el.value, value), what)
        return
    if case['use_raw']:
        if got is False:
            ctx.eq(list(el.errors), [u'bad'], what)
            ctx.ok(same(el.value, value), u'%s changed it', what)
            try:
                urlparse.urlparse(value)
            except Exception:
                return
            ctx.fail(u'%s failed', what)
        ctx.ok(got is True and not el.errors, u'%s: %s', what, el.errors)
        if case['discard'] is None:
            # (urldefrag only reassembles what has a fragment)
            text = value if u'#' in value else value + u'#x'
            ctx.eq(el.value, urlparse.urldefrag(text)[0], what)
        return
    p = dict(case['parts'])
    if list(urlparse.urlparse(value)) != [
            p[n].lower() if n == 'scheme' else p[n] for n in names]:
        ctx.label('not well formed')
        return
    ctx.ok(got is True and not el.errors, u'%s: %s', what, el.errors)
    left = dict((n, u'' if n in discard else p[n]) for n in names)
    left['scheme'] = left['scheme'].lower()
    # (a path is needed between a host and its params)
    if left['netloc'] and left['params'] and not left['path']:
        left['path'] = u'/'
    if u'path' in discard and (p['params'] and u'params' not in discard):
        ctx.label('params without path')
    else:
        # (http:/x and http:///x are the same to urlunparse)
        want = urlparse.urlunparse(urlparse.urlparse(assemble(left)))
        ctx.eq(el.value, want, what)
        again = flatland.String(el.value, strip=False)
        v.validate(again, None)
        ctx.eq(again.value, el.value, u'twice ' + what)
    ctx.nt(bool(p['scheme']))
    ctx.label('canonical')


# -- C35 ---------------------------------------------------------------------

def c35(ctx, mode, case):
    import flatland
    from flatland.validation import NANPphone
    ext = case['ext']
    kw = {} if ext is None else {'extensions': ext}
    v = NANPphone(**kw)
    el = flatland.String(name=u'tel', strip=case['strip'])
    if not case['unset']:
        el.set(case['text'])
    value, u = el.value, el.u
    digits = u''
    for ch in (value or u''):
        if unicodedata.category(ch) == 'Nd':
            digits += unicode(unicodedata.decimal(ch))
    invalid = u'The tel is not valid.'
    noext = u'tel must be a ten-digit phone number without extension.'
    if len(digits) < 10:
        want, message = None, invalid
    elif len(digits) > 10 and not ext:
        want, message = None, noext
    else:
        want = u'(%s) %s-%s' % (digits[:3], digits[3:6], digits[6:10])
        if len(digits) > 10 and ext is True:
            want += u' x' + (digits[10:].lstrip(u'0') or u'0')
    got = v.validate(el, None)
    what = u'NANPphone(%s) on %s' % (show(ext), show(value))
    ctx.ok(got is (want is not None), u'%s: %s', what, got)
    if want is None:
        ctx.eq([unicode(e) for e in el.errors], [message], what)
        ctx.eq([el.value, el.u], [value, u], what + u': element')
    else:
        ctx.eq(list(el.errors), [], what)
        ctx.text(el.value, want, what + u': value')
        ctx.text(el.u, want, what + u': text')
        ctx.ok(v.validate(el, None) is True and not el.errors,
               u'%s: not valid again', what)
        ctx.eq([el.value, el.u], [want, want], what + u', again')
        ctx.label('ext' if len(digits) > 10 else 'plain')
    ctx.nt(len(digits) >= 10)


CHECKS = {'C16': c16, 'C17': c17, 'C18': c16, 'C19': c19, 'C20': c20,
          'C21': c21, 'C33': c33, 'C34': c34, 'C35': c35}
