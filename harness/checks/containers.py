# -*- coding: utf-8 -*-
"""C07-C12, C37, C38: sequences, mappings, defaults, comparison."""
import copy

from lib import (build, dec, kind, member, same, show, snapshot, HarnessFault)

SEQ_ERRORS = (IndexError, ValueError, TypeError)


# -- C07, C08 --------------------------------------------------------------

class Entry(object):
    """What the model knows of one member: the element that must be there
    (once known) and its state."""

    def __init__(self, el, state, key, rank):
        self.el = el
        self.state = state
        self.key = key
        self.rank = rank

    def __eq__(self, other):
        return self.key == other.key

    def __ne__(self, other):
        return self.key != other.key

    def copy(self):
        return Entry(None, self.state, self.key, self.rank)


def rank(el, mspec):
    """A sort key that only works on member elements."""
    if mspec['t'] == 'Dict':
        return (el[u'x'].value, el[u'y'].value)
    if mspec['t'] == 'List':
        return (len(el), el.value)
    if mspec['t'] == 'DateYYYYMMDD':
        return (el[u'year'].value, el.u)
    return el.value


class Seq(object):
    def __init__(self, ctx, case):
        self.ctx = ctx
        self.case = case
        spec = case['spec']
        self.spec = spec
        self.mspec = member(spec)
        self.mcls = build(self.mspec)
        self.is_list = spec['t'] == 'List'
        cls = build(dict(spec, of=[])).of(self.mcls)
        if case['wrap'] is None:
            self.top = self.el = cls()
            self.prefix = []
        else:
            import flatland
            outer = flatland.Dict.of(cls.named(u'wl'),
                                     flatland.String.named(u'other'))
            if case['wrap']:
                outer = outer.named(case['wrap'])
            self.top = outer()
            self.el = self.top[u'wl']
            self.prefix = [case['wrap']] if case['wrap'] else []
        self.model = []
        self.log = []

    def shadow(self, raw):
        e = self.mcls()
        ok = e.set(dec(raw))
        return e, ok

    def make(self, v):
        """-> (argument, entry, adapted)"""
        e, ok = self.shadow(v['v'])
        entry = Entry(None, snapshot(e, self.mspec), (e.value, e.u),
                      rank(e, self.mspec))
        if v['el']:
            entry.el = e
            return e, entry, ok
        return dec(v['v']), entry, ok

    def attempt(self, what, model_op, real_op):
        """Both must succeed with the same effect or fail alike."""
        before = list(self.model)
        self.log.append(what)
        try:
            want = model_op()
            failure = None
        except (IndexError, ValueError), exc:
            failure = type(exc)
            self.model[:] = before
        try:
            got = real_op()
        except SEQ_ERRORS, exc:
            if failure is None or not isinstance(exc, failure):
                self.ctx.fail(u'after %s: raised %s, want %s', self.log,
                              show(exc), show(failure or 'success'))
            self.ctx.label('failed:' + what[0])
            self.verify()
            return False, None, None
        if failure is not None:
            self.ctx.fail(u'after %s: succeeded, want %s', self.log,
                          show(failure))
        return True, want, got

    def step(self, op):
        ctx, el, model = self.ctx, self.el, self.model
        name, args = op[0], op[1:]
        result = None
        if name == 'append':
            arg, entry, _ = self.make(args[0])
            done = self.attempt(op, lambda: model.append(entry),
                                lambda: el.append(arg))
        elif name in ('extend', 'iadd'):
            made = [self.make(v) for v in args[0]]
            items = [m[0] for m in made]
            if name == 'extend' and args[1] == 'iter':
                items = iter(items)

            def real():
                if name == 'extend':
                    return el.extend(items)
                got = el
                got += items
                ctx.ok(got is el, u'+= made a new object after %s', self.log)
            done = self.attempt(op, lambda: model.extend(
                [m[1] for m in made]), real)
        elif name == 'insert':
            arg, entry, _ = self.make(args[1])
            done = self.attempt(op, lambda: model.insert(args[0], entry),
                                lambda: el.insert(args[0], arg))
        elif name == 'set':
            arg, entry, _ = self.make(args[1])
            done = self.attempt(
                op, lambda: model.__setitem__(args[0], entry),
                lambda: el.__setitem__(args[0], arg))
        elif name == 'setslice':
            a, b, c, vals = args
            made = [self.make(v) for v in vals]
            want = [m[1] for m in made]
            given = [m[0] for m in made]
            if c is None:
                def model_op():
                    model[a:b] = want

                def real_op():
                    if a is None and b is None:
                        el[:] = given
                    elif a is None:
                        el[:b] = given
                    elif b is None:
                        el[a:] = given
                    else:
                        el[a:b] = given
            else:
                # an extended slice may fail: elements would be re-parented
                given = [dec(v['v']) for v in vals]
                for m in want:
                    m.el = None

                def model_op():
                    model[a:b:c] = want

                def real_op():
                    el[a:b:c] = given
            done = self.attempt(op, model_op, real_op)
        elif name == 'reslice':
            # reorder a stretch of the sequence through slice assignment
            a, b = self.clamp(args[0]), args[1]

            def model_op():
                part = model[a:b]
                model[a:b] = part[::-1]

            def real_op():
                el[a:b] = [e for e in el[slice(a, b)]][::-1]
            done = self.attempt(op, model_op, real_op)
        elif name == 'del':
            done = self.attempt(op, lambda: model.__delitem__(args[0]),
                                lambda: el.__delitem__(args[0]))
        elif name == 'delslice':
            a, b, c = args
            if c is None:
                if not self.is_list:
                    a, b = self.clamp(a), self.clamp(b)

                def model_op():
                    del model[a:b]

                def real_op():
                    if a is None and b is None:
                        del el[:]
                    elif a is None:
                        del el[:b]
                    elif b is None:
                        del el[a:]
                    else:
                        del el[a:b]
            else:
                def model_op():
                    del model[a:b:c]

                def real_op():
                    del el[a:b:c]
            done = self.attempt(op, model_op, real_op)
        elif name == 'pop':
            if args[0] is None:
                done = self.attempt(op, lambda: model.pop(),
                                    lambda: el.pop())
            else:
                done = self.attempt(op, lambda: model.pop(args[0]),
                                    lambda: el.pop(args[0]))
            if done[0]:
                self.popped(done[1], done[2])
        elif name == 'popappend':
            done = self.attempt(op, lambda: model.pop(args[0]),
                                lambda: el.pop(args[0]))
            if done[0]:
                self.popped(done[1], done[2])
                el.append(done[2])
                model.append(done[1])
        elif name == 'remove':
            arg, entry, _ = self.make(args[0])
            done = self.attempt(op, lambda: model.remove(entry),
                                lambda: el.remove(arg))
        elif name == 'removeown':
            if not -len(model) <= args[0] < len(model):
                return False
            own, entry = el[args[0]], model[args[0]]
            done = self.attempt(op, lambda: model.remove(entry),
                                lambda: el.remove(own))
        elif name == 'reverse':
            done = self.attempt(op, lambda: model.reverse(),
                                lambda: el.reverse())
        elif name == 'sort':
            done = self.attempt(
                op, lambda: model.sort(key=lambda e: e.rank,
                                       reverse=args[0]),
                lambda: el.sort(key=lambda e: rank(e, self.mspec),
                                reverse=args[0]))
        elif name == 'assign':
            made = [self.make({'v': v['v'], 'el': False}) for v in args[0]]

            def model_op():
                model[:] = [m[1] for m in made]
                return all(m[2] for m in made)
            done = self.attempt(op, model_op,
                                lambda: el.set([m[0] for m in made]))
            if done[0]:
                ctx.ok(done[2] is done[1], u'set() returned %s, want %s: %s',
                       done[2], done[1], self.log)
        elif name == 'assignbad':
            def model_op():
                model[:] = []
            done = self.attempt(op, model_op, lambda: el.set(dec(args[0])))
            ctx.ok(done[2] is False, u'set(%s) returned %s', args[0], done[2])
        elif name == 'clear':
            def model_op():
                model[:] = []

            def real_op():
                del el[:]
            done = self.attempt(op, model_op, real_op)
        elif name in ('setu', 'setvalue'):
            value = dec(args[0])
            blank, entry, _ = self.make({'v': None, 'el': False})
            self.log.append(op)
            if not model:
                model.append(entry)
                text, native = u'', None
            else:
                text, native = el[0].u, el[0].value
            if name == 'setu':
                el.u = value
                text = value
            else:
                el.value = value
                native = value
            ctx.eq(len(el), len(model), u'length after %s' % show(self.log))
            ctx.eq((el[0].value, unicode(el[0].u)), (native, text),
                   u'first member after %s' % show(self.log))
            first = model[0]
            first.state = snapshot(el[0], self.mspec)
            first.key = (el[0].value, el[0].u)
            first.rank = rank(el[0], self.mspec)
            done = (True, None, None)
        else:
            raise HarnessFault('op %r' % name)
        if done[0]:
            self.verify()
            ctx.label(name)
        return done[0]

    def clamp(self, a):
        # (Jython mishandles simple slices of list subclasses that start
        # further left than the beginning)
        return None if a is not None and a < -len(self.model) else a

    def popped(self, entry, got):
        ctx = self.ctx
        if entry.el is not None:
            ctx.ok(got is entry.el, u'pop returned %s, want the element %s '
                   u'that was there: %s', got, entry.el, self.log)
        ctx.eq(snapshot(got, self.mspec), entry.state,
               u'popped element after %s' % show(self.log))
        if self.is_list:
            ctx.ok(got.parent is None and got.root is got,
                   u'popped element is still attached: %s', self.log)

    def verify(self):
        ctx, el, model, log = self.ctx, self.el, self.model, self.log
        n = len(model)
        ctx.ok(len(el) == n, u'%s members after %s, want %s',
               show(el), log, show([e.state for e in model]))
        items = [e for e in el]
        ctx.ok(len(items) == n, u'iteration disagrees with len after %s', log)
        for i, (entry, e) in enumerate(zip(model, items)):
            where = u'[%d] after %s' % (i, show(log))
            if entry.el is not None:
                ctx.ok(e is entry.el, u'%s is %s, not the element %s that '
                       u'belongs there', where, e, entry.el)
            entry.el = e
            ctx.eq(snapshot(e, self.mspec), entry.state, where)
            ctx.ok(type(e) is self.mcls, u'%s is %s', where, type(e))
            ctx.ok(el[i] is e and el[i - n] is e, u'indexing disagrees with '
                   u'iteration at %s', where)
            self.position(i, e, where)
        for bad in (n, -n - 1, n + 3):
            ctx.raises(IndexError, lambda: el[bad],
                       u'[%d] after %s' % (bad, show(log)))
        ctx.eq([id(e) for e in el.children], [id(e) for e in items],
               u'children after %s' % show(log))
        for a, b, c in self.case['slices']:
            if c is None:
                if not self.is_list:
                    a, b = self.clamp(a), self.clamp(b)
                if a is None and b is None:
                    got = el[:]
                elif a is None:
                    got = el[:b]
                elif b is None:
                    got = el[a:]
                else:
                    got = el[a:b]
            else:
                got = el[a:b:c]
            ctx.eq([id(e) for e in got], [id(e) for e in items[a:b:c]],
                   u'[%s:%s:%s] after %s' % (a, b, c, show(log)))
        if self.spec['t'] == 'MultiValue':
            ctx.ok(bool(el) is (n > 0), u'truth of %s after %s', el, log)
            if n:
                ctx.ok(same(el.value, items[0].value) and el.u == items[0].u,
                       u'value %s/%s is not that of the first member after '
                       u'%s', el.value, el.u, log)
            else:
                ctx.ok(el.value is None and el.u == u'',
                       u'value %s/%s without members', el.value, el.u)
        else:
            ctx.eq(el.value, [e.key[0] for e in model],
                   u'value after %s' % show(log))
        ctx.ok(el.is_empty is (n == 0), u'is_empty with %d members' % n)
        for probe in self.case['probes']:
            arg, entry, _ = self.make(probe)
            ctx.eq(arg in el, entry in model, u'%s in list after %s' % (
                show(arg), show(log)))
            ctx.eq(el.count(arg), model.count(entry), u'count(%s) after %s' %
                   (show(arg), show(log)))
            if entry in model:
                ctx.eq(el.index(arg), model.index(entry),
                       u'index(%s) after %s' % (show(arg), show(log)))
            else:
                ctx.raises(ValueError, lambda: el.index(arg),
                           u'index(%s) after %s' % (show(arg), show(log)))

    def position(self, i, e, where):
        from flatland.schema.base import Slot
        ctx, el = self.ctx, self.el
        names = self.prefix + ([el.name] if el.name is not None else [])
        holders = [p for p in e.parents if not isinstance(p, Slot)]
        ctx.ok(holders and holders[0] is el, u'the container of %s is %s',
               where, holders[:1])
        ctx.ok(e.root is self.top, u'the root of %s is %s', where, e.root)
        if self.is_list:
            names = names + [unicode(i)]
        if e.name is not None:
            names = names + [e.name]
        ctx.eq(e.flattened_name(), u'_'.join(names),
               u'flattened name of %s' % where)
        ctx.ok(el.el(unicode(i)) is e, u'el(%s) is not %s', unicode(i), where)
        ctx.ok(self.top.el(e.fq_name()) is e, u'fq_name %s is not that of %s',
               e.fq_name(), where)
        for sub in e.children:
            ctx.ok(list(sub.path)[0] is self.top and
                   any(p is e for p in sub.parents),
                   u'a part of %s has lost it', where)


def sequences(ctx, mode, case):
    seq = Seq(ctx, case)
    seq.step(['assign', [{'v': v, 'el': False} for v in case['start']]])
    most, count = 0, 0
    for op in case['ops']:
        if seq.step(op):
            count += 1
        most = max(most, len(seq.model))
    ctx.nt(count >= 3 and most >= 2)


# -- C09, C10 --------------------------------------------------------------

class Fields(object):
    """Model of a mapping: name -> stand-alone element with the same state."""

    def __init__(self, ctx, spec):
        self.ctx = ctx
        self.spec = spec
        self.sparse = spec['t'] == 'SparseDict'
        self.required = (spec['o'].get('minimum') == 'required'
                         if self.sparse else True)
        self.specs = dict((s['n'], s) for s in spec['of'])
        self.classes = dict((s['n'], build(s)) for s in spec['of'])
        import flatland
        cls = getattr(flatland, spec['t'])
        self.cls = cls.of(*[self.classes[s['n']] for s in spec['of']])
        if 'minimum' in spec['o']:
            self.cls = self.cls.using(minimum_fields=spec['o']['minimum'])
        if 'policy' in spec['o']:
            self.cls = self.cls.using(policy=spec['o']['policy'])
        if spec['n']:
            self.cls = self.cls.named(spec['n'])
        self.el = self.cls()
        self.model = {}
        self.ids = {}
        self.log = []
        self.reset()

    def optional(self, k):
        return bool(self.specs[k].get('o', {}).get('optional'))

    def reset(self):
        self.model = dict(
            (k, c()) for k, c in self.classes.items()
            if not self.sparse or (self.required and not self.optional(k)))
        self.ids = {}

    def put(self, k, v):
        if k not in self.model:
            self.model[k] = self.classes[k]()
        return self.model[k].set(v)

    def verify(self, what):
        ctx, el = self.ctx, self.el
        note = u'after %s' % show(self.log)
        keys = list(el.keys())
        ctx.ok(len(keys) == len(set(keys)) == len(el), u'keys %s len %s %s',
               keys, len(el), note)
        ctx.ok(set(keys) == set(self.model), u'keys %s, want %s %s',
               sorted(keys), sorted(self.model), note)
        for k, shadow in self.model.items():
            child = el[k]
            ctx.ok(type(child) is self.classes[k], u'%s is a %s %s', k,
                   type(child), note)
            ctx.ok(child.name == k, u'%s is named %s %s', k, child.name, note)
            ctx.ok(child.parent is el, u'parent of %s is %s %s', k,
                   child.parent, note)
            ctx.eq(snapshot(child, self.specs[k]),
                   snapshot(shadow, self.specs[k]), u'%s %s' % (k, note))
            if k in self.ids:
                ctx.ok(child is self.ids[k], u'%s was replaced %s', k, note)
            ctx.ok(k in el and el.get(k) is child, u'get/in of %s %s', k,
                   note)
        for k in self.classes:
            if k not in self.model:
                ctx.ok(k not in el, u'%s in it %s', k, note)
                ctx.raises(KeyError, lambda: el[k], u'%s %s' % (k, note))
        for k in (u'zz', u'A', u''):
            ctx.ok(k not in el, u'%s in it %s', k, note)
            ctx.raises(KeyError, lambda: el[k], u'%s %s' % (k, note))
        ctx.eq(el.value, dict((k, s.value) for k, s in self.model.items()),
               u'value %s' % note)
        ctx.eq(sorted(id(c) for c in el.children),
               sorted(id(el[k]) for k in el), u'children %s' % note)
        ctx.ok(el.is_empty is (self.sparse and not self.model),
               u'is_empty %s %s', el.is_empty, note)
        self.ids = dict((k, el[k]) for k in el)

    def forbidden(self, op, kinds, fn):
        self.log.append(op)
        self.ctx.raises(kinds, fn, u'%s after %s' % (op[0], show(self.log)))
        self.verify(op)
        self.ctx.label('refused:' + op[0])


def feed(form, pairs):
    pairs = [(k, dec(v)) for k, v in pairs]
    if form == 'dict':
        return dict(pairs)
    if form == 'iter':
        return iter(pairs)
    if form == 'tuple':
        return tuple(pairs)
    return pairs


def mappings(ctx, mode, case):
    m = Fields(ctx, case['spec'])
    el = m.el
    m.verify('new')
    changes = 0
    for op in case['ops']:
        name, k, v = op
        known = name != 'updateboth' and k in m.classes
        el = m.el
        if name == 'setitem':
            value = dec(v)
            if not known:
                m.forbidden(op, TypeError,
                            lambda: el.__setitem__(k, value))
                continue
            m.log.append(op)
            el[k] = value
            m.put(k, value)
            changes += 1
        elif name == 'setel':
            if not m.sparse or not known:
                continue
            m.log.append(op)
            child = m.classes[k]()
            child.set(dec(v))
            el[k] = child
            m.put(k, dec(v))
            m.ids[k] = child
            changes += 1
        elif name == 'setforeign':
            # an element as the value: a value like any other to a Dict, and
            # to a SparseDict too unless it is of the field's schema
            import flatland
            if not known:
                continue
            give, take = [flatland.String.named(k)(u'5') for _ in 'ab']
            m.log.append(op)
            if not m.sparse and len(m.log) % 2:
                give, take = m.classes[k](), m.classes[k]()
                give.set(dec(v))
                take.set(dec(v))
            elif isinstance(give, m.classes[k]):
                continue
            if k not in m.model:
                m.log.pop()
                continue
            try:
                m.put(k, take)
            except Exception, exc:
                ctx.raises(type(exc), lambda: el.__setitem__(k, give),
                           u'after %s' % show(m.log))
                continue
            el[k] = give
            ctx.ok(el[k] is not give, u'a foreign element was adopted: %s',
                   m.log)
            changes += 1
        elif name == 'updateboth':
            (form, pairs), over = k, v
            seen = [p for p, _ in pairs]
            if set(seen) | set(p for p, _ in over) <= set(m.classes):
                if len(set(seen)) < len(seen) and form == 'dict':
                    form = 'pairs'
                m.log.append(op)
                el.update(feed(form, pairs),
                          **dict((str(p), dec(x)) for p, x in over))
                # the keywords come last
                for p, x in pairs + over:
                    m.put(p, dec(x))
                changes += 1
            else:
                continue
        elif name in ('update', 'updatekw', 'set'):
            form, pairs = op[1], op[2]
            seen = [p for p, _ in pairs]
            bad = [p for p in seen if p not in m.classes]
            if len(set(seen)) < len(seen) or bad:
                form = 'pairs' if form != 'iter' else 'iter'
            if name == 'updatekw':
                if bad or len(set(seen)) < len(seen):
                    continue
                m.log.append(op)
                el.update(**dict((str(p), dec(x)) for p, x in pairs))
            elif name == 'update':
                m.log.append(op)
                if bad:
                    ctx.raises(TypeError, lambda: el.update(feed(form, pairs)),
                               u'update after %s' % show(m.log))
                    # what came before has been set, what came after has not
                    at = [p in m.classes for p in seen].index(False)
                    pairs = pairs[:at]
                else:
                    el.update(feed(form, pairs))
            else:
                if bad:
                    # a refused set may leave the fields blank, no more
                    m.log.append(op)
                    ctx.raises(KeyError, lambda: el.set(feed(form, pairs)),
                               u'set after %s' % show(m.log))
                    at = [p in m.classes for p in seen].index(False)
                    ctx.ok(set(el.keys()) <= set(m.classes) and
                           (m.sparse or set(el.keys()) == set(m.classes)),
                           u'keys %s after %s', el.keys(), m.log)
                    el.set([])
                    m.reset()
                    m.verify(op)
                    continue
                m.log.append(op)
                m.reset()
                value = feed(form, pairs)
                res = el.set(value)
                want = True
                for p, x in pairs:
                    want &= m.put(p, dec(x))
                ctx.ok(res is want, u'set returned %s, want %s: %s', res,
                       want, m.log)
                ctx.ok(el.raw is value, u'raw is %s', el.raw)
                m.verify(op)
                changes += 1
                continue
            for p, x in pairs:
                m.put(p, dec(x))
            changes += 1 if pairs else 0
        elif name in ('del', 'pop'):
            if name == 'del':
                act = lambda: el.__delitem__(k)
            else:
                act = lambda: el.pop(k)
            if not m.sparse:
                m.forbidden(op, TypeError if known else KeyError, act)
                continue
            if k not in m.model:
                if known and (not m.required or m.optional(k) or
                              name == 'pop'):
                    kinds = KeyError
                else:
                    kinds = (TypeError, KeyError)
                m.forbidden(op, kinds, act)
                continue
            if m.required and not m.optional(k):
                m.forbidden(op, TypeError, act)
                continue
            m.log.append(op)
            child = el[k]
            got = act()
            if name == 'pop':
                ctx.ok(got is child, u'pop returned %s: %s', got, m.log)
            del m.model[k]
            m.ids.pop(k, None)
            changes += 1
        elif name == 'popitem':
            m.forbidden(op, (TypeError, NotImplementedError),
                        lambda: el.popitem())
            continue
        elif name == 'clear':
            if not m.sparse:
                m.forbidden(op, TypeError, lambda: el.clear())
                continue
            m.log.append(op)
            el.clear()
            m.reset()
            changes += 1
        elif name == 'setdefault':
            value = dec(v)
            if not m.sparse or not known:
                m.forbidden(op, TypeError, lambda: el.setdefault(k, value))
                continue
            if k in m.model and m.model[k].is_empty:
                continue
            m.log.append(op)
            if k in m.model:
                want = m.model[k].value
                got = el.setdefault(k, value)
                ctx.eq(got, want, u'setdefault after %s' % show(m.log))
            else:
                el.setdefault(k, value)
                m.put(k, value)
                changes += 1
        elif name == 'get':
            if known:
                continue
            m.forbidden(op, KeyError, lambda: el.get(k))
            continue
        elif name == 'in':
            ctx.ok(el.may_contain(k) is known or
                   (not m.sparse and el.may_contain(k) is (k in m.model)),
                   u'may_contain(%s) is %s', k, el.may_contain(k))
            continue
        elif name == 'set_default':
            m.log.append(op)
            if m.sparse:
                el.set_default()
                m.reset()
                if m.required:
                    for key in list(m.model):
                        m.model[key].set_default()
            else:
                el.set_default()
                for key in m.model:
                    m.model[key].set_default()
            changes += 1
        else:
            raise HarnessFault('op %r' % name)
        m.verify(op)
        ctx.label(name)
    ctx.nt(changes >= 2)


# -- C11 -------------------------------------------------------------------

class Keyed(object):
    def __init__(self, pairs):
        self.pairs = pairs

    def keys(self):
        return [k for k, v in self.pairs]

    def __getitem__(self, key):
        return dict(self.pairs)[key]


def policies(ctx, mode, case):
    import collections
    import flatland
    spec = case['spec']
    m = Fields(ctx, dict(spec, t='Dict' if spec['t'] == 'Form'
                         else spec['t']))
    if spec['t'] == 'Form':
        body = dict((str(k), c) for k, c in m.classes.items())
        if 'policy' in spec['o']:
            body['policy'] = spec['o']['policy']
        form = type(flatland.Form)('AForm', (flatland.Form,), body)
        m.cls = form
        m.classes = dict((f.name, f) for f in form.field_schema)
        m.el = form()
    el = m.el
    m.verify('new')
    for given in case['sets']:
        pairs = given['pairs']
        keys = [k for k, v in pairs]
        form = given['form']
        values = [(k, dec(v)) for k, v in pairs]
        if form in ('dict', 'keys', 'namedtuple', 'element'):
            values = dict(values).items()
            last = {}
            for k, v in pairs:
                last[k] = v
            pairs = sorted(last.items())
        if form == 'dict':
            arg = dict(values)
        elif form == 'iter':
            arg = iter(values)
        elif form == 'tuple':
            arg = tuple(values)
        elif form == 'keys':
            arg = Keyed(values)
        elif form == 'namedtuple' and values:
            names = sorted(k for k, v in values)
            arg = collections.namedtuple(
                'NT', [str(n) for n in names])(
                    *[dict(values)[n] for n in names])
        elif form == 'element':
            arg = dict(values)
        else:
            arg = list(values)
        rule = given['policy']
        effective = rule or spec['o'].get('policy', 'subset')
        what = u'set(%s, policy=%s) on policy %s' % (
            show(pairs), rule, spec['o'].get('policy'))
        m.log.append(what)
        unknown = [k for k in keys if k not in m.classes]
        missing = [k for k in m.classes if k not in keys]

        def act():
            if rule is None:
                return el.set(arg)
            return el.set(arg, policy=rule)
        if rule in ('bogus', '', 'Duck'):
            ctx.raises((AssertionError, TypeError, ValueError), act, what)
            refused = True
        elif unknown and effective != 'duck':
            ctx.raises((KeyError, TypeError), act, what)
            refused = True
            ctx.label('unknown:' + effective)
            ctx.nt()
        elif missing and effective == 'strict':
            ctx.raises(TypeError, act, what)
            refused = True
            ctx.label('missing:strict')
            ctx.nt()
        else:
            res = act()
            refused = False
            m.reset()
            want = True
            for k, v in pairs:
                if k in m.classes:
                    want &= bool(m.put(k, dec(v)))
            ctx.ok(res is want, u'%s returned %s, want %s', what, res, want)
            m.verify(what)
            ctx.ok(el.raw is arg, u'raw after %s', what)
            ctx.label('accepted:%s%s%s' % (
                effective, ':unknown' if unknown else '',
                ':missing' if missing else ''))
            ctx.nt(bool(unknown) or not missing)
        if refused:
            ctx.ok(set(el.keys()) <= set(m.classes), u'keys %s after %s',
                   el.keys(), what)
            # the element stays usable
            el.set([(k, c().value if not isinstance(c(), list) else [])
                    for k, c in m.classes.items()
                    if not isinstance(c(), dict)] +
                   [(k, {}) for k, c in m.classes.items()
                    if isinstance(c(), dict)])
            m.reset()
            for k, c in m.classes.items():
                m.put(k, {} if isinstance(c(), dict) else
                      [] if isinstance(c(), list) else None)
            m.verify(what)


# -- C12 -------------------------------------------------------------------

def expect_set(spec, raw, count):
    """-> (ok, snapshot) of a new element of spec set to raw."""
    k = kind(spec)
    if k in ('scalar', 'joined', 'date'):
        el = build(spec)()
        ok = el.set(dec(raw))
        count.append((spec['t'], None if k == 'joined' and el.u == u''
                      else el.value, ok))
        return ok, snapshot(el, spec)
    if k in ('list', 'array'):
        got = [expect_set(member(spec), v, count) for v in raw['l']]
        return all(g[0] for g in got), ('l', [g[1] for g in got])
    given = dict((n, v) for n, v in raw['m'])
    fields, ok = {}, True
    for s in spec['of']:
        if s['n'] in given:
            o, snap = expect_set(s, given[s['n']], count)
            ok = ok and o
            fields[s['n']] = snap
        elif k == 'dict' or (spec['o'].get('minimum') == 'required' and
                             not s['o'].get('optional')):
            count.append((s['t'], None, None))
            fields[s['n']] = snapshot(build(s)(), s)
    return ok, ('m', fields)


def snap_value(snap, spec):
    k = kind(spec)
    if k in ('scalar', 'date'):
        return snap[2]
    if k == 'joined':
        return snap[1]
    if k in ('list', 'array'):
        vals = [snap_value(s, member(spec)) for s in snap[1]]
        if spec['t'] == 'MultiValue':
            return vals[0] if vals else None
        return vals
    fields = dict((s['n'], s) for s in spec['of'])
    return dict((n, snap_value(s, fields[n])) for n, s in snap[1].items())


def has(spec, t):
    return spec['t'] == t or any(has(s, t) for s in spec.get('of', ()))


def reform(raw, spec, form):
    """The same structure out of other Python types."""
    k = kind(spec)
    if k in ('list', 'array'):
        items = [reform(v, member(spec), form) for v in raw['l']]
        if form == 'tuple':
            return tuple(items)
        if form == 'iter':
            return iter(items)
        return items
    if k in ('dict', 'sparse'):
        fields = dict((s['n'], s) for s in spec['of'])
        pairs = [(n, reform(v, fields[n], form)) for n, v in raw['m']]
        if form == 'tuple':
            return tuple(pairs)
        if form == 'iter':
            return iter(pairs)
        return dict(pairs)
    return dec(raw)


def c12(ctx, mode, case):
    spec = case['spec']
    cls = build(spec)
    k = kind(spec)
    el = cls()
    if isinstance(case['before'], dict) and k not in ('date', 'joined'):
        el.set(dec(case['before']))
    count = []
    ok, want = expect_set(spec, case['value'], count)
    arg = reform(case['value'], spec, case['form'])
    res = el.set(arg)
    what = u'set(%s)' % show(case['value'])
    ctx.ok(res is ok, u'%s returned %s, want %s', what, res, ok)
    ctx.eq(snapshot(el, spec), want, what)
    ctx.eq(el.value, snap_value(want, spec), u'value after %s' % what)
    ctx.ok(el.raw is arg, u'raw after %s is %s', what, el.raw)
    if k in ('list', 'array', 'sparse'):
        ctx.ok(el.is_empty is (len(want[1]) == 0), u'is_empty after %s', what)
    ctx.nt(len(count) >= 3)
    # a new element of the same schema takes the value
    if not has(spec, 'MultiValue') and all(
            ok_ and (v is not None or
                     t not in ('Boolean', 'Enum', 'JoinedString'))
            for t, v, ok_ in count):
        again = cls()
        ctx.ok(again.set(el.value) is True, u'value %s was refused', el.value)
        ctx.eq(again.value, el.value, u'value set to itself')
        if not has(spec, 'Decimal') and not has(spec, 'Float') and \
                not has(spec, 'DateTime') and not has(spec, 'Date'):
            if not has(spec, 'JoinedString') and not has(
                    spec, 'DateYYYYMMDD') and all(
                        v is not None for t, v, ok_ in count):
                ctx.eq(snapshot(again, spec), want, u'state after value')
        ctx.label('value-again')
    else:
        ctx.label('partial')
    made = cls(reform(case['value'], spec, 'plain'))
    ctx.eq(snapshot(made, spec), want, u'constructor, %s' % what)
    if k in ('list', 'array') and spec['t'] != 'JoinedString':
        bad = dec(case['bad'])
        ctx.ok(el.set(bad) is False, u'set(%s) on a sequence', bad)
        ctx.ok(len(el) == 0, u'%s members after set(%s)', len(el), bad)
        ctx.label('bad')


# -- C37 -------------------------------------------------------------------

NONE = object()


class Defaults(object):
    def __init__(self, ctx):
        self.ctx = ctx
        self.given = []         # (object handed out, pristine copy)
        self.calls = []
        self.hits = 0

    def build(self, spec):
        """Like lib.build, with factories that are watched."""
        import flatland
        o = dict(spec.get('o') or {})
        default = o.pop('default', NONE)
        factory = o.pop('factory', NONE)
        bare = dict(spec, o=o)
        subs = [self.build(s) for s in spec.get('of', ())] \
            if spec['t'] != 'Enum' else []
        if subs:
            cls = build(dict(bare, of=[]) if spec['t'] in (
                'List', 'Array', 'MultiValue', 'JoinedString', 'Dict',
                'SparseDict') else bare)
            cls = cls.of(*subs)
        else:
            cls = build(bare)
        if default is not NONE:
            value = dec(default)
            self.given.append((value, dec(default)))
            cls = cls.using(default=value)
        if factory is not NONE:
            made = dec(factory)
            self.given.append((made, dec(factory)))
            calls = self.calls

            def produce(element):
                calls.append(element)
                return made
            cls = cls.using(default_factory=produce)
        return cls

    def own(self, spec):
        o = spec.get('o') or {}
        if 'factory' in o:
            return o['factory']
        return o.get('default')

    def after(self, spec, cls, snap):
        """The snapshot after set_default on an element with this one."""
        k = kind(spec)
        raw = self.own(spec)
        value = None if raw is None else dec(raw)
        if value is not None:
            self.hits += 1
        if k in ('scalar',):
            el = build(strip(spec))()
            el.set(value)
            return snapshot(el, spec)
        if k == 'joined':
            if value is None:
                return snap
            el = build(strip(spec))()
            el.set(value)
            return snapshot(el, spec)
        if k == 'array':
            if value is None:
                return snap
            return ('l', [self.leaf(member(spec), v) for v in raw['l']])
        if k == 'list':
            if value is None:
                return snap
            if isinstance(value, (int, long)):
                m = member(spec)
                if len(spec['of']) > 1:
                    m = dict(m, o={})
                return ('l', [self.after(m, None, self.blank(m))
                              for _ in range(value)])
            return expect_set(strip(spec), raw, [])[1]
        if k == 'date':
            if value is None:
                el = build(strip(spec))()
                return snapshot(el, spec)
            el = build(strip(spec))()
            el.set(value)
            return snapshot(el, spec)
        if value is not None:
            return expect_set(strip(spec), raw, [])[1]
        if k == 'dict':
            return ('m', dict((s['n'], self.after(s, None,
                                                  snap[1][s['n']]))
                              for s in spec['of']))
        # sparse
        out = {}
        if spec['o'].get('minimum') == 'required':
            for s in spec['of']:
                if not s['o'].get('optional'):
                    out[s['n']] = self.after(s, None, self.blank(s))
        return ('m', out)

    def leaf(self, spec, raw):
        el = build(strip(spec))()
        el.set(dec(raw))
        return snapshot(el, spec)

    def blank(self, spec):
        return snapshot(build(strip(spec))(), spec)


def strip(spec):
    o = dict(spec.get('o') or {})
    o.pop('default', None)
    o.pop('factory', None)
    out = dict(spec, o=o)
    if spec.get('of'):
        out['of'] = [strip(s) for s in spec['of']]
    return out


def c37(ctx, mode, case):
    spec = case['spec']
    d = Defaults(ctx)
    cls = d.build(spec)
    bare = strip(spec)
    el = cls()
    # construction alone applies nothing
    ctx.eq(snapshot(el, spec), snapshot(build(bare)(), spec),
           u'a new element')
    ctx.ok(not d.calls, u'a factory was called by construction')
    if case['before'] is not None:
        el.set(dec(case['before']['v']))
        ctx.label('populated')
    want = d.after(spec, cls, snapshot(el, spec))
    el.set_default()
    ctx.eq(snapshot(el, spec), want, u'after set_default on %s' % show(
        case['before']))
    seen = [id(e) for e in d.calls]
    for e in d.calls:
        ctx.ok(hasattr(e, 'set_default'), u'a factory was called with %s', e)
    ctx.ok(len(seen) == len(set(seen)), u'a factory was called twice for one '
           u'element: %s', d.calls)
    if (spec.get('o') or {}).get('factory') is not None:
        ctx.ok(d.calls and d.calls[0] is el, u'the factory of the root was '
               u'called with %s', d.calls[:1])
    # the same again
    el.set_default()
    again = d.after(spec, cls, want)
    ctx.eq(again, want, u'(model)')
    ctx.eq(snapshot(el, spec), want, u'after a second set_default')
    fresh = cls.from_defaults()
    ctx.eq(snapshot(fresh, spec), d.after(spec, cls, d.blank(spec)),
           u'from_defaults')
    # changing the element leaves the declared defaults alone
    disturb(el)
    disturb(fresh)
    for value, pristine in d.given:
        ctx.eq(value, pristine, u'a declared default changed')
    other = cls()
    other.set_default()
    ctx.eq(snapshot(other, spec), d.after(spec, cls, d.blank(spec)),
           u'a later element')
    ctx.nt(d.hits > 0)


def disturb(el):
    for child in list(el.children):
        disturb(child)
    if isinstance(el, list):
        del el[:]
    elif not isinstance(el, dict):
        el.set(u'disturbed')


# -- C38 -------------------------------------------------------------------

def c38(ctx, mode, case):
    if mode == 'escape':
        return escape(ctx, case['text'])
    import flatland
    els, snaps = [], []
    for state in case['states']:
        spec = state['spec']
        el = build(spec)()
        value = state['value']
        if isinstance(value, dict) and 'text' in value:
            value = els[0].u
            if kind(spec) in ('scalar', 'joined'):
                el.set(value)
        else:
            fits = (isinstance(value, dict) and
                    ('m' in value) == (kind(spec) in ('dict', 'sparse')))
            if kind(spec) in ('dict', 'sparse'):
                names = set(s['n'] for s in spec['of'])
                if fits and set(n for n, v in value['m']) <= names:
                    try:
                        el.set(dec(value))
                    except (KeyError, TypeError, ValueError):
                        el = build(spec)()
            else:
                try:
                    el.set(dec(value))
                except (KeyError, TypeError, ValueError):
                    el = build(spec)()
        if state['flat']:
            el.set_flat(el.flatten())
        els.append(el)
        empties(ctx, el, spec)
    a, b = els
    if case['poke'] and kind(case['states'][1]['spec']) == 'scalar':
        attr, text = case['poke']
        setattr(b, attr, text)
        empties(ctx, b, case['states'][1]['spec'])
    want = bool(a.value == b.value) and bool(a.u == b.u)
    for x, y in ((a, b), (b, a)):
        ctx.ok((x == y) is want, u'%s == %s is %s (values %s %s, texts %s %s)',
               x, y, x == y, x.value, y.value, x.u, y.u)
        ctx.ok((x != y) is (not want), u'%s != %s is %s', x, y, x != y)
    for x in els:
        if x.value == x.value:
            ctx.ok((x == x) is True, u'%s is not equal to itself', x)
        for foreign in (5, u'a', None, object(), x.u):
            ctx.ok((x == foreign) is False and (x != foreign) is True,
                   u'%s compared with %s', x, foreign)
        ctx.raises(TypeError, lambda: hash(x), u'hash of %s' % show(x))
        unescapes(ctx, x)
    ctx.label('equal' if want else 'unequal')
    if type(a).__mro__[1:] != type(b).__mro__[1:]:
        ctx.label('cross-type' + (':equal' if want else ''))
    ctx.nt(want or a.u == b.u or bool(a.value == b.value))


def empties(ctx, el, spec):
    k = kind(spec)
    if k == 'scalar':
        none = el.value is None or (spec['t'] == 'String' and el.value == u'')
        want = none and el.u == u''
        ctx.ok(bool(el) is bool(el.u and el.value), u'truth of %s/%s is %s',
               el.value, el.u, bool(el))
    elif k in ('list', 'array', 'joined'):
        want = len(list(el)) == 0
    elif k == 'dict':
        want = False
    elif k == 'sparse':
        want = len(list(el.keys())) == 0
    else:
        want = all(c.value is None and c.u == u'' for c in el.children)
    ctx.ok(el.is_empty is want, u'is_empty of %s (%s/%s) is %s',
           el, el.value, el.u, el.is_empty)
    if k in ('list', 'array', 'dict', 'sparse', 'joined'):
        specs = dict((s['n'], s) for s in spec.get('of', ()))
        if k in ('dict', 'sparse'):
            for n in el.keys():
                empties(ctx, el[n], specs[n])
        elif k != 'joined':
            for c in el:
                empties(ctx, c, member(spec))


ENTITIES = [(u'&lt;', u'<'), (u'&gt;', u'>'), (u'&quot;', u'"'),
            (u'&#10;', u'\n'), (u'&#13;', u'\r'), (u'&#9;', u'\t'),
            (u'&#39;', u"'"), (u'&apos;', u"'"), (u'&amp;', u'&')]


def unescape(ctx, text, what):
    out, i = u'', 0
    while i < len(text):
        c = text[i]
        ctx.ok(c not in u'<>', u'%s contains markup', what)
        if c == u'&':
            for entity, char in ENTITIES:
                if text[i:i + len(entity)] == entity:
                    out += char
                    i += len(entity)
                    break
            else:
                ctx.fail(u'%s contains a bare ampersand', what)
            continue
        out += c
        i += 1
    return out


def unescapes(ctx, el):
    text = unicode(el.u)
    ctx.eq(unescape(ctx, el.x, u'x of %s: %s' % (show(text), show(el.x))),
           text, u'x of %s unescaped' % show(text))
    ctx.ok(u'"' not in el.xa, u'xa of %s: %s', text, el.xa)
    ctx.eq(unescape(ctx, el.xa, u'xa of %s: %s' % (show(text), show(el.xa))),
           text, u'xa of %s unescaped' % show(text))


def escape(ctx, text):
    import flatland
    el = flatland.String.using(strip=False)(text)
    unescapes(ctx, el)
    other = flatland.Integer(text + u'x')
    unescapes(ctx, other)
    ctx.nt(any(c in text for c in u'<>&"\n\r\t'))


CHECKS = {'C07': sequences, 'C08': sequences, 'C09': mappings,
          'C10': mappings, 'C11': policies, 'C12': c12, 'C37': c37,
          'C38': c38}
