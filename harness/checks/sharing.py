# -*- coding: utf-8 -*-
"""C40, C41: elements sharing schemas and threads; user code that fails."""
import ast
import imp
import os
import sys
import threading

from lib import build, dec, kind, show, walk, HarnessFault, Violation
from checks.tree import (instances, map_op, seq_op, structure, breadth_first,
                         REFUSALS)


# -- user code, the same wherever it is used ---------------------------------

def short(element, state):
    if len(element.u) > 2:
        element.add_error(u'too long: %s' % element.u)
        return False
    return True


def even(element, state):
    count = len(list(element.children)) or len(element.u)
    if count % 2:
        element.add_error(u'odd: %d' % count)
    return count % 2 == 0


def note(element, state):
    element.add_error(u'seen')
    return True


def warn(element, state):
    element.add_warning(u'seen')
    return bool(element.u)


CHECKERS = {'short': short, 'even': even, 'note': note, 'warn': warn}


def flat_value(spec, value):
    """Pairs for set_flat out of a structured value."""
    el = build(spec)()
    el.set(dec(value))
    return list(el.flatten())


# -- digests -----------------------------------------------------------------

def plain(value):
    if isinstance(value, (list, tuple)):
        return [plain(v) for v in value]
    if isinstance(value, dict):
        return sorted((plain(k), plain(v)) for k, v in value.items())
    return show(value)


def raw_of(el):
    raw = getattr(el, 'raw', None)
    if hasattr(raw, '__iter__') and not isinstance(raw, (list, tuple, dict)):
        return type(raw).__name__
    return plain(raw)


def one(el):
    return (type(el).__mro__[-2].__name__, el.name, el.fq_name(), el.u,
            plain(el.value), raw_of(el), show(el.valid), list(el.errors),
            list(el.warnings), sorted(el.properties.items()),
            el.label, el.optional, plain(getattr(el, 'default', None)),
            [getattr(v, '__name__', show(v)) for v in el.validators],
            show(el.is_empty))


def digest(el):
    return [one(e) for e in walk(el)] + [plain(list(el.flatten()))]


# -- programs ----------------------------------------------------------------

def shared_schema(spec, counts=None, hook=None):
    def deco(cls, s):
        o = s.get('o') or {}
        if counts is not None and s['t'] == 'DateYYYYMMDD':
            cls = counted(cls, counts)
        if o.get('props'):
            cls = cls.with_properties(*[dict(o['props'])])
        if o.get('check'):
            fns = [CHECKERS[o['check']]]
            if hook is not None:
                fns.insert(0, hook)
            cls = cls.using(validators=fns)
        return cls
    return build(spec, deco)


def counted(cls, counts):
    def __compound_init__(kls):
        counts.append(kls)
        return super(sub, kls).__compound_init__()
    sub = type(cls)('Counted', (cls,), {
        '__compound_init__': classmethod(__compound_init__)})
    return sub


def undisturbed(fn, *args):
    """Call fn without handing over to other threads."""
    line = getattr(Yielding.local, 'line', None)
    Yielding.local.line = None
    try:
        return fn(*args)
    finally:
        Yielding.local.line = line


class Program(object):
    """Runs the steps of a case's program, keeping a trail of digests."""

    def __init__(self, schema, spec, prog, common=None):
        self.schema = schema
        # a list of validators every program constructs its element with
        self.common = [note] if common is None else common
        self.spec = spec
        self.prog = prog
        self.at = -1
        self.trail = []
        self.stashes = {}
        self.busy = False

    def done(self):
        return self.at >= len(self.prog['steps'])

    def step(self):
        self.busy = True
        try:
            what = None
            try:
                if self.at < 0:
                    self.make()
                else:
                    what = self.act(self.prog['steps'][self.at])
            except Violation:
                raise
            except Exception, exc:
                what = 'raised %s' % type(exc).__name__
                if self.at < 0:
                    self.el = self.schema()
            self.trail.append([what, undisturbed(digest, self.el)])
        finally:
            self.at += 1
            self.busy = False

    def make(self):
        how, value = self.prog['make'], self.prog['value']
        if how == 'bare':
            self.el = self.schema()
        elif how == 'value':
            self.el = self.schema(dec(value))
        elif how == 'kw':
            self.el = self.schema(dec(value), label=u'mine',
                                  validators=self.common)
        elif how == 'defaults':
            self.el = self.schema.from_defaults()
        else:
            self.el = self.schema.from_flat(flat_value(self.spec, value))

    def act(self, step):
        from flatland.out.markup import Generator
        k = step['k']
        nodes = list(walk(self.el))
        node = nodes[step['pick'] % len(nodes)]
        if k == 'op':
            op = step['op']
            if op['op'] == 'flat':
                self.el.set_flat(self.el.flatten())
                return None
            found = instances(self.el, self.spec, op['at'])
            if not found:
                return None
            target, tspec = found[op['pick'] % len(found)]
            stash = self.stashes.setdefault(
                (tuple(op['at']), op.get('key')), [])
            run = seq_op if kind(tspec) in ('list', 'array', 'joined') else \
                map_op
            run(target, tspec, op, stash)
        elif k == 'validate':
            return bool(self.el.validate())
        elif k == 'note':
            if step['warn']:
                node.add_warning(step['text'])
            else:
                node.add_error(step['text'])
        elif k == 'prop':
            node.properties[step['key']] = step['value']
        elif k == 'unprop':
            del node.properties[step['key']]
        elif k == 'attr':
            a, v = step['attr'], step['value']
            if a == 'optional':
                node.optional = not node.optional
            elif a == 'validators' and node is self.el and \
                    self.prog['make'] == 'kw':
                # its own list, made from the one it was given
                node.validators.append(even)
            elif a == 'validators':
                node.validators = list(node.validators) + [note]
            elif a == 'valid':
                node.all_valid = len(v) == 1
            elif a == 'default':
                node.default = None
            else:
                setattr(node, a, v)
        elif k == 'find':
            names = undisturbed(lambda: [n.fq_name() for n in nodes])
            return [[e is n for e in self.el.find(name)]
                    for n, name in zip(nodes, names)] + [
                        undisturbed(lambda found: [e.fq_name() for e in found],
                                    node.find(path, strict=False))
                        for path in (u'.', u'[:]', u'/[:]', u'[:]/[:]',
                                     u'../[:]')]
        elif k == 'render':
            gen = Generator(u'xhtml', auto_domid=True, auto_for=True)
            return [unicode(gen.input(node, type=u'text')),
                    unicode(gen.textarea(node)), unicode(gen.label(node))]
        elif k == 'mutate':
            value = node.value
            if isinstance(value, list):
                value.append(u'extra')
                value[:1] = []
            elif isinstance(value, dict):
                value.clear()
            pairs = node.flatten()
            if isinstance(pairs, list):
                del pairs[:]
            kids = list(node.children)
            del kids[:]
        elif k == 'flat':
            self.el.set_flat(flat_value(self.spec, step['value']))
        elif k == 'set':
            return bool(self.el.set(dec(step['value'])))
        elif k == 'default':
            self.el.set_default()
        else:
            raise HarnessFault('step %s' % k)


def alone(spec, prog):
    p = Program(shared_schema(spec), spec, prog)
    while not p.done():
        p.step()
    return p.trail


def newcomers(schema):
    return [digest(schema()), digest(schema.from_defaults()),
            sorted(dict(schema.properties).items()), show(schema.optional),
            [getattr(v, '__name__', show(v)) for v in schema.validators]]


def compare(ctx, spec, progs, want, what):
    for n, p in enumerate(progs):
        for i, (got, expect) in enumerate(zip(p.trail, want[n])):
            if got != expect:
                ctx.fail(u'%s: program %d differs from a run alone after step '
                         u'%d: %s, alone %s', what, n, i - 1,
                         difference(got, expect), difference(expect, got))
        ctx.ok(len(p.trail) == len(want[n]), u'%s: program %d', what, n)


def difference(a, b):
    if a[0] != b[0]:
        return a[0]
    return [x for i, x in enumerate(a[1])
            if i >= len(b[1]) or x != b[1][i]][:2] or len(a[1])


def c40(ctx, mode, case):
    spec = case['spec']
    want = [alone(spec, p) for p in case['progs']]
    fresh = newcomers(shared_schema(spec))
    if mode == 'woven':
        weave(ctx, case, spec, want, fresh)
    else:
        with yielding():
            threads(ctx, case, spec, want, fresh)


def weave(ctx, case, spec, want, fresh):
    progs, order = [], list(case['order'])

    def hook(element, state):
        # user code that works with other elements of the schema meanwhile
        if order and case['nested']:
            p = progs[order.pop(0) % len(progs)]
            if not p.busy and not p.done():
                ctx.label('re-entered')
                p.step()
        return True

    def hooked(schema_hook):
        return shared_schema(spec, hook=schema_hook)
    if case['nested']:
        quiet = lambda element, state: True
        quiet.__name__ = hook.__name__
        want = []
        for prog in case['progs']:
            p = Program(hooked(quiet), spec, prog)
            while not p.done():
                p.step()
            want.append(p.trail)
        fresh = newcomers(hooked(quiet))
        schema = hooked(hook)
    else:
        schema = shared_schema(spec)
    common = [note]
    progs.extend(Program(schema, spec, p, common) for p in case['progs'])
    turns = []
    while order:
        n = order.pop(0) % len(progs)
        if not progs[n].done():
            progs[n].step()
            turns.append(n)
    for n, p in enumerate(progs):
        while not p.done():
            p.step()
            turns.append(n)
    compare(ctx, spec, progs, want, u'woven %s' % turns)
    ctx.ok(newcomers(schema) == fresh,
           u'woven %s: a new element of the schema is %s, want %s', turns,
           newcomers(schema), fresh)
    for n, p in enumerate(progs):
        ctx.ok(digest(p.el) == p.trail[-1][1],
               u'woven %s: element %d changed behind its back', turns, n)
    back = [a for a, b, c in zip(turns, turns[1:], turns[2:])
            if a == c and a != b]
    ctx.nt(bool(back) or 're-entered' in ctx.labels)


# -- threads, switched between statements -------------------------------------

class Yielding(object):
    """A second copy of flatland whose functions offer to hand over to another
    thread before each statement.  (Jython calls trace functions under a global
    lock, so they can not do it.)"""

    modules = None
    local = threading.local()

    def __init__(self, home):
        self.home = home

    def find_module(self, name, path=None):
        if name.split('.')[0] == 'flatland' and self.where(name):
            return self

    def where(self, name):
        base = os.path.join(self.home, *name.split('.')[1:])
        for path in (os.path.join(base, '__init__.py'), base + '.py'):
            if os.path.isfile(path):
                return path

    def load_module(self, name):
        if name in sys.modules:
            return sys.modules[name]
        path = self.where(name)
        mod = imp.new_module(name)
        mod.__file__ = path
        mod.__loader__ = self
        if path.endswith('__init__.py'):
            mod.__path__ = [os.path.dirname(path)]
            mod.__package__ = name
        else:
            mod.__package__ = name.rpartition('.')[0]
        sys.modules[name] = mod
        try:
            with open(path) as fh:
                tree = ast.parse(fh.read(), path)
            exec compile(ticking(tree), path, 'exec') in mod.__dict__
        except:
            del sys.modules[name]
            raise
        return sys.modules[name]


def ticking(tree):
    for node in ast.walk(tree):
        if isinstance(node, ast.FunctionDef):
            tick_body(node, True)
    return tree


def tick_body(node, function=False):
    for field in ('body', 'orelse', 'finalbody'):
        block = getattr(node, field, None)
        if not isinstance(block, list) and not hasattr(block, 'append'):
            continue
        out = []
        for i, stmt in enumerate(list(block)):
            doc = (function and i == 0 and isinstance(stmt, ast.Expr) and
                   isinstance(stmt.value, ast.Str))
            if not doc:
                call = ast.parse('_flv_tick()').body[0]
                for n in ast.walk(call):
                    if hasattr(n, 'lineno'):
                        ast.copy_location(n, stmt)
                out.append(call)
            out.append(stmt)
            if not isinstance(stmt, (ast.FunctionDef, ast.ClassDef)):
                tick_body(stmt)
        if out:
            setattr(node, field, out)
    for handler in getattr(node, 'handlers', None) or ():
        tick_body(handler)


def tick():
    line = getattr(Yielding.local, 'line', None)
    if line is not None:
        line()


class yielding(object):
    """While entered, ``flatland`` is the copy that yields."""

    def __enter__(self):
        import __builtin__
        import flatland
        __builtin__._flv_tick = tick
        self.plain = self.swap(Yielding.modules)
        if Yielding.modules is None:
            hook = Yielding(os.path.dirname(os.path.abspath(
                flatland.__file__)))
            sys.meta_path.insert(0, hook)
            try:
                import flatland
                import flatland.schema, flatland.validation  # noqa
                import flatland.out.markup  # noqa
                from flatland import String
                String(u'x', validators=[lambda e, s: True]).validate()
            finally:
                sys.meta_path.remove(hook)
                Yielding.modules = self.ours()
        return self

    def ours(self):
        return dict((k, v) for k, v in sys.modules.items()
                    if v is not None and k.split('.')[0] == 'flatland')

    def swap(self, modules):
        old = self.ours()
        for k in old:
            del sys.modules[k]
        sys.modules.update(modules or {})
        return old

    def __exit__(self, *exc):
        Yielding.modules = self.swap(self.plain)


class Baton(object):
    """One thread runs at a time; it hands over after so many lines.  A holder
    that makes no progress (it waits for a lock) loses its turn."""

    def __init__(self, count, switches):
        self.cond = threading.Condition()
        self.alive = list(range(count))
        self.holder = 0
        self.switches = switches
        self.used = 0
        self.left = switches[0]
        self.progress = 0
        self.handovers = 0
        self.stuck = set()

    def pass_on(self):
        self.used += 1
        self.left = self.switches[self.used % len(self.switches)] \
            if self.used < TURNS else ENDLESS
        if self.alive:
            free = [n for n in self.alive
                    if n not in self.stuck] or self.alive
            later = [n for n in free if n > self.holder]
            to = (later or free)[0]
            self.handovers += to != self.holder
            self.holder = to
        self.cond.notifyAll()

    def wait(self, me):
        while self.holder != me:
            seen = self.progress
            self.cond.wait(0.05)
            # who waits for a turn was only slow
            self.stuck.discard(me)
            if self.holder != me and self.progress == seen:
                self.stuck.add(self.holder)
                self.holder = me
                self.cond.notifyAll()

    def start(self, me):
        self.cond.acquire()
        try:
            self.wait(me)
        finally:
            self.cond.release()

    def line(self, me):
        self.cond.acquire()
        try:
            self.stuck.discard(me)
            self.wait(me)
            self.progress += 1
            self.left -= 1
            if self.left <= 0:
                self.pass_on()
                self.wait(me)
        finally:
            self.cond.release()

    def give(self, me):
        self.cond.acquire()
        try:
            self.stuck.discard(me)
            self.wait(me)
            self.progress += 1
            self.pass_on()
            self.wait(me)
        finally:
            self.cond.release()

    def finish(self, me):
        self.cond.acquire()
        try:
            self.progress += 1
            self.alive.remove(me)
            if self.holder == me:
                self.pass_on()
        finally:
            self.cond.release()


# lines run before it counts as an endless loop, and the turns that are taken
ENDLESS = 2000000
TURNS = 2500


def run_threads(bodies, switches):
    """Run the bodies in threads that take turns; returns what they raised."""
    baton = Baton(len(bodies), switches)
    failures = []

    def body(me, fn):
        def run():
            try:
                baton.start(me)
                Yielding.local.line = lambda: baton.line(me)
                Yielding.local.give = lambda: baton.give(me)
                try:
                    fn()
                finally:
                    Yielding.local.line = None
            except:
                failures.append((me, sys.exc_info()[1]))
            finally:
                baton.finish(me)
        return run
    pool = [threading.Thread(target=body(i, fn))
            for i, fn in enumerate(bodies)]
    for t in pool:
        t.setDaemon(True)
        t.start()
    for t in pool:
        # a slow machine is no deadlock: only standing still is
        seen, still = None, 0
        while t.isAlive():
            t.join(10)
            still = still + 1 if baton.progress == seen else 0
            seen = baton.progress
            if still > 6 or seen > ENDLESS:
                raise Violation(u'threads %s never finish' % show(switches))
    for me, exc in failures:
        if isinstance(exc, (Violation, HarnessFault)):
            raise exc
    return failures, baton.handovers


def threads(ctx, case, spec, want, fresh):
    from flatland.util import symbol
    counts, got, ready = [], [], set()
    schema = shared_schema(spec, counts)
    common = [note]
    progs = [Program(schema, spec, p, common) for p in case['progs']]
    stem = 'sym-%s-%d' % (case['symbols'], id(case))

    def body(p):
        def run():
            for n in range(case['symbols']):
                got.append((n, symbol(stem + str(n))))
            while not p.done():
                if p.at == len(p.prog['steps']) - 1:
                    # the last steps are taken together
                    ready.add(id(p))
                    while [q for q in progs
                           if id(q) not in ready and not q.done()]:
                        Yielding.local.give()
                p.step()

        def safely():
            try:
                run()
            finally:
                ready.add(id(p))
        return safely
    failures, handovers = run_threads([body(p) for p in progs],
                                      case['switches'])
    what = u'in threads switched %s' % show(case['switches'])
    ctx.ok(not failures, u'%s: %s', what, failures)
    compare(ctx, spec, progs, want, what)
    twice = [c.__name__ for c in counts if counts.count(c) > 1]
    ctx.ok(not twice, u'%s: compound prepared more than once', what)
    for n, s in got:
        ctx.ok(s is symbol(stem + str(n)), u'%s: two symbols %s', what, s)
    ctx.ok(newcomers(schema) == fresh, u'%s: a new element of the schema is '
           u'%s, want %s', what, newcomers(schema), fresh)
    if counts:
        ctx.label('compound prepared')
    ctx.nt(handovers >= 3)


# -- C41: faults ---------------------------------------------------------------

class Boom(Exception):
    pass


class RuntimeBoom(RuntimeError):
    pass


class Halt(BaseException):
    pass


class ArithmeticBoom(ArithmeticError):
    pass


class ValueBoom(ValueError):
    pass


class LookupBoom(LookupError):
    pass


class AttributeBoom(AttributeError):
    pass


# TypeErrors are taken for values that can not be iterated
BOOMS = {'plain': Boom, 'runtime': RuntimeBoom, 'halt': Halt,
         'arith': ArithmeticBoom, 'value': ValueBoom, 'lookup': LookupBoom,
         'attribute': AttributeBoom}


class Fuse(object):
    """Raises at the n-th tick; harmless when unset."""

    def __init__(self, cls):
        self.exc = cls(u'boom')
        self.left = None
        self.blown = False
        self.count = 0

    def rehearse(self, fn, at):
        """One of the ticks fn makes, chosen by at."""
        before = self.count
        fn()
        return at % max(1, self.count - before)

    def arm(self, at):
        self.left = at
        self.blown = False

    def disarm(self):
        self.left = None

    def tick(self):
        self.count += 1
        if self.left is None:
            return
        if self.left <= 0:
            self.left = None
            self.blown = True
            raise self.exc
        self.left -= 1


def with_fault(ctx, fuse, at, fn, what):
    """Run fn with the fuse armed; whether it blew."""
    fuse.arm(at)
    try:
        res = fn()
    except BaseException, exc:
        if exc is not fuse.exc:
            raise
        ctx.ok(fuse.blown, u'%s: raised a stale fault', what)
        return True, None
    finally:
        fuse.disarm()
    ctx.ok(not fuse.blown, u'%s: the failure of user code was swallowed', what)
    return False, res


def fused(fuse):
    """A decoration that makes scalars call adapt and serialize via fuse."""
    def deco(cls, spec):
        if kind(spec) != 'scalar':
            return cls

        def adapt(self, value):
            fuse.tick()
            return super(sub, self).adapt(value)

        def serialize(self, value):
            fuse.tick()
            return super(sub, self).serialize(value)
        sub = type(cls)('Fused', (cls,), {'adapt': adapt,
                                          'serialize': serialize})
        return sub
    return deco


def sound(ctx, el, spec, what):
    top = structure(el, spec)
    for node in breadth_first(top):
        want = node.holder.el if node.holder is not None else None
        parent = node.el.parent
        if want is not None and kind(node.holder.spec) == 'list':
            ctx.ok(parent is not None and parent.parent is want,
                   u'%s: parent of %s is %s', what, node.el, parent)
        else:
            ctx.ok(parent is want, u'%s: parent of %s is %s', what, node.el,
                   parent)
        k = kind(node.spec)
        if k in ('dict',):
            ctx.ok(sorted(node.el.keys()) ==
                   sorted(s['n'] for s in node.spec['of']),
                   u'%s: keys are %s', what, sorted(node.el.keys()))
        elif k == 'sparse':
            ctx.ok(set(node.el.keys()) <=
                   set(s['n'] for s in node.spec['of']),
                   u'%s: keys are %s', what, sorted(node.el.keys()))
        ctx.ok(set(id(c) for c in node.el.children) ==
               set(id(n.el) for n in node.kids),
               u'%s: children of %s', what, node.el)
        for n in node.kids:
            ctx.ok(type(n.el).__name__ in ('Fused', n.spec['t'], 'Dict'),
                   u'%s: member %s', what, n.el)
        # it can still be used
        node.el.flatten(), node.el.value, node.el.u, node.el.fq_name()
    return top


def c41_set(ctx, case):
    spec = case['spec']
    fuse = Fuse(BOOMS[case['boom']])
    schema = build(spec, fused(fuse))
    pairs = flat_value(spec, case['value'])
    op = case['op']
    if op.startswith('make'):
        run = {'make': lambda: schema(dec(case['value'])),
               'make_flat': lambda: schema.from_flat(pairs),
               'make_default': schema.from_defaults}[op]
        at = fuse.rehearse(run, case['at'])
        blown, _ = with_fault(ctx, fuse, at, run, op)
        control = build(spec, fused(Fuse(Boom)))
        again = run()
        want = {'make': lambda: control(dec(case['value'])),
                'make_flat': lambda: control.from_flat(pairs),
                'make_default': control.from_defaults}[op]()
        ctx.ok(digest(again) == digest(want),
               u'%s after a failed one gives %s, want %s', op, digest(again),
               digest(want))
        ctx.nt(blown)
        return

    def ready():
        el = schema()
        el.set(dec(case['before']))
        return el

    def act(el):
        if op == 'set':
            return el.set(dec(case['value']))
        if op == 'flat':
            return el.set_flat(pairs)
        if op == 'default':
            return el.set_default()
        leaf = leaf_of(el)
        if leaf is not None:
            return leaf.set(dec(leaf_value(case)))
    el = ready()
    before = digest(el)
    at = fuse.rehearse(lambda: act(ready()), case['at'])
    blown, res = with_fault(ctx, fuse, at, lambda: act(el), op)
    sound(ctx, el, spec, u'after a failed %s' % op)
    if not blown:
        ctx.label('no fault')
    res = act(el)
    other = ready()
    ctx.ok(digest(other) == before, u'the schema changed: %s, was %s',
           digest(other), before)
    want = act(other)
    ctx.eq(res, want, u'%s repeated after a failure' % op)
    ctx.ok(digest(el) == digest(other),
           u'%s repeated after a failure leaves %s, want %s', op, digest(el),
           digest(other))
    ctx.nt(blown)


def leaf_of(el):
    for e in walk(el):
        if not list(e.children) and hasattr(e, 'adapt') and \
                not isinstance(e, list):
            return e


def leaf_value(case):
    return u'1'


class Stream(object):
    """Iterates members, failing along the way."""

    def __init__(self, items, fuse):
        self.given = items
        self.fuse = fuse

    def __iter__(self):
        for item in self.given:
            self.fuse.tick()
            yield item
        self.fuse.tick()


def c41_iter(ctx, case):
    spec = case['spec']
    fuse = Fuse(BOOMS[case['boom']])
    schema = build(spec)
    value = dec(case['value'])
    pairs = flat_value(spec, case['value'])
    op = case['op']
    if op == 'from_flat':
        blown, _ = with_fault(
            ctx, fuse, case['at'] % (len(pairs) + 1),
            lambda: schema.from_flat(Stream(pairs, fuse)), op)
        ctx.nt(blown)
        return
    el = schema()
    el.set(dec(case['before']))
    k = kind(spec)
    members = list(value) if k in ('list', 'array', 'joined') else None
    if op == 'set_flat':
        run = lambda s: el.set_flat(s)
        items = pairs
    elif members is None:
        items = list(value.items())
        run = {'update': lambda s: el.update(s)}.get(op, lambda s: el.set(s))
    else:
        items = members
        run = {'extend': lambda s: el.extend(s),
               'iadd': lambda s: el.__iadd__(s),
               'setslice': lambda s: el.__setitem__(
                   slice(case['i'], case['j']), s)}.get(
                       op, lambda s: el.set(s))
    before = [id(e) for e in el.children]
    blown, _ = with_fault(ctx, fuse, case['at'] % (len(items) + 1),
                          lambda: run(Stream(items, fuse)), op)
    sound(ctx, el, spec, u'after a failed %s' % op)
    if blown and op == 'setslice' and members is not None:
        ctx.ok([id(e) for e in el.children] == before,
               u'a failed slice assignment changed the members')
    # and it can be set to anything still
    el.set(dec(case['value']))
    sound(ctx, el, spec, u'set after a failed %s' % op)
    other = schema()
    other.set(dec(case['before']))
    other.set(dec(case['value']))
    ctx.ok(digest(el) == digest(other), u'set after a failed %s leaves %s, '
           u'want %s', op, digest(el), digest(other))
    ctx.nt(blown)


def c41_check(ctx, case):
    from flatland.signals import validator_validated as signal
    spec = case['spec']
    fuse = Fuse(BOOMS[case['boom']])

    def hook(element, state):
        if case['where'] == 'validator':
            fuse.tick()
        return True

    def receive(sender, **kw):
        fuse.tick()
    schema = shared_schema(spec, hook=hook)
    el, other, third = schema(), schema(), schema()
    el.set(dec(case['value']))
    other.set(dec(case['value']))
    third.set(dec(case['value']))
    if case['where'] == 'receiver':
        signal.connect(receive)
    try:
        at = fuse.rehearse(third.validate, case['at'])
        blown, _ = with_fault(ctx, fuse, at, el.validate, u'validate')
    finally:
        if case['where'] == 'receiver':
            signal.disconnect(receive)
    ctx.ok([e.u for e in walk(el)] == [e.u for e in walk(other)],
           u'a failed validation changed the tree')
    res, want = el.validate(), other.validate()
    ctx.eq(bool(res), bool(want), u'validate() after a failed one')
    ctx.ok(digest(el) == digest(other), u'validation after a failed one '
           u'leaves %s, want %s', digest(el), digest(other))
    ctx.nt(blown)


def c41_tags(ctx, case):
    from flatland import String
    from flatland.out.markup import Generator
    fuse = Fuse(BOOMS[case['boom']])

    def filter(tagname, attributes, contents, context, bind):
        fuse.tick()
        attributes[u'data-seen'] = tagname
        return contents

    def play(gen, calls, skip=None):
        out, failed = [], None
        el = String(u'v&v', name=u'field')
        el.label = u'L'
        for n, call in enumerate(calls):
            if n == skip:
                continue
            try:
                if call['k'] == 'begin':
                    gen.begin(**keys(call))
                elif call['k'] == 'settings':
                    gen.set(**keys(call))
                elif call['k'] == 'end':
                    try:
                        gen.end()
                    except RuntimeError, exc:
                        if exc is fuse.exc:
                            raise
                        out.append('refused')
                else:
                    tag = gen.tag(call['name'])
                    attrs = dict((k.encode('ascii'), v)
                                 for k, v in call['attrs'])
                    bind = el if call['bind'] else None
                    if call['open']:
                        text = unicode(tag.open(bind, **attrs))
                        out.append(text + unicode(tag.close()))
                    else:
                        out.append(unicode(tag(bind, **attrs)))
            except BaseException, exc:
                if exc is not fuse.exc:
                    raise
                failed = n
        return out, failed, dict((k, gen[k]) for k in (
            u'auto_name', u'auto_value', u'auto_domid', u'auto_for',
            u'auto_filter'))

    def keys(call):
        return dict((k.encode('ascii'), v) for k, v in call['keys'])

    def new():
        return Generator(u'xhtml', auto_filter=True, filters=[filter],
                         ordered_attributes=True)
    fuse.arm(fuse.rehearse(lambda: play(new(), case['calls']), case['at']))
    got = play(new(), case['calls'])
    blown = fuse.blown
    fuse.disarm()
    ctx.ok(blown == (got[1] is not None),
           u'the failure of a filter was swallowed')
    want = play(new(), case['calls'], got[1])
    ctx.ok(got[0] == want[0] and got[2] == want[2],
           u'after a failed tag: %s, want %s', got, want)
    ctx.nt(blown)


def c41_prepare(ctx, case):
    from flatland import DateYYYYMMDD
    exc = BOOMS[case['boom']](u'boom')
    fails = [case['fails']]
    counts = []

    def __compound_init__(cls):
        counts.append(cls)
        if case['inside']:
            super(sub, cls).__compound_init__()
        if fails[0] > 0:
            fails[0] -= 1
            raise exc
        if not case['inside']:
            super(sub, cls).__compound_init__()
    sub = type(DateYYYYMMDD)('Sub', (DateYYYYMMDD,), {
        '__compound_init__': classmethod(__compound_init__)})
    cls = sub.named(u'd') if case['derive'] == 'named' else (
        sub.using(optional=True) if case['derive'] == 'using' else sub)
    date = dec(case['date'])
    seen, made = [], []

    def construct():
        try:
            made.append(cls(date))
        except BaseException, e:
            if e is not exc:
                raise
            seen.append(e)

    def elsewhere():
        t = threading.Thread(target=construct)
        t.setDaemon(True)
        t.start()
        t.join(30)
        ctx.ok(not t.isAlive(), u'a construction after a failed one hangs')
    total = case['fails'] + case['uses']
    for n in range(total):
        if case['threads'] and n % 2:
            elsewhere()
        else:
            construct()
    if not case['inside']:
        ctx.eq(len(seen), case['fails'], u'constructions that failed')
        ctx.eq(len(counts), case['fails'] + 1, u'preparations')
    for el in made:
        ctx.eq(el.value, date, u'value')
        ctx.eq(sorted(el.keys()), [u'day', u'month', u'year'], u'fields')
    ctx.nt(case['fails'] > 0)


def c41(ctx, mode, case):
    {'set': c41_set, 'iter': c41_iter, 'check': c41_check, 'tags': c41_tags,
     'prepare': c41_prepare}[mode](ctx, case)


CHECKS = {'C40': c40, 'C41': c41}
