# -*- coding: utf-8 -*-
"""C13-C15: tree structure and path lookups."""
import re

from lib import build, dec, kind, member, show, HarnessFault


# -- structure, found through the public child accessors only ---------------

class Node(object):
    def __init__(self, el, spec, holder, index):
        self.el = el
        self.spec = spec
        self.holder = holder
        self.index = index      # field name, or position
        self.kids = []

    def line(self):
        out = [self]
        while out[-1].holder is not None:
            out.append(out[-1].holder)
        return out[::-1]


PART = {'t': 'Integer', 'n': None, 'o': {}}


def structure(el, spec, holder=None, index=None):
    node = Node(el, spec, holder, index)
    k = kind(spec)
    if k in ('list', 'array', 'joined'):
        m = member(spec)
        for i, child in enumerate(list(el)):
            node.kids.append(structure(child, m, node, i))
    elif k in ('dict', 'sparse'):
        for s in spec['of']:
            if s['n'] in el:
                node.kids.append(structure(el[s['n']], s, node, s['n']))
    elif k == 'date':
        part = {'optional': bool((spec.get('o') or {}).get('optional'))}
        for f in (u'year', u'month', u'day'):
            node.kids.append(structure(el[f], dict(PART, n=f, o=part), node, f))
    return node


def breadth_first(top):
    queue, out = [top], []
    while queue:
        node = queue.pop(0)
        out.append(node)
        queue.extend(node.kids)
    return out


def ids(elements):
    return [id(e) for e in elements]


def well_formed(ctx, el, spec, sep, flat_sep, what):
    from flatland.schema.base import Slot
    top = structure(el, spec)
    nodes = breadth_first(top)
    seen = set()
    for node in nodes:
        ctx.ok(id(node.el) not in seen, u'%s: %s is in the tree twice',
               what, node.el)
        seen.add(id(node.el))
    parents_seen = {}
    for node in nodes:
        e = node.el
        parents = list(e.parents)
        for p in parents:
            parents_seen[id(p)] = p
        real = [p for p in parents if not isinstance(p, Slot)]
        line = [n.el for n in node.line()]
        ctx.ok(ids(real) == ids(line[:-1][::-1]),
               u'%s: parents of %s are %s, want %s', what, e, real,
               line[:-1][::-1])
        ctx.ok((e.parent is None) == (node.holder is None),
               u'%s: parent of %s is %s', what, e, e.parent)
        if e.parent is not None:
            ctx.ok(e.parent is parents[0], u'%s: parent of %s', what, e)
        ctx.ok(e.root is el, u'%s: root of %s is %s', what, e, e.root)
        ctx.ok(ids(e.path) == ids(parents[::-1] + [e]),
               u'%s: path of %s disagrees with its parents', what, e)
        kids = list(e.children)
        want = [n.el for n in node.kids]
        ctx.ok(len(kids) == len(want) and set(ids(kids)) == set(ids(want)),
               u'%s: children of %s are %s, want %s', what, e, kids, want)
        if kind(node.spec) in ('list', 'array', 'joined'):
            ctx.ok(ids(kids) == ids(want), u'%s: children of %s out of order',
                   what, e)
        deep = list(e.all_children)
        below = breadth_first(node)[1:]
        ctx.ok(len(deep) == len(below) and
               set(ids(deep)) == set(ids(n.el for n in below)),
               u'%s: all_children of %s are %s, want %s', what, e, deep,
               [n.el for n in below])
        level = dict((id(n.el), len(n.line())) for n in below)
        levels = [level[id(x)] for x in deep]
        ctx.ok(levels == sorted(levels),
               u'%s: all_children of %s is not breadth first', what, e)
    # names
    for i, node in enumerate(nodes):
        e = node.el
        name = e.fq_name() if sep == u'.' else e.fq_name(sep=sep)
        other = nodes[(i * 7 + 3) % len(nodes)].el
        for start in (el, e, other):
            try:
                got = start.el(name) if sep == u'.' else \
                    start.el(name, sep=sep)
            except KeyError:
                ctx.fail(u'%s: %s (of %s) does not resolve from %s', what,
                         name, e, start)
            ctx.ok(got is e, u'%s: %s (of %s) resolves to %s from %s', what,
                   name, e, got, start)
        tokens = []
        for n in node.line():
            if n.holder is not None and kind(n.holder.spec) == 'list':
                tokens.append(unicode(n.index))
            if n.spec['n'] is not None:
                tokens.append(n.spec['n'])
        ctx.eq(e.flattened_name(sep=flat_sep), flat_sep.join(tokens),
               u'%s: flattened name of %s' % (what, show(e)))
    return nodes


# -- C13 ---------------------------------------------------------------------

def instances(el, spec, at):
    if not at:
        return [(el, spec)]
    k = kind(spec)
    if k == 'list':
        m = member(spec)
        out = []
        for child in list(el):
            out.extend(instances(child, m, at[1:]))
        return out
    field = spec['of'][at[0]]
    if field['n'] not in el:
        return []
    return instances(el[field['n']], field, at[1:])


def field_class(el, key):
    for cls in el.field_schema:
        if cls.name == key:
            return cls
    raise HarnessFault('no field %r' % key)


REFUSALS = (IndexError, KeyError, TypeError, ValueError)


def seq_op(el, spec, op, stash):
    values = [dec(v) for v in op['values']]
    make = lambda: stash.pop() if stash else el.member_schema(values[0])
    name, i, j = op['op'], op['i'], op['j']
    if name == 'append':
        el.append(values[0])
    elif name == 'appendel':
        el.append(make())
    elif name == 'insert':
        el.insert(i, values[0])
    elif name == 'insertel':
        el.insert(i, make())
    elif name == 'setitem':
        el[i] = values[0]
    elif name == 'setel':
        el[i] = make()
    elif name == 'setslice':
        el[i:j] = values
    elif name == 'reslice':
        kept = list(el)
        el[:] = kept[j:] + kept[:j]
    elif name == 'del':
        del el[i]
    elif name == 'pop':
        stash.append(el.pop(i))
    elif name == 'move':
        el.insert(j, el.pop(i))
    elif name == 'remove':
        el.remove(el[i])
    elif name == 'reverse':
        el.reverse()
    elif name == 'assign':
        el.set(values[0] if kind(spec) == 'joined' else values)
    elif name == 'extend':
        el.extend(values)
    elif name == 'iadd':
        el += values
    elif name == 'setdefault_':
        el.set_default()
    elif name == 'clear':
        del el[:]
    else:
        raise HarnessFault('op %s' % name)


def map_op(el, spec, op, stash):
    values = [dec(v) for v in op['values']]
    name, key = op['op'], op.get('key')
    if name == 'setitem':
        el[key] = values[0]
    elif name == 'update':
        el.update(values[0])
    elif name in ('assign', 'assign1'):
        el.set(values[0])
    elif name == 'part':
        el[key] = op['i'] + 5
    elif name == 'setdefault_':
        el.set_default()
    elif name == 'setel':
        el[key] = field_class(el, key)(values[0])
    elif name == 'del':
        del el[key]
    elif name == 'clear':
        el.clear()
    elif name == 'setdefault':
        el.setdefault(key, values[0])
    elif name == 'pop':
        stash.append(el.pop(key))
    elif name == 'reput':
        el[key] = stash.pop() if stash else el[key]
    else:
        raise HarnessFault('op %s' % name)


def c13(ctx, mode, case):
    spec, sep = case['spec'], case['sep']
    el = build(spec)()
    el.set(dec(case['value']))
    nodes = well_formed(ctx, el, spec, sep, u'_', u'after set')
    stashes, log, done = {}, [], 0
    for op in case['ops']:
        log.append(op)
        if op['op'] == 'flat':
            el.set_flat(el.flatten())
            done += 1
            nodes = well_formed(ctx, el, spec, sep, u'_',
                                u'after %s' % show(log))
            continue
        found = instances(el, spec, op['at'])
        if not found:
            continue
        target, tspec = found[op['pick'] % len(found)]
        stash = stashes.setdefault((tuple(op['at']), op.get('key')), [])
        run = seq_op if kind(tspec) in ('list', 'array', 'joined') else map_op
        try:
            run(target, tspec, op, stash)
            done += 1
            ctx.label('op:' + op['op'])
        except REFUSALS:
            ctx.label('refused:' + op['op'])
        nodes = well_formed(ctx, el, spec, sep, u'_', u'after %s' % show(log))
        for kept in stashes.values():
            for e in kept:
                ctx.ok(not [n for n in nodes if n.el is e],
                       u'after %s: popped %s is still in the tree', log, e)
    ctx.nt(done >= 2 and len(nodes) >= 4)


# -- C14 ---------------------------------------------------------------------

class Missing(Exception):
    pass


def step_name(node, name):
    k = kind(node.spec)
    if k in ('dict', 'sparse', 'date'):
        for kid in node.kids:
            if kid.index == name:
                return kid
        raise Missing
    if k in ('list', 'array', 'joined'):
        try:
            return node.kids[int(name)]
        except (ValueError, IndexError):
            raise Missing
    raise Missing


def in_child_order(node):
    by_id = dict((id(n.el), n) for n in node.kids)
    return [by_id[id(e)] for e in node.el.children]


def evaluate(top, start, query):
    """-> (nodes found, whether a step was missing)"""
    current = [top if query['abs'] else start]
    missing = False
    for step in query['steps']:
        after = []
        for node in current:
            if step[0] == 'here':
                after.append(node)
            elif step[0] == 'up':
                after.append(node.holder or node)
            elif step[0] in ('name', 'index'):
                try:
                    after.append(step_name(node, unicode(step[1])))
                except Missing:
                    missing = True
            elif step[0] == 'last':
                kids = in_child_order(node)
                if len(kids) >= step[1]:
                    after.append(kids[-step[1]])
                else:
                    # like a slice, a negative index may select nothing
                    pass
            else:
                after.extend(in_child_order(node)[slice(*step[1:])])
        current = after
    return current, missing


def ambiguous(top, start, query):
    """A '..' that undoes a slice or follows a missing step has no documented
    meaning."""
    stack, done = [], []
    for step in query['steps']:
        if step[0] == 'up':
            if stack:
                if stack.pop() != 'name':
                    return True
                _, missing = evaluate(top, start, dict(query, steps=done))
                if missing:
                    return True
        elif step[0] != 'here':
            stack.append('name' if step[0] in ('name', 'index') else 'slice')
        done.append(step)
    return False


def escape(name):
    out = re.sub(r'([/\[\]])', r'\\\1', name)
    return u'\\' + out if out.startswith(u'.') else out


def number(n):
    return u'' if n is None else unicode(n)


def render(query):
    out, last = (u'/' if query['abs'] else u''), None
    for step in query['steps']:
        slash = u'/' if last is not None else u''
        if step[0] == 'name':
            out += slash + escape(step[1])
        elif step[0] == 'up':
            out += slash + u'..'
        elif step[0] == 'here':
            out += slash + u'.'
        else:
            if last in ('up', 'here'):
                out += u'/'
            if step[0] == 'index':
                if step[2] and last not in ('up', 'here'):
                    out += u'[%d]' % step[1]
                else:
                    out += (slash if last not in ('up', 'here') else u'') + \
                        unicode(step[1])
            elif step[0] == 'last':
                out += u'[-%d]' % step[1]
            else:
                text = number(step[1]) + u':' + number(step[2])
                if step[3] is not None:
                    text += u':' + number(step[3])
                out += u'[' + text + u']'
        last = step[0]
    return out


def c14(ctx, mode, case):
    spec = case['spec']
    el = build(spec)()
    el.set(dec(case['value']))
    top = structure(el, spec)
    nodes = breadth_first(top)
    for query in case['queries']:
        start = nodes[query['start'] % len(nodes)]
        if not query['abs'] and not query['steps']:
            continue
        if ambiguous(top, start, query):
            ctx.label('ambiguous')
            continue
        path = render(query)
        found, missing = evaluate(top, start, query)
        want = [n.el for n in found]
        what = u'%s from %s' % (path, start.el.fq_name())

        def same_elements(got, how):
            ctx.ok(isinstance(got, list) and ids(got) == ids(want),
                   u'%s %s: found %s, want %s', how, what, got, want)

        same_elements(start.el.find(path, strict=False), u'lenient')
        if missing:
            ctx.label('missing')
            for single in (False, True):
                ctx.raises(LookupError,
                           lambda: start.el.find(path, single=single), what)
        else:
            same_elements(start.el.find(path), u'strict')
            if len(want) > 1:
                ctx.label('several')
                ctx.raises(LookupError,
                           lambda: start.el.find(path, single=True), what)
            else:
                got = start.el.find(path, single=True)
                ctx.ok(got is (want[0] if want else None),
                       u'single %s: got %s, want %s', what, got, want)
        got = start.el.find(path, single=True, strict=False)
        ctx.ok(id(got) in ids(want) if want else got is None,
               u'single lenient %s: got %s, want %s', what, got, want)
        ctx.nt(bool(want) and len(query['steps']) >= 2)


# -- C15 ---------------------------------------------------------------------

INDEX = re.compile(ur'^(-?\d+|(-?\d+)?:(-?\d+)?(:(-?\d+)?)?)$', re.UNICODE)
BRACKETED = re.compile(ur'^(|.*[^\\])(\[([^/\[\]\\]*)\])$', re.DOTALL)


def spell(name, raw, dots):
    m = BRACKETED.match(name)
    if raw and m and not INDEX.match(m.group(3)):
        return spell(m.group(1), False, dots) + m.group(2)
    out, previous = u'', None
    for ch in name:
        if ch in u'/[]' or (ch == u'.' and (
                dots or previous is None or previous == u'\\')):
            out += u'\\'
        out += ch
        previous = ch
    return out


def c15(ctx, mode, case):
    import flatland
    names = case['names']
    cls = flatland.Dict.of(*[
        flatland.Dict.named(n).of(*[
            flatland.List.named(m).of(flatland.String) for m in names])
        for n in names])
    root = cls()
    for n in names:
        for m in names:
            root[n][m].set([u'p', u'q'])
    plans = []
    for q in case['queries']:
        names_on_way = q['walk']
        el = root
        for n in names_on_way:
            el = el[n]
        tail = q['tail']
        if tail is not None:
            el = el[tail]
        steps = [spell(n, q['raw'], q['dots']) for n in names_on_way]
        if any(n.endswith(u'\\') for n in names_on_way[:-1]):
            ctx.label('skip-trailing-backslash')
            continue
        sealed = names_on_way[-1].endswith(u'\\')
        if sealed and tail is not None:
            continue
        last = u''
        if tail is not None:
            if q['raw']:
                last = u'[%d]' % tail
            else:
                steps.append(unicode(tail))
        # where from
        start, ups = root, 0
        if q['from'] >= 1:
            start, ups = start[names[0]], 1
        if q['from'] >= 2:
            start, ups = start[names[-1]], 2
        if q['from'] >= 3:
            start, ups = start[1], 3
        lead = [u''] if q['abs'] else [u'..'] * ups
        plain = u'/'.join(lead + steps) + last
        # a redundant spelling of the same
        extra = list(steps)
        depth = len(steps)
        for pos, how in sorted(q['detours'], reverse=True):
            pos = pos % (depth + 1)
            if pos == depth and (sealed or last):
                continue
            if how == 'there':
                if pos < 2:
                    other = [n for n in names if not n.endswith(u'\\')]
                    if not other:
                        continue
                    extra[pos:pos] = [spell(other[0], q['raw'], q['dots']),
                                      u'..']
                elif pos == 2 and len(names_on_way) == 2:
                    extra[pos:pos] = [u'1', u'..']
            else:
                extra[pos:pos] = [u'.']
        redundant = u'/'.join(lead + extra) + last
        plans.append((start, plain, redundant, el))
        ctx.nt(redundant != plain or any(
            set(n) & set(u'/[].\\') for n in names_on_way))

    def check(when):
        for start, plain, redundant, el in plans:
            for path in (plain, redundant):
                what = u'%s: %s' % (when, path)
                try:
                    got = start.find(path)
                except LookupError, exc:
                    ctx.fail(u'%s (to %s): %s', what, el, show(exc))
                ctx.ok(len(got) == 1 and got[0] is el,
                       u'%s found %s, want %s', what, got, el)
                ctx.ok(start.find(path, single=True, strict=False) is el,
                       u'%s, single', what)
                if all(ord(c) < 128 for c in path):
                    got = start.find(path.encode('ascii'))
                    ctx.ok(len(got) == 1 and got[0] is el,
                           u'%s as str found %s, want %s', what, got, el)

    check(u'first time')
    if case['flood']:
        ctx.label('flood')
        ctx.nt()
        for n in xrange(case['flood']):
            got = root.find(u'f%d/%d' % (n, case['tag']), strict=False)
            ctx.ok(got == [], u'a missing path found %s', got)
        for n in (0, case['flood'] - 1):
            path = u'f%d/%d' % (n, case['tag'])
            ctx.ok(root.find(path, strict=False) == [], u'missing path, again')
            ctx.raises(LookupError, lambda: root.find(path), path)
    check(u'again')


CHECKS = {'C13': c13, 'C14': c14, 'C15': c15}
