# -*- coding: utf-8 -*-
"""C01-C03: flatten / set_flat."""
import operator

from lib import build, dec, kind, member, same, show, snapshot


# -- C01 -------------------------------------------------------------------

def model_pairs(el, spec, names, sep):
    """[(key, text)] the tree should flatten to; walks the public API."""
    if spec['n'] is not None:
        names = names + [spec['n']]
    key = sep.join(names)
    k = kind(spec)
    if k in ('scalar', 'joined'):
        return [(key, el.u)]
    out = []
    if k == 'date':
        out.append((key, el.u))
        for f in (u'year', u'month', u'day'):
            out.append((sep.join(names + [f]), el[f].u))
    elif k == 'list':
        m = member(spec)
        for i in range(len(el)):
            out.extend(model_pairs(el[i], m, names + [unicode(i)], sep))
    elif k == 'array':
        m = member(spec)
        for i in range(len(el)):
            out.extend(model_pairs(el[i], m, names, sep))
    else:
        for s in spec['of']:
            if s['n'] in el.keys():
                out.extend(model_pairs(el[s['n']], s, names, sep))
    return out


def surviving(el, spec, pruned):
    """How many of its flat pairs reach an empty twin of el."""
    k = kind(spec)
    if k in ('scalar', 'joined'):
        return 0 if pruned and el.u == u'' else 1
    if k == 'date':
        own = 0 if pruned and el.u == u'' else 1
        return own + sum(1 for c in el.children
                         if not (pruned and c.u == u''))
    if k in ('list', 'array'):
        # (own pruning happens after the pair has reached the sequence)
        m = member(spec)
        return sum(surviving(el[i], m, pruned) for i in range(len(el)))
    return sum(surviving(el[s['n']], s, pruned)
               for s in spec['of'] if s['n'] in el.keys())


def restored(ctx, el, spec, pruned):
    """The snapshot expected of a new element given el's flat pairs."""
    k = kind(spec)
    cls = type(el)
    if k in ('scalar', 'joined'):
        new = cls()
        if not (pruned and el.u == u''):
            new.set(unicode(el.u))
            # (input that did not adapt may adapt once it is text)
            if el.value is not None:
                ctx.text(new.u, el.u, u'text of %s set to its own text' %
                         spec['t'])
        return snapshot(new, spec)
    if k == 'date':
        new = cls()
        for f in (u'year', u'month', u'day'):
            if not (pruned and el[f].u == u''):
                new[f].set(unicode(el[f].u))
        return snapshot(new, spec)
    if k == 'array':
        m = member(spec)
        prune = pruned or cls.prune_empty
        if prune and any(c.u == u'' for c in el):
            ctx.label('pruned')
        return ('l', [restored(ctx, c, m, pruned) for c in el
                      if not (prune and c.u == u'')])
    if k == 'list':
        m = member(spec)
        prune = pruned or cls.prune_empty
        alive = [surviving(c, m, prune) for c in el]
        limit = cls.maximum_set_flat_members
        if not all(alive):
            ctx.label('pruned')
        if cls.prune_empty:
            kept = [c for c, n in zip(el, alive) if n][:limit]
            return ('l', [restored(ctx, c, m, prune) for c in kept])
        last = max([i for i, n in enumerate(alive) if n] or [-1])
        out = []
        for i in range(min(last + 1, limit)):
            if alive[i]:
                out.append(restored(ctx, el[i], m, prune))
            else:
                out.append(snapshot(cls.member_schema(), m))
        return ('l', out)
    out = {}
    fresh = cls()
    for s in spec['of']:
        n = s['n']
        if n in el.keys() and surviving(el[n], s, pruned):
            out[n] = restored(ctx, el[n], s, pruned)
        elif n in fresh.keys():
            out[n] = snapshot(fresh[n], s)
    return ('m', out)


def c01(ctx, mode, case):
    sep = case['sep']
    spec = case['spec']
    cls = build(spec)
    el = cls()
    el.set(dec(case['value']))
    before = snapshot(el, spec)
    want = model_pairs(el, spec, [], sep)
    got = el.flatten(sep=sep)
    ctx.ok(all(isinstance(k, unicode) and isinstance(v, unicode)
               for k, v in got), u'flatten emitted a non-unicode: %s', got)
    ctx.eq(sorted(got), sorted(want), u'flat pairs of %s' % show(before))
    # values of a repeated key come out in member order
    order = {}
    for k, v in want:
        order.setdefault(k, []).append(v)
    for k, v in got:
        ctx.ok(order[k].pop(0) == v, u'values of repeated key %s are out of '
               u'order in %s, want %s', k, got, want)
    if sep == u'_':
        ctx.eq(el.flatten(), got, u'flatten() with the default separator')
    # a custom value callable sees the same elements
    pairs = el.flatten(sep=sep, value=lambda e: e)
    ctx.eq([k for k, e in pairs], [k for k, v in got], u'keys with value=')
    ctx.eq([e.u for k, e in pairs], [v for k, v in got], u'value= elements')
    for k, e in pairs:
        ctx.eq(e.flattened_name(sep), k, u'flattened_name')
    ctx.eq(el.flatten(sep=sep, value=operator.attrgetter('value')),
           [(k, e.value) for k, e in pairs], u'flatten of native values')
    ctx.eq(snapshot(el, spec), before, u'flatten changed the element')

    pairs = got
    if case['as_dict']:
        if len(set(k for k, v in got)) == len(got):
            pairs = dict(got)
            ctx.label('as_dict')
    new = cls()
    new.set_flat(pairs, sep=sep)
    expect = restored(ctx, el, spec, False)
    ctx.eq(snapshot(new, spec), expect,
           u'restored from %s' % show(got))
    if mode == 'lossless':
        ctx.eq(snapshot(new, spec), before, u'lossless round trip via %s' %
               show(got))
        ctx.eq(sorted(new.flatten(sep=sep)), sorted(got),
               u'second flatten')
        ctx.eq(new.value, el.value, u'value after the round trip')
    if sep == u'_':
        ctx.eq(snapshot(cls.from_flat(got), spec), expect, u'from_flat')
    ctx.nt(len(got) >= 3 and any(kind(s) != 'scalar' or s['t'] == 'List'
                                 for s in [spec]))


# -- C02 -------------------------------------------------------------------

class Node(object):
    """Reference tree.  Scalars keep a free-standing element of their type,
    so that text conversion itself is not at issue here."""

    def __init__(self, spec):
        self.spec = spec
        self.kind = kind(spec)
        if self.kind in ('scalar', 'joined'):
            self.leaf = build(spec)()
        elif self.kind in ('list', 'array'):
            self.items = []
        elif self.kind == 'date':
            self.parts = dict((f, build({'t': 'Integer', 'o': {
                'format': u'%04i' if f == u'year' else u'%02i'}})())
                for f in (u'year', u'month', u'day'))
        else:
            self.fields = {}
            for s in spec['of']:
                o = spec.get('o') or {}
                if self.kind == 'dict' or (
                        o.get('minimum') == 'required' and
                        not (s.get('o') or {}).get('optional')):
                    self.fields[s['n']] = Node(s)

    def snap(self):
        if self.kind in ('scalar', 'joined'):
            return snapshot(self.leaf, self.spec)
        if self.kind in ('list', 'array'):
            return ('l', [n.snap() for n in self.items])
        if self.kind == 'date':
            from flatland import Date
            parts = [self.parts[f] for f in (u'year', u'month', u'day')]
            nums = [p.value for p in parts]
            u, value = u'', None
            if None not in nums:
                d = Date()
                d.set(u'%04i-%02i-%02i' % tuple(nums))
                if d.value is not None:
                    u, value = d.u, d.value
            return ('c', u, value, sorted(
                (n, unicode(p.u), p.value) for n, p in self.parts.items()))
        return ('m', dict((k, n.snap()) for k, n in self.fields.items()))

    def apply(self, pairs):
        """pairs: [(tokens or None, text)], tokens including our own name."""
        name = self.spec['n']
        own = None if name is None else [name]
        o = self.spec.get('o') or {}
        if self.kind in ('scalar', 'joined'):
            for tokens, text in pairs:
                if tokens == own:
                    self.leaf.set(text)
                    return 1
            return 0
        if self.kind == 'array':
            m = member(self.spec)
            want = (own or []) + ([] if m['n'] is None else [m['n']])
            self.items = []
            for tokens, text in pairs:
                if (tokens or []) == want or (not want and tokens == [u'']):
                    if text == u'' and o.get('prune', True):
                        continue
                    node = Node(m)
                    node.leaf.set(text)
                    self.items.append(node)
            return len(self.items)
        inner = []
        for tokens, text in pairs:
            if tokens is None:
                continue
            if name is not None:
                if tokens[0] != name or len(tokens) < 2:
                    continue
                tokens = tokens[1:]
            inner.append((tokens, text))
        if self.kind == 'list':
            return self.apply_list(inner, o)
        hits = 0
        if self.kind == 'date':
            for f in self.parts:
                for tokens, text in inner:
                    if tokens == [f]:
                        self.parts[f].set(text)
                        hits += 1
                        break
            return hits
        for s in self.spec['of']:
            mine = [(t, v) for t, v in inner if t[0] == s['n']]
            if mine:
                if s['n'] not in self.fields:
                    self.fields[s['n']] = Node(s)
                hits += self.fields[s['n']].apply(mine)
        return hits

    def apply_list(self, inner, o):
        prune = o.get('prune', True)
        limit = o.get('max', 1024)
        self.items = []
        found = {}
        for tokens, text in inner:
            if prune and text == u'':
                continue
            if tokens[0] and all(c in u'0123456789' for c in tokens[0]):
                found.setdefault(int(tokens[0]), []).append(
                    (tokens[1:] or None, text))
        hits = 0
        if prune:
            order = sorted(found)[:limit]
        else:
            order = range(min(max(found or [-1]) + 1, limit))
        m = member(self.spec)
        for index in order:
            node = Node(m)
            if index in found:
                hits += node.apply(found[index])
            self.items.append(node)
        return hits


JOINED = (u'k', u'l'), (u'k', u'm'), (u'kk', u'0')


def tokens_of(key, sep):
    """The names in key; those with the separator inside are one name."""
    tokens = key.split(sep)
    for i in range(len(tokens) - 2, -1, -1):
        if tuple(tokens[i:i + 2]) in JOINED:
            tokens[i:i + 2] = [sep.join(tokens[i:i + 2])]
    return tokens


def c02(ctx, mode, case):
    sep = case['sep']
    spec = case['spec']
    cls = build(spec)
    node = Node(spec)
    shape = case['shape']
    el = None
    for pairs in case['steps']:
        pairs = [tuple(p) for p in pairs]
        feed = pairs
        # '0' and '00' are the same index: a dict leaves open which is first
        if shape == 'dict' and len(set(
                tuple(int(t) if t.isdigit() else t for t in k.split(sep))
                for k, v in pairs)) == len(pairs):
            feed = dict(pairs)
        elif shape == 'tuple':
            feed = tuple(pairs)
        elif shape == 'iter' and spec['t'] != 'List':
            feed = pairs
        if el is None:
            if shape == 'from' and sep == u'_':
                el = cls.from_flat(feed)
            else:
                el = cls()
                el.set_flat(feed, sep=sep)
        else:
            el.set_flat(feed, sep=sep)
        hits = node.apply([(tokens_of(k, sep), v) for k, v in pairs])
        ctx.eq(snapshot(el, spec), node.snap(), u'after set_flat(%s)' %
               show(pairs))
        if hits:
            ctx.label('hit')
        if hits > 1:
            ctx.nt()
        if hits < len(pairs):
            ctx.label('ignored-pairs')
    if len(case['steps']) > 1:
        ctx.label('two-steps')


# -- C03 -------------------------------------------------------------------

def c03(ctx, mode, case):
    spec = case['spec']
    cls = build(spec)
    if mode == 'hostile':
        pairs = [tuple(p) for p in case['pairs']]
        el = cls()
        el.set_flat(pairs)
        before = snapshot(el, spec)
        bounds(ctx, el, spec, len(pairs))
        el.flatten()
        el.value, el.u
        list(el.all_children)
        again = cls.from_flat(dict(pairs))
        bounds(ctx, again, spec, len(pairs))
        el.set_flat(pairs)
        if not has_kind(spec, ('list', 'array')):
            ctx.eq(snapshot(el, spec), before, u'the same pairs set twice')
        bounds(ctx, el, spec, len(pairs))
        ctx.nt(len(pairs) > 1 and has_kind(
            spec, ('list', 'array', 'dict', 'sparse', 'date')))
        return
    sep = case['sep']
    pairs = [tuple(p) for p in case['pairs']]
    mixed = list(pairs)
    for at, key, text in case['noise']:
        mixed.insert(min(at, len(mixed)), (key, text))
    clean = cls()
    clean.set_flat(pairs, sep=sep)
    noisy = cls()
    noisy.set_flat(mixed, sep=sep)
    ctx.eq(snapshot(noisy, spec), snapshot(clean, spec),
           u'foreign pairs changed the result of set_flat(%s)' % show(mixed))
    lone = cls()
    lone.set_flat([(k, v) for _, k, v in case['noise']], sep=sep)
    ctx.eq(snapshot(lone, spec), snapshot(cls(), spec),
           u'foreign pairs alone had an effect: %s' % show(case['noise']))
    ctx.nt(len(clean.flatten()) > 1)


def has_kind(spec, kinds):
    return kind(spec) in kinds or any(has_kind(s, kinds)
                                      for s in spec.get('of', ()))


def bounds(ctx, el, spec, npairs):
    k = kind(spec)
    if k == 'list':
        limit = type(el).maximum_set_flat_members
        ctx.ok(len(el) <= limit, u'%d members in a list limited to %d',
               unicode(len(el)), unicode(limit))
        if type(el).prune_empty:
            ctx.ok(len(el) <= npairs, u'%d members from %d pairs',
                   unicode(len(el)), unicode(npairs))
    if k == 'array':
        ctx.ok(len(el) <= npairs, u'%d members from %d pairs',
               unicode(len(el)), unicode(npairs))
    if k in ('list', 'array'):
        for c in el:
            bounds(ctx, c, member(spec), npairs)
    elif k in ('dict', 'sparse'):
        names = [s['n'] for s in spec['of']]
        ctx.ok(set(el.keys()) <= set(names), u'unknown keys %s',
               sorted(el.keys()))
        if k == 'dict':
            ctx.ok(set(el.keys()) == set(names), u'keys %s of %s',
                   sorted(el.keys()), sorted(names))
        for s in spec['of']:
            if s['n'] in el.keys():
                bounds(ctx, el[s['n']], s, npairs)


CHECKS = {'C01': c01, 'C02': c02, 'C03': c03}
