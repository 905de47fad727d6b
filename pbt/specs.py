"""Schema-spec and matching value strategies (JSON)."""
from hypothesis import strategies as st

from pbt import strat as S

SEPS = [u'_', u'.', u'/', u'--', u'-', u'__', u':', u'|', u'+', u'$', u'\\',
        u'[', u'*', u' ', u'\u2192']
NAMES = [u'a', u'ab', u'abc', u'b', u'A', u'a1', u'1', u'0', u'12', u'x*',
         u'(c)', u'[b]', u'^a', u'a?', u'q|', u'\u00e9', u'\u2603k', u'a b',
         u'n.m', u'd$', u'x', u'y', u'na', u'anna', u'a0']
SAFE_NAMES = [u'a', u'ab', u'abc', u'b', u'bb', u'c', u'd1', u'x', u'y', u'z',
              u'e', u'foo', u'bar', u'a1']
FORM_NAMES = SAFE_NAMES


def names_for(sep, joined=False):
    names = [n for n in NAMES if not set(n) & set(sep)]
    if joined and u'k' not in sep and u'0' not in sep:
        # with the separator inside, where that can't be mistaken for nesting
        names += [u'k' + sep + u'l', u'k' + sep + u'm', u'kk' + sep + u'0']
    return names


class Opt(object):
    """What a spec may contain."""

    def __init__(self, names, leaf_types=None, containers=None, max_depth=3,
                 max_fields=4, defaults=False, list_max=False,
                 sparse_required=True, optional=False, array_members=None,
                 lossless_only=False, prune=None):
        self.names = names
        self.leaf_types = leaf_types or [
            'String', 'String', 'Integer', 'Long', 'Float', 'Decimal',
            'Boolean', 'Date', 'DateTime', 'Time', 'Enum']
        self.containers = containers or [
            'List', 'List', 'Dict', 'Dict', 'SparseDict', 'Array',
            'MultiValue', 'JoinedString', 'DateYYYYMMDD']
        self.max_depth = max_depth
        self.max_fields = max_fields
        self.list_max = list_max
        self.optional = optional
        self.sparse_required = sparse_required
        self.prune = prune


def leaf_spec(draw, opt, name):
    t = draw(st.sampled_from(opt.leaf_types))
    o = {}
    spec = {'t': t, 'n': name, 'o': o}
    if t == 'String':
        if draw(st.booleans()):
            o['strip'] = False
    elif t in ('Integer', 'Long'):
        if draw(st.integers(0, 4)) == 0:
            o['signed'] = False
        if draw(st.integers(0, 4)) == 0:
            o['format'] = draw(st.sampled_from([u'%04i', u'%+i', u'%i']))
    elif t in ('Float', 'Decimal'):
        if draw(st.integers(0, 4)) == 0:
            o['signed'] = False
        if draw(st.integers(0, 3)) == 0:
            o['format'] = draw(st.sampled_from([u'%.2f', u'%0.3f']))
    elif t == 'Boolean':
        if draw(st.integers(0, 4)) == 0:
            o['true'], o['false'] = draw(st.sampled_from(
                [(u'yes', u'no'), (u'Y', u''), (u'2', u'1'),
                 (u'0', u'1'), (u'off', u'on'), (u'False', u'no'),
                 (u'Y', u'1'), (u'', u'x')]))
            if o['true'] == u'2':
                o['true_syn'] = [u'2', u'two']
                o['false_syn'] = [u'1', u'']
    elif t in ('Date', 'DateTime', 'Time'):
        if draw(st.integers(0, 4)) == 0:
            o['strip'] = False
    elif t == 'Enum':
        if draw(st.integers(0, 2)) == 0:
            spec['of'] = [{'t': 'Integer', 'n': None, 'o': {}}]
            o['values'] = draw(st.lists(st.integers(-3, 9).map(S.i),
                                        min_size=1, max_size=4))
        else:
            o['values'] = draw(st.lists(
                st.sampled_from([u'a', u'b', u'c', u'', u'a b', u'1']),
                min_size=1, max_size=4, unique=True))
    if opt.optional and draw(st.booleans()):
        o['optional'] = True
    return spec


def maybe_name(draw, opt):
    return draw(st.one_of(st.none(), st.sampled_from(opt.names)))


def node_spec(draw, opt, depth, named, container=False):
    """named: True (must have a name) or False (may)."""
    name = (draw(st.sampled_from(opt.names)) if named
            else maybe_name(draw, opt))
    if not container and (depth >= opt.max_depth or
                          draw(st.integers(0, 9)) < 5):
        return leaf_spec(draw, opt, name)
    t = draw(st.sampled_from(opt.containers))
    if container and t in ('JoinedString', 'DateYYYYMMDD') and \
            draw(st.booleans()):
        t = 'Dict'
    o = {}
    spec = {'t': t, 'n': name, 'o': o}
    if t in ('List',):
        o['prune'] = (draw(st.booleans()) if opt.prune is None
                      else opt.prune)
        if opt.list_max:
            o['max'] = draw(st.sampled_from([2, 3, 5, 8, 1024]))
        if draw(st.integers(0, 5)) == 0 and depth + 1 < opt.max_depth:
            spec['of'] = fields(draw, opt, depth + 2, 2)
        else:
            spec['of'] = [node_spec(draw, opt, depth + 1, False)]
    elif t in ('Array', 'MultiValue'):
        o['prune'] = (draw(st.booleans()) if opt.prune is None
                      else opt.prune)
        spec['of'] = [leaf_spec(draw, opt, maybe_name(draw, opt))]
    elif t == 'JoinedString':
        o['prune'] = draw(st.booleans())
        o['sep'] = draw(st.sampled_from([u',', u', ', u'|', u';', u'ab']))
        if draw(st.booleans()):
            spec['of'] = [{'t': 'Integer', 'n': None, 'o': {}}]
        else:
            spec['of'] = [{'t': 'String', 'n': None,
                           'o': {'strip': draw(st.booleans())}}]
    elif t == 'DateYYYYMMDD':
        pass
    else:
        if t == 'SparseDict' and opt.sparse_required:
            o['minimum'] = draw(st.sampled_from([None, None, u'required']))
        spec['of'] = fields(draw, opt, depth + 1, 1)
    if opt.optional and draw(st.booleans()):
        o['optional'] = True
    return spec


def fields(draw, opt, depth, least):
    names = draw(st.lists(st.sampled_from(opt.names), min_size=least,
                          max_size=opt.max_fields, unique=True))
    out = []
    for n in names:
        s = node_spec(draw, opt, depth, True)
        s['n'] = n
        out.append(s)
    return out


def root_spec(draw, opt, scalar_ok=False):
    spec = node_spec(draw, opt, 0, False, container=not scalar_ok)
    if spec['n'] is None and spec['t'] not in (
            'List', 'Dict', 'SparseDict', 'DateYYYYMMDD', 'Array',
            'MultiValue'):
        spec['n'] = draw(st.sampled_from(opt.names))
    return spec


# -- values ----------------------------------------------------------------

def leaf_value(draw, spec, hostile=0):
    """A value for a scalar; hostile in 0..10 is how often it is unsuitable."""
    t = spec['t']
    if draw(st.integers(0, 9)) < hostile:
        return draw(S.any_value)
    if t == 'Enum':
        return draw(st.sampled_from(spec['o']['values']))
    if draw(st.booleans()):
        return draw(S.native_for(t))
    return draw(S.text_for(t))


def value_for(draw, spec, hostile=1, partial=True, max_len=4, full=False):
    t = spec['t']
    if t in ('List', 'Array', 'MultiValue', 'JoinedString'):
        n = draw(st.integers(0, max_len))
        m = member(spec)
        if t == 'List' and max_len >= 4 and 'of' not in m and \
                draw(st.integers(0, 5)) == 5:
            # indexes of two digits
            n = draw(st.integers(10, 13))
        out = [value_for(draw, m, hostile, partial, max_len, full)
               for _ in range(n)]
        if t == 'JoinedString':
            sep = spec['o'].get('sep', u',')
            out = [draw(S.ints) if m['t'] == 'Integer' else
                   draw(S.nonblank_text.filter(lambda x: sep not in x))
                   for _ in range(n)]
        return {'l': out}
    if t in ('Dict', 'SparseDict', 'Form'):
        out = []
        for s in spec['of']:
            if partial and not full and draw(st.integers(0, 4)) == 0:
                continue
            out.append([s['n'], value_for(draw, s, hostile, partial, max_len,
                                          full)])
        return {'m': out}
    if t == 'DateYYYYMMDD':
        return draw(st.one_of(S.dates, S.dates, st.none(), S.date_text))
    return leaf_value(draw, spec, hostile)


def member(spec):
    if len(spec['of']) == 1:
        return spec['of'][0]
    return {'t': 'Dict', 'n': None, 'of': spec['of'], 'o': {}}


def leaf_paths(spec, prefix=()):
    """[(tokens with '#' for an index, leaf spec)] of every flat key."""
    name = () if spec['n'] is None else (spec['n'],)
    t = spec['t']
    if t == 'List':
        return leaf_paths(member(spec), prefix + name + ('#',))
    if t in ('Array', 'MultiValue'):
        m = spec['of'][0]
        tail = () if m['n'] is None else (m['n'],)
        return [(prefix + name + tail, m)]
    if t in ('Dict', 'SparseDict', 'Form'):
        out = []
        for s in spec['of']:
            out.extend(leaf_paths(s, prefix + name))
        return out
    if t == 'DateYYYYMMDD':
        return [(prefix + name + (f,), {'t': 'Integer', 'o': {}})
                for f in (u'year', u'month', u'day')] + [
                    (prefix + name, {'t': 'Date', 'o': {}})]
    return [(prefix + name, spec)]
