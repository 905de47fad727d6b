"""C27-C31: markup generation."""
from hypothesis import strategies as st

from pbt import specs, strat as S
from pbt.core import Prop

TAGS = ['input', 'input', 'input', 'textarea', 'textarea', 'button', 'select',
        'option', 'option', 'label', 'form', 'div', 'squiznart']
INPUT_TYPES = ['text', 'hidden', 'button', 'submit', 'reset', 'checkbox',
               'checkbox', 'checkbox', 'radio', 'radio', 'password', 'file',
               'image']
SUFFIX_TEXT = st.text(alphabet=u'ab.:-_ 1!\u00e9/', max_size=5)
AUTO = ['auto_name', 'auto_value', 'auto_domid', 'auto_for', 'auto_tabindex',
        'auto_filter']
SWITCH = st.sampled_from([True, False, u'on', u'off', u'auto', u'on', True,
                          {'maybe': 1}, u'yes', u'no', u'1', u'0', u'ON',
                          u'False', u'nil', u't'])
FORMATS = [u'f_%s', u'-%s-', u'%s', u'<%s>', u'"%s', u'x%s%%']

entity_text = st.lists(st.sampled_from(
    [u'&', u'&amp;', u'&lt;', u'&gt;', u'&quot;', u'&#34;', u'&#x26;', u'&lt',
     u'<', u'>', u'"', u"'", u'a', u' ', u';', u'amp;', u'&amp', u'</', u'=']),
    min_size=1, max_size=5).map(u''.join)
markup_text = st.one_of(
    entity_text,
    st.text(alphabet=u'<>&"\'=/! ab;#x\n\t', max_size=12), S.odd_text,
    S.any_text,
    st.sampled_from([u'</textarea>', u'<script>', u'&amp;', u'&lt;b&gt;',
                     u'" onclick="x', u"' x='", u'&#34;', u'-->', u']]>',
                     u'"', u'>', u'&', u'<!--', u' ', u'\n', u'&quot']))


def escaped(text):
    return (text.replace(u'&', u'&amp;').replace(u'<', u'&lt;')
            .replace(u'>', u'&gt;').replace(u'"', u'&quot;'))


ATTR_NAMES = [u'class', u'class_', u'title', u'style', u'data-x', u'id', u'id',
              u'for_', u'for', u'accesskey', u'xml:lang', u'rel', u'alt',
              u'name', u'name', u'value', u'value', u'value', u'tabindex',
              u'checked', u'selected', u'size', u'zz']


def attr_value(draw, name):
    k = draw(st.integers(0, 11))
    if name in (u'value', u'checked', u'selected'):
        if name != u'value':
            return draw(st.sampled_from([u'checked', u'', u'selected']))
        j = draw(st.integers(0, 9))
        if j < 5:
            return {'u': draw(st.integers(0, 4))}
        if j == 5:
            return {'near': draw(st.integers(0, 5))}
    if k == 0:
        return {'mk': escaped(draw(markup_text))}
    if k == 1:
        return {'b': draw(st.text(alphabet=u'ab<&" ', max_size=4)).encode(
            'ascii').hex()}
    if k == 2 and name not in (u'name', u'id', u'for', u'for_', u'tabindex',
                               u'value'):
        return None
    if k < 6:
        return draw(SUFFIX_TEXT)
    return draw(markup_text)


@st.composite
def a_tag(draw, controls=True, hostile=True):
    tag = draw(st.sampled_from(TAGS))
    attrs = []
    seen = set()
    if tag == 'input' and draw(st.integers(0, 9)) < 9:
        attrs.append([u'type', draw(st.sampled_from(INPUT_TYPES))])
        seen.add(u'type')
        if attrs[0][1] in ('checkbox', 'radio') and draw(
                st.integers(0, 9)) < 8:
            attrs.append([u'value', attr_value(draw, u'value')])
            seen.add(u'value')
    for name in draw(st.lists(st.sampled_from(ATTR_NAMES), max_size=4)):
        if name.rstrip(u'_') not in seen:
            seen.add(name.rstrip(u'_'))
            attrs.append([name, attr_value(draw, name)])
    if controls:
        for key in draw(st.lists(st.sampled_from(AUTO), max_size=3,
                                 unique=True)):
            if draw(st.booleans()):
                attrs.append([key, draw(SWITCH)])
    out = {'tag': tag, 'attrs': attrs, 'bind': draw(st.integers(0, 7)) > 0,
           'how': draw(st.sampled_from(['prop', 'prop', 'tag', 'open'])),
           'pick': draw(st.integers(0, 9))}
    if tag != 'input' and draw(st.integers(0, 2)) > 0:
        out['contents'] = draw(st.one_of(
            st.none(), st.just(u''), S.plain_text,
            markup_text.map(lambda t: {'mk': escaped(t)}),
            st.just({'mk': u'<b class="x">y</b>'}),
            st.integers(0, 4).map(lambda n: {'u': n}),
            st.integers(0, 4).map(lambda n: {'near': n})))
    return out


@st.composite
def settings_(draw, auto_only=False):
    out = []
    for key in draw(st.lists(st.sampled_from(AUTO), max_size=4,
                             unique=True)):
        out.append([key, draw(SWITCH)])
    if draw(st.booleans()):
        out.append(['domid_format', draw(st.sampled_from(FORMATS))])
    if draw(st.booleans()):
        out.append(['tabindex', S.i(draw(st.sampled_from(
            [1, 1, 5, 99, 0, -1, -7])))])
    if draw(st.integers(0, 3)) == 0:
        out.append(['ordered_attributes', draw(st.booleans())])
    if draw(st.integers(0, 2)) == 0:
        out.append(['filters', draw(st.lists(a_filter(), min_size=1,
                                             max_size=3))])
    return out


@st.composite
def a_filter(draw):
    return {'tags': draw(st.one_of(st.none(), st.lists(
        st.sampled_from(['input', 'label', 'div', 'textarea', 'option']),
        min_size=1, max_size=3))),
        'set': draw(st.one_of(st.none(), st.tuples(st.sampled_from(
            [u'class', u'title', u'name', u'data-f']), markup_text).map(
                list))),
        'drop': draw(st.sampled_from([None, None, u'name', u'id', u'value'])),
        'add': draw(st.sampled_from([None, u'!', u' *']))}


def markup_spec(draw, hostile):
    opt = specs.Opt(specs.names_for(u'_') + [u'a&b', u'x"y', u'<n>'],
                    max_depth=2, max_fields=3)
    spec = draw(st.one_of(
        st.just(None), st.just(None), st.just('boolean'), st.just('array')))
    name = draw(st.one_of(st.sampled_from(opt.names),
                          st.sampled_from(opt.names), st.none()))
    if spec == 'boolean':
        o = draw(st.sampled_from([{}, {}, {'true': u'yes', 'false': u'no'},
                                  {'true': u'a&b', 'false': u''}]))
        return {'t': 'Boolean', 'n': name, 'o': dict(o)}
    if spec == 'array':
        m = draw(st.sampled_from([{'t': 'String', 'n': None, 'o': {}},
                                  {'t': 'Integer', 'n': None, 'o': {}},
                                  {'t': 'String', 'n': None,
                                   'o': {'strip': False}}]))
        return {'t': draw(st.sampled_from(['Array', 'MultiValue'])),
                'n': name, 'o': {'prune': draw(st.booleans())}, 'of': [m]}
    return specs.root_spec(draw, opt, scalar_ok=draw(st.integers(0, 3)) > 0)


def text_value(draw, spec):
    t = spec['t']
    if t in ('List', 'Array', 'MultiValue', 'JoinedString'):
        m = specs.member(spec)
        n = draw(st.integers(0, 3))
        if t == 'JoinedString':
            return specs.value_for(draw, spec)
        return {'l': [text_value(draw, m) for _ in range(n)]}
    if t in ('Dict', 'SparseDict', 'Form'):
        return {'m': [[s['n'], text_value(draw, s)] for s in spec['of']
                      if draw(st.integers(0, 5))]}
    if t == 'String' and draw(st.integers(0, 3)):
        return draw(st.one_of(markup_text, SUFFIX_TEXT))
    return specs.value_for(draw, spec, hostile=2)


@st.composite
def tag_case(draw, tags, hostile=True):
    spec = markup_spec(draw, hostile)
    return {'spec': spec, 'value': text_value(draw, spec),
            'dialect': draw(st.sampled_from(['xml', 'xhtml', 'html'])),
            'settings': draw(settings_()) if draw(st.booleans()) else [],
            'wrapper': draw(st.sampled_from(
                [None, None, None, 'markupsafe', 'jinja2', 'own'])),
            'tags': draw(st.lists(a_tag(controls=tags), min_size=1,
                                  max_size=4))}


@st.composite
def plain_tags(draw):
    """Scalars of hostile text in the tags that show it."""
    spec = {'t': 'String', 'n': draw(st.sampled_from(
        [u'n', u'a&b', u'x"y', u'<n>'])),
        'o': draw(st.sampled_from([{}, {'strip': False}]))}
    tags = []
    for _ in range(draw(st.integers(1, 3))):
        tag = draw(st.sampled_from(['textarea', 'textarea', 'input', 'button',
                                    'option', 'label', 'div']))
        attrs = []
        if tag == 'input':
            attrs.append([u'type', draw(st.sampled_from(
                ['text', 'hidden', 'submit', 'checkbox', 'radio']))])
        if draw(st.integers(0, 2)) == 0:
            attrs.append([u'value', draw(st.one_of(
                st.just({'u': 0}), entity_text))])
        if draw(st.integers(0, 2)) == 0:
            attrs.append([draw(st.sampled_from([u'title', u'class', u'id'])),
                          draw(st.one_of(markup_text, entity_text.map(
                              lambda x: {'mk': escaped(x)})))])
        out = {'tag': tag, 'attrs': attrs, 'bind': True, 'pick': 0,
               'how': draw(st.sampled_from(['prop', 'tag', 'open']))}
        if tag != 'input' and draw(st.integers(0, 3)) == 0:
            out['contents'] = draw(st.one_of(
                st.just({'u': 0}), entity_text.map(
                    lambda x: {'mk': escaped(x)})))
        tags.append(out)
    return {'spec': spec, 'value': draw(st.one_of(entity_text, markup_text)),
            'dialect': draw(st.sampled_from(['xml', 'xhtml', 'html'])),
            'settings': draw(settings_()) if draw(st.booleans()) else [],
            'wrapper': draw(st.sampled_from(
                [None, None, 'markupsafe', 'jinja2', 'own'])),
            'tags': tags}


@st.composite
def box_spec(draw, name):
    k = draw(st.sampled_from(['Boolean', 'Boolean', 'Boolean', 'Array',
                              'MultiValue', 'Enum', 'String', 'Integer']))
    spec = {'t': k, 'n': name, 'o': {}}
    if k == 'Boolean':
        spec['o'] = dict(draw(st.sampled_from(
            [{}, {'true': u'yes', 'false': u'no'}, {'true': u'Y', 'false': u''},
             {'true': u'2', 'false': u'1', 'true_syn': [u'2', u'two'],
              'false_syn': [u'1', u'']}])))
        value = draw(st.sampled_from([True, True, False, u'on', u'zz', None]))
    elif k in ('Array', 'MultiValue'):
        spec['of'] = [{'t': draw(st.sampled_from(['String', 'Integer'])),
                       'n': None, 'o': {}}]
        value = {'l': draw(st.lists(st.sampled_from([u'1', u'2', u'3', u'x']),
                                    max_size=3))}
    elif k == 'Enum':
        spec['o'] = {'values': [u'a', u'b', u'c']}
        value = draw(st.sampled_from([u'a', u'b', u'zz', u'']))
    else:
        value = draw(st.sampled_from([u'1', u'2', u' 1', u'', u'x', u'0']))
    return spec, value


@st.composite
def box_tags(draw):
    """Checkable tags, checked or not as the template has it."""
    spec, value = draw(box_spec(u'n'))
    tags = []
    for _ in range(draw(st.integers(1, 4))):
        tag = draw(st.sampled_from(['input', 'input', 'option']))
        attrs, mark = [], u'selected'
        if tag == 'input':
            attrs.append([u'type', draw(st.sampled_from(
                ['checkbox', 'checkbox', 'radio']))])
            mark = u'checked'
        if draw(st.integers(0, 4)):
            attrs.append([u'value', draw(st.one_of(
                st.integers(0, 3).map(lambda n: {'u': n}),
                st.integers(0, 5).map(lambda n: {'near': n}),
                st.sampled_from([u'1', u'2', u'3', u'x', u'', u'yes', u'Y',
                                 u'True', u'False', u'on', u'a'])))])
        if draw(st.booleans()):
            attrs.append([mark, draw(st.sampled_from([mark, u'']))])
        for key in draw(st.lists(st.sampled_from(AUTO), max_size=2,
                                 unique=True)):
            if draw(st.integers(0, 3)) == 0:
                attrs.append([key, draw(SWITCH)])
        out = {'tag': tag, 'attrs': attrs, 'bind': draw(st.integers(0, 9)) > 0,
               'pick': 0, 'how': draw(st.sampled_from(['prop', 'tag',
                                                       'open']))}
        if tag == 'option' and draw(st.booleans()):
            out['contents'] = draw(st.one_of(
                st.sampled_from([u'1', u'x', u'a', u' 1 ']),
                st.integers(0, 3).map(lambda n: {'u': n}),
                st.integers(0, 4).map(lambda n: {'near': n})))
        tags.append(out)
    return {'spec': spec, 'value': value, 'unset': draw(
        st.integers(0, 3)) == 0,
            'dialect': draw(st.sampled_from(['xml', 'xhtml', 'html'])),
            'settings': draw(settings_()) if draw(
                st.integers(0, 3)) == 0 else [],
            'wrapper': None, 'tags': tags}


@st.composite
def box_forms(draw):
    """Forms of fields that are usually rendered as boxes."""
    fields, values = [], []
    for name in draw(st.lists(st.sampled_from([u'a', u'b', u'c', u'd']),
                              min_size=1, max_size=4, unique=True)):
        spec, value = draw(box_spec(name))
        fields.append(spec)
        if draw(st.integers(0, 5)):
            values.append([name, value])
    return {'spec': {'t': draw(st.sampled_from(['Dict', 'SparseDict'])),
                     'n': draw(st.sampled_from([None, u'f'])), 'o': {},
                     'of': fields},
            'value': {'m': values},
            'dialect': draw(st.sampled_from(['xml', 'html'])),
            'kinds': draw(st.lists(st.sampled_from(
                ['checkbox', 'checkbox', 'radio', 'select', 'multi',
                 'text']), min_size=3, max_size=6)),
            'others': draw(st.lists(st.sampled_from(
                [u'1', u'2', u'yes', u'True', u'x', u'zz', u'']), max_size=3))}


@st.composite
def nesting(draw):
    ops = []
    depth = 0
    for _ in range(draw(st.integers(3, 16))):
        kind = draw(st.sampled_from(
            ['begin', 'begin', 'begin', 'end', 'end', 'set', 'set', 'item',
             'update', 'tag', 'tag', 'tag', 'tag', 'look', 'openclose']))
        op = {'op': kind}
        if kind in ('begin', 'set', 'update'):
            op['settings'] = draw(settings_())
            j = draw(st.integers(0, 7))
            if j == 0:
                op['settings'] = op['settings'] + [[draw(st.sampled_from(
                    ['bogus', 'auto_names', 'tab_index', 'Auto_name'])),
                    True]]
        elif kind == 'item':
            s = draw(settings_())
            op['settings'] = s[:1] if draw(st.integers(0, 5)) else [
                ['bogus', True]]
        elif kind == 'tag':
            op['tag'] = draw(a_tag())
        elif kind == 'openclose':
            op['tags'] = draw(st.lists(st.sampled_from(
                ['div', 'select', 'div', 'textarea']), min_size=1,
                max_size=4))
        ops.append(op)
    spec = markup_spec(draw, False)
    return {'ops': ops, 'spec': spec, 'value': text_value(draw, spec),
            'dialect': draw(st.sampled_from(['xml', 'html'])),
            'settings': draw(settings_()),
            'bogus': draw(st.integers(0, 9)) == 0}


# -- genshi ----------------------------------------------------------------

GSWITCH = st.sampled_from([u'on', u'off', u'auto', u'on', u'yes', u'no'])
GCONTROL = ['auto_name', 'auto_value', 'auto_domid', 'auto_for',
            'auto_tabindex', 'auto_filter']


@st.composite
def mixture(draw, xml=False):
    """Contents of several parts: text, expressions, macros, iterators."""
    parts = []
    for _ in range(draw(st.integers(1, 3))):
        k = draw(st.sampled_from(['lit', 'v', 'def', 'it', 'n', 'el'] if xml
                                 else ['lit', 'v', 'def', 'it', 'n']))
        if k == 'it':
            v = draw(st.lists(SUFFIX_TEXT, max_size=3))
        elif k == 'n':
            v = draw(st.integers(-2, 9))
        elif k in ('el', 'def', 'lit'):
            v = draw(st.sampled_from([u'a', u'b c', u'<&>', u'"', u'on']))
        else:
            v = draw(SUFFIX_TEXT)
        parts.append({k: v})
    return {'mix': parts}


@st.composite
def g_node(draw, depth):
    k = draw(st.integers(0, 9))
    if depth < 2 and k < 3:
        settings = [[key, draw(GSWITCH)] for key in draw(st.lists(
            st.sampled_from(GCONTROL), max_size=3, unique=True))]
        if draw(st.booleans()):
            settings.append(['tabindex', draw(st.sampled_from(
                [u'1', u'7', u'0', u'-1']))])
        if draw(st.integers(0, 2)) == 0:
            settings.append(['domid_format', draw(st.sampled_from(
                [u'f_%s', u'-%s-', u'x%s']))])
        if draw(st.integers(0, 2)) == 0:
            settings.append(['filters', draw(st.lists(
                a_filter(), min_size=1, max_size=2))])
        if k == 0:
            return {'node': 'set', 'settings': settings}
        return {'node': 'with', 'settings': settings,
                'children': draw(g_nodes(depth + 1))}
    tag = draw(st.sampled_from(['input', 'input', 'input', 'textarea',
                                'textarea', 'button', 'select', 'label',
                                'form', 'div', 'option']))
    attrs = []
    seen = set()
    if tag == 'input' and draw(st.integers(0, 9)) < 9:
        attrs.append([u'type', draw(st.sampled_from(INPUT_TYPES))])
    for name in draw(st.lists(st.sampled_from(
            [u'class', u'title', u'id', u'for', u'name', u'value', u'value',
             u'value', u'tabindex', u'checked', u'selected', u'data-x']),
            max_size=4, unique=True)):
        if name == u'value' and draw(st.booleans()):
            v = {'u': draw(st.integers(0, 4))}
        elif name in (u'checked', u'selected'):
            v = name
        else:
            v = draw(st.one_of(SUFFIX_TEXT, markup_text, markup_text.map(
                lambda t: {'mk': escaped(t)}), mixture()))
        attrs.append([name, v])
    node = {'node': 'tag', 'tag': tag, 'attrs': attrs,
            'lit': draw(st.booleans()),
            'bind': draw(st.integers(0, 7)) > 0,
            'pick': draw(st.integers(0, 9)),
            'controls': [[c, draw(GSWITCH), draw(st.booleans())]
                         for c in draw(st.lists(st.sampled_from(GCONTROL),
                                                max_size=2, unique=True))]}
    if draw(st.integers(0, 3)) == 0:
        node['pyattrs'] = [[k, draw(st.sampled_from(
            [u'a', u'a b', u'<"&>', u'on', u'1']))] for k in draw(st.lists(
                st.sampled_from([u'class', u'title', u'id', u'for', u'value',
                                 u'data-y']),
                min_size=1, max_size=2, unique=True))]
    if tag in ('textarea', 'button', 'label', 'option', 'div'):
        node['contents'] = draw(st.one_of(
            st.none(), st.none(), st.sampled_from([
                u'x', u' a b ', u'ab']),
            st.integers(0, 4).map(lambda n: {'u': n}),
            markup_text.map(lambda t: {'mk': escaped(t)}),
            st.just({'mk': u'<b>y</b>'}),
            mixture(tag in ('button', 'label', 'div'))))
        if tag == 'div' and depth < 2 and draw(st.booleans()):
            node['contents'] = None
            node['children'] = draw(g_nodes(depth + 1))
    elif tag == 'form' and depth < 2:
        node['children'] = draw(g_nodes(depth + 1))
    elif tag == 'select':
        opts = []
        for _ in range(draw(st.integers(0, 3))):
            opts.append({
                'attrs': [[u'value', draw(st.one_of(
                    st.integers(0, 4).map(lambda n: {'u': n}),
                    S.plain_text))]] if draw(st.booleans()) else [],
                'contents': draw(st.one_of(
                    st.none(), st.integers(0, 4).map(lambda n: {'u': n}),
                    S.plain_text)),
                'group': draw(st.integers(0, 3)) == 0,
                'loop': draw(st.one_of(st.none(), st.none(), st.lists(
                    st.one_of(st.integers(0, 4).map(lambda n: {'u': n}),
                              S.plain_text), max_size=3))),
                'inline': draw(st.integers(0, 3)) == 0,
                'cond': draw(st.integers(0, 3)) == 0,
                'bind': draw(st.integers(0, 5)) == 0,
                'pick': draw(st.integers(0, 9)),
                'controls': [[c, draw(GSWITCH), draw(st.booleans())]
                             for c in draw(st.sampled_from(
                                 [[], [], [], ['auto_value'],
                                  ['auto_name', 'auto_tabindex']]))]})
        node['options'] = opts
    return node


@st.composite
def g_nodes(draw, depth):
    return [draw(g_node(depth)) for _ in range(draw(st.integers(1, 3)))]


@st.composite
def genshi_case(draw):
    spec = markup_spec(draw, True)
    return {'spec': spec, 'value': text_value(draw, spec),
            'nodes': draw(g_nodes(0)), 'ns': draw(st.booleans())}


# -- submission ------------------------------------------------------------

NO_BREAKS = str.maketrans({c: None for c in u'\r\n\x00'})


def tame(x):
    """Texts that a browser transmits unchanged."""
    if isinstance(x, str):
        return x.translate(NO_BREAKS)
    if isinstance(x, list):
        return [tame(i) for i in x]
    if isinstance(x, dict):
        if 'b' in x:
            return u'bytes'
        return {k: tame(v) if k in ('l', 't', 'm', 'o', 'pairs') else v
                for k, v in x.items()}
    return x


@st.composite
def submission(draw):
    opt = specs.Opt(specs.names_for(u'_', True) + [u'a&b', u'x"y', u'<n>'],
                    max_depth=3, max_fields=4)
    spec = specs.root_spec(draw, opt)
    return {'spec': spec, 'value': tame(text_value(draw, spec)),
            'dialect': draw(st.sampled_from(['xml', 'xhtml', 'html'])),
            'kinds': draw(st.lists(st.sampled_from(
                ['text', 'text', 'hidden', 'textarea', 'textarea', 'radio',
                 'select', 'checkbox', 'multi']), min_size=4, max_size=8)),
            'others': draw(st.lists(st.one_of(
                S.plain_text, S.odd_text).map(tame), max_size=3))}


PROPS = [
    Prop('C27',
         'Tags of every kind with hostile attribute values, contents and '
         'bound elements, in three dialects and four markup types, tokenised '
         'strictly and read back by an XML and an HTML parser. Non-trivial: '
         'a character that needs escaping was rendered.',
         [('tags', 3, lambda: tag_case(False)), ('texts', 2, plain_tags)],
         quick=5000, thorough=120000),
    Prop('C28',
         'Tags of every kind bound to random elements with explicit '
         'attributes (often the element\'s own text), per-tag and generator '
         'switches, compared to an independent model of the transforms. '
         'Non-trivial: a bound tag whose attributes the model changed.',
         [('tags', 3, lambda: tag_case(True)), ('boxes', 2, box_tags)],
         quick=6000, thorough=150000),
    Prop('C29',
         'Random histories of begin, end, set, item assignment, update and '
         'tags (also opened and closed apart) against a model stack of '
         'frames, with unknown settings and unbalanced ends mixed in. '
         'Non-trivial: two or more nested contexts and a tag inside.',
         [('ops', 1, nesting)], quick=3000, thorough=100000),
    Prop('C30',
         'Random trees of tags, form:with and form:set rendered by Genshi '
         'and by the Generator and compared token by token. Non-trivial: '
         'some bound tag and some setting or control attribute.',
         [('trees', 1, genshi_case)], quick=4000, thorough=80000),
    Prop('C31',
         'Random forms rendered as text inputs, textareas, radios, selects '
         'and checkboxes, parsed and submitted as a browser would, restored '
         'with set_flat. Non-trivial: three or more controls submitted.',
         [('forms', 2, submission), ('boxes', 1, box_forms)], quick=5000, thorough=120000),
]
