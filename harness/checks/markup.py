# -*- coding: utf-8 -*-
"""C27-C31: tags, transforms, generator contexts, Genshi, submissions."""
import re

from lib import build, dec, kind, member, show, snapshot
from checks import flat
import xmlstream

DEFAULTS = {u'auto_name': True, u'auto_value': True, u'auto_domid': False,
            u'auto_for': False, u'auto_tabindex': False,
            u'auto_filter': False, u'domid_format': u'f_%s', u'tabindex': 0,
            u'filters': (), u'ordered_attributes': True}
CONTROLS = frozenset(k for k in DEFAULTS if k.startswith(u'auto_'))
PAIRED = (u'form', u'textarea', u'select', u'option')
YES = (u'1', u'true', u't', u'on', u'yes')
NO = (u'0', u'false', u'nil', u'off', u'no')


class Html(unicode):
    """A markup type of our own."""
    def __html__(self):
        return self


class NotText(object):
    """Has __html__ without being text."""
    def __init__(self, html):
        self.html = html

    def __html__(self):
        return self.html


def wrapper_for(name):
    from flatland.out import generic
    if name == 'markupsafe':
        import markupsafe
        return markupsafe.Markup
    if name == 'jinja2':
        import jinja2
        return jinja2.Markup
    if name == 'own':
        return Html
    return generic.Markup


def switch(x):
    """True, False or None (automatic) for a switch as given."""
    from flatland.util import Maybe
    if x is None or x is Maybe:
        return None
    if isinstance(x, bool):
        return x
    x = unicode(x).lower()
    return True if x in YES else (False if x in NO else None)


def decoded_switch(x):
    if isinstance(x, dict) and 'maybe' in x:
        from flatland.util import Maybe
        return Maybe
    return x if isinstance(x, (bool, unicode)) else dec(x)


def escape(text):
    return (text.replace(u'&', u'&amp;').replace(u'<', u'&lt;')
            .replace(u'>', u'&gt;').replace(u'"', u'&quot;'))


# -- reading markup ----------------------------------------------------------

ATTR = u' ([^\\s<>/"\'=]+)="([^"<>]*)"'
HEAD = re.compile(u'<([a-z]+)((?:%s)*)( /)?>' % ATTR.replace(
    u'(', u'(?:'), re.UNICODE)
ENTITIES = re.compile(u'&(?:amp|lt|gt|quot);|&|<')


def plain(ctx, html, what):
    """Unescape, refusing anything that was not properly escaped."""
    def one(m):
        got = m.group(0)
        ctx.ok(len(got) > 1, u'%s: a raw %s in %s', what, got, html)
        return {u'&amp;': u'&', u'&lt;': u'<', u'&gt;': u'>',
                u'&quot;': u'"'}[got]
    return ENTITIES.sub(one, html)


def read_head(ctx, html, what):
    """(tag name, [(name, raw value)], self closed, rest)"""
    m = HEAD.match(html)
    ctx.ok(m is not None, u'%s: not a well formed tag: %s', what, html)
    attrs = re.findall(ATTR, m.group(2), re.UNICODE)
    names = [k for k, v in attrs]
    ctx.ok(len(set(names)) == len(names), u'%s: repeated attribute in %s',
           what, html)
    return m.group(1), attrs, bool(m.group(3)), html[m.end():]


# -- the reference transforms ------------------------------------------------

class Unjudged(Exception):
    pass


class Attr(object):
    """An expected attribute: its text and whether it goes out verbatim."""
    def __init__(self, text, raw=None):
        self.text, self.raw = text, raw


def switched(key, local, settings):
    given = switch(local.pop(key, None))
    value = given
    if value is None:
        value = switch(settings[key])
    if value is None:
        value = DEFAULTS[key]
    return value, given is True


def matches(bind, text):
    """Does a checkable or option of this value match the element?"""
    import flatland
    from flatland.schema.base import Slot
    if isinstance(bind, (flatland.Array,)):
        hits = [c for c in bind.children if c.u == text]
        twin = bind.member_schema()
        try:
            twin.set(text)
        except Exception:
            raise Unjudged()
        if twin.u != text:
            raise Unjudged()    # not the text a member would have
        if not hits:
            return False
        if any(c.value == twin.value for c in hits):
            return True
        raise Unjudged()
    if isinstance(bind, (flatland.List, flatland.Dict)) and not isinstance(
            bind, flatland.DateYYYYMMDD):
        raise Unjudged()
    return bind.u == text


def expected(tag, attrs, contents, settings, bind):
    """Apply the transforms: (attrs, contents) with attrs {name: Attr} and
    contents None, u'' or (text, is markup).  Advances settings' tabindex."""
    import flatland
    local = dict((k, v) for k, v in attrs.items() if k in CONTROLS)
    out = dict((k, v) for k, v in attrs.items() if k not in CONTROLS)

    def value_of(name):
        a = out.get(name)
        return None if a is None else a.text

    # name
    on, forced = switched(u'auto_name', local, settings)
    if on and bind is not None and bind.flattened_name():
        if forced or (value_of(u'name') is None and tag in (
                u'input', u'button', u'select', u'textarea', u'form')):
            out[u'name'] = Attr(bind.flattened_name())
    # value
    on, forced = switched(u'auto_value', local, settings)
    if on and bind is not None and (forced or tag in (
            u'button', u'input', u'option', u'textarea')):
        kind_ = value_of(u'type') or u''
        if tag == u'input' and kind_ in (u'radio', u'checkbox'):
            if value_of(u'value') is None and kind_ == u'checkbox' and \
                    isinstance(bind, flatland.Boolean):
                out[u'value'] = Attr(bind.true)
            if value_of(u'value') is not None:
                if matches(bind, value_of(u'value')):
                    out[u'checked'] = Attr(u'checked')
                else:
                    out.pop(u'checked', None)
        elif tag == u'input' and kind_ in (u'password', u'file', u'image'):
            if forced:
                out[u'value'] = Attr(bind.u)
        elif tag == u'option':
            text = value_of(u'value')
            if text is None:
                text = u'' if contents is None else contents[0].strip()
            if matches(bind, text):
                out[u'selected'] = Attr(u'selected')
            else:
                out.pop(u'selected', None)
        elif tag == u'textarea':
            if contents is None or forced:
                contents = (escape_text(bind.u), True)
        elif forced or value_of(u'value') is None:
            out[u'value'] = Attr(bind.u)

    def dom_id():
        base = (bind.flattened_name() if bind is not None
                else value_of(u'name'))
        if not base:
            return None
        if tag == u'input' and value_of(u'type') in (u'radio', u'checkbox'):
            tail = u''.join(
                c for c in value_of(u'value') or u''
                if c in u'abcdefghijklmnopqrstuvwxyz'
                u'ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_:.')
            if tail:
                base = base + u'_' + tail
        return settings[u'domid_format'].replace(u'%s', base).replace(
            u'%%', u'%')

    # id
    on, forced = switched(u'auto_domid', local, settings)
    if on and (forced or (value_of(u'id') is None and tag in (
            u'input', u'button', u'select', u'textarea'))):
        if dom_id():
            out[u'id'] = Attr(dom_id())
    # for
    on, forced = switched(u'auto_for', local, settings)
    if on and bind is not None and (forced or (
            value_of(u'for') is None and tag == u'label')):
        if dom_id():
            out[u'for'] = Attr(dom_id())
    # tabindex
    on, forced = switched(u'auto_tabindex', local, settings)
    if on and settings[u'tabindex'] != 0 and (forced or (
            value_of(u'tabindex') is None and tag in (
                u'input', u'button', u'select', u'textarea'))):
        out[u'tabindex'] = Attr(u'%d' % settings[u'tabindex'])
        if settings[u'tabindex'] > 0:
            settings[u'tabindex'] += 1
    # filters
    on, forced = switched(u'auto_filter', local, settings)
    if on:
        for spec in settings[u'filters']:
            spec = getattr(spec, 'spec', spec)
            if spec['tags'] and tag not in spec['tags']:
                continue
            if spec['set']:
                out[spec['set'][0]] = Attr(spec['set'][1])
            out.pop(spec['drop'], None)
            if spec['add']:
                contents = ((contents[0] if contents else u'') + spec['add'],
                            True)
    return out, contents


def escape_text(text):
    return (text.replace(u'&', u'&amp;').replace(u'<', u'&lt;')
            .replace(u'>', u'&gt;'))


def real_filter(spec, escaping=False):
    def fn(tagname, attributes, contents, context, bind):
        if spec['set']:
            attributes[spec['set'][0]] = spec['set'][1]
        if spec['drop']:
            attributes.pop(spec['drop'], None)
        if spec['add']:
            from flatland.out.generic import Markup
            if contents is None:
                return Markup(spec['add'])
            if isinstance(contents, list) or \
                    getattr(contents, 'has_tags', False):
                return contents
            if hasattr(contents, '__html__'):
                contents = contents.__html__()
            elif escaping:
                from genshi.core import escape
                contents = unicode(escape(contents, quotes=False))
            return Markup(contents + spec['add'])
        return contents
    if spec['tags']:
        fn.tags = spec['tags']
    fn.spec = spec
    return fn


# -- cases -------------------------------------------------------------------

def root_of(case):
    el = build(case['spec'])()
    if not case.get('unset'):
        el.set(dec(case['value']))
    nodes = []

    def visit(node, spec):
        nodes.append(node)
        k = kind(spec)
        if k in ('list', 'array'):
            for c in node:
                visit(c, member(spec))
        elif k == 'dict' or k == 'sparse':
            for s in spec['of']:
                if s['n'] in node.keys():
                    visit(node[s['n']], s)
        elif k == 'date':
            nodes.extend(node.children)
    visit(el, case['spec'])
    return el, nodes


def text_of(bind, how):
    """A text related to what the element holds."""
    texts = [u'x']
    if bind is not None:
        import flatland
        if isinstance(bind, flatland.Array):
            texts = [c.u for c in bind.children] + [bind.u, u'x']
        else:
            texts = [bind.u]
    if 'u' in how:
        return texts[how['u'] % len(texts)]
    t = texts[0]
    return [t + u' ', u' ' + t, t.upper(), t[:-1], t + u'x',
            u'0' + t][how['near']]


def given_attrs(tagcase, bind, wrapper):
    """(keyword arguments, {name: Attr})"""
    kw, attrs = {}, {}
    for i, (k, v) in enumerate(tagcase['attrs']):
        name = k.rstrip(u'_')
        if k in CONTROLS:
            v = decoded_switch(v)
            kw[k] = v
            attrs[k] = v
            continue
        if isinstance(v, dict) and ('u' in v or 'near' in v):
            v = text_of(bind, v)
        if isinstance(v, dict) and 'mk' in v:
            kw[k] = [wrapper, wrapper, Html, NotText][i % 4 if name not in (
                u'value', u'name') else 0](v['mk'])
            attrs[name] = Attr(v['mk'], v['mk'])
        elif isinstance(v, dict):
            kw[k] = dec(v)
            attrs[name] = Attr(kw[k].decode('ascii'))
        elif v is None:
            kw[k] = None
            attrs[name] = Attr(None)
        else:
            kw[k] = v
            attrs[name] = Attr(v)
    return kw, attrs


def given_contents(tagcase, bind, wrapper):
    """(what to pass, (text, is markup) or None)"""
    c = tagcase.get('contents')
    if c is None:
        return None, None
    if isinstance(c, dict) and 'mk' in c:
        return wrapper(c['mk']), (c['mk'], True)
    if isinstance(c, dict):
        c = text_of(bind, c)
        if set(c) & set(u'<>&'):
            c = u'ab'
    return c, (c, True)


def check_tag(ctx, gen, settings, tagcase, bind, dialect, wrapper, what):
    """Generate a tag and compare; returns whether a bind changed it."""
    tag = tagcase['tag']
    kw, attrs = given_attrs(tagcase, bind, wrapper)
    contents, want_contents = given_contents(tagcase, bind, wrapper)
    if contents is not None or tagcase['pick'] % 2:
        kw[u'contents'] = contents
    before = dict(attrs)
    tabindex = settings[u'tabindex']
    unsure = False
    try:
        want, want_contents = expected(tag, attrs, want_contents, settings,
                                       bind)
    except Unjudged:
        settings[u'tabindex'] = tabindex
        ctx.label('unjudged')
        return None
    how = tagcase['how']
    if how == 'tag' or tag == 'squiznart' or tag == 'div':
        obj = None
        if bind is None and not kw:
            got = gen.tag(tag)()
        elif how == 'open':
            obj = gen.tag(tag)
        else:
            got = gen.tag(tag, bind, **kw)
    else:
        obj = getattr(gen, tag)
        if how != 'open':
            got = obj(bind, **kw) if bind is not None else obj(**kw)
    if how == 'open' and obj is not None:
        head = obj.open(bind, **kw)
        inner = obj.contents
        tail = obj.close()
        for part in (head, inner, tail):
            ctx.ok(type(part) is wrapper, u'%s: %s is not %s', what, part,
                   wrapper)
        got = unicode(head) + unicode(inner) + unicode(tail)
    else:
        ctx.ok(type(got) is wrapper and hasattr(got, '__html__'),
               u'%s: %s is a %s, not the markup type', what, got, type(got))
        got = unicode(got)
    name, have, closed, rest = read_head(ctx, got, what)
    ctx.eq(name, tag, u'%s: tag of %s' % (what, got))
    raw = dict(have)
    ctx.eq(sorted(raw), sorted(want), u'%s: attributes of %s' % (what, got))
    for k, a in want.items():
        if a.raw is not None:
            ctx.eq(raw[k], a.raw, u'%s: escaped attribute %s of %s' % (
                what, k, got))
        else:
            ctx.eq(plain(ctx, raw[k], what), a.text or u'',
                   u'%s: attribute %s of %s' % (what, k, got))
    if switch(settings[u'ordered_attributes']) is not False:
        order = [u'type', u'name', u'value']
        ctx.eq([k for k, v in have],
               [k for k in order if k in raw] +
               sorted(k for k in raw if k not in order),
               u'%s: order of attributes in %s' % (what, got))
    text = want_contents[0] if want_contents else u''
    if how == 'open' and obj is not None:
        shape = text + u'</%s>' % tag
        closing = False
    elif not text and tag not in PAIRED and dialect != 'html':
        shape, closing = u'', True
    elif not text and tag == u'input':
        shape, closing = u'', False
    else:
        shape, closing = text + u'</%s>' % tag, False
    ctx.eq(rest, shape, u'%s: contents and end of %s' % (what, got))
    ctx.ok(closed is closing, u'%s: self closing or not: %s', what, got)
    return got, want, text, any(
        k not in before or before[k] is not want[k] for k in want) or any(
        k not in want for k in before if k not in CONTROLS)


def applied(pairs):
    """Settings for flatland and for the model."""
    real, model = {}, {}
    for k, v in pairs:
        if k == 'filters':
            v = [real_filter(f) for f in v]
        elif k != 'domid_format':
            v = decoded_switch(v)
        real[k.encode('ascii')] = v
        model[k] = v
    return real, model


def new_generator(case, wrapper, named):
    from flatland.out.markup import Generator
    real, model = applied(case['settings'])
    if named:
        real['markup_wrapper'] = wrapper
    settings = dict(DEFAULTS)
    settings.update(model)
    return Generator(case['dialect'], **real), settings


XML_OK = re.compile(u'^[\\t\\n\\r\\x20-\\ud7ff\\ue000-\\ufffd]*$')
SPACES = {ord(u'\t'): u' ', ord(u'\n'): u' ', ord(u'\r'): u' '}


def xml_read(text):
    from javax.xml.parsers import DocumentBuilderFactory
    from org.xml.sax import InputSource
    from java.io import StringReader
    builder = DocumentBuilderFactory.newInstance().newDocumentBuilder()
    builder.setErrorHandler(None)
    return builder.parse(InputSource(StringReader(text))).getDocumentElement()


def cross_read(ctx, got, tag, want, text, dialect, what):
    """Read the tag back with parsers that know nothing of flatland."""
    import HTMLParser
    import java.lang
    attrs = dict((k, xmlstream.unescape(a.raw) if a.raw is not None
                  else a.text or u'') for k, a in want.items())
    if dialect != 'html' and XML_OK.match(got):
        try:
            el = xml_read(got)
        except java.lang.Throwable, exc:
            ctx.fail(u'%s: not well formed: %s (%s)', what, got,
                     unicode(exc.getMessage()))
        have = el.getAttributes()
        ctx.eq(dict((have.item(i).getName(), have.item(i).getValue())
                    for i in range(have.getLength())),
               dict((k, v.replace(u'\r\n', u' ').translate(SPACES))
                    for k, v in attrs.items()),
               u'%s: attributes read from %s' % (what, got))
        if u'<' not in text:
            ctx.eq(el.getTextContent(), xmlstream.unescape(text).replace(
                u'\r\n', u'\n').replace(u'\r', u'\n'),
                u'%s: text read from %s' % (what, got))
        ctx.label('xml')
    starts = []

    class Reader(HTMLParser.HTMLParser):
        def handle_starttag(self, tag, attrs):
            starts.append((tag, attrs))
    if u'<' not in text and not re.search(u'[^\\x09-\\x0d\\x20-\\ufffd]', got):
        r = Reader()
        r.feed(got)
        r.close()
        ctx.eq([(t, dict(a)) for t, a in starts],
               [(tag, dict((k.lower(), v) for k, v in attrs.items()))],
               u'%s: read from %s' % (what, got))


def c27(ctx, mode, case):
    tags(ctx, case, True)


def c28(ctx, mode, case):
    tags(ctx, case, False)


def tags(ctx, case, cross):
    wrapper = wrapper_for(case['wrapper'])
    gen, settings = new_generator(case, wrapper, case['wrapper'] is not None)
    root, nodes = root_of(case)
    before = snapshot(root, case['spec'])
    flat_before = root.flatten()
    for i, t in enumerate(case['tags']):
        bind = nodes[t['pick'] % len(nodes)] if t['bind'] else None
        what = u'tag %d (%s, bound to %s)' % (i, t['tag'], show(bind, 80))
        res = check_tag(ctx, gen, settings, t, bind, case['dialect'],
                        wrapper, what)
        if res is None:
            return
        got, want, text, changed = res
        if cross:
            cross_read(ctx, got, t['tag'], want, text, case['dialect'],
                       what)
            ctx.nt(any(set(a.text or u'') & set(u'<>&"')
                       for a in want.values() if a.raw is None) or u'&' in text)
        else:
            ctx.nt(bind is not None and changed)
            for k in (u'checked', u'selected', u'id', u'for', u'tabindex'):
                if k in want:
                    ctx.label(k)
    ctx.eq(snapshot(root, case['spec']), before, u'the element afterwards')
    ctx.eq(root.flatten(), flat_before, u'the flat element afterwards')


# -- C29 ---------------------------------------------------------------------

def c29(ctx, mode, case):
    from flatland.out.markup import Generator
    wrapper = wrapper_for(None)
    other = Generator('xml')
    if case['bogus']:
        ctx.raises(KeyError, lambda: Generator('xml', bogus=1),
                   u'unknown initial setting')
        ctx.raises(TypeError, lambda: Generator('sgml'), u'unknown dialect')
    gen, base = new_generator(case, wrapper, False)
    stack = [base]
    root, nodes = root_of(case)
    log = []
    for i, op in enumerate(case['ops']):
        name = op['op']
        log.append(name)
        what = u'after ' + u', '.join(log)
        real, model = applied(op.get('settings', ()))
        unknown = [k for k in model if k not in DEFAULTS]
        if name == 'begin':
            if unknown:
                ctx.raises(KeyError, lambda: gen.begin(**real), what)
            else:
                got = gen.begin(**real)
                ctx.ok(got == u'' and type(got) is wrapper,
                       u'%s: begin gave %s', what, got)
                stack.append(dict(stack[-1], **dict(
                    (k, model[k]) for k in model)))
        elif name == 'end':
            if len(stack) == 1:
                ctx.raises(RuntimeError, gen.end, what)
            else:
                got = gen.end()
                ctx.ok(got == u'' and type(got) is wrapper,
                       u'%s: end gave %s', what, got)
                stack.pop()
        elif name == 'set':
            if unknown:
                ctx.raises(TypeError, lambda: gen.set(**real), what)
            else:
                got = gen.set(**real)
                ctx.ok(got == u'' and type(got) is wrapper,
                       u'%s: set gave %s', what, got)
                stack[-1].update(model)
        elif name == 'item':
            for k in real:
                if unknown:
                    ctx.raises(KeyError,
                               lambda: gen.__setitem__(k, real[k]), what)
                else:
                    gen[k] = real[k]
                    stack[-1].update(model)
        elif name == 'update':
            if unknown:
                k = unknown[0]
                ctx.raises(KeyError, lambda: gen.update({k: 1}), what)
                ctx.raises(KeyError, lambda: gen.update(
                    **{k.encode('ascii'): 1}), what)
            else:
                if i % 3 == 0:
                    gen.update(real)
                elif i % 3 == 1:
                    gen.update(real.items())
                else:
                    gen.update(**real)
                stack[-1].update(model)
        elif name == 'tag':
            t = op['tag']
            bind = nodes[t['pick'] % len(nodes)] if t['bind'] else None
            if check_tag(ctx, gen, stack[-1], t, bind, case['dialect'],
                         wrapper, what) is None:
                return
            ctx.nt(len(stack) >= 3)
        elif name == 'openclose':
            opened = []
            for t in op['tags']:
                tag = gen.tag(t)
                for o in opened:
                    if o.tagname == t:
                        ctx.ok(tag is o, u'%s: another %s while one is open',
                               what, t)
                if tag not in opened:
                    tag.open()
                    opened.append(tag)
            for o in opened:
                ctx.eq(unicode(o.close()), u'</%s>' % o.tagname, what)
                ctx.ok(gen.tag(o.tagname) is not o,
                       u'%s: a closed tag came back', what)
            # no settings are touched: reflected by the comparison below
            if stack[-1][u'tabindex'] and switch(
                    stack[-1][u'auto_tabindex']):
                stack[-1][u'tabindex'] = gen['tabindex']
        for k in DEFAULTS:
            ctx.ok(k in gen, u'%s: %s not in the generator', what, k)
            have, want = gen[k], stack[-1][k]
            if k.startswith(u'auto_'):
                have, want = switch(have), switch(want)
            ctx.eq(have, want, u'%s: setting %s' % (what, k))
        for k in unknown + [u'bogus']:
            ctx.ok(k not in gen, u'%s: %s in the generator', what, k)
            ctx.raises(KeyError, lambda: gen[k], what)
    ctx.label('depth %d' % min(len(stack), 4))
    while len(stack) > 1:
        gen.end()
        stack.pop()
        for k in DEFAULTS:
            have, want = gen[k], stack[-1][k]
            if k.startswith(u'auto_'):
                have, want = switch(have), switch(want)
            ctx.eq(have, want, u'unwinding: setting %s' % k)
    ctx.raises(RuntimeError, gen.end, u'end at the bottom')
    for k, v in DEFAULTS.items():
        ctx.eq(other[k], v, u'another generator\'s %s' % k)
    fresh = Generator('xml')
    for k, v in DEFAULTS.items():
        ctx.eq(fresh[k], v, u'a later generator\'s %s' % k)


# -- C30 ---------------------------------------------------------------------

CONTROL_NAMES = sorted(CONTROLS)
ESCAPED = re.compile(u'^(?:[^&<]|&(?:amp|lt|gt|quot|apos|#[0-9]+);)*$')


def tokens(ctx, html, what):
    """Tags and texts of well formed markup, adjacent texts joined."""
    out = []
    words = []

    def flush():
        if words:
            out.append((u'text', u''.join(words)))
            del words[:]
    for m in xmlstream.TOKEN.finditer(html):
        end, name, attrs, empty, text, stray = m.groups()
        ctx.ok(not stray, u'%s: not well formed: %s', what, html)
        if text is not None:
            ctx.ok(ESCAPED.match(text), u'%s: unescaped text %s', what, text)
            words.append(xmlstream.unescape(text))
            continue
        flush()
        if end:
            out.append((u'end', name))
            continue
        pairs = {}
        for k, a, b in xmlstream.ATTR.findall(attrs or u''):
            ctx.ok(ESCAPED.match(a or b), u'%s: unescaped attribute %s',
                   what, a or b)
            if k != u'xmlns' and not k.startswith(u'xmlns:'):
                ctx.ok(k not in pairs, u'%s: repeated attribute %s', what, k)
                pairs[k] = xmlstream.unescape(a or b)
        out.append((u'start', name, pairs))
        if empty:
            out.append((u'end', name))
    flush()
    return out


class Twins(object):
    """Writes a template and, from the same tree, drives a generator."""

    def __init__(self, ctx, gen, nodes):
        self.ctx, self.gen, self.nodes = ctx, gen, nodes
        self.values = []
        self.macros = []

    def var(self, value):
        self.values.append(value)
        return u'${v[%d]}' % (len(self.values) - 1)

    def text(self, value, bind, literal, attr, plain_only=False):
        """(template text, what the generator is given)"""
        from genshi.core import Markup
        from flatland.out.generic import Markup as FlatMarkup
        if isinstance(value, dict) and 'mix' in value:
            if plain_only == 'plain':  # Genshi omits what comes out empty
                value = {'mix': [{'lit': u'a'}] + value['mix']}
            if plain_only != 'tame':
                return self.mixed(value['mix'], attr)
            value = u'ab'
        if isinstance(value, dict) and 'u' in value:
            value, literal = text_of(bind, value), False
        if isinstance(value, dict) and 'mk' in value:
            if not plain_only:
                wrap = (Markup, FlatMarkup, Html)[len(self.values) % 3]
                return self.var(wrap(value['mk'])), FlatMarkup(value['mk'])
            value = xmlstream.unescape(value['mk'])
            if plain_only == 'tame':
                value = u'ab'
        if plain_only == 'tame' and set(value) & set(u'<>&'):
            value = u'ab'
        if literal and XML_OK.match(value) and u'$' not in value:
            made = escape(value)
        else:
            made = self.var(value)
        if not attr:
            value = value if not set(value) & set(u'<>&') else FlatMarkup(
                escape_text(value))
        return made, value

    def mixed(self, parts, attr):
        from flatland.out.generic import Markup as FlatMarkup
        made, text, plain = [], [], True
        for part in parts:
            (k, v), = part.items()
            self.ctx.label(u'mixed: ' + k)
            if k == 'it':
                self.values.append(list(v))
                made.append(u'${iter(v[%d])}' % (len(self.values) - 1))
                v = u''.join(v)
            elif k == 'n':
                made.append(self.var(v))
                v = unicode(v)
            elif k == 'def':
                self.macros.append(escape_text(v))
                made.append(u'${m%d()}' % (len(self.macros) - 1))
            elif k == 'el':
                plain = False
                v = u'<b>%s</b>' % escape_text(v)
                made.append(v)
            elif k == 'lit':
                made.append(escape(v))
            else:
                made.append(self.var(v))
            text.append(v if attr or k == 'el' else escape_text(v))
        if attr:
            return u''.join(made), u''.join(text)
        # a filter is given text, or a list of Genshi's events
        kind = FlatMarkup if plain else type(
            'Tags', (FlatMarkup,), {'has_tags': True})
        return u''.join(made), kind(u''.join(text))

    def settings(self, pairs):
        template, real = [], {}
        for k, v in pairs:
            if k == 'filters':
                self.values.append([real_filter(f, True) for f in v])
                template.append((u'filters',
                                 u'v[%d]' % (len(self.values) - 1)))
                real[str(k)] = self.values[-1]
            else:
                template.append((k if k == u'tabindex' else
                                 k.replace(u'_', u'-'), v))
                real[str(k)] = int(v) if k == 'tabindex' else v
        return u''.join(u' %s="%s"' % kv for kv in template), real

    def write(self, node):
        """-> (template text, a function producing the generator's)"""
        if node['node'] == 'set':
            template, real = self.settings(node['settings'])
            return (u'<form:set%s/>' % template,
                    lambda: unicode(self.gen.set(**real)))
        if node['node'] == 'with':
            template, real = self.settings(node['settings'])
            inner = [self.write(n) for n in node['children']]

            def run():
                return (unicode(self.gen.begin(**real)) +
                        u''.join(f() for t, f in inner) +
                        unicode(self.gen.end()))
            return (u'<form:with%s>%s</form:with>' % (
                template, u''.join(t for t, f in inner)), run)
        return self.tag(node)

    def tag(self, node, inherited=None, cond=False):
        tag = node['tag']
        pick = self.nodes[node['pick'] % len(self.nodes)]
        bind = pick if node['bind'] else None
        foreign = (bind is None and not node['controls'] and
                   inherited is None)
        kw = {}
        template = []
        for k, v in node['attrs']:
            if k == u'type':
                t, value = v, v
            else:
                t, value = self.text(v, pick, node['lit'], True,
                                     foreign and 'plain')
            template.append((k, t))
            kw[k] = value
        merged = dict((k, v) for k, v in node.get('pyattrs', ())
                      if not (tag == u'option' and k == u'value'))
        if merged:
            self.ctx.label(u'py:attrs')
            self.values.append(merged)
            template.append((u'py:attrs', u'v[%d]' % (len(self.values) - 1)))
            kw.update(merged)
        for c, v, interpolated in node['controls']:
            template.append((u'form:' + c.replace(u'_', u'-'),
                             self.var(v) if interpolated else v))
            kw[c] = v
        if bind is not None:
            self.values.append(bind)
            template.append((u'form:bind', u'v[%d]' % (
                len(self.values) - 1)))
        if cond:
            template.append((u'py:if', u'1'))
        if foreign:
            kw.update((c, u'off') for c in CONTROL_NAMES)
        if bind is None:
            bind = inherited
        head = u'<%s%s' % (tag, u''.join(u' %s="%s"' % kv for kv in template))
        inner = None
        if node.get('children'):
            inner = [self.write(n) for n in node['children']]
        elif tag == u'select':
            inner = [self.option(o, bind) for o in node['options']] or None
        if inner:
            def run():
                made = self.gen.tag(tag)
                out = unicode(made.open(bind, **kw))
                out += u''.join(f() for t, f in inner)
                return out + unicode(made.close())
            return (u'%s>%s</%s>' % (head, u''.join(t for t, f in inner),
                                     tag), run)
        contents = node.get('contents')
        body = u''
        if contents is not None:
            tame = tag == u'option' and u'value' not in kw
            body, value = self.text(contents, pick, node['lit'], False,
                                    'tame' if tame else False)
            if body:
                kw[u'contents'] = value
        if body:
            made = u'%s>%s</%s>' % (head, body, tag)
        elif node['lit']:
            made = u'%s/>' % head
        else:
            made = u'%s></%s>' % (head, tag)
        return made, lambda: unicode(self.gen.tag(tag, bind, **kw))

    def option(self, o, bind):
        node = {'node': 'tag', 'tag': u'option', 'attrs': o['attrs'],
                'lit': True, 'bind': o['bind'], 'pick': o['pick'],
                'controls': o['controls'], 'contents': o['contents']}
        if o.get('loop') is not None and not o['cond']:
            return self.loop(node, o['loop'], bind)
        if o.get('inline') and o['attrs']:
            self.ctx.label(u'inline markup in an option')
            node['contents'] = {'mix': [{'lit': u'b'}, {'el': u'b'}]}
        t, f = self.tag(node, bind, o['cond'])
        return self.grouped(o, t, f)

    def loop(self, node, texts, bind):
        """The option repeated for each of these values."""
        pick = self.nodes[node['pick'] % len(self.nodes)]
        texts = [text_of(pick, t) if isinstance(t, dict) else t
                 for t in texts]
        self.ctx.label(u'py:for')
        self.values.append(texts)
        at = len(self.values) - 1
        made = []
        node = dict(node, attrs=[[u'value', u'LOOPED']], contents=None)
        t, f = self.tag(node, bind, False)
        t = t.replace(u'value="LOOPED"',
                      u'py:for="i in v[%d]" value="$i"' % at)
        for text in texts:
            made.append(self.tag(dict(node, attrs=[[u'value', text]]),
                                 bind, False)[1])
        return t, lambda: u''.join(f() for f in made)

    def grouped(self, o, t, f):
        if o['group']:
            return (u'<optgroup label="x">%s</optgroup>' % t,
                    lambda: u'<optgroup label="x">%s</optgroup>' % f())
        return t, f


def c30(ctx, mode, case):
    xmlstream.install()
    from StringIO import StringIO
    from genshi.template import MarkupTemplate
    from flatland.out.genshi import setup
    from flatland.out.markup import Generator
    root, nodes = root_of(case)
    flat_before = root.flatten()
    gen = Generator('xml')
    twins = Twins(ctx, gen, nodes)
    written = [twins.write(n) for n in case['nodes']]
    source = (u'<div xmlns:form="http://ns.discorporate.us/flatland/genshi" '
              u'xmlns:py="http://genshi.edgewall.org/"%s>%s</div>' % (
                  u' xmlns="http://www.w3.org/1999/xhtml"' if case['ns']
                  else u'', u''.join(
                      u'<py:def function="m%d()">%s</py:def>' % m
                      for m in enumerate(twins.macros)) +
                  u''.join(t for t, f in written)))
    want = u'<div>%s</div>' % u''.join(f() for t, f in written)
    template = MarkupTemplate(StringIO(source))
    setup(template)
    for again in (u'', u' (again)'):
        got = template.generate(v=twins.values).render(
            'xml', encoding=None, strip_whitespace=False)
        what = u'template %s%s' % (source, again)
        ctx.eq(tokens(ctx, got, what), tokens(ctx, want, what), what)
    ctx.eq(root.flatten(), flat_before, u'the flat element afterwards')
    bound = u'form:bind' in source
    for name in (u'form:with', u'form:set', u'<select', u'form:auto'):
        if name in source:
            ctx.label(name)
    ctx.nt(bound and (u'form:with' in source or u'form:set' in source or
                      u'form:auto' in source))


# -- C31 ---------------------------------------------------------------------

BREAKS = re.compile(u'[\r\n\x00]')


def successful(ctx, html):
    """The pairs a browser submits for these controls."""
    out = []
    toks = tokens(ctx, html, u'form')
    i = 0

    def text_until(tag):
        words = u''
        j = i + 1
        while toks[j] != (u'end', tag):
            ctx.eq(toks[j][0], u'text', u'inside %s: %s' % (tag, html))
            words += toks[j][1]
            j += 1
        return words, j
    select = None
    while i < len(toks):
        t = toks[i]
        if t[0] == u'start':
            a = t[2]
            if t[1] == u'input' and a.get(u'name'):
                if a.get(u'type') in (u'checkbox', u'radio'):
                    if u'checked' in a:
                        out.append((a[u'name'], a.get(u'value', u'on')))
                else:
                    out.append((a[u'name'], a.get(u'value', u'')))
            elif t[1] == u'textarea':
                words, i = text_until(u'textarea')
                if a.get(u'name'):
                    out.append((a[u'name'], words))
            elif t[1] == u'select':
                select = a.get(u'name')
                picked = 0
            elif t[1] == u'option':
                words, i = text_until(u'option')
                if u'selected' in a:
                    picked += 1
                    if select:
                        out.append((select, a.get(u'value', u' '.join(
                            words.split()))))
        elif t == (u'end', u'select'):
            select = None
        i += 1
    return out


def ticked(array, others):
    """Other texts usable as unticked boxes, or None if boxes won't do."""
    texts = [c.u for c in array.children]
    if (array.member_schema.name is not None or len(set(texts)) != len(texts)
            or not array.flattened_name()):
        return None
    for c in array.children:
        twin = array.member_schema()
        twin.set(unicode(c.u))
        if twin.u != c.u or twin.value != c.value or c.value is None:
            return None
    out = []
    for text in others:
        twin = array.member_schema()
        twin.set(text)
        if twin.value is not None and twin.u not in texts and all(
                twin.value != c.value for c in array.children):
            out.append(text)
    return out


def c31(ctx, mode, case):
    import flatland
    from flatland.out.markup import Generator
    spec = case['spec']
    cls = build(spec)
    el = cls()
    el.set(dec(case['value']))
    before = snapshot(el, spec)
    gen = Generator(case['dialect'])
    others = []
    for o in case['others']:
        if o not in others:
            others.append(o)
    html = []
    absent = []
    done = set()
    for n, (key, e) in enumerate(el.flatten(value=lambda e: e)):
        if not key or BREAKS.search(e.u) or BREAKS.search(key):
            ctx.label('unjudged')
            return
        how = case['kinds'][n % len(case['kinds'])]
        if id(e.parent) in done:
            continue
        if how in ('multi', 'checkbox') and isinstance(
                e.parent, flatland.Array) and not isinstance(
                    e.parent, flatland.JoinedString):
            boxes = ticked(e.parent, others)
            first = e.parent.children and list(e.parent.children)[0] is e
            if boxes is not None and first:
                array = e.parent
                done.add(id(array))
                texts = [c.u for c in array.children]
                cut = n % (len(boxes) + 1)
                texts = boxes[:cut] + texts + boxes[cut:]
                if how == 'multi':
                    html.append(gen.select.open(array, multiple=u'multiple'))
                    html.extend(gen.option(array, value=t) for t in texts)
                    html.append(gen.select.close())
                else:
                    html.extend(gen.input(array, type=u'checkbox', value=t)
                                for t in texts)
                ctx.label(how)
                continue
        if isinstance(e, flatland.JoinedString) and how not in (
                'hidden', 'textarea'):
            how = 'text'    # (boxes would reflect its members)
        plain_option = u' '.join(e.u.split()) == e.u and not set(
            e.u) & set(u'<>&')
        choices = [o for o in others if o != e.u]
        at = n % (len(choices) + 1)
        choices.insert(at, e.u)
        if how == 'checkbox' and isinstance(e, flatland.Boolean) and \
                not isinstance(e.parent, flatland.Array):
            html.append(gen.input(e, type=u'checkbox'))
            if e.u != e.true:
                absent.append((key, e.u))
            ctx.label('box on' if e.u == e.true else 'box off')
        elif how == 'checkbox':
            html.extend(gen.input(e, type=u'checkbox', value=c)
                        for c in choices)
        elif how == 'radio':
            html.extend(gen.input(e, type=u'radio', value=c)
                        for c in choices)
        elif how == 'select':
            html.append(gen.select.open(e))
            for c in choices:
                if c == e.u and plain_option and n % 2:
                    html.append(gen.option(e, contents=c))
                else:
                    html.append(gen.option(e, value=c))
            html.append(gen.select.close())
        elif how == 'textarea':
            html.append(gen.textarea(e))
        else:
            html.append(gen.input(e, type=u'hidden' if how == 'hidden'
                                  else u'text'))
    html = u''.join(html)
    pairs = successful(ctx, html)
    want = flat.model_pairs(el, spec, [], u'_')
    ctx.eq(sorted(pairs + absent), sorted(want), u'submitted from %s' % html)
    ctx.eq(snapshot(el, spec), before, u'the element after rendering')
    new = cls()
    new.set_flat(pairs + absent)
    ctx.eq(snapshot(new, spec), flat.restored(ctx, el, spec, False),
           u'restored from %s' % html)
    ctx.nt(len(pairs) >= 3)


CHECKS = {'C27': c27, 'C28': c28, 'C29': c29, 'C30': c30, 'C31': c31}
