# -*- coding: utf-8 -*-
"""Genshi event streams from well-formed XML text.

Genshi parses templates with expat.  Jython's expat needs a Java class this
sandbox lacks (and genshi needs attributes it does not have), so templates are
tokenised here and handed to genshi as a stream of events.
"""
import re

TOKEN = re.compile(u'<(/?)([^\\s<>/"=]+)((?:\\s+[^\\s<>/"=]+\\s*=\\s*'
                   u'(?:"[^"<]*"|\'[^\'<]*\'))*)\\s*(/?)>|([^<]+)|(<)')
ATTR = re.compile(u'([^\\s<>/"=]+)\\s*=\\s*(?:"([^"<]*)"|\'([^\'<]*)\')')
ENTITY = re.compile(u'&(?:#(\\d+)|#x([0-9a-fA-F]+)|(\\w+));')
NAMED = {u'lt': u'<', u'gt': u'>', u'amp': u'&', u'quot': u'"',
         u'apos': u"'"}


def unescape(text):
    def one(m):
        if m.group(1):
            return unichr(int(m.group(1)))
        if m.group(2):
            return unichr(int(m.group(2), 16))
        return NAMED[m.group(3)]
    return ENTITY.sub(one, text)


def stream(text, filename=None):
    from genshi.core import (Attrs, END, END_NS, QName, START, START_NS,
                             Stream, TEXT)
    if isinstance(text, str):
        text = text.decode('utf8')
    pos = (filename, 1, 0)
    events = []
    scopes = [({}, [])]

    def qname(name, attr):
        prefix, colon, local = name.rpartition(u':')
        if not prefix and attr:
            return QName(name)
        uri = scopes[-1][0].get(prefix)
        if uri is None:
            if prefix == u'xml':
                uri = u'http://www.w3.org/XML/1998/namespace'
            elif prefix:
                raise ValueError('unbound prefix %r' % prefix)
            else:
                return QName(name)
        return QName(uri + u'}' + local)

    def close(name):
        events.append((END, qname(name, False), pos))
        for prefix in reversed(scopes.pop()[1]):
            events.append((END_NS, prefix, pos))

    for m in TOKEN.finditer(text):
        end, name, attrs, empty, words, stray = m.groups()
        if stray:
            raise ValueError('not well formed: %r' % text[m.start():][:60])
        if words is not None:
            events.append((TEXT, unescape(words), pos))
        elif end:
            close(name)
        else:
            pairs = [(k, unescape(a or b)) for k, a, b in
                     ATTR.findall(attrs or u'')]
            ns = dict(scopes[-1][0])
            mine = []
            for k, v in pairs:
                if k == u'xmlns' or k.startswith(u'xmlns:'):
                    prefix = k[6:]
                    ns[prefix] = v
                    mine.append(prefix)
                    events.append((START_NS, (prefix, v), pos))
            scopes.append((ns, mine))
            events.append((START, (qname(name, False), Attrs(
                [(qname(k, True), v) for k, v in pairs
                 if k != u'xmlns' and not k.startswith(u'xmlns:')])), pos))
            if empty:
                close(name)
    # adjacent text is one event
    return Stream(events)


def _clone(self, node):
    cls = node.__class__
    kw = {}
    for name in node._fields:
        value = getattr(node, name, None)
        if value is None:
            continue
        if isinstance(value, list) or type(value).__name__ == 'astlist':
            value = [self.visit(x) for x in value]
        elif isinstance(value, tuple):
            value = tuple(self.visit(x) for x in value)
        else:
            value = self.visit(value)
        kw[name] = value
    return cls(**kw)


def install():
    """Make genshi usable on this Jython."""
    import genshi.template.astutil as astutil
    import genshi.template.markup as markup
    markup.XMLParser = lambda source, filename=None, encoding=None: stream(
        source.read(), filename)
    old = astutil.ASTTransformer.__dict__['visit_Module']
    import genshi.template.eval as ev
    for cls in (astutil.ASTTransformer, ev.TemplateASTTransformer,
                ev.ExpressionASTTransformer):
        for name, value in list(cls.__dict__.items()):
            if value is old:
                setattr(cls, name, _clone)

    def new(cls, *args, **kwargs):
        for attr, value in zip(cls()._fields, args):
            kwargs[attr] = value
        return cls(**kwargs)

    def build_code_chunk(*args):
        raise RuntimeError

    ev._new = new
    ev.build_code_chunk = build_code_chunk
