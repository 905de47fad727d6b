# -*- coding: utf-8 -*-
"""C04-C06: scalar adaptation, serialization, constraints."""
import datetime
import decimal

from lib import build, dec, same, show, HarnessFault


class Fail(Exception):
    pass


def as_text(value):
    """What a failed adaptation shows."""
    if value is None:
        return u''
    if isinstance(value, unicode):
        return value
    if isinstance(value, str):
        try:
            return value.decode('ascii')
        except UnicodeDecodeError:
            return unicode(value, errors='replace')
    return unicode(value)


def opt(spec, key, default):
    return (spec.get('o') or {}).get(key, default)


def number(spec, value):
    t = spec['t']
    kind = {'Integer': int, 'Long': int, 'Float': float,
            'Decimal': decimal.Decimal}[t]
    if value is None:
        return None
    if isinstance(value, basestring):
        value = value.strip()
    try:
        native = kind(value)
        if t == 'Decimal' and native.is_snan():
            raise Fail()
        if not opt(spec, 'signed', True):
            if t == 'Decimal' and native.is_nan():
                raise Fail()
            if native < 0:
                raise Fail()
    except (ValueError, TypeError, ArithmeticError):
        raise Fail()
    return native


DIGITS = u'0123456789'


def fields_of(text, pattern):
    """pattern: 'dddd-dd-dd' style; -> the ints."""
    if len(text) != len(pattern):
        raise Fail()
    out, run = [], u''
    for c, p in zip(text, pattern):
        if p == 'd':
            if c not in DIGITS:
                raise Fail()
            run += c
        else:
            if c != p:
                raise Fail()
            out.append(int(run))
            run = u''
    out.append(int(run))
    return out


def temporal(spec, value):
    t = spec['t']
    kind, pattern = {
        'Date': (datetime.date, 'dddd-dd-dd'),
        'DateTime': (datetime.datetime, 'dddd-dd-dd dd:dd:dd'),
        'Time': (datetime.time, 'dd:dd:dd')}[t]
    if value is None or isinstance(value, kind):
        return value
    if not isinstance(value, basestring):
        raise Fail()
    if opt(spec, 'strip', True):
        value = value.strip()
    if isinstance(value, str):
        value = value.decode('latin1')
    try:
        return kind(*fields_of(value, pattern))
    except ValueError:
        raise Fail()


def boolean(spec, value):
    if not isinstance(value, basestring):
        return bool(value)
    if isinstance(value, str):
        try:
            value = value.decode('ascii')
        except UnicodeDecodeError:
            raise Fail()
    own = {opt(spec, 'false', u''): False}
    own[opt(spec, 'true', u'1')] = True
    if value in own:
        return own[value]
    if value in opt(spec, 'true_syn', (u'on', u'true', u'True', u'1')):
        return True
    if value in opt(spec, 'false_syn',
                    (u'off', u'false', u'False', u'0', u'')):
        return False
    raise Fail()


def adapt(spec, value):
    """The reference conversion: a native value, or Fail."""
    t = spec['t']
    if t == 'String':
        if value is None:
            return None
        if isinstance(value, str):
            try:
                value = value.decode('ascii')
            except UnicodeDecodeError:
                raise Fail()
        value = unicode(value)
        return value.strip() if opt(spec, 'strip', True) else value
    if t in ('Integer', 'Long', 'Float', 'Decimal'):
        return number(spec, value)
    if t == 'Boolean':
        return boolean(spec, value)
    if t in ('Date', 'DateTime', 'Time'):
        return temporal(spec, value)
    if t in ('Enum', 'Constrained'):
        child = child_of(spec)
        native = adapt(child, value)
        if native not in [dec(v) for v in spec['o']['values']]:
            raise Fail()
        return native
    raise HarnessFault('no reference for %r' % t)


def child_of(spec):
    return spec['of'][0] if spec.get('of') else {'t': 'String', 'o': {}}


def text_of(spec, value):
    """The reference serialization of an adapted value."""
    t = spec['t']
    if value is None:
        return u''
    if t == 'String':
        return value
    if t in ('Integer', 'Long'):
        return opt(spec, 'format', u'%i') % value
    if t in ('Float', 'Decimal'):
        return opt(spec, 'format', u'%f') % value
    if t == 'Boolean':
        return opt(spec, 'true', u'1') if value else opt(spec, 'false', u'')
    if t == 'Date':
        return u'%04i-%02i-%02i' % (value.year, value.month, value.day)
    if t == 'Time':
        return u'%02i:%02i:%02i' % (value.hour, value.minute, value.second)
    if t == 'DateTime':
        return u'%04i-%02i-%02i %02i:%02i:%02i' % (
            value.year, value.month, value.day, value.hour, value.minute,
            value.second)
    return text_of(child_of(spec), value)


NATIVE = {'String': unicode, 'Integer': (int, long), 'Long': (int, long),
          'Float': float, 'Decimal': decimal.Decimal, 'Boolean': bool,
          'Date': datetime.date, 'DateTime': datetime.datetime,
          'Time': datetime.time}


def expect(spec, value):
    """(ok, native, text)"""
    try:
        native = adapt(spec, value)
    except Fail:
        return False, None, as_text(value)
    return True, native, text_of(spec, native)


def unsure(spec, value):
    """Input whose outcome is not specified: a trailing newline is accepted
    by the patterns of unstripped temporals."""
    while spec.get('of'):
        spec = spec['of'][0]
    return (spec['t'] in ('Date', 'DateTime', 'Time') and
            not opt(spec, 'strip', True) and
            isinstance(value, basestring) and value.endswith('\n'))


def verify(ctx, el, spec, value, res, what):
    ok, native, text = expect(spec, value)
    if res is not None:
        ctx.ok(res is ok, u'%s: set() returned %s, want %s', what, res, ok)
    ctx.eq(el.value, native, u'value after %s' % what)
    ctx.text(el.u, text, u'text after %s' % what)
    if native is not None:
        base = spec
        while base.get('of'):
            base = base['of'][0]
        kind = NATIVE['String' if base['t'] == 'Enum' else base['t']]
        ctx.ok(isinstance(el.value, kind), u'%s after %s is not a %s',
               el.value, what, kind)
    return ok, native, text


def c04(ctx, mode, case):
    spec = case['spec']
    cls = build(spec)
    el = cls()
    ctx.eq((el.value, unicode(el.u)), (None, u''), u'a new element')
    from flatland.schema.base import Unset
    ctx.ok(el.raw is Unset, u'raw of a new element is %s', el.raw)
    from flatland.exc import AdaptationError
    for how, raw in case['steps']:
        value = dec(raw)
        if unsure(spec, value):
            continue
        what = u'%s %s(%s)' % (spec['t'], how, show(value))
        if how == 'set':
            res = el.set(value)
            ctx.ok(el.raw is value, u'raw after %s is %s', what, el.raw)
        elif how == 'new':
            el = cls(value)
            res = None
            ctx.ok(el.raw is value, u'raw after %s is %s', what, el.raw)
        elif how == 'default':
            el = cls.using(default=value)()
            el.set_default()
            res = None
        else:
            el.set_flat([(u'z', u'junk'), (spec['n'], value),
                         (spec['n'], u'later')])
            res = None
        ok, native, text = verify(ctx, el, spec, value, res, what)
        try:
            got = el.adapt(value)
        except AdaptationError:
            ctx.ok(not ok, u'adapt refused %s', what)
        else:
            ctx.ok(ok, u'adapt accepted %s', what)
            ctx.eq(got, native, u'adapt of %s' % what)
        ctx.label('%s:%s' % (spec['t'], 'ok' if ok else 'fail'))
        ctx.nt((ok and native is not None) or (not ok and text))


def c05(ctx, mode, case):
    spec = case['spec']
    cls = build(spec)
    t = spec['t']
    if mode == 'native':
        value = dec(case['value'])
        el = cls()
        if not el.set(value):
            ctx.label('refused')
            return
        back = cls()
        ctx.ok(back.set(unicode(el.u)) is True,
               u'%s refused its own text %s', t, el.u)
        want = value
        if t == 'String':
            want = value.strip() if opt(spec, 'strip', True) else value
        exact = t not in ('Float', 'Decimal')
        if exact:
            ctx.eq(back.value, want, u'%s via its text %s' % (t, el.u))
        elif value == value and abs(value) < 10 ** 9:
            # the format keeps at least 2 decimals
            places = {u'%f': 6}.get(opt(spec, 'format', u'%f'))
            if places is None:
                places = int(opt(spec, 'format', u'')[-2])
            err = abs(decimal.Decimal(repr(back.value) if t == 'Float' else
                                      back.value) -
                      decimal.Decimal(repr(value) if t == 'Float'
                                      else value))
            ctx.ok(err <= decimal.Decimal(10) ** -places,
                   u'%s came back as %s', value, back.value)
            if value != int(value) and abs(value) > 1:
                ctx.ok(back.value != 0, u'%s vanished', value)
        ctx.nt()
        return
    first = None
    for raw in case['values']:
        value = dec(raw)
        el = cls()
        if not el.set(value):
            continue
        text, native = unicode(el.u), el.value
        again = cls()
        if not (text == u'' and native is None):
            ctx.ok(again.set(text) is True, u'%s refused its own text %s '
                   u'(value %s)', t, text, native)
            ctx.text(again.u, text, u'text of %s set to %s' % (t, text))
            if t not in ('Float', 'Decimal', 'DateTime', 'Time', 'Enum',
                         'Date'):
                ctx.eq(again.value, native, u'value of %s set to its text %s'
                       % (t, text))
            third = cls(unicode(again.u))
            ctx.eq(third.value, again.value, u'value of %s after a second '
                   u'pass' % t)
            ctx.text(third.u, text, u'text after a second pass')
            if third.value == third.value:
                ctx.ok(third == again and not (third != again),
                       u'%s and %s have the same text %s but differ', third,
                       again, text)
            # in place
            el.set(u'no such thing')
            el.set(text)
            ctx.text(el.u, text, u'text when set back')
            ctx.eq(el.value, again.value, u'value when set back')
        ctx.nt(native is not None)


def c06(ctx, mode, case):
    spec = case['spec']
    child = spec['of'][0]
    cls = build(spec)
    permitted = [dec(v) for v in spec['o']['values']]
    el = cls()
    ctx.eq((el.value, unicode(el.u)), (None, u''), u'a new element')
    for how, raw in case['steps']:
        picked = 'pick' in raw
        if picked:
            native = permitted[raw['pick']]
            form = raw['form']
            value = native
            if form != 'native' and native is not None:
                value = text_of(child, native)
                if form == 'padded' and child['t'] != 'Boolean' and \
                        opt(child, 'strip', True):
                    value = u' \t%s ' % value
                elif form == 'bytes':
                    try:
                        value = value.encode('ascii')
                    except UnicodeEncodeError:
                        pass
        else:
            value = dec(raw['value'])
        if unsure(spec, value):
            continue
        what = u'%s of %s %s(%s)' % (spec['t'], child['t'], how, show(value))
        res = None
        if how == 'set':
            res = el.set(value)
        elif how == 'new':
            el = cls(value)
        elif how == 'default':
            el = cls.using(default_factory=lambda e: value)()
            el.set_default()
        else:
            value = as_text(value)
            if unsure(spec, value):
                continue
            el.set_flat([(spec['n'], value)])
        ok, native, text = verify(ctx, el, spec, value, res, what)
        if ok:
            ctx.ok(native in permitted, u'%s holds %s', what, el.value)
            # serialized as the child type does
            twin = build(child)()
            twin.set(value)
            ctx.text(el.u, twin.u, u'text of the child type after %s' % what)
        try:
            adapted = adapt(child, value)
        except Fail:
            ctx.label('unadaptable')
        else:
            ctx.label('permitted' if ok else 'refused')
            ctx.nt()
        if picked and how == 'set' and value is permitted[raw['pick']] and \
                adapt_ok(child, value):
            ctx.label('member')


def adapt_ok(child, value):
    try:
        adapt(child, value)
    except Fail:
        return False
    return True


CHECKS = {'C04': c04, 'C05': c05, 'C06': c06}
