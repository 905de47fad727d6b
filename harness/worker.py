# Jython 2.7 side: executes cases against flatland and judges them.
import json
import os
import sys
import traceback

sys.dont_write_bytecode = True
out = sys.stdout
sys.stdout = sys.stderr

import java.lang  # noqa

import lib  # noqa

CHECKS = {}
BROKEN = None


def conforming_idna():
    """Jython's idna codec lets java.net.IDN's exception out of ToASCII, where
    the codec's contract (and CPython) has UnicodeError."""
    import encodings.idna
    inner = encodings.idna.ToASCII

    def ToASCII(label):
        if not label:
            raise UnicodeError('label empty or too long')
        try:
            return inner(label)
        except java.lang.IllegalArgumentException as exc:
            raise UnicodeError(str(exc.message))
    encodings.idna.ToASCII = ToASCII


def load():
    conforming_idna()
    import flatland
    import flatland.schema, flatland.validation, flatland.out.markup  # noqa
    names = sorted(f[:-3] for f in os.listdir(
        os.path.join(os.path.dirname(os.path.abspath(__file__)), 'checks'))
        if f.endswith('.py') and f != '__init__.py')
    for name in names:
        mod = __import__('checks.' + name, None, None, ['CHECKS'])
        CHECKS.update(mod.CHECKS)
    return os.path.dirname(os.path.abspath(flatland.__file__))


def run(msg):
    ctx = lib.Ctx()
    try:
        CHECKS[msg['id']](ctx, msg['mode'], msg['case'])
    except lib.Violation as exc:
        return {'fail': exc.message, 'labels': sorted(ctx.labels), 'nt': True}
    except lib.HarnessFault as exc:
        return {'harness': exc.message}
    except (Exception, java.lang.Throwable):
        kind, value, tb = sys.exc_info()
        text = ''.join(traceback.format_exception(kind, value, tb))
        if isinstance(text, str):
            text = text.decode('utf8', 'replace')
        return {'fail': u'unexpected exception: ' + text[-2500:],
                'labels': sorted(ctx.labels), 'nt': True}
    return {'labels': sorted(ctx.labels), 'nt': ctx.nontrivial}


def main():
    where = load()
    out.write(json.dumps({'ready': True}) + '\n')
    out.flush()
    while True:
        line = sys.stdin.readline()
        if not line:
            return
        msg = json.loads(line)
        if msg['id'] == 'ping':
            res = {'checks': sorted(CHECKS), 'where': where}
        elif msg['id'] not in CHECKS:
            res = {'harness': 'no oracle for %s' % msg['id']}
        else:
            res = run(msg)
        out.write(json.dumps(res) + '\n')
        out.flush()


main()
