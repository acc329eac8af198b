"""Codecs.  Codec tables with zero to two codecs registered under generic media types, every spelling of case, blanks and
parameters, and every history of three registrations and removals in one of two applications: marshalling and unmarshalling use
exactly the codec registered last for that media type, with the given value and arguments, and raise when there is none."""
from .common import *
from .c08 import media

UP = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'
SPELL = ('{}', '{};charset=utf-8', ' {} ', '{} ; a=1;b=2', '\t{}; x="y;z"', '{};')


def codec(s, tag):
    def run(I, a, kw, what):
        I.event(what, [tag] + list(a[1:]), kw)
        return T(what, tag, s.R(a[1]))
    ob = s.I.new_obj(s.I.BUILTINS['object'])
    ob.cls = s.I.make_class('Codec', [s.I.BUILTINS['object']],
                            {m: Builtin(m, lambda I, a, kw, m=m: run(I, a, kw, m)) for m in ('marshal', 'unmarshal')})
    return ob


def spell(s, how, t):
    a, b = how.split('{}')
    return s.cat(*[x for x in (a, t, b) if not isinstance(x, str) or x])


def check(run):
    # ---- spellings
    def spellings(upper):
        def setup(s):
            t = 'application/x-Generic' if upper else media(s, 't')
            o = media(s, 'o')
            mc = s.must('pyswagger.primitives:MimeCodec')
            s.must(s.attr(mc, 'register'), 'Application/X-gEneric' if upper else t, codec(s, 'T'))
            s.must(s.attr(mc, 'register'), o, codec(s, 'O'))
            return mc, t

        def body(s, pre):
            mc, t = pre
            how = s.choice('spelled', *SPELL)
            what = s.choice('direction', 'marshal', 'unmarshal')
            if upper:
                t = s.choice('case', 'application/x-generic', 'APPLICATION/X-GENERIC', 'application/x-Generic')
            v = s.sym('v')
            kw = s.choice('arguments', {}, {'_type': 'a', '_format': 'b', 'name': 'c'})
            o = s.meth(mc, what, spell(s, how, t), v, **kw)
            s.check(o.ok, 'select', lambda: '%s: %r' % (how, o), o.site)
            s.same_ob(o.value, T(what, 'T', v), 'select', 'result of %s for %r' % (what, how))
            ev = s.events(what)
            s.check(len(ev) == 1 and set(ev[0].kw) == set(kw), 'arguments', 'the codec does not get the arguments given')
            for k in kw:
                s.same_ob(ev[0].kw[k], kw[k], 'arguments', 'argument %s' % k)
            s.check(len(s.events('marshal', 'unmarshal')) == 1, 'select', 'more than one codec is used')
        run.explore('spellings, %s' % ('mixed case' if upper else 'generic'), body, setup)
    spellings(False)
    spellings(True)

    # ---- histories over two applications
    def history(steps):
        def setup(s):
            return [s.attr(app_of(s, doc(), prepare=False), 'mime_codec') for _ in range(2)], media(s, 't'), media(s, 'o')

        def body(s, pre):
            mcs, t, other = pre
            state = [{}, {}]
            for i in range(steps):
                ev = s.choice('step %d' % i, 'register', 'unregister', 'register other', 'in the other application', 'unregister in the other')
                m = 1 if 'the other' in ev else 0
                name, key = (other, 'o') if ev == 'register other' else (t, 't')
                if 'unregister' in ev:
                    o = s.meth(mcs[m], 'unregister', name)
                    s.check(o.ok or key not in state[m], 'unregister', lambda: 'unregister: %r' % (o,), o.site)
                    state[m].pop(key, None)
                else:
                    s.must(s.attr(mcs[m], 'register'), name, codec(s, 'c%d' % i))
                    state[m][key] = 'c%d' % i
            for m in (0, 1):
                for name, key in ((t, 't'), (other, 'o')):
                    for what in ('marshal', 'unmarshal'):
                        v = s.sym('v')
                        o = s.meth(mcs[m], what, name, v)
                        if key in state[m]:
                            s.check(o.ok, 'history', lambda: '%r' % (o,), o.site)
                            s.same_ob(o.value, T(what, state[m][key], v), 'history', 'codec used')
                        else:
                            s.check(not o.ok, 'history', lambda: '%s without a codec: %r' % (what, o), o.site)
                o = s.meth(mcs[m], 'unmarshal', 'text/plain', 'x')
                s.check(o.ok and o.value == 'x', 'history', lambda: 'the plain codec is gone: %r' % (o,))
        run.explore('history of %d steps' % steps, body, setup)
    history(2)
    history(3)

    # ---- removed and overridden built-in codecs
    def builtin(name):
        def setup(s):
            return [s.attr(app_of(s, doc(), prepare=False), 'mime_codec') for _ in range(2)]

        def body(s, mcs):
            what = s.choice('direction', 'marshal', 'unmarshal')
            if s.choice('change', 'override', 'remove') == 'override':
                s.must(s.attr(mcs[0], 'register'), name.upper(), codec(s, 'mine'))
                o = s.meth(mcs[0], what, name, 'x')
                s.check(o.ok, 'override', lambda: '%r' % (o,), o.site)
                s.same_ob(o.value, T(what, 'mine', 'x'), 'override', '%s by the codec registered' % what)
            else:
                s.must(s.attr(mcs[0], 'unregister'), name.upper())
                o = s.meth(mcs[0], what, name, 'x')
                s.check(not o.ok, 'remove', lambda: 'removed codec: %r' % (o,), o.site)
            v = s.sym('v', 'str')
            o = s.meth(mcs[1], what, name, v)
            s.check(o.ok, 'other', lambda: 'the other application: %r' % (o,), o.site)
            want = v if name == 'text/plain' else s.I.call_ext('json.dumps' if what == 'marshal' else 'json.loads', [v], {})
            s.same_ob(o.value, want, 'other', '%s in the other application' % what)
        run.explore('built-in %s' % name, body, setup)
    for n in ('application/json', 'text/json', 'text/plain'):
        builtin(n)

    # ---- what the built-in codecs do
    def values():
        def setup(s):
            return s.must('pyswagger.primitives:MimeCodec')

        def body(s, mc):
            n = s.choice('media type', 'application/json', 'text/json', 'Application/JSON; charset=utf-8')
            k = s.choice('data', 'str', 'bytes')
            raw = s.sym('raw', k)
            o = s.meth(mc, 'unmarshal', n, raw)
            s.check(o.ok, 'json', lambda: '%r' % (o,), o.site)
            text = raw if k == 'str' else s.must(s.attr(raw, 'decode'), 'utf-8')
            s.same_ob(o.value, s.I.call_ext('json.loads', [text], {}), 'json', 'decoded JSON')
            v = s.sym('v', 'str', 'int', 'bool', 'none')
            o = s.meth(mc, 'marshal', n, v)
            s.check(o.ok, 'json', lambda: '%r' % (o,), o.site)
            s.same_ob(o.value, s.I.call_ext('json.dumps', [v], {}), 'json', 'encoded JSON')
            w = s.sym('w')
            for what in ('marshal', 'unmarshal'):
                o = s.meth(mc, what, 'text/plain', w)
                s.check(o.ok, 'plain', lambda: '%r' % (o,), o.site)
                s.same_ob(o.value, w, 'plain', '%s of plain text' % what)
        run.explore('built-in codecs', body, setup)
    values()
