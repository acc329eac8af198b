"""ISO-8601 texts.  A text is a sequence of constant characters and unknown digits; the interpreter matches the patterns of the library
against all such texts at once and the fields of the result are compared, as functions of the digits, with the fields of the text."""
from .common import *
from absint.lib import LIB

ISO = '-+:.TtZz '


def number(s, x):
    return s.builtin('int', x)


def field(s, v, n, want, what):
    s.same_ob(s.attr(v, n), want, 'field', 'the %s of %s' % (n, what))


def invalid(s, o, what):
    s.check(o.is_exc('ValueError'), 'rejected', lambda: '%s: %r instead of ValueError' % (what, o), o.site)


def of_range(s, o):
    """the only reason to reject a well-formed text"""
    return not o.ok and o.is_exc('ValueError') and 'datetime()' in show(o.exc)


def date(s):
    return [s.digits('y', 4), s.digits('m', 2), s.digits('d', 2)]


def time(s, secs, frac, tz):
    """a text and the fields that it denotes"""
    d = date(s)
    t = [s.digits('H', 2), s.digits('M', 2)]
    text = s.cat(d[0], '-', d[1], '-', d[2], 'T', t[0], ':', t[1])
    sec = us = 0
    if secs:
        x = s.digits('S', 2)
        text, sec = s.cat(text, ':', x), number(s, x)
        if frac:
            x = s.digits('f', frac)
            text = s.cat(text, '.', x)
            cs = s.I.cells(x)
            us = number(s, s.cat(*(cs[:6] + ['0'] * (6 - len(cs)))))
    off = None
    if tz == 'Z':
        text, off = s.cat(text, 'Z'), (0, 0)
    elif tz in ('+', '-'):
        h, m = s.digits('zh', 2), s.digits('zm', 2)
        text = s.cat(text, tz, h, ':', m)
        off = tuple(number(s, x) if tz == '+' else s.I.mk_neg(number(s, x)) for x in (h, m))
    return text, [number(s, x) for x in d + t] + [sec, us], off


def delta(s, h, m):
    return LIB['datetime.timedelta'](s.I, [], {'hours': h, 'minutes': m})


def offset(s, v, off, what):
    tz = s.R(s.attr(v, 'tzinfo'))
    if off is None:
        s.check(tz is None, 'zone', lambda: '%s has the time zone %s' % (what, show(tz)))
        return
    s.check(tz is not None, 'zone', lambda: 'the time zone of %s is lost' % what)
    s.same_ob(s.must(s.attr(tz, 'utcoffset'), v), delta(s, *off), 'zone', 'the offset of %s' % what)
    s.same_ob(s.must(s.attr(tz, 'dst'), v), delta(s, 0, 0), 'zone', 'the daylight saving time of %s' % what)


def nonzero(s, vs):
    return all(s.truth(v) for v in vs)


def check(run):
    conv = 'pyswagger.utils:from_iso8601'

    def plain(s):
        y, m, d = date(s)
        o = s.call(conv, s.cat(y, '-', m, '-', d))
        want = [number(s, x) for x in (y, m, d)]
        if not nonzero(s, want):
            return invalid(s, o, 'a zero in a date')
        if of_range(s, o):
            return
        s.check(o.ok, 'accepted', lambda: 'a date: %r' % o, o.site)
        for n, w in zip(('year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond'), want + [0] * 4):
            field(s, o.value, n, w, 'a date')
        offset(s, o.value, None, 'a date')
    run.explore('dates', plain, mods=('pyswagger',))

    for tz in ('none', 'Z', '+', '-'):
        def timed(s, tz=tz):
            n = s.choice('parts', 'minutes', 'seconds', 'f1', 'f2', 'f3', 'f4', 'f5', 'f6', 'f7', 'f9')
            text, want, off = time(s, n != 'minutes', int(n[1]) if n[0] == 'f' else 0, tz)
            what = 'a time with %s and zone %s' % (n, tz)
            o = s.call(conv, text)
            if not nonzero(s, want[:3]):
                return invalid(s, o, 'a zero in a date')
            if of_range(s, o):
                return
            s.check(o.ok, 'accepted', lambda: '%s: %r' % (what, o), o.site)
            for f, w in zip(('year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond'), want):
                field(s, o.value, f, w, what)
            offset(s, o.value, off, what)
        run.explore('times with zone %s' % tz, timed, mods=('pyswagger',))

    def other(s):
        """texts that are no date and no time"""
        D = lambda n, k=''.join(['x']): s.digits(k, n)
        j = s.junk('j', ISO)
        day = s.cat(D(4, 'y'), '-', D(2, 'm'), '-', D(2, 'd'))
        clock = s.cat(D(2, 'H'), ':', D(2, 'M'))
        cases = {
            'empty': '', 'a letter': j, 'digits': D(8), 'a year': D(4), 'a month': s.cat(D(4), '-', D(2, 'm')), 'a short year': s.cat(D(2), '-', D(2, 'm'), '-', D(2, 'd')),
            'a short month': s.cat(D(4), '-', D(1, 'm'), '-', D(2, 'd')), 'a short day': s.cat(D(4), '-', D(2, 'm'), '-', D(1, 'd')), 'a clock': clock,
            'a letter before': s.cat(j, day), 'a space before': s.cat(' ', day), 'slashes': s.cat(D(4), '/', D(2, 'm'), '/', D(2, 'd')), 'a letter in the year': s.cat(D(3), j, '-', D(2, 'm'), '-', D(2, 'd')),
            'a letter after the date': s.cat(day, j), 'a digit after the date': s.cat(day, D(1)), 'no clock': s.cat(day, 'T'), 'hours': s.cat(day, 'T', D(2, 'H')),
            'a letter for T': s.cat(day, j, clock), 'a letter after the clock': s.cat(day, 'T', clock, j), 'a digit after the clock': s.cat(day, 'T', clock, D(1, 'q')),
            'a letter after Z': s.cat(day, 'T', clock, 'Z', j), 'no seconds': s.cat(day, 'T', clock, ':'), 'no fraction': s.cat(day, 'T', clock, ':', D(2, 'S'), '.'),
            'a fraction of minutes': s.cat(day, 'T', clock, '.', D(1, 'f')), 'a short offset': s.cat(day, 'T', clock, '+', D(1, 'z')), 'a letter in the offset': s.cat(day, 'T', clock, '+', D(2, 'z'), ':', D(1, 'w'), j),
            'a zone after the date': s.cat(day, 'Z'),
        }
        w = s.choice('text', *sorted(cases))
        invalid(s, s.call(conv, cases[w]), 'a text with %s' % w if w != 'empty' else 'no text')
    run.explore('other texts', other, mods=('pyswagger',))

    def zone(s):
        """fixed offsets"""
        h, m = s.sym('h', 'int'), s.sym('m', 'int')
        n = s.choice('given', 'both', 'hours', 'nothing')
        tz = s.must('pyswagger.utils:FixedTZ', **dict({'h': h} if n != 'nothing' else {}, **({'m': m} if n == 'both' else {})))
        at = s.choice('at', 'none', 'some') == 'some'
        dt = T('datetime', 2000, 1, 1, 0, 0, 0, 0, None, kinds=frozenset(['datetime'])) if at else None
        s.same_ob(s.must(s.attr(tz, 'utcoffset'), dt), delta(s, h if n != 'nothing' else 0, m if n == 'both' else 0), 'zone', 'the offset of a fixed zone')
        s.same_ob(s.must(s.attr(tz, 'dst'), dt), delta(s, 0, 0), 'zone', 'the daylight saving time of a fixed zone')
        x = s.must(s.attr(tz, 'tzname'), dt)
        s.check(s.I.kinds(s.R(x)) <= frozenset(['str', 'none']), 'zone', lambda: 'the name of a zone is %s' % show(x))
    run.explore('fixed zones', zone, mods=('pyswagger',))

    for fmt in ('date', 'date-time'):
        def values(s, app, fmt=fmt):
            """values of these formats are read through it"""
            full = s.choice('text', 'date', 'time') == 'time'
            tz = s.choice('zone', 'none', 'Z', '-') if full else 'none'
            if full:
                text, want, off = time(s, True, 3, tz)
            else:
                d = date(s)
                text, want, off = s.cat(d[0], '-', d[1], '-', d[2]), [number(s, x) for x in d] + [0] * 4, None
            o = s.meth(s.attr(app, 'prim_factory'), 'produce', schema_of(s, app, 'V'), text)
            if not nonzero(s, want[:3]):
                return invalid(s, o, 'a zero in a date')
            if of_range(s, o):
                return
            s.check(o.ok, 'accepted', lambda: 'a value of format %s: %r' % (fmt, o), o.site)
            v = s.attr(o.value, 'v')
            for f, w in list(zip(('year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond'), want))[:3 if fmt == 'date' else 7]:
                field(s, v, f, w, 'a value of format %s' % fmt)
            if fmt == 'date-time':
                offset(s, v, off, 'a value')
        run.explore('values of format %s' % fmt, values, setup=lambda s, fmt=fmt: app_of(s, doc({}, definitions={'V': {'type': 'string', 'format': fmt}})))
