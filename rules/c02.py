"""String constraints.  For every place that can declare them, an arbitrary value and arbitrary enum
members / length limits: the call raises ValidationError exactly when the text is not in the enum, is
shorter or longer than declared, or (format email) is not an email address; otherwise the text is kept."""
from .common import *


def decl(s, which, fmt=None):
    d = {'type': 'string'}
    if fmt:
        d['format'] = fmt
    if 'enum' in which:
        d['enum'] = [s.token('e1'), s.token('e2')]
    for k in ('minLength', 'maxLength'):
        if k in which:
            d[k] = s.sym(k, 'int')
    return d


def violated(s, d, r):
    if 'enum' in d and not any(s.eq(r, e) for e in d['enum']):
        return 'enum'
    if 'minLength' in d and s.lt(s.len(r), d['minLength']):
        return 'minLength'
    if 'maxLength' in d and s.gt(s.len(r), d['maxLength']):
        return 'maxLength'
    return None


def check(run):
    def scen(kind, which, fmt, vk):
        h = Holder(kind)

        def setup(s):
            d = decl(s, which, fmt)
            return h.build(s, d), d

        def body(s, pre):
            x, d = pre
            v = s.sym('v', vk)
            for k in ('minLength', 'maxLength'):
                if k in d:
                    s.assume(not s.lt(d[k], 0))
            o = h.push(s, x, v)
            r = s.I.mk_str(v)
            bad = violated(s, d, r)
            if not bad and fmt == 'email':
                # the verdict of the validate_email library is an uninterpreted predicate of the text
                if not s.truth(T('validate_email', s.R(r), kinds=BOOL)):
                    bad = 'email'
            if bad:
                s.check(o.is_exc('ValidationError'), 'reject',
                        lambda: '%s: text violating %s has to raise ValidationError, %r' % (kind, bad, o), o.site)
                return
            s.check(o.ok, 'accept', lambda: '%s: text satisfying the declaration, %r' % (kind, o), o.site)
            got = h.result(s, o)
            if got is not None:
                s.same_ob(got, r, 'value', 'produced text')
            else:
                w = h.wire(s, o)
                s.same_ob(w[0] if isinstance(w, list) else w, r, 'wire', 'text sent')
        run.explore('%s %s %s of %s' % (kind, fmt or 'plain', '+'.join(which) or 'unconstrained', vk), body, setup)

    full = ('enum', 'minLength', 'maxLength')
    for kind in HOLDERS:
        scen(kind, ('minLength', 'maxLength'), None, 'str')
        scen(kind, ('enum',), None, 'str')
    for w in ((), ('minLength',), ('maxLength',), full):
        scen('schema', w, None, 'str')
    for f in ('', 'password', 'unknown-format'):
        scen('schema', full, f, 'str')
    scen('query', full, None, 'int')
    scen('schema', full, None, 'int')
    scen('schema', (), 'email', 'str')
    scen('query', full, 'email', 'str')
    scen('property', (), 'email', 'str')
    scen('response body', (), 'email', 'str')
