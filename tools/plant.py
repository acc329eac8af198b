#!/usr/bin/env python3
"""Plants and verifies seeded changes.

plant.py new FILE.py     FILE.py defines SEEDS = [dict(id, prop, edits=[(file, old, new)...], needs, breaks, demo)]
plant.py verify [ID...]  applies each seeded change in a scratch copy; runs tests, demo and the property's check
"""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(HERE, 'seeded')
PY = '/opt/venv/bin/python'
PRELUDE = '''import os, sys
sys.path.insert(0, os.getcwd())
from pyswagger import App, Security
from pyswagger.getter import DictGetter
from pyswagger.primitives import Primitive

URL = 'http://h.com/swagger.json'


def doc(paths=None, **kw):
    d = {'swagger': '2.0', 'info': {'title': 't', 'version': '1'}, 'host': 'h.com', 'basePath': '/v1', 'schemes': ['http'], 'paths': paths or {}}
    d.update(kw)
    return d


def opdoc(params, method='get', path='/a', root={}, **kw):
    o = {'operationId': 'op1', 'responses': {'200': {'description': 'ok'}}, 'parameters': params}
    o.update(kw)
    return doc({path: {method: o}}, **root)


def mkapp(d, extra={}, prepare=True, url=URL, **kw):
    docs = {url: d}
    docs.update(extra)
    app = App.load(url, getter=DictGetter(list(docs), docs), **kw)
    if prepare:
        app.prepare()
    return app


def produce(schema, v, ctx=None, **defs):
    defs['M'] = schema
    app = mkapp(doc(definitions=defs))
    return app.prim_factory.produce(app.root.definitions['M'], v, ctx)


def raises(exc, f, *a, **kw):
    try:
        r = f(*a, **kw)
    except exc:
        return True
    except Exception as e:
        print('raised', type(e).__name__, e)
        return False
    print('returned', r)
    return False


'''


def sh(cmd, cwd, timeout=300, env=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env)
        return p.returncode, p.stdout.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired:
        return 124, 'timeout'


def scratch():
    d = tempfile.mkdtemp(prefix='plant')
    shutil.copytree('/repo', d + '/repo', symlinks=True)
    return d, d + '/repo'


def stable():
    return json.load(open('/opt/vp/BASELINE.json'))


def tests(repo):
    rc, out = sh([PY, '-m', 'pytest', '-q', '-x', '--no-header', '-p', 'no:cacheprovider', 'pyswagger/tests'], repo)
    return rc, out.strip().splitlines()[-1] if out.strip() else ''


def new(spec):
    d, repo = scratch()
    try:
        for f, old, to in spec['edits']:
            p = os.path.join(repo, f)
            t = open(p).read()
            assert t.count(old) == 1, '%s: %d occurrences in %s of %r' % (spec['id'], t.count(old), f, old[:60])
            open(p, 'w').write(t.replace(old, to))
        rc, diff = sh(['git', 'diff'], repo)
        out = os.path.join(SEED, spec['id'])
        os.makedirs(out, exist_ok=True)
        open(out + '/patch.diff', 'w').write(diff)
        open(out + '/demo.py', 'w').write(PRELUDE + spec['demo'].lstrip('\n'))
        open(out + '/demo.sh', 'w').write('#!/bin/sh\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(out + '/demo.sh', 0o755)
        json.dump({'property': spec['prop'], 'needs': spec['needs'], 'what_it_breaks': spec['breaks']}, open(out + '/meta.json', 'w'), indent=1)
    finally:
        shutil.rmtree(d)


def own_lines(repo):
    """ removed lines that are not of the original repository """
    ret = []
    f = None
    for l in sh(['git', 'diff', '-U0'], repo)[1].splitlines():
        if l.startswith('--- '):
            f = l[6:]
        m = re.match(r'@@ -(\d+)(?:,(\d+))? ', l)
        if m and m.group(2) != '0':
            a = int(m.group(1))
            b = a + int(m.group(2) or 1) - 1
            for x in sh(['git', 'blame', '-s', '-L', '%d,%d' % (a, b), 'HEAD', '--', f], repo)[1].splitlines():
                if not x.startswith('^'):
                    ret.append(f + ':' + x.split(')', 1)[0].split()[-1])
    return ret


def verify(i, j=2):
    d, repo = scratch()
    sd = os.path.join(SEED, i)
    meta = json.load(open(sd + '/meta.json'))
    res = []
    try:
        rc, o = sh(['sh', sd + '/demo.sh'], repo)
        res.append('demo clean %s' % ('ok' if rc == 0 else 'BAD rc=%d %s' % (rc, o[-300:])))
        rc, o = sh(['git', 'apply', sd + '/patch.diff'], repo)
        if rc:
            return i, meta['property'], ['APPLY FAILED ' + o], None
        own = own_lines(repo)
        if own:
            res.append('BAD: changes lines of fix commits: %s' % own)
        rc, o = tests(repo)
        res.append('tests %s' % ('ok' if rc == 0 else 'BAD ' + o))
        rc, o = sh(['sh', sd + '/demo.sh'], repo)
        res.append('demo patched %s' % ('ok' if rc not in (0, 124) else 'BAD (rc %d)' % rc))
        rc, o = sh([sys.executable, 'check.py', meta['property'], '--root', repo, '-v', '-j', str(j)], HERE, 900, dict(os.environ, VERIF_EVIDENCE=d + '/ev'))
        caught = rc == 1
        lines = [l for l in o.splitlines() if 'rule ' in l][:1]
        return i, meta['property'], res, (caught, rc, lines[0].strip()[:160] if lines else o.strip().splitlines()[-1][:200] if o.strip() else '')
    finally:
        shutil.rmtree(d)


def main():
    if sys.argv[1] == 'new':
        ns = {}
        exec(open(sys.argv[2]).read(), ns)
        ids = []
        for s in ns['SEEDS']:
            new(s)
            ids.append(s['id'])
    else:
        ids = sys.argv[2:] or sorted(os.listdir(SEED))
    with ThreadPoolExecutor(4) as ex:
        for i, p, res, c in ex.map(verify, ids):
            bad = [r for r in res if 'BAD' in r or 'FAILED' in r]
            print('%-28s %s %s %s' % (i, p, 'CAUGHT' if c and c[0] else 'missed', '; '.join(bad)))
            if c:
                print('      ' + ('rc=%d ' % c[1] if not c[0] else '') + c[2])
            sys.stdout.flush()
            if c and not bad:
                f = os.path.join(HERE, 'tools', 'caught.json')
                d = json.load(open(f)) if os.path.exists(f) else {}
                m = re.match(r'\[(.*?)\] rule (.*?):', c[2])
                d[i] = 'scenario "%s", rule %s' % m.groups() if c[0] and m else 'yes' if c[0] else ''
                d = {k: v for k, v in d.items() if os.path.isdir(os.path.join(SEED, k))}
                json.dump(d, open(f, 'w'), indent=1, sort_keys=True)


main()
