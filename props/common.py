"""Helpers shared by the property modules: scenario generation and checked library calls."""

import base64
import copy
import io
import os
import random

from sim import schema as S
from sim.runner import Violation
from sim.world import World, call, count_lines, SimCrash    # noqa: F401

KINDS = S.KIND_NAMES
BASE_ASSUMPTIONS = [
    'documents are drawn from the field domains of sim/schema.py (DESIGN.md, "Domain of documents")',
    'sampling: a clean batch is evidence, not proof',
    'CPython 3.12 text and buffering layers are trusted (they run for real above the simulated raw files)',
]


# -- scenario generation -----------------------------------------------------------------------------
def gen_env(rng, small=False):
    env = {}
    if rng.random() < .5:
        env['bufsize'] = rng.choice([16, 64, 512, 4096, 65536])
    if rng.random() < .5:
        env['max_read'] = rng.choice([13, 64, 511, 4096] if not small else [1, 3, 13, 13, 64, 64, 511, 511])
    if rng.random() < .5:
        env['max_write'] = rng.choice([61, 512, 4096, 8191] if not small else [1, 7, 17, 17, 61, 61, 512, 512])
    env['now'] = rng.choice([1.0e9, 1.7e9, 1700000000.5, 4.0e9])
    env['entropy'] = rng.randrange(1 << 30)
    return env


def steps(rng, lo, hi):
    """Length of a history; a few are much longer than the others."""
    if rng.random() < .01:
        return rng.choice([30, 60, 120])
    return rng.randint(lo, hi)


def gen_tree(rng, kind=None, encoding='utf-8', text='all', size=None, huge=False):
    kind = kind or rng.choice(KINDS)
    size = size if size is not None else rng.choice([1, 1, 2, 3, 4])
    g = S.Gen(rng, encoding=encoding, size=size, text=text, depth_budget=rng.choice([30, 120, 300]))
    if huge:
        g.giant = 'text'        # megabytes
    return S.gen_doc(g, kind)


KIND_OF = {v: k for k, v in S.KINDS.items()}


def kind_of(tree):
    return KIND_OF[tree['$']]


def jump(rng):
    return rng.choice([0, 0, 3600, 86400 * 400, -86400 * 30, 1.5])


NOFIELDS = ('version', 'generator')


def gen_edit(rng, tree, encoding='utf-8', text='all'):
    """One edit of a document, as data: where, what, and the new value."""
    key = tree['$']
    g = S.Gen(rng, encoding=encoding, size=2, text=text, depth_budget=40)
    spots = []

    def walk(t, path, depth):
        for f, gen in S.SPEC[t['$']].items():
            v = t[f]
            if isinstance(v, list) and v and isinstance(v[0], dict) and '$' in v[0]:
                if (t['$'] == 'Y:Symbol' and f == 'units') or (t['$'] in S.POST and f == 'pts'):
                    continue
                for i, x in enumerate(v):
                    spots.append((path + [f, i], gen, True))
                    if depth < 3 and x['$'] != 'c:Position':
                        walk(x, path + [f, i], depth + 1)
            elif t['$'] not in S.POST and f not in NOFIELDS and not isinstance(v, list):
                spots.append((path + [f], gen, False))

    walk(tree, [], 0)
    lists = [f for f in S.SPEC[key] if isinstance(tree[f], list)]
    k = rng.random()
    if k < .35 and lists:
        f = rng.choice(lists)
        for _ in range(6):
            new = S.SPEC[key][f](g)
            if new:
                return {'do': 'insert', 'path': [f, rng.randint(0, len(tree[f]))], 'value': new[0]}
    if k < .5 and lists:
        f = rng.choice(lists)
        if tree[f]:
            return {'do': 'delete', 'path': [f, rng.randrange(len(tree[f]))]}
    if spots:
        path, gen, in_list = rng.choice(spots)
        new = gen(g)
        if in_list:
            for _ in range(8):
                if new:
                    break
                new = gen(g)
            if not new:
                return {'do': 'delete', 'path': path} if len(path) == 2 else None
            new = new[0]
        old = tree
        for p in path:
            old = old[p]
        # half of the edits of an object change one attribute somewhere inside of it, in place
        while rng.random() < .6 and isinstance(old, dict) and isinstance(new, dict) and '$' in old and old['$'] == new.get('$') \
                and old['$'] not in S.POST:
            fields = [f for f in S.SPEC[old['$']] if old[f] != new[f]]
            if not fields:
                break
            f = rng.choice(fields)
            path, old, new = path + [f], old[f], new[f]
        return {'do': 'set', 'path': path, 'value': new}
    return None


def overhaul(lib, tree, obj, seed, p):
    """Gives many attributes all over a document another value, in place: in the model and in the object."""
    rng = random.Random(seed)
    g = S.Gen(rng, size=1, depth_budget=40)
    n = 0

    def become(t, o, like):
        """Every attribute of an object takes the value it has in another one, in place."""
        nonlocal n
        for f in S.SPEC[t['$']]:
            v, new = t[f], like[f]
            if isinstance(v, dict) and isinstance(new, dict) and '$' in v and v['$'] == new.get('$'):
                become(v, getattr(o, f), new)
            elif isinstance(v, list) and isinstance(new, list) and v and new and all(isinstance(x, dict) and '$' in x for x in v + new):
                there = getattr(o, f)
                for i in range(min(len(v), len(new))):
                    if v[i]['$'] == new[i]['$']:
                        become(v[i], there[i], new[i])
                    else:
                        v[i], there[i] = new[i], S.build(lib, new[i])
                del v[len(new):], there[len(new):]
                for x in new[len(v):]:
                    v.append(x)
                    there.append(S.build(lib, x))
                n += 1
            elif v != new:
                t[f] = new
                setattr(o, f, S.build(lib, new))
                n += 1

    def walk(t, o):
        nonlocal n
        post = t['$'] in S.POST
        for f, gen in S.SPEC[t['$']].items():
            v = t[f]
            if isinstance(v, dict) and '$' in v:
                new = gen(g)
                if isinstance(new, dict) and new.get('$') == v['$'] and rng.random() < p:
                    if post:
                        if 'key' not in new:
                            continue
                        new['key'] = v['key']
                    become(v, getattr(o, f), new)
            elif isinstance(v, list):
                if v and isinstance(v[0], dict) and '$' in v[0] and not (t['$'] == 'Y:Symbol' and f == 'units'):
                    for x, y in zip(v, getattr(o, f)):
                        if x['$'] in S.POST and x['$'] != 'Y:Symbol':
                            if rng.random() < p:
                                become(x, y, S.gen_obj(g, x['$']))
                        else:
                            walk(x, y)
            elif not post and f not in NOFIELDS and not isinstance(v, dict) and rng.random() < p:
                new = gen(g)
                if new is not None and type(new) is type(v) and new != v:
                    t[f] = new
                    setattr(o, f, S.build(lib, new))
                    n += 1
    walk(tree, obj)
    return n


def edit_tree(tree, e):
    """Apply an edit to the model. Returns False when the place no longer exists."""
    if e is None:
        return False
    x = tree
    try:
        for p in e['path'][:-1]:
            x = x[p]
        p = e['path'][-1]
        if e['do'] == 'insert':
            if not isinstance(x, list):
                return False
            x.insert(p, S.dup(e['value']))
        elif e['do'] == 'delete':
            del x[p]
        else:
            x[p]
            x[p] = S.dup(e['value'])
    except (KeyError, IndexError, TypeError):
        return False
    return True


def edit_obj(lib, obj, e):
    x = obj
    for p in e['path'][:-1]:
        x = getattr(x, p) if isinstance(p, str) else x[p]
    p = e['path'][-1]
    if e['do'] == 'insert':
        x.insert(p, S.build(lib, e['value']))
    elif e['do'] == 'delete':
        del x[p]
    elif isinstance(p, str):
        setattr(x, p, S.build(lib, e['value']))
    else:
        x[p] = S.build(lib, e['value'])


# -- library operations ----------------------------------------------------------------------------------
def save(w, obj, path=None, encoding=None, faults=None, interrupt=None):
    if path is None:
        fn = (lambda: obj.to_file()) if encoding is None else (lambda: obj.to_file(encoding=encoding))
    elif encoding is None:
        fn = lambda: obj.to_file(path)
    else:
        fn = lambda: obj.to_file(path, encoding=encoding)
    return call(w, fn, faults, interrupt)


def load(w, kind, path, encoding=None, faults=None, interrupt=None):
    cls = w.lib.kind(kind)
    if encoding is None:
        fn = lambda: cls.from_file(path)
    else:
        fn = lambda: cls.from_file(path, encoding=encoding)
    return call(w, fn, faults, interrupt)


def place(path_diff):
    """Class of a difference: the field path without indices, so that minimising keeps the bug."""
    import re
    return re.sub(r'\[[^\]]*\]', '[]', path_diff.split(':')[0])[:120]


def healthy(o, what):
    if not o.ok:
        raise Violation(f'{what}-raised', f'{what} raised {o.exc_type}: {o.exc_text} although nothing failed')
    return o.value


def reference_bytes(w, tree, encoding=None):
    """What a save writes when nothing goes wrong (of a freshly built equal document)."""
    p = os.path.join(w.base, 'tmp', 'reference')
    o = save(w, S.build(w.lib, tree), p, encoding)
    if not o.ok:
        return None, o
    with open(p, 'rb') as f:
        data = f.read()
    os.unlink(p)
    return data, o


def serialised_bytes(w, tree, encoding=None):
    """The complete serialised document in the encoding and line ending a text file gets on this platform."""
    raw = io.BytesIO()
    out = io.TextIOWrapper(raw, encoding=encoding or w.locale, newline=w.linesep)
    out.write(S.build(w.lib, tree).to_sexpr())
    out.flush()
    return raw.getvalue()


# files that editors, backup tools and other programs leave beside a document
BESIDE = ['{}-bak', '{}.bak', '{}~', '_autosave-{}', '{}.tmp', '.{}.tmp', '{}.temp', '{}.lck', '~{}.lck', '.~lock.{}#', '.{}.swp', '{}.new', '{}.old',
          '{}.orig', '{}.part', '{}.lock', '{}.1', '#{}#', '{}-journal', '{}.cache', '{}.rej', 'tmp{}', 'tmp']


def gen_beside(rng, p=.15):
    if rng.random() >= p:
        return None
    return [{'name': n, 'holds': rng.choice(['document', 'document', 'document', 'nothing', 'else']), 'age': rng.choice([-1e6, 0, 0, 1e6])}
            for n in rng.sample(BESIDE, rng.choice([1, 3, len(BESIDE)]))]


def put_beside(w, st, f, how, document):
    """Puts such files beside f. Nobody may take them for the document, or change them."""
    d, n = os.path.split(f)
    for x in how or []:
        p = os.path.join(d, x['name'].format(n))
        if os.path.lexists(os.path.join(w.disk, p)):
            continue
        w.put(p, {'document': document, 'nothing': b'', 'else': b'pid 1\n'}[x['holds']])
        if x['age']:
            t = max(1, int(1.7e9 + x['age']))
            os.utime(os.path.join(w.disk, p), (t, t))
        st.c['files left beside a document by other programs'] += 1


def beside(w, f):
    """What lies beside f."""
    d = os.path.join(w.disk, os.path.dirname(f))
    return {n: w.get(os.path.join(os.path.dirname(f), n)) for n in sorted(os.listdir(d)) if n != os.path.basename(f)}


BLOCKS = [512, 1024, 2048, 4096, 8192, 8192, 16384, 32768, 65536]


def gen_fit(rng, p=.06):
    """A document whose file has a length next to a multiple of a block size."""
    if rng.random() < p:
        return {'block': rng.choice(BLOCKS), 'off': rng.choice([0, 0, 0, -1, 1]), 'by': rng.choice(['characters', 'bytes'])}
    return None


def fit(w, tree, how, encoding=None):
    """Makes a text of the document longer until its file has that length."""
    if not how:
        return False
    holder = roomy(tree)
    if holder is None:
        return False
    n = len(S.build(w.lib, tree).to_sexpr()) if how['by'] == 'characters' else len(serialised_bytes(w, tree, encoding))
    unit = 1 if how['by'] == 'characters' else len('xx'.encode(encoding or w.locale)) - len('x'.encode(encoding or w.locale))
    d, k = holder
    d[k] += 'x' * ((how['off'] - n) % how['block'] // unit)
    return True


def texts(t):
    """The texts of a document that may have any content."""
    if isinstance(t, dict) and '$' in t:
        for k in ('text', 'value', 'description', 'title', 'company', 'descr', 'uri', 'condition', 'tags'):
            if isinstance(t.get(k), str) and t['$'] not in ('s:Property', ):
                yield t, k
        for v in t.values():
            yield from texts(v)
    elif isinstance(t, list):
        for x in t:
            yield from texts(x)


def tweak(t, k, at, o=None):
    """Replaces one letter or digit of a text by another one, also in the object."""
    spots = [(d, f) for d, f in texts(t) if any(c.isascii() and c.isalpha() for c in d[f])]
    if not spots:
        return False
    d, f = spots[int(k * (len(spots) - .001))]
    places = [i for i, c in enumerate(d[f]) if c.isascii() and c.isalpha()]
    i = places[int(at * (len(places) - .001))]
    d[f] = d[f][:i] + ('x' if d[f][i] != 'x' else 'y') + d[f][i + 1:]
    if o is not None:
        setattr(counterpart(t, o, d), f, d[f])
    return True


def counterpart(t, o, d):
    """The object that stands for part d of the tree."""
    if t is d:
        return o
    if isinstance(t, dict) and '$' in t:
        kids = [(v, lambda o, k=k: getattr(o, k)) for k, v in t.items() if k != '$']
    elif isinstance(t, list):
        kids = [(v, lambda o, i=i: o[i]) for i, v in enumerate(t)]
    else:
        return None
    for v, get in kids:
        r = counterpart(v, get(o), d) if isinstance(v, (dict, list)) and not (isinstance(v, dict) and '$' not in v) else None
        if r is not None:
            return r
    return None


def roomy(t):
    """Some text of a document that may have any length."""
    return next(texts(t), None)


def check_doc(w, obj, tree, cls, detail):
    d = S.diff(tree, S.dump(w.lib, obj))
    if d:
        raise Violation(f'{cls}:{place(d)}', f'{detail}: {d}')


def remembered(obj):
    """The path a document remembers."""
    return getattr(obj, 'filePath', None)


def moved(obj, was):
    now = remembered(obj)
    return None if now == was else f'.filePath: {was!r} became {now!r}'


def undated(tree):
    """Without the edit time, which a new footprint takes from the clock."""
    if isinstance(tree, dict) and tree.get('$') == 'F:Footprint':
        tree = dict(tree, tedit=None)
    return tree


def shared_parts(lib, obj):
    """Two places of a document that hold the very same changeable object, or None."""
    seen = {}

    def walk(o, path):
        if isinstance(o, (list, dict)):
            kids = [(f'[{i}]', x) for i, x in enumerate(o)] if isinstance(o, list) else [(f'[{k!r}]', x) for k, x in o.items()]
        elif type(o) in lib.by_cls:
            if getattr(getattr(type(o), '__dataclass_params__', None), 'frozen', False):
                return None
            kids = [('.' + f, getattr(o, f, None)) for f in S.SPEC[lib.by_cls[type(o)]]]
        else:
            return None
        if id(o) in seen:
            return seen[id(o)], path
        seen[id(o)] = path
        for p, x in kids:
            r = walk(x, path + p)
            if r:
                return r
        return None
    return walk(obj, '')


def unshared(lib, obj, how):
    r = shared_parts(lib, obj)
    if r:
        raise Violation(f'shared-parts:{place(r[0])}:{place(r[1])}', f'{how}: {r[0]} and {r[1]} are the same object, changing one in place changes the other')


def b64(b):
    return base64.b64encode(b).decode()


FATAL_WRITE = ['ENOSPC', 'EIO', 'EDQUOT', 'EFBIG']


def gen_write_faults(rng, n=None, crash=False):
    """Faults for one save."""
    out = []
    for _ in range(n if n is not None else rng.choice([1, 1, 1, 2])):
        k = rng.random()
        nth = rng.choice([0, 0, 0, 1, 1, 2, 3, 5, 8])
        if k < .15:
            out.append({'on': 'open_w', 'nth': 0, 'do': rng.choice(['EACCES', 'EROFS', 'EMFILE', 'ENOSPC', 'EIO', 'ENOENT'])})
        elif k < .6:
            f = {'on': 'write', 'nth': nth, 'do': rng.choice(FATAL_WRITE), 'frac': round(rng.random(), 2)}
            if rng.random() < .5:
                f['sticky'] = True
            out.append(f)
        elif k < .7:
            out.append({'on': 'write', 'nth': nth, 'do': 'short', 'keep': rng.choice([1, 5, 100])})
        elif k < .76:
            out.append({'on': 'write', 'nth': nth, 'do': 'EINTR'})
        elif k < .88:
            out.append({'on': 'close_w', 'nth': 0, 'do': rng.choice(['EIO', 'ENOSPC', 'EDQUOT', 'ESTALE'])})
        else:
            out.append({'on': 'close_w', 'nth': 0, 'do': 'lost', 'frac': round(rng.random(), 2)})
    if crash:
        out = [{'on': rng.choice(['write', 'write', 'write', 'close_w', 'open_w']), 'nth': rng.choice([0, 0, 1, 2, 3, 6]),
                'do': 'crash', 'frac': round(rng.random(), 3)}]
    return out


def gen_read_faults(rng, n=None):
    out = []
    for _ in range(n if n is not None else rng.choice([1, 1, 2])):
        k = rng.random()
        nth = rng.choice([0, 0, 1, 1, 2, 3, 5, 9])
        if k < .12:
            out.append({'on': 'open_r', 'nth': 0, 'do': rng.choice(['EACCES', 'EMFILE', 'EIO', 'ENOENT', 'ESTALE'])})
        elif k < .2:
            out.append({'on': 'stat', 'nth': 0, 'do': rng.choice(['EACCES', 'EIO', 'ESTALE'])})
        elif k < .65:
            out.append({'on': 'read', 'nth': nth, 'do': rng.choice(['EIO', 'EIO', 'ESTALE', 'EBUSY', 'ENOMEM'])})
        elif k < .8:
            out.append({'on': 'read', 'nth': nth, 'do': 'short', 'keep': rng.choice([1, 2, 50])})
        elif k < .92:
            out.append({'on': 'read', 'nth': nth, 'do': 'EINTR'})
        else:
            out.append({'on': 'close_r', 'nth': 0, 'do': 'EIO'})
    return out
