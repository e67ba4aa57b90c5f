"""C19  Every operation comes to an end, after work in proportion to the document."""
import json

from .common import *

RUNS = {'quick': 9000, 'thorough': 80000}
RULE = ('one run = one of: operations under faults that do not go away, files that another program replaces over and over, lock files and a '
        'clock that jumps or stands still, each followed by the same operation without faults; the same document with a list of n, 2n and 4n '
        'items; one document worked on 20-60 times in one process. Counted are disk operations, waiting and executed lines of the library; '
        'non-trivial: a fault fired or a count was compared')
ASSUMPTIONS = BASE_ASSUMPTIONS + [
    'work is counted in disk operations and executed lines of the library; time spent inside of single calls into the Python runtime is not counted '
    '(except that a run that takes more than a minute is reported)']
WAIT = 10.0         # seconds of simulated time an operation may spend waiting


def gen(rng, i, tier):
    style = rng.choice(['faults', 'faults', 'faults', 'growth', 'growth', 'long'])
    kind = rng.choice(KINDS)
    sc = {'env': gen_env(rng, small=rng.random() < .5), 'style': style, 'kind': kind}
    if style == 'growth':
        sc['tree'] = gen_tree(rng, kind, size=2)
        sc['k'] = round(rng.random(), 4)
        sc['n'] = rng.choice([10, 20, 40, 80])
        clip(sc['tree'], 40)
        sc['ops'] = ['text', 'save', 'load']
        sc['env'].pop('max_read', None)
        sc['env'].pop('max_write', None)
        return sc
    sc['tree'] = gen_tree(rng, kind, size=rng.choice([1, 1, 2, 3]))
    if style == 'long':
        clip(sc['tree'], 200)
        sc['rounds'] = rng.choice([20, 40, 60])
        sc['ops'] = [rng.choice(['text', 'save', 'load', 'edit']) for _ in range(rng.randint(1, 4))]
        sc['edit'] = gen_edit(rng, sc['tree'])
        sc['failing'] = rng.random() < .3
        return sc
    sc['beside'] = gen_beside(rng, .3)
    sc['other'] = gen_tree(rng, kind, size=1)
    sc['ops'] = []
    for _ in range(rng.randint(1, 5)):
        op = {'op': rng.choice(['save', 'load', 'resave'])}
        saving = op['op'] != 'load'
        k = rng.random()
        if k < .45:
            op['faults'] = gen_write_faults(rng, 1) if saving else gen_read_faults(rng, 1)
            for f in op['faults']:
                f['sticky'] = rng.random() < .8
                if rng.random() < .2:
                    f['nth'] = 0
        elif k < .75:
            on = rng.choice(['open_w', 'write', 'close_w', 'any', 'stat'] if saving else ['stat', 'open_r', 'read', 'close_r', 'any'])
            op['faults'] = [{'on': on, 'nth': rng.choice([0, 0, 1, 3]), 'do': rng.choice(['EIO', 'EBUSY', 'EACCES', 'ENOSPC', 'ESTALE', 'EMFILE', 'ENOMEM', 'EINTR', 'short']),
                             'keep': 1, 'sticky': rng.random() < .8}]
        elif k < .9:
            # another program replaces or touches the file whenever the library does something
            op['faults'] = [{'on': rng.choice(['any', 'stat', 'open_r', 'read', 'close_r', 'open_w', 'write', 'close_w']), 'nth': 0, 'do': 'actor', 'sticky': True,
                             'what': rng.choice(['replace', 'alternate', 'grow', 'remove', 'touch'])}]
        else:
            op['faults'] = [{'on': 'any', 'nth': 0, 'do': 'delay', 'dt': rng.choice([-.001, -60.0, 3600.0, 86400.0 * 365]), 'sticky': True}]
        sc['ops'].append(op)
    return sc


def clip(t, n):
    """Long texts and lists are cut, so that the number of items decides how much there is to do."""
    it = t.items() if isinstance(t, dict) else enumerate(t)
    for g, v in list(it):
        if isinstance(v, str) and len(v) > n:
            t[g] = v[:n].rstrip(' \\\n\r') + 'x'
        elif isinstance(v, (dict, list)):
            if isinstance(v, list) and len(v) > 12 and isinstance(v[0], dict):
                del v[12:]
            clip(v, n)


def operations(w, kind, obj, f):
    return {'save': lambda: obj.to_file(f, encoding='utf-8'), 'resave': lambda: obj.to_file(f, encoding='utf-8'),
            'load': lambda: w.lib.kind(kind).from_file(f, encoding='utf-8'), 'text': lambda: obj.to_sexpr()}


def run(sc, st):
    kind, tree = sc['kind'], sc['tree']
    f = 'doc' + S.SUFFIX[kind]
    with World(sc['env']) as w:
        w.boot()
        try:
            st.doc(tree)
            {'faults': faults, 'growth': growth, 'long': long}[sc['style']](w, sc, st, kind, tree, f)
        finally:
            st.absorb(w)


def ended(o, k, what):
    if o.stuck:
        raise Violation('endless', f'{k}: {what}: not finished after {o.spent} disk operations; the first ones: {o.fired[:6]}')
    if o.slept > WAIT:
        raise Violation('waits', f'{k}: {what}: waited for {o.slept:.0f} s')


def faults(w, sc, st, kind, tree, f):
    full, o = reference_bytes(w, tree, 'utf-8')
    second, o2 = reference_bytes(w, sc['other'], 'utf-8')
    if full is None or second is None:
        return
    put_beside(w, st, f, sc.get('beside'), full)
    obj = S.build(w.lib, tree)
    fns = operations(w, kind, obj, f)
    for op in sc['ops']:
        k = op['op']
        w.put(f, full)
        o = call(w, fns[k], events=20 * len(full) + 2000)
        ended(o, k, 'undisturbed')
        if not o.ok:
            raise Violation('healthy-raised', f'{k}: {o}')
        alone = o.spent
        w.put(f, full)
        plan = []
        for x in op['faults']:
            x = dict(x)
            if x['do'] == 'actor':
                x['acts'] = {'replace': [{'act': 'write', 'path': f, 'data': second}],
                             'alternate': [{'act': 'alternate', 'path': f, 'data': [full, second]}],
                             'grow': [{'act': 'grow', 'path': f, 'up_to': len(full) + 200}], 'remove': [{'act': 'remove', 'path': f}],
                             'touch': [{'act': 'touch', 'path': f}]}[x['what']]
            plan.append(x)
        limit = 20 * alone + 500
        if any(x['do'] == 'short' for x in plan):
            limit += 20 * len(full)
        if any(x.get('what') == 'grow' for x in plan):
            limit += 4000         # (a reader may have to follow for a while)
        o = call(w, fns[k], plan, events=limit)
        st.c['operations under faults'] += 1
        if o.fired:
            st.nontrivial = True
        ended(o, k, f'{op["faults"]}')
        if not o.ok and not o.fired:
            raise Violation('healthy-raised', f'{k}: {o}')
        # the faults are gone: the same operation ends with its result
        if k == 'load':
            w.put(f, full)
        elif w.get(f) is not None and any(x['do'] == 'actor' for x in plan):
            w.ext_remove(os.path.join(w.disk, f))
        o = call(w, fns[k], events=20 * alone + 500)
        ended(o, k, f'after {op["faults"]}')
        if not o.ok:
            raise Violation('no-progress', f'{k} after {op["faults"]} are gone: {o}')
        if k == 'load':
            d = S.diff(tree, S.dump(w.lib, o.value))
            if d:
                raise Violation(f'no-progress:{place(d)}', f'{k} after {op["faults"]} are gone: {d}')
        elif w.get(f) != full:
            raise Violation('no-progress', f'{k} after {op["faults"]} are gone: {len(w.get(f) or b"")} bytes instead of {len(full)}')
        st.c['operations after faults'] += 1


def lists_of(t, path=()):
    """Lists of items anywhere in a document that may have any length."""
    out = []
    for g in S.SPEC[t['$']]:
        v = t[g]
        if isinstance(v, dict) and '$' in v:
            out += lists_of(v, path + (g,))
        elif isinstance(v, list) and v and not (t['$'] in S.POST and g == 'pts'):
            out.append(path + (g,))
            for j, x in enumerate(v):
                if isinstance(x, dict) and '$' in x:
                    out += lists_of(x, path + (g, j))
        elif isinstance(v, dict) and v.get('%'):
            out.append(path + (g,))
    return out


def many(v, n):
    """A list or dictionary like v with n entries."""
    if isinstance(v, list):
        return [another(v[0], k) for k in range(n)]
    k, x = v['%'][0]
    return {'%': [[f'{k}{j:06d}', another(x, j)] for j in range(n)]}


def another(t, n):
    """The same item with other values of the same length."""
    if isinstance(t, str):
        return f'{t}{n:06d}'
    if not (isinstance(t, dict) and '$' in t):
        return t
    t = S.dup(t)

    def walk(x):
        for g in S.SPEC[x['$']]:
            v = x[g]
            if x['$'] == 'c:Position' and g == 'X':
                x[g] = float(100000 + n) + .5
            elif g in ('tstamp', 'uuid') and isinstance(v, str) and len(v) == 36:
                x[g] = f'{n:08x}' + v[8:]
            elif isinstance(v, dict) and '$' in v:
                walk(v)
            elif isinstance(v, list):
                for y in v:
                    if isinstance(y, dict) and '$' in y:
                        walk(y)
    walk(t)
    for d, g in texts(t):
        d[g] = f'{d[g]}{n:06d}'
    return t


def name(t, path):
    for p in path[:-1]:
        t = t[p]
    return f'{t["$"]}.{path[-1]}'


def growth(w, sc, st, kind, tree, f):
    ls = lists_of(tree)
    if not ls:
        return
    sorts = sorted({name(tree, p) for p in ls})
    sort = sorts[int(sc['k'] * (len(sorts) - .001))]
    path = next(p for p in ls if name(tree, p) == sort)
    st.c[f'measured {sort}'] += 1
    # warm: whatever is done once per process has been done
    load(w, kind, f, 'utf-8')
    cost = {}
    x = tree
    for p in path:
        x = x[p]
    one = len(json.dumps(x)) // len(x['%'] if isinstance(x, dict) else x)
    n = max(8, min(sc['n'], 150000 // (4 * one), 150000 // len(json.dumps(tree)) * 8))
    for m in (1, 1, 2, 4):
        t = S.dup(tree)
        x = t
        for p in path[:-1]:
            x = x[p]
        x[path[-1]] = many(x[path[-1]], n * m)
        obj = S.build(w.lib, t)
        fns = operations(w, kind, obj, f)
        for k in sc['ops']:
            o = call(w, fns[k], interrupt={'line': None, 'do': 'interrupt'})
            if not o.ok:
                return              # (C01 judges whether it has to work)
            cost[k, m] = (o.lines, o.spent)
    for k in sc['ops']:
        for j, what in ((0, 'executed lines'), (1, 'disk operations')):
            a, b, c = cost[k, 1][j], cost[k, 2][j], cost[k, 4][j]
            if c - b > 2.5 * (b - a) + 300:
                raise Violation(f'superlinear:{k}', f'{k} of {n}, {2 * n} and {4 * n} items at {".".join(map(str, path))} takes {a}, {b} and {c} {what}')
    st.nontrivial = True
    st.c['documents measured at three sizes'] += 1


def long(w, sc, st, kind, tree, f):
    full, o = reference_bytes(w, tree, 'utf-8')
    if full is None:
        return
    obj = S.build(w.lib, tree)
    w.put(f, full)
    cost = {}
    for n in range(sc['rounds']):
        if n and n % 10 == 0:
            w.now += 3600
        for k in sc['ops']:
            fns = operations(w, kind, obj, f)
            if k == 'edit':
                e = sc.get('edit')
                m = S.dup(tree)
                if e and edit_tree(m, e):
                    obj = S.build(w.lib, tree)
                    edit_obj(w.lib, obj, e)
                    call(w, obj.to_sexpr)
                    obj = S.build(w.lib, tree)
                continue
            if sc.get('failing'):
                call(w, fns[k], [{'on': 'any', 'nth': n % 7, 'do': 'EIO'}])
                w.put(f, full)
            measure = n in (2, sc['rounds'] - 1)
            o = call(w, fns[k], interrupt={'line': None, 'do': 'interrupt'} if measure else None)
            if not o.ok:
                raise Violation('healthy-raised', f'{k} in round {n}: {o}')
            if measure:
                cost.setdefault(k, []).append((o.lines, o.spent))
    for k, v in sorted(cost.items()):
        for j, what in ((0, 'executed lines'), (1, 'disk operations')):
            if v[-1][j] > 1.2 * v[0][j] + sc['rounds'] / 2:
                raise Violation(f'slower:{k}', f'{k} takes {v[0][j]} {what} in the third round and {v[-1][j]} in round {sc["rounds"]}')
    st.nontrivial = True
    st.c['documents worked on again and again'] += 1
