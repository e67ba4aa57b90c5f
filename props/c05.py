"""C05  Serialising is repeatable and has no side effects."""
import hashlib
import json
import random
import re
import subprocess
import sys

from sim.sched import Sched
from .common import *

RUNS = {'quick': 8000, 'thorough': 80000}
RULE = ('one run = 1-3 documents serialised over and over between restarts, clock jumps, reseeded random state, changed working '
        'directory, work on other documents, edits, operations that fail, concurrent serialisation by several threads under a seeded scheduler, and in a '
        'process with another hash seed; non-trivial: a text was compared with an earlier one across at least one such change')
ASSUMPTIONS = BASE_ASSUMPTIONS + ['thread switches happen at line boundaries of library code (byte-code granularity in some runs)']


def gen(rng, i, tier):
    n = rng.choice([1, 2, 2, 3])
    kind = rng.choice(KINDS)
    trees = {f'd{k}': gen_tree(rng, kind if rng.random() < .5 else None, size=rng.choice([1, 2, 3])) for k in range(n)}
    sc = {'env': gen_env(rng), 'trees': trees, 'ops': []}
    m = S.dup(trees)
    ops = sc['ops']
    names = sorted(trees)
    for _ in range(steps(rng, 4, 12)):
        d = rng.choice(names)
        k = rng.random()
        if k < .2:
            ops.append({'op': 'text', 'doc': d})
        elif k < .3:
            ops.append({'op': 'save', 'doc': d})
        elif k < .36:
            ops.append({'op': 'twin', 'doc': d})
        elif k < .42:
            ops.append({'op': 'items', 'doc': d})
        elif k < .5:
            ops.append({'op': 'restart', 'jump': jump(rng)})
        elif k < .56:
            ops.append({'op': 'clock', 'jump': rng.choice([1, 3600, 86400 * 3, -7200, 4e8])})
        elif k < .6:
            ops.append({'op': 'chdir', 'to': rng.choice(['.', 'sub'])})
        elif k < .62:
            ops.append({'op': 'surroundings', 'doc': d, 'what': rng.choice(['file', 'file', 'directory']), 'data': rng.choice(['', 'x', '(lib)'])})
        elif k < .65:
            ops.append({'op': 'random', 'seed': rng.randrange(1000)})
        elif k < .78:
            e = gen_edit(rng, m[d])
            if edit_tree(m[d], e):
                ops.append({'op': 'edit', 'doc': d, 'edit': e})
        elif k < .79:
            ops.append({'op': 'tweak', 'doc': d, 'k': round(rng.random(), 4), 'at': round(rng.random(), 3)})
        elif k < .82:
            ops.append({'op': 'overhaul', 'doc': d, 'seed': rng.randrange(1 << 30), 'p': rng.choice([.1, .5, 1])})
        elif k < .9:
            nt = rng.randint(2, 3)
            ops.append({'op': 'threads', 'docs': [rng.choice(names) for _ in range(nt)], 'same': rng.random() < .5,
                        'opcodes': rng.random() < .15,
                        'preempt': sorted([round(rng.random() ** 2, 5), rng.randrange(4)] for _ in range(rng.choice([1, 2, 3, 8, 20])))})
        elif k < .93:
            ops.append({'op': 'reload', 'doc': d})
        elif k < .96:
            # documents that are alike
            v = respell(m[d], rng) if rng.random() < .6 else S.dup(m[d])
            for _ in range(rng.choice([0, 1, 3])):
                edit_tree(v, gen_edit(rng, v))
            ops.append({'op': 'alike', 'doc': d, 'tree': v, 'jump': jump(rng)})
        else:
            # an operation that fails in between
            o = {'op': 'fail', 'doc': d, 'what': rng.choice(['save', 'load', 'text'])}
            if rng.random() < .5 or o['what'] == 'text':
                o['interrupt'] = {'line': int(10 ** rng.uniform(0, 3)) - 1, 'do': rng.choice(['interrupt', 'nomem'])}
            else:
                o['faults'] = gen_read_faults(rng) if o['what'] == 'load' else gen_write_faults(rng)
            ops.append(o)
    if rng.random() < .12:
        ops.insert(rng.randint(0, len(ops)), {'op': 'hashseed', 'seed': rng.randint(1, 10 ** 6),
                                              'more': [gen_tree(rng) for _ in range(rng.choice([0, 4, 8]))]})
    for d in names:
        ops.append({'op': 'text', 'doc': d})
    return sc


def first_diff(a, b):
    n = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return f'at character {n}: {a[max(0, n - 30):n + 30]!r} then {b[max(0, n - 30):n + 30]!r}'


def run(sc, st):
    with World(sc['env']) as w:
        w.boot()
        os.mkdir(os.path.join(w.disk, 'sub'))
        model = S.dup(sc['trees'])
        ref, objs = {}, {}
        changed = False
        environ = dict(os.environ)

        def text(o):
            r = call(w, o.to_sexpr)
            if not r.ok:
                raise Violation('serialise-raised', f'{r.exc_type}: {r.exc_text}')
            st.c['serialisations'] += 1
            return r.value

        def check(d, t, how):
            if d not in ref:
                ref[d] = t
            elif ref[d] != t:
                raise Violation(f'text-differs:{how}', f'{how}: {first_diff(ref[d], t)}')
            else:
                st.c['texts compared'] += 1
                if changed:
                    st.nontrivial = True

        def intact(d, how):
            df = S.diff(model[d], S.dump(w.lib, objs[d])) or moved(objs[d], None)
            if df:
                raise Violation(f'document-changed:{place(df)}', f'{how} changed the document: {df}')

        def untouched(before, how, may=()):
            ch = [p for p in w.changed(before, w.snapshot()) if p not in may]
            if ch:
                raise Violation('file-touched', f'{how} changed {ch}')

        def fresh():
            for d in model:
                objs[d] = S.build(w.lib, model[d])

        try:
            fresh()
            for d in model:
                st.doc(model[d])
            for op in sc['ops']:
                k, d = op['op'], op.get('doc')
                if d is not None and d not in objs:
                    continue
                if k == 'text':
                    before = w.snapshot()
                    check(d, text(objs[d]), 'again')
                    intact(d, 'serialising')
                    untouched(before, 'serialising')
                elif k == 'save':
                    before = w.snapshot()
                    f = f'disk/{d}'
                    o = save(w, objs[d], os.path.join(w.base, f))
                    if not o.ok:
                        raise Violation('save-raised', f'{o.exc_type}: {o.exc_text}')
                    intact(d, 'saving')
                    untouched(before, 'saving', (f,))
                    data = w.get(d).decode('utf-8', 'replace')
                    check(d, text(objs[d]), 'after saving')
                    if (d, 'bytes') in ref and ref[d, 'bytes'] != data:
                        raise Violation('saved-text-differs', first_diff(ref[d, 'bytes'], data))
                    ref[d, 'bytes'] = data
                elif k == 'twin':
                    check(d, text(S.build(w.lib, model[d])), 'of a document built from the same values')
                    check(d, text(copy.deepcopy(objs[d])), 'of a copy')
                elif k == 'items':
                    for x in items(objs[d]):
                        call(w, x.to_sexpr)
                    intact(d, 'serialising items')
                    check(d, text(objs[d]), 'after serialising its items')
                elif k == 'restart':
                    w.boot(op.get('jump', 0))
                    fresh()
                    changed = True
                elif k == 'clock':
                    w.now = max(1.0, w.now + op['jump'])
                    changed = True
                elif k == 'chdir':
                    os.chdir(os.path.join(w.disk, op['to']))
                    changed = True
                elif k == 'surroundings':
                    # files and environment variables that are named like something in the document
                    check(d, text(objs[d]), 'again')
                    for x in sorted(set(words(model[d])))[:80]:
                        for n in re.findall(r'\$\{?(\w+)', x):
                            if n.isascii():
                                os.environ[n] = '/somewhere'
                        x = os.path.normpath(x) if x else x
                        if not x or x.startswith(('/', '.', '~')) or '\0' in x or any(len(q.encode('utf-8', 'replace')) > 200 for q in x.split('/')):
                            continue
                        for base in ('', 'sub/'):
                            full = os.path.join(w.disk, base + x)
                            try:
                                os.makedirs(os.path.dirname(full), exist_ok=True)
                                if op['what'] == 'directory':
                                    os.mkdir(full)
                                elif not os.path.exists(full):
                                    w.put(base + x, op['data'].encode())
                            except (OSError, UnicodeError):
                                pass
                    changed = True
                    st.c['surroundings changed'] += 1
                    check(d, text(objs[d]), 'with files and variables named like its texts')
                    intact(d, 'serialising')
                elif k == 'random':
                    random.seed(op['seed'])
                    w.entropy.seed(op['seed'])
                    changed = True
                elif k == 'edit':
                    if edit_tree(model[d], op['edit']):
                        edit_obj(w.lib, objs[d], op['edit'])
                        # the reference is a document that was never serialised in its earlier state
                        ref.pop(d, None)
                        ref.pop((d, 'bytes'), None)
                        check(d, text(S.build(w.lib, model[d])), 'edited')
                        check(d, text(objs[d]), 'of the edited document')
                        st.c['edits'] += 1
                        changed = True
                elif k in ('overhaul', 'tweak'):
                    check(d, text(objs[d]), 'again')
                    if overhaul(w.lib, model[d], objs[d], op['seed'], op['p']) if k == 'overhaul' else tweak(model[d], op['k'], op['at'], objs[d]):
                        ref.pop(d, None)
                        ref.pop((d, 'bytes'), None)
                        check(d, text(S.build(w.lib, model[d])), 'edited')
                        check(d, text(objs[d]), 'of the edited document')
                        st.c['changes in place: ' + k] += 1
                        changed = True
                elif k == 'reload':
                    f = os.path.join(w.disk, d)
                    if w.get(d) is None:
                        continue
                    before = w.snapshot()
                    load(w, kind_of(model[d]), f)
                    untouched(before, 'loading')
                    changed = True
                elif k == 'alike':
                    check(d, text(objs[d]), 'again')
                    t = text(S.build(w.lib, op['tree']))
                    check(d, text(objs[d]), 'after a document like it')
                    w.boot(op['jump'])
                    fresh()
                    changed = True
                    u = text(S.build(w.lib, op['tree']))
                    if t != u:
                        raise Violation('text-differs:alike', 'after a document like it, and in a process of its own: ' + first_diff(t, u))
                    check(d, text(objs[d]), 'after a document like it')
                    st.c['documents that are alike'] += 1
                elif k == 'fail':
                    if op['what'] == 'text':
                        o = call(w, objs[d].to_sexpr, None, op['interrupt'])
                    elif op['what'] == 'save':
                        o = save(w, objs[d], os.path.join(w.base, 'disk', d), None, op.get('faults'), op.get('interrupt'))
                    else:
                        if w.get(d) is None:
                            continue
                        o = load(w, kind_of(model[d]), os.path.join(w.disk, d), None, op.get('faults'), op.get('interrupt'))
                    if not o.ok:
                        st.c['failed operations in between'] += 1
                        changed = True
                    intact(d, 'a failed operation')
                    for x in sorted(objs):
                        check(x, text(objs[x]), 'after an operation that failed')
                elif k == 'threads':
                    docs = [x for x in op['docs'] if x in objs]
                    if op.get('same'):
                        docs = docs[:1] * len(docs)
                    if len(docs) < 2:
                        continue
                    solo = {}
                    total = 0
                    for x in docs:
                        if x not in solo:
                            solo[x] = count_lines(w, objs[x].to_sexpr)
                        total += solo[x]
                    if op.get('opcodes'):
                        if total > 4000:
                            continue
                        total *= 8
                    for x in docs:
                        check(x, text(objs[x]), 'before the threads')
                    pre = [[int(a * total), b] for a, b in op['preempt']]
                    s = Sched(w, pre, opcodes=op.get('opcodes', False))
                    out = s.run([(lambda o=objs[x]: attempt(o)) for x in docs])
                    st.c['thread switches'] += len(s.switches)
                    changed = True
                    for x, (ok, t) in zip(docs, out):
                        if not ok:
                            raise Violation('serialise-raised:thread', f'serialising on a thread raised {t}')
                        check(x, t, 'on a thread')
                        intact(x, 'concurrent serialising')
                elif k == 'hashseed':
                    trees = [model[x] for x in sorted(model)]
                    got = other_process(trees + op['more'], sc['env'], op['seed'])
                    for t, h in zip(op['more'], got[len(trees):]):
                        if digest(text(S.build(w.lib, t))) != h:
                            raise Violation('text-differs:hash seed', f'a {kind_of(t)} serialises differently with PYTHONHASHSEED={op["seed"]}')
                    st.c['processes with another hash seed'] += 1
                    changed = True
                    for x, h in zip(sorted(model), got):
                        t = text(objs[x])
                        check(x, t, 'again')
                        if digest(t) != h:
                            raise Violation('text-differs:hash seed', f'{x} serialises differently with PYTHONHASHSEED={op["seed"]}')
        finally:
            os.environ.clear()
            os.environ.update(environ)
            st.absorb(w)


def words(t):
    """All texts of a document."""
    if isinstance(t, str):
        yield t
    elif isinstance(t, dict):
        for k, v in t.items():
            if k != '$':
                yield from words(v)
    elif isinstance(t, list):
        for v in t:
            yield from words(v)


def respell(t, rng):
    """The same document with numbers that are equal, but spelled differently."""
    if isinstance(t, dict):
        return {k: v if k == '$' or (t.get('$'), k) in S.LOOSE or k in NOFIELDS else respell(v, rng) for k, v in t.items()}
    if isinstance(t, list):
        return [respell(x, rng) for x in t]
    if isinstance(t, float) and t.is_integer() and abs(t) < 1e15:
        return -t if t == 0 and rng.random() < .3 else int(t) if rng.random() < .7 else t
    if isinstance(t, int) and not isinstance(t, bool) and rng.random() < .7:
        return float(t)
    return t


def digest(t):
    return hashlib.sha256(t.encode('utf-8', 'surrogatepass')).hexdigest()


def attempt(o):
    try:
        return True, o.to_sexpr()
    except Exception as e:
        return False, f'{type(e).__name__}: {e}'


def items(o, seen=None):
    seen = set() if seen is None else seen
    out = []
    for v in vars(o).values():
        for x in v if isinstance(v, list) else v.values() if isinstance(v, dict) else [v]:
            if hasattr(x, 'to_sexpr') and id(x) not in seen:
                seen.add(id(x))
                out.append(x)
                out += items(x, seen)
    return out


def other_process(trees, env, seed):
    e = dict(os.environ, PYTHONHASHSEED=str(seed), PYTHONDONTWRITEBYTECODE='1')
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    # the helper is part of the harness: it is started outside of the simulated disk
    p = subprocess.Popen([sys.executable, os.path.join(here, 'sim', 'serialise.py')], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, env=e, cwd='/')
    out, err = p.communicate(json.dumps({'trees': trees, 'env': env}).encode())
    if p.returncode != 0:
        raise Violation('serialise-raised:hash seed', err.decode('utf-8', 'replace')[-500:])
    return json.loads(out)
