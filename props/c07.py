"""C07  Documents do not influence each other, on any thread interleaving."""
import pickle

from sim.sched import Sched
from .common import *
from .c01 import create_new
from .c06 import drop, gen_drops
from .c12 import ident, is_unit_id, parts

RUNS = {'quick': 12000, 'thorough': 100000}
RULE = ('one run = either files with tokens missing, loaded alone and after other documents, or a history over 2-6 documents (built, created new, default constructed, loaded several times from the same '
        'file) in which each step works on one of them and all others are compared with their models, or 2-4 threads working on documents '
        'and files of their own under a seeded scheduler, compared with the results of working alone; non-trivial: a document was '
        'changed in place while others existed, or at least one thread switch happened inside of the library')
ASSUMPTIONS = BASE_ASSUMPTIONS + ['thread switches happen at line boundaries of library code and at disk events (byte-code granularity '
                                  'in some runs)', 'objects the program itself puts into two documents are shared by intention']


def gen(rng, i, tier):
    k = rng.random()
    if k < .2:
        return gen_after(rng)
    if k < .6:
        return gen_seq(rng)
    return gen_threads(rng)


def gen_after(rng):
    t = gen_tree(rng, size=rng.choice([1, 2, 3]))
    return {'env': gen_env(rng), 'style': 'after', 'tree': t, 'twin': twin(rng, t) if rng.random() < .5 else None,
            'drops': [[[round(rng.random(), 5)] for _ in range(rng.choice([1, 1, 2]))] for _ in range(3)]}


def run_after(sc, st, w):
    """Files with tokens missing, loaded in a process of their own and after other documents that have these tokens."""
    kind = kind_of(sc['tree'])
    st.doc(sc['tree'])
    full, o = reference_bytes(w, sc['tree'], 'utf-8')
    if full is None:
        return
    alone = []
    for d in sc['drops']:
        w.put('variant', drop(full.decode('utf-8'), d).encode('utf-8'))
        o = load(w, kind, 'variant')
        alone.append((w.get('variant'), S.dump(w.lib, o.value) if o.ok else None))
        w.boot()
    for t in (sc['tree'], sc['twin']):
        if t:
            b, o = reference_bytes(w, t, 'utf-8')
            w.put('rich', b or b'')
            load(w, kind, 'rich')
    for b, want in alone:
        w.put('variant', b)
        o = load(w, kind, 'variant')
        got = S.dump(w.lib, o.value) if o.ok else None
        if (got is None) != (want is None):
            raise Violation('load-outcome-differs', f'a file loads differently after other documents were loaded: {o}')
        if want is not None:
            df = S.diff(want, got)
            if df:
                raise Violation(f'load-differs:{place(df)}', f'after other documents were loaded, the same file loads as something else: {df}')
            unshared(w.lib, o.value, 'a loaded document')
            st.nontrivial = True
        st.c['files with tokens removed'] += 1


def gen_seq(rng):
    kind = rng.choice(KINDS)
    sc = {'env': gen_env(rng), 'style': 'seq', 'ops': [], 'probe': sorted(rng.sample(sorted(S.SPEC), 12))}
    ops = sc['ops']
    names, trees, files = [], {}, {}
    for n in range(rng.randint(2, 5)):
        d = f'd{n}'
        k = rng.random()
        names.append(d)
        if k < .3:
            trees[d] = gen_tree(rng, kind if rng.random() < .7 else None, size=rng.choice([1, 2]))
            ops.append({'op': 'build', 'doc': d, 'tree': S.dup(trees[d])})
        elif k < .5:
            ops.append({'op': 'create_new', 'doc': d, 'kind': rng.choice([kind, rng.choice(KINDS)]), 'name': f'N{rng.randrange(2)}'})
        elif k < .65:
            ops.append({'op': 'default', 'doc': d, 'cls': rng.choice([S.KINDS[kind], rng.choice(sorted(S.SPEC))])})
        else:
            if not files:
                t = gen_tree(rng, kind, size=rng.choice([1, 2]))
                files['same' + S.SUFFIX[kind]] = t
                ops.append({'op': 'put', 'file': 'same' + S.SUFFIX[kind], 'tree': t})
                if rng.random() < .4:
                    ops[-1]['drops'] = gen_drops(rng)
                if rng.random() < .6:
                    files['twin' + S.SUFFIX[kind]] = twin(rng, t)
                    ops.append({'op': 'put', 'file': 'twin' + S.SUFFIX[kind], 'tree': files['twin' + S.SUFFIX[kind]]})
                    if rng.random() < .2:
                        ops[-1]['drops'] = gen_drops(rng)
            f = rng.choice(sorted(files))
            trees[d] = S.dup(files[f])
            ops.append({'op': 'load', 'doc': d, 'file': f, 'kind': kind})
    for _ in range(steps(rng, 3, 9)):
        d = rng.choice(names)
        k = rng.random()
        if k < .35:
            ops.append({'op': 'mess', 'doc': d})
        elif k < .5 and d in trees:
            e = gen_edit(rng, trees[d])
            if edit_tree(trees[d], e):
                ops.append({'op': 'edit', 'doc': d, 'edit': e})
        elif k < .58:
            nick = rng.choice([None, ident(rng).replace(':', ''), 'lib'])
            ops.append({'op': 'rename', 'doc': d, 'k': round(rng.random(), 4), 'nick': nick or None,
                        'name': rng.choice([ident(rng).replace(':', '') or 'N', 'N0', None])})
        elif k < .61:
            ops.append({'op': 'copy', 'doc': d, 'as': f'c{len(names)}', 'how': rng.choice(['deepcopy', 'deepcopy', 'pickle'])})
            names.append(f'c{len(names)}')
            if d in trees:
                trees[names[-1]] = S.dup(trees[d])
        elif k < .65:
            ops.append({'op': 'text', 'doc': d})
        elif k < .75:
            ops.append({'op': 'save', 'doc': d, 'file': f'{d}.out'})
        elif k < .85:
            ops.append({'op': 'messdefault', 'cls': rng.choice(sorted(S.SPEC))})
        elif k < .93:
            ops.append({'op': 'reload', 'kind': kind, 'file': rng.choice(['same', 'same', 'twin']) + S.SUFFIX[kind], 'mess': rng.random() < .6})
        else:
            ops.append({'op': 'badload', 'kind': kind, 'data': b64(rng.choice([b'(kicad_pcb (version 1) (', b'(a (b "c', b'', b')']))})
    return sc


def twin(rng, t):
    """A document much like another one."""
    t = S.dup(t)
    if rng.random() < .3:
        strip(t, 'libraryNickname')
    for _ in range(rng.choice([0, 1, 1, 2, 5])):
        edit_tree(t, gen_edit(rng, t))
    return t


def strip(t, f):
    if isinstance(t, dict):
        if t.get(f) is not None and '$' in t and t['$'] in NAMED:
            t[f] = None
        for v in t.values():
            strip(v, f)
    elif isinstance(t, list):
        for v in t:
            strip(v, f)


NAMED = ('F:Footprint', 'Y:Symbol', 's:SchematicSymbol')
STEPS = ['save', 'load', 'text', 'edit', 'shared', 'bad', 'new']


def gen_threads(rng):
    sc = {'env': gen_env(rng), 'style': 'threads', 'threads': [], 'opcodes': rng.random() < .1, 'dirs': rng.random() < .5}
    one = rng.choice(KINDS) if rng.random() < .6 else None
    shared = gen_tree(rng, one, size=1)
    sc['shared'] = shared
    for n in range(rng.choice([2, 2, 3, 4])):
        t = gen_tree(rng, one if rng.random() < .8 else None, size=rng.choice([1, 1, 2]))
        m = S.dup(t)
        steps = []
        for _ in range(rng.randint(1, 4)):
            k = rng.choice(STEPS)
            if k == 'edit':
                e = gen_edit(rng, m)
                if edit_tree(m, e):
                    steps.append({'op': 'edit', 'edit': e})
            else:
                steps.append({'op': k})
        sc['threads'].append({'tree': t, 'steps': steps + [{'op': 'save'}, {'op': 'load'}]})
    sc['preempt'] = sorted([round(rng.random(), 5), rng.randrange(6)] for _ in range(rng.choice([1, 2, 4, 10, 30, 80])))
    if rng.random() < .25:
        n = rng.randrange(len(sc['threads']))
        f = gen_write_faults(rng, 1) if rng.random() < .5 else gen_read_faults(rng, 1)
        for x in f:
            x['path'] = f'disk/t{n}/conc{n}' if sc['dirs'] else f'disk/conc{n}'
        sc['faults'] = f
        sc['faulty'] = n
    return sc


def run(sc, st):
    with World(sc['env']) as w:
        w.boot()
        try:
            {'seq': run_seq, 'after': run_after}.get(sc['style'], run_threads)(sc, st, w)
        finally:
            st.absorb(w)


def default(lib, key):
    try:
        return lib.by_key[key]()
    except Exception:
        return None


def holders(lib, o):
    """Everything in a document that has an identifier."""
    key = lib.by_cls.get(type(o))
    if key in ('F:Footprint', 'Y:Symbol', 's:SchematicSymbol'):
        return [((), key)]
    lists = {'B:Board': ['footprints'], 'Y:SymbolLib': ['symbols'], 'S:Schematic': ['libSymbols', 'schematicSymbols']}.get(key, [])
    return [((f, i), lib.by_cls.get(type(x))) for f in lists for i, x in enumerate(getattr(o, f))]


def run_seq(sc, st, w):
    alone = {}
    for n, op in enumerate(sc['ops']):
        if op['op'] == 'put' and op.get('drops'):
            # a file with tokens removed: what it loads as in a process that did nothing else
            b, o = reference_bytes(w, op['tree'], 'utf-8')
            w.boot()
            if b is None:
                continue
            b = drop(b.decode('utf-8'), op['drops']).encode('utf-8')
            w.put('alone', b)
            o = load(w, kind_of(op['tree']), 'alone')
            if o.ok:
                alone[n] = b, S.dump(w.lib, o.value)
            w.boot()
    lib = w.lib
    ref = {}
    for key in S.SPEC:
        o = default(lib, key)
        if o is not None:
            ref[key] = undated(S.dump(lib, o))
    objs, model, files = {}, {}, {}

    def others(active, how):
        for d in objs:
            if d != active:
                df = S.diff(model[d], S.dump(lib, objs[d]))
                if df:
                    raise Violation(f'other-document-changed:{place(df)}', f'{how} changed another document: {df}')
        if active is not None and len(objs) > 1:
            st.c['cross checks'] += 1

    for n, op in enumerate(sc['ops']):
        k, d = op['op'], op.get('doc')
        if k == 'build':
            objs[d], model[d] = S.build(lib, op['tree']), S.dup(op['tree'])
            st.doc(op['tree'])
        elif k == 'create_new':
            try:
                o = create_new(lib, op['kind'], op['name'])
            except (AttributeError, TypeError, NotImplementedError):
                continue
            new = ref.setdefault(('new', op['kind'], op['name']), undated(S.dump(lib, o)))
            df = S.diff(new, undated(S.dump(lib, o)))
            if df:
                raise Violation(f'new-document-differs:{place(df)}', df)
            unshared(lib, o, f'a new {op["kind"]}')
            objs[d], model[d] = o, S.dump(lib, o)
        elif k == 'default':
            o = default(lib, op['cls'])
            if o is None:
                continue
            df = S.diff(ref[op['cls']], undated(S.dump(lib, o)))
            if df:
                raise Violation(f'default-differs:{op["cls"]}:{place(df)}', f'a default {op["cls"]} is not what it was at the start: {df}')
            unshared(lib, o, f'a default {op["cls"]}')
            objs[d], model[d] = o, S.dump(lib, o)
        elif k == 'put' and op.get('drops'):
            if n in alone:
                w.put(op['file'], alone[n][0])
                files[op['file']] = alone[n][1]
                st.c['files with tokens removed'] += 1
        elif k == 'put':
            b, o = reference_bytes(w, op['tree'], 'utf-8')
            if b is not None:
                w.put(op['file'], b)
                files[op['file']] = op['tree']
        elif k in ('load', 'reload'):
            if op['file'] not in files:
                continue
            o = load(w, op['kind'], op['file'])
            if not o.ok:
                raise Violation('load-raised', f'{o.exc_type}: {o.exc_text}')
            df = S.diff(files[op['file']], S.dump(lib, o.value))
            if df:
                raise Violation(f'load-differs:{place(df)}', f'loading gives something else than the file holds: {df}')
            unshared(lib, o.value, 'a loaded document')
            if k == 'load':
                objs[d], model[d] = o.value, S.dup(files[op['file']])
            elif op.get('mess'):
                mess(o.value)
            others(None, 'loading')
            st.c['loads'] += 1
        elif k == 'badload':
            w.put('bad', base64.b64decode(op['data']))
            load(w, op['kind'], 'bad')
            others(None, 'a refused load')
        elif k == 'messdefault':
            o = default(lib, op['cls'])
            if o is None:
                continue
            mess(o)
            st.nontrivial = True
            st.c['defaults changed in place'] += 1
            df = S.diff(ref[op['cls']], undated(S.dump(lib, default(lib, op['cls']))))
            if df:
                raise Violation(f'default-shared:{op["cls"]}:{place(df)}',
                                f'after changing one {op["cls"]} in place, a new one differs from what it was: {df}')
            others(None, f'changing a new {op["cls"]}')
        elif d not in objs:
            continue
        elif k == 'mess':
            mess(objs[d])
            model[d] = None
            del objs[d]
            others(d, 'changing a document in place')
            if objs:
                st.nontrivial = True
            st.c['documents changed in place'] += 1
        elif k == 'edit':
            if edit_tree(model[d], op['edit']):
                edit_obj(lib, objs[d], op['edit'])
                others(d, 'editing')
                others(None, 'editing')
                st.nontrivial = len(objs) > 1 or st.nontrivial
        elif k == 'copy':
            try:
                x = copy.deepcopy(objs[d]) if op['how'] == 'deepcopy' else pickle.loads(pickle.dumps(objs[d]))
            except Exception as e:
                raise Violation(f'copy-raised:{op["how"]}', f'{type(e).__name__}: {e}')
            df = S.diff(model[d], S.dump(lib, x)) or moved(x, remembered(objs[d]))
            if df:
                raise Violation(f'copy-differs:{place(df)}', df)
            objs[op['as']], model[op['as']] = x, S.dup(model[d])
            others(None, 'copying')
            st.c['copies'] += 1
        elif k == 'rename':
            hs = holders(lib, objs[d])
            if not hs:
                continue
            pth, key = hs[int(op['k'] * (len(hs) - .001))]
            x, t = objs[d], model[d]
            for p in pth:
                x, t = (getattr(x, p), t[p]) if isinstance(p, str) else (x[p], t[p])
            name = op['name'] or t['entryName']
            if not name or key == 'Y:Symbol' and (is_unit_id(name) or ':' in name):
                continue
            full = f'{op["nick"]}:{name}' if op['nick'] else name
            x.libId = full
            t['libraryNickname'], t['entryName'] = parts(full)
            if key == 'Y:Symbol':
                t['unitId'] = t['styleId'] = None
                for u in t['units']:
                    u['entryName'] = t['entryName']
            others(None, 'renaming')
            st.c['renames'] += 1
            st.nontrivial = len(objs) > 1 or st.nontrivial
        elif k == 'text':
            if hasattr(objs[d], 'to_sexpr'):
                call(w, objs[d].to_sexpr)
            others(None, 'serialising')
        elif k == 'save':
            if hasattr(objs[d], 'to_file'):
                r = save(w, objs[d], op['file'])
            others(None, 'saving')
    for key in sc['probe']:
        o = default(lib, key)
        if o is not None and key in ref:
            df = S.diff(ref[key], undated(S.dump(lib, o)))
            if df:
                raise Violation(f'default-differs:{key}:{place(df)}', f'at the end a default {key} is not what it was at the start: {df}')


def mess(obj, seen=None):
    """Change an object in place, everywhere."""
    seen = set() if seen is None else seen
    d = getattr(obj, '__dict__', None)
    if d is None or id(obj) in seen:
        return
    seen.add(id(obj))
    # fields first (they may live on the class), then whatever else the instance holds
    for k in sorted(set(d) | set(getattr(type(obj), '__dataclass_fields__', ()))):
        v = getattr(obj, k, None)
        if isinstance(v, list):
            if id(v) in seen:
                continue
            seen.add(id(v))
            for x in v:
                mess(x, seen)
            v.append('mess')
        elif isinstance(v, dict):
            v['mess'] = 'mess'
        elif isinstance(v, str) and k != 'filePath':
            try:
                setattr(obj, k, v + 'mess')
            except Exception:
                pass
        elif isinstance(v, (int, float)) and not isinstance(v, bool):
            setattr(obj, k, v + 1)
        elif hasattr(v, '__dict__'):
            mess(v, seen)


BAD = b'(kicad_pcb (version 1) (general (thickness 1) (nets "x'


def program(w, p, f, shared, log):
    """What one thread does. Appends plain data to `log`."""
    lib = w.lib
    kind = kind_of(p['tree'])
    cls = lib.kind(kind)
    m = S.dup(p['tree'])
    o = S.build(lib, m)
    for s in p['steps']:
        k = s['op']
        try:
            if k == 'text':
                log.append(('text', o.to_sexpr()))
            elif k == 'save':
                o.to_file(f, encoding='utf-8')
                log.append(('save', w.get(f)))
            elif k == 'load':
                if w.get(f) is not None:
                    o = cls.from_file(f, encoding='utf-8')
                    log.append(('load', S.dump(lib, o)))
                    unshared(lib, o, 'a loaded document')
            elif k == 'shared':
                x = lib.kind(kind_of(shared[1])).from_file(shared[0], encoding='utf-8')
                log.append(('shared', S.dump(lib, x)))
                mess(x)
            elif k == 'edit':
                if edit_tree(m, s['edit']):
                    edit_obj(lib, o, s['edit'])
                    log.append(('edit', S.dump(lib, o)))
            elif k == 'bad':
                cls.from_file('bad', encoding='utf-8')
                log.append(('bad', 'accepted'))
            elif k == 'new':
                x = create_new(lib, kind, 'T')
                log.append(('new', undated(S.dump(lib, x))))
                mess(x)
        except Violation:
            raise
        except Exception as e:
            log.append((k, 'raised', type(e).__name__))
    log.append(('end', S.dump(lib, o)))
    return log


def run_threads(sc, st, w):
    b, o = reference_bytes(w, sc['shared'], 'utf-8')
    if b is None:
        return
    w.put('shared', b)
    w.put('bad', BAD)
    shared = (os.path.join(w.disk, 'shared'), sc['shared'])
    solo, total = [], 0
    n0 = w.nevents
    home = os.getcwd()

    def own(n, name):
        # files of its own, named by full paths, or relative to the working directory in a directory of its own
        if not sc.get('dirs'):
            return os.path.join(w.disk, f'{name}{n}')
        os.makedirs(os.path.join(w.disk, f't{n}'), exist_ok=True)
        return f't{n}/{name}{n}'
    solo_files = [own(n, 'solo') for n in range(len(sc['threads']))]
    conc_files = [own(n, 'conc') for n in range(len(sc['threads']))]
    if sc.get('dirs'):
        shared = ('shared', sc['shared'])
    for n, p in enumerate(sc['threads']):
        st.doc(p['tree'])
        log = []
        total += count_lines(w, lambda: program(w, p, solo_files[n], shared, log))
        solo.append(log)
    total = int(total * 1.1) + (w.nevents - n0)
    opcodes = sc.get('opcodes') and total < 6000
    if opcodes:
        total *= 8
    pre = [[int(a * total), c] for a, c in sc['preempt']]
    w.arm(sc.get('faults'))
    s = Sched(w, pre, opcodes=bool(opcodes))
    out = s.run([(lambda n=n, p=p: program(w, p, conc_files[n], shared, [])) for n, p in enumerate(sc['threads'])])
    w.disarm()
    st.c['thread switches'] += len(s.switches)
    st.c['threads'] += len(out)
    if s.switches:
        st.nontrivial = True
    if os.getcwd() != home:
        raise Violation('directory-changed', f'the working directory is {os.getcwd()} afterwards')
    for n, (a, b) in enumerate(zip(solo, out)):
        if sc.get('faults') and n == sc.get('faulty'):
            continue
        if a != b:
            j = next((j for j, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
            x, y = (a + [None])[j], (b + [None])[j]
            df = ''
            if x and y and x[0] == y[0] and isinstance(x[1], (dict, list)) and isinstance(y[1], (dict, list)):
                df = S.diff(x[1], y[1])
            raise Violation(f'thread-differs:{x[0] if x else None}', f'thread {n}, step {j}: alone {S.short(x)}, with others {S.short(y)} {df}')
    st.c['thread results compared'] += len(out)
