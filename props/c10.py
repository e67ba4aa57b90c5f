"""C10  Saving writes the remembered or given path and nothing else."""
import pathlib

from .common import *
from .c01 import create_new

RUNS = {'quick': 15000, 'thorough': 200000}
RULE = ('one run = a history of 6-18 loads, saves, saves elsewhere, path changes, directory changes, failed loads and saves, new documents '
        'and restarts over up to 4 documents and 3 directories; after each step the whole simulated disk is compared with a map model; '
        'non-trivial: at least one save without a path wrote the remembered file after a save elsewhere, a path or directory change, or '
        'a failure')
ASSUMPTIONS = BASE_ASSUMPTIONS + ['a relative path means the working directory at the time of the call, also when it is remembered']
NAMES = ['a', 'b', 'c', 'a b', '~x', '$HOME', 'ü', '-x', 'x.', 'A', 'a.kicad_pcb', '%20', '*', 'a.bak', 'a~', '~', 'a ', ' a']
DIRS = ['.', 'p', 'q']


def gen(rng, i, tier):
    kind = rng.choice(KINDS)
    sc = {'env': gen_env(rng), 'kind': kind, 'ops': [], 'trees': {str(n): gen_tree(rng, kind, size=1) for n in range(3)}}
    names = rng.sample(NAMES, rng.randint(2, 4))
    docs = ['d0', 'd1', 'd2']
    ops = sc['ops']
    there, cwd = set(), ['.']

    def put():
        p = pick(rng, names, plain=True)
        there.add(p)
        return {'op': 'put', 'path': p, 'tree': str(rng.randrange(3))}

    if rng.random() < .2:
        sc['beside'] = rng.sample(BESIDE, 5)

    def existing():
        if there and rng.random() < .8:
            p = rng.choice(sorted(there))
            how = rng.choice(['str', 'str', 'Path', 'abs'])
            return {'path': p if how == 'abs' else os.path.relpath(p, cwd[0]), 'as': how}
        return {'path': pick(rng, names), 'as': rng.choice(['str', 'str', 'Path', 'abs'])}

    for n in range(rng.randint(2, 4)):
        ops.append(put())
    if rng.random() < .35:
        ops.append(link(rng, names, there))
    for d in docs[:2]:
        ops.append({'op': 'load', 'doc': d, **existing()})

    for _ in range(steps(rng, 6, 18)):
        d = rng.choice(docs)
        k = rng.random()
        if k < .2:
            o = {'op': 'load', 'doc': d, **existing()}
            if rng.random() < .1:
                o['faults'] = gen_read_faults(rng, 1)
            ops.append(o)
        elif k < .24:
            ops.append({'op': 'build', 'doc': d, 'tree': str(rng.randrange(3))})
        elif k < .27:
            ops.append({'op': 'create_new', 'doc': d})
        elif k < .55:
            o = {'op': 'save', 'doc': d}
            if rng.random() < .15:
                o['faults'] = gen_write_faults(rng, 1)
            ops.append(o)
        elif k < .72:
            o = {'op': 'saveas', 'doc': d, 'path': pick(rng, names) if rng.random() < .95 else '', 'as': rng.choice(['str', 'str', 'Path', 'abs']),
                 'pos': rng.random() < .5}
            if rng.random() < .12:
                o['faults'] = gen_write_faults(rng, 1)
            ops.append(o)
        elif k < .79:
            ops.append({'op': 'setpath', 'doc': d, 'path': pick(rng, names) if rng.random() < .8 else None,
                        'as': rng.choice(['str', 'str', 'abs'])})
        elif k < .87:
            cwd[0] = rng.choice(DIRS)
            ops.append({'op': 'chdir', 'to': cwd[0]})
        elif k < .91:
            ops.append({'op': 'remove', 'path': pick(rng, names, plain=True)})
        elif k < .93:
            ops.append(put())
        elif k < .94:
            ops.append(link(rng, names, there))
        elif k < .985:
            ops.append({'op': 'edit', 'doc': d, 'tree': str(rng.randrange(3))})
        else:
            ops.append({'op': 'restart'})
    for d in docs:
        ops.append({'op': 'save', 'doc': d})
    return sc


LINK = 'ln'


def link(rng, names, there):
    """A symbolic link `ln` to one of the files, or redirected to another one."""
    d = rng.choice(DIRS)
    p = LINK if d == '.' else f'{d}/{LINK}'
    there.add(p)
    to = rng.choice(sorted(there - {x for x in there if x.endswith(LINK)}) or names)
    return {'op': 'link', 'path': p, 'to': os.path.relpath(to, d)}


def pick(rng, names, plain=False):
    n = rng.choice(names)
    d = rng.choice(DIRS)
    if plain:
        return n if d == '.' else f'{d}/{n}'
    k = rng.random()
    if k < .08:
        return f'l/{rng.choice(["../", "", "../../"])}{n}'      # l is a link to p/q
    if k < .12:
        return LINK
    if k < .14:
        return f'no/such/{n}'
    if k < .6:
        return n
    if k < .7:
        return f'./{n}'
    if k < .85:
        return f'p/../{n}'
    return f'{rng.choice(["p", "q"])}/{n}'


def run(sc, st):
    kind = sc['kind']
    with World(sc['env']) as w:
        w.boot()
        for d in ('p', 'q', 'p/p', 'p/q', 'q/p', 'q/q'):
            os.mkdir(os.path.join(w.disk, d))
        for d in ('', 'p/', 'q/'):
            os.symlink(os.path.join(w.disk, 'p', 'q'), os.path.join(w.disk, d + 'l'))
        cls = w.lib.kind(kind)
        docs = {}           # name -> [object, tree, remembered]
        disturbed = set()

        def form(path, as_):
            if as_ == 'abs':
                return os.path.join(w.base, 'disk', path)
            if as_ == 'Path':
                return pathlib.Path(path)
            return path

        def where(path):
            """The file a path means now, relative to the simulated machine's root."""
            return os.path.relpath(os.path.realpath(os.path.join(os.getcwd(), os.fspath(path))), w.base)

        def verify(op, o, before, target, doc):
            after = w.snapshot()
            ch = [x for x in w.changed(before, after) if x != target]
            if ch:
                raise Violation('other-file-touched', f'{op}: changed {ch}')
            if w.escaped:
                raise Violation('other-file-touched', f'{op}: tried to write {w.escaped}')
            return after

        def remembered(name, op):
            obj, tree, path = docs[name]
            got = obj.filePath
            if (got is None) != (path is None) or (path is not None and os.fspath(got) != os.fspath(path)):
                raise Violation('remembered-path', f'after {op} the remembered path is {got!r} instead of {path!r}')

        try:
            for t in sc['trees'].values():
                st.doc(t)
            for op in sc['ops']:
                k, d = op['op'], op.get('doc')
                if k == 'put':
                    b, o = reference_bytes(w, sc['trees'][op['tree']], 'utf-8')
                    if b is None:
                        return
                    p = os.path.join(w.disk, op['path'])
                    if not os.path.isdir(p):
                        w.put(op['path'], b)
                        put_beside(w, st, op['path'], [{'name': n, 'holds': 'document', 'age': 0} for n in sc.get('beside') or []], b)
                elif k == 'remove':
                    w.ext_remove(os.path.join(w.disk, op['path']))
                elif k == 'link':
                    w.act({'act': 'symlink', 'path': op['path'], 'to': op['to']})
                    disturbed |= set(docs)
                elif k == 'chdir':
                    os.chdir(os.path.join(w.disk, op['to']))
                    disturbed |= set(docs)
                elif k == 'restart':
                    w.boot()
                    cls = w.lib.kind(kind)
                    docs.clear()
                elif k == 'build':
                    docs[d] = [S.build(w.lib, sc['trees'][op['tree']]), sc['trees'][op['tree']], None]
                elif k == 'create_new':
                    try:
                        x = create_new(w.lib, kind, 'N')
                    except (AttributeError, TypeError, NotImplementedError):
                        continue
                    docs[d] = [x, S.dump(w.lib, x), None]
                    remembered(d, 'create_new')
                elif k == 'load':
                    p = form(op['path'], op['as'])
                    before = w.snapshot()
                    o = call(w, lambda: cls.from_file(p, encoding='utf-8'), op.get('faults'))
                    verify('load', o, before, None, None)
                    if o.ok:
                        docs[d] = [o.value, S.dump(w.lib, o.value), p]
                        st.c['loads'] += 1
                    else:
                        disturbed |= set(docs)
                elif d not in docs:
                    continue
                elif k == 'edit':
                    if docs[d][2] is None:
                        docs[d] = [S.build(w.lib, sc['trees'][op['tree']]), sc['trees'][op['tree']], None]
                elif k == 'setpath':
                    p = None if op['path'] is None else form(op['path'], op['as'])
                    docs[d][0].filePath = p
                    docs[d][2] = p
                    disturbed.add(d)
                else:
                    obj, tree, rem = docs[d]
                    explicit = k == 'saveas'
                    p = form(op['path'], op['as']) if explicit and op['path'] != '' else '' if explicit else rem
                    before = w.snapshot()
                    if not explicit:
                        fn = lambda: obj.to_file(encoding='utf-8')
                    elif op['pos']:
                        fn = lambda: obj.to_file(p, encoding='utf-8')
                    else:
                        fn = lambda: obj.to_file(encoding='utf-8', filepath=p)
                    target = where(p) if p is not None and p != '' else None
                    o = call(w, fn, op.get('faults'))
                    after = verify(k, o, before, target, d)
                    remembered(d, k)
                    if target is None:
                        if o.ok:
                            raise Violation('saved-without-path', f'a document without a path was saved ({k} {p!r})')
                        st.c['saves refused for want of a path'] += 1
                        continue
                    if o.ok:
                        ref, r = reference_bytes(w, tree, 'utf-8')
                        got = after.get(target)
                        if got != ('file', ref):
                            raise Violation('target-not-written', f'{k} to {p!r} returned, but {target} is {S.short(got)}')
                        st.c['saves elsewhere' if explicit else 'saves to the remembered path'] += 1
                        if not explicit and d in disturbed:
                            st.nontrivial = True
                        if explicit:
                            disturbed.add(d)
                    else:
                        possible = before.get(target, ('file',))[0] == 'file' and before.get(os.path.dirname(target)) == ('dir',)
                        if not o.fatal and possible:
                            raise Violation('healthy-save-raised', f'{k} {p!r}: {o.exc_type}: {o.exc_text}')
                        disturbed.add(d)
                    df = S.diff(tree, S.dump(w.lib, obj))
                    if df:
                        raise Violation(f'document-changed:{place(df)}', df)
        finally:
            st.absorb(w)
