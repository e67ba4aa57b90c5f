"""C02  A save that did not reach the disk completely is never acknowledged."""
from .common import *

RUNS = {'quick': 22000, 'thorough': 160000}
RULE = ('one run = one document, a target in some previous state, 1-6 saves (edits, external changes of the target and faults in '
        'between), then one save with all faults gone; non-trivial: a save was hit by a fault that must not be overlooked, or the '
        'target was changed behind the library\'s back before a save')
ASSUMPTIONS = BASE_ASSUMPTIONS + [
    'the bytes a save has to produce are those of a fault-free save of an equal, freshly built document in the same process',
    'errors are reported by the operating system (open, write, close); silently lost writes are outside of what a library can notice']


# what another program may have made of the very same document
VARIANTS = ['crlf', 'bom', 'tail', 'newline', 'blanks', 'first', 'last', 'middle', 'prefix', 'half', 'twice', 'upper']


def variant(b, how):
    n = len(b)
    return {'crlf': lambda: b.replace(b'\n', b'\r\n'), 'bom': lambda: b'\xef\xbb\xbf' + b, 'tail': lambda: b + b'; left over\n',
            'newline': lambda: b + b'\n', 'blanks': lambda: b.replace(b' ', b'  '), 'first': lambda: b'~' + b[1:],
            'last': lambda: b[:-1] + b'~', 'middle': lambda: b[:n // 2] + b'~' + b[n // 2 + 1:], 'prefix': lambda: b[:-1],
            'half': lambda: b[:n // 2], 'twice': lambda: b + b, 'upper': lambda: b.upper()}[how]()


def gen(rng, i, tier):
    t = gen_tree(rng, size=rng.choice([1, 1, 2, 3]))
    kind = kind_of(t)
    sc = {'env': gen_env(rng, small=True), 'tree': t, 'kind': kind, 'ops': []}
    if rng.random() < .3:
        sc['encoding'] = rng.choice(['utf-8', 'utf-16', 'utf-8-sig'])
    sc['fit'] = gen_fit(rng)
    sc['beside'] = gen_beside(rng)
    m = S.dup(t)
    target = 'target' + S.SUFFIX[kind]
    if rng.random() < .25:
        # the document comes from a file and is saved back to it
        sc['from_file'] = True
    k = rng.random()
    if k < .25:
        sc['before'] = b64(b'previous content, longer than anything\n' * rng.choice([1, 400, 3000]))
    elif k < .5:
        sc['before'] = b64(b'(kicad_pcb)')
    elif k < .6:
        sc['before'] = ''
    ops = sc['ops']
    for _ in range(steps(rng, 1, 5)):
        k = rng.random()
        if k < .52:
            ops.append({'op': 'save', 'faults': gen_write_faults(rng)})
        elif k < .7:
            ops.append({'op': 'save'})
        elif k < .76:
            ops.append({'op': 'tweak', 'k': round(rng.random(), 4), 'at': round(rng.random(), 3)})
            if rng.random() < .7:
                ops.append({'op': 'save'})
        elif k < .77:
            ops.append({'op': 'overhaul', 'seed': rng.randrange(1 << 30), 'p': rng.choice([.1, .5, 1])})
        elif k < .8:
            e = gen_edit(rng, m)
            if edit_tree(m, e):
                ops.append({'op': 'edit', 'edit': e})
        else:
            ops.append({'op': 'actor', 'acts': [rng.choice([
                {'act': 'write', 'path': target, 'data': b64(b'foreign content' * rng.choice([0, 1, 1000]))},
                {'act': 'remove', 'path': target}, {'act': 'truncate', 'path': target, 'frac': rng.choice([0, .3, .9])},
                {'act': 'stale', 'path': target}, {'act': 'variant', 'how': rng.choice(VARIANTS)}, {'act': 'variant', 'how': rng.choice(VARIANTS)}])]})
    if rng.random() < .15:
        ops.append({'op': 'save', 'faults': gen_write_faults(rng)})
    if rng.random() < .25:
        ops.append({'op': 'remembered'})
    ops.append({'op': 'save'})
    return sc


def run(sc, st):
    enc = sc.get('encoding')
    target = 'target' + S.SUFFIX[sc['kind']]
    with World(sc['env']) as w:
        w.boot()
        try:
            model = S.dup(sc['tree'])
            st.doc(model)
            if fit(w, model, sc.get('fit'), enc):
                st.c['files with a length next to a multiple of a block size'] += 1
            ref = reference(w, model, enc)
            obj = S.build(w.lib, model)
            path = target
            if sc.get('from_file'):
                w.put(target, ref)
                o = load(w, sc['kind'], target, enc)
                if o.ok:
                    obj, path = o.value, None
                    model = S.dump(w.lib, obj)
                    ref = reference(w, model, enc)
            elif sc.get('before') is not None:
                w.put(target, base64.b64decode(sc['before']))
            put_beside(w, st, target, sc.get('beside'), ref)
            others = beside(w, target) if sc.get('beside') else None
            for op in sc['ops']:
                if op['op'] == 'edit':
                    if edit_tree(model, op['edit']):
                        edit_obj(w.lib, obj, op['edit'])
                        ref = reference(w, model, enc)
                elif op['op'] == 'tweak':
                    if tweak(model, op['k'], op['at'], obj):
                        ref = reference(w, model, enc)
                        st.c['one letter changed'] += 1
                elif op['op'] == 'overhaul':
                    if overhaul(w.lib, model, obj, op['seed'], op['p']):
                        ref = reference(w, model, enc)
                elif op['op'] == 'actor':
                    for a in op['acts']:
                        if a['act'] == 'variant':
                            w.put(target, variant(ref, a['how']))
                        elif a['act'] == 'stale':
                            # somebody puts back older content and older time stamps (a backup tool)
                            if w.get(target) is not None:
                                old = w.get(target)
                                w.put(target, old[:len(old) // 2] + b'~' * (len(old) - len(old) // 2), keep_times=True)
                        else:
                            w.act(a)
                    st.nontrivial = True
                    st.c['external changes'] += 1
                elif op['op'] == 'remembered':
                    try:
                        obj.filePath = target
                        path = None
                    except Exception:
                        pass
                else:
                    faults = op.get('faults')
                    was = remembered(obj)
                    o = save(w, obj, path, enc, faults)
                    st.c['saves'] += 1
                    have = w.get(target)
                    fatal = [x for x in o.fatal if x[0] in ('open_w', 'write', 'close_w', 'fsync', 'replace')]
                    if o.fatal:
                        st.nontrivial = True
                        st.c['saves hit by a fatal fault'] += 1
                    if o.ok:
                        if fatal:
                            raise Violation('error-swallowed', f'{fatal} happened during the save, but it returned normally')
                        if have != ref:
                            raise Violation('acknowledged-wrong-bytes', describe(have, ref, o))
                        st.c['acknowledged'] += 1
                    else:
                        if not o.fatal:
                            raise Violation('healthy-save-raised', f'{o.exc_type}: {o.exc_text}; events {o.fired}')
                        st.c['refused'] += 1
                    if others is not None and beside(w, target) != others:
                        raise Violation('other-file-touched', f'{o}: the files beside the target changed')
                    d = S.diff(model, S.dump(w.lib, obj)) or moved(obj, was)
                    if d:
                        raise Violation(f'document-changed:{place(d)}', f'the save changed the document in memory: {d}')
        finally:
            st.absorb(w)


def reference(w, model, enc):
    ref, o = reference_bytes(w, model, enc)
    if ref is None:
        raise Violation('healthy-save-raised', f'{o}')
    want = serialised_bytes(w, model, enc)
    if ref != want:
        raise Violation('acknowledged-wrong-bytes', 'a save to a new file: ' + describe(ref, want, o))
    return ref


def describe(have, ref, o):
    if have is None:
        return f'save returned, but there is no file ({o.fired})'
    n = next((i for i, (a, b) in enumerate(zip(have, ref)) if a != b), min(len(have), len(ref)))
    return (f'save returned, but the file has {len(have)} bytes instead of {len(ref)}, first difference at {n}: '
            f'{have[max(0, n - 20):n + 20]!r} instead of {ref[max(0, n - 20):n + 20]!r} ({o.fired})')
