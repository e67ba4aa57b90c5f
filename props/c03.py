"""C03  A load yields the file's whole current content or raises."""
from .common import *

RUNS = {'quick': 22000, 'thorough': 220000}
RULE = ('one run = files in two directories, 2-8 loads with read faults, short reads, edits of loaded documents and rewrites by other '
        'programs (same size, same time stamps, moved directories) and damage (bytes that are no text) in between; non-trivial: a load was hit by a read fault, or followed '
        'a rewrite')
ASSUMPTIONS = BASE_ASSUMPTIONS + ['the file a load sees was written completely (torn files are C04)']


def gen(rng, i, tier):
    kind = rng.choice(KINDS)
    trees = [gen_tree(rng, kind, size=rng.choice([1, 1, 2, 3]), huge=rng.random() < .006) for _ in range(rng.randint(2, 3))]
    name = 'doc' + S.SUFFIX[kind]
    sc = {'env': gen_env(rng, small=True), 'kind': kind, 'trees': {str(n): t for n, t in enumerate(trees)}, 'ops': [],
          'fit': gen_fit(rng), 'beside': gen_beside(rng)}
    if rng.random() < .2:
        sc['encoding'] = rng.choice(['utf-8', 'utf-16', 'utf-8-sig'])
    ops = sc['ops']
    ops.append({'op': 'rewrite', 'path': name, 'tree': '0'})
    if rng.random() < .5:
        ops.append({'op': 'rewrite', 'path': f'sub/{name}', 'tree': '1'})
    for _ in range(steps(rng, 2, 8)):
        k = rng.random()
        if k < .62:
            o = {'op': 'load', 'path': rng.choice([name, name, name, f'sub/{name}'])}
            if rng.random() < .5:
                o['faults'] = gen_read_faults(rng)
            if rng.random() < .2:
                # replaced by another program while it is being loaded
                o['race'] = {'tree': str(rng.randrange(len(trees))), 'on': rng.choice(['any', 'stat', 'open_r', 'read', 'close_r']),
                             'nth': rng.choice([0, 0, 1, 2, 4])}
            ops.append(o)
        elif k < .85:
            ops.append({'op': 'rewrite', 'path': rng.choice([name, name, f'sub/{name}']), 'tree': str(rng.randrange(len(trees))),
                        'same_size': rng.random() < .6, 'same_times': rng.random() < .6})
        elif k < .85 + .05:
            # another program changes one letter somewhere in the file
            ops.append({'op': 'tweak', 'path': rng.choice([name, name, f'sub/{name}']), 'k': round(rng.random(), 4), 'at': round(rng.random(), 3),
                        'same_times': rng.random() < .6})
        elif k < .92:
            # bytes that are no text in any encoding used here
            ops.append({'op': 'damage', 'path': rng.choice([name, name, f'sub/{name}']), 'at': round(rng.random(), 4),
                        'bytes': rng.choice([[0xff], [0xc3, 0x28], [0x80], [0xfe, 0xff, 0xff], [0xed, 0xa0, 0x80]]), 'insert': rng.random() < .6})
        elif k < .96:
            ops.append({'op': 'chdir', 'to': rng.choice(['sub', '.'])})
        else:
            ops.append({'op': 'mess'})
    ops.append({'op': 'load', 'path': name})
    return sc


def run(sc, st):
    kind, enc = sc['kind'], sc.get('encoding')
    with World(sc['env']) as w:
        w.boot()
        os.mkdir(os.path.join(w.disk, 'sub'))
        try:
            data = {}
            for k, t in sorted(sc['trees'].items()):
                if k == '0' and sc.get('fit'):
                    t = sc['trees'][k] = S.dup(t)
                    fit(w, t, sc['fit'], enc)
                b, o = reference_bytes(w, t, enc)
                if b is None:
                    return
                data[k] = b
                st.doc(t)
            pad = ' '.encode(enc or 'utf-8') if enc != 'utf-16' else ' '.encode('utf-16-le')
            if enc == 'utf-8-sig':
                pad = b' '
            size = max((len(b) for b in data.values() if len(b) - min(map(len, data.values())) < 1500), default=0)
            put_beside(w, st, 'doc' + S.SUFFIX[kind], sc.get('beside'), data['1'])
            holds, rewritten, last = {}, set(), None
            cwd = ''
            for op in sc['ops']:
                if op['op'] == 'rewrite':
                    b = data[op['tree']]
                    if op.get('same_size') and size - len(b) < 1500:
                        # (the tokenizer takes quadratic time on white space at the end)
                        b = b + pad * ((size - len(b)) // len(pad))
                    w.put(op['path'], b, keep_times=op.get('same_times'))
                    holds[op['path']] = sc['trees'][op['tree']]
                    rewritten.add(op['path'])
                elif op['op'] == 'tweak':
                    if holds.get(op['path']) is None:
                        continue
                    t = S.dup(holds[op['path']])
                    if not tweak(t, op['k'], op['at']):
                        continue
                    b, o = reference_bytes(w, t, enc)
                    if b is None:
                        continue
                    b += pad * ((len(w.get(op['path'])) - len(b)) // len(pad))
                    w.put(op['path'], b, keep_times=op.get('same_times'))
                    holds[op['path']] = t
                    rewritten.add(op['path'])
                    st.c['one letter changed'] += 1
                elif op['op'] == 'damage':
                    if op['path'] not in holds:
                        continue
                    b = w.get(op['path'])
                    p = int(op['at'] * len(b))
                    b = b[:p] + bytes(op['bytes']) + b[p + (0 if op['insert'] else len(op['bytes'])):]
                    try:
                        b.decode(enc or w.locale)
                        continue            # still text: nothing can be said about what it means
                    except UnicodeError:
                        pass
                    w.put(op['path'], b, keep_times=True)
                    holds[op['path']] = None
                    st.fired['disk:undecodable bytes'] += 1
                elif op['op'] == 'chdir':
                    os.chdir(os.path.join(w.disk, op['to']))
                    cwd = '' if op['to'] == '.' else op['to'] + '/'
                elif op['op'] == 'mess':
                    # the program edits what it has loaded; the file is not affected
                    if last is not None:
                        mess(last)
                else:
                    path = os.path.normpath(cwd + op['path'])
                    before = w.snapshot()
                    faults, race = op.get('faults'), op.get('race')
                    if race and os.path.isdir(os.path.dirname(os.path.join(w.disk, path))):
                        faults = (faults or []) + [{'on': race['on'], 'nth': race['nth'], 'do': 'actor',
                                                    'acts': [{'act': 'write', 'path': path, 'data': data[race['tree']]}]}]
                    o = load(w, kind, op['path'], enc, faults)
                    after = w.snapshot()
                    may = []
                    if any(x[1] == 'actor' for x in o.fired):
                        # the old content or the new one, never a mixture
                        may = [holds.get(path, 'nothing')]
                        st.c['replaced during a load'] += 1
                        st.nontrivial = True
                        holds[path] = sc['trees'][race['tree']]
                        rewritten.add(path)
                        before['disk/' + path] = after.get('disk/' + path)
                        if w.get(path) != data[race['tree']]:
                            raise Violation('load-touched-files', f'loading changed {path}')
                    st.c['loads'] += 1
                    if before != after:
                        raise Violation('load-touched-files', f'loading changed {w.changed(before, after)}')
                    if o.fatal:
                        st.nontrivial = True
                        st.c['loads hit by a fatal fault'] += 1
                    if path not in holds:
                        if o.ok:
                            raise Violation('loaded-missing-file', f'{path} does not exist, but loading it returned a document')
                        continue
                    if may and None in may + [holds[path]] or 'nothing' in may:
                        if o.ok:
                            d = S.diff(holds[path], S.dump(w.lib, o.value))
                            if d:
                                raise Violation(f'not-the-content:{place(d)}', f'{path} was replaced while it was loaded, but: {d}; events {o.fired}')
                        continue
                    if holds[path] is None:
                        if o.ok:
                            raise Violation('undecodable-accepted', f'{path} holds bytes that are no {enc or w.locale} text, but loads')
                        st.c['loads of undecodable files refused'] += 1
                        continue
                    if o.ok:
                        last = o.value
                        got = S.dump(w.lib, o.value)
                        d = S.diff(holds[path], got)
                        if d and may and not S.diff(may[0], got):
                            d = None
                        if d:
                            raise Violation(f'not-the-content:{place(d)}', f'{path} was loaded as something it does not hold: {d}; '
                                                                          f'events {o.fired}')
                        if path in rewritten:
                            rewritten.discard(path)
                            st.c['loads after a rewrite'] += 1
                            st.nontrivial = True
                    elif not o.fatal:
                        raise Violation('healthy-load-raised', f'{path}: {o.exc_type}: {o.exc_text}; events {o.fired}')
        finally:
            st.absorb(w)


def mess(obj, depth=0):
    """Change a loaded document in place, everywhere."""
    d = getattr(obj, '__dict__', None)
    if d is None or depth > 6:
        return
    for k in sorted(d):
        v = d[k]
        if isinstance(v, list):
            for x in v:
                mess(x, depth + 1)
            v.append('mess')
        elif isinstance(v, dict):
            v['mess'] = 'mess'
        elif hasattr(v, '__dict__'):
            mess(v, depth + 1)
        elif isinstance(v, str) and k not in ('filePath',):
            try:
                setattr(obj, k, v + 'mess')
            except Exception:
                pass
        elif isinstance(v, (int, float)) and not isinstance(v, bool):
            setattr(obj, k, v + 1)
