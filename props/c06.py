"""C06  Opening and saving a file is stable over any number of cycles."""
from sim import sexp
from .common import *

CORPUS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'corpus')
RUNS = {'quick': 14000, 'thorough': 120000}
RULE = ('one run = one file (saved by the library, written by KiCad, or either of them with 1-6 optional tokens removed by hand) taken '
        'through 2-6 cycles of load and save with restarts, clock jumps, failing operations and loads of other files in between; non-trivial: at least two '
        'saves of the same file were compared byte by byte')
ASSUMPTIONS = BASE_ASSUMPTIONS + [
    'KiCad-written files are the copies in corpus/ (from the project\'s fixtures)',
    'the first save may normalise numbers (0.0 becomes 0); identity of bytes is required from the second save on',
    'tokens the format requires (see MANDATORY) are not removed']
# Removing these leaves something that is not a file of that kind
MANDATORY = {'version', 'generator', 'pts', 'xy', 'layer', 'layers', 'id', 'lib_id', 'layerselection', 'start', 'end', 'angle',
             'polygon', 'filled_polygon', 'fill_segments', 'coordinates'}


def gen(rng, i, tier):
    sc = {'env': gen_env(rng), 'ops': [], 'drops': []}
    k = rng.random()
    if k < .3:
        names = sorted(os.listdir(CORPUS))
        n = rng.choice(names)
        if rng.random() < .8:
            small = [x for x in names if os.path.getsize(os.path.join(CORPUS, x)) < 12000]
            n = rng.choice(small)
        sc['corpus'], sc['kind'] = n, n.split('--')[0]
    else:
        sc['tree'] = gen_tree(rng, size=rng.choice([1, 2, 3, 4]))
        sc['kind'] = kind_of(sc['tree'])
    if rng.random() < .5:
        sc['drops'] = gen_drops(rng)
    ops = sc['ops']
    for _ in range(steps(rng, 2, 5)):
        k = rng.random()
        if k < .3:
            ops.append({'op': 'restart', 'jump': jump(rng)})
        elif k < .4:
            ops.append({'op': 'clock', 'jump': rng.choice([1, 3600, 86400 * 30, -86400])})
        elif k < .5:
            ops.append({'op': 'twice'})
        elif k < .58:
            # an operation that fails in between
            o = {'op': 'fail', 'what': rng.choice(['load', 'save', 'text'])}
            if rng.random() < .5 or o['what'] == 'text':
                o['interrupt'] = {'line': int(10 ** rng.uniform(0, 3.3)) - 1, 'do': rng.choice(['interrupt', 'nomem'])}
            else:
                o['faults'] = gen_read_faults(rng) if o['what'] == 'load' else gen_write_faults(rng)
            ops.append(o)
        elif k < .68:
            ops.append({'op': 'other', 'tree': gen_tree(rng, sc['kind'] if rng.random() < .6 else None, size=1)})
        ops.append({'op': 'cycle', 'elsewhere': rng.random() < .3})
    ops.append({'op': 'cycle'})
    ops.append({'op': 'twice'})
    return sc


def gen_drops(rng):
    """Tokens to remove from a file: a place, or a name wherever it occurs."""
    if rng.random() < .3:
        return [[round(rng.random(), 5)] for _ in range(rng.choice([1, 1, 2, 4]))]
    return [round(rng.random(), 5) for _ in range(rng.choice([1, 1, 2, 3, 6]))]


def drop(text, fracs):
    for f in fracs:
        ls = [x for x in sexp.lists(text) or () if x[2] > 0 and x[3] and x[3] not in MANDATORY]
        if not ls:
            break
        if isinstance(f, list):
            names = sorted({x[3] for x in ls})
            name = names[int(f[0] * (len(names) - .001))]
            end = len(text) + 1
            for s, e, _, n in sorted(ls, reverse=True):
                if n == name and e <= end:
                    text, end = text[:s] + text[e:], s
        else:
            s, e, _, _ = ls[min(len(ls) - 1, int(f * len(ls)))]
            text = text[:s] + text[e:]
    return text


def run(sc, st):
    kind = sc['kind']
    f, g = 'doc' + S.SUFFIX[kind], 'copy' + S.SUFFIX[kind]
    with World(sc['env']) as w:
        w.boot()
        try:
            if 'corpus' in sc:
                with open(os.path.join(CORPUS, sc['corpus']), encoding='utf-8', newline='') as h:
                    text = h.read()
                st.c['files written by KiCad'] += 1
                st.kinds.add(S.KINDS[kind])
            else:
                st.doc(sc['tree'])
                data, o = reference_bytes(w, sc['tree'], 'utf-8')
                if data is None:
                    return
                text = data.decode('utf-8')
            if sc.get('drops'):
                text = drop(text, sc['drops'])
                st.c['files with tokens removed'] += 1
            w.put(f, text.encode('utf-8'))
            model, saved, n = None, None, 0
            for op in sc['ops']:
                k = op['op']
                if k == 'restart':
                    w.boot(op.get('jump', 0))
                elif k == 'clock':
                    w.now = max(1.0, w.now + op['jump'])
                elif k == 'other':
                    b, o = reference_bytes(w, op['tree'], 'utf-8')
                    if b is not None:
                        w.put('other', b)
                        o = load(w, kind_of(op['tree']), 'other')
                        if o.ok:
                            save(w, o.value)
                elif k == 'fail':
                    r = load(w, kind, f, None, op.get('faults') if op['what'] == 'load' else None,
                             op.get('interrupt') if op['what'] == 'load' else None)
                    if r.ok and op['what'] == 'save':
                        save(w, r.value, 'elsewhere', None, op.get('faults'), op.get('interrupt'))
                    elif r.ok and op['what'] == 'text':
                        call(w, r.value.to_sexpr, None, op['interrupt'])
                    st.c['failed operations in between'] += 1
                elif k == 'twice':
                    a, b = load(w, kind, f), load(w, kind, f)
                    if a.ok != b.ok:
                        raise Violation('loads-differ', f'one load of {f} works, the next does not: {a} {b}')
                    if not a.ok:
                        continue
                    df = S.diff(S.dump(w.lib, a.value), S.dump(w.lib, b.value))
                    if df:
                        raise Violation(f'loads-differ:{place(df)}', f'two loads of the same file differ: {df}')
                    save(w, a.value, 'a.tmp'), save(w, b.value, 'b.tmp')
                    if w.get('a.tmp') != w.get('b.tmp'):
                        raise Violation('saves-differ', 'two loads of the same file are saved differently')
                    st.c['double loads compared'] += 1
                else:
                    o = load(w, kind, f)
                    if not o.ok:
                        if n == 0:
                            st.c['file not loadable'] += 1
                            return
                        raise Violation('unreadable', f'after {n} cycles the file does not load: {o.exc_type}: {o.exc_text}')
                    got = S.dump(w.lib, o.value)
                    if model is not None:
                        df = S.diff(model, got)
                        if df:
                            raise Violation(f'document-changed:{place(df)}', f'after {n} cycles: {df}')
                    elif 'tree' in sc and not sc.get('drops'):
                        df = S.diff(sc['tree'], got)
                        if df:
                            raise Violation(f'document-changed:{place(df)}', f'the first load differs from what was saved: {df}')
                    model = got
                    before = S.dump(w.lib, o.value)
                    target = g if op.get('elsewhere') else f
                    s = save(w, o.value, target) if target == g else save(w, o.value)
                    if not s.ok:
                        raise Violation('save-raised', f'a loaded document cannot be saved: {s.exc_type}: {s.exc_text}')
                    if S.diff(before, S.dump(w.lib, o.value)):
                        raise Violation('save-changed-document', S.diff(before, S.dump(w.lib, o.value)))
                    data = w.get(target)
                    if target == g:
                        w.put(f, data)
                    n += 1
                    if n == 1:
                        try:
                            gone = sexp.lost(sexp.nested(text), sexp.nested(data.decode('utf-8')))
                        except RecursionError:
                            gone = None
                        if gone:
                            raise Violation(f'lost:{place(gone)}', f'what the file held is not in the saved file: {gone}')
                        st.c['files compared token by token with the first save'] += 1
                    if n >= 2:
                        if saved is not None and saved != data:
                            p = next((i for i, (x, y) in enumerate(zip(saved, data)) if x != y), min(len(saved), len(data)))
                            raise Violation('not-a-fixed-point', f'save {n} differs from save {n - 1} at byte {p}: '
                                            f'{saved[max(0, p - 30):p + 30]!r} became {data[max(0, p - 30):p + 30]!r}')
                        if saved is not None:
                            st.nontrivial = True
                            st.c['saves compared'] += 1
                        saved = data
        finally:
            st.absorb(w)
