"""C04  A torn file is never accepted as a complete document."""
from .common import *

RUNS = {'quick': 14000, 'thorough': 110000}
RULE = ('one run = one document; a crash at a seeded point of saving it over an older file, restart, load; then 5-40 further cuts of '
        'the saved bytes (biased towards quotes, brackets, line ends and the end; some with a tail of zero bytes), each loaded; '
        'non-trivial: at least one load of a file whose end was missing')
ASSUMPTIONS = BASE_ASSUMPTIONS + [
    'a crash leaves a prefix of what was written, optionally padded with zero bytes (delayed allocation)',
    'texts holding a double quote directly followed by white space or a closing bracket are excluded (known finding of C04)']


def gen(rng, i, tier):
    k = rng.random()
    if k < .12:
        t = gen_tree(rng, 'dru', text='torn', size=4)
    else:
        t = gen_tree(rng, text='torn', size=rng.choice([1, 1, 2, 3]))
    kind = kind_of(t)
    sc = {'env': gen_env(rng, small=True), 'kind': kind, 'tree': t, 'cuts': []}
    if rng.random() < .15:
        sc['encoding'] = rng.choice(['utf-16', 'utf-8-sig', 'utf-16-le'])
    if rng.random() < .6:
        sc['old'] = gen_tree(rng, kind, text='torn', size=1)
    if rng.random() < .7:
        sc['faults'] = [{'on': rng.choice(['write', 'write', 'write', 'close_w', 'open_w', 'any']),
                         'nth': rng.choice([0, 0, 0, 1, 1, 2, 3, 5, 9, 17]), 'do': 'crash', 'frac': round(rng.random(), 3)}]
    sc['beside'] = gen_beside(rng)
    for _ in range(rng.choice([5, 12, 24, 40])):
        k = rng.random()
        c = {'near': 'any' if k < .25 else rng.choice(['"', '"', '(', ')', ')', '\n', ' ', '\\', 'end', 'end', 'start']),
             'k': round(rng.random(), 4), 'off': rng.choice([0, 0, 1, 1, 2, -1, 3])}
        if rng.random() < .25:
            c['zeros'] = rng.choice([1, 2, 16, 500])
        sc['cuts'].append(c)
    return sc


def cut_at(data, c):
    n = len(data)
    if c['near'] == 'any':
        p = int(c['k'] * n)
    elif c['near'] == 'end':
        p = n - 1 - int(c['k'] * 12)
    elif c['near'] == 'start':
        p = int(c['k'] * 40)
    else:
        ch = c['near'].encode()
        m = data.count(ch)
        if not m:
            return None
        want, p = min(m - 1, int(c['k'] * m)), -1
        for _ in range(want + 1):
            p = data.index(ch, p + 1)
        p += c['off']
    return max(0, min(n, p))


def verdict(w, o, have, full, ref, tree, kind, enc, st):
    """`have`: bytes on disk, a prefix of `full` plus zero bytes. o: outcome of loading them."""
    kept = have.rstrip(b'\0')
    blank = (b'\r\n', b'\n', b' ', b'\t', b'\0')
    lost = full[len(kept):] if full.startswith(kept) else full
    only_blank = not lost.strip(b'\r\n\t \0')
    if only_blank:
        st.c['cuts losing only white space'] += 1
        if o.ok:
            d = S.diff(tree, S.dump(w.lib, o.value))
            if d:
                raise Violation(f'blank-end-differs:{place(d)}', f'only white space is missing at the end, but: {d}')
        return
    st.nontrivial = True
    st.c['loads of torn files'] += 1
    if not o.ok:
        st.c['torn files refused'] += 1
        return
    if kind == 'dru':
        got = S.dump(w.lib, o.value)
        n = len(got.get('rules') or [])
        want = dict(tree, rules=tree['rules'][:n])
        d = S.diff(want, got)
        if not d:
            st.c['design rules cut after a whole rule'] += 1
            return
        raise Violation(f'torn-rules:{place(d)}', f'torn after {len(kept)} of {len(full)} bytes, loads, but is not the document cut '
                                                  f'after a whole rule: {d}; ends in {kept[-40:]!r}')
    raise Violation(f'torn-accepted:{kind}', f'only {len(kept)} of {len(full)} bytes are there (then {len(have) - len(kept)} zero '
                                             f'bytes), but the file loads; it ends in {kept[-60:]!r}')


def run(sc, st):
    kind, enc, tree = sc['kind'], sc.get('encoding'), sc['tree']
    f = 'doc' + S.SUFFIX[kind]
    with World(sc['env']) as w:
        w.boot()
        try:
            st.doc(tree)
            full, o = reference_bytes(w, tree, enc)
            if full is None:
                return          # C01 reports it
            old = None
            if sc.get('old'):
                old, o = reference_bytes(w, sc['old'], enc)
                if old is not None:
                    w.put(f, old)
            put_beside(w, st, f, sc.get('beside'), full)
            if sc.get('faults'):
                o = save(w, S.build(w.lib, tree), f, enc, sc['faults'])
                if o.crashed:
                    w.boot(5)
                    st.c['crashes during a save'] += 1
                have = w.get(f)
                o = load(w, kind, f, enc)
                if have is None:
                    if o.ok:
                        raise Violation('missing-accepted', 'there is no file, but it loads')
                elif have == old or have == full:
                    t = tree if have == full else sc['old']
                    if o.ok:
                        d = S.diff(t, S.dump(w.lib, o.value))
                        if d:
                            raise Violation(f'complete-differs:{place(d)}', f'the crash left a complete file, but: {d}')
                elif full.startswith(have):
                    verdict(w, o, have, full, enc, tree, kind, enc, st)
                elif o.ok:
                    # a mixture of old and new bytes
                    st.nontrivial = True
                    got = S.dump(w.lib, o.value)
                    if S.diff(tree, got) and (sc.get('old') is None or S.diff(sc['old'], got)):
                        raise Violation('mixture-accepted', f'after a crash during the save the file is neither the old nor the new '
                                                            f'one ({len(have)} bytes), but loads')
            for c in sc['cuts']:
                p = cut_at(full, c)
                if p is None or p == len(full):
                    continue
                have = full[:p] + b'\0' * c.get('zeros', 0)
                w.put(f, have)
                before = w.snapshot()
                o = load(w, kind, f, enc)
                if w.snapshot() != before:
                    raise Violation('load-touched-files', 'loading a torn file changed it or another one')
                verdict(w, o, have, full, enc, tree, kind, enc, st)
            # the complete file still loads after all the refused ones
            w.put(f, full)
            o = load(w, kind, f, enc)
            if o.ok:
                d = S.diff(tree, S.dump(w.lib, o.value))
                if d:
                    raise Violation(f'complete-differs:{place(d)}', f'the complete file loads as something else: {d}')
            else:
                raise Violation('complete-refused', f'the complete file does not load: {o.exc_type}: {o.exc_text}')
        finally:
            st.absorb(w)
