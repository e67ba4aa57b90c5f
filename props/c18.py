"""C18  A new document is the documented one, stamped with the moment of its creation."""
import json
import math

from .common import *
from .c07 import mess

RUNS = {'quick': 30000, 'thorough': 200000}
RULE = ('one run = 2-5 processes started one after another, at seeded times and in seeded time zones, each of which creates 1-5 new documents, '
        'symbols or footprints with time passing, clock jumps, moves to another zone, in-place changes, saves, loads and interruptions in between; '
        'non-trivial: something was created after time had passed, or after a document was changed in place or a creation was interrupted')
ASSUMPTIONS = BASE_ASSUMPTIONS + ['the clock shows a time after 1970', 'names of new symbols do not look like names of units']
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'new_documents.json')) as _f:
    EXPECTED = json.load(_f)
WHAT = ['board', 'schematic', 'footprint', 'footprint', 'footprint', 'symbol', 'worksheet', 'dru', 'libtable', 'Y:Symbol', 'Y:Symbol', 'plain']
ZONES = ['UTC0', 'JST-9', 'EST5EDT', 'NPT-5:45', 'NZST-12NZDT', 'HST10', 'X-14', 'Y+12']


def gen(rng, i, tier):
    env = gen_env(rng)
    env['tz'] = rng.choice(ZONES)
    env['now'] = rng.choice([1.0, 1e6, 1.0e9, 1.7e9, 1700000000.5, 2147483646.5, 4294967295.2, 1e10, 123456789.999, rng.uniform(1e8, 5e9)])
    sc = {'env': env, 'ops': []}
    ops = sc['ops']
    n, made = 0, {}
    for p in range(rng.choice([1, 1, 2, 3])):
        if p:
            ops.append({'op': 'restart', 'jump': rng.choice([0, 3600, 86400 * 400, -86400 * 30, 1.5])})
        for _ in range(steps(rng, 2, 9)):
            k = rng.random()
            if k < .5:
                g = S.Gen(rng, encoding='utf-8', size=2)
                o = {'op': 'create', 'doc': f'd{n}', 'what': rng.choice(WHAT), 'args': {
                    'name': word(rng), 'nick': rng.choice([None, word(rng)]), 'value': g.string(), 'reference': g.string(),
                    'footprint': g.string(), 'datasheet': g.string(), 'type': rng.choice(['smd', 'through_hole', 'other', None]),
                    'table': rng.choice(['sym_lib_table', 'fp_lib_table', None]), 'given': rng.randrange(5)}}
                if o['what'] != 'plain':
                    made[o['doc']] = expected(o['what'], o['args'], '0')[0]
                n += 1
                if rng.random() < .12:
                    o['interrupt'] = {'line': int(10 ** rng.uniform(0, 2)) - 1, 'do': rng.choice(['interrupt', 'nomem'])}
                if rng.random() < .1:
                    o['bad'] = rng.choice(['SMD', '', 'virtual', 'throughhole'])
                ops.append(o)
            elif k < .58 and made:
                d = rng.choice(sorted(made))
                e = gen_edit(rng, made[d])
                if edit_tree(made[d], e):
                    ops.append({'op': 'edit', 'doc': d, 'edit': e})
            elif k < .65:
                ops.append({'op': 'wait', 'dt': rng.choice([.5, 1, 61, 3600, 86400, 86400 * 365, -3600, -5])})
            elif k < .7:
                ops.append({'op': 'zone', 'tz': rng.choice(ZONES)})
            elif k < .85:
                ops.append({'op': 'mess', 'doc': f'd{rng.randrange(max(1, n))}'})
            else:
                ops.append({'op': 'cycle', 'doc': f'd{rng.randrange(max(1, n))}', 'fault': gen_write_faults(rng, 1) if rng.random() < .2 else None})
    return sc


def word(rng):
    return rng.choice(['R', 'LM358', 'A b', 'x"y', 'ü', '74', 'Conn-01x02', 'a_1', '(q)', '1e5', 'nil']) + rng.choice(['', '', str(rng.randint(0, 99))])


def expected(what, a, edited):
    """The documented content of a new document."""
    if what == 'plain':
        return None
    full = a['name'] if a['nick'] is None else f'{a["nick"]}:{a["name"]}'
    given = {'@value': a['value'], '@reference': a['reference'], '@footprint': a['footprint'], '@datasheet': a['datasheet'],
             '@name': a['name'], '@now': edited, '@type': a['table'] or 'sym_lib_table'}
    if what == 'footprint' and a['given'] < 2:
        given['@reference'] = 'REF**'
    if what == 'Y:Symbol':
        if a['given'] < 2:
            given['@footprint'] = ''
        if a['given'] < 3:
            given['@datasheet'] = ''

    def fill(x):
        if isinstance(x, dict):
            return {k: fill(v) for k, v in x.items()}
        if isinstance(x, list):
            return [fill(v) for v in x]
        return given.get(x, x) if isinstance(x, str) else x
    t = fill(EXPECTED[what])
    if what in ('footprint', 'Y:Symbol'):
        t['libraryNickname'] = a['nick']
    if what == 'footprint' and a['given'] and a['type'] in ('smd', 'through_hole'):
        t['attributes']['type'] = a['type']
    return t, full


def create(lib, what, a, bad=None):
    full = a['name'] if a['nick'] is None else f'{a["nick"]}:{a["name"]}'
    if what == 'plain':
        return lib.kind('footprint')()
    if what == 'footprint':
        c = lib.kind('footprint')
        if bad is not None:
            return c.create_new(full, a['value'], bad)
        t = a['type'] or 'other'
        return (lambda: c.create_new(full, a['value']), lambda: c.create_new(full, a['value'], t),
                lambda: c.create_new(full, a['value'], t, a['reference']),
                lambda: c.create_new(library_id=full, value=a['value'], type=t, reference=a['reference']),
                lambda: c.create_new(full, a['value'], reference=a['reference'], type=t))[a['given']]()
    if what == 'Y:Symbol':
        c = lib.by_key['Y:Symbol']
        return (lambda: c.create_new(full, a['reference'], a['value']), lambda: c.create_new(full, a['reference'], value=a['value']),
                lambda: c.create_new(full, a['reference'], a['value'], a['footprint']),
                lambda: c.create_new(full, a['reference'], a['value'], a['footprint'], a['datasheet']),
                lambda: c.create_new(id=full, datasheet=a['datasheet'], footprint=a['footprint'], value=a['value'], reference=a['reference']))[a['given']]()
    if what == 'libtable':
        return lib.kind('libtable').create_new() if a['table'] is None else lib.kind('libtable').create_new(a['table'])
    if what == 'symbol':
        return lib.kind('symbol')()
    return lib.kind(what).create_new()


def run(sc, st):
    with World(sc['env']) as w:
        w.boot()
        docs, started, moved = {}, w.now, False
        try:
            for op in sc['ops']:
                k, d = op['op'], op.get('doc')
                if k == 'restart':
                    w.boot(op['jump'])
                    docs.clear()
                    started, moved = w.now, False
                elif k == 'wait':
                    w.now = max(1.0, w.now + op['dt'])
                    st.fired['clock moved'] += 1
                    moved = moved or abs(op['dt']) >= 1
                elif k == 'zone':
                    w.set_tz(op['tz'])
                    st.fired['time zone changed'] += 1
                elif k == 'create':
                    what, a = op['what'], op['args']
                    before, t0 = w.snapshot(), w.now
                    o = call(w, lambda: create(w.lib, what, a, op.get('bad')), interrupt=op.get('interrupt'))
                    t1 = w.now
                    if w.snapshot() != before or o.leaked_after:
                        raise Violation('creation-touched-files', f'{what}: {w.changed(before, w.snapshot())} {o.leaked_after}')
                    if o.fatal:
                        st.c['creations interrupted'] += 1
                        moved = True
                        if o.ok:
                            raise Violation('exception-swallowed', f'{what}: {o.fatal}')
                        others(w, docs, f'an interrupted creation of {what}')
                        continue
                    if what == 'footprint' and op.get('bad') is not None:
                        if o.ok:
                            raise Violation('bad-type-accepted', f'a footprint of type {op["bad"]!r} was created')
                        st.c['creations refused'] += 1
                        others(w, docs, 'a refused creation')
                        continue
                    x = healthy(o, f'create-{what}')
                    t = S.dump(w.lib, x)
                    if what in ('footprint', 'plain'):
                        stamp(t['tedit'], t0, t1, w)
                    if what != 'plain':
                        e, full = expected(what, a, t.get('tedit'))
                        df = S.diff(e, t)
                        if df:
                            raise Violation(f'not-the-new-document:{what}:{place(df)}', f'a new {what} is not what it should be: {df}')
                        if what in ('footprint', 'Y:Symbol') and x.libId != full:
                            raise Violation('created-identifier', f'{full!r} was created as {x.libId!r}')
                    fp = getattr(x, 'filePath', None)
                    if fp is not None:
                        raise Violation('new-document-has-a-path', f'{what}: {fp!r}')
                    others(w, docs, f'creating {what}')
                    docs[d] = [x, t, what]
                    st.c['created: ' + what] += 1
                    if moved:
                        st.nontrivial = True
                        st.c['created later than the start of the process'] += 1
                    unshared(w.lib, x, f'a new {what}')
                elif d not in docs:
                    continue
                elif k == 'edit':
                    if edit_tree(docs[d][1], op['edit']):
                        edit_obj(w.lib, docs[d][0], op['edit'])
                        others(w, docs, 'editing a new document')
                        moved = True
                        st.c['new documents edited'] += 1
                elif k == 'mess':
                    x = docs.pop(d)[0]
                    mess(x)
                    moved = True
                    others(w, docs, 'changing a new document in place')
                else:
                    x, t, what = docs[d]
                    if what == 'plain':
                        continue
                    kind = what
                    if what == 'Y:Symbol':
                        kind = 'symbol'
                        lib = w.lib.kind('symbol')()
                        lib.symbols.append(x)
                        x, t = lib, dict(S.dup(EXPECTED['symbol']), symbols=[t])
                    f = 'new' + S.SUFFIX[kind]
                    o = save(w, x, f, 'utf-8', op.get('fault'))
                    if o.fatal:
                        others(w, docs, 'a failed save')
                        continue
                    healthy(o, 'save-new')
                    w.now += 5
                    y = healthy(load(w, kind, f, 'utf-8'), 'load-new')
                    df = S.diff(t, S.dump(w.lib, y))
                    if df:
                        raise Violation(f'not-read-back:{place(df)}', f'a new {what}, saved and loaded: {df}')
                    others(w, docs, 'saving and loading')
                    st.c['new documents saved and loaded'] += 1
        finally:
            st.absorb(w)


def stamp(text, t0, t1, w):
    try:
        t = int(text, 16)
    except (TypeError, ValueError):
        t = None
    if t is None or not math.floor(t0) <= t <= math.ceil(t1) or text.startswith('0x'):
        raise Violation('edit-time', f'created at {t0:.1f} (hex {int(t0):x}, zone {w.tz}), but the edit time is {text!r}')


def others(w, docs, how):
    for x, t, what in docs.values():
        df = S.diff(t, S.dump(w.lib, x))
        if df:
            raise Violation(f'other-document-changed:{place(df)}', f'{how} changed another document ({what}): {df}')
