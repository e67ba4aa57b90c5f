"""C12  Library identifiers stay consistent through renames and saves."""
import re

from .common import *

RUNS = {'quick': 18000, 'thorough': 170000}
RULE = ('one run = a document with symbols and units, placed symbols or footprints, and 4-16 renames by identifier or by part mixed with '
        'saves, failed saves, reloads and restarts; after each step every identifier and part is compared with a '
        'model; non-trivial: at least one rename was followed by a reload')
ASSUMPTIONS = BASE_ASSUMPTIONS + [
    'names hold no line breaks; identifiers neither begin nor end with a colon; names of library symbols hold no colon',
    'assigning an identifier of the form name_1_2 declares a unit (documented); it is not assigned to top-level symbols',
    'assigning the name part alone changes that part only']


def ident(rng):
    g = S.Gen(rng, text='all')
    for _ in range(50):
        n = rng.choice([g.name(), rng.choice(['R', 'U1', 'LM358', 'a_1', 'a_1_b', 'x_01_1', 'x_1_01', '74HC00', 'A-B', 'R_Small', '_', '__', '_1',
                                              '1_1', 'X_2_1', 'X_1_1_1', 'X_10_12', 'a.b', 'a*', '^a$', 'q(1)', 'q"1', 'Ω', 'a b', '0', '00'])])
        if n and n.strip():
            return n
    return 'N'


def gen(rng, i, tier):
    kind = rng.choice(['symbol', 'symbol', 'schematic', 'schematic', 'footprint', 'board'])
    g = S.Gen(rng, size=rng.choice([1, 2, 2]), depth_budget=rng.choice([20, 60]))
    t = S.gen_doc(g, kind)
    g.size = 3
    if kind == 'symbol':
        t['symbols'] = [small_symbol(rng, g) for _ in range(rng.randint(1, 3))]
    elif kind == 'schematic':
        t['libSymbols'] = [small_symbol(rng, g) for _ in range(rng.randint(0, 2))]
        t['schematicSymbols'] = [S.gen_obj(S.Gen(rng, size=1, depth_budget=5), 's:SchematicSymbol') for _ in range(rng.randint(1, 2))]
        for x in t['schematicSymbols']:
            if rng.random() < .4:
                # KiCad names a local variant of a library symbol after it
                x['libName'] = f'{x["entryName"]}_{rng.randrange(3)}'
    elif kind == 'board':
        t['footprints'] = [S.gen_obj(S.Gen(rng, size=1, depth_budget=10), 'F:Footprint') for _ in range(rng.randint(1, 2))]
    sc = {'env': gen_env(rng), 'kind': kind, 'tree': t, 'ops': []}
    ops = sc['ops']
    for _ in range(steps(rng, 4, 16)):
        k = rng.random()
        op = {'k': round(rng.random(), 4)}
        if k < .42:
            nick, name = rng.choice([None, None, ident(rng)]), ident(rng)
            if rng.random() < .06:
                name = name + ':' + ident(rng)
            if nick:
                nick = nick.replace(':', '')
            op.update(op='id', nick=nick or None, name=name)
            if rng.random() < .12:
                op['same'] = True       # the identifier it already has
        elif k < .5:
            op.update(op='name', name=ident(rng))
        elif k < .58:
            op.update(op='nick', nick=rng.choice([None, ident(rng), ident(rng)]))
        elif k < .66:
            op.update(op='unit', u=round(rng.random(), 4), unit=rng.choice([0, 1, 2, 9, 10, 105]), style=rng.choice([0, 1, 2, 11]),
                      by=rng.choice(['id', 'parts']))
        elif k < .74:
            op = {'op': 'save'}
        elif k < .78:
            op = {'op': 'save', 'faults': gen_write_faults(rng)}
        elif k < .95:
            op = {'op': 'reload'}
        elif k < .97:
            op = {'op': 'restart'}
        else:
            op.update(op='create', nick=rng.choice([None, ident(rng).replace(':', '')]), name=ident(rng))
        ops.append(op)
    ops.append({'op': 'reload'})
    return sc


def small_symbol(rng, g):
    t = S.gen_obj(g, 'Y:Symbol')
    if not t['units'] and rng.random() < .8:
        t['units'] = [{'$': 'Y:Symbol', 'libraryNickname': None, 'entryName': t['entryName'], 'unitId': u, 'styleId': s, 'extends': None,
                       'hidePinNumbers': False, 'pinNames': False, 'pinNamesHide': False, 'pinNamesOffset': None, 'inBom': None,
                       'onBoard': None, 'isPower': False, 'properties': [], 'graphicItems': [], 'pins': [], 'units': []}
                      for u, s in rng.sample([(0, 1), (1, 1), (2, 1), (1, 2), (10, 11)], rng.randint(1, 3))]
    return t


def parts(full):
    """nickname and name of an identifier"""
    i = full.find(':', 1)
    if i > 0 and i + 1 < len(full):
        return full[:i], full[i + 1:]
    return None, full


def is_unit_id(name):
    return bool(re.search(r'._(0|[1-9][0-9]*)_(0|[1-9][0-9]*)$', name))


LISTS = {'symbol': [('symbols', 'sym')], 'schematic': [('libSymbols', 'sym'), ('schematicSymbols', 'plain')], 'board': [('footprints', 'plain')]}


def targets(kind, x, get):
    if kind == 'footprint':
        return [(x, 'plain')]
    return [(o, how) for f, how in LISTS[kind] for o in get(x, f)]


def expected_id(t):
    if t['libraryNickname']:
        return f'{t["libraryNickname"]}:{t["entryName"]}'
    if t.get('unitId') is not None:
        return f'{t["entryName"]}_{t["unitId"]}_{t["styleId"]}'
    return f'{t["entryName"]}'


def run(sc, st):
    kind = sc['kind']
    f = 'doc' + S.SUFFIX[kind]
    with World(sc['env']) as w:
        w.boot()
        model = S.dup(sc['tree'])
        obj = S.build(w.lib, model)
        st.doc(model)
        disk, renamed = None, False
        getm, geto = (lambda x, n: x[n]), getattr

        def verify(how):
            for (t, _), (o, _) in zip(targets(kind, model, getm), targets(kind, obj, geto)):
                pairs = [(t, o)] + (list(zip(t['units'], o.units)) if 'units' in t else [])
                for a, b in pairs:
                    if b.libId != expected_id(a):
                        raise Violation(f'identifier:{a["$"]}', f'{how}: the identifier is {b.libId!r}, its parts say {expected_id(a)!r}')
            df = S.diff(model, S.dump(w.lib, obj))
            if df:
                raise Violation(f'parts:{place(df)}', f'{how}: {df}')
            st.c['identifier checks'] += 1

        try:
            verify('at the start')
            for op in sc['ops']:
                k = op['op']
                if k in ('id', 'name', 'nick', 'unit'):
                    tm, to = targets(kind, model, getm), targets(kind, obj, geto)
                    if not tm:
                        continue
                    n = min(len(tm) - 1, int(op['k'] * len(tm)))
                    (t, how), (o, _) = tm[n], to[n]
                    if k == 'id':
                        full = f'{op["nick"]}:{op["name"]}' if op['nick'] else op['name']
                        if op.get('same'):
                            full = expected_id(t)
                        nick, name = parts(full)
                        if how == 'sym' and (':' in name or nick is None and is_unit_id(name)):
                            continue
                        o.libId = full
                        t['libraryNickname'], t['entryName'] = nick, name
                        for u in t.get('units', ()):
                            u['entryName'] = name
                        st.c['renames by identifier'] += 1
                    elif k == 'name':
                        name = op['name'].replace(':', '')
                        if not name:
                            continue
                        o.entryName = t['entryName'] = name
                        st.c['renames by part'] += 1
                    elif k == 'nick':
                        nick = op['nick'].replace(':', '') if op['nick'] else None
                        o.libraryNickname = t['libraryNickname'] = nick or None
                        st.c['renames by part'] += 1
                    else:
                        if not t.get('units'):
                            continue
                        n = min(len(t['units']) - 1, int(op['u'] * len(t['units'])))
                        tu, ou = t['units'][n], o.units[n]
                        if op['by'] == 'id':
                            full = f'{tu["entryName"]}_{op["unit"]}_{op["style"]}'
                            if parts(full)[0] is not None:
                                continue
                            ou.libId = full
                            m = re.match(r'^(.+?)_(0|[1-9]\d*)_(0|[1-9]\d*)$', full)
                            tu['entryName'] = m.group(1)
                        else:
                            ou.unitId, ou.styleId = op['unit'], op['style']
                        tu['unitId'], tu['styleId'] = op['unit'], op['style']
                        st.c['unit changes'] += 1
                    renamed = True
                elif k == 'create':
                    full = f'{op["nick"]}:{op["name"]}' if op['nick'] else op['name']
                    nick, name = parts(full)
                    if kind in ('symbol', 'schematic'):
                        if nick is None and is_unit_id(name):
                            continue
                        o = w.lib.by_key['Y:Symbol'].create_new(full, 'R', 'v')
                        (obj.symbols if kind == 'symbol' else obj.libSymbols).append(o)
                        t = S.dump(w.lib, o)
                        (model['symbols'] if kind == 'symbol' else model['libSymbols']).append(t)
                    elif kind == 'board':
                        o = w.lib.by_key['F:Footprint'].create_new(full, 'v')
                        obj.footprints.append(o)
                        t = S.dump(w.lib, o)
                        model['footprints'].append(t)
                    else:
                        continue
                    if (t['libraryNickname'], t['entryName']) != (nick, name):
                        raise Violation('created-identifier', f'{full!r} was created as {t["libraryNickname"]!r}, {t["entryName"]!r}')
                elif k == 'save':
                    o = save(w, obj, f, 'utf-8', op.get('faults'))
                    if o.ok:
                        disk = S.dup(model)
                    elif not o.fatal:
                        raise Violation('save-raised', f'{o.exc_type}: {o.exc_text}')
                    else:
                        disk = None
                elif k in ('reload', 'restart'):
                    if disk is None or k == 'reload':
                        o = save(w, obj, f, 'utf-8')
                        if not o.ok:
                            raise Violation('save-raised', f'{o.exc_type}: {o.exc_text}')
                        disk = S.dup(model)
                    if k == 'restart':
                        w.boot()
                    o = load(w, kind, f, 'utf-8')
                    if not o.ok:
                        raise Violation('load-raised', f'{o.exc_type}: {o.exc_text}')
                    obj, model = o.value, S.dup(disk)
                    canonical(kind, model)
                    if renamed:
                        st.nontrivial = True
                verify(f'after {k}')
        finally:
            st.absorb(w)


def canonical(kind, model):
    """What identifiers are read back as: the text stored in the file decides about the parts."""
    for t, how in targets(kind, model, lambda x, n: x[n]):
        full = expected_id(t)
        t['libraryNickname'], t['entryName'] = parts(full)
