"""C08  An interrupted operation leaves the program able to continue."""
import gc
import signal
import sys

from .common import *

RUNS = {'quick': 12000, 'thorough': 100000}
RULE = ('one run = two documents and their files; 2-8 operations (load, serialise, save, create) each interrupted at a seeded line of '
        'library code by a signal or a failing allocation, or at a seeded disk event by an error or a signal, each followed by '
        'undisturbed operations that are compared with the model; non-trivial: at least one interruption struck')
ASSUMPTIONS = BASE_ASSUMPTIONS + ['asynchronous exceptions arrive at line boundaries of library code or at disk events']


def gen(rng, i, tier):
    kind = rng.choice(KINDS)
    t, u = gen_tree(rng, kind, size=rng.choice([1, 1, 2, 3])), gen_tree(rng, kind if rng.random() < .7 else None, size=1)
    sc = {'env': gen_env(rng, small=rng.random() < .5), 'tree': t, 'other': u, 'ops': [],
          'beside': gen_beside(rng, .1), 'dir': rng.choice(['', '', 'sub/']), 'relative': rng.random() < .4}
    for _ in range(steps(rng, 2, 8)):
        op = {'op': rng.choice(['save', 'save', 'load', 'load', 'text', 'resave', 'new'])}
        k = rng.random()
        if k < .62 or op['op'] in ('text', 'new'):
            do = rng.choice(['interrupt', 'interrupt', 'nomem'])
            if rng.random() < .65:
                op['interrupt'] = {'frac': round(rng.random(), 5), 'do': do}
            else:
                op['interrupt'] = {'line': int(10 ** rng.uniform(0, 3.6)) - 1, 'do': do}
        else:
            saving = op['op'] in ('save', 'resave')
            if rng.random() < .4:
                on = rng.choice(['open_w', 'write', 'write', 'close_w'] if saving else ['stat', 'open_r', 'read', 'read', 'close_r'])
                op['faults'] = [{'on': on, 'nth': rng.choice([0, 0, 1, 2, 5]), 'do': rng.choice(['interrupt', 'nomem']),
                                 'frac': round(rng.random(), 2)}]
            else:
                op['faults'] = gen_write_faults(rng, 1) if saving else gen_read_faults(rng, 1)
        op['after'] = rng.sample(['save', 'load', 'text', 'other', 'new', 'default'], rng.randint(1, 4))
        if rng.random() < .3:
            op['warm'] = True
        sc['ops'].append(op)
    return sc


PROBES = ['c:Effects', 'c:Property', 'c:Position', 'F:Pad', 'b:Segment', 'z:Zone', 'g:GrText', 's:TextBox', 'Y:SymbolPin', 's:NetclassFlag',
          'F:Footprint', 'B:Board', 'S:Schematic', 'Y:SymbolLib', 'Y:Symbol', 'w:WorkSheet', 'r:DesignRules', 'l:LibTable', 'w:TbText']


def run(sc, st):
    tree, other = sc['tree'], sc['other']
    kind, okind = kind_of(tree), kind_of(other)
    f, g = sc.get('dir', '') + 'doc' + S.SUFFIX[kind], 'other' + S.SUFFIX[okind]
    with World(sc['env']) as w:
        w.boot()
        lib = w.lib
        try:
            st.doc(tree)
            st.doc(other)
            defaults = {}
            for k in PROBES:
                defaults[k] = undated(S.dump(lib, lib.by_key[k]()))
            obj, obj2 = S.build(lib, tree), S.build(lib, other)
            ref = full = fullo = None
            # the first operations of a process can be interrupted, too: references come when needed
            def refs():
                nonlocal ref, full, fullo
                if ref is None:
                    full, o = reference_bytes(w, tree, 'utf-8')
                    fullo, o2 = reference_bytes(w, other, 'utf-8')
                    if full is None or fullo is None:
                        raise Violation('save-raised', f'{o} {o2}')
                    ref = S.build(lib, tree).to_sexpr()
            os.mkdir(os.path.join(w.disk, 'sub'))
            w.put(f, b'before')
            w.put(g, b'before')
            put_beside(w, st, f, sc.get('beside'), b'older')
            needs_file = True
            for op in sc['ops']:
                k = op['op']
                if k == 'load' and needs_file or op.get('warm'):
                    refs()
                    w.put(f, full)
                    w.put(g, fullo)
                    needs_file = False
                path = f if sc.get('relative') else os.path.join(w.disk, f)
                fn = {'save': lambda: obj.to_file(path, encoding='utf-8'), 'resave': lambda: obj.to_file(path, encoding='utf-8'),
                      'load': lambda: lib.kind(kind).from_file(path, encoding='utf-8'), 'text': lambda: obj.to_sexpr(),
                      'new': lambda: new(lib, kind)}[k]
                it = op.get('interrupt')
                if it and 'frac' in it:
                    total = count_lines(w, fn)
                    it = {'line': int(it['frac'] * total), 'do': it['do']}
                    if k in ('save', 'resave'):
                        needs_file = True
                before = w.snapshot()
                state = process_state()
                o = call(w, fn, op.get('faults'), it)
                after = w.snapshot()
                if process_state() != state:
                    raise Violation('process-changed', f'{k} interrupted at {o.fatal}: {state} became {process_state()}')
                st.c['operations'] += 1
                may = {f'disk/{f}'} if k in ('save', 'resave') else set()
                ch = [x for x in w.changed(before, after) if x not in may]
                if ch:
                    raise Violation('other-file-touched', f'{k} interrupted at {o.fatal}: changed {ch}')
                if k in ('save', 'resave'):
                    needs_file = True
                if o.fatal:
                    st.nontrivial = True
                    st.c[f'{k} interrupted'] += 1
                    if o.ok:
                        raise Violation('exception-swallowed', f'{k}: {o.fatal} happened, but the call returned normally')
                    if not o.same_exc and not any(x[0] == 'stat' for x in o.fatal):
                        # (an error while looking the path up may be reported as 'not a file')
                        raise Violation('exception-replaced', f'{k}: {o.fatal} happened, but the caller got {o.exc_type}: {o.exc_text}')
                    if o.leaked_after or (o.leaked and o.where is None):
                        raise Violation('file-left-open', f'{k}: after {o.fatal} these files stay open: {o.leaked_after or o.leaked}')
                elif not o.ok:
                    raise Violation('healthy-raised', f'{k}: {o.exc_type}: {o.exc_text}')
                for x, t in ((obj, tree), (obj2, other)):
                    df = S.diff(t, S.dump(lib, x)) or moved(x, None)
                    if df:
                        raise Violation(f'document-changed:{place(df)}', f'{k} interrupted at {o.fatal}: {df}')
                # whatever comes next works as if nothing had happened
                for a in op['after']:
                    refs()
                    if a == 'save':
                        r = save(w, obj, f, 'utf-8')
                        if not r.ok or w.get(f) != full:
                            raise Violation('next-save-differs', f'after {k} interrupted at {o.fatal}: {r}, {len(w.get(f) or b"")} bytes '
                                                                 f'instead of {len(full)}')
                        needs_file = False
                    elif a == 'load':
                        w.put(f, full)
                        needs_file = False
                        r = load(w, kind, f, 'utf-8')
                        df = S.diff(tree, S.dump(lib, r.value)) if r.ok else f'{r}'
                        if df:
                            raise Violation('next-load-differs', f'after {k} interrupted at {o.fatal}: {df}')
                    elif a == 'text':
                        r = call(w, obj.to_sexpr)
                        if not r.ok or r.value != ref:
                            raise Violation('next-text-differs', f'after {k} interrupted at {o.fatal}: {r}')
                    elif a == 'other':
                        r = save(w, obj2, g, 'utf-8')
                        if not r.ok or w.get(g) != fullo:
                            raise Violation('next-save-differs', f'other document, after {k} interrupted at {o.fatal}: {r}')
                        r = load(w, okind, g, 'utf-8')
                        df = S.diff(other, S.dump(lib, r.value)) if r.ok else f'{r}'
                        if df:
                            raise Violation('next-load-differs', f'other document, after {k} interrupted at {o.fatal}: {df}')
                    elif a == 'new':
                        r = call(w, lambda: new(lib, okind))
                        if not r.ok:
                            raise Violation('next-new-raised', f'{r}')
                    else:
                        for x, t in sorted(defaults.items()):
                            df = S.diff(t, undated(S.dump(lib, lib.by_key[x]())))
                            if df:
                                raise Violation(f'default-changed:{x}', f'after {k} interrupted at {o.fatal}: {df}')
                    st.c['operations after an interruption'] += 1
        finally:
            st.absorb(w)


def process_state():
    """What later operations of the program depend on."""
    return {'working directory': os.getcwd(), 'recursion limit': sys.getrecursionlimit(), 'collector': gc.isenabled(),
            'SIGINT': signal.getsignal(signal.SIGINT), 'SIGTERM': signal.getsignal(signal.SIGTERM), 'variables': dict(os.environ)}


def new(lib, kind):
    c = lib.kind(kind)
    if not hasattr(c, 'create_new'):
        return c()
    if kind == 'footprint':
        return c.create_new('lib:n', 'v')
    if kind == 'libtable':
        return c.create_new('sym_lib_table')
    return c.create_new()
