"""C09  A document that cannot be serialised leaves the old file intact."""
from .common import *

RUNS = {'quick': 24000, 'thorough': 170000}
RULE = ('one run = one document and a target (existing, missing, remembered, longer, empty); 1-5 times something in the document is made '
        'impossible to write (an item missing or of the wrong type, a value that fails when formatted, text the encoding cannot '
        'represent, an encoding that does not exist), the save is tried, the document is corrected and saved again; non-trivial: at '
        'least one save raised because of the document')
ASSUMPTIONS = BASE_ASSUMPTIONS + ['a save counts as "cannot be serialised" when it raises although the simulated disk reported no error']
ENC = ['utf-8', None, 'latin-1', 'ascii', 'utf-16', 'cp1252', 'no-such-encoding', 'utf-16-le']

# parts that an item cannot do without: (class) fields
REQUIRED = {
    'c:Effects': 'font justify',
    'c:Property': 'position',
    'c:Image': 'position',
    'b:Segment': 'start end',
    'b:Via': 'position',
    'b:Arc': 'start mid end',
    'b:Target': 'position',
    'g:GrText': 'position effects',
    'g:GrLine': 'start end',
    'g:GrRect': 'start end',
    'g:GrCircle': 'center end',
    'g:GrArc': 'start mid end',
    'd:Dimension': 'style',
    'z:Zone': 'hatch',
    'f:FpText': 'position effects',
    'f:FpLine': 'start end',
    'f:FpRect': 'start end',
    'f:FpCircle': 'center end',
    'f:FpArc': 'start mid end',
    'F:Model': 'pos scale rotate',
    'F:Pad': 'position size',
    'B:Board': 'general paper setup',
    's:Junction': 'position color',
    's:NoConnect': 'position',
    's:BusEntry': 'position size stroke',
    's:Connection': 'stroke',
    's:PolyLine': 'stroke',
    's:Text': 'position effects',
    's:TextBox': 'position size stroke fill effects',
    's:LocalLabel': 'position effects',
    's:GlobalLabel': 'position effects',
    's:HierarchicalLabel': 'position effects',
    's:SchematicSymbol': 'position',
    's:HierarchicalPin': 'position effects',
    's:HierarchicalSheet': 'position stroke fill sheetName fileName',
    's:Rectangle': 'start end stroke fill',
    's:Arc': 'start mid end stroke fill',
    's:Circle': 'center stroke fill',
    's:NetclassFlag': 'position effects',
    'S:Schematic': 'paper',
    'y:SyArc': 'start mid end stroke fill',
    'y:SyCircle': 'center stroke fill',
    'y:SyCurve': 'stroke fill',
    'y:SyPolyLine': 'stroke fill',
    'y:SyRect': 'start end stroke fill',
    'y:SyText': 'position effects',
    'y:SyTextBox': 'position size stroke fill effects',
    'Y:SymbolPin': 'position',
    'w:Line': 'start end',
    'w:Rect': 'start end',
    'w:Bitmap': 'position',
    'w:TbText': 'position font',
    'w:Setup': 'textSize',
    'w:WorkSheet': 'setup',
}


class Poison:
    """A value that cannot be written."""

    def __init__(self, how):
        self.how = how
        self.raised = False

    def boom(self, *a):
        self.raised = True
        raise {'value': ValueError, 'type': TypeError, 'attr': AttributeError, 'runtime': RuntimeError,
               'memory': MemoryError, 'recursion': RecursionError}[self.how]('cannot be written')
    __str__ = __repr__ = __format__ = __bool__ = __len__ = __iter__ = boom


def gen(rng, i, tier):
    t = gen_tree(rng, size=rng.choice([1, 2, 2, 3]))
    kind = kind_of(t)
    sc = {'env': gen_env(rng, small=True), 'tree': t, 'kind': kind, 'ops': [],
          'target': rng.choice(['old', 'old', 'old', 'missing', 'remembered', 'long', 'empty', 'nodir'])}
    sc['beside'] = gen_beside(rng)
    if rng.random() < .2:
        sc['env']['locale'] = rng.choice(['latin-1', 'ascii', 'cp1252', 'utf-8'])
    for _ in range(steps(rng, 1, 5)):
        k = rng.random()
        if k < .8:
            op = {'op': 'poison', 'k': round(rng.random(), 5), 'deep': rng.random() < .75,
                  'with': rng.choice(['value', 'type', 'attr', 'runtime', 'memory', 'recursion', 'None', 'str', 'int', 'list', 'emptyobj'])}
        elif k < .93:
            op = {'op': 'encoding', 'k': round(rng.random(), 5), 'text': rng.choice(['Ω', '漢', '\ud800', 'ä', '😀']),
                  'encoding': rng.choice(ENC)}
        else:
            op = {'op': 'encoding', 'k': 0, 'text': None, 'encoding': 'no-such-encoding'}
        sc['ops'].append(op)
    return sc


def encodable(obj, enc):
    try:
        obj.to_sexpr().encode(enc)
        return True
    except UnicodeError:
        return False


def spots(t, path=()):
    """Places in a document tree: (path, 'field'|'item', value)"""
    out = []
    for f in S.SPEC[t['$']]:
        v = t[f]
        out.append((path + (f,), 'field', v))
        if isinstance(v, dict) and '$' in v:
            out += spots(v, path + (f,))
        elif isinstance(v, list):
            for i, x in enumerate(v):
                out.append((path + (f, i), 'item', x))
                if isinstance(x, dict) and '$' in x:
                    out += spots(x, path + (f, i))
    return out


def resolve(obj, path):
    for p in path[:-1]:
        obj = getattr(obj, p) if isinstance(p, str) else obj[p]
    return obj, path[-1]


def put(holder, p, v):
    if isinstance(p, str):
        setattr(holder, p, v)
    else:
        holder[p] = v


def take(holder, p):
    return getattr(holder, p) if isinstance(p, str) else holder[p]


def run(sc, st):
    tree, kind = sc['tree'], sc['kind']
    f = 'doc' + S.SUFFIX[kind]
    with World(sc['env']) as w:
        w.boot()
        lib = w.lib
        try:
            st.doc(tree)
            full, o = reference_bytes(w, tree, 'utf-8')
            if full is None:
                return
            obj = S.build(lib, tree)
            path = f
            how = sc['target']
            if how == 'old':
                w.put(f, b'the file that was there before\n')
            elif how == 'empty':
                w.put(f, b'')
            elif how == 'long':
                w.put(f, full + b'\n and a lot more\n' * 50)
            elif how == 'nodir':
                path = 'nodir/' + f
            elif how == 'remembered':
                w.put(f, full)
                o = load(w, kind, f, 'utf-8')
                if not o.ok or S.diff(tree, S.dump(lib, o.value)):
                    return
                obj, path = o.value, None
                full, o = reference_bytes(w, S.dump(lib, obj), 'utf-8')
                if full is None:
                    return
            put_beside(w, st, f, sc.get('beside'), full)
            places = spots(tree)
            for op in sc['ops']:
                enc = op.get('encoding', 'utf-8')
                if op['op'] == 'poison':
                    cand = places
                    if op['deep']:
                        cand = [x for x in places if len(x[0]) > 1] or places
                    if op['with'] in ('None', 'str', 'int', 'list', 'emptyobj'):
                        c2 = [x for x in cand if isinstance(x[2], dict) and '$' in x[2]]
                        cand = c2 or cand
                else:
                    cand = [x for x in places if isinstance(x[2], str)]
                holder, must = None, None
                if cand and not (op['op'] == 'encoding' and op['text'] is None):
                    pth, sort, val = cand[min(len(cand) - 1, int(op['k'] * len(cand)))]
                    try:
                        holder, last = resolve(obj, pth)
                        old = take(holder, last)
                        if op['op'] == 'poison':
                            new = {'None': None, 'str': 'text', 'int': 7, 'list': []}.get(op['with'])
                            if op['with'] == 'emptyobj':
                                new = type('Strange', (), {})()
                            elif op['with'] in ('value', 'type', 'attr', 'runtime', 'memory', 'recursion'):
                                new = Poison(op['with'])
                        else:
                            new = old + op['text']
                        put(holder, last, new)
                        if op['op'] == 'poison' and isinstance(val, dict) and '$' in val and (sort == 'item' or new is not None):
                            must = f'{op["with"]} in place of {val["$"]}'
                        elif op['op'] == 'poison' and new is None and sort == 'field' and last in REQUIRED.get(w.lib.by_cls.get(type(holder)), '').split():
                            must = f'no {last} in {type(holder).__name__}'
                    except Exception:
                        continue
                if holder is not None:
                    st.fired[f'document:{op.get("with", "text")}'] += 1
                before = w.snapshot()
                o = save(w, obj, path, enc)
                after = w.snapshot()
                st.c['saves'] += 1
                if not o.ok:
                    st.nontrivial = True
                    st.c[f'refused {op["op"]}'] += 1
                    ch = w.changed(before, after)
                    if ch:
                        what = 'appeared' if ch[0] not in before else 'vanished' if ch[0] not in after else 'changed'
                        raise Violation(f'refused-save-{what}', f'the save raised {o.exc_type}: {o.exc_text}, but {ch} {what}: '
                                        f'{S.short(before.get(ch[0]))} -> {S.short(after.get(ch[0]))}')
                    if o.leaked:
                        raise Violation('file-left-open', f'{o.leaked}')
                else:
                    st.c['saves that worked'] += 1
                    if op['op'] == 'encoding' and enc == 'no-such-encoding':
                        raise Violation('encoding-ignored', 'an encoding that does not exist was accepted')
                    if holder is not None and isinstance(new, Poison) and new.raised:
                        must = f'a value that raised {new.how} when it was written'
                    if op['op'] == 'encoding' and not encodable(obj, enc or w.locale):
                        must = f'text that {enc or w.locale} cannot represent'
                    if must:
                        raise Violation('unwritable-accepted', f'the document holds {must}, but the save returned')
                if holder is not None:
                    put(holder, last, old)
                if how == 'nodir':
                    continue
                # corrected: the same save works
                o = save(w, obj, path, 'utf-8')
                if not o.ok:
                    raise Violation('corrected-save-raised', f'{o.exc_type}: {o.exc_text}')
                if w.get(f) != full:
                    raise Violation('corrected-save-differs', f'{len(w.get(f) or b"")} bytes instead of {len(full)}')
                df = S.diff(tree, S.dump(lib, obj))
                if df:
                    raise Violation(f'document-changed:{place(df)}', df)
                if how in ('old', 'missing'):
                    w.ext_remove(os.path.join(w.disk, f))
                    if how == 'old':
                        w.put(f, b'another older file\n' * 3)
        finally:
            st.absorb(w)
