"""C11  Only a regular file of the right kind loads."""
import pathlib

from sim import sexp
from .common import *

RUNS = {'quick': 22000, 'thorough': 300000}
RULE = ('one run = 3-8 loads of a path that is missing, not a regular file, or holds another kind of document, an item or garbage, some '
        'replaced by another program between the check and the open (or during the reads), while another document is held; each is '
        'followed by a correct load; non-trivial: at least one load had to be refused')
ASSUMPTIONS = BASE_ASSUMPTIONS + ['a footprint inside of a board file, taken by itself, is a footprint document']
HEADS = {'board': ['kicad_pcb'], 'schematic': ['kicad_sch'], 'footprint': ['footprint', 'module'], 'symbol': ['kicad_symbol_lib'],
         'worksheet': ['kicad_wks'], 'dru': ['version'], 'libtable': ['sym_lib_table', 'fp_lib_table']}
GARBAGE = ['', ' ', '\n', 'hello', '42', '"text"', '()', '(())', '(', ')', ')(', '( )', '[]', '{"board": 1}', '<xml/>', '\0' * 40, 'kicad_pcb',
           '(kicad_pcbx (version 1))', '(KICAD_PCB (version 1))', '(kicad_schematic)', '(kicad_symbol (version 1))', '(foot)', '(footprints "a")',
           '(modules "a")', '(kicad_wk)', '(Version 1)', '(versions 1)', '(lib_table)', '(fp_lib)', '(sym_lib_tables)', '(rule "x")', '(1 2)',
           '(kicad_pro)', '((kicad_pcb (version 1)))', '((kicad_sch (version 1)))', '((footprint "a"))', '((kicad_wks))', '((version 1))',
           '((kicad_symbol_lib (version 1)))', '((fp_lib_table))', 'kicad_sch', 'version 1', '("" "")', '(nil)', '(page_layout)', '(export)']
FIRST = ['x', 'hello world', '42', '"text"', '()', '(1 2)', '(title "x")', 'kicad_pcb', 'version']
BINARY = [b'\x89PNG\r\n\x1a\n' + bytes(range(256)), b'\xff\xfe\x00', b'PK\x03\x04' + b'\0' * 30, b'(kicad_pcb (version 1) "\xff\xfe")']


def gen_content(rng, kind):
    """-> bytes as base64; never a document of that kind"""
    k = rng.random()
    if k < .4:
        return {'doc': gen_tree(rng, rng.choice([x for x in KINDS if x != kind]), text='plain', size=rng.choice([1, 2]))}
    if k < .65:
        return {'item': gen_tree(rng, kind if rng.random() < .6 else None, text='plain', size=2), 'k': round(rng.random(), 5)}
    if k < .9:
        return {'raw': b64(rng.choice(GARBAGE).encode())}
    if k < .95:
        # something else, and only then a document
        return {'first': rng.choice(FIRST + [f'({x} (version 1) (generator x))' for o in KINDS if o != kind for x in HEADS[o] if x != 'version']),
                'then': gen_tree(rng, kind, size=1)}
    return {'raw': b64(rng.choice(BINARY))}


def gen(rng, i, tier):
    kind = rng.choice(KINDS)
    sc = {'env': gen_env(rng), 'kind': kind, 'good': gen_tree(rng, kind, size=1), 'held': gen_tree(rng, kind, size=1), 'ops': [],
          'beside': gen_beside(rng)}
    for _ in range(steps(rng, 3, 8)):
        k = rng.random()
        op = {'as': rng.choice(['str', 'Path', 'rel'])}
        if k < .4:
            op.update(op='content', content=gen_content(rng, kind))
        elif k < .62:
            op.update(op='path', what=rng.choice(['missing', 'dir', 'dangling', 'fifo', 'underfile', 'empty', 'loop', 'linkdir', 'linkfifo', 'missingdir', 'slash']))
        elif k < .67:
            op.update(op='alike', what=rng.choice(sorted(ALIKE)))
        elif k < .72:
            op.update(op='link')
        else:
            w = rng.choice(['missing', 'dir', 'dangling', 'fifo', 'content', 'content', 'content', 'good', 'linkdir', 'linkfifo'])
            op.update(op='swap', what=w, start=rng.choice(['good', 'good', 'good', 'bad']), on=rng.choice(['open_r', 'open_r', 'open_r', 'read']),
                      nth=0)
            if w == 'content' or op['start'] == 'bad':
                op['content'] = gen_content(rng, kind)
        op['again'] = rng.random() < .5
        sc['ops'].append(op)
    return sc


def resolve(w, kind, c):
    """Content of a file that is not a document of that kind, or None."""
    if 'raw' in c:
        b = base64.b64decode(c['raw'])
        h = b.decode('utf-8', 'replace').strip().split()[:1]
        if h and any(h[0].rstrip('()') in (f'({x}', ) for x in HEADS[kind]) and kind != 'dru':
            try:
                b.decode('utf-8')
                return None
            except UnicodeError:
                return b
        if kind == 'dru' and h and h[0] == '(version':
            return None
        return b
    if 'first' in c:
        b, o = reference_bytes(w, c['then'], 'utf-8')
        return None if b is None else c['first'].encode() + b'\n' + b
    if 'doc' in c:
        b, o = reference_bytes(w, c['doc'], 'utf-8')
        return b
    b, o = reference_bytes(w, c['item'], 'utf-8')
    if b is None:
        return None
    text = b.decode('utf-8')
    ls = [x for x in sexp.lists(text) or () if x[2] > 0 and x[3] not in HEADS[kind]]
    if not ls:
        return None
    s, e, _, _ = ls[min(len(ls) - 1, int(c['k'] * len(ls)))]
    return text[s:e].encode('utf-8')


ACTS = {'missing': lambda p: [{'act': 'remove', 'path': p}], 'dir': lambda p: [{'act': 'mkdir', 'path': p}],
        'dangling': lambda p: [{'act': 'symlink', 'path': p, 'to': 'nowhere'}], 'fifo': lambda p: [{'act': 'fifo', 'path': p}],
        'loop': lambda p: [{'act': 'symlink', 'path': p, 'to': p}], 'linkdir': lambda p: [{'act': 'symlink', 'path': p, 'to': 'adir'}],
        'linkfifo': lambda p: [{'act': 'symlink', 'path': p, 'to': 'pipe'}]}


# paths that mean no file, although one with a similar name is there
ALIKE = {'no suffix': lambda p: p.split('.')[0], 'upper case': lambda p: p.upper(), 'blank before': lambda p: ' ' + p, 'blank after': lambda p: p + ' ',
         'home': lambda p: '~/' + p, 'variable': lambda p: '$HOME/' + p, 'braces': lambda p: '${HOME}/' + p, 'url': lambda p: 'file:' + p, 'pattern': lambda p: p[:3] + '*',
         'quoted': lambda p: f'"{p}"', 'second suffix': lambda p: p + '.kicad', 'newline': lambda p: p + '\n', 'backslash': lambda p: '.\\' + p,
         'percent': lambda p: p.replace('.', '%2e') if '.' in p else p + '%20', 'cut': lambda p: p[:-1], 'zip': lambda p: p + '.gz', 'dot': lambda p: p + '.'}


def run(sc, st):
    kind = sc['kind']
    f = 'doc' + S.SUFFIX[kind]
    with World(sc['env']) as w:
        w.boot()
        lib = w.lib
        cls = lib.kind(kind)
        os.mkdir(os.path.join(w.disk, 'adir'))
        os.mkfifo(os.path.join(w.disk, 'pipe'))
        try:
            good, o = reference_bytes(w, sc['good'], 'utf-8')
            heldb, o2 = reference_bytes(w, sc['held'], 'utf-8')
            if good is None or heldb is None:
                return
            st.doc(sc['good'])
            w.put('held', heldb)
            held = healthy(load(w, kind, 'held', 'utf-8'), 'load')
            w.put('good', good)
            w.put('plain', b'not a directory')
            put_beside(w, st, f, sc.get('beside'), good)
            for op in sc['ops']:
                k = op['op']
                path, faults, expect = f, None, 'refuse'
                w.ext_remove(os.path.join(w.disk, f))
                if k == 'content':
                    b = resolve(w, kind, op['content'])
                    if b is None:
                        continue
                    w.put(f, b)
                    what = f'content {b[:60]!r}'
                elif k == 'path':
                    what = op['what']
                    if what in ACTS:
                        for a in ACTS[what](f):
                            w.act(a)
                    elif what == 'underfile':
                        path = 'plain/' + f
                    elif what == 'slash':
                        w.put(f, good)
                        path = f + '/'
                        expect = 'good or refuse'       # (a path library may well drop the slash)
                    elif what == 'missingdir':
                        path = 'nosuchdir/' + f
                    elif what == 'empty':
                        path = ''
                elif k == 'alike':
                    w.put(f, good)
                    path, what = ALIKE[op['what']](f), f'a path that means no file ({op["what"]})'
                    home = os.environ.get('HOME')
                    if home and os.path.realpath(home).startswith(os.path.realpath(w.base) + os.sep):
                        with open(os.path.join(home, f), 'wb') as h:
                            h.write(good)
                    if os.path.lexists(os.path.join(w.disk, path)):
                        continue
                elif k == 'link':
                    w.act({'act': 'symlink', 'path': f, 'to': 'good'})
                    expect, what = 'good', 'a link to a regular file'
                else:
                    if op['start'] == 'good':
                        w.put(f, good)
                    else:
                        b = resolve(w, kind, op['content'])
                        if b is None:
                            continue
                        w.put(f, b)
                    what = f'{op["start"]}, swapped at {op["on"]} for {op["what"]}'
                    if op['what'] == 'content':
                        b = resolve(w, kind, op['content'])
                        if b is None:
                            continue
                        acts = [{'act': 'write', 'path': f, 'data': b64(b)}]
                    elif op['what'] == 'good':
                        acts = [{'act': 'write', 'path': f, 'data': b64(good)}]
                    else:
                        acts = ACTS[op['what']](f)
                    faults = [{'on': op['on'], 'nth': 0, 'do': 'actor', 'acts': acts, 'path': f'disk/{f}'}]
                    if op['on'] == 'read':
                        # the file is already open: the load sees what was there when it opened it
                        expect = 'good or refuse' if op['start'] == 'good' else 'refuse'
                    else:
                        expect = 'good' if op['what'] == 'good' else 'refuse'
                    if op['start'] != 'good' and op['what'] == 'good':
                        expect = 'good or refuse'
                if op['as'] == 'Path' and path and path[-1] != '/':
                    p = pathlib.Path(path)
                elif op['as'] == 'str' and path:
                    p = os.path.join(w.disk, path)
                else:
                    p = path
                before = w.snapshot()
                fifo = w.probes['fifo opened']
                o = call(w, lambda: cls.from_file(p, encoding='utf-8'), faults)
                after = w.snapshot()
                if not o.fired and k == 'swap':
                    # the swap never happened (the file was refused before it was opened)
                    if op['start'] == 'good':
                        raise Violation('not-opened', f'{what}: {o}')
                st.c[f'{k}'] += 1
                if expect == 'refuse':
                    st.nontrivial = True
                if o.ok:
                    if expect == 'refuse':
                        raise Violation(f'accepted:{k}:{op.get("what", "")}', f'{kind} was loaded from: {what}')
                    df = S.diff(sc['good'], S.dump(lib, o.value))
                    if df:
                        raise Violation(f'wrong-content:{place(df)}', f'{what}: {df}')
                elif expect == 'good':
                    raise Violation('good-file-refused', f'{what}: {o.exc_type}: {o.exc_text}')
                else:
                    st.c['refused'] += 1
                    if o.leaked:
                        raise Violation('file-left-open', f'{what}: {o.leaked}')
                if k == 'path' and op.get('what') in ('fifo', 'linkfifo') and w.probes['fifo opened'] > fifo:
                    raise Violation('blocks-on-pipe', 'a pipe was opened for reading: the load would wait for ever instead of raising')
                ch = [x for x in w.changed(before, after) if not (k == 'swap' and x == f'disk/{f}')]
                if ch:
                    raise Violation('file-touched', f'{what}: the load changed {ch}')
                df = S.diff(sc['held'], S.dump(lib, held))
                if df:
                    raise Violation(f'other-document-changed:{place(df)}', f'{what}: {df}')
                if op['again']:
                    r = load(w, kind, 'good', 'utf-8')
                    if not r.ok:
                        raise Violation('next-load-raised', f'after {what}: {r.exc_type}: {r.exc_text}')
                    df = S.diff(sc['good'], S.dump(lib, r.value))
                    if df:
                        raise Violation(f'next-load-differs:{place(df)}', f'after {what}: {df}')
        finally:
            st.absorb(w)
