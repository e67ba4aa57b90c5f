"""C01  An acknowledged save reads back as the same document.

Histories of new / edit / save / load / restart / crash over a few documents and files.  The model
is the tree of the last acknowledged save of every file; every load of such a file, in this or a
later process, must give exactly that tree.
"""
import json
import os

from sim import sexp
from .common import *

VOCABULARY = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'vocabulary.json')))

RUNS = {'quick': 18000, 'thorough': 60000}
RULE = ('one run = one seeded history of new/edit/save/load/restart/failed save/crash over 1-4 documents; non-trivial: at '
        'least one load of an acknowledged save was compared with the model')
ASSUMPTIONS = BASE_ASSUMPTIONS + [
    'a process crash loses memory and unflushed buffers; bytes already handed to the kernel survive (no power loss after an '
    'acknowledged save: the library does not promise fsync)',
    'number values compare numerically (3 and 3.0 are equal); KNOWN_FINDINGS.txt lists the inputs excluded from the domain']


def gen(rng, i, tier):
    style = rng.choice(['sweep', 'sweep', 'history', 'history', 'faults'])
    sc = {'env': gen_env(rng), 'style': style, 'ops': []}
    ops = sc['ops']
    if style == 'sweep':
        # many documents, each saved and read back
        for k in range(rng.randint(3, 8)):
            t = gen_tree(rng)
            f = f'f{k}{S.SUFFIX[kind_of(t)]}'
            ops.append({'op': 'new', 'doc': f'd{k}', 'tree': t, 'fit': gen_fit(rng)})
            ops.append({'op': 'save', 'doc': f'd{k}', 'file': f})
            if rng.random() < .2:
                ops.append({'op': 'restart', 'jump': jump(rng)})
            ops.append({'op': 'load', 'doc': f'd{k}', 'file': f, 'kind': kind_of(t)})
        return sc
    docs = {}
    for k in range(rng.randint(1, 3)):
        t = gen_tree(rng, size=rng.choice([1, 2, 3]))
        docs[f'd{k}'] = t
        ops.append({'op': 'new', 'doc': f'd{k}', 'tree': S.dup(t)})
    for _ in range(steps(rng, 4, 14)):
        d = rng.choice(sorted(docs))
        t = docs[d]
        f = f'{d}_{rng.randint(0, 1)}{S.SUFFIX[kind_of(t)]}'
        k = rng.random()
        if k < .35:
            e = gen_edit(rng, t)
            if edit_tree(t, e):
                ops.append({'op': 'edit', 'doc': d, 'edit': e})
        elif k < .4:
            ops.append({'op': 'tweak', 'doc': d, 'k': round(rng.random(), 4), 'at': round(rng.random(), 3)})
        elif k < .43:
            ops.append({'op': 'overhaul', 'doc': d, 'seed': rng.randrange(1 << 30), 'p': rng.choice([.1, .5, 1])})
        elif k < .65:
            o = {'op': 'save', 'doc': d, 'file': f}
            if style == 'faults' and rng.random() < .4:
                o['faults'] = gen_write_faults(rng, crash=rng.random() < .3)
            ops.append(o)
        elif k < .92:
            ops.append({'op': 'load', 'doc': d, 'file': f, 'kind': kind_of(t)})
        elif k < .97:
            ops.append({'op': 'restart', 'jump': jump(rng)})
        else:
            ops.append({'op': 'create_new', 'doc': d, 'file': f, 'kind': kind_of(t), 'name': f'N{rng.randint(0, 99)}'})
    for d in sorted(docs):
        t = docs[d]
        for n in (0, 1):
            ops.append({'op': 'load', 'doc': d, 'file': f'{d}_{n}{S.SUFFIX[kind_of(t)]}', 'kind': kind_of(t)})
    return sc


def create_new(lib, kind, name):
    c = lib.kind(kind)
    if kind == 'footprint':
        return c.create_new(f'lib:{name}', name)
    if kind == 'libtable':
        return c.create_new('sym_lib_table')
    if kind == 'symbol':
        o = c()
        o.symbols.append(lib.by_key['Y:Symbol'].create_new(f'lib:{name}', 'R', name))
        return o
    return c.create_new()


def values(t, texts, numbers):
    if isinstance(t, dict):
        for k, v in t.items():
            if k == '%':
                values(v, texts, numbers)
            elif k != '$':
                values(v, texts, numbers)
    elif isinstance(t, list):
        for x in t:
            values(x, texts, numbers)
    elif isinstance(t, (int, float)) and not isinstance(t, bool):
        numbers.add(float(t))
        texts.add(str(t))
    elif t is not None:
        texts.add(str(t))


def nothing_added(w, f, tree):
    """Nothing but the document is in the file."""
    try:
        text = w.get(f).decode(w.locale)
    except UnicodeError:
        return
    texts, numbers = set(), set()
    values(tree, texts, numbers)
    why = sexp.added(sexp.nested(text), texts, numbers, VOCABULARY)
    if why:
        raise Violation(f'added:{why}', f'the saved file {f} holds something that is not in the document: {why}')


def run(sc, st):
    with World(sc['env']) as w:
        w.boot()
        objs, model, disk = {}, {}, {}
        try:
            for op in sc['ops']:
                k = op['op']
                if k == 'restart':
                    w.boot(op.get('jump', 0))
                    objs.clear()
                    model.clear()
                    st.c['op restart'] += 1
                elif k == 'new':
                    t = S.dup(op['tree'])
                    fit(w, t, op.get('fit'))
                    objs[op['doc']], model[op['doc']] = S.build(w.lib, t), t
                    st.doc(t)
                elif k == 'create_new':
                    try:
                        o = create_new(w.lib, op['kind'], op['name'])
                    except (AttributeError, TypeError, NotImplementedError):
                        continue
                    objs[op['doc']], model[op['doc']] = o, S.dump(w.lib, o)
                    st.c['op create_new'] += 1
                elif k == 'edit':
                    d = op['doc']
                    if d in objs and edit_tree(model[d], op['edit']):
                        edit_obj(w.lib, objs[d], op['edit'])
                        st.c['op edit'] += 1
                elif k == 'tweak':
                    d = op['doc']
                    if d in objs and tweak(model[d], op['k'], op['at'], objs[d]):
                        st.c['op tweak'] += 1
                elif k == 'overhaul':
                    d = op['doc']
                    if d in objs and overhaul(w.lib, model[d], objs[d], op['seed'], op['p']):
                        st.c['op overhaul'] += 1
                elif k == 'save':
                    d = op['doc']
                    if d not in objs:
                        continue
                    o = save(w, objs[d], op['file'], faults=op.get('faults'))
                    st.c['op save'] += 1
                    if o.ok:
                        disk[op['file']] = S.dup(model[d])
                        nothing_added(w, op['file'], model[d])
                    else:
                        disk.pop(op['file'], None)
                        if o.crashed:
                            w.boot()
                            objs.clear()
                            model.clear()
                        elif not o.fatal:
                            raise Violation('save-raised', f'saving {op["file"]} raised {o.exc_type}: {o.exc_text}')
                elif k == 'load':
                    if op['file'] not in disk:
                        continue
                    o = load(w, op['kind'], op['file'])
                    st.c['op load'] += 1
                    if not o.ok:
                        raise Violation(f'unreadable:{op["kind"]}:{o.exc_type}',
                                        f'an acknowledged save of {op["file"]} cannot be loaded: {o.exc_type}: {o.exc_text}')
                    check_doc(w, o.value, disk[op['file']], 'differs', f'{op["file"]} does not read back as it was saved')
                    st.nontrivial = True
                    st.c['documents compared'] += 1
                    objs[op['doc']], model[op['doc']] = o.value, S.dup(disk[op['file']])
        finally:
            st.absorb(w)
