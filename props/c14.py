"""C14  Other tools may lay the file out differently, at any moment, without changing what is loaded."""
import json
import random

from sim import sexp
from .common import *

RUNS = {'quick': 24000, 'thorough': 150000}
RULE = ('one run = a document shared by this library (over 1-3 process starts) and another tool that rewrites its file in another layout at '
        'seeded moments: between operations, or by replacing the file at any event of a load; 2-7 loads, edits, saves and rewrites; '
        'non-trivial: at least one load happened on a file laid out by the other tool')
ASSUMPTIONS = BASE_ASSUMPTIONS + [
    'the other tool replaces the file as a whole (a reader keeps the version it opened); it changes white space between tokens, quoting of '
    'plain words, the order of attributes found by name, and adds named tokens the library does not know, and nothing else',
    'white space is only removed between brackets']
HOW = ['space', 'quote', 'unknown', 'end', 'start', 'oneline', 'order']


def gen(rng, i, tier):
    t = gen_tree(rng, size=rng.choice([1, 1, 2, 3]))
    while len(json.dumps(t)) > 60000:           # (white space added to a large document takes the tokenizer long)
        t = gen_tree(rng, size=1)
    kind = kind_of(t)
    sc = {'env': gen_env(rng, small=rng.random() < .3), 'tree': t, 'kind': kind, 'ops': []}
    m = S.dup(t)
    ops = sc['ops']
    ops.append({'op': 'save'})
    budget = 1500000
    for _ in range(steps(rng, 1, 4)):
        budget -= len(json.dumps(m))
        if budget < 0:
            break
        for _ in range(rng.choice([1, 1, 1, 2])):
            ops.append({'op': 'tool', 'how': how(rng), 'seed': rng.randrange(1 << 30)})
        o = {'op': 'load', 'keep': rng.random() < .6}
        if rng.random() < .3:
            o['race'] = {'how': how(rng), 'seed': rng.randrange(1 << 30), 'on': rng.choice(['any', 'stat', 'open_r', 'read', 'close_r']),
                         'nth': rng.choice([0, 0, 1, 2, 4])}
        ops.append(o)
        k = rng.random()
        if k < .2:
            ops.append({'op': 'restart', 'jump': jump(rng)})
        elif k < .5:
            e = gen_edit(rng, m)
            if edit_tree(m, e):
                ops.append({'op': 'edit', 'edit': e})
                ops.append({'op': 'save'})
        elif k < .8:
            ops.append({'op': 'save'})
    return sc


def how(rng):
    return sorted(rng.sample(HOW, rng.choice([1, 1, 2, 3])))


def laid_out(data, op):
    return sexp.relayout(data.decode('utf-8'), random.Random(op['seed']), op['how']).encode('utf-8')


def run(sc, st):
    kind = sc['kind']
    f = 'doc' + S.SUFFIX[kind]
    with World(sc['env']) as w:
        w.boot()
        try:
            model = S.dup(sc['tree'])           # of the document in memory
            st.doc(model)
            obj = S.build(w.lib, model)
            stored, foreign = None, False               # of the file
            for op in sc['ops']:
                k = op['op']
                if k == 'save':
                    healthy(save(w, obj, f, 'utf-8'), 'save')
                    stored, foreign = S.dup(model), False
                elif k == 'edit':
                    if edit_tree(model, op['edit']):
                        edit_obj(w.lib, obj, op['edit'])
                elif k == 'restart':
                    w.boot(op['jump'])
                    obj = S.build(w.lib, model)
                elif stored is None:
                    continue
                elif k == 'tool':
                    w.act({'act': 'write', 'path': f, 'data': laid_out(w.get(f), op)})
                    foreign = True
                    for h in op['how']:
                        st.c['rewrites: ' + h] += 1
                else:
                    faults = None
                    if 'race' in op:
                        r = op['race']
                        faults = [{'on': r['on'], 'nth': r['nth'], 'do': 'actor',
                                   'acts': [{'act': 'write', 'path': f, 'data': laid_out(w.get(f), r)}]}]
                    o = load(w, kind, f, 'utf-8', faults)
                    if o.fired:
                        st.c['rewrites during a load'] += 1
                        foreign = True
                    if foreign:
                        st.nontrivial = True
                    if not o.ok:
                        raise Violation('refused', f'a file laid out by another tool does not load: {o.exc_type}: {o.exc_text}')
                    d = S.diff(stored, S.dump(w.lib, o.value))
                    if d:
                        raise Violation(f'differs:{place(d)}', f'the layout of the file changed what was loaded: {d}')
                    st.c['loads'] += 1
                    if op['keep']:
                        obj, model = o.value, S.dup(stored)
        finally:
            st.absorb(w)
