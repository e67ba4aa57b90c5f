"""C13  Encodings, line endings and platform settings do not alter documents."""
import codecs

from .common import *

RUNS = {'quick': 14000, 'thorough': 220000}
RULE = ('one run = 1-2 documents taken through 2-6 saves and loads, each on a simulated platform with its own default encoding and line '
        'ending, with and without explicit encodings, with re-encoding and line-end conversion by other tools in between; non-trivial: '
        'at least one load happened under settings that differ from those of the save, or after a conversion')
ASSUMPTIONS = BASE_ASSUMPTIONS + ['the platform default encoding is what open() uses when no encoding is given',
                                  'documents hold only characters the chosen encodings can represent (the opposite is C09)']
UNICODE = ['utf-8', 'utf-8-sig', 'utf-16', 'utf-16-le', 'utf-16-be', 'utf-32', 'utf-7', 'gb18030']
LEGACY = ['latin-1', 'cp1252', 'ascii', 'iso8859-15', 'cp437', 'koi8-r', 'shift_jis', 'cp932', 'euc-jp', 'cp1251', 'mac-roman', 'iso2022_jp',
          'cp037', 'big5', 'gbk', 'UTF8', 'Latin1', 'UTF-16LE']
SEPS = ['\n', '\r\n']


def gen(rng, i, tier):
    enc = rng.choice(LEGACY) if rng.random() < .6 else rng.choice(UNICODE)
    t = gen_tree(rng, encoding=enc, size=rng.choice([1, 1, 2, 3]))
    sc = {'env': gen_env(rng, small=True), 'tree': t, 'kind': kind_of(t), 'enc': enc, 'ops': []}
    ops = sc['ops']
    n = rng.randint(1, 3)
    for _ in range(n):
        e = rng.choice([enc, enc, rng.choice(UNICODE)])
        ops.append({'op': 'platform', 'locale': rng.choice([e, 'ascii', 'utf-8', 'cp1252', 'utf-16', 'latin-1']), 'linesep': rng.choice(SEPS),
                    'restart': rng.random() < .1})
        # without an explicit encoding the platform has to be able to represent the document
        implicit = ops[-1]['locale'] == e and rng.random() < .7
        ops.append({'op': 'save', 'encoding': None if implicit else e})
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            if rng.random() < .5:
                ops.append({'op': 'newlines', 'to': rng.choice(['\r\n', '\n', '\r'])})
            else:
                ops.append({'op': 'transcode', 'to': rng.choice([enc] + UNICODE)})
        for _ in range(rng.choice([1, 1, 2])):
            ops.append({'op': 'platform', 'locale': rng.choice(['match', 'match', 'ascii', 'utf-8', 'cp1252', 'utf-16']), 'linesep': rng.choice(SEPS),
                        'restart': rng.random() < .1})
            ops.append({'op': 'load', 'implicit': rng.random() < .6, 'keep': rng.random() < .5})
    return sc


def run(sc, st):
    tree, kind = sc['tree'], sc['kind']
    f = 'doc' + S.SUFFIX[kind]
    with World(sc['env']) as w:
        w.boot()
        try:
            st.doc(tree)
            data, o = reference_bytes(w, tree, 'utf-8')
            if data is None:
                return
            model = tree                      # what a restarted process rebuilds the document from
            obj, text = S.build(w.lib, model), data.decode('utf-8')
            on_disk, env_at_save = None, None
            for op in sc['ops']:
                k = op['op']
                if k == 'platform':
                    loc = op['locale']
                    if loc == 'match':
                        loc = on_disk or 'utf-8'
                    w.locale, w.linesep = loc, op['linesep']
                    os.linesep = op['linesep']
                    if op.get('restart'):
                        w.boot()
                        obj = S.build(w.lib, model)
                elif k == 'save':
                    e = op['encoding']
                    o = save(w, obj, f, e)
                    if not o.ok:
                        raise Violation(f'save-raised:{o.exc_type}', f'encoding {e}, platform {w.locale}: {o.exc_type}: {o.exc_text}')
                    on_disk = e or w.locale
                    raw = w.get(f)
                    try:
                        got = raw.decode(on_disk)
                    except UnicodeError as x:
                        raise Violation('not-that-encoding', f'saved as {on_disk} (platform {w.locale}), but the bytes are not: {x}')
                    if got.replace('\r\n', '\n') != text:
                        p = next((i for i, (a, b) in enumerate(zip(got.replace('\r\n', '\n'), text)) if a != b), 0)
                        raise Violation('not-that-text', f'saved as {on_disk} (platform {w.locale}): {got[max(0, p - 20):p + 20]!r} instead of '
                                                         f'{text[max(0, p - 20):p + 20]!r}')
                    env_at_save = (w.locale, w.linesep, e is None)
                    st.c['saves'] += 1
                elif on_disk is None:
                    continue
                elif k == 'newlines':
                    t = w.get(f).decode(on_disk).replace('\r\n', '\n').replace('\r', '\n')
                    w.put(f, t.replace('\n', op['to']).encode(on_disk))
                    env_at_save = None
                    st.c['line ends converted'] += 1
                elif k == 'transcode':
                    t = w.get(f).decode(on_disk)
                    w.put(f, t.encode(op['to']))
                    on_disk = op['to']
                    env_at_save = None
                    st.c['files re-encoded'] += 1
                else:
                    implicit = op['implicit'] and same(w.locale, on_disk)
                    o = load(w, kind, f, None if implicit else on_disk)
                    if not o.ok:
                        raise Violation(f'unreadable:{o.exc_type}', f'{on_disk} on platform {w.locale}: {o.exc_type}: {o.exc_text}')
                    df = S.diff(tree, S.dump(w.lib, o.value))
                    if df:
                        raise Violation(f'differs:{place(df)}', f'{on_disk}, platform {w.locale} {w.linesep!r}, saved under {env_at_save}: {df}')
                    if env_at_save is None or env_at_save != (w.locale, w.linesep, implicit):
                        st.nontrivial = True
                    st.c['loads implicit' if implicit else 'loads explicit'] += 1
                    if op['keep']:
                        # continue with the loaded document; numbers may be spelled differently from now on
                        obj = o.value
                        model = S.dump(w.lib, obj)
                        b, o = reference_bytes_plain(w, model)
                        if b is None:
                            raise Violation('save-raised', f'{o}')
                        text = b
                    st.fired['platform:' + ('implicit' if implicit else 'explicit')] += 1
        finally:
            st.absorb(w)


def same(a, b):
    try:
        return codecs.lookup(a).name == codecs.lookup(b).name
    except LookupError:
        return False


def reference_bytes_plain(w, tree):
    loc, sep = w.locale, w.linesep
    w.locale, w.linesep, os.linesep = 'utf-8', '\n', '\n'
    try:
        b, o = reference_bytes(w, tree, 'utf-8')
    finally:
        w.locale, w.linesep, os.linesep = loc, sep, sep
    return (b.decode('utf-8') if b is not None else None), o
