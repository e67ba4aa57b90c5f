"""Independent reader for S-expression text: spans of lists and re-layout, used to make the files of other tools.

Independent of the tokenizer of the library.  A text ends at the first double quote that no
backslash precedes.
"""

import re


def lists(text):
    """Spans (start, end, depth, head) of all complete lists, in order of their start."""
    out, stack = [], []
    i, n = 0, len(text)
    while i < n:
        c = text[i]
        if c == '"':
            i += 1
            while i < n and not (text[i] == '"' and text[i - 1] != '\\'):
                i += 1
        elif c == '(':
            stack.append(i)
        elif c == ')':
            if not stack:
                return None
            s = stack.pop()
            j = s + 1
            while j < i and not text[j].isspace() and text[j] not in '()"':
                j += 1
            out.append((s, i + 1, len(stack), text[s + 1:j]))
        i += 1
    if stack:
        return None
    return sorted(out)


def drop(text, frac):
    """Removes one list (not a top level one), chosen by `frac`."""
    ls = lists(text)
    ls = [x for x in ls or () if x[2] > 0]
    if not ls:
        return text, None
    s, e, d, head = ls[min(len(ls) - 1, int(frac * len(ls)))]
    return text[:s] + text[e:], head


def tokens(text):
    """[(white space before, token)], and the white space at the end."""
    out = []
    i, n = 0, len(text)
    while True:
        s = i
        while i < n and text[i].isspace():
            i += 1
        gap = text[s:i]
        if i >= n:
            return out, gap
        s = i
        c = text[i]
        i += 1
        if c == '"':
            while i < n and not (text[i] == '"' and text[i - 1] != '\\'):
                i += 1
            i += 1
        elif c not in '()':
            while i < n and not text[i].isspace() and text[i] not in '()"':
                i += 1
        out.append((gap, text[s:i]))


PLAIN = re.compile(r'[A-Za-z_][A-Za-z0-9_.+-]*')
# lists made of named tokens: what they hold is found by name, not by position
NAMED = set('''kicad_pcb kicad_sch kicad_symbol_lib kicad_wks footprint symbol pad zone segment via gr_line gr_rect gr_circle gr_arc gr_poly
    gr_curve gr_text gr_text_box fp_line fp_rect fp_circle fp_arc fp_poly fp_curve fp_text fp_text_box dimension junction no_connect
    bus_entry wire label global_label hierarchical_label netclass_flag sheet effects stroke setup title_block model group target rule
    lib sym_lib_table fp_lib_table stackup general keepout format style options drill pcbplotparams font property project
    path rectangle circle polyline text arc bezier pin fill primitives render_cache image text_box tbtext line rect bitmap polygon filled_polygon attr'''.split())
SPACES = [' ', ' ', '  ', '\n', '\n', '\t', '\r\n', '\n\n', ' \n  ', '\n\t\t', '\f', '\v', ' \f\n']


# tokens of which a list holds one, found by name
SINGLE = set('''version generator general paper title_block layers setup uuid tedit descr tags path at layer tstamp start end mid center width
    stroke fill effects size drill net net_name hatch priority connect_pads min_thickness clearance offset scale rotate xyz title date rev
    company type name uri options descr mirror unit in_bom on_board lib_id thickness color angle zone_connect solder_mask_margin
    solder_paste_margin solder_paste_margin_ratio thermal_width thermal_gap roundrect_rratio chamfer_ratio pinfunction pintype die_length
    length font justify generator_version page size pad_to_mask_clearance solder_mask_min_width aux_axis_origin grid_origin pcbplotparams
    stackup keepout format style height orientation feature shape diameter id locked attr'''.split())
ORDERED = NAMED - set('rule'.split())


def reorder(text, rng, p):
    """Other order of the named tokens of an item."""
    toks, tail = tokens(text)
    pos = 0

    def node():
        """-> (gap, head, text)"""
        nonlocal pos
        gap, t = toks[pos]
        pos += 1
        if t != '(':
            return gap, None, t
        kids = []
        while toks[pos][1] != ')':
            kids.append(node())
        end = toks[pos][0] + ')'
        pos += 1
        head = kids[0][2] if kids and kids[0][1] is None else ''
        if head in ORDERED and rng.random() < p:
            heads = [k[1] for k in kids]
            at = [i for i, h in enumerate(heads) if h in SINGLE and heads.count(h) == 1]
            to = at[:]
            rng.shuffle(to)
            kids = [(k[0],) + kids[dict(zip(at, to)).get(i, i)][1:] for i, k in enumerate(kids)]
        return gap, head, '(' + ''.join(k[0] + k[2] for k in kids) + end
    out = []
    while pos < len(toks):
        g, _, t = node()
        out.append(g + t)
    return ''.join(out) + tail


def unknown(rng, known):
    """A token no version of the format knows; its name may resemble a known one."""
    k = rng.choice(known) if known else 'zzz'
    name = rng.choice(['zzz_new', 'zzz', k + '_zzz', 'zzz_' + k, k.upper() + 'Z', k + '2z'])
    return f'({name}' + rng.choice(['', ' yes', ' 0.5', ' "a-b"', ' "x" 1 (deep yes)', ' (at 1 2 3)', ' (start 1 2) (end 3 4) (layer "X")', ' 1 2 3 4']) + ')'


def relayout(text, rng, how):
    """The same content as another tool might lay it out: `how` names what changes."""
    p = rng.choice([.02, .2, 1])
    if 'order' in how:
        text = reorder(text, rng, p)
    toks, _ = tokens(text)

    def hit():
        return rng.random() < p
    out, heads = [], []
    prev = '('
    known = sorted({b[1] for a, b in zip(toks, toks[1:]) if a[1] == '(' and PLAIN.fullmatch(b[1])})
    for gap, t in toks:
        if 'space' in how and hit():
            if gap:
                gap = rng.choice(SPACES)
                if prev == ')' and t in '()' and rng.random() < .3:
                    gap = ''
            elif out and rng.random() < .5:
                gap = rng.choice(SPACES)
        if 'oneline' in how and gap:
            gap = ' '
        if t == '(':
            # among the named tokens of an item, or after the last of them
            if prev == ')' and heads and heads[-1] in NAMED and 'unknown' in how and hit():
                gap = gap + unknown(rng, known) + rng.choice([' ', '\n', ''])
            heads.append(None)
        elif t == ')':
            if heads.pop() in NAMED and 'unknown' in how and hit():
                gap = ' ' + unknown(rng, known) + gap
        elif prev == '(':
            if heads:
                heads[-1] = t
        elif 'quote' in how and hit():
            if PLAIN.fullmatch(t):
                t = f'"{t}"'
            elif t[0] == '"' and PLAIN.fullmatch(t[1:-1]):
                t = t[1:-1]
        out.append(gap)
        out.append(t)
        prev = t
    text = ''.join(out)
    if 'end' in how:
        text = text.rstrip() + rng.choice(['', '\n', '\n\n', ' ', '\r\n', '\t\n '])
    if 'start' in how:
        text = rng.choice(['\n', ' ', '\t', '\r\n']) + text
    return text


def nested(text):
    """The file as nested lists of raw tokens."""
    stack = [[]]
    for _, t in tokens(text)[0]:
        if t == '(':
            stack.append([])
        elif t == ')':
            x = stack.pop()
            stack[-1].append(x)
        else:
            stack[-1].append(t)
    return stack[0]


SAME_HEAD = {'module': 'footprint'}


def _same(a, b):
    if a == b or a.strip('"') == b.strip('"'):
        return True
    try:
        return float(a.strip('"')) == float(b.strip('"'))
    except ValueError:
        return False


def lost(a, b, where=''):
    """What of the nested lists `a` is not in `b` any more (in the same place and order), or None.  `b` may hold additional lists, and
    lists that hold nothing may be gone."""
    where += '/' + (a[0] if a and isinstance(a[0], str) else '')
    j = 0
    for i, x in enumerate(a):
        why = None
        if isinstance(x, list) and len(x) == 1:
            if j < len(b) and b[j] == x:
                j += 1
            continue
        while j < len(b):
            y = b[j]
            j += 1
            if isinstance(x, str) != isinstance(y, str):
                continue
            if isinstance(x, str):
                if _same(x, y) or i == 0 and SAME_HEAD.get(x) == y:
                    break
                return f'{where}: {x!r} became {y!r}'
            if x and y and (x[0] == y[0] or SAME_HEAD.get(x[0]) == y[0]):
                why = lost(x, y, where)
                if why is None:
                    break
        else:
            return why or f'{where}: {x if isinstance(x, str) else "(" + " ".join(map(str, x))[:80] + ")"} is gone'
    return None


def added(lists, texts, numbers, vocabulary, where=''):
    """What the nested lists hold that is neither one of the document's values nor a token or word of the format in its place, or None."""
    tokens, words = vocabulary['tokens'], vocabulary['words']
    for x in lists:
        if isinstance(x, str):
            return f'{where}: {x!r}'
        why = _added(x, texts, numbers, tokens, words, where)
        if why:
            return why
    return None


def _added(x, texts, numbers, tokens, words, where):
    head = x[0] if x and isinstance(x[0], str) else '?'
    if where.endswith('/layers') and head.lstrip('-').isdigit():
        head = '#'
    where += '/' + head
    seen = set()
    for y in x[1:]:
        if isinstance(y, list):
            k = y[0] if y and isinstance(y[0], str) else '?'
            if head == 'layers' and k.lstrip('-').isdigit():
                k = '#'
            known = tokens.get(head, {})
            if k in known.get('one', ()):
                if k in seen:
                    return f'{where}: a second ({k} ...)'
                seen.add(k)
            elif k not in known.get('many', ()):
                return f'{where}: ({k} ...)'
            why = _added(y, texts, numbers, tokens, words, where)
            if why:
                return why
        elif y[0] != '"' and y not in texts and y not in words.get(head, ()):
            try:
                if float(y) in numbers:
                    continue
            except ValueError:
                pass
            return f'{where}: {y!r}'
    return None
