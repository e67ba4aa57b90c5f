"""Document model used by every simulation.

A document is described by a plain JSON tree: the *reference model*.  The tree says which class and
which value every public field has.  `build()` turns a tree into real kiutils objects (and nothing
else knows how to), `dump()` reads the public fields of real objects back into a tree, `diff()`
compares two trees.  The generator draws trees from a seeded PRNG.  No code of kiutils is consulted
to decide what a value should be after a save and a load: it should be what the tree says.

Tree encoding
  scalar                     None / bool / int / float / str
  list                       list of trees
  {"$": "m:Class", f: tree}  object
  {"%": [[k, v], ...]}       dict (ordered)
"""

import copy
import marshal
import importlib

MODULES = {
    'c': 'kiutils.items.common', 'b': 'kiutils.items.brditems', 'g': 'kiutils.items.gritems',
    'f': 'kiutils.items.fpitems', 'z': 'kiutils.items.zones', 'd': 'kiutils.items.dimensions',
    's': 'kiutils.items.schitems', 'y': 'kiutils.items.syitems', 'F': 'kiutils.footprint',
    'B': 'kiutils.board', 'S': 'kiutils.schematic', 'Y': 'kiutils.symbol', 'w': 'kiutils.wks',
    'r': 'kiutils.dru', 'l': 'kiutils.libraries',
}

# The seven document kinds that live in files of their own
KINDS = {
    'board': 'B:Board', 'schematic': 'S:Schematic', 'footprint': 'F:Footprint',
    'symbol': 'Y:SymbolLib', 'worksheet': 'w:WorkSheet', 'dru': 'r:DesignRules',
    'libtable': 'l:LibTable',
}
KIND_NAMES = list(KINDS)
SUFFIX = {'board': '.kicad_pcb', 'schematic': '.kicad_sch', 'footprint': '.kicad_mod',
          'symbol': '.kicad_sym', 'worksheet': '.kicad_wks', 'dru': '.kicad_dru',
          'libtable': '-lib-table'}


class Lib:
    """One incarnation of the kiutils package: its classes by short name, and back."""

    def __init__(self):
        self.mods = {k: importlib.import_module(v) for k, v in MODULES.items()}
        self.by_key = {}
        self.by_cls = {}
        for key in SPEC:
            mod, name = key.split(':')
            cls = getattr(self.mods[mod], name)
            self.by_key[key] = cls
            self.by_cls.setdefault(cls, key)

    def kind(self, kind):
        return self.by_key[KINDS[kind]]


# ---------------------------------------------------------------------------------------------
# Value generators.  Each takes the generator state `g`.

UUID_CHARS = '0123456789abcdef'


class Gen:
    """Seeded generator state. `rng` is the only source of choice."""

    # plain words, words that are also keywords of the file formats, text with structure characters
    WORDS = ['R', 'C12', 'GND', 'VCC', 'net', 'F.Cu', 'B.SilkS', 'Value', 'a b', 'hello world',
             'x' * 49, 'y' * 50, 'z' * 51, '+3V3', 'A-B', '~{RESET}', '${REFERENCE}', '%R', '{0}', '#', ';',
             "it's", '100n', '/path/to', 'a/b', 'a,b', '1/2', 'None', 'True', 'nan', 'inf',
             '$HOME', '${HOME}/x.wrl', '~', '~/lib', '%PATH%', './a', '../x.step', '${KIPRJMOD}/lib', 'sheet.kicad_sch', 'a//b', 'x/']
    KEYWORDS = ['locked', 'hide', 'private', 'placed', 'yes', 'no', 'true', 'false', 'bold', 'italic',
                'mirror', 'unlocked', 'knockout', 'at', 'layer', 'uuid', 'effects', 'property', 'pts',
                'oval', 'island', 'members', 'left', 'right', 'center', 'version', 'rule', 'lib',
                'addsublayer', 'micro', 'blind', 'free', 'power', 'symbol', 'text', 'via']
    NUMLIKE = ['0', '1', '01', '00', '-1', '1.0', '1.50', '.5', '1e5', '1e-05', '0x10', '12 34', '1)', '-0']
    STRUCT = ['(', ')', '()', '((', '))', ')))', '))))))', 'a)b', '(at 0 0)', '"', 'a"b', '"q"', '"a" "b"', 'a" b',
              'a")', '")', '" ', ' "', '(a "b")', '\\n', 'a\\nb', 'C:\\x\\y', 'a\\"b', '\\t.', '^', 'a^b', '|',
              ' lead', 'trail ', '  ', ' ', 'a\nb', '\n', 'a\n\nb\n', 'tab\tx', ',', "'", '`', '=', ')(', ' )',
              '#comment', '; x', '//', '<>', '&', '*.', '[]', '{}', '@', '!', '?', '$', '"(', '("']
    UNI = ['ä', 'µF', 'Ω', '±5%', '10°', '漢字', '€', 'é(à', '“q”', '\u2028', '\x85', '\xa0', '\u3000', '😀',
           'e\u0301', '\u200b', '\x1c', '\x0c', '\x0b', '\ufeff', 'ß)', '"Ω"']

    def __init__(self, rng, encoding='utf-8', size=3, text='all', depth_budget=None):
        self.rng = rng
        self.encoding = encoding
        self.size = size          # scale of list lengths
        self.text = text          # 'all' | 'plain' | 'torn'
        self.pzero = rng.choice([0.05, 0.15, 0.3])
        self.popt = rng.choice([0.2, 0.5, 0.8])
        self.pflag = rng.choice([0.15, 0.5, 0.85])
        self.budget = depth_budget if depth_budget is not None else 400
        self.giant = rng.random() < .004    # one text or list is as large as those of real projects
        self.pdup = rng.choice([0, .1, .4])
        self.long = rng.choice([0, 1, 2, 3, 5, 8, 13, 21]) if rng.random() < .2 else None     # which list is much longer than the others

    # -- scalars
    def encodable(self, s):
        try:
            return s.encode(self.encoding).decode(self.encoding) == s
        except (UnicodeError, LookupError):
            return False

    def string(self):
        r = self.rng
        if self.text == 'plain':
            return r.choice(self.WORDS)
        k = r.random()
        if k < 0.06:
            s = ''
        elif k < 0.30:
            s = r.choice(self.WORDS)
        elif k < 0.44:
            s = r.choice(self.KEYWORDS)
        elif k < 0.52:
            s = r.choice(self.NUMLIKE)
        elif k < 0.74:
            s = r.choice(self.STRUCT)
        elif k < 0.84:
            s = r.choice(self.UNI)
        elif k < 0.97:
            s = ''.join(r.choice(r.choice([self.WORDS, self.STRUCT, self.UNI, self.KEYWORDS]))
                        for _ in range(r.randint(2, 5)))
        elif k < 0.995:
            s = ''.join(chr(r.randint(32, 126)) for _ in range(r.randint(1, 40)))
        else:
            s = r.choice(['word ', 'Ω', '(x) ', '"q" ', ')']) * r.choice([100, 700, 3000])
        if self.giant and self.text != 'plain' and r.random() < (.5 if self.giant == 'text' else .1):
            n = [150000, 200000] if self.giant == 'text' else [6000, 14000, 40000, 150000]
            self.giant = False
            s = r.choice(['some words ', 'Ωx', '(x) ', 'abcdefgh']) * r.choice(n)
        return self.clean(s)

    def clean(self, s):
        # Domain: see DESIGN.md "Domain of documents".  Text ending in a backslash and carriage
        # returns are known findings, replayed separately.
        s = s.replace('\r', '')
        while s.endswith('\\'):
            s = s[:-1]
        if not self.encodable(s):
            s = ''.join(c for c in s if self.encodable(c))
        if self.text == 'torn':
            # known finding KF-torn-escape: an escaped quote directly followed by white space or a
            # closing bracket can be taken for the end of the text
            out = []
            for i, c in enumerate(s):
                out.append(c)
                if c == '"' and i + 1 < len(s) and (s[i + 1].isspace() or s[i + 1] == ')'):
                    out.append('.')
            s = ''.join(out)
        while s.endswith('\\'):
            s = s[:-1]
        return s

    def name(self):
        """Text used as an identifier: no line breaks, no colon, never empty."""
        for _ in range(20):
            s = self.string().replace('\n', '').replace(':', '').replace('\u2028', '').replace('\x85', '')
            s = ''.join(c for c in s if c not in '\x0b\x0c\x1c')
            while s.endswith('\\'):
                s = s[:-1]
            if s:
                if self.rng.random() < .08:
                    s += self.rng.choice(['_1', '_0_1', '_12_3', '_01_2', '_1_02', '_00_0', '_a_1', '_'])
                return s
        return 'NAME'

    def num(self):
        r = self.rng
        k = r.random()
        if k < self.pzero:
            return r.choice([0, 0.0, 0, -0.0])
        if k < 0.35:
            return r.randint(-300, 300)
        if k < 0.45:
            return r.choice([1, 1.0, -1, 90, 180, 270, 45, 0.254, 2.54, 1.27, 0.1, 0.15, 10.0, 1000000, 100000000,
                             0.000001, 0.00001, -0.00001, 1e-7, 1.5e-05, 1e16, 123456.789012, 0.3, 2e+20])
        if k < 0.75:
            return round(r.uniform(-500, 500), r.randint(1, 6))
        if k < 0.8:
            return r.choice([r.uniform(-300, 300), r.random(), 0.1 + 0.2, 1 / 3, 2 / 3 * 1e-9, 99.99999999999999, 123456789.12345679])
        return r.choice([1, -1]) * r.randint(1, 10 ** 6) / 10 ** r.randint(0, 6)

    def angle(self):
        r = self.rng
        if r.random() < .15:
            return r.choice([round(r.uniform(-360, 360), r.randint(0, 6)), r.randint(-3600, 3600), 1e-06, 360])
        return r.choice([0, 90, 180, 270, -90, 45, 0.0, 22.5, 359.9, 1])

    def int(self):
        r = self.rng
        if r.random() < 0.3:
            return r.choice([0, 1, -1])
        if r.random() < .03:
            return r.choice([2 ** 31, 2 ** 32 - 1, -2 ** 31, 10 ** 12, 2 ** 53 + 1, 2 ** 63, 10 ** 15, 10 ** 17 + 1, 10 ** 22 + 1])
        return r.choice([r.randint(0, 9), r.randint(0, 255), r.randint(0, 10 ** 6), r.randint(-99, 0)])

    def uuid(self):
        r = self.rng
        h = ''.join(r.choice(UUID_CHARS) for _ in range(32))
        return f'{h[:8]}-{h[8:12]}-{h[12:16]}-{h[16:20]}-{h[20:]}'

    def flag(self):
        return self.rng.random() < self.pflag

    def opt(self, f):
        return f(self) if self.rng.random() < self.popt else None

    def count(self, lo, hi):
        top = hi
        hi = max(lo, min(hi, self.size))
        if self.budget <= 0:
            return lo
        if self.giant and self.giant != 'text' and top >= 4 and self.rng.random() < .1:
            self.giant = False
            self.budget = -1        # nested lists at their minimum
            return self.rng.choice([400, 1100, 2500])
        if self.long is not None and top >= 4:
            self.long -= 1
            if self.long < 0:
                self.long = None
                n = self.rng.choice([7, 12, 33, 70, 130])
                self.budget = max(self.budget, 40)
                return n
        n = self.rng.randint(lo, hi)
        if lo == 0 and self.rng.random() < 0.25:
            n = 0
        self.budget -= n
        return n

    def obj(self, key):
        self.budget -= 1
        return gen_obj(self, key)


# combinators -----------------------------------------------------------------------------------
def N(g): return g.num()
def A(g): return g.angle()
def I(g): return g.int()
def T(g): return g.string()
def U(g): return g.uuid()
def FLAG(g): return g.flag()
def C(v): return lambda g: v
def O(f): return lambda g: g.opt(f)
def E(*v): return lambda g: g.rng.choice(v)
def OBJ(*keys): return lambda g: g.obj(g.rng.choice(keys))
def LIST(f, lo=0, hi=4):
    def make(g):
        n = g.count(lo, hi)
        if f in CHEAP and hi >= 4 and g.rng.random() < .025:
            n = g.rng.choice([7, 12, 33, 70, 130])
        out = [f(g) for _ in range(n)]
        if out and g.rng.random() < g.pdup:
            # the same values once more
            for _ in range(g.rng.choice([1, 1, 2])):
                if len(out) < hi or hi >= 4:
                    out.insert(g.rng.randint(0, len(out)), dup(g.rng.choice(out)))
        return out
    return make


def DICT(fk, fv, hi=4):
    def f(g):
        out, seen = [], set()
        for _ in range(g.count(0, hi)):
            k = fk(g)
            if k not in seen:
                seen.add(k)
                out.append([k, fv(g)])
        return {'%': out}
    return f


def POS(angle=False, unlocked=False):
    def f(g):
        return {'$': 'c:Position', 'X': g.num(), 'Y': g.num(),
                'angle': g.opt(A) if angle == 'opt' else (g.angle() if angle else None),
                'unlocked': g.flag() if unlocked else False}
    return f


P = POS()
PA = POS('opt')
LAYER = lambda g: g.rng.choice(['F.Cu', 'B.Cu', 'Edge.Cuts', 'User.1', 'In1.Cu']) if g.rng.random() < .7 else g.string()
TS = O(U)
COLOR = OBJ('c:ColorRGBA')
LAYERSEL = E('0x00010fc_ffffffff', '0x0000000_00000000', '0x00010f0_80000001')
B64 = lambda g: 'i' + ''.join(g.rng.choice('ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/')
                        for _ in range(g.rng.choice([4, 12, 76]))) + g.rng.choice(['', '=', '=='])
HEX = lambda g: ' '.join('%02X' % g.rng.randint(0, 255) for _ in range(g.rng.randint(1, 32))) + ' '
VERSION = E(20211014, 20211123, 20220914, 20221018)
GENTOK = E('pcbnew', 'eeschema', 'kiutils', 'kicad_symbol_editor', 'pl_editor', 'my-tool_1.0')
PINTYPE = E('input', 'output', 'bidirectional', 'tri_state', 'passive', 'free', 'unspecified', 'power_in', 'power_out', 'open_collector', 'open_emitter', 'no_connect')
PINSTYLE = E('line', 'inverted', 'clock', 'inverted_clock', 'input_low', 'clock_low', 'output_low', 'edge_clock_high', 'non_logic')
SIX = lambda g: round(abs(g.num()) % 100000, 6)
CHAN = lambda g: g.rng.choice([0, 1, 255, 72, 3]) if g.rng.random() < .5 else g.rng.randint(0, 255)
ALPHA = lambda g: g.rng.choice([0, 1, 0.5, 0.0, 1.0, 0.1234]) if g.rng.random() < .6 else round(g.rng.random(), g.rng.randint(1, 12))
TEDIT = lambda g: g.rng.choice(['5F1A2B3C', '0', '1', '3b9aca00', '15752a00', '61ABCDEF', '5e123456', 'a0000000', '637a9c40', '63789012'])
CHEAP = {P, U, T, LAYER, B64}

SPEC = {
 # ---- common
 'c:Position': dict(X=N, Y=N, angle=O(A), unlocked=C(False)),
 'c:Coordinate': dict(X=N, Y=N, Z=N),
 'c:ColorRGBA': dict(R=CHAN, G=CHAN, B=CHAN, A=ALPHA, precision=C(None)),
 'c:Stroke': dict(width=N, type=O(E('default', 'dash', 'dash_dot', 'dash_dot_dot', 'dot', 'solid')), color=O(COLOR)),
 'c:Font': dict(face=O(T), height=N, width=N, thickness=O(N), bold=FLAG, italic=FLAG, lineSpacing=O(N), color=O(COLOR)),
 'c:Justify': dict(horizontally=O(E('left', 'right')), vertically=O(E('top', 'bottom')), mirror=FLAG),
 'c:Effects': dict(font=OBJ('c:Font'), justify=OBJ('c:Justify'), hide=FLAG, href=O(T)),
 'c:Net': dict(number=I, name=T),
 'c:Group': dict(name=T, locked=FLAG, id=U, members=LIST(U)),
 'c:PageSettings': dict(paperSize=E('A0', 'A1', 'A2', 'A4', 'A3', 'A5', 'USLetter', 'USLegal', 'USLedger', 'User', 'A', 'B', 'C', 'D', 'E'), width=C(None), height=C(None), portrait=FLAG),
 'c:TitleBlock': dict(title=O(T), date=O(T), revision=O(T), company=O(T), comments=DICT(E(1, 2, 3, 4, 5, 6, 7, 8, 9), T)),
 'c:Property': dict(key=T, value=T, id=O(I), position=PA, effects=O(OBJ('c:Effects')), showName=FLAG),
 'c:RenderCachePolygon': dict(pts=LIST(P, 1, 9)),
 'c:RenderCache': dict(text=T, id=E(0, 1, 90, 45), polygons=LIST(OBJ('c:RenderCachePolygon'))),
 'c:Fill': dict(type=E('none', 'outline', 'background', 'color'), color=O(COLOR)),
 'c:Image': dict(position=P, scale=O(N), data=LIST(B64), uuid=O(U), layer=O(LAYER)),
 # ---- board items
 'b:GeneralSettings': dict(thickness=N),
 'b:LayerToken': dict(ordinal=I, name=LAYER, type=E('signal', 'power', 'user', 'mixed', 'jumper'), userName=O(T)),
 'b:StackupSubLayer': dict(thickness=N, material=O(T), epsilonR=O(N), lossTangent=O(N)),
 'b:StackupLayer': dict(name=T, type=E('core', 'prepreg', 'copper', 'Top Silk Screen', 'Bottom Solder Mask'), color=O(T), thickness=O(N), material=O(T), epsilonR=O(N), lossTangent=O(N), subLayers=LIST(OBJ('b:StackupSubLayer'))),
 'b:Stackup': dict(layers=LIST(OBJ('b:StackupLayer')), copperFinish=O(T), dielectricContraints=O(E('yes', 'no')), edgeConnector=O(E('yes', 'bevelled')), castellatedPads=FLAG, edgePlating=FLAG),
 'b:PlotSettings': dict(layerSelection=LAYERSEL, plotOnAllLayersSelection=O(LAYERSEL), disableApertMacros=FLAG, useGerberExtensions=FLAG, useGerberAttributes=FLAG, useGerberAdvancedAttributes=FLAG, createGerberJobFile=FLAG, dashedLineDashRatio=O(SIX), dashedLineGapRatio=O(SIX), svgUseInch=O(FLAG), svgPrecision=I, excludeEdgeLayer=O(FLAG), plotFameRef=FLAG, viasOnMask=FLAG, mode=I, useAuxOrigin=FLAG, hpglPenNumber=I, hpglPenSpeed=I, hpglPenDiameter=SIX, dxfPolygonMode=FLAG, dxfImperialUnits=FLAG, dxfUsePcbnewFont=FLAG, psNegative=FLAG, psA4Output=FLAG, plotReference=FLAG, plotValue=FLAG, plotInvisibleText=FLAG, sketchPadsOnFab=FLAG, subtractMaskFromSilk=FLAG, outputFormat=I, mirror=FLAG, drillShape=I, scaleSelection=I, outputDirectory=T),
 'b:SetupData': dict(stackup=O(OBJ('b:Stackup')), packToMaskClearance=N, solderMaskMinWidth=O(N), padToPasteClearance=O(N), padToPasteClearanceRatio=O(N), auxAxisOrigin=O(P), gridOrigin=O(P), plotSettings=O(OBJ('b:PlotSettings'))),
 'b:Segment': dict(start=P, end=P, width=N, layer=LAYER, locked=FLAG, net=I, tstamp=U),
 'b:Via': dict(type=O(E('micro', 'blind')), locked=FLAG, position=P, size=N, drill=N, layers=LIST(LAYER), removeUnusedLayers=FLAG, keepEndLayers=FLAG, free=FLAG, net=I, tstamp=TS),
 'b:Arc': dict(start=P, mid=P, end=P, width=N, layer=LAYER, locked=FLAG, net=I, tstamp=TS),
 'b:Target': dict(type=E('plus', 'x'), position=P, size=N, width=N, layer=LAYER, tstamp=TS),
 # ---- graphics on boards
 'g:GrText': dict(text=T, knockout=FLAG, position=PA, layer=O(LAYER), effects=OBJ('c:Effects'), tstamp=TS, locked=FLAG, renderCache=O(OBJ('c:RenderCache'))),
 'g:GrTextBox': dict(locked=FLAG, text=T, start=P, end=P, pts=C([]), angle=O(A), layer=LAYER, tstamp=TS, effects=O(OBJ('c:Effects')), stroke=O(OBJ('c:Stroke')), renderCache=O(OBJ('c:RenderCache'))),
 'g:GrLine': dict(start=P, end=P, angle=O(A), layer=O(LAYER), width=N, tstamp=TS, locked=FLAG),
 'g:GrRect': dict(start=P, end=P, layer=O(LAYER), width=N, fill=O(E('none', 'solid')), tstamp=TS, locked=FLAG),
 'g:GrCircle': dict(center=P, end=P, layer=O(LAYER), width=N, fill=O(E('none', 'solid')), tstamp=TS, locked=FLAG),
 'g:GrArc': dict(start=P, mid=P, end=P, layer=O(LAYER), width=N, tstamp=TS, locked=FLAG),
 'g:GrPoly': dict(layer=O(LAYER), coordinates=LIST(P, 1, 6), width=N, fill=O(E('none', 'solid')), tstamp=TS, locked=FLAG),
 'g:GrCurve': dict(coordinates=LIST(P, 1, 4), layer=O(LAYER), width=N, tstamp=TS, locked=FLAG),
 # ---- dimensions
 'd:DimensionFormat': dict(prefix=O(T), suffix=O(T), units=I, unitsFormat=I, precision=I, overrideValue=O(T), suppressZeroes=FLAG),
 'd:DimensionStyle': dict(thickness=N, arrowLength=N, textPositionMode=I, extensionHeight=O(N), textFrame=O(I), extensionOffset=O(N), keepTextAligned=FLAG),
 'd:Dimension': dict(locked=FLAG, type=E('aligned', 'leader', 'center', 'orthogonal', 'radial'), layer=LAYER, tstamp=TS, pts=LIST(P, 1, 2), height=O(N), orientation=O(N), leaderLength=O(N), grText=O(OBJ('g:GrText')), format=O(OBJ('d:DimensionFormat')), style=OBJ('d:DimensionStyle')),
 # ---- zones
 'z:KeepoutSettings': dict(tracks=E('allowed', 'not_allowed'), vias=E('allowed', 'not_allowed'), pads=E('allowed', 'not_allowed'), copperpour=E('allowed', 'not_allowed'), footprints=E('allowed', 'not_allowed')),
 'z:FillSettings': dict(yes=FLAG, mode=O(E('hatch')), thermalGap=O(N), thermalBridgeWidth=O(N), smoothingStyle=O(E('chamfer', 'fillet')), smoothingRadius=O(N), islandRemovalMode=O(I), islandAreaMin=O(N), hatchThickness=O(N), hatchGap=O(N), hatchOrientation=O(N), hatchSmoothingLevel=O(I), hatchSmoothingValue=O(N), hatchBorderAlgorithm=O(I), hatchMinHoleArea=O(N)),
 'z:ZonePolygon': dict(coordinates=LIST(P, 1, 5)),
 'z:FilledPolygon': dict(layer=LAYER, island=FLAG, coordinates=LIST(P, 1, 5)),
 'z:FillSegments': dict(layer=LAYER, coordinates=LIST(P, 1, 5)),
 'z:Hatch': dict(style=E('none', 'edge', 'full'), pitch=N),
 'z:Zone': dict(locked=FLAG, net=I, netName=T, layers=LIST(lambda g: g.rng.choice(['F&B.Cu', '*.Cu']) if g.rng.random() < .3 else LAYER(g), 1, 3), tstamp=TS, name=O(T), hatch=OBJ('z:Hatch'), priority=O(I), connectPads=O(E('yes', 'no', 'thru_hole_only', 'full')), clearance=N, minThickness=N, filledAreasThickness=O(E('yes', 'no')), keepoutSettings=O(OBJ('z:KeepoutSettings')), fillSettings=O(OBJ('z:FillSettings')), polygons=LIST(OBJ('z:ZonePolygon')), filledPolygons=LIST(OBJ('z:FilledPolygon')), fillSegments=O(OBJ('z:FillSegments'))),
 # ---- footprints
 'f:FpText': dict(type=E('reference', 'value', 'user'), text=T, position=POS('opt', True), layer=LAYER, knockout=FLAG, hide=FLAG, effects=OBJ('c:Effects'), tstamp=TS, renderCache=O(OBJ('c:RenderCache'))),
 'f:FpLine': dict(start=P, end=P, layer=LAYER, width=N, stroke=C(None), locked=FLAG, tstamp=TS),
 'f:FpRect': dict(start=P, end=P, layer=LAYER, width=N, stroke=C(None), fill=O(E('none', 'solid')), locked=FLAG, tstamp=TS),
 'f:FpTextBox': dict(locked=FLAG, text=T, start=P, end=P, pts=C([]), angle=O(A), layer=LAYER, tstamp=TS, effects=O(OBJ('c:Effects')), stroke=O(OBJ('c:Stroke')), renderCache=O(OBJ('c:RenderCache'))),
 'f:FpCircle': dict(center=P, end=P, layer=LAYER, width=N, stroke=C(None), fill=O(E('none', 'solid')), locked=FLAG, tstamp=TS),
 'f:FpArc': dict(start=P, mid=P, end=P, layer=LAYER, width=N, stroke=C(None), locked=FLAG, tstamp=TS),
 'f:FpPoly': dict(layer=LAYER, coordinates=LIST(P, 1, 6), width=N, stroke=C(None), fill=O(E('none', 'solid')), locked=FLAG, tstamp=TS),
 'f:FpCurve': dict(coordinates=LIST(P, 1, 4), layer=LAYER, width=N, stroke=C(None), locked=FLAG, tstamp=TS),
 'F:Attributes': dict(type=O(E('smd', 'through_hole')), boardOnly=FLAG, excludeFromPosFiles=FLAG, excludeFromBom=FLAG, allowMissingCourtyard=FLAG),
 'F:Model': dict(path=T, pos=OBJ('c:Coordinate'), scale=OBJ('c:Coordinate'), rotate=OBJ('c:Coordinate'), hide=FLAG, opacity=O(N)),
 'F:DrillDefinition': dict(oval=FLAG, diameter=N, width=C(None), offset=O(P)),
 'F:PadOptions': dict(clearance=E('outline', 'convexhull'), anchor=E('rect', 'circle')),
 'F:Pad': dict(number=T, type=E('thru_hole', 'smd', 'connect', 'np_thru_hole'), shape=E('circle', 'rect', 'oval', 'trapezoid', 'roundrect', 'custom'), position=PA, locked=FLAG, size=P, drill=O(OBJ('F:DrillDefinition')), layers=LIST(lambda g: PADLAYER(g)), property=O(E('pad_prop_bga', 'pad_prop_fiducial_glob', 'pad_prop_fiducial_loc', 'pad_prop_testpoint', 'pad_prop_heatsink', 'pad_prop_castellated')), removeUnusedLayers=FLAG, keepEndLayers=FLAG, roundrectRatio=O(N), chamferRatio=O(N), chamfer=LIST(E('top_left', 'top_right', 'bottom_left', 'bottom_right')), net=O(OBJ('c:Net')), tstamp=TS, pinFunction=O(T), pinType=O(T), dieLength=O(N), solderMaskMargin=O(N), solderPasteMargin=O(N), solderPasteMarginRatio=O(N), clearance=O(N), zoneConnect=O(E(0, 1, 2, 3)), thermalWidth=O(N), thermalGap=O(N), customPadOptions=O(OBJ('F:PadOptions')), customPadPrimitives=LIST(OBJ('g:GrLine', 'g:GrRect', 'g:GrCircle', 'g:GrArc', 'g:GrPoly', 'g:GrCurve', 'g:GrText', 'g:GrTextBox'))),
 'F:Footprint': dict(libraryNickname=O(lambda g: g.name()), entryName=lambda g: g.name(), version=O(VERSION), generator=O(GENTOK), locked=FLAG, placed=FLAG, layer=LAYER, tedit=O(TEDIT), tstamp=TS, position=O(PA), description=O(T), tags=O(T), properties=DICT(T, T), path=O(T), autoplaceCost90=O(I), autoplaceCost180=O(I), solderMaskMargin=O(N), solderPasteMargin=O(N), solderPasteRatio=O(N), clearance=O(N), zoneConnect=O(E(0, 1, 2, 3)), thermalWidth=O(N), thermalGap=O(N), attributes=OBJ('F:Attributes'), privateLayers=LIST(LAYER), netTiePadGroups=LIST(T), graphicItems=LIST(OBJ('f:FpText', 'f:FpLine', 'f:FpRect', 'f:FpTextBox', 'f:FpCircle', 'f:FpArc', 'f:FpPoly', 'f:FpCurve', 'c:Image'), 0, 6), pads=LIST(OBJ('F:Pad')), zones=LIST(OBJ('z:Zone')), groups=LIST(OBJ('c:Group')), models=LIST(OBJ('F:Model'))),
 'B:Board': dict(version=VERSION, generator=GENTOK, general=OBJ('b:GeneralSettings'), paper=OBJ('c:PageSettings'), titleBlock=O(OBJ('c:TitleBlock')), layers=LIST(OBJ('b:LayerToken')), setup=OBJ('b:SetupData'), properties=DICT(T, T), nets=LIST(OBJ('c:Net')), footprints=LIST(OBJ('F:Footprint'), 0, 2), graphicItems=LIST(OBJ('g:GrText', 'g:GrTextBox', 'g:GrLine', 'g:GrRect', 'g:GrCircle', 'g:GrArc', 'g:GrPoly', 'g:GrCurve', 'c:Image'), 0, 6), traceItems=LIST(OBJ('b:Segment', 'b:Via', 'b:Arc'), 0, 6), zones=LIST(OBJ('z:Zone')), dimensions=LIST(OBJ('d:Dimension')), targets=LIST(OBJ('b:Target')), groups=LIST(OBJ('c:Group'))),
 # ---- schematic
 's:Junction': dict(position=P, diameter=N, color=COLOR, uuid=O(U)),
 's:NoConnect': dict(position=P, uuid=O(U)),
 's:BusEntry': dict(position=P, uuid=O(U), size=P, stroke=OBJ('c:Stroke')),
 's:BusAlias': dict(name=T, members=LIST(T)),
 's:Connection': dict(type=E('wire', 'bus'), points=LIST(P, 0, 4), stroke=OBJ('c:Stroke'), uuid=O(U)),
 's:PolyLine': dict(points=LIST(P, 0, 5), stroke=OBJ('c:Stroke'), uuid=O(U)),
 's:Text': dict(text=T, position=PA, effects=OBJ('c:Effects'), uuid=O(U)),
 's:TextBox': dict(text=T, position=PA, size=P, stroke=OBJ('c:Stroke'), fill=OBJ('c:Fill'), effects=OBJ('c:Effects'), uuid=O(U)),
 's:LocalLabel': dict(text=T, position=PA, effects=OBJ('c:Effects'), uuid=O(U), fieldsAutoplaced=FLAG),
 's:GlobalLabel': dict(text=T, shape=E('input', 'output', 'bidirectional', 'tri_state', 'passive'), fieldsAutoplaced=FLAG, position=PA, effects=OBJ('c:Effects'), uuid=O(U), properties=LIST(OBJ('c:Property'))),
 's:HierarchicalLabel': dict(text=T, shape=E('input', 'output', 'bidirectional', 'tri_state', 'passive'), position=PA, effects=OBJ('c:Effects'), uuid=O(U), fieldsAutoplaced=FLAG),
 's:SymbolProjectPath': dict(sheetInstancePath=T, reference=T, unit=I),
 's:SymbolProjectInstance': dict(name=T, paths=LIST(OBJ('s:SymbolProjectPath'))),
 's:SchematicSymbol': dict(libraryNickname=O(lambda g: g.name()), entryName=lambda g: g.name(), libName=O(T), position=PA, unit=O(I), inBom=FLAG, onBoard=FLAG, dnp=O(FLAG), fieldsAutoplaced=FLAG, uuid=lambda g: g.uuid() if g.rng.random() < .8 else '', properties=LIST(OBJ('c:Property')), pins=DICT(T, U), mirror=O(E('x', 'y')), instances=LIST(OBJ('s:SymbolProjectInstance'))),
 's:HierarchicalPin': dict(name=T, connectionType=E('input', 'output', 'bidirectional', 'tri_state', 'passive'), position=PA, effects=OBJ('c:Effects'), uuid=O(U)),
 's:HierarchicalSheetProjectPath': dict(sheetInstancePath=T, page=T),
 's:HierarchicalSheetProjectInstance': dict(name=T, paths=LIST(OBJ('s:HierarchicalSheetProjectPath'))),
 's:HierarchicalSheet': dict(position=P, width=N, height=N, fieldsAutoplaced=FLAG, stroke=OBJ('c:Stroke'), fill=COLOR, uuid=O(U), sheetName=OBJ('c:Property'), fileName=OBJ('c:Property'), properties=LIST(OBJ('c:Property')), pins=LIST(OBJ('s:HierarchicalPin')), instances=LIST(OBJ('s:HierarchicalSheetProjectInstance'))),
 's:HierarchicalSheetInstance': dict(instancePath=T, page=T),
 's:SymbolInstance': dict(path=T, reference=T, unit=I, value=T, footprint=T),
 's:Rectangle': dict(start=P, end=P, stroke=OBJ('c:Stroke'), fill=OBJ('c:Fill'), uuid=O(U)),
 's:Arc': dict(start=P, mid=P, end=P, stroke=OBJ('c:Stroke'), fill=OBJ('c:Fill'), uuid=O(U)),
 's:Circle': dict(center=P, radius=N, stroke=OBJ('c:Stroke'), fill=OBJ('c:Fill'), uuid=O(U)),
 's:NetclassFlag': dict(text=T, length=N, shape=E('round', 'dot', 'diamond', 'rectangle'), position=PA, effects=OBJ('c:Effects'), properties=LIST(OBJ('c:Property')), uuid=O(U), fieldsAutoplaced=FLAG),
 'S:Schematic': dict(version=VERSION, generator=GENTOK, uuid=O(U), paper=OBJ('c:PageSettings'), titleBlock=O(OBJ('c:TitleBlock')), libSymbols=LIST(OBJ('Y:Symbol'), 0, 2), schematicSymbols=LIST(OBJ('s:SchematicSymbol')), junctions=LIST(OBJ('s:Junction')), noConnects=LIST(OBJ('s:NoConnect')), busEntries=LIST(OBJ('s:BusEntry')), busAliases=LIST(OBJ('s:BusAlias')), graphicalItems=LIST(OBJ('s:Connection', 's:PolyLine')), shapes=LIST(OBJ('s:Rectangle', 's:Arc', 's:Circle')), images=LIST(OBJ('c:Image')), texts=LIST(OBJ('s:Text')), textBoxes=LIST(OBJ('s:TextBox')), labels=LIST(OBJ('s:LocalLabel')), globalLabels=LIST(OBJ('s:GlobalLabel')), hierarchicalLabels=LIST(OBJ('s:HierarchicalLabel')), netclassFlags=LIST(OBJ('s:NetclassFlag')), sheets=LIST(OBJ('s:HierarchicalSheet')), sheetInstances=LIST(OBJ('s:HierarchicalSheetInstance')), symbolInstances=LIST(OBJ('s:SymbolInstance'))),
 # ---- symbols
 'y:SyArc': dict(private=FLAG, start=PA, mid=PA, end=PA, stroke=OBJ('c:Stroke'), fill=OBJ('c:Fill')),
 'y:SyCircle': dict(private=FLAG, center=P, radius=N, stroke=OBJ('c:Stroke'), fill=OBJ('c:Fill')),
 'y:SyCurve': dict(points=LIST(P, 0, 4), stroke=OBJ('c:Stroke'), fill=OBJ('c:Fill')),
 'y:SyPolyLine': dict(points=LIST(P, 0, 5), stroke=OBJ('c:Stroke'), fill=OBJ('c:Fill')),
 'y:SyRect': dict(private=FLAG, start=P, end=P, stroke=OBJ('c:Stroke'), fill=OBJ('c:Fill')),
 'y:SyText': dict(text=T, position=PA, effects=OBJ('c:Effects')),
 'y:SyTextBox': dict(text=T, private=FLAG, position=PA, size=P, stroke=OBJ('c:Stroke'), fill=OBJ('c:Fill'), effects=OBJ('c:Effects'), uuid=O(U)),
 'Y:SymbolAlternativePin': dict(pinName=T, electricalType=PINTYPE, graphicalStyle=PINSTYLE),
 'Y:SymbolPin': dict(electricalType=PINTYPE, graphicalStyle=PINSTYLE, position=PA, length=N, name=T, nameEffects=O(OBJ('c:Effects')), number=T, numberEffects=O(OBJ('c:Effects')), hide=FLAG, alternatePins=LIST(OBJ('Y:SymbolAlternativePin'))),
 'Y:Symbol': dict(libraryNickname=O(lambda g: g.name()), entryName=lambda g: g.name(), unitId=C(None), styleId=C(None), extends=O(T), hidePinNumbers=FLAG, pinNames=FLAG, pinNamesHide=C(False), pinNamesOffset=C(None), inBom=O(FLAG), onBoard=O(FLAG), isPower=FLAG, properties=LIST(OBJ('c:Property')), graphicItems=LIST(lambda g: SYGRAPHIC(g)), pins=LIST(OBJ('Y:SymbolPin')), units=C([])),
 'Y:SymbolLib': dict(version=VERSION, generator=O(GENTOK), symbols=LIST(OBJ('Y:Symbol'), 0, 3)),
 # ---- worksheets
 'w:WksFontSize': dict(width=N, height=N),
 'w:WksFont': dict(linewidth=O(N), size=O(OBJ('w:WksFontSize')), bold=FLAG, italic=FLAG),
 'w:WksPosition': dict(X=N, Y=N, corner=O(E('ltcorner', 'lbcorner', 'rbcorner', 'rtcorner'))),
 'w:Line': dict(name=T, start=OBJ('w:WksPosition'), end=OBJ('w:WksPosition'), option=O(E('page1only', 'notonpage1')), lineWidth=O(N), repeat=O(I), incrx=O(N), incry=O(N), comment=O(T)),
 'w:Rect': dict(name=T, start=OBJ('w:WksPosition'), end=OBJ('w:WksPosition'), option=O(E('page1only', 'notonpage1')), lineWidth=O(N), repeat=O(I), incrx=O(N), incry=O(N), comment=O(T)),
 'w:Bitmap': dict(name=T, position=OBJ('w:WksPosition'), option=O(E('page1only', 'notonpage1')), scale=N, repeat=O(I), incrx=O(N), incry=O(N), comment=O(T), pngdata=LIST(HEX)),
 'w:TbText': dict(text=T, name=T, position=OBJ('w:WksPosition'), option=O(E('page1only', 'notonpage1')), rotate=O(N), font=OBJ('w:WksFont'), justify=O(lambda g: JUST(g)), maxlen=O(N), maxheight=O(N), repeat=O(I), incrx=O(N), incry=O(N), incrlabel=O(I), comment=O(T)),
 'w:TextSize': dict(width=N, height=N),
 'w:Setup': dict(textSize=OBJ('w:TextSize'), lineWidth=N, textLineWidth=N, leftMargin=N, rightMargin=N, topMargin=N, bottomMargin=N),
 'w:WorkSheet': dict(version=VERSION, generator=GENTOK, setup=OBJ('w:Setup'), drawingObjects=LIST(OBJ('w:Line', 'w:Rect', 'w:TbText', 'w:Bitmap'), 0, 6)),
 # ---- design rules
 'r:Constraint': dict(type=E('annular_width', 'clearance', 'courtyard_clearance', 'diff_pair_gap', 'diff_pair_uncoupled', 'disallow', 'edge_clearance', 'hole', 'hole_size', 'hole_clearance', 'hole_to_hole', 'length', 'silk_clearance', 'skew', 'track_width', 'via_count', 'via_diameter', 'zone_connection', 'min_resolved_spokes'), min=O(T), opt=O(T), max=O(T), elements=LIST(E('track', 'via', 'micro_via', 'buried_via', 'pad', 'zone', 'text', 'graphic', 'hole', 'footprint'))),
 'r:Rule': dict(name=T, constraints=LIST(OBJ('r:Constraint')), condition=T, layer=O(T), severity=O(E('error', 'warning', 'ignore', 'exclusion'))),
 'r:DesignRules': dict(version=E(1, 20200610), rules=LIST(OBJ('r:Rule'), 0, 5)),
 # ---- library tables
 'l:Library': dict(name=T, type=T, uri=T, options=T, description=T, active=FLAG),
 'l:LibTable': dict(type=E('sym_lib_table', 'fp_lib_table'), libs=LIST(OBJ('l:Library'), 0, 6)),
}


def PADLAYER(g):
    if g.rng.random() < .4:
        return g.rng.choice(['*.Cu', '*.Mask', 'F&B.Cu', '*.Paste'])
    s = LAYER(g)
    return s.replace('*.', '').replace('&', '')


def SYGRAPHIC(g):
    return g.obj(g.rng.choice(['y:SyArc', 'y:SyCircle', 'y:SyCurve', 'y:SyPolyLine', 'y:SyRect', 'y:SyText', 'y:SyTextBox']))


def JUST(g):
    j = g.obj('c:Justify')
    if j['horizontally'] is None and j['vertically'] is None and not j['mirror']:
        j['horizontally'] = g.rng.choice(['left', 'right', 'center'])
    return j


# Fields that are not compared: they are not part of what a file stores (`precision` is a printing
# hint, `filePath` is modelled by the checks themselves).
UNSTORED = {('c:ColorRGBA', 'precision')}
# Fields documented as text that hold a bare number in the file and come back as a number
LOOSE = {('B:Board', 'version'), ('S:Schematic', 'version'), ('F:Footprint', 'version'),
         ('Y:SymbolLib', 'version'), ('w:WorkSheet', 'version'), ('r:DesignRules', 'version')}


def gen_obj(g, key):
    t = {'$': key}
    for name, f in SPEC[key].items():
        t[name] = f(g)
    fix = POST.get(key)
    if fix:
        fix(g, t)
    return t


def _post_page(g, t):
    if t['paperSize'] == 'User':
        t['width'], t['height'] = abs(g.num()) + 1, abs(g.num()) + 1
    elif g.rng.random() < .2:
        s = g.string()
        if s not in ('portrait', 'User'):
            t['paperSize'] = s


def _post_textbox(g, t):
    # A box is given by two corners at right angles, or by four corner points
    if t['angle'] is not None and t['angle'] not in (0.0, 90.0, 180.0, 270.0):
        t['pts'] = [P(g) for _ in range(4)]
        if g.rng.random() < .5:
            t['start'] = t['end'] = None
    elif g.rng.random() < .2:
        t['pts'] = [P(g) for _ in range(4)]


def _post_stroke(g, t):
    # a line style is given either as a bare width or as a stroke
    k = g.rng.random()
    if k < .4:
        t['width'], t['stroke'] = None, g.obj('c:Stroke')


def _post_drill(g, t):
    if t['oval']:
        t['width'] = g.num()


def _post_symbol(g, t):
    if t['pinNames']:
        t['pinNamesHide'] = g.flag()
        t['pinNamesOffset'] = g.opt(N)
    units = []
    for _ in range(g.count(0, 3)):
        u = {'$': 'Y:Symbol', 'libraryNickname': None, 'entryName': t['entryName'],
             'unitId': g.rng.choice([0, 1, 2, 9, 10, 12, 100, 120, 1000]), 'styleId': g.rng.choice([0, 1, 2, 3, 10, 11, 100]),
             'extends': None, 'hidePinNumbers': g.rng.random() < .1, 'pinNames': g.rng.random() < .1, 'pinNamesHide': False,
             'pinNamesOffset': None, 'inBom': None, 'onBoard': None, 'isPower': False,
             'properties': [], 'graphicItems': [SYGRAPHIC(g) for _ in range(g.count(0, 3))],
             'pins': [g.obj('Y:SymbolPin') for _ in range(g.count(0, 3))], 'units': []}
        units.append(u)
    t['units'] = units


def _post_sheet(g, t):
    t['fill']['A'] = round(t['fill']['A'], 4)       # a loaded sheet asks for four digits (`precision`)
    old = g.flag()
    t['sheetName']['key'] = 'Sheet name' if old else 'Sheetname'
    t['fileName']['key'] = 'Sheet file' if old else 'Sheetfile'
    for p in t['properties']:
        if p['key'] in ('Sheet name', 'Sheetname', 'Sheet file', 'Sheetfile'):
            p['key'] = 'other'


def _post_grtext(g, t):
    if t['layer'] is None:
        t['knockout'] = False


POST = {'c:PageSettings': _post_page, 'g:GrTextBox': _post_textbox, 'f:FpTextBox': _post_textbox,
        'f:FpLine': _post_stroke, 'f:FpRect': _post_stroke, 'f:FpCircle': _post_stroke,
        'f:FpArc': _post_stroke, 'f:FpPoly': _post_stroke, 'f:FpCurve': _post_stroke,
        'F:DrillDefinition': _post_drill, 'Y:Symbol': _post_symbol, 's:HierarchicalSheet': _post_sheet,
        'g:GrText': _post_grtext}


def gen_doc(g, kind):
    t = gen_obj(g, KINDS[kind])
    if kind == 'footprint' or kind == 'symbol':
        pass
    return t


# ---------------------------------------------------------------------------------------------
def build(lib, t):
    """Tree -> real objects."""
    if isinstance(t, list):
        return [build(lib, x) for x in t]
    if isinstance(t, dict):
        if '%' in t:
            return {k: build(lib, v) for k, v in t['%']}
        o = lib.by_key[t['$']]()
        for k, v in t.items():
            if k != '$':
                setattr(o, k, build(lib, v))
        return o
    return t


def dump(lib, o):
    """Real objects -> tree, reading only the public fields named in SPEC."""
    if isinstance(o, (list, tuple)):
        return [dump(lib, x) for x in o]
    if isinstance(o, dict):
        return {'%': [[k, dump(lib, v)] for k, v in o.items()]}
    if o is None or isinstance(o, (bool, int, float, str)):
        return o
    key = lib.by_cls.get(type(o))
    if key is None:
        return {'$': f'?{type(o).__module__}.{type(o).__qualname__}', 'repr': repr(o)[:80]}
    t = {'$': key}
    for name in SPEC[key]:
        t[name] = dump(lib, getattr(o, name, '<missing>'))
    return t


def _is_num(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool)


def diff(a, b, path=''):
    """First difference between the expected tree `a` and the observed tree `b`, or None."""
    try:
        if marshal.dumps(a, 2) == marshal.dumps(b, 2):
            return None
    except ValueError:
        pass
    return _diff(a, b, path)


def dup(t):
    """A copy of a tree."""
    return marshal.loads(marshal.dumps(t, 2))


def _diff(a, b, path):
    if isinstance(a, dict) and isinstance(b, dict):
        if '%' in a or '%' in b:
            x, y = a.get('%'), b.get('%')
            if x is None or y is None:
                return f'{path}: {short(a)} became {short(b)}'
            if len(x) != len(y):
                return f'{path}: {len(x)} entries became {len(y)}: {short(a)} -> {short(b)}'
            for (k1, v1), (k2, v2) in zip(x, y):
                d = _diff(k1, k2, f'{path}<key>') or _diff(v1, v2, f'{path}[{k1!r}]')
                if d:
                    return d
            return None
        if a.get('$') != b.get('$'):
            return f'{path}: {a.get("$")} became {b.get("$")}'
        for k in SPEC.get(a['$'], a):
            if k == '$' or (a['$'], k) in UNSTORED:
                continue
            if (a['$'], k) in LOOSE:
                if str(a.get(k)) != str(b.get(k)):
                    return f'{path}.{k}: {a.get(k)!r} became {b.get(k)!r}'
                continue
            d = _diff(a.get(k), b.get(k), f'{path}.{k}')
            if d:
                return d
        return None
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return f'{path}: {len(a)} items became {len(b)}'
        for i, (x, y) in enumerate(zip(a, b)):
            d = _diff(x, y, f'{path}[{i}]')
            if d:
                return d
        return None
    if _is_num(a) and _is_num(b):
        return None if a == b else f'{path}: {a!r} became {b!r}'
    if type(a) is type(b) and a == b:
        return None
    return f'{path}: {short(a)} became {short(b)}'


def short(x):
    s = repr(x)
    return s if len(s) < 100 else s[:97] + '...'


def count_nodes(t):
    if isinstance(t, list):
        return sum(count_nodes(x) for x in t)
    if isinstance(t, dict):
        if '%' in t:
            return 1 + sum(count_nodes(v) for _, v in t['%'])
        return 1 + sum(count_nodes(v) for k, v in t.items() if k != '$')
    return 0


def classes_of(t, acc=None):
    acc = set() if acc is None else acc
    if isinstance(t, list):
        for x in t:
            classes_of(x, acc)
    elif isinstance(t, dict):
        if '$' in t:
            acc.add(t['$'])
        for k, v in t.items():
            if k == '%':
                for _, w in v:
                    classes_of(w, acc)
            elif k != '$':
                classes_of(v, acc)
    return acc
