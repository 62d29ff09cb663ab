"""Texts for the bounded differential runs: well-formed statements of both formats in
unusual spellings, with some noise, steered per property and seeded with the literals
that occur in the source."""
import decimal
import fractions
import os
import random
import re
import struct
import hints


def mine(repo):
    """The literals of the non-test sources: integers, strings, characters."""
    ints, strs, floats = set(), set(), set()
    for d, ds, fs in os.walk(os.path.join(repo, 'src')):
        ds[:] = [x for x in ds if x not in ('test', 'tests')]
        for f in fs:
            if not f.endswith('.rs'):
                continue
            try:
                t = open(os.path.join(d, f), encoding='utf-8').read()
            except (OSError, UnicodeDecodeError):
                continue
            t = re.sub(r'//[^\n]*', '', t)
            for m in re.finditer(r'(?<![\w.])(0x[0-9a-fA-F_]+|\d[\d_]*)(?:[iu](?:8|16|32|64|size))?(?![\w.])', t):
                try:
                    ints.add(int(m.group(1).replace('_', ''), 0))
                except ValueError:
                    pass
            for m in re.finditer(r'(?<![\w.])(\d[\d_]*\.[\d_]*(?:[eE][+-]?\d+)?|\d[\d_]*[eE][+-]?\d+)(?:_?f(?:32|64))?', t):
                try:
                    x = float(m.group(1).replace('_', ''))
                    if x < 1e39:
                        floats.add(x)
                except ValueError:
                    pass
            for m in re.finditer(r'b?"((?:[^"\\\n]|\\.)*)"', t):
                s = m.group(1)
                if len(s) <= 24 and '{' not in s:
                    try:
                        strs.add(s.encode().decode('unicode_escape') if '\\' in s else s)
                    except UnicodeDecodeError:
                        pass
            for m in re.finditer(r"b?'([^'\\\n]|\\.|\\x[0-9a-fA-F]{2}|\\u\{[0-9a-fA-F]+\})'", t):
                s = m.group(1)
                if s.startswith('\\u{'):
                    strs.add(chr(int(s[3:-1], 16)))
                elif s.startswith('\\'):
                    strs.add({'n': '\n', 'r': '\r', 't': '\t', '\\': '\\', "'": "'", '0': '\0'}.get(s[1], s[1]))
                else:
                    strs.add(s)
    ints |= {1 << k for k in (7, 8, 10, 12, 15, 16)} & ints
    return sorted(i for i in ints if i < 1 << 64), sorted(s for s in strs if s), sorted(floats)


OBJ_KW = ['v', 'vn', 'vt', 'vp', 'f', 'l', 'p', 'g', 'o', 's', 'usemtl', 'mtllib', 'usemap', 'maplib', 'bevel', 'c_interp',
          'd_interp', 'lod', 'shadow_obj', 'trace_obj']
MTL_KW = ['newmtl', 'Ka', 'Kd', 'Ks', 'Ke', 'Ns', 'd', 'Tr', 'Tf', 'sharpness', 'Ni', 'illum', 'map_Ka', 'map_Kd', 'map_Ks',
          'map_Ns', 'map_d', 'map_disp', 'disp', 'decal', 'bump', 'refl', 'map_aat', 'spectral', 'xyz', '-halo', '-type',
          '-texres', '-blendu', '-blendv', '-boost', '-clamp', '-imfchan', '-bm', '-cc', '-mm', '-o', '-s', '-t']
WORDS = ['a', 'b', 'cube', 'Left_Side', 'default', 'wood', 'x.mtl', 'lib/two.mtl', 'on', 'off', 'On', 'OFF', 'oN', 'offset', 'one',
         'null', 'gold', 'é', 'naïve', '木', 'a-b', 'm', 'r', 'z', 'sphere', 'cube_top', 'tex.png', 'T', 'off1', 'no', 'true', 'veil',
         'fog', 'glass', 'Keyboard', 'defaults', 'K', 'ſ', 'İ', 'd_x', 'a#b', 'a/b', 'a\\b', '_1', 'name.with.dots', "q'uote"]
OBJ_ONLY_WORDS = ['a b', 'two words', 'a  b', 'a\tb', 'cube #1', 'b v', 'x ', 'off on', 'on ', ' a', 'f 1', 'aa g']


ODD = list('\u2028\u2029\x85\x0b\x0c\0\x1f\x7f\t\xa0\u3000\ufeff\u200d\u0301\u212a\u017f\u0130\u00df\ud7ff\U0001f600"\'\\#/;,:.!*=()[]{}<>|~^%&$@`?')


class Gen:
    def __init__(self, seed, ints=(), strs=(), focus=None, floats=(), hints=None):
        self.r = random.Random(seed)
        self.ints = [i for i in ints]
        self.floats = list(floats)
        self.hints = hints or {}
        self.strs = [s for s in strs if '\n' not in s and '\r' not in s]
        self.f = focus or {}
        self.size = 0

    def p(self, x):
        return self.r.random() < x

    # ---- lexical pieces
    def word(self, obj):
        r = self.r
        k = r.random()
        if k < 0.45:
            return r.choice(['a', 'b', 'c', 'cube', 'wood', 'default', 'm1'])
        if k < 0.8:
            return r.choice(WORDS)
        if k < 0.87 and obj:
            return r.choice(OBJ_ONLY_WORDS)
        if k < 0.94 and self.strs:
            s = r.choice(self.strs).strip()
            s += r.choice(['', '', 'x', '_', s[:1]])
            if r.random() < 0.3:
                s = r.choice('abg_') + s
            if s and (obj or ' ' not in s) and not re.match(r'[\s/#+\-.\d]', s):
                return s
        if k < 0.95:
            c = self.odd()
            s = r.choice(['a', 'xy', 'é', 'tex']) + c + r.choice(['', '', 'b', '1', c])
            if obj or not s[-1].isspace():
                return s
        if k < 0.96 and self.ints:
            n = r.choice(self.ints) + r.choice([-1, 0, 1])
            if 0 < n < 3000:
                return r.choice(['a', 'xy', 'é']) * (n // 2 + 1) if r.random() < 0.3 else 'n' * n
        return ''.join(r.choice('abcdefghijklmnopqrstuvwxyzABCDEFXYZ_') for _ in range(r.randint(1, 9)))

    def onoff(self):
        r = self.r
        return r.choice(['on', 'off', 'on', 'off', 'ON', 'Off', 'oN', 'OFF', 'On', 'oFF', 'yes', 'onn', 'o', 'of'])

    def sgn(self, s):
        k = self.r.random()
        return s if k < 0.7 else '-' + s if k < 0.9 else '+' + s

    def int_(self):
        r = self.r
        k = r.random()
        if k < 0.5:
            s = str(r.randint(0, 12))
        elif k < 0.7:
            s = str(r.randint(0, 100000))
        elif k < 0.8 and self.ints:
            s = str(max(0, r.choice(self.ints) + r.choice([-1, 0, 1])))
        elif k < 0.88:
            s = str(r.choice([2147483647, 2147483648, 2147483649, 2147483646, 65535, 65536, 16777217, 99999999, 4294967296, 255, 256, 100, 101]))
        elif k < 0.94:
            s = '0' * r.randint(1, 3) + str(r.randint(0, 99))
        elif k < 0.97:
            s = str(r.randint(0, 1 << r.randint(1, 70)))
        elif k < 0.99:
            s = str((1 << r.randint(1, 40)) + r.choice([-1, 0, 0, 1]))
        else:
            s = r.choice(['', '', '0']) + str((1 << r.randint(40, 140)) + r.choice([-1, 0, 1]))
        return self.sgn(s)

    def idx(self):
        r = self.r
        k = r.random()
        if k < 0.7:
            return str(r.randint(1, 9))
        if k < 0.85:
            return str(-r.randint(1, 9))
        s = self.int_()
        if -(1 << 31) <= int(s) < 1 << 31:
            return s
        return r.choice(['7', '-2147483648', '2147483647'])

    def digits(self, n):
        return ''.join(self.r.choice('0123456789') for _ in range(n))

    def float_(self):
        r = self.r
        k = r.random()
        if k < 0.45:
            s = '%s.%s' % (self.digits(r.randint(1, 3)), self.digits(r.randint(1, 6)))
        elif k < 0.53:
            s = '.' + self.digits(r.randint(1, 4))
        elif k < 0.6:
            s = self.digits(r.randint(1, 4)) + '.'
        elif k < 0.9:
            m = r.choice([self.digits(r.randint(1, 3)), '%s.%s' % (self.digits(1), self.digits(r.randint(1, 5))),
                          '.' + self.digits(2), self.digits(2) + '.'])
            s = m + r.choice('eeE') + r.choice(['', '+', '-', '-']) + str(r.choice([0, 1, 2, 3, 5, 7, 10, 20, 37, 38, 39, 45, 46, 60]))
        elif k < 0.92:
            s = self.beside_middle()
        elif k < 0.95 and self.ints:
            s = str(r.choice(self.ints)) + r.choice(['.0', '.', '.5', 'e0', 'e1'])
        else:
            s = self.digits(r.randint(8, 40)) + '.' + self.digits(r.randint(1, 30))
        return self.sgn(s)

    def beside_middle(self):
        """A decimal just beside the middle of two neighbouring f32 values."""
        r = self.r
        bits = (r.choice([127, 127, 128, 126, 130, 120, 150, 100, r.randint(1, 253)]) << 23) + r.choice([0, 1, r.randrange(1 << 23)])
        a, b = (fractions.Fraction(struct.unpack('<f', struct.pack('<I', bits + d))[0]) for d in (0, 1))
        m = (a + b) / 2
        m *= 1 + fractions.Fraction(r.choice([0, 1, -1, 1, -1]), 10 ** r.choice([8, 12, 17, 18, 20, 25]))
        with decimal.localcontext() as c:
            c.prec = r.choice([17, 21, 30, 60])
            d = decimal.Decimal(m.numerator) / decimal.Decimal(m.denominator)
        s = format(d, 'f') if abs(d.adjusted()) < 12 else format(d, 'e')
        return s if '.' in s or 'e' in s.lower() else s + '.'

    def num(self):
        k = self.r.random()
        plain = self.f.get('plain', 0.4)
        if k < plain:
            return self.r.choice(['0', '1', '0.5', '1.0', '0.25', '-1', '2.5', '-0.75', '3'])
        if self.floats and self.p(0.08):
            x = self.r.choice(self.floats)
            x += self.r.choice([0, 0, 1, -1, x / 2, -x / 2, x / 1000, -x / 1000])
            return self.sgn('%.10g' % abs(x) if abs(x) < 1e9 else '%.8e' % abs(x))
        return self.float_() if self.p(0.6) else self.int_()

    def sp(self):
        if self.p(1 - self.f.get('space', 0.15)):
            return ' '
        return self.r.choice(['  ', '\t', ' \t ', '   ', '\t\t', '\n', '\r\n', ' \n ', '\r'])

    def kw(self, w):
        k = self.r.random()
        if k < 1 - self.f.get('case', 0.12):
            return w
        return self.r.choice([w.upper(), w.lower(), w.capitalize(), ''.join(c.upper() if self.p(0.5) else c for c in w)])

    # ---- statements of model files
    def st_obj(self, k):
        r = self.r
        S = self.sp
        kw = self.kw(k)
        if k in ('v', 'vn', 'vt', 'vp'):
            n = {'v': r.choice([3, 3, 3, 4]), 'vn': 3, 'vt': r.choice([1, 2, 2, 3]), 'vp': r.choice([1, 2, 3])}[k]
            return kw + ''.join(S() + self.num() for _ in range(n))
        if k == 'f':
            out = []
            for _ in range(self.count(3)):
                a = self.idx()
                form = r.random()
                if form < 0.35:
                    out.append(a)
                elif form < 0.5:
                    out.append(a + '/' + self.idx())
                elif form < 0.75:
                    out.append(a + '/' + self.idx() + '/' + self.idx())
                elif form < 0.93:
                    out.append(a + '//' + self.idx())
                else:
                    out.append(r.choice([a + '/', a + '//', a + ' / ' + self.idx(), a + '/' + self.idx() + '/', a + '/ ' + self.idx() + ' /' + self.idx()]))
            return kw + ''.join(S() + x for x in out)
        if k == 'l':
            out = [self.idx() + (('/' + (self.idx() if self.p(0.9) else '')) if self.p(0.4) else '') for _ in range(self.count(2))]
            return kw + ''.join(S() + x for x in out)
        if k == 'p':
            return kw + ''.join(S() + self.idx() for _ in range(self.count(1)))
        if k == 's':
            return kw + S() + (r.choice(['off', 'on', 'OFF', 'On', '0', '1', '2', 'none']) if self.p(0.5) else self.idx())
        if k == 'o':
            return kw + S() + (self.idx() if self.p(0.2) else self.word(True))
        if k == 'lod':
            return kw + S() + (self.idx() if self.p(0.5) else r.choice(['0', '99', '100', '101', '-1', '50', '255', '256', '300', '1000', '-300']))
        if k in ('bevel', 'c_interp', 'd_interp'):
            return kw + S() + self.onoff()
        if k in ('g', 'mtllib', 'maplib'):
            w = self.word(True)
            # several names can only come as several string tokens: on consecutive lines
            for _ in range(min(60, self.count(0)) if self.p(0.5) else 0):
                w2 = self.word(True)
                w += r.choice(['\n', '\r\n', '\n ', '\n\n']) + w2
            return kw + S() + w
        if k in ('usemtl', 'usemap', 'shadow_obj', 'trace_obj'):
            return kw + S() + self.word(True)
        return k

    def count(self, lo):
        r = self.r
        k = r.random()
        if k < 0.9:
            return lo + r.choice([0, 0, 0, 1, 1, 2, 3, 5])
        if k < 0.96 and self.ints:
            n = r.choice(self.ints) + r.choice([-1, 0, 1])
            if 0 < n <= 600 and self.size < 2000:
                self.size += n
                return n
        return lo + r.randint(0, 20)

    # ---- statements of material files
    def options(self, which=None):
        r = self.r
        S = self.sp
        out = []
        names = which or ['-blendu', '-blendv', '-bm', '-boost', '-cc', '-clamp', '-mm', '-o', '-s', '-t', '-texres', '-imfchan', '-type']
        for _ in range(r.choice([0, 0, 1, 1, 2, 3, 4, 8]) if self.p(0.9) else min(60, self.count(0))):
            k = r.choice(names)
            kw = self.kw(k)
            if k in ('-blendu', '-blendv', '-cc', '-clamp'):
                out.append(kw + S() + self.onoff())
            elif k in ('-bm', '-boost'):
                out.append(kw + S() + self.num())
            elif k == '-mm':
                out.append(kw + S() + self.num() + S() + self.num())
            elif k in ('-o', '-s', '-t'):
                out.append(kw + ''.join(S() + self.num() for _ in range(r.choice([1, 2, 3, 3]))))
            elif k == '-texres':
                out.append(kw + S() + self.idx())
            elif k == '-imfchan':
                out.append(kw + S() + r.choice(['r', 'g', 'b', 'm', 'l', 'z', 'R', 'x']))
            elif k == '-type':
                out.append(kw + S() + r.choice(['sphere', 'cube_top', 'cube_bottom', 'cube_front', 'Sphere', self.word(False)]))
        f = self.word(False)
        k = r.random()
        if k < 0.75:
            out.append(f)
        elif k < 0.85:
            out.insert(r.randint(0, len(out)), f)
        elif k < 0.92:
            out.insert(r.randint(0, len(out)), f)
            out.append(self.word(False))
        elif not out:
            out.append(f)
        return ''.join(S() + x for x in out)

    def colour(self):
        r = self.r
        S = self.sp
        k = r.random()
        if k < 0.5:
            return ''.join(S() + self.num() for _ in range(3))
        if k < 0.75:
            return S() + self.kw('xyz') + ''.join(S() + self.num() for _ in range(r.choice([1, 2, 3, 3])))
        return S() + self.kw('spectral') + S() + self.word(False) + (S() + self.num() if self.p(0.6) else '')

    def st_mtl(self, k):
        r = self.r
        S = self.sp
        kw = self.kw(k)
        if k == 'newmtl':
            return kw + S() + self.word(False)
        if k in ('Ka', 'Kd', 'Ks', 'Ke', 'Tf'):
            return kw + self.colour()
        if k in ('Ns', 'Tr', 'sharpness', 'Ni'):
            return kw + S() + self.num()
        if k == 'd':
            return kw + (S() + self.kw('-halo') if self.p(0.4) else '') + S() + self.num()
        if k == 'illum':
            return kw + S() + (str(r.randint(0, 10)) if self.p(0.6) else self.idx())
        if k == 'map_aat':
            return kw + S() + self.onoff()
        return kw + self.options()

    def remark(self, out):
        """A comment of odd characters and of pieces of statements."""
        r = self.r
        t = r.choice(['#', '# ', '#', ' #', '##'])
        for _ in range(r.choice([1, 1, 2, 3, 5])):
            t += r.choice([self.odd, self.odd, lambda: r.choice(out), lambda: str(r.choice(self.ints or [7])), lambda: self.word(True)])()
            t += r.choice(['', '', ' '])
        return t.replace('\n', r.choice(['', ' '])).replace('\r', '')

    def odd(self):
        r = self.r
        one = [s for s in self.strs if len(s) == 1]
        if one and self.p(0.4):
            return r.choice(one)
        return r.choice(ODD)

    # ---- whole texts
    def bad(self, obj):
        r = self.r
        k = r.random()
        kws = OBJ_KW if obj else MTL_KW
        if k < 0.3:
            return r.choice(kws) + ' ' + ' '.join(r.choice([self.num(), self.word(obj), '/', '.', '-', '#', r.choice(kws)]) for _ in range(r.randint(0, 4)))
        if k < 0.5:
            return r.choice(['curv 0 1', 'call x.obj', 'vertex 1 2 3', 'v', 'f', 'g', 'usemtl', 'v 1 2', 'vn 1 2', 'f a', 'l 1', 'p', 's', 'cstype bezier',
                             'newmtl', 'Ka 1', 'Kd', 'illum 1.5', 'map_Kd', 'd x', 'Pr 0.5', 'norm n.png', 'usemtl 01', 'g 1', 'newmtl 2b', 'o 1 2', 'f 1.0 2 3'])
        return ''.join(r.choice(['v', ' ', '\n', '1', '.', 'e', '-', '/', '#', 'K', 'd', 'on', 'é', '\u212a', '\u017f', '\t', '\r', 'g', 'f', '\0', 'map_', '"', '0', '+'])
                       for _ in range(r.randint(1, 12)))

    def again(self, past):
        """A text like one read before by the same process."""
        r = self.r
        kind, t = r.choice([past[0], past[-1], r.choice(past)])
        t = t.decode()
        k = r.random()
        if k < 0.4:
            i = r.randint(0, 1)
            parts = re.split(r'(\s+)', t)
            w = [j for j in range(0, len(parts)) if parts[j][:1].isalpha()]
            if w:
                j = r.choice(w)
                parts[j] = parts[j].swapcase() if i else parts[j].upper()
            t = ''.join(parts)
        elif k < 0.6:
            ls = t.split('\n')
            del ls[r.randrange(len(ls))]
            t = '\n'.join(ls)
        elif k < 0.8:
            t = re.sub(r'[0-9]', lambda m: str(r.randint(1, 9)) if self.p(0.3) else m[0], t)
        return kind, t.encode()

    def text(self, obj):
        r = self.r
        self.size = 0
        hs = self.hints.get('o' if obj else 'm')
        if hs and self.p(0.7):
            return hints.render(self, r.choice(hs), obj)
        w = self.f.get('obj' if obj else 'mtl') or {}
        kws = OBJ_KW if obj else [k for k in MTL_KW if not k.startswith('-') and k not in ('spectral', 'xyz')]
        base = self.f.get('other', 0.35)
        ks, ws = [], []
        for k in kws:
            ks.append(k)
            ws.append(w.get(k, base if not w else base * 0.6))
        n = r.choice([1, 2, 3, 4, 6, 8, 12, 20])
        out = []
        if not obj and self.p(0.93):
            out.append(self.st_mtl('newmtl'))
        for _ in range(n):
            k = r.choices(ks, ws)[0]
            rep = 1
            if self.p(0.1):
                rep = r.randint(2, 4)
            elif self.p(0.015) and self.ints:
                i = r.choice(self.ints) + r.choice([-1, 0, 1])
                if 1 < i <= 1200 and self.size < 1500:
                    rep = i
                    self.size += i
            one = self.st_obj(k) if obj else self.st_mtl(k)
            for j in range(rep):
                out.append(one if j == 0 or self.p(0.3) else (self.st_obj(k) if obj else self.st_mtl(k)))
            if self.p(0.06):
                out.append(r.choice(out))
        if self.p(self.f.get('bad', 0.08)):
            out.insert(r.randint(max(0, len(out) - 2), len(out)), self.bad(obj))
        nl = r.choice(['\n', '\n', '\n', '\r\n'])
        lines = []
        for s in out:
            if self.p(self.f.get('comment', 0.06)):
                lines.append(r.choice(['# c', '#', '#v 1 2 3', '# 木 é', '  # newmtl a', '#f 1 2 3 #']) if self.p(0.7) else self.remark(out))
            s = s + nl
            if self.p(0.05):
                s = r.choice(['\n', ' ', '\t', '\r\n']) + s
            if self.p(0.05) and s.rstrip()[-1:].isdigit():
                s = s.rstrip() + r.choice([' # c', ' ', '#c', '\t', '  \n ']) + nl
            lines.append(s)
        t = ''.join(x if x.endswith('\n') else x + '\n' for x in lines)
        k = r.random()
        if k < 0.15:
            t = t.rstrip('\n\r')
        elif k < 0.2:
            t += r.choice([' ', '\n\n', '# end', '#', '\t', '\r'])
        return t
