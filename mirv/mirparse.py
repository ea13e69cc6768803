"""Parser for rustc's textual MIR and for the type definitions of the crate."""
import os, re


class ParseError(Exception):
    pass


class Fn:
    __slots__ = ('name', 'params', 'ret', 'locals', 'debug', 'blocks', 'raw', 'lines', 'is_const')

    def __init__(self, name):
        self.name, self.params, self.ret = name, [], ''
        self.locals, self.debug, self.blocks = {}, {}, {}
        self.raw, self.is_const = {}, False


def norm_ty(t):
    """canonical type text: no paths, lifetimes or spaces around references"""
    t = t.strip()
    t = re.sub(r"for<'[a-z_0-9, ']*>\s*", '', t)
    t = re.sub(r"'[a-z_]+,?\s*", '', t)
    t = re.sub(r'<>', '', t)
    t = re.sub(r'\bquantizer_wu::Box\b', 'WuBox', t)
    if '{closure@' in t:
        parts = re.split(r'(\{closure@[^}]*\})', t)
        t = ''.join(p if p.startswith('{closure@') else re.sub(r'\b(?:[A-Za-z_][A-Za-z_0-9]*::)+(?=[A-Za-z_{])', '', p) for p in parts)
    else:
        t = re.sub(r'\b(?:[A-Za-z_][A-Za-z_0-9]*::)+(?=[A-Za-z_])', '', t)
    t = t.replace('dyn Fn', 'Fn')
    return t.strip()


def scan_to(s, i, stops, angle=True):
    """index of the first char of `stops` at nesting depth 0 from i (or len)"""
    d = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c == '"':
            i += 1
            while i < n and s[i] != '"':
                i += 2 if s[i] == '\\' else 1
            i += 1
            continue
        if c == "'" and i + 2 < n and (s[i + 2] == "'" or s[i + 1] == '\\'):
            j = s.find("'", i + 2)
            if j > 0 and j - i < 12:
                i = j + 1
                continue
        if d == 0 and c in stops:
            return i
        if c in '([{' or (angle and c == '<'):
            d += 1
        elif c in ')]}' or (angle and c == '>' and s[i - 1] not in '-='):
            d -= 1
        i += 1
    return n


def split_top(s, sep=','):
    out, i = [], 0
    if not s.strip():
        return out
    while True:
        j = scan_to(s, i, sep)
        out.append(s[i:j].strip())
        if j >= len(s):
            break
        i = j + 1
    if out and out[-1] == '':
        out.pop()
    return out


# ---- places: (local, [proj...]); proj = ('deref',) | ('f', n, ty) | ('v', name) | ('idx', local) | ('cidx', n, from_end)
def parse_place(s):
    p, i = _place(s, 0)
    if s[i:].strip():
        raise ParseError('place: ' + s)
    return p


def _place(s, i):
    while s[i] == ' ':
        i += 1
    if s[i] == '(':
        if s[i + 1] == '*':
            (l, pr), j = _place(s, i + 2)
            assert s[j] == ')', s
            res, i = (l, pr + [('deref',)]), j + 1
        else:
            (l, pr), j = _place(s, i + 1)
            if s[j] == '.':
                m = re.match(r'\.(\d+): ', s[j:])
                k = scan_to(s, j + m.end(), ')', angle=False)
                res, i = (l, pr + [('f', int(m.group(1)), s[j + m.end():k])]), k + 1
            elif s[j:j + 4] == ' as ':
                k = scan_to(s, j + 4, ')', angle=False)
                res, i = (l, pr + [('v', s[j + 4:k])]), k + 1
            elif s[j] == ')':
                res, i = (l, pr), j + 1
            else:
                raise ParseError('place: ' + s)
    else:
        m = re.match(r'_(\d+)', s[i:])
        if not m:
            raise ParseError('place: ' + s)
        res, i = (int(m.group(1)), []), i + m.end()
    while i < len(s) and s[i] == '[':
        k = s.index(']', i)
        t = s[i + 1:k]
        m = re.match(r'_(\d+)$', t)
        if m:
            res = (res[0], res[1] + [('idx', int(m.group(1)))])
        else:
            m = re.match(r'(-?)(\d+) of \d+$', t)
            if not m:
                raise ParseError('index: ' + s)
            res = (res[0], res[1] + [('cidx', int(m.group(2)), bool(m.group(1)))])
        i = k + 1
    return res, i


def parse_operand(s):
    s = s.strip()
    if s.startswith('no_retag '):
        s = s[9:]
    if s.startswith('copy '):
        return ('copy', parse_place(s[5:]))
    if s.startswith('move '):
        return ('move', parse_place(s[5:]))
    if s.startswith('const '):
        return ('const', s[6:].strip())
    raise ParseError('operand: ' + s)


BINOPS = {'Add', 'Sub', 'Mul', 'Div', 'Rem', 'BitAnd', 'BitOr', 'BitXor', 'Shl', 'Shr', 'Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge',
          'AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow', 'AddUnchecked', 'SubUnchecked', 'MulUnchecked', 'Cmp', 'Offset', 'ShlUnchecked', 'ShrUnchecked'}


def parse_rvalue(s):
    s = s.strip()
    m = re.match(r'([A-Z][A-Za-z]+)\(', s)
    if m and m.group(1) in BINOPS:
        a, b = split_top(s[m.end():-1])
        return ('bin', m.group(1), parse_operand(a), parse_operand(b))
    if m and m.group(1) in ('Neg', 'Not', 'PtrMetadata'):
        return ('un', m.group(1), parse_operand(s[m.end():-1]))
    if s.startswith('discriminant('):
        return ('discr', parse_place(s[13:-1]))
    if s.startswith('Len('):
        return ('len', parse_place(s[4:-1]))
    if s.startswith('&raw '):
        return ('ref', parse_place(s.split(' ', 2)[2]))
    if s.startswith('&'):
        t = s[1:]
        t = re.sub(r'^(mut|fake|fake shallow|two_phase) ', '', t)
        return ('ref', parse_place(t))
    if re.match(r'(no_retag )?(copy|move|const) ', s):
        j = scan_to(s, 0, '\0')
        # cast?
        k = _find_as(s)
        if k is not None:
            kind = re.search(r'\(([A-Za-z]+)(\(.*\))?\)$', s[k:])
            ty = s[k + 4:k + kind.start()].strip()
            return ('cast', parse_operand(s[:k]), ty, kind.group(1) + (kind.group(2) or ''))
        return ('use', parse_operand(s))
    if s.startswith('['):
        inner = s[1:-1]
        k = scan_to(inner, 0, ';')
        if k < len(inner):
            return ('repeat', parse_operand(inner[:k]), inner[k + 1:].strip())
        return ('array', [parse_operand(x) for x in split_top(inner)])
    if s.startswith('('):
        return ('tuple', [parse_operand(x) for x in split_top(s[1:-1])])
    if s.startswith('{closure@'):
        k = s.index('}') + 1
        name, rest = s[:k], s[k:].strip()
        ops = []
        if rest:
            for x in split_top(rest[1:-1].strip()):
                c = x.index(': ')
                ops.append(parse_operand(x[c + 2:]))
        return ('closure', name, ops)
    # struct / enum aggregate
    k = scan_to(s, 0, '({')
    name = s[:k].strip()
    if k == len(s):
        return ('adt', name, None, [])
    if s[k] == '(':
        return ('adt', name, None, [parse_operand(x) for x in split_top(s[k + 1:-1])])
    fs = []
    for x in split_top(s[k + 1:-1].strip()):
        c = x.index(': ')
        fs.append((x[:c].strip(), parse_operand(x[c + 2:])))
    return ('adt', name, [f for f, _ in fs], [o for _, o in fs])


def _find_as(s):
    """position of a top-level ' as ' in an operand (not inside parens or const paths)"""
    d = 0
    i = 0
    while i < len(s):
        c = s[i]
        if c == '"':
            i += 1
            while i < len(s) and s[i] != '"':
                i += 2 if s[i] == '\\' else 1
        elif c in '([{<':
            d += 1
        elif c in ')]}' or (c == '>' and s[i - 1] not in '-='):
            d -= 1
        elif d == 0 and s.startswith(' as ', i) and s.endswith(')'):
            return i
        i += 1
    return None


def parse_stmt(line):
    """-> tuple; terminators start with 'T'"""
    s = line.strip()
    assert s.endswith(';'), s
    s = s[:-1]
    if re.match(r'(StorageLive|StorageDead|FakeRead|AscribeUserType|PlaceMention|Retag|Coverage|ConstEvalCounter|nop|BackwardIncompatibleDropHint|deinit|Deinit)\b', s):
        return None
    if s == 'return':
        return ('Treturn',)
    if s == 'unreachable':
        return ('Tunreachable',)
    if s.startswith('resume') or s.startswith('terminate') or s.startswith('abort'):
        return ('Tresume',)
    m = re.match(r'goto -> bb(\d+)$', s)
    if m:
        return ('Tgoto', int(m.group(1)))
    m = re.match(r'(falseEdge|falseUnwind) -> \[real: bb(\d+)', s)
    if m:
        return ('Tgoto', int(m.group(2)))
    if s.startswith('switchInt('):
        k = scan_to(s, 10, ')')
        op = parse_operand(s[10:k])
        arms, other = [], None
        for a in re.search(r'\[(.*)\]$', s[k:]).group(1).split(', '):
            v, b = a.split(': bb')
            if v == 'otherwise':
                other = int(b)
            else:
                arms.append((int(v), int(b)))
        return ('Tswitch', op, arms, other)
    if s.startswith('drop('):
        k = scan_to(s, 5, ')')
        m = re.search(r'return: bb(\d+)', s[k:]) or re.search(r'-> bb(\d+)', s[k:])
        return ('Tdrop', s[5:k], int(m.group(1)))
    if s.startswith('assert('):
        k = scan_to(s, 7, ')')
        a = split_top(s[7:k])
        neg = a[0].startswith('!')
        m = re.search(r'success: bb(\d+)', s[k:])
        return ('Tassert', parse_operand(a[0][1:] if neg else a[0]), not neg, a[1], int(m.group(1)))
    # calls
    m = re.match(r'(.*?) = (.*)$', s, re.S)
    if not m:
        if re.match(r'(assume|copy_nonoverlapping)\(', s):
            return None
        raise ParseError('stmt: ' + s)
    k = scan_to(s, 0, '=')
    while k < len(s) and not (s[k - 1] == ' ' and s[k + 1] == ' '):
        k = scan_to(s, k + 1, '=')
    dest, rhs = s[:k].strip(), s[k + 1:].strip()
    tail = re.search(r' -> (\[return: bb\d+.*\]|unwind.*|bb\d+)$', rhs)
    if tail:
        call = rhs[:tail.start()]
        j = scan_to(call, 0, '(')
        callee = call[:j]
        k2 = scan_to(call, j + 1, ')')
        args = [parse_operand(x) for x in split_top(call[j + 1:k2])]
        m = re.match(r'\[return: bb(\d+)', tail.group(1))
        return ('Tcall', parse_place(dest), callee.strip(), args, int(m.group(1)) if m else None)
    return ('assign', parse_place(dest), rhs)


class Program:
    def __init__(self, mir_path, src_root):
        self.src_root = src_root
        self.fns = {}
        self.consts = {}
        self.by_closure = {}
        self.structs = {}
        self.enums = {}
        self._lines = {}
        self._load_types()
        self._load(open(mir_path).read())
        self._index()

    # -- rust sources: struct and enum definitions
    def _src(self, rel):
        if rel not in self._lines:
            with open(os.path.join(self.src_root, rel)) as f:
                self._lines[rel] = f.read().split('\n')
        return self._lines[rel]

    def _load_types(self):
        for d, _, fs in os.walk(os.path.join(self.src_root, 'src')):
            for f in fs:
                if f.endswith('.rs'):
                    self._types_of(open(os.path.join(d, f)).read(), f)

    def _types_of(self, txt, fname):
        txt = re.sub(r'//[^\n]*', '', txt)
        txt = re.sub(r'/\*.*?\*/', '', txt, flags=re.S)
        for m in re.finditer(r'\bstruct\s+([A-Za-z_0-9]+)\s*(?:<[^>{;(]*>)?\s*(\{|\(|;)', txt):
            name = m.group(1)
            if fname == 'quantizer_wu.rs' and name == 'Box':
                name = 'WuBox'
            if m.group(2) == ';':
                self.structs[name] = []
                continue
            close = '}' if m.group(2) == '{' else ')'
            k = scan_to(txt, m.end(), close)
            body = txt[m.end():k]
            fields = []
            for x in split_top(body):
                x = re.sub(r'#\[[^\]]*\]', '', x).strip()
                x = re.sub(r'^pub(\([a-z]+\))?\s+', '', x)
                if not x:
                    continue
                if m.group(2) == '{':
                    n, t = x.split(':', 1)
                    fields.append((n.strip(), norm_ty(' '.join(t.split()))))
                else:
                    fields.append((str(len(fields)), norm_ty(x)))
            if fname == 'quantizer_wu.rs':
                fields = [(n, t.replace('Vec<Box>', 'Vec<WuBox>')) for n, t in fields]
            self.structs[name] = fields
        for m in re.finditer(r'\benum\s+([A-Za-z_0-9]+)\s*(?:<[^>{]*>)?\s*\{', txt):
            k = scan_to(txt, m.end(), '}')
            vs = []
            for x in split_top(txt[m.end():k]):
                x = re.sub(r'#\[[^\]]*\]', '', x).strip()
                mm = re.match(r'([A-Za-z_0-9]+)', x)
                if mm:
                    vs.append(mm.group(1))
            self.enums[m.group(1)] = vs

    def _load(self, txt):
        cur = None
        blk = None
        for line in txt.split('\n'):
            if cur is None:
                if line.startswith('fn '):
                    k = scan_to(line, 3, '(')
                    cur = Fn(line[3:k])
                    e = scan_to(line, k + 1, ')')
                    for p in split_top(line[k + 1:e]):
                        m = re.match(r'_(\d+): (.*)$', p, re.S)
                        cur.params.append(int(m.group(1)))
                        cur.locals[int(m.group(1))] = m.group(2)
                    m = re.match(r' -> (.*) \{$', line[e + 1:])
                    cur.ret = m.group(1) if m else '()'
                elif (line.startswith('const ') or line.startswith('static ') or '::promoted[' in line) and line.endswith('= {'):
                    l = re.sub(r'^(const|static mut|static) ', '', line)
                    k = scan_to(l, 0, ':')
                    # names contain '::' and '<impl at a:b:c>'; the separator is ': ' at depth 0
                    while l[k:k + 2] != ': ':
                        k = scan_to(l, k + 2 if l[k:k + 2] == '::' else k + 1, ':')
                    cur = Fn(l[:k])
                    cur.is_const = True
                    cur.ret = l[k + 2:-4].strip()
                elif line.startswith('const ') and line.endswith(';') and ' = const ' in line:
                    l, e = line[6:-1].rsplit(' = const ', 1)
                    k = scan_to(l, 0, ':')
                    while l[k:k + 2] != ': ':
                        k = scan_to(l, k + 2 if l[k:k + 2] == '::' else k + 1, ':')
                    c = Fn(l[:k])
                    c.is_const = True
                    c.ret = l[k + 2:].strip()
                    c.raw = {'single': e}
                    self.consts[c.name] = c
                continue
            if line == '}':
                (self.consts if cur.is_const else self.fns)[cur.name] = cur
                cur = None
                continue
            s = line.strip()
            if blk is not None:
                if s == '}':
                    blk = None
                elif s and not s.startswith('//'):
                    cur.raw[blk].append(s)
                continue
            m = re.match(r'bb(\d+)( \(cleanup\))?: \{$', s)
            if m:
                blk = int(m.group(1))
                cur.raw[blk] = []
                continue
            m = re.match(r'let (?:mut )?_(\d+): (.*);$', s)
            if m:
                cur.locals[int(m.group(1))] = m.group(2)
                continue
            m = re.match(r'debug (\S+) => (.*);$', s)
            if m:
                cur.debug.setdefault(m.group(1), []).append(m.group(2))

    def block(self, fn, b):
        r = fn.blocks.get(b)
        if r is None:
            lines = fn.raw[b]
            # join wrapped lines
            out, acc = [], ''
            for l in lines:
                acc = l if not acc else acc + ' ' + l
                if acc.endswith(';'):
                    out.append(acc)
                    acc = ''
            r = [x for x in (parse_stmt(l) for l in out) if x is not None]
            fn.blocks[b] = r
        return r

    def _impl_key(self, span):
        """'src/hct/hct.rs:24:1: 24:9' -> (Self type, trait or None)"""
        m = re.match(r'(.*?):(\d+):(\d+): (\d+):(\d+)$', span)
        rel, l, c = m.group(1), int(m.group(2)), int(m.group(3))
        lines = self._src(rel)
        head = lines[l - 1][c - 1:]
        if head.startswith('impl') or head.startswith('unsafe impl'):
            txt = head
            k = l
            while '{' not in txt and k < len(lines):
                txt += ' ' + lines[k]
                k += 1
            txt = txt[:txt.index('{')]
            txt = re.sub(r'^(unsafe )?impl\s*', '', txt)
            if txt.startswith('<'):
                txt = txt[scan_to(txt, 1, '>') + 1:]
            txt = txt.split(' where ')[0].strip()
            if ' for ' in txt:
                tr, ty = txt.split(' for ')
                return self._selfname(ty, rel), norm_ty(tr)
            return self._selfname(txt, rel), None
        # derive: the span is the trait name in the attribute
        tr = re.match(r'[A-Za-z_:]+', head).group(0).split('::')[-1]
        for k in range(l - 1, min(l + 40, len(lines))):
            m = re.search(r'\b(?:struct|enum)\s+([A-Za-z_0-9]+)', lines[k])
            if m:
                return self._selfname(m.group(1), rel), tr + '#derive'
        raise ParseError('impl span ' + span)

    def _selfname(self, t, rel):
        t = norm_ty(t)
        if t == 'Box' and rel.endswith('quantizer_wu.rs'):
            return 'WuBox'
        return re.sub(r'<.*', '', t)

    def _index(self):
        self.by_key = {}      # (Self, trait, fn) / (None, None, fn)
        self.derived = set()
        cache = {}
        for name, f in self.fns.items():
            if f.params and '{closure@' in f.locals[f.params[0]] and '{closure#' in name:
                m = re.search(r'\{closure@[^}]*\}', f.locals[f.params[0]])
                self.by_closure[m.group(0)] = f
                continue
            m = re.search(r'<impl at ([^>]*)>::(.*)$', name)
            if m:
                if m.group(1) not in cache:
                    cache[m.group(1)] = self._impl_key(m.group(1))
                ty, tr = cache[m.group(1)]
                if tr and tr.endswith('#derive'):
                    tr = tr[:-7]
                    self.derived.add((ty, tr, m.group(2)))
                trn = re.sub(r'<.*', '', tr) if tr else None
                self.by_key[(ty, trn, m.group(2))] = f
            else:
                self.by_key[(None, None, name.split('::')[-1])] = f
        # associated consts and promoteds by a path-insensitive key
        self.const_by_key = {}
        for name, f in self.consts.items():
            m = re.search(r'<impl at ([^>]*)>::(.*)$', name)
            if m:
                if m.group(1) not in cache:
                    cache[m.group(1)] = self._impl_key(m.group(1))
                ty, tr = cache[m.group(1)]
                if tr:
                    tr = tr.replace('#derive', '')
                self.const_by_key.setdefault((ty, m.group(2)), []).append((tr, f))
            else:
                self.const_by_key.setdefault((None, name), []).append((None, f))

    def fn(self, ty, name, trait=None):
        return self.by_key.get((ty, trait, name))


if __name__ == '__main__':
    import sys
    P = Program(sys.argv[1], '/repo')
    bad = 0
    for f in list(P.fns.values()) + list(P.consts.values()):
        for b in f.raw:
            try:
                for st in P.block(f, b):
                    if st[0] == 'assign':
                        parse_rvalue(st[2])
            except Exception as e:
                bad += 1
                if bad < 25:
                    print(f.name, b, type(e).__name__, str(e)[:200])
    print(len(P.fns), len(P.consts), 'bad', bad)
    print([k for k in P.by_key if k[0] in (None,"Hct","WuBox")])
    print(list(P.const_by_key)[:40])
    print(P.structs, P.enums)
