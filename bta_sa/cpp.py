"""C++ functions of a header as the intermediate form of bounds.py, read from clang's AST (JSON)."""
import json
import os
import re
import subprocess


class Fun(object):
    def __init__(self, name, params, body, line, throws, calls):
        self.name, self.params, self.body, self.line, self.throws, self.calls = name, params, body, line, throws, calls


def unsigned(t):
    t = t.replace('const', '').replace('&', '').strip()
    return 'unsigned' in t or t.startswith('uint') or t.startswith('size_t') or t.startswith('std::size_t') or t in ('bool', 'unsigned')


SIZES = {'int64_t': 8, 'uint64_t': 8, 'double': 8, 'long': 8, 'unsigned long': 8, 'int': 4, 'unsigned int': 4, 'unsigned': 4, 'int32_t': 4, 'uint32_t': 4, 'float': 4, 'int16_t': 2, 'uint16_t': 2,
         'short': 2, 'unsigned short': 2, 'int8_t': 1, 'uint8_t': 1, 'char': 1, 'unsigned char': 1, 'bool': 1, 'float32_t': 4, 'float64_t': 8}


def elem_size(t):
    t = t.replace('const', '').replace('&', '').replace('*', '').replace('cnp.', '').replace('np.', '').strip()
    return SIZES.get(' '.join(t.split()))


def names_in(text):
    """candidates for function definitions: name( ... ) { at the top level of the file"""
    text = re.sub(r'/\*.*?\*/', lambda m: re.sub(r'[^\n]', ' ', m.group(0)), text, flags=re.S)
    text = re.sub(r'//[^\n]*', '', text)
    text = re.sub(r'^[ \t]*#[^\n]*', '', text, flags=re.M)
    out, depth, i, start = [], 0, 0, 0
    while i < len(text):
        ch = text[i]
        if ch == '"':
            i += 1
            while i < len(text) and text[i] != '"':
                i += 2 if text[i] == '\\' else 1
        elif ch == '{':
            if depth == 0:
                m = re.search(r'([A-Za-z_]\w*)\s*\(', text[start:i])
                if m and ')' in text[start:i] and not re.search(r'\b(class|struct|enum|union)\b', text[start:i].split('(')[0]):
                    out.append(m.group(1))
                elif re.search(r'\b(namespace)\b', text[start:i]) or 'extern' in text[start:i]:
                    start = i + 1
                    i += 1
                    continue
            depth += 1
        elif ch == '}':
            depth = max(0, depth - 1)
            if depth == 0:
                start = i + 1
        elif ch == ';' and depth == 0:
            start = i + 1
        i += 1
    return sorted(set(out))


def dump(path, name):
    cmd = ['clang', '-x', 'c++', '-fsyntax-only', '-w', '-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=' + name, '-I', os.path.dirname(path), path]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
    if p.returncode:
        raise RuntimeError('clang: ' + p.stderr.decode(errors='replace')[:400])
    dec, text, i, out = json.JSONDecoder(), p.stdout.decode(), 0, []
    while i < len(text):
        if text[i] != '{':
            i += 1
            continue
        d, i = dec.raw_decode(text, i)
        out.append(d)
    return out


WRAP = {'ImplicitCastExpr', 'ParenExpr', 'CStyleCastExpr', 'CXXStaticCastExpr', 'CXXFunctionalCastExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'ConstantExpr', 'CXXBindTemporaryExpr',
        'CXXReinterpretCastExpr', 'CXXConstCastExpr', 'SubstNonTypeTemplateParmExpr', 'FullExpr'}


class Front(object):
    def __init__(self):
        self.line = 0
        self.throws = False
        self.calls = set()
        self.refs = {}

    def kids(self, n):
        return [c for c in n.get('inner', []) if c]

    def type(self, n):
        t = n.get('type', {})
        return t.get('desugaredQualType') or t.get('qualType') or ''

    def see(self, n):
        for k in (n.get('range', {}).get('begin', {}), n.get('loc', {})):
            for b in (k, k.get('expansionLoc', {})):
                if b.get('line'):
                    self.line = b['line']

    def function(self, n):
        self.see(n)
        line = self.line
        params, body = [], None
        for c in self.kids(n):
            self.see(c)
            if c['kind'] == 'ParmVarDecl':
                params.append((c.get('name', '_'), c['type'].get('qualType', '')))
            elif c['kind'] == 'CompoundStmt':
                body = self.block(c)
        return Fun(n['name'], params, body, line, self.throws, self.calls)

    def block(self, n):
        if n is None:
            return []
        if n['kind'] == 'CompoundStmt':
            out = []
            for c in n.get('inner', []):
                out += self.stmt(c)
            return out
        return self.stmt(n)

    def stmt(self, n):
        self.see(n)
        k = n['kind']
        if k == 'CompoundStmt':
            return self.block(n)
        if k == 'DeclStmt':
            out = []
            for d in self.kids(n):
                self.see(d)
                if d['kind'] == 'VarDecl':
                    init = self.kids(d)
                    t = d['type'].get('qualType', '')
                    if '&' in t and init:
                        src = self.expr(init[0])
                        if 'const' not in t.split('&')[0]:
                            # another name for a variable or an element: reads and writes go to the original
                            self.refs[d['name']] = src
                            continue
                    out.append(('assign', ('var', d['name']), self.expr(init[0]) if init else ('opaque', []), self.line))
            return out
        if k == 'ForStmt':
            inner = n.get('inner', [])
            init, _, cond, inc, body = (inner + [{}] * 5)[:5]
            out = self.stmt(init) if init else []
            c = self.expr(cond) if cond else ('const', True)
            ln = self.line
            b = self.block(body) if body else []
            st = [('expr', self.expr(inc))] if inc else []
            return out + [('while', c, b, st, ln)]
        if k == 'WhileStmt':
            kids = self.kids(n)
            c = self.expr(kids[0])
            ln = self.line
            return [('while', c, self.block(kids[-1]), [], ln)]
        if k == 'DoStmt':
            kids = self.kids(n)
            b = self.block(kids[0])
            return [('while', self.expr(kids[1]), b, [], self.line, True)]
        if k == 'IfStmt':
            kids = self.kids(n)
            pre = []
            if n.get('hasInit') or n.get('hasVar'):
                pre = self.stmt(kids[0])
                kids = kids[1:]
            c = self.expr(kids[0])
            a = self.block(kids[1])
            b = self.block(kids[2]) if len(kids) > 2 else []
            return pre + [('if', c, a, b)]
        if k == 'BreakStmt':
            return [('break',)]
        if k == 'ContinueStmt':
            return [('continue',)]
        if k == 'ReturnStmt':
            kids = self.kids(n)
            return [('return', self.expr(kids[0]) if kids else None)]
        if k == 'NullStmt':
            return []
        if k == 'CXXTryStmt' or k == 'SwitchStmt' or k == 'GotoStmt' or k == 'CXXForRangeStmt' or k == 'LabelStmt':
            return [('unsupported', k)]
        return self.expr_stmt(n)

    def expr_stmt(self, n):
        while n['kind'] in WRAP:
            n = self.kids(n)[0]
        k = n['kind']
        if k == 'BinaryOperator' and n['opcode'] == '=':
            a, b = self.kids(n)
            return [('assign', self.expr(a), self.expr(b), self.line)]
        if k == 'BinaryOperator' and n['opcode'] == ',':
            a, b = self.kids(n)
            return self.expr_stmt(a) + self.expr_stmt(b)
        if k == 'CompoundAssignOperator':
            a, b = self.kids(n)
            return [('aug', self.expr(a), n['opcode'][:-1], self.expr(b), unsigned(self.type(n)))]
        if k == 'CXXThrowExpr':
            self.throws = True
            return [('throw', [self.expr(c) for c in self.kids(n)])]
        if k == 'ConditionalOperator':
            c, a, b = self.kids(n)
            return [('if', self.expr(c), self.expr_stmt(a), self.expr_stmt(b))]
        return [('expr', self.expr(n))]

    def expr(self, n):
        self.see(n)
        k = n['kind']
        kids = self.kids(n)
        if k in WRAP:
            return self.expr(kids[0]) if kids else ('opaque', [])
        if k == 'IntegerLiteral':
            return ('num', int(n['value']))
        if k == 'CharacterLiteral':
            return ('num', int(n['value']))
        if k == 'CXXBoolLiteralExpr':
            return ('num', 1 if n['value'] else 0)
        if k == 'DeclRefExpr':
            name = n['referencedDecl'].get('name', '?')
            return self.refs.get(name, ('var', name))
        if k == 'ArraySubscriptExpr':
            return ('idx', self.expr(kids[0]), [self.expr(kids[1])], self.line)
        if k == 'UnaryOperator':
            op = n['opcode']
            if op in ('++', '--'):
                return ('postinc' if n.get('isPostfix') else 'preinc', self.expr(kids[0]), 1 if op == '++' else -1, unsigned(self.type(n)))
            e = self.expr(kids[0])
            if op == '!':
                return ('not', e)
            if op == '-':
                return ('neg', e)
            if op == '+':
                return e
            if op == '*':
                if e[0] == 'bin' and e[1] == '+':
                    return ('idx', e[2], [e[3]], self.line)
                return ('idx', e, [('num', 0)], self.line)
            if op == '&':
                if e[0] == 'idx' and e[2] == [('num', 0)]:
                    return e[1]
                return ('opaque', [])
            return ('opaque', [e])
        if k == 'BinaryOperator':
            op = n['opcode']
            a, b = self.expr(kids[0]), self.expr(kids[1])
            if op in ('<', '<=', '>', '>=', '==', '!='):
                return ('cmp', op, a, b)
            if op == '&&':
                return ('and', [a, b])
            if op == '||':
                return ('or', [a, b])
            if op == '=':
                return ('assignexpr', a, b)
            if op == ',':
                return b
            return ('bin', op, a, b, unsigned(self.type(n)))
        if k == 'CompoundAssignOperator':
            a, b = self.expr(kids[0]), self.expr(kids[1])
            return ('assignexpr', a, ('bin', n['opcode'][:-1], a, b, unsigned(self.type(n))))
        if k == 'ConditionalOperator':
            return ('cond', self.expr(kids[0]), self.expr(kids[1]), self.expr(kids[2]))
        if k == 'CallExpr':
            f = kids[0]
            while f['kind'] in WRAP:
                f = self.kids(f)[0]
            name = f.get('referencedDecl', {}).get('name') if f['kind'] == 'DeclRefExpr' else None
            args = [self.expr(c) for c in kids[1:]]
            if name:
                self.calls.add(name)
                return ('call', name, args, {}, self.line)
            return ('opaque', args)
        if k == 'CXXThrowExpr':
            self.throws = True
            return ('opaque', [self.expr(c) for c in kids])
        return ('opaque', [self.expr(c) for c in kids if isinstance(c, dict) and 'kind' in c and not c['kind'].endswith('Decl')])


def load(path):
    """{name: Fun} of the functions defined in the file itself"""
    text = open(path, encoding='utf-8', errors='replace').read()
    out = {}
    names = names_in(text)
    todo = []
    for nm in names:
        if any(o != nm and o in nm for o in names):
            continue
        todo.append(nm)
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex:
        for docs in ex.map(lambda nm: dump(path, nm), todo):
            for d in docs:
                if d.get('kind') == 'FunctionDecl' and d.get('name') in names and any(c and c.get('kind') == 'CompoundStmt' for c in d.get('inner', [])):
                    f = d.get('loc', {}).get('file') or d.get('loc', {}).get('expansionLoc', {}).get('file')
                    out[d['name']] = Front().function(d)
    return out, names


# ---------------------------------------------------------------- Cython
class Extern(object):
    def __init__(self, name, params, exc, line):
        self.name, self.params, self.exc, self.line = name, params, exc, line


class Def(object):
    def __init__(self, name, params, body, line):
        self.name, self.params, self.body, self.line = name, params, body, line


def split_top(s):
    out, depth, cur = [], 0, ''
    for ch in s:
        if ch in '([{':
            depth += 1
        elif ch in ')]}':
            depth -= 1
        if ch == ',' and depth == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur)
    return [x.strip() for x in out]


CAST = re.compile(r'<\s*((?:const\s+)?[A-Za-z_][\w.]*(?:\s+[A-Za-z_]\w*)*\s*[*&\s]*)>\s*(&?\s*[A-Za-z_][\w.]*(?:\s*\[[^\[\]]*\])*(?:\([^()]*\))?|\()')


def uncast(line):
    """casts become calls: <T> x.y[0] -> _cast_('T', x.y[0])"""
    while True:
        m = CAST.search(line)
        if not m:
            return line
        t, x = ' '.join(m.group(1).split()), m.group(2)
        if x == '(':
            depth, j = 0, m.end() - 1
            while j < len(line):
                if line[j] == '(':
                    depth += 1
                elif line[j] == ')':
                    depth -= 1
                    if depth == 0:
                        break
                j += 1
            x = line[m.end() - 1:j + 1]
            end = j + 1
        else:
            end = m.end()
        x = x.replace('&', '').strip()
        line = line[:m.start()] + '_cast_(%r, %s)' % (t, x) + line[end:]


def pyx(path):
    """(externs, defs, directives); a def keeps its body as Python text with the casts as calls"""
    lines = open(path, encoding='utf-8', errors='replace').read().replace('\r', '').split('\n')
    externs, defs = {}, []
    directives = [l for l in lines if re.match(r'#\s*cython\s*:', l)]
    i, n = 0, len(lines)

    def strip(l):
        return re.sub(r'#.*$', '', l) if '"' not in l and "'" not in l else l

    def gather(i):
        """a statement over several lines"""
        s, depth, j = '', 0, i
        while j < n:
            l = strip(lines[j])
            depth += sum(l.count(c) for c in '([{') - sum(l.count(c) for c in ')]}')
            s += (' ' if s else '') + (l.strip() if s else l.rstrip())
            j += 1
            if depth <= 0 and not s.endswith('\\'):
                break
            s = s.rstrip('\\')
        return s, j
    while i < n:
        l = lines[i]
        if re.match(r'\s*cdef\s+extern\s+from', l):
            j = i + 1
            while j < n and (not lines[j].strip() or lines[j][:1] in ' \t'):
                s, e = gather(j)
                m = re.match(r'\s*([\w\s*&:]+?)\s*\b(\w+)\s*\((.*)\)\s*(.*?):?\s*$', s)
                if m and 'class' not in m.group(1).split() and m.group(1).strip():
                    params = []
                    for p in split_top(m.group(3)):
                        q = re.match(r'(.*?)([A-Za-z_]\w*)$', p)
                        params.append((q.group(2), q.group(1).strip()) if q and q.group(1).strip() else ('_', p))
                    externs[m.group(2)] = Extern(m.group(2), params, 'except' in m.group(4), j + 1)
                j = max(e, j + 1)
            i = j
            continue
        m = re.match(r'(def|cpdef\b.*?|cdef\s+[^=]*?)\s*\b(\w+)\s*\(', l)
        if m and not l.startswith((' ', '\t')) and not l.startswith('cdef class'):
            s, j = gather(i)
            head = s
            q = head.index('(')
            r = head.rindex(')')
            params = []
            for p in split_top(head[q + 1:r]):
                default = None
                core = re.sub(r'\[.*?\]', '', p)
                if '=' in core:
                    k = p.rindex('=')
                    p, default = p[:k].strip(), p[k + 1:].strip()
                z = re.match(r'(.*?)([A-Za-z_]\w*)$', p, re.S)
                params.append((z.group(2), z.group(1).strip(), default))
            body = []
            while j < n and (not lines[j].strip() or lines[j][:1] in ' \t'):
                b, e = gather(j)
                if b.strip():
                    body.append((b, j + 1))
                j = e
            defs.append(Def(m.group(2), params, body, i + 1))
            i = j
            continue
        i += 1
    return externs, defs, directives
