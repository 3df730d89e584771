"""Front end: parses the real sources with clang and indexes the AST.  Nothing is rewritten:
the executor interprets clang's own AST of /repo's files."""
import json, os, subprocess, re, hashlib

HERE = os.path.dirname(os.path.abspath(__file__))
class FrontError(Exception): pass

def clean(t):
    """canonical type string"""
    t = re.sub(r'\b(const|volatile|register|struct|class|restrict|__restrict|enum)\b', '', t)
    t = t.replace('FFTMPI_NS::', '')
    t = re.sub(r'\s+', ' ', t).strip()
    t = re.sub(r'\s*([*&\[\]])\s*', r'\1', t)
    return t

SIZES = {'char': 1, 'bool': 1, 'int': 4, 'unsigned int': 4, 'unsigned': 4, 'float': 4, 'double': 8, 'long': 8, 'unsigned long': 8,
         'long long': 8, 'size_t': 8, 'int64_t': 8, 'unsigned char': 1, 'short': 2}

class Program:
    """functions, records and enums of several translation units"""
    def __init__(self, defines=(), src=os.environ.get('FFTMPI_SRC', '/repo/src'), std='gnu++14'):
        self.src = src; self.defines = list(defines); self.std = std
        self.funcs = {}       # mangled -> decl node (definition)
        self.byname = {}      # qualified name -> [mangled]
        self.records = {}     # name -> [(field, type)]
        self.typedefs = {}
        self.enums = {}
        self.files = []
        self.decl = {}        # (tu, id) -> node
        self.text = {}
    def add(self, fname):
        path = fname if fname.startswith('/') else os.path.join(self.src, fname)
        base = ['clang++', '-x', 'c++', '-std=' + self.std, '-w', '-fsyntax-only', '-ferror-limit=3']
        inc = ['-nostdinc', '-nostdinc++', '-isystem', os.path.join(HERE, 'stubs'), '-I' + self.src]
        cmd = base + inc + ['-D' + d for d in self.defines] + ['-Xclang', '-ast-dump=json', path]
        p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode:
            raise FrontError('clang could not parse %s: %s' % (path, p.stderr[:400]))
        tree = json.loads(p.stdout)
        tu = len(self.files)
        self.files.append(path)
        self._index(tree, tu, fname)
        return self
    # -------------------------------------------------- indexing
    def _index(self, tree, tu, fname):
        cur = {'file': fname, 'line': 0}
        def setloc(l):
            if not l: return
            if 'spellingLoc' in l or 'expansionLoc' in l:
                setloc(l.get('spellingLoc')); setloc(l.get('expansionLoc')); return
            if 'file' in l: cur['file'] = l['file']
            if 'line' in l: cur['line'] = l['line']
        def walk(n, scope):
            k = n.get('kind')
            setloc(n.get('loc'))
            r = n.get('range')
            if r:
                setloc(r.get('begin'))
            n['_line'] = cur['line']; n['_file'] = os.path.basename(cur['file'])
            if r: setloc(r.get('end'))
            n['_tu'] = tu
            if 'id' in n: self.decl[(tu, n['id'])] = n
            sc = scope
            if k in ('CXXRecordDecl', 'RecordDecl', 'NamespaceDecl', 'EnumDecl'):
                nm = n.get('name')
                if k in ('CXXRecordDecl', 'RecordDecl') and nm is None:
                    nm = 'anon@%s' % n['id']
                if k == 'NamespaceDecl': sc = scope
                elif nm: sc = scope + (nm,)
            if k in ('CXXRecordDecl', 'RecordDecl') and n.get('completeDefinition'):
                fields = []
                for c in n.get('inner', []):
                    if c.get('kind') == 'FieldDecl':
                        fields.append((c.get('name'), self.ctype(c['type'])))
                nm = sc[-1] if sc else n.get('name')
                self.records['::'.join(sc)] = fields
                self.records.setdefault(nm, fields)
            if k in ('TypedefDecl', 'TypeAliasDecl'):
                self.typedefs[n['name']] = n['type'].get('desugaredQualType') or n['type']['qualType']
                # typedef struct {...} X
                q = n['type']['qualType']
                inner = n.get('inner', [])
                if inner and inner[0].get('kind') == 'ElaboratedType':
                    d = (inner[0].get('ownedTagDecl') or {})
                    rid = d.get('id')
                    if rid:
                        self.records.setdefault(n['name'], self.records.get('anon@' + rid, []))
                        self.records[clean(q)] = self.records[n['name']]
            if k == 'EnumDecl':
                v = 0
                for c in n.get('inner', []):
                    if c.get('kind') == 'EnumConstantDecl':
                        val = None
                        for e in c.get('inner', []):
                            val = _constval(e)
                        if val is None: val = v
                        self.enums[(tu, c['id'])] = val
                        v = val + 1
            if k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl'):
                n['_scope'] = scope
                pd = n.get('parentDeclContextId')
                if pd and (tu, pd) in self.decl and self.decl[(tu, pd)].get('kind') in ('CXXRecordDecl', 'RecordDecl'):
                    n['_scope'] = (self.decl[(tu, pd)].get('name'),)
                elif 'previousDecl' in n and (tu, n['previousDecl']) in self.decl:
                    n['_scope'] = self.decl[(tu, n['previousDecl'])].get('_scope', scope)
                n['_qual'] = '::'.join([x for x in n['_scope'] if x] + [n.get('name', '')])
                key = n.get('mangledName') or n['_qual']
                n['_key'] = key
            for c in n.get('inner', []):
                if isinstance(c, dict): walk(c, sc)
            if '_key' in n:
                body = [c for c in n.get('inner', []) if c.get('kind') in ('CompoundStmt', 'CXXTryStmt')]
                if body:
                    n['_body'] = body[0]
                    n['_params'] = [c for c in n['inner'] if c.get('kind') == 'ParmVarDecl']
                    n['_inits'] = [c for c in n['inner'] if c.get('kind') == 'CXXCtorInitializer']
                    self.funcs.setdefault(n['_key'], n)
                    if n['_key'] not in self.byname.setdefault(n['_qual'], []):
                        self.byname[n['_qual']].append(n['_key'])
        walk(tree, ())
    def ctype(self, t):
        q = t.get('desugaredQualType') or t['qualType']
        return self.canon(q)
    def canon(self, q):
        if '(*)' in q or '(lambda' in q: return 'fnptr'
        q = clean(q)
        m = re.match(r'^(.*?)((?:[*&]|\[\w*\])*)$', q)
        base, suf = m.group(1), m.group(2)
        n = 0
        while base in self.typedefs and base not in self.records and n < 10:
            d = self.typedefs[base]
            if '(*)' in d: return 'fnptr'
            d = clean(d)
            if d == base: break
            m2 = re.match(r'^(.*?)((?:[*&]|\[\w*\])*)$', d)
            base, suf = m2.group(1), m2.group(2) + suf
            n += 1
        if base in ('bigint',): base = 'long'
        return base + suf
    def func(self, qual, nargs=None):
        ks = self.byname.get(qual, [])
        if nargs is not None: ks = [k for k in ks if len(self.funcs[k]['_params']) == nargs]
        if not ks: raise FrontError('function %s not found in the sources' % qual)
        return self.funcs[ks[0]]
    def fields(self, rec):
        if rec in self.records: return self.records[rec]
        t = rec.split('::')[-1]
        if t in self.records: return self.records[t]
        raise FrontError('unknown record ' + rec)
    def is_record(self, t):
        return t in self.records or t.split('::')[-1] in self.records
    def sizeof(self, t):
        if t.endswith('*') or t.endswith('&') or t == 'fnptr': return 8
        m = re.match(r'^(.*)\[(\d+)\]$', t)
        if m:
            # first dimension is the leftmost; size is symmetric
            return int(m.group(2)) * self.sizeof(m.group(1))
        if t in SIZES: return SIZES[t]
        if self.is_record(t):
            off = 0; al = 1
            for _, ft in self.fields(t):
                a = self.align(ft); s = self.sizeof(ft)
                off = (off + a - 1) // a * a + s; al = max(al, a)
            return (off + al - 1) // al * al
        return 4     # enums
    def align(self, t):
        m = re.match(r'^(.*)\[(\d+)\]$', t)
        if m: return self.align(m.group(1))
        if self.is_record(t) and not t.endswith('*'): return max([self.align(ft) for _, ft in self.fields(t)] or [1])
        return self.sizeof(t)
def _constval(e):
    if e.get('kind') == 'ConstantExpr' and 'value' in e: return int(e['value'])
    if e.get('kind') == 'IntegerLiteral': return int(e['value'])
    if e.get('kind') == 'UnaryOperator' and e.get('opcode') == '-':
        v = _constval(e['inner'][0]); return None if v is None else -v
    for c in e.get('inner', []):
        v = _constval(c)
        if v is not None: return v
    return None
