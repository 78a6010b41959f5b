"""Load the clang AST of a /repo translation unit (JSON dump) and index it."""
import json, os, subprocess

REPO = os.environ.get('VQ_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
SHIM = os.path.join(os.path.dirname(HERE), 'shim')
CLANG = os.environ.get('VQ_CLANG', 'clang-18')


class ExtractError(Exception):
    """The source cannot be brought into the verifier's language (not a violation)."""


def load(path, flt='quickbook::', extra=()):
    cmd = [CLANG, '-x', 'c++', '-std=c++11', '-fsyntax-only', '-I' + SHIM, '-Wno-everything',
           '-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=' + flt] + list(extra) + [path]
    p = subprocess.run(cmd, capture_output=True, text=True, errors='replace')
    if p.returncode != 0:
        raise ExtractError('clang failed on %s: %s' % (path, p.stderr[:2000]))
    dec = json.JSONDecoder()
    s, i, docs = p.stdout, 0, []
    n = len(s)
    while i < n:
        while i < n and s[i] in ' \n\r\t':
            i += 1
        if i >= n:
            break
        if s[i] != '{':
            j = s.find('\n', i)
            i = n if j < 0 else j + 1
            continue
        o, i = dec.raw_decode(s, i)
        docs.append(o)
    return docs


def inner(n):
    return [c for c in n.get('inner', []) if isinstance(c, dict)]


def kids(n):
    """children that are real nodes (skips null placeholders and comments)"""
    return [c for c in inner(n) if c.get('kind') and not c['kind'].endswith('Comment')]


def qtype(n):
    t = n.get('type', {})
    return t.get('desugaredQualType') or t.get('qualType', '')


def rawtype(n):
    return n.get('type', {}).get('qualType', '')


class Index:
    """functions, records and variables of one or more ASTs"""

    def __init__(self):
        self.decl = {}        # id -> node
        self.qname = {}       # id -> qualified name
        self.funcs = {}       # qualified name -> [definition nodes]
        self.records = {}     # name -> node
        self.parent_rec = {}  # method id -> record node
        self.canon = {}       # redeclaration id -> first id
        self.vars = {}
        self.typedefs = {}
        self.enums = {}

    def add_docs(self, docs):
        seen = set()
        for d in docs:
            self._walk(d, self._ctx_of(d), None, seen)
        self._resolve()

    def _ctx_of(self, d):
        # the filter loses the enclosing namespaces; recover it when we can
        return 'quickbook'

    def _walk(self, n, ctx, rec, seen):
        if not isinstance(n, dict):
            return
        k = n.get('kind')
        if 'id' in n:
            if n['id'] in self.decl and n['id'] in seen:
                pass
            seen.add(n.get('id'))
        if k == 'NamespaceDecl':
            nm = n.get('name', '(anonymous)')
            q = ctx if nm == '(anonymous)' else ctx + '::' + nm
            for c in kids(n):
                self._walk(c, q, None, seen)
            return
        if k in ('LinkageSpecDecl',):
            for c in kids(n):
                self._walk(c, ctx, rec, seen)
            return
        if k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl'):
            q = ctx + '::' + n.get('name', '(anon)')
            self.decl[n['id']] = n
            self.qname[n['id']] = q
            if n.get('completeDefinition'):
                self.records[q] = n
                self.records.setdefault(n.get('name', '(anon)'), n)
            for c in kids(n):
                self._walk(c, q, n, seen)
            return
        if k == 'ClassTemplateDecl':
            for c in kids(n):
                if c.get('kind') == 'ClassTemplateSpecializationDecl':
                    self._walk(c, ctx, None, seen)
            return
        if k == 'FunctionTemplateDecl':
            first = True
            for c in kids(n):
                if c.get('kind') in ('FunctionDecl', 'CXXMethodDecl'):
                    if first:
                        first = False
                        self.decl[c['id']] = c
                        self.qname[c['id']] = ctx + '::' + c.get('name', '')
                        if rec is not None:
                            self.parent_rec[c['id']] = rec
                        c['_pattern'] = True
                        continue
                    self._walk(c, ctx, rec, seen)
            return
        if k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl'):
            self.decl[n['id']] = n
            self.qname[n['id']] = ctx + '::' + n.get('name', '')
            if rec is not None:
                self.parent_rec[n['id']] = rec
            for c in kids(n):
                if c.get('kind') in ('ParmVarDecl',):
                    self.decl[c['id']] = c
            return
        if k in ('VarDecl', 'FieldDecl', 'EnumConstantDecl', 'TypedefDecl', 'TypeAliasDecl'):
            self.decl[n['id']] = n
            self.qname[n['id']] = ctx + '::' + n.get('name', '')
            if k == 'TypedefDecl':
                self.typedefs[n.get('name')] = qtype(n)
            return
        if k == 'EnumDecl':
            self.decl[n['id']] = n
            self.qname[n['id']] = ctx + '::' + n.get('name', '')
            val = -1
            for c in kids(n):
                if c.get('kind') == 'EnumConstantDecl':
                    v = None
                    for e in kids(c):
                        v = const_value(e)
                    val = v if v is not None else val + 1
                    c['_value'] = val
                    self.decl[c['id']] = c
                    self.enums[c['name']] = val
                    self.enums[ctx + '::' + c['name']] = val
            return

    def _resolve(self):
        # redeclaration chains
        for i, n in list(self.decl.items()):
            p = n.get('previousDecl')
            if p:
                self.canon[i] = p
        # out-of-line members: parentDeclContextId
        for i, n in list(self.decl.items()):
            if n['kind'] in ('CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl', 'FunctionDecl'):
                p = n.get('parentDeclContextId')
                if p and p in self.decl and 'Record' in self.decl[p]['kind'] or (p and p in self.decl and self.decl[p]['kind'] == 'ClassTemplateSpecializationDecl'):
                    self.parent_rec[i] = self.decl[p]
                    self.qname[i] = self.qname[p] + '::' + n.get('name', '')
        for i, n in list(self.decl.items()):
            if n['kind'] in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl'):
                c = self.root(i)
                if c != i and c in self.qname:
                    self.qname[i] = self.qname[c]
                if c != i and c in self.parent_rec:
                    self.parent_rec.setdefault(i, self.parent_rec[c])
        self.funcs = {}
        for i, n in self.decl.items():
            if n['kind'] in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl'):
                if body_of(n) is not None and not n.get('_pattern'):
                    l = self.funcs.setdefault(self.qname[i], [])
                    if all(x['id'] != i for x in l):
                        l.append(n)

    def root(self, i):
        seen = set()
        while i in self.canon and i not in seen:
            seen.add(i)
            i = self.canon[i]
        return i

    def definition(self, i):
        """definition node of the function referenced by id i (or None)"""
        n = self.decl.get(i)
        if n is None:
            return None
        if body_of(n) is not None:
            return n
        r = self.root(i)
        q = self.qname.get(i)
        for f in self.funcs.get(q, []):
            if self.root(f['id']) == r or f['type']['qualType'] == n['type']['qualType']:
                return f
        return None


def body_of(n):
    for c in kids(n):
        if c['kind'] in ('CompoundStmt', 'CXXTryStmt'):
            return c
    return None


def params_of(n):
    return [c for c in kids(n) if c['kind'] == 'ParmVarDecl']


def const_value(e):
    if e is None:
        return None
    if e['kind'] == 'ConstantExpr' and 'value' in e:
        return int(e['value'])
    if e['kind'] in ('IntegerLiteral',):
        return int(e['value'])
    if e['kind'] == 'CharacterLiteral':
        return int(e['value'])
    if e['kind'] == 'UnaryOperator' and e.get('opcode') == '-':
        v = const_value(kids(e)[0])
        return None if v is None else -v
    for c in kids(e):
        v = const_value(c)
        if v is not None:
            return v
    return None


def strip(n):
    """drop wrappers which do not change the value"""
    while True:
        k = n['kind']
        if k in ('ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr',
                 'SubstNonTypeTemplateParmExpr', 'ConstantExpr', 'FullExpr'):
            n = kids(n)[0]
        else:
            return n


def walk(n):
    yield n
    for c in kids(n):
        yield from walk(c)
