"""Loads the clang AST (JSON) of a translation unit of /repo and indexes it.

Nothing is rewritten: the verifier executes exactly the AST clang builds from
the current sources (preprocessed with -DNDEBUG like the release build, so
assert() is absent)."""
import json, os, subprocess, re

REPO = os.environ.get('REPO', '/repo')
CL = '/opt/vp/pydeps/lib/python3.12/site-packages/clingo'
FLAGS = ['-std=c++17', '-DNDEBUG', '-I' + REPO + '/libclingcon', '-I' + REPO + '/third_party/wide-integer', '-I' + CL, '-w']


class ExtractError(Exception):
    pass


def load_docs(path, flt):
    # fixed addresses: node ids agree between runs with different filters
    cmd = ['setarch', '-R', 'clang++-18'] + FLAGS + ['-fsyntax-only', '-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=' + flt, path]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise ExtractError('clang failed on %s: %s' % (path, r.stderr[:2000]))
    s = r.stdout
    d = json.JSONDecoder()
    i, docs, n = 0, [], len(s)
    while True:
        i = s.find('{', i)
        if i < 0:
            break
        o, i = d.raw_decode(s, i)
        docs.append(o)
    return docs


class Func:
    def __init__(self, node, qname, rec, targs, tu):
        self.node, self.qname, self.rec, self.targs, self.tu = node, qname, rec, targs, tu
        self.id = node['id']
        self.name = node.get('name')
        self.params = [c for c in node.get('inner', []) if c.get('kind') == 'ParmVarDecl']
        self.body = next((c for c in node.get('inner', []) if c.get('kind') == 'CompoundStmt'), None)
        self.inits = [c for c in node.get('inner', []) if c.get('kind') == 'CXXCtorInitializer']

    @property
    def full(self):
        return self.qname + ('<' + ','.join(self.targs) + '>' if self.targs else '')

    def sig(self):
        return self.node.get('type', {}).get('qualType', '')


def targ(n):
    if 'type' in n:
        t = n['type']
        return t.get('desugaredQualType') or t.get('qualType')
    if 'value' in n:
        return str(n['value'])
    return '?'


class TU:
    def __init__(self, path, filters=('Clingcon',)):
        self.path = path
        self.decls = {}      # id -> decl node
        self.canon = {}      # id -> previous decl id
        self.defs = {}       # canonical id -> Func with body
        self.funcs = []      # functions with a body
        self.records = {}    # qualified name (with targs) -> node
        self.recof = {}      # record id -> qualified name
        self.aliases = {}    # alias name (unqualified and qualified) -> type string
        self.enums = {}      # enum constant id -> value
        self.enumnames = {}
        self.consts = {}     # var id -> init node (global constants)
        self.parentrec = {}
        for flt in filters:
            for doc in load_docs(path, flt):
                self._line = 0
                self._file = ''
                self._walk(doc, [], None, False)
        for f in self.funcs:
            self.defs.setdefault(self.canonical(f.id), f)

    # record lines (delta encoded in clang's JSON)
    def _loc(self, n):
        for key in ('loc', 'range'):
            l = n.get(key)
            if not l:
                continue
            parts = [l] if key == 'loc' else [l.get('begin', {}), l.get('end', {})]
            for j, p in enumerate(parts):
                for q in ([p.get('spellingLoc'), p.get('expansionLoc')] if ('spellingLoc' in p or 'expansionLoc' in p) else [p]):
                    if not q:
                        continue
                    if 'file' in q:
                        self._file = q['file']
                    if 'line' in q:
                        self._line = q['line']
                if key == 'loc' or j == 0:
                    if 'offset' in p or 'expansionLoc' in p:
                        n['_line'] = self._line
                        n['_file'] = self._file

    def canonical(self, i):
        while i in self.canon:
            i = self.canon[i]
        return i

    def _walk(self, n, stack, rec, dependent):
        k = n.get('kind')
        if k is None:
            return
        self._loc(n)
        n.pop('loc', None)
        n.pop('range', None)
        if 'id' in n and k.endswith('Decl'):
            self.decls[n['id']] = n
            if 'previousDecl' in n:
                self.canon[n['id']] = n['previousDecl']
        nstack, nrec = stack, rec
        if k == 'NamespaceDecl':
            nstack = stack + [n.get('name', '')] if n.get('name') else stack
        elif k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl', 'ClassTemplatePartialSpecializationDecl'):
            nm = n.get('name', '')
            if k != 'CXXRecordDecl':
                ta = [targ(c) for c in n.get('inner', []) if c.get('kind') == 'TemplateArgument']
                nm = nm + '<' + ','.join(ta) + '>'
            nstack = stack + [nm]
            nrec = '::'.join(nstack)
            self.recof[n['id']] = nrec
            if n.get('completeDefinition'):
                self.records.setdefault(nrec, n)
        elif k in ('TypedefDecl', 'TypeAliasDecl'):
            t = n.get('type', {})
            v = t.get('desugaredQualType') or t.get('qualType')
            self.aliases['::'.join(stack + [n['name']])] = v
            self.aliases.setdefault(n['name'], v)
        elif k == 'EnumDecl':
            v = 0
            for c in n.get('inner', []):
                if c.get('kind') == 'EnumConstantDecl':
                    ini = _const(c)
                    if ini is not None:
                        v = ini
                    self.enums[c['id']] = v
                    v += 1
            self.enumnames['::'.join(stack + [n.get('name', '')])] = n
        elif k == 'VarDecl' and rec is None or k == 'VarDecl' and not isinstance(rec, Func):
            if n.get('init'):
                self.consts[n['id']] = n
        if k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl'):
            r = rec
            if 'parentDeclContextId' in n and n['parentDeclContextId'] in self.recof:
                r = self.recof[n['parentDeclContextId']]
            elif 'parentDeclContextId' in n and k != 'FunctionDecl':
                pass
            ta = [targ(c) for c in n.get('inner', []) if c.get('kind') == 'TemplateArgument']
            q = (r + '::' if r else '::'.join(stack) + ('::' if stack else '')) + n.get('name', '')
            n['_rec'] = r
            n['_q'] = q
            f = Func(n, q, r, ta, self)
            if f.body is not None:
                self.funcs.append(f)
            nrec = rec
        for c in n.get('inner', []):
            if isinstance(c, dict):
                self._walk(c, nstack, nrec, dependent)

    def find(self, qname, targs=None, nparams=None, sig=None, rec=None):
        """all functions with a body whose qualified name matches (suffix)"""
        out = []
        for f in self.funcs:
            if f.qname == qname or f.qname.endswith('::' + qname):
                if targs is not None and f.targs != list(targs):
                    continue
                if nparams is not None and len(f.params) != nparams:
                    continue
                if sig is not None and not re.search(sig, f.sig()):
                    continue
                if rec is not None and not re.search(rec, f.rec or ''):
                    continue
                out.append(f)
        return out

    def definition(self, declid):
        return self.defs.get(self.canonical(declid))


def _const(n):
    if 'value' in n and n['kind'] in ('ConstantExpr', 'IntegerLiteral'):
        try:
            return int(n['value'])
        except ValueError:
            return None
    for c in n.get('inner', []):
        if isinstance(c, dict):
            r = _const(c)
            if r is not None:
                if n.get('kind') == 'UnaryOperator' and n.get('opcode') == '-':
                    return -r
                return r
    return None
