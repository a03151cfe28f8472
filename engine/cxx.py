"""Front end: parse /repo's C++ with clang against declaration-only stub headers
and index the functions, classes and variables it defines (by clang's JSON AST)."""
import json, subprocess, os, re, hashlib
from concurrent.futures import ThreadPoolExecutor, ProcessPoolExecutor

CLANG = '/usr/bin/clang++-18'
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STUBS = os.path.join(VERIF, 'stubs')


class Untranslatable(Exception):
    """The source uses something outside the supported subset."""


def dump(path):
    cmd = [CLANG, '-std=gnu++17', '-w', '-nostdinc', '-nostdinc++', '-isystem', STUBS,
           '-fsyntax-only', '-Xclang', '-ast-dump=json', path]
    p = subprocess.run(cmd, capture_output=True)
    if p.returncode != 0:
        raise Untranslatable('clang cannot parse %s against the stub headers: %s' % (path, p.stderr.decode()[:600]))
    return json.loads(p.stdout)


class Func:
    def __init__(self, key, qname, node, tu):
        self.key = key; self.qname = qname; self.node = node; self.tu = tu
        self.params = [c for c in node.get('inner', []) if c['kind'] == 'ParmVarDecl']
        self.body = next((c for c in node.get('inner', []) if c['kind'] == 'CompoundStmt'), None)
        self.inits = [c for c in node.get('inner', []) if c['kind'] == 'CXXCtorInitializer']
        self.line = node.get('_line')
        self.file = node.get('_file')
        self.cls = qname.rsplit('::', 1)[0] if '::' in qname else None
        t = node['type']['qualType']
        self.rettype = t[:t.index('(')].strip()
        self.static = node.get('storageClass') == 'static'

    def __repr__(self):
        return '<Func %s>' % self.qname


class TU:
    def __init__(self, path, root_dir):
        self.path = path
        self.ids = {}
        ast = dump(path)
        self._file = None; self._line = None
        self.root_dir = root_dir
        self.funcs = []      # Func with bodies in repo
        self.classes = {}    # name -> node
        self.globals = []
        self.enums = {}
        self.records = {}    # id -> name
        self._locs(ast)
        self._index(ast, [], True)

    # clang prints file/line only when they change, in document order
    def _loc(self, l):
        if not l: return
        if 'spellingLoc' in l:
            self._loc(l['spellingLoc']); self._loc(l['expansionLoc']); return
        if 'file' in l: self._file = l['file']
        if 'line' in l: self._line = l['line']

    def _locs(self, root):
        stack = [root]
        # explicit stack keeping document order
        while stack:
            n = stack.pop()
            if not isinstance(n, dict): continue
            if 'loc' in n: self._loc(n['loc'])
            if 'range' in n:
                self._loc(n['range'].get('begin'))
                if not n.get('loc'):
                    pass
                n['_line'] = self._line; n['_file'] = self._file
                self._loc(n['range'].get('end'))
            if 'id' in n: self.ids.setdefault(n['id'], n)
            inner = n.get('inner')
            if inner: stack.extend(reversed(inner))

    def _index(self, n, scope, top):
        for c in n.get('inner', []):
            k = c.get('kind')
            if k in ('NamespaceDecl', 'LinkageSpecDecl', 'TranslationUnitDecl'):
                self._index(c, scope + ([c['name']] if c.get('name') else []), True)
            elif k == 'CXXRecordDecl':
                if c.get('completeDefinition'):
                    self.records[c['id']] = c.get('name')
                    f = c.get('_file') or ''
                    if f.startswith(self.root_dir):
                        self.classes[c['name']] = c
                    self._index(c, scope + [c.get('name') or '?'], False)
                else:
                    self.records[c['id']] = c.get('name')
            elif k == 'EnumDecl':
                self.enums[c.get('name')] = c
                v = 0
                for e in c.get('inner', []):
                    if e['kind'] == 'EnumConstantDecl':
                        ce = e.get('inner')
                        if ce and 'value' in ce[0]: v = int(ce[0]['value'])
                        e['_value'] = v; v += 1
            elif k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl'):
                f = c.get('_file') or ''
                sc = scope
                if c.get('parentDeclContextId') in self.records:
                    sc = [self.records[c['parentDeclContextId']]]
                c['_qname'] = '::'.join([s for s in sc if s != 'std'] + [c.get('name', '?')])
                if f.startswith(self.root_dir) and any(x['kind'] == 'CompoundStmt' for x in c.get('inner', [])):
                    self.funcs.append(Func(c.get('mangledName') or c['_qname'], c['_qname'], c, self))
            elif k == 'VarDecl' and top:
                if (c.get('_file') or '').startswith(self.root_dir):
                    self.globals.append(c)


class Program:
    def __init__(self, src_dir):
        self.src_dir = src_dir
        files = sorted(os.path.join(src_dir, f) for f in os.listdir(src_dir) if f.endswith(('.cc', '.cpp')))
        with ThreadPoolExecutor(8) as ex:
            self.tus = list(ex.map(lambda f: TU(f, src_dir), files))
        self.by_key = {}
        self.by_qname = {}
        self.classes = {}
        self.enums = {}
        self.globals = {}
        for tu in self.tus:
            for f in tu.funcs:
                if f.key not in self.by_key:
                    self.by_key[f.key] = f
                    self.by_qname.setdefault(f.qname, []).append(f)
            for n, c in tu.classes.items(): self.classes.setdefault(n, c)
            for n, c in tu.enums.items(): self.enums.setdefault(n, c)
            for g in tu.globals: self.globals.setdefault(g['name'], g)
        self.fields = {}
        for n, c in self.classes.items():
            self.fields[n] = [(f['name'], f['type'].get('desugaredQualType', f['type']['qualType'])) for f in c.get('inner', []) if f['kind'] == 'FieldDecl']

    def func(self, qname):
        q, _, k = qname.partition('/')
        fs = self.by_qname.get(q)
        if fs and k: fs = [f for f in fs if len(f.params) == int(k)]
        if not fs: return None
        return fs[0]


def walk(n):
    stack = [n]
    while stack:
        x = stack.pop()
        if isinstance(x, dict):
            yield x
            stack.extend(reversed(x.get('inner', [])))


if __name__ == '__main__':
    import sys, time
    t = time.time()
    p = Program(sys.argv[1])
    print(time.time() - t)
    for k, f in sorted(p.by_key.items(), key=lambda kv: kv[1].qname):
        print(f.qname, k, f.file, f.line, f.rettype, [x.get('name') for x in f.params])
    print(p.fields); print(list(p.globals))
