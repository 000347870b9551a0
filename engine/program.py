"""The resolved program: merges the typed-AST facts of several translation
units (clang front end, see extract/extract.cc) into one index."""
import json


class Type(object):
    __slots__ = ('s', 'k', 'w', 'sg', 'to', 'el', 'n', 'ret', 'ps', 'name', 'plain', 'repo',
                 'ta', 'size', 'const', 'tcopy', 'scoped', 'rv', 'unq', 'cls')

    def __repr__(self):
        return self.s


_TYPES = {}


def strip_const(s):
    return s[6:] if s.startswith('const ') else s


class Program(object):
    def __init__(self):
        self.types = _TYPES
        self.functions = {}
        self.records = {}
        self.globals = {}
        self.enums = {}
        self.by_name = {}
        self.units = []
        self._vt = {}
        self._sub = {}

    def load(self, path):
        with open(path) as f:
            d = json.load(f)
        tab = []
        for t in d['types']:
            if t is None:
                tab.append(None)
                continue
            ty = self.types.get(t['s'])
            if ty is None:
                ty = Type()
                for a in Type.__slots__:
                    setattr(ty, a, t.get(a))
                ty.unq = strip_const(t['s']) if t.get('k') != 'ptr' else t['s'].rstrip(' const')
                self.types[t['s']] = ty
                ty.cls = 'new'
            elif ty.size is None and t.get('size') is not None:
                ty.size, ty.tcopy = t['size'], t.get('tcopy')
            tab.append(ty)

        def tr(i):
            return tab[i] if isinstance(i, int) and i >= 0 else None
        for ty in tab:
            if ty is not None and ty.cls == 'new':
                ty.cls = None
                for a in ('to', 'el', 'ret'):
                    v = getattr(ty, a)
                    if isinstance(v, int):
                        setattr(ty, a, tr(v))
                if ty.ps:
                    ty.ps = [tr(p) for p in ty.ps]
                if ty.ta:
                    ty.ta = [tr(x['t']) if 't' in x else (int(x['v']) if 'v' in x else None) for x in ty.ta]
        tkeys = ('t', 'ct', 'lt', 'at', 'ret', 'ft')

        def walk(n):
            if isinstance(n, dict):
                for k, v in n.items():
                    if k in tkeys and isinstance(v, int) and not isinstance(v, bool):
                        n[k] = tr(v)
                    elif k == 'pt':
                        n[k] = [tr(x) for x in v]
                    elif k == 'ta':
                        n[k] = [tr(x['t']) if 't' in x else (int(x['v']) if 'v' in x else None) for x in v]
                    elif isinstance(v, (dict, list)):
                        walk(v)
            elif isinstance(n, list):
                for x in n:
                    if isinstance(x, (dict, list)):
                        walk(x)
        for sec in ('functions', 'records', 'globals'):
            dst = getattr(self, sec)
            for k, v in d[sec].items():
                if v is None:
                    continue
                old = dst.get(k)
                if old is not None and not (sec == 'globals' and 'init' in v and 'init' not in old):
                    continue
                walk(v)
                dst[k] = v
        for k, v in d['enums'].items():
            self.enums[k] = [(a, int(b)) for a, b in v]
        return d['errors']

    def finish(self):
        self.by_name = {}
        for f in self.functions.values():
            self.by_name.setdefault(f['name'], []).append(f)

    # ------------------------------------------------------------ classes
    def bases(self, cls):
        r = self.records.get(cls)
        return [b['name'] for b in r['bases']] if r else []

    def derives(self, c, b):
        if c == b:
            return True
        key = (c, b)
        v = self._sub.get(key)
        if v is None:
            v = any(self.derives(x, b) for x in self.bases(c))
            self._sub[key] = v
        return v

    def overrider(self, cls, mid):
        """final overrider of method mid for dynamic class cls."""
        key = (cls, mid)
        if key in self._vt:
            return self._vt[key]
        r = None
        rec = self.records.get(cls)
        if rec:
            for m in rec.get('methods', []):
                if m['id'] == mid or self._overs(m, mid):
                    r = m
                    break
            if r is None:
                cand = None
                for b in rec['bases']:
                    c = self.overrider(b['name'], mid)
                    if c is not None and (cand is None or cand['pure']):
                        cand = c
                r = cand
        self._vt[key] = r
        return r

    def _overs(self, m, mid):
        for o in m.get('over', ()):
            if o == mid:
                return True
            om = self.method_by_id(o)
            if om and self._overs(om, mid):
                return True
        return False

    def method_by_id(self, mid):
        if not hasattr(self, '_mids'):
            self._mids = {}
            for rec in self.records.values():
                for m in rec.get('methods', []):
                    self._mids[m['id']] = m
        return self._mids.get(mid)

    def find_methods(self, cls, name):
        """all methods called name visible in cls (nearest class first)."""
        rec = self.records.get(cls)
        if not rec:
            return []
        ms = [m for m in rec.get('methods', []) if m['name'] == name and not m['deleted']]
        # template methods instantiated
        pre = cls + '::' + name
        ids = {m['id'] for m in ms}
        for fid, f in self.functions.items():
            if f.get('cls') == cls and f['m']['name'] == name and fid not in ids:
                ms.append(f['m'])
                ids.add(fid)
        if ms:
            return ms
        for b in self.bases(cls):
            ms = self.find_methods(b, name)
            if ms:
                return ms
        return []
