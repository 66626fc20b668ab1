"""Program database: the typed AST that kdump extracted from /repo's current source."""
import json, z3

def norm(n):
    """Qualified name without template arguments."""
    for a, b in (('operator<=>', 'operator@3'), ('operator<<', 'operator@1'), ('operator>>', 'operator@2'),
                 ('operator->', 'operator@4'), ('operator<=', 'operator@5'), ('operator>=', 'operator@6')):
        n = n.replace(a, b)
    out = []; k = 0; i = 0
    while i < len(n):
        c = n[i]
        if n.startswith('operator<', i) and not (n[i+9:i+10].isalnum()):
            if k == 0: out.append('operator@7')
            i += 9; continue
        if n.startswith('operator>', i):
            if k == 0: out.append('operator@8')
            i += 9; continue
        if c == '<': k += 1
        elif c == '>': k -= 1
        elif k == 0: out.append(c)
        i += 1
    s = ''.join(out)
    for a, b in (('@1', '<<'), ('@2', '>>'), ('@3', '<=>'), ('@4', '->'), ('@5', '<='), ('@6', '>='), ('@7', '<'), ('@8', '>')):
        s = s.replace('operator' + a, 'operator' + b)
    return s

class Unsupported(Exception):
    """The verifier cannot translate this construct (not a refutation)."""

INTS = {'int': (True, 32), 'unsigned int': (False, 32), 'long': (True, 64), 'unsigned long': (False, 64),
        'short': (True, 16), 'unsigned short': (False, 16), 'signed char': (True, 8), 'unsigned char': (False, 8),
        'char': (True, 8), 'long long': (True, 64), 'unsigned long long': (False, 64), '__int128': (True, 128),
        'char8_t': (False, 8), 'wchar_t': (True, 32), 'char16_t': (False, 16), 'char32_t': (False, 32)}

class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.funcs = d['funcs']; self.types = d['types']; self.gvars = d['gvars']
        self.byname = {}
        for i, f in enumerate(self.funcs):
            f['id'] = i
            f['nn'] = norm(f['n'])
            self.byname.setdefault(f['nn'], []).append(i)
        for i, t in enumerate(self.types):
            if t is None: self.types[i] = t = {'k': '?', 'n': 'null'}
            t['id'] = i
            if t['k'] in ('r', 'e'): t['nn'] = norm(t['n'])
        self._kind = {}
        self._shape = {}
        self._sorts = {}
        self.opaque_override = {}    # nn -> z3 sort or callable

    # ---- lookup
    def byrec(self, rec):
        """member functions of a record type"""
        if not hasattr(self, '_byrec'):
            self._byrec = {}
            for f in self.funcs: self._byrec.setdefault(f.get('rec'), []).append(f)
        return self._byrec.get(rec, [])
    def fns(self, nn, pred=None, body=True):
        r = [self.funcs[i] for i in self.byname.get(nn, ()) if (not body or self.funcs[i].get('body') is not None)]
        return [f for f in r if pred is None or pred(f)]
    def fn(self, nn, pred=None, body=True):
        r = self.fns(nn, pred, body)
        if not r: raise Unsupported('function not found in the current source: ' + nn)
        return r[0]
    def typ(self, nn, pred=None):
        for t in self.types:
            if t['k'] in ('r', 'e') and t['nn'] == nn and (pred is None or pred(t)): return t['id']
        raise Unsupported('type not found in the current source: ' + nn)

    def rname(self, t):
        T = self.types[t]
        return T.get('nn') if T['k'] in ('r', 'e') else None
    def deref(self, t):
        T = self.types[t]
        return T['to'] if T['k'] == 'ref' else t
    def isref(self, t): return self.types[t]['k'] == 'ref'
    def targ(self, t, i):
        return self.types[t]['targs'][i]

    def allbases(self, t):
        out = [t]
        for b in self.types[t].get('bases') or ():
            out += self.allbases(b)
        return out
    def isbase(self, t, nn):
        return any(self.rname(b) == nn for b in self.allbases(t))

    def intinfo(self, t):
        T = self.types[t]
        if T['k'] == 'b' and T['n'] in INTS: return INTS[T['n']]
        if T['k'] == 'e': return self.intinfo(T['u'])
        if T['k'] == 'b' and T['n'] == 'bool': return (False, 1)
        return None

    def kind(self, t):
        k = self._kind.get(t)
        if k is None: k = self._kind[t] = self._kind0(t)
        return k
    def _kind0(self, t):
        T = self.types[t]; k = T['k']
        if k == 'b':
            n = T['n']
            if n == 'bool': return 'bool'
            if n == 'void': return 'void'
            if n in ('double', 'float', 'long double'): return 'real'
            if n == 'unsigned char': return 'b8'
            if n in INTS: return 'int'
            return 'opaque'
        if k == 'e':
            ii = self.intinfo(t)
            return 'b8' if ii and ii[1] == 8 else 'int'
        if k in ('ptr', 'ref'): return k
        if k == 'arr': return 'tup'
        if k == 'r':
            nn = T['nn']
            if nn in self.opaque_override: return 'opaque'
            if T.get('lambda'): return 'lambda'
            if nn in ('std::vector', 'boost::container::static_vector', 'std::deque', 'std::queue', 'std::stack',
                      'boost::container::vector', 'std::initializer_list', 'boost::container::small_vector'): return 'vec'
            if nn in ('std::pair', 'std::tuple', 'std::array'): return 'tup'
            if nn in ('boost::unordered::unordered_flat_map', 'std::unordered_map', 'std::map', 'boost::unordered::unordered_flat_set',
                      'std::unordered_set', 'std::set', 'boost::unordered::concurrent_flat_set'): return 'map'
            if nn in ('std::optional', 'boost::optional'): return 'opt'
            if nn in ('std::unique_ptr',): return 'uptr'
            if nn in ('__gnu_cxx::__normal_iterator', 'boost::container::vec_iterator'): return 'it'
            if nn == 'boost::iterator_range' or nn.startswith('boost::iterator_range_detail::'): return 'range'
            if T.get('fields') is not None: return 'rec'
            return 'opaque'
        if k == 'fn': return 'fn'
        return 'opaque'

    def isset(self, t):
        return self.rname(t) in ('boost::unordered::unordered_flat_set', 'std::unordered_set', 'std::set', 'boost::unordered::concurrent_flat_set')
    def elem(self, t):
        return self.types[t]['targs'][0]
    def tupelems(self, t):
        T = self.types[t]
        if T['k'] == 'arr': return [T['to']] * T['n']
        nn = T['nn']
        if nn == 'std::array':
            return [T['targs'][0]] * int(T['targs'][1]['int'])
        out = []
        for a in T['targs']:
            if isinstance(a, list): out += a
            else: out.append(a)
        return out
    def fields(self, t):
        """[(name, type, fieldinfo)] including bases, base first."""
        T = self.types[t]; out = []
        for b in T.get('bases') or ():
            if self.types[b].get('fields') is not None: out += self.fields(b)
        for f in T.get('fields') or (): out.append((f['n'], f['t'], f))
        return out
    def sort_of(self, nn):
        s = self._sorts.get(nn)
        if s is None: s = self._sorts[nn] = z3.DeclareSort(nn.replace('::', '.'))
        return s
