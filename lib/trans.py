"""Mechanical translation of extracted C++ function bodies (extractor JSON) to WhyML.

Every function is translated from the text clang parsed on this run.  See DESIGN.md section
'Translation' for the semantics and for what is assumed."""
import json, re, difflib

class Unsup(Exception):
    pass
class Mismatch(Exception):
    pass

KEYWORDS = set('''abstract absurd alias any as assert assume at axiom begin bool break by check clone coinductive
constant continue diverges do done downto else end ensures epsilon exception exists export false fix float for forall
fun function ghost goal if import in inductive int invariant label lemma let match meta model module mutable not old
partial predicate private pure raise raises reads real rec ref range requires return returns scope so string then
theory to true try type unit use val variant while with writes result mod div abs min max pow fst snd len get set'''.split())

U = {8: 256, 16: 65536, 32: 4294967296, 64: 18446744073709551616, 128: 2**128}

# ------------------------------------------------------------------ types
class Ty:
    why = None
    def key(self): return (type(self).__name__, self.why)
class TInt(Ty):
    why = 'int'
    def __init__(s, bits, sg): s.bits, s.sg = bits, sg
    def rng(s):
        return (-(1 << (s.bits-1)), (1 << (s.bits-1))-1) if s.sg else (0, (1 << s.bits)-1)
    def nm(s): return ('i' if s.sg else 'u')+str(s.bits)
class TBool(Ty): why = 'bool'
class TVoid(Ty): why = 'unit'
class TFloat(Ty): why = 'float_'
class TStr(Ty): why = 'str_'
class TOpaque(Ty):
    def __init__(s, why, default=None, ptr=False): s.why, s.default = why, default
class TVec(Ty):
    def __init__(s, why, e): s.why, s.e = why, e
class TRec(Ty):
    def __init__(s, why, fields): s.why, s.fields = why, fields   # [(cname, whyname, Ty)]
    def f(s, n):
        for a in s.fields:
            if a[0] == n: return a
        raise Unsup('field %s of %s' % (n, s.why))
class TIter(Ty):
    why = 'int'
    def __init__(s, vec, cont=None): s.vec, s.cont = vec, cont   # cont: name of a fixed global container
class TArrPtr(Ty):
    """pointer to the first element of an array; modelled as the array"""
    def __init__(s, vec): s.vec = vec; s.why = vec.why
class TPtr(Ty):
    """pointer modelled as an alias of a fixed lvalue or as an opaque address"""
    why = 'int'
    def __init__(s, e): s.e = e

class LV:
    def __init__(s, root, path=(), ty=None, ro=False):
        s.root, s.path, s.ty, s.ro = root, tuple(path), ty, ro
    def fld(s, f):
        t = s.ty.f(f)
        return LV(s.root, s.path+(('f', s.ty, t[1]),), t[2], s.ro)
    def idx(s, i, vec=None):
        vec = vec or s.ty
        return LV(s.root, s.path+(('i', vec, i),), vec.e, s.ro)
    def same(a, b): return a.root == b.root and len(a.path) == len(b.path) and all(x[0] == y[0] and x[2] == y[2] for x, y in zip(a.path, b.path))

class Val:
    def __init__(s, t, ty, st=False, cont=None, lv=None):
        s.t, s.ty, s.st, s.cont, s.lv = t, ty, st, cont, lv

# ------------------------------------------------------------------ contracts
class Fn:
    """contract of one function.  params: logical names by position ('this' first for methods)"""
    def __init__(s, name, q, sel=None, params=None, requires=(), ensures=(), loops=None, ghost=None, throws=None,
                 writes=(), reads=(), alias=(), trusted=False, note='', ret=None, variant=None, steps=None, layer=None,
                 inline=(), opaque=(), ghostvars=(), prop=None, timeout=None, mode=None, contract_only=False, globals_=(), tail_abs=None):
        s.name, s.q, s.sel, s.params = name, q, sel, params
        s.requires = [x if isinstance(x, tuple) else ('pre%d' % i, x) for i, x in enumerate(requires)]
        s.ensures = [x if isinstance(x, tuple) else ('post%d' % i, x) for i, x in enumerate(ensures)]
        s.loops = loops or {}
        s.ghost = ghost or {}
        s.throws, s.writes, s.reads, s.alias, s.trusted, s.note = throws, list(writes), list(reads), list(alias), trusted, note
        s.layer = layer; s.timeout = timeout; s.mode = mode
        s.contract_only = contract_only
        s.tail_abs = tail_abs   # {'var': {x: type/formula}}: statements from the first one that allocates are replaced by an assumed effect
        s.variant = variant

class Unit:
    def __init__(s, name, data, cfg):
        s.name, s.d, s.cfg = name, data, cfg
        s.types, s.funs = data['types'], {f['id']: f for f in data['funs']}
        s.records = data['records']
        s.abbr = cfg.get('abbr', [])
        s.tcache = {}
        s.gen_types = []      # ordered list of generated Ty
        s.gen_seen = {}
        s.fns = cfg['fns']
        s.byq = {}
        for f in s.fns:
            s.byq.setdefault(f.q, []).append(f)
        s.sigc = {}

    # --- names and types
    def tstr(s, tid):
        x = s.types[tid]['s']
        for a, b in s.abbr:
            x = x.replace(a, b)
        return x
    def sig(s, f):
        if f['id'] in s.sigc: return s.sigc[f['id']]
        x = '%s(%s)%s' % (f['q'], ', '.join(s.tstr(p['t']) for p in f['params']), ' const' if f.get('cm') else '')
        if f.get('cls') is not None:
            x = '[%s] ' % s.tstr(f['cls']) + x
        if f.get('targs'):
            def ta(a):
                if isinstance(a, list): return ' '.join(ta(b) for b in a)
                return s.tstr(a) if isinstance(a, int) else str(a)
            x += ' <' + ','.join(ta(a) for a in f['targs']) + '>'
        s.sigc[f['id']] = x
        return x
    def spec(s, f):
        for c in s.byq.get(f['q'], ()):
            if c.sel is None or re.search(c.sel, s.sig(f)):
                return c
        return None

    def strip(s, tid):
        t = s.types[tid]
        while t['k'] in ('lref', 'rref'):
            tid = t['e']; t = s.types[tid]
        return tid
    def ty(s, tid):
        tid = s.strip(tid)
        if tid in s.tcache: return s.tcache[tid]
        r = s._ty(tid)
        s.tcache[tid] = r
        return r
    def _reg(s, t):
        k = t.why
        if k in s.gen_seen:
            return s.gen_seen[k]
        s.gen_seen[k] = t
        s.gen_types.append(t)
        return t
    def clean(s, x): return re.sub(r'\W+', '_', x).strip('_').lower()
    def _ty(s, tid):
        t = s.types[tid]
        k = t['k']
        name = s.tstr(tid)
        if name.startswith('const '): name = name[6:]
        if name.endswith(' const'): name = name[:-6]
        c = s.cfg.get('types', {}).get(name)
        if c is not None and not isinstance(c, str):
            if callable(c): return c(s, t)
            return c
        if k == 'bool': return TBool()
        if k == 'int': return TInt(t['bits'], t['sg'])
        if k == 'enum': return TInt(32, True)
        if k == 'void': return TVoid()
        if k == 'float': return TFloat()
        if k == 'arr':
            e = s.ty(t['e'])
            return s._reg(TVec(c or s.cfg.get('elvec', {}).get(e.why) or ('arr_'+e.why if not isinstance(e, TInt) else 'arr_'+e.nm()), e))
        if k == 'ptr':
            e = s.ty(t['e'])
            return TPtr(e)
        if k == 'rec':
            n = t['name']
            if n in ('std::vector', 'std::list', 'std::initializer_list', 'std::deque'):
                e = s.ty(t['args'][0])
                al = c or s.cfg.get('elvec', {}).get(e.why) or 'vec_'+(e.nm() if isinstance(e, TInt) else e.why)
                return s._reg(TVec(al, e))
            if n == 'std::pair':
                a, b = s.ty(t['args'][0]), s.ty(t['args'][1])
                al = c or 'pair_'+s.clean((a.nm() if isinstance(a, TInt) else a.why)+'_'+(b.nm() if isinstance(b, TInt) else b.why))
                return s._reg(TRec(al, [('first', al+'_first', a), ('second', al+'_second', b)]))
            if n == '__gnu_cxx::__normal_iterator':
                cont = s.ty(t['args'][1])
                return TIter(cont)
            if n.startswith('std::_List_'):
                return TIter(None)
            if n in ('std::basic_string', 'std::__cxx11::basic_string'): return TStr()
            rn = s.types[tid]['s']
            if rn.startswith('const '): rn = rn[6:]
            if rn in s.records:
                al = c or s.clean(name.replace('clpoly::', ''))
                if al in s.gen_seen: return s.gen_seen[al]
                fs = [(f['n'], al+'_'+(f['n'].strip('_') or 'f%d' % i), s.ty(f['t'])) for i, f in enumerate(s.records[rn]['fields'])]
                return s._reg(TRec(al, fs))
        if c: return TOpaque(c)
        raise Unsup('type '+name)

    # --- generated type theory
    def types_mlw(s):
        o = []
        for t in s.gen_types:
            w = t.why
            if isinstance(t, TRec):
                if not t.fields:
                    o.append('type %s' % w); o.append('val any_%s () : %s' % (w, w)); continue
                o.append('type %s = { %s }' % (w, '; '.join('%s : %s' % (f[1], f[2].why) for f in t.fields)))
                o.append('val any_%s () : %s' % (w, w))
            elif isinstance(t, TVec):
                o.append(VEC.replace('%V', w).replace('%E', t.e.why))
        return '\n'.join(o)

VEC = '''
type %V
val function %V_len (v: %V) : int
val function %V_get (v: %V) (i: int) : %E
axiom %V_len_nonneg: forall v: %V [%V_len v]. 0 <= %V_len v
val constant %V_nil : %V
axiom %V_nil_len: %V_len %V_nil = 0
val function %V_push (v: %V) (x: %E) : %V
axiom %V_push_len: forall v: %V, x: %E [%V_push v x]. %V_len (%V_push v x) = %V_len v + 1
axiom %V_push_get: forall v: %V, x: %E, i: int [%V_get (%V_push v x) i]. (0 <= i < %V_len v -> %V_get (%V_push v x) i = %V_get v i) /\\ (i = %V_len v -> %V_get (%V_push v x) i = x)
axiom %V_push_get2: forall v: %V, x: %E, i: int [%V_push v x, %V_get v i]. 0 <= i < %V_len v -> %V_get (%V_push v x) i = %V_get v i
val function %V_set (v: %V) (i: int) (x: %E) : %V
axiom %V_set_len: forall v: %V, i: int, x: %E [%V_set v i x]. %V_len (%V_set v i x) = %V_len v
axiom %V_set_get: forall v: %V, i j: int, x: %E [%V_get (%V_set v i x) j]. 0 <= i < %V_len v -> (j = i -> %V_get (%V_set v i x) j = x) /\\ (j <> i -> %V_get (%V_set v i x) j = %V_get v j)
val function %V_take (v: %V) (n: int) : %V
axiom %V_take_len: forall v: %V, n: int [%V_take v n]. 0 <= n <= %V_len v -> %V_len (%V_take v n) = n
axiom %V_take_get: forall v: %V, n i: int [%V_get (%V_take v n) i]. 0 <= i < n <= %V_len v -> %V_get (%V_take v n) i = %V_get v i
predicate %V_eq (v w: %V) = %V_len v = %V_len w /\\ forall i: int [%V_get v i | %V_get w i]. 0 <= i < %V_len v -> %V_get v i = %V_get w i
axiom %V_ext: forall v w: %V [%V_eq v w]. %V_eq v w -> v = w
val %V_at (v: %V) (i: int) : %E requires { [@expl:index in bounds] 0 <= i < %V_len v } ensures { result = %V_get v i }
val %V_upd (v: %V) (i: int) (x: %E) : %V requires { [@expl:index in bounds] 0 <= i < %V_len v } ensures { result = %V_set v i x }
val %V_size (v: %V) : int ensures { result = %V_len v } ensures { 0 <= result <= 0x1000000000000000 }
val any_%V () : %V
val %V_fill (n: int) (x: %E) : %V requires { [@expl:size] 0 <= n } ensures { %V_len result = n } ensures { forall i:int. 0 <= i < n -> %V_get result i = x }
val %V_resize (v: %V) (n: int) (x: %E) : %V requires { [@expl:size] 0 <= n } ensures { %V_len result = n } ensures { forall i:int [%V_get result i]. 0 <= i < n -> %V_get result i = (if i < %V_len v then %V_get v i else x) } ensures { n <= %V_len v -> result = %V_take v n }
val %V_popb (v: %V) : %V requires { [@expl:pop_back on non-empty] 0 < %V_len v } ensures { result = %V_take v (%V_len v - 1) }
val %V_append (v: %V) (w: %V) (a b: int) : %V requires { [@expl:range] 0 <= a <= b <= %V_len w } ensures { %V_len result = %V_len v + b - a } ensures { forall i:int [%V_get result i]. 0 <= i < %V_len result -> %V_get result i = (if i < %V_len v then %V_get v i else %V_get w (a + i - %V_len v)) }
val %V_insert (v: %V) (p: int) (x: %E) : %V requires { [@expl:insert position] 0 <= p <= %V_len v } ensures { %V_len result = %V_len v + 1 } ensures { forall i:int [%V_get result i]. 0 <= i < %V_len result -> %V_get result i = (if i < p then %V_get v i else if i = p then x else %V_get v (i-1)) }
val %V_blit (d: %V) (i: int) (s: %V) (j n: int) : %V requires { [@expl:memory copy in bounds] 0 <= n -> 0 <= i /\\ i + n <= %V_len d /\\ 0 <= j /\\ j + n <= %V_len s } requires { [@expl:memory copy length] 0 <= n } ensures { %V_len result = %V_len d } ensures { forall k:int [%V_get result k]. 0 <= k < %V_len d -> %V_get result k = (if i <= k < i + n then %V_get s (j + k - i) else %V_get d k) }
val %V_zero (d: %V) (i n: int) (x: %E) : %V requires { [@expl:memory fill in bounds] 0 <= n /\\ 0 <= i /\\ i + n <= %V_len d } ensures { %V_len result = %V_len d } ensures { forall k:int [%V_get result k]. 0 <= k < %V_len d -> %V_get result k = (if i <= k < i + n then x else %V_get d k) }
val %V_erase_rng (v: %V) (a b: int) : %V requires { [@expl:erase range] 0 <= a <= b <= %V_len v } ensures { %V_len result = %V_len v - (b - a) } ensures { forall i:int [%V_get result i]. 0 <= i < %V_len result -> %V_get result i = (if i < a then %V_get v i else %V_get v (i + (b - a))) } ensures { b = %V_len v -> result = %V_take v a }
val %V_erase (v: %V) (p: int) : %V requires { [@expl:erase position] 0 <= p < %V_len v } ensures { %V_len result = %V_len v - 1 } ensures { forall i:int [%V_get result i]. 0 <= i < %V_len result -> %V_get result i = (if i < p then %V_get v i else %V_get v (i+1)) }
'''

def has(e, pred):
    if isinstance(e, dict):
        if pred(e): return True
        return any(has(v, pred) for v in e.values())
    if isinstance(e, list):
        return any(has(v, pred) for v in e)
    return False

MUT_OPS = {'=', '+=', '-=', '*=', '/=', '%=', '<<=', '>>=', '&=', '|=', '^=', '++', '--'}

class Tr:
    """translation of one function under one alias configuration"""
    def __init__(s, unit, spec, fn, alias=None, canary=None, rename=None):
        s.u, s.sp, s.fn, s.alias = unit, spec, fn, alias or {}
        s.out = []
        s.nt = 0
        s.used = {}
        s.vars = {}
        s.mutints = []        # stack of (whyname, TInt) in scope
        s.nloop = 0
        s.nloopinfo = []
        s.ncall = {}
        s.callees = {}        # name -> (spec, fn)
        s.diverges = False
        s.retstk = []
        s.loopstk = []
        s.inl = []
        s.locals = []         # (cppname, type string) in translation order: snapshot
        s.rename = rename or {}
        s.nret = 0
        s.ghost_used = set()
        s.thisstk = []
        s.line = 0
        s.globs = {}
        s.canary = canary     # None or canary id
        s.npoint = 0
        s.points = []

    # ---------------------------------------------------------------- helpers
    kal = {}
    def emit(s, x): s.out.append(x)
    def tmp(s, text, ty=None):
        s.nt += 1
        n = 't%d_' % s.nt
        s.emit('let %s = %s in' % (n, text))
        return n
    def stab(s, v):
        if v.st: return v
        n = s.tmp(v.t)
        return Val(n, v.ty, True, v.cont)
    def block(s, f, unit=True):
        old = s.out; s.out = []
        mi = len(s.mutints)
        r = f()
        o = s.out; s.out = old
        del s.mutints[mi:]
        if unit: o.append('()')
        else: o.append(r.t if isinstance(r, Val) else r)
        return 'begin\n' + '\n'.join(o) + '\nend', r
    def name(s, n, nodup=False):
        b = n
        if b[0].isupper(): b = 'v_'+b
        b = re.sub(r'\W', '_', b)
        if b in KEYWORDS or b == 'value' or re.fullmatch(r't\d+_', b): b += '_'
        if b == '_' or b.startswith('__'): b = 'v'+b
        if b in s.used:
            s.used[b] += 1
            b2 = '%s_%d' % (b, s.used[b])
            while b2 in s.used:
                s.used[b] += 1
                b2 = '%s_%d' % (b, s.used[b])
            s.used[b2] = 1
            return b2
        s.used[b] = 1
        return b
    def local(s, cname, tid):
        """whyname of a new local, after rename alignment"""
        i = len(s.locals)
        s.locals.append((cname, s.u.tstr(tid) if tid is not None else ''))
        return s.name(s.rename.get(i, cname))
    def ghost(s, point, sub=None):
        g = s.sp.ghost.get(point)
        if g:
            s.ghost_used.add(point)
            for x in ([g] if isinstance(g, str) else g):
                if sub is not None: x = x.replace('$r', sub)
                for kk, kv in s.kal.items(): x = re.sub(r'\$%s\b' % kk, kv, x)
                s.emit(x.strip().rstrip(';') + ';' if not x.rstrip().endswith(' in') else x)
    def point(s, what):
        i = s.npoint; s.npoint += 1
        s.points.append(what)
        if s.canary:
            s.emit('check { [@expl:CANARY %s] canary_ %d };' % (what, i))

    # ---------------------------------------------------------------- lvalues
    def rd(s, lv):
        t = lv.root
        for p in lv.path:
            if p[0] == 'f': t = '%s.%s' % (t, p[2])
            elif p[0] == 'm': t = '(%s_at %s %s)' % (p[1], t, p[2])
            else: t = '(%s_at %s %s)' % (p[1].why, t, p[2])
        if lv.path and isinstance(lv.ty, TInt):
            t = '(rd_%s %s)' % (lv.ty.nm(), t)
        return t
    def upd(s, base, path, new):
        if not path: return new
        p = path[0]
        if p[0] == 'f':
            sub = '%s.%s' % (base, p[2])
            return '{ %s }' % '; '.join('%s = %s' % (f[1], s.upd(sub, path[1:], new) if f[1] == p[2] else '%s.%s' % (base, f[1])) for f in p[1].fields)
        fn = p[1] if p[0] == 'm' else p[1].why
        return '(%s_upd %s %s %s)' % (fn, base, p[2], s.upd('(%s_at %s %s)' % (fn, base, p[2]), path[1:], new))
    def wr(s, lv, t):
        if lv.ro: raise Unsup('write to const '+lv.root)
        s.emit('%s <- %s;' % (lv.root, s.upd(lv.root, lv.path, t)))
    def freeze(s, lv):
        """evaluate index expressions now so that the lvalue can be kept"""
        np = []
        for p in lv.path:
            if p[0] in 'im' and not re.fullmatch(r't\d+_|\d+', p[2]):
                np.append((p[0], p[1], s.tmp(p[2])))
            else: np.append(p)
        return LV(lv.root, np, lv.ty, lv.ro)
    def val_of(s, lv):
        if isinstance(lv.ty, TArrPtr) and getattr(lv, 'cont', None) is None:
            return Val('0', TIter(lv.ty.vec), True, LV(lv.root, lv.path, lv.ty.vec, lv.ro))
        st = not lv.path and lv.ro
        c = getattr(lv, 'cont', None)
        if c is None and isinstance(lv.ty, TIter) and lv.ty.cont: c = LV(lv.ty.cont, (), lv.ty.vec)
        return Val(s.rd(lv), lv.ty, st, c, lv)

    # ---------------------------------------------------------------- defaults
    def anyv(s, ty):
        if getattr(ty, 'anyt', None): return ty.anyt
        if isinstance(ty, TInt): return '(any_%s ())' % ty.nm()
        if isinstance(ty, TBool): return '(any_bool ())'
        if isinstance(ty, (TIter, TPtr)): return '(any_int ())'
        if isinstance(ty, TOpaque): return '(any_%s ())' % ty.why
        if isinstance(ty, (TVec, TArrPtr)): return '(any_%s ())' % ty.why
        if isinstance(ty, TRec):
            if not ty.fields: return '(any_%s ())' % ty.why
            return '{ %s }' % '; '.join('%s = %s' % (f[1], s.anyv(f[2])) for f in ty.fields)
        raise Unsup('any of '+str(ty.why))
    def default(s, ty):
        if isinstance(ty, TInt): return '0'
        if isinstance(ty, TBool): return 'false'
        if isinstance(ty, TVec): return ty.why+'_nil'
        if isinstance(ty, TOpaque):
            if ty.default is not None: return ty.default
            return getattr(ty, "anyt", None) or '(any_%s ())' % ty.why
        if isinstance(ty, TRec):
            if not ty.fields: return '(any_%s ())' % ty.why
            return '{ %s }' % '; '.join('%s = %s' % (f[1], s.default(f[2])) for f in ty.fields)
        return s.anyv(ty)

    # ---------------------------------------------------------------- expressions
    def impure(s, e):
        def p(x):
            k = x.get('k')
            if k == 'Un' and x.get('op') in ('++', '--'): return True
            if k == 'CAsg': return True
            if k == 'Bin' and x['op'] == '=': return True
            if k == 'OpCall': return x.get('op') in MUT_OPS or x.get('op') == '()' and not s.purecall(x)
            if k in ('Call', 'MCall'): return not s.purecall(x)
            if k in ('New', 'Delete', 'Throw', 'Lambda'): return True
            return False
        return has(e, p)
    def purecall(s, x):
        if 'f' not in x: return False
        f = s.u.funs[x['f']]
        if x['k'] == 'MCall' and not f.get('cm') and not f.get('static') and f['q'] not in ('std::vector::begin', 'std::vector::end', 'std::vector::operator[]', 'std::vector::size'): return False
        for p in f['params']:
            t = s.u.types[p['t']]
            if t['k'] == 'rref': return False
            if t['k'] == 'lref' and not s.u.types[t['e']].get('const'): return False
        return True
    def rvs(s, es):
        """evaluate operands left to right"""
        r = []
        for i, e in enumerate(es):
            v = s.rv(e)
            if any(s.impure(x) for x in es[i+1:]): v = s.stab(v)
            r.append(v)
        return r

    def cond(s, e):
        v = s.rv(e)
        return v.t

    def static_bool(s, e):
        """constant conditions that depend only on aliasing / compile-time constants"""
        k = e['k']
        if k == 'Bool': return bool(e['n'])
        if k == 'Cast': return s.static_bool(e['e'])
        if k == 'Un' and e['op'] == '!':
            r = s.static_bool(e['e'])
            return None if r is None else not r
        if k == 'Bin' and e['op'] in ('&&', '||'):
            a, b = s.static_bool(e['a']), s.static_bool(e['b'])
            if e['op'] == '&&':
                if a is False or b is False and a is True: return False
                if a is True and b is True: return True
                if b is False and not s.impure(e['a']): return False
            else:
                if a is True: return True
                if a is False and b is not None: return b
                if b is True and not s.impure(e['a']): return True
            return None
        if k == 'Bin' and e['op'] in ('==', '!=', '<', '<=', '>', '>='):
            a, b = s.cint(e['a']), s.cint(e['b'])
            if a is not None and b is not None:
                return {'==': a == b, '!=': a != b, '<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[e['op']]
        if k == 'Bin' and e['op'] in ('==', '!='):
            a, b = s.addr(e['a']), s.addr(e['b'])
            if a is not None and b is not None:
                if isinstance(a, str) or isinstance(b, str): return None
                r = a.same(b)
                if not r and a.root == b.root and any(p[0] == 'i' for p in a.path+b.path): return None
                return r if e['op'] == '==' else not r
        return None
    def cint(s, e):
        """value of a literal / sizeof through value-preserving casts"""
        if e['k'] == 'Int': return int(e['n'])
        if e['k'] == 'Cast' and e['ck'] in ('IntegralCast', 'NoOp', 'LValueToRValue'):
            n = s.cint(e['e'])
            if n is None: return None
            t = s.ty(e)
            if isinstance(t, TInt) and t.rng()[0] <= n <= t.rng()[1]: return n
        if e['k'] == 'Un' and e['op'] == '-':
            n = s.cint(e['e'])
            return -n if n is not None and s.ty(e).sg else None
        return None
    def addr(s, e):
        while e['k'] == 'Cast': e = e['e']
        if e['k'] == 'Un' and e['op'] == '&':
            x = e['e']
            y = x
            while y['k'] in ('Mem', 'Cast'): y = y['b'] if y['k'] == 'Mem' else y['e']
            if y['k'] in ('Var', 'This') or (y['k'] == 'Un' and y['op'] == '*' and y['e']['k'] == 'This'):
                try: return s.lv(x)
                except Unsup: return None
        if e['k'] == 'This': return s.thisstk[-1] if s.thisstk else None
        if e['k'] == 'Var':
            b = s.vars.get(e['id'])
            if b is not None and isinstance(b.ty, TPtr) and getattr(b, 'target', None) is not None: return b.target
            if b is not None and isinstance(b.ty, TArrPtr): return LV(b.root, b.path, b.ty.vec)
        return None

    def rv(s, e):
        k = e['k']
        m = getattr(s, 'e_'+k, None)
        if not m: raise Unsup('expr '+k)
        r = m(e)
        if isinstance(r, LV): r = s.val_of(r)
        return r
    def lv(s, e):
        k = e['k']
        m = getattr(s, 'e_'+k, None)
        if not m: raise Unsup('lvalue '+k)
        r = m(e)
        if isinstance(r, LV): return r
        if r.lv is not None: return r.lv
        # materialised temporary
        s.nt += 1
        n = 'm%d_' % s.nt
        s.emit('let ref %s = %s in' % (n, r.t))
        l = LV(n, (), r.ty)
        if r.cont is not None: l.cont = r.cont
        return l

    def ty(s, e): return s.u.ty(e['t'])

    def e_Int(s, e):
        t = s.ty(e)
        n = str(int(e['n']))
        if n.startswith('-'): n = '(%s)' % n
        return Val(n, t, True)
    def e_Bool(s, e): return Val('true' if e['n'] else 'false', TBool(), True)
    def e_Float(s, e): raise Unsup('float literal')
    def e_Str(s, e): return Val('(any_str ())', TStr(), True)
    def e_Null(s, e): return Val('(-1)', TPtr(None), True)
    def e_Zero(s, e):
        t = s.ty(e)
        return Val('()' if isinstance(t, TVoid) else s.default(t), t, True)
    def e_This(s, e):
        l = s.thisstk[-1]
        v = Val('()', TPtr(l.ty), True); v.target = l
        return v
    def e_Var(s, e):
        if e.get('g'):
            q = e.get('q', e['n'])
            g = s.u.cfg.get('globals', {}).get(q)
            if g is None: raise Unsup('global '+q)
            s.globs[g] = 1
            return LV(g, (), s.ty(e))
        b = s.vars.get(e['id'])
        if b is None: raise Unsup('unbound variable '+e['n'])
        return b
    def e_Mem(s, e):
        h = s.u.cfg.get('member')
        if h:
            r = h(s, e)
            if r is not None: return r
        if e.get('arrow'):
            b = s.deref(e['b'])
        else:
            b = s.lv(e['b'])
        if isinstance(b.ty, TOpaque): raise Unsup('field %s of opaque %s' % (e['n'], b.ty.why))
        return b.fld(e['n'])
    def deref(s, e):
        """lvalue designated by pointer expression e"""
        while e['k'] == 'Cast' and e['ck'] in ('NoOp', 'LValueToRValue'): e = e['e']
        if e['k'] == 'This': return s.thisstk[-1]
        if e['k'] == 'OpCall' and e['op'] == '->':
            return s.deref_it(e['a'][0])
        if e['k'] == 'Un' and e['op'] == '&': return s.lv(e['e'])
        v = s.rv(e)
        return s.deref_val(v)
    def deref_val(s, v):
        if getattr(v, 'target', None) is not None: return v.target
        if v.lv is not None and getattr(v.lv, 'target', None) is not None: return v.lv.target
        if isinstance(v.ty, TArrPtr) and v.lv is not None:
            return v.lv.idx('0', v.ty.vec)
        if v.cont is not None:
            return v.cont.idx(v.t)
        if isinstance(v.ty, TIter) and v.ty.cont: return LV(v.ty.cont, (), v.ty.vec).idx(v.t)
        d = s.u.cfg.get('deref')
        if d:
            r = d(s, v)
            if r is not None: return r
        raise Unsup('dereference')
    def deref_it(s, e):
        v = s.rv(e)
        if v.cont is None and not (isinstance(v.ty, TIter) and v.ty.cont): 
            return s.deref_val(v)
        cont = v.cont or LV(v.ty.cont, (), v.ty.vec)
        if s.impure(e): v = s.stab(v)
        return cont.idx(v.t)
    def e_Sub(s, e):
        a = e['a']
        while a['k'] == 'Cast' and a['ck'] in ('ArrayToPointerDecay', 'NoOp', 'LValueToRValue'): a = a['e']
        b = s.rv(a)
        i = s.rv(e['i'])
        if s.impure(e['i']): i = s.stab(i)
        if isinstance(b.ty, TVec) and b.lv is not None: return b.lv.idx(i.t)
        if isinstance(b.ty, TArrPtr) and b.lv is not None: return b.lv.idx(i.t, b.ty.vec)
        if b.cont is not None: return b.cont.idx('(%s + %s)' % (b.t, i.t) if b.t != '0' else i.t)
        raise Unsup('subscript')
    def e_Cond(s, e):
        sb = s.static_bool(e['c'])
        if sb is not None: return s.rv(e['a'] if sb else e['b'])
        c = s.cond(e['c'])
        if not isinstance(s.ty(e), TVoid):
            x, xv = s.block(lambda: s.rv(e['a']), False)
            y, yv = s.block(lambda: s.rv(e['b']), False)
            return Val(s.tmp('if %s then %s else %s' % (c, x, y)), xv.ty if not isinstance(xv.ty, TVoid) else yv.ty, True, xv.cont)
        def body(z):
            def f():
                v = s.rv(z)
                if v.t != '()': s.emit('let _ = %s in' % v.t)
            return f
        x, _ = s.block(body(e['a']))
        y, _ = s.block(body(e['b']))
        s.emit('if %s then %s else %s;' % (c, x, y))
        return Val('()', TVoid(), True)
    def e_Lambda(s, e):
        v = Val('()', TVoid(), True); v.lam = e
        return v
    def e_Throw(s, e):
        if s.sp.throws is not None:
            s.emit('assert { [@expl:throws only when specified] %s };' % s.entrywrap(s.sp.throws))
            s.emit('raise Cxx_throw;')
        else:
            s.emit('assert { [@expl:exception not thrown] false };')
        s.emit('absurd;') if s.sp.throws is None else None
        return Val('()', TVoid(), True)
    def entrywrap(s, f):
        return '%s(%s)' % (getattr(s, 'throw_pre', ''), f)
    def e_Cast(s, e):
        ck = e['ck']
        if ck in ('LValueToRValue', 'NoOp', 'ConstructorConversion', 'UserDefinedConversion', 'FunctionToPointerDecay', 'DerivedToBase', 'UncheckedDerivedToBase', 'BuiltinFnToFnPtr'):
            r = s.e_any(e['e'])
            return r
        if ck == 'ToVoid':
            v = s.rv(e['e'])
            if v.t not in ('()',) and not v.st: s.emit('let _ = %s in' % v.t)
            return Val('()', TVoid(), True)
        if ck == 'ArrayToPointerDecay':
            r = s.e_any(e['e'])
            if isinstance(r, LV):
                if not isinstance(r.ty, TVec): return s.val_of(r)
                return Val('0', TPtr(r.ty.e), True, r)
            return r
        if ck == 'IntegralCast':
            v = s.rv(e['e'])
            return s.icast(v, s.ty(e))
        if ck == 'IntegralToBoolean':
            v = s.rv(e['e'])
            return Val('(%s <> 0)' % v.t, TBool(), v.st)
        if ck == 'NullToPointer':
            return Val('(-1)', s.ty(e), True)
        if ck == 'PointerToBoolean':
            v = s.rv(e['e'])
            return Val('(%s <> %s)' % (v.t, s.u.cfg.get('null', '(-1)')), TBool(), v.st)
        if ck == 'BitCast':
            return s.e_any(e['e'])
        raise Unsup('cast '+ck)
    def e_any(s, e):
        m = getattr(s, 'e_'+e['k'], None)
        if not m: raise Unsup('expr '+e['k'])
        return m(e)
    def icast(s, v, to):
        fr = v.ty
        if isinstance(to, TBool):
            if isinstance(fr, TBool): return v
            return Val('(%s <> 0)' % v.t, TBool(), v.st)
        if isinstance(fr, TBool): return Val('(if %s then 1 else 0)' % v.t, to, v.st)
        if not isinstance(to, TInt) or not isinstance(fr, TInt): raise Unsup('integral cast')
        a, b = fr.rng(), to.rng()
        m = re.fullmatch(r'\(?(-?\d+)\)?', v.t)
        if m:
            n = int(m.group(1))
            n2 = n % (1 << to.bits)
            if to.sg and n2 >= 1 << (to.bits-1): n2 -= 1 << to.bits
            return Val(str(n2) if n2 >= 0 else '(%d)' % n2, to, True)
        if b[0] <= a[0] and a[1] <= b[1]: return Val(v.t, to, v.st, v.cont)
        return Val('(cv_%s_%s %s)' % (fr.nm(), to.nm(), v.t), to, v.st)

    def e_Un(s, e):
        op = e['op']
        if op == '!':
            v = s.rv(e['e'])
            return Val('(not %s)' % v.t, TBool(), v.st)
        if op == '&':
            l = s.lv(e['e'])
            v = Val('()', TPtr(l.ty), True)
            if l.path and l.path[-1][0] == 'i' and not l.path[-1][1] is None:
                v = Val(l.path[-1][2], TPtr(l.ty), False, LV(l.root, l.path[:-1], l.path[-1][1], l.ro))
            v.target = l
            ra = s.u.cfg.get('addr_of')
            if ra:
                r = ra(s, l)
                if r is not None: return r
            return v
        if op == '*':
            return s.deref(e['e'])
        if op in ('++', '--'):
            l = s.freeze(s.lv(e['e']))
            old = s.val_of(l)
            if e.get('post'): old = s.stab(old)
            t = l.ty
            one = '1'
            if isinstance(t, TInt): n = s.arith('+' if op == '++' else '-', old, Val('1', t, True), t)
            else: n = Val('(%s %s 1)' % (old.t, op[0]), t)
            s.wr(l, n.t)
            if e.get('post'): return old
            return l
        v = s.rv(e['e'])
        t = s.ty(e)
        if op == '-':
            m = re.fullmatch(r'\d+', v.t)
            if m and t.sg: return Val('(-%s)' % v.t, t, True)
            return s.arith('-', Val('0', t, True), v, t)
        if op == '+': return v
        if op == '~':
            if t.sg: return Val('(- 1 - %s)' % v.t, t, v.st)
            return Val('(%d - %s)' % ((1 << t.bits)-1, v.t), t, v.st)
        raise Unsup('unary '+op)

    def arith(s, op, a, b, t):
        """machine arithmetic with C++ semantics at type t"""
        if isinstance(t, TInt):
            n = t.nm()
            if op in '+-*' or op in ('/', '%'):
                nm = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'div', '%': 'rem'}[op]
                if re.fullmatch(r'\d+', a.t) and re.fullmatch(r'\d+', b.t) and op in '+-*':
                    x = eval(a.t+op+b.t)
                    if t.rng()[0] <= x <= t.rng()[1]: return Val(str(x) if x >= 0 else '(%d)' % x, t, True)
                return Val('(%s_%s %s %s)' % (nm, n, a.t, b.t), t)
            if op in ('<<', '>>'):
                m = re.fullmatch(r'\d+', b.t)
                if m and int(b.t) < t.bits:
                    if op == '<<' and not t.sg: return Val('(shl_%s_k %s %d)' % (n, a.t, 1 << int(b.t)), t)
                    if op == '>>': return Val('(divk %s %d)' % (a.t, 1 << int(b.t)), t)
                return Val('(%s_%s %s %s)' % ('shl' if op == '<<' else 'shr', n, a.t, b.t), t)
            if op == '&':
                for x, y in ((a, b), (b, a)):
                    if re.fullmatch(r'\d+', y.t) and (int(y.t)+1) & int(y.t) == 0:
                        return Val('(modk %s %d)' % (x.t, int(y.t)+1), t, x.st)
                return Val('(band %s %s)' % (a.t, b.t), t)
            if op == '|': return Val('(bor %s %s)' % (a.t, b.t), t)
            if op == '^': return Val('(bxor %s %s)' % (a.t, b.t), t)
        raise Unsup('arith %s at %s' % (op, t.why))

    def e_Bin(s, e):
        op = e['op']
        if op == ',':
            v = s.rv(e['a'])
            if not v.st: s.emit('let _ = %s in' % v.t)
            return s.e_any(e['b'])
        if op in ('<', '>', '<=', '>=', '==', '!='):
            try: fl = isinstance(s.ty(e['a']), TFloat)
            except Unsup: fl = False
            if fl: return Val('(any_bool ())', TBool())   # floating point: either outcome
        if op in ('&&', '||'):
            sb = s.static_bool(e)
            if sb is not None: return Val('true' if sb else 'false', TBool(), True)
            sa = s.static_bool(e['a'])
            if sa is not None: return s.rv(e['b'])
            a = s.rv(e['a'])
            old = s.out; s.out = []
            b = s.rv(e['b'])
            bo = s.out; s.out = old
            if not bo: return Val('(%s %s %s)' % (a.t, op, b.t), TBool())
            blk = 'begin\n%s\n%s\nend' % ('\n'.join(bo), b.t)
            if op == '&&': t = 'if %s then %s else false' % (a.t, blk)
            else: t = 'if %s then true else %s' % (a.t, blk)
            return Val(s.tmp(t), TBool(), True)
        if op == '=':
            v = s.rv(e['b'])
            if s.impure(e['a']): v = s.stab(v)
            l = s.freeze(s.lv(e['a'])) if s.impure(e['a']) else s.lv(e['a'])
            s.assign(l, v)
            return l
        if op in ('==', '!=', '<', '>', '<=', '>='):
            sb = s.static_bool(e)
            if sb is not None: return Val('true' if sb else 'false', TBool(), True)
            a, b = s.rvs([e['a'], e['b']])
            st = a.st and b.st
            w = {'==': '=', '!=': '<>'}.get(op, op)
            if isinstance(a.ty, TBool) and op in ('==', '!='):
                return Val('(%s%s)' % ('' if op == '==' else 'not ', '(beq %s %s)' % (a.t, b.t)), TBool(), st)
            return Val('(%s %s %s)' % (a.t, w, b.t), TBool(), st)
        a, b = s.rvs([e['a'], e['b']])
        t = s.ty(e)
        if isinstance(t, TInt) and isinstance(a.ty, TInt) and isinstance(b.ty, TInt):
            r = s.arith(op, a, b, t)
            return r
        # pointer / iterator arithmetic
        if op in '+-':
            if isinstance(a.ty, (TPtr, TIter)) and isinstance(b.ty, TInt):
                r = Val('(%s %s %s)' % (a.t, op, b.t), a.ty, a.st and b.st, a.cont)
                return r
            if isinstance(a.ty, (TPtr, TIter)) and isinstance(b.ty, (TPtr, TIter)) and op == '-':
                return Val('(%s - %s)' % (a.t, b.t), t, a.st and b.st)
        raise Unsup('binary %s on %s' % (op, t.why))

    def assign(s, l, v):
        if isinstance(l.ty, (TPtr,)) and getattr(v, 'target', None) is not None and not isinstance(l.ty, TIter):
            if not l.path and not l.ro:
                l.target = v.target
                l.cont = v.cont
                if v.t != '()': s.wr(l, v.t)
                return
        if v.cont is not None and isinstance(l.ty, (TIter, TPtr)) and not l.path:
            oc = getattr(l, 'cont', None)
            if oc is not None and not oc.same(v.cont): raise Unsup('iterator re-seated on another container')
            l.cont = v.cont
        s.wr(l, v.t)

    def e_CAsg(s, e):
        op = e['op'][:-1]
        b = s.rv(e['b'])
        b = s.stab(b) if s.impure(e['a']) else b
        l = s.freeze(s.lv(e['a']))
        ct = s.u.ty(e['ct'])
        a = s.val_of(l)
        if isinstance(ct, TInt) and isinstance(l.ty, TInt):
            a = s.icast(a, ct)
            r = s.arith(op, a, b, s.u.ty(e['rt']))
            r = s.icast(r, l.ty)
        elif isinstance(l.ty, TBool) or isinstance(ct, TBool): raise Unsup('compound on bool')
        elif isinstance(l.ty, (TIter, TPtr)): r = Val('(%s %s %s)' % (a.t, op, b.t), l.ty)
        else: raise Unsup('compound assign')
        s.wr(l, r.t)
        return l

    def e_IL(s, e):
        t = s.ty(e)
        if isinstance(t, TRec):
            vs = s.rvs(e['a'])
            if len(vs) != len(t.fields): raise Unsup('init list')
            return Val('{ %s }' % '; '.join('%s = %s' % (f[1], v.t) for f, v in zip(t.fields, vs)), t)
        if isinstance(t, TVec):
            vs = s.rvs(e['a'])
            x = t.why+'_nil'
            for v in vs: x = '(%s_push %s %s)' % (t.why, x, v.t)
            return Val(x, t)
        if len(e['a']) == 1: return s.rv(e['a'][0])
        if len(e['a']) == 0: return Val(s.default(t), t)
        raise Unsup('init list')
    def e_New(s, e):
        et = s.u.ty(e['et'])
        h = s.u.cfg.get('new')
        if h:
            r = h(s, e, et)
            if r is not None: return r
        raise Unsup('new')
    def e_Delete(s, e):
        h = s.u.cfg.get('delete')
        if h and h(s, e): return Val('()', TVoid(), True)
        raise Unsup('delete')

    # ---------------------------------------------------------------- calls
    def e_OpCall(s, e):
        f = s.u.funs[e['f']]
        a = e['a']
        op = e['op']
        r = s.builtin(f, e, a, None)
        if r is not None: return r
        if f['kind'] in ('method', 'conv') and not f.get('static'):
            return s.call(f, a[1:], a[0], e)
        return s.call(f, a, None, e)
    def e_MCall(s, e):
        f = s.u.funs[e['f']]
        r = s.builtin(f, e, e['a'], e['o'])
        if r is not None: return r
        return s.call(f, e['a'], e['o'] if not f.get('static') else None, e, e.get('arrow'))
    def e_Call(s, e):
        if 'f' not in e:
            raise Unsup('indirect call')
        f = s.u.funs[e['f']]
        r = s.builtin(f, e, e['a'], None)
        if r is not None: return r
        return s.call(f, e['a'], None, e)
    def e_Ctor(s, e):
        f = s.u.funs[e['f']]
        t = s.ty(e)
        r = s.builtin(f, e, e['a'], None)
        if r is not None: return r
        tpl = s.template(f, e, e['a'], None)
        if tpl is not None: return tpl
        sp = s.u.spec(f)
        if sp is not None and not s.is_self_ctor(f):
            return s.contract_call(sp, f, e['a'], None, e, t)
        if len(e['a']) == 1 and not (f.get('defd') and f.get('body') and not f.get('dflt')) :
            pt = f['params'] and s.u.types[f['params'][0]['t']]
            if pt and pt['k'] in ('lref', 'rref') and s.u.ty(f['params'][0]['t']).why == t.why:
                v = s.rv(e['a'][0])
                return Val(v.t, t, v.st, v.cont)
        if isinstance(t, TRec):
            if len(e['a']) == 0 and not f.get('body'):
                return Val(s.default(t), t)
            if f.get('defd'): return s.inline_ctor(f, e, t)
        if isinstance(t, TOpaque) and len(e['a']) == 0 and not f.get('body'): return Val(s.default(t), t)
        raise Unsup('constructor '+s.u.sig(f))
    def is_self_ctor(s, f): return False

    def bindparams(s, f, args):
        for p, a in zip(f['params'], args):
            s.bindparam(p, a)
        if len(args) < len(f['params']): raise Unsup('missing args')
    def bindparam(s, p, a):
        t = s.u.types[p['t']]
        if isinstance(a, dict):
            if t['k'] in ('lref', 'rref'):
                x = s.e_any(a)
                if isinstance(x, Val) and x.lv is not None: x = x.lv
                if isinstance(x, LV):
                    l = s.freeze(x)
                    for at in ('cont', 'target', 'lam'):
                        if hasattr(x, at): setattr(l, at, getattr(x, at))
                    if s.u.types[t['e']].get('const') and False: l.ro = True
                    s.vars[p['id']] = l
                    return
                v = x
            else:
                v = s.rv(a)
        else: v = a
        if hasattr(v, 'lam'):
            l = LV('()', (), TVoid()); l.lam = v.lam
            s.vars[p['id']] = l
            return
        n = s.local(p['n'] or 'arg', p['t'])
        s.declare(n, p['id'], v, s.u.ty(p['t']))
    def declare(s, n, vid, v, ty):
        if isinstance(ty, TVoid): ty = v.ty
        if getattr(v, 'target', None) is not None and v.t == '()':
            l = LV(n, (), ty); l.target = v.target
            s.vars[vid] = l
            return l
        if isinstance(ty, TArrPtr) and v.cont is not None: ty = TIter(ty.vec)
        s.emit('let ref %s = %s in' % (n, v.t))
        l = LV(n, (), ty)
        if v.cont is not None: l.cont = v.cont
        elif isinstance(ty, TIter) and ty.cont: l.cont = LV(ty.cont, (), ty.vec)
        if getattr(v, 'target', None) is not None: l.target = v.target
        if isinstance(ty, TInt): s.mutints.append((n, ty))
        s.vars[vid] = l
        s.ghost('decl:'+n)
        return l

    def inline_ctor(s, f, e, t):
        if f['id'] in s.inl: raise Unsup('recursive ctor')
        deleg = [i for i in f.get('inits', []) if 'deleg' in i]
        s.inl.append(f['id'])
        s.bindparams(f, e['a'])
        s.nt += 1
        n = 'obj%d_' % s.nt
        if deleg:
            v = s.rv(deleg[0]['e'])
            s.emit('let ref %s = %s in' % (n, v.t))
        else:
            vals = {}
            for i in f.get('inits', []):
                if 'f' in i:
                    v = s.rv(i['e'])
                    vals[i['f']] = v.t if v.st else s.tmp(v.t)
                else: raise Unsup('base init')
            fs = '; '.join('%s = %s' % (x[1], vals[x[0]] if x[0] in vals else s.anyv(x[2])) for x in t.fields)
            s.emit('let ref %s = { %s } in' % (n, fs))
        l = LV(n, (), t)
        s.thisstk.append(l)
        if f.get('body') and f['body']['s']: s.inline_body(f, void=True)
        s.thisstk.pop()
        s.inl.pop()
        return l

    def template(s, f, e, args, obj):
        tp = s.u.cfg.get('templates')
        if not tp: return None
        sig = s.u.sig(f)
        for pat, act in tp:
            if re.search(pat, sig):
                if callable(act): return act(s, f, e, args, obj)
                es = ([obj] if obj is not None else []) + list(args)
                if isinstance(act, str):
                    vs = s.rvs(es)
                    return Val(act.format(*['%s' % v.t for v in vs]), s.u.ty(f['ret']) if f['kind'] != 'ctor' else s.ty(e))
                # dict(set={i: text}, val=text|None, ret=i)
                vs = []; lvs = []
                for i, x in enumerate(es):
                    if i in act['set']:
                        l = s.freeze(s.lv(x)); lvs.append(l); vs.append(s.val_of(l))
                    else:
                        v = s.rv(x)
                        if any(s.impure(y) for y in es[i+1:]): v = s.stab(v)
                        vs.append(v); lvs.append(None)
                txt = {i: act['set'][i].format(*[v.t for v in vs]) for i in act['set']}
                val = act.get('val')
                rv_ = s.tmp(val.format(*[v.t for v in vs])) if val else None
                ks = sorted(txt)
                tm = [s.tmp(txt[i]) for i in ks] if len(ks) > 1 else [txt[ks[0]]]
                for i, x in zip(ks, tm): s.wr(lvs[i], x)
                if val: return Val(rv_, s.u.ty(f['ret']), True)
                if 'ret' in act: return lvs[act['ret']]
                return Val('()', TVoid(), True)
        return None

    def call(s, f, args, obj, e, arrow=False):
        if arrow and obj is not None:
            obj = {'k': 'Un', 'op': '*', 'e': obj, 't': obj['t'], 'post': False}
        r = s.template(f, e, args, obj)
        if r is not None: return r
        if f.get('noreturn') or f['q'] in ('__assert_fail', 'abort', 'std::abort', 'exit'):
            s.emit('assert { [@expl:C++ assert] false };')
            s.emit('absurd;')
            return Val('()', TVoid(), True)
        sp = s.u.spec(f)
        if sp is not None:
            return s.contract_call(sp, f, args, obj, e)
        if f.get('defd') and f.get('body') is not None:
            return s.inline_call(f, args, obj, e)
        raise Unsup('call to '+s.u.sig(f))

    def this_ret(s, f):
        if s.u.types[f['ret']]['k'] != 'lref' or f.get('cls') is None or f.get('body') is None: return False
        rets = []
        def w(x):
            if isinstance(x, dict):
                if x.get('k') == 'Ret': rets.append(x)
                for k, v in x.items():
                    if not (x.get('k') == 'Lambda'): w(v)
            elif isinstance(x, list):
                for v in x: w(v)
        w(f['body'])
        def isthis(x):
            while x['k'] == 'Cast': x = x['e']
            if x['k'] == 'OpCall' and x['op'] == '=' and s.ret_is_this(x): return True
            return x['k'] == 'Un' and x['op'] == '*' and x['e']['k'] == 'This'
        return bool(rets) and all('e' in r and isthis(r['e']) for r in rets)
    def ret_is_this(s, x): 
        a = x['a'][0]
        return a['k'] == 'Un' and a['op'] == '*' and a['e']['k'] == 'This'

    def lam_call(s, lam, args):
        """inline a lambda body"""
        for p, a in zip(lam['params'], args): s.bindparam(p, a)
        f = {'id': ('lam', id(lam)), 'body': lam['b'], 'ret': lam.get('ret'), 'params': lam['params']}
        return s.inline_body(f)

    def inline_call(s, f, args, obj, e):
        if f['id'] in s.inl or f['id'] == s.fn['id']: raise Unsup('recursive call to %s without contract' % f['q'])
        if len(s.inl) > 12: raise Unsup('inline depth')
        ol = None
        if obj is not None:
            x = s.e_any(obj)
            if isinstance(x, Val) and x.lv is None: ol = s.lv_of_val(x)
            else:
                l0 = x if isinstance(x, LV) else x.lv
                ol = s.freeze(l0)
                for at in ('cont', 'target'):
                    if hasattr(l0, at): setattr(ol, at, getattr(l0, at))
        s.bindparams(f, args)
        s.inl.append(f['id'])
        if ol is not None: s.thisstk.append(ol)
        tr = s.this_ret(f)
        r = s.inline_body(f, void=tr)
        if ol is not None: s.thisstk.pop()
        s.inl.pop()
        return ol if tr else r
    def lv_of_val(s, r):
        s.nt += 1
        n = 'm%d_' % s.nt
        s.emit('let ref %s = %s in' % (n, r.t))
        l = LV(n, (), r.ty)
        if r.cont is not None: l.cont = r.cont
        return l

    def inline_body(s, f, void=False):
        body = f['body']
        rt = TVoid() if void or f.get('ret') is None else s.u.ty(f['ret'])
        if isinstance(rt, TVoid): void = True
        isref = (not void) and s.u.types[f['ret']]['k'] == 'lref'
        ss = body['s'] if body['k'] == 'Block' else [body]
        # straight-line with one trailing return: no block needed (lvalue result preserved)
        nret = s.count_ret(ss)
        if nret == 0 or (nret == 1 and ss and ss[-1]['k'] == 'Ret'):
            s.retstk.append(None)
            for x in (ss if nret == 0 else ss[:-1]): s.stmt(x)
            r = Val('()', TVoid(), True)
            if nret and 'e' in ss[-1] and not void:
                r = s.e_any(ss[-1]['e'])
                if not isref:
                    if isinstance(r, LV): r = s.val_of(r)
                    r2 = s.stab(r)
                    for at in ('target',):
                        if hasattr(r, at): setattr(r2, at, getattr(r, at))
                    if r2 is not r: r2.lv = None
                    else: r2 = Val(r.t, r.ty, r.st, r.cont); 
                    for at in ('target',):
                        if hasattr(r, at): setattr(r2, at, getattr(r, at))
                    r = r2
            elif nret and 'e' in ss[-1] and void:
                if not s.is_thisx(ss[-1]['e']): s.rv(ss[-1]['e'])
            s.retstk.pop()
            return r
        if isref:
            # several returns of a reference: all must designate the same lvalue form; unsupported
            raise Unsup('reference-returning function with several returns: '+str(f.get('q')))
        if s.tail_ok(ss):
            s.retstk.append('tail')
            t, info = s.block(lambda: s.tail(ss, void), False)
            s.retstk.pop()
            if void:
                s.emit(t+';')
                return Val('()', TVoid(), True)
            c = info.cont if isinstance(info, Val) else None
            return Val(s.tmp(t), rt, True, c)
        s.nret += 1
        ex = 'Ret%d_' % s.nret
        s.emit('exception %s %s in' % (ex, '' if void else s.paren(rt.why)))
        s.retstk.append((ex, void))
        conts = []
        s.retcont = conts
        def f_():
            s.stmts(ss)
            if void: return Val('()', TVoid(), True)
            return Val('absurd', rt, True) 
        t, _ = s.block(f_, False)
        s.retstk.pop()
        if void:
            s.emit('try %s with %s -> () end;' % (t, ex))
            return Val('()', TVoid(), True)
        return Val(s.tmp('try %s with %s r_ -> r_ end' % (t, ex)), rt, True, conts[0] if conts else None)
    def paren(s, x): return x
    def is_thisx(s, x):
        while x['k'] == 'Cast': x = x['e']
        return x['k'] == 'Un' and x['op'] == '*' and x['e']['k'] == 'This'
    def count_ret(s, ss):
        n = 0
        def w(x):
            nonlocal n
            if isinstance(x, dict):
                if x.get('k') == 'Ret': n += 1
                if x.get('k') == 'Lambda': return
                for v in x.values(): w(v)
            elif isinstance(x, list):
                for v in x: w(v)
        w(ss)
        return n
    def always_ret(s, x):
        k = x['k']
        if k == 'Ret': return True
        if k == 'Expr' and x['e']['k'] == 'Throw': return True
        if k == 'Block': return any(s.always_ret(y) for y in x['s'])
        if k == 'If': 
            return s.always_ret(x['t']) and 'e' in x and s.always_ret(x['e'])
        return False
    def tail_ok(s, ss):
        for i, x in enumerate(ss):
            if s.count_ret([x]) == 0: continue
            if x['k'] == 'Ret': return True
            if x['k'] == 'Block': return s.tail_ok(x['s']+ss[i+1:])
            if x['k'] == 'If':
                sb = s.static_bool(x['c']) if 'cv' not in x and 'init' not in x else None
                if sb is not None:
                    br = [x['t']] if sb else ([x['e']] if 'e' in x else [])
                    return s.tail_ok(br + ss[i+1:])
                ta = s.always_ret(x['t'])
                if ta:
                    rest = ([x['e']] if 'e' in x else []) + ss[i+1:]
                    return s.tail_ok([x['t']]) and s.tail_ok(rest)
                if 'e' in x and s.always_ret(x['e']):
                    return s.tail_ok([x['e']]) and s.tail_ok([x['t']]+ss[i+1:])
                return False
            return False
        return True
    def tail(s, ss, void):
        for i, x in enumerate(ss):
            if s.count_ret([x]) == 0 and not (x['k'] == 'Expr' and x['e']['k'] == 'Throw'):
                s.stmt(x); continue
            if x['k'] == 'Ret':
                if 'e' not in x or void:
                    if 'e' in x and not s.is_thisx(x['e']): s.rv(x['e'])
                    return Val('()', TVoid(), True)
                return s.rv(x['e'])
            if x['k'] == 'Expr':
                s.rv(x['e']); return Val('absurd', TVoid(), True)
            if x['k'] == 'Block': return s.tail(x['s']+ss[i+1:], void)
            if x['k'] == 'If':
                if 'init' in x: s.stmt(x['init'])
                if 'cv' in x: s.stmt(x['cv'])
                sb = s.static_bool(x['c'])
                if sb is not None:
                    return s.tail(([x['t']] if sb else ([x['e']] if 'e' in x else [])) + ss[i+1:], void)
                c = s.cond(x['c'])
                if s.always_ret(x['t']):
                    a, av = s.block(lambda: s.tail([x['t']], void), False)
                    b, bv = s.block(lambda: s.tail(([x['e']] if 'e' in x else []) + ss[i+1:], void), False)
                else:
                    a, av = s.block(lambda: s.tail([x['t']]+ss[i+1:], void), False)
                    b, bv = s.block(lambda: s.tail([x['e']], void), False)
                cc = av.cont if av.cont is not None else bv.cont
                return Val('if %s then %s else %s' % (c, a, b), av.ty, False, cc)
        return Val('()' if void else 'absurd', TVoid(), True)

    # contract calls
    def contract_call(s, sp, f, args, obj, e, ctor_ty=None):
        k = s.ncall.get(sp.name, 0)+1
        s.ncall[sp.name] = k
        ps = list(f['params'])
        if len(args) != len(ps): raise Unsup('arg count')
        items = []    # (name, mode, LV/Val)
        if obj is not None:
            x = s.e_any(obj)
            l = x if isinstance(x, LV) else x.lv
            if l is None: l = s.lv_of_val(x)
            l = s.freeze(l) if not f.get('cm') else l
            items.append(['this', 'in' if f.get('cm') else 'ref', l])
        for p, a in zip(ps, args):
            t = s.u.types[p['t']]
            m = s.pmode(p)
            if m == 'skip':
                items.append([p['n'], 'skip', None]); continue
            if m == 'in':
                v = s.rv(a)
                if any(s.impure(y) for y in args): v = s.stab(v)
                items.append([p['n'], 'in', v])
            elif m == 'arr':
                v = s.rv(a)
                if v.cont is None or v.t != '0': raise Unsup('array pointer argument')
                if s.u.types[s.u.types[p['t']]['e']].get('const'): items.append([p['n'], 'in', Val(s.rd(v.cont), v.cont.ty, True, None, v.cont)])
                else: items.append([p['n'], 'ref', v.cont])
            else:
                x = s.e_any(a)
                l = x if isinstance(x, LV) else x.lv
                if l is None: l = s.lv_of_val(x)
                items.append([p['n'], 'ref', s.freeze(l)])
        # aliasing between a ref argument and others
        al = {}
        names = sp.params or [i[0] for i in items]
        refs = [(i, it[2]) for i, it in enumerate(items) if it[1] == 'ref']
        for ai in range(len(refs)):
            for bi in range(ai+1, len(refs)):
                a, b = refs[ai][1], refs[bi][1]
                if a.root == b.root and (a.same(b) or not s.disjoint(a, b)):
                    if a.same(b): al[names[refs[bi][0]]] = names[refs[ai][0]]
                    else: raise Unsup('overlapping reference arguments')
        for i, l in refs:
            for j, it in enumerate(items):
                if it[1] == 'in':
                    v = it[2]
                    l2 = v if isinstance(v, LV) else v.lv
                    if l2 is not None and isinstance(s.u.types[ps[j-(1 if obj is not None else 0)]['t']] if (j > 0 or obj is None) else None, dict) and s.u.types[ps[j-(1 if obj is not None else 0)]['t']]['k'] == 'lref' and l2.root == l.root:
                        if l2.same(l): al[names[j]] = names[i]
                        elif not s.disjoint(l, l2): raise Unsup('overlapping arguments')
        if al:
            if not any(dict(x) == al for x in sp.alias) and not sp.contract_only and not sp.trusted:
                if not sp.mode == 'alias-any':
                    raise Unsup('call to %s with aliasing %s not covered' % (sp.name, al))
        s.callees.setdefault(sp.name, (sp, f))
        s.ghost('call:%s#%d.pre' % (sp.name, k))
        ins, outs = [], []
        for it in items:
            if it[1] == 'skip': continue
            x = it[2]
            ins.append(s.rd(x) if isinstance(x, LV) else x.t)
            if it[1] == 'ref' and names[items.index(it)] not in al: outs.append(x)
        rt = ctor_ty if ctor_ty is not None else s.u.ty(f['ret'])
        tret = ctor_ty is None and obj is not None and s.ret_this_ty(f)
        void = isinstance(rt, TVoid) or tret
        call = '%s %s' % (sp.name, ' '.join(ins) if ins else '()')
        if ctor_ty is not None: outs_t = [ctor_ty]
        if sp.throws is not None:
            if s.sp.throws is None: call = 'try %s with Cxx_throw -> begin assert { [@expl:exception not thrown] false }; absurd end end' % call
        for g in sp.writes+sp.reads: s.globs[g] = 1
        pats = [] if void else ['r']
        tn = []
        if not void: s.nt += 1; rn = 't%d_' % s.nt; tn.append(rn)
        for o in outs:
            s.nt += 1; tn.append('t%d_' % s.nt)
        if not tn: s.emit('%s;' % call)
        elif len(tn) == 1: s.emit('let %s = %s in' % (tn[0], call))
        else: s.emit('let (%s) = %s in' % (', '.join(tn), call))
        for o, n in zip(outs, tn if void else tn[1:]): s.wr(o, n)
        s.ghost('call:%s#%d.post' % (sp.name, k), tn[0] if not void else None)
        if tret: return items[0][2]
        if void: return Val('()', TVoid(), True)
        c = None
        if isinstance(rt, TIter):
            c = s.iter_ret(sp, items)
        return Val(tn[0], rt, True, c)
    def iter_ret(s, sp, items):
        for it in items:
            x = it[2]
            if isinstance(x, LV) and isinstance(x.ty, TVec): return x
            if isinstance(x, LV) and isinstance(x.ty, TRec):
                fs = [f for f in x.ty.fields if isinstance(f[2], TVec)]
                if len(fs) == 1: return x.fld(fs[0][0])
            if isinstance(x, Val) and x.cont is not None: return x.cont
        return None
    def ret_this_ty(s, f):
        return s.u.types[f['ret']]['k'] == 'lref' and f.get('cls') is not None and s.u.strip(f['ret']) is not None and \
            s.u.tstr(s.u.strip(f['ret'])) == s.u.tstr(f['cls'])
    def disjoint(s, a, b):
        for x, y in zip(a.path, b.path):
            if x[0] == 'f' and y[0] == 'f' and x[2] != y[2]: return True
            if x[2] != y[2]: return False
        return False
    def pmode(s, p):
        t = s.u.types[p['t']]
        if t['k'] == 'lref': 
            if s.u.types[t['e']].get('const'): return 'in'
            return 'ref'
        if t['k'] == 'rref': return 'ref'
        ty = s.u.ty(p['t'])
        if isinstance(ty, TArrPtr): return 'arr'
        return 'in'

    # ---------------------------------------------------------------- builtins
    def builtin(s, f, e, args, obj):
        import builtins_ as B
        return B.handle(s, f, e, args, obj)

    # ---------------------------------------------------------------- statements
    def stmt(s, x):
        if x.get('l'):
            s.line = x['l']
            s.emit('(*@%s:%d*)' % ((s.fn.get('file') or '').split('/')[-1], x['l']))
        m = getattr(s, 's_'+x['k'], None)
        if not m: raise Unsup('stmt %s %s' % (x['k'], x.get('cls', '')))
        m(x)
    def stmts(s, ss):
        for y in ss:
            s.in_seq = y['k'] == 'Block'
            s.stmt(y)
            if s.static_ret(y): break   # statically unreachable rest (aliasing conditions)
    def static_ret(s, x):
        k = x['k']
        if k == 'Ret': return True
        if k == 'Block': return any(s.static_ret(y) for y in x['s'])
        if k == 'If' and 'cv' not in x and 'init' not in x:
            sb = s.static_bool(x['c'])
            if sb is True: return s.static_ret(x['t'])
            if sb is False: return 'e' in x and s.static_ret(x['e'])
            return 'e' in x and s.static_ret(x['t']) and s.static_ret(x['e'])
        return False
    def s_Block(s, x):
        if not x['s']: return
        mi = len(s.mutints)
        cut = None
        if getattr(s, 'in_seq', False):
            s.nblk = getattr(s, 'nblk', 0) + 1
            cut = s.sp.ghost.get('block%d.cut' % s.nblk)
        s.in_seq = False
        if cut is not None:
            s.ghost_used.add('block%d.cut' % s.nblk)
            if s.count_ret(x['s']): raise Mismatch('return inside the cut block of '+s.sp.name)
            t, _ = s.block(lambda: s.stmts(x['s']))
            s.emit('begin %s\n%s\nend;' % (' '.join('ensures { [@expl:block %d] %s }' % (s.nblk, c) for c in cut), t))
            del s.mutints[mi:]
            return
        s.stmts(x['s'])
        # names stay visible to following statements of the enclosing sequence: harmless, names are unique
        del s.mutints[mi:]
    def s_Unsupported(s, x): raise Unsup('stmt '+x.get('cls', ''))
    def s_Decl(s, x):
        for d in x['d']:
            s.decl(d)
    def decl(s, d):
        if d.get('static'): raise Unsup('static local')
        t = s.u.types[d['t']]
        if d.get('bind'):
            ini = s.e_any(d['init'])
            if isinstance(ini, Val) and ini.lv is not None and t['k'] in ('lref', 'rref'): ini = ini.lv
            if not (isinstance(ini, LV) and t['k'] in ('lref', 'rref')):
                v = ini if isinstance(ini, Val) else s.val_of(ini)
                n = s.local('bnd', d['t'])
                s.emit('let ref %s = %s in' % (n, v.t))
                ini = LV(n, (), v.ty)
            else: ini = s.freeze(ini)
            for b, fld in zip(d['bind'], ini.ty.fields):
                s.vars[b['id']] = ini.fld(fld[0])
            return
        if t['k'] in ('lref', 'rref'):
            x = s.e_any(d['init'])
            if isinstance(x, Val) and x.lv is not None and not hasattr(x, 'target'): x = x.lv
            if isinstance(x, LV):
                l = s.freeze(x)
                for at in ('cont', 'target'):
                    if hasattr(x, at): setattr(l, at, getattr(x, at))
                s.vars[d['id']] = l
                s.locals.append((d['n'], s.u.tstr(d['t'])))
                return
            n = s.local(d['n'], d['t'])
            s.declare(n, d['id'], x, s.u.ty(d['t']))
            return
        ty = s.u.ty(d['t'])
        if 'init' not in d or d['init'] is None:
            n = s.local(d['n'], d['t'])
            s.declare(n, d['id'], Val(s.anyv(ty), ty), ty)
            return
        v = s.rv(d['init'])
        if hasattr(v, 'lam'):
            l = LV('()', (), TVoid()); l.lam = v.lam
            s.vars[d['id']] = l
            return
        n = s.local(d['n'], d['t'])
        s.declare(n, d['id'], v, ty)
    def s_Expr(s, x):
        v = s.e_any(x['e'])
        if isinstance(v, LV): return
        if v.t != '()' and not re.fullmatch(r't\d+_', v.t) and v.t != 'absurd' and v.lv is None:
            s.emit('let _ = %s in' % v.t)
    def s_If(s, x):
        if 'init' in x: s.stmt(x['init'])
        if 'cv' in x: s.stmt(x['cv'])
        sb = s.static_bool(x['c'])
        if sb is not None:
            if sb: s.stmt(x['t'])
            elif 'e' in x: s.stmt(x['e'])
            return
        s.nif = getattr(s, 'nif', 0) + 1
        cut, k = s.sp.ghost.get('if%d.cut' % s.nif), s.nif
        c = s.cond(x['c'])
        a, _ = s.block(lambda: s.stmt(x['t']))
        e = ''
        if 'e' in x:
            b, _ = s.block(lambda: s.stmt(x['e']))
            e = ' else '+b
        if cut is not None:
            s.ghost_used.add('if%d.cut' % k)
            if s.count_ret([x]): raise Mismatch('return inside the cut statement of '+s.sp.name)
            s.emit('begin %s\nif %s then %s%s\nend;' % (' '.join('ensures { [@expl:if %d] %s }' % (k, y) for y in cut), c, a, e))
        else: s.emit('if %s then %s%s;' % (c, a, e))
    def s_Ret(s, x):
        r = s.retstk[-1]
        if r == 'top':
            v = None
            if 'e' in x and not s.topvoid:
                v = s.rv(x['e'])
                if not v.st and v.t != '()': v = s.stab(v)
            elif 'e' in x and not s.is_thisx(x['e']):
                s.s_Expr({'e': x['e']})
            s.top_return(v)
            return
        if isinstance(r, tuple):
            ex, void = r
            if void:
                if 'e' in x and not s.is_thisx(x['e']): s.rv(x['e'])
                s.emit('raise %s;' % ex)
            else:
                v = s.rv(x['e'])
                if v.cont is not None: s.retcont.append(v.cont)
                s.emit('raise (%s %s);' % (ex, v.t if re.fullmatch(r'\w+', v.t) else '(%s)' % v.t))
            return
        raise Unsup('return placement')
    def s_Break(s, x):
        if s.loopstk and s.loopstk[-1] == 'switch': raise Unsup('break in switch')
        s.emit('break;')
    def s_Cont(s, x):
        inc = s.loopstk[-1]
        if inc == 'switch': raise Unsup('continue in switch')
        if inc: inc()
        s.emit('continue;')
    def s_Switch(s, x):
        v = s.stab(s.rv(x['c']))
        groups = []   # (labels or None for default, stmts)
        cur = None
        def flat(st):
            nonlocal cur
            if st['k'] == 'Case':
                lab = st['v']
                if cur is None or cur[1]: cur = ([], []); groups.append(cur)
                cur[0].append(s.rv(lab).t)
                flat(st['s'])
            elif st['k'] == 'Default':
                if cur is None or cur[1]: cur = ([], []); groups.append(cur)
                cur[0].append(None)
                flat(st['s'])
            else: cur[1].append(st)
        for y in x['b']['s']: flat(y)
        def term(ss): return ss and (ss[-1]['k'] in ('Break', 'Ret', 'Cont') or s.always_ret(ss[-1]) or (ss[-1]['k'] == 'Block' and term(ss[-1]['s'])))
        txt = None
        res = []
        dflt = None
        for gi, (labs, ss) in enumerate(groups):
            body = list(ss)
            if not term(body) and gi+1 < len(groups): raise Unsup('switch fallthrough')
            def strip(b):
                if b and b[-1]['k'] == 'Break': return b[:-1]
                if b and b[-1]['k'] == 'Block': return b[:-1]+[dict(b[-1], s=strip(b[-1]['s']))]
                return b
            body = strip(body)
            s.loopstk.append('switch')
            t, _ = s.block(lambda: [s.stmt(y) for y in body])
            s.loopstk.pop()
            if None in labs: dflt = t
            else: res.append((' || '.join('%s = %s' % (v.t, l) for l in labs), t))
        o = dflt or 'begin () end'
        for c, t in reversed(res): o = 'if %s then %s else %s' % (c, t, o)
        s.emit(o+';')
    def s_Try(s, x): raise Unsup('try')
    def s_Asm(s, x):
        h = s.u.cfg.get('asm')
        if h: return h(s, x)
        s.x86_add(x)
    def x86_add(s, x):
        """straight-line x86-64 addq/adcq, interpreted instruction by instruction"""
        outs, ins, val = {}, {}, {}
        for o in x['out']:
            if not o['n'] or not o['c'].startswith('+') or not o['c'].endswith('r'): raise Unsup('asm output')
            outs[o['n']] = (s.freeze(s.lv(o['e'])), '&' in o['c'])
        for i in x['in']:
            if not i['n']: raise Unsup('asm input')
            ins[i['n']] = s.stab(s.rv(i['e'])).t
        for n, (l, amp) in outs.items():
            if not isinstance(l.ty, TInt) or l.ty.nm() != 'u64': raise Unsup('asm operand')
            val[n] = s.tmp(s.rd(l))
        cf = None
        written = set()
        for ln in re.split(r'[\n;]', x['str']):
            ln = ln.strip()
            if not ln: continue
            m = re.fullmatch(r'(addq|adcq)\s+(%\[\w+\]|\$\d+),\s*%\[(\w+)\]', ln)
            if not m or m.group(3) not in outs: raise Unsup('asm '+ln)
            src = m.group(2)
            if src[0] == '$': sv = src[1:]
            else:
                nm = src[2:-1]
                if nm in ins:
                    sv = ins[nm]
                    if any(not outs[w][1] for w in written): raise Unsup('asm output without early clobber')
                else: sv = val[nm]
            if m.group(1) == 'adcq' and cf is None: raise Unsup('adc without carry')
            t = s.tmp('%s + %s%s' % (val[m.group(3)], sv, ' + '+cf if m.group(1) == 'adcq' else ''))
            val[m.group(3)] = s.tmp('modk %s 18446744073709551616' % t)
            cf = s.tmp('divk %s 18446744073709551616' % t)
            written.add(m.group(3))
        for n, (l, amp) in outs.items(): s.wr(l, val[n])

    # loops -----------------------------------------------------------
    def loop_annot(s, extra=None):
        s.nloop += 1
        k = s.nloop
        a = s.sp.loops.get(k, {})
        s.nloopinfo.append(k)
        return k, a
    def invs(s, a, k, alias=None):
        o = []
        def sub(f):
            for x, y in list((alias or {}).items())+list(s.kal.items()): f = re.sub(r'\$%s\b' % x, y, f)
            return f
        seen = set()
        for n, t in s.mutints:
            if n in seen: continue
            seen.add(n)
            o.append('  invariant { [@expl:loop %d range of %s] in_%s %s }' % (k, n, t.nm(), n))
        for i, f in enumerate(a.get('inv', [])):
            lab, f = f if isinstance(f, tuple) else ('inv%d' % (i+1), f)
            o.append('  invariant { [@expl:loop %d %s] %s }' % (k, lab, sub(f)))
        if a.get('var'): o.append('  variant { %s }' % sub(a['var']))
        else: s.diverges = True
        return o
    def while_(s, k, a, cond, body, inc, alias=None):
        """cond: () -> text (may emit); body, inc: () -> None"""
        s.ghost('loop%d.pre' % k)
        inv = s.invs(a, k, alias)
        kal0 = s.kal; s.kal = dict(kal0)
        for kk, kv in (alias or {}).items(): s.kal[kk] = kv; s.kal['%s%d' % (kk, k)] = kv
        old = s.out; s.out = []
        mi = len(s.mutints)
        s.ghost('loop%d.head' % k)
        c = cond()
        if c is not None:
            s.emit('if not %s then break;' % c)
        s.point('loop %d body' % k)
        s.ghost('loop%d.begin' % k)
        s.loopstk.append(inc)
        body()
        s.loopstk.pop()
        s.ghost('loop%d.end' % k)
        if inc: inc()
        s.ghost('loop%d.tail' % k)
        s.emit('()')
        s.kal = kal0
        b = s.out; s.out = old
        del s.mutints[mi:]
        s.emit('while true do\n%s\n%s\ndone;' % ('\n'.join(inv), '\n'.join(b)))
        s.ghost('loop%d.post' % k)
        s.point('after loop %d' % k)
    def s_While(s, x):
        k, a = s.loop_annot()
        s.while_(k, a, lambda: s.cond(x['c']) if s.static_bool(x['c']) is not True else None, lambda: s.stmt(x['b']), None)
    def s_For(s, x):
        if 'i' in x: s.stmt(x['i'])
        k, a = s.loop_annot()
        al = {}
        if 'i' in x and x['i']['k'] == 'Decl' and len(x['i']['d']) >= 1:
            b = s.vars.get(x['i']['d'][0]['id'])
            if b is not None and not b.path: al['k'] = b.root
        if 'inc' in x:
            y = x['inc']
            while y['k'] in ('Cast', 'Bin') and y.get('op') in (None, ','): y = y['e'] if y['k'] == 'Cast' else y['a']
            z = y.get('e') or y.get('a') or {}
            if isinstance(z, list): z = z[0]
            if y['k'] in ('Un', 'CAsg', 'OpCall') and z.get('k') == 'Var':
                b = s.vars.get(z['id'])
                if b is not None and not b.path: al['k'] = b.root
        inc = (lambda: s.s_Expr({'e': x['inc']})) if 'inc' in x else None
        s.while_(k, a, (lambda: s.cond(x['c'])) if 'c' in x else (lambda: None), lambda: s.stmt(x['b']), inc, al)
    def s_Do(s, x):
        k, a = s.loop_annot()
        s.nt += 1
        n = 'again%d_' % s.nt
        s.emit('let ref %s = true in' % n)
        def cond(): return n
        def inc():
            c = s.cond(x['c'])
            s.emit('%s <- %s;' % (n, c))
        s.while_(k, a, cond, lambda: s.stmt(x['b']), inc, {'again': n})
    def s_RFor(s, x):
        r = s.e_any(x['r'])
        if isinstance(r, Val):
            if r.lv is not None: r = r.lv
            else:
                if not isinstance(r.ty, TVec): raise Unsup('range-for over %s' % r.ty.why)
                r = s.lv_of_val(r)
        r = s.freeze(r)
        h = s.u.cfg.get('range')
        if h:
            r2 = h(s, r)
            if r2 is not None: r = r2
        if isinstance(r.ty, TRec) and len([f for f in r.ty.fields if isinstance(f[2], TVec)]) == 1:
            fld = [f for f in r.ty.fields if isinstance(f[2], TVec)][0]
            r = r.fld(fld[0])
        if not isinstance(r.ty, TVec): raise Unsup('range-for over %s' % r.ty.why)
        k, a = s.loop_annot()
        kn = s.name('k%d' % k)
        s.emit('let ref %s = 0 in' % kn)
        en = s.tmp('%s_size %s' % (r.ty.why, s.rd(r)))
        d = x['v']
        a = dict(a)
        a['inv'] = [('range', '0 <= %s <= %s' % (kn, en))] + list(a.get('inv', []))
        if not a.get('var'): a['var'] = '%s - %s' % (en, kn)
        def body():
            l = r.idx(kn)
            t = s.u.types[d['t']]
            if t['k'] in ('lref', 'rref') :
                s.vars[d['id']] = l
                s.locals.append((d['n'], s.u.tstr(d['t'])))
                if d.get('bind'):
                    for b, fld in zip(d['bind'], l.ty.fields): s.vars[b['id']] = l.fld(fld[0])
            else:
                v = s.val_of(l)
                n = s.local(d['n'] or 'elt', d['t'])
                ll = s.declare(n, d['id'], v, l.ty)
                if d.get('bind'):
                    for b, fld in zip(d['bind'], ll.ty.fields): s.vars[b['id']] = ll.fld(fld[0])
            s.stmt(x['b'])
        def inc(): s.emit('%s <- %s + 1;' % (kn, kn))
        s.while_(k, a, lambda: '(%s < %s)' % (kn, en), body, inc, {'k': kn})

    # ---------------------------------------------------------------- top level
    def header(s):
        """list of (logical name, mode, Ty, param) for the contract"""
        f = s.fn
        names = list(s.sp.params) if s.sp.params else None
        its = []
        if f.get('cls') is not None and f['kind'] in ('method', 'conv', 'dtor') and not f.get('static'):
            its.append(['this', 'in' if f.get('cm') or f['kind'] == 'dtor' else 'ref', s.u.ty(f['cls']), None])
        if f['kind'] == 'ctor':
            its.append(['this', 'out', s.u.ty(f['cls']), None])
        for p in f['params']:
            its.append([p['n'] or 'arg', s.pmode(p) if s.pmode(p) != 'arr' else ('in' if s.u.types[s.u.types[p['t']]['e']].get('const') else 'ref'), s.u.ty(p['t']), p])
        if names:
            if len(names) != len(its): raise Mismatch('parameter count of %s' % f['q'])
            for it, n in zip(its, names): it[0] = n
        else:
            pass
        for it in its:
            if it[0] in KEYWORDS: it[0] += '_'
            if it[0][0].isupper(): it[0] = 'v_'+it[0]
            if it[0].startswith('__'): it[0] = 'v'+it[0]
        return its
    def rettype(s):
        f = s.fn
        if f['kind'] == 'ctor': return None
        t = s.u.ty(f['ret'])
        if isinstance(t, TVoid): return None
        if s.ret_this_ty(f) : return None
        return t

    def contract_text(s, its, val=False):
        """spec lines shared by the val (callers) and the let (verification)"""
        sp = s.sp
        rt = s.rettype()
        al = s.alias
        o = []
        ps = []
        for n, m, t, p in its:
            if n in al: continue
            if m == 'out': continue
            by = p is not None and s.u.types[p['t']]['k'] not in ('lref', 'rref')
            ps.append('(%s : %s)' % (n if (m == 'in' and not by) else n+'_0', t.why))
        if not ps: ps = ['()']
        outs = [(n, t) for n, m, t, p in its if m in ('ref', 'out') and n not in al]
        pre = ''
        for n, m, t, p in its:
            if m == 'out': continue
            by = p is not None and s.u.types[p['t']]['k'] not in ('lref', 'rref')
            src = al.get(n)
            if src: pre += 'let %s = %s_0 in ' % (n, src)
            elif m == 'ref' or by: pre += 'let %s = %s_0 in ' % (n, n)
        rts = ([rt.why] if rt else []) + [t.why for n, t in outs]
        rty = '(%s)' % ', '.join(rts) if rts else 'unit'
        for n, m, t, p in its:
            if m == 'out' or n in al: continue
            if isinstance(t, TInt):
                by = p is not None and s.u.types[p['t']]['k'] not in ('lref', 'rref')
                o.append('  requires { [@expl:range of %s] in_%s %s }' % (n, t.nm(), n if (m == 'in' and not by) else n+'_0'))
        for lab, f in sp.requires:
            if lab.startswith('sep ') and len({al.get(z, z) for z in lab.split()[1:]}) < 2: continue   # separation of objects that are the same in this configuration
            o.append('  requires { [@expl:%s precondition %s] %s(%s) }' % (sp.name, lab, pre, f))
        names = (['result'] if rt else []) + [n for n, t in outs]
        pat = '(%s)' % ', '.join(names) if names else '_'
        pre2 = ''
        for n, m, t, p in its:
            by = p is not None and s.u.types[p['t']]['k'] not in ('lref', 'rref')
            src = al.get(n)
            if src: 
                pre2 += 'let %s = %s in ' % (n, src+'_0') if m == 'in' else 'let %s = %s in ' % (n, src)
                if m == 'ref': pre2 += 'let %s_0 = %s_0 in ' % (n, src)
            elif m == 'in' and by: pre2 += 'let %s = %s_0 in ' % (n, n)
        auto = []
        if isinstance(rt, TInt): auto.append(('range of result', 'in_%s result' % rt.nm()))
        for n, t in outs:
            if isinstance(t, TInt): auto.append(('range of %s' % n, 'in_%s %s' % (t.nm(), n)))
        ens = list(sp.ensures)
        for lab, f in auto + ens:
            body = '%s%s' % (pre2, '(%s)' % f)
            x = '[@expl:%s ensures %s]' % (sp.name, lab)
            o.append('  returns { | %s -> %s %s }' % (pat, x, body) if names else '  ensures { %s %s }' % (x, body))
        s.throw_pre = pre
        if sp.throws is not None: o.append('  raises { Cxx_throw -> [@expl:%s throws only when specified] %s%s }' % (sp.name, pre, '(%s)' % sp.throws))
        if sp.writes: o.append('  writes { %s }' % ', '.join(sp.writes))
        return ps, rty, o, rt, outs

    def val_text(s, diverges):
        its = s.header()
        ps, rty, o, rt, outs = s.contract_text(its)
        return 'val %s %s : %s\n%s%s' % (s.sp.name, ' '.join(ps), rty, '\n'.join(o), '\n  diverges' if diverges else '')

    def top_return(s, v):
        if s.sp.ghost.get('exit') and v is not None and not s.topvoid: s.emit('let ghost res_ = %s in' % v.t)
        s.ghost('exit')
        s.point('exit')
        outs = [n for n, t in s.outs]
        xs = ([v.t] if (v is not None and not s.topvoid) else []) + outs
        s.emit('return (%s);' % ', '.join(xs) if xs else 'return;' if False else ('return (%s);' % ', '.join(xs) if xs else 'return ();'))

    def translate(s):
        f = s.fn
        its = s.header()
        ps, rty, o, rt, outs = s.contract_text(its)
        s.outs = outs
        s.topvoid = rt is None
        pre = []
        for n, m, t, p in its:
            s.used[n] = 1; s.used[n+'_0'] = 1
        if f['kind'] == 'ctor':
            # members initialised by inits
            pass
        for n, m, t, p in its:
            if n in s.alias:
                src = s.alias[n]
                l = LV(src, (), t)
            elif m == 'in':
                by = p is not None and s.u.types[p['t']]['k'] not in ('lref', 'rref')
                if by:
                    s.emit('let ref %s = %s_0 in' % (n, n))
                    l = LV(n, (), t)
                    if isinstance(t, TInt): s.mutints.append((n, t))
                    if isinstance(t, TIter) and t.cont is None:
                        cn = s.sp.ghost.get('cont:'+n)
                        if cn: s.ghost_used.add('cont:'+n); l.cont = ('later', cn)
                else: l = LV(n, (), t, ro=True)
            elif m == 'ref':
                s.emit('let ref %s = %s_0 in' % (n, n))
                l = LV(n, (), t)
                if isinstance(t, TInt): s.mutints.append((n, t))
            elif m == 'out':
                l = LV(n, (), t)
            if n == 'this': s.thisstk.append(l)
            elif p is not None: s.vars[p['id']] = l
            pre.append((n, l))
        for n, l in pre:
            c = getattr(l, 'cont', None)
            if isinstance(c, tuple): l.cont = dict(pre)[c[1]]
        for n, m, t, p in its:
            if n in s.alias and m == 'in' and (s.sp.ghost or s.sp.loops): s.emit('let ghost %s = %s_0 in' % (n, s.alias[n]))
        for w in s.sp.writes: s.emit('%s <- %s;' % (w, w))
        s.ghost('entry')
        if f['kind'] == 'ctor':
            t = s.u.ty(f['cls'])
            deleg = [i for i in f.get('inits', []) if 'deleg' in i]
            if deleg:
                v = s.rv(deleg[0]['e'])
                s.emit('let ref this = %s in' % v.t)
            else:
                vals = {}
                for i in f.get('inits', []):
                    v = s.rv(i['e'])
                    vals[i['f']] = v.t if v.st else s.tmp(v.t)
                s.emit('let ref this = { %s } in' % '; '.join('%s = %s' % (x[1], vals[x[0]] if x[0] in vals else s.anyv(x[2])) for x in t.fields))
        s.point('entry')
        s.retstk.append('top')
        body = f['body']
        ss = body['s'] if body['k'] == 'Block' else [body]
        if s.sp.tail_abs and not s.alias:
            k = next((i for i, x in enumerate(ss) if has(x, lambda y: y.get('k') == 'New')), None)
            if k is None: raise Mismatch('no allocating tail in '+s.sp.name)
            for i, x in enumerate(ss[k:]):
                if i+k < len(ss)-1 and s.count_ret([x]): raise Mismatch('return inside the abstracted tail of '+s.sp.name)
            s.stmts(ss[:k])
            for x, (ty, fs) in s.sp.tail_abs.items():
                s.emit('%s <- any %s;' % (x, ty)); s.emit(' '.join('assume { %s };' % f for f in fs))
        else: s.stmts(ss)
        if s.topvoid:
            s.ghost('exit')
            s.point('exit')
            xs = [n for n, t in outs]
            s.emit('(%s)' % ', '.join(xs) if xs else '()')
        else: s.emit('absurd')
        for gp in s.sp.ghost:
            if gp not in s.ghost_used and not s.alias: raise Mismatch('annotation point %s of %s not found' % (gp, s.sp.name))
        for lk in s.sp.loops:
            if lk > s.nloop and not s.alias: raise Mismatch('loop %d of %s not found' % (lk, s.sp.name))
        s.spec_lines = o; s.ps = ps; s.rty = rty
        return s
    def let_text(s, diverges, name=None):
        o = list(s.spec_lines)
        if diverges: o.append('  diverges')
        return 'let %s %s : %s\n%s\n=\n%s' % (name or s.sp.name+'__body', ' '.join(s.ps), s.rty, '\n'.join(o), '\n'.join(s.out))
