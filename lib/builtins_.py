"""Semantics of the C++ standard library pieces the verified code uses (trusted)."""
import re
from trans import *

def cont_of(s, v):
    if v.cont is not None: return v.cont
    if isinstance(v.ty, TIter) and v.ty.cont: return LV(v.ty.cont, (), v.ty.vec)
    raise Unsup('iterator without known container')

def strip(e):
    while e['k'] == 'Cast' and e['ck'] in ('NoOp', 'LValueToRValue', 'ConstructorConversion', 'UserDefinedConversion', 'FunctionToPointerDecay'): e = e['e']
    return e
def is_move(s, e):
    e = strip(e)
    if e['k'] == 'Call' and 'f' in e and s.u.funs[e['f']]['q'] in ('std::move', 'std::forward') and s.u.types[s.u.funs[e['f']]['ret']]['k'] == 'rref': return e['a'][0]
    return None
def consume(s, e):
    """value of an argument that a library function copies or moves from; moved-from objects become unspecified"""
    m = is_move(s, e)
    if m is None and strip(e)['k'] == 'Ctor' and len(strip(e)['a']) == 1 and is_move(s, strip(e)['a'][0]) is not None and not s.u.funs[strip(e)['f']].get('defd', False):
        m = is_move(s, strip(e)['a'][0])
    if m is None: return s.rv(e)
    x = s.e_any(m)
    l = x if isinstance(x, LV) else x.lv
    if l is None: return x
    l = s.freeze(l)
    v = s.val_of(l)
    if isinstance(l.ty, (TInt, TBool, TIter, TPtr)): return v
    v = s.stab(v)
    if l.ty.why in s.u.cfg.get('trivmove', ()): return v   # trivially copyable: moving copies
    if not l.ro: s.pending.append(l) if hasattr(s, 'pending') and s.pending is not None else s.wr(l, s.anyv(l.ty))
    return v

def comp_text(s, comp, xs):
    """apply comparator expression value to two element texts"""
    raise Unsup('comparator')

def vec(s, l):
    if isinstance(l, LV): return s.rd(l)
    return l.t

def handle(s, f, e, args, obj):
    q = f['q']
    op = e.get('op')
    if q in ('memcpy', 'memmove', 'memset') and len(args) == 3 and obj is None:
        a = s.rv(args[0])
        if a.cont is None or not isinstance(a.cont.ty, TVec) or not isinstance(a.cont.ty.e, TInt): raise Unsup(q)
        w = a.cont.ty.why; sz = a.cont.ty.e.bits // 8
        n = strip(args[2])
        if n['k'] == 'Bin' and n['op'] == '*' and sz in (s.cint(n['a']), s.cint(n['b'])):
            c = s.stab(s.rv(n['a'] if s.cint(n['b']) == sz else n['b']))
            s.emit('assert { [@expl:memory size does not wrap] %s * %d <= 18446744073709551615 };' % (c.t, sz))
        else: raise Unsup(q+' size')
        if q == 'memset':
            if s.cint(args[1]) != 0: raise Unsup('memset value')
            s.wr(a.cont, '(%s_zero %s %s %s 0)' % (w, s.rd(a.cont), a.t, c.t))
        else:
            b = s.rv(args[1])
            if b.cont is None or b.cont.ty.why != w: raise Unsup(q)
            if q == 'memcpy' and not (b.cont.root != a.cont.root or s.disjoint(a.cont, b.cont)): raise Unsup('memcpy within one array')
            s.wr(a.cont, '(%s_blit %s %s %s %s %s)' % (w, s.rd(a.cont), a.t, s.rd(b.cont), b.t, c.t))
        return Val('()', TVoid(), True)
    # ---- iterators
    if q.startswith('__gnu_cxx::__normal_iterator::') or q.startswith('__gnu_cxx::operator') or q.startswith('std::_List_iterator::') or q.startswith('std::_List_const_iterator::'):
        m = q.split('::')[-1]
        if f['kind'] == 'ctor':
            if len(args) == 0: return Val('(any_int ())', s.ty(e))
            v = s.rv(args[0])
            return v
        if obj is not None: args = [obj]+list(args)
        if m == 'operator*': return s.deref_it(args[0])
        if m == 'operator->': return s.deref_it(args[0])
        if m == 'operator[]':
            v, i = s.rvs(args[:2])
            return cont_of(s, v).idx('(%s + %s)' % (v.t, i.t))
        if m in ('operator++', 'operator--'):
            l = s.freeze(s.lv(args[0]))
            l0 = s.e_any(args[0]) if strip(args[0])['k'] == 'Var' else l
            if isinstance(l0, Val): l0 = l0.lv or l
            v = s.val_of(l0 if getattr(l0, 'cont', None) is not None else l)
            post = len(args) == 2
            if post: v = s.stab(v)
            s.wr(l, '(%s %s 1)' % (v.t, '+' if m == 'operator++' else '-'))
            if post: return v
            return l0
        if m in ('operator+', 'operator-'):
            a, b = s.rvs(args)
            t = s.ty(e)
            if isinstance(b.ty, TIter): return Val('(%s - %s)' % (a.t, b.t), t, a.st and b.st)
            return Val('(%s %s %s)' % (a.t, m[-1], b.t), a.ty, a.st and b.st, a.cont)
        if m in ('operator+=', 'operator-='):
            b = s.rv(args[1]); l = s.lv(args[0])
            v = s.val_of(l)
            s.wr(l, '(%s %s %s)' % (v.t, m[-2], b.t))
            return l
        if m in ('operator==', 'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>='):
            a, b = s.rvs(args)
            if a.cont is not None and b.cont is not None and not a.cont.same(b.cont): raise Unsup('comparing iterators of different containers')
            o = m[len('operator'):]
            o = {'==': '=', '!=': '<>'}.get(o, o)
            return Val('(%s %s %s)' % (a.t, o, b.t), TBool(), a.st and b.st)
        if m == 'operator=':
            v = s.rv(args[1]); l = s.lv(args[0])
            s.assign(l, v)
            return l
        if m == 'base': return s.rv(args[0])
        return None
    if q in ('__assert_fail', 'abort', 'std::abort', 'std::terminate'):
        s.emit('assert { [@expl:C++ assertion] false };')
        return Val('()', TVoid(), True)
    if '::' not in q: return cbuiltin(s, f, e, args, q)
    # ---- vector-like
    cls = q.rsplit('::', 1)[0]
    m = q.rsplit('::', 1)[1]
    if cls in ('std::vector', 'std::__cxx11::list', 'std::list', 'std::initializer_list', 'std::deque', 'std::_Vector_base'):
        if f['kind'] == 'ctor':
            t = s.ty(e)
            if not isinstance(t, TVec): return None
            if len(args) == 0: return Val(t.why+'_nil', t, True)
            a0 = strip(args[0])
            pt = s.u.types[f['params'][0]['t']]
            if pt['k'] in ('lref', 'rref') and isinstance(s.u.ty(f['params'][0]['t']), TVec) and len([a for a in args]) <= 2:
                v = consume(s, args[0])
                return Val(v.t, t, v.st)
            t0 = s.u.ty(f['params'][0]['t'])
            if isinstance(t0, TVec): # initializer_list by value
                if t0.why != t.why: # same elements under another vector type
                    il = args[0]
                    while il.get('k') != 'IL' and isinstance(il.get('e'), dict): il = il['e']
                    if il.get('k') != 'IL': raise Unsup('initializer_list of another vector type')
                    x = t.why+'_nil'
                    for v in s.rvs(il['a']): x = '(%s_push %s %s)' % (t.why, x, v.t)
                    return Val(x, t)
                v = s.rv(args[0]); return Val(v.t, t, v.st)
            if isinstance(t0, TInt):
                if len(args) >= 2 and len(f['params']) >= 3:
                    n, x = s.rvs(args[:2]); return Val('(%s_fill %s %s)' % (t.why, n.t, x.t), t)
                n = s.rv(args[0])
                return Val('(%s_fill %s %s)' % (t.why, n.t, s.default(t.e)), t)
            if len(args) >= 2:
                a, b = s.rv(args[0]), s.rv(args[1])
                if a.cont is not None:
                    w = s.rd(a.cont)
                    if a.cont.ty.why != t.why: raise Unsup('range ctor of other type')
                    return Val('(%s_append %s_nil %s %s %s)' % (t.why, t.why, w, a.t, b.t), t)
            raise Unsup('vector ctor')
        if m == 'operator=' or m == 'assign':
            if obj is not None: args = [obj]+list(args)
            if m == 'assign':
                l = s.lv(args[0])
                if len(args) == 3 and isinstance(s.u.ty(f['params'][0]['t']), TInt):
                    n, x = s.rvs(args[1:])
                    s.wr(l, '(%s_fill %s %s)' % (l.ty.why, n.t, x.t)); return Val('()', TVoid(), True)
                if len(args) == 3:
                    a, b = s.rvs(args[1:])
                    if a.cont is not None and isinstance(a.cont.ty, TVec) and a.cont.ty.why == l.ty.why:
                        s.wr(l, '(%s_append %s_nil %s %s %s)' % (l.ty.why, l.ty.why, s.rd(a.cont), a.t, b.t)); return Val('()', TVoid(), True)
                raise Unsup('assign')
            v = consume(s, args[1])
            l = s.lv(args[0])
            if v.t == '()': raise Unsup('vector =')
            s.wr(l, v.t)
            return l
        if obj is None:
            obj, args = args[0], args[1:]
        x = s.e_any(obj)
        if e.get('arrow'): x = s.deref(obj)
        l = x if isinstance(x, LV) else x.lv
        ty = (l or x).ty
        if isinstance(ty, TArrPtr): ty = ty.vec
        if not isinstance(ty, TVec): return None
        w = ty.why
        rdv = lambda: s.rd(l) if l is not None else x.t
        if m == 'size': return Val('(%s_size %s)' % (w, rdv()), s.ty(e))
        if m == 'max_size': return Val('0x1000000000000000', s.ty(e), True)
        if m == 'empty': return Val('(%s_size %s = 0)' % (w, rdv()), TBool())
        if m == 'capacity': return Val('(any_u64 ())', s.ty(e))
        if m in ('reserve', 'shrink_to_fit'):
            for a in args: s.rv(a)
            return Val('()', TVoid(), True)
        if m in ('begin', 'cbegin', 'end', 'cend', 'data'):
            if l is None: l = s.lv_of_val(x)
            l = s.freeze(l)
            t = TIter(ty)
            if m in ('begin', 'cbegin', 'data'): return Val('0', t, True, l)
            return Val('(%s_size %s)' % (w, s.rd(l)), t, False, l)
        if m in ('operator[]', 'at'):
            i = s.rv(args[0])
            if s.impure(args[0]): i = s.stab(i)
            if l is None: l = s.lv_of_val(x)
            return l.idx(i.t)
        if m in ('front', 'back'):
            if l is None: l = s.lv_of_val(x)
            return l.idx('0' if m == 'front' else '(%s_size %s - 1)' % (w, s.rd(l)))
        if m == 'clear': s.wr(l, w+'_nil'); return Val('()', TVoid(), True)
        if m == 'pop_back': s.wr(l, '(%s_popb %s)' % (w, s.rd(l))); return Val('()', TVoid(), True)
        if m in ('push_back', 'emplace_back', 'push_front', 'emplace_front'):
            s.pending = []
            if m == 'push_back' or (len(args) == 1 and not isinstance(ty.e, TRec)):
                v = consume(s, args[0])
                if m != 'push_back' and isinstance(v.ty, TInt) and isinstance(ty.e, TInt): v = s.icast(v, ty.e)
            elif isinstance(ty.e, TRec) and len(args) == len(ty.e.fields):
                vs = []
                for i, a in enumerate(args):
                    v = consume(s, a)
                    if isinstance(v.ty, TInt) and isinstance(ty.e.fields[i][2], TInt): v = s.icast(v, ty.e.fields[i][2])
                    elif v.ty.why != ty.e.fields[i][2].why:
                        cv = s.u.cfg.get('convert')
                        v = cv(s, v, ty.e.fields[i][2]) if cv else None
                        if v is None: raise Unsup('emplace conversion')
                    vs.append(s.stab(v))
                v = Val('{ %s }' % '; '.join('%s = %s' % (fl[1], x_.t) for fl, x_ in zip(ty.e.fields, vs)), ty.e)
            elif len(args) == 1:
                v = consume(s, args[0])
            elif len(args) == 0:
                v = Val(s.default(ty.e), ty.e)
            else: 
                h = s.u.cfg.get('emplace')
                v = h(s, ty.e, args) if h else None
                if v is None: raise Unsup('emplace_back')
            pend, s.pending = s.pending, None
            if pend: v = s.stab(v)
            for p in pend: s.wr(p, s.anyv(p.ty))
            if 'front' in m: s.wr(l, '(%s_insert %s 0 %s)' % (w, s.rd(l), v.t))
            else: s.wr(l, '(%s_push %s %s)' % (w, s.rd(l), v.t))
            if m == 'emplace_back': return l.idx('(%s_size %s - 1)' % (w, s.rd(l)))
            return Val('()', TVoid(), True)
        if m == 'resize':
            n = s.rv(args[0])
            d = s.rv(args[1]).t if len(args) > 1 else s.default(ty.e)
            s.wr(l, '(%s_resize %s %s %s)' % (w, s.rd(l), n.t, d)); return Val('()', TVoid(), True)
        if m == 'swap':
            return swap(s, l, s.lv(args[0]))
        if m == 'insert':
            p = s.rv(args[0])
            if len(args) == 2:
                v = consume(s, args[1])
                if isinstance(v.ty, (TVec, TIter)): raise Unsup('insert')
                s.wr(l, '(%s_insert %s %s %s)' % (w, s.rd(l), p.t, v.t))
                return Val(p.t, p.ty, p.st, l)
            if len(args) == 3:
                a, b = s.rvs(args[1:])
                if a.cont is not None and p.t == '(%s_size %s)' % (w, s.rd(l)) and a.cont.ty.why == w:
                    s.wr(l, '(%s_append %s %s %s %s)' % (w, s.rd(l), s.rd(a.cont), a.t, b.t))
                    return Val(p.t, p.ty, p.st, l)
            raise Unsup('insert')
        if m == 'erase':
            if len(args) == 1:
                p = s.stab(s.rv(args[0]))
                s.wr(l, '(%s_erase %s %s)' % (w, s.rd(l), p.t))
                return Val(p.t, p.ty, True, l)
            if len(args) == 2:
                a, b = s.rvs(args)
                if a.cont is not None and a.cont.ty.why == w and not getattr(s, 'pending', None):
                    a = s.stab(a)
                    s.wr(l, '(%s_erase_rng %s %s %s)' % (w, s.rd(l), a.t, b.t))
                    return Val(a.t, a.ty, True, l)
            raise Unsup('erase range')
        return None
    # ---- pair
    if q == 'std::pair::ctor':
        t = s.ty(e)
        if not isinstance(t, TRec): return None
        if len(args) == 0: return Val(s.default(t), t)
        if len(args) == 1:
            v = consume(s, args[0])
            if v.ty.why == t.why: return Val(v.t, t, v.st)
            if isinstance(v.ty, TRec) and len(v.ty.fields) == len(t.fields):
                v = s.stab(v)
                return mkrec(s, t, [Val('%s.%s' % (v.t, fl[1]), fl[2], True) for fl in v.ty.fields])
            raise Unsup('pair conversion')
        own = getattr(s, 'pending', None) is None
        if own: s.pending = []
        vs = []
        for a in args:
            v = consume(s, a)
            if any(s.impure(y) for y in args): v = s.stab(v)
            vs.append(v)
        if own:
            pend, s.pending = s.pending, None
            if pend: vs = [s.stab(v) for v in vs]
            for p in pend: s.wr(p, s.anyv(p.ty))
        return mkrec(s, t, vs)
    if q == 'std::pair::operator=':
        l = s.lv(args[0])
        v = consume(s, args[1])
        if is_move(s, args[1]) is not None and not v.st: v = s.stab(v)
        s.wr(l, v.t)
        return l
    if q == 'std::make_pair':
        t = s.ty(e)
        vs = s.rvs(args)
        return mkrec(s, t, vs)
    if q == 'std::pair::swap':
        return swap(s, s.lv(obj), s.lv(args[0]))
    if q in ('std::move', 'std::forward') and len(args) == 1 and len(f['params']) == 1:
        return s.e_any(args[0])
    if q in ('std::swap', 'std::__cxx11::swap') and len(args) == 2:
        return swap(s, s.lv(args[0]), s.lv(args[1]))
    if q in ('std::max', 'std::min') and len(args) == 2:
        a, b = s.rvs(args)
        if isinstance(a.ty, TInt):
            a, b = s.stab(a), s.stab(b)
            return Val('(if %s %s %s then %s else %s)' % (a.t, '<' if q == 'std::max' else '>', b.t, b.t, a.t), a.ty, True)
        return None
    if q in ('std::distance',) and len(args) == 2:
        a, b = s.rvs(args)
        return Val('(%s - %s)' % (b.t, a.t), s.ty(e))
    if q == 'std::next' or q == 'std::prev':
        a = s.rv(args[0]); n = s.rv(args[1]).t if len(args) > 1 else '1'
        return Val('(%s %s %s)' % (a.t, '+' if q == 'std::next' else '-', n), a.ty, a.st, a.cont)
    if q in ('std::sort', 'std::stable_sort', 'std::is_sorted') and len(args) == 3 and s.u.cfg.get('sort'):
        a, b = s.rvs(args[:2])
        c = cont_of(s, a)
        w = c.ty.why
        names = s.u.cfg['sort'].get((w, s.u.tstr(s.u.strip(args[2]['t'])))) or s.u.cfg['sort'].get(w)
        if not names: raise Unsup('sort of %s' % w)
        s.emit('assert { [@expl:whole range] %s = 0 /\\ %s = %s_len %s };' % (a.t, b.t, w, s.rd(c)))
        if q == 'std::is_sorted': return Val(s.tmp('%s %s' % (names[1], s.rd(c))), s.ty(e), True)
        s.wr(c, s.tmp('%s %s' % (names[0], s.rd(c))))
        return Val('()', TVoid(), True)
    if q == 'std::reverse' and len(args) == 2:
        a, b = s.rvs(args)
        c = cont_of(s, a)
        w = c.ty.why
        t = s.tmp('any %s ensures { %s_len result = %s_len %s } ensures { forall i:int. 0 <= i < %s_len result -> %s_get result i = (if %s <= i < %s then %s_get %s (%s + %s - 1 - i) else %s_get %s i) }' % (w, w, w, s.rd(c), w, w, a.t, b.t, w, s.rd(c), a.t, b.t, w, s.rd(c)))
        s.wr(c, t)
        return Val('()', TVoid(), True)
    if f.get('kind') == 'ctor' and len(args) == 0 and q.split('::')[-2:] != [] and not f.get('defd'):
        t = None
        try: t = s.ty(e)
        except Unsup: return Val('()', TVoid(), True)
        return None
    return cbuiltin(s, f, e, args, q)

def mkrec(s, t, vs):
    o = []
    for fl, v in zip(t.fields, vs):
        if isinstance(v.ty, TInt) and isinstance(fl[2], TInt): v = s.icast(v, fl[2])
        elif v.ty.why != fl[2].why:
            cv = s.u.cfg.get('convert')
            v2 = cv(s, v, fl[2]) if cv else None
            if v2 is None: raise Unsup('record conversion %s -> %s' % (v.ty.why, fl[2].why))
            v = v2
        o.append('%s = %s' % (fl[1], v.t))
    return Val('{ %s }' % '; '.join(o), t)

def swap(s, a, b):
    a, b = s.freeze(a), s.freeze(b)
    if a.same(b): return Val('()', TVoid(), True)
    x = s.tmp(s.rd(a)); y = s.tmp(s.rd(b))
    s.wr(a, y); s.wr(b, x)
    ca, cb = getattr(a, 'cont', None), getattr(b, 'cont', None)
    if ca is not None or cb is not None: raise Unsup('swap of iterators')
    return Val('()', TVoid(), True)

def cbuiltin(s, f, e, args, q):
    if q in ('std::abs', 'abs', 'labs', 'llabs') and isinstance(s.ty(e), TInt):
        a = s.stab(s.rv(args[0])); t = a.ty
        return Val('(if %s < 0 then %s else %s)' % (a.t, s.arith('-', Val('0', t, True), a, t).t, a.t), t, False)
    if q in ('__builtin_clzll', '__builtin_clzl'):
        a = s.rv(args[0]); return Val('(clz64 %s)' % a.t, s.ty(e))
    if q in ('__builtin_ctzll', '__builtin_ctzl'):
        a = s.rv(args[0]); return Val('(ctz64 %s)' % a.t, s.ty(e))
    if q == '__builtin_constant_p': return Val('(any_i32 ())', TInt(32, True))
    if q in ('__builtin_expect',): return s.rv(args[0])
    if q in ('__builtin_add_overflow', '__builtin_sub_overflow', '__builtin_mul_overflow') or q in ('__builtin_saddl_overflow', '__builtin_ssubl_overflow', '__builtin_smull_overflow'):
        a, b = s.rvs(args[:2])
        l = s.lv(args[2]['e'] if args[2]['k'] == 'Un' else {'k': 'Un', 'op': '*', 'e': args[2], 'post': False, 't': 0}) if args[2]['k'] == 'Un' else s.deref(args[2])
        t = l.ty
        o = {'a': '+', 's': '-', 'm': '*'}[q.split('_')[3].replace('s', '', 1)[0] if q.startswith('__builtin_s') and not q.startswith('__builtin_sub_') else q.split('_')[3][0]]
        x = s.tmp('%s %s %s' % (a.t, o, b.t))
        s.wr(l, '(wrap_%s %s)' % (t.nm(), x))
        return Val('(not (in_range_%s %s))' % (t.nm(), x), TBool())
    return None
