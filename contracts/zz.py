"""integer layer (number/ZZ.hh): machine word or GMP cell.
mpz_ptr is an address; the GMP heap is the global map `mem` (status and value of every cell).  The GMP functions are
trusted: their contracts below are the ones of the GMP manual."""
from trans import *
import re
from nt import NT
class TMpzT(TOpaque):
    anyt = '(mpz_local ())'
PTR = TPtr(None)
PRE = '''
use int.EuclideanDivision
use int.ComputerDivision as CD
use int.Abs
use NT
type heap
(* status of a cell: 0 free, 1 allocated with new but not initialised, 2 live (heap), 11 uninitialised local, 12 live local *)
function hs (h: heap) (p: int) : int
function hv (h: heap) (p: int) : int
function upd (h: heap) (p: int) (s: int) (v: int) : heap
axiom hs_neg: forall h: heap, p: int [hs h p]. p < 0 -> hs h p = 0
axiom hs_upd: forall h: heap, p s v q: int [hs (upd h p s v) q]. 0 <= p -> hs (upd h p s v) q = (if q = p then s else hs h q)
axiom hv_upd: forall h: heap, p s v q: int [hv (upd h p s v) q]. 0 <= p -> hv (upd h p s v) q = (if q = p then v else hv h q)
val ref mem : heap
predicate live (h: heap) (p: int) = 0 <= p /\\ (hs h p = 2 \\/ hs h p = 12)
function rd_ (h: heap) (p: int) : int = hv h p
(* floor / truncated division *)
function fdiv (a b: int) : int = if b > 0 then div a b else if mod a b = 0 then div a b else div a b - 1
function fmod (a b: int) : int = a - b * fdiv a b
function lcmf (a b: int) : int = if a = 0 \\/ b = 0 then 0 else div (abs a * abs b) (gcdf a b)
predicate invertible (a m: int)
function inverse (a m: int) : int
axiom inverse_def: forall a m: int [inverse a m]. invertible a m -> mod (a * inverse a m) (abs m) = mod 1 (abs m) /\\ 0 <= inverse a m /\\ inverse a m < abs m \\/ abs m = 1
(* smallest (probable) prime above n, largest below n: GMP *)
function next_p int : int
function prev_p int : int
axiom next_gt: forall n: int [next_p n]. next_p n >= 2 /\\ next_p n > n
axiom prev_lt: forall n: int [prev_p n]. 2 < n -> 2 <= prev_p n < n
function parses (s: str_) (b: int) : bool
function parsed (s: str_) (b: int) : int
function sgnf (x: int) : int = if x > 0 then 1 else if x < 0 then -1 else 0
val mpz_local () : int writes { mem } ensures { 0 <= result /\\ hs (old mem) result = 0 /\\ mem = upd (old mem) result 11 0 }
val mpz_alloc () : int writes { mem } ensures { 0 <= result /\\ hs (old mem) result = 0 /\\ mem = upd (old mem) result 1 0 }
val mpz_free (p: int) : unit requires { [@expl:delete of a cleared heap cell] hs mem p = 1 } writes { mem } ensures { mem = upd (old mem) p 0 0 }
val mpz_init_ (p: int) : unit requires { [@expl:mpz_init of an uninitialised cell] 0 <= p /\\ (hs mem p = 1 \\/ hs mem p = 11) } writes { mem } ensures { mem = upd (old mem) p (hs (old mem) p + 1) 0 }
val mpz_clear_ (p: int) : unit requires { [@expl:mpz_clear of a live cell] live mem p } writes { mem } ensures { mem = upd (old mem) p (hs (old mem) p - 1) 0 }
val mp_size (p: int) : int requires { [@expl:live cell] live mem p } reads { mem } ensures { (result < 0 <-> hv mem p < 0) /\\ (result > 0 <-> hv mem p > 0) } ensures { -2147483648 < result < 2147483648 }
val mp_limb (p i: int) : int requires { [@expl:live cell] live mem p } requires { i = 0 } reads { mem } ensures { 0 <= result < 18446744073709551616 } ensures { hv mem p <> 0 -> mod result 2 = mod (hv mem p) 2 }
'''
L = lambda p: 'requires { [@expl:GMP operand %s is live] live mem %s }' % (p, p)
gm = []     # (gmp name, why args, result, pre, post)  -> val + template
def g(name, args, new=None, ret=None, pre=(), st=None):
    """name(args): args like 'r a b:i'; new: new value of r in terms of v(x); ret: postcondition on result"""
    As = []
    for a in args.split():
        n, _, k = a.partition(':'); As.append((n, k))
    ptrs = [n for n, k in As if k == '']
    sub = lambda f, h: re.sub(r'\bv\((\w+)\)', r'(hv %s \1)' % h, f)
    o = 'val g_%s %s : %s ' % (name, ' '.join('(%s: %s)' % (n, {'': 'int', 'i': 'int', 'u': 'int', 's': 'str_'}[k]) for n, k in As), 'int' if ret else 'unit')
    o += ' '.join(L(p) for p in ptrs) + ' ' + ' '.join('requires { [@expl:GMP precondition of %s] %s }' % (name, sub(p, 'mem')) for p in pre)
    rs = list(new.items()) if isinstance(new, dict) else ([(As[0][0], new)] if new else [])
    if rs:
        m = '(old mem)'
        for n, f in rs: m = '(upd %s %s (hs (old mem) %s) (%s))' % (m, n, n, sub(f, '(old mem)'))
        o += ' writes { mem } ensures { mem = %s }' % m
        if len(rs) > 1: o += ' requires { [@expl:GMP outputs are distinct] %s <> %s }' % (rs[0][0], rs[1][0])
    else: o += ' reads { mem }'
    if ret:
        for f in (ret if isinstance(ret, list) else [ret]): o += ' ensures { %s }' % sub(f, '(old mem)' if rs else 'mem')
    global PRE
    PRE += o + '\n'
    gm.append((r'^(_?_*gmpz_|mpz_|_mpz_)%s\(' % re.escape(name), '(g_%s %s)' % (name, ' '.join('{%d}' % i for i in range(len(As))))))
g('set', 'r a', 'v(a)'); g('set_si', 'r a:i', 'a'); g('set_ui', 'r a:u', 'a')
g('get_si', 'a', ret=['-9223372036854775808 <= result <= 9223372036854775807', '-9223372036854775808 <= v(a) <= 9223372036854775807 -> result = v(a)'])
g('get_ui', 'a', ret=['result = mod (abs v(a)) 18446744073709551616'])
g('fits_slong_p', 'a', ret='result <> 0 <-> -9223372036854775808 <= v(a) <= 9223372036854775807')
g('neg', 'r a', '- v(a)'); g('abs', 'r a', 'abs v(a)')
g('add', 'r a b', 'v(a) + v(b)'); g('sub', 'r a b', 'v(a) - v(b)'); g('mul', 'r a b', 'v(a) * v(b)')
g('add_ui', 'r a b:u', 'v(a) + b'); g('sub_ui', 'r a b:u', 'v(a) - b'); g('mul_si', 'r a b:i', 'v(a) * b'); g('mul_ui', 'r a b:i', 'v(a) * b'); g('ui_sub', 'r a:u b', 'a - v(b)')
g('addmul', 'r a b', 'v(r) + v(a) * v(b)'); g('submul', 'r a b', 'v(r) - v(a) * v(b)'); g('addmul_ui', 'r a b:u', 'v(r) + v(a) * b'); g('submul_ui', 'r a b:u', 'v(r) - v(a) * b')
NZ = ['v(b) <> 0']
g('tdiv_q', 'r a b', 'CD.div v(a) v(b)', pre=NZ); g('tdiv_r', 'r a b', 'CD.mod v(a) v(b)', pre=NZ); g('tdiv_qr', 'q r a b', {'q': 'CD.div v(a) v(b)', 'r': 'CD.mod v(a) v(b)'}, pre=NZ)
g('fdiv_q', 'r a b', 'fdiv v(a) v(b)', pre=NZ); g('fdiv_r', 'r a b', 'fmod v(a) v(b)', pre=NZ); g('fdiv_qr', 'q r a b', {'q': 'fdiv v(a) v(b)', 'r': 'fmod v(a) v(b)'}, pre=NZ)
g('fdiv_ui', 'a d:u', ret='result = mod v(a) d /\\ 0 <= result < d', pre=['0 < d'])
g('fdiv_q_2exp', 'r a n:u', 'div v(a) (pw2 n)', pre=['0 <= n']); g('mul_2exp', 'r a n:u', 'v(a) * pw2 n', pre=['0 <= n']); g('tdiv_q_2exp', 'r a n:u', 'CD.div v(a) (pw2 n)', pre=['0 <= n'])
g('pow_ui', 'r a n:u', 'ipow v(a) n', pre=['0 <= n']); g('gcd', 'r a b', 'gcdf v(a) v(b)'); g('lcm', 'r a b', 'lcmf v(a) v(b)')
g('cmp', 'a b', ret='(result < 0 <-> v(a) < v(b)) /\\ (result = 0 <-> v(a) = v(b))'); g('cmp_si', 'a b:i', ret='(result < 0 <-> v(a) < b) /\\ (result = 0 <-> v(a) = b)'); g('cmp_ui', 'a b:u', ret='(result < 0 <-> v(a) < b) /\\ (result = 0 <-> v(a) = b)')
g('invert', 'r a m', 'if invertible v(a) v(m) then inverse v(a) v(m) else v(r)', ret='result <> 0 <-> invertible v(a) v(m)', pre=['v(m) <> 0'])
g('set_str', 'r s:s b:i', 'if parses s b then parsed s b else v(r)', ret='result = 0 <-> parses s b')
g('sizeinbase', 'a b:i', ret=['1 <= result <= 18446744073709551615', 'v(a) = 0 -> result = 1', 'b = 2 /\\ v(a) <> 0 -> ipow 2 (result - 1) <= abs v(a) < ipow 2 result', 'v(a) <> 0 -> abs v(a) < ipow b result'], pre=['2 <= b <= 62'])
g('nextprime', 'r a', 'next_p v(a)')
g('prevprime', 'r a', 'prev_p v(a)', ret='result <> 0', pre=['2 < v(a)'])
g('swap', 'a b', {'a': 'v(b)', 'b': 'v(a)'})
gm += [(r'^__gmpz_init\(', '(mpz_init_ {0})'), (r'^__gmpz_clear\(', '(mpz_clear_ {0})')]
# ---- ZZ
SPEC = r'''
function vz (h: heap) (z: zz) : int = if z.zz_mpz = -1 then z.zz_val else hv h z.zz_mpz
predicate i64 (x: int) = -9223372036854775808 <= x <= 9223372036854775807
(* representation invariant: a value that fits a machine word is held as one *)
predicate canz (h: heap) (z: zz) = if z.zz_mpz = -1 then i64 z.zz_val else live h z.zz_mpz /\ hs h z.zz_mpz = 2 /\ not i64 (hv h z.zz_mpz)
predicate sepz (a b: zz) = a.zz_mpz = -1 \/ a.zz_mpz <> b.zz_mpz
(* the operation consumed cell x (or none, -1) and produced cell y (or none); nothing else changed, nothing leaked *)
predicate frm (h0 h: heap) (x: int) = forall p: int [hs h p | hv h p]. hs h0 p <> 0 /\ p <> x -> hs h p = hs h0 p /\ hv h p = hv h0 p
predicate nlk (h0 h: heap) (x y: int) = forall p: int [hs h p]. hs h p = 0 \/ hs h p = 11 \/ p = y \/ (hs h0 p <> 0 /\ p <> x)
predicate frs (h0: heap) (x y: int) = y <> -1 /\ y <> x -> hs h0 y = 0
predicate frm2 (h0 h: heap) (x1 x2: int) = forall p: int [hs h p | hv h p]. hs h0 p <> 0 /\ p <> x1 /\ p <> x2 -> hs h p = hs h0 p /\ hv h p = hv h0 p
predicate nlk2 (h0 h: heap) (x1 y1 x2 y2: int) = forall p: int [hs h p]. hs h p = 0 \/ hs h p = 11 \/ p = y1 \/ p = y2 \/ (hs h0 p <> 0 /\ p <> x1 /\ p <> x2)
lemma fdiv_pos: forall a b: int [fdiv a b]. b > 0 -> fdiv a b = div a b
let ghost mod_uq (p q r: int) requires { 0 <= r < p } ensures { mod (p * q + r) p = r } ensures { div (p * q + r) p = q }
= assert { mod (p * q + r) p = mod r p }; assert { mod r p = r }; assert { p * q + r = p * div (p*q+r) p + r }; assert { p * (q - div (p*q+r) p) = 0 }
let ghost mod_uqn (p q r: int) requires { p < 0 /\ 0 <= r < - p } ensures { mod (p * q + r) p = r } ensures { div (p * q + r) p = q }
= let x = p * q + r in let d = div x p in let e = mod x p in assert { x = p * d + e }; assert { 0 <= e < - p }; assert { p * (q - d) = e - r }; assert { q - d <= -1 -> p * (q - d) >= - p }; assert { q - d >= 1 -> p * (q - d) <= p }
let lemma fmod_trunc (a b: int) requires { b <> 0 } ensures { fmod a b = (let r = CD.mod a b in if r <> 0 /\ ((r < 0) <> (b < 0)) then r + b else r) }
= let ghost q = CD.div a b in let ghost r = CD.mod a b in assert { a = b * q + r };
  if b > 0 then (if r < 0 then begin assert { a = b * (q - 1) + (r + b) }; mod_uq b (q - 1) (r + b) end else mod_uq b q r)
  else (if r < 0 then begin assert { a = b * (q + 1) + (r - b) }; mod_uqn b (q + 1) (r - b); assert { fdiv a b = q } end else begin mod_uqn b q r; assert { r = 0 -> fdiv a b = q }; assert { r > 0 -> fdiv a b = q - 1 } end)
lemma fmod_m1: forall a: int [fmod a (-1)]. fmod a (-1) = 0
let ghost gcd_abs2 (a b: int) ensures { gcdf (abs a) (abs b) = gcdf a b } = assert { gcdf a b = gcdf (abs a) b }; assert { gcdf (abs a) b = gcdf b (abs a) }; assert { gcdf b (abs a) = gcdf (abs b) (abs a) }
let ghost gcd_euc (x y: int) requires { y > 0 /\ x >= 0 } ensures { gcdf y (CD.mod x y) = gcdf x y } = assert { x = y * CD.div x y + CD.mod x y }; assert { CD.mod x y = x - CD.div x y * y }; assert { gcdf x y = gcdf y (x - CD.div x y * y) }
let ghost lcm_alt (a b: int) requires { a <> 0 /\ b <> 0 } ensures { lcmf a b = CD.div (abs a) (gcdf a b) * abs b } ensures { 0 < gcdf a b <= abs b }
= let g = gcdf a b in assert { g = gcdf (abs a) b }; assert { 0 < g }; assert { mod (abs a) g = 0 }; let k = div (abs a) g in assert { abs a = g * k }; assert { abs a * abs b = g * (k * abs b) + 0 }; mod_uq g (k * abs b) 0; assert { CD.mod (abs a) g = 0 by CD.mod (abs a) g = mod (abs a) g }; assert { CD.div (abs a) g = k by g * CD.div (abs a) g = g * k }
let ghost neg_mod (v d: int) requires { d > 0 } ensures { mod v d = (if mod (- v) d = 0 then 0 else d - mod (- v) d) }
= let q = div (- v) d in let r = mod (- v) d in assert { - v = d * q + r }; if r = 0 then mod_uq d (- q) 0 else mod_uq d (- q - 1) (d - r)
let rec ghost ipow_gt (b n: int) requires { b >= 2 /\ 0 <= n } ensures { ipow b n >= 1 /\ ipow b n > n } variant { n } = if n > 0 then begin ipow_gt b (n-1); ipow_step b (n-1); assert { b * ipow b (n-1) >= 2 * ipow b (n-1) } end
let rec lemma ipow_mono (b m n: int) requires { b >= 2 /\ 0 <= m <= n } ensures { ipow b m <= ipow b n } variant { n - m } = if m < n then begin ipow_mono b m (n-1); ipow_gt b (n-1); ipow_step b (n-1); assert { b * ipow b (n-1) >= ipow b (n-1) } end
let rec ghost ipow_2 (n: int) requires { 0 <= n } ensures { ipow 2 n = pw2 n } variant { n } = if n > 0 then begin ipow_2 (n-1); pw2_step (n-1); ipow_step 2 (n-1) end
let ghost ipow64 () ensures { ipow 2 64 = 18446744073709551616 } = ipow_2 64
let ghost dig_step (v b c t: int) requires { 0 <= v /\ b >= 2 /\ 0 <= c /\ v * ipow b c <= t < (v + 1) * ipow b c /\ 1 <= ipow b c }
  ensures { CD.div v b * ipow b (c + 1) <= t < (CD.div v b + 1) * ipow b (c + 1) } ensures { ipow b (c + 1) >= 1 /\ c < ipow b c }
  ensures { v > 0 -> ipow b c <= t } ensures { 0 <= CD.div v b } ensures { v > 0 -> CD.div v b < v }
= let q = CD.div v b in let r = CD.mod v b in assert { v = b * q + r /\ 0 <= r < b }; assert { q >= 0 by b * q > - b }; ipow_gt b c; ipow_gt b (c + 1); let pp = ipow b c in
  ipow_step b c; assert { q * (b * pp) = (b * q) * pp }; assert { (b * q) * pp <= v * pp by (v - b * q) * pp >= 0 }; assert { (q + 1) * (b * pp) = (b * q + b) * pp };
  assert { (v + 1) * pp <= (b * q + b) * pp by (b * q + b - (v + 1)) * pp >= 0 }; assert { v > 0 -> v * pp >= pp by (v - 1) * pp >= 0 }; assert { v > 0 -> q < v by b * q >= 2 * q }
let ghost shr_big (v n: int) requires { i64 v /\ 63 <= n } ensures { div v (pw2 n) = (if v < 0 then -1 else 0) }
= pw2_add 63 (n - 63); assert { pw2 n >= 9223372036854775808 by pw2 (n - 63) >= 1 }; if v < 0 then mod_uq (pw2 n) (-1) (v + pw2 n) else mod_uq (pw2 n) 0 v
lemma div_m1: forall a: int [div a (-1)]. div a (-1) = - a
lemma cdiv_def: forall a b: int [CD.mod a b]. b <> 0 -> a = b * CD.div a b + CD.mod a b
'''
def member(s, e):
    if e['n'] not in ('_mp_size', '_mp_d', '_mp_alloc'): return None
    if not e.get('arrow'): raise Unsup('mpz struct field')
    b = s.rv(e['b'])
    if e['n'] == '_mp_size': return Val('(mp_size %s)' % b.t, TInt(32, True))
    if e['n'] == '_mp_d':
        class C:
            def idx(self, i): return LV('(mp_limb %s %s)' % (b.t, i), (), TInt(64, False), True)
        return Val('0', TPtr(TInt(64, False)), True, C())
    return None
def new(s, e, et): return Val(s.tmp('mpz_alloc ()'), PTR, True) if et.why == 'mpzs' else None
def delete(s, e):
    s.emit('mpz_free %s;' % s.rv(e['e']).t); return True
cfg = dict(tu='zz.cc',
  roots=['clpoly::ZZ::*', 'clpoly::operator*', 'clpoly::pow', 'clpoly::gcd', 'clpoly::lcm', 'clpoly::abs', 'clpoly::sgn', 'clpoly::swap', 'clpoly::next_prime*', 'clpoly::prev_prime*', 'clpoly::addmul', 'clpoly::submul', 'clpoly::set_zero', 'clpoly::is_divexact', 'clpoly::__div', 'clpoly::fdiv*', 'clpoly::invert'],
  abbr=[('clpoly::ZZ', 'ZZ')],
  types={'__mpz_struct': TOpaque('mpzs'), '__mpz_struct[1]': TMpzT('int'), 'mpz_t': TMpzT('int'), 'char': TInt(8, True), 'const char *': TStr(), 'char *': TStr(), 'ZZ': 'zz', 'mpz_ptr': PTR, 'mpz_srcptr': PTR},
  member=member, new=new, delete=delete, templates=gm)
cfg['premodules'] = NT
cfg['prelude0'] = PRE
cfg['modules'] = '\nmodule ZS\nuse int.Int\nuse int.Abs\nuse int.ComputerDivision as CD\nuse NT\nuse ref.Ref\nuse int.EuclideanDivision\nuse Base\nuse Ty0\nuse Ty\n' + SPEC + '\nend\n'
F = []
O = '(old mem)'
def fn(name, q, sel, params, requires=(), ensures=(), w=True, **k):
    F.append(Fn(name, q, sel, params, requires=requires, ensures=ensures, writes=['mem'] if w else [], reads=[] if w else ['mem'], layer=['NT', 'ZS'], **k))
Z = 'clpoly::ZZ::'
def mv(x, y): return [('frame', 'frm (old mem) mem (%s)' % x), ('no leak', 'nlk (old mem) mem (%s) (%s)' % (x, y)), ('fresh cell', 'frs (old mem) (%s) (%s)' % (x, y))]
def mv2(x1, y1, x2, y2): return [('frame', 'frm2 (old mem) mem (%s) (%s)' % (x1, x2)), ('no leak', 'nlk2 (old mem) mem (%s) (%s) (%s) (%s)' % (x1, y1, x2, y2)), ('distinct cells', '%s = -1 \\/ %s <> %s' % (y1, y1, y2))]
def canz(*xs): return [('canonical %s' % x, 'canz mem %s' % x) for x in xs]
def res(f): return [('exact', 'vz mem result = %s' % f), ('canonical', 'canz mem result'), ] + mv('(-1)', 'result.zz_mpz')
def inpl(f, x='this'): return [('exact', 'vz mem %s = %s' % (x, f)), ('canonical', 'canz mem %s' % x), ] + mv('%s_0.zz_mpz' % x, '%s.zz_mpz' % x)
def thisnew(f): return [('exact', 'vz mem this = %s' % f), ('canonical', 'canz mem this'), ] + mv('(-1)', 'this.zz_mpz')
v = lambda x: 'vz (old mem) %s' % x
C = 'clpoly::ZZ::ctor'
fn('c_def', C, r'ZZ::ctor\(\)', ['this'], [], thisnew('0'))
for n, t in (('int', 'int'), ('uint', 'unsigned int'), ('long', 'long'), ('ll', 'long long'), ('ulong', 'unsigned long'), ('ull', 'unsigned long long')):
    fn('c_'+n, C, r'ZZ::ctor\(%s\)' % t, ['this', 'v'], [], thisnew('v_0'))
fn('c_str', C, r'ZZ::ctor\(const char \*, int\)', ['this', 'str', 'base'], [], thisnew('parsed str_0 base_0'), throws='not parses str_0 base_0')
fn('c_mpz', C, r'ZZ::ctor\(const __mpz_struct \*\)', ['this', 'z'], ['live mem z_0'], thisnew('hv (old mem) z_0'))
fn('c_copy', C, r'ZZ::ctor\(const ZZ &\)', ['this', 'o'], canz('o'), thisnew(v('o')))
fn('c_move', C, r'ZZ::ctor\(ZZ &&\)', ['this', 'o'], canz('o'), [('exact', 'vz mem this = vz (old mem) o_0'), ('canonical', 'canz mem this /\\ canz mem o'), ('ownership moves', 'this.zz_mpz = o_0.zz_mpz /\\ o.zz_mpz = -1'), ('memory', 'mem = old mem')])
EQ = Z+'operator='
fn('a_copy', EQ, r'operator=\(const ZZ &\)', ['this', 'o'], canz('this', 'o')+[('sep this o', 'sepz this o')], inpl(v('o')), alias=[{'o': 'this'}])
fn('a_move', EQ, r'operator=\(ZZ &&\)', ['this', 'o'], canz('this', 'o')+[('sep this o', 'sepz this o')], [('exact', 'vz mem this = vz (old mem) o_0'), ('canonical', 'canz mem this /\\ canz mem o'), ('ownership moves', 'this.zz_mpz = o_0.zz_mpz /\\ o.zz_mpz = -1'), ] + mv2('this_0.zz_mpz', '(-1)', 'o_0.zz_mpz', 'this.zz_mpz'))
for n, t in (('int', 'int'), ('uint', 'unsigned int'), ('long', 'long'), ('ll', 'long long'), ('ulong', 'unsigned long'), ('ull', 'unsigned long long')):
    fn('a_'+n, EQ, r'operator=\(%s\)' % t, ['this', 'v'], canz('this'), inpl('v_0'))
fn('swap', Z+'swap', None, ['this', 'o'], canz('this', 'o'), [('exchange', 'this = o_0 /\\ o = this_0')], w=False)
AB = ['a', 'b']
for n, op, f in (('eq', '==', '='), ('ne', '!=', '<>'), ('lt', '<', '<'), ('gt', '>', '>'), ('le', '<=', '<='), ('ge', '>=', '>=')):
    fn('o_'+n, 'clpoly::operator'+op, r'operator%s\(const ZZ &, const ZZ &\)' % op, AB, canz('a', 'b'), [('decides', 'result <-> vz mem a %s vz mem b' % f)], w=False)
T = ['this']
fn('to_bool', Z+'conv:bool', None, T, canz('this'), [('decides', 'result <-> vz mem this <> 0')], w=False)
fn('is_zero', Z+'is_zero', None, T, canz('this'), [('decides', 'result <-> vz mem this = 0')], w=False)
fn('is_one', Z+'is_one', None, T, canz('this'), [('decides', 'result <-> vz mem this = 1')], w=False)
fn('is_odd', Z+'is_odd', None, T, canz('this'), [('decides', 'result <-> mod (vz mem this) 2 <> 0')], w=False)
fn('m_sgn', Z+'sgn', None, T, canz('this'), [('sign', '(result > 0 <-> vz mem this > 0) /\\ (result < 0 <-> vz mem this < 0)')], w=False)
fn('neg', 'clpoly::operator-', r'operator-\(const ZZ &\)', ['a'], canz('a'), res('- '+v('a')))
BB = lambda op: r'operator%s\(const ZZ &, const ZZ &\)' % re.escape(op)
for n, op in (('add', '+'), ('sub', '-'), ('mul', '*')):
    fn('o_'+n, 'clpoly::operator'+op, BB(op), AB, canz('a', 'b'), res('%s %s %s' % (v('a'), op, v('b'))))
    fn('i_'+n, Z+'operator%s=' % op, r'operator%s=\(const ZZ &\)' % re.escape(op), ['this', 'b'], canz('this', 'b')+[('sep this b', 'sepz this b')], inpl('%s %s %s' % (v('this_0'), op, v('b'))), alias=[{'b': 'this'}])
for n, op, f in (('div', '/', 'CD.div'), ('mod', '%', 'CD.mod')):
    fn('o_'+n, 'clpoly::operator'+op, BB(op), AB, canz('a', 'b'), res('%s (%s) (%s)' % (f, v('a'), v('b')))+[('divisor', '%s <> 0' % v('b'))], throws='vz mem b = 0')
    fn('i_'+n, Z+'operator%s=' % op, r'operator%s=\(const ZZ &\)' % re.escape(op), ['this', 'b'], canz('this', 'b')+[('sep this b', 'sepz this b')], inpl('%s (%s) (%s)' % (f, v('this_0'), v('b'))), alias=[{'b': 'this'}], throws='vz mem b = 0')
fn('i_shr', Z+'operator>>=', None, ['this', 'n'], canz('this'), inpl('div (%s) (pw2 n_0)' % v('this_0')), ghost={'entry': 'if pure { i64 (vz mem this) /\\ 63 <= n_0 } then shr_big (pure { vz mem this }) n_0;'})
fn('i_shl', Z+'operator<<=', None, ['this', 'n'], canz('this'), inpl('(%s) * pw2 n_0' % v('this_0')))
for n, op, f in (('shr', '>>', 'div (%s) (pw2 n_0)'), ('shl', '<<', '(%s) * pw2 n_0')):
    fn('o_'+n, 'clpoly::operator'+op, r'operator%s\(const ZZ &, unsigned long\)' % op, ['a', 'n'], canz('a'), res(f % v('a')))
    fn('om_'+n, 'clpoly::operator'+op, r'operator%s\(ZZ &&, unsigned long\)' % op, ['a', 'n'], canz('a'), [('exact', 'vz mem result = '+f % v('a_0')), ('canonical', 'canz mem result /\\ canz mem a'), ('ownership moves', 'a.zz_mpz = -1')] + mv('a_0.zz_mpz', 'result.zz_mpz'))
for n, op in (('addmul', '+'), ('submul', '-')):
    fn('m_'+n, Z+n, None, ['this', 'a', 'b'], canz('this', 'a', 'b')+[('sep this a', 'sepz this a'), ('sep this b', 'sepz this b')], inpl('%s %s %s * %s' % (v('this_0'), op, v('a'), v('b'))), alias=[{'a': 'this'}, {'b': 'this'}, {'a': 'this', 'b': 'this'}])
fn('fdiv_ui', Z+'fdiv_ui', None, ['this', 'd'], canz('this')+['d_0 > 0'], [('floor residue', 'result = mod (vz mem this) d_0')], w=False, ghost={'entry': 'neg_mod (pure { vz mem this }) d_0;'})
fn('get_si', Z+'get_si', None, T, canz('this'), [('value', 'i64 (vz mem this) -> result = vz mem this')], w=False)
fn('fdiv_q', Z+'fdiv_q', None, ['q', 'a', 'b'], canz('q', 'a', 'b')+[('sep q a', 'sepz q a'), ('sep q b', 'sepz q b')], inpl('fdiv (%s) (%s)' % (v('a'), v('b')), 'q')+[('divisor', '%s <> 0' % v('b'))], throws='vz mem b = 0', alias=[{'a': 'q'}, {'b': 'q'}])
fn('fdiv_r', Z+'fdiv_r', None, ['r', 'a', 'b'], canz('r', 'a', 'b')+[('sep r a', 'sepz r a'), ('sep r b', 'sepz r b')], inpl('fmod (%s) (%s)' % (v('a'), v('b')), 'r')+[('divisor', '%s <> 0' % v('b'))], throws='vz mem b = 0', alias=[{'a': 'r'}, {'b': 'r'}])
fn('fdiv_qr', Z+'fdiv_qr', None, ['q', 'r', 'a', 'b'], canz('q', 'r', 'a', 'b')+[('sep q r', 'sepz q r'), ('sep q a', 'sepz q a'), ('sep q b', 'sepz q b'), ('sep r a', 'sepz r a'), ('sep r b', 'sepz r b')],
   [('quotient', 'vz mem q = fdiv (%s) (%s)' % (v('a'), v('b'))), ('remainder', 'vz mem r = fmod (%s) (%s)' % (v('a'), v('b'))), ('canonical', 'canz mem q /\\ canz mem r'), ('divisor', '%s <> 0' % v('b'))] + mv2('q_0.zz_mpz', 'q.zz_mpz', 'r_0.zz_mpz', 'r.zz_mpz'), throws='vz mem b = 0', alias=[{'a': 'q'}, {'b': 'q'}, {'a': 'r'}, {'b': 'r'}, {'a': 'q', 'b': 'r'}, {'a': 'r', 'b': 'q'}])
fn('invert', Z+'invert', None, ['result_', 'a', 'm'], canz('result_', 'a', 'm')+[('sep result_ a', 'sepz result_ a'), ('sep result_ m', 'sepz result_ m'), 'vz mem m <> 0'],
   [('inverse', 'result -> invertible (%s) (%s) /\\ vz mem result_ = inverse (%s) (%s)' % (v('a'), v('m'), v('a'), v('m'))), ('no inverse', 'not result -> not invertible (%s) (%s)' % (v('a'), v('m'))), ('canonical', 'canz mem result_'), ] + mv('result__0.zz_mpz', 'result_.zz_mpz'), alias=[{'a': 'result_'}, {'m': 'result_'}])
fn('pow', 'clpoly::pow', r'pow\(const ZZ &', ['base', 'exp'], canz('base'), res('ipow (%s) exp_0' % v('base')))
fn('gcd', 'clpoly::gcd', r'gcd\(const ZZ &, const ZZ &\)', AB, canz('a', 'b'), res('gcdf (%s) (%s)' % (v('a'), v('b'))), loops={1: dict(inv=['0 <= x', '0 <= y', 'gcdf x y = gcdf (vz mem a) (vz mem b)'], var='y')}, ghost={'entry': 'gcd_abs2 (pure { vz mem a }) (pure { vz mem b });', 'loop1.pre': 'assert { x = abs (vz mem a) }; assert { y = abs (vz mem b) };', 'loop1.begin': 'gcd_euc x y;'})
fn('lcm', 'clpoly::lcm', r'lcm\(const ZZ &, const ZZ &\)', AB, canz('a', 'b'), res('lcmf (%s) (%s)' % (v('a'), v('b'))), ghost={'entry': 'if pure { vz mem a <> 0 /\\ vz mem b <> 0 } then lcm_alt (pure { vz mem a }) (pure { vz mem b });', 'decl:g': 'assert { g.zz_mpz = -1 };'})
fn('abs', 'clpoly::abs', r'abs\(const ZZ &\)', ['a'], canz('a'), res('abs (%s)' % v('a')))
fn('f_addmul', 'clpoly::addmul', r'addmul\(ZZ &', ['op', 'a', 'b'], canz('op', 'a', 'b')+[('sep op a', 'sepz op a'), ('sep op b', 'sepz op b')], inpl('%s + %s * %s' % (v('op_0'), v('a'), v('b')), 'op'))
fn('f_submul', 'clpoly::submul', r'submul\(ZZ &', ['op', 'a', 'b'], canz('op', 'a', 'b')+[('sep op a', 'sepz op a'), ('sep op b', 'sepz op b')], inpl('%s - %s * %s' % (v('op_0'), v('a'), v('b')), 'op'))
fn('f_div', 'clpoly::__div', r'__div\(ZZ &, const ZZ &, const ZZ &\)', ['q', 'a', 'b'], canz('q', 'a', 'b')+[('sep q a', 'sepz q a'), ('sep q b', 'sepz q b')], inpl('fdiv (%s) (%s)' % (v('a'), v('b')), 'q')+[('divisor', '%s <> 0' % v('b'))], throws='vz mem b = 0')
fn('f_divr', 'clpoly::__div', r'__div\(ZZ &, ZZ &, const ZZ &, const ZZ &\)', ['q', 'r', 'a', 'b'], canz('q', 'r', 'a', 'b')+[('sep q r', 'sepz q r'), ('sep q a', 'sepz q a'), ('sep q b', 'sepz q b'), ('sep r a', 'sepz r a'), ('sep r b', 'sepz r b')],
   [('quotient', 'vz mem q = fdiv (%s) (%s)' % (v('a'), v('b'))), ('remainder', 'vz mem r = fmod (%s) (%s)' % (v('a'), v('b'))), ('canonical', 'canz mem q /\\ canz mem r'), ('divisor', '%s <> 0' % v('b'))], throws='vz mem b = 0')
fn('f_zero', 'clpoly::set_zero', r'set_zero\(ZZ &\)', ['op'], canz('op'), inpl('0', 'op'))
fn('f_sgn', 'clpoly::sgn', r'sgn\(const ZZ &\)', ['a'], canz('a'), [('sign', '(result > 0 <-> vz mem a > 0) /\\ (result < 0 <-> vz mem a < 0)')], w=False)
fn('f_swap', 'clpoly::swap', r'swap\(ZZ &, ZZ &\)', ['a', 'b'], canz('a', 'b'), [('exchange', 'a = b_0 /\\ b = a_0')], w=False)
fn('dtor', Z+'dtor', None, ['this'], canz('this'), mv('this.zz_mpz', '(-1)'))
fn('sizeinbase', Z+'sizeinbase', None, ['this', 'base'], canz('this')+['2 <= base_0 <= 62'], [('zero', 'vz (old mem) this = 0 -> result = 1'), ('bit length', 'base_0 = 2 /\\ vz (old mem) this <> 0 -> ipow 2 (result - 1) <= abs (vz (old mem) this) < ipow 2 result'), ('enough digits', 'vz (old mem) this <> 0 -> 1 <= result /\\ abs (vz (old mem) this) < ipow base_0 result')]+mv('-1', '-1'),
   loops={1: dict(inv=['0 <= v_2', 'count <= abs (vz mem this)', 'mem = old mem', 'v_2 * ipow base count <= abs (vz mem this) < (v_2 + 1) * ipow base count', 'count > 0 -> ipow base (count - 1) <= abs (vz mem this)', 'count = 0 -> v_2 > 0', 'ipow base count >= 1'], var='v_2')},
   ghost={'loop1.pre': 'assert { ipow base 0 = 1 }; assert { v_2 * ipow base 0 = v_2 }; assert { (v_2 + 1) * ipow base 0 = v_2 + 1 };', 'loop1.begin': ['let ghost c0 = count in', 'let ghost q0 = pure { CD.div v_2 base } in', 'let ghost p0 = pure { ipow base (count + 1) } in', 'let ghost a0 = pure { abs (vz mem this) } in', 'dig_step v_2 base count (abs (pure { vz mem this }));', 'assert { q0 * p0 <= a0 < (q0 + 1) * p0 };'],
   'loop1.end': 'assert { v_2 = q0 }; assert { count = c0 + 1 }; assert { ipow base count = p0 }; assert { v_2 * ipow base count = q0 * p0 }; assert { (v_2 + 1) * ipow base count = (q0 + 1) * p0 };'})
fn('next64', 'clpoly::next_prime_64', None, ['n'], [], [('smallest prime above', 'result = next_p n_0')]+mv('-1', '-1'), throws='next_p n_0 >= 18446744073709551616', ghost={'entry': 'ipow64 ();'})
fn('prev64', 'clpoly::prev_prime_64', None, ['n'], [], [('largest prime below', 'result = prev_p n_0')]+mv('-1', '-1'), throws='n_0 <= 2')
fn('next', 'clpoly::next_prime', r'next_prime\(const ZZ &\)', ['n'], canz('n'), res('next_p (%s)' % v('n')))
cfg['fns'] = F
cfg['stduse'] = 'use int.Abs\n'
