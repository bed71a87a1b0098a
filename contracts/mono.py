"""basic_monomial (basic_monomial.hh, monomial.hh) and the monomial orders (monomial_order.hh) over an arbitrary strict total variable order."""
from trans import *
import pvlib
EXTRA = '''
  let ghost mul_assoc (s e c t w: int) requires { t = s * c } requires { w = s * e } ensures { t * e = w * c } = assert { t * e = (s * c) * e }; assert { w * c = (s * e) * c }
  predicate nonneg (v: pv) = forall i: int [pv_get v i]. 0 <= i < pv_len v -> (pv_get v i).term_second >= 0
  predicate small (v: pv) = forall i: int [pv_get v i]. 0 <= i < pv_len v -> -2305843009213693952 < (pv_get v i).term_second < 2305843009213693952
  predicate wfm (m: mono) = canon m.mono_data /\\ m.mono_deg = degv m.mono_data
  predicate wfs (m: mono) = wfm m /\\ small m.mono_data /\\ -2305843009213693952 < m.mono_deg < 2305843009213693952
  let rec lemma valf_none (v: pv) (n: int)
    requires { 0 <= n /\\ forall i: int. 0 <= i < n -> (pv_get v i).term_first <> x0 } ensures { valf v n = 0 } variant { n }
  = if n > 0 then valf_none v (n-1)
  let rec lemma valf_at (v: pv) (n i: int)
    requires { sorted v /\\ 0 <= i < n <= pv_len v /\\ (pv_get v i).term_first = x0 } ensures { valf v n = (pv_get v i).term_second } variant { n }
  = if n - 1 > i then begin assert { (pv_get v (n-1)).term_first <> x0 }; valf_at v (n-1) i end else valf_none v (n-1)
  let rec lemma degf_nonneg (v: pv) (n: int)
    requires { 0 <= n <= pv_len v /\\ nonneg v } ensures { degf v n >= 0 } variant { n }
  = if n > 0 then degf_nonneg v (n-1)
  let rec lemma degf_mono (v: pv) (n m: int)
    requires { 0 <= n <= m <= pv_len v /\\ nonneg v } ensures { degf v n <= degf v m } variant { m - n }
  = if n < m then degf_mono v n (m-1)
  let rec ghost valf_tail_r (a: pv) (i n: int) requires { 0 <= i <= n <= pv_len a } requires { forall k: int. i <= k < n -> (pv_get a k).term_first <> x0 } ensures { valf a n = valf a i } variant { n } = if n > i then valf_tail_r a i (n - 1)
  let ghost valf_tail (a: pv) (i: int) (b: pv) (j: int) requires { sorted a } requires { 0 <= i <= pv_len a } requires { 0 <= j <= pv_len b } requires { forall k: int. 0 <= k < j /\\ i < pv_len a -> lt (pv_get b k).term_first (pv_get a i).term_first }
    ensures { j = pv_len b -> value a = valf a i \\/ value b = 0 }
  = if j = pv_len b then if pure { exists k: int. i <= k < pv_len a /\\ (pv_get a k).term_first = x0 } then begin assert { forall k: int. 0 <= k < pv_len b -> lt (pv_get b k).term_first x0 }; assert { forall k: int. 0 <= k < pv_len b -> (pv_get b k).term_first <> x0 }; valf_none b (pv_len b) end else valf_tail_r a i (pv_len a)
  let rec ghost valf_nn (v: pv) (n: int) requires { 0 <= n <= pv_len v /\\ sorted v /\\ nonneg v } ensures { valf v n >= 0 } variant { n } = if n > 0 then valf_nn v (n - 1)
  (* the comparison of exponent vectors: at the first place where they differ *)
  function lexgt (a b: pv) (i: int) : bool
  axiom lexgt_s: forall a b: pv, i: int [lexgt a b i]. 0 <= i -> lexgt a b i = (if i >= pv_len a then False else if i >= pv_len b then True
     else if (pv_get a i).term_first <> (pv_get b i).term_first then lt (pv_get a i).term_first (pv_get b i).term_first
     else if (pv_get a i).term_second <> (pv_get b i).term_second then (pv_get a i).term_second > (pv_get b i).term_second
     else lexgt a b (i+1))
  predicate eqv (a b: pv) = pv_len a = pv_len b /\\ forall i: int. 0 <= i < pv_len a -> pv_get a i = pv_get b i
'''
ORD = '''
module ORD
use int.Int
use Base
use Ty0
use Ty
use PV
  (* exponent of x in the first n entries; this is valf for x0 := x *)
  function expf (v: pv) (n: int) (x: variable) : int
  axiom expf_0: forall v: pv, x: variable. expf v 0 x = 0
  axiom expf_s: forall v: pv, n m: int, x: variable [expf v n x, expf v m x]. 0 <= n /\\ m = n + 1 -> expf v m x = expf v n x + (if (pv_get v n).term_first = x then (pv_get v n).term_second else 0)
  function expo (v: pv) (x: variable) : int = expf v (pv_len v) x
  let rec lemma value_is_expo (v: pv) (n: int) requires { 0 <= n } ensures { valf v n = expf v n x0 } variant { n }
  = if n > 0 then begin value_is_expo v (n-1); assert { expf v (n-1+1) x0 = expf v (n-1) x0 + (if (pv_get v (n-1)).term_first = x0 then (pv_get v (n-1)).term_second else 0) } end
  predicate pos (v: pv) = sorted v /\\ forall i: int [pv_get v i]. 0 <= i < pv_len v -> (pv_get v i).term_second > 0
  let rec ghost expf_none (v: pv) (n m: int) (x: variable)
    requires { 0 <= n <= m } requires { forall i: int. n <= i < m -> (pv_get v i).term_first <> x } ensures { expf v m x = expf v n x } variant { m - n }
  = if n < m then begin expf_none v n (m-1) x; assert { expf v (m-1+1) x = expf v (m-1) x + 0 } end
  let ghost expo_at (v: pv) (i: int) requires { pos v } requires { 0 <= i < pv_len v } ensures { expo v (pv_get v i).term_first = (pv_get v i).term_second }
  = let ghost x = (pv_at v i).term_first in assert { forall j: int. 0 <= j < i -> (pv_get v j).term_first <> x }; assert { forall j: int. i+1 <= j < pv_len v -> (pv_get v j).term_first <> x };
    expf_none v 0 i x; expf_none v (i+1) (pv_len v) x; assert { expf v (i+1) x = expf v i x + (pv_get v i).term_second }
  let rec ghost expf_prefix (a b: pv) (k: int) (x: variable) requires { 0 <= k } requires { forall i: int. 0 <= i < k -> pv_get a i = pv_get b i } ensures { expf a k x = expf b k x } variant { k }
  = if k > 0 then begin expf_prefix a b (k-1) x; assert { expf a (k-1+1) x = expf a (k-1) x + (if (pv_get a (k-1)).term_first = x then (pv_get a (k-1)).term_second else 0) };
      assert { expf b (k-1+1) x = expf b (k-1) x + (if (pv_get b (k-1)).term_first = x then (pv_get b (k-1)).term_second else 0) } end
  (* entries from k on are all above y *)
  let ghost expo_below (v: pv) (k: int) (y: variable) requires { pos v } requires { 0 <= k <= pv_len v } requires { k < pv_len v -> lt y (pv_get v k).term_first } ensures { expo v y = expf v k y }
  = assert { forall j: int. k <= j < pv_len v -> (pv_get v j).term_first <> y }; expf_none v k (pv_len v) y
  (* the semantic order: at the first variable where the exponents differ, a has the larger one *)
  predicate domat (a b: pv) (x: variable) = expo a x > expo b x /\\ forall y: variable [expo a y | expo b y]. lt y x -> expo a y = expo b y
  predicate dom (a b: pv) = exists x: variable. domat a b x
  let ghost domat_at (a b: pv) (k: int) (x: variable)
    requires { pos a } requires { pos b } requires { 0 <= k <= pv_len a } requires { k <= pv_len b } requires { forall i: int. 0 <= i < k -> pv_get a i = pv_get b i }
    requires { k < pv_len a -> x = (pv_get a k).term_first \\/ lt x (pv_get a k).term_first } requires { k < pv_len b -> x = (pv_get b k).term_first \\/ lt x (pv_get b k).term_first }
    ensures { forall y: variable [expo a y | expo b y]. lt y x -> expo a y = expo b y }
  = let lemma pick (y: variable) requires { lt y x } ensures { expo a y = expo b y } = expo_below a k y; expo_below b k y; expf_prefix a b k y in ()
  let rec ghost lex_dom (a b: pv) (k: int) : variable
    requires { pos a } requires { pos b } requires { 0 <= k <= pv_len a } requires { k <= pv_len b } requires { forall i: int. 0 <= i < k -> pv_get a i = pv_get b i }
    requires { lexgt a b k } ensures { domat a b result } variant { pv_len a - k }
  = if k >= pv_len b then begin let ghost x = (pv_at a k).term_first in expo_at a k; assert { forall j: int. 0 <= j < k -> (pv_get b j).term_first <> x }; expf_none b 0 (pv_len b) x; domat_at a b k x; x end
    else begin let ghost xa = pv_at a k in let ghost xb = pv_at b k in
      let ghost x = xa.term_first in
      expo_at a k; expo_at b k;
      if pure { xa = xb } then lex_dom a b (k+1) else
      if pure { x = xb.term_first } then begin domat_at a b k x; x end
      else begin assert { lt x xb.term_first }; expo_below b k x; assert { forall j: int. 0 <= j < k -> (pv_get b j).term_first <> x }; expf_none b 0 k x; domat_at a b k x; x end end
  let rec ghost lex_irr (a: pv) (i: int) requires { 0 <= i } ensures { not lexgt a a i } variant { pv_len a - i } = if i < pv_len a then lex_irr a (i+1)
  let rec ghost lex_trans (a b c: pv) (i: int) requires { 0 <= i } requires { lexgt a b i } requires { lexgt b c i } ensures { lexgt a c i } variant { pv_len a - i }
  = if pure { i < pv_len a /\\ i < pv_len b /\\ i < pv_len c /\\ pv_get a i = pv_get b i /\\ pv_get b i = pv_get c i } then lex_trans a b c (i+1)
  let rec ghost lex_total (a b: pv) (i: int) requires { 0 <= i <= pv_len a } requires { i <= pv_len b } requires { not lexgt a b i } requires { not lexgt b a i } requires { forall j: int. 0 <= j < i -> pv_get a j = pv_get b j }
    ensures { eqv a b } variant { pv_len a - i }
  = if i < pv_len a && i < pv_len b then begin assert { (pv_get a i).term_first = (pv_get b i).term_first }; assert { (pv_get a i).term_second = (pv_get b i).term_second }; assert { pv_get a i = pv_get b i }; lex_total a b (i+1) end
  let ghost eqv_expo (a b: pv) requires { eqv a b } ensures { forall x: variable [expo a x]. expo a x = expo b x }
  = let lemma pick (x: variable) ensures { expo a x = expo b x } = expf_prefix a b (pv_len a) x in ()
  let ghost dom_lex (a b: pv) (x: variable) requires { pos a } requires { pos b } requires { domat a b x } ensures { lexgt a b 0 }
  = if not pure { lexgt a b 0 } then begin
      if pure { lexgt b a 0 } then begin let ghost y = lex_dom b a 0 in assert { lt x y \\/ x = y \\/ lt y x } end
      else begin lex_total a b 0; eqv_expo a b end end
  (* P06: the lexicographic order on canonical monomials is compatible with multiplication *)
  let ghost lex_mul (a b ac bc c: pv) requires { pos a } requires { pos b } requires { pos ac } requires { pos bc }
    requires { forall x: variable [expo ac x]. expo ac x = expo a x + expo c x } requires { forall x: variable [expo bc x]. expo bc x = expo b x + expo c x } requires { lexgt a b 0 } ensures { lexgt ac bc 0 }
  = let ghost x = lex_dom a b 0 in assert { expo ac x > expo bc x }; assert { forall y: variable [expo ac y]. lt y x -> expo ac y = expo bc y }; dom_lex ac bc x
  (* canonical monomials with equal exponents are identical *)
  let ghost mono_unique (a b: pv) requires { pos a } requires { pos b } requires { forall x: variable. expo a x = expo b x } ensures { eqv a b }
  = if pure { lexgt a b 0 } then let ghost x = lex_dom a b 0 in assert { expo a x > expo b x }
    else if pure { lexgt b a 0 } then let ghost x = lex_dom b a 0 in assert { expo b x > expo a x }
    else lex_total a b 0
  (* the variable orders *)
  function cvord cvo variable : int   (* custom_var_order::order: a function of the map and the variable *)
  val cvo_order (c: cvo) (v: variable) : int ensures { result = cvord c v } ensures { -9223372036854775808 <= result < 9223372036854775808 }
  predicate cvolt (c: cvo) (a b: variable) = cvord c a < cvord c b \\/ cvord c a = cvord c b /\\ a.variable_serial < b.variable_serial
  predicate uolt (c: uo) (a b: variable) = b <> c.uo_v /\\ (a = c.uo_v \\/ a.variable_serial < b.variable_serial)
  let lemma less_strict (a b c: variable) ensures { not a.variable_serial < a.variable_serial } ensures { a.variable_serial < b.variable_serial \\/ a = b \\/ b.variable_serial < a.variable_serial } = ()
  let lemma cvo_strict (o: cvo) (a b c: variable) ensures { not cvolt o a a } ensures { cvolt o a b -> cvolt o b c -> cvolt o a c } ensures { cvolt o a b \\/ a = b \\/ cvolt o b a } = ()
  let lemma uo_strict (o: uo) (a b c: variable) ensures { not uolt o a a } ensures { uolt o a b -> uolt o b c -> uolt o a c } ensures { uolt o a b \\/ a = b \\/ uolt o b a } = ()
  predicate grgt (a b: mono) = a.mono_deg > b.mono_deg \\/ a.mono_deg = b.mono_deg /\\ lexgt a.mono_data b.mono_data 0
  let ghost grlex_mul (a b c ac bc: mono) requires { pos a.mono_data } requires { pos b.mono_data } requires { pos ac.mono_data } requires { pos bc.mono_data } requires { ac.mono_deg = a.mono_deg + c.mono_deg } requires { bc.mono_deg = b.mono_deg + c.mono_deg }
    requires { forall x: variable [expo ac.mono_data x]. expo ac.mono_data x = expo a.mono_data x + expo c.mono_data x } requires { forall x: variable [expo bc.mono_data x]. expo bc.mono_data x = expo b.mono_data x + expo c.mono_data x }
    requires { grgt a b } ensures { grgt ac bc }
  = if a.mono_deg = b.mono_deg then lex_mul a.mono_data b.mono_data ac.mono_data bc.mono_data c.mono_data
  let ghost grlex_strict (a b c: mono) ensures { not grgt a a } ensures { grgt a b -> grgt b c -> grgt a c } ensures { not grgt a b -> not grgt b a -> eqv a.mono_data b.mono_data }
  = lex_irr a.mono_data 0; (if pure { lexgt a.mono_data b.mono_data 0 /\\ lexgt b.mono_data c.mono_data 0 } then lex_trans a.mono_data b.mono_data c.mono_data 0);
    if pure { not lexgt a.mono_data b.mono_data 0 /\\ not lexgt b.mono_data a.mono_data 0 } then lex_total a.mono_data b.mono_data 0
end
'''
cfg = dict(
  tu='mono.cc',
  roots=['clpoly::pair_vec_*', 'clpoly::basic_monomial::*', 'clpoly::operator*', 'clpoly::grlex_::*', 'clpoly::lex_::*', 'clpoly::lcm', 'clpoly::gcd', 'clpoly::pow', 'clpoly::is_divexact', 'clpoly::__mono_mult__', 'clpoly::variable::*', 'clpoly::zore_check::*', 'clpoly::less::*', 'clpoly::custom_var_order::*', 'clpoly::univariate_order::*'],
  abbr=[('clpoly::basic_monomial<grlex>', 'M'), ('clpoly::basic_monomial<lex>', 'ML'), ('clpoly::basic_monomial<clpoly::grlex_<less>>', 'M'), ('clpoly::basic_monomial<clpoly::lex_<less>>', 'ML'),
        ('clpoly::grlex_<less>', 'C'), ('clpoly::lex_<less>', 'L'), ('clpoly::grlex_<clpoly::less>', 'C'), ('clpoly::lex_<clpoly::less>', 'L'), ('clpoly::basic_monomial<C>', 'M'), ('clpoly::basic_monomial<L>', 'ML'),
        ('std::pair<clpoly::variable, long>', 'T'), ('std::vector<T>', 'PV'), ],
  types={'C': TOpaque('cmp'), 'L': TOpaque('cmp'), 'PV': 'pv', 'T': 'term', 'M': 'mono', 'ML': 'monol', 'clpoly::variable': 'variable', 'clpoly::less': TOpaque('less'), 'less': TOpaque('less'), 'clpoly::custom_var_order': TOpaque('cvo'), 'custom_var_order': TOpaque('cvo'), 'clpoly::univariate_order': 'uo', 'univariate_order': 'uo'},
  globals={'clpoly::grlex_::init': 'grlex_init'}, addr_of=lambda tr, l: Val('cmp_default', TPtr(l.ty), True) if l.root == 'grlex_init' else None, sort={'pv': ('pv_sort', 'pv_is_sorted')},
)
cfg['prelude0'] = '''
type cmp
type less
type cvo
val constant cmp_default : int
val function cmp_at (p: int) : cmp
val cmp_eq (a b: cmp) : bool ensures { result <-> a = b }
'''
cfg['modules'] = '''
module PV
use int.Int
use ref.Ref
use Base
use Ty0
use Ty
  (* the variable order: any strict total order *)
  predicate lt (a b: variable)
  axiom lt_irr: forall a: variable. not lt a a
  axiom lt_trans: forall a b c: variable. lt a b -> lt b c -> lt a c
  axiom lt_total: forall a b: variable. lt a b \\/ a = b \\/ lt b a
  val ltv (a b: variable) : bool ensures { result <-> lt a b }
  (* exponent of an arbitrary fixed variable x0: value = exponent *)
  constant x0 : variable
  function ev (v: variable) : int = if v = x0 then 1 else 0
''' + pvlib.theory((('valf', 'value', 'ev'), ('degf', 'degv', ''))) + pvlib.sorttheory((('valf', 'value', ''), ('degf', 'degv', '')), True) + EXTRA + '''
end
'''
cfg['modules'] += ORD
cfg['lemma_modules'] = []
cfg['use'] = ['PV', 'ORD']
cfg['templates'] = [
  (r'^\[[CL]\] clpoly::(?:gr)?lex_::operator\(\)\(const clpoly::variable &, const clpoly::variable &\)', '(ltv {1} {2})'),
  (r'^clpoly::__auto_shrink', '()'),
  (r'^\[(?:clpoly::)?custom_var_order\] clpoly::custom_var_order::order\(', '(cvo_order {0} {1})'),
  (r'^\[[CL]\] clpoly::(?:gr)?lex_::operator==', '(cmp_eq {0} {1})'),
  (r'^\[ML?\] clpoly::basic_monomial::comp\(\) const', '(cmp_at {0}.mono_comp)'),
  (r'^\[ML?\] clpoly::basic_monomial::comp\(const clpoly::variable &, const clpoly::variable &\) const', '(ltv {1} {2})'),
]
bnd = lambda v: 'small '+v
F = []
SS = (('valf', 'value', 'exponents'), ('degf', 'degv', 'degree'))
cfg['fns'] = F
F.append(pvlib.addsub('pv_add', 'clpoly::pair_vec_add', r'^clpoly::pair_vec_add\(PV &, const PV &, const PV &, const C &\)', '+', bnd, SS))
F.append(pvlib.addsub('pv_sub', 'clpoly::pair_vec_sub', r'^clpoly::pair_vec_sub\(PV &, const PV &, const PV &, const C &\)', '-', bnd, SS))
F.append(pvlib.neg('pv_neg', 'clpoly::pair_vec_negate', r'^clpoly::pair_vec_negate\(PV &, const PV &\)', bnd, SS))
for n, op in (('eq', '='), ('ne', '<>'), ('lt', '<'), ('gt', '>'), ('le', '<='), ('ge', '>=')):
    F.append(Fn('var_'+n, 'clpoly::variable::operator'+dict(eq='==', ne='!=', lt='<', gt='>', le='<=', ge='>=')[n], None, ['this', 'v'], ensures=[('by serial', 'result <-> this.variable_serial %s v.variable_serial' % op)]))

M = 'clpoly::basic_monomial::'
def fn(*a, **k): F.append(Fn(*a, **k))
C = r'const C &\)'
fn('pv_equal', 'clpoly::pair_vec_equal_to', r'^clpoly::pair_vec_equal_to\(const PV &, const PV &\)', ['v1', 'v2'], ensures=[('same entries', 'result <-> eqv v1 v2')],
   loops={1: dict(inv=['0 <= v1_ptr <= v1_end', 'v2_ptr = v1_ptr', ('equal so far', 'forall i:int. 0 <= i < v1_ptr -> pv_get v1 i = pv_get v2 i')], var='v1_end - v1_ptr')})
fn('pv_comp', 'clpoly::pair_vec_comp', r'^clpoly::pair_vec_comp\(const PV &, const PV &, const C &\)', ['v1', 'v2', 'comp'], ensures=[('first difference decides', 'result <-> lexgt v1 v2 0')],
   loops={1: dict(inv=['0 <= v1_ptr <= v1_end', 'v2_ptr = v1_ptr', 'v2_ptr <= v2_end', ('equal so far', 'lexgt v1 v2 0 = lexgt v1 v2 v1_ptr')], var='v1_end - v1_ptr')})
fn('pv_comp_l', 'clpoly::pair_vec_comp', r'^clpoly::pair_vec_comp\(const PV &, const PV &, const L &\)', ['v1', 'v2', 'comp'], ensures=[('first difference decides', 'result <-> lexgt v1 v2 0')],
   loops={1: dict(inv=['0 <= v1_ptr <= v1_end', 'v2_ptr = v1_ptr', 'v2_ptr <= v2_end', ('equal so far', 'lexgt v1 v2 0 = lexgt v1 v2 v1_ptr')], var='v1_end - v1_ptr')})
SAMEC = 'p1.mono_comp = p.mono_comp'
fn('m_mul', 'clpoly::operator*', r'^clpoly::operator\*\(const M &, const M &\)', ['p1', 'p'], requires=['wfs p1', 'wfs p', SAMEC],
   ensures=[('exponents add', 'value result.mono_data = value p1.mono_data + value p.mono_data'), ('well formed', 'wfm result'), ('order kept', 'result.mono_comp = p1.mono_comp')])
fn('m_div', 'clpoly::operator/', r'^clpoly::operator/\(const M &, const M &\)', ['p1', 'p'], requires=['wfs p1', 'wfs p', SAMEC],
   ensures=[('exponents subtract', 'value result.mono_data = value p1.mono_data - value p.mono_data'), ('well formed', 'wfm result'), ('order kept', 'result.mono_comp = p1.mono_comp')])
fn('m_mult', 'clpoly::__mono_mult__', r'^clpoly::__mono_mult__\(M &, const M &, const M &\)', ['op', 'op1', 'op2'], requires=['wfs op1', 'wfs op2'],
   ensures=[('exponents add', 'value op.mono_data = value op1.mono_data + value op2.mono_data'), ('well formed', 'wfm op'), ('order kept', 'op.mono_comp = op1.mono_comp')],
   alias=[{'op1': 'op'}, {'op2': 'op'}])
fn('m_divexact', 'clpoly::is_divexact', r'^clpoly::is_divexact\(M &, const M &, const M &\)', ['op', 'op1', 'op2'], requires=['wfs op1', 'wfs op2'],
   ensures=[('quotient', 'value op.mono_data = value op1.mono_data - value op2.mono_data'), ('well formed', 'wfm op'), ('divisible iff no negative exponent', 'result <-> nonneg op.mono_data')],
   alias=[{'op1': 'op'}, {'op2': 'op'}],
   loops={1: dict(inv=['forall i:int. 0 <= i < $k -> (pv_get op.mono_data i).term_second >= 0'])})
fn('m_eq', M+'operator==', r'^\[M\].*operator==\(const M &\)', ['this', 'p'], requires=['wfm this', 'wfm p', 'this.mono_comp = p.mono_comp'],
   ensures=[('same exponents', 'result <-> eqv this.mono_data p.mono_data')])
fn('m_gt', M+'operator>', r'^\[M\].*operator>\(const M &\)', ['this', 'p'], requires=['wfm this', 'wfm p', 'this.mono_comp = p.mono_comp'],
   ensures=[('degree then first difference', 'result <-> this.mono_deg > p.mono_deg \\/ this.mono_deg = p.mono_deg /\\ lexgt this.mono_data p.mono_data 0')])
fn('m_find', M+'find', r'^\[M\].*find\(const clpoly::variable &\) const', ['this', 'm'],
   ensures=[('first entry of the variable', '0 <= result <= pv_len this.mono_data /\\ (forall j:int. 0 <= j < result -> (pv_get this.mono_data j).term_first <> m) /\\ (result < pv_len this.mono_data -> (pv_get this.mono_data result).term_first = m)')],
   loops={1: dict(inv=['0 <= i <= pv_len this.mono_data', 'forall j:int. 0 <= j < i -> (pv_get this.mono_data j).term_first <> m'], var='pv_len this.mono_data - i')})
fn('m_deg', M+'deg', r'^\[M\].*deg\(const clpoly::variable &\) const', ['this', 'm'], requires=['wfm this'], ensures=[('exponent', 'm = x0 -> result = value this.mono_data')])
fn('grlex_gt', 'clpoly::grlex_::operator()', r'^\[C\] .*\(const M &, const M &\)', ['this', 'm1', 'm2'], requires=['wfm m1', 'wfm m2'],
   ensures=[('graded lexicographic', 'result <-> m1.mono_deg > m2.mono_deg \\/ m1.mono_deg = m2.mono_deg /\\ lexgt m1.mono_data m2.mono_data 0')])
fn('lex_gt', 'clpoly::lex_::operator()', r'^\[L\] .*\(const ML &, const ML &\)', ['this', 'm1', 'm2'],
   ensures=[('lexicographic', 'result <-> lexgt m1.monol_data m2.monol_data 0')])
fn('m_redeg', M+'re_deg', r'^\[M\].*re_deg\(\)', ['this'], requires=['forall i:int. 0 <= i <= pv_len this.mono_data -> -9223372036854775808 <= degf this.mono_data i < 9223372036854775808'],
   ensures=[('degree is the exponent sum', 'this.mono_deg = degv this.mono_data'), ('data kept', 'this.mono_data = this_0.mono_data /\\ this.mono_comp = this_0.mono_comp'), 'result = this.mono_deg'],
   ghost={'loop1.begin': ['assert { degf this.mono_data ($k + 1) = degf this.mono_data $k + (pv_get this.mono_data $k).term_second }']}, loops={1: dict(inv=['this.mono_deg = degf this.mono_data $k', 'this.mono_data = this_0.mono_data /\\ this.mono_comp = this_0.mono_comp'])})
LI = ['0 <= m1_ptr <= pv_len m1.mono_data', '0 <= m2_ptr <= pv_len m2.mono_data', 'm.mono_comp = m1.mono_comp', ('degree', 'm.mono_deg = degv m.mono_data /\\ 0 <= m.mono_deg <= degf m1.mono_data m1_ptr + degf m2.mono_data m2_ptr'),
  ('canonical so far', 'canon m.mono_data'), ('maximum so far', 'value m.mono_data = (if valf m1.mono_data m1_ptr >= valf m2.mono_data m2_ptr then valf m1.mono_data m1_ptr else valf m2.mono_data m2_ptr)'),
  ('last below m1', 'pv_len m.mono_data > 0 /\\ m1_ptr < pv_len m1.mono_data -> lt (pv_get m.mono_data (pv_len m.mono_data - 1)).term_first (pv_get m1.mono_data m1_ptr).term_first'),
  ('last below m2', 'pv_len m.mono_data > 0 /\\ m2_ptr < pv_len m2.mono_data -> lt (pv_get m.mono_data (pv_len m.mono_data - 1)).term_first (pv_get m2.mono_data m2_ptr).term_first'),
  ('passed m1', 'forall i:int. 0 <= i < m1_ptr /\\ m2_ptr < pv_len m2.mono_data -> lt (pv_get m1.mono_data i).term_first (pv_get m2.mono_data m2_ptr).term_first'),
  ('passed m2', 'forall i:int. 0 <= i < m2_ptr /\\ m1_ptr < pv_len m1.mono_data -> lt (pv_get m2.mono_data i).term_first (pv_get m1.mono_data m1_ptr).term_first')]
LV_ = 'pv_len m1.mono_data - m1_ptr + pv_len m2.mono_data - m2_ptr'
LG1 = ['assert { degf m1.mono_data (m1_ptr+1) = degf m1.mono_data m1_ptr + (pv_get m1.mono_data m1_ptr).term_second }', 'degf_mono m1.mono_data (m1_ptr+1) (pv_len m1.mono_data)', 'degf_mono m1.mono_data 0 m1_ptr', 'degf_mono m2.mono_data m2_ptr (pv_len m2.mono_data)',
  'assert { valf m1.mono_data (m1_ptr+1) = valf m1.mono_data m1_ptr + (pv_get m1.mono_data m1_ptr).term_second * ev (pv_get m1.mono_data m1_ptr).term_first }',
  'assert { (pv_get m1.mono_data m1_ptr).term_first = x0 -> valf m1.mono_data m1_ptr = 0 }']
LG2 = [x.replace('m1','@').replace('m2','m1').replace('@','m2') for x in LG1]
LG1 = LG1 + ['assert { (pv_get m1.mono_data m1_ptr).term_first = x0 -> (m2_ptr >= pv_len m2.mono_data \\/ lt (pv_get m1.mono_data m1_ptr).term_first (pv_get m2.mono_data m2_ptr).term_first) -> valf m2.mono_data m2_ptr = 0 }']
LG2 = LG2 + ['assert { (pv_get m2.mono_data m2_ptr).term_first = x0 -> (m1_ptr >= pv_len m1.mono_data \\/ lt (pv_get m2.mono_data m2_ptr).term_first (pv_get m1.mono_data m1_ptr).term_first) -> valf m1.mono_data m1_ptr = 0 }']
fn('m_lcm', 'clpoly::lcm', r'^clpoly::lcm\(const M &, const M &\)', ['m1', 'm2'], requires=['wfs m1', 'wfs m2', 'nonneg m1.mono_data', 'nonneg m2.mono_data', 'm1.mono_comp = m2.mono_comp'],
   ensures=[('maximum exponents', 'value result.mono_data = (if value m1.mono_data >= value m2.mono_data then value m1.mono_data else value m2.mono_data)'), ('well formed', 'wfm result')],
   ghost={'loop%d.begin' % 1: LG1+LG2, 'loop2.begin': LG1, 'loop3.begin': LG2},
   loops={1: dict(inv=LI, var=LV_), 2: dict(inv=LI+['m1_ptr = pv_len m1.mono_data \\/ m2_ptr = pv_len m2.mono_data'], var=LV_), 3: dict(inv=LI+['m1_ptr = pv_len m1.mono_data'], var=LV_)})

GI = [x for x in LI[:3]] + [('degree', 'm.mono_deg = degv m.mono_data /\\ 0 <= m.mono_deg <= degf m1.mono_data m1_ptr'), ('canonical so far', 'canon m.mono_data'), ('minimum so far', 'value m.mono_data = (if valf m1.mono_data m1_ptr <= valf m2.mono_data m2_ptr then valf m1.mono_data m1_ptr else valf m2.mono_data m2_ptr)')] + LI[6:]
fn('m_gcd', 'clpoly::gcd', r'^clpoly::gcd\(const M &, const M &\)', ['m1', 'm2'], requires=['wfs m1', 'wfs m2', 'nonneg m1.mono_data', 'nonneg m2.mono_data', 'm1.mono_comp = m2.mono_comp'],
   ensures=[('minimum exponents', 'value result.mono_data = (if value m1.mono_data <= value m2.mono_data then value m1.mono_data else value m2.mono_data)'), ('well formed', 'wfm result'), ('order kept', 'result.mono_comp = m1.mono_comp')],
   ghost={'loop1.begin': LG1+LG2+['valf_nn m1.mono_data m1_ptr', 'valf_nn m2.mono_data m2_ptr'], 'loop1.post': ['assert { valf m1.mono_data m1_ptr = value m1.mono_data \\/ valf m2.mono_data m2_ptr = value m2.mono_data }', 'valf_nn m1.mono_data m1_ptr', 'valf_nn m2.mono_data m2_ptr', 'valf_nn m1.mono_data (pv_len m1.mono_data)', 'valf_nn m2.mono_data (pv_len m2.mono_data)', 'valf_tail m1.mono_data m1_ptr m2.mono_data m2_ptr', 'valf_tail m2.mono_data m2_ptr m1.mono_data m1_ptr']},
   loops={1: dict(inv=GI, var=LV_)})
F.append(pvlib.normalization('pv_norm', 'clpoly::pair_vec_normalization', r'^clpoly::pair_vec_normalization\(PV &, const clpoly::pair_compare<clpoly::variable, long, C> &\)', SS, True))
fn('m_norm', M+'normalization', r'^\[M\]', ['this'], requires=['absv this.mono_data < 2305843009213693952'],
  ensures=[('same exponents', 'value this.mono_data = value this_0.mono_data'), ('well formed', 'wfm this'), ('order kept', 'this.mono_comp = this_0.mono_comp')],
  ghost={'call:pv_norm#1.post': ['let ghost vn = this.mono_data in', 'let ghost rn = $r in'], 'call:m_redeg#1.pre': ['assert { forall i:int. 0 <= i < rn -> pv_get this.mono_data i = pv_get vn i }', 'valf_frame_l this.mono_data vn rn', 'absf_frame_l this.mono_data vn rn', 'assert { pv_len this.mono_data = rn }', 'degf_bound this.mono_data']})

F.insert(F.index(next(x for x in F if x.name=='m_redeg'))+1, pvlib.normal_check('pv_check', 'clpoly::pair_vec_normal_check', r'^clpoly::pair_vec_normal_check\(PV &|^clpoly::pair_vec_normal_check\(const PV &, const C &\)'))
fn('m_isnormal', M+'is_normal', r'^\[M\]', ['this'], requires=['forall i:int. 0 <= i <= pv_len this.mono_data -> -9223372036854775808 <= degf this.mono_data i < 9223372036854775808'], ensures=[('decides the normal form', 'result <-> wfm this')],
  loops={1: dict(inv=['tmp_deg = degf this.mono_data $k'])}, ghost={'loop1.begin': ['assert { degf this.mono_data ($k + 1) = degf this.mono_data $k + (pv_get this.mono_data $k).term_second }']})
fn('m_ne', M+'operator!=', r'^\[M\].*operator!=\(const M &\)', ['this', 'p'], requires=['wfm this', 'wfm p', 'this.mono_comp = p.mono_comp'], ensures=[('different exponents', 'result <-> not eqv this.mono_data p.mono_data')])
for n, op, e in (('lt', '<', 'grgt p this'), ('le', '<=', 'not grgt this p'), ('ge', '>=', 'not grgt p this')):
    fn('m_'+n, M+'operator'+op, r'^\[M\].*operator%s\(const M &\)' % op, ['this', 'p'], requires=['wfm this', 'wfm p', 'this.mono_comp = p.mono_comp'], ensures=[('consistent with >', 'result <-> '+e)])
fn('m_push', M+'push_back', r'^\[M\].*push_back\(const T &\)', ['this', 'value'], requires=['in_i64 (this.mono_deg + value.term_second)'],
  ensures=[('appended', 'this.mono_data = pv_push this_0.mono_data value'), ('degree', 'this.mono_deg = this_0.mono_deg + value.term_second'), 'this.mono_comp = this_0.mono_comp'])
fn('m_pop', M+'pop_back', r'^\[M\]', ['this'], requires=['pv_len this.mono_data > 0', 'wfm this', '-2305843009213693952 < this.mono_deg < 2305843009213693952', 'small this.mono_data'],
  ensures=[('degree', 'this.mono_deg = degv this.mono_data')], ghost={'exit': ['degf_frame_l this.mono_data this_0.mono_data (pv_len this.mono_data)']})
fn('m_ctor_v', M+'ctor', r'^\[M\].*ctor\(const clpoly::variable &\)', ['this', 'v'], ensures=[('the variable', 'value this.mono_data = ev v'), ('well formed', 'wfm this')],
  ghost={'exit': ['assert { valf this.mono_data 1 = valf this.mono_data 0 + (pv_get this.mono_data 0).term_second * ev (pv_get this.mono_data 0).term_first }', 'assert { degf this.mono_data 1 = degf this.mono_data 0 + (pv_get this.mono_data 0).term_second }']})
fn('m_ctor_d', M+'ctor', r'^\[M\].*ctor\(\)', ['this'], ensures=[('one', 'value this.mono_data = 0'), ('well formed', 'wfm this')])
fn('m_ctor_vec', M+'ctor', r'^\[M\].*ctor\(const PV &\)', ['this', 'v'], requires=['absv v < 2305843009213693952'], ensures=[('the product of the powers', 'value this.mono_data = value v'), ('well formed', 'wfm this')])
fn('m_clear', M+'clear', r'^\[M\]', ['this'], ensures=[('one', 'value this.mono_data = 0 /\\ wfm this')])
fn('m_zero', 'clpoly::zore_check::operator()', r'^\[clpoly::zore_check<M>\]', ['this', 'm'], ensures=[('is one', 'result <-> pv_len m.mono_data = 0')])
fn('less', 'clpoly::less::operator()', r'^\[(clpoly::)?less\]', ['this', 'v1', 'v2'], ensures=[('by serial', 'result <-> v1.variable_serial < v2.variable_serial')])
fn('cvo', 'clpoly::custom_var_order::operator()', r'^\[(clpoly::)?custom_var_order\]', ['this', 'v1', 'v2'], ensures=[('position then serial', 'result <-> cvolt this v1 v2')])
fn('uo', 'clpoly::univariate_order::operator()', r'^\[(clpoly::)?univariate_order\]', ['this', 'v1', 'v2'], ensures=[('priority variable first, then serial', 'result <-> uolt this v1 v2')])
PW = []
for f, e in (('valf', ' * ev (pv_get v.mono_data $k).term_first'), ('degf', '')):
    PW += ['let ghost w%s = (pv_at v.mono_data $k).term_second%s in' % (f, e.replace('pv_get', 'pv_at')), 'assert { %s v.mono_data ($k+1) = %s v.mono_data $k + w%s }' % (f, f, f), 'assert { (%s v.mono_data $k + w%s) * n = %s v.mono_data $k * n + w%s * n }' % (f, f, f, f)]
PE = ['%s_frame_l m1.mono_data vb $k' % f for f in ('valf', 'degf')] + ['assert { (pv_get m1.mono_data $k).term_second = (pv_get v.mono_data $k).term_second * n }', 'assert { (pv_get m1.mono_data $k).term_first = (pv_get v.mono_data $k).term_first }',
  'mul_assoc (pv_at v.mono_data $k).term_second (ev (pv_at v.mono_data $k).term_first) n (pv_at m1.mono_data $k).term_second wvalf', 'assert { valf m1.mono_data ($k+1) = valf v.mono_data $k * n + wvalf * n }', 'assert { degf m1.mono_data ($k+1) = degf v.mono_data $k * n + wdegf * n }', 'let degf_frames (j: int) : unit requires { 0 <= j <= $k } ensures { degf m1.mono_data j = degf v.mono_data j * n } = degf_frame_l m1.mono_data vb j in ()' if 0 else 'assert { forall i:int. 0 <= i <= $k -> degf m1.mono_data i = degf vb i by (forall j:int. 0 <= j < i -> pv_get m1.mono_data j = pv_get vb j) }', 'assert { valf m1.mono_data ($k+1) = valf v.mono_data ($k+1) * n }', 'assert { degf m1.mono_data ($k+1) = degf v.mono_data ($k+1) * n }']
fn('m_pow', 'clpoly::pow', r'^clpoly::pow\(const M &, long\)', ['v', 'n'], requires=['wfm v', 'forall i:int. 0 <= i < pv_len v.mono_data -> in_i64 ((pv_get v.mono_data i).term_second * n)', 'forall i:int. 0 <= i <= pv_len v.mono_data -> in_i64 (degf v.mono_data i * n)'],
  ensures=[('exponents multiply', 'value result.mono_data = value v.mono_data * n'), ('well formed', 'wfm result')],
  ghost={'loop1.begin': ['let ghost vb = m1.mono_data in'] + PW, 'loop1.end': PE},
  loops={1: dict(inv=['pv_len m1.mono_data = pv_len v.mono_data', 'm1.mono_comp = v.mono_comp', 'valf m1.mono_data $k = valf v.mono_data $k * n', 'degf m1.mono_data $k = degf v.mono_data $k * n',
     'forall i:int. $k <= i < pv_len v.mono_data -> pv_get m1.mono_data i = pv_get v.mono_data i',
     'forall i:int. 0 <= i <= $k -> degf m1.mono_data i = degf v.mono_data i * n',
     'forall i:int. 0 <= i < pv_len v.mono_data -> (pv_get m1.mono_data i).term_first = (pv_get v.mono_data i).term_first', ('nonzero', 'forall i:int. 0 <= i < pv_len v.mono_data -> (pv_get m1.mono_data i).term_second <> 0')])})
