"""Sorted key/value vectors (basic.hh): the WhyML theory and the contracts shared by every instantiation of
pair_vec_* (monomials: variable/exponent, polynomials: monomial/coefficient)."""
from trans import Fn


def sums(f, tot, ev):
    """f v n = sum of second * ev first over the first n entries; tot v over all"""
    return """
  function FF (v: pv) (n: int) : int
  axiom FF_0: forall v: pv. FF v 0 = 0
  axiom FF_s: forall v: pv, n m: int [FF v n, FF v m]. 0 <= n /\\ m = n + 1 -> FF v m = FF v n + (pv_get v n).term_second EV (pv_get v n).term_first
  function TT (v: pv) : int = FF v (pv_len v)
  let rec lemma FF_frame_l (v w: pv) (n: int)
    requires { 0 <= n /\\ forall i: int. 0 <= i < n -> pv_get v i = pv_get w i }
    ensures { FF v n = FF w n } variant { n }
  = if n > 0 then FF_frame_l v w (n-1)
  lemma FF_frame: forall v w: pv, n: int. (0 <= n /\\ forall i: int. 0 <= i < n -> pv_get v i = pv_get w i) -> FF v n = FF w n
  lemma FF_push: forall v: pv, x: term, n: int [FF (pv_push v x) n]. 0 <= n <= pv_len v -> FF (pv_push v x) n = FF v n
  let lemma TT_push_l (v: pv) (x: term) : unit ensures { TT (pv_push v x) = TT v + x.term_second EV x.term_first }
  = assert { FF (pv_push v x) (pv_len v + 1) = FF (pv_push v x) (pv_len v) + x.term_second EV x.term_first }
  lemma TT_push: forall v: pv, x: term [pv_push v x]. TT (pv_push v x) = TT v + x.term_second EV x.term_first
  lemma TT_nil: TT pv_nil = 0
""".replace('EV x.term_first', '* %s x.term_first' % ev if ev else '').replace('EV (pv_get v n).term_first', '* %s (pv_get v n).term_first' % ev if ev else '').replace('FF', f).replace('TT', tot)
def updates(f='valf', tot='value', ev='ev'):
    """sums under point update and truncation"""
    return """
  function FF_c (x: term) : int = x.term_second EVX
  let rec ghost FF_set_l (v: pv) (k: int) (x: term) (n: int)
    requires { 0 <= k < pv_len v } requires { 0 <= n <= pv_len v } ensures { FF (pv_set v k x) n = FF v n + (if k < n then FF_c x - FF_c (pv_get v k) else 0) } variant { n }
  = if n > 0 then begin FF_set_l v k x (n-1); assert { FF (pv_set v k x) n = FF (pv_set v k x) (n-1) + FF_c (pv_get (pv_set v k x) (n-1)) }; assert { FF v n = FF v (n-1) + FF_c (pv_get v (n-1)) } end
  let lemma TT_set (v: pv) (k: int) (x: term) requires { 0 <= k < pv_len v } ensures { TT (pv_set v k x) = TT v + FF_c x - FF_c (pv_get v k) } = FF_set_l v k x (pv_len v)
  lemma TT_set_t: forall v: pv, k: int, x: term [TT (pv_set v k x)]. 0 <= k < pv_len v -> TT (pv_set v k x) = TT v + FF_c x - FF_c (pv_get v k)
  lemma TT_take_t: forall v: pv, n: int [TT (pv_take v n)]. 0 <= n <= pv_len v -> TT (pv_take v n) = FF v n
  lemma TT_pop: forall v: pv, n: int [TT (pv_take v n)]. 0 <= n /\\ n = pv_len v - 1 -> TT (pv_take v n) = TT v - FF_c (pv_get v n)
""".replace('EVX', '* %s x.term_first' % ev if ev else '').replace('FF', f).replace('TT', tot)
def theory(ss=(('valf', 'value', 'ev'),)):
    """strict total order lt on keys and weights must be in scope"""
    return """
  predicate sorted (v: pv) = forall i j: int [pv_get v i, pv_get v j]. 0 <= i < j < pv_len v -> lt (pv_get v i).term_first (pv_get v j).term_first
  predicate nonzero (v: pv) = forall i: int [pv_get v i]. 0 <= i < pv_len v -> (pv_get v i).term_second <> 0
  predicate canon (v: pv) = sorted v /\\ nonzero v
  (* sorted, possibly with equal keys *)
  predicate wsorted (v: pv) = forall i j: int [pv_get v i, pv_get v j]. 0 <= i < j < pv_len v -> not lt (pv_get v j).term_first (pv_get v i).term_first
""" + ''.join(sums(*x) for x in ss)
V1=(('valf','value','exact value'),)
def addsub(name, q, sel, op, bnd=None, ss=V1):
    """pair_vec_add / pair_vec_sub; bnd(v): bound predicate on the values (machine exponents)"""
    pre = ['canon v1', 'canon v2'] + ([bnd('v1'), bnd('v2')] if bnd else [])
    inv = lambda tail: ['0 <= v1_ptr <= v1_end', '0 <= v2_ptr <= v2_end'] + (['v1_ptr = v1_end \\/ v2_ptr = v2_end'] if tail else []) + [
                  ('partial '+d, '%s v = %s v1 v1_ptr %s %s v2 v2_ptr' % (t, f, op, f)) for f, t, d in ss] + [
                  ('sorted so far', 'canon v'),
                  ('last below v1', 'pv_len v > 0 /\\ v1_ptr < v1_end -> lt (pv_get v (pv_len v - 1)).term_first (pv_get v1 v1_ptr).term_first'),
                  ('last below v2', 'pv_len v > 0 /\\ v2_ptr < v2_end -> lt (pv_get v (pv_len v - 1)).term_first (pv_get v2 v2_ptr).term_first')]
    var = 'v1_end - v1_ptr + v2_end - v2_ptr'
    return Fn(name, q, sel, ['v', 'v1', 'v2', 'comp'], requires=pre,
      ensures=[(d, '%s v = %s v1 %s %s v2' % (t, t, op, t)) for f, t, d in ss] + [('canonical', 'canon v')],
      alias=[{'v1': 'v'}, {'v2': 'v'}],
      loops={1: dict(inv=inv(0), var=var), 2: dict(inv=inv(1), var=var), 3: dict(inv=inv(1), var=var)})
def neg(name, q, sel, bnd=None, ss=V1):
    return Fn(name, q, sel, ['v', 'v1'], requires=['canon v1'] + ([bnd('v1')] if bnd else []),
      ensures=[(d+' negated', '%s v = - %s v1' % (t, t)) for f, t, d in ss] + [('canonical', 'canon v')],
      loops={1: dict(inv=['pv_len v = $k'] + ['%s v = - %s v1 $k' % (t, f) for f, t, d in ss] + [
       'forall i:int. 0 <= i < $k -> (pv_get v i).term_first = (pv_get v1 i).term_first /\\ (pv_get v i).term_second = - (pv_get v1 i).term_second'])})

def sorttheory(ss, absf=False):
    """trusted: std::sort returns a sorted permutation; std::is_sorted compares neighbours"""
    tot = [t for f, t, d in ss] + (['absv'] if absf else [])
    return (ABS if absf else '') + """
  predicate adjsorted (v: pv) = forall i: int [pv_get v i]. 0 <= i < pv_len v - 1 -> not lt (pv_get v (i+1)).term_first (pv_get v i).term_first
  val pv_is_sorted (v: pv) : bool ensures { result <-> adjsorted v }
  let rec ghost adj_le (v: pv) (i j: int) requires { adjsorted v } requires { 0 <= i < j < pv_len v } ensures { not lt (pv_get v j).term_first (pv_get v i).term_first } variant { j - i }
  = if i < j - 1 then begin adj_le v i (j-1); assert { not lt (pv_get v (j-1+1)).term_first (pv_get v (j-1)).term_first } end else assert { not lt (pv_get v (i+1)).term_first (pv_get v i).term_first }
  let lemma adj_sorted (v: pv) requires { adjsorted v } ensures { wsorted v }
  = let lemma pick (i j: int) requires { 0 <= i < j < pv_len v } ensures { not lt (pv_get v j).term_first (pv_get v i).term_first } = adj_le v i j in ()
  val pv_sort (v: pv) : pv ensures { pv_len result = pv_len v } ensures { wsorted result }
%s
    ensures { forall i: int. 0 <= i < pv_len v -> exists j: int. 0 <= j < pv_len v /\\ pv_get result i = pv_get v j }
""" % '\n'.join('    ensures { %s result = %s v }' % (t, t) for t in tot)
ABS = """
  function absf (v: pv) (n: int) : int
  axiom absf_0: forall v: pv. absf v 0 = 0
  axiom absf_s: forall v: pv, n m: int [absf v n, absf v m]. 0 <= n /\\ m = n + 1 -> absf v m = absf v n + (if (pv_get v n).term_second >= 0 then (pv_get v n).term_second else - (pv_get v n).term_second)
  function absv (v: pv) : int = absf v (pv_len v)
  let rec lemma absf_mono (v: pv) (n m: int)
    requires { 0 <= n <= m } ensures { absf v n <= absf v m } variant { m - n }
  = if n < m then absf_mono v n (m-1)
  let rec lemma absf_frame_l (v w: pv) (n: int)
    requires { 0 <= n /\\ forall i: int. 0 <= i < n -> pv_get v i = pv_get w i }
    ensures { absf v n = absf w n } variant { n }
  = if n > 0 then absf_frame_l v w (n-1)
  let rec lemma degf_abs (v: pv) (n: int)
    requires { 0 <= n } ensures { degf v n <= absf v n /\\ - degf v n <= absf v n } variant { n }
  = if n > 0 then degf_abs v (n-1)
  let ghost degf_bound (v: pv) ensures { forall i: int. 0 <= i <= pv_len v -> - absv v <= degf v i <= absv v }
  = assert { forall i: int. 0 <= i <= pv_len v -> absf v i <= absf v (pv_len v) };
    assert { forall i: int. 0 <= i -> degf v i <= absf v i /\\ - degf v i <= absf v i }
"""
def normalization(name, q, sel, ss=V1, absf=False):
    inv1 = ['0 <= t2 <= e', 'v = vs', 'b = 0', ('only zeros skipped', 'forall i:int. 0 <= i < t2 -> (pv_get vs i).term_second = 0')] + ['%s vs t2 = 0' % f for f, t, d in ss]
    inv2 = ['0 <= t1 < t2 <= e', 'pv_len v = e', 'e = pv_len vs', 'tmp_size = t1 + 1',
      ('tail untouched', 'forall i:int. t2 <= i < e -> pv_get v i = pv_get vs i')] + [('merged '+d, '%s v (t1+1) = %s vs t2' % (f, f)) for f, t, d in ss] + [
      ('strictly sorted prefix', 'forall i j:int. 0 <= i < j <= t1 -> lt (pv_get v i).term_first (pv_get v j).term_first'),
      ('nonzero prefix', 'forall i:int. 0 <= i < t1 -> (pv_get v i).term_second <> 0'),
      ('next key not smaller', 'forall i:int. t2 <= i < e -> not lt (pv_get vs i).term_first (pv_get v t1).term_first')]
    if absf: inv2.append(('bounded', 'absf v (t1+1) <= absf vs t2'))
    fr = lambda f: 'assert { %s vs (t2 + 1) = %s vs t2 + (pv_get vs t2).term_second%s }' % (f, f, '' if f == 'degf' else ' * ev (pv_get vs t2).term_first')
    g2 = [fr(f) for f, t, d in ss] + ['assert { %s v (t1 + 1) = %s v t1 + (pv_get v t1).term_second%s }' % (f, f, '' if f == 'degf' else ' * ev (pv_get v t1).term_first') for f, t, d in ss]
    if absf: g2 = ['assert { absf vs (t2 + 1) = absf vs t2 + (if (pv_get vs t2).term_second >= 0 then (pv_get vs t2).term_second else - (pv_get vs t2).term_second) }', 'absf_mono vs (t2+1) (pv_len vs)', 'absf_mono vs 0 t2', 'assert { absf v (t1 + 1) = absf v t1 + (if (pv_get v t1).term_second >= 0 then (pv_get v t1).term_second else - (pv_get v t1).term_second) }', 'absf_mono v 0 t1'] + g2
    g2 = ['let ghost vb = v in', 'let ghost tb = t1 in', 'let ghost t2b = t2 in'] + g2
    fe = lambda f: ['valf_frame_l'.replace('valf', f) + ' v vb tb', 'assert { %s v (t1 + 1) = %s v t1 + (pv_get v t1).term_second%s }' % (f, f, '' if f == 'degf' else ' * ev (pv_get v t1).term_first')]
    g2e = [x for f, t, d in ss for x in fe(f)]
    if 'ev' not in ss[0][2:]: g2e = ['assert { t1 = tb -> (pv_get v t1).term_first = (pv_get vb tb).term_first \\/ (pv_get vb tb).term_second = 0 }', 'assert { t1 = tb -> (pv_get v t1).term_first = (pv_get vs t2b).term_first \\/ (pv_get vs t2b).term_second = 0 }', 'assert { t1 = tb -> (pv_get v t1).term_second = (pv_get vb tb).term_second + (pv_get vs t2b).term_second }', 'assert { t1 = tb -> (pv_get vb tb).term_second * ev (pv_get v t1).term_first = (pv_get vb tb).term_second * ev (pv_get vb tb).term_first }', 'assert { t1 = tb -> (pv_get vs t2b).term_second * ev (pv_get v t1).term_first = (pv_get vs t2b).term_second * ev (pv_get vs t2b).term_first }', 'assert { t1 = tb -> (pv_get v t1).term_second * ev (pv_get v t1).term_first = (pv_get vb tb).term_second * ev (pv_get v t1).term_first + (pv_get vs t2b).term_second * ev (pv_get v t1).term_first }', 'assert { ((pv_get vb tb).term_second + (pv_get vs t2b).term_second) * ev (pv_get vb tb).term_first = (pv_get vb tb).term_second * ev (pv_get vb tb).term_first + (pv_get vs t2b).term_second * ev (pv_get vb tb).term_first }'] + g2e
    g2e = ['assert { lt (pv_get vb tb).term_first (pv_get v t1).term_first \\/ (pv_get vb tb).term_first = (pv_get v t1).term_first }', 'assert { t1 > tb -> lt (pv_get v tb).term_first (pv_get v t1).term_first }',
      'assert { forall i: int. 0 <= i < tb -> pv_get v i = pv_get vb i }', 'assert { forall i: int. 0 <= i < tb -> lt (pv_get v i).term_first (pv_get v t1).term_first }'] + g2e
    if absf: g2e += ['absf_frame_l v vb tb', 'assert { absf v (t1 + 1) = absf v t1 + (if (pv_get v t1).term_second >= 0 then (pv_get v t1).term_second else - (pv_get v t1).term_second) }']
    return Fn(name, q, sel, ['v', 'comp'], requires=['absv v < 2305843009213693952'] if absf else [],
      ensures=[('size', '0 <= result <= pv_len v /\\ pv_len v = pv_len v_0')] + [('same '+d, '%s v result = %s v_0' % (f, t)) for f, t, d in ss] + ([('bounded', 'absf v result <= absv v_0')] if absf else []) + [
        ('strictly sorted', 'forall i j:int. 0 <= i < j < result -> lt (pv_get v i).term_first (pv_get v j).term_first'), ('no zero entry', 'forall i:int. 0 <= i < result -> (pv_get v i).term_second <> 0')],
      ghost={'loop1.pre': ['let ghost vs = v in'], 'loop2.begin': g2, 'loop2.end': g2e,
        'loop1.begin': [fr(f).replace('vs', 'vs') for f, t, d in ss],
        'loop2.pre': ['assert { %s v 1 = (pv_get v 0).term_second%s }' % (f, '' if f == 'degf' else ' * ev (pv_get v 0).term_first') for f, t, d in ss] + ['assert { %s vs t2 = (pv_get v 0).term_second%s }' % (f, '' if f == 'degf' else ' * ev (pv_get v 0).term_first') for f, t, d in ss],
        },
      loops={1: dict(inv=inv1, var='e - t2'), 2: dict(inv=inv2, var='e - t2')})
def normal_check(name, q, sel):
    return Fn(name, q, sel, ['v', 'comp'], ensures=[('decides canonical form', 'result <-> canon v')],
      ghost={'loop1.begin': ['assert { t2 = t1 + 1 }', 'assert { forall i:int. 0 <= i < t1 -> lt (pv_get v i).term_first (pv_get v t1).term_first }']},
      loops={1: dict(inv=['t2 = t1 + 1', '0 <= t1 < e', 'e = pv_len v', ('prefix sorted', 'forall i j:int. 0 <= i < j <= t1 -> lt (pv_get v i).term_first (pv_get v j).term_first'), ('prefix nonzero', 'forall i:int. 0 <= i <= t1 -> (pv_get v i).term_second <> 0')], var='e - t2')})
