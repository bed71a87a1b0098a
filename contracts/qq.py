"""rationals (number/QQ.hh) over exact integers: ZZ operations are used by the postconditions proved in unit zz."""
from trans import *
from zzt import *
from nt import NT
import re
ZP = ZZP
i = ZP.index('function gcd_ int int'); ZP = ZP[:i] + '''
use NTQ
val zgcd (a b: int) : int ensures { result = gcdf a b }
val zpow (a n: int) : int requires { 0 <= n } ensures { result = ipow a n }
'''
SPEC = r'''
module QS
use int.Int
use int.ComputerDivision as CD
use NTQ
use Base
use Ty0
use Ty
(* lowest terms, positive denominator *)
predicate ok (q: qq) = q.qq_den > 0 /\ gcdf q.qq_num q.qq_den = 1
predicate eqq (a b: qq) = a.qq_num * b.qq_den = b.qq_num * a.qq_den
(* equality of canonical rationals is structural *)
lemma ok_unique: forall a b: qq [ok a, ok b]. ok a -> ok b -> eqq a b -> a.qq_num = b.qq_num /\ a.qq_den = b.qq_den
let ghost red (n d n1 d1 g: int) requires { d > 0 /\ g > 0 /\ n = g * n1 /\ d = g * d1 } ensures { n1 * d = n * d1 /\ d1 > 0 } = assert { n1 * d = n1 * (g * d1) }; assert { n * d1 = g * n1 * d1 }; assert { d1 > 0 by d1 <= 0 -> g * d1 <= 0 }
let ghost cross (rn rd n0 d0 n d: int) requires { rn * d0 = n0 * rd /\ n0 = n /\ d0 = d } ensures { rn * d = n * rd } = ()
let ghost pos2 (a b: int) requires { a > 0 /\ b > 0 } ensures { a * b > 0 } = ()
end
'''
cfg = dict(tu='qq.cc',
  roots=['clpoly::QQ::*', 'clpoly::operator*', 'clpoly::pow', 'clpoly::abs', 'clpoly::sgn', 'clpoly::swap', 'clpoly::addmul', 'clpoly::submul', 'clpoly::set_zero', 'clpoly::__div'],
  abbr=[('clpoly::ZZ', 'Z'), ('clpoly::QQ', 'QQ')],
  types={'Z': INTZ, 'QQ': 'qq'},
  templates=[(r'^\[Z\] clpoly::ZZ::operator=\(Z &&\)', dict(set={0: '{1}'}, ret=0)), (r'^clpoly::pow\(const Z &', '(zpow {0} {1})')] + ZZT,
  premodules=NT, prelude0=ZP, modules=SPEC)
F = []
def fn(name, q, sel, params, requires=(), ensures=(), **k):
    F.append(Fn(name, q, sel, params, requires=requires, ensures=ensures, layer=['NTQ', 'QS'], **k))
OK = lambda *xs: [('canonical %s' % x, 'ok %s' % x) for x in xs]
def val(n, d, r='result'): return [('exact value', '%s.qq_num * (%s) = (%s) * %s.qq_den' % (r, d, n, r)), ('lowest terms, positive denominator', 'ok %s' % r)]
C = 'clpoly::QQ::ctor'
fn('canon', 'clpoly::QQ::_canonicalize', None, ['this'], ['this.qq_den <> 0'], [('same value', 'this.qq_num * this_0.qq_den = this_0.qq_num * this.qq_den'), ('lowest terms, positive denominator', 'ok this')],
   ghost={'decl:g': ['let ghost n0 = this.qq_num in', 'let ghost d0 = this.qq_den in', 'assert { g = gcdf n0 d0 };', 'red n0 d0 (pure { CD.div n0 g }) (pure { CD.div d0 g }) g;']})
fn('canon2', 'clpoly::QQ::canonicalize', None, ['this'], ['this.qq_den <> 0'], [('same value', 'this.qq_num * this_0.qq_den = this_0.qq_num * this.qq_den'), ('lowest terms, positive denominator', 'ok this')])
fn('c_def', C, r'ctor\(\)', ['this'], [], [('zero', 'this.qq_num = 0 /\\ this.qq_den = 1 /\\ ok this')])
for n, t in (('int', 'int'), ('long', 'long'), ('ll', 'long long'), ('Z', 'const Z &')):
    fn('c_'+n, C, r'ctor\(%s\)' % t, ['this', 'v'], [], [('the integer', 'this.qq_num = %s /\\ this.qq_den = 1 /\\ ok this' % ('v' if n == 'Z' else 'v_0'))])
fn('c_frac', C, r'ctor\(const Z &, const Z &\)', ['this', 'num', 'den'], [], val('num', 'den', 'this')+[('nonzero', 'den <> 0')], throws='den = 0')
fn('c_fracl', C, r'ctor\(long long, long long\)', ['this', 'num', 'den'], [], val('num_0', 'den_0', 'this')+[('nonzero', 'den_0 <> 0')], throws='den_0 = 0')
fn('c_copy', C, r'ctor\(const QQ &\)', ['this', 'o'], [], [('copy', 'this = o')])
fn('c_move', C, r'ctor\(QQ &&\)', ['this', 'o'], [], [('value moved', 'this = o_0')])
EQ = 'clpoly::QQ::operator='
fn('a_copy', EQ, r'operator=\(const QQ &\)', ['this', 'o'], [], [('copy', 'this = o')], alias=[{'o': 'this'}])
fn('a_move', EQ, r'operator=\(QQ &&\)', ['this', 'o'], [], [('value moved', 'this = o_0')])
fn('a_ll', EQ, r'operator=\(long long\)', ['this', 'v'], [], [('the integer', 'this.qq_num = v_0 /\\ this.qq_den = 1 /\\ ok this')])
fn('swap', 'clpoly::QQ::swap', None, ['this', 'o'], [], [('exchange', 'this = o_0 /\\ o = this_0')])
fn('f_swap', 'clpoly::swap', r'swap\(QQ &, QQ &\)', ['a', 'b'], [], [('exchange', 'a = b_0 /\\ b = a_0')])
AB = ['a', 'b']
for n, op, f in (('eq', '==', '='), ('ne', '!=', '<>'), ('lt', '<', '<'), ('gt', '>', '>'), ('le', '<=', '<='), ('ge', '>=', '>=')):
    fn('o_'+n, 'clpoly::operator'+op, r'operator%s\(const QQ &, const QQ &\)' % op, AB, OK('a', 'b'), [('decides the rational comparison', 'result <-> a.qq_num * b.qq_den %s b.qq_num * a.qq_den' % f)])
fn('to_bool', 'clpoly::QQ::conv:bool', None, ['this'], [], [('nonzero', 'result <-> this.qq_num <> 0')])
fn('is_zero', 'clpoly::QQ::is_zero', None, ['this'], [], [('zero', 'result <-> this.qq_num = 0')])
fn('neg', 'clpoly::operator-', r'operator-\(const QQ &\)', ['a'], OK('a'), [('exact value', 'result.qq_num = - a.qq_num /\\ result.qq_den = a.qq_den'), ('lowest terms, positive denominator', 'ok result')])
V = {'add': ('+', 'a.qq_num * b.qq_den + b.qq_num * a.qq_den', 'a.qq_den * b.qq_den'), 'sub': ('-', 'a.qq_num * b.qq_den - b.qq_num * a.qq_den', 'a.qq_den * b.qq_den'), 'mul': ('*', 'a.qq_num * b.qq_num', 'a.qq_den * b.qq_den'), 'div': ('/', 'a.qq_num * b.qq_den', 'a.qq_den * b.qq_num')}
for n, (op, nu, de) in V.items():
    z = dict(throws='b.qq_num = 0') if n == 'div' else {}
    nz = [('nonzero divisor', 'b.qq_num <> 0')] if n == 'div' else []
    z2 = dict(z, ghost={'call:canon#1.pre': ['let ghost n0 = r.qq_num in', 'let ghost d0 = r.qq_den in'], 'exit': ['cross res_.qq_num res_.qq_den n0 d0 (pure { %s }) (pure { %s });' % (nu, de)]}) if n == 'sub' else z
    fn('o_'+n, 'clpoly::operator'+op, r'operator%s\(const QQ &, const QQ &\)' % re.escape(op), AB, OK('a', 'b'), val(nu, de)+nz, **z2)
    nz = [('nonzero divisor', 'b_0.qq_num <> 0' if 0 else 'b_v.qq_num <> 0')] if n == 'div' else []
    f = lambda t: re.sub(r'\ba\.', 'this_0.', t)
    fn('i_'+n, 'clpoly::QQ::operator%s=' % op, r'operator%s=\(const QQ &\)' % re.escape(op), ['this', 'b'], OK('this', 'b'), val(f(nu), f(de), 'this'), **z)
    fn('ia_'+n, 'clpoly::QQ::operator%s=' % op, r'operator%s=\(const QQ &\)' % re.escape(op), ['this', 'b'], OK('this', 'b'), [('lowest terms, positive denominator', 'ok this')], alias=[{'b': 'this'}], **z)
fn('pow', 'clpoly::pow', r'pow\(const QQ &', ['base', 'exp'], OK('base'), [('exact value', 'result.qq_num = ipow base.qq_num exp_0 /\\ result.qq_den = ipow base.qq_den exp_0'), ('lowest terms, positive denominator', 'ok result')])
fn('sgn', 'clpoly::sgn', r'sgn\(const QQ &\)', ['q'], OK('q'), [('sign', '(result > 0 <-> q.qq_num > 0) /\\ (result < 0 <-> q.qq_num < 0)')])
fn('abs', 'clpoly::abs', r'abs\(const QQ &\)', ['q'], OK('q'), [('exact value', 'result.qq_num = zabs q.qq_num /\\ result.qq_den = q.qq_den'), ('lowest terms, positive denominator', 'ok result')])
fn('f_divzz', 'clpoly::__div', r'__div\(QQ &, const Z &, const Z &\)', ['op', 'op1', 'op2'], [], val('op1', 'op2', 'op')+[('nonzero', 'op2 <> 0')], throws='op2 = 0')
cfg['fns'] = F
