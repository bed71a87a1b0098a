"""ZZ as a mathematical integer: call templates for the layers above number/ZZ.hh.
Every line is the postcondition proved for the same function in unit zz (contracts/zz.py), except those marked TRUSTED."""
from trans import *
INTZ = TOpaque('int', default='0')
B = r'(?:const )?Z(?: &| &&)?'
def rx(s): return s
ZZT = [
  (r'^\[Z\] clpoly::ZZ::operator=\((?:const )?Z &&?\)', dict(set={0: '{1}'}, ret=0)),
  (r'^\[Z\] clpoly::ZZ::operator=\((?:unsigned )?(?:int|long|long long)\)', dict(set={0: '{1}'}, ret=0)),
  (r'^\[Z\] clpoly::ZZ::ctor\(\)', '0'),
  (r'^\[Z\] clpoly::ZZ::ctor\((?:unsigned )?(?:int|long|long long)\)', '{0}'),
  (r'^\[Z\] clpoly::ZZ::ctor\((?:const )?Z &&?\)', '{0}'),
  (r'^\[Z\] clpoly::ZZ::(?:conv:bool|is_nonzero)\(', '({0} <> 0)'),
  (r'^\[Z\] clpoly::ZZ::is_zero\(\)', '({0} = 0)'),
  (r'^\[Z\] clpoly::ZZ::is_one\(\)', '({0} = 1)'),
  (r'^\[Z\] clpoly::ZZ::sgn\(\)', '(zsgn {0})'),
  (r'^clpoly::sgn\(const Z &\)', '(zsgn {0})'),
  (r'^clpoly::abs\(const Z &\)', '(zabs {0})'),
  (r'^clpoly::gcd\(const Z &, const Z &\)', '(zgcd {0} {1})'),
  (r'^clpoly::lcm\(const Z &, const Z &\)', '(zlcm {0} {1})'),
  (r'^clpoly::operator\+\(const Z &, const Z &\)', '({0} + {1})'),
  (r'^clpoly::operator-\(const Z &, const Z &\)', '({0} - {1})'),
  (r'^clpoly::operator\*\(const Z &, const Z &\)', '({0} * {1})'),
  (r'^clpoly::operator/\(const Z &, const Z &\)', '(ztdiv {0} {1})'),
  (r'^clpoly::operator%\(const Z &, const Z &\)', '(ztrem {0} {1})'),
  (r'^clpoly::operator-\(const Z &\)', '(- {0})'),
  (r'^\[Z\] clpoly::ZZ::operator\+=\(const Z &\)', dict(set={0: '({0} + {1})'}, ret=0)),
  (r'^\[Z\] clpoly::ZZ::operator-=\(const Z &\)', dict(set={0: '({0} - {1})'}, ret=0)),
  (r'^\[Z\] clpoly::ZZ::operator\*=\(const Z &\)', dict(set={0: '({0} * {1})'}, ret=0)),
  (r'^\[Z\] clpoly::ZZ::operator/=\(const Z &\)', dict(set={0: '(ztdiv {0} {1})'}, ret=0)),
  (r'^\[Z\] clpoly::ZZ::operator%=\(const Z &\)', dict(set={0: '(ztrem {0} {1})'}, ret=0)),
  (r'^clpoly::operator==\(const Z &, const Z &\)', '({0} = {1})'),
  (r'^clpoly::operator!=\(const Z &, const Z &\)', '({0} <> {1})'),
  (r'^clpoly::operator>\(const Z &, const Z &\)', '({0} > {1})'),
  (r'^clpoly::operator<\(const Z &, const Z &\)', '({0} < {1})'),
  (r'^clpoly::operator>=\(const Z &, const Z &\)', '({0} >= {1})'),
  (r'^clpoly::operator<=\(const Z &, const Z &\)', '({0} <= {1})'),
  (r'^clpoly::addmul\(Z &, const Z &, const Z &\)', dict(set={0: '({0} + {1} * {2})'})),
  (r'^clpoly::submul\(Z &, const Z &, const Z &\)', dict(set={0: '({0} - {1} * {2})'})),
  (r'^clpoly::__div\(Z &, const Z &, const Z &\)', dict(set={0: '(zfdiv {1} {2})'})),
  (r'^clpoly::__div\(Z &, Z &, const Z &, const Z &\)', dict(set={0: '(zfdiv {2} {3})', 1: '(zfmod {2} {3})'})),
  (r'^\[Z\] clpoly::ZZ::fdiv_q\(', dict(set={0: '(zfdiv {1} {2})'})),
  (r'^\[Z\] clpoly::ZZ::fdiv_r\(', dict(set={0: '(zfmod {1} {2})'})),
  (r'^\[Z\] clpoly::ZZ::fdiv_qr\(', dict(set={0: '(zfdiv {2} {3})', 1: '(zfmod {2} {3})'})),
  (r'^\[Z\] clpoly::ZZ::fdiv_ui\(', '(zfdiv_ui {0} {1})'),
  (r'^clpoly::set_zero\(Z &\)', dict(set={0: '0'})),
  (r'^\[clpoly::zore_check<(?:ZZ|Z)>\] clpoly::zore_check::operator\(\)', '({1} = 0)'),
  (r'^clpoly::swap\(Z &, Z &\)', dict(set={0: '{1}', 1: '{0}'})),
  (r'^\[Z\] clpoly::ZZ::swap\(Z &\)', dict(set={0: '{1}', 1: '{0}'})),
]
ZZP = '''
use int.ComputerDivision as CD
use int.EuclideanDivision as ED
val function zsgn (a: int) : int ensures { result = if a > 0 then 1 else if a < 0 then (-1) else 0 }
val function zabs (a: int) : int ensures { result = if a >= 0 then a else - a }
(* floor division with remainder of the sign of the divisor *)
function fq (a b: int) : int = if b > 0 then ED.div a b else ED.div (- a) (- b)
function fr (a b: int) : int = a - b * fq a b
lemma fqr: forall a b: int [fq a b | fr a b]. b <> 0 -> a = b * fq a b + fr a b /\\ (b > 0 -> 0 <= fr a b < b) /\\ (b < 0 -> b < fr a b <= 0)
val zfdiv (a b: int) : int requires { [@expl:division by zero] b <> 0 } ensures { result = fq a b }
val zfmod (a b: int) : int requires { [@expl:division by zero] b <> 0 } ensures { result = fr a b }
val zfdiv_ui (a b: int) : int requires { [@expl:division by zero] b > 0 } ensures { result = fr a b } ensures { 0 <= result < b }
val ztdiv (a b: int) : int requires { [@expl:division by zero] b <> 0 } ensures { result = CD.div a b }
val ztrem (a b: int) : int requires { [@expl:division by zero] b <> 0 } ensures { result = CD.mod a b }
function gcd_ int int : int
axiom gcd_pos: forall a b: int [gcd_ a b]. gcd_ a b >= 0 /\\ ((a <> 0 \\/ b <> 0) -> gcd_ a b > 0)
axiom gcd_dvd: forall a b: int [gcd_ a b]. (exists x: int. a = gcd_ a b * x) /\\ (exists y: int. b = gcd_ a b * y)
val zgcd (a b: int) : int ensures { result = gcd_ a b }
'''
