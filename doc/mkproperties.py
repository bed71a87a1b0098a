#!/usr/bin/env python3
# writes ../properties.jsonl
import json, os
L=[]
def P(id,title,statement,qtext,why,files,mech,over=('inputs',),state=(),observe=()):
    L.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=list(over),text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
ZZf='clpoly/number/ZZ.hh'; QQf='clpoly/number/QQ.hh'; B='clpoly/basic.hh'; BP='clpoly/basic_polynomial.hh'; BM='clpoly/basic_monomial.hh'; MO='clpoly/monomial_order.hh'; M='clpoly/monomial.hh'; PO='clpoly/polynomial.hh'; PU='clpoly/polynomial_.hh'
P('P01','Integer arithmetic is exact and representation-canonical',
  'Every sum, difference, product, negation, shift, power, absolute value and fused multiply-add of integers equals the mathematical result, whatever mixture of machine-word and multi-word operands is involved and however operands and destination alias. Values that fit a machine word are always held as one, so equality, ordering and hashing agree with the mathematical integer. No operation leaks, double-frees or modifies an operand it does not own.',
  'all pairs of integers, including both sides of every machine-word boundary, and all aliasing patterns of the operands',
  'tests sample a handful of values; the promotion/demotion boundary (2^63), INT64_MIN, and self-assignment are single points in an infinite space',
  [ZZf],[('small/large split with demotion','ZZ::_demote_if_small, operator+,-,*, addmul, submul'),('overflow detection','__builtin_add_overflow / __int128')],
  state=[('_val,_mpz','machine word value, or owned GMP integer when non-null',ZZf)])
P('P02','Integer division, remainder and gcd satisfy their defining equations',
  'Truncated and floor division return the unique quotient and remainder of the mathematical definition for every dividend and non-zero divisor, and throw for a zero divisor. Greatest common divisor and least common multiple are the mathematical ones, non-negative, and the modular reduction used to enter a prime field is the floor residue.',
  'all integer pairs; machine-word, boundary and multi-word; all sign combinations',
  'sign combinations times representation boundary cases are only spot-checked; INT64_MIN / -1 style corners are reached by no test',
  [ZZf,'clpoly/number.hh'],[('small fast paths and GMP paths','ZZ::operator/, %, fdiv_q, fdiv_qr, fdiv_r, fdiv_ui, gcd, lcm')])
P('P03','Rational arithmetic is exact and canonical',
  'Rational sums, differences, products, quotients, powers and comparisons equal the mathematical ones. Every rational is held in lowest terms with a positive denominator, so equality is structural; division by zero throws.',
  'all rationals', 'tests use a few small fractions; canonicality must survive every operation sequence',
  [QQf],[('_canonicalize after every operation',QQf)],over=('inputs','histories'))
P('P04','Prime-field arithmetic is exact modular arithmetic',
  'Field elements always hold the unique residue in [0,p); addition, subtraction, negation, multiplication, powers and construction from integers are the operations of Z/pZ for every supported modulus, and the inverse of a non-zero element modulo a prime multiplies with it to one.',
  'all moduli the type accepts and all residues', 'the reduction uses machine-word tricks whose errors appear only for particular modulus/operand pairs',
  ['clpoly/number.hh'],[('Barrett-style reduction with precomputed inverse','Zp::operator*, __barrett'),('extended Euclid','inv_prime')])
P('P05','Monomial multiplication, division and lcm act exponent-wise',
  'The product, power, quotient, gcd-like and lcm operations on monomials give exactly the monomial whose exponent for each variable is the sum, multiple, difference or maximum of the operands\' exponents, in normal form (variables strictly ordered, no zero exponent, cached degree right). Divisibility is reported exactly when every exponent is at least the divisor\'s.',
  'all normal-form monomials over any number of variables', 'merging of two sorted variable lists has a case per interleaving; tests use two or three variables',
  [M,B,BM],[('pair_vec merge','pair_vec_add/sub on exponents, is_divexact, __mono_mult__')])
P('P06','Monomial orders are strict total orders compatible with multiplication',
  'Each monomial order (lexicographic, graded lexicographic, univariate-priority, custom variable order) is a strict total order on normal monomials, and multiplying both sides by the same monomial preserves it.',
  'all pairs and triples of normal monomials', 'transitivity and compatibility quantify over triples; no test enumerates them',
  [MO,BM,B],[('pair_vec_comp and degree comparison','lex_, grlex_, univariate_priority_order')])
P('P07','Normalisation yields the canonical form of the same polynomial',
  'Normalising any list of terms (unsorted, repeated monomials, zero coefficients) gives a polynomial equal as a function to the sum of the terms, sorted strictly decreasing, with no zero coefficient and no repeated monomial.',
  'all finite term lists','cancellation across duplicates depends on the whole list, which tests sample in a few shapes',
  [B,BP],[('sort and merge','pair_vec_normalization')])
P('P08','Polynomial addition, subtraction and negation are exact and canonical',
  'The sum, difference and negation of two polynomials, and adding or subtracting a constant, are exact and in canonical form. This holds when the destination is one of the operands.',
  'all pairs of canonical polynomials over any coefficient ring and monomial order, all aliasings','merging interleavings and cancellations are unbounded in number; tests use short fixed operands',
  [B,BP,PU],[('ordered merge','pair_vec_add, pair_vec_sub, pair_vec_negate')])
P('P09','Polynomial multiplication and powers are exact and canonical',
  'The product of two polynomials is the exact convolution of their terms in canonical form, whichever internal algorithm (single-term, packed exponents, heap) is selected and whatever the number of variables and the size of exponents; powers are repeated products.',
  'all pairs of canonical polynomials','algorithm selection thresholds and packed-exponent overflow are reached only for particular degrees and variable counts',
  [B,M,MO,BP],[('heap-based merge of partial products','pair_vec_multiplies, VHC_insert, VHC_extract'),('exponent packing','__is_monomial_can_compression, __pair_vec_multiplies_compression')])
P('P10','Polynomial division satisfies f = q*g + r',
  'Division of polynomials returns quotient and remainder with f = q*g + r exactly and no remainder term reducible by the leading term of g over a field; dividing a product by one factor returns the other exactly. Division by the zero polynomial throws.',
  'all f and all non-zero g','the algorithm choice and heap order are input-dependent; tests cover few shapes',
  [B,M,BP],[('heap division','pair_vec_div, __pair_vec_div_compression')])
P('P11','Pseudo-division satisfies its identity',
  'Pseudo-remainder computation in a main variable returns r with lc(g)^k * f = q*g + r and deg r < deg g in that variable.',
  'all f, g of positive degree in the variable','identity must hold for all polynomials; tests use a few',
  [PO,'clpoly/polynomial.hh'],[('prem','polynomial.hh')])
P('P12','Evaluation, substitution, derivative, degree and coefficient extraction are exact',
  'Substituting a value for a variable, taking the derivative, degree, leading coefficient and coefficient list of a polynomial in a variable agree with the mathematical definitions; substitution and derivation commute with sums and products as ring laws demand.',
  'all polynomials, variables and values','ring laws quantify over all inputs',
  [PO,PU,M,'clpoly/upolynomial.hh'],[('assign, derivative, degree, leadcoeff, coeff','polynomial.hh')])
P('P13','Conversions between polynomial representations preserve the polynomial',
  'Converting between monomial orders, univariate and multivariate forms, and coefficient rings preserves the polynomial (or its image in the residue ring), yields canonical form, and round trips are the identity where the source fits the target.',
  'all polynomials and conversion pairs','conversions are exercised on a few shapes each',
  ['clpoly/polynomial_convert.hh','clpoly/basic_polynomial.hh'],[('poly_convert, polynomial_mod','polynomial_convert.hh')])
P('P14','Variable identity: one name, one variable',
  'Looking a variable up by name always returns the same variable; distinct names give distinct variables; names and serial numbers map both ways, also after deletions.',
  'all histories of variable creation, lookup, renaming and deletion','a history property over a global registry',
  ['clpoly/variable.cc','clpoly/variable.hh'],[('name/serial maps','variable.cc')],over=('histories',))
P('P15','Equality and ordering of polynomials decide mathematical equality',
  'Two polynomials in canonical form compare equal exactly when they are mathematically equal, and ordering comparisons are consistent with equality.',
  'all pairs of canonical polynomials','quantifies over all pairs',
  [B,BP],[('pair_vec_equal_to, pair_vec_comp','basic.hh')])
P('P16','The polynomial gcd divides both operands and is greatest',
  'The gcd of two polynomials divides both; every common divisor divides it; cofactors are coprime; content and primitive part recombine to the polynomial.',
  'all polynomial pairs','modular gcd uses random primes and evaluation points; bad-prime handling is not sampled',
  ['clpoly/polynomial_gcd.cc','clpoly/polynomial_gcd.hh'],[('modular / Brown gcd','polynomial_gcd.cc')])
P('P17','Residues, norms, coefficient bounds and modular division used for lifting are exact',
  'The balanced residue of an integer or polynomial is the unique congruent one in (-m/2, m/2]; norms, binomials and rounded square roots are exact; the coefficient bound is the binomial times the rounded 2-norm and bounds every divisor; quotient, remainder and product modulo m satisfy their identities with reduced canonical results.',
  'all integers, polynomials and moduli','number-theoretic identities over all inputs',
  ['clpoly/polynomial_factorize_univar.hh'],[('__symmetric_mod, __upoly_symmetric_mod, norms, __binomial, __isqrt_ceil, __mignotte_bound, __upoly_mod_coeff, __upoly_divmod_mod, __upoly_mul_mod','polynomial_factorize_univar.hh')])
P('P18','Dense univariate arithmetic over a prime field is exact',
  'Sum, difference, product, division with remainder, gcd, derivative, powering modulo a polynomial and evaluation of dense polynomials over Z/p equal the mathematical ones, with no trailing zero coefficient.',
  'all dense polynomials over all supported primes','delayed-reduction accumulators overflow only for particular lengths and moduli',
  ['clpoly/dense_upoly_zp.hh'],[('__upoly_zp arithmetic','dense_upoly_zp.hh')])
P('P19','Factorisation multiplies back to the input',
  'The returned content, factors and multiplicities multiply to the input polynomial exactly, and each factor is irreducible and non-constant; content and primitive part recombine with the leading coefficient of the primitive part positive.',
  'all non-zero polynomials','random splitting and recombination: only sampled inputs are checked',
  ['clpoly/polynomial_factorize.hh','clpoly/polynomial_factorize_univar.hh','clpoly/polynomial_factorize_wang.hh','clpoly/polynomial_factorize_zp.hh'],[('Zassenhaus / Wang','polynomial_factorize*.hh')])
P('P20','Square-free decomposition and Hensel lifting identities',
  'Square-free decomposition multiplies back to the input with pairwise coprime square-free parts; lifted factors multiply to the input modulo the target power and reduce to the given factors.',
  'all inputs meeting the preconditions','identity over all inputs',
  ['clpoly/polynomial_factorize_univar.hh','clpoly/polynomial_gcd.hh'],[('squarefree, hensel lifting','polynomial_factorize_univar.hh')])
P('P22','Resultant, discriminant and subresultant chain are the determinantal ones',
  'The resultant vanishes exactly when the polynomials share a root, equals the Sylvester determinant including sign, and the subresultant chain satisfies its determinantal definition.',
  'all pairs of polynomials','algebraic identity over all inputs',
  ['clpoly/resultant.hh'],[('subresultant chain','resultant.hh')])
P('P23','Groebner bases generate the same ideal and reduce S-polynomials to zero',
  'The computed basis generates the input ideal and every S-polynomial of it reduces to zero, so normal forms decide membership.',
  'all finite input sets','ideal-theoretic statement over all inputs',
  ['clpoly/groebner.hh'],[('Buchberger','groebner.hh')])
P('P24','Characteristic sets are ascending and pseudo-reduce the input to zero',
  'The characteristic set of a polynomial system is an ascending set and every input polynomial has zero pseudo-remainder by it.',
  'all finite polynomial systems and variable orders','statement over all systems',
  ['clpoly/charset.hh'],[('Wu-Ritt','charset.hh')])
P('P25','Real root isolation is complete and correct',
  'Root isolation of a univariate integer polynomial returns disjoint rational intervals, each containing exactly one real root, and none is missed.',
  'all univariate integer polynomials','a statement over all reals',
  ['clpoly/realroot.cc','clpoly/realroot.hh'],[('continued fractions / Descartes','realroot.cc')])
P('P26','Graph utilities: elimination orderings and chordality',
  'The elimination game yields a chordal super-graph for which the ordering is perfect, and the chordality test accepts exactly chordal graphs.',
  'all finite graphs and orderings','graph statement over all graphs',
  ['clpoly/associatedgraph.cc','clpoly/associatedgraph.hh'],[('elimination game, MCS','associatedgraph.cc')])
P('P28','Sampling utilities stay inside the requested shape',
  'Random polynomial generation returns a canonical polynomial in the requested variables within the requested degree and coefficient bounds; Euclidean combinations of indices are distinct.',
  'all parameters and all random streams','the random stream is unbounded',
  ['clpoly/random.hh'],[('random_polynomial, random_select','random.hh')],over=('inputs','schedules'))
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w').write(''.join(json.dumps(x)+'\n' for x in L))
print(len(L))
