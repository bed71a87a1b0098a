"""Which contracts (unit, function) and which real-code driver decide each property."""
P = {}
def prop(id, proofs, driver=None, bounded=(), note='', libs=(), budget=(8, 60), san=True, flags=()):
    P[id] = dict(id=id, proofs=proofs, driver=driver, bounded=list(bounded), note=note, libs=list(libs), budget=budget, san=san, flags=list(flags))
prop('P08', [('poly', ['pv_neg', 'pv_add', 'pv_sub', 'p_add', 'p_sub', 'p_neg', 'p_pos', 'p_addc', 'p_cadd', 'p_subc', 'p_csub', 'p_addi', 'p_iadd', 'p_subi', 'p_isub', 'p_addm', 'p_madd', 'p_subm', 'p_msub', 'mm_add', 'mm_sub', 'mi_add', 'im_add', 'mi_sub', 'im_sub', 'm_neg'])], 'p08.cc', bounded=['the same operators on the real code for several orders and coefficient rings (differential search)'])
prop('P07', [('poly', ['pv_norm', 'pv_first', 'pv_check', 'p_norm', 'p_isnorm', 'p_ctor_vec', 'p_ctor_mvec', 'p_ctor_il', 'p_as_vec', 'p_as_p']), ('mono', ['m_norm', 'm_isnormal', 'm_redeg'])], 'p07.cc', bounded=['normalisation of random unsorted term lists on the real code for four orders and three coefficient rings (differential search)'])
prop('P15', [('poly', ['pv_equal', 'pv_comp', 'p_eq', 'p_ne', 'p_gt', 'p_lt', 'p_le', 'p_ge'])], 'p15.cc', bounded=['laws of ==, <, > and std::hash on the real code for four orders and three coefficient rings (differential search)'])

prop('P04', [('zp', ['inv_prime', 'preinvert', 'precompute', 'nmod_mul', 'z_ctor_0', 'z_ctor_p', 'z_ctor_u', 'z_ctor_i', 'z_ctor_int', 'z_ctor_Z', 'z_inv', 'z_set_i', 'z_set_Z',
  'z_norm', 'z_set_prime', 'z_neg', 'z_add', 'z_sub', 'z_mul', 'z_mul_i', 'z_muli2', 'z_div', 'z_iadd', 'z_isub', 'z_imul', 'z_idiv', 'z_eq', 'z_ne', 'z_eq_i', 'z_ne_i', 'z_addmul', 'z_submul', 'z_pow', 'z_div2', 'z_div3', 'z_zero'])],
  'p04.cc', bounded=['the same operations on the real code against 128-bit and GMP arithmetic (differential search, all operators, aliasing)'])

prop('P05', [('mono', ['pv_add', 'pv_sub', 'pv_neg', 'pv_equal', 'pv_norm', 'pv_check', 'm_mul', 'm_div', 'm_mult', 'm_divexact', 'm_eq', 'm_ne', 'm_find', 'm_deg', 'm_redeg', 'm_lcm', 'm_norm', 'm_isnormal', 'm_push', 'm_pop', 'm_pow', 'm_ctor_v', 'm_ctor_d', 'm_ctor_vec', 'm_clear', 'm_zero', 'var_eq', 'var_ne'])],
  'p05.cc', bounded=['the same operations on the real code for four monomial orders against exponent vectors (differential search, aliasing, huge exponents)'])
prop('P06', [('mono', ['pv_comp', 'pv_comp_l', 'pv_equal', 'm_eq', 'm_ne', 'm_gt', 'm_lt', 'm_le', 'm_ge', 'grlex_gt', 'lex_gt', 'less', 'cvo', 'uo', 'var_eq', 'var_ne', 'var_lt', 'var_gt', 'var_le', 'var_ge'])],
  'p06.cc', bounded=['every order on the real code against a reference comparison of exponent vectors; trichotomy, transitivity, compatibility on random triples'])

prop('P01', [('zz', ['c_def', 'c_int', 'c_uint', 'c_long', 'c_ll', 'c_ulong', 'c_ull', 'c_str', 'c_mpz', 'c_copy', 'c_move', 'a_copy', 'a_move', 'a_int', 'a_uint', 'a_long', 'a_ll', 'a_ulong', 'a_ull', 'swap', 'o_eq', 'o_ne', 'o_lt', 'o_gt', 'o_le', 'o_ge', 'to_bool', 'is_zero', 'is_one', 'is_odd', 'm_sgn', 'neg', 'o_add', 'i_add', 'o_sub', 'i_sub', 'o_mul', 'i_mul',
  'i_shr', 'i_shl', 'o_shr', 'om_shr', 'o_shl', 'om_shl', 'm_addmul', 'm_submul', 'get_si', 'pow', 'abs', 'f_addmul', 'f_submul', 'f_zero', 'f_sgn', 'f_swap', 'dtor'])],
  'p01.cc', bounded=['the same operations, input/output and std::hash on the real code against GMP at representation boundaries, with aliasing, operation sequences and a GMP block balance (differential search)'])
prop('P02', [('zz', ['o_div', 'i_div', 'o_mod', 'i_mod', 'fdiv_ui', 'fdiv_q', 'fdiv_r', 'fdiv_qr', 'invert', 'gcd', 'lcm', 'f_div', 'f_divr', 'sizeinbase', 'next64', 'prev64', 'next'])],
  'p02.cc', bounded=['the same operations on the real code against GMP at representation boundaries, with all aliasing patterns (differential search)'])
prop('P03', [('qq', ['canon', 'canon2', 'c_def', 'c_int', 'c_long', 'c_ll', 'c_Z', 'c_frac', 'c_fracl', 'c_copy', 'c_move', 'a_copy', 'a_move', 'a_ll', 'swap', 'f_swap', 'o_eq', 'o_ne', 'o_lt', 'o_gt', 'o_le', 'o_ge', 'to_bool', 'is_zero', 'neg', 'o_add', 'i_add', 'ia_add', 'o_sub', 'i_sub', 'ia_sub', 'o_mul', 'i_mul', 'ia_mul', 'o_div', 'i_div', 'ia_div', 'pow', 'sgn', 'abs', 'f_divzz'])],
  'p03.cc', bounded=['the same operations, std::hash and addmul/submul on the real code against GMP rationals (differential search)'])

prop('P09', [('poly', ['pv_mul', 'p_mul', 'p_mulc', 'pv_pow', 'p_pow', 'mi_mul', 'im_mul'])], 'p09.cc', budget=(12, 90),
  bounded=['heap accumulation of partial products (the tail of pair_vec_multiplies that allocates heap nodes) and the packed-exponent variant: bounded differential search over orders, rings, aliasing and packing-boundary exponents; their contracts are assumed in the proofs of the callers'])
prop('P10', [('poly', ['pv_div', 'pv_divr', 'p_div', 'pd_3', 'pd_4', 'p_rem'])], 'p10.cc', budget=(12, 90),
  bounded=['heap division (the tail of pair_vec_div that allocates heap nodes) and the packed-exponent variant: bounded differential search over orders, rings, aliasing and packing-boundary exponents; their contracts are assumed in the proofs of the callers'])

prop('P12', [('up', ['u_deg', 'u_assign', 'u_der', 'u_mulc'])], 'p12.cc', budget=(10, 90),
  bounded=['the multivariate operations (degree, coeff, leadcoeff, derivative, substitution of one variable and of maps) on the real code for five order kinds and three coefficient rings, with ring-homomorphism and product-rule laws (differential search)'])
prop('P13', [('up', ['u_mod', 'u_zp2z', 'u_q2z', 'u_z2q'])], 'p13.cc', budget=(10, 90),
  bounded=['multivariate conversions between order kinds and coefficient rings, by copy and by move, and all round trips (differential search)'])

prop('P18', [('dense', ['d_preinvert', 'd_precompute', 'd_nadd', 'd_nsub', 'd_strip', 'd_umul', 'd_addc', 'd_nmul', 'd_ninv', 'd_norm', 'd_lll', 'd_cmul', 'd_deg', 'd_size', 'd_empty', 'd_prime', 'd_lead', 'd_at', 'd_ctor0', 'd_ctorp', 'd_divrem', 'd_smul', 'd_padd', 'd_add', 'd_psub', 'd_sub', 'd_mul', 'd_gcd'])], 'p18.cc', budget=(10, 90),
  bounded=['Karatsuba recursion (_kar_mul), half-gcd (_gcd_hgcd), derivative, powering, evaluation and conversion of dense polynomials: bounded differential search across the length and modulus thresholds; the contracts of _kar_mul and _gcd_hgcd are assumed in the proofs of mul and gcd'])

prop('P16', [('mono', ['m_gcd']), ('uf', ['ugcd', 'cont', 'prim'])], 'p16.cc', budget=(40, 200),
  bounded=['the modular, heuristic, sparse and Euclidean polynomial gcd algorithms (univariate, multivariate, Z/p, extended): bounded search on the real code against polynomials with a planted common factor, exact division and modular coprimality of the cofactors; only monomial gcd, integer content and primitive part are proved'])
prop('P17', [('uf', ['symmod', 'usymmod', 'l2', 'l1', 'binom', 'isqrt', 'modc', 'divmod', 'mulmod', 'constterm', 'mignotte'])], 'p17.cc', budget=(8, 60),
  bounded=['the same functions, the subset product and the starting precision on the real code against GMP (differential search); that the Mignotte bound dominates every divisor is a theorem of analysis and is only searched'])
prop('P19', [('uf', ['u_deg', 'cont', 'prim', 'ugcd'])], 'p19.cc', budget=(20, 150),
  bounded=['factorisation over ZZ, QQ and Z/p: bounded search on the real code with products of polynomials known to be irreducible, Rabin irreducibility over Z/p, product and multiplicities; only content and primitive part are proved'])
prop('P20', [('uf', ['modc', 'divmod', 'mulmod', 'hlin'])], 'p20.cc', budget=(20, 150),
  bounded=['quadratic lifting step, the lifting tree, square-free decomposition over ZZ and Z/p and square-free bases: bounded search on the real code'])

NOTE = ('Every obligation generated from the current source for the listed functions is discharged for all inputs. '
        'Trusted: the clang AST extraction and the C++-to-WhyML translation, std library semantics, Why3, the SMT solvers. '
        'Wrappers outside the verifier\'s reach are covered only by a bounded differential search on the real code, labelled bounded in the evidence.')
NA = {}
