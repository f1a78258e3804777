#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from one table (run by hand after editing the table)"""
import json,os,sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FPG='src/finitefield/fp_gen.rs'; F2G='src/finitefield/fp2_gen.rs'; EC='src/eccore.rs'; FI='src/fields.rs'; U6='src/finitefield/utils64.rs'
DL='src/discrete_log.rs'; SS='src/supersingular.rs'; PA='src/pairing.rs'; TH='src/theta.rs'; IS='src/isogeny.rs'; FE='src/festa.rs'
TECH='contract-based deductive verification: VCs generated from the MIR of the real functions, discharged by '
L=[]
def P(id,title,statement,qt,why,files,mech,tech=None,note=None,na=None,over=('inputs',),level='proof',hook=None):
    L.append(dict(id=id,title=title,statement=statement,over=list(over),qt=qt,why=why,files=files,mech=mech,tech=tech,note=note,na=na,level=level,hook=hook))
BASE=' Trusted: rustc MIR, the VC generator and its std models, primality of p.'
P('C01','Base-field arithmetic is exact modulo p',
 'For all field elements, addition, subtraction, negation, halving, multiplication by small constants and by any signed 32-bit integer, multiplication, squaring and the fused two-product forms return the canonical representative of the exact result modulo p, in every value/reference/assignment operator form. None of these operations panics, overflows or changes an operand it is not meant to write.',
 'all 2^1293-sized operands (and all 32-bit multipliers); carries, borrows and final subtractions included',
 'the tests touch a handful of elements indirectly; a wrong carry in one of 21 limbs shows on a fraction of about 2^-64 of the inputs, which sampling does not reach',
 [FPG,U6,FI],[('limb add/sub/neg/half/mul2','%s: set_add..set_mul8'%FPG),('Montgomery multiplication, squaring, reduction','%s: set_mul, set_square, set_montyred'%FPG),('fused products','%s: sum_of_products, difference_of_products'%FPG),('64-bit carry primitives','%s'%U6),('operators','%s: impl Add/Sub/Mul/Neg'%FPG)],
 'exact multiword integer reasoning (LP + z3), bit-vectors and polynomial normal forms','All obligations are for every input, with no bound.'+BASE)
P('C02','Base-field encoding is canonical and decoding rejects everything else',
 'Encoding an element yields exactly the 162-byte little-endian form of its canonical integer; strict decoding accepts precisely the 162-byte strings whose integer is below p and returns that element, and otherwise returns zero with a failure flag. Reducing decoding of a byte string of any length returns its little-endian integer modulo p.',
 'all elements and all byte strings; lengths 0..659 for reducing decoding, 0..419 for length rejection',
 'no unit test feeds non-canonical encodings, values next to p or the many string lengths',
 [FPG,FI],[('encode','%s: encode'%FPG),('strict decode','%s: decode, set_decode_nocheck'%FPG),('reducing decode','%s: decode_reduce'%FPG)],
 'z3 bit-vectors and polynomial normal forms','Contents unbounded; string lengths bounded as stated (labelled bounded in the evidence).'+BASE)
P('C03','Base-field tests, selections and integer conversions are exact',
 'Zero and equality tests return all-ones exactly when the elements are zero or equal and zero otherwise; conditional select, move, swap and negate act exactly when their control word is all-ones. Conversion from signed and unsigned 32- and 64-bit integers yields the residue of the integer.',
 'all operands, both control words, all machine integers',
 'equality over 21 limbs can be wrong for a single limb or sign only; tests compare a few values',
 [FPG,FI],[('iszero/equals','%s: iszero, equals'%FPG),('selection','%s: set_select, set_cond, condswap, set_condneg'%FPG),('conversions','%s: from_i32..from_u64'%FPG)],
 'z3 bit-vectors and polynomial normal forms','For every input, no bound.'+BASE)
P('C04','Extension-field arithmetic is exact in F_p[i], including encoding and tests',
 'For all elements of the quadratic extension, addition, subtraction, negation, conjugation, halving, small multiples, multiplication, squaring, inversion and division (by zero gives zero), batch inversion, equality and zero tests, selection and sign changes give the exact result of F_p[i] with i^2=-1, in every operator form. Encoding is the concatenation of the two canonical base-field encodings, and decoding accepts exactly those strings and otherwise returns zero with a failure flag.',
 'all elements; batch inversion for the batch sizes stated in the evidence',
 'tests use few elements, never zero divisors, purely imaginary values or malformed encodings',
 [F2G,FI],[('arithmetic','%s: set_add..set_div'%F2G),('batch inversion','%s: batch_invert'%F2G),('encoding','%s: encode, decode'%F2G),('operators','%s: impl Add/Sub/Mul/Div/Neg'%F2G)],
 'polynomial normal forms over F_p with path conditions, over the base-field contracts','For every element; batch sizes bounded.'+BASE)
P('C05','Square and fourth roots are genuine, normalised, and fail only if none exists',
 'For every element of either field, the square (fourth) root routine reports success exactly when a square (fourth) root exists in that field, and then the returned value is such a root; on failure it returns zero. Base-field roots are even as integers, and extension-field square roots have an even real part, or an even imaginary part when the real part is zero.',
 'all elements of both fields, squares and non-squares, including zero, real and purely imaginary ones',
 'half of all inputs take each branch and special cases (zero discriminants, purely imaginary inputs) have negligible probability',
 [FPG,F2G,FI],[('base-field roots','%s: set_sqrt, set_fourth_root'%FPG),('extension-field roots','%s: set_sqrt, set_fourth_root'%F2G),('quadratic character','%s: legendre'%F2G)],
 'exponent-domain and polynomial normal forms over the base-field contracts','For every element. Trusted: Euler criterion and p = 3 mod 4.'+BASE)
P('C06','Base-field inversion, division and quadratic character are exact',
 'For every dividend and divisor, division returns the quotient modulo p and returns zero when the divisor is zero; inversion agrees with it. The quadratic character is 0 for zero, 1 for non-zero squares and -1 otherwise.',
 'all pairs of elements',
 'the binary-GCD inner loop has data-dependent corner cases (leading words equal, sign flips) that few random samples exercise',
 [FPG,U6],[('binary GCD division','%s: set_div, set_montylin, set_lindiv31abs'%FPG),('inversion','%s: set_invert, invert'%FPG),('Legendre symbol','%s: legendre'%FPG)],
 'exact multiword integer contracts for the linear-combination steps; loop invariants discharged by bit-vector solving, cut at every arrival at a loop head, for division and the quadratic character','All obligations are for every input, with no bound. Assumed: the convergence theorem of the binary GCD with 64-bit approximations (eprint 2020/972) for the exact approximation, step and round count that are proved, and the Jacobi-symbol rules.'+BASE)
P('C07','Exponentiation returns exactly x^e in both fields',
 'For every element and every exponent, each exponentiation routine (byte-string, byte-string with bit offset and length, 32-bit, 64-bit constant- and variable-time, big-integer) returns the element raised to exactly the selected exponent, with exponent zero giving one. Bits outside the selected window have no influence.',
 'all elements and exponent values; bit lengths as listed in the evidence for byte-string and big-integer forms, all lengths for 32/64-bit forms',
 'window boundaries, partial windows and leading zero bits need particular exponent lengths; the tests use a few exponents',
 [FPG,F2G],[('windowed exponentiation','%s and %s: set_pow_ext, set_pow'%(FPG,F2G)),('word exponents','%s: pow_small, set_pow_u64, set_pow_u64_vartime'%F2G),('big-integer exponents','pow_big')],
 'exponent-domain interpretation (exact exponent polynomials in the exponent bits) over the multiplication contracts','Base and exponent bits unbounded; lengths bounded where stated.'+BASE)
P('C08','Curve arithmetic is the complete group law, with exact membership and equality',
 'For every Montgomery curve and all points on it in any projective representation, including infinity, points of order two, equal and opposite points, addition, subtraction, doubling, repeated doubling and negation return the group-law result. Point equality and on-curve tests are exact, checked constructors accept exactly the coordinates on the curve, and completing an x-coordinate succeeds exactly when a matching y exists and returns a point with that x.',
 'all curves, points and representations',
 'exceptional cases (order two, opposite points, non-normalised Z) have negligible probability under random testing',
 [EC],[('addition/doubling','%s: add_into, sub_into, double_into, double_iter'%EC),('tests and constructors','%s: equals, on_curve, set_xy, set_xyz, complete_pointX'%EC)],
 'polynomial normal forms modulo the curve equation, case-split on the exceptional sets, over the field contracts','For every curve and point; repeated doubling for the stated iteration counts plus an inductive step.'+BASE)
P('C09','Scalar multiplication returns exactly n times the point',
 'For every point and every scalar, each scalar-multiplication routine (byte string with a bit length, 64-bit, big integer, cofactor clearing) returns the n-fold sum of the point, including scalar zero, infinity, points of order two and scalars that hit infinity or the inverse of the point. Scalar bits beyond the given length are ignored.',
 'all points and scalars of the listed bit lengths',
 'exceptional scalars relative to the point order cannot be sampled, and both ladder variants have separate code',
 [EC,SS],[('ladder','%s: mul_into'%EC),('wrappers','%s: mul, mul_small, mul_big; %s: clear_cofactor'%(EC,SS))],
 'symbolic execution in an abstract group domain over ladder-step contracts proved as polynomial identities','Bit lengths bounded as listed; points unbounded.'+BASE)
P('C10','Modular inverse, CRT and integer square root helpers are exact',
 'For coprime positive integers the modular-inverse helper returns the inverse reduced into the range of the modulus; the CRT helper returns the unique residue congruent to every given remainder for pairwise coprime prime powers. The integer square root helper returns the floor of the square root for every 32-bit input without panicking.',
 'all integer inputs',
 'tests only print results for one input each',
 [DL],[('extended Euclid','%s: xgcd_big'%DL),('CRT','%s: compute_crt'%DL),('square root','%s: sqrt_floor'%DL)],
 'loop invariants over mathematical integers with cut-points, discharged by z3 and polynomial identities','For all integers; CRT for any number of moduli (the instances with 0..20 moduli are a refutation route and a fallback).'+BASE)
P('C11','Discrete logarithms are correct: alpha to the returned exponent is beta',
 'For every base of the stated order and every target in the group it generates, the baby-step giant-step, prime-power and composite-order solvers return the exponent in range with base^exponent = target, and never panic. The two-dimensional solver returns coefficients expressing a point in a torsion basis, given a bilinear pairing.',
 'all targets and bases; every order for baby-step giant-step and prime powers, factorisations as listed in the evidence for the composite solvers',
 'tests only check one target each, and most only print',
 [DL],[('BSGS','%s: bsgs'%DL),('Pohlig-Hellman','%s: ph_dlp_power, ph_dlp'%DL),('bidlp','%s: bidlp'%DL)],
 'symbolic execution in an abstract cyclic-group domain over field-operation contracts','Exponents unbounded within the listed orders.'+BASE)
P('C12','Order tests accept exactly the elements of the full order',
 'For points and field elements killed by D (given in factored form) the order tests answer true exactly when the order is exactly D, for every factored D. Torsion-point generation only ever returns points that pass that test and are cofactor multiples of curve points.',
 'all elements killed by D and factored orders as listed in the evidence',
 'elements missing a single small prime in their order are rare, so tests do not produce them',
 [SS],[('order tests','%s: point_has_factored_order, has_factored_order'%SS),('cofactor clearing and generation','%s: clear_cofactor, generate_point_order_factored_D'%SS)],
 'symbolic execution in an abstract group domain over the scalar-multiplication contract','Order tests for factored orders of any length (recursive helper by contract, loops by invariants); point generation for the orders of the scheme.'+BASE)
P('C13','Secret keys and ciphertexts survive serialisation unchanged',
 'Encoding a secret key or ciphertext and decoding the bytes yields the same curves, points and scalars (points compared as curve points, scalars up to 82 bytes), whatever projective representation the points had. The encodings have fixed lengths and a fixed field order; constructors and accessors carry values unchanged, and inputs compare equal exactly when all their scalars are equal.',
 'all curves, finite points in any representation, and scalars below 2^656',
 'the one existing test decodes a single stored sample and never compares an encode/decode round trip',
 [FE,F2G],[('secret key','%s: SecretKey::encode/decode'%FE),('ciphertext','%s: TrapdoorOutput::encode/decode'%FE)],
 'symbolic byte strings over the field encoding contracts','All contents; scalar lengths enumerated 0..82 bytes.'+BASE)
P('C14','Curve isomorphisms land on the target curve; the j-invariant is exact',
 'For every two Montgomery curves (coefficient one in front of y^2) that are isomorphic over the field, including equal and opposite coefficients and j = 1728, the constructed map sends each point of the first curve to a point on the second, infinity to infinity, and respects addition. The j-invariant is 256(A^2-3)^3/(A^2-4) for every non-singular curve.',
 'all pairs of isomorphic curves and all points',
 'no unit test evaluates an isomorphism; coefficient relations such as A1=-A2 are special cases',
 [EC],[('isomorphism','%s: CurveIsomorphism::new, eval'%EC),('j-invariant','%s: j_invariant'%EC)],
 'polynomial normal forms over the field contracts','For every input meeting the precondition.'+BASE)
P('C15','Isogenies between elliptic products are computed step by step correctly',
 'For every product of two curves and isotropic kernel of order 2^n x 2^n whose chain is generic (theta constants vanish only where a product forces it, as in the scheme), the isogeny computation returns the codomain product and the images, up to sign on each curve, of all evaluation points in order, including images with vanishing theta coordinates. Each part obeys its formula: transforms, theta doubling, codomain and image of a (2,2)-step, change of basis and gluing from a product, the splitting matrix for each of the ten possible vanishing constants, and the passage from theta to Montgomery coordinates. The chain, with any valid strategy or none, applies step k to the images of the [2^(n-1-k)]-multiples of the kernel generators, with the variant of the step its position requires.',
 'all curves, kernel points, theta points and null points; the strategy of the scheme and every strategy of length up to 7; numbers of evaluation points as listed in the evidence',
 'the tests run one chain on one kernel with one pair of points; vanishing coordinates, other null-point types and other strategies are never reached',
 [TH],[('theta arithmetic','%s: to_hadamard, to_squared_theta, ThetaStructure'%TH),('codomains and images','%s: gluing_codomain, gluing_image, two_isogeny, two_isogeny_to_product'%TH),('splitting','%s: compute_splitting_matrix, splitting_isomorphism, split_to_product'%TH),('chain','%s: product_isogeny, product_isogeny_no_strategy, gluing_isogeny'%TH)],
 'polynomial normal forms over the field contracts for each step; abstract kernel multiples for the chain','Points, curves and null points unbounded; numbers of evaluation points (0..3) and strategies other than the one of the scheme bounded. Trusted: that the theta formulas (duplication formula, symplectic base change) define the isogeny; full chains are compared with known isogenies natively.'+BASE)
P('C16','Public parameters are mutually consistent',
 'The published constants satisfy the relations the scheme relies on: each torsion degree D1, D2, DA equals the product of its listed prime powers (DA1, DA2: its square, since that isogeny is applied twice), the parameters derived at start-up (cofactors, inverse scalars, torsion bases) satisfy their defining equations, the group order is p+1 and divisible by all torsion orders, the field modulus constants agree, the degrees satisfy the norm equation of the two-dimensional isogeny, and the isogeny-chain strategy is valid for its length. Field constants (one, two, i, Montgomery constants) represent the values their names state.',
 'every published constant',
 'a single wrong digit in an unused or rarely used constant is invisible to the tests',
 [FI,FPG,F2G],[('parameters','%s: FpFESTA, FpFESTAExt'%FI),('field constants','%s: consts'%FPG)],
 'evaluation of the constants from the MIR and exact integer identities (ground obligations)','Finite ground obligations, decided exactly.'+BASE)
P('C17','The Weil pairing is the quotient of correctly built Miller functions',
 'For every curve, order n and two points killed by n, the line function evaluates the tangent, chord or vertical line through its two points, and the Miller loop accumulates the normalised function with divisor n(P)-n(O). The Weil pairing is (-1)^n times the quotient of the two Miller functions, and is one when a point is infinite or the points are found dependent; nothing panics.',
 'all curves, points and orders; everything inlined for the orders listed in the evidence',
 'tests check bilinearity for one sample; vertical and final-step cases depend on the order',
 [PA],[('lines','%s: eval_line'%PA),('Miller loop','%s: tate_pairing'%PA),('Weil pairing','%s: weil_pairing'%PA)],
 'polynomial normal forms for the line function; formal divisor bookkeeping for the loop','Points and orders unbounded (loop invariant over the prefixes of the order).'+BASE)
P('C18','Odd-degree isogenies and isogeny chains follow the closed formulas',
 'For every curve and kernel generator of odd prime order, the codomain coefficient and the images of points equal the closed-form products over the kernel multiples 1..(l-1)/2, the image of infinity is infinity. A chain computed for a kernel of factored order consists of consecutive isogenies whose kernels are the images of the right multiples (exact prime order, on the right curve), of total degree the order, and its evaluation composes them in order. The images of a basis are correct up to one common sign. The isogeny from a scalar m has kernel P+[m]Q, for a given or a generated basis; a random isogeny takes each step from the last curve; both report the codomain of the last isogeny.',
 'all curves, kernels, evaluated points and scalars; degrees and orders as listed in the evidence (all of the scheme)',
 'tests run three degrees on one random kernel and check orders only',
 [IS,SS],[('kernel multiples, codomain, evaluation','%s: KummerLineIsogeny'%IS),('chains','%s: factored_kummer_isogeny, evaluate_isogeny_chain, evaluate_isogeny_chain_for_basis'%IS),('isogenies of the scheme','%s: isogeny_from_scalar_x_only, random_isogeny_x_only'%SS)],
 'product normal forms over the field contracts and an abstract kernel/order domain','Curves, points and scalars unbounded; degrees: all primes below 200 and all primes of the scheme; orders, chain lengths and steps bounded as listed. Trusted: that the Costello-Hisil/Renes formulas define the isogeny (the degree-three case is proved as a lemma); e(P,Q)^(2 degree) is not one.'+BASE)
P('C20','Trapdoor key recovery: kernel scalars and masking matrices are recovered exactly',
 'Given a basis and the images of a kernel, canonical kernel recovery returns the scalar s with the kernel generated by P+[s]Q; given correctly scaled points, masking-matrix recovery returns the diagonal up to a common sign with the smaller representative first and its entries inverse to each other.',
 'all scalars and odd factored orders as listed in the evidence',
 'the end-to-end test exercises one random key; orders where a coefficient vanishes modulo one prime are rare',
 [SS,FE],[('canonical kernel','%s: compute_canonical_kernel'%SS),('matrix recovery','%s: recover_diagB'%FE)],
 'integer contracts over the discrete-log and CRT contracts','Scalars unbounded; orders bounded as listed.'+BASE)
P('C30','Inverting the trapdoor on an honestly generated output returns the input',
 'For every honestly generated key pair and every admissible input, inverting the evaluated trapdoor returns exactly the input. Nothing panics on the way.',
 'all keys and inputs','one random key per run is all a test can afford',
 [FE],[('trapdoor','%s: keygen, trapdoor_eval, trapdoor_inverse'%FE)],
 na='the correctness of the whole trapdoor rests on isogeny theory (Kani lemma, uniqueness of (2^n,2^n)-isogenies) that no contract within reach of the verifier can express; its computational parts are C01-C20')
P('C31','Generated keys are fresh and unpredictable',
 'Key generation draws every secret from the operating-system seeded generator and two calls never share secret material.',
 'all histories of calls','randomness is not observable by unit tests',
 [FE],[('randomness','%s: keygen'%FE)],over=('histories',),
 na='a statement about entropy and probability, not expressible as a functional contract')
P('C32','Secret-dependent computations run in constant time',
 'Field and ladder routines documented as constant time perform the same memory accesses and branches whatever the values of their operands.',
 'all operand pairs (a two-run property)','timing is not observed by unit tests',
 [FPG,F2G,EC],[('masking discipline','%s: set_select, condswap'%FPG)],
 na='a relational property over machine code timing; functional contracts on MIR say nothing about the generated code or its timing')

def design(extra=''):
    t=open(os.path.join(V,'tools/DESIGN.in.md')).read(); rows=[]
    for d in sorted(os.listdir(os.path.join(V,'seeded'))):
        m=json.load(open(os.path.join(V,'seeded',d,'meta.json'))); rows.append('| %s | %s | %s |'%(m['property'],d,m['needs']))
    t=t.replace('@@SEEDS@@','\n'.join(sorted(rows))).replace('@@EXTRA@@\n',extra)
    open(os.path.join(V,'DESIGN.md'),'w').write(t)
def main():
    sys.path.insert(0,os.path.join(V,'engine'))
    from registry import PROPS
    with open(os.path.join(V,'properties.jsonl'),'w') as f:
        for p in L:
            assert len(p['title'])<=80,p['title']
            d=dict(id=p['id'],title=p['title'],statement=p['statement'],quantifier=dict(over=p['over'],text=p['qt']),why_tests_cant=p['why'],
                anchors=dict(files=p['files'],mechanism=[dict(name=a,where=b) for a,b in p['mech']],hook_needed=p['hook']))
            f.write(json.dumps(d)+'\n')
    checks=[];na=[]
    for p in L:
        if p['id'] in PROPS:
            lv=PROPS[p['id']]['level']
            checks.append(dict(property=p['id'],quick_cmd='bin/check %s quick'%p['id'],thorough_cmd='bin/check %s thorough'%p['id'],evidence_file='evidence/%s.json'%p['id'],technique=TECH+p['tech'],level=lv,level_note=PROPS[p['id']].get('note',p['note'])))
        else: na.append(dict(property=p['id'],reason=p['na'] or 'no check built yet'))
    m=dict(version=1,setup_cmd='python3-vt -m compileall -q engine',checks=checks,not_applicable=na,notes='see DESIGN.md; no hooks in /repo')
    json.dump(m,open(os.path.join(V,'MANIFEST.json'),'w'),indent=1); open(os.path.join(V,'MANIFEST.json'),'a').write('\n')
main(); design()
