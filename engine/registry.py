TRUSTED=[
 'rustc nightly MIR construction (-Zunpretty=mir, opt-level 0, overflow checks on) as the meaning of the source; codegen of stable rustc',
 'the VC generator itself (engine/mir.py, interp.py, loopinv.py) and its back ends (limb.py, bv.py, intdom.py with z3; field.py, powdom.py, facdom.py and the group and divisor domains, which normalise polynomials and formal sums)',
 'engine/stdmodel.py and stdmodel2.py: assumed contracts of core/alloc/num-bigint functions and integer intrinsics',
 'Euler/Fermat in F_p and F_p^2 for the prime p = 3 mod 4 (its primality is discharged by C16, not assumed)',
]
HOME={}
def CONTRACT_HOME(c):
    for pre,pid in HOME.items():
        if c.startswith(pre): return pid
    return 'assumed'
PROPS={
 'C01':dict(obligations=[('prop_fp','c01')],level='proof',search_n=3000),
 'C02':dict(obligations=[('prop_fp','c02')],level='proof',search_n=3000),
 'C03':dict(obligations=[('prop_fp','c03')],level='proof',search_n=3000),
 'C04':dict(obligations=[('prop_fp2','c04')],level='proof',search_n=2000),
 'C05':dict(obligations=[('prop_fp2','c05')],level='proof',search_n=400),
 'C06':dict(obligations=[('prop_gcd','c06')],level='proof',search_n=2000),
 'C07':dict(obligations=[('prop_pow','c07')],level='proof',search_n=300),
 'C12':dict(obligations=[('prop_grp','c12')],level='proof',search_n=150),
 'C10':dict(obligations=[('prop_int','c10')],level='proof',search_n=4000),
 'C09':dict(obligations=[('prop_mul','c09')],level='proof',search_n=150),
 'C11':dict(obligations=[('prop_grp','c11')],level='proof',search_n=500),
 'C13':dict(obligations=[('prop_ser','c13')],level='proof',search_n=1000),
 'C14':dict(obligations=[('prop_iso','c14')],level='proof',search_n=800),
 'C16':dict(obligations=[('prop_const','c16')],level='proof',search_n=2),
 'C17':dict(obligations=[('prop_pair','c17')],level='proof',search_n=60),
 'C18':dict(obligations=[('prop_isog','c18')],level='proof',search_n=60),
 'C15':dict(obligations=[('prop_theta','c15')],level='proof',search_n=20),
 'C20':dict(obligations=[('prop_key','c20')],level='proof',search_n=12),
 'C08':dict(obligations=[('prop_ec','c08')],level='proof',search_n=400),
}
