"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
TECH = 'deductive verification: contracts on the real functions, path-wise verification conditions from their LLVM IR'
BASE = ('Every obligation generated from the current source is discharged for all inputs of the stated domain. Trusted: clang front end, '
        'the VC generator in vc/, the back ends. Arithmetic is exact real arithmetic unless stated otherwise. ')
CLAIMED = dict(
    C01='Exact IEEE comparison semantics, including NaN, for all inputs; the eigenvalue routine of Eigen is replaced by a contract.',
    C02='Exact real arithmetic; eigenvalue and singular value routines of Eigen are replaced by contracts (ascending order, orthonormal vectors, orientation convention).',
    C03='Exact IEEE comparison semantics for all object states and arguments; formatting of messages is skipped.',
    C04='Exact real arithmetic (no NaN); loop corrections and expansions stand for arbitrary values; eigenvalue routine by its definition.',
    C05='Exact real arithmetic; frame conditions by a flow- and field-insensitive points-to analysis of every store of the library (conservative); writes of the Fortran routines and of the standard library to their own memory are outside (see C17).',
    C16='Exact real arithmetic; the external Fortran routines stand for arbitrary functions of their arguments. Bounded: exchange relations and limits of the real external code at 300 random points.',
    C17='Lock contracts, a points-to analysis of every store of the library and the static memory found in the Fortran code; schedules are not enumerated: absence of shared unlocked state is what is proved. The C++ run-time library is assumed reentrant.',
    C19='Exact real arithmetic; the degenerate formula is compared with the general one by series over the prime field.',
    C20='Exact real arithmetic; the external two-loop routine stands for an arbitrary function of its arguments.',
    C21='Exact real arithmetic; the expanded mass matrix stands for an arbitrary function of expansion depths, loop flags and hierarchy.',
    C22='Exact real arithmetic; the individual calculations stand for arbitrary functions of the arguments and parameters they read.',
    C06='Exact real arithmetic; the fourteen expansions and the mass shift stand for arbitrary functions of their arguments.',
    C08='Bounded: nothing; the accuracy statement is an order-of-expansion statement decided by series over the prime field.',
    C07='Exact real arithmetic; eigenvalue and singular value routines of Eigen are replaced by contracts (named eigenvalues and unit vectors, ordered as documented).',
    C12='Exact real arithmetic (no NaN); all 4096 and 512 settings of the switches are enumerated; thresholds and loop function stand for arbitrary functions.',
    C13='Exact real arithmetic; limits by Laurent series over a prime field at random points (polynomial identity testing), for all values up to the stated probability of error. The formulas with decimally rounded coefficients (Yb6, Yt6, Ytau6, Yt2Yb4, Yt4Yb2) are outside.',
    C14='Exact real arithmetic; the individual threshold formulas stand for arbitrary values.',
    C15='Exact real arithmetic; derivative and series over a prime field at random points (polynomial identity testing); beta functions of the two theories are the trusted specification.',
    C18='Exact real arithmetic; polynomial identity testing at random points over a prime field with the transcendental constants left arbitrary; decimal coefficients stand for the fractions they round. For H5, H6bq22g and H6bq2g2 the self-energies and the polynomial are truncated differently: compared through the order both keep.',
    C23='Exact real arithmetic; running of the one-loop correction by polynomial identity testing on exact spectra over the prime field (mass matrices of the code, diagonalised in the field); loop integrals by their contract (C09), diagonalisation by its contract (C07). Bounded: the numerical momentum iteration is followed for at most 3 iterations.',
    C24='The formatted output of the C++ library and the MathLink functions are assumed to pass on what they are given in the order of the calls (their declarations come from contracts/mathlink, since Mathematica is not installed; the interface itself is the file of the repository). The redirection of messages and the conversion of exceptions to $Failed in the exported function are not covered.',
    C09='Bounded: the two-point function with two different masses at non-zero momentum is compared with the closed form at sampled points (tolerance 1e-7).',
    C11='Functional equations and series of the dilogarithm are trusted mathematics; bounded: the argument reduction of the Clausen function is sampled.',
    C10='Branches are proved identical to the closed form, or confined to a region (z3) where they agree with its Laurent expansion through the implemented order. Bounded: size of the Taylor remainder and the regions narrower than rounding, compared numerically at sampled points.',
)
NA = dict()
checks = [dict(property=p, quick_cmd='python3-vt -m vc ' + p, thorough_cmd='VERIF_TIER=thorough python3-vt -m vc ' + p,
               evidence_file='evidence/%s.json' % p, technique=TECH, level='proof', level_note=BASE + CLAIMED[p]) for p in ids if p in CLAIMED]
na = [dict(property=p, reason=NA.get(p, 'check not built yet')) for p in ids if p not in CLAIMED]
json.dump(dict(version=1, setup_cmd='python3-vt -m vc setup', checks=checks, not_applicable=na), open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not claimed')
