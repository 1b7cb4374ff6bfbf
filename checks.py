"""Registry of the checks: which harness explores which sources of /repo, and what it claims."""
MAT = ['matslise/matslise', 'matslise/sector', 'matslise/matslise_formulas', 'util/sectorbuilder', 'matslise/abstract_matslise', 'matslise/halfrange']
PER = MAT + ['matslise/periodic']
LIO = MAT + ['liouville/liouville', 'liouville/sturm_liouville']
ALL = PER + ['liouville/liouville', 'liouville/sturm_liouville']
CS = ['matscs/matscs', 'matscs/sector', 'matscs/matscs_formulas']
LD = ['-DMATSLISE_LONG_DOUBLE']
# rough compile cost, longest first
TU = {'matslise/periodic.cpp': 14, 'matscs/sector.cpp': 40, 'matscs/matscs_formulas.cpp': 27, 'matslise/matslise_formulas.cpp': 10}

REF = 'reference model lib/ref.hpp: long-double Taylor integration of the same piecewise-polynomial problem and zero counting (independent of the library), trusted'
BND = 'exhaustive within the stated finite alphabets; nothing is claimed for potentials outside them'
COND = 'cases whose conditioning exceeds double precision are excluded by a measure computed from the reference, never from the library\'s answer'


def note(covers, *assume):
    return 'Every execution within the bound is run on the compiled sources of /repo and compared with the reference. Covers ' + covers + '. Assumes: ' + '; '.join((REF, BND) + assume) + '.'


CHECKS = {
 'C01': dict(harness='c01.cpp', libs=MAT, level='model_checking',
             bound='all combinations of domain x potential x builder x left condition x right condition x index range of the alphabets in c01.cpp/probs.hpp',
             note=note('all combinations of domains, potentials, builders, boundary conditions and index ranges of the alphabets', COND), assumptions=[REF, BND, COND]),
 'C02': dict(harness='c02.cpp', libs=MAT, level='model_checking',
             bound='for every problem of the alphabets: all pairs of ~14 window ends (far below, beside and at eigenvalues, between them, reversed) and all compositions of two adjacent windows',
             note=note('all windows and all two-window compositions over a grid of ends around the first seven eigenvalues of every problem', COND), assumptions=[REF, BND, COND]),
 'C03': dict(variants=[dict(tag='flow', harness='c03.cpp'), dict(tag='sector', harness='c03b.cpp', flags=LD)], libs=MAT, level='model_checking',
             bound='all (problem, energy, from, to, start, use_h) of the alphabets with composition over every intermediate position; and for single sectors in long double all (coefficient degree, step, energy) against a table of the errors of the order-16 formulas',
             note=note('all pairs of positions (domain ends, sector borders and 1 ulp/1e-12 beside them, interior of sectors of both directions) x energies x start vectors, and the accuracy of single sectors per polynomial degree of the potential', COND,
                       'lib/c03b_table.hpp: errors of the formulas measured once on the pinned tree bound what a changed tree may do'), assumptions=[REF, BND, COND]),
 'C04': dict(variants=[dict(tag='flow', harness='c03.cpp', flags=['-DPART=4']), dict(tag='sector', harness='c03b.cpp', flags=LD + ['-DPART=4'])], libs=MAT, level='model_checking',
             bound='as C03, for the derivatives with respect to E', note=note('the energy derivatives of the executions of C03', COND), assumptions=[REF, BND, COND]),
 'C05': dict(harness='c05.cpp', libs=MAT, level='model_checking',
             bound='all (problem, energy, from, to, start, scaling) of the alphabets, additivity over intermediate positions, and matchingError for all pairs of boundary conditions',
             note=note('the angle between all pairs of positions for start vectors at, near and between zeros, and the matching angle against the eigenvalue count', COND), assumptions=[REF, BND, COND]),
 'C06': dict(deadline={'quick': 150, 'thorough': 700}, harness='c06.cpp', libs=MAT, level='model_checking',
             bound='every problem and pair of conditions of the alphabets x the eigenfunctions of indices 0-5, 9-10, 25 (thorough also 60, 61), with and without rescaled conditions; all pairs for orthogonality',
             note=note('norm, conditions, equation, continuity, zeros and orthogonality of all listed indices', COND), assumptions=[REF, BND, COND]),
 'C07': dict(harness='c07.cpp', libs=sorted(set(ALL)), level='model_checking',
             bound='all sorted sequences up to the stated length over an alphabet of positions (borders, 1 ulp beside, duplicates, ends, outside) for the four kinds of eigenfunctions',
             note='Array evaluation is compared with scalar evaluation of the same object of the real code, for every sorted sequence within the bound. Assumes: scalar evaluation is right (C06, C08, C10, C17 check it).', assumptions=[BND]),
 'C08': dict(harness='c08.cpp', libs=MAT, level='model_checking',
             bound='even potentials x xmax x builder x condition of the alphabets; all index ranges up to 7 (+17), all window pairs of a grid, all indices below 9 (20) for eigenfunctions at 15 points',
             note=note('half-range results against the reference of the full problem and against the full-range solver', COND), assumptions=[REF, BND, COND]),
 'C09': dict(harness='c09.cpp', libs=PER, level='model_checking',
             bound='all (domain, potential, builder, coupling matrix) of the alphabets: all index ranges starting at 0-5 (thorough 0-11) of length 0-4 and all windows over a grid of ends around the eigenvalues',
             note=note('index ranges and windows for periodic, antiperiodic and 12 other couplings of determinant one; simple, double and nearly double eigenvalues counted from the monodromy matrix of the reference', COND), assumptions=[REF, BND, COND]),
 'C10': dict(harness='c10.cpp', libs=PER, level='model_checking',
             bound='all (domain, potential, builder, coupling matrix, eigenvalue below index 8) of the alphabets, each eigenfunction at 9 positions and over all pairs of neighbouring ones',
             note=note('equation, coupled condition, independence and normalisation of periodic eigenfunctions', COND), assumptions=[REF, BND, COND]),
 'C11': dict(harness='c11.cpp', libs=[x for x in MAT if x != 'util/sectorbuilder'], level='model_checking',
             bound='builder code over every sequence of error classes (0, 0.001, 0.7, 50 (1e9) tolerances) and potential levels (2) for the first 3-6 sectors tried, all lists of up to 2 (3) jumps over 11 positions, uniform counts 1-9; and the real solver for all (domain, potential, tolerance, jump list) of the alphabets',
             note='The builder templates of /repo are run on a scripted problem whose error estimates and levels are chosen by the explorer, every sequence within the bound, and on the real solver. Checked: exact cover, order, jumps at borders, matching point at a lowest sector, directions, accuracy, no leak, nothing built outside the domain. Assumes: beyond the scripted sectors the error estimate behaves like a power of the step; ' + BND + '.', assumptions=[BND]),
}
CHECKS['C12'] = dict(harness='c12.cpp', libs=sorted(set(ALL + CS)), flags=['-DWITH_MATSCS'], opt='-O1', level='model_checking', deadline={'quick': 120, 'thorough': 780},
             bound='all sequences of 2 operations (3 over the core alphabet) out of 60, 70 (300) repetitions of each, all pairs on prepared objects built in both orders, and solvers built and used inside call 1, 9 or 40 of the potential; 3 (5) worlds of solvers',
             note='Every history within the bound runs on the real code; every single result is compared bit for bit with what a pristine process gets for that operation alone, and calls of the potential are counted and located. Assumes: the bit patterns a pristine process gets are right (C01-C11, C16, C17 check the values).', assumptions=[BND])
CHECKS['C13'] = dict(harness=['c13.cpp', 'c13rt.cpp'], libs=sorted(set(ALL)), harnessflags=['-fsanitize=thread'], libflags=['-fsanitize=thread'], perfile={'c13rt.cpp': ['-fno-sanitize=thread', '-fno-builtin', '-fno-tree-loop-distribute-patterns']},
                     opt='-O1', ldflags=['-rdynamic'], level='model_checking', deadline={'quick': 110, 'thorough': 780},
             bound='all pairs of 60 operations (first world; core pairs in the second) on shared objects, both starting orders, a switch at each of the first 14 (200) synchronisation points with a second one up to 4 (30) points later, and switches at function entries of core pairs; thorough: 5 worlds, two operations per thread, three threads',
             note='The sources are compiled with -fsanitize=thread against the own runtime harness/c13rt.cpp, which schedules the threads, models mutexes, once flags and static guards, and checks every access of every execution for unordered conflicts (vector clocks). Executions without synchronisation points between conflicting accesses are all equivalent to the explored ones, so absence of a race in them covers every interleaving of that pair. Results are compared bit for bit with a pristine process. Assumes: sequential consistency; library code without instrumentation (libstdc++, libc) is thread-safe as documented.', assumptions=[BND])
CHECKS['C19'] = dict(harness='c19.cpp', libs=[], opt='-O1', level='model_checking', deadline={'quick': 120, 'thorough': 780},
             variants=[dict(tag='double'), dict(tag='long', flags=['-DSCALAR=long double'], thorough_only=True), dict(tag='float', flags=['-DSCALAR=float'], thorough_only=True)],
             bound='all polynomials of degree 0-3 over the coefficients {0,1,-2,3} with one operation, and all programs of 2 (thorough 3) operations out of 32 over patterns of degree 0-4 (6) and literals of degree 0-4 built in four ways; observed: coefficients, values, all derivatives, integrals, comparison',
             note='Every program within the bound is run on the templates of /repo and on plain coefficient lists in long double; coefficients must agree exactly (integrals: to rounding). Covers all operators, aliasing, chaining and mixed degrees. Assumes: the list model of 20 lines; operations are uniform in coefficients outside the alphabet.', assumptions=[BND])
QUADF = dict(std='gnu++17', flags=['-DQUAD', '-DMATSLISE_QUADMATH'], ldflags=['-lquadmath'])
CHECKS['C20'] = dict(harness='c20.cpp', libs=[], opt='-O1', level='model_checking', deadline={'quick': 60, 'thorough': 260},
             variants=[dict(tag='double'), dict(tag='long', flags=LD + ['-DLD']), dict(tag='quad', **QUADF)],
             bound='all n 1-18 x 9 intervals x all monomials and shifted Legendre polynomials of degree below n, patterns and three degrees up to 2n-1 (integral only) x all sequences of 3 (thorough 4) calls out of 5 with copies, for double, long double and quadruple precision',
             note='Every call sequence within the bound runs on the template of /repo and is compared with exact change of variable and basis in 60-digit arithmetic; histories must give the bits of a new object. Assumes: rounding allowances proportional to the condition of the expansion; ' + BND + '.', assumptions=[BND])
CHECKS['C21'] = dict(harness='c21.cpp', libs=[], opt='-O1', level='model_checking', deadline={'quick': 60, 'thorough': 260},
             variants=[dict(tag='double'), dict(tag='long', flags=LD + ['-DLD']), dict(tag='quad', **QUADF)], ldflags=['-lquadmath'],
             bound='n=2..12 x all Z of a grid of about 3300 (thorough 19000) values of both signs: powers of two from the subnormals on, every integer up to 130 with both neighbours, steps of 1/8 (1/64) up to 130, up to 1e8 below and 4.9e5 above, for double, long double and quadruple precision; matrix variant at every Z',
             note='Every grid value is evaluated by the template of /repo and compared with 70-digit values from the power series (and closed form beyond 700; both are compared in between). Allowed: 24 units in the last place plus the conditioning of the square root, relative to the size (Z>0) or envelope (Z<0) of the function, and the error bound of the forward recursion beyond |Z|=100. ' + BND + '.', assumptions=[BND])
SLREF = 'reference model lib/slref.hpp: long-double Taylor integration in the original variable with jets of the coefficients and zero counting (independent of the library), trusted'
CHECKS['C16'] = dict(harness='c16.cpp', libs=LIO, level='model_checking', deadline={'quick': 100, 'thorough': 700},
             variants=[dict(tag='double'), dict(tag='long', flags=LD + ['-DLD'], thorough_only=True)],
             bound='all 9 p x 9 w x 5 q x 5 domains; per transformation all borders of its pieces, one ulp beside them, both ends and 40 (thorough 1000) further points x 5 vectors with derivatives; thorough also in long double',
             note='Every point of every transformation of the alphabets runs on the real code and is compared with long-double quadrature of sqrt(w/p) and with jets of the coefficients. Covers monotonicity, continuity, inverses, V and the maps of values, derivatives and energy derivatives. Assumes: the jets and quadrature of lib/slref.hpp; ' + BND + '. The transformed potential is compared to 5e-9 (1.5e-6 for domains longer than 1), the accuracy the piecewise fit of the unchanged code has.', assumptions=[SLREF, BND])
CHECKS['C17'] = dict(harness='c17.cpp', libs=LIO, level='model_checking', deadline={'quick': 120, 'thorough': 780},
             bound='all 9 p x 9 w x 5 q x 3 (thorough 5) domains x 2 (4) tolerances x 36 (81) pairs of conditions: all index ranges within [0,5), single high indices with rescaled conditions, and the first four eigenfunctions at all steps of the reference',
             note='Every execution within the bound runs on the real code. Eigenvalues are decided by counting zeros of the reference solution just below and above them; eigenfunctions are compared with the normalised reference (values, derivatives, conditions, array against single evaluation). Eigenfunctions that decay by more than e^6 over a barrier are excluded. Assumes: ' + SLREF + '; ' + BND + '.', assumptions=[SLREF, BND, COND])
CHECKS['C14'] = dict(harness='c14.cpp', libs=sorted(set(ALL + CS)), flags=['-DWITH_MATSCS'], opt='-O1', level='fault_enumeration', deadline={'quick': 100, 'thorough': 450},
             variants=[dict(tag='guard'), dict(tag='asan', flags=['-DWITH_MATSCS', '-fsanitize=address'], thorough_only=True, env={'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=1:alloc_dealloc_mismatch=0:handle_segv=0:handle_abort=0'})],
             ldflags=['-Wl,--wrap=malloc', '-Wl,--wrap=free', '-Wl,--wrap=realloc'],
             rule='one case is one (setting, object or query, kind of fault, place of the fault): every single call of a user function and every single allocation of the fault-free run is a place; a case is non-trivial when the fault was reached and its effect observed (all cases are: places are numbered from the fault-free run); distinct by (setting, operation, place, outcome)',
             bound='5 settings x 11 constructions x every call of the user functions x 3 exception types and every allocation x {once, from then on}; all 55 queries x every allocation x {once, from then on}; all operations with a fault at the 1st, 2nd, 3rd, middle and last call followed by a second fault',
             note='Every case runs on the real code with its own operator new/malloc. Decided: the exception that reaches the caller (type and identity), balance of allocations, double frees and use of freed memory, and that the repeated operation and neighbouring objects give the bits of the fault-free run. Assumes: places are counted on a fault-free run of the same operation (runs are deterministic, C12); failures inside libstdc++ itself are not injected.', assumptions=[BND])
CHECKS['C15'] = dict(harness='c15.cpp', libs=sorted(set(ALL + CS)), flags=['-DWITH_MATSCS'], opt='-O1', level='model_checking', deadline={'quick': 100, 'thorough': 700},
             bound='3 (thorough 5) settings; all index ranges with both ends in [-3,4] ([-3,6]) for 9 requests x 3 conditions; all pairs of 6 window ends; all pairs of 17 positions (inside, at and one ulp outside the ends, far outside, infinite, NaN) for 8 propagators x 2 energies x use_h; all sequences of up to 4 (5) of 7 points, sorted or not; all pairs of 5 conditions for 7 requests through two types; all histories valid - refused - refused - valid over 60 x 18 x 2 (18) x 24 requests',
             note='Every request within the bound runs on the real code; a request must be refused with a std::exception exactly when it is outside the contract, and every later operation must give the bits a pristine process gets. Periodic index ranges may also be answered with their valid part. Assumes: results of a pristine process are right (C01-C11 check them).', assumptions=[BND])
CHECKS['C18'] = dict(harness='c18.cpp', libs=sorted(set(MAT + CS)), flags=['-DWITH_MATSCS'], opt='-O1', level='model_checking', deadline={'quick': 110, 'thorough': 780},
             bound='3 (thorough 4) domains x 7 (12) matrix potentials of 1 to 3 (4) equations, decoupling, truly coupled, degenerate and discontinuous x 4 builders x 4 (6) energies x all pairs of 9-13 (up to 21) positions at, beside and between borders x 4 (6) matrices of initial values x both use_h; for each: propagate, propagateColumn with 1, n-1, n and n+2 columns, propagatePsi, the angle, and detours over every third position',
             note='Every case of the bounded space runs on the real code and is compared with a long double Taylor solution of the coupled system and its energy derivative; the angle is compared with twice the continuous change of arg det(Y\' + iY) followed along the reference. Excluded: ill-conditioned excursions within a sector, angles that the accuracy does not determine. Assumes: the reference; ' + BND + '.', assumptions=['the long double Taylor reference inside harness/c18.cpp', BND])
QREF = 'reference model lib/ref.hpp in quadruple precision (Taylor of order 52), trusted'
CHECKS['C22'] = dict(harness='c22.cpp', libs=sorted(set(PER)), opt='-O1', level='model_checking', deadline={'quick': 110, 'thorough': 350}, std='gnu++17', ldflags=['-lquadmath'],
             variants=[dict(tag='long', flags=LD), dict(tag='quad', flags=['-DQUAD', '-DMATSLISE_QUADMATH'])],
             bound='long double and quadruple precision x 2 (thorough 4) domains x 6 (13) polynomial and discontinuous potentials x 3 tolerances down to 1e-16 and 1e-25 x {eigenvalues 0-2, 4-6, 30-32 by index and window, flow with derivatives and angle between all pairs of positions x 3 energies x use_h, eigenfunctions 0-3 at 7 points, half-range, 3 coupled conditions, agreement with double} x 9 (25) pairs of conditions',
             note='Every case of the bounded space runs on the code instantiated for the wider types and is compared with a quadruple precision Taylor solution; the allowed error is 20 tolerances, so any intermediate result rounded to double (1e-16) is seen at the tolerances 1e-16, 1e-18 and 1e-25. Sturm-Liouville problems are not included (their transformation is fitted to 1e-14 by design). Assumes: ' + QREF + '; ' + BND + '.', assumptions=[QREF, BND])

CHECKS['C23'] = dict(harness='c23.cpp', libs=LIO, level='model_checking', deadline={'quick': 120, 'thorough': 700},
             bound='every problem, builder and pair of conditions of the alphabets (also half-range and Sturm-Liouville) x indices 0-4, 9, 25 (thorough also 5-8, 40, 60) x 12 values of E at, near and between the eigenvalues x index given or left out x 6 rescalings; sectors so coarse that the error exceeds 1e-7: the estimate is at least 1/40 of it',
             note=note('the error estimate of all three solvers at and beside every listed eigenvalue', COND), assumptions=[REF, SLREF, BND, COND])
CHECKS['C24'] = dict(harness='c24.cpp', libs=ALL, level='model_checking', deadline={'quick': 120, 'thorough': 780},
             bound='all elements mirror (2) x scale (3, thorough 5) x translate (3, 4) x shift (3, 4) of the symmetry group x rescaled conditions (3), on every problem, builder and pair of conditions of the alphabets; half-range: scale x shift x factor; coupled conditions: the group x rotation of the period; Sturm-Liouville: pairs (thorough all) of mirror, translate, scale, common factor, factor of w, shift',
             note='Every transformed problem within the bound is solved by the real code and compared with the transformed answers of the original: indices exactly, eigenvalues within 2e-7 relative (1e-4 at tolerance 1e-5), windows, matching angle, propagation with derivatives and angles, eigenfunctions with their normalisation. Assumes: C01-C10 decide that the answers for the original are right; ' + BND + '; ' + COND + '.', assumptions=[BND, COND])
CHECKS['C26'] = dict(harness='c26.cpp', libs=ALL, level='model_checking', deadline={'quick': 120, 'thorough': 600},
                     bound='every constructor of every solver (full, half-range, coupled) x domain x potential x tolerance x coupling x pair of conditions (9, thorough 16) x 6 kinds of query with index range start 0-3 and length 0-3 x overload (two conditions, one, with and without the index, through the base); two columns against one by one; Sturm-Liouville values against pairs; transformations copied in 3 ways',
                     note='Every constructor, overload and combined query within the bound is asked the same question and the answers are compared bit for bit; the estimated minimum of the potential is compared with the least exact mean over the sectors and destruction through the base class with a count of living copies of the potential. Assumes: the other properties decide that the common answer is right; ' + BND + '.', assumptions=[BND])
CHECKS['C27'] = dict(harness='c27.cpp', libs=[], opt='-O1', level='model_checking', deadline={'quick': 120, 'thorough': 780},
                     variants=[dict(tag='double'), dict(tag='long', flags=['-DSCALAR=long double'], thorough_only=True)],
                     bound='all programs of up to 3 (thorough 4) operations out of 19 on solutions of 11 shapes (1-3 equations, 1-3 columns, fixed and dynamic sizes) from 2-4 start values; all observers after every operation; every pair of 12 values for the angle of a line',
                     note='Every program within the bound is run on the templates of /repo and on plain tables of numbers in long double: products and inverses of transfer matrices with their energy derivatives, linear combinations of columns and of components, views, columns, comparison. Assumes: the table model; the operations are uniform in entries outside the alphabet; transfer matrices of one equation have determinant 1 at every E (the contract of the solver).', assumptions=[BND])
CHECKS['C28'] = dict(harness='c28.cpp', libs=sorted(set(MAT + CS)), flags=['-DWITH_MATSCS'], opt='-O1', level='model_checking', deadline={'quick': 120, 'thorough': 700},
                     bound='scalar and matrix sectors: 6 intervals (1e-13 to 1 long) x 5-6 potentials x first direction x all sequences of up to 4 (thorough 6) changes of direction, every observable at 6 energies; flow of scalar sectors: 2 directions x 6 energies x 3 start vectors x all pairs and triples of 9 positions inside, at, one ulp inside and outside the borders',
                     note='Every sequence of setDirection within the bound is run and all observables (coefficients, transfer matrices, propagation, angles, psi, error) compared bit for bit with a newly built sector of that direction; composition, reversal, determinant 1, clamping and the agreement of both directions are checked to 1e-11. Assumes: the truncation of the formulas is negligible for the smooth potentials and lengths of the alphabet (measured: 1 % of the tolerance); ' + BND + '.', assumptions=[BND])
CHECKS['C29'] = dict(harness='c29.cpp', libs=PER, level='model_checking', deadline={'quick': 240, 'thorough': 700},
                     bound='18 potentials (jumps, kinks, narrow wells and walls, spikes, near singularities, fast oscillation, constants of 1e-13 to 1e7, barriers behind which solutions grow up to e^1500) x domains [0,1], [-2e-3,1e-3], [0,60], [1000,1001] x tolerances 1e-3 to 1e-11 x jumps announced or not x 6 (16) pairs of conditions x 6 index ranges up to index 42 x 4 scalings of the conditions (1e-100 to 1e120)',
                     note='Every combination is solved by the real code. The answer has exactly the indices asked for, finite and in order, and every eigenvalue is compared with that of an independent power series reference (long double; where a jump is not announced only 1 %, where a narrow feature is not announced only the form). Behind strong barriers also the windows, the norm and zeros of eigenfunctions and the periodic eigenvalues. Assumes: ' + BND + '; the reference is exact to 1e-9.', assumptions=[BND])
