#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below and from checks.py (run it after editing either)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks import CHECKS

M, F = 'matslise/matslise/', 'matslise/'
mech = lambda *a: [dict(name=n, where=w) for n, w in a]
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe=None):
    a = dict(files=files, mechanism=mechanism)
    if observe: a['observe_at'] = observe
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))


prop('C01', 'eigenvalues by index: complete, correctly numbered and accurate',
     'For every Schrödinger problem with separated boundary conditions, Matslise::eigenvaluesByIndex(Imin, Imax, left, right) returns exactly the pairs (i, E_i) for i = Imin..Imax-1 in increasing order, and each E_i is the i-th eigenvalue of -y\'\'+V y=E y (the one with exactly i eigenvalues below it) within the requested tolerance. This includes near-degenerate pairs, negative eigenvalues, discontinuous potentials whose jumps were announced, and any non-zero scaling of the boundary values.',
     ['inputs', 'configurations'], 'every potential, domain, pair of boundary conditions (y,y\') up to scaling, tolerance/sector partition and index range',
     'The tests check a few benchmark problems with one or two boundary conditions and index ranges each; completeness and numbering must hold for every combination.',
     [M + 'matslise.cpp', M + 'sector.cpp', M + 'matslise_formulas.cpp'], mech(('bisection on the matching angle and Newton refinement', M + 'matslise.cpp'), ('Prüfer angle', M + 'sector.cpp')), ['Matslise::eigenvaluesByIndex'])
prop('C02', 'eigenvalues in an energy window: none missing, none extra',
     'Matslise::eigenvalues(Emin, Emax, left, right) returns exactly the eigenvalues inside the window, each with its true index, in consecutive increasing order; an empty or inverted window returns an empty list. Splitting a window into adjacent parts, or asking for the same eigenvalues by index, gives the same indices and, within the tolerance, the same values.',
     ['inputs', 'configurations'], 'every problem as in C01 and every window, including windows far below the spectrum, windows between and next to eigenvalues, and windows covering many eigenvalues',
     'The tests use a handful of windows; an eigenvalue lost at a window edge or only when a window is split in a particular way does not show.',
     [M + 'matslise.cpp'], mech(('computeEigenvaluesHelper', M + 'matslise.cpp')), ['Matslise::eigenvalues'])
prop('C03', 'propagation is the exact flow of the equation',
     'Matslise::propagate(E, y, a, b) maps (y,y\') at a to the values at b of the solution of -y\'\'+V y=E y, for all a and b in the domain in either order, within an error that matches the tolerance the partition was built for. It is the identity for a=b, and propagating over a to b to c equals propagating from a to c.',
     ['inputs', 'configurations'], 'every potential, partition, energy (below, equal to and far above the potential), pair of points (sector borders, one ulp beside them, inside sectors of both directions) and initial values, with and without the step formulas (use_h)',
     'The tests compare propagation only through eigenvalues and a few eigenfunctions.',
     [M + 'matslise.cpp', M + 'sector.cpp', M + 'matslise_formulas.cpp', F + 'util/calculateEta.h', F + 'util/y.h'], mech(('coefficient perturbation formulas', M + 'matslise_formulas.cpp'), ('sector traversal', M + 'matslise.cpp')), ['Matslise::propagate', 'Matslise::Sector::propagate', 'Matslise::Sector::calculateT'])
prop('C04', 'energy derivatives carried by propagation are exact',
     'The derivatives with respect to E that Matslise::propagate carries along (blocks dE and dXdE of the result) equal the derivatives of the exact flow, also when the initial values themselves depend on E. The derivative that matchingError returns is the derivative of the matching error it returns.',
     ['inputs', 'configurations'], 'as in C03, for every initial value and initial derivative', 'No test looks at the derivatives; a wrong one only slows Newton\'s iteration down or spoils error estimates.',
     [M + 'matslise.cpp', M + 'sector.cpp', M + 'matslise_formulas.cpp', F + 'util/y.h'], mech(('dt part of the transfer matrices', F + 'util/y.h'), ('calculateDeltaT/calculateTcoefficients', M + 'matslise_formulas.cpp')), ['Matslise::propagate', 'Matslise::matchingError'])
prop('C05', 'the Prüfer angle counts the zeros of the solution',
     'The angle returned by Matslise::propagate grows by exactly pi for every zero of the solution passed from a to b (and decreases accordingly from right to left), is independent of a non-zero scaling of the initial values and adds up over consecutive stretches. The angle returned by matchingError divided by pi, rounded up, is the number of eigenvalues below E and is an integer at an eigenvalue.',
     ['inputs', 'configurations'], 'every potential, partition, energy, pair of points and initial values including zeros and extrema at sector borders',
     'The existing tests check a few smooth paths; the counting must hold where a solution touches zero or an extremum exactly at a border, in barriers and at coarse partitions.',
     [M + 'sector.cpp', M + 'matslise.cpp', F + 'util/theta.h'], mech(('prufer', M + 'sector.cpp'), ('matchingError', M + 'matslise.cpp')), ['Matslise::propagate', 'Matslise::matchingError'])
prop('C06', 'eigenfunctions are normalised, orthogonal solutions with index zeros',
     'Every eigenfunction returned by eigenfunction or eigenpairsByIndex solves the equation, satisfies both boundary conditions, is continuous with its derivative over the matching point, has L2 norm 1 and, for index n, exactly n zeros inside the domain. Eigenfunctions of different indices are orthogonal; the second component returned is the derivative of the first.',
     ['inputs', 'configurations'], 'every problem, boundary condition (any scaling), index and evaluation point', 'The tests compare a few functions against closed forms on grids.',
     [M + 'matslise.cpp', M + 'sector.cpp'], mech(('Eigenfunction of Matslise, normalisation by the energy derivative', M + 'matslise.cpp')), ['Matslise::eigenfunction', 'AbstractMatslise::eigenpairsByIndex'])
prop('C07', 'scalar and array evaluation of an eigenfunction agree',
     'Evaluating an eigenfunction (full-range, half-range, periodic or Sturm-Liouville) at an array of points gives, row by row, what evaluating it at each single point gives, whatever the number and spacing of the points, for sorted points including duplicates, sector borders and the domain ends. Outside the domain both give zero.',
     ['inputs', 'histories'], 'every sorted sequence of points (duplicates, borders, neighbours one ulp apart, points outside the domain, empty and single-point arrays) and every earlier evaluation', 'The tests evaluate on uniform grids.',
     [M + 'matslise.cpp', M + 'halfrange.cpp', M + 'periodic.cpp', F + 'liouville/sturm_liouville.cpp'], mech(('array evaluation walks the sectors once', M + 'matslise.cpp')), ['Eigenfunction::operator()'])
prop('C08', 'the half-range solver equals the full-range solver',
     'For an even potential on [-xmax, xmax] with the same condition on both sides, MatsliseHalf returns the eigenvalues, indices, error estimates and (up to sign) normalised eigenfunctions with derivatives that Matslise returns for the full interval. Even indices give even functions and odd indices odd functions.',
     ['inputs', 'configurations'], 'every even potential, xmax, boundary condition, tolerance/partition, index range, energy window and evaluation point of either sign', 'The tests use the half-range solver on a few potentials with Dirichlet conditions.',
     [M + 'halfrange.cpp'], mech(('merge of the even and the odd half problem', M + 'halfrange.cpp')), ['MatsliseHalf::*'])
prop('C09', 'periodic and coupled boundary conditions: spectrum with multiplicity',
     'PeriodicMatslise::eigenvaluesByIndex and eigenvalues return, for the coupling (y,y\')(xmax) = K (y,y\')(xmin) with det K = 1 (periodic: K=I, antiperiodic: K=-I), every eigenvalue once together with its index (the number of eigenvalues below it counted with multiplicity) and its multiplicity 1 or 2, in increasing order and within the tolerance. The listed eigenvalues are exactly those whose indices, respectively values, fall in the requested range.',
     ['inputs', 'configurations'], 'every potential, domain, coupling matrix of determinant one, index range and energy window', 'Two test problems with K=I only.',
     [M + 'periodic.cpp'], mech(('counting eigenvalues through the Dirichlet-type angle and the discriminant', M + 'periodic.cpp')), ['PeriodicMatslise::eigenvaluesByIndex', 'PeriodicMatslise::eigenvalues', 'PeriodicMatslise::matchingError'])
prop('C10', 'periodic eigenfunctions satisfy the coupled boundary condition',
     'The eigenfunctions of PeriodicMatslise (eigenfunction, eigenpairs, eigenpairsByIndex) solve the equation over the whole domain and satisfy (y,y\')(xmax) = K (y,y\')(xmin). A double eigenvalue comes with two linearly independent functions, a simple one with one.',
     ['inputs', 'configurations'], 'every potential, domain, coupling matrix and eigenvalue', 'The tests never evaluate a periodic eigenfunction with a non-trivial K.',
     [M + 'periodic.cpp'], mech(('null space of the coupled matching matrix', M + 'periodic.cpp')), ['PeriodicMatslise::eigenfunction', 'PeriodicMatslise::eigenpairs*'])
prop('C11', 'sector builders partition the domain and respect jumps',
     'Every sector builder returns a non-empty, gapless, ordered partition of exactly the requested domain with a matching sector inside it; the uniform builder returns the requested number of equal sectors, and the automatic builder puts a sector border at every announced jump inside the domain and ignores jumps outside it, duplicates and their order. The automatic builder refines until the estimated error of every sector is below the tolerance or the sector is as short as it allows, and terminates for every list of jumps. The matching point borders a sector with the lowest mean potential.',
     ['inputs', 'configurations'], 'every potential, domain, sector count, tolerance and list of jumps (unsorted, repeated, at the ends, outside)', 'The tests build partitions for a few potentials and never inspect them.',
     [F + 'util/sectorbuilder.cpp', F + 'util/sectorbuilder.h'], mech(('UniformSectorBuilder, AutomaticSectorBuilder', F + 'util/sectorbuilder.cpp')), ['Matslise::sectors', 'Matslise::matchIndex'])
prop('C12', 'queries are pure: history-independent and never call the potential',
     'After construction no query (eigenvalues, eigenfunctions, error estimates, propagation) calls the potential again, and during construction the potential is only called at points inside the domain. The result of every query is bit for bit the same whatever queries were made before, in whatever order, on this or other solver objects.',
     ['histories', 'inputs'], 'every sequence of queries on one or more solver objects, including constructing another solver from inside the potential', 'The tests run queries in one fixed order.',
     [M + 'matslise.cpp', M + 'halfrange.cpp', M + 'periodic.cpp', F + 'liouville/liouville.cpp'], mech(('const queries over immutable sectors', F + 'matslise.h')), ['all query methods'])
prop('C13', 'one solver may be queried from several threads at once',
     'Concurrent queries on the same solver object (or on different ones) from several threads give exactly the results the same queries give alone, without data races, in every interleaving. This includes evaluating one eigenfunction object from several threads.',
     ['schedules'], 'every interleaving of queries of several threads', 'No test uses threads.',
     [M + 'matslise.cpp', M + 'sector.cpp', M + 'halfrange.cpp', F + 'util/legendre.h'], mech(('const methods without shared mutable state', F + 'matslise.h')), ['all query methods'])
prop('C14', 'exceptions and allocation failures propagate cleanly',
     'If the potential (or p, q, w) throws at any call, or any allocation fails, the exception reaches the caller unchanged, nothing leaks, and objects that existed before stay usable and give the same results as before. Repeating the failed operation without the fault gives the normal result.',
     ['fault_sequences'], 'every call of a user function and every allocation in constructions and queries', 'No test injects a fault.',
     [F + 'util/sectorbuilder.cpp', M + 'matslise.cpp', F + 'liouville/liouville.cpp'], mech(('RAII ownership of sectors', F + 'util/sectorbuilder.cpp')), ['constructors', 'queries'])
prop('C15', 'invalid requests are rejected and leave the solver usable',
     'Requests outside a method\'s contract that the library detects (different conditions on both sides for the half-range solver, negative indices, unsorted points for array evaluation of a half-range eigenfunction, points outside the domain for propagation) are reported by an exception instead of a wrong answer, and degenerate but legal requests (empty ranges, equal points) return empty or trivial results. Either way every later query on the same object gives the same result as before.',
     ['histories', 'inputs'], 'every sequence of valid and invalid requests', 'One test checks one exception.',
     [F + 'matslise.h', M + 'matslise.cpp', M + 'halfrange.cpp'], mech(('checkSymmetry and range checks', F + 'matslise.h')), ['all query methods'])
prop('C16', 'the Liouville transformation is a bijection with exact inverses',
     'LiouvilleTransformation maps the original domain monotonically and continuously onto xDomain() with x(r) the integral of sqrt(w/p), r2x and x2r are inverse to each other, and z2y and y2z (values, derivatives and energy derivatives) are inverse to each other and follow the chain rule of the transformation. V(x) is the transformed potential q/w plus the correction of the transformation.',
     ['inputs', 'configurations'], 'every p, w > 0 and q that are smooth, every domain and every point including the ends and the borders between pieces', 'One test checks one transformation in a few points.',
     [F + 'liouville/liouville.cpp', F + 'liouville.h'], mech(('piecewise polynomial r2x and its inverse', F + 'liouville/liouville.cpp')), ['LiouvilleTransformation::*'])
prop('C17', 'Sturm-Liouville eigenvalues and eigenfunctions are right',
     'SturmLiouville::eigenvaluesByIndex and eigenpairsByIndex return the eigenvalues of -(p y\')\'+q y = E w y with boundary conditions given by value and derivative (y, y\') of the original variable, completely and with the right index. The eigenfunctions satisfy the equation and the boundary conditions in the original variable and have weighted norm 1.',
     ['inputs', 'configurations'], 'every smooth p, w > 0 and q, domain, boundary conditions and index range', 'The Klotter problem and two others with Dirichlet conditions.',
     [F + 'liouville/sturm_liouville.cpp', F + 'liouville/liouville.cpp', F + 'liouville.h'], mech(('transformation of conditions and of the eigenfunction', F + 'liouville/sturm_liouville.cpp')), ['SturmLiouville::*'])
prop('C18', 'systems of coupled equations are propagated exactly',
     'Matscs::propagate, propagateColumn and propagatePsi map the values at a of solutions of the coupled system -y\'\'+V(x) y=E y to those at b, in both directions, for full and partial sets of columns and consistently with each other. A system that decouples after a constant rotation gives the rotated solutions of the scalar problems, including energy derivatives; the angle returned grows with the zeros of the determinant.',
     ['inputs', 'configurations'], 'every symmetric matrix potential, dimension, partition, energy, pair of points and initial value', 'Two tests on one problem each.',
     [F + 'matscs/matscs.cpp', F + 'matscs/sector.cpp', F + 'matscs/matscs_formulas.cpp'], mech(('matrix coefficient perturbation formulas', F + 'matscs/matscs_formulas.cpp'), ('propagateDelta', F + 'matscs/sector.cpp')), ['Matscs::propagate', 'Matscs::propagateColumn', 'Matscs::propagatePsi'])
prop('C19', 'polynomial arithmetic obeys the ring, calculus and evaluation laws',
     'For all coefficients and points, sums, differences, products, scalar operations, compound assignments, unary signs, comparison, derivative<d> and integral of Polynomial equal their mathematical meaning: they commute with evaluation, and derivative of the integral is the polynomial itself. This holds for every combination of degrees, including degree 0 and different degrees on both sides.',
     ['inputs', 'programs'], 'every sequence of operations on polynomials of every small degree', 'A few operations on fixed polynomials are tested.',
     [F + 'util/polynomial.h'], mech(('operator templates', F + 'util/polynomial.h')), ['Polynomial'])
prop('C20', 'Legendre expansion is exact on polynomials',
     'Legendre<Scalar,n> of a polynomial of degree below n on [a,b] integrates it exactly, has its shifted-Legendre expansion coefficients and asPolynomial() returns the polynomial itself in the variable scaled to [0,1], for every n and scalar type provided. The results do not depend on the order or number of the calls.',
     ['inputs', 'histories', 'configurations'], 'every polynomial up to the degree, interval, n and call order', 'The tests check some functions for some n.',
     [F + 'util/legendre.h', F + 'util/legendre_data.h'], mech(('nodes, weights and coefficient tables', F + 'util/legendre_data.h')), ['matslise::legendre::Legendre', 'matslise::legendre::getCoefficients'])
prop('C21', 'the eta functions are accurate everywhere',
     'calculateEta<Scalar,n>(Z) returns the functions eta_{-1}(Z), eta_0(Z), ... eta_{n-2}(Z) of the coefficient perturbation method to working accuracy for all Z of either sign; where the method of evaluation changes (|Z|=100) the values join to within the rounding errors of the forward recursion. The matrix variant agrees with the scalar one.',
     ['inputs', 'configurations'], 'every Z (zero, tiny, around the switch at |Z|=100 and large of both signs), every n used and every scalar type', 'A few values are tested.',
     [F + 'util/calculateEta.h'], mech(('series, recursion and asymptotic form', F + 'util/calculateEta.h')), ['calculateEta'])
prop('C22', 'higher-precision scalar types give higher precision',
     'Instantiated for long double (and quadruple precision) the solver gives the same eigenvalues, indices, propagation and eigenfunctions as for double, only more accurate: at a tolerance double cannot reach the errors actually drop accordingly. No intermediate result is rounded to double.',
     ['configurations', 'inputs'], 'every scalar type, problem and tolerance', 'The tests are normally built for double only.',
     [M + 'matslise.cpp', M + 'matslise_formulas.cpp', F + 'util/legendre_data.h', F + 'util/constants.h'], mech(('template instantiations', F + 'util/instantiate.h')), ['all of Matslise for long double'])
prop('C23', 'eigenvalueError bounds are finite, small and meaningful',
     'For E at or near an eigenvalue eigenvalueError(E, left, right, index) is finite, non-negative and independent of the scaling of the conditions. For an eigenvalue returned by the solver it is at most of the order of the tolerance and not smaller than the true error by more than a fraction of the tolerance; when E is moved off the eigenvalue it is the distance to the eigenvalue. This holds for the full-range, half-range (index given or left out) and Sturm-Liouville versions alike.',
     ['inputs', 'configurations'], 'every problem, eigenvalue, index argument (given or left out) and perturbation of E', 'The tests only check that it is below a bound for a few eigenvalues.',
     [M + 'matslise.cpp', M + 'halfrange.cpp', F + 'liouville.h'], mech(('comparison with the full-order propagation', M + 'matslise.cpp')), ['eigenvalueError'])
prop('C24', 'the spectrum is invariant under the symmetries of the equation',
     'Mirroring the problem (x to -x with exchanged boundary conditions), translating it, scaling it (x to x/s with V and E scaled by s^2), and adding a constant to V (with E shifted), also combined, changes the returned indices not at all and the eigenvalues, eigenfunctions and angles only as the symmetry prescribes, within the tolerance. Boundary values scaled by any non-zero factor, also negative, give the same results. The same holds for the half-range solver (scaling and shifting), for coupled conditions (also when the period of a periodic problem starts elsewhere) and for Sturm-Liouville problems (also when p, q and w share a factor).',
     ['inputs', 'configurations'], 'every problem and every composition of the symmetries', 'No test compares a problem with a transformed copy.',
     [M + 'matslise.cpp', M + 'sector.cpp', F + 'util/sectorbuilder.cpp'], mech(('sectors of both directions', M + 'sector.cpp')), ['all query methods'])
prop('C25', 'the Python and JavaScript bindings return what the C++ library returns',
     'Every call of the pyslise module and of the JavaScript module returns the same values, indices and exceptions as the corresponding C++ call.',
     ['inputs', 'programs'], 'every call through the bindings', 'The binding tests cover a few calls and are not built here.',
     ['matslise/pyslise/pyslise.cpp', 'matslise/pyslise/pyscs.cpp', 'matslise/pyslise/sturm_liouville.cpp', 'matslise/js/matslise.cpp', 'matslise/js/sturm_liouville.cpp'], mech(('pybind11 / embind wrappers', 'matslise/pyslise/pyslise.cpp')), ['pyslise', 'matslise.js'])
prop('C26', 'the same question has the same answer through every constructor, overload and combined query',
     'A solver built with any of its constructors (two ends or a domain, default or explicit tolerance, sector builder and coupling matrix) is the same solver; it keeps its domain, tolerance and potential, and is released completely also through its base class. Giving one boundary condition means giving it twice; eigenpairs are the eigenvalues and the eigenfunctions; leaving out the index of an isolated eigenvalue changes neither its error nor its eigenfunction; two solutions propagated at once are the two propagated alone; a copy of a Liouville transformation is that transformation; the half-range solver refuses two different conditions in every query; estimatePotentialMinimum is the least mean of the potential over the sectors.',
     ['inputs', 'configurations'], 'every constructor, overload and query', 'Tests use one constructor and one overload each.',
     [M + 'abstract_matslise.cpp', M + 'matslise.cpp', M + 'halfrange.cpp', M + 'periodic.cpp', F + 'matslise.h', F + 'liouville.h'], mech(('default arguments and overloads of the interface', F + 'matslise.h')), ['constructors', 'all query methods'])
prop('C27', 'solutions and transfer matrices form the algebra of a linear flow',
     'For every number of equations and columns, fixed or dynamic: T*y applies a transfer matrix to value and derivative and, by the product rule, to their energy derivatives, T/y is its exact inverse (T/(T*y) = y), multiplication from the right combines solutions and from the left components, scalar factors, unary minus, reverse, columns, block views, Dirichlet and Neumann start values, comparison and the angle of a solution act on exactly the entries they name and on all of them.',
     ['inputs', 'programs'], 'every program of operations on solutions of every shape', 'Only the operations the solvers happen to use on 2x1 blocks are exercised by tests.',
     [F + 'util/y.h', F + 'util/theta.h'], mech(('operator templates', F + 'util/y.h')), ['Y', 'T'])
prop('C28', 'a sector is a reversible flow and does not remember its former directions',
     'A sector of a scalar or matrix problem is determined by its interval, potential and current direction: after any sequence of setDirection it is identical to one built in that direction. Its transfer matrices have determinant 1, no step is the identity and the full step is the step h; propagation and angles compose over intermediate positions, are undone by going back, do not depend on the direction of the sector, on asking for the angle or on a second column, and treat positions outside the sector as its border. error() is finite and not negative; compare orders by the mean.',
     ['histories', 'inputs'], 'every sequence of changes of direction and all positions', 'Sectors are only tested through whole solvers built once.',
     [M + 'sector.cpp', 'matslise/matscs/sector.cpp'], mech(('setDirection and calculateTCoeffs', M + 'sector.cpp'), ('propagateDelta', M + 'sector.cpp')), ['Matslise::Sector', 'Matscs::Sector'])

prop('C29', 'hard problems are answered completely and correctly, not quietly wrong',
     'Whatever the shape and scale of the problem - potentials with announced jumps, kinks, narrow wells, high walls, spikes, near singularities or fast oscillation, huge or tiny constants, very short, long or shifted domains, loose or tight tolerances, conditions scaled by any factor, barriers behind which solutions grow beyond the largest number - eigenvaluesByIndex(i, j) answers in finite time with exactly the eigenvalues i to j-1, finite, in order and, unless a jump or narrow feature was not announced, within the tolerance. The same problems give normalised eigenfunctions with as many zeros as their index, complete windows and correct periodic eigenvalues.',
     ['inputs'], 'every combination of a wild potential, scale, tolerance, condition and index range', 'The tests use smooth, well scaled problems. A lost or wrong eigenvalue is silent: only an independent reference on every combination of scales shows it.',
     [M + 'matslise.cpp', M + 'periodic.cpp', 'matslise/util/sectorbuilder.cpp', M + 'sector.cpp'], mech(('computeEigenvaluesHelper and eigenvaluesBelow', M + 'matslise.cpp'), ('limitGrowth', M + 'matslise.cpp'), ('automaticNextSector and splitSteepSectors', 'matslise/util/sectorbuilder.cpp')), ['Matslise::eigenvaluesByIndex', 'Matslise::eigenvalues', 'Matslise::eigenfunction', 'PeriodicMatslise::eigenvaluesByIndex'])

NA = {'C25': 'pybind11 and emscripten are not installed and cannot be fetched, so the bindings cannot be built or executed here; nothing could be explored.'}
TECH = 'stateless explicit-state model checking: exhaustive depth-first exploration of bounded choice trees of the real code against a reference model'


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P: f.write(json.dumps(p, ensure_ascii=False) + '\n')
    checks, na = [], []
    for p in P:
        id = p['id']
        if id in CHECKS:
            s = CHECKS[id]
            checks.append(dict(property=id, quick_cmd='python3 run.py %s' % id, thorough_cmd='python3 run.py %s --tier thorough' % id,
                               technique=s.get('technique', TECH), level=s['level'], level_note=s['note']))
        else:
            na.append(dict(property=id, reason=NA.get(id, 'no check yet')))
    json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
                   notes='Every check compiles the sources of /repo itself and explores the compiled code; see DESIGN.md.'),
              open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)


main()
