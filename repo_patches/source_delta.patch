From e45af91a9c6334d2c8ba66fdf98733c45313728b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:57 +0000
Subject: [PATCH 01/35] fix: keep an eigenvalue that coincides with a bracket
 end while bisecting

---
 matslise/matslise/matslise.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matslise/matslise/matslise.cpp b/matslise/matslise/matslise.cpp
index 770d1b3..c25caa4 100644
--- a/matslise/matslise/matslise.cpp
+++ b/matslise/matslise/matslise.cpp
@@ -127,7 +127,7 @@ computeEigenvaluesHelper(const Matslise<Scalar> *ms, Scalar Emin, Scalar Emax, i
             } else {
                 if (abs(tc - ia) < 1e-8)
                     eigenvalues.push_back(newtonIteration<Scalar>(ms, c, left, right, true));
-                else if ((ta - ia) * (tc - ia) < 0)
+                else if ((ta - ia) * (tc - ia) <= 0)
                     toCheck.push(make_tuple(a, ta, c, tc, depth + 1));
                 else
                     toCheck.push(make_tuple(c, tc, b, tb, depth + 1));
-- 
2.43.0


From b8f3c25d9ed8fd9bae962344eec8d971d727ef8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:05 +0000
Subject: [PATCH 02/35] fix: report the index of the bracket an eigenvalue was
 found in

The rounded matching angle at the converged energy is off by one when the
angle is steep (eigenfunctions living behind a barrier).
---
 matslise/matslise/matslise.cpp | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/matslise/matslise/matslise.cpp b/matslise/matslise/matslise.cpp
index c25caa4..f412885 100644
--- a/matslise/matslise/matslise.cpp
+++ b/matslise/matslise/matslise.cpp
@@ -58,12 +58,12 @@ Matslise<Scalar>::matchingError(const Scalar &E, const Y<Scalar> &left, const Y<
 }
 
 template<typename Scalar>
-pair<int, Scalar>
+Scalar
 newtonIteration(const Matslise<Scalar> *ms, Scalar E, const Y<Scalar> &left, const Y<Scalar> &right, bool use_h) {
-    Scalar adjust, error, derror, theta;
+    Scalar adjust, error, derror;
     int i = 0;
     do {
-        tie(error, derror, theta) = ms->matchingError(E, left, right, use_h);
+        tie(error, derror, ignore) = ms->matchingError(E, left, right, use_h);
         adjust = error / derror;
         E -= adjust;
     } while (++i < 20 && abs(adjust) > ms->tolerance);
@@ -72,10 +72,7 @@ newtonIteration(const Matslise<Scalar> *ms, Scalar E, const Y<Scalar> &left, con
         // cerr << "Newton-iteration did not converge for E=" << (double) E << endl;
     }
 
-    int index = (int) round(theta / constants<Scalar>::PI);
-    if (index < 0)
-        index = 0;
-    return make_pair(index, E);
+    return E;
 }
 
 template<typename Scalar>
@@ -116,7 +113,7 @@ computeEigenvaluesHelper(const Matslise<Scalar> *ms, Scalar Emin, Scalar Emax, i
             ? .5 * (a + b)
             : ((tb - ia) * a - (ta - ia) * b) / (tb - ta);
         if ((tb - ta < 0.01 && depth > 3) || depth > 30) {
-            eigenvalues.push_back(newtonIteration<Scalar>(ms, c, left, right, true));
+            eigenvalues.emplace_back(ia, newtonIteration<Scalar>(ms, c, left, right, true));
         } else {
             tc = get<2>(ms->matchingError(c, left, right)) / constants<Scalar>::PI;
             if (isnan(tc)) {
@@ -126,7 +123,7 @@ computeEigenvaluesHelper(const Matslise<Scalar> *ms, Scalar Emin, Scalar Emax, i
                 toCheck.push(make_tuple(c, tc, b, tb, 1 + depth));
             } else {
                 if (abs(tc - ia) < 1e-8)
-                    eigenvalues.push_back(newtonIteration<Scalar>(ms, c, left, right, true));
+                    eigenvalues.emplace_back(ia, newtonIteration<Scalar>(ms, c, left, right, true));
                 else if ((ta - ia) * (tc - ia) <= 0)
                     toCheck.push(make_tuple(a, ta, c, tc, depth + 1));
                 else
@@ -186,7 +183,7 @@ template<typename Scalar>
 Scalar
 Matslise<Scalar>::eigenvalueError(const Scalar &E, const Y<Scalar> &left, const Y<Scalar> &right, int) const {
     MATSLISE_SCOPED_TIMER("Matslise::eigenvalueError");
-    return abs(E - newtonIteration<Scalar>(this, E, left, right, false).second);
+    return abs(E - newtonIteration<Scalar>(this, E, left, right, false));
 }
 
 template<typename Scalar>
-- 
2.43.0


From 2c4ac7320b815be9ca366a39c15686cbeb83ccaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:33 +0000
Subject: [PATCH 03/35] fix: do not drop eigenvalues that bisection cannot
 separate

Near-degenerate eigenvalues (double wells, Coffey-Evans) share a bracket at
the depth limit; only one of them was reported.
---
 matslise/matslise/matslise.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/matslise/matslise/matslise.cpp b/matslise/matslise/matslise.cpp
index f412885..d46b055 100644
--- a/matslise/matslise/matslise.cpp
+++ b/matslise/matslise/matslise.cpp
@@ -112,8 +112,11 @@ computeEigenvaluesHelper(const Matslise<Scalar> *ms, Scalar Emin, Scalar Emax, i
         c = ia + 1 < ib || tb - ta < 1e-5 || depth % 2 == 0
             ? .5 * (a + b)
             : ((tb - ia) * a - (ta - ia) * b) / (tb - ta);
-        if ((tb - ta < 0.01 && depth > 3) || depth > 30) {
-            eigenvalues.emplace_back(ia, newtonIteration<Scalar>(ms, c, left, right, true));
+        if ((tb - ta < 0.01 && depth > 3) || depth > (ia + 1 < ib ? 60 : 30)) {
+            Scalar E = newtonIteration<Scalar>(ms, c, left, right, true);
+            // eigenvalues too close together to be separated by bisection share the bracket
+            for (int index = max(ia, Imin); index < min(ib, Imax); ++index)
+                eigenvalues.emplace_back(index, E);
         } else {
             tc = get<2>(ms->matchingError(c, left, right)) / constants<Scalar>::PI;
             if (isnan(tc)) {
-- 
2.43.0


From 54b3db5e754a255424c3b26f9b80ae7687afabb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:02 +0000
Subject: [PATCH 04/35] fix: sign of the half-range eigenfunction derivative
 left of the origin

The scalar evaluation disagreed with the array evaluation for x < 0.
---
 matslise/matslise/halfrange.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/matslise/matslise/halfrange.cpp b/matslise/matslise/halfrange.cpp
index 30af658..9c538e3 100644
--- a/matslise/matslise/halfrange.cpp
+++ b/matslise/matslise/halfrange.cpp
@@ -47,8 +47,8 @@ public:
     virtual Array<Scalar, 2, 1> operator()(const Scalar &x) const override {
         Array<Scalar, 2, 1> c = (*eigenfunction)(x < 0 ? -x : x);
         c *= sqrt(Scalar(.5));
-        if (x < 0 && !even)
-            c *= -1;
+        if (x < 0)
+            c[even ? 1 : 0] *= -1;
         return c;
     }
 
-- 
2.43.0


From 275e4bf5f53cf8d8af467b18b381aa080b7a9620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:24 +0000
Subject: [PATCH 05/35] fix: derivative of the inverse Liouville transformation
 y2z

The value and derivative blocks were swapped, so y2z did not invert z2y and
the derivative of Sturm-Liouville eigenfunctions was wrong.
---
 matslise/liouville/liouville.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/matslise/liouville/liouville.cpp b/matslise/liouville/liouville.cpp
index 251ba41..ef50f2f 100644
--- a/matslise/liouville/liouville.cpp
+++ b/matslise/liouville/liouville.cpp
@@ -225,10 +225,10 @@ Y<Scalar> LiouvilleTransformation<Scalar>::y2z(const Scalar &x, const Y<Scalar>
     z.block(None) *= sigma;
     z.block(dE) *= sigma;
 
-    z.block(dX) *= dsigma;
-    z.block(dXdE) *= dsigma;
-    z.block(dX) += sigma * xdr * y.block(None);
-    z.block(dXdE) += sigma * xdr * y.block(dE);
+    z.block(dX) *= sigma * xdr;
+    z.block(dXdE) *= sigma * xdr;
+    z.block(dX) += dsigma * y.block(None);
+    z.block(dXdE) += dsigma * y.block(dE);
 
     return z;
 }
-- 
2.43.0


From 58d5374b4cb1dee275afa45200e12d9bcfa90e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:07 +0000
Subject: [PATCH 06/35] fix: periodic eigenvalues by counting

The bracket was bisected on the derivative of the matching error, assuming it
has a single extremum between two angles.  With wide gaps (for example a step
potential) a wrong double eigenvalue was reported, windows starting inside the
lowest band reported a value that is no eigenvalue, and other coupling
matrices than +-I missed most of the spectrum.
---
 matslise/matslise/periodic.cpp | 131 +++++++++++++--------------------
 1 file changed, 50 insertions(+), 81 deletions(-)

diff --git a/matslise/matslise/periodic.cpp b/matslise/matslise/periodic.cpp
index 1cf9387..d97b55c 100644
--- a/matslise/matslise/periodic.cpp
+++ b/matslise/matslise/periodic.cpp
@@ -40,15 +40,6 @@ PeriodicMatslise<Scalar>::matchingError(const Scalar &E, bool use_h) const {
     return {error, theta};
 }
 
-template<typename Scalar>
-pair<Scalar, Scalar> calculateMatchingError(const Y<Scalar, 1, 2> &yError) {
-    auto err = yError.y();
-    auto dErr = yError.ydE();
-    Scalar error = err(0, 0) * err(1, 1) - err(0, 1) * err(1, 0);
-    Scalar dError = dErr(0, 0) * err(1, 1) + err(0, 0) * dErr(1, 1) - dErr(0, 1) * err(1, 0) - err(0, 1) * dErr(1, 0);
-    return {error, dError};
-}
-
 template<typename T>
 bool same_sign(const T &a, const T &b) {
     return (a < 0 && b < 0) || (a > 0 && b > 0);
@@ -76,25 +67,27 @@ Scalar binarySearch(Scalar eMin, Scalar eMax, const Func &f, const Scalar &eps)
 }
 
 template<typename Scalar>
-pair<Scalar, Scalar> eigenvaluePair(const PeriodicMatslise<Scalar> *ms, Scalar Emin, Scalar Emax, Scalar eps) {
-    Scalar h = 0.01 * (Emax - Emin);
-    auto fError = [ms](Scalar E) {
-        return calculateMatchingError(ms->matchingError(E).first).first;
-    };
-    Scalar minError = fError(Emin);
-    Scalar fMin = (fError(Emin + h) - minError) / h;
-
-    Scalar mid = binarySearch(Emin, Emax, [ms](Scalar E) {
-        return calculateMatchingError(ms->matchingError(E).first).second;
-    }, eps, fMin);
+bool isAntiperiodic(const PeriodicMatslise<Scalar> *ms) {
+    return ms->K(0, 1) > 0 || (ms->K(0, 1) == 0 && ms->K(0, 0) < 0);
+}
 
-    Scalar midError = fError(mid);
-    if (same_sign(minError, midError)) {
-        if (abs(midError) > eps) cout << "PeriodicMatslise::eigenvaluePair wrong result" << endl;
-        return {mid, mid};
-    } else {
-        return {binarySearch(Emin, mid, fError, eps, minError), binarySearch(mid, Emax, fError, eps, midError)};
-    }
+// The number of eigenvalues (with multiplicity) smaller than E.
+// The eigenvalues of the separated problem y(min) = 0, K^-1 (y, y')(max) = (0, *) are interlaced with the eigenvalues
+// of the periodic problem, the sign of the matching error decides on which side E is of the one in between.
+template<typename Scalar>
+int countEigenvalues(const PeriodicMatslise<Scalar> *ms, const Scalar &E) {
+    Y<Scalar> right;
+    right.y() = ms->K.col(1);
+    Scalar theta = get<2>(ms->matslise.matchingError(E, Y<Scalar>::Dirichlet(), right)) / constants<Scalar>::PI;
+    int n = max(0, (int) ceil(theta));
+    const Scalar &match = ms->matslise.sectors[ms->matslise.matchIndex]->max;
+    Y<Scalar, 1, 2> l = ms->propagate(E, periodicInitialValue<Scalar>(), ms->matslise.domain.min, match).first;
+    Y<Scalar, 1, 2> r = ms->propagate(E, periodicInitialValue<Scalar>(ms->K), ms->matslise.domain.max, match).first;
+    auto yl = l.y(), yr = r.y();
+    // det(l - r), but det(l) = det(r) = -2 would drown in cancellation behind a barrier
+    Scalar error = yl(0, 1) * yr(1, 0) + yr(0, 1) * yl(1, 0) - yl(0, 0) * yr(1, 1) - yr(0, 0) * yl(1, 1) - 4;
+    bool even = (n % 2 == 0) != isAntiperiodic(ms);
+    return (even ? error < 0 : error > 0) ? n + 1 : n;
 }
 
 template<typename Scalar, bool with_eigenfunctions>
@@ -109,7 +102,7 @@ eigenpairsHelper(const PeriodicMatslise<Scalar> *ms, Scalar eMin, Scalar eMax, i
     const Y<Scalar, 1, 2> r = periodicInitialValue<Scalar>(ms->K);
     typename EigenpairsReturn<Scalar, with_eigenfunctions>::type result;
     auto addToResult = [&](int i, Scalar E, bool isDouble) {
-        if ((isDouble ? i + 1 < iMin : i < iMin) || i >= iMax || E < eMin || E >= eMax) return;
+        if ((isDouble ? i + 1 < iMin : i < iMin) || i >= iMax) return;
         if constexpr (with_eigenfunctions) {
             auto &eigenfunctions = get<2>(
                     result.emplace_back(i, E, vector<unique_ptr<typename PeriodicMatslise<Scalar>::Eigenfunction>>()));
@@ -133,51 +126,36 @@ eigenpairsHelper(const PeriodicMatslise<Scalar> *ms, Scalar eMin, Scalar eMax, i
         }
     };
 
-    auto findLow = [ms](int i) {
-        return [ms, i](Scalar E) {
-            return ms->matchingError(E).second.minCoeff() - i + 1;
-        };
-    };
-    auto findHigh = [ms](int i) {
-        return [ms, i](Scalar E) {
-            return ms->matchingError(E).second.maxCoeff() - i - 1;
-        };
-    };
-
-    Scalar highest = eMax;
-    for (Scalar step = 1; findHigh(iMax + 1)(highest) < 0; step *= 2)
-        highest += step;
-
-    int i = iMin - (iMin % 2);
-    if (ms->K(0, 1) > 0 || (ms->K(0, 1) == 0 && ms->K(0, 0) < 0)) {
-        // Antiperiodic case
-        ++i;
-    }
-
-    Scalar low = eMin;
-    if (i == 0) {
-        for (Scalar step = 1; findHigh(i)(low) > 0; step *= 2)
+    auto findEigenvalue = [&](int i) {
+        Scalar low = eMin, high = eMax;
+        for (Scalar step = 1; countEigenvalues(ms, low) > i; step *= 2)
             low -= step;
-
-        Scalar high = binarySearch<Scalar>(low, highest, findHigh(i), eps);
-        Scalar E = binarySearch(low, high, [ms](Scalar E) {
-            return calculateMatchingError(ms->matchingError(E).first).first;
+        for (Scalar step = 1; countEigenvalues(ms, high) <= i; step *= 2)
+            high += step;
+        return binarySearch<Scalar>(low, high, [ms, i](Scalar E) {
+            return countEigenvalues(ms, E) > i ? 1 : -1;
         }, eps);
-        addToResult(0, E, false);
-        i += 2;
-    }
+    };
 
-    for (; i <= iMax + 1; i += 2) {
-        for (Scalar step = 1; findLow(i)(low) > 0; step *= 2)
-            low -= step;
-        low = binarySearch<Scalar>(low, highest, findLow(i), eps);
-        Scalar high = binarySearch<Scalar>(low, highest, findHigh(i), eps);
-        pair<Scalar, Scalar> p = eigenvaluePair(ms, low, high, eps);
-        if (p.second - p.first < eps) {
-            addToResult(i - 1, (p.first + p.second) / 2, true);
+    // In the periodic case eigenvalues 1&2, 3&4, ... may coincide, in the antiperiodic case 0&1, 2&3, ...
+    const int firstOfPair = isAntiperiodic(ms) ? 0 : 1;
+    int i = max(0, iMin);
+    if (i > 0 && i % 2 != firstOfPair)
+        --i;
+    while (i < iMax) {
+        Scalar E = findEigenvalue(i);
+        if (i % 2 == firstOfPair) {
+            Scalar next = findEigenvalue(i + 1);
+            if (next - E <= 2 * eps * max(Scalar(1), Scalar(abs(E)))) {
+                addToResult(i, (E + next) / 2, true);
+            } else {
+                addToResult(i, E, false);
+                addToResult(i + 1, next, false);
+            }
+            i += 2;
         } else {
-            addToResult(i - 1, p.first, false);
-            addToResult(i, p.second, false);
+            addToResult(i, E, false);
+            ++i;
         }
     }
     return result;
@@ -186,8 +164,8 @@ eigenpairsHelper(const PeriodicMatslise<Scalar> *ms, Scalar eMin, Scalar eMax, i
 template<typename Scalar, bool with_eigenfunctions>
 typename EigenpairsReturn<Scalar, with_eigenfunctions>::type
 eigenpairsHelper(const PeriodicMatslise<Scalar> *ms, const Scalar &eMin, const Scalar &eMax) {
-    int iMin = (int) ms->matchingError(eMin).second.minCoeff() - 1;
-    int iMax = (int) ms->matchingError(eMax).second.maxCoeff() + 1;
+    int iMin = countEigenvalues(ms, eMin);
+    int iMax = countEigenvalues(ms, eMax);
 
     return eigenpairsHelper<Scalar, with_eigenfunctions>(ms, eMin, eMax, iMin, iMax, 1e-8);
 }
@@ -195,16 +173,7 @@ eigenpairsHelper(const PeriodicMatslise<Scalar> *ms, const Scalar &eMin, const S
 template<typename Scalar, bool with_eigenfunctions>
 typename EigenpairsReturn<Scalar, with_eigenfunctions>::type
 eigenpairsByIndexHelper(const PeriodicMatslise<Scalar> *ms, int iMin, int iMax) {
-    Scalar eMin = -1;
-    Scalar eMax = 1;
-
-    while (ms->matchingError(eMin).second.minCoeff() > std::max(iMin - 2, 0))
-        eMin *= 2;
-
-    while (ms->matchingError(eMax).second.maxCoeff() < iMax + 2)
-        eMax *= 2;
-
-    return eigenpairsHelper<Scalar, with_eigenfunctions>(ms, eMin, eMax, iMin, iMax, 1e-8);
+    return eigenpairsHelper<Scalar, with_eigenfunctions>(ms, -1, 1, iMin, iMax, 1e-8);
 }
 
 template<typename Scalar>
-- 
2.43.0


From ffb47a524f2fb10f889e5178894c1964437df21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:40 +0000
Subject: [PATCH 07/35] fix: PeriodicMatslise::eigenfunction uses the coupled
 boundary values

The coefficients of the kernel were used as boundary values themselves, and
debugging output was written to stdout.
---
 matslise/matslise/periodic.cpp | 27 ++++++++-------------------
 1 file changed, 8 insertions(+), 19 deletions(-)

diff --git a/matslise/matslise/periodic.cpp b/matslise/matslise/periodic.cpp
index d97b55c..bc228db 100644
--- a/matslise/matslise/periodic.cpp
+++ b/matslise/matslise/periodic.cpp
@@ -202,31 +202,20 @@ std::vector<std::tuple<int, Scalar, int>> PeriodicMatslise<Scalar>::eigenvaluesB
 template<typename Scalar>
 vector<unique_ptr<typename PeriodicMatslise<Scalar>::Eigenfunction>>
 PeriodicMatslise<Scalar>::eigenfunction(const Scalar &E) const {
-    Array<Scalar, 2, 1> thetaL, thetaR;
-    Scalar &match = matslise.sectors[matslise.matchIndex]->max;
-    Y<Scalar, 1, 2> l = propagate(E, periodicInitialValue<Scalar>(), matslise.domain.min, match).first;
-    Y<Scalar, 1, 2> r = propagate(E, periodicInitialValue<Scalar>(K), matslise.domain.max, match).first;
-    Matrix<Scalar, 2, 2> err = (l.y() - r.y());
-    cout << err << endl;
+    const Y<Scalar, 1, 2> l = periodicInitialValue<Scalar>();
+    const Y<Scalar, 1, 2> r = periodicInitialValue<Scalar>(K);
 
-    EigenSolver<Matrix<Scalar, 2, 2>> solver(err, true);
+    EigenSolver<Matrix<Scalar, 2, 2>> solver(matchingError(E).first.y(), true);
     Matrix<complex<Scalar>, 2, 1> eigenvalues = solver.eigenvalues();
     Matrix<complex<Scalar>, 2, 2> eigenvectors = solver.eigenvectors();
 
     vector<unique_ptr<typename PeriodicMatslise<Scalar>::Eigenfunction>> result;
-    cout << "eigenvalues: " << eigenvalues.transpose() << endl;
-    cout << eigenvectors << endl;
-    cout << endl;
     result.reserve(2);
-    if (norm(eigenvalues[0]) < 1e-4) {
-        Y<Scalar> boundary;
-        boundary.y() = eigenvectors.col(0).real();
-        result.emplace_back(matslise.eigenfunction(E, boundary, boundary));
-    }
-    if (norm(eigenvalues[1]) < 1e-4) {
-        Y<Scalar> boundary;
-        boundary.y() = eigenvectors.col(1).real();
-        result.emplace_back(matslise.eigenfunction(E, boundary, boundary));
+    for (int i = 0; i < 2; ++i) {
+        if (norm(eigenvalues[i]) < 1e-4) {
+            Matrix<Scalar, 2, 1> c = eigenvectors.real().col(i);
+            result.emplace_back(matslise.eigenfunction(E, l * c, r * c));
+        }
     }
 
     return result;
-- 
2.43.0


From 285fb151a669189021baacb99007b0c05750ff3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:42 +0000
Subject: [PATCH 08/35] fix: do not leak a sector when the potential throws
 while it is refined

---
 matslise/util/sectorbuilder.cpp | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/matslise/util/sectorbuilder.cpp b/matslise/util/sectorbuilder.cpp
index b4c9ffc..bcdb6a4 100644
--- a/matslise/util/sectorbuilder.cpp
+++ b/matslise/util/sectorbuilder.cpp
@@ -10,13 +10,13 @@ using std::unique_ptr;
 using std::vector;
 
 template<typename Scalar, typename Problem>
-static typename Problem::Sector *
+static unique_ptr<typename Problem::Sector>
 refineSector(const typename Problem::Sector &sector, const Problem *problem, const Scalar &min, const Scalar &max,
              Direction direction) {
     if constexpr(Problem::refineSectors) {
-        return sector.refine(problem, min, max, direction);
+        return unique_ptr<typename Problem::Sector>(sector.refine(problem, min, max, direction));
     } else {
-        return new typename Problem::Sector(problem, min, max, direction);
+        return std::make_unique<typename Problem::Sector>(problem, min, max, direction);
     }
 }
 
@@ -53,7 +53,7 @@ UniformSectorBuilder<Problem, Scalar>::operator()(const Problem *problem, const
 }
 
 template<typename Problem>
-typename Problem::Sector *automaticNextSector(
+unique_ptr<typename Problem::Sector> automaticNextSector(
         const Problem *ms, typename Problem::Scalar &h,
         const typename Problem::Scalar &left, const typename Problem::Scalar &right,
         const typename Problem::Scalar &tolerance, Direction direction) {
@@ -68,7 +68,7 @@ typename Problem::Sector *automaticNextSector(
     }
     h = xmax - xmin;
     int steps = 0;
-    Sector *s = new Sector(ms, xmin, xmax, direction);
+    unique_ptr<Sector> s = std::make_unique<Sector>(ms, xmin, xmax, direction);
     Scalar error = s->error();
     while (error > tolerance && steps < 10 && h > 1e-3) {
         ++steps;
@@ -78,10 +78,8 @@ typename Problem::Sector *automaticNextSector(
         } else {
             xmin = xmax - h;
         }
-        Sector *prevSector = s;
-        s = refineSector<Scalar, Problem>(*prevSector, ms, xmin, xmax, direction);
+        s = refineSector<Scalar, Problem>(*s, ms, xmin, xmax, direction);
         h = xmax - xmin;
-        delete prevSector;
         error = s->error();
     }
     if constexpr(Sector::expensive) {
@@ -115,17 +113,15 @@ typename Problem::Sector *automaticNextSector(
                     }
                 }
                 h = xmax - xmin;
-                auto *newSector = refineSector<Scalar, Problem>(
+                auto newSector = refineSector<Scalar, Problem>(
                         *s, ms, xmin, xmax, direction);
                 error = newSector->error();
 
                 if (error > tolerance) {
                     h = s->max - s->min;
-                    delete newSector;
                     break;
                 } else {
-                    delete s;
-                    s = newSector;
+                    s = std::move(newSector);
                 }
             }
         }
-- 
2.43.0


From 391fef61db8fbff8e42260c3dd92ad1c88077d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:07 +0000
Subject: [PATCH 09/35] fix: Matscs::propagatePsi against the direction of a
 sector

The branch for the inverse propagation was unreachable and its blocks were
those of another convention.
---
 matslise/matscs/sector.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/matslise/matscs/sector.cpp b/matslise/matscs/sector.cpp
index eaac019..f29b01c 100644
--- a/matslise/matscs/sector.cpp
+++ b/matslise/matscs/sector.cpp
@@ -257,21 +257,20 @@ propagatePsi_delta(const typename Matscs<Scalar>::Sector *sector, Scalar E, cons
     if (delta > sector->h)
         delta = sector->h;
 
-    // TODO: verify
     Scalar extra = sector->direction == Direction::forward ? 1 : -1;
-    if (delta > 0) {
+    if (delta == 0) {
+        return psi;
+    } else if (forward) {
         T<Scalar, Dynamic> T = sector->calculateT(E, delta);
         return extra * (T.getT(1, 1) + extra * T.getT(1, 0) * psi).transpose()
                 .colPivHouseholderQr()
                 .solve((T.getT(0, 1) + extra * T.getT(0, 0) * psi).transpose())
                 .transpose();
-    } else if (delta < 0) {
-        T<Scalar, Dynamic> T = sector->calculateT(E, -delta);
-        return extra * (T.getT(1, 1) - extra * psi * T.getT(0, 1))
-                .colPivHouseholderQr()
-                .solve((extra * psi * T.getT(0, 0) - T.getT(1, 0)));
     } else {
-        return psi;
+        T<Scalar, Dynamic> T = sector->calculateT(E, delta);
+        return extra * (T.getT(0, 0) - extra * psi * T.getT(1, 0))
+                .colPivHouseholderQr()
+                .solve((extra * psi * T.getT(1, 1) - T.getT(0, 1)));
     }
 }
 
-- 
2.43.0


From c724f10a2c4b08ad4e35e4165859d766ffd7aeaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:12 +0000
Subject: [PATCH 10/35] fix: ignore jumps outside the domain and duplicates in
 the automatic sector builder

---
 matslise/util/sectorbuilder.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/matslise/util/sectorbuilder.cpp b/matslise/util/sectorbuilder.cpp
index bcdb6a4..644d18c 100644
--- a/matslise/util/sectorbuilder.cpp
+++ b/matslise/util/sectorbuilder.cpp
@@ -136,6 +136,14 @@ AutomaticSectorBuilder<Problem, Scalar>::operator()(const Problem *problem, cons
                                                     const Scalar &max) const {
     typedef typename Problem::Sector Sector;
 
+    // Only the distinct jumps strictly inside the domain split it
+    std::vector<Scalar> jumps;
+    for (const Scalar &jump: this->jumps)
+        if (min < jump && jump < max)
+            jumps.push_back(jump);
+    std::sort(jumps.begin(), jumps.end());
+    jumps.erase(std::unique(jumps.begin(), jumps.end()), jumps.end());
+
     std::vector<unique_ptr<Sector>> forward;
     std::vector<unique_ptr<Sector>> backward;
     // It shouldn't be the true middle
-- 
2.43.0


From fa45eb9eaee248af8039e77200d4d58359c60947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:40 +0000
Subject: [PATCH 11/35] =?UTF-8?q?fix:=20Pr=C3=BCfer=20angle=20of=20a=20par?=
 =?UTF-8?q?tly=20or=20barely=20crossed=20sector?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 matslise/matslise/sector.cpp | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/matslise/matslise/sector.cpp b/matslise/matslise/sector.cpp
index b599874..7f1522e 100644
--- a/matslise/matslise/sector.cpp
+++ b/matslise/matslise/sector.cpp
@@ -123,20 +123,11 @@ Scalar pruferHelper(const typename Matslise<Scalar>::Sector &sector, const Scala
         // page 56 (PhD Ledoux)
         Scalar omega = sqrt(E - sector.vs[0]);
         Scalar theta0 = atan_safe(y0[0] * omega, y0[1]);
-        Scalar phi_star = atan_safe(y1[0] * omega, y1[1]);
-        Scalar phi_bar = omega * delta + theta0;
-        phi_bar -= floor(phi_bar / constants<Scalar>::PI) * constants<Scalar>::PI;
-        Scalar theta1 = phi_star - phi_bar;
-        if (theta1 < -constants<Scalar>::PI / 2)
-            theta1 += constants<Scalar>::PI;
-        else if (theta1 > constants<Scalar>::PI / 2)
-            theta1 -= constants<Scalar>::PI;
-        theta1 += theta0 + omega * delta;
-
-        if (theta1 < theta0) {
-            // theta has to be increasing
-            theta1 += constants<Scalar>::PI;
-        }
+        Scalar turn = omega * delta;
+        // The full angles (mod 2 pi) also determine the parity of the number of zeros
+        Scalar correction = atan2(y1[0] * omega, y1[1]) - atan2(y0[0] * omega, y0[1]) - turn;
+        correction -= floor(correction / (2 * constants<Scalar>::PI) + .5) * 2 * constants<Scalar>::PI;
+        Scalar theta1 = theta0 + turn + correction;
 
         return rescale(theta1, scaling / omega) - rescale(theta0, scaling / omega);
     } else {
-- 
2.43.0


From 08154eda931f708bc734d67c5b94db09fd98063f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:25 +0000
Subject: [PATCH 12/35] fix: Newton iteration on an exact or double root

---
 matslise/matslise/matslise.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/matslise/matslise/matslise.cpp b/matslise/matslise/matslise.cpp
index d46b055..8dac32b 100644
--- a/matslise/matslise/matslise.cpp
+++ b/matslise/matslise/matslise.cpp
@@ -64,6 +64,8 @@ newtonIteration(const Matslise<Scalar> *ms, Scalar E, const Y<Scalar> &left, con
     int i = 0;
     do {
         tie(error, derror, ignore) = ms->matchingError(E, left, right, use_h);
+        if (error == 0 || derror == 0)
+            return E; // exact root, or nearly coinciding eigenvalues
         adjust = error / derror;
         E -= adjust;
     } while (++i < 20 && abs(adjust) > ms->tolerance);
-- 
2.43.0


From 53657423e369bde8e75b972d55a43391df943acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:05 +0000
Subject: [PATCH 13/35] fix: keep Newton's method inside the bracket of the
 eigenvalue

---
 matslise/matslise/matslise.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/matslise/matslise/matslise.cpp b/matslise/matslise/matslise.cpp
index 8dac32b..1774696 100644
--- a/matslise/matslise/matslise.cpp
+++ b/matslise/matslise/matslise.cpp
@@ -114,8 +114,15 @@ computeEigenvaluesHelper(const Matslise<Scalar> *ms, Scalar Emin, Scalar Emax, i
         c = ia + 1 < ib || tb - ta < 1e-5 || depth % 2 == 0
             ? .5 * (a + b)
             : ((tb - ia) * a - (ta - ia) * b) / (tb - ta);
-        if ((tb - ta < 0.01 && depth > 3) || depth > (ia + 1 < ib ? 60 : 30)) {
-            Scalar E = newtonIteration<Scalar>(ms, c, left, right, true);
+        // Newton's method may run away from the bracket when the mismatch is flat
+        auto refine = [&](Scalar &E) {
+            E = newtonIteration<Scalar>(ms, c, left, right, true);
+            return a - ms->tolerance <= E && E <= b + ms->tolerance;
+        };
+        Scalar E;
+        if (((tb - ta < 0.01 && depth > 3) || depth > (ia + 1 < ib ? 60 : 30)) && (refine(E) || depth > 60)) {
+            if (depth > 60)
+                E = min(b, max(a, E));
             // eigenvalues too close together to be separated by bisection share the bracket
             for (int index = max(ia, Imin); index < min(ib, Imax); ++index)
                 eigenvalues.emplace_back(index, E);
@@ -127,8 +134,8 @@ computeEigenvaluesHelper(const Matslise<Scalar> *ms, Scalar Emin, Scalar Emax, i
                 toCheck.push(make_tuple(a, ta, c, tc, 1 + depth));
                 toCheck.push(make_tuple(c, tc, b, tb, 1 + depth));
             } else {
-                if (abs(tc - ia) < 1e-8)
-                    eigenvalues.emplace_back(ia, newtonIteration<Scalar>(ms, c, left, right, true));
+                if (abs(tc - ia) < 1e-8 && refine(E))
+                    eigenvalues.emplace_back(ia, E);
                 else if ((ta - ia) * (tc - ia) <= 0)
                     toCheck.push(make_tuple(a, ta, c, tc, depth + 1));
                 else
-- 
2.43.0


From cf7bc8ef4f590f938b2ec83acbcd42f1c1c1b0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:43 +0000
Subject: [PATCH 14/35] =?UTF-8?q?fix:=20Pr=C3=BCfer=20angle=20of=20a=20ste?=
 =?UTF-8?q?p=20too=20small=20to=20leave=20a=20zero?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 matslise/matslise/sector.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/matslise/matslise/sector.cpp b/matslise/matslise/sector.cpp
index 7f1522e..c1b3ae0 100644
--- a/matslise/matslise/sector.cpp
+++ b/matslise/matslise/sector.cpp
@@ -131,6 +131,8 @@ Scalar pruferHelper(const typename Matslise<Scalar>::Sector &sector, const Scala
 
         return rescale(theta1, scaling / omega) - rescale(theta0, scaling / omega);
     } else {
+        if (y0[0] == 0 && y1[0] == 0)
+            return 0; // a step too small to leave the zero
         Scalar theta0 = atan_safe(scaling * y0[0], y0[1]);
         Scalar theta1 = atan_safe(scaling * y1[0], y1[1]);
         if (y0[0] * y1[0] >= 0) {
-- 
2.43.0


From 71c05a9a0ef052eaa3adb242a81bfc2fd7d2db6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:06 +0000
Subject: [PATCH 15/35] fix: rounding of the angle must not duplicate indices
 while bisecting

---
 matslise/matslise/matslise.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/matslise/matslise/matslise.cpp b/matslise/matslise/matslise.cpp
index 1774696..2ada916 100644
--- a/matslise/matslise/matslise.cpp
+++ b/matslise/matslise/matslise.cpp
@@ -128,6 +128,11 @@ computeEigenvaluesHelper(const Matslise<Scalar> *ms, Scalar Emin, Scalar Emax, i
                 eigenvalues.emplace_back(index, E);
         } else {
             tc = get<2>(ms->matchingError(c, left, right)) / constants<Scalar>::PI;
+            // the angle increases with E, whatever rounding makes of it: every index belongs to exactly one half
+            if (tc < ta)
+                tc = ta;
+            else if (tc > tb)
+                tc = tb;
             if (isnan(tc)) {
                 // cerr << "Matslise::computeEigenvalues(): some interval converted to NaN" << endl;
             } else if (ia + 1 < ib) {
-- 
2.43.0


From 002faf72bad090c7abee811c6e82c7becedbeda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:06 +0000
Subject: [PATCH 16/35] fix: double and nearly double periodic eigenvalues

---
 matslise/matslise/periodic.cpp | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/matslise/matslise/periodic.cpp b/matslise/matslise/periodic.cpp
index bc228db..54c1754 100644
--- a/matslise/matslise/periodic.cpp
+++ b/matslise/matslise/periodic.cpp
@@ -84,8 +84,15 @@ int countEigenvalues(const PeriodicMatslise<Scalar> *ms, const Scalar &E) {
     Y<Scalar, 1, 2> l = ms->propagate(E, periodicInitialValue<Scalar>(), ms->matslise.domain.min, match).first;
     Y<Scalar, 1, 2> r = ms->propagate(E, periodicInitialValue<Scalar>(ms->K), ms->matslise.domain.max, match).first;
     auto yl = l.y(), yr = r.y();
-    // det(l - r), but det(l) = det(r) = -2 would drown in cancellation behind a barrier
-    Scalar error = yl(0, 1) * yr(1, 0) + yr(0, 1) * yl(1, 0) - yl(0, 0) * yr(1, 1) - yr(0, 0) * yl(1, 1) - 4;
+    // det(l - r), but det(l) = det(r) = -2 would drown in cancellation behind a barrier. Where they do not, the
+    // deviation from -2 is an error of the propagation that would separate nearly double eigenvalues by its root.
+    auto deviation = [](const auto &y) -> Scalar {
+        Scalar p = y(0, 0) * y(1, 1), q = y(0, 1) * y(1, 0);
+        Scalar d = (q - p) / 2;
+        return d > 0 && abs(d - 1) > 16 * numeric_limits<Scalar>::epsilon() * (abs(p) + abs(q)) ? d : Scalar(1);
+    };
+    Scalar error = (yl(0, 1) * yr(1, 0) + yr(0, 1) * yl(1, 0) - yl(0, 0) * yr(1, 1) - yr(0, 0) * yl(1, 1))
+                   / sqrt(deviation(yl) * deviation(yr)) - 4;
     bool even = (n % 2 == 0) != isAntiperiodic(ms);
     return (even ? error < 0 : error > 0) ? n + 1 : n;
 }
@@ -146,8 +153,23 @@ eigenpairsHelper(const PeriodicMatslise<Scalar> *ms, Scalar eMin, Scalar eMax, i
         Scalar E = findEigenvalue(i);
         if (i % 2 == firstOfPair) {
             Scalar next = findEigenvalue(i + 1);
-            if (next - E <= 2 * eps * max(Scalar(1), Scalar(abs(E)))) {
-                addToResult(i, (E + next) / 2, true);
+            Scalar scale = max(Scalar(1), Scalar(abs(E)));
+            Scalar mid = (E + next) / 2;
+            bool isDouble = next - E <= 2 * eps * scale;
+            if (next - E < 1e-3 * scale) {
+                // rounding separates a double root of the matching determinant by the root of its size,
+                // but there the complete matching matrix vanishes
+                Y<Scalar, 1, 2> error = ms->matchingError(mid).first;
+                Matrix<Scalar, 2, 2> shift = Matrix<Scalar, 2, 2>(error.ydE()).inverse() * error.y();
+                Scalar mean = shift.trace() / 2;
+                shift.diagonal().array() -= mean;
+                if (abs(mean) <= next - E && shift.norm() <= eps * scale) {
+                    isDouble = true;
+                    mid -= mean;
+                }
+            }
+            if (isDouble) {
+                addToResult(i, mid, true);
             } else {
                 addToResult(i, E, false);
                 addToResult(i + 1, next, false);
-- 
2.43.0


From e2e2b12537f43b85851cc0e12196d4ea10afc319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:52 +0000
Subject: [PATCH 17/35] fix: contradicting signs at coinciding periodic
 eigenvalues

---
 matslise/matslise/periodic.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/matslise/matslise/periodic.cpp b/matslise/matslise/periodic.cpp
index 54c1754..af2afd5 100644
--- a/matslise/matslise/periodic.cpp
+++ b/matslise/matslise/periodic.cpp
@@ -91,8 +91,14 @@ int countEigenvalues(const PeriodicMatslise<Scalar> *ms, const Scalar &E) {
         Scalar d = (q - p) / 2;
         return d > 0 && abs(d - 1) > 16 * numeric_limits<Scalar>::epsilon() * (abs(p) + abs(q)) ? d : Scalar(1);
     };
-    Scalar error = (yl(0, 1) * yr(1, 0) + yr(0, 1) * yl(1, 0) - yl(0, 0) * yr(1, 1) - yr(0, 0) * yl(1, 1))
-                   / sqrt(deviation(yl) * deviation(yr)) - 4;
+    Array<Scalar, 4, 1> terms;
+    terms << yl(0, 1) * yr(1, 0), yr(0, 1) * yl(1, 0), -yl(0, 0) * yr(1, 1), -yr(0, 0) * yl(1, 1);
+    terms /= sqrt(deviation(yl) * deviation(yr));
+    Scalar error = terms.sum() - 4;
+    // When both eigenvalues coincide the two signs may contradict each other, E is then in between by all means
+    int nearest = (int) round(theta);
+    if (nearest >= 0 && abs(theta - nearest) < 1e-8 && abs(error) < 1e-9 * (4 + terms.abs().sum()))
+        return nearest + 1;
     bool even = (n % 2 == 0) != isAntiperiodic(ms);
     return (even ? error < 0 : error > 0) ? n + 1 : n;
 }
-- 
2.43.0


From b43e072c87c3c581dfddd4d1c05d54a842179c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:48 +0000
Subject: [PATCH 18/35] fix: null space of the periodic matching matrix

---
 matslise/matslise/periodic.cpp | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/matslise/matslise/periodic.cpp b/matslise/matslise/periodic.cpp
index af2afd5..fa1fdd0 100644
--- a/matslise/matslise/periodic.cpp
+++ b/matslise/matslise/periodic.cpp
@@ -103,6 +103,20 @@ int countEigenvalues(const PeriodicMatslise<Scalar> *ms, const Scalar &E) {
     return (even ? error < 0 : error > 0) ? n + 1 : n;
 }
 
+// The combinations of both solutions for which the mismatch vanishes are the right singular vectors of the smallest
+// singular values. By the scaling these values measure a distance in the energy.
+template<typename Scalar>
+JacobiSVD<Matrix<Scalar, 2, 2>> matchingKernel(const PeriodicMatslise<Scalar> *ms, const Scalar &E) {
+    Y<Scalar, 1, 2> error = ms->matchingError(E).first;
+    Matrix<Scalar, 2, 2> mismatch = error.y();
+    for (int i = 0; i < 2; ++i) {
+        Scalar size = error.ydE().row(i).norm();
+        if (size > 0)
+            mismatch.row(i) /= size;
+    }
+    return JacobiSVD<Matrix<Scalar, 2, 2>>(mismatch, ComputeFullV);
+}
+
 template<typename Scalar, bool with_eigenfunctions>
 struct EigenpairsReturn {
     using type = vector<tuple<int, Scalar, std::conditional_t<with_eigenfunctions, vector<unique_ptr<typename PeriodicMatslise<Scalar>::Eigenfunction>>, int>>>;
@@ -126,11 +140,7 @@ eigenpairsHelper(const PeriodicMatslise<Scalar> *ms, Scalar eMin, Scalar eMax, i
                 eigenfunctions.emplace_back(ms->matslise.eigenfunction(E, l.col(0), r.col(0)));
                 eigenfunctions.emplace_back(ms->matslise.eigenfunction(E, l.col(1), r.col(1)));
             } else {
-                EigenSolver<Matrix<Scalar, 2, 2>> solver(ms->matchingError(E).first.y(), true);
-                Eigen::Index kernelIndex;
-                solver.eigenvalues().array().abs().minCoeff(&kernelIndex);
-
-                Matrix<Scalar, 2, 1> c = solver.eigenvectors().real().col(kernelIndex);
+                Matrix<Scalar, 2, 1> c = matchingKernel(ms, E).matrixV().col(1);
                 eigenfunctions.reserve(1);
                 eigenfunctions.emplace_back(ms->matslise.eigenfunction(E, l * c, r * c));
             }
@@ -233,15 +243,17 @@ PeriodicMatslise<Scalar>::eigenfunction(const Scalar &E) const {
     const Y<Scalar, 1, 2> l = periodicInitialValue<Scalar>();
     const Y<Scalar, 1, 2> r = periodicInitialValue<Scalar>(K);
 
-    EigenSolver<Matrix<Scalar, 2, 2>> solver(matchingError(E).first.y(), true);
-    Matrix<complex<Scalar>, 2, 1> eigenvalues = solver.eigenvalues();
-    Matrix<complex<Scalar>, 2, 2> eigenvectors = solver.eigenvectors();
+    auto kernel = matchingKernel(this, E);
+    auto &distance = kernel.singularValues();
+    const Scalar scale = max(Scalar(1), Scalar(abs(E)));
 
     vector<unique_ptr<typename PeriodicMatslise<Scalar>::Eigenfunction>> result;
     result.reserve(2);
-    for (int i = 0; i < 2; ++i) {
-        if (norm(eigenvalues[i]) < 1e-4) {
-            Matrix<Scalar, 2, 1> c = eigenvectors.real().col(i);
+    if (distance[1] < 1e-3 * scale) {
+        Matrix<Scalar, 2, 1> c = kernel.matrixV().col(1);
+        result.emplace_back(matslise.eigenfunction(E, l * c, r * c));
+        if (distance[0] < max(Scalar(1e-6 * scale), Scalar(10 * distance[1]))) {
+            c = kernel.matrixV().col(0);
             result.emplace_back(matslise.eigenfunction(E, l * c, r * c));
         }
     }
-- 
2.43.0


From 53d9e34dc85dc785f00cafd2bccf0d2da40d9ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:35 +0000
Subject: [PATCH 19/35] fix: jumps closer than 1e-12 to each other stalled the
 automatic sector builder

---
 matslise/matscs/sector.cpp      |  3 +++
 matslise/matslise/sector.cpp    |  3 +++
 matslise/util/sectorbuilder.cpp | 23 +++++++++++------------
 3 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/matslise/matscs/sector.cpp b/matslise/matscs/sector.cpp
index f29b01c..3310558 100644
--- a/matslise/matscs/sector.cpp
+++ b/matslise/matscs/sector.cpp
@@ -297,6 +297,9 @@ Matscs<Scalar>::Sector::propagatePsi(
 
 template<typename Scalar>
 Scalar Matscs<Scalar>::Sector::error() const {
+    // The propagation treats such a short sector as the identity
+    if (h <= EPS)
+        return 0;
     Scalar error = (calculateTFromVEd<Scalar, true>(this, h, Array<Scalar, Dynamic, 1>::Zero(n)).t
                     - calculateTFromVEd<Scalar, false>(this, h, Array<Scalar, Dynamic, 1>::Zero(n)).t
     ).array().abs().maxCoeff();
diff --git a/matslise/matslise/sector.cpp b/matslise/matslise/sector.cpp
index c1b3ae0..e5691c7 100644
--- a/matslise/matslise/sector.cpp
+++ b/matslise/matslise/sector.cpp
@@ -223,6 +223,9 @@ Matslise<Scalar>::Sector::propagate(
 
 template<typename Scalar>
 Scalar Matslise<Scalar>::Sector::error() const {
+    // calculateT treats such a short sector as the identity
+    if (h <= EPS)
+        return 0;
     Scalar e_loc0 = (
             (calculateT(vs[0], true).t - calculateT(vs[0], false).t).array() *
             (Array<Scalar, 2, 2>() << 1, 1 / h, h, 1).finished()
diff --git a/matslise/util/sectorbuilder.cpp b/matslise/util/sectorbuilder.cpp
index 644d18c..27c677a 100644
--- a/matslise/util/sectorbuilder.cpp
+++ b/matslise/util/sectorbuilder.cpp
@@ -97,20 +97,19 @@ unique_ptr<typename Problem::Sector> automaticNextSector(
             while (error < tolerance / 2 && steps < 10 && h != right - left) {
                 ++steps;
                 if (error <= 0) {
-                    // rare edge cases
-                    xmin = left;
-                    xmax = right;
+                    // rare edge cases: there is no estimate to extrapolate
+                    h *= 100;
                 } else {
                     h *= pow(tolerance / error, 1. / (Problem::order - 1));
-                    if (direction == Direction::forward) {
-                        xmax = xmin + h;
-                        if (xmax > right)
-                            xmax = right;
-                    } else {
-                        xmin = xmax - h;
-                        if (xmin < left)
-                            xmin = left;
-                    }
+                }
+                if (direction == Direction::forward) {
+                    xmax = xmin + h;
+                    if (xmax > right)
+                        xmax = right;
+                } else {
+                    xmin = xmax - h;
+                    if (xmin < left)
+                        xmin = left;
                 }
                 h = xmax - xmin;
                 auto newSector = refineSector<Scalar, Problem>(
-- 
2.43.0


From df2b7656aceaea30c3a08de822b0fbac414427a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:31 +0000
Subject: [PATCH 20/35] fix: sums and differences of polynomials of different
 degrees were ambiguous and did not compile

---
 matslise/util/polynomial.h | 14 +-------------
 1 file changed, 1 insertion(+), 13 deletions(-)

diff --git a/matslise/util/polynomial.h b/matslise/util/polynomial.h
index 87389e4..8225ddc 100644
--- a/matslise/util/polynomial.h
+++ b/matslise/util/polynomial.h
@@ -73,24 +73,12 @@ namespace matslise {
 
 #define POLY_SUM_OPERATOR(op) \
         template<int od> \
-        POLY_INPLACE_OPERATOR(op, od, OtherPolynomial<od>, other.coefficients, od <= degree); \
-        template<int od> \
-        POLY_BINARY_OPERATOR(op, OtherPolynomial<od>);
+        POLY_INPLACE_OPERATOR(op, od, OtherPolynomial<od>, other.coefficients, od <= degree);
 
         POLY_SUM_OPERATOR(+)
 
-        template<int od>
-        POLY_BINARY_REV_OPERATOR(+, OtherPolynomial<od>);
-
         POLY_SUM_OPERATOR(-)
 
-
-        template<int od>
-        friend Polynomial<Scalar, degree>
-        operator-(const OtherPolynomial<od> &left, const Polynomial<Scalar, degree> &right) {
-            return -right + left;
-        }
-
         POLY_SCALAR_OPERATOR(+, 0)
 
         POLY_BINARY_REV_OPERATOR(+, Scalar);
-- 
2.43.0


From d13cb2b053e33d7bc49ff814c9d21931026fe98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:31 +0000
Subject: [PATCH 21/35] fix: unary plus of a polynomial did not compile

---
 matslise/util/polynomial.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matslise/util/polynomial.h b/matslise/util/polynomial.h
index 8225ddc..8411dc1 100644
--- a/matslise/util/polynomial.h
+++ b/matslise/util/polynomial.h
@@ -100,7 +100,7 @@ namespace matslise {
         }
 
         Polynomial<Scalar, degree> operator+() const {
-            return Polynomial<Scalar, degree>{+coefficients};
+            return *this;
         }
 
         template<int otherDegree>
-- 
2.43.0


From e4b1adb105ecba6a6abdfc1649ca6c59f5e50a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:39 +0000
Subject: [PATCH 22/35] fix: Legendre::integrate returned half of the integral

---
 matslise/util/legendre.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matslise/util/legendre.h b/matslise/util/legendre.h
index 4641810..c9bf8bc 100644
--- a/matslise/util/legendre.h
+++ b/matslise/util/legendre.h
@@ -52,7 +52,7 @@ namespace matslise::legendre {
             for (int j = 1; j < weights<Scalar, k>.rows(); ++j)
                 result += weights<Scalar, k>(i, j) * fs[j];
             if constexpr(scaled)
-                result *= h;
+                result *= 2 * h;
             return result;
         }
 
-- 
2.43.0


From dcd1f8aa7e70a328488fdebae551cda5f516dbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:07 +0000
Subject: [PATCH 23/35] fix: accept the result of Newton's iteration for an
 eigenvalue only when it converged

The lowest eigenvalue of a problem with a steep boundary layer was returned
after 20 unfinished iterations, off by 2e-4 relative, depending on the index range.
---
 matslise/matslise/matslise.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/matslise/matslise/matslise.cpp b/matslise/matslise/matslise.cpp
index 2ada916..e4336f9 100644
--- a/matslise/matslise/matslise.cpp
+++ b/matslise/matslise/matslise.cpp
@@ -59,8 +59,11 @@ Matslise<Scalar>::matchingError(const Scalar &E, const Y<Scalar> &left, const Y<
 
 template<typename Scalar>
 Scalar
-newtonIteration(const Matslise<Scalar> *ms, Scalar E, const Y<Scalar> &left, const Y<Scalar> &right, bool use_h) {
+newtonIteration(const Matslise<Scalar> *ms, Scalar E, const Y<Scalar> &left, const Y<Scalar> &right, bool use_h,
+                bool *converged = nullptr) {
     Scalar adjust, error, derror;
+    if (converged)
+        *converged = true;
     int i = 0;
     do {
         tie(error, derror, ignore) = ms->matchingError(E, left, right, use_h);
@@ -71,6 +74,8 @@ newtonIteration(const Matslise<Scalar> *ms, Scalar E, const Y<Scalar> &left, con
     } while (++i < 20 && abs(adjust) > ms->tolerance);
 
     if (i >= 20 && abs(adjust) > 100 * ms->tolerance) {
+        if (converged)
+            *converged = false;
         // cerr << "Newton-iteration did not converge for E=" << (double) E << endl;
     }
 
@@ -114,10 +119,11 @@ computeEigenvaluesHelper(const Matslise<Scalar> *ms, Scalar Emin, Scalar Emax, i
         c = ia + 1 < ib || tb - ta < 1e-5 || depth % 2 == 0
             ? .5 * (a + b)
             : ((tb - ia) * a - (ta - ia) * b) / (tb - ta);
-        // Newton's method may run away from the bracket when the mismatch is flat
+        // Newton's method may run away from the bracket when the mismatch is flat, or not arrive when it is steep
         auto refine = [&](Scalar &E) {
-            E = newtonIteration<Scalar>(ms, c, left, right, true);
-            return a - ms->tolerance <= E && E <= b + ms->tolerance;
+            bool converged;
+            E = newtonIteration<Scalar>(ms, c, left, right, true, &converged);
+            return converged && a - ms->tolerance <= E && E <= b + ms->tolerance;
         };
         Scalar E;
         if (((tb - ta < 0.01 && depth > 3) || depth > (ia + 1 < ib ? 60 : 30)) && (refine(E) || depth > 60)) {
-- 
2.43.0


From 5c720cad87cfa1d78a20990ae8befcd80756e581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:25 +0000
Subject: [PATCH 24/35] fix: Matscs::propagatePsi checks its positions like
 propagate and propagateColumn

Outside of the domain it used the sector before the first one.
---
 matslise/matscs/matscs.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/matslise/matscs/matscs.cpp b/matslise/matscs/matscs.cpp
index 8dd09f7..b318ba7 100644
--- a/matslise/matscs/matscs.cpp
+++ b/matslise/matscs/matscs.cpp
@@ -56,6 +56,8 @@ Matscs<Scalar>::propagate(const Scalar &E, const Y<Scalar, Dynamic> &_y,
 template<typename Scalar>
 Matrix<Scalar, Dynamic, Dynamic> Matscs<Scalar>::propagatePsi(
         const Scalar &E, const Matrix<Scalar, Dynamic, Dynamic> &_psi, const Scalar &a, const Scalar &b) const {
+    if (!contains(a) || !contains(b))
+        throw runtime_error("Matscs::propagatePsi(): a and b should be in the interval");
     Matrix<Scalar, Dynamic, Dynamic> psi = _psi;
 
     int sectorIndex = find_sector<Matscs<Scalar>>(this, a);
-- 
2.43.0


From 54ea244aa7b3f0753922c9a62db41ef195263b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:57 +0000
Subject: [PATCH 25/35] fix: Matscs::propagate returned an angle off by
 multiples of 2 pi

---
 matslise/matscs.h          |  6 ++++
 matslise/matscs/sector.cpp | 74 ++++++++++++++++++++++++++++----------
 2 files changed, 62 insertions(+), 18 deletions(-)

diff --git a/matslise/matscs.h b/matslise/matscs.h
index 302a305..57b2d01 100644
--- a/matslise/matscs.h
+++ b/matslise/matscs.h
@@ -122,6 +122,12 @@ namespace matslise {
         private :
             MatrixXcs theta(const Y<Scalar, Eigen::Dynamic> &) const;
 
+            // The continuous change of the argument of det(theta) from y0 to y1, d further in the sector. The second
+            // value is false when the potential differs too much from a constant one to be certain.
+            std::pair<Scalar, bool> argdetChange(
+                    const Scalar &E, const Y<Scalar, Eigen::Dynamic> &y0, const Y<Scalar, Eigen::Dynamic> &y1,
+                    const Scalar &d) const;
+
             template<int r>
             Y<Scalar, Eigen::Dynamic, r> propagateDeltaColumn(
                     const Scalar &E, const Y<Scalar, Eigen::Dynamic, r> &y0, const Scalar &_delta, bool use_h) const;
diff --git a/matslise/matscs/sector.cpp b/matslise/matscs/sector.cpp
index 3310558..1919f39 100644
--- a/matslise/matscs/sector.cpp
+++ b/matslise/matscs/sector.cpp
@@ -152,24 +152,24 @@ inline Array<Scalar, Dynamic, 1> angle(const InputMatrix &m) {
 
     const Scalar PI2 = constants<Scalar>::PI * 2;
     for (Eigen::Index i = 0; i < angles.size(); ++i) {
-        if (angles[i] <= 0)
+        // An eigenvalue that is one up to rounding errors has angle zero
+        if (abs(angles[i]) <= EPS)
+            angles[i] = 0;
+        else if (angles[i] < 0)
             angles[i] += PI2;
     }
     return angles;
 }
 
 template<typename Scalar>
-pair<Y<Scalar, Dynamic>, Scalar> Matscs<Scalar>::Sector::propagateDelta(
-        const Scalar &E, const Y<Scalar, Dynamic> &y0, const Scalar &delta, bool use_h) const {
-    Y<Scalar, Dynamic> y1 = propagateDeltaColumn(E, y0, delta, use_h);
-
-    Scalar d = (delta > h ? h : delta < -h ? -h : delta);
-
-    ArrayXs Z = d * d * (vs[0].diagonal().array() - ArrayXs::Constant(n, E));
+pair<Scalar, bool> Matscs<Scalar>::Sector::argdetChange(
+        const Scalar &E, const Y<Scalar, Dynamic> &y0, const Y<Scalar, Dynamic> &y1, const Scalar &d) const {
+    const ArrayXs VE = vs[0].diagonal().array() - E;
+    const ArrayXs Z = d * d * VE;
 
     Array<Scalar, 2, Dynamic> eta = calculateEta<Scalar, 2>(Z);
     Scalar argdet = 0;
-    for (int i = 0; i < n; ++i) {
+    for (Index i = 0; i < n; ++i) {
         if (Z[i] < 0) {
             Scalar sZ = (d < 0 ? -1 : 1) * sqrt(-Z[i]);
             argdet += (sZ + atan2(
@@ -181,16 +181,54 @@ pair<Y<Scalar, Dynamic>, Scalar> Matscs<Scalar>::Sector::propagateDelta(
     }
     argdet *= 2;
 
-    MatrixXcs thetaZ0 = theta(y0);
-    MatrixXcs thetaZ = theta(y1);
-    ArrayXs betas = angle<Scalar>(thetaZ);
-    const complex<Scalar> i_delta(0, d);
-    ArrayXs alphas = angle<Scalar>(
-            ((eta.row(0) + i_delta * eta.row(1)) / (eta.row(0) - i_delta * eta.row(1))).matrix().asDiagonal() * thetaZ0
-    );
-    argdet += (betas - alphas).sum();
+    // The solution with the constant potential, and the one in which all angles turn as much as those from Y = 0.
+    // These become singular together: their angles pass the multiples of 2 pi at the same time.
+    const MatrixXs u = diagonalize.transpose() * y0.block();
+    const MatrixXs du = diagonalize.transpose() * y0.block(dX);
+    const ArrayXs eta0 = eta.row(0).transpose();
+    const ArrayXs eta1 = d * eta.row(1).transpose();
+    Y<Scalar, Dynamic> constant(n), turned(n);
+    constant.block() = eta0.matrix().asDiagonal() * u + eta1.matrix().asDiagonal() * du;
+    constant.block(dX) = eta0.matrix().asDiagonal() * du + (VE * eta1).matrix().asDiagonal() * u;
+    turned.block() = constant.block();
+    turned.block(dX) = eta0.matrix().asDiagonal() * du - eta1.matrix().asDiagonal() * u;
+
+    const MatrixXcs thetaConstant = theta(constant);
+    argdet += (angle<Scalar>(thetaConstant) - angle<Scalar>(theta(turned))).sum();
+
+    // The perturbation may move angles past a multiple of 2 pi
+    const ArrayXs perturbation = (diagonalize.transpose() * theta(y1) * diagonalize * thetaConstant.adjoint())
+            .eigenvalues().array().arg();
+    return {argdet + perturbation.sum(), perturbation.abs().maxCoeff() < constants<Scalar>::PI / 2};
+}
+
+template<typename Scalar>
+pair<Y<Scalar, Dynamic>, Scalar> Matscs<Scalar>::Sector::propagateDelta(
+        const Scalar &E, const Y<Scalar, Dynamic> &y0, const Scalar &delta, bool use_h) const {
+    Y<Scalar, Dynamic> y1 = propagateDeltaColumn(E, y0, delta, use_h);
+
+    Scalar d = (delta > h ? h : delta < -h ? -h : delta);
+
+    pair<Scalar, bool> change;
+    for (int steps = 1; steps <= 64; steps *= 2) {
+        change = {0, true};
+        Y<Scalar, Dynamic> previous = y0;
+        for (int i = 1; i <= steps && (change.second || steps == 64); ++i) {
+            // The propagation starts from the side of the sector which belongs to its direction
+            Y<Scalar, Dynamic> next = i == steps ? y1 :
+                                      (d > 0) == (direction != backward)
+                                      ? propagateDeltaColumn(E, y0, d * i / steps, use_h)
+                                      : propagateDeltaColumn(E, y1, -d * (steps - i) / steps, use_h);
+            pair<Scalar, bool> part = argdetChange(E, previous, next, d / steps);
+            change.first += part.first;
+            change.second &= part.second;
+            previous = next;
+        }
+        if (change.second)
+            break;
+    }
 
-    return {y1, argdet};
+    return {y1, change.first};
 }
 
 template<typename Scalar>
-- 
2.43.0


From 177ce106ae6935d1e0b0f0070ee5648a8c2a350d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:55 +0000
Subject: [PATCH 26/35] fix: pi for quadruple precision was only accurate to 23
 digits

---
 matslise/util/constants.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matslise/util/constants.h b/matslise/util/constants.h
index ff93b08..62d88d8 100644
--- a/matslise/util/constants.h
+++ b/matslise/util/constants.h
@@ -19,7 +19,7 @@ template<typename Scalar>
 inline const Scalar constants<Scalar>::PI = boost::math::constants::pi<Scalar>();
 #else
 template<typename Scalar>
-inline const Scalar constants<Scalar>::PI = static_cast<Scalar>(3.1415926535897932384626l);
+inline const Scalar constants<Scalar>::PI = acos(Scalar(-1));
 #endif
 
 
-- 
2.43.0


From e0c027b6feee742d8b7e963cb8a69e4ad526f9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:47 +0000
Subject: [PATCH 27/35] fix: eigenvalues of coupled boundary conditions were
 never more accurate than 1e-8

---
 matslise/matslise/periodic.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/matslise/matslise/periodic.cpp b/matslise/matslise/periodic.cpp
index fa1fdd0..309bab5 100644
--- a/matslise/matslise/periodic.cpp
+++ b/matslise/matslise/periodic.cpp
@@ -71,6 +71,12 @@ bool isAntiperiodic(const PeriodicMatslise<Scalar> *ms) {
     return ms->K(0, 1) > 0 || (ms->K(0, 1) == 0 && ms->K(0, 0) < 0);
 }
 
+// Eigenvalues are found up to 1e-8, or up to the tolerance when that is smaller
+template<typename Scalar>
+Scalar eigenvaluePrecision(const PeriodicMatslise<Scalar> *ms) {
+    return max(Scalar(4 * numeric_limits<Scalar>::epsilon()), min(Scalar(1e-8), ms->matslise.tolerance));
+}
+
 // The number of eigenvalues (with multiplicity) smaller than E.
 // The eigenvalues of the separated problem y(min) = 0, K^-1 (y, y')(max) = (0, *) are interlaced with the eigenvalues
 // of the periodic problem, the sign of the matching error decides on which side E is of the one in between.
@@ -97,7 +103,8 @@ int countEigenvalues(const PeriodicMatslise<Scalar> *ms, const Scalar &E) {
     Scalar error = terms.sum() - 4;
     // When both eigenvalues coincide the two signs may contradict each other, E is then in between by all means
     int nearest = (int) round(theta);
-    if (nearest >= 0 && abs(theta - nearest) < 1e-8 && abs(error) < 1e-9 * (4 + terms.abs().sum()))
+    const Scalar precision = eigenvaluePrecision(ms);
+    if (nearest >= 0 && abs(theta - nearest) < precision && abs(error) < precision / 10 * (4 + terms.abs().sum()))
         return nearest + 1;
     bool even = (n % 2 == 0) != isAntiperiodic(ms);
     return (even ? error < 0 : error > 0) ? n + 1 : n;
@@ -149,6 +156,7 @@ eigenpairsHelper(const PeriodicMatslise<Scalar> *ms, Scalar eMin, Scalar eMax, i
         }
     };
 
+    const Scalar precision = eigenvaluePrecision(ms);
     auto findEigenvalue = [&](int i) {
         Scalar low = eMin, high = eMax;
         for (Scalar step = 1; countEigenvalues(ms, low) > i; step *= 2)
@@ -157,7 +165,7 @@ eigenpairsHelper(const PeriodicMatslise<Scalar> *ms, Scalar eMin, Scalar eMax, i
             high += step;
         return binarySearch<Scalar>(low, high, [ms, i](Scalar E) {
             return countEigenvalues(ms, E) > i ? 1 : -1;
-        }, eps);
+        }, precision);
     };
 
     // In the periodic case eigenvalues 1&2, 3&4, ... may coincide, in the antiperiodic case 0&1, 2&3, ...
-- 
2.43.0


From ea05d50a8c73d4bf5a046d8b34604295bd4d06c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:32 +0000
Subject: [PATCH 28/35] fix: steps shorter than 1e-12 were ignored in every
 precision

---
 matslise/matslise/sector.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/matslise/matslise/sector.cpp b/matslise/matslise/sector.cpp
index e5691c7..b987afe 100644
--- a/matslise/matslise/sector.cpp
+++ b/matslise/matslise/sector.cpp
@@ -7,13 +7,18 @@
 #include "../util/theta.h"
 #include "../util/constants.h"
 
-#define EPS (1.e-12)
 
 using namespace std;
 using namespace matslise;
 using namespace Eigen;
 
 
+// Steps up to this length count as no step at all
+template<typename Scalar>
+inline Scalar shortestStep() {
+    return min(Scalar(1e-12), Scalar(5000 * numeric_limits<Scalar>::epsilon()));
+}
+
 template<typename Scalar>
 int sign(const Scalar &s) {
     return s > 0 ? 1 : s < 0 ? -1 : 0;
@@ -54,9 +59,9 @@ void Matslise<Scalar>::Sector::calculateTCoeffs() {
 
 template<typename Scalar>
 T<Scalar> Matslise<Scalar>::Sector::calculateT(const Scalar &E, const Scalar &delta, bool use_h) const {
-    if (abs(delta) <= EPS)
+    if (abs(delta) <= shortestStep<Scalar>())
         return T<Scalar>();
-    if (use_h && abs(delta - h) <= EPS)
+    if (use_h && abs(delta - h) <= shortestStep<Scalar>())
         return calculateT(E);
 
     const Scalar dd = delta * delta;
@@ -224,7 +229,7 @@ Matslise<Scalar>::Sector::propagate(
 template<typename Scalar>
 Scalar Matslise<Scalar>::Sector::error() const {
     // calculateT treats such a short sector as the identity
-    if (h <= EPS)
+    if (h <= shortestStep<Scalar>())
         return 0;
     Scalar e_loc0 = (
             (calculateT(vs[0], true).t - calculateT(vs[0], false).t).array() *
-- 
2.43.0


From 22343f8943e9f5b5c85842855c607deab6f4bfe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:31 +0000
Subject: [PATCH 29/35] fix: don't lose an eigenvalue when the angle is exactly
 a multiple of pi

---
 matslise/matslise/matslise.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matslise/matslise/matslise.cpp b/matslise/matslise/matslise.cpp
index e4336f9..d67c626 100644
--- a/matslise/matslise/matslise.cpp
+++ b/matslise/matslise/matslise.cpp
@@ -147,7 +147,7 @@ computeEigenvaluesHelper(const Matslise<Scalar> *ms, Scalar Emin, Scalar Emax, i
             } else {
                 if (abs(tc - ia) < 1e-8 && refine(E))
                     eigenvalues.emplace_back(ia, E);
-                else if ((ta - ia) * (tc - ia) <= 0)
+                else if (tc > ia)
                     toCheck.push(make_tuple(a, ta, c, tc, depth + 1));
                 else
                     toCheck.push(make_tuple(c, tc, b, tb, depth + 1));
-- 
2.43.0


From 8e543617c6fee9ec42da26732218579c59652206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:31 +0000
Subject: [PATCH 30/35] fix: reach the tolerance on domains that are not much
 longer than 1e-3

---
 matslise/util/sectorbuilder.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/matslise/util/sectorbuilder.cpp b/matslise/util/sectorbuilder.cpp
index 27c677a..2b88492 100644
--- a/matslise/util/sectorbuilder.cpp
+++ b/matslise/util/sectorbuilder.cpp
@@ -56,7 +56,7 @@ template<typename Problem>
 unique_ptr<typename Problem::Sector> automaticNextSector(
         const Problem *ms, typename Problem::Scalar &h,
         const typename Problem::Scalar &left, const typename Problem::Scalar &right,
-        const typename Problem::Scalar &tolerance, Direction direction) {
+        const typename Problem::Scalar &tolerance, const typename Problem::Scalar &minimalH, Direction direction) {
     typedef typename Problem::Scalar Scalar;
     typedef typename Problem::Sector Sector;
     Scalar xmin = direction == Direction::forward ? left : right - h;
@@ -70,7 +70,7 @@ unique_ptr<typename Problem::Sector> automaticNextSector(
     int steps = 0;
     unique_ptr<Sector> s = std::make_unique<Sector>(ms, xmin, xmax, direction);
     Scalar error = s->error();
-    while (error > tolerance && steps < 10 && h > 1e-3) {
+    while (error > tolerance && steps < 10 && h > minimalH) {
         ++steps;
         h *= std::max(Scalar(.1), .99 * Scalar(pow(tolerance / error, Scalar(1. / (Problem::order - 1)))));
         if (direction == Direction::forward) {
@@ -147,6 +147,8 @@ AutomaticSectorBuilder<Problem, Scalar>::operator()(const Problem *problem, cons
     std::vector<unique_ptr<Sector>> backward;
     // It shouldn't be the true middle
     Scalar mid = 0.4956864123 * max + 0.5043135877 * min;
+    // On short domains sectors may be shorter too
+    Scalar minimalH = Scalar(1e-3) * std::min(Scalar(1), max - min);
     Scalar forwardH = .33 * (max - min);
     Scalar backwardH = forwardH;
     auto forwardJumpPosition = jumps.begin();
@@ -159,10 +161,10 @@ AutomaticSectorBuilder<Problem, Scalar>::operator()(const Problem *problem, cons
     };
     forward.emplace_back(
             automaticNextSector(problem, forwardH, min, std::min(mid, nextForwardJump()), tolerance,
-                                Direction::forward));
+                                minimalH, Direction::forward));
     backward.emplace_back(
             automaticNextSector(problem, backwardH, std::max(mid, nextBackwardJump()), max, tolerance,
-                                Direction::backward));
+                                minimalH, Direction::backward));
 
 
     while (forward.back()->max != backward.back()->min) {
@@ -172,14 +174,14 @@ AutomaticSectorBuilder<Problem, Scalar>::operator()(const Problem *problem, cons
             forward.emplace_back(automaticNextSector(
                     problem, forwardH,
                     forward.back()->max, std::min(backward.back()->min, nextForwardJump()),
-                    tolerance, Direction::forward));
+                    tolerance, minimalH, Direction::forward));
         } else {
             if (backward.back()->min == nextBackwardJump())
                 ++backwardJumpPosition;
             backward.emplace_back(automaticNextSector(
                     problem, backwardH,
                     std::max(forward.back()->max, nextBackwardJump()), backward.back()->min,
-                    tolerance, Direction::backward));
+                    tolerance, minimalH, Direction::backward));
         }
     }
 
-- 
2.43.0


From 67ecce07ac6a6e8f131f8cf581b304622e4402e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:31 +0000
Subject: [PATCH 31/35] fix: find the eigenvalues when solutions grow beyond
 the largest number

---
 matslise/matslise.h            |  3 +-
 matslise/matslise/matslise.cpp | 51 ++++++++++++++++++++++++++--------
 2 files changed, 42 insertions(+), 12 deletions(-)

diff --git a/matslise/matslise.h b/matslise/matslise.h
index 28c482f..af467ab 100644
--- a/matslise/matslise.h
+++ b/matslise/matslise.h
@@ -161,11 +161,12 @@ namespace matslise {
                 s->v0Match = v0Match;
         }
 
+        // With an exponent the solution is kept in range, the returned y has to be multiplied by 2^exponent.
         template<int cols = 1>
         std::pair<matslise::Y<Scalar, 1, cols>,
                 typename std::conditional<cols == 1, Scalar, Eigen::Array<Scalar, cols, 1>>::type>
         propagate(const Scalar &E, const matslise::Y<Scalar, 1, cols> &y, const Scalar &a, const Scalar &b,
-                  bool use_h = true) const;
+                  bool use_h = true, int *exponent = nullptr) const;
 
         std::tuple<Scalar, Scalar, Scalar>
         matchingError(const Scalar &E, const matslise::Y<Scalar> &left, const matslise::Y<Scalar> &right,
diff --git a/matslise/matslise/matslise.cpp b/matslise/matslise/matslise.cpp
index d67c626..8eae5a0 100644
--- a/matslise/matslise/matslise.cpp
+++ b/matslise/matslise/matslise.cpp
@@ -12,11 +12,21 @@ using namespace std;
 using namespace Eigen;
 using std::unique_ptr;
 
+// Behind a barrier a solution may grow beyond the largest number
+template<typename Scalar, int cols>
+void limitGrowth(Y<Scalar, 1, cols> &y, int &exponent) {
+    const int step = 400;
+    if (y.data.cwiseAbs().maxCoeff() > pow(Scalar(2), step)) {
+        y *= pow(Scalar(2), -step);
+        exponent += step;
+    }
+}
+
 template<typename Scalar>
 template<int cols>
 pair<Y<Scalar, 1, cols>, typename conditional<cols == 1, Scalar, Eigen::Array<Scalar, cols, 1>>::type>
 Matslise<Scalar>::propagate(const Scalar &E, const Y<Scalar, 1, cols> &_y,
-                            const Scalar &a, const Scalar &b, bool use_h) const {
+                            const Scalar &a, const Scalar &b, bool use_h, int *exponent) const {
     MATSLISE_SCOPED_TIMER("Matslise::propagate");
     if (!domain.contains(a) || !domain.contains(b))
         throw runtime_error("Matslise::propagate(): a and b should be in the interval");
@@ -34,6 +44,8 @@ Matslise<Scalar>::propagate(const Scalar &E, const Y<Scalar, 1, cols> &_y,
         const Sector &sector = *sectors[sectorIndex];
         tie(y, dTheta) = sector.template propagate<true>(E, y, a, b, use_h);
         theta += dTheta;
+        if (exponent)
+            limitGrowth(y, *exponent);
         if (sector.contains(b))
             break;
         sectorIndex += a < b ? 1 : -1;
@@ -50,8 +62,9 @@ Matslise<Scalar>::matchingError(const Scalar &E, const Y<Scalar> &left, const Y<
     MATSLISE_SCOPED_TIMER("Matslise::matchingError");
     Y<Scalar> l, r;
     Scalar thetaL, thetaR;
-    tie(l, thetaL) = propagate(E, left, domain.min, sectors[matchIndex]->max, use_h);
-    tie(r, thetaR) = propagate(E, right, domain.max, sectors[matchIndex]->max, use_h);
+    int exponent = 0; // only a positive factor of the error
+    tie(l, thetaL) = propagate(E, left, domain.min, sectors[matchIndex]->max, use_h, &exponent);
+    tie(r, thetaR) = propagate(E, right, domain.max, sectors[matchIndex]->max, use_h, &exponent);
     return make_tuple(l.data[1] * r.data[0] - r.data[1] * l.data[0],
                       l.data[3] * r.data[0] + l.data[1] * r.data[2] - (r.data[3] * l.data[0] + r.data[1] * l.data[2]),
                       thetaL - thetaR);
@@ -91,6 +104,13 @@ Scalar Matslise<Scalar>::estimatePotentialMinimum() const {
     return minimal;
 }
 
+// The number of eigenvalues below E, interpolated. The solutions only get out of range far below the potential.
+template<typename Scalar>
+Scalar eigenvaluesBelow(const Matslise<Scalar> *ms, const Scalar &E, const Y<Scalar> &left, const Y<Scalar> &right) {
+    Scalar theta = get<2>(ms->matchingError(E, left, right));
+    return isnan(theta) ? Scalar(0) : Scalar(theta / constants<Scalar>::PI);
+}
+
 template<typename Scalar>
 vector<pair<int, Scalar>>
 computeEigenvaluesHelper(const Matslise<Scalar> *ms, Scalar Emin, Scalar Emax, int Imin, int Imax,
@@ -102,8 +122,8 @@ computeEigenvaluesHelper(const Matslise<Scalar> *ms, Scalar Emin, Scalar Emax, i
     vector<pair<int, Scalar>> eigenvalues;
     queue<tuple<Scalar, Scalar, Scalar, Scalar, int>> toCheck;
 
-    toCheck.push(make_tuple(Emin, get<2>(ms->matchingError(Emin, left, right)) / constants<Scalar>::PI,
-                            Emax, get<2>(ms->matchingError(Emax, left, right)) / constants<Scalar>::PI,
+    toCheck.push(make_tuple(Emin, eigenvaluesBelow(ms, Emin, left, right),
+                            Emax, eigenvaluesBelow(ms, Emax, left, right),
                             0));
 
     Scalar a, ta, b, tb, c, tc;
@@ -133,7 +153,7 @@ computeEigenvaluesHelper(const Matslise<Scalar> *ms, Scalar Emin, Scalar Emax, i
             for (int index = max(ia, Imin); index < min(ib, Imax); ++index)
                 eigenvalues.emplace_back(index, E);
         } else {
-            tc = get<2>(ms->matchingError(c, left, right)) / constants<Scalar>::PI;
+            tc = eigenvaluesBelow(ms, c, left, right);
             // the angle increases with E, whatever rounding makes of it: every index belongs to exactly one half
             if (tc < ta)
                 tc = ta;
@@ -168,7 +188,7 @@ Matslise<Scalar>::eigenvaluesByIndex(int Imin, int Imax, const Y<Scalar> &left,
     Scalar Emin = -1;
     Scalar Emax = 1;
     while (true) {
-        Scalar t = get<2>(matchingError(Emax, left, right)) / constants<Scalar>::PI;
+        Scalar t = eigenvaluesBelow(this, Emax, left, right);
         int i = (int) floor(t);
         if (i >= Imax)
             break;
@@ -180,7 +200,7 @@ Matslise<Scalar>::eigenvaluesByIndex(int Imin, int Imax, const Y<Scalar> &left,
     }
     if (Emin == -1) {
         while (true) {
-            Scalar t = get<2>(matchingError(Emin, left, right)) / constants<Scalar>::PI;
+            Scalar t = eigenvaluesBelow(this, Emin, left, right);
             int i = (int) ceil(t);
             if (i <= Imin)
                 break;
@@ -213,17 +233,26 @@ template<typename Scalar>
 vector<Y<Scalar>> propagationSteps(const Matslise<Scalar> &ms, Scalar E,
                                    const Y<Scalar> &left, const Y<Scalar> &right) {
     vector<Y<Scalar>> ys(ms.sectorCount + 1);
+    vector<int> exponents(ms.sectorCount + 1);
+    int exponent = 0;
     ys[0] = left;
     for (int i = 0; i <= ms.matchIndex; ++i) {
         const typename Matslise<Scalar>::Sector &sector = *ms.sectors[i];
         ys[i + 1] = sector.template propagate<false>(E, ys[i], sector.min, sector.max);
+        limitGrowth(ys[i + 1], exponent);
+        exponents[i + 1] = exponent;
     }
+    int exponentL = exponent;
     Y<Scalar> yl = ys[ms.matchIndex + 1];
 
+    exponent = 0;
     ys[ms.sectorCount] = right;
+    exponents[ms.sectorCount] = 0;
     for (int i = ms.sectorCount - 1; i > ms.matchIndex; --i) {
         const typename Matslise<Scalar>::Sector &sector = *ms.sectors[i];
         ys[i] = sector.template propagate<false>(E, ys[i + 1], sector.max, sector.min);
+        limitGrowth(ys[i], exponent);
+        exponents[i] = exponent;
     }
     Y<Scalar> &yr = ys[ms.matchIndex + 1];
 
@@ -239,9 +268,9 @@ vector<Y<Scalar>> propagationSteps(const Matslise<Scalar> &ms, Scalar E,
     }
     int i = 0;
     for (; i <= ms.matchIndex; ++i)
-        ys[i] *= ((Scalar) 1.) / norm;
+        ys[i] *= pow(Scalar(2), exponents[i] - exponentL) / norm;
     for (; i <= ms.sectorCount; ++i)
-        ys[i] *= s / norm;
+        ys[i] *= pow(Scalar(2), exponents[i] - exponent) * s / norm;
     return ys;
 }
 
@@ -325,7 +354,7 @@ unique_ptr<typename Matslise<Scalar>::Eigenfunction> Matslise<Scalar>::eigenfunc
 
 #define INSTANTIATE_PROPAGATE(Scalar, cols) \
 template pair<Y<Scalar, 1, cols>, typename conditional<cols == 1, Scalar, Eigen::Array<Scalar, cols, 1>>::type> \
-Matslise<Scalar>::propagate<cols>(const Scalar &, const Y<Scalar, 1, cols> &, const Scalar &, const Scalar &, bool) const; \
+Matslise<Scalar>::propagate<cols>(const Scalar &, const Y<Scalar, 1, cols> &, const Scalar &, const Scalar &, bool, int *) const; \
 
 #define INSTANTIATE_MORE(Scalar) \
 INSTANTIATE_PROPAGATE(Scalar, 1) \
-- 
2.43.0


From f38dfc65ba210a8276fa472edf718c16eac9a3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:31 +0000
Subject: [PATCH 32/35] fix: find the periodic eigenvalues when solutions grow
 beyond the largest number

---
 matslise/matslise/periodic.cpp | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/matslise/matslise/periodic.cpp b/matslise/matslise/periodic.cpp
index 309bab5..71a7511 100644
--- a/matslise/matslise/periodic.cpp
+++ b/matslise/matslise/periodic.cpp
@@ -29,9 +29,14 @@ PeriodicMatslise<Scalar>::matchingError(const Scalar &E, bool use_h) const {
     Y<Scalar, 1, 2> l = periodicInitialValue<Scalar>();
     Y<Scalar, 1, 2> r = periodicInitialValue<Scalar>(K);
     Array<Scalar, 2, 1> thetaL, thetaR;
-    tie(l, thetaL) = propagate(E, l, matslise.domain.min, matslise.sectors[matslise.matchIndex]->max, use_h);
-    tie(r, thetaR) = propagate(E, r, matslise.domain.max, matslise.sectors[matslise.matchIndex]->max, use_h);
+    int exponentL = 0, exponentR = 0;
+    const Scalar &match = matslise.sectors[matslise.matchIndex]->max;
+    tie(l, thetaL) = matslise.template propagate<2>(E, l, matslise.domain.min, match, use_h, &exponentL);
+    tie(r, thetaR) = matslise.template propagate<2>(E, r, matslise.domain.max, match, use_h, &exponentR);
 
+    // The mismatch is only scaled when it would overflow otherwise
+    l *= pow(Scalar(2), min(0, exponentL - exponentR));
+    r *= pow(Scalar(2), min(0, exponentR - exponentL));
     Y<Scalar, 1, 2> error = l;
     error.data -= r.data;
     Array<Scalar, 2, 1> theta = thetaL - thetaR;
@@ -87,24 +92,30 @@ int countEigenvalues(const PeriodicMatslise<Scalar> *ms, const Scalar &E) {
     Scalar theta = get<2>(ms->matslise.matchingError(E, Y<Scalar>::Dirichlet(), right)) / constants<Scalar>::PI;
     int n = max(0, (int) ceil(theta));
     const Scalar &match = ms->matslise.sectors[ms->matslise.matchIndex]->max;
-    Y<Scalar, 1, 2> l = ms->propagate(E, periodicInitialValue<Scalar>(), ms->matslise.domain.min, match).first;
-    Y<Scalar, 1, 2> r = ms->propagate(E, periodicInitialValue<Scalar>(ms->K), ms->matslise.domain.max, match).first;
+    int exponentL = 0, exponentR = 0;
+    Y<Scalar, 1, 2> l = ms->matslise.template propagate<2>(
+            E, periodicInitialValue<Scalar>(), ms->matslise.domain.min, match, true, &exponentL).first;
+    Y<Scalar, 1, 2> r = ms->matslise.template propagate<2>(
+            E, periodicInitialValue<Scalar>(ms->K), ms->matslise.domain.max, match, true, &exponentR).first;
     auto yl = l.y(), yr = r.y();
     // det(l - r), but det(l) = det(r) = -2 would drown in cancellation behind a barrier. Where they do not, the
     // deviation from -2 is an error of the propagation that would separate nearly double eigenvalues by its root.
-    auto deviation = [](const auto &y) -> Scalar {
+    auto deviation = [](const auto &y, int exponent) -> Scalar {
+        if (exponent > 0)
+            return 1;
         Scalar p = y(0, 0) * y(1, 1), q = y(0, 1) * y(1, 0);
         Scalar d = (q - p) / 2;
         return d > 0 && abs(d - 1) > 16 * numeric_limits<Scalar>::epsilon() * (abs(p) + abs(q)) ? d : Scalar(1);
     };
     Array<Scalar, 4, 1> terms;
     terms << yl(0, 1) * yr(1, 0), yr(0, 1) * yl(1, 0), -yl(0, 0) * yr(1, 1), -yr(0, 0) * yl(1, 1);
-    terms /= sqrt(deviation(yl) * deviation(yr));
-    Scalar error = terms.sum() - 4;
+    terms /= sqrt(deviation(yl, exponentL) * deviation(yr, exponentR));
+    const Scalar four = 4 * pow(Scalar(2), -(exponentL + exponentR));
+    Scalar error = terms.sum() - four;
     // When both eigenvalues coincide the two signs may contradict each other, E is then in between by all means
     int nearest = (int) round(theta);
     const Scalar precision = eigenvaluePrecision(ms);
-    if (nearest >= 0 && abs(theta - nearest) < precision && abs(error) < precision / 10 * (4 + terms.abs().sum()))
+    if (nearest >= 0 && abs(theta - nearest) < precision && abs(error) < precision / 10 * (four + terms.abs().sum()))
         return nearest + 1;
     bool even = (n % 2 == 0) != isAntiperiodic(ms);
     return (even ? error < 0 : error > 0) ? n + 1 : n;
-- 
2.43.0


From bbfd138af5acc39cde09b3fcc0029bb380224a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:32 +0000
Subject: [PATCH 33/35] fix: split the sectors in which a solution can grow
 beyond the largest number

---
 matslise/util/sectorbuilder.cpp | 36 +++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/matslise/util/sectorbuilder.cpp b/matslise/util/sectorbuilder.cpp
index 2b88492..eb51632 100644
--- a/matslise/util/sectorbuilder.cpp
+++ b/matslise/util/sectorbuilder.cpp
@@ -129,6 +129,40 @@ unique_ptr<typename Problem::Sector> automaticNextSector(
     return s;
 }
 
+// Solutions grow exponentially when E is smaller than the potential. In a single sector this may not go out of range, for
+// every E the search for eigenvalues may visit: up to twice the minimum of the potential.
+template<typename Problem>
+void splitSteepSectors(const Problem *problem, vector<unique_ptr<typename Problem::Sector>> &sectors, int &matchIndex) {
+    typedef typename Problem::Scalar Scalar;
+    typedef typename Problem::Sector Sector;
+    Scalar lowest = sectors[0]->vs[0];
+    for (auto &sector: sectors)
+        lowest = std::min(lowest, sector->vs[0]);
+    lowest -= abs(lowest);
+
+    vector<unique_ptr<Sector>> split;
+    int splitMatchIndex = 0;
+    for (int i = 0; i < (int) sectors.size(); ++i) {
+        const Sector &sector = *sectors[i];
+        Scalar growth = sector.h * sqrt(sector.vs[0] - lowest);
+        if (growth > 300) {
+            int n = (int) ceil(std::min(growth / 300, Scalar(100)));
+            Scalar left = sector.min;
+            for (int j = 1; j <= n; ++j) {
+                Scalar right = j == n ? sector.max : sector.min + sector.h * j / n;
+                split.emplace_back(refineSector<Scalar, Problem>(sector, problem, left, right, sector.direction));
+                left = right;
+            }
+        } else {
+            split.emplace_back(std::move(sectors[i]));
+        }
+        if (i == matchIndex)
+            splitMatchIndex = (int) split.size() - 1;
+    }
+    sectors = std::move(split);
+    matchIndex = splitMatchIndex;
+}
+
 template<typename Problem, typename Scalar>
 SectorBuilderReturn<Problem>
 AutomaticSectorBuilder<Problem, Scalar>::operator()(const Problem *problem, const Scalar &min,
@@ -187,6 +221,8 @@ AutomaticSectorBuilder<Problem, Scalar>::operator()(const Problem *problem, cons
 
     int matchIndex = forward.size() - 1;
     forward.insert(forward.end(), make_move_iterator(backward.rbegin()), make_move_iterator(backward.rend()));
+    if constexpr(std::is_same<Problem, Matslise<Scalar>>::value)
+        splitSteepSectors(problem, forward, matchIndex);
     return {std::move(forward), matchIndex};
 };
 
-- 
2.43.0


From 3413043d91abef9a14e0ee9c15c966eabf7bcff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:49 +0000
Subject: [PATCH 34/35] fix: find the eigenvalues when solutions grow beyond
 the largest number (windows far below the potential)

---
 matslise/matslise/matslise.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/matslise/matslise/matslise.cpp b/matslise/matslise/matslise.cpp
index 8eae5a0..ab11d10 100644
--- a/matslise/matslise/matslise.cpp
+++ b/matslise/matslise/matslise.cpp
@@ -107,8 +107,9 @@ Scalar Matslise<Scalar>::estimatePotentialMinimum() const {
 // The number of eigenvalues below E, interpolated. The solutions only get out of range far below the potential.
 template<typename Scalar>
 Scalar eigenvaluesBelow(const Matslise<Scalar> *ms, const Scalar &E, const Y<Scalar> &left, const Y<Scalar> &right) {
-    Scalar theta = get<2>(ms->matchingError(E, left, right));
-    return isnan(theta) ? Scalar(0) : Scalar(theta / constants<Scalar>::PI);
+    Scalar error, theta;
+    tie(error, ignore, theta) = ms->matchingError(E, left, right);
+    return isfinite(error) && isfinite(theta) ? Scalar(theta / constants<Scalar>::PI) : Scalar(0);
 }
 
 template<typename Scalar>
@@ -202,7 +203,7 @@ Matslise<Scalar>::eigenvaluesByIndex(int Imin, int Imax, const Y<Scalar> &left,
         while (true) {
             Scalar t = eigenvaluesBelow(this, Emin, left, right);
             int i = (int) ceil(t);
-            if (i <= Imin)
+            if (i <= max(0, Imin))
                 break;
             else {
                 if (i > Imax)
-- 
2.43.0


From 21b8ba7283f786cadbe5c3f600a3eb9e5f5e63f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:07 +0000
Subject: [PATCH 35/35] fix: tiny angles of solutions with a negative
 derivative were lost

---
 matslise/util/theta.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/matslise/util/theta.h b/matslise/util/theta.h
index 690d69e..83be8ec 100644
--- a/matslise/util/theta.h
+++ b/matslise/util/theta.h
@@ -6,7 +6,8 @@
 
 template<typename Scalar>
 inline Scalar atan_safe(const Scalar &y, const Scalar &x) {
-    Scalar r = atan2(y, x);
+    // both signs have the same angle, subtracting pi afterwards would lose small ones
+    Scalar r = x < 0 ? atan2(-y, -x) : atan2(y, x);
     if (r > constants<Scalar>::PI / 2)
         r -= constants<Scalar>::PI;
     else if (r <= -constants<Scalar>::PI / 2)
-- 
2.43.0

