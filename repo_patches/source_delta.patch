From abd03144f39bf57235154de7872d2eef71a92263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:43 +0000
Subject: [PATCH 01/17] fix: scale the rounded uncertainty correctly in format,
 find std::pow before using it

---
 uncertainties/io.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uncertainties/io.hpp b/uncertainties/io.hpp
index ce39600..4097ba0 100644
--- a/uncertainties/io.hpp
+++ b/uncertainties/io.hpp
@@ -99,11 +99,11 @@ namespace uncertainties {
         int ndigits(Real *const x, const float n) {
             int ndig = naive_ndigits(*x, n);
             const int xexp = exponent(*x);
-            const Real rounded_x = int_mantissa(*x, ndig, xexp) * pow(Real(10), xexp);
+            using std::pow;
+            const Real rounded_x = int_mantissa(*x, ndig, xexp) * pow(Real(10), xexp - ndig + 1);
             if (rounded_x > *x) {
                 const int rounded_ndig = naive_ndigits(rounded_x, n);
                 if (rounded_ndig > ndig) {
-                    using std::pow;
                     *x = rounded_x;
                     ndig = rounded_ndig;
                 }
-- 
2.43.0


From 37ba5ff8a5d80cdd0bcc4d106b768bde86325bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:43 +0000
Subject: [PATCH 02/17] fix: keep the mean aligned in format when its rounding
 carries to a new digit

---
 uncertainties/io.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/uncertainties/io.hpp b/uncertainties/io.hpp
index 4097ba0..04da9f7 100644
--- a/uncertainties/io.hpp
+++ b/uncertainties/io.hpp
@@ -165,8 +165,14 @@ namespace uncertainties {
         int sexp = internal::exponent(s);
         int muexp = mu != 0 ? internal::exponent(mu) : sexp - sndig - 1;
         std::string smant = internal::mantissa(s, sndig, &sexp);
-        const int mundig = sndig + muexp - sexp;
+        int mundig = sndig + muexp - sexp;
+        const int unrounded_muexp = muexp;
         std::string mumant = internal::mantissa(mu, mundig, &muexp);
+        if (muexp != unrounded_muexp) {
+            // rounding carried to a new digit: keep it to stay aligned with s
+            mundig += 1;
+            mumant.push_back('0');
+        }
         const std::string musign = mu < 0 ? "-" : "";
         bool use_exp;
         int base_exp;
-- 
2.43.0


From d69cee06a82623cb1b61533a314ffb8469a7e7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:43 +0000
Subject: [PATCH 03/17] fix: do not drop the minus sign when formatting a
 number without uncertainty

---
 uncertainties/io.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uncertainties/io.hpp b/uncertainties/io.hpp
index 04da9f7..e191ec2 100644
--- a/uncertainties/io.hpp
+++ b/uncertainties/io.hpp
@@ -143,7 +143,7 @@ namespace uncertainties {
             } else {
                 insert_dot(&m, n, e);
             }
-            return m;
+            return x < 0 ? "-" + m : m;
         }
     }
     
-- 
2.43.0


From 93bf9f864ec113c8f7b55f1fe61907a6719cfed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:43 +0000
Subject: [PATCH 04/17] fix: UReal::grad of an independent variable, make it
 const

---
 uncertainties/ureal.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/uncertainties/ureal.hpp b/uncertainties/ureal.hpp
index 0b78d4f..29a9e50 100644
--- a/uncertainties/ureal.hpp
+++ b/uncertainties/ureal.hpp
@@ -574,7 +574,7 @@ namespace uncertainties {
         \throw std::invalid_argument if `x` is not independent or if it has
         no uncertainty information.
         */
-        Real grad(const UReal<Real> &x) {
+        Real grad(const UReal<Real> &x) const {
             if (not (x.id > 0 or x.sigma.size() == 1)) {
                 std::ostringstream ss;
                 ss << "uncertainties::UReal::grad: ";
@@ -582,9 +582,12 @@ namespace uncertainties {
                 throw std::invalid_argument(ss.str());
             }
             const Id xid = x.id > 0 ? x.id : x.sigma.begin()->first;
+            const Real &xg = x.id > 0 ? x.sdev : x.sigma.begin()->second;
+            if (this->id > 0) {
+                return this->id == xid ? this->sdev / xg : Real(0);
+            }
             const typename std::map<Id, Real>::const_iterator it = this->sigma.find(xid);
             if (it != this->sigma.end()) {
-                const Real &xg = x.id > 0 ? x.sdev : x.sigma.begin()->second;
                 return it->second / xg;
             } else {
                 return 0;
-- 
2.43.0


From 2d06bea0643d3670d0bf47211f3967fd1014c7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:43 +0000
Subject: [PATCH 05/17] fix: visit missing off-diagonal hessian elements in
 ConstHessIt

---
 uncertainties/internal/hessgrad.hpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/uncertainties/internal/hessgrad.hpp b/uncertainties/internal/hessgrad.hpp
index 89567a4..0e3e929 100644
--- a/uncertainties/internal/hessgrad.hpp
+++ b/uncertainties/internal/hessgrad.hpp
@@ -451,6 +451,19 @@ namespace uncertainties {
                 
                 void operator++() noexcept {
                     assert(diagmin != diagend and diagmax != diagend);
+                    if (not skipmissing) {
+                        // visit all the pairs, tri follows the diagonal
+                        ++diagmax;
+                        if (diagmax == diagend) {
+                            ++diagmin;
+                            diagmax = diagmin;
+                        }
+                        if (diagmax != diagend) {
+                            const IdPair id {diagmin->first, diagmax->first};
+                            for (; tri != triend && tri->first < id; ++tri) ;
+                        }
+                        return;
+                    }
                     if (diagmin == diagmax) {
                         ++diagmax;
                     } else {
@@ -461,7 +474,7 @@ namespace uncertainties {
                     if (tri == triend || tri->first.first > diagmin->first) {
                         ++diagmin;
                         diagmax = diagmin;
-                    } else if (skipmissing) {
+                    } else {
                         for (; diagmax != diagend && diagmax->first < tri->first.second; ++diagmax) ;
                         assert(diagmax != diagend && diagmax->first == tri->first.second);
                     }
-- 
2.43.0


From c0931644eee3092b1d0b5a9c509c0b0f9025ba13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:43 +0000
Subject: [PATCH 06/17] fix: sign of the gradient of UReal atan2, and NaN when
 the first argument is 0

---
 uncertainties/math.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/uncertainties/math.hpp b/uncertainties/math.hpp
index 5bf1b07..e910220 100644
--- a/uncertainties/math.hpp
+++ b/uncertainties/math.hpp
@@ -171,9 +171,9 @@ namespace uncertainties {
     template<typename Real>
     UReal<Real> atan2(const UReal<Real> &x, const UReal<Real> &y) {
         using std::atan2;
-        const Real yx = y.n() / x.n();
-        const Real dy = Real(1) / ((Real(1) + yx * yx) * x.n());
-        const Real dx = dy * (-yx);
+        const Real xxyy = x.n() * x.n() + y.n() * y.n();
+        const Real dx = y.n() / xxyy;
+        const Real dy = -x.n() / xxyy;
         return binary(x, y, atan2(x.n(), y.n()), dx, dy);
     }
     template<typename Real>
-- 
2.43.0


From de633134df79c8f25adc8ab0408119d706ab1905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:43 +0000
Subject: [PATCH 07/17] fix: uncertainty of UReal cbrt is NaN for a negative
 mean

---
 uncertainties/math.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uncertainties/math.hpp b/uncertainties/math.hpp
index e910220..4a6bd3b 100644
--- a/uncertainties/math.hpp
+++ b/uncertainties/math.hpp
@@ -124,8 +124,8 @@ namespace uncertainties {
     template<typename Real>
     UReal<Real> cbrt(const UReal<Real> &x) {
         using std::cbrt;
-        using std::pow;
-        return unary(x, cbrt(x.n()), pow(x.n(), -Real(2) / Real(3)) / Real(3));
+        const Real c = cbrt(x.n());
+        return unary(x, c, Real(1) / (3 * c * c));
     }
     template<typename Real>
     UReal<Real> hypot(const UReal<Real> &x, const UReal<Real> &y) {
-- 
2.43.0


From 4a83765b05bf3b76eee90957c6dc784db5f79852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:43 +0000
Subject: [PATCH 08/17] fix: isfinite and isnormal on UReal2 do not compile

---
 uncertainties/math.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uncertainties/math.hpp b/uncertainties/math.hpp
index 4a6bd3b..48f2dae 100644
--- a/uncertainties/math.hpp
+++ b/uncertainties/math.hpp
@@ -534,7 +534,7 @@ namespace uncertainties {
     template<typename Real, Prop prop>
     bool isfinite(const UReal2<Real, prop> &x) {
         using std::isfinite;
-        return x.all(x, [](const Real &n) { return isfinite(n); });
+        return all(x, [](const Real &n) { return isfinite(n); });
     }
     /*!
     \brief Are all the internal coefficients normal?
@@ -542,7 +542,7 @@ namespace uncertainties {
     template<typename Real, Prop prop>
     bool isnormal(const UReal2<Real, prop> &x) {
         using std::isnormal;
-        return x.all(x, [](const Real &n) { return isnormal(n); });
+        return all(x, [](const Real &n) { return isnormal(n); });
     }
 }
 
-- 
2.43.0


From cfdf9d51f85cfbc3afc1dd421d6e352ad52eaa2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:43 +0000
Subject: [PATCH 09/17] fix: UReal2 binary_assign added to the first operand
 instead of replacing it

---
 uncertainties/ureal2.hpp | 75 +---------------------------------------
 1 file changed, 1 insertion(+), 74 deletions(-)

diff --git a/uncertainties/ureal2.hpp b/uncertainties/ureal2.hpp
index 62af817..a1919b2 100644
--- a/uncertainties/ureal2.hpp
+++ b/uncertainties/ureal2.hpp
@@ -909,80 +909,7 @@ namespace uncertainties {
             const Real &dfdx, const Real &dfdy,
             const Real &ddfdxdx, const Real &ddfdydy, const Real &ddfdxdy
         ) {
-            // THIS FUNCTION IS NOT FINISHED! It modifies x and then reads
-            // it again... how do I do this?
-            // O(n) fix: the first part walks in order the hessian. It never
-            // happens that a hessian element is required to compute the hessian
-            // element at a different coordinate. So I can save x's gradient
-            // beforehand in an array.
-            
-            x.mu = fxy;
-
-            constexpr Id maxid = std::numeric_limits<Id>::max();
-            const std::pair<Id, Id> pmaxid {maxid, maxid};
-
-            const Real hddfdxdx = ddfdxdx / 2;
-            const Real hddfdydy = ddfdydy / 2;
-            const Real hddfdxdy = ddfdxdy / 2;
-        
-            ConstHessIt itx = x.hg.chbegin(hddfdxdx == 0);
-            const ConstHessIt xend = x.hg.chend();
-            ConstHessIt ity = y.hg.chbegin(hddfdydy == 0);
-            const ConstHessIt yend = y.hg.chend();
-            
-            while (itx != xend or ity != yend) {
-                const std::pair<Id, Id> idx = itx != xend ? std::make_pair(itx.id1(), itx.id2()) : pmaxid;
-                const std::pair<Id, Id> idy = ity != yend ? std::make_pair(ity.id1(), ity.id2()) : pmaxid;
-                
-                Real *hhess;
-                Diag *diag;
-                
-                if (idx <= idy) {
-                    hhess = &x.hg.hhess(idx.first, idx.second);
-                    *hhess += hddfdxdx * itx.diag1().grad * itx.diag2().grad;
-                    *hhess += dfdx * (*itx);
-                    if (idx.first == idx.second) {
-                        diag = &x.hg.diag(idx.first);
-                        diag->mom = itx.diag1().mom;
-                        diag->grad += dfdx * itx.diag1().grad;
-                    }
-                }
-                
-                if (idy <= idx) {
-                    if (idx != idy) {
-                        hhess = &x.hg.hhess(idy.first, idy.second);
-                        if (idy.first == idy.second) {
-                            diag = &x.hg.diag(idy.first);
-                            diag->mom = ity.diag1().mom;
-                        }
-                    }
-                    *hhess += hddfdydy * ity.diag1().grad * ity.diag2().grad;
-                    *hhess += dfdy * (*ity);
-                    if (idy.first == idy.second) {
-                        diag->grad += dfdy * ity.diag1().grad;
-                    }
-                }
-                
-                if (idx <= idy) ++itx;
-                if (idy <= idx) ++ity;
-            }
-            
-            // I shall consider the following code a very inefficient patch.
-            if (hddfdxdy != 0) {
-                const ConstDiagIt end = x.hg.cdend();
-                ConstDiagIt iti, itj;
-                for (iti = x.hg.cdbegin(); iti != end; ++iti) {
-                    for (itj = iti; itj != end; ++itj) {
-                        const Id idi = iti->first;
-                        const Id idj = itj->first;
-                        const Real &dix = x.hg.diag_get(idi).grad;
-                        const Real &djx = x.hg.diag_get(idj).grad;
-                        const Real &diy = y.hg.diag_get(idi).grad;
-                        const Real &djy = y.hg.diag_get(idj).grad;
-                        x.hg.hhess(idi, idj) += hddfdxdy * (dix * djy + djx * diy);
-                    }
-                }
-            }
+            x = binary(x, y, fxy, dfdx, dfdy, ddfdxdx, ddfdydy, ddfdxdy);
         }
         
         friend inline const UReal2<Real, prop> &
-- 
2.43.0


From 45e6182c590dcf816b51b3bc40edbfb6db39263f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:43 +0000
Subject: [PATCH 10/17] fix: pow propagates NaN when the mean of the base is 0

---
 uncertainties/math.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/uncertainties/math.hpp b/uncertainties/math.hpp
index 48f2dae..9a40654 100644
--- a/uncertainties/math.hpp
+++ b/uncertainties/math.hpp
@@ -114,7 +114,9 @@ namespace uncertainties {
         using std::pow;
         using std::log;
         const Real p = pow(x.n(), y.n());
-        return binary(x, y, p, p * y.n() / x.n(), p * log(x.n()));
+        const Real dx = y.n() != 0 ? y.n() * pow(x.n(), y.n() - 1) : Real(0);
+        const Real dy = p != 0 ? p * log(x.n()) : Real(0);
+        return binary(x, y, p, dx, dy);
     }
     template<typename Real>
     UReal<Real> sqrt(const UReal<Real> &x) {
@@ -347,16 +349,14 @@ namespace uncertainties {
         const Real &yn = y.first_order_n();
         const Real x2y = pow(xn, yn);
         const Real logx = log(xn);
-        const Real ix = 1 / xn;
-        const Real x2yix = x2y * ix;
-        const Real x2yixy = x2yix * yn;
-        const Real x2ylogx = x2y * logx;
+        const Real x2y1 = pow(xn, yn - 1);
+        const Real x2ylogx = x2y != 0 ? x2y * logx : Real(0);
         return binary(x, y, x2y,
-                      x2yixy,
+                      yn != 0 ? yn * x2y1 : Real(0),
                       x2ylogx,
-                      x2yixy * ix * (yn - 1),
-                      x2ylogx * logx,
-                      x2yix + x2yixy * logx);
+                      yn != 0 and yn != 1 ? yn * (yn - 1) * pow(xn, yn - 2) : Real(0),
+                      x2y != 0 ? x2ylogx * logx : Real(0),
+                      x2y1 != 0 ? x2y1 * (1 + yn * logx) : Real(0));
     }
     template<typename Real, Prop prop>
     UReal2<Real, prop> sqrt(const UReal2<Real, prop> &x) {
-- 
2.43.0


From df40408f0c095f38c3020008b266a4dc43990993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:28 +0000
Subject: [PATCH 11/17] fix: format aborts on numbers just below a power of ten
 with many digits

---
 uncertainties/io.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/uncertainties/io.hpp b/uncertainties/io.hpp
index e191ec2..473bead 100644
--- a/uncertainties/io.hpp
+++ b/uncertainties/io.hpp
@@ -53,7 +53,11 @@ namespace uncertainties {
             using std::floor;
             using std::log10;
             using std::abs;
-            return int(floor(log10(abs(x))));
+            using std::pow;
+            const int e = int(floor(log10(abs(x))));
+            // the logarithm of a number just below a power of ten can be
+            // rounded up to the next integer
+            return abs(x) < pow(Real(10), e) ? e - 1 : e;
         }
         
         template<typename Real>
@@ -115,7 +119,8 @@ namespace uncertainties {
         std::string mantissa(const Real &x, const int n, int *const e) {
             const Real m = int_mantissa(x, n, *e);
             std::string s = int_mantissa_string(m);
-            assert(s.size() == n or s.size() == n + 1 or (m == 0 and n < 0));
+            // size n - 1: power of ten rounded down by the scaling
+            assert(s.size() + 1 == n or s.size() == n or s.size() == n + 1 or (m == 0 and n < 0));
             if (n >= 1 and s.size() == n + 1) {
                 *e += 1;
                 s.pop_back();
-- 
2.43.0


From ae1cec75020bd72d25232a0075392443aaf8e936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:13 +0000
Subject: [PATCH 12/17] fix: format hangs when the digits requested overflow
 the numerical type

---
 uncertainties/io.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/uncertainties/io.hpp b/uncertainties/io.hpp
index 473bead..200837d 100644
--- a/uncertainties/io.hpp
+++ b/uncertainties/io.hpp
@@ -64,7 +64,10 @@ namespace uncertainties {
         Real int_mantissa(const Real &x, const int n, const int e) {
             using std::round;
             using std::pow;
-            return round(x * pow(Real(10), n - 1 - e));
+            using std::isinf;
+            const int p = n - 1 - e;
+            const int half = isinf(Real(pow(Real(10), p))) ? p / 2 : 0;
+            return round(x * pow(Real(10), half) * pow(Real(10), p - half));
         }
         
         template<typename Real>
@@ -117,8 +120,14 @@ namespace uncertainties {
     
         template<typename Real>
         std::string mantissa(const Real &x, const int n, int *const e) {
-            const Real m = int_mantissa(x, n, *e);
-            std::string s = int_mantissa_string(m);
+            Real m = int_mantissa(x, n, *e);
+            int k = n;
+            using std::isinf;
+            while (isinf(m)) {
+                // more digits than fit in Real, the last ones are set to 0
+                m = int_mantissa(x, --k, *e);
+            }
+            std::string s = int_mantissa_string(m) + std::string(n - k, '0');
             // size n - 1: power of ten rounded down by the scaling
             assert(s.size() + 1 == n or s.size() == n or s.size() == n + 1 or (m == 0 and n < 0));
             if (n >= 1 and s.size() == n + 1) {
-- 
2.43.0


From caba4d6a4e1fed6d808f6839a9167f0564e84fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:16 +0000
Subject: [PATCH 13/17] fix: derivatives of fmod and remainder disagree with
 the value when the quotient rounds to the next integer

---
 uncertainties/math.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/uncertainties/math.hpp b/uncertainties/math.hpp
index 9a40654..ce3afdd 100644
--- a/uncertainties/math.hpp
+++ b/uncertainties/math.hpp
@@ -47,13 +47,16 @@ namespace uncertainties {
     template<typename Real>
     UReal<Real> fmod(const UReal<Real> &x, const UReal<Real> &y) {
         using std::fmod;
-        return binary(x, y, fmod(x.n(), y.n()), 1, -trunc(x.n() / y.n()));
+        using std::round;
+        const Real r = fmod(x.n(), y.n());
+        return binary(x, y, r, 1, -round((x.n() - r) / y.n()));
     }
     template<typename Real>
     UReal<Real> remainder(const UReal<Real> &x, const UReal<Real> &y) {
         using std::remainder;
         using std::round;
-        return binary(x, y, remainder(x.n(), y.n()), 1, -round(x.n() / y.n()));
+        const Real r = remainder(x.n(), y.n());
+        return binary(x, y, r, 1, -round((x.n() - r) / y.n()));
     }
     template<typename Real>
     UReal<Real> fmax(const UReal<Real> &x, const UReal<Real> &y) {
@@ -260,9 +263,11 @@ namespace uncertainties {
     template<typename Real, Prop prop>
     UReal2<Real, prop> fmod(const UReal2<Real, prop> &x, const UReal2<Real, prop> &y) {
         using std::fmod;
+        using std::round;
         const Real &xn = x.first_order_n();
         const Real &yn = y.first_order_n();
-        return binary(x, y, fmod(xn, yn), 1, -trunc(xn / yn), 0, 0, 0);
+        const Real r = fmod(xn, yn);
+        return binary(x, y, r, 1, -round((xn - r) / yn), 0, 0, 0);
     }
     template<typename Real, Prop prop>
     UReal2<Real, prop> remainder(const UReal2<Real, prop> &x, const UReal2<Real, prop> &y) {
@@ -270,7 +275,8 @@ namespace uncertainties {
         using std::round;
         const Real &xn = x.first_order_n();
         const Real &yn = y.first_order_n();
-        return binary(x, y, remainder(xn, yn), 1, -round(xn / yn), 0, 0, 0);
+        const Real r = remainder(xn, yn);
+        return binary(x, y, r, 1, -round((xn - r) / yn), 0, 0, 0);
     }
     template<typename Real, Prop prop>
     UReal2<Real, prop> fmax(const UReal2<Real, prop> &x, const UReal2<Real, prop> &y) {
-- 
2.43.0


From 6f179fbaaafbcc93ff971e7927cc11dc6ed10c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:16 +0000
Subject: [PATCH 14/17] fix: derivatives of asinh, acosh and atan2 vanish or
 blow up when the square of the mean is out of range

---
 uncertainties/math.hpp | 39 +++++++++++++++++++--------------------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/uncertainties/math.hpp b/uncertainties/math.hpp
index ce3afdd..38737ae 100644
--- a/uncertainties/math.hpp
+++ b/uncertainties/math.hpp
@@ -176,9 +176,10 @@ namespace uncertainties {
     template<typename Real>
     UReal<Real> atan2(const UReal<Real> &x, const UReal<Real> &y) {
         using std::atan2;
-        const Real xxyy = x.n() * x.n() + y.n() * y.n();
-        const Real dx = y.n() / xxyy;
-        const Real dy = -x.n() / xxyy;
+        using std::hypot;
+        const Real h = hypot(x.n(), y.n());
+        const Real dx = y.n() / h / h;
+        const Real dy = -x.n() / h / h;
         return binary(x, y, atan2(x.n(), y.n()), dx, dy);
     }
     template<typename Real>
@@ -202,14 +203,14 @@ namespace uncertainties {
     template<typename Real>
     UReal<Real> asinh(const UReal<Real> &x) {
         using std::asinh;
-        using std::sqrt;
-        return unary(x, asinh(x.n()), Real(1) / sqrt(x.n() * x.n() + 1));
+        using std::hypot;
+        return unary(x, asinh(x.n()), Real(1) / hypot(x.n(), Real(1)));
     }
     template<typename Real>
     UReal<Real> acosh(const UReal<Real> &x) {
         using std::acosh;
         using std::sqrt;
-        return unary(x, acosh(x.n()), Real(1) / sqrt(x.n() * x.n() - 1));
+        return unary(x, acosh(x.n()), Real(1) / (sqrt(x.n() - 1) * sqrt(x.n() + 1)));
     }
     template<typename Real>
     UReal<Real> atanh(const UReal<Real> &x) {
@@ -449,19 +450,19 @@ namespace uncertainties {
         using std::atan2;
         const Real &xn = x.first_order_n();
         const Real &yn = y.first_order_n();
-        const Real x2 = xn * xn;
-        const Real y2 = yn * yn;
-        const Real xxyy = x2 + y2;
-        const Real ixxyy = 1 / xxyy;
-        const Real xixxyy = xn * ixxyy;
-        const Real yixxyy = yn * ixxyy;
+        using std::hypot;
+        const Real h = hypot(xn, yn);
+        const Real xh = xn / h;
+        const Real yh = yn / h;
+        const Real xixxyy = xh / h;
+        const Real yixxyy = yh / h;
         const Real xy2ixxyy2 = 2 * xixxyy * yixxyy;
         return binary(x, y, atan2(xn, yn),
                       yixxyy,
                       -xixxyy,
                       -xy2ixxyy2,
                       xy2ixxyy2,
-                      (x2 - y2) * ixxyy * ixxyy);
+                      (xh - yh) * (xh + yh) / h / h);
     }
     template<typename Real, Prop prop>
     UReal2<Real, prop> sinh(const UReal2<Real, prop> &x) {
@@ -490,20 +491,18 @@ namespace uncertainties {
     template<typename Real, Prop prop>
     UReal2<Real, prop> asinh(const UReal2<Real, prop> &x) {
         using std::asinh;
-        using std::sqrt;
+        using std::hypot;
         const Real &xn = x.first_order_n();
-        const Real i1xx = 1 / (1 + xn * xn);
-        const Real sqrti1xx = sqrt(i1xx);
-        return unary(x, asinh(xn), sqrti1xx, -xn * i1xx * sqrti1xx);
+        const Real sqrti1xx = 1 / hypot(xn, Real(1));
+        return unary(x, asinh(xn), sqrti1xx, -xn * sqrti1xx * sqrti1xx * sqrti1xx);
     }
     template<typename Real, Prop prop>
     UReal2<Real, prop> acosh(const UReal2<Real, prop> &x) {
         using std::acosh;
         using std::sqrt;
         const Real &xn = x.first_order_n();
-        const Real ixx1 = 1 / (xn * xn - 1);
-        const Real sqrtixx1 = sqrt(ixx1);
-        return unary(x, acosh(xn), sqrtixx1, -xn * ixx1 * sqrtixx1);
+        const Real sqrtixx1 = 1 / (sqrt(xn - 1) * sqrt(xn + 1));
+        return unary(x, acosh(xn), sqrtixx1, -xn * sqrtixx1 * sqrtixx1 * sqrtixx1);
     }
     template<typename Real, Prop prop>
     UReal2<Real, prop> atanh(const UReal2<Real, prop> &x) {
-- 
2.43.0


From 531b5701b55f79b3445a5a12364959be17f55659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:46 +0000
Subject: [PATCH 15/17] fix: quotient of UReal2 ignored the divisor when its
 square is out of range

The derivative was computed as x times the square of 1/y, which underflows to 0
(or overflows) where the derivative itself is representable.
---
 uncertainties/ureal2.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/uncertainties/ureal2.hpp b/uncertainties/ureal2.hpp
index a1919b2..b810a94 100644
--- a/uncertainties/ureal2.hpp
+++ b/uncertainties/ureal2.hpp
@@ -951,11 +951,12 @@ namespace uncertainties {
             const Real xn = x.first_order_n();
             const Real yn = y.first_order_n();
             const Real invy = 1 / yn;
-            const Real invy2 = invy * invy;
+            // use the ratio, the square of y could underflow or overflow
+            const Real ratio = xn / yn;
             return binary(x, y,
-                          xn / yn,
-                          invy, -xn * invy2,
-                          0, 2 * xn * invy2 * invy, -invy2);
+                          ratio,
+                          invy, -ratio * invy,
+                          0, 2 * ratio * invy * invy, -invy * invy);
         }
 
         template<typename Predicate>
-- 
2.43.0


From 1c06dd743505bf539262f7783e1c4680717a44df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:21 +0000
Subject: [PATCH 16/17] fix: format drops a digit when the uncertainty rounds
 up to 1 with many digits

---
 uncertainties/io.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/uncertainties/io.hpp b/uncertainties/io.hpp
index 200837d..5d4d475 100644
--- a/uncertainties/io.hpp
+++ b/uncertainties/io.hpp
@@ -107,7 +107,13 @@ namespace uncertainties {
             int ndig = naive_ndigits(*x, n);
             const int xexp = exponent(*x);
             using std::pow;
-            const Real rounded_x = int_mantissa(*x, ndig, xexp) * pow(Real(10), xexp - ndig + 1);
+            using std::isinf;
+            const Real m = int_mantissa(*x, ndig, xexp);
+            Real rounded_x = m * pow(Real(10), xexp - ndig + 1);
+            if (m >= pow(Real(10), ndig) and not isinf(m)) {
+                // carry to the next power of ten, the product may fall below it
+                rounded_x = pow(Real(10), xexp + 1);
+            }
             if (rounded_x > *x) {
                 const int rounded_ndig = naive_ndigits(rounded_x, n);
                 if (rounded_ndig > ndig) {
-- 
2.43.0


From 473d43eb9d1246825cb7ac70fed788bf6e70486e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:10 +0000
Subject: [PATCH 17/17] fix: ids overflow after 2^31 variables

---
 uncertainties/core.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uncertainties/core.hpp b/uncertainties/core.hpp
index 196a4ae..37ee54b 100644
--- a/uncertainties/core.hpp
+++ b/uncertainties/core.hpp
@@ -32,7 +32,7 @@ namespace uncertainties {
     /*!
     \brief Type of independent variables ids.
     */
-    using Id = int; // must be signed
+    using Id = long long; // must be signed, and never overflow
     
     /*!
     \brief Constant returned by `UReal::indepid` if the variable is dependent.
-- 
2.43.0

