From 645d6c413edfbf9c81f11d1ecdcd4717c54421f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:34 +0000
Subject: [PATCH 01/46] fix: order_kroneckers compares first names with first
 names

The comparator mixed up a.b and b.a, so it was no strict weak order and the
sorted sequence depended on the insertion order.
---
 include/ieompp/symbolic/prefactor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ieompp/symbolic/prefactor.hpp b/include/ieompp/symbolic/prefactor.hpp
index 3d26ea4..278f6be 100644
--- a/include/ieompp/symbolic/prefactor.hpp
+++ b/include/ieompp/symbolic/prefactor.hpp
@@ -69,7 +69,7 @@ namespace ieompp
                               if(a.a < b.a) {
                                   return true;
                               }
-                              if(a.b > b.a) {
+                              if(a.a > b.a) {
                                   return false;
                               }
                               return a.b < b.b;
-- 
2.43.0


From a722b5defb11bf7a6b1e6a3448ac95016d069964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:34 +0000
Subject: [PATCH 02/46] fix: Term::conjugate iterates over its operators

It iterated over *this, which is no range, so it could not be instantiated.
---
 include/ieompp/algebra/term/term.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/ieompp/algebra/term/term.hpp b/include/ieompp/algebra/term/term.hpp
index 31185e1..ba300bd 100644
--- a/include/ieompp/algebra/term/term.hpp
+++ b/include/ieompp/algebra/term/term.hpp
@@ -4,6 +4,10 @@
 #include "ieompp/types/number.hpp"
 
 #include <algorithm>
+#include <initializer_list>
+#include <iterator>
+#include <type_traits>
+#include <utility>
 #include <vector>
 
 namespace ieompp
@@ -24,7 +28,7 @@ namespace ieompp
             {
                 prefactor = types::conjugate(prefactor);
                 std::reverse(operators.begin(), operators.end());
-                for(auto& op : *this) {
+                for(auto& op : operators) {
                     op.conjugate();
                 }
             }
-- 
2.43.0


From 90bf5988af9aec4b936d289b9b1dc994bf19a692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:34 +0000
Subject: [PATCH 03/46] fix: copy_as_unique_terms calls the existing
 have_same_operators

---
 include/ieompp/algebra/term/list.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/ieompp/algebra/term/list.hpp b/include/ieompp/algebra/term/list.hpp
index 4e82522..da43a4d 100644
--- a/include/ieompp/algebra/term/list.hpp
+++ b/include/ieompp/algebra/term/list.hpp
@@ -5,6 +5,7 @@
 
 #include <algorithm>
 #include <functional>
+#include <iterator>
 #include <list>
 
 namespace ieompp
@@ -24,7 +25,7 @@ namespace ieompp
                     lst.push_back(t);
                     continue;
                 }
-                if(pos->same_operators(t)) {
+                if(pos->have_same_operators(t)) {
                     pos->prefactor += t.prefactor;
                 } else {
                     lst.insert(pos, t);
-- 
2.43.0


From 9a2425c7591d761804bcaf6ee748db5c39a3f6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:34 +0000
Subject: [PATCH 04/46] fix: in-place products accept the object itself

x *= x appended to a vector while iterating over it.
---
 include/ieompp/algebra/monomial/monomial.hpp |  6 +++++-
 include/ieompp/algebra/term/term.hpp         |  3 +++
 include/ieompp/symbolic/prefactor.hpp        | 11 ++++++++---
 3 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/ieompp/algebra/monomial/monomial.hpp b/include/ieompp/algebra/monomial/monomial.hpp
index b54cac3..e493480 100644
--- a/include/ieompp/algebra/monomial/monomial.hpp
+++ b/include/ieompp/algebra/monomial/monomial.hpp
@@ -2,6 +2,7 @@
 #define IEOMPP_ALGEBRA_MONOMIAL_MONOMIAL_HPP_
 
 #include <algorithm>
+#include <iterator>
 #include <vector>
 
 namespace ieompp
@@ -69,7 +70,10 @@ namespace ieompp
 
             Monomial& operator*=(const Monomial& rhs)
             {
-                std::copy(rhs.begin(), rhs.end(), std::back_inserter(*this));
+                // rhs may be *this, so no reallocation may happen while copying
+                const auto n = rhs.size();
+                this->reserve(this->size() + n);
+                std::copy_n(rhs.begin(), n, std::back_inserter(*this));
                 return *this;
             }
 
diff --git a/include/ieompp/algebra/term/term.hpp b/include/ieompp/algebra/term/term.hpp
index ba300bd..8411615 100644
--- a/include/ieompp/algebra/term/term.hpp
+++ b/include/ieompp/algebra/term/term.hpp
@@ -54,6 +54,9 @@ namespace ieompp
 
             Term& operator*=(const Term& rhs)
             {
+                if(this == &rhs) {
+                    return *this *= Term(rhs);
+                }
                 prefactor *= rhs.prefactor;
                 std::copy(rhs.operators.begin(), rhs.operators.end(),
                           std::back_inserter(operators));
diff --git a/include/ieompp/symbolic/prefactor.hpp b/include/ieompp/symbolic/prefactor.hpp
index 278f6be..787bdc9 100644
--- a/include/ieompp/symbolic/prefactor.hpp
+++ b/include/ieompp/symbolic/prefactor.hpp
@@ -30,15 +30,20 @@ namespace ieompp
 
             Prefactor& operator*=(const std::vector<Kronecker>& rhs)
             {
-                std::copy(rhs.begin(), rhs.end(), std::back_inserter(kroneckers));
+                // rhs may be kroneckers, so no reallocation may happen while copying
+                const auto n = rhs.size();
+                kroneckers.reserve(kroneckers.size() + n);
+                std::copy_n(rhs.begin(), n, std::back_inserter(kroneckers));
                 return *this;
             }
 
             template <typename Value_, typename Container_>
             Prefactor& operator*=(const Prefactor<Value_, Container_>& rhs)
             {
-                std::copy(rhs.kroneckers.begin(), rhs.kroneckers.end(),
-                          std::back_inserter(kroneckers));
+                // rhs may be *this, so no reallocation may happen while copying
+                const auto n = rhs.kroneckers.size();
+                kroneckers.reserve(kroneckers.size() + n);
+                std::copy_n(rhs.kroneckers.begin(), n, std::back_inserter(kroneckers));
                 value *= rhs.value;
 
                 return *this;
-- 
2.43.0


From f5edb2983d42d92141f6199ad209def71789594e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:34 +0000
Subject: [PATCH 05/46] fix: printing empty monomials and terms is defined

The printers decremented end() and dereferenced back() of an empty container.
---
 include/ieompp/algebra/monomial/io.hpp | 3 +++
 include/ieompp/algebra/term/io.hpp     | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/include/ieompp/algebra/monomial/io.hpp b/include/ieompp/algebra/monomial/io.hpp
index 56dce2b..5e28e2c 100644
--- a/include/ieompp/algebra/monomial/io.hpp
+++ b/include/ieompp/algebra/monomial/io.hpp
@@ -13,6 +13,9 @@ namespace ieompp
         template <typename Operator>
         std::ostream& operator<<(std::ostream& strm, const Monomial<Operator>& monomial)
         {
+            if(monomial.empty()) {
+                return strm;
+            }
             std::copy(monomial.begin(), --monomial.end(),
                       std::ostream_iterator<Operator>(strm, " "));
             strm << monomial.back();
diff --git a/include/ieompp/algebra/term/io.hpp b/include/ieompp/algebra/term/io.hpp
index c1c5d09..759053d 100644
--- a/include/ieompp/algebra/term/io.hpp
+++ b/include/ieompp/algebra/term/io.hpp
@@ -14,6 +14,9 @@ namespace ieompp
         std::ostream& operator<<(std::ostream& strm, const Term<Prefactor, Operator, Container>& t)
         {
             strm << t.prefactor << u8" ⋅ ";
+            if(t.operators.empty()) {
+                return strm;
+            }
             std::copy(t.operators.begin(), --t.operators.end(),
                       std::ostream_iterator<Operator>(strm, " "));
             strm << t.operators.back();
-- 
2.43.0


From fff4158a30c6b8d59b26075af0f001819d948bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:34 +0000
Subject: [PATCH 06/46] fix: print_tuple prints every element

It printed the last element in place of each one.
---
 include/ieompp/tuple.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ieompp/tuple.hpp b/include/ieompp/tuple.hpp
index 55cf820..35b4df1 100644
--- a/include/ieompp/tuple.hpp
+++ b/include/ieompp/tuple.hpp
@@ -13,7 +13,7 @@ namespace ieompp
         struct TuplePrinter {
             static void print(std::ostream& strm, const Tuple& t, const std::string& delimiter)
             {
-                strm << std::get<N>(t) << delimiter;
+                strm << std::get<I>(t) << delimiter;
                 TuplePrinter<Tuple, I + 1, N>::print(strm, t, delimiter);
             }
         };
-- 
2.43.0


From 018e8f1eec3fa10b99d2b9acdbe71530817fac6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:34 +0000
Subject: [PATCH 07/46] fix: make_kronecker of arithmetic indices finds
 std::to_string

Without it the commutator of operators mixing symbolic and arithmetic indices
does not compile.
---
 include/ieompp/algebra/kronecker.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/ieompp/algebra/kronecker.hpp b/include/ieompp/algebra/kronecker.hpp
index bab6c61..e6102fd 100644
--- a/include/ieompp/algebra/kronecker.hpp
+++ b/include/ieompp/algebra/kronecker.hpp
@@ -4,6 +4,7 @@
 #include <ostream>
 #include <string>
 #include <type_traits>
+#include <utility>
 
 namespace ieompp
 {
@@ -46,7 +47,7 @@ namespace ieompp
         typename std::enable_if<std::is_arithmetic<IndexType>::value, Kronecker>::type
         make_kronecker(const IndexType& a, const IndexType& b)
         {
-            return Kronecker{to_string(a), to_string(b)};
+            return Kronecker{std::to_string(a), std::to_string(b)};
         }
     } // namespace algebra
 } // namespace ieompp
-- 
2.43.0


From 68c9910f1ee3f4d464a7b398fba0f9592c58ac67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:37 +0000
Subject: [PATCH 08/46] fix: total_spin names the existing member
 IndexType::Type

---
 include/ieompp/algebra/term/checks.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ieompp/algebra/term/checks.hpp b/include/ieompp/algebra/term/checks.hpp
index 8885670..e0797f7 100644
--- a/include/ieompp/algebra/term/checks.hpp
+++ b/include/ieompp/algebra/term/checks.hpp
@@ -31,7 +31,7 @@ namespace ieompp
         int total_spin(const Term& t)
         {
             static_assert(
-                std::is_same<typename IndexType<Index, typename Term::Operator>::type, bool>::value,
+                std::is_same<typename IndexType<Index, typename Term::Operator>::Type, bool>::value,
                 "spin index must be a boolean");
 
             int spin = 0;
-- 
2.43.0


From 767fff14b3ab45924d55aa7e9a35950b69aca479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:37 +0000
Subject: [PATCH 09/46] fix: total_momentum starts from zero for every vector
 type

Neither the scalar vectors of the chain nor the static vectors of the square
lattice have setZero(), so total_momentum could not be instantiated.
---
 include/ieompp/algebra/term/checks.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ieompp/algebra/term/checks.hpp b/include/ieompp/algebra/term/checks.hpp
index e0797f7..6aaccd0 100644
--- a/include/ieompp/algebra/term/checks.hpp
+++ b/include/ieompp/algebra/term/checks.hpp
@@ -15,8 +15,8 @@ namespace ieompp
         typename Discretization::Vector total_momentum(const Term& t,
                                                        const Discretization& momentum_space)
         {
-            auto momentum = momentum_space.lattice_vectors()[0];
-            momentum.setZero();
+            typename Discretization::Vector momentum(momentum_space.lattice_vectors()[0]);
+            momentum -= momentum_space.lattice_vectors()[0];
             for(auto& op : t.operators) {
                 if(op.creator) {
                     momentum += momentum_space[get_index<Index>(op)];
-- 
2.43.0


From b014bef17fd45f191027057a399967660b63b801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:37 +0000
Subject: [PATCH 10/46] fix: square lattice numbers its sites consistently when
 it is not square

Sites were numbered x * size_x + y and decomposed with a mixture of both edge
lengths: on a 2x3 lattice sites (0,2) and (1,0) shared a number and neighbors()
left the lattice.
---
 .../ieompp/lattices/periodic_square_lattice.hpp  | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/ieompp/lattices/periodic_square_lattice.hpp b/include/ieompp/lattices/periodic_square_lattice.hpp
index 91bbbef..f0fa555 100644
--- a/include/ieompp/lattices/periodic_square_lattice.hpp
+++ b/include/ieompp/lattices/periodic_square_lattice.hpp
@@ -114,26 +114,26 @@ namespace ieompp
         template <typename Float, typename Index>
         Index PeriodicSquareLattice<Float, Index>::index(const Index& x, const Index& y) const
         {
-            return x * _size_x + y;
+            return x * _size_y + y;
         }
 
         template <typename Float, typename Index>
         Index PeriodicSquareLattice<Float, Index>::x_index(const Index& i) const
         {
-            return i / _size_x;
+            return i / _size_y;
         }
 
         template <typename Float, typename Index>
         Index PeriodicSquareLattice<Float, Index>::y_index(const Index& i) const
         {
-            return i % _size_x;
+            return i % _size_y;
         }
 
         template <typename Float, typename Index>
         std::array<Index, 4> PeriodicSquareLattice<Float, Index>::neighbors(const Index& idx) const
         {
             const auto i = idx / _size_y;
-            const auto j = idx % _size_x;
+            const auto j = idx % _size_y;
             return std::array<Index, 4>{{index((i == 0) ? _size_x - 1 : i - 1, j),
                                          index(i, (j == 0) ? _size_y - 1 : j - 1),
                                          index((i == _size_x - 1) ? 0 : i + 1, j),
@@ -145,7 +145,7 @@ namespace ieompp
         PeriodicSquareLattice<Float, Index>::unique_neighbors(const Index& idx) const
         {
             const auto i = idx / _size_y;
-            const auto j = idx % _size_x;
+            const auto j = idx % _size_y;
             return std::array<Index, 2>{{index((i == _size_x - 1) ? 0 : i + 1, j),
                                          index(i, (j == _size_y - 1) ? 0 : j + 1)}};
         }
@@ -353,8 +353,8 @@ namespace ieompp
                                 typename PeriodicSquareLattice<Float, Index>::Vector>::type
             PeriodicSquareLattice<Float, Index>::operator[](const IndexT& idx) const
         {
-            const Index i = idx / _size_x;
-            const Index j = idx % _size_x;
+            const Index i = idx / _size_y;
+            const Index j = idx % _size_y;
             return Vector{_x_min + i * _dx, _y_min + j * _dy};
         }
 
@@ -376,7 +376,7 @@ namespace ieompp
             }
             const auto i = Index(std::round((v[0] - _x_min) / _dx));
             const auto j = Index(std::round((v[1] - _y_min) / _dy));
-            return i * _size_x + j;
+            return index(i, j);
         }
     } // namespace lattices
 } // namespace ieompp
-- 
2.43.0


From 6ada7d49369da36883210be47d3b9201240745f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:37 +0000
Subject: [PATCH 11/46] fix: position lookup wraps at the end of the period

Real-space positions between x_max and x_min + x_length were shifted to
negative values, whose conversion to an unsigned index is undefined; the square
lattice returned sites outside the lattice for positions next to the upper end.
---
 include/ieompp/lattices/periodic_chain.hpp          | 2 +-
 include/ieompp/lattices/periodic_square_lattice.hpp | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/ieompp/lattices/periodic_chain.hpp b/include/ieompp/lattices/periodic_chain.hpp
index 3b88057..29b8c63 100644
--- a/include/ieompp/lattices/periodic_chain.hpp
+++ b/include/ieompp/lattices/periodic_chain.hpp
@@ -249,7 +249,7 @@ namespace ieompp
             while(v < _x_min) {
                 v += _x_length;
             }
-            while(v > _x_max) {
+            while(v >= _x_min + _x_length) {
                 v -= _x_length;
             }
             return SiteIndex(std::round((v - _x_min) / _dx)) % _size;
diff --git a/include/ieompp/lattices/periodic_square_lattice.hpp b/include/ieompp/lattices/periodic_square_lattice.hpp
index f0fa555..3dae470 100644
--- a/include/ieompp/lattices/periodic_square_lattice.hpp
+++ b/include/ieompp/lattices/periodic_square_lattice.hpp
@@ -365,17 +365,17 @@ namespace ieompp
             while(v[0] < _x_min) {
                 v[0] += _x_length;
             }
-            while(v[0] > _x_max) {
+            while(v[0] >= _x_min + _x_length) {
                 v[0] -= _x_length;
             }
             while(v[1] < _y_min) {
                 v[1] += _y_length;
             }
-            while(v[1] > _y_max) {
+            while(v[1] >= _y_min + _y_length) {
                 v[1] -= _y_length;
             }
-            const auto i = Index(std::round((v[0] - _x_min) / _dx));
-            const auto j = Index(std::round((v[1] - _y_min) / _dy));
+            const auto i = Index(std::round((v[0] - _x_min) / _dx)) % _size_x;
+            const auto j = Index(std::round((v[1] - _y_min) / _dy)) % _size_y;
             return index(i, j);
         }
     } // namespace lattices
-- 
2.43.0


From d607355988678e12200496c26e98b7fcca6d2111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:37 +0000
Subject: [PATCH 12/46] fix: closest() wraps positions next to the upper end of
 momentum space

There x_max is the end of the period, not the last site, so positions up to
dx/2 beyond it were assigned to the last site instead of the first.
---
 include/ieompp/lattices/periodic_chain.hpp          | 2 +-
 include/ieompp/lattices/periodic_square_lattice.hpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ieompp/lattices/periodic_chain.hpp b/include/ieompp/lattices/periodic_chain.hpp
index 29b8c63..3fe3c44 100644
--- a/include/ieompp/lattices/periodic_chain.hpp
+++ b/include/ieompp/lattices/periodic_chain.hpp
@@ -110,7 +110,7 @@ namespace ieompp
             while(v < _x_min - dx2) {
                 v += _x_length;
             }
-            while(v > _x_max + dx2) {
+            while(v > _x_min + _x_length - dx2) {
                 v -= _x_length;
             }
             Float min_dist = ((*this)[SiteIndex(0)] - v) * ((*this)[SiteIndex(0)] - v), dist;
diff --git a/include/ieompp/lattices/periodic_square_lattice.hpp b/include/ieompp/lattices/periodic_square_lattice.hpp
index 3dae470..22274a6 100644
--- a/include/ieompp/lattices/periodic_square_lattice.hpp
+++ b/include/ieompp/lattices/periodic_square_lattice.hpp
@@ -158,13 +158,13 @@ namespace ieompp
             while(v[0] < _x_min - dx2) {
                 v[0] += _x_length;
             }
-            while(v[0] > _x_max + dx2) {
+            while(v[0] > _x_min + _x_length - dx2) {
                 v[0] -= _x_length;
             }
             while(v[1] < _y_min - dy2) {
                 v[1] += _y_length;
             }
-            while(v[1] > _y_max + dy2) {
+            while(v[1] > _y_min + _y_length - dy2) {
                 v[1] -= _y_length;
             }
             Float min_dist = types::dot_product(v - (*this)[Index(0)], v - (*this)[Index(0)]);
-- 
2.43.0


From 266b04ca94a5363725c673423c2cc457800742e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:37 +0000
Subject: [PATCH 13/46] fix: increments and decrements of IntegerIterator yield
 iterators

The prefix forms returned a reference to the integer and the postfix forms a
reference to a temporary.
---
 include/ieompp/iterators/integer_iterator.hpp | 36 ++++++++++---------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/include/ieompp/iterators/integer_iterator.hpp b/include/ieompp/iterators/integer_iterator.hpp
index 351d4c1..4ca47eb 100644
--- a/include/ieompp/iterators/integer_iterator.hpp
+++ b/include/ieompp/iterators/integer_iterator.hpp
@@ -51,10 +51,10 @@ namespace ieompp
             IntegerIterator& operator=(const IntegerIterator&) = default;
             reference operator*();
             value_type operator[](const difference_type& diff);
-            reference operator++();
-            reference operator++(int);
-            reference operator--();
-            reference operator--(int);
+            IntegerIterator& operator++();
+            IntegerIterator operator++(int);
+            IntegerIterator& operator--();
+            IntegerIterator operator--(int);
             IntegerIterator& operator+=(const difference_type& diff);
             IntegerIterator& operator-=(const difference_type& diff);
             IntegerIterator operator+(const difference_type& diff) const;
@@ -110,31 +110,35 @@ namespace ieompp
         }
 
         template <typename T, bool const_iterator>
-        inline typename IntegerIterator<T, const_iterator>::reference
-            IntegerIterator<T, const_iterator>::operator++()
+        inline IntegerIterator<T, const_iterator>& IntegerIterator<T, const_iterator>::operator++()
         {
-            return ++_val;
+            ++_val;
+            return *this;
         }
 
         template <typename T, bool const_iterator>
-        inline typename IntegerIterator<T, const_iterator>::reference
-            IntegerIterator<T, const_iterator>::operator++(int)
+        inline IntegerIterator<T, const_iterator> IntegerIterator<T, const_iterator>::
+        operator++(int)
         {
-            return _val++;
+            IntegerIterator<T, const_iterator> old(*this);
+            ++_val;
+            return old;
         }
 
         template <typename T, bool const_iterator>
-        inline typename IntegerIterator<T, const_iterator>::reference
-            IntegerIterator<T, const_iterator>::operator--()
+        inline IntegerIterator<T, const_iterator>& IntegerIterator<T, const_iterator>::operator--()
         {
-            return --_val;
+            --_val;
+            return *this;
         }
 
         template <typename T, bool const_iterator>
-        inline typename IntegerIterator<T, const_iterator>::reference
-            IntegerIterator<T, const_iterator>::operator--(int)
+        inline IntegerIterator<T, const_iterator> IntegerIterator<T, const_iterator>::
+        operator--(int)
         {
-            return _val--;
+            IntegerIterator<T, const_iterator> old(*this);
+            --_val;
+            return old;
         }
 
         template <typename T, bool const_iterator>
-- 
2.43.0


From 76aebb72e9f9f6f906e4f6887476b400deba67eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:37 +0000
Subject: [PATCH 14/46] fix: IntegerIterator::operator-= subtracts

It added its argument.
---
 include/ieompp/iterators/integer_iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ieompp/iterators/integer_iterator.hpp b/include/ieompp/iterators/integer_iterator.hpp
index 4ca47eb..76352e9 100644
--- a/include/ieompp/iterators/integer_iterator.hpp
+++ b/include/ieompp/iterators/integer_iterator.hpp
@@ -153,7 +153,7 @@ namespace ieompp
         inline IntegerIterator<T, const_iterator>& IntegerIterator<T, const_iterator>::
         operator-=(const typename IntegerIterator<T, const_iterator>::difference_type& diff)
         {
-            _val += diff;
+            _val -= diff;
             return *this;
         }
 
-- 
2.43.0


From 9103229ecd4b5e65f081a9ae65849c0a924f468b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:37 +0000
Subject: [PATCH 15/46] fix: diff + IntegerIterator does not access private
 members

The friend declarations named other signatures, so the free operators could not
be instantiated.
---
 include/ieompp/iterators/integer_iterator.hpp | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/include/ieompp/iterators/integer_iterator.hpp b/include/ieompp/iterators/integer_iterator.hpp
index 76352e9..ca50bb3 100644
--- a/include/ieompp/iterators/integer_iterator.hpp
+++ b/include/ieompp/iterators/integer_iterator.hpp
@@ -31,14 +31,6 @@ namespace ieompp
             using pointer           = typename use_first<const T*, T*, const_iterator>::type;
             using reference         = typename use_first<const T&, T&, const_iterator>::type;
 
-            template <typename T_>
-            friend IntegerIterator<T_, const_iterator>
-            operator+(const IntegerIterator<T_, const_iterator>&, const difference_type&);
-
-            template <typename T_>
-            friend IntegerIterator<T_, const_iterator>
-            operator-(const IntegerIterator<T_, const_iterator>&, const difference_type&);
-
         private:
             value_type _val;
 
@@ -227,7 +219,7 @@ namespace ieompp
         operator+(const typename IntegerIterator<T, const_iterator>::difference_type& diff,
                   const IntegerIterator<T, const_iterator>& it)
         {
-            return IntegerIterator<T, const_iterator>(diff + it._val);
+            return it + diff;
         }
 
         template <typename T, bool const_iterator>
@@ -235,7 +227,7 @@ namespace ieompp
         operator-(const typename IntegerIterator<T, const_iterator>::difference_type& diff,
                   const IntegerIterator<T, const_iterator>& it)
         {
-            return IntegerIterator<T, const_iterator>(diff - it._val);
+            return IntegerIterator<T, const_iterator>(diff - (it - IntegerIterator<T, const_iterator>(0)));
         }
     } // namespace iterators
 } // namespace ieompp
-- 
2.43.0


From cd960dd783892d523cbe668ccfcace2faf676be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:37 +0000
Subject: [PATCH 16/46] fix: TripletList handles empty lists and drops a
 vanishing last column

make_columns_unique and has_unique_columns read the first element of empty
lists, and make_columns_unique kept the last column even if its sum vanishes.
---
 include/ieompp/types/triplet.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/ieompp/types/triplet.hpp b/include/ieompp/types/triplet.hpp
index bbd9178..72c6faf 100644
--- a/include/ieompp/types/triplet.hpp
+++ b/include/ieompp/types/triplet.hpp
@@ -34,6 +34,9 @@ namespace ieompp
             TripletList make_columns_unique() const
             {
                 TripletList filtered;
+                if(this->empty()) {
+                    return filtered;
+                }
                 filtered.reserve(this->size());
 
                 auto triplet = this->front();
@@ -47,12 +50,17 @@ namespace ieompp
                         triplet = *it;
                     }
                 }
-                filtered.push_back(triplet);
+                if(!types::IsZero(triplet.value)) {
+                    filtered.push_back(triplet);
+                }
                 return filtered;
             }
 
             bool has_unique_columns() const
             {
+                if(this->empty()) {
+                    return true;
+                }
                 for(auto it = this->begin() + 1; it != this->end(); ++it) {
                     if(it->column == (it - 1)->column) {
                         return false;
-- 
2.43.0


From 658b1f210383966331c2bee793cb48aaaab92a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:37 +0000
Subject: [PATCH 17/46] fix: matrix rows of tiny lattices hold every column
 once

On lattices with less than three sites in a direction both neighbors coincide
and the same column was appended twice, which violates the contract of append.
---
 include/ieompp/models/hubbard_real_space/blaze_sparse.hpp   | 6 ++++++
 .../ieompp/models/hubbard_real_space/blaze_sparse_no.hpp    | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/include/ieompp/models/hubbard_real_space/blaze_sparse.hpp b/include/ieompp/models/hubbard_real_space/blaze_sparse.hpp
index 8a19516..8dffb0f 100644
--- a/include/ieompp/models/hubbard_real_space/blaze_sparse.hpp
+++ b/include/ieompp/models/hubbard_real_space/blaze_sparse.hpp
@@ -54,7 +54,9 @@ namespace ieompp
                     for(auto neighbor : neighbors) {
                         triplets.emplace_back(row, neighbor, -liouvillian.J);
                     }
+                    // neighbors coincide on lattices with less than three sites in a direction
                     triplets.sort();
+                    triplets = triplets.make_columns_unique();
 
                     for(const auto triplet : triplets) {
                         matrix.append(row, triplet.column, triplet.value);
@@ -90,7 +92,9 @@ namespace ieompp
                     triplets.emplace_back(row, basis.get_3op_index(row, row, row),
                                           liouvillian.U / 2.);
 
+                    // neighbors coincide on lattices with less than three sites in a direction
                     triplets.sort();
+                    triplets = triplets.make_columns_unique();
                     for(const auto triplet : triplets) {
                         matrix.append(row, triplet.column, triplet.value);
                     }
@@ -129,7 +133,9 @@ namespace ieompp
                     }
                     triplets.emplace_back(row, row, liouvillian.U / 2.);
 
+                    // neighbors coincide on lattices with less than three sites in a direction
                     triplets.sort();
+                    triplets = triplets.make_columns_unique();
                     for(const auto triplet : triplets) {
                         matrix.append(row, triplet.column, triplet.value);
                     }
diff --git a/include/ieompp/models/hubbard_real_space/blaze_sparse_no.hpp b/include/ieompp/models/hubbard_real_space/blaze_sparse_no.hpp
index 71f1b7d..76492c3 100644
--- a/include/ieompp/models/hubbard_real_space/blaze_sparse_no.hpp
+++ b/include/ieompp/models/hubbard_real_space/blaze_sparse_no.hpp
@@ -56,7 +56,9 @@ namespace ieompp
                     for(auto neighbor : neighbors) {
                         triplets.emplace_back(row, neighbor, -liouvillian.J);
                     }
+                    // neighbors coincide on lattices with less than three sites in a direction
                     triplets.sort();
+                    triplets = triplets.make_columns_unique();
 
                     for(const auto triplet : triplets) {
                         matrix.append(row, triplet.column, triplet.value);
@@ -96,7 +98,9 @@ namespace ieompp
                     triplets.emplace_back(row, basis.get_3op_index(row, row, row), liouvillian.U * expectation_value(basis[row].front().index1, basis[row].front().index1));
                     // clang-format on
 
+                    // neighbors coincide on lattices with less than three sites in a direction
                     triplets.sort();
+                    triplets = triplets.make_columns_unique();
                     for(const auto triplet : triplets) {
                         matrix.append(row, triplet.column, triplet.value);
                     }
-- 
2.43.0


From 54cf0acbd9d44de9477dce0debe17af13ab87296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:37 +0000
Subject: [PATCH 18/46] fix: normal-ordered matrix multiplies the mean field
 with the density

[U n_up n_down, c_up^dagger] = U c_up^dagger (<n_down> + :n_down:); the two
coefficients were interchanged.
---
 include/ieompp/models/hubbard_real_space/blaze_sparse_no.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ieompp/models/hubbard_real_space/blaze_sparse_no.hpp b/include/ieompp/models/hubbard_real_space/blaze_sparse_no.hpp
index 76492c3..c5cdc82 100644
--- a/include/ieompp/models/hubbard_real_space/blaze_sparse_no.hpp
+++ b/include/ieompp/models/hubbard_real_space/blaze_sparse_no.hpp
@@ -94,8 +94,8 @@ namespace ieompp
                     }
 
                     // clang-format off
-                    triplets.emplace_back(row, row, liouvillian.U);
-                    triplets.emplace_back(row, basis.get_3op_index(row, row, row), liouvillian.U * expectation_value(basis[row].front().index1, basis[row].front().index1));
+                    triplets.emplace_back(row, row, liouvillian.U * expectation_value(basis[row].front().index1, basis[row].front().index1));
+                    triplets.emplace_back(row, basis.get_3op_index(row, row, row), liouvillian.U);
                     // clang-format on
 
                     // neighbors coincide on lattices with less than three sites in a direction
-- 
2.43.0


From 918396ef6071011702b6eacb2f0900992533b183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:37 +0000
Subject: [PATCH 19/46] fix: Fermi jump evaluators do not share their buffer

The static buffer kept the size of the first evaluator that was used, so a
larger lattice wrote beyond its end, and concurrent callers shared it.
---
 include/ieompp/models/hubbard_real_space/fermi_jump/1d.hpp | 2 +-
 include/ieompp/models/hubbard_real_space/fermi_jump/2d.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ieompp/models/hubbard_real_space/fermi_jump/1d.hpp b/include/ieompp/models/hubbard_real_space/fermi_jump/1d.hpp
index 24eee95..7ec57dc 100644
--- a/include/ieompp/models/hubbard_real_space/fermi_jump/1d.hpp
+++ b/include/ieompp/models/hubbard_real_space/fermi_jump/1d.hpp
@@ -121,7 +121,7 @@ namespace ieompp
                 Float operator()(const Vector& h) const
                 {
                     const auto& basis = _basis_ref.get();
-                    static Vector h_NO(basis.N);
+                    Vector h_NO(basis.N);
 
 #pragma omp parallel for
                     for(Index i = 0; i < basis.N; ++i) {
diff --git a/include/ieompp/models/hubbard_real_space/fermi_jump/2d.hpp b/include/ieompp/models/hubbard_real_space/fermi_jump/2d.hpp
index b739c91..961d78c 100644
--- a/include/ieompp/models/hubbard_real_space/fermi_jump/2d.hpp
+++ b/include/ieompp/models/hubbard_real_space/fermi_jump/2d.hpp
@@ -61,7 +61,7 @@ namespace ieompp
                 Float operator()(const Vector& h) const
                 {
                     const auto& basis = _basis_ref.get();
-                    static Vector h_NO(basis.N);
+                    Vector h_NO(basis.N);
 
 #pragma omp parallel for
                     for(Index i = 0; i < basis.N; ++i) {
-- 
2.43.0


From cb5c390eb7bf77670f199eddee8ef2e8fb37537e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:37 +0000
Subject: [PATCH 20/46] fix: Fermi jumps create the Fourier coefficients they
 write

The elements of a vector that had only been reserved were written.
---
 include/ieompp/models/hubbard_real_space/fermi_jump/1d.hpp | 2 +-
 include/ieompp/models/hubbard_real_space/fermi_jump_no.hpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ieompp/models/hubbard_real_space/fermi_jump/1d.hpp b/include/ieompp/models/hubbard_real_space/fermi_jump/1d.hpp
index 7ec57dc..e16ef72 100644
--- a/include/ieompp/models/hubbard_real_space/fermi_jump/1d.hpp
+++ b/include/ieompp/models/hubbard_real_space/fermi_jump/1d.hpp
@@ -45,7 +45,7 @@ namespace ieompp
                 FermiJump1D(const Lattice& lattice, ExpectationValueFunction expectation_value, const Float& k_F)
                     : _N(lattice.size()), _expectation_value(std::move(expectation_value))
                 {
-                    _fourier_coefficients.reserve(_N);
+                    _fourier_coefficients.resize(_N);
 
 #pragma omp parallel for
                     for(Index i = 0; i < _N; ++i) {
diff --git a/include/ieompp/models/hubbard_real_space/fermi_jump_no.hpp b/include/ieompp/models/hubbard_real_space/fermi_jump_no.hpp
index 69f7057..05311ad 100644
--- a/include/ieompp/models/hubbard_real_space/fermi_jump_no.hpp
+++ b/include/ieompp/models/hubbard_real_space/fermi_jump_no.hpp
@@ -49,7 +49,7 @@ namespace ieompp
                 {
                     static const auto k_F = HalfPi<double>::value;
 
-                    _fourier_coefficients.reserve(_N);
+                    _fourier_coefficients.resize(_N);
 
 #pragma omp parallel for
                     for(Index i = 0; i < _N; ++i) {
@@ -107,7 +107,7 @@ namespace ieompp
                 {
                     static const auto k_F = HalfPi<double>::value;
 
-                    _fourier_coefficients.reserve(_N);
+                    _fourier_coefficients.resize(_N);
 
 #pragma omp parallel for
                     for(Index i = 0; i < _N; ++i) {
-- 
2.43.0


From e574cd2db9225fe23c44aee729a9bd26c1c0804c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:37 +0000
Subject: [PATCH 21/46] fix: fermi_jump/2d.hpp includes what it uses

---
 include/ieompp/models/hubbard_real_space/fermi_jump/2d.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/ieompp/models/hubbard_real_space/fermi_jump/2d.hpp b/include/ieompp/models/hubbard_real_space/fermi_jump/2d.hpp
index 961d78c..c441e29 100644
--- a/include/ieompp/models/hubbard_real_space/fermi_jump/2d.hpp
+++ b/include/ieompp/models/hubbard_real_space/fermi_jump/2d.hpp
@@ -7,7 +7,11 @@
 #include "ieompp/types/number.hpp"
 
 #include <cmath>
+#include <complex>
 #include <functional>
+#include <numeric>
+#include <utility>
+#include <vector>
 
 namespace ieompp
 {
-- 
2.43.0


From 894fd030a2b42ca4688aa160f0c3cbd042968594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:37 +0000
Subject: [PATCH 22/46] fix: SiteOccupation::expectation_value passes its
 arguments on

---
 include/ieompp/models/hubbard_real_space/site_occupation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ieompp/models/hubbard_real_space/site_occupation.hpp b/include/ieompp/models/hubbard_real_space/site_occupation.hpp
index 4c6f0dd..c02dd58 100644
--- a/include/ieompp/models/hubbard_real_space/site_occupation.hpp
+++ b/include/ieompp/models/hubbard_real_space/site_occupation.hpp
@@ -234,7 +234,7 @@ namespace ieompp
                     if(b.size() == 1) {
                         return expectation_value_3_1(a, b);
                     }
-                    return expectation_value_3_3();
+                    return expectation_value_3_3(a, b);
                 }
 
                 template <typename Vector>
-- 
2.43.0


From 88193a2653b77cb7a7866a895e45948468f05526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:38 +0000
Subject: [PATCH 23/46] fix: observables compare their imaginary part with the
 size of the vector

---
 .../particle_number.hpp                       | 12 +++++++++-
 .../hubbard_real_space/site_occupation.hpp    | 22 +++++++++++++++++--
 2 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/include/ieompp/models/hubbard_momentum_space/particle_number.hpp b/include/ieompp/models/hubbard_momentum_space/particle_number.hpp
index 5414dfb..c9a7bd3 100644
--- a/include/ieompp/models/hubbard_momentum_space/particle_number.hpp
+++ b/include/ieompp/models/hubbard_momentum_space/particle_number.hpp
@@ -6,6 +6,9 @@
 #include "ieompp/openmp.hpp"
 #include "ieompp/types/number.hpp"
 
+#include <cassert>
+#include <cmath>
+#include <limits>
 #include <numeric>
 
 namespace ieompp
@@ -41,10 +44,14 @@ namespace ieompp
                 {
                     const auto num             = non_vanishing_expectation_values.size();
                     std::complex<Float> result = 0.;
+                    Float scale                = 0.;
 
                     for(std::size_t i = 0; i < num; ++i) {
                         const auto& contribution = non_vanishing_expectation_values[i];
 
+                        scale += std::norm(vec[contribution.left_index])
+                                 + std::norm(vec[contribution.right_index]);
+
                         if(contribution.left_index == contribution.right_index) {
                             result += std::norm(vec[contribution.left_index]) * contribution.value;
                         } else {
@@ -54,7 +61,10 @@ namespace ieompp
                         }
                     }
 
-                    assert(types::IsZero(result.imag()));
+                    // rounding errors are relative to the size of the contributions
+                    static const Float tolerance =
+                        std::sqrt(std::numeric_limits<Float>::epsilon());
+                    assert(types::IsZero(result.imag(), tolerance * scale));
 
                     return result.real();
                 }
diff --git a/include/ieompp/models/hubbard_real_space/site_occupation.hpp b/include/ieompp/models/hubbard_real_space/site_occupation.hpp
index c02dd58..464f3d9 100644
--- a/include/ieompp/models/hubbard_real_space/site_occupation.hpp
+++ b/include/ieompp/models/hubbard_real_space/site_occupation.hpp
@@ -6,7 +6,10 @@
 #include "ieompp/types/matrix.hpp"
 #include "ieompp/types/number.hpp"
 
+#include <cassert>
+#include <cmath>
 #include <functional>
+#include <limits>
 #include <numeric>
 #include <vector>
 
@@ -63,7 +66,15 @@ namespace ieompp
                     const auto result =
                         std::accumulate(results.begin(), results.end(), std::complex<Float>(0.));
 
-                    assert(types::IsZero(result.imag()));
+                    // rounding errors are relative to the size of the vector
+                    Float scale = 0.;
+                    for(auto i = 0ul; i < size; ++i) {
+                        scale += std::norm(vector[i]);
+                    }
+                    static const Float tolerance =
+                        std::sqrt(std::numeric_limits<Float>::epsilon());
+                    assert(types::IsZero(result.imag(), tolerance * size * scale));
+
                     return result.real();
                 }
             };
@@ -320,7 +331,14 @@ namespace ieompp
                     const auto result =
                         std::accumulate(results.begin(), results.end(), std::complex<Float>(0.));
 
-                    assert(types::IsZero(result.imag()));
+                    // rounding errors are relative to the size of the vector
+                    Float scale = 0.;
+                    for(auto i = 0ul; i < basis_size; ++i) {
+                        scale += std::norm(vector[i]);
+                    }
+                    static const Float tolerance =
+                        std::sqrt(std::numeric_limits<Float>::epsilon());
+                    assert(types::IsZero(result.imag(), tolerance * basis_size * scale));
 
                     return result.real();
                 }
-- 
2.43.0


From 3577fca3609ac1aec84fde8afd533657808a5df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:38 +0000
Subject: [PATCH 24/46] fix: is_hermitian and IsZero of matrices look at the
 right entries

---
 include/ieompp/types/matrix_check.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/ieompp/types/matrix_check.hpp b/include/ieompp/types/matrix_check.hpp
index 456e94d..14b003d 100644
--- a/include/ieompp/types/matrix_check.hpp
+++ b/include/ieompp/types/matrix_check.hpp
@@ -2,6 +2,7 @@
 #define IEOMPP_TYPES_MATRIX_CHECK_HPP_
 
 #include "ieompp/types/matrix.hpp"
+#include "ieompp/types/number.hpp"
 
 #include <type_traits>
 
@@ -48,7 +49,7 @@ namespace ieompp
             const Index N = MatrixDimensionInfo<Matrix>::rows(m);
             for(Index i = 0; i < N; ++i) {
                 for(Index j = 0; j <= i; ++j) {
-                    if(!IsEqual(m(i, j), conjugate(m(i, j)))) {
+                    if(!IsEqual(m(i, j), conjugate(m(j, i)))) {
                         return false;
                     }
                 }
@@ -65,7 +66,7 @@ namespace ieompp
             const auto cols = MatrixDimensionInfo<Matrix>::columns(m);
             for(Index i = 0; i < rows; ++i) {
                 for(Index j = 0; j < cols; ++j) {
-                    if(!IsZero(t(i, j))) {
+                    if(!IsZero(m(i, j))) {
                         return false;
                     }
                 }
-- 
2.43.0


From b6054d5fa38bfa7ee04edb9e127149985f4ed22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:38 +0000
Subject: [PATCH 25/46] fix: RK4 accepts function matrices and Blaze vectors

---
 include/ieompp/types/blaze/multiply_assign.hpp | 4 ++--
 include/ieompp/types/function_matrix.hpp       | 7 +++++++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/ieompp/types/blaze/multiply_assign.hpp b/include/ieompp/types/blaze/multiply_assign.hpp
index 52ccee7..108f545 100644
--- a/include/ieompp/types/blaze/multiply_assign.hpp
+++ b/include/ieompp/types/blaze/multiply_assign.hpp
@@ -28,9 +28,9 @@ namespace ieompp
 #pragma omp parallel for
 #endif
             for(Index row = 0; row < rows; ++row) {
-                auto& element = temp(row);
+                auto& element = temp[row];
                 for(Index col = 0; col < rows; ++col) {
-                    element += matrix(row, col) * vector(col);
+                    element += matrix(row, col) * vector[col];
                 }
             }
 
diff --git a/include/ieompp/types/function_matrix.hpp b/include/ieompp/types/function_matrix.hpp
index bcadade..83e213e 100644
--- a/include/ieompp/types/function_matrix.hpp
+++ b/include/ieompp/types/function_matrix.hpp
@@ -1,6 +1,7 @@
 #ifndef IEOMPP_TYPES_FUNCTION_MATRIX_HPP_
 #define IEOMPP_TYPES_FUNCTION_MATRIX_HPP_
 
+#include "ieompp/types/matrix.hpp"
 #include "ieompp/types/number.hpp"
 
 #include <functional>
@@ -76,6 +77,12 @@ namespace ieompp
             static constexpr bool value = true;
         };
 
+        template <typename Scalar, typename Index>
+        struct MatrixDimensionInfo<FunctionMatrix<Scalar, Index>> {
+            static Index rows(const FunctionMatrix<Scalar, Index>& m) { return m.rows(); }
+            static Index columns(const FunctionMatrix<Scalar, Index>& m) { return m.cols(); }
+        };
+
         template <typename Scalar, typename Index>
         std::ostream& operator<<(std::ostream& strm, const FunctionMatrix<Scalar, Index>& matrix)
         {
-- 
2.43.0


From 365148db2e071b63af1e00bf7828d5b3dd5ee396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:38 +0000
Subject: [PATCH 26/46] fix: HasIndexOfType stays within the indices of the
 operator

---
 include/ieompp/algebra/operator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ieompp/algebra/operator.hpp b/include/ieompp/algebra/operator.hpp
index 75ecd3c..e863a1c 100644
--- a/include/ieompp/algebra/operator.hpp
+++ b/include/ieompp/algebra/operator.hpp
@@ -32,7 +32,7 @@ namespace ieompp
             static_assert(IsOperator<Op>::value, "Operator must be an operator");
 
             static constexpr bool value =
-                detail::HasIndexOfTypeHelper<Op, T, 0, Op::number_of_indices>::value;
+                detail::HasIndexOfTypeHelper<Op, T, 0, Op::number_of_indices - 1>::value;
         };
     } // namespace algebra
 } // namespace ieompp
-- 
2.43.0


From c020ef82b7d366a857e74a038fc7cf22dbdd6ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:39 +0000
Subject: [PATCH 27/46] fix: reading lines ends with the input and accepts long
 lines

---
 include/ieompp/io/line.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/ieompp/io/line.hpp b/include/ieompp/io/line.hpp
index 5d630a5..0e032ba 100644
--- a/include/ieompp/io/line.hpp
+++ b/include/ieompp/io/line.hpp
@@ -2,7 +2,7 @@
 #define IEOMPP_IO_LINE_HPP_
 
 #include <istream>
-#include <regex>
+#include <string>
 
 namespace ieompp
 {
@@ -10,19 +10,19 @@ namespace ieompp
     {
         bool is_skippable_line(const std::string& str)
         {
-            static const std::regex reg(R"(^\s*(?:#.*)?$)");
-            return std::regex_match(str, reg);
+            const auto pos = str.find_first_not_of(" \t\n\v\f\r");
+            return (pos == std::string::npos) || (str[pos] == '#');
         }
 
         std::string next_line(std::istream& strm)
         {
             std::string buf;
-            do {
-                std::getline(strm, buf);
+            while(std::getline(strm, buf)) {
                 if(!is_skippable_line(buf)) {
                     return buf;
                 }
-            } while(true);
+            }
+            return "";
         }
     } // namespace io
 } // namespace ieompp
-- 
2.43.0


From 7a5d6c88ad96fc3b5e1176f2556acb32561e1a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:05 +0000
Subject: [PATCH 28/46] fix: clean_output_file keeps lines apart and stops at
 the end of the file

---
 src/hubbard/include/checkpoint.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/hubbard/include/checkpoint.hpp b/src/hubbard/include/checkpoint.hpp
index f24d4da..e30d458 100644
--- a/src/hubbard/include/checkpoint.hpp
+++ b/src/hubbard/include/checkpoint.hpp
@@ -68,12 +68,11 @@ void clean_output_file(const std::string& path, uint64_t entries)
     get_loggers().io->info("Start copying \"{}\" entries", entries);
     uint64_t counter = 0;
     std::string buffer;
-    while(counter < entries) {
-        std::getline(in_file, buffer);
+    while((counter < entries) && std::getline(in_file, buffer)) {
         if(!ieompp::io::is_skippable_line(buffer)) {
             ++counter;
         }
-        out_file << buffer;
+        out_file << buffer << '\n';
     }
     out_file.flush();
     get_loggers().io->info("Finished copying entries {}", entries);
-- 
2.43.0


From 922f951162c0fbe9ba8f5b5b1b20e04163489d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:05 +0000
Subject: [PATCH 29/46] fix: Platform::user works without LOGNAME

---
 include/ieompp/platform.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/ieompp/platform.hpp b/include/ieompp/platform.hpp
index 8c543db..85d816c 100644
--- a/include/ieompp/platform.hpp
+++ b/include/ieompp/platform.hpp
@@ -94,7 +94,8 @@ namespace ieompp
         {
 #if BOOST_OS_WINDOWS
 #else
-            return std::string(std::getenv("LOGNAME"));
+            const auto name = std::getenv("LOGNAME");
+            return std::string((name != nullptr) ? name : "unknown");
 #endif
         }
 
-- 
2.43.0


From 516b55f1d03410628b166774980fece15fe8d22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:05 +0000
Subject: [PATCH 30/46] fix: kinetic theory uses the half-filled expectation
 values

---
 src/hubbard/hubbard_real_1d_kinetic_theory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hubbard/hubbard_real_1d_kinetic_theory.cpp b/src/hubbard/hubbard_real_1d_kinetic_theory.cpp
index f8e670f..80ba530 100644
--- a/src/hubbard/hubbard_real_1d_kinetic_theory.cpp
+++ b/src/hubbard/hubbard_real_1d_kinetic_theory.cpp
@@ -59,7 +59,7 @@ int main()
     }
 
     const hubbard::ExpectationValue1DHalfFilled<double, decltype(lattice)> expectation_value(
-        lattice, 1., 0.5);
+        lattice, 0.5, ieompp::HalfPi<double>::value);
 
     vector<vector<complex<double>>> results;
 #pragma omp parallel
-- 
2.43.0


From 564aab8ffe82e939a0477c68d4aec25ab18794e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:05 +0000
Subject: [PATCH 31/46] fix: response file is read before its options are used
 and recorded

---
 src/hubbard/include/application.hpp |  5 ++---
 src/hubbard/include/cli.hpp         | 34 +++++++++++++++++++----------
 2 files changed, 25 insertions(+), 14 deletions(-)

diff --git a/src/hubbard/include/application.hpp b/src/hubbard/include/application.hpp
index 40a5c9c..bbb9cd9 100644
--- a/src/hubbard/include/application.hpp
+++ b/src/hubbard/include/application.hpp
@@ -56,9 +56,8 @@ struct Application {
         }
 
         if(variables.count("response_file") != 0u) {
-            // read simulation parameters from response file
-            read_response_file(variables["response_file"].as<std::string>(), variables,
-                               Application::options_description);
+            get_loggers().main->info("Simulation parameters were read from response file \"{}\"",
+                                     variables["response_file"].as<std::string>());
         } else {
             // write a response file with simulation parameters
             get_loggers().io->info("Write response file \"{}\"", response_path);
diff --git a/src/hubbard/include/cli.hpp b/src/hubbard/include/cli.hpp
index 85ef551..1555418 100644
--- a/src/hubbard/include/cli.hpp
+++ b/src/hubbard/include/cli.hpp
@@ -1,6 +1,7 @@
 #ifndef SRC_HUBBARD_CLI_HPP_
 #define SRC_HUBBARD_CLI_HPP_
 
+#include <algorithm>
 #include <fstream>
 #include <regex>
 #include <string>
@@ -25,21 +26,16 @@ auto make_value(const T& default_value)
     return boost::program_options::value<T>()->default_value(default_value);
 }
 
-void read_response_file(const std::string& path, VariablesMap& vm,
-                        const OptionsDescription& description)
+boost::program_options::parsed_options read_response_file(const std::string& path,
+                                                          const OptionsDescription& description)
 {
-    get_loggers().main->info("Reading response file \"{}\"", path);
     std::ifstream file(path.c_str());
     std::string buf;
     std::vector<std::string> args;
-    do {
-        getline(file, buf);
+    while(getline(file, buf)) {
         args.push_back(buf);
-        boost::program_options::store(
-            boost::program_options::command_line_parser(args).options(description).run(), vm);
-    } while(!file.eof());
-    file.close();
-    get_loggers().main->info("Finish reading response file \"{}\"", path);
+    }
+    return boost::program_options::command_line_parser(args).options(description).run();
 }
 
 std::vector<std::pair<std::string, std::string>>
@@ -47,8 +43,24 @@ parse_command_line_options(int argc, char** argv,
                            const boost::program_options::options_description& description,
                            boost::program_options::variables_map& vm)
 {
-    const auto options = boost::program_options::parse_command_line(argc, argv, description);
+    auto options = boost::program_options::parse_command_line(argc, argv, description);
     boost::program_options::store(options, vm);
+    if(vm.count("response_file") != 0u) {
+        // options given on the command line take precedence
+        const auto response =
+            read_response_file(vm["response_file"].as<std::string>(), description);
+        boost::program_options::store(response, vm);
+        const auto given = options.options;
+        for(const auto& option : response.options) {
+            const bool skip = option.string_key.empty()
+                              || std::any_of(given.begin(), given.end(), [&option](const auto& opt) {
+                                     return (opt.string_key == option.string_key);
+                                 });
+            if(!skip) {
+                options.options.push_back(option);
+            }
+        }
+    }
     boost::program_options::notify(vm);
 
     std::vector<std::pair<std::string, std::string>> all_options;
-- 
2.43.0


From aab07253b9b6aa360c50faba8ec2565201666a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:24 +0000
Subject: [PATCH 32/46] fix: reading sparse matrices includes regex

---
 include/ieompp/io/eigen/sparse.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/ieompp/io/eigen/sparse.hpp b/include/ieompp/io/eigen/sparse.hpp
index 9ef0fec..9e53599 100644
--- a/include/ieompp/io/eigen/sparse.hpp
+++ b/include/ieompp/io/eigen/sparse.hpp
@@ -9,6 +9,7 @@
 #include <cstdlib>
 #include <istream>
 #include <ostream>
+#include <regex>
 #include <sstream>
 #include <string>
 
-- 
2.43.0


From e81c398a58bdd0c53c6e05b461a351781f93fccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:11 +0000
Subject: [PATCH 33/46] fix: get_index accepts temporary operators with many
 indices

---
 include/ieompp/algebra/operator/get_index.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/ieompp/algebra/operator/get_index.hpp b/include/ieompp/algebra/operator/get_index.hpp
index 5aaefeb..3ca9658 100644
--- a/include/ieompp/algebra/operator/get_index.hpp
+++ b/include/ieompp/algebra/operator/get_index.hpp
@@ -3,7 +3,9 @@
 
 #include "ieompp/algebra/operator/operator.hpp"
 
+#include <tuple>
 #include <type_traits>
+#include <utility>
 
 namespace ieompp
 {
@@ -65,7 +67,7 @@ namespace ieompp
         constexpr typename std::tuple_element<I, typename Operator<IndexTypes...>::Indices>::type&&
         get_index(Operator<IndexTypes...>&& op)
         {
-            return std::get<I>(op.indices);
+            return std::get<I>(std::move(op.indices));
         }
 
         template <std::size_t I, typename Index>
-- 
2.43.0


From 8dbb0ca362984e60d92f90c430f14cf59bd9b36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:03 +0000
Subject: [PATCH 34/46] fix: normal-ordered matrix contracts n_up standing left
 of c_up^dagger

[U n_up n_down, c_up^dagger X] = U (n_up c_up^dagger [n_down, X] + c_up^dagger X n_down):
contracting n_up with the creator to its right gives <c c^dagger>, as in the
coefficient of the one-operator product at r2.
---
 .../ieompp/models/hubbard_real_space/blaze_sparse_no.hpp    | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ieompp/models/hubbard_real_space/blaze_sparse_no.hpp b/include/ieompp/models/hubbard_real_space/blaze_sparse_no.hpp
index c5cdc82..102c054 100644
--- a/include/ieompp/models/hubbard_real_space/blaze_sparse_no.hpp
+++ b/include/ieompp/models/hubbard_real_space/blaze_sparse_no.hpp
@@ -147,7 +147,7 @@ namespace ieompp
                     // clang-format off
                     triplets.emplace_back(row, r1, liouvillian.U * expectation_value(op2.index1, op1.index1) * expectation_value_conj(op3.index1, op1.index1));
                     triplets.emplace_back(row, r2, liouvillian.U * expectation_value_conj(op2.index1, op1.index1) * expectation_value(op2.index1, op3.index1));
-                    triplets.emplace_back(row, r3, -liouvillian.U * expectation_value(op3.index1, op1.index1) * expectation_value(op2.index1, op3.index1));
+                    triplets.emplace_back(row, r3, -liouvillian.U * expectation_value_conj(op3.index1, op1.index1) * expectation_value(op2.index1, op3.index1));
                     // clang-format on
 
                     // 3-operator monomials
@@ -156,8 +156,8 @@ namespace ieompp
                     triplets.emplace_back(row, basis.get_3op_index(r1, r1, r3), -liouvillian.U * expectation_value(op2.index1, op1.index1));
                     triplets.emplace_back(row, basis.get_3op_index(r1, r2, r1), liouvillian.U * expectation_value_conj(op3.index1, op1.index1));
                     if(r2 != r3) {
-                        triplets.emplace_back(row, basis.get_3op_index(r2, r2, r3), liouvillian.U * expectation_value(op2.index1, op1.index1));
-                        triplets.emplace_back(row, basis.get_3op_index(r3, r2, r3), -liouvillian.U * expectation_value(op3.index1, op1.index1));
+                        triplets.emplace_back(row, basis.get_3op_index(r2, r2, r3), liouvillian.U * expectation_value_conj(op2.index1, op1.index1));
+                        triplets.emplace_back(row, basis.get_3op_index(r3, r2, r3), -liouvillian.U * expectation_value_conj(op3.index1, op1.index1));
                     }
                     // clang-format on
 
-- 
2.43.0


From 5380514bf408314138cde5bbe11c2d117866894a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:08 +0000
Subject: [PATCH 35/46] fix: particle number of hubbard_trivial uses h_i
 conj(h_j)

Without the conjugation the occupation is neither real nor normalised.
---
 src/hubbard/hubbard_trivial.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hubbard/hubbard_trivial.cpp b/src/hubbard/hubbard_trivial.cpp
index 1f02f9c..cbadede 100644
--- a/src/hubbard/hubbard_trivial.cpp
+++ b/src/hubbard/hubbard_trivial.cpp
@@ -24,14 +24,14 @@ complex<double> particle_number(const blaze::DynamicVector<complex<double>>& h)
             }
 
             if((i < 3) && (j < 3)) {
-                ev += (h[i] * h[j]) * pi_inv;
+                ev += (h[i] * conj(h[j])) * pi_inv;
                 continue;
             }
 
             if((i == 0) || (j == 0)) {
-                ev += (h[i] * h[j]) * 0.25;
+                ev += (h[i] * conj(h[j])) * 0.25;
             } else {
-                ev += (h[i] * h[j]) * 0.5 * pi_inv;
+                ev += (h[i] * conj(h[j])) * 0.5 * pi_inv;
             }
         }
     }
-- 
2.43.0


From 83fab04c131c20cab9128d8c02941bcd286c6d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:37 +0000
Subject: [PATCH 36/46] fix: hubbard_real_2d_rk4_jump reports its own name in
 header and default file name

---
 src/hubbard/hubbard_real_2d_rk4_jump.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hubbard/hubbard_real_2d_rk4_jump.cpp b/src/hubbard/hubbard_real_2d_rk4_jump.cpp
index fdc370a..d239f11 100644
--- a/src/hubbard/hubbard_real_2d_rk4_jump.cpp
+++ b/src/hubbard/hubbard_real_2d_rk4_jump.cpp
@@ -14,7 +14,7 @@ namespace hubbard = ieompp::models::hubbard_real_space;
 
 int main(int argc, char** argv)
 {
-    Application::name        = "hubbard_real_2d_rk4";
+    Application::name        = "hubbard_real_2d_rk4_jump";
     Application::description = "Calculate <n_{0,↑}>(t) for the 2d Hubbard model";
     Application::add_default_options();
 
-- 
2.43.0


From b1e1776c822a54441e28716274831263c1e795b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:37 +0000
Subject: [PATCH 37/46] fix: hubbard_real_1d_kinetic_rk4_coefficients reports
 its own name

With the name of hubbard_real_1d_rk4_coefficients it overwrote that program's default output file.
---
 src/hubbard/hubbard_real_1d_kinetic_rk4_coefficients.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hubbard/hubbard_real_1d_kinetic_rk4_coefficients.cpp b/src/hubbard/hubbard_real_1d_kinetic_rk4_coefficients.cpp
index 5c916ac..2aeba0f 100644
--- a/src/hubbard/hubbard_real_1d_kinetic_rk4_coefficients.cpp
+++ b/src/hubbard/hubbard_real_1d_kinetic_rk4_coefficients.cpp
@@ -12,7 +12,7 @@ namespace hubbard = ieompp::models::hubbard_real_space;
 
 int main(int argc, char** argv)
 {
-    Application::name        = "hubbard_real_1d_rk4_coefficients";
+    Application::name        = "hubbard_real_1d_kinetic_rk4_coefficients";
     Application::description = "Calculate coefficients for the 1d Hubbard model";
     Application::add_default_options();
 
-- 
2.43.0


From 04acfba8c3b832d9e30af31414dd032a098ff0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:01 +0000
Subject: [PATCH 38/46] fix: SpatialIndexType of two-dimensional Hubbard
 operators compiles

---
 include/ieompp/models/hubbard/operator_traits.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/ieompp/models/hubbard/operator_traits.hpp b/include/ieompp/models/hubbard/operator_traits.hpp
index bbc00b3..bf8bba6 100644
--- a/include/ieompp/models/hubbard/operator_traits.hpp
+++ b/include/ieompp/models/hubbard/operator_traits.hpp
@@ -64,7 +64,8 @@ namespace ieompp
                               "Operator must be of 1d or 2d Hubbard type!");
 
                 using Type = typename std::
-                    conditional<Is1dHubbardOperator<Operator>::value, typename Operator::Index1,
+                    conditional<Is1dHubbardOperator<Operator>::value,
+                                typename algebra::IndexType<0, Operator>::Type,
                                 std::pair<typename algebra::IndexType<0, Operator>::Type,
                                           typename algebra::IndexType<1, Operator>::Type>>::type;
             };
-- 
2.43.0


From a9b7937594a92a2e16040e7eb51808fa27b9ba31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:02 +0000
Subject: [PATCH 39/46] fix: compressed vectors are Blaze vectors

---
 include/ieompp/types/blaze/traits.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/ieompp/types/blaze/traits.hpp b/include/ieompp/types/blaze/traits.hpp
index 9dcfb30..caa8879 100644
--- a/include/ieompp/types/blaze/traits.hpp
+++ b/include/ieompp/types/blaze/traits.hpp
@@ -140,6 +140,11 @@ namespace ieompp
             static constexpr bool value = true;
         };
 
+        template <typename Scalar, bool TransposeFlag>
+        struct IsBlazeVector<blaze::CompressedVector<Scalar, TransposeFlag>> {
+            static constexpr bool value = true;
+        };
+
         template <typename Scalar, bool StorageOrder>
         struct MatrixDimensionInfo<blaze::DynamicMatrix<Scalar, StorageOrder>> {
             static blaze::size_t rows(const blaze::DynamicMatrix<Scalar, StorageOrder>& m)
-- 
2.43.0


From 984c7cbfcbbf968b1ee2d346c8cda5927b2ec94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:02 +0000
Subject: [PATCH 40/46] fix: static vectors are vectors

---
 include/ieompp/types/blaze/traits.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/ieompp/types/blaze/traits.hpp b/include/ieompp/types/blaze/traits.hpp
index caa8879..8066ad2 100644
--- a/include/ieompp/types/blaze/traits.hpp
+++ b/include/ieompp/types/blaze/traits.hpp
@@ -28,6 +28,11 @@ namespace ieompp
             static constexpr bool value = true;
         };
 
+        template <typename Scalar, size_t N, bool TransposeFlag>
+        struct IsVector<blaze::StaticVector<Scalar, N, TransposeFlag>> {
+            static constexpr bool value = true;
+        };
+
         template <typename Scalar, bool TransposeFlag>
         struct IsVector<blaze::CompressedVector<Scalar, TransposeFlag>> {
             static constexpr bool value = true;
@@ -38,6 +43,11 @@ namespace ieompp
             static constexpr bool value = true;
         };
 
+        template <typename Scalar, size_t N>
+        struct IsRowVector<blaze::StaticVector<Scalar, N, blaze::rowVector>> {
+            static constexpr bool value = true;
+        };
+
         template <typename Scalar>
         struct IsRowVector<blaze::CompressedVector<Scalar, blaze::rowVector>> {
             static constexpr bool value = true;
@@ -48,6 +58,11 @@ namespace ieompp
             static constexpr bool value = true;
         };
 
+        template <typename Scalar, size_t N>
+        struct IsColumnVector<blaze::StaticVector<Scalar, N, blaze::columnVector>> {
+            static constexpr bool value = true;
+        };
+
         template <typename Scalar>
         struct IsColumnVector<blaze::CompressedVector<Scalar, blaze::columnVector>> {
             static constexpr bool value = true;
-- 
2.43.0


From 29903cdc600756aac614241d797bfbecd2e6f8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:02 +0000
Subject: [PATCH 41/46] fix: row vectors have one row

---
 include/ieompp/types/blaze/traits.hpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/include/ieompp/types/blaze/traits.hpp b/include/ieompp/types/blaze/traits.hpp
index 8066ad2..153b856 100644
--- a/include/ieompp/types/blaze/traits.hpp
+++ b/include/ieompp/types/blaze/traits.hpp
@@ -190,13 +190,12 @@ namespace ieompp
         struct MatrixDimensionInfo<blaze::DynamicVector<Scalar, TransposeFlag>> {
             static blaze::size_t rows(const blaze::DynamicVector<Scalar, TransposeFlag>& v)
             {
-                return v.size();
+                return (TransposeFlag == blaze::rowVector) ? 1 : v.size();
             }
 
-            static blaze::size_t
-            columns(const blaze::DynamicVector<Scalar, TransposeFlag>& /*unused*/)
+            static blaze::size_t columns(const blaze::DynamicVector<Scalar, TransposeFlag>& v)
             {
-                return 1;
+                return (TransposeFlag == blaze::rowVector) ? v.size() : 1;
             }
         };
 
@@ -204,13 +203,12 @@ namespace ieompp
         struct MatrixDimensionInfo<blaze::CompressedVector<Scalar, TransposeFlag>> {
             static blaze::size_t rows(const blaze::CompressedVector<Scalar, TransposeFlag>& v)
             {
-                return v.size();
+                return (TransposeFlag == blaze::rowVector) ? 1 : v.size();
             }
 
-            static blaze::size_t
-            columns(const blaze::CompressedVector<Scalar, TransposeFlag>& /*unused*/)
+            static blaze::size_t columns(const blaze::CompressedVector<Scalar, TransposeFlag>& v)
             {
-                return 1;
+                return (TransposeFlag == blaze::rowVector) ? v.size() : 1;
             }
         };
     } // namespace types
-- 
2.43.0


From 4b08d4da60097e48fe1346085e24c09e8f300b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:02 +0000
Subject: [PATCH 42/46] fix: Eigen's sparse matrices are no vectors

---
 include/ieompp/types/eigen/traits.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ieompp/types/eigen/traits.hpp b/include/ieompp/types/eigen/traits.hpp
index 535dc85..1b47ef2 100644
--- a/include/ieompp/types/eigen/traits.hpp
+++ b/include/ieompp/types/eigen/traits.hpp
@@ -47,7 +47,7 @@ namespace ieompp
 
         template <typename Scalar, int Options, typename Index>
         struct IsVector<Eigen::SparseMatrix<Scalar, Options, Index>> {
-            static constexpr bool value = true;
+            static constexpr bool value = false;
         };
 
         template <typename Scalar, int Rows, int Cols, int Options, int MaxRows, int MaxCols>
@@ -62,7 +62,7 @@ namespace ieompp
 
         template <typename Scalar, int Options, typename Index>
         struct IsRowVector<Eigen::SparseMatrix<Scalar, Options, Index>> {
-            static constexpr bool value = true;
+            static constexpr bool value = false;
         };
 
         template <typename Scalar, int Rows, int Cols, int Options, int MaxRows, int MaxCols>
@@ -77,7 +77,7 @@ namespace ieompp
 
         template <typename Scalar, int Options, typename Index>
         struct IsColumnVector<Eigen::SparseMatrix<Scalar, Options, Index>> {
-            static constexpr bool value = true;
+            static constexpr bool value = false;
         };
 
         template <typename Scalar, int Rows, int Cols, int Options, int MaxRows, int MaxCols>
-- 
2.43.0


From a82556fb10527f17e9ba098acc590cffb5903486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:05 +0000
Subject: [PATCH 43/46] fix: log the number of lattice sites

---
 src/hubbard/real_space/periodic_chain.hpp          | 2 +-
 src/hubbard/real_space/periodic_square_lattice.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hubbard/real_space/periodic_chain.hpp b/src/hubbard/real_space/periodic_chain.hpp
index 53a47fb..819b3d3 100644
--- a/src/hubbard/real_space/periodic_chain.hpp
+++ b/src/hubbard/real_space/periodic_chain.hpp
@@ -7,7 +7,7 @@
 
 auto init_lattice(uint64_t N, double dx = 1.)
 {
-    get_loggers().main->info("Init periodic chain with N = {} sites");
+    get_loggers().main->info("Init periodic chain with N = {} sites", N);
     ieompp::lattices::PeriodicChain<double> chain(N, dx);
     get_loggers().main->info("Finished setting up lattice");
     return chain;
diff --git a/src/hubbard/real_space/periodic_square_lattice.hpp b/src/hubbard/real_space/periodic_square_lattice.hpp
index 838a5ed..4392067 100644
--- a/src/hubbard/real_space/periodic_square_lattice.hpp
+++ b/src/hubbard/real_space/periodic_square_lattice.hpp
@@ -7,7 +7,7 @@
 
 auto init_lattice(uint64_t Nx, uint64_t Ny, double dx = 1., double dy = 1.)
 {
-    get_loggers().main->info("Init periodic square lattice with N = {} sites");
+    get_loggers().main->info("Init periodic square lattice with N = {} sites", Nx * Ny);
     ieompp::lattices::PeriodicSquareLattice<double> chain(Nx, Ny, dx, dy);
     get_loggers().main->info("Finished setting up lattice");
     return chain;
-- 
2.43.0


From ef8f7a410b9c5960659c3699a0e5ab49d2f58be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:05 +0000
Subject: [PATCH 44/46] fix: log the share of non-zero matrix elements in
 percent

---
 src/hubbard/momentum_space/momentum_space.hpp | 2 +-
 src/hubbard/real_space/matrix.hpp             | 4 ++--
 src/hubbard/real_space/matrix_no.hpp          | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/hubbard/momentum_space/momentum_space.hpp b/src/hubbard/momentum_space/momentum_space.hpp
index ccc5152..d431a2a 100644
--- a/src/hubbard/momentum_space/momentum_space.hpp
+++ b/src/hubbard/momentum_space/momentum_space.hpp
@@ -15,7 +15,7 @@ auto compute_matrix(const Liouvillian& L, const Basis& basis, const Lattice& lat
     ieompp::models::hubbard_momentum_space::init_matrix(L, M, basis, lattice);
     get_loggers().main->info("  {} out of {} matrix elements are non-zero ({:.5f}% filling)",
                              M.nonZeros(), M.rows() * M.columns(),
-                             double(M.nonZeros()) / (M.rows() * M.columns()));
+                             100. * M.nonZeros() / (M.rows() * M.columns()));
     get_loggers().main->info("Multiply matrix with prefactor 1i");
     M *= std::complex<double>(0, 1);
     get_loggers().main->info("Finished matrix initialization");
diff --git a/src/hubbard/real_space/matrix.hpp b/src/hubbard/real_space/matrix.hpp
index 24ab5dd..231d5ee 100644
--- a/src/hubbard/real_space/matrix.hpp
+++ b/src/hubbard/real_space/matrix.hpp
@@ -14,7 +14,7 @@ auto compute_matrix(const Liouvillian& L, const Basis& basis, const Lattice& lat
     ieompp::models::hubbard_real_space::init_matrix(L, M, basis, lattice);
     get_loggers().main->info("  {} out of {} matrix elements are non-zero ({}% filling)",
                              M.nonZeros(), M.rows() * M.columns(),
-                             double(M.nonZeros()) / (M.rows() * M.columns()));
+                             100. * M.nonZeros() / (M.rows() * M.columns()));
     get_loggers().main->info("Multiply matrix with prefactor 1i");
     M *= std::complex<double>(0, 1);
     get_loggers().main->info("Finished matrix initialization");
@@ -30,7 +30,7 @@ auto compute_kinetic_matrix(const Liouvillian& L, const Basis& basis, const Latt
     ieompp::models::hubbard_real_space::init_kinetic_matrix(L, M, basis, lattice);
     get_loggers().main->info("  {} out of {} matrix elements are non-zero ({:.5f}% filling)",
                              M.nonZeros(), M.rows() * M.columns(),
-                             double(M.nonZeros()) / (M.rows() * M.columns()));
+                             100. * M.nonZeros() / (M.rows() * M.columns()));
     get_loggers().main->info("Multiply matrix with prefactor 1i");
     M *= std::complex<double>(0, 1);
     get_loggers().main->info("Finished matrix initialization");
diff --git a/src/hubbard/real_space/matrix_no.hpp b/src/hubbard/real_space/matrix_no.hpp
index 3cdb82e..120644e 100644
--- a/src/hubbard/real_space/matrix_no.hpp
+++ b/src/hubbard/real_space/matrix_no.hpp
@@ -15,7 +15,7 @@ auto compute_matrix(const Liouvillian& L, const Basis& basis, const Lattice& lat
     ieompp::models::hubbard_real_space::init_matrix_no(L, M, basis, lattice, ev);
     get_loggers().main->info("  {} out of {} matrix elements are non-zero ({}% filling)",
                              M.nonZeros(), M.rows() * M.columns(),
-                             double(M.nonZeros()) / (M.rows() * M.columns()));
+                             100. * M.nonZeros() / (M.rows() * M.columns()));
     get_loggers().main->info("Multiply matrix with prefactor 1i");
     M *= std::complex<double>(0, 1);
     get_loggers().main->info("Finished matrix initialization");
@@ -31,7 +31,7 @@ auto compute_kinetic_matrix(const Liouvillian& L, const Basis& basis, const Latt
     ieompp::models::hubbard_real_space::init_kinetic_matrix_no(L, M, basis, lattice);
     get_loggers().main->info("  {} out of {} matrix elements are non-zero ({:.5f}% filling)",
                              M.nonZeros(), M.rows() * M.columns(),
-                             double(M.nonZeros()) / (M.rows() * M.columns()));
+                             100. * M.nonZeros() / (M.rows() * M.columns()));
     get_loggers().main->info("Multiply matrix with prefactor 1i");
     M *= std::complex<double>(0, 1);
     get_loggers().main->info("Finished matrix initialization");
-- 
2.43.0


From 505e52e9472253d329bb02281faa87a04c1e9145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:05 +0000
Subject: [PATCH 45/46] fix: help does not mention the option --checkpoint,
 which is not accepted

---
 src/hubbard/include/application.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/hubbard/include/application.hpp b/src/hubbard/include/application.hpp
index bbb9cd9..db8b2d2 100644
--- a/src/hubbard/include/application.hpp
+++ b/src/hubbard/include/application.hpp
@@ -122,7 +122,6 @@ struct Application {
         std::cout << name << "\n\n";
         std::cout << "Usage:\n";
         std::cout << "  " << Application::name << " [options]" << '\n';
-        std::cout << "  " << Application::name << " [options] --checkpoint=<path>" << '\n';
         std::cout << '\n';
         std::cout << Application::description << '\n';
         std::cout << Application::options_description << '\n';
-- 
2.43.0


From 6138000fda2fee530367e911eae771147e75fa41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:18 +0000
Subject: [PATCH 46/46] fix: a checkpoint over one of an earlier run was
 announced by the old info file while it was written

---
 src/hubbard/include/checkpoint.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hubbard/include/checkpoint.hpp b/src/hubbard/include/checkpoint.hpp
index e30d458..7e5641e 100644
--- a/src/hubbard/include/checkpoint.hpp
+++ b/src/hubbard/include/checkpoint.hpp
@@ -22,6 +22,8 @@ void write_checkpoint_file(const std::string& prefix,
     std::string path                   = prefix + std::to_string(check_point_number) + ".blaze";
     get_loggers().io->info("Create checkpoint file \"{}\" using vector with {} elements", path,
                            vector.size());
+    // an info file left by an earlier run does not describe the checkpoint written now
+    boost::filesystem::remove(prefix + std::to_string(check_point_number) + ".info");
     std::ofstream strm(path.c_str(), std::ofstream::binary);
     blaze::Archive<std::ofstream> archive(strm);
     archive << vector;
-- 
2.43.0

