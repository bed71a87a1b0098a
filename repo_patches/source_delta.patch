From 967b4c66e0345dce4a0096d0f87fb902342e3afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:48 +0000
Subject: [PATCH 01/19] fix: drop terms that cancel to zero in
 pair_vec_normalization

---
 clpoly/basic.hh | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/clpoly/basic.hh b/clpoly/basic.hh
index 7869414..2c50977 100644
--- a/clpoly/basic.hh
+++ b/clpoly/basic.hh
@@ -116,11 +116,16 @@ namespace clpoly{
                     t1->second+=t2->second;//add_assignment
                 else
                 {
-                    ++t1;
-                    ++tmp_size;
+                    if (!zore_check<T2>()(t1->second)) // drop a sum that cancelled
+                    {
+                        ++t1;
+                        ++tmp_size;
+                    }
                     if (t1!=t2)
                         *t1=std::move(*t2);
                 }
+        if (zore_check<T2>()(t1->second))
+            --tmp_size;
         return tmp_size;
     }
     template <class T,class Tv,class compare>
-- 
2.43.0


From 95849f14763c27ad4cdfe2e359d47c9c454b9363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:48 +0000
Subject: [PATCH 02/19] fix: adding a constant to an empty polynomial, or a
 constant that cancels

---
 clpoly/polynomial_.hh | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/clpoly/polynomial_.hh b/clpoly/polynomial_.hh
index 3581379..f2a9299 100644
--- a/clpoly/polynomial_.hh
+++ b/clpoly/polynomial_.hh
@@ -179,9 +179,13 @@ namespace clpoly{
     template<class Tc>
     polynomial_<Tc> operator+ (polynomial_<Tc>  O,Tc  m)
     {
-        if (O.empty() || O.back().first.empty())
+        if (!O.empty() && O.back().first.empty())
+        {
             O.back().second+=m;
-        else
+            if (!O.back().second)
+                O.pop_back();
+        }
+        else if (m)
             O.push_back({{},std::move(m)});
         return O;
     }
-- 
2.43.0


From 695ddae4b0a9c1604c24c669dc7ac219a0d7ee59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:57 +0000
Subject: [PATCH 03/19] fix: division with remainder put the wrong term into
 the remainder

---
 clpoly/basic.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clpoly/basic.hh b/clpoly/basic.hh
index 2c50977..6ebfb38 100644
--- a/clpoly/basic.hh
+++ b/clpoly/basic.hh
@@ -746,7 +746,7 @@ namespace clpoly{
                 {
                     __div(k,k1,i.second,v2_.begin()->second);
                     if (k1)
-                        R.push_back({m,std::move(k1)});
+                        R.push_back({i.first,std::move(k1)});
                     if (k)
                         new_v.push_back({std::move(m),std::move(k)});
 
@@ -827,7 +827,7 @@ namespace clpoly{
                     //std::cout<<k<<" "<<v2_begin->second<<" "<<k1<<std::endl;    
 
                     if(!zore_check<T2>()(k2)){
-                        R.push_back({std::move(m),std::move(k)});
+                        R.push_back({std::move(m),std::move(k2)});
                     }
                     //std::cout<<k<<" "<<v2_begin->second<<" "<<k1<<std::endl;    
                     if(!zore_check<T2>()(k1)){
-- 
2.43.0


From cf3a88ee1c58b31ced52185abccdbe8873f58c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:57 +0000
Subject: [PATCH 04/19] fix: division by a single term left zero coefficients
 in the quotient

---
 clpoly/basic.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clpoly/basic.hh b/clpoly/basic.hh
index 6ebfb38..5e2e006 100644
--- a/clpoly/basic.hh
+++ b/clpoly/basic.hh
@@ -608,7 +608,8 @@ namespace clpoly{
                 if (is_divexact(m,i.first,v2_.begin()->first))
                 {
                     __div(k,i.second,v2_.begin()->second);
-                    new_v.push_back({std::move(m),std::move(k)});
+                    if (!zore_check<T2>()(k))
+                        new_v.push_back({std::move(m),std::move(k)});
                 }
             }
             return void();
-- 
2.43.0


From e6e610a0bf824f8f55409f48e688197a18934a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:57 +0000
Subject: [PATCH 05/19] fix: packed monomials overflowed in multiplication
 (dangling else), and with more than 63 variables

---
 clpoly/monomial_order.hh | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/clpoly/monomial_order.hh b/clpoly/monomial_order.hh
index 2250c00..3bac292 100644
--- a/clpoly/monomial_order.hh
+++ b/clpoly/monomial_order.hh
@@ -221,8 +221,11 @@ namespace clpoly{
         vars.clear();
         __pair_vec_variables(v1_,vars);
         __pair_vec_variables(v2_,vars);
+        if (vars.size()>63) return false;
         if (delta)
+        {
             if (vars.size()>1 && std::max(v1_.begin()->first.deg(),v2_.begin()->first.deg())>=(uint64_t(1)<<(64/(vars.size()+1)-1))) return false;
+        }
         else
             if (vars.size()>1 && v1_.begin()->first.deg()+v2_.begin()->first.deg()>=(uint64_t(1)<<(64/(vars.size()+1)))) return false;
         return true;
@@ -443,8 +446,11 @@ namespace clpoly{
         vars.clear();
         __pair_vec_variables(v1_,vars);
         __pair_vec_variables(v2_,vars);
+        if (vars.size()>64) return false;
         if (delta)
+        {
             if (vars.size()>1  && std::max(deg1,deg2)>=(uint64_t(1)<<(64/vars.size()-1))) return false;
+        }
         else    
             if (vars.size()>1  && deg1+deg2>=(uint64_t(1)<<(64/vars.size()))) return false;
         return true;
-- 
2.43.0


From dc1453759459b3270df28bee214bf192af38e0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:18 +0000
Subject: [PATCH 06/19] fix: shifts by 64 in monomial packing

---
 clpoly/monomial_order.hh | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/clpoly/monomial_order.hh b/clpoly/monomial_order.hh
index 3bac292..ca5c775 100644
--- a/clpoly/monomial_order.hh
+++ b/clpoly/monomial_order.hh
@@ -269,7 +269,7 @@ namespace clpoly{
         {
             unsigned int l=64/(vars.size()+1);
             unsigned int ll=l*vars.size();
-            uint64_t mod=(uint64_t(1)<<(l*(vars.size()+1)))-(uint64_t(1)<<ll);
+            uint64_t mod=(l+ll==64?uint64_t(0):uint64_t(1)<<(l+ll))-(uint64_t(1)<<ll);
             m.deg()=(mc & mod)>>ll;
             uint64_t part;
             for (auto &i:vars)
@@ -464,7 +464,8 @@ namespace clpoly{
         auto m_ptr=m.begin();
         for (auto &i:vars)
         {
-            mc<<=l;
+            if (l<64)
+                mc<<=l;
             if (m_ptr!=m.end()  && i == m_ptr->first)
             {
                 mc+=m_ptr->second;
@@ -486,7 +487,7 @@ namespace clpoly{
         if (l==64)
             mod=-1;
         else
-            mod=(uint64_t(1)<<(l*(vars.size())))-(uint64_t(1)<<ll);
+            mod=(l+ll==64?uint64_t(0):uint64_t(1)<<(l+ll))-(uint64_t(1)<<ll);
         uint64_t deg;
         uint64_t part;
         for (auto &i:vars)
@@ -494,7 +495,8 @@ namespace clpoly{
             part=(mc & mod)>>ll;
             if (part!=0)
                 m.push_back({i,part});
-            mc<<=l;
+            if (l<64)
+                mc<<=l;
           
         }
 
-- 
2.43.0


From 1682a3ebb5dfe0d3bdeda3e525b058f350fd03db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:18 +0000
Subject: [PATCH 07/19] fix: univariate packed division rejected quotient
 degrees with bit 31 set

---
 clpoly/monomial_order.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/clpoly/monomial_order.hh b/clpoly/monomial_order.hh
index ca5c775..1639b7b 100644
--- a/clpoly/monomial_order.hh
+++ b/clpoly/monomial_order.hh
@@ -288,6 +288,8 @@ namespace clpoly{
     template<class var_comp>
     inline uint64_t __monomial_compression_div_mold(const grlex_<var_comp>* m,size_t vars_size)
     {
+        if (vars_size==1) // a single variable is packed into the whole word
+            return uint64_t(1)<<63;
         unsigned int l=64/(vars_size+1);
         uint64_t mold=0;
         for (unsigned int i=0;i<=vars_size;++i)
-- 
2.43.0


From 0d1e8368e9a8c26be4d18444e3d74c7264cc185a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:52 +0000
Subject: [PATCH 08/19] fix: lexicographic packed division lost terms when an
 exponent outgrew its field

---
 clpoly/monomial.hh | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/clpoly/monomial.hh b/clpoly/monomial.hh
index e75569d..bb30107 100644
--- a/clpoly/monomial.hh
+++ b/clpoly/monomial.hh
@@ -366,7 +366,8 @@ namespace clpoly
         std::size_t i, j, s,i1;
         T2 k;
         T2 k1;
-        while (heap_size!=0 || v1_ptr!=v1_end)
+        bool overflow=false; // an exponent no longer fits its packed field
+        while (!overflow && (heap_size!=0 || v1_ptr!=v1_end))
         {
             if (v1_ptr!=v1_end && (heap_size==0 || !gcomp(heap[0]->mono,v1_ptr->first)))
             {
@@ -388,6 +389,7 @@ namespace clpoly
                     if (++(heap[0]->v1_ptr)!=new_v_c.end()){
                         lin[lin_size++]=heap[0];
                         heap[0]->mono=heap[0]->v1_ptr->first+heap[0]->v2_ptr->first;
+                        if (heap[0]->mono & mold) overflow=true;
                         heap[0]=heap[0]->next;  
                     }
                     else{
@@ -417,6 +419,7 @@ namespace clpoly
                             --reset_h;
                             node[reset_h].v1_ptr=new_c_ptr;
                             node[reset_h].mono=new_c_ptr->first+node[reset_h].v2_ptr->first;
+                            if (node[reset_h].mono & mold) overflow=true;
                             VHC_insert(heap,heap_size,node+reset_h,gcomp);
                         }
                     }
@@ -428,6 +431,11 @@ namespace clpoly
         delete [] heap;
         delete [] lin;
         delete [] node;
+        if (overflow)
+        {
+            new_v.clear();
+            return false;
+        }
         //std::cout<<"压缩乘法结束\n";
         return true;
     }
@@ -491,7 +499,8 @@ namespace clpoly
         T2 k;
         T2 k1;
         T2 k2;
-        while (heap_size!=0 || v1_ptr!=v1_end)
+        bool overflow=false; // an exponent no longer fits its packed field
+        while (!overflow && (heap_size!=0 || v1_ptr!=v1_end))
         {
             if (v1_ptr!=v1_end && (heap_size==0 || !gcomp(heap[0]->mono,v1_ptr->first)))
             {
@@ -513,6 +522,7 @@ namespace clpoly
                     if (++(heap[0]->v1_ptr)!=new_v_c.end()){
                         lin[lin_size++]=heap[0];
                         heap[0]->mono=heap[0]->v1_ptr->first+heap[0]->v2_ptr->first;
+                        if (heap[0]->mono & mold) overflow=true;
                         heap[0]=heap[0]->next;  
                     }
                     else{
@@ -546,6 +556,7 @@ namespace clpoly
                             --reset_h;
                             node[reset_h].v1_ptr=new_c_ptr;
                             node[reset_h].mono=new_c_ptr->first+node[reset_h].v2_ptr->first;
+                            if (node[reset_h].mono & mold) overflow=true;
                             VHC_insert(heap,heap_size,node+reset_h,gcomp);
                         }
                     }
@@ -561,6 +572,12 @@ namespace clpoly
         delete [] heap;
         delete [] lin;
         delete [] node;
+        if (overflow)
+        {
+            new_v.clear();
+            R.clear();
+            return false;
+        }
         //std::cout<<"压缩乘法结束\n";
         return true;
     }
-- 
2.43.0


From 084e06abd2d615635e7e3dce4496576e5423642a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:24 +0000
Subject: [PATCH 09/19] fix: signed overflow when negating INT64_MIN

---
 clpoly/number/ZZ.hh   | 22 +++++++++++-----------
 clpoly/polynomial_.hh |  4 ++--
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/clpoly/number/ZZ.hh b/clpoly/number/ZZ.hh
index b86ca8b..10d76b7 100644
--- a/clpoly/number/ZZ.hh
+++ b/clpoly/number/ZZ.hh
@@ -388,18 +388,18 @@ public:
             if (b._val >= 0)
                 mpz_add_ui(res._mpz, res._mpz, static_cast<unsigned long>(b._val));
             else
-                mpz_sub_ui(res._mpz, res._mpz, static_cast<unsigned long>(-b._val));
+                mpz_sub_ui(res._mpz, res._mpz, -static_cast<unsigned long>(b._val));
         } else if (a._is_small()) {
             if (a._val >= 0)
                 mpz_add_ui(res._mpz, b._mpz, static_cast<unsigned long>(a._val));
             else {
-                mpz_sub_ui(res._mpz, b._mpz, static_cast<unsigned long>(-a._val));
+                mpz_sub_ui(res._mpz, b._mpz, -static_cast<unsigned long>(a._val));
             }
         } else if (b._is_small()) {
             if (b._val >= 0)
                 mpz_add_ui(res._mpz, a._mpz, static_cast<unsigned long>(b._val));
             else
-                mpz_sub_ui(res._mpz, a._mpz, static_cast<unsigned long>(-b._val));
+                mpz_sub_ui(res._mpz, a._mpz, -static_cast<unsigned long>(b._val));
         } else {
             mpz_add(res._mpz, a._mpz, b._mpz);
         }
@@ -421,7 +421,7 @@ public:
             if (b._val >= 0)
                 mpz_sub_ui(res._mpz, res._mpz, static_cast<unsigned long>(b._val));
             else
-                mpz_add_ui(res._mpz, res._mpz, static_cast<unsigned long>(-b._val));
+                mpz_add_ui(res._mpz, res._mpz, -static_cast<unsigned long>(b._val));
         } else if (a._is_small()) {
             _mpz_set_s64(res._mpz, a._val);
             mpz_sub(res._mpz, res._mpz, b._mpz);
@@ -429,7 +429,7 @@ public:
             if (b._val >= 0)
                 mpz_sub_ui(res._mpz, a._mpz, static_cast<unsigned long>(b._val));
             else
-                mpz_add_ui(res._mpz, a._mpz, static_cast<unsigned long>(-b._val));
+                mpz_add_ui(res._mpz, a._mpz, -static_cast<unsigned long>(b._val));
         } else {
             mpz_sub(res._mpz, a._mpz, b._mpz);
         }
@@ -539,7 +539,7 @@ public:
             if (b._val >= 0)
                 mpz_add_ui(_mpz, _mpz, static_cast<unsigned long>(b._val));
             else
-                mpz_sub_ui(_mpz, _mpz, static_cast<unsigned long>(-b._val));
+                mpz_sub_ui(_mpz, _mpz, -static_cast<unsigned long>(b._val));
         } else {
             mpz_add(_mpz, _mpz, b._mpz);
         }
@@ -560,7 +560,7 @@ public:
             if (b._val >= 0)
                 mpz_sub_ui(_mpz, _mpz, static_cast<unsigned long>(b._val));
             else
-                mpz_add_ui(_mpz, _mpz, static_cast<unsigned long>(-b._val));
+                mpz_add_ui(_mpz, _mpz, -static_cast<unsigned long>(b._val));
         } else {
             mpz_sub(_mpz, _mpz, b._mpz);
         }
@@ -694,7 +694,7 @@ public:
         if (_is_small()) {
             if (_val >= 0) return static_cast<uint64_t>(_val) % d;
             // negative: floor mod = d - ((-val) % d), but 0 if divides evenly
-            uint64_t r = static_cast<uint64_t>(-_val) % d;
+            uint64_t r = -static_cast<uint64_t>(_val) % d;
             return r == 0 ? 0 : d - r;
         }
         return mpz_fdiv_ui(_mpz, d);
@@ -704,7 +704,6 @@ public:
     size_t sizeinbase(int base) const {
         if (_is_small()) {
             if (_val == 0) return 1;
-            int64_t v = _val < 0 ? -_val : _val;
             // Special case: _val == INT64_MIN, -_val overflows
             if (_val == INT64_MIN) {
                 mpz_t tmp;
@@ -714,6 +713,7 @@ public:
                 mpz_clear(tmp);
                 return r;
             }
+            int64_t v = _val < 0 ? -_val : _val;
             size_t count = 0;
             while (v > 0) { v /= base; ++count; }
             return count;
@@ -920,12 +920,12 @@ inline ZZ pow(const ZZ& base, uint64_t exp) {
 inline ZZ gcd(const ZZ& a, const ZZ& b) {
     if (a._is_small() && b._is_small()) {
         // Simple GCD for small integers
-        int64_t x = a._val < 0 ? -a._val : a._val;
-        int64_t y = b._val < 0 ? -b._val : b._val;
         // Handle INT64_MIN
         if (a._val == INT64_MIN || b._val == INT64_MIN) {
             // fall through to mpz
         } else {
+            int64_t x = a._val < 0 ? -a._val : a._val;
+            int64_t y = b._val < 0 ? -b._val : b._val;
             while (y) { int64_t t = y; y = x % y; x = t; }
             return ZZ(x);
         }
diff --git a/clpoly/polynomial_.hh b/clpoly/polynomial_.hh
index f2a9299..6fa454e 100644
--- a/clpoly/polynomial_.hh
+++ b/clpoly/polynomial_.hh
@@ -105,7 +105,7 @@ namespace clpoly{
     
     inline polynomial_ZZ operator-(monomial  m,int64_t i)
     {
-        return polynomial_ZZ({{std::move(m),1},{{},-i}});
+        return polynomial_ZZ({{std::move(m),1},{{},-ZZ(i)}});
     }
 
     inline polynomial_ZZ operator+(int64_t i,monomial  m)
@@ -159,7 +159,7 @@ namespace clpoly{
     template<class Tc>
     polynomial_<Tc> operator- (polynomial_<Tc> p,int64_t m)
     {
-        return p+Tc(-m);
+        return p+(-Tc(m));
     }
     template<class Tc>
     polynomial_<Tc> operator- (int64_t m, const polynomial_<Tc> &  p)
-- 
2.43.0


From f8e35ffce6a791dc07f47f0babcb0e8f1e778587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:48 +0000
Subject: [PATCH 10/19] fix: ZZ::fdiv_r(INT64_MIN, -1) trapped

---
 clpoly/number/ZZ.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clpoly/number/ZZ.hh b/clpoly/number/ZZ.hh
index 10d76b7..2db4132 100644
--- a/clpoly/number/ZZ.hh
+++ b/clpoly/number/ZZ.hh
@@ -810,7 +810,7 @@ public:
     static void fdiv_r(ZZ& r, const ZZ& a, const ZZ& b) {
         if (a._is_small() && b._is_small()) {
             if (b._val == 0) throw std::domain_error("ZZ: division by zero");
-            int64_t rem = a._val % b._val;
+            int64_t rem = b._val == -1 ? 0 : a._val % b._val;
             if (rem != 0 && ((rem ^ b._val) < 0))
                 rem += b._val;
             if (r._mpz) { _mpz_del(r._mpz); r._mpz = nullptr; }
-- 
2.43.0


From 036b77ee0aa58425c7090b086ccdb2cb9c98a140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:48 +0000
Subject: [PATCH 11/19] fix: dividing a multi-word ZZ by zero trapped instead
 of throwing

---
 clpoly/number/ZZ.hh | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/clpoly/number/ZZ.hh b/clpoly/number/ZZ.hh
index 2db4132..149cbff 100644
--- a/clpoly/number/ZZ.hh
+++ b/clpoly/number/ZZ.hh
@@ -468,8 +468,8 @@ public:
 
     // ---- arithmetic: truncated division (consistent with mpz_class) ----
     friend ZZ operator/(const ZZ& a, const ZZ& b) {
+        if (b.is_zero()) throw std::domain_error("ZZ: division by zero");
         if (a._is_small() && b._is_small()) {
-            if (b._val == 0) throw std::domain_error("ZZ: division by zero");
             // handle INT64_MIN / -1 overflow
             if (a._val == INT64_MIN && b._val == -1) {
                 ZZ r;
@@ -501,8 +501,8 @@ public:
 
     // ---- arithmetic: modulo (truncated, consistent with mpz_class) ----
     friend ZZ operator%(const ZZ& a, const ZZ& b) {
+        if (b.is_zero()) throw std::domain_error("ZZ: modulo by zero");
         if (a._is_small() && b._is_small()) {
-            if (b._val == 0) throw std::domain_error("ZZ: modulo by zero");
             if (a._val == INT64_MIN && b._val == -1) return ZZ(0);
             return ZZ(a._val % b._val);
         }
@@ -729,8 +729,8 @@ public:
 
     // ---- floor division (static, for number.hh template specialization) ----
     static void fdiv_q(ZZ& q, const ZZ& a, const ZZ& b) {
+        if (b.is_zero()) throw std::domain_error("ZZ: division by zero");
         if (a._is_small() && b._is_small()) {
-            if (b._val == 0) throw std::domain_error("ZZ: division by zero");
             if (a._val == INT64_MIN && b._val == -1) {
                 q._ensure_mpz();
                 _mpz_set_s64(q._mpz, INT64_MIN);
@@ -765,8 +765,8 @@ public:
     }
 
     static void fdiv_qr(ZZ& q, ZZ& r, const ZZ& a, const ZZ& b) {
+        if (b.is_zero()) throw std::domain_error("ZZ: division by zero");
         if (a._is_small() && b._is_small()) {
-            if (b._val == 0) throw std::domain_error("ZZ: division by zero");
             if (a._val == INT64_MIN && b._val == -1) {
                 q._ensure_mpz();
                 _mpz_set_s64(q._mpz, INT64_MIN);
@@ -808,8 +808,8 @@ public:
 
     // ---- floor remainder (static) ----
     static void fdiv_r(ZZ& r, const ZZ& a, const ZZ& b) {
+        if (b.is_zero()) throw std::domain_error("ZZ: division by zero");
         if (a._is_small() && b._is_small()) {
-            if (b._val == 0) throw std::domain_error("ZZ: division by zero");
             int64_t rem = b._val == -1 ? 0 : a._val % b._val;
             if (rem != 0 && ((rem ^ b._val) < 0))
                 rem += b._val;
-- 
2.43.0


From 3139e1c02c2059f1ec2e8d90e77e2de2bc4a9e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:13 +0000
Subject: [PATCH 12/19] fix: is_normal dereferenced the first term of the
 constant monomial and of zero

---
 clpoly/basic.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/clpoly/basic.hh b/clpoly/basic.hh
index 5e2e006..5211df6 100644
--- a/clpoly/basic.hh
+++ b/clpoly/basic.hh
@@ -76,6 +76,8 @@ namespace clpoly{
     template <class T1,class T2,class compare>
     inline bool pair_vec_normal_check(const std::vector<std::pair<T1,T2>> & v,const compare & comp )
     {
+        if (v.empty())
+            return true;
         auto t2=v.begin();++t2;
         auto t1=v.begin();
         auto e=v.end();
-- 
2.43.0


From 70f8e5cfae6bcf0aa330ddd474271361dc42cbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:39 +0000
Subject: [PATCH 13/19] fix: coeff(F,v) ignored v when F already had a
 univariate-first order

---
 clpoly/polynomial.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clpoly/polynomial.hh b/clpoly/polynomial.hh
index 15a6b99..73bb8fc 100644
--- a/clpoly/polynomial.hh
+++ b/clpoly/polynomial.hh
@@ -203,12 +203,12 @@ namespace clpoly{
     {
         univariate_priority_order comp_v(v);
         polynomial_<Tc,univariate_priority_order> F_(&comp_v);
-        F_=F;
+        poly_convert(F,F_);
         auto coeff_l=coeff(F_);
         std::vector<polynomial_<Tc,comp>>  coF(coeff_l.size(),polynomial_<Tc,comp>(F.comp_ptr()));
         for (size_t i=0;i<coeff_l.size();++i)
         {
-            coF[i]=coeff_l[i];
+            poly_convert(coeff_l[i],coF[i]);
         }
         return coF;
     }
-- 
2.43.0


From 740c9fb26b4f0389eb936f40b10e8d91682dc5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:37 +0000
Subject: [PATCH 14/19] fix: derivative over Zp kept terms with a zero
 coefficient

---
 clpoly/polynomial.hh | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/clpoly/polynomial.hh b/clpoly/polynomial.hh
index 73bb8fc..ec73a0d 100644
--- a/clpoly/polynomial.hh
+++ b/clpoly/polynomial.hh
@@ -870,7 +870,9 @@ namespace clpoly{
             }
             if (b)
             {
-                Pout.push_back({std::move(m),b*i.second});
+                Tc c=b*i.second;
+                if (!zore_check<Tc>()(c))
+                    Pout.push_back({std::move(m),std::move(c)});
             }
             
         }
@@ -892,7 +894,9 @@ namespace clpoly{
                 if (ptr->second-1)
                     m.push_back({x,ptr->second-1});
                 for (++ptr;ptr!=i.first.end();++ptr) m.push_back(*ptr);
-                Pout.push_back({std::move(m),i.first.front().second*i.second});
+                Tc c=i.first.front().second*i.second;
+                if (!zore_check<Tc>()(c))
+                    Pout.push_back({std::move(m),std::move(c)});
             }
             
         }
-- 
2.43.0


From 2331c37e77cb1866466b781e1f4897953f8c9207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:05 +0000
Subject: [PATCH 15/19] fix: leadcoeff of a nonzero constant in a lex order
 returned zero

---
 clpoly/polynomial.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/clpoly/polynomial.hh b/clpoly/polynomial.hh
index ec73a0d..63362a3 100644
--- a/clpoly/polynomial.hh
+++ b/clpoly/polynomial.hh
@@ -242,6 +242,8 @@ namespace clpoly{
         polynomial_<ZZ,lex_<var_order>>  lc(F_.comp_ptr());
         auto v=get_first_var(F_);
         int64_t deg=get_first_deg(F_);
+        if (deg==0)
+            return F_;
         basic_monomial<lex_<var_order>> m(F_.comp_ptr());
         for (auto &i:F_)
         {
-- 
2.43.0


From 7fb83cf316401814f14e61023fc8787d4337f31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:22 +0000
Subject: [PATCH 16/19] fix: modular GCD: no 64-bit overflow when the CRT meets
 a coefficient missing from the residue

Pm->second.number()*tmp_inv.number() multiplied two uint64_t before the
product became a ZZ, so a coefficient divisible by an earlier prime was
reconstructed wrongly and the loop never stabilised.
---
 clpoly/polynomial_gcd.cc | 4 ++--
 clpoly/polynomial_gcd.hh | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/clpoly/polynomial_gcd.cc b/clpoly/polynomial_gcd.cc
index 43f1ed6..e976d3f 100644
--- a/clpoly/polynomial_gcd.cc
+++ b/clpoly/polynomial_gcd.cc
@@ -265,7 +265,7 @@ namespace clpoly{
                         }
                         else
                         {
-                            tmp_Pout_.push_back({std::move(Pm_ptr->first),Pm_ptr->second.number()*tmp_inv.number()*Pout_prime});
+                            tmp_Pout_.push_back({std::move(Pm_ptr->first),ZZ(Pm_ptr->second.number())*tmp_inv.number()*Pout_prime});
                             
                         }
                         ++Pm_ptr;
@@ -279,7 +279,7 @@ namespace clpoly{
                 }
                 while (Pm_ptr!=Pm_end)
                 {
-                    tmp_Pout_.push_back({std::move(Pm_ptr->first),Pm_ptr->second.number()*tmp_inv.number()*Pout_prime});
+                    tmp_Pout_.push_back({std::move(Pm_ptr->first),ZZ(Pm_ptr->second.number())*tmp_inv.number()*Pout_prime});
                     ++Pm_ptr;
                 }
                 Pout_prime*=prime;
diff --git a/clpoly/polynomial_gcd.hh b/clpoly/polynomial_gcd.hh
index 3a6f63c..bd14394 100644
--- a/clpoly/polynomial_gcd.hh
+++ b/clpoly/polynomial_gcd.hh
@@ -383,7 +383,7 @@ namespace clpoly{
                         }
                         else
                         {
-                            tmp_Pout_.push_back({std::move(Pm_ptr->first),Pm_ptr->second.number()*tmp_inv.number()*Pout_prime});
+                            tmp_Pout_.push_back({std::move(Pm_ptr->first),ZZ(Pm_ptr->second.number())*tmp_inv.number()*Pout_prime});
                             
                         }
                         ++Pm_ptr;
@@ -397,7 +397,7 @@ namespace clpoly{
                 }
                 while (Pm_ptr!=Pm_end)
                 {
-                    tmp_Pout_.push_back({std::move(Pm_ptr->first),Pm_ptr->second.number()*tmp_inv.number()*Pout_prime});
+                    tmp_Pout_.push_back({std::move(Pm_ptr->first),ZZ(Pm_ptr->second.number())*tmp_inv.number()*Pout_prime});
                     ++Pm_ptr;
                 }
                 Pout_prime*=prime; 
-- 
2.43.0


From 57303e1c67cc787f2e0609cb2fde432d02b6bf37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:06 +0000
Subject: [PATCH 17/19] fix: modular GCD: reject a prime whose GCD degree
 exceeds the known bound instead of trying 2^64 points

When a later prime is unlucky, every evaluation point gives an image GCD of
too high a degree and the loop ran over all residues. The number of such
points is bounded by the degree of the resultant for a usable prime.
---
 clpoly/polynomial_gcd.hh | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/clpoly/polynomial_gcd.hh b/clpoly/polynomial_gcd.hh
index bd14394..3826683 100644
--- a/clpoly/polynomial_gcd.hh
+++ b/clpoly/polynomial_gcd.hh
@@ -869,6 +869,7 @@ namespace clpoly{
             polynomial_<Zp,lex_<var_order>> G_v(F.comp_ptr());
             polynomial_<Zp,lex_<var_order>> lc_v(F.comp_ptr());
             int64_t num_s=0;
+            int64_t num_bad=0;
             int64_t v_d;
             variable v;
             if (flvd.first==glvd.first)
@@ -1042,6 +1043,11 @@ namespace clpoly{
                         
                         
                     }
+                    else if (++num_bad>(f_d+g_d)*std::max(flvd.second,glvd.second))
+                    {
+                        // 结式关于 v 的次数不超过该界：坏点更多说明素数本身不可用（deg 已小于模 prime 的 GCD 次数）。
+                        return -1;
+                    }
                     
 
                 }
-- 
2.43.0


From f398d7e6b534ac095fa6476d51c964b7500ffba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:22 +0000
Subject: [PATCH 18/19] fix: __upoly_primitive returned a primitive part with
 negative leading coefficient for a single negative term

---
 clpoly/polynomial_factorize_univar.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/clpoly/polynomial_factorize_univar.hh b/clpoly/polynomial_factorize_univar.hh
index 0d4e095..6c54f8b 100644
--- a/clpoly/polynomial_factorize_univar.hh
+++ b/clpoly/polynomial_factorize_univar.hh
@@ -715,6 +715,7 @@ namespace clpoly{
     {
         if (f.empty()) return {ZZ(1), std::move(f)};
         ZZ c = cont(f);
+        if (c < ZZ(0)) c = -c;                 // 单项式时 cont 带首项符号
         if (f.front().second < ZZ(0)) c = -c;  // 确保 lc > 0
         for (auto& term : f)
             term.second /= c;
-- 
2.43.0


From 68b9def2ea2c16f9f6fe288d0e6d5dd977eab577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:08 +0000
Subject: [PATCH 19/19] fix: squarefreebasis kept a constant when an input
 repeats a basis element with the opposite sign

---
 clpoly/polynomial_gcd.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/clpoly/polynomial_gcd.hh b/clpoly/polynomial_gcd.hh
index 3826683..ddb3cb6 100644
--- a/clpoly/polynomial_gcd.hh
+++ b/clpoly/polynomial_gcd.hh
@@ -179,9 +179,10 @@ namespace clpoly{
                     if (!is_number(F1))
                     {
                         tmp=tmp/F1;
-                        if (F1!=lst[j])
+                        auto F2=lst[j]/F1;
+                        if (!is_number(F2))
                         {
-                            lst[j]=lst[j]/F1;
+                            lst[j]=std::move(F2);
                             lst_.push_back(std::move(F1));
                             I_.push_back(I[j]);
                             I_.back().push_back({i,l_ptr->second});
-- 
2.43.0

