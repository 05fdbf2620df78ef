From 36a0a6cf7fd9a4ade5e368f14d588115ce2f40ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:38 +0000
Subject: [PATCH 01/45] fix: PolyInt::pow(0) gives the constant 1, not 0

---
 ginv/poly_int.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ginv/poly_int.cpp b/ginv/poly_int.cpp
index 6d0a199..8559630 100644
--- a/ginv/poly_int.cpp
+++ b/ginv/poly_int.cpp
@@ -358,8 +358,10 @@ void PolyInt::pow(int deg) {
   assert(deg >= 0);
   if (deg == 1)
     ;
-  else if (deg == 0)
+  else if (deg == 0) {
     clear();
+    mHead.push(new(mAllocator) Term(mAllocator, mSize));
+  }
   else {
     assert(deg > 1);
     PolyInt tmp(mAllocator, *this);
-- 
2.43.0


From 5e66f6ee4aae88769b447af714db3d6b4c65a997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:38 +0000
Subject: [PATCH 02/45] fix: PolyInt::mult by a single term destroys all old
 terms

---
 ginv/poly_int.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ginv/poly_int.cpp b/ginv/poly_int.cpp
index 8559630..526e172 100644
--- a/ginv/poly_int.cpp
+++ b/ginv/poly_int.cpp
@@ -295,7 +295,11 @@ void PolyInt::mult(const PolyInt &a) {
       }
     }
     mHead.swap(tmp);
-    mAllocator->destroy(tmp.head());
+    j = tmp.begin();
+    while(j) {
+      mAllocator->destroy(j.data());
+      j.del();
+    }
   }
   else {
     List<Term*> sum(mAllocator);
-- 
2.43.0


From ec98836118e6d494b31fc8a58a4697509718b782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:38 +0000
Subject: [PATCH 03/45] fix: constants are placed by the term order and a zero
 constant adds no term

---
 ginv/poly_int.cpp | 46 ++++------------------------------------------
 ginv/poly_int.h   |  2 ++
 2 files changed, 6 insertions(+), 42 deletions(-)

diff --git a/ginv/poly_int.cpp b/ginv/poly_int.cpp
index 526e172..d00b55a 100644
--- a/ginv/poly_int.cpp
+++ b/ginv/poly_int.cpp
@@ -127,26 +127,8 @@ void PolyInt::minus() {
 }
 
 void PolyInt::add(const char* hex) {
-  assert(mHead);
-  List<Term*>::Iterator i(mHead.begin());
-  assert(i);
-  int size=i.data()->mMonom.size();
-  while(i && (i.data()->mMonom.degree() > 0 ||
-              i.data()->mMonom.pos() >= 0))
-    ++i;
-  if (!i)
-    i.insert(new(mAllocator) Term(mAllocator, size, hex));
-  else {
-    assert(i.data()->mMonom.degree() == 0 &&
-           i.data()->mMonom.pos() == -1);
-    Integer a(mAllocator, hex);
-    i.data()->mCoeff.add(a);
-    if (i.data()->mCoeff.isZero()) {
-      mAllocator->destroy(i.data());
-      i.del();
-    }
-  }
-  assert(assertValid());
+  PolyInt a(mAllocator, mOrder, mSize, hex);
+  add(a);
 }
 
 void PolyInt::add(const PolyInt &a) {
@@ -183,28 +165,8 @@ void PolyInt::add(const PolyInt &a) {
 }
 
 void PolyInt::sub(const char* hex) {
-  assert(mHead);
-  List<Term*>::Iterator i(mHead.begin());
-  assert(i);
-  int size=i.data()->mMonom.size();
-  while(i && (i.data()->mMonom.degree() > 0 ||
-              i.data()->mMonom.pos() >= 0))
-    ++i;
-  if (!i) {
-    i.insert(new(mAllocator) Term(mAllocator, size, hex));
-    i.data()->mCoeff.set_neg();
-  }
-  else {
-    assert(i.data()->mMonom.degree() == 0 &&
-           i.data()->mMonom.pos() == -1);
-    Integer a(mAllocator, hex);
-    i.data()->mCoeff.sub(a);
-    if (i.data()->mCoeff.isZero()) {
-      mAllocator->destroy(i.data());
-      i.del();
-    }
-  }
-  assert(assertValid());
+  PolyInt a(mAllocator, mOrder, mSize, hex);
+  sub(a);
 }
 
 void PolyInt::sub(const PolyInt &a) {
diff --git a/ginv/poly_int.h b/ginv/poly_int.h
index f6f95fa..6d90a1b 100644
--- a/ginv/poly_int.h
+++ b/ginv/poly_int.h
@@ -134,6 +134,8 @@ public:
       mAllocator(allocator),
       mHead(allocator) {
     mHead.push(new(allocator) Term(allocator, size, integer));
+    if (mHead.head()->mCoeff.isZero())
+      clear();
     assert(assertValid());
   }
   PolyInt(Allocator* allocator, int order, const Monom& a):
-- 
2.43.0


From 0239f0ab59b61ab75f447617b48e113e08a41871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:38 +0000
Subject: [PATCH 04/45] fix: the quotient of two monomials of one component has
 no component

---
 ginv/monom.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ginv/monom.cpp b/ginv/monom.cpp
index 13392fd..33a8df4 100644
--- a/ginv/monom.cpp
+++ b/ginv/monom.cpp
@@ -275,6 +275,8 @@ void Monom::mult(Monom::Variable v, const Monom& a) {
   
 void Monom::div(const Monom& a) {
   assert(divisiable(a));
+  if (a.mPos >= 0)
+    mPos = -1;
   mDegree -=a.mDegree;
   Variable *i=mVariables;
   const Variable* const iend=mVariables+mSize;
-- 
2.43.0


From c52b4894776af120b62c9987d4c4cb26f3ada189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:38 +0000
Subject: [PATCH 05/45] fix: monomials of different components are not equal

---
 ginv/monom.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ginv/monom.cpp b/ginv/monom.cpp
index 33a8df4..a5205e7 100644
--- a/ginv/monom.cpp
+++ b/ginv/monom.cpp
@@ -217,7 +217,7 @@ void Monom::permutation(const Monom &a, RandPermutation &p) {
 
 bool operator==(const Monom& a, const Monom& b) {
   assert(a.mSize == b.mSize);
-  bool r=a.mDegree == b.mDegree;
+  bool r=a.mPos == b.mPos && a.mDegree == b.mDegree;
   if (r) {
     const Monom::Variable *ia=a.mVariables,
                           *ib=b.mVariables;
-- 
2.43.0


From 22060edc5f980b537844242dd611ce164809046f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:38 +0000
Subject: [PATCH 06/45] fix: Wrap::update notices a change of the component

---
 ginv/wrap.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ginv/wrap.cpp b/ginv/wrap.cpp
index 532d960..82d9d33 100644
--- a/ginv/wrap.cpp
+++ b/ginv/wrap.cpp
@@ -23,7 +23,7 @@
 namespace GInv {
 
 void Wrap::update(const Monom& m) {
-  if (mLm.lex(m) != 0) {
+  if (mLm != m) {
     mLm = m;
     mAnsector = m;
     for(int i=0; i < mLm.size(); i++) {
-- 
2.43.0


From 6a8d4c4208c9a0673e49ad526f9c8559a1d017df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:14 +0000
Subject: [PATCH 07/45] fix: only the constant 1 makes the ideal the whole
 ring, also when a block yields it

---
 ginv/poly_int.cpp | 18 ++++++++++++++----
 ginv/poly_int.h   |  2 ++
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/ginv/poly_int.cpp b/ginv/poly_int.cpp
index d00b55a..a944e78 100644
--- a/ginv/poly_int.cpp
+++ b/ginv/poly_int.cpp
@@ -688,7 +688,7 @@ void JanetPolyInt::algorithmBlockTQ() {
         delete j.data();
       }
       else {
-        if (j.data()->poly().degree() == 0) {
+        if (isOne(j.data()->poly())) {
           for(GCListWrapPolyInt::Iterator j(tmp.begin()); j; j.del())
             delete j.data();
 
@@ -807,6 +807,16 @@ std::cerr << "A" << std::endl;
     } while(k1);
 
     GCListWrapPolyInt::Iterator k(tmp.begin());
+    while(k && !isOne(k.data()->poly()))
+      ++k;
+    if (k) {
+      for(k = tmp.begin(); k; k.del())
+        delete k.data();
+      setOne(order, size);
+      break;
+    }
+
+    k = tmp.begin();
     while(k) {
       k.data()->update(k.data()->poly().lm());
       k.data()->poly().pp();
@@ -907,7 +917,7 @@ void JanetPolyInt::algorithmTQ1() {
         delete j.data();
       }
       else {
-        if (j.data()->poly().degree() == 0) {
+        if (isOne(j.data()->poly())) {
           for(GCListWrapPolyInt::Iterator j(tmp.begin()); j; j.del())
             delete j.data();
 
@@ -1091,7 +1101,7 @@ void JanetPolyInt::algorithmTQ2() {
         delete j.data();
       }
       else {
-        if (j.data()->poly().degree() == 0) {
+        if (isOne(j.data()->poly())) {
           for(GCListWrapPolyInt::Iterator j(tmp.begin()); j; j.del())
             delete j.data();
 
@@ -1286,7 +1296,7 @@ void JanetPolyInt::algorithmTQ() {
         delete j.data();
       }
       else {
-        if (j.data()->poly().degree() == 0) {
+        if (isOne(j.data()->poly())) {
           for(GCListWrapPolyInt::Iterator j(tmp.begin()); j; j.del())
             delete j.data();
 
diff --git a/ginv/poly_int.h b/ginv/poly_int.h
index 6d90a1b..2f7a7e8 100644
--- a/ginv/poly_int.h
+++ b/ginv/poly_int.h
@@ -371,6 +371,8 @@ class JanetPolyInt {
   void prolong(WrapPolyInt *w);
   bool assertT() const;
 
+  static bool isOne(const PolyInt &a) { return a.degree() == 0 && a.lm().pos() == -1; }
+
   static void insert(GCListWrapPolyInt &lst, WrapPolyInt *w);
   static void merge(GCListWrapPolyInt &lst, GCListWrapPolyInt &add);
   static bool assertSort(GCListWrapPolyInt &lst);
-- 
2.43.0


From d9cb2ae12b087e16ccc929af79e78fe99aff93ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:14 +0000
Subject: [PATCH 08/45] fix: the completion ends only when every prolongation
 was considered

---
 ginv/poly_int.cpp | 15 +++++++++++----
 ginv/poly_int.h   |  1 +
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/ginv/poly_int.cpp b/ginv/poly_int.cpp
index a944e78..ac0754d 100644
--- a/ginv/poly_int.cpp
+++ b/ginv/poly_int.cpp
@@ -600,6 +600,13 @@ void JanetPolyInt::prolong(WrapPolyInt *w) {
     }
 }
 
+bool JanetPolyInt::nextQ() {
+  if (!mQ)
+    for(GCListWrapPolyInt::ConstIterator j(mT.begin()); j; ++j)
+      prolong(j.data());
+  return mQ;
+}
+
 bool JanetPolyInt::assertT() const {
   if (mT) {
     GCListWrapPolyInt::ConstIterator i(mT.begin());
@@ -672,7 +679,7 @@ void JanetPolyInt::algorithmBlockTQ() {
   int degPref=0;
   int critI=0;
   mTimer.start();
-  while(mQ) {
+  while(nextQ()) {
     int size=mQ.head()->poly().size();
     int order=mQ.head()->poly().order();
 
@@ -899,7 +906,7 @@ void JanetPolyInt::algorithmTQ1() {
   int degPref=0;
   int critI=0;
   mTimer.start();
-  while(mQ) {
+  while(nextQ()) {
     int size=mQ.head()->poly().size();
     int order=mQ.head()->poly().order();
 
@@ -1083,7 +1090,7 @@ void JanetPolyInt::algorithmTQ2() {
   int degPref=0;
   int critI=0;
   mTimer.start();
-  while(mQ) {
+  while(nextQ()) {
     int size=mQ.head()->poly().size();
     int order=mQ.head()->poly().order();
 
@@ -1280,7 +1287,7 @@ void JanetPolyInt::algorithmTQ() {
   int degPref=0;
   int critI=0;
   mTimer.start();
-  while(mQ) {
+  while(nextQ()) {
     int size=mQ.head()->poly().size();
     int order=mQ.head()->poly().order();
 
diff --git a/ginv/poly_int.h b/ginv/poly_int.h
index 2f7a7e8..9dad49b 100644
--- a/ginv/poly_int.h
+++ b/ginv/poly_int.h
@@ -369,6 +369,7 @@ class JanetPolyInt {
   void setPos();
   void setOne(int order, int size);
   void prolong(WrapPolyInt *w);
+  bool nextQ();
   bool assertT() const;
 
   static bool isOne(const PolyInt &a) { return a.degree() == 0 && a.lm().pos() == -1; }
-- 
2.43.0


From a35b69466f9e60acfc9e111de48bd14619a23354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:15 +0000
Subject: [PATCH 09/45] fix: algorithmBlockTQ reduces the tails of the elements
 it adds

---
 ginv/poly_int.cpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/ginv/poly_int.cpp b/ginv/poly_int.cpp
index ac0754d..1e0d32b 100644
--- a/ginv/poly_int.cpp
+++ b/ginv/poly_int.cpp
@@ -848,26 +848,28 @@ std::cerr << "A" << std::endl;
     k = mT.begin();
     while(k && j) {
       if (j.data()->poly().cmp(k.data()->poly()) < 0) {
-        assert(j.data()->poly().isNf(*this));
         k.insert(j.data());
         ++j;
       }
-      else {
-        int r=k.data()->poly().nfTail(*this);
-        if (r) {
-          mReduction += r;
-          k.data()->poly().pp();
-          k.data()->reallocate();
-        }
+      int r=k.data()->poly().nfTail(*this);
+      if (r) {
+        mReduction += r;
+        k.data()->poly().pp();
+        k.data()->reallocate();
       }
       if (k.data()->lm().degree() <= deg)
         prolong(k.data());
       ++k;
     }
     while(j) {
-      assert(j.data()->poly().isNf(*this));
       k.insert(j.data());
       ++j;
+      int r=k.data()->poly().nfTail(*this);
+      if (r) {
+        mReduction += r;
+        k.data()->poly().pp();
+        k.data()->reallocate();
+      }
       if (k.data()->lm().degree() <= deg)
         prolong(k.data());
       ++k;
-- 
2.43.0


From bb8cdb9f7ac211b329d37aaf7f8964ab26b7fd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:47 +0000
Subject: [PATCH 10/45] fix: algorithmTQ2 no longer throws the basis away when
 the degree drops

The restart left the new element outside the rebuilt tree, put elements into
the queue unsorted with their prolongations marked as done, and could repeat
forever with an elimination order.
---
 ginv/poly_int.cpp | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/ginv/poly_int.cpp b/ginv/poly_int.cpp
index 1e0d32b..d13854e 100644
--- a/ginv/poly_int.cpp
+++ b/ginv/poly_int.cpp
@@ -1219,14 +1219,6 @@ void JanetPolyInt::algorithmTQ2() {
     w->update(w->poly().lm());
     mJanet[w->lm().pos()+1].insert(w);
 
-    if (degPref > deg) {
-      delete[] mJanet;
-      mJanet = new GCJanet[mPos+2];
-      for(GCListWrapPolyInt::Iterator j(mT.begin()); j; j.del()) {
-        j.data()->clearNM();
-        mQ.push(j.data());
-      }
-    }
     degPref = deg;
 
 
-- 
2.43.0


From 56625b8ca2810876c4727a34a4bcd2a17f9d815a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:57 +0000
Subject: [PATCH 11/45] fix: Buchberger's product criterion is not applied to
 modules

---
 ginv/poly_int.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ginv/poly_int.cpp b/ginv/poly_int.cpp
index d13854e..40608cc 100644
--- a/ginv/poly_int.cpp
+++ b/ginv/poly_int.cpp
@@ -586,7 +586,8 @@ void JanetPolyInt::prolong(WrapPolyInt *w) {
     if (w->NM(i) && !w->build(i)) {
       Monom m(allocator, i, w->lm());
       const WrapPolyInt *d=find(m);
-      if (d && m.degree() >=
+      // the product criterion holds in a ring only, not in a module
+      if (d && m.pos() < 0 && m.degree() >=
         (w->ansector().degree() + d->ansector().degree())) {
         ++mCritI;
         w->setBuild(i);
-- 
2.43.0


From 525ef7502c9070a39c0ce5e1f055af11fdce0859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:57 +0000
Subject: [PATCH 12/45] fix: algorithmTQ, TQ1 and TQ2 keep the elements of the
 basis primitive

---
 ginv/poly_int.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ginv/poly_int.cpp b/ginv/poly_int.cpp
index 40608cc..9f3723d 100644
--- a/ginv/poly_int.cpp
+++ b/ginv/poly_int.cpp
@@ -1026,6 +1026,7 @@ void JanetPolyInt::algorithmTQ1() {
     }
     assert(assertSort(mQ));
 
+    w->poly().pp();
     w->update(w->poly().lm());
     mJanet[w->lm().pos()+1].insert(w);
 
@@ -1217,6 +1218,7 @@ void JanetPolyInt::algorithmTQ2() {
       w->poly().pp();
       w->reallocate();
     }
+    w->poly().pp();
     w->update(w->poly().lm());
     mJanet[w->lm().pos()+1].insert(w);
 
@@ -1367,6 +1369,7 @@ void JanetPolyInt::algorithmTQ() {
     }
      assert(assertSort(mQ));
 
+    w->poly().pp();
     w->update(w->poly().lm());
     mJanet[w->lm().pos()+1].insert(w);
 
-- 
2.43.0


From c20b714c57ba4402d3ac4f264fb1e8670b6c9ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:57 +0000
Subject: [PATCH 13/45] fix: algorithmTQ2 without generators does not build the
 Hilbert polynomial of nothing

---
 ginv/poly_int.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ginv/poly_int.cpp b/ginv/poly_int.cpp
index 9f3723d..e5e878f 100644
--- a/ginv/poly_int.cpp
+++ b/ginv/poly_int.cpp
@@ -1268,7 +1268,7 @@ void JanetPolyInt::algorithmTQ2() {
 
   std::cerr << "isZeroNf() - " << isZeroNf() << std::endl;
 
-  if (mOneWrap == nullptr) {
+  if (mOneWrap == nullptr && mT) {
     HilbertPoly hp;
     buildHP(hp);
     std::cerr << "HilbertPoly - " << hp << std::endl;
-- 
2.43.0


From 13913f6b24b9efd4bac8ea4371550f92c14e5ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:57 +0000
Subject: [PATCH 14/45] fix: the Hilbert polynomial of a module does not count
 the component of the ring

---
 ginv/poly_int.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ginv/poly_int.cpp b/ginv/poly_int.cpp
index e5e878f..8af4936 100644
--- a/ginv/poly_int.cpp
+++ b/ginv/poly_int.cpp
@@ -662,7 +662,7 @@ void JanetPolyInt::buildHP(HilbertPoly& hp) const {
   int d=mT.head()->lm().size();
   hp.setDim(d);
   hp.binomial(d, d);
-  hp.mult(mPos+2);
+  hp.mult((mPos < 0)? 1: mPos+1);
   HilbertPoly tmp(d);
   for(GCListWrapPolyInt::ConstIterator j(mT.begin()); j; ++j) {
     int m=j.data()->multi();
-- 
2.43.0


From 1b96f1c19fa22ce822c115d0d1495bb82b7d7134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:40 +0000
Subject: [PATCH 15/45] fix: a copy of a Janet tree keeps the subtree of the
 last degree

---
 ginv/janet.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ginv/janet.cpp b/ginv/janet.cpp
index 73b1e62..ee660c2 100644
--- a/ginv/janet.cpp
+++ b/ginv/janet.cpp
@@ -97,6 +97,8 @@ Janet::Link Janet::build(Link j, Allocator* allocator) {
     i->mNextDeg = new(allocator) Node(j->mDeg, j->mWrap);
     i = i->mNextDeg;
   }
+  if (j->mNextVar)
+    i->mNextVar = build(j->mNextVar, allocator);
   return r;
 }
 
-- 
2.43.0


From 77a18d49c9f84cf42bd64b479df467ae30aa7658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:40 +0000
Subject: [PATCH 16/45] fix: MCompletion::insert does not use a duplicate after
 destroying it

---
 ginv/mcompletion.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ginv/mcompletion.cpp b/ginv/mcompletion.cpp
index 337881f..4868d19 100644
--- a/ginv/mcompletion.cpp
+++ b/ginv/mcompletion.cpp
@@ -35,8 +35,10 @@ void MCompletion::insert(Wrap *w) {
   }
   if (!j || mCmp(*j.data(), *w) > 0)
     j.insert(w);
-  else
+  else {
     mAllocator->destroy(w);
+    return;
+  }
   ++j;
   while(j) {
     for(int v=0; v < w->lm().size(); v++) {
-- 
2.43.0


From e75485c70d1031415ee6b866c4c2fd06a58c1d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:40 +0000
Subject: [PATCH 17/45] fix: comparing with a product uses the component of the
 product

---
 ginv/poly.cpp | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/ginv/poly.cpp b/ginv/poly.cpp
index a6b8dcd..dfd6b04 100644
--- a/ginv/poly.cpp
+++ b/ginv/poly.cpp
@@ -22,6 +22,11 @@
 
 namespace GInv {
 
+// the component of the product b*c, at most one of the factors has one
+static int productPos(const Monom& b, const Monom& c) {
+  return (b.pos() == -1) ? c.pos() : b.pos();
+}
+
 int Poly::TOPlex(const Monom& a, const Monom& b) {
   int r=a.lex(b);
   if (r == 0 && a.pos() != b.pos())
@@ -44,23 +49,26 @@ int Poly::TOPalex(const Monom& a, const Monom& b) {
 }
 
 int Poly::TOPlex2(const Monom& a, const Monom& b, const Monom& c) {
+  const int pos=productPos(b, c);
   int r=a.lex(b, c);
-  if (r == 0 && a.pos() != b.pos())
-    r = (a.pos() > b.pos()) ? 1: -1;
+  if (r == 0 && a.pos() != pos)
+    r = (a.pos() > pos) ? 1: -1;
   return r;
 }
 
 int Poly::TOPdeglex2(const Monom& a, const Monom& b, const Monom& c) {
+  const int pos=productPos(b, c);
   int r=a.deglex(b, c);
-  if (r == 0 && a.pos() != b.pos())
-    r = (a.pos() > b.pos()) ? 1: -1;
+  if (r == 0 && a.pos() != pos)
+    r = (a.pos() > pos) ? 1: -1;
   return r;
 }
 
 int Poly::TOPalex2(const Monom& a, const Monom& b, const Monom& c) {
+  const int pos=productPos(b, c);
   int r=a.alex(b, c);
-  if (r == 0 && a.pos() != b.pos())
-    r = (a.pos() > b.pos()) ? 1: -1;
+  if (r == 0 && a.pos() != pos)
+    r = (a.pos() > pos) ? 1: -1;
   return r;
 }
 
@@ -92,27 +100,30 @@ int Poly::POTalex(const Monom& a, const Monom& b) {
 }
 
 int Poly::POTlex2(const Monom& a, const Monom& b, const Monom& c) {
+  const int pos=productPos(b, c);
   int r;
-  if (a.pos() != b.pos())
-    r = (a.pos() > b.pos()) ? 1: -1;
+  if (a.pos() != pos)
+    r = (a.pos() > pos) ? 1: -1;
   else
     r = a.lex(b, c);
   return r;
 }
 
 int Poly::POTdeglex2(const Monom& a, const Monom& b, const Monom& c) {
+  const int pos=productPos(b, c);
   int r;
-  if (a.pos() != b.pos())
-    r = (a.pos() > b.pos()) ? 1: -1;
+  if (a.pos() != pos)
+    r = (a.pos() > pos) ? 1: -1;
   else
     r = a.deglex(b, c);
   return r;
 }
 
 int Poly::POTalex2(const Monom& a, const Monom& b, const Monom& c) {
+  const int pos=productPos(b, c);
   int r;
-  if (a.pos() != b.pos())
-    r = (a.pos() > b.pos()) ? 1: -1;
+  if (a.pos() != pos)
+    r = (a.pos() > pos) ? 1: -1;
   else
     r = a.alex(b, c);
   return r;
-- 
2.43.0


From 3a017dd165cac4b6c0c8540fd5a181486bb33b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:50 +0000
Subject: [PATCH 18/45] fix: assigning a GCPolyInt copies the polynomial, not
 the pointer to its allocator

---
 ginv/poly_int.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ginv/poly_int.h b/ginv/poly_int.h
index 9dad49b..1bae8c9 100644
--- a/ginv/poly_int.h
+++ b/ginv/poly_int.h
@@ -245,6 +245,11 @@ public:
   }
   ~GCPolyInt() {}
 
+  void operator=(const GCPolyInt &a) { // the allocators stay where they are
+    assert(this != &a);
+    PolyInt::operator=(a);
+  }
+
   void swap(GCPolyInt &a) {
     AllocatorPtr::swap(a);
     PolyInt::swap(a);
-- 
2.43.0


From 9acaf8aba063068cdf1885880f1ac38ab9b607cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:55 +0000
Subject: [PATCH 19/45] fix: RBTree can be moved, and an empty one can be
 assigned

---
 util/rbtree.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/rbtree.h b/util/rbtree.h
index cdf17d4..01cfa82 100644
--- a/util/rbtree.h
+++ b/util/rbtree.h
@@ -475,7 +475,7 @@ public:
   };
 
   inline RBTree(RBTree&& a):
-      mAllocator(a.allocator),
+      mAllocator(a.mAllocator),
       mRoot(a.mRoot),
       mCount(a.mCount) {
     a.mRoot = nullptr;
@@ -522,7 +522,7 @@ public:
     assert(this != &a);
     if (mRoot)
       clear(mRoot, mAllocator);
-    mRoot = copy(a.mRoot, mAllocator, nullptr);
+    mRoot = (a.mRoot) ? copy(a.mRoot, mAllocator, nullptr): nullptr;
     mCount = a.mCount;
     assert(assertValid());
   }
-- 
2.43.0


From 789693f440299538ed8f4f8ab3100f4746b9a1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:55 +0000
Subject: [PATCH 20/45] fix: List can be assigned from an expiring list

---
 util/list.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/list.h b/util/list.h
index 60d015f..76ce2b4 100644
--- a/util/list.h
+++ b/util/list.h
@@ -211,7 +211,7 @@ public:
       ++i;
     }
   }
-  inline void operator=(const List&& a) {
+  inline void operator=(List&& a) {
     assert(this != &a);
 
     Iterator(this).clear();
-- 
2.43.0


From 56ad207eaf158cdfd05e8b7f84f1737e9a7a9ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:35 +0000
Subject: [PATCH 21/45] fix: HilbertPoly::binomial frees the factor it computes
 with

---
 util/hilbertpoly.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/util/hilbertpoly.cpp b/util/hilbertpoly.cpp
index f101d89..892dff6 100644
--- a/util/hilbertpoly.cpp
+++ b/util/hilbertpoly.cpp
@@ -108,6 +108,7 @@ void HilbertPoly::binomial(long int a, unsigned long b) {
 
     for(k = 0; k < b; k++)
       mpq_clear(tmp + k);
+    mpq_clear(&q);
 
     delete[] tmp;
   }
-- 
2.43.0


From c55c6a49a18d3f0ec914ec195e0bbd1247e4248a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:50 +0000
Subject: [PATCH 22/45] fix: moving an Integer without its allocator frees what
 it held

---
 util/integer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/integer.h b/util/integer.h
index 37aac0f..a09295c 100644
--- a/util/integer.h
+++ b/util/integer.h
@@ -162,7 +162,7 @@ public:
     mpz_swap(&mMpz, &a.mMpz);
   }
   void operator=(Integer&& a) {
-    mpz_set(&mMpz, &a.mMpz);
+    mpz_clear(&mMpz);
     mMpz._mp_alloc = a.mMpz._mp_alloc;
     mMpz._mp_size = a.mMpz._mp_size;
     mMpz._mp_d = a.mMpz._mp_d;
-- 
2.43.0


From e52e84d592ee51b165e00ab16bf41a4a1bff933f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:19 +0000
Subject: [PATCH 23/45] fix: bindings: polynomial minus integer added the
 integer

---
 cython/ginv.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cython/ginv.pyx b/cython/ginv.pyx
index 73ed869..8fe8606 100644
--- a/cython/ginv.pyx
+++ b/cython/ginv.pyx
@@ -517,7 +517,7 @@ cdef class const_poly_int:
     if isinstance(other, const_poly_int):
       return -other.sub(self)
     else:
-      return self.add(other)
+      return self.sub(other)
 
   def mul(const_poly_int self, other): #TODO
     assert self.ptr
-- 
2.43.0


From 7402847892be74cad9117db2471b8ce14455f2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:19 +0000
Subject: [PATCH 24/45] fix: bindings: an integer on the left of +, -, * of a
 polynomial was refused by Cython 3

---
 cython/ginv.pyx | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/cython/ginv.pyx b/cython/ginv.pyx
index 8fe8606..bc60a8d 100644
--- a/cython/ginv.pyx
+++ b/cython/ginv.pyx
@@ -494,10 +494,9 @@ cdef class const_poly_int:
     return r
 
   def __add__(self, other):
-    if isinstance(other, const_poly_int):
-      return other.add(self)
-    else:
-      return self.add(other)
+    return self.add(other)
+  def __radd__(self, other):
+    return self.add(other)
 
   def sub(const_poly_int self, other):
     assert self.ptr
@@ -514,10 +513,9 @@ cdef class const_poly_int:
     return r
 
   def __sub__(self, other):
-    if isinstance(other, const_poly_int):
-      return -other.sub(self)
-    else:
-      return self.sub(other)
+    return self.sub(other)
+  def __rsub__(self, other):
+    return (-self).add(other)
 
   def mul(const_poly_int self, other): #TODO
     assert self.ptr
@@ -534,10 +532,9 @@ cdef class const_poly_int:
     return r
 
   def __mul__(self, other):
-    if isinstance(other, const_poly_int):
-      return other.mul(self)
-    else:
-      return self.mul(other)
+    return self.mul(other)
+  def __rmul__(self, other):
+    return self.mul(other)
 
   def __pow__(const_poly_int self, int other, modulo):
     assert other >= 0
-- 
2.43.0


From 0a9d3b7a0100dfed0f4d0fcfd67b7e43427425f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:19 +0000
Subject: [PATCH 25/45] fix: bindings: the timer of a basis returned the times
 of the allocator's timer

---
 cython/ginv.pyx | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cython/ginv.pyx b/cython/ginv.pyx
index bc60a8d..1f90620 100644
--- a/cython/ginv.pyx
+++ b/cython/ginv.pyx
@@ -74,11 +74,14 @@ cdef class const_timer:
     self.ptr = NULL
 
   def userTime(self):
-    return allocator_timer().userTime()
+    assert self.ptr
+    return self.ptr.userTime()
   def sysTime(self):
-    return allocator_timer().sysTime()
+    assert self.ptr
+    return self.ptr.sysTime()
   def realTime(self):
-    return allocator_timer().realTime()
+    assert self.ptr
+    return self.ptr.realTime()
 
   def __str__(self):
     return "userTime: %.2f, sysTime: %.2f, realTime: %.2f" % (\
-- 
2.43.0


From ffcc7dde7ad06e2beb647cf0a8ecc1be2adee72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:19 +0000
Subject: [PATCH 26/45] fix: bindings: computing a normal form overwrote the
 polynomial passed in

---
 cython/ginv.pyx | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cython/ginv.pyx b/cython/ginv.pyx
index 1f90620..19a5230 100644
--- a/cython/ginv.pyx
+++ b/cython/ginv.pyx
@@ -740,9 +740,11 @@ cdef class janet_poly_int:
       return r
 
   def nf(self, const_poly_int p):
-    self.ptr.comparable(p.ptr[0])
-    self.ptr.nf((<PolyInt *>p.ptr)[0])
-    return p
+    assert p.ptr and self.ptr.comparable(p.ptr[0])
+    r = poly_int()
+    r.ptr = new PolyInt(r.allocator, p.ptr[0])
+    self.ptr.nf((<PolyInt *>r.ptr)[0])
+    return r
 
   def maxPos(self):
     return self.ptr.maxPos()
-- 
2.43.0


From 4e7fcb10ed014b02f1a17af89c9617170831a5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:19 +0000
Subject: [PATCH 27/45] fix: bindings: a monomial could not be divided by the
 leading monomial of a polynomial

---
 cython/ginv.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cython/ginv.pyx b/cython/ginv.pyx
index 19a5230..2de9bce 100644
--- a/cython/ginv.pyx
+++ b/cython/ginv.pyx
@@ -308,7 +308,7 @@ cdef class const_monom:
     r = monom()
     r.ptr = new Monom(r.allocator, self.ptr[0], other)
     return r
-  def __truediv__(const_monom self, monom other):
+  def __truediv__(const_monom self, const_monom other):
     assert self.divisiable(other)
     r = monom()
     r.ptr = new Monom(r.allocator, self.ptr[0])
-- 
2.43.0


From 4189e9fd06fe42d872aa13f5f98d92b5090837d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:45 +0000
Subject: [PATCH 28/45] fix: bindings: objects taken from a polynomial or a
 basis were left dangling when it was released

---
 cython/ginv.pyx | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/cython/ginv.pyx b/cython/ginv.pyx
index 2de9bce..d74c4ae 100644
--- a/cython/ginv.pyx
+++ b/cython/ginv.pyx
@@ -70,6 +70,7 @@ cdef class const_timer_GC:
 
 cdef class const_timer:
   cdef const Timer* ptr
+  cdef object owner # keeps the object alive which ptr points into
   def __cinit__(self):
     self.ptr = NULL
 
@@ -175,6 +176,7 @@ cdef extern from "integer.h" namespace "GInv":
 
 cdef class const_integer:
   cdef const Integer *ptr
+  cdef object owner # keeps the object alive which ptr points into
   def __cinit__(self, ):
     self.ptr = NULL
 
@@ -250,6 +252,7 @@ cdef extern from "monom.h" namespace "GInv":
 
 cdef class const_monom:
   cdef const Monom *ptr
+  cdef object owner # keeps the object alive which ptr points into
   def __cinit__(self):
     self.ptr = NULL
 
@@ -402,6 +405,7 @@ cdef extern from "poly_int.h" namespace "GInv":
 
 cdef class const_poly_int:
   cdef const PolyInt *ptr
+  cdef object owner # keeps the object alive which ptr points into
   def __cinit__(self, ):
     self.ptr = NULL
 
@@ -418,6 +422,7 @@ cdef class const_poly_int:
     while i.isNext():
       m, c = const_monom(), const_integer()
       m.ptr, c.ptr = &i.monom(), &i.coeff()
+      m.owner, c.owner = self, self
       i.next()
       yield (m, c)
   def __str__(self):
@@ -448,12 +453,14 @@ cdef class const_poly_int:
     assert self
     r = const_monom()
     r.ptr = &self.ptr.lm()
+    r.owner = self
     return r
   def lc(self):
     assert self.ptr
     assert self
     r = const_integer()
     r.ptr = &self.ptr.lc()
+    r.owner = self
     return r
   def comparable(self, const_poly_int other):
     return self.ptr.comparable(other.ptr[0])
@@ -601,16 +608,19 @@ cdef extern from "poly_int.h" namespace "GInv":
 
 cdef class wrap_poly_int:
   cdef const WrapPolyInt *ptr
+  cdef object owner # keeps the object alive which ptr points into
   def __cinit__(self, ):
     self.ptr = NULL
 
   def lm(self):
     r = const_monom()
     r.ptr = &self.ptr.lm()
+    r.owner = self
     return r
   def ansector(self):
     r = const_monom()
     r.ptr = &self.ptr.ansector()
+    r.owner = self
     return r
   def isGB(self):
     return self.ptr.isGB()
@@ -622,6 +632,7 @@ cdef class wrap_poly_int:
   def poly(self):
     r = const_poly_int()
     r.ptr = &self.ptr.poly()
+    r.owner = self
     return r
 
   def __str__(self):
@@ -643,6 +654,7 @@ cdef extern from "janet.h" namespace "GInv":
 
 cdef class const_janet:
   cdef const Janet *ptr
+  cdef object owner # keeps the object alive which ptr points into
   def __cinit__(self, ):
     self.ptr = NULL
 
@@ -712,6 +724,7 @@ cdef class janet_poly_int:
     while i.isNext():
       r = wrap_poly_int()
       r.ptr = i.data()
+      r.owner = self
       i.next()
       yield r
 
@@ -737,6 +750,7 @@ cdef class janet_poly_int:
     else:
       r = wrap_poly_int()
       r.ptr = w
+      r.owner = self
       return r
 
   def nf(self, const_poly_int p):
@@ -752,6 +766,7 @@ cdef class janet_poly_int:
     assert -1 <= pos <= self.ptr.maxPos()
     r = const_janet()
     r.ptr = &self.ptr.janet(pos)
+    r.owner = self
     return r
 
   def HilbertPoly(self):
@@ -769,6 +784,7 @@ cdef class janet_poly_int:
   def timer(self):
     r = const_timer()
     r.ptr = &self.ptr.timer()
+    r.owner = self
     return r
   def reduction(self):
     return self.ptr.reduction()
-- 
2.43.0


From 3ba0b72b5a61b74af98c5de4062577a8f654cab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:05 +0000
Subject: [PATCH 29/45] fix: bindings: arguments out of range, None and empty
 objects crashed the interpreter or read foreign memory

---
 cython/ginv.pyx | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/cython/ginv.pyx b/cython/ginv.pyx
index d74c4ae..5ceb9db 100644
--- a/cython/ginv.pyx
+++ b/cython/ginv.pyx
@@ -1,4 +1,5 @@
 # distutils: language = c++
+# cython: nonecheck = True
 
 from libcpp cimport bool
 
@@ -85,6 +86,7 @@ cdef class const_timer:
     return self.ptr.realTime()
 
   def __str__(self):
+    assert self.ptr
     return "userTime: %.2f, sysTime: %.2f, realTime: %.2f" % (\
         self.ptr.userTime(),\
         self.ptr.sysTime(),\
@@ -270,6 +272,7 @@ cdef class const_monom:
     return self.ptr.degree()
   def __getitem__(self, k):
     assert self.ptr
+    assert 0 <= k < self.ptr.size()
     return self.ptr.get(k)
   def __iter__(self):
     assert self.ptr
@@ -345,6 +348,7 @@ cdef class monom(const_monom):
   @staticmethod
   def variable(Variable v, int size, int pos):
     assert size > 1 and pos >= -1
+    assert 0 <= v < size
     r = monom()
     r.ptr = new Monom(r.allocator, v, size, pos)
     return r
@@ -443,6 +447,7 @@ cdef class const_poly_int:
     return self.ptr.isZero()
   def degree(self):
     assert self.ptr
+    assert self
     return self.ptr.degree()
   def norm(self):
     assert self.ptr
@@ -463,10 +468,12 @@ cdef class const_poly_int:
     r.owner = self
     return r
   def comparable(self, const_poly_int other):
+    assert self.ptr and other.ptr
     return self.ptr.comparable(other.ptr[0])
 
   def order(self):
     cdef int c
+    assert self.ptr
     c = self.ptr.order()
     if c & 0x10:
       r = "TOP"
@@ -480,6 +487,7 @@ cdef class const_poly_int:
       r = (r, "alex")
     return r
   def size(self):
+    assert self.ptr
     return self.ptr.size()
 
   def __neg__(self):
@@ -547,6 +555,7 @@ cdef class const_poly_int:
     return self.mul(other)
 
   def __pow__(const_poly_int self, int other, modulo):
+    assert self.ptr
     assert other >= 0
     r = poly_int()
     r.ptr = new PolyInt(r.allocator, self.ptr[0])
@@ -613,23 +622,29 @@ cdef class wrap_poly_int:
     self.ptr = NULL
 
   def lm(self):
+    assert self.ptr
     r = const_monom()
     r.ptr = &self.ptr.lm()
     r.owner = self
     return r
   def ansector(self):
+    assert self.ptr
     r = const_monom()
     r.ptr = &self.ptr.ansector()
     r.owner = self
     return r
   def isGB(self):
+    assert self.ptr
     return self.ptr.isGB()
 
   def NM(self, int var):
+    assert self.ptr and 0 <= var < self.ptr.lm().size()
     return self.ptr.NM(var)
   def build(self, int var):
+    assert self.ptr and 0 <= var < self.ptr.lm().size()
     return self.ptr.build(var)
   def poly(self):
+    assert self.ptr
     r = const_poly_int()
     r.ptr = &self.ptr.poly()
     r.owner = self
@@ -729,9 +744,11 @@ cdef class janet_poly_int:
       yield r
 
   def comparable(self, const_poly_int other):
+    assert other.ptr
     return self.ptr.comparable(other.ptr[0])
 
   def push(self, const_poly_int other):
+    assert other.ptr
     assert self.ptr.comparable(other.ptr[0])
     self.ptr.push(other.ptr[0])
     return self
@@ -744,6 +761,10 @@ cdef class janet_poly_int:
 
   def find(self, const_monom m):
     cdef WrapPolyInt* w
+    assert m.ptr
+    for v in self:
+      assert len(v.lm()) == len(m)
+      break
     w = self.ptr.find(m.ptr[0])
     if w == NULL:
       return None
-- 
2.43.0


From 6e4cdce03e7f290580a0435188da335b98bd1c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:05 +0000
Subject: [PATCH 30/45] fix: bindings: products of two module elements, which
 do not exist, were computed

---
 cython/ginv.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cython/ginv.pyx b/cython/ginv.pyx
index 5ceb9db..4597042 100644
--- a/cython/ginv.pyx
+++ b/cython/ginv.pyx
@@ -544,6 +544,7 @@ cdef class const_poly_int:
       (<PolyInt*>r.ptr).multI(hex(other).encode("utf-8"))
     elif isinstance(other, const_poly_int):
       assert (<const_poly_int>other).ptr and self.ptr.comparable((<const_poly_int>other).ptr[0])
+      assert all(m.pos() == -1 for m, c in self) or all(m.pos() == -1 for m, c in other)
       (<PolyInt*>r.ptr).mult((<const_poly_int>other).ptr[0])
     else:
       return NotImplemented
@@ -557,6 +558,7 @@ cdef class const_poly_int:
   def __pow__(const_poly_int self, int other, modulo):
     assert self.ptr
     assert other >= 0
+    assert other <= 1 or all(m.pos() == -1 for m, c in self)
     r = poly_int()
     r.ptr = new PolyInt(r.allocator, self.ptr[0])
     (<PolyInt *>r.ptr).pow(other)
-- 
2.43.0


From 4092ca90f7b513d4ce0bf5189ed492f381b1f041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:51 +0000
Subject: [PATCH 31/45] fix: pyginv: LaTeX of a power of more than one digit
 showed only its first digit as the exponent

---
 pyginv/monomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyginv/monomial.py b/pyginv/monomial.py
index 3594da0..ade95ed 100644
--- a/pyginv/monomial.py
+++ b/pyginv/monomial.py
@@ -75,7 +75,7 @@ class Monom(tuple):
         return Monom.__fun[self.__pos]
   
   def latex(self):
-    m = " ".join(f"{{{v}}}^{d}" if d > 1 else f"{{{v}}}" \
+    m = " ".join(f"{{{v}}}^{{{d}}}" if d > 1 else f"{{{v}}}" \
                 for v, d in zip(Monom.__var, self) if d >= 1)
     if self.__pos == -1:
       if m:
-- 
2.43.0


From 10484bb8f4d35cf422d16bbeec03091ea0882964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:46 +0000
Subject: [PATCH 32/45] fix: pyginv: a number minus a polynomial gave the
 polynomial minus the number

---
 pyginv/polynomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyginv/polynomial.py b/pyginv/polynomial.py
index c40b8f7..a3cf484 100644
--- a/pyginv/polynomial.py
+++ b/pyginv/polynomial.py
@@ -107,7 +107,7 @@ class Poly(list):
     return p
 
   def __rsub__(self, other):
-    return self-other
+    return (-self)+other
 
   def __sub__(self, other):
     if other == S.Zero:
-- 
2.43.0


From 78b15dda4931f89b3ea77bc3f27df1adaebae45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:46 +0000
Subject: [PATCH 33/45] fix: pyginv: a number divided by a polynomial gave the
 polynomial divided by the number

---
 pyginv/polynomial.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pyginv/polynomial.py b/pyginv/polynomial.py
index a3cf484..10fdd07 100644
--- a/pyginv/polynomial.py
+++ b/pyginv/polynomial.py
@@ -166,9 +166,6 @@ class Poly(list):
     assert p.assertValid()
     return p
   
-  def __rtruediv__(self, other):
-    return self/other
-  
   def __truediv__(self, other):
     p = self.__class__()
     for m, k in self:
-- 
2.43.0


From 26d0e7731e53035650651a069bc9d51ab2dfb94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:05 +0000
Subject: [PATCH 34/45] fix: pyginv: sums and differences shared their terms
 with the operands, and +p, p+0, p-0, p*1, p**1 were the operand itself, so
 that a later reduction of the result changed the operands

---
 pyginv/polynomial.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/pyginv/polynomial.py b/pyginv/polynomial.py
index 10fdd07..66cb9e1 100644
--- a/pyginv/polynomial.py
+++ b/pyginv/polynomial.py
@@ -63,7 +63,7 @@ class Poly(list):
     return self.lm().cmp(other.lm())
 
   def __pos__(self):
-    return self
+    return self.__class__(self)
 
   def __neg__(self):
     p = self.__class__()
@@ -76,7 +76,7 @@ class Poly(list):
 
   def __add__(self, other):
     if other == S.Zero:
-      return self
+      return self.__class__(self)
     if isinstance(other, int): 
       other = self.__class__(Integer(other))
     else:
@@ -86,7 +86,7 @@ class Poly(list):
     while i < iend and j < jend:
       c = self[i][0].cmp(other[j][0])
       if c > 0:
-        p.append(self[i])
+        p.append([self[i][0], self[i][1]])
         i += 1
       elif c < 0:
         p.append(other[j])
@@ -98,7 +98,7 @@ class Poly(list):
         i += 1
         j += 1
     while i < iend:
-      p.append(self[i])
+      p.append([self[i][0], self[i][1]])
       i += 1
     while j < jend:
       p.append(other[j])
@@ -111,7 +111,7 @@ class Poly(list):
 
   def __sub__(self, other):
     if other == S.Zero:
-      return self
+      return self.__class__(self)
     if isinstance(other, int): 
       other = self.__class__(Integer(other))
     else:
@@ -121,7 +121,7 @@ class Poly(list):
     while i < iend and j < jend:
       c = self[i][0].cmp(other[j][0])
       if c > 0:
-        p.append(self[i])
+        p.append([self[i][0], self[i][1]])
         i += 1
       elif c < 0:
         p.append([other[j][0], -other[j][1]])
@@ -133,7 +133,7 @@ class Poly(list):
         i += 1
         j += 1
     while i < iend:
-      p.append(self[i])
+      p.append([self[i][0], self[i][1]])
       i += 1
     while j < jend:
       p.append([other[j][0], -other[j][1]])
@@ -146,7 +146,7 @@ class Poly(list):
 
   def __mul__(self, other):
     if other == S.One:
-      return self
+      return self.__class__(self)
     if isinstance(other, int): 
       other = self.__class__(Integer(other))
     else:
@@ -177,7 +177,7 @@ class Poly(list):
     if other == 0:
       p = self.__class__(Integer(1))
     else:
-      p = self
+      p = self.__class__(self)
       for i in range(1, other):
         p = p*self
     return p
-- 
2.43.0


From a5ecaadddf38ded77d7c0bd7dfd1c59ce704ce07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:18 +0000
Subject: [PATCH 35/45] fix: pyginv: p += q extended the list of terms of p in
 place instead of adding q

---
 pyginv/polynomial.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyginv/polynomial.py b/pyginv/polynomial.py
index 66cb9e1..a6effa9 100644
--- a/pyginv/polynomial.py
+++ b/pyginv/polynomial.py
@@ -106,6 +106,9 @@ class Poly(list):
     assert p.assertValid()
     return p
 
+  def __iadd__(self, other):
+    return self+other
+
   def __rsub__(self, other):
     return (-self)+other
 
-- 
2.43.0


From a24d2734e2eb65ca8dc5f63f077557149245039f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:26 +0000
Subject: [PATCH 36/45] fix: pyginv: the S-polynomial of two module elements
 failed, as the lcm carries no component

---
 pyginv/polynomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyginv/polynomial.py b/pyginv/polynomial.py
index a6effa9..1949177 100644
--- a/pyginv/polynomial.py
+++ b/pyginv/polynomial.py
@@ -351,7 +351,7 @@ class Poly(list):
     assert self.lm().position() == other.lm().position()
     m, k = self[0][0].lcm(other[0][0]), gcd(self[0][1], other[0][1])
     #assert self[0][1]%k == S.Zero and other[0][1]%k == S.Zero
-    return self.mult(m/self[0][0], other[0][1]/k) - other.mult(m/other[0][0], self[0][1]/k)
+    return self.mult(m/Monom(self[0][0]), other[0][1]/k) - other.mult(m/Monom(other[0][0]), self[0][1]/k)
 
   def assertValid(self):
     for i in range(len(self)-1):
-- 
2.43.0


From 05359d67ec182905d4c8d8f9868847b00bfedc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:18 +0000
Subject: [PATCH 37/45] fix: pyginv: normal forms over parameters kept
 coefficients which are zero, written as fractions

---
 pyginv/polynomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyginv/polynomial.py b/pyginv/polynomial.py
index 1949177..5ba580c 100644
--- a/pyginv/polynomial.py
+++ b/pyginv/polynomial.py
@@ -295,7 +295,7 @@ class Poly(list):
       else:
         k = self[i][1] + other[j][1]*k2
         if not k.is_integer:
-          k = expand(k)
+          k = cancel(k)
         if k == S.Zero:
           del self[i]
         else:
-- 
2.43.0


From 2ac0e96395712084fc8ad87185ebcd2ace8378b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:14 +0000
Subject: [PATCH 38/45] fix: pyginv: the elements of a tree reduced the
 polynomials of the caller in place

---
 pyginv/janet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyginv/janet.py b/pyginv/janet.py
index fdffb11..09a260a 100644
--- a/pyginv/janet.py
+++ b/pyginv/janet.py
@@ -7,7 +7,7 @@ class Wrap:
 
   def __init__(self, *args):
     if len(args) == 1 and isinstance(args[0], Poly):
-      self.poly = args[0]
+      self.poly = args[0].__class__(args[0])
       self.ansector = args[0].lm().copy()
     else:
       assert len(args) == 2 and isinstance(args[0], Wrap)
-- 
2.43.0


From 458a5f42241d9747e105e7eaf84b0f4b63bb50f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:14 +0000
Subject: [PATCH 39/45] fix: pyginv: a forest put elements without component
 into the tree of the last component

---
 pyginv/janet.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyginv/janet.py b/pyginv/janet.py
index 09a260a..f40c5ee 100644
--- a/pyginv/janet.py
+++ b/pyginv/janet.py
@@ -432,6 +432,7 @@ class Forest(list):
   def insert(self, q):
     lst = []
     for w in q:
+      assert w.lm.position() >= 0
       lst.extend(self[w.lm.position()].insert([w]))
     return lst
 
-- 
2.43.0


From 227d83bd9f27574898b03598eb9949b2d726778b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:14 +0000
Subject: [PATCH 40/45] fix: pyginv: JanetCache multiplied differential
 polynomials instead of differentiating them

---
 pyginv/janet.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyginv/janet.py b/pyginv/janet.py
index f40c5ee..c4e2e88 100644
--- a/pyginv/janet.py
+++ b/pyginv/janet.py
@@ -397,7 +397,9 @@ class JanetCache(Janet):
         if m in self.сache:
           r = self.сache[m]
         else:
-          r = w.poly.mult(m1, sympy.S.One)
+          r = w.poly
+          for v in m1.expand():
+            r = r.prolong(v)
         r.NFtail(self)
         r.pp()
         self.сache[m] = r
-- 
2.43.0


From 09e9ed15b503c23a28a900867339d85685102f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:14 +0000
Subject: [PATCH 41/45] fix: pyginv: Buchberger's product criterion was applied
 to modules

---
 pyginv/janet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyginv/janet.py b/pyginv/janet.py
index c4e2e88..32f7ffe 100644
--- a/pyginv/janet.py
+++ b/pyginv/janet.py
@@ -79,7 +79,7 @@ class Wrap:
     return sum(0 if i else 1 for i in self.nonmult)
 
   def crit1(self, other):
-    return type(self.poly) == Poly and\
+    return type(self.poly) == Poly and self.lm.position() < 0 and\
         all(i == 0 or j == 0 for i, j in zip(self.ansector, other.ansector))
 
   def crit2(self, other):
-- 
2.43.0


From ff5e81c84f1ee27604506892fb768e67acc31ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:29 +0000
Subject: [PATCH 42/45] fix: pyginv: a JanetCache inside a forest failed on
 tails with other components

---
 pyginv/janet.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyginv/janet.py b/pyginv/janet.py
index 32f7ffe..8732af0 100644
--- a/pyginv/janet.py
+++ b/pyginv/janet.py
@@ -170,8 +170,7 @@ class Janet:
     return False
 
   def findWrap(self, m):
-    if self.root:
-      assert self.pos == m.position()
+    if self.root and self.pos == m.position():
       r, d, v = self.root, m.degree(), 0
       while r and d >= 0: # TODO
         if len(r)-1 <= m[v] and isinstance(r[-1], Wrap):
-- 
2.43.0


From 36abdf4d6f3d375a0425147304c90eb85d2b16db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:57 +0000
Subject: [PATCH 43/45] fix: pyginv: ginvBlockLow ignored elements of degree 0
 in the queue

---
 pyginv/ginv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyginv/ginv.py b/pyginv/ginv.py
index f57d193..2359fd5 100644
--- a/pyginv/ginv.py
+++ b/pyginv/ginv.py
@@ -197,9 +197,9 @@ def ginvBlockLow(pset, invdiv, level=0):
     i = invdiv.degMinProlong()
     if level > 0:
       print(f"prolong {i}, Q {j}")
-    if i == 0 and j == 0:
+    if i == 0 and not q:
       break
-    if j == 0 or 0 < i < j:
+    if not q or 0 < i < j:
       q.push(invdiv.prolongDeg(i))
     res = q.reduceMinDegree(invdiv)
     if res:
-- 
2.43.0


From c0bafd9c25e5a5387b7c10a8adb2b780c04c48de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:57 +0000
Subject: [PATCH 44/45] fix: pyginv: ginvMin considered prolongations only when
 printing its progress

---
 pyginv/ginv.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pyginv/ginv.py b/pyginv/ginv.py
index 2359fd5..1a396dc 100644
--- a/pyginv/ginv.py
+++ b/pyginv/ginv.py
@@ -151,13 +151,14 @@ def ginvMin(pset, invdiv, level=0):
   q = Q(Wrap(p) for p in pset)
   while True:
     m = q[0].lm if q else None
-    if level > 0:
-      if m:
+    if m is not None:
+      if level > 0:
         print(f"prolong {m}")
-        q.push(invdiv.prolongMonom(m))
-      else:
+      q.push(invdiv.prolongMonom(m))
+    else:
+      if level > 0:
         print("prolongAll")
-        q.push(invdiv.prolongAll())
+      q.push(invdiv.prolongAll())
     if not q:
       break
     r = q.reduceAll(invdiv)
-- 
2.43.0


From 68ac3caaa4dddd6fe15def4440f69f148e9659c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:02 +0000
Subject: [PATCH 45/45] fix: pyginv: JanetCache reduced elements by themselves,
 with multiples remembered from before an insertion

---
 pyginv/janet.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyginv/janet.py b/pyginv/janet.py
index 8732af0..0606600 100644
--- a/pyginv/janet.py
+++ b/pyginv/janet.py
@@ -384,6 +384,10 @@ class JanetCache(Janet):
     super().__init__(*args)
     self.сache = {}
 
+  def insert(self, q):
+    self.сache.clear()
+    return super().insert(q)
+
   def find(self, m):
     w = self.findWrap(m)
     if not w:
-- 
2.43.0

