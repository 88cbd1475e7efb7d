From b00f5d833d28fe3955e1b06695d8cf8305c2dfe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:29 +0000
Subject: [PATCH 01/39] fix: drop all-zero nodes in serial QDD reduction

Algorithm-R redirected every reference to a node whose branches are all 0
to the 0-terminal, but kept the node itself in the table (and kept an
all-zero root), so size() counted unreachable nodes and the result differed
from the hash-based and the multi-processor reductions.
---
 include/tdzdd/dd/DdReducer.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/tdzdd/dd/DdReducer.hpp b/include/tdzdd/dd/DdReducer.hpp
index 108d694..fd35494 100644
--- a/include/tdzdd/dd/DdReducer.hpp
+++ b/include/tdzdd/dd/DdReducer.hpp
@@ -239,7 +239,8 @@ private:
             if (f0.row() != 0) f0 = newIdTable[f0.row()][f0.col()];
             if (f1.row() != 0) f1 = newIdTable[f1.row()][f1.col()];
 
-            if ((BDD && f1 == f0) || (ZDD && f1 == 0)) {
+            if ((BDD && f1 == f0) || (ZDD && f1 == 0)
+                    || (f0 == 0 && f1 == 0)) {
                 newId[j] = f0;
             }
             else {
@@ -315,7 +316,8 @@ private:
                 assert(newId[j] == 0);
                 newId[j] = newId[f0.col()];
             }
-            else if ((BDD && f1 == f0) || (ZDD && f1 == 0)) { // forwarded
+            else if ((BDD && f1 == f0) || (ZDD && f1 == 0)
+                    || (f0 == 0 && f1 == 0)) { // forwarded
                 assert(newId[j].row() < i);
             }
             else {
-- 
2.43.0


From 231a4002f4b87f49f4b15db907b1610d5ff939d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:47 +0000
Subject: [PATCH 02/39] fix: DdStructure equality of diagrams with duplicate
 nodes

operator== mapped a node of the other diagram to the last of several equal
nodes of this one, whose parents may refer to another of them, so two
identical unreduced diagrams built separately compared unequal.
---
 include/tdzdd/DdStructure.hpp | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/include/tdzdd/DdStructure.hpp b/include/tdzdd/DdStructure.hpp
index 950aef8..a451362 100644
--- a/include/tdzdd/DdStructure.hpp
+++ b/include/tdzdd/DdStructure.hpp
@@ -313,8 +313,15 @@ public:
         if (size() > o.size()) return o.operator==(*this);
 
         MyHashMap<InitializedNode<ARITY>,size_t> uniq;
+        DataTable<NodeId> canon(n + 1); // representatives of this DD's nodes
         DataTable<NodeId> equiv(n + 1);
         {
+            size_t m = (*diagram)[0].size();
+            canon[0].resize(m);
+            for (size_t j = 0; j < m; ++j) {
+                canon[0][j] = j;
+            }
+
             size_t om = (*o.diagram)[0].size();
             equiv[0].resize(om);
             for (size_t j = 0; j < om; ++j) {
@@ -324,10 +331,25 @@ public:
 
         for (int i = 1; i <= n; ++i) {
             size_t m = (*diagram)[i].size();
+            canon[i].resize(m);
             uniq.initialize(m * 2);
 
             for (size_t j = 0; j < m; ++j) {
-                uniq[(*diagram)[i][j]] = j;
+                InitializedNode<ARITY> node;
+
+                for (int b = 0; b < ARITY; ++b) {
+                    NodeId f = (*diagram)[i][j].branch[b];
+                    node.branch[b] = canon[f.row()][f.col()];
+                }
+
+                size_t* p = uniq.getValue(node);
+                if (p != 0) {
+                    canon[i][j] = NodeId(i, *p);
+                }
+                else {
+                    uniq[node] = j;
+                    canon[i][j] = NodeId(i, j);
+                }
             }
 
             size_t om = (*o.diagram)[i].size();
@@ -346,7 +368,7 @@ public:
             }
         }
 
-        return root_ == equiv[o.root_.row()][o.root_.col()];
+        return canon[n][root_.col()] == equiv[n][o.root_.col()];
     }
 
     /**
-- 
2.43.0


From af78270f83142ca47d7efadee0def64b013e37a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:47 +0000
Subject: [PATCH 03/39] fix: self-assignment of NodeTableHandler

Assigning an unshared DdStructure to itself released its node table before
taking the new reference.
---
 include/tdzdd/dd/NodeTable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tdzdd/dd/NodeTable.hpp b/include/tdzdd/dd/NodeTable.hpp
index 0cf4536..a1ff7da 100644
--- a/include/tdzdd/dd/NodeTable.hpp
+++ b/include/tdzdd/dd/NodeTable.hpp
@@ -436,9 +436,9 @@ public:
     }
 
     NodeTableHandler& operator=(NodeTableHandler const& o) {
+        o.pointer->ref(); // before deref() for self-assignment
         pointer->deref();
         pointer = o.pointer;
-        pointer->ref();
         return *this;
     }
 
-- 
2.43.0


From 6d2238cb541f064ec3c9eac62829048b3122193b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:04 +0000
Subject: [PATCH 04/39] fix: buffer overflow in bddCardinality with variables
 above the root

The work areas were sized by the level of the root, although the result is
scaled by the variables between the root and numVars.
---
 include/tdzdd/eval/Cardinality.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/tdzdd/eval/Cardinality.hpp b/include/tdzdd/eval/Cardinality.hpp
index a44e675..04bbea7 100644
--- a/include/tdzdd/eval/Cardinality.hpp
+++ b/include/tdzdd/eval/Cardinality.hpp
@@ -107,7 +107,8 @@ public:
         topLevel = level;
         pools.resize(topLevel + 1);
 
-        int max = ceil(double(topLevel) * log2(double(ARITY)) / 63.0) + 1;
+        int n = (numVars > topLevel) ? numVars : topLevel;
+        int max = ceil(double(n) * log2(double(ARITY)) / 63.0) + 1;
         tmp1.setArray(pools[topLevel].template allocate<uint64_t>(max));
         tmp2.setArray(pools[topLevel].template allocate<uint64_t>(max));
         tmp3.setArray(pools[topLevel].template allocate<uint64_t>(max));
-- 
2.43.0


From bfa9b027b4c5bc92f3fca7497a2b360f73bc0954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:41 +0000
Subject: [PATCH 05/39] fix: dumpSapporo of a terminal-only diagram

The root line was looked up in the node numbering, which has no entries for
the terminals.
---
 include/tdzdd/DdStructure.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/tdzdd/DdStructure.hpp b/include/tdzdd/DdStructure.hpp
index a451362..3a1c973 100644
--- a/include/tdzdd/DdStructure.hpp
+++ b/include/tdzdd/DdStructure.hpp
@@ -766,7 +766,12 @@ public:
             }
         }
 
-        os << nodeId[root_.row()][root_.col()] << "\n";
+        if (root_.row() == 0) {
+            os << ((root_ == 0) ? "F" : "T") << "\n";
+        }
+        else {
+            os << nodeId[root_.row()][root_.col()] << "\n";
+        }
         assert(k == l * 2);
     }
 };
-- 
2.43.0


From a96203eff34cae55b210ebad8dbc83d122687362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:45 +0000
Subject: [PATCH 06/39] fix: construct both operand states in getRoot of
 combined specs

BddAnd, BddOr and ZddIntersection returned before the second operand's
state was constructed, although the caller destructs the whole state.
---
 include/tdzdd/op/BinaryOperation.hpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/include/tdzdd/op/BinaryOperation.hpp b/include/tdzdd/op/BinaryOperation.hpp
index 9650a41..ba61859 100644
--- a/include/tdzdd/op/BinaryOperation.hpp
+++ b/include/tdzdd/op/BinaryOperation.hpp
@@ -171,9 +171,8 @@ struct BddAnd_
 
     int getRoot(Word* p) {
         int i1 = base::spec1.get_root(base::state1(p));
-        if (i1 == 0) return 0;
         int i2 = base::spec2.get_root(base::state2(p));
-        if (i2 == 0) return 0;
+        if (i1 == 0 || i2 == 0) return 0;
         base::setLevel1(p, i1);
         base::setLevel2(p, i2);
         return std::max(base::level1(p), base::level2(p));
@@ -241,9 +240,8 @@ struct BddOr_
 
     int getRoot(Word* p) {
         int i1 = base::spec1.get_root(base::state1(p));
-        if (i1 < 0) return -1;
         int i2 = base::spec2.get_root(base::state2(p));
-        if (i2 < 0) return -1;
+        if (i1 < 0 || i2 < 0) return -1;
         base::setLevel1(p, i1);
         base::setLevel2(p, i2);
         return std::max(base::level1(p), base::level2(p));
@@ -345,9 +343,8 @@ public:
 
     int getRoot(Word* p) {
         int i1 = spec1.get_root(state1(p));
-        if (i1 == 0) return 0;
         int i2 = spec2.get_root(state2(p));
-        if (i2 == 0) return 0;
+        if (i1 == 0 || i2 == 0) return 0;
 
         while (i1 != i2) {
             if (i1 > i2) {
-- 
2.43.0


From 461b45c5f8d8031d4a6d8169464c83b569012890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:45 +0000
Subject: [PATCH 07/39] fix: destruct the scalar part of hybrid states

HybridDdSpec constructs and copies the scalar with placement new but never
destructed it, leaking the resources of non-POD scalars.
---
 include/tdzdd/DdSpec.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/tdzdd/DdSpec.hpp b/include/tdzdd/DdSpec.hpp
index bd21a21..216df11 100644
--- a/include/tdzdd/DdSpec.hpp
+++ b/include/tdzdd/DdSpec.hpp
@@ -614,6 +614,7 @@ public:
     }
 
     void destruct(void* p) {
+        s_state(p).~S_State();
     }
 
     void destructLevel(int level) {
-- 
2.43.0


From dd8ca8a125a25093dee4226fc2a6c6fb69c06cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:18 +0000
Subject: [PATCH 08/39] fix: storage size of path counters

The big numbers were sized for binary diagrams and short edges; counts of
multi-way specs (and long level skips) wrote past their storage.
---
 include/tdzdd/dd/PathCounter.hpp | 36 ++++++++++++++------------------
 1 file changed, 16 insertions(+), 20 deletions(-)

diff --git a/include/tdzdd/dd/PathCounter.hpp b/include/tdzdd/dd/PathCounter.hpp
index 2962336..bdd7f29 100644
--- a/include/tdzdd/dd/PathCounter.hpp
+++ b/include/tdzdd/dd/PathCounter.hpp
@@ -76,6 +76,13 @@ class PathCounter {
         return (n + sizeof(Word) - 1) / sizeof(Word);
     }
 
+    /* words sufficient for the number of paths going down n levels */
+    static int countWords(int n) {
+        int bits = 1;
+        while ((1 << bits) < Spec::ARITY) ++bits;
+        return n * bits / 63 + 1;
+    }
+
     static void* state(Word* p) {
         return p;
     }
@@ -112,7 +119,7 @@ public:
             return (n == 0) ? "0" : "1";
         }
 
-        std::vector<uint64_t> totalStorage(n / 63 + 1);
+        std::vector<uint64_t> totalStorage(countWords(n));
         BigNumber total(totalStorage.data());
         total.store(0);
         size_t maxWidth = 0;
@@ -130,7 +137,6 @@ public:
             uniqTable.push_back(UniqTable(hasher.back(), hasher.back()));
         }
 
-        int numberWords = 1;
         Word* p0 = vnodeTable[n].alloc_front(stateWords + 1);
         spec.get_copy(state(p0), state(ptmp));
         spec.destruct(state(ptmp));
@@ -145,7 +151,7 @@ public:
             maxWidth = std::max(maxWidth, m);
             MyList<Word>& nextVnodes = vnodeTable[i - 1];
             UniqTable& nextUniq = uniqTable[i - 1];
-            int const nextWords = stateWords + numberWords + 1;
+            int const nextWords = stateWords + countWords(n - i + 1);
             Word* pp = nextVnodes.alloc_front(nextWords);
             //if (nextUniq.size() < m) nextUniq.rehash(m);
 
@@ -168,7 +174,7 @@ public:
                     }
                     else if (ii < i - 1) {
                         Word* qq = vnodeTable[ii].alloc_front(
-                                nextWords + (i - ii) / 63);
+                                stateWords + countWords(n - ii));
                         spec.get_copy(state(qq), state(pp));
                         spec.destruct(state(pp));
 
@@ -179,10 +185,7 @@ public:
                         }
                         else {
                             spec.destruct(state(qq));
-                            int w = number(qqq).add(number(p));
-                            if (numberWords < w) {
-                                numberWords = w; //FIXME might be broken at long skip
-                            }
+                            number(qqq).add(number(p));
                             vnodeTable[ii].pop_front();
                         }
                     }
@@ -196,10 +199,7 @@ public:
                         }
                         else {
                             spec.destruct(state(pp));
-                            int w = number(ppp).add(number(p));
-                            if (numberWords < w) {
-                                numberWords = w; //FIXME might be broken at long skip
-                            }
+                            number(ppp).add(number(p));
                         }
                     }
                 }
@@ -231,7 +231,7 @@ public:
             return (n == 0) ? "0" : "1";
         }
 
-        std::vector<uint64_t> totalStorage(n / 63 + 1);
+        std::vector<uint64_t> totalStorage(countWords(n));
         BigNumber total(totalStorage.data());
         total.store(0);
         size_t maxWidth = 0;
@@ -240,7 +240,6 @@ public:
         MemoryPools pools(n + 1);
         MyVector<MyList<Word> > vnodeTable(n + 1);
 
-        int numberWords = 1;
         Word* p0 = vnodeTable[n].alloc_front(stateWords + 1);
         spec.get_copy(state(p0), state(ptmp));
         spec.destruct(state(ptmp));
@@ -264,10 +263,7 @@ public:
                         ++m;
                     }
                     else {
-                        int w = number(pp).add(number(p));
-                        if (numberWords < w) {
-                            numberWords = w; //FIXME might be broken at long skip
-                        }
+                        number(pp).add(number(p));
                         number(p).store(0);
                     }
                 }
@@ -276,7 +272,7 @@ public:
             //std::cerr << i << "," << m << "\n";
             maxWidth = std::max(maxWidth, m);
             MyList<Word>& nextVnodes = vnodeTable[i - 1];
-            int const nextWords = stateWords + numberWords + 1;
+            int const nextWords = stateWords + countWords(n - i + 1);
             Word* pp = nextVnodes.alloc_front(nextWords);
 
             for (; !vnodes.empty(); vnodes.pop_front()) {
@@ -298,7 +294,7 @@ public:
                     }
                     else if (ii < i - 1) {
                         Word* ppp = vnodeTable[ii].alloc_front(
-                                nextWords + (i - ii) / 63);
+                                stateWords + countWords(n - ii));
                         spec.get_copy(state(ppp), state(pp));
                         spec.destruct(state(pp));
                         number(ppp).store(number(p));
-- 
2.43.0


From 74145f000e0511be230ed85b5b8966c2a94cb6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:18 +0000
Subject: [PATCH 09/39] fix: destruct the root state when counting paths of a
 constant spec

---
 include/tdzdd/dd/PathCounter.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/tdzdd/dd/PathCounter.hpp b/include/tdzdd/dd/PathCounter.hpp
index bdd7f29..fb80146 100644
--- a/include/tdzdd/dd/PathCounter.hpp
+++ b/include/tdzdd/dd/PathCounter.hpp
@@ -114,6 +114,7 @@ public:
         Word* ptmp = tmp.data();
         int const n = spec.get_root(state(ptmp));
         if (n <= 0) {
+            spec.destruct(state(ptmp));
             mh << " ...";
             mh.end(0);
             return (n == 0) ? "0" : "1";
@@ -226,6 +227,7 @@ public:
         Word* ptmp = tmp.data();
         int const n = spec.get_root(state(ptmp));
         if (n <= 0) {
+            spec.destruct(state(ptmp));
             mh << " ...";
             mh.end(0);
             return (n == 0) ? "0" : "1";
@@ -327,6 +329,7 @@ public:
         Word* ptmp = tmp.data();
         int const n = spec.get_root(state(ptmp));
         if (n <= 0) {
+            spec.destruct(state(ptmp));
             mh << " ...";
             mh.end(0);
             return (n == 0) ? 0 : 1;
-- 
2.43.0


From f9daae06ac4034360a3cad71d8559642d0a6cd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:31 +0000
Subject: [PATCH 10/39] fix: pruning by mergeStates in the multi-processor
 builders

A pruned representative left its node uninitialized although merged nodes
still pointed to it, and ZddSubsetterMP dropped the surviving state.
---
 include/tdzdd/dd/DdBuilder.hpp | 50 +++++++++++++++++++++++++++-------
 1 file changed, 40 insertions(+), 10 deletions(-)

diff --git a/include/tdzdd/dd/DdBuilder.hpp b/include/tdzdd/dd/DdBuilder.hpp
index a8b8c07..36f525c 100644
--- a/include/tdzdd/dd/DdBuilder.hpp
+++ b/include/tdzdd/dd/DdBuilder.hpp
@@ -127,6 +127,9 @@ protected:
         return p[1].code;
     }
 
+    /* mark of a node that is forwarded to the 0-terminal */
+    static int64_t const pruned = int64_t(1) << 62;
+
     static NodeId& nodeId(SpecNode* p) {
         return *reinterpret_cast<NodeId*>(&p[1].code);
     }
@@ -549,7 +552,7 @@ public:
                         else {
                             switch (spec.merge_states(state(p0), state(p))) {
                             case 1:
-                                code(p0) = 0;
+                                code(p0) |= pruned; // others may point to it
                                 code(p) = ++j; // code(p) >= 1
                                 p0 = p;
                                 break;
@@ -615,10 +618,20 @@ public:
                             continue;
                         }
 
-                        size_t j = j0 + code(p);
+                        size_t j = j0 + (code(p) & ~pruned);
                         *srcPtr(p) = NodeId(i, j);
 
                         Node<AR> &q = output[i][j];
+
+                        if (code(p) & pruned) {
+                            for (int b = 0; b < AR; ++b) {
+                                q.branch[b] = 0;
+                            }
+                            spec.destruct(state(p));
+                            ++deadCount;
+                            continue;
+                        }
+
                         bool allZero = true;
                         void* s = tmpState;
 
@@ -1090,17 +1103,24 @@ public:
                     for (MyListOnPool<SpecNode>::iterator t = snodes.begin();
                             t != snodes.end(); ++t) {
                         SpecNode* p = *t;
-                        SpecNode* pp = uniq.add(p);
+                        SpecNode*& p0 = uniq.add(p);
 
-                        if (pp == p) {
+                        if (p0 == p) {
                             code(p) = ++jj; // code(p) >= 1
                         }
                         else {
-                            code(p) = -code(pp);
-                            if (int prune = spec.merge_states(state(pp),
-                                    state(p))) {
-                                if (prune & 1) code(pp) = 0;
-                                if (prune & 2) code(p) = 0;
+                            switch (spec.merge_states(state(p0), state(p))) {
+                            case 1:
+                                code(p0) |= pruned; // others may point to it
+                                code(p) = ++jj; // code(p) >= 1
+                                p0 = p;
+                                break;
+                            case 2:
+                                code(p) = 0;
+                                break;
+                            default:
+                                code(p) = -code(p0);
+                                break;
                             }
                         }
                     }
@@ -1144,9 +1164,19 @@ public:
                             continue;
                         }
 
-                        size_t const jj = jj0 + code(p);
+                        size_t const jj = jj0 + (code(p) & ~pruned);
                         *srcPtr(p) = NodeId(i, jj);
                         Node<AR> &q = output[i][jj];
+
+                        if (code(p) & pruned) {
+                            for (int b = 0; b < AR; ++b) {
+                                q.branch[b] = 0;
+                            }
+                            spec.destruct(state(p));
+                            ++deadCount;
+                            continue;
+                        }
+
                         bool allZero = true;
                         void* s = tmpState;
 
-- 
2.43.0


From c363e06901c449c3dab5971391c3173d4a8822ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:47 +0000
Subject: [PATCH 11/39] fix: level labels of lookahead specifications in DOT
 output

---
 include/tdzdd/op/Lookahead.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/tdzdd/op/Lookahead.hpp b/include/tdzdd/op/Lookahead.hpp
index 977960e..14ba972 100644
--- a/include/tdzdd/op/Lookahead.hpp
+++ b/include/tdzdd/op/Lookahead.hpp
@@ -113,8 +113,8 @@ public:
         spec.print_state(os, p, level);
     }
 
-    void print_level(std::ostream& os, int level) const {
-        spec.print_level(os, level);
+    void printLevel(std::ostream& os, int level) const {
+        spec.printLevel(os, level);
     }
 };
 
@@ -187,8 +187,8 @@ public:
         spec.print_state(os, p, level);
     }
 
-    void print_level(std::ostream& os, int level) const {
-        spec.print_level(os, level);
+    void printLevel(std::ostream& os, int level) const {
+        spec.printLevel(os, level);
     }
 };
 
-- 
2.43.0


From c5c063efe075c995286ed183ec315831dc8c0832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:47 +0000
Subject: [PATCH 12/39] fix: GraphillionZdd reading the 1-terminal

---
 include/tdzdd/spec/GraphillionZdd.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/tdzdd/spec/GraphillionZdd.hpp b/include/tdzdd/spec/GraphillionZdd.hpp
index c739368..090230d 100644
--- a/include/tdzdd/spec/GraphillionZdd.hpp
+++ b/include/tdzdd/spec/GraphillionZdd.hpp
@@ -86,7 +86,11 @@ public:
 private:
     void read(std::istream& is) {
         while (is) {
-            if (isdigit(skipSpace(is))) {
+            int c = skipSpace(is);
+            if (c == 'T' || c == 't') { // the family of the empty set
+                root = 1;
+            }
+            else if (isdigit(c)) {
                 uint64_t id;
                 Node node;
 
-- 
2.43.0


From c7c4c53c286e990d737e55a63bbcc8ecab8b0743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:17 +0000
Subject: [PATCH 13/39] fix: Graph::readEdges with no newline at the end of the
 file

---
 include/tdzdd/util/Graph.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tdzdd/util/Graph.hpp b/include/tdzdd/util/Graph.hpp
index ce77e6c..7dce8b8 100644
--- a/include/tdzdd/util/Graph.hpp
+++ b/include/tdzdd/util/Graph.hpp
@@ -172,9 +172,9 @@ private:
         std::string v, v1, v2;
 
         while (is) {
-            char c = is.get();
+            int c = is.get();
 
-            if (isspace(c)) {
+            if (!is || isspace(c)) {
                 if (!v.empty()) {
                     if (v1.empty()) {
                         v1 = v;
-- 
2.43.0


From f7556e9388cf4273912d2bc26bb078550ffeb6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:17 +0000
Subject: [PATCH 14/39] fix: derived data after Graph::clearColors

---
 include/tdzdd/util/Graph.hpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/include/tdzdd/util/Graph.hpp b/include/tdzdd/util/Graph.hpp
index 7dce8b8..eede957 100644
--- a/include/tdzdd/util/Graph.hpp
+++ b/include/tdzdd/util/Graph.hpp
@@ -582,11 +582,7 @@ public:
 
     void clearColors() {
         name2color.clear();
-        virtualMate_.clear();
-        virtualMate_.resize(vMax + 1);
-        colorNumber_.clear();
-        colorNumber_.resize(vMax + 1);
-        numColor_ = 0;
+        update();
     }
 
     void setDefaultPathColor() {
-- 
2.43.0


From e0cbfb951fec14e76ec82f848a6718668ed9e6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:05 +0000
Subject: [PATCH 15/39] fix: Hamiltonian paths and cycles missing vertices
 outside the examined window

When the last path or the cycle was closed, vertices not yet on the
frontier (and, for cycles, the first one on it) were not checked, so
edge sets that leave them unvisited were accepted.
---
 include/tdzdd/spec/PathZdd.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/tdzdd/spec/PathZdd.hpp b/include/tdzdd/spec/PathZdd.hpp
index 6eac119..156d812 100644
--- a/include/tdzdd/spec/PathZdd.hpp
+++ b/include/tdzdd/spec/PathZdd.hpp
@@ -81,7 +81,8 @@ private:
                 if (w1 != w2) return NO;
                 if (!e.allColorsSeen) return YES;
 
-                bool clean = true;
+                // vertices beyond the frontier are not visited yet
+                bool clean = !hamilton || e.v0 + mateArraySize_ > m;
                 for (int k = 0; k < mateArraySize_; ++k) {
                     if (e.v0 + k == e.v1) continue;
                     if (e.v0 + k == e.v2) continue;
@@ -96,7 +97,10 @@ private:
             if (w1 == e.v2) {
                 assert(w2 == e.v1);
 
-                for (int k = 1; k < mateArraySize_; ++k) {
+                // vertices beyond the frontier are not visited yet
+                if (hamilton && e.v0 + mateArraySize_ <= m) return NO;
+
+                for (int k = 0; k < mateArraySize_; ++k) {
                     if (e.v0 + k == e.v1) continue;
                     if (e.v0 + k == e.v2) continue;
                     int w = mate[k];
-- 
2.43.0


From edc683a03f9ffc67065db16ebbd4512f09e97692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:18 +0000
Subject: [PATCH 16/39] Revert "fix: Hamiltonian paths and cycles missing
 vertices outside the examined window"

This reverts commit e0cbfb951fec14e76ec82f848a6718668ed9e6ca.
---
 include/tdzdd/spec/PathZdd.hpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/include/tdzdd/spec/PathZdd.hpp b/include/tdzdd/spec/PathZdd.hpp
index 156d812..6eac119 100644
--- a/include/tdzdd/spec/PathZdd.hpp
+++ b/include/tdzdd/spec/PathZdd.hpp
@@ -81,8 +81,7 @@ private:
                 if (w1 != w2) return NO;
                 if (!e.allColorsSeen) return YES;
 
-                // vertices beyond the frontier are not visited yet
-                bool clean = !hamilton || e.v0 + mateArraySize_ > m;
+                bool clean = true;
                 for (int k = 0; k < mateArraySize_; ++k) {
                     if (e.v0 + k == e.v1) continue;
                     if (e.v0 + k == e.v2) continue;
@@ -97,10 +96,7 @@ private:
             if (w1 == e.v2) {
                 assert(w2 == e.v1);
 
-                // vertices beyond the frontier are not visited yet
-                if (hamilton && e.v0 + mateArraySize_ <= m) return NO;
-
-                for (int k = 0; k < mateArraySize_; ++k) {
+                for (int k = 1; k < mateArraySize_; ++k) {
                     if (e.v0 + k == e.v1) continue;
                     if (e.v0 + k == e.v2) continue;
                     int w = mate[k];
-- 
2.43.0


From 69f02061496016794eba4b076a1d33acb40d8d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:18 +0000
Subject: [PATCH 17/39] Revert "fix: GraphillionZdd reading the 1-terminal"

This reverts commit c5c063efe075c995286ed183ec315831dc8c0832.
---
 include/tdzdd/spec/GraphillionZdd.hpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/include/tdzdd/spec/GraphillionZdd.hpp b/include/tdzdd/spec/GraphillionZdd.hpp
index 090230d..c739368 100644
--- a/include/tdzdd/spec/GraphillionZdd.hpp
+++ b/include/tdzdd/spec/GraphillionZdd.hpp
@@ -86,11 +86,7 @@ public:
 private:
     void read(std::istream& is) {
         while (is) {
-            int c = skipSpace(is);
-            if (c == 'T' || c == 't') { // the family of the empty set
-                root = 1;
-            }
-            else if (isdigit(c)) {
+            if (isdigit(skipSpace(is))) {
                 uint64_t id;
                 Node node;
 
-- 
2.43.0


From 667542360ba296a53455183a6cdc05b6053ed29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:06 +0000
Subject: [PATCH 18/39] fix: BigNumber::divide ignored its argument

---
 include/tdzdd/util/BigNumber.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/tdzdd/util/BigNumber.hpp b/include/tdzdd/util/BigNumber.hpp
index 4e4eba6..a937c88 100644
--- a/include/tdzdd/util/BigNumber.hpp
+++ b/include/tdzdd/util/BigNumber.hpp
@@ -177,12 +177,10 @@ public:
             --p;
             uint64_t q = cont ? MSB : 0;
             r = (r << 31) | ((*p & ~MSB) >> 32);
-            lldiv_t d = lldiv(r, 10LL);
-            q += d.quot << 32;
-            r = (d.rem << 32) | (*p & ((uint64_t(1) << 32) - 1));
-            d = lldiv(r, 10LL);
-            q += d.quot;
-            r = d.rem;
+            q += (r / n) << 32;
+            r = ((r % n) << 32) | (*p & ((uint64_t(1) << 32) - 1));
+            q += r / n;
+            r %= n;
             *p = q;
             if (q != 0) cont = true;
         } while (p != array);
-- 
2.43.0


From 7816403358d230385bb810fe648b55f43a213f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:06 +0000
Subject: [PATCH 19/39] fix: FixedBigNumber::divide wrong for divisors above
 2^31

---
 include/tdzdd/util/BigNumber.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/tdzdd/util/BigNumber.hpp b/include/tdzdd/util/BigNumber.hpp
index a937c88..b412952 100644
--- a/include/tdzdd/util/BigNumber.hpp
+++ b/include/tdzdd/util/BigNumber.hpp
@@ -330,9 +330,8 @@ public:
         uint64_t r = 0;
         for (int i = size - 1; i >= 0; --i) {
             r = (r << 32) + val[i];
-            lldiv_t d = lldiv(r, n);
-            val[i] = d.quot;
-            r = d.rem;
+            val[i] = r / n;
+            r %= n;
         }
         return r;
     }
-- 
2.43.0


From 667307b1d4702ac0a75d136705b60872336262e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:06 +0000
Subject: [PATCH 20/39] fix: BigNumber zero shifted by 63 or more was not equal
 to zero

---
 include/tdzdd/util/BigNumber.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/tdzdd/util/BigNumber.hpp b/include/tdzdd/util/BigNumber.hpp
index b412952..6129b43 100644
--- a/include/tdzdd/util/BigNumber.hpp
+++ b/include/tdzdd/util/BigNumber.hpp
@@ -190,6 +190,7 @@ public:
 
     size_t shiftLeft(int k) {
         assert(k >= 0);
+        if (*this == 0) return 1;
         if (k >= 63) {
             int w = k / 63;
             for (uint64_t* q = array + size() - 1; q >= array; --q) {
-- 
2.43.0


From 9da5ba513a44150fd18f7658510676d0404d2e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:06 +0000
Subject: [PATCH 21/39] fix: MyVector::erase(first, last) copied from wrong
 positions

---
 include/tdzdd/util/MyVector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tdzdd/util/MyVector.hpp b/include/tdzdd/util/MyVector.hpp
index d62d228..277e87c 100644
--- a/include/tdzdd/util/MyVector.hpp
+++ b/include/tdzdd/util/MyVector.hpp
@@ -275,7 +275,7 @@ public:
         Size newSize = size_ - (last - first);
 
         for (Size i = first - array_; i < newSize; ++i) {
-            array_[i] = last[i];
+            array_[i] = array_[i + (last - first)];
         }
 
         while (newSize < size_) {
-- 
2.43.0


From 9e63dda6a53e9ee49ae7453412e5d5cfec7b8183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:06 +0000
Subject: [PATCH 22/39] fix: MyVector::erase(pos) did not remove the element

---
 include/tdzdd/util/MyVector.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/tdzdd/util/MyVector.hpp b/include/tdzdd/util/MyVector.hpp
index 277e87c..cba9d1d 100644
--- a/include/tdzdd/util/MyVector.hpp
+++ b/include/tdzdd/util/MyVector.hpp
@@ -486,8 +486,7 @@ public:
      */
     iterator erase(iterator pos) {
         assert(begin() <= pos && pos < end());
-        std::memmove(pos, pos + 1, end() - pos - 1);
-        return pos;
+        return erase(pos, pos + 1);
     }
 
     /**
-- 
2.43.0


From 5af8a7fcaf2aa1f4b067aa0435bbd420e3333119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:06 +0000
Subject: [PATCH 23/39] fix: MyVector lost its elements on self-assignment

---
 include/tdzdd/util/MyVector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/tdzdd/util/MyVector.hpp b/include/tdzdd/util/MyVector.hpp
index cba9d1d..4afdc5c 100644
--- a/include/tdzdd/util/MyVector.hpp
+++ b/include/tdzdd/util/MyVector.hpp
@@ -97,6 +97,7 @@ public:
     }
 
     MyVector& operator=(MyVector const& o) {
+        if (this == &o) return *this;
         resize(0);
         reserve(o.size_);
         size_ = o.size_;
-- 
2.43.0


From 9d9edea405c7f09e6d7727019745037967b3cfd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:06 +0000
Subject: [PATCH 24/39] fix: MyVector::push_back of an own element read freed
 memory

---
 include/tdzdd/util/MyVector.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/tdzdd/util/MyVector.hpp b/include/tdzdd/util/MyVector.hpp
index 4afdc5c..bfad298 100644
--- a/include/tdzdd/util/MyVector.hpp
+++ b/include/tdzdd/util/MyVector.hpp
@@ -309,6 +309,11 @@ public:
      * @param val value of the new element.
      */
     void push_back(T const& val) {
+        if (size_ == capacity_ && begin() <= &val && &val < end()) {
+            T const copy(val); // the array is about to be moved
+            push_back(copy);
+            return;
+        }
         ensureCapacity(size_ + 1);
         new (array_ + size_) T(val);
         ++size_;
-- 
2.43.0


From 64a565f362d584f3171367719c11c3a2c741daf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:06 +0000
Subject: [PATCH 25/39] fix: MyVector made from an empty std::vector failed an
 assertion in clear()

---
 include/tdzdd/util/MyVector.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/tdzdd/util/MyVector.hpp b/include/tdzdd/util/MyVector.hpp
index bfad298..ae14ff9 100644
--- a/include/tdzdd/util/MyVector.hpp
+++ b/include/tdzdd/util/MyVector.hpp
@@ -109,7 +109,8 @@ public:
 
     template<typename U>
     MyVector(std::vector<U> const& o)
-            : capacity_(o.size()), size_(o.size()), array_(allocate(capacity_)) {
+            : capacity_(o.size()), size_(o.size()),
+              array_(capacity_ ? allocate(capacity_) : 0) {
         for (Size i = 0; i < size_; ++i) {
             new (array_ + i) T(o[i]);
         }
-- 
2.43.0


From bb55af832c8e45f59f01f42b5021288ab928f441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:06 +0000
Subject: [PATCH 26/39] fix: MyHashTable lost its elements on self-assignment

---
 include/tdzdd/util/MyHashTable.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/tdzdd/util/MyHashTable.hpp b/include/tdzdd/util/MyHashTable.hpp
index 1a1e8e9..84a54a0 100644
--- a/include/tdzdd/util/MyHashTable.hpp
+++ b/include/tdzdd/util/MyHashTable.hpp
@@ -195,6 +195,7 @@ public:
     }
 
     MyHashTable& operator=(MyHashTable const& o) {
+        if (this == &o) return *this;
         initialize(o.tableSize_);
         for (const_iterator t = o.begin(); t != o.end(); ++t) {
             add(*t);
-- 
2.43.0


From 3754dea0b30a81f0194ae135d92bb9aa37975b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:06 +0000
Subject: [PATCH 27/39] fix: MyList could not be iterated or printed when const

---
 include/tdzdd/util/MyList.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/tdzdd/util/MyList.hpp b/include/tdzdd/util/MyList.hpp
index 1723816..68d3978 100644
--- a/include/tdzdd/util/MyList.hpp
+++ b/include/tdzdd/util/MyList.hpp
@@ -66,6 +66,10 @@ class MyList {
         return reinterpret_cast<T*>(p + 1);
     }
 
+    static T const* dataStart(Cell const* p) {
+        return reinterpret_cast<T const*>(p + 1);
+    }
+
 public:
     MyList()
             : front_(0), size_(0) {
@@ -235,7 +239,7 @@ public:
         }
 
         T const* operator*() const {
-            return *dataStart(front);
+            return dataStart(front);
         }
 
         T const* operator->() const {
@@ -247,11 +251,11 @@ public:
             return *this;
         }
 
-        bool operator==(iterator const& o) const {
+        bool operator==(const_iterator const& o) const {
             return front == o.front;
         }
 
-        bool operator!=(iterator const& o) const {
+        bool operator!=(const_iterator const& o) const {
             return front != o.front;
         }
     };
-- 
2.43.0


From 43a6becdda34b7da075c53d7b7eab23705ff4149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:06 +0000
Subject: [PATCH 28/39] fix: MemoryPool::reuse took a block for a large element
 as one of standard size

---
 include/tdzdd/util/MemoryPool.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/tdzdd/util/MemoryPool.hpp b/include/tdzdd/util/MemoryPool.hpp
index ccc4947..20a85c9 100644
--- a/include/tdzdd/util/MemoryPool.hpp
+++ b/include/tdzdd/util/MemoryPool.hpp
@@ -101,10 +101,13 @@ public:
     }
 
     void reuse() {
-        if (blockList == 0) return;
+        if (nextUnit >= BLOCK_UNITS) { // the first block may be of another size
+            clear();
+            return;
+        }
         while (blockList->next != 0) {
-            Unit* block = blockList;
-            blockList = blockList->next;
+            Unit* block = blockList->next;
+            blockList->next = block->next;
             delete[] block;
         }
         nextUnit = 1;
-- 
2.43.0


From ba4e9135287729f767dafeb0a7ea757c9584f399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:06 +0000
Subject: [PATCH 29/39] fix: moving a MemoryPool left both pools unusable

---
 include/tdzdd/util/MemoryPool.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/tdzdd/util/MemoryPool.hpp b/include/tdzdd/util/MemoryPool.hpp
index 20a85c9..c72746e 100644
--- a/include/tdzdd/util/MemoryPool.hpp
+++ b/include/tdzdd/util/MemoryPool.hpp
@@ -81,6 +81,7 @@ public:
         blockList = o.blockList;
         nextUnit = o.nextUnit;
         o.blockList = 0;
+        o.nextUnit = BLOCK_UNITS;
     }
 
     virtual ~MemoryPool() {
@@ -235,7 +236,11 @@ typedef MyVector<MemoryPool> MemoryPools;
 template<>
 inline void MyVector<MemoryPool>::moveElement(MemoryPool& from,
         MemoryPool& to) {
-    to.moveFrom(from);
+    if (&from != &to) {
+        new (&to) MemoryPool();
+        to.moveFrom(from);
+        from.~MemoryPool();
+    }
 }
 
 } // namespace tdzdd
-- 
2.43.0


From 4264e1b9b310f80cdc9f899f9b1463854bcb83c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:06 +0000
Subject: [PATCH 30/39] fix: MyBitSet::pullout shifted the wrong entries and
 wrote behind the array

---
 include/tdzdd/util/MySet.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/tdzdd/util/MySet.hpp b/include/tdzdd/util/MySet.hpp
index 59a9800..f8b7939 100644
--- a/include/tdzdd/util/MySet.hpp
+++ b/include/tdzdd/util/MySet.hpp
@@ -119,12 +119,12 @@ public:
     void pullout(size_t i) {
         size_t k = i / 64;
         uint64_t* p = &word(k);
-        uint64_t* q = p + numWords();
-        uint64_t m = mask(i % 64 + 1) - 1;
-        *p = (*p & ~m) | ((*p << 1) & m);
+        uint64_t* q = p + (numWords() - k);
+        uint64_t m = mask(i % 64) - 1;
+        *p = (*p & m) | ((*p >> 1) & ~m);
         while (++p < q) {
-            *(p - 1) |= *p >> 63;
-            *p <<= 1;
+            *(p - 1) |= *p << 63;
+            *p >>= 1;
         }
     }
 
-- 
2.43.0


From 5d4c13d9c7dda4de30819bd6245ca97fcbf74492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:06 +0000
Subject: [PATCH 31/39] fix: MySmallSetOnPool wrote behind a full set when an
 element was added again

---
 include/tdzdd/util/MySet.hpp | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/include/tdzdd/util/MySet.hpp b/include/tdzdd/util/MySet.hpp
index f8b7939..2c5ae87 100644
--- a/include/tdzdd/util/MySet.hpp
+++ b/include/tdzdd/util/MySet.hpp
@@ -336,16 +336,10 @@ public:
 //        ++size_;
 //    }
     void add(T const& e) {
+        if (includes(e)) return;
         if (N > 0 && size_ >= N - 1) throw std::out_of_range("MySmallSet::add");
-        T* pz = array_ + size_;
-        T* p = pz - 1;
-        while (array_ <= p && e <= *p) {
-            if (e == *p) {
-                while (++p < pz) {
-                    *p = *(p + 1);
-                }
-                return;
-            }
+        T* p = array_ + size_ - 1;
+        while (array_ <= p && e < *p) {
             *(p + 1) = *p;
             --p;
         }
-- 
2.43.0


From 4cde7f1206ae9907548450a50fc95864b2d307b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:24 +0000
Subject: [PATCH 32/39] fix: NAryZdd rejected every word whose lowest digit is
 0

---
 apps/ddqueens/NAryZdd.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apps/ddqueens/NAryZdd.hpp b/apps/ddqueens/NAryZdd.hpp
index 48eeb36..497442b 100644
--- a/apps/ddqueens/NAryZdd.hpp
+++ b/apps/ddqueens/NAryZdd.hpp
@@ -53,6 +53,7 @@ public:
         else {
             --level;
             if (oneHot && level % m == 0) return 0;
+            if (level == 0) return -1;
         }
         return level;
     }
-- 
2.43.0


From 042efdba3320bd91165d77da34386b682d0c8213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:44 +0000
Subject: [PATCH 33/39] fix: Board::transpose crashed on a board with one row

---
 apps/numberlink/Board.cpp | 476 +++++++++++++++++++-------------------
 1 file changed, 232 insertions(+), 244 deletions(-)

diff --git a/apps/numberlink/Board.cpp b/apps/numberlink/Board.cpp
index 9c1ad09..ec6a73f 100644
--- a/apps/numberlink/Board.cpp
+++ b/apps/numberlink/Board.cpp
@@ -1,244 +1,232 @@
-/*
- * Copyright (c) 2014 Hiroaki Iwashita
- *
- * Permission is hereby granted, free of charge, to any person obtaining a
- * copy of this software and associated documentation files (the "Software"),
- * to deal in the Software without restriction, including without limitation
- * the rights to use, copy, modify, merge, publish, distribute, sublicense,
- * and/or sell copies of the Software, and to permit persons to whom the
- * Software is furnished to do so, subject to the following conditions:
- *
- * The above copyright notice and this permission notice shall be included in
- * all copies or substantial portions of the Software.
- *
- * THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
- * IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
- * FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
- * AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
- * LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING
- * FROM, OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER
- * DEALINGS IN THE SOFTWARE.
- */
-
-#include "Board.hpp"
-
-#include <iomanip>
-#include <stdexcept>
-
-void Board::init() {
-    number.clear();
-    number.resize(rows);
-    for (int i = 0; i < rows; ++i) {
-        number[i].resize(cols);
-    }
-
-    hlink.clear();
-    hlink.resize(rows);
-    for (int i = 0; i < rows; ++i) {
-        hlink[i].resize(cols - 1);
-    }
-
-    vlink.clear();
-    vlink.resize(rows - 1);
-    for (int i = 0; i < rows - 1; ++i) {
-        vlink[i].resize(cols);
-    }
-}
-
-namespace {
-
-template<typename M>
-M transposed_matrix(M& a) {
-    int rows = a[0].size();
-    int cols = a.size();
-    M b(rows);
-    for (int i = 0; i < rows; ++i) {
-        b[i].resize(cols);
-        for (int j = 0; j < cols; ++j) {
-            b[i][j] = a[j][i];
-        }
-    }
-    return b;
-}
-
-}
-
-void Board::transpose() {
-    number = transposed_matrix(number);
-    std::vector<std::vector<bool> > tmp = transposed_matrix(hlink);
-    hlink = transposed_matrix(vlink);
-    vlink = tmp;
-    std::swap(rows, cols);
-}
-
-void Board::readNumbers(std::istream& is) {
-    int c;
-
-    for (;;) {
-        if (!is) throw std::runtime_error("format error");
-        while (isspace(c = is.get()))
-            ;
-        if (isdigit(c)) break;
-        while (is && (c = is.get()) != '\n')
-            ;
-    }
-    is.unget();
-    is >> cols;
-
-    while (isspace(c = is.get()))
-        ;
-    if (c == ',') {
-        rows = cols;
-        while (isspace(c = is.get()))
-            ;
-        if (!isdigit(c)) throw std::runtime_error("format error");
-        is.unget();
-        is >> cols;
-    }
-    else {
-        if (!isdigit(c)) throw std::runtime_error("format error");
-        is.unget();
-        is >> rows;
-    }
-
-    if (cols < 1 || rows < 1) throw std::runtime_error("illegal size");
-
-    init();
-
-    int i = -1;
-    int j = 0;
-
-    while (is) {
-        while (isspace(c = is.get())) {
-            if (c == '\n') ++i, j = 0;
-        }
-        if (!is) break;
-
-        if (i < 0 || i >= rows) continue;
-        if (j >= cols) continue;
-
-        if (isdigit(c)) {
-            is.unget();
-            int t;
-            is >> t;
-            number[i][j] = t;
-        }
-        ++j;
-    }
-}
-
-void Board::writeNumbers(std::ostream& os) const {
-    os << cols << " " << rows << "\n";
-
-    for (int i = 0; i < rows; ++i) {
-        for (int j = 0; j < cols; ++j) {
-            if (j != 0) os << " ";
-            os << number[i][j];
-        }
-        os << "\n";
-    }
-}
-
-void Board::printNumlin(std::ostream& os) const {
-    static char const* connector[] = {"  ", "  ", "  ", "──", "  ", "─┘", " └",
-                                      "─┴", "  ", "─┐", " ┌", "─┬", " │", "─┤",
-                                      " ├", "─┼"};
-    os << "┏";
-    for (int j = 0; j < cols; ++j) {
-        os << "━━";
-    }
-    os << "━┓\n";
-
-    for (int i = 0; i < rows; ++i) {
-        os << "┃";
-
-        for (int j = 0; j < cols; ++j) {
-            int k = number[i][j];
-            int c = 0;
-            if (j - 1 >= 0 && hlink[i][j - 1]) c |= 1;
-            if (j + 1 < cols && hlink[i][j]) c |= 2;
-            if (i - 1 >= 0 && vlink[i - 1][j]) c |= 4;
-            if (i + 1 < rows && vlink[i][j]) c |= 8;
-            if (c <= 2 || c == 4 || c == 8) {
-                if (k == 0) os << "  ";
-                else os << std::setw(2) << k;
-            }
-            else {
-                os << connector[c];
-            }
-        }
-
-        os << " ┃\n";
-    }
-
-    os << "┗";
-    for (int j = 0; j < cols; ++j) {
-        os << "━━";
-    }
-    os << "━┛\n";
-}
-
-void Board::makeVerticalLinks() {
-    std::vector<std::vector<int> > degree(rows);
-    for (int i = 0; i < rows; ++i) {
-        degree[i].resize(cols);
-        for (int j = 0; j < cols; ++j) {
-            if (number[i][j]) ++degree[i][j];
-            if (j >= 1 && hlink[i][j - 1]) ++degree[i][j];
-            if (j + 1 < cols && hlink[i][j]) ++degree[i][j];
-        }
-    }
-
-    for (int i = 0; i < rows - 1; ++i) {
-        for (int j = 0; j < cols; ++j) {
-            if (degree[i][j] == 1) {
-                vlink[i][j] = true;
-                ++degree[i][j];
-                ++degree[i + 1][j];
-            }
-            else {
-                vlink[i][j] = false;
-            }
-        }
-    }
-}
-
-void Board::fillNumbers() {
-    for (int i = 0; i < rows; ++i) {
-        for (int j = 0; j < cols; ++j) {
-            fillNumbersFrom(i, j);
-        }
-    }
-}
-
-int Board::fillNumbersFrom(int i, int j) {
-    int& num = number[i][j];
-
-    if (num < 0) return 0;
-    if (num > 0) return num;
-
-    num = -1;
-
-    if (i - 1 >= 0 && vlink[i - 1][j]) {
-        num = fillNumbersFrom(i - 1, j);
-        if (num > 0) return num;
-    }
-
-    if (j - 1 >= 0 && hlink[i][j - 1]) {
-        num = fillNumbersFrom(i, j - 1);
-        if (num > 0) return num;
-    }
-
-    if (j < cols - 1 && hlink[i][j]) {
-        num = fillNumbersFrom(i, j + 1);
-        if (num > 0) return num;
-    }
-
-    if (i < rows - 1 && vlink[i][j]) {
-        num = fillNumbersFrom(i + 1, j);
-        if (num > 0) return num;
-    }
-
-    num = 0;
-    return num;
-}
+/*
+ * Copyright (c) 2014 Hiroaki Iwashita
+ *
+ * Permission is hereby granted, free of charge, to any person obtaining a
+ * copy of this software and associated documentation files (the "Software"),
+ * to deal in the Software without restriction, including without limitation
+ * the rights to use, copy, modify, merge, publish, distribute, sublicense,
+ * and/or sell copies of the Software, and to permit persons to whom the
+ * Software is furnished to do so, subject to the following conditions:
+ *
+ * The above copyright notice and this permission notice shall be included in
+ * all copies or substantial portions of the Software.
+ *
+ * THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
+ * IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
+ * FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
+ * AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
+ * LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING
+ * FROM, OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER
+ * DEALINGS IN THE SOFTWARE.
+ */
+
+#include "Board.hpp"
+
+#include <iomanip>
+#include <stdexcept>
+
+void Board::init() {
+    number.clear();
+    number.resize(rows);
+    for (int i = 0; i < rows; ++i) {
+        number[i].resize(cols);
+    }
+
+    hlink.clear();
+    hlink.resize(rows);
+    for (int i = 0; i < rows; ++i) {
+        hlink[i].resize(cols - 1);
+    }
+
+    vlink.clear();
+    vlink.resize(rows - 1);
+    for (int i = 0; i < rows - 1; ++i) {
+        vlink[i].resize(cols);
+    }
+}
+
+void Board::transpose() {
+    Board const old = *this;
+    std::swap(rows, cols);
+    init();
+
+    for (int i = 0; i < rows; ++i) {
+        for (int j = 0; j < cols; ++j) {
+            number[i][j] = old.number[j][i];
+            if (j + 1 < cols) hlink[i][j] = old.vlink[j][i];
+            if (i + 1 < rows) vlink[i][j] = old.hlink[j][i];
+        }
+    }
+}
+
+void Board::readNumbers(std::istream& is) {
+    int c;
+
+    for (;;) {
+        if (!is) throw std::runtime_error("format error");
+        while (isspace(c = is.get()))
+            ;
+        if (isdigit(c)) break;
+        while (is && (c = is.get()) != '\n')
+            ;
+    }
+    is.unget();
+    is >> cols;
+
+    while (isspace(c = is.get()))
+        ;
+    if (c == ',') {
+        rows = cols;
+        while (isspace(c = is.get()))
+            ;
+        if (!isdigit(c)) throw std::runtime_error("format error");
+        is.unget();
+        is >> cols;
+    }
+    else {
+        if (!isdigit(c)) throw std::runtime_error("format error");
+        is.unget();
+        is >> rows;
+    }
+
+    if (cols < 1 || rows < 1) throw std::runtime_error("illegal size");
+
+    init();
+
+    int i = -1;
+    int j = 0;
+
+    while (is) {
+        while (isspace(c = is.get())) {
+            if (c == '\n') ++i, j = 0;
+        }
+        if (!is) break;
+
+        if (i < 0 || i >= rows) continue;
+        if (j >= cols) continue;
+
+        if (isdigit(c)) {
+            is.unget();
+            int t;
+            is >> t;
+            number[i][j] = t;
+        }
+        ++j;
+    }
+}
+
+void Board::writeNumbers(std::ostream& os) const {
+    os << cols << " " << rows << "\n";
+
+    for (int i = 0; i < rows; ++i) {
+        for (int j = 0; j < cols; ++j) {
+            if (j != 0) os << " ";
+            os << number[i][j];
+        }
+        os << "\n";
+    }
+}
+
+void Board::printNumlin(std::ostream& os) const {
+    static char const* connector[] = {"  ", "  ", "  ", "──", "  ", "─┘", " └",
+                                      "─┴", "  ", "─┐", " ┌", "─┬", " │", "─┤",
+                                      " ├", "─┼"};
+    os << "┏";
+    for (int j = 0; j < cols; ++j) {
+        os << "━━";
+    }
+    os << "━┓\n";
+
+    for (int i = 0; i < rows; ++i) {
+        os << "┃";
+
+        for (int j = 0; j < cols; ++j) {
+            int k = number[i][j];
+            int c = 0;
+            if (j - 1 >= 0 && hlink[i][j - 1]) c |= 1;
+            if (j + 1 < cols && hlink[i][j]) c |= 2;
+            if (i - 1 >= 0 && vlink[i - 1][j]) c |= 4;
+            if (i + 1 < rows && vlink[i][j]) c |= 8;
+            if (c <= 2 || c == 4 || c == 8) {
+                if (k == 0) os << "  ";
+                else os << std::setw(2) << k;
+            }
+            else {
+                os << connector[c];
+            }
+        }
+
+        os << " ┃\n";
+    }
+
+    os << "┗";
+    for (int j = 0; j < cols; ++j) {
+        os << "━━";
+    }
+    os << "━┛\n";
+}
+
+void Board::makeVerticalLinks() {
+    std::vector<std::vector<int> > degree(rows);
+    for (int i = 0; i < rows; ++i) {
+        degree[i].resize(cols);
+        for (int j = 0; j < cols; ++j) {
+            if (number[i][j]) ++degree[i][j];
+            if (j >= 1 && hlink[i][j - 1]) ++degree[i][j];
+            if (j + 1 < cols && hlink[i][j]) ++degree[i][j];
+        }
+    }
+
+    for (int i = 0; i < rows - 1; ++i) {
+        for (int j = 0; j < cols; ++j) {
+            if (degree[i][j] == 1) {
+                vlink[i][j] = true;
+                ++degree[i][j];
+                ++degree[i + 1][j];
+            }
+            else {
+                vlink[i][j] = false;
+            }
+        }
+    }
+}
+
+void Board::fillNumbers() {
+    for (int i = 0; i < rows; ++i) {
+        for (int j = 0; j < cols; ++j) {
+            fillNumbersFrom(i, j);
+        }
+    }
+}
+
+int Board::fillNumbersFrom(int i, int j) {
+    int& num = number[i][j];
+
+    if (num < 0) return 0;
+    if (num > 0) return num;
+
+    num = -1;
+
+    if (i - 1 >= 0 && vlink[i - 1][j]) {
+        num = fillNumbersFrom(i - 1, j);
+        if (num > 0) return num;
+    }
+
+    if (j - 1 >= 0 && hlink[i][j - 1]) {
+        num = fillNumbersFrom(i, j - 1);
+        if (num > 0) return num;
+    }
+
+    if (j < cols - 1 && hlink[i][j]) {
+        num = fillNumbersFrom(i, j + 1);
+        if (num > 0) return num;
+    }
+
+    if (i < rows - 1 && vlink[i][j]) {
+        num = fillNumbersFrom(i + 1, j);
+        if (num > 0) return num;
+    }
+
+    num = 0;
+    return num;
+}
-- 
2.43.0


From 7ccf6ea679b9f1ec628a97c2327620152923d2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:44 +0000
Subject: [PATCH 34/39] fix: ddnumlin found no solution on boards with one
 column or one row

---
 apps/numberlink/ddnumlin.cpp | 401 ++++++++++++++++++-----------------
 1 file changed, 203 insertions(+), 198 deletions(-)

diff --git a/apps/numberlink/ddnumlin.cpp b/apps/numberlink/ddnumlin.cpp
index f653ed0..3a04677 100644
--- a/apps/numberlink/ddnumlin.cpp
+++ b/apps/numberlink/ddnumlin.cpp
@@ -1,198 +1,203 @@
-/*
- * Copyright (c) 2014 Hiroaki Iwashita
- *
- * Permission is hereby granted, free of charge, to any person obtaining a
- * copy of this software and associated documentation files (the "Software"),
- * to deal in the Software without restriction, including without limitation
- * the rights to use, copy, modify, merge, publish, distribute, sublicense,
- * and/or sell copies of the Software, and to permit persons to whom the
- * Software is furnished to do so, subject to the following conditions:
- *
- * The above copyright notice and this permission notice shall be included in
- * all copies or substantial portions of the Software.
- *
- * THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
- * IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
- * FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
- * AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
- * LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING
- * FROM, OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER
- * DEALINGS IN THE SOFTWARE.
- */
-
-#include <cerrno>
-#include <iostream>
-#include <map>
-#include <set>
-#include <stdexcept>
-
-#include <tdzdd/DdStructure.hpp>
-#include <tdzdd/DdSpecOp.hpp>
-#include "Board.hpp"
-#include "ConstraintZdd.hpp"
-#include "DegreeZdd.hpp"
-#include "NumlinZdd.hpp"
-
-using namespace tdzdd;
-
-std::string options[][2] = //
-        {{"k <n>", "Allow at most <n> blank boxes (default=infinity)"}, //
-         {"a", "Enumerate all solutions"}, //
-         {"p", "Use parallel processing"}, //
-         {"m <n>", "Output <n> solutions at most (default=10)"}};
-
-std::map<std::string,bool> opt;
-std::map<std::string,long> optNum;
-std::string infile;
-
-void usage(char const* cmd) {
-    std::cerr << "usage: " << cmd << " [ <option>... ] <input_file>\n";
-    std::cerr << "options\n";
-    for (unsigned i = 0; i < sizeof(options) / sizeof(options[0]); ++i) {
-        std::cerr << "  -" << options[i][0];
-        for (unsigned j = options[i][0].length(); j < 6; ++j) {
-            std::cerr << " ";
-        }
-        std::cerr << ": " << options[i][1] << "\n";
-    }
-    std::cerr << "\n";
-}
-
-void output(std::ostream& os, DdStructure<2> const& dd, Board const& quiz,
-        bool transposed) {
-    int top_level = quiz.rows * (quiz.cols - 1);
-    int count = 0;
-
-    for (DdStructure<2>::const_iterator edges = dd.begin();
-            edges != dd.end() && count <= optNum["m"]; ++edges) {
-        os << "#" << ++count << "\n";
-        Board answer = quiz;
-
-        for (int i = 0; i < quiz.rows; ++i) {
-            for (int j = 0; j < quiz.cols - 1; ++j) {
-                int level = top_level - i * (quiz.cols - 1) - j;
-                answer.hlink[i][j] = edges->count(level);
-            }
-        }
-
-        answer.makeVerticalLinks();
-
-        if (transposed) answer.transpose();
-        //answer.fillNumbers();
-        //answer.writeNumbers(os);
-        answer.printNumlin(os);
-        os << "\n";
-
-        if (count == optNum["m"]) break;
-    }
-
-    double n = dd.evaluate(ZddCardinality<double,2>()) - count;
-    if (n >= 1) {
-        os << "  .\n  .\n  .\n\n";
-        os << n << " more solution" << (n == 1 ? "" : "s") << "\n\n";
-    }
-}
-
-void run() {
-    MessageHandler mh;
-    Board quiz;
-
-    mh << "\nINPUT: " << infile << "\n";
-    if (infile == "-") {
-        quiz.readNumbers(std::cin);
-    }
-    else {
-        std::ifstream ifs(infile.c_str());
-        if (!ifs) throw std::runtime_error(strerror(errno));
-        quiz.readNumbers(ifs);
-    }
-
-    quiz.printNumlin(mh);
-
-    bool transposed = false;
-    if (quiz.rows < quiz.cols) {
-        mh << "\nThe board is transposed because it has more columns than rows.";
-        quiz.transpose();
-        transposed = true;
-    }
-
-    DdStructure<2> dd;
-    NumlinZdd numlin(quiz, optNum["k"]);
-
-    if (opt["a"]) {
-        DegreeZdd degree(quiz);
-        dd = DdStructure<2>(zddLookahead(degree), opt["p"]);
-        dd.zddReduce();
-        dd.zddSubset(zddLookahead(numlin));
-    }
-    else {
-        ConstraintZdd constraint(quiz);
-        dd = DdStructure<2>(zddLookahead(zddIntersection(constraint, numlin)),
-                opt["p"]);
-    }
-
-    dd.zddReduce();
-    mh << "\n#solution = " << dd.zddCardinality();
-
-    if (optNum["m"]) {
-        mh.begin("writing") << " ...\n";
-        output(std::cout, dd, quiz, transposed);
-        mh.end();
-    }
-}
-
-int main(int argc, char *argv[]) {
-    for (unsigned i = 0; i < sizeof(options) / sizeof(options[0]); ++i) {
-        opt[options[i][0]] = false;
-    }
-
-    try {
-        for (int i = 1; i < argc; ++i) {
-            std::string s = argv[i];
-            if (s[0] == '-' && s.size() >= 2) {
-                s = s.substr(1);
-                if (opt.count(s)) {
-                    opt[s] = true;
-                }
-                else if (i + 1 < argc && opt.count(s + " <n>")) {
-                    opt[s] = true;
-                    optNum[s] = std::strtol(argv[++i], 0, 0);
-                }
-                else {
-                    usage(argv[0]);
-                    return 1;
-                }
-            }
-            else if (infile.empty()) {
-                infile = argv[i];
-            }
-            else {
-                throw std::exception();
-            }
-        }
-
-        if (infile.empty()) throw std::exception();
-    }
-    catch (std::exception& e) {
-        usage(argv[0]);
-        return 1;
-    }
-
-    if (!opt["k"]) optNum["k"] = -1;
-    if (!opt["m"]) optNum["m"] = 10;
-
-    MessageHandler::showMessages();
-    MessageHandler mh;
-    mh.begin("started");
-
-    try {
-        run();
-    }
-    catch (std::exception& e) {
-        mh << e.what() << "\n";
-        return 1;
-    }
-
-    mh.end("finished");
-    return 0;
-}
+/*
+ * Copyright (c) 2014 Hiroaki Iwashita
+ *
+ * Permission is hereby granted, free of charge, to any person obtaining a
+ * copy of this software and associated documentation files (the "Software"),
+ * to deal in the Software without restriction, including without limitation
+ * the rights to use, copy, modify, merge, publish, distribute, sublicense,
+ * and/or sell copies of the Software, and to permit persons to whom the
+ * Software is furnished to do so, subject to the following conditions:
+ *
+ * The above copyright notice and this permission notice shall be included in
+ * all copies or substantial portions of the Software.
+ *
+ * THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
+ * IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
+ * FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
+ * AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
+ * LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING
+ * FROM, OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER
+ * DEALINGS IN THE SOFTWARE.
+ */
+
+#include <cerrno>
+#include <iostream>
+#include <map>
+#include <set>
+#include <stdexcept>
+
+#include <tdzdd/DdStructure.hpp>
+#include <tdzdd/DdSpecOp.hpp>
+#include "Board.hpp"
+#include "ConstraintZdd.hpp"
+#include "DegreeZdd.hpp"
+#include "NumlinZdd.hpp"
+
+using namespace tdzdd;
+
+std::string options[][2] = //
+        {{"k <n>", "Allow at most <n> blank boxes (default=infinity)"}, //
+         {"a", "Enumerate all solutions"}, //
+         {"p", "Use parallel processing"}, //
+         {"m <n>", "Output <n> solutions at most (default=10)"}};
+
+std::map<std::string,bool> opt;
+std::map<std::string,long> optNum;
+std::string infile;
+
+void usage(char const* cmd) {
+    std::cerr << "usage: " << cmd << " [ <option>... ] <input_file>\n";
+    std::cerr << "options\n";
+    for (unsigned i = 0; i < sizeof(options) / sizeof(options[0]); ++i) {
+        std::cerr << "  -" << options[i][0];
+        for (unsigned j = options[i][0].length(); j < 6; ++j) {
+            std::cerr << " ";
+        }
+        std::cerr << ": " << options[i][1] << "\n";
+    }
+    std::cerr << "\n";
+}
+
+void output(std::ostream& os, DdStructure<2> const& dd, Board const& quiz,
+        bool transposed) {
+    int top_level = quiz.rows * (quiz.cols - 1);
+    int count = 0;
+
+    for (DdStructure<2>::const_iterator edges = dd.begin();
+            edges != dd.end() && count <= optNum["m"]; ++edges) {
+        os << "#" << ++count << "\n";
+        Board answer = quiz;
+
+        for (int i = 0; i < quiz.rows; ++i) {
+            for (int j = 0; j < quiz.cols - 1; ++j) {
+                int level = top_level - i * (quiz.cols - 1) - j;
+                answer.hlink[i][j] = edges->count(level);
+            }
+        }
+
+        answer.makeVerticalLinks();
+
+        if (transposed) answer.transpose();
+        //answer.fillNumbers();
+        //answer.writeNumbers(os);
+        answer.printNumlin(os);
+        os << "\n";
+
+        if (count == optNum["m"]) break;
+    }
+
+    double n = dd.evaluate(ZddCardinality<double,2>()) - count;
+    if (n >= 1) {
+        os << "  .\n  .\n  .\n\n";
+        os << n << " more solution" << (n == 1 ? "" : "s") << "\n\n";
+    }
+}
+
+void run() {
+    MessageHandler mh;
+    Board quiz;
+
+    mh << "\nINPUT: " << infile << "\n";
+    if (infile == "-") {
+        quiz.readNumbers(std::cin);
+    }
+    else {
+        std::ifstream ifs(infile.c_str());
+        if (!ifs) throw std::runtime_error(strerror(errno));
+        quiz.readNumbers(ifs);
+    }
+
+    quiz.printNumlin(mh);
+
+    bool transposed = false;
+    if (quiz.cols == 1) { // the ZDD variables are horizontal links
+        mh << "\nThe board is transposed because it has only one column.";
+        quiz.transpose();
+        transposed = true;
+    }
+    else if (quiz.rows > 1 && quiz.rows < quiz.cols) {
+        mh << "\nThe board is transposed because it has more columns than rows.";
+        quiz.transpose();
+        transposed = true;
+    }
+
+    DdStructure<2> dd;
+    NumlinZdd numlin(quiz, optNum["k"]);
+
+    if (opt["a"]) {
+        DegreeZdd degree(quiz);
+        dd = DdStructure<2>(zddLookahead(degree), opt["p"]);
+        dd.zddReduce();
+        dd.zddSubset(zddLookahead(numlin));
+    }
+    else {
+        ConstraintZdd constraint(quiz);
+        dd = DdStructure<2>(zddLookahead(zddIntersection(constraint, numlin)),
+                opt["p"]);
+    }
+
+    dd.zddReduce();
+    mh << "\n#solution = " << dd.zddCardinality();
+
+    if (optNum["m"]) {
+        mh.begin("writing") << " ...\n";
+        output(std::cout, dd, quiz, transposed);
+        mh.end();
+    }
+}
+
+int main(int argc, char *argv[]) {
+    for (unsigned i = 0; i < sizeof(options) / sizeof(options[0]); ++i) {
+        opt[options[i][0]] = false;
+    }
+
+    try {
+        for (int i = 1; i < argc; ++i) {
+            std::string s = argv[i];
+            if (s[0] == '-' && s.size() >= 2) {
+                s = s.substr(1);
+                if (opt.count(s)) {
+                    opt[s] = true;
+                }
+                else if (i + 1 < argc && opt.count(s + " <n>")) {
+                    opt[s] = true;
+                    optNum[s] = std::strtol(argv[++i], 0, 0);
+                }
+                else {
+                    usage(argv[0]);
+                    return 1;
+                }
+            }
+            else if (infile.empty()) {
+                infile = argv[i];
+            }
+            else {
+                throw std::exception();
+            }
+        }
+
+        if (infile.empty()) throw std::exception();
+    }
+    catch (std::exception& e) {
+        usage(argv[0]);
+        return 1;
+    }
+
+    if (!opt["k"]) optNum["k"] = -1;
+    if (!opt["m"]) optNum["m"] = 10;
+
+    MessageHandler::showMessages();
+    MessageHandler mh;
+    mh.begin("started");
+
+    try {
+        run();
+    }
+    catch (std::exception& e) {
+        mh << e.what() << "\n";
+        return 1;
+    }
+
+    mh.end("finished");
+    return 0;
+}
-- 
2.43.0


From 99f85d6fbbbb120b812c1ede9f05635ce2dfc88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:24 +0000
Subject: [PATCH 35/39] fix: Board::fillNumbers did not terminate on linked
 cells without a number

---
 apps/numberlink/Board.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/apps/numberlink/Board.cpp b/apps/numberlink/Board.cpp
index ec6a73f..f8e60bc 100644
--- a/apps/numberlink/Board.cpp
+++ b/apps/numberlink/Board.cpp
@@ -208,23 +208,23 @@ int Board::fillNumbersFrom(int i, int j) {
     num = -1;
 
     if (i - 1 >= 0 && vlink[i - 1][j]) {
-        num = fillNumbersFrom(i - 1, j);
-        if (num > 0) return num;
+        int k = fillNumbersFrom(i - 1, j);
+        if (k > 0) return num = k;
     }
 
     if (j - 1 >= 0 && hlink[i][j - 1]) {
-        num = fillNumbersFrom(i, j - 1);
-        if (num > 0) return num;
+        int k = fillNumbersFrom(i, j - 1);
+        if (k > 0) return num = k;
     }
 
     if (j < cols - 1 && hlink[i][j]) {
-        num = fillNumbersFrom(i, j + 1);
-        if (num > 0) return num;
+        int k = fillNumbersFrom(i, j + 1);
+        if (k > 0) return num = k;
     }
 
     if (i < rows - 1 && vlink[i][j]) {
-        num = fillNumbersFrom(i + 1, j);
-        if (num > 0) return num;
+        int k = fillNumbersFrom(i + 1, j);
+        if (k > 0) return num = k;
     }
 
     num = 0;
-- 
2.43.0


From d85cd65f38bfaa2c5f0fd2bf50eb637e38d61cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:59 +0000
Subject: [PATCH 36/39] fix: CnfToBdd::badState read before the beginning of
 the clause set

---
 apps/cnfbdd/CnfToBdd.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/cnfbdd/CnfToBdd.cpp b/apps/cnfbdd/CnfToBdd.cpp
index 3109f36..55e97a7 100644
--- a/apps/cnfbdd/CnfToBdd.cpp
+++ b/apps/cnfbdd/CnfToBdd.cpp
@@ -484,7 +484,7 @@ bool CnfToBdd::badState(std::vector<uint16_t>& clauses, int level) const {
                 g = Cudd_NotCond(Cudd_E(g), Cudd_IsComplement(g));
                 if (Cudd_IsConstant(g)) return g == zero;
             }
-            while (int(*t) > Cudd_NodeReadIndex(g)) { // don't care
+            while (t != clauses.rend() && int(*t) > Cudd_NodeReadIndex(g)) { // don't care
                 ++t;
             }
         }
-- 
2.43.0


From 029e244c672f2825bb1a9613770e1113bceb53e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:59 +0000
Subject: [PATCH 37/39] fix: cnfbdd crashed when every clause is a tautology

---
 apps/cnfbdd/CnfToBdd.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/cnfbdd/CnfToBdd.cpp b/apps/cnfbdd/CnfToBdd.cpp
index 55e97a7..5199316 100644
--- a/apps/cnfbdd/CnfToBdd.cpp
+++ b/apps/cnfbdd/CnfToBdd.cpp
@@ -186,7 +186,7 @@ void CnfToBdd::prepare() {
     }
     std::sort(cp.begin(), cp.end(), ClauseCmpForRelaxing());
 
-    makeClauseMap(rev.data(), cp.data(), cp.data() + nc, 0);
+    if (nc > 0) makeClauseMap(rev.data(), cp.data(), cp.data() + nc, 0);
 }
 
 void CnfToBdd::makeClauseMap(Clause const* base, Clause const* const * from,
-- 
2.43.0


From 52d3222aaccee2b3f14835021ab48686def61497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:57:56 +0000
Subject: [PATCH 38/39] fix: the CNF readers used an uninitialized value at the
 end of the input

---
 apps/cnf2ztdd2bdd/CnfToZtdd.cpp | 2 +-
 apps/cnfbdd/CnfToBdd.cpp        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/cnf2ztdd2bdd/CnfToZtdd.cpp b/apps/cnf2ztdd2bdd/CnfToZtdd.cpp
index 3d49af1..8ded177 100644
--- a/apps/cnf2ztdd2bdd/CnfToZtdd.cpp
+++ b/apps/cnf2ztdd2bdd/CnfToZtdd.cpp
@@ -69,7 +69,7 @@ void CnfToZtdd::readDimacs(std::istream& is) {
     int mm = 0;
 
     while (is) {
-        int x;
+        int x = 0;
         is >> x;
 
         if (x == 0) {
diff --git a/apps/cnfbdd/CnfToBdd.cpp b/apps/cnfbdd/CnfToBdd.cpp
index 5199316..44a0ee6 100644
--- a/apps/cnfbdd/CnfToBdd.cpp
+++ b/apps/cnfbdd/CnfToBdd.cpp
@@ -44,7 +44,7 @@ void CnfToBdd::readDimacs(std::istream& is) {
     int mm = 0;
 
     while (is) {
-        int x;
+        int x = 0;
         is >> x;
 
         if (x == 0) {
-- 
2.43.0


From 38a63a890f03ba7baa663feb639515fd8de61586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:24 +0000
Subject: [PATCH 39/39] fix: ToBDD called SAPPOROBDD from several threads

---
 include/tdzdd/eval/ToBDD.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/tdzdd/eval/ToBDD.hpp b/include/tdzdd/eval/ToBDD.hpp
index 9039688..453003e 100644
--- a/include/tdzdd/eval/ToBDD.hpp
+++ b/include/tdzdd/eval/ToBDD.hpp
@@ -51,6 +51,10 @@ public:
             : offset(offset) {
     }
 
+    bool isThreadSafe() const {
+        return false;
+    }
+
     void initialize(int topLevel) const {
         while (BDD_VarUsed() < topLevel + offset) {
             BDD_NewVar();
-- 
2.43.0

