From 3a6ec03f9c9196c3f5079f719dece82045b732fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:34 +0000
Subject: [PATCH 01/25] fix: requeue the branch-and-bound node when the relaxed
 cutset is the root itself

The width was increased but the node was dropped, because cloneNode returns
nothing for a state the pool already holds. The subproblem was never solved.
---
 src/search.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/search.cpp b/src/search.cpp
index a06a2aa..f06b52e 100644
--- a/src/search.cpp
+++ b/src/search.cpp
@@ -160,7 +160,7 @@ void BAndB::search(Bounds& bnds)
                }
                assert(n->isExact());
                if (!newGuyDominated) {
-                  auto nd = bbPool->cloneNode(n);
+                  auto nd = (n == relaxed->getRoot()) ? bbn.node : bbPool->cloneNode(n); // the root is already in the pool: requeue it
                   
                   //std::cout << "CLONED and got:"  << nd << "\n";
                   
-- 
2.43.0


From 03df43d61b2a07b1b33a35ba9e5005a5d62c23ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:34 +0000
Subject: [PATCH 02/25] fix: explore a branch-and-bound state again when it is
 reached with a better bound

The node allocator dropped every state it had seen before, even when the new
path to it was better than the recorded one; the optimum could be missed.
---
 src/dd.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/dd.hpp b/src/dd.hpp
index 40191f2..a806a3c 100644
--- a/src/dd.hpp
+++ b/src/dd.hpp
@@ -344,7 +344,7 @@ struct Maximize {
 };
 
 
-template <typename ST> requires Printable<ST> && Hashable<ST>
+template <typename ST,class Compare = Minimize<double>> requires Printable<ST> && Hashable<ST>
 class DDNodeAllocator :public AbstractNodeAllocator {
    LHashtable<ST> _nmap;
 public:
@@ -365,6 +365,9 @@ public:
             _nmap.safeInsertAt(inMap,nn);
             return nn;
          }
+      } else if (Compare{}.better(sp->getBound(),at->getBound())) {
+         at->resetWith(sp); // same state, reached by a better path: it must be explored again
+         return at;
       } else {
          //std::cout << "Already added node to B&B...." << "\n";         
          return nullptr;
@@ -573,7 +576,7 @@ public:
       return AbstractDD::Ptr(new DD(std::forward<Args>(args)...));
    }
    AbstractNodeAllocator::Ptr makeNDAllocator() const noexcept {
-      return std::shared_ptr<DDNodeAllocator<ST>>(new DDNodeAllocator<ST>(new LPool(new Pool)));
+      return std::shared_ptr<DDNodeAllocator<ST,Compare>>(new DDNodeAllocator<ST,Compare>(new LPool(new Pool)));
    }
    void printNode(std::ostream& os,ANode::Ptr n) const {
       auto sp = static_cast<const Node<ST>*>(n.get());
-- 
2.43.0


From 81f52d5c49cb4c3212f7f6460326a8d708a34d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:34 +0000
Subject: [PATCH 03/25] fix: the cutset must cover arcs from an exact node into
 an inexact sink

A node whose only inexact child is the sink was expanded past, so solutions
that reach the sink through exact nodes only were in no subproblem.
---
 src/dd.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/dd.cpp b/src/dd.cpp
index f0f42a7..bc12cb1 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -757,7 +757,6 @@ std::vector<ANode::Ptr> Relaxed::computeCutSet()
       if (cur->isExact()) {
          bool akExact = true;
          for(auto ki = cur->beginKids(); akExact && ki != cur->endKids();ki++) {
-            if ((*ki)->_to->getId() == _dd->_trg->getId()) continue;
             akExact = (*ki)->_to->isExact();
             // if (akExact == false) {
             //    std::cout << "SINK:";
-- 
2.43.0


From 1d33b443e61ce9ccf152632c7214fb6763fda9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:34 +0000
Subject: [PATCH 04/25] fix: never replace the sink by a dominating node

The first arc into the sink looks like the creation of a new node; when a
queued node dominated it, the node list lost an unrelated node (crash later on).
---
 src/dd.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dd.cpp b/src/dd.cpp
index bc12cb1..1082050 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -423,7 +423,7 @@ void Restricted::compute(Bounds& bnds)
                bool newNode = child->nbParents()==0; // is this a newly created node?
                auto theCost = _dd->cost(p,l);
                auto ep = p->getBound() + theCost;
-               if (hasDom && newNode) {
+               if (hasDom && newNode && child != _dd->_trg) {
                   auto dominator = checkDominance(qn,child,ep);
                   if (dominator) {
                      _dd->_an.pop_back();
@@ -702,7 +702,7 @@ void Relaxed::compute(Bounds& bnds)
                bool newNode = child->nbParents()==0; // is this a newly created node?
                auto theCost = _dd->cost(p,l);
                auto ep = p->getBound() + theCost;
-               if (hasDom && newNode) {
+               if (hasDom && newNode && child != _dd->_trg) {
                   auto dominator = qn.checkDominance(child,ep);
                   if (dominator) {
                      // ANode::Ptr justAdded = _dd->_an.back();
-- 
2.43.0


From 4c83b349a7fba07e13494abe763d3e191c7de2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:31 +0000
Subject: [PATCH 05/25] fix: report the time limit even when it strikes on the
 last open node

The node had already left the queue, so the final line said LIM?:0 (proof
completed) although the node was not explored.
---
 src/search.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/search.cpp b/src/search.cpp
index f06b52e..b72b7c7 100644
--- a/src/search.cpp
+++ b/src/search.cpp
@@ -53,7 +53,7 @@ void BAndB::search(Bounds& bnds)
       pq.insertHeap(QNode { rootNode, relaxed->initialWorst() } );   
    }
    unsigned nNode = 0,ttlNode = 0,insDom=0,pruned=0;
-   bool primalBetter = false;
+   bool primalBetter = false,limited = false;
    cout << "B&B Nodes          " << setw(6) << "Dual\t " << setw(6) << "Primal\t Gap(%)\n";
    cout << "----------------------------------------------\n";
    while(!pq.empty()) {
@@ -72,8 +72,10 @@ void BAndB::search(Bounds& bnds)
       auto now = RuntimeMonitor::cputime();
       auto fs = RuntimeMonitor::elapsedMilliseconds(start,now);
       auto fl = RuntimeMonitor::elapsedMilliseconds(last,now);
-      if (_timeLimit && _timeLimit(fs))         
-         break;      
+      if (_timeLimit && _timeLimit(fs)) {
+         limited = true; // bbn (and whatever is left in the queue) is not explored.
+         break;
+      }
       if (primalBetter || fl > 5000) {
          double gap = 100 * std::abs(bnds.getPrimal() - curDual) / bnds.getPrimal();      
          cout << std::fixed << "B&B(" << setw(5) << nNode << ")\t " << setprecision(6);
@@ -192,7 +194,7 @@ void BAndB::search(Bounds& bnds)
    cout << "Done(" << _mxw << "):" << bnds.getPrimal() << "\t #nodes:" <<  nNode << "/" << ttlNode
         << "\t P/D:" << pruned << "/" << insDom
         << "\t Time:" << optTime/1000 << "/" << spent/1000 << "s"
-        << "\t LIM?:" << (pq.size() > 0)
+        << "\t LIM?:" << limited
         << "\t Seen:" << nbSeen
         << "\n";
 }
-- 
2.43.0


From fa451005fae873a8ced6668272df03d6dc22a22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:31 +0000
Subject: [PATCH 06/25] fix: a Bounds object can be searched with twice

The solution callback that search registers captured a local variable by
reference; it stays registered after search returns, and a second search with
the same Bounds wrote into a dead stack frame.
---
 src/search.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/search.cpp b/src/search.cpp
index b72b7c7..0478340 100644
--- a/src/search.cpp
+++ b/src/search.cpp
@@ -28,10 +28,10 @@ void BAndB::search(Bounds& bnds)
    auto last = start;
    cout << "B&B searching..." << endl;
    bnds.attach(_theDD);
-   double optTime = 0.0;
-   bnds.onSolution([ss,start,&optTime](const auto& lbls) {
-      optTime = RuntimeMonitor::elapsedSince(start);
-      std::cout << "TIME:" << setprecision(ss) << optTime << "\n";
+   auto optTime = std::make_shared<double>(0.0); // shared: the callback outlives this call inside bnds
+   bnds.onSolution([ss,start,optTime](const auto& lbls) {
+      *optTime = RuntimeMonitor::elapsedSince(start);
+      std::cout << "TIME:" << setprecision(ss) << *optTime << "\n";
    });
    AbstractDD::Ptr relaxed = _theDD->duplicate();
    AbstractDD::Ptr restricted = _theDD->duplicate();
@@ -193,7 +193,7 @@ void BAndB::search(Bounds& bnds)
    auto spent = RuntimeMonitor::elapsedSince(start);
    cout << "Done(" << _mxw << "):" << bnds.getPrimal() << "\t #nodes:" <<  nNode << "/" << ttlNode
         << "\t P/D:" << pruned << "/" << insDom
-        << "\t Time:" << optTime/1000 << "/" << spent/1000 << "s"
+        << "\t Time:" << *optTime/1000 << "/" << spent/1000 << "s"
         << "\t LIM?:" << limited
         << "\t Seen:" << nbSeen
         << "\n";
-- 
2.43.0


From b4fce5f1f9a11eaed388d74b2cd40a6d9fa31d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:31 +0000
Subject: [PATCH 07/25] fix: NatSet subtraction (ofs - S) loses or corrupts
 elements

When the result moves up by whole words the loop cleared words that it still had
to read and could write past the array; a shift by 63 dropped the bits coming
from the next word (the mask was computed with a shift by 64).
---
 src/util.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/util.hpp b/src/util.hpp
index 1a7341e..0960ca5 100644
--- a/src/util.hpp
+++ b/src/util.hpp
@@ -210,7 +210,7 @@ public:
          //std::cout << "MOVE Down=" << x << " lw:" << lw << "\n";
          unsigned long long nt[nbw] = {0}; 
          for(int i=0;i <= std::min(lw,nbw-1);i++) {
-            auto next =  (i+1==nbw) ? 0 : _t[i+1] & ((1ull << (x+1))-1); // get the next block to inject here.
+            auto next =  (i+1==nbw) ? 0 : _t[i+1]; // get the next block to inject here.
             nt[i] = (_t[i] >> x) | (next << (64 - x));
          }
          for(int i=0;i < nbw;i++) _t[i] = nt[i];         
@@ -226,9 +226,9 @@ public:
             assert(lw < nbw); // by definition, it's at most the index of the last word (1 less than size)
             unsigned long long nt[nbw] = {0}; 
             for(int i=0;i <= lw;i++) {
-               auto next = (i+1==nbw) ? 0 : _t[i+1] & ((1ull << (by+1))-1);
+               if (i+delta >= nbw) break;  // only 0 bits left (the result fits in nbw words)
+               auto next = (i+1==nbw) ? 0 : _t[i+1];
                nt[i+delta] = (_t[i] >> by) | (next << (64 - by));
-               for(int j=i;j < i+delta;j++) _t[j] = 0;
             }
             for(int i=0;i < nbw;i++) _t[i] = nt[i];
          } else if (by < 0) {
-- 
2.43.0


From cbafc1b42fb71eb7437b98bdec55807369c96897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:05 +0000
Subject: [PATCH 08/25] fix: equal GNSet values must have equal hash values

Two equal sets stored on a different number of words hashed differently, so a
state holding a GNSet was not recognised as already present in a diagram.
---
 src/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.hpp b/src/util.hpp
index 0960ca5..bf52cca 100644
--- a/src/util.hpp
+++ b/src/util.hpp
@@ -738,7 +738,7 @@ public:
   }
    std::size_t hash() const noexcept {
       std::size_t hv = 0;
-      for(auto i = 0;i < _mxw;i++)
+      for(int i = _mxw-1;i >= 0;i--) // high to low: trailing empty words do not contribute
          hv = std::rotl(hv,2) ^ _t[i];
       return hv;
    }   
-- 
2.43.0


From 59fc286f2326604c7d0a28f9ff2957f0dbd2f4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:05 +0000
Subject: [PATCH 09/25] fix: GNSet::insert never returns on a set without
 storage

GNSet(1,0), GNSet(0), an empty range, ... have no words and doubling 0 loops forever.
---
 src/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.hpp b/src/util.hpp
index bf52cca..8b072cd 100644
--- a/src/util.hpp
+++ b/src/util.hpp
@@ -546,7 +546,7 @@ public:
       const int i = p >> 6;
       const auto old = _mxw;
       if (i >= _mxw) {
-         while(i >= _mxw) _mxw <<= 1;
+         while(i >= _mxw) _mxw = _mxw ? _mxw << 1 : 1;
          auto np = new unsigned long long[_mxw];
          for(int i=0;i < old;i++)
             np[i] = _t[i];
-- 
2.43.0


From 1f865950375baf56d285ab2a0cebaf66597f3a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:05 +0000
Subject: [PATCH 10/25] fix: GNSet::removeAbove keeps values or writes out of
 bounds

The early exit used the largest inserted value, which unions do not maintain,
and the boundary p+1 == 64*nbWords() was not caught.
---
 src/util.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util.hpp b/src/util.hpp
index 8b072cd..61b03c5 100644
--- a/src/util.hpp
+++ b/src/util.hpp
@@ -609,8 +609,8 @@ public:
    }
    void removeAbove(int p) noexcept {
       int w = ++p >> 6;
-      if (p > _nbp) return;
-      assert(w >= 0 && w < _mxw);
+      if (w >= _mxw) return; // nothing stored that high
+      assert(w >= 0);
       const int b = p & 63;
       _t[w] = _t[w] & ((1ull << b) - 1);
       w++;
-- 
2.43.0


From fd240b2e8f14f969ec6733545cb84cf257f92a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:05 +0000
Subject: [PATCH 11/25] fix: set iterators truncate values from 32768 on to
 negative numbers

---
 src/util.hpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/util.hpp b/src/util.hpp
index 61b03c5..4154404 100644
--- a/src/util.hpp
+++ b/src/util.hpp
@@ -328,10 +328,10 @@ public:
       iterator(const unsigned long long* t) : _t(t),_cwi(nbw),_cw(0) {} // end constructor
    public:
       using iterator_category = std::forward_iterator_tag;
-      using value_type = short;
+      using value_type = int;
       using difference_type = short;
-      using pointer = short*;
-      using reference = short&;
+      using pointer = int*;
+      using reference = int&;
       iterator& operator++()  noexcept {
          assert(_cwi >= nbw || _cw <= _t[_cwi]);
          long long test = _cw & -_cw;  // only leaves LSB at 1
@@ -345,7 +345,7 @@ public:
       iterator operator++(int) { iterator retval = *this; ++(*this); return retval;}
       bool operator==(iterator other) const {return _cwi == other._cwi && _cw == other._cw;}
       bool operator!=(iterator other) const {return !(*this == other);}
-      short operator*() const   { return (_cwi<<6) + __builtin_ctzl(_cw);}
+      int operator*() const   { return (_cwi<<6) + __builtin_ctzl(_cw);}
       friend class NatSet;
    };
    class citerator { 
@@ -361,10 +361,10 @@ public:
       citerator(const unsigned long long* t) : _t(t),_cwi(nbw),_cw(0) {} // end constructor
    public:
       using iterator_category = std::forward_iterator_tag;
-      using value_type = short;
+      using value_type = int;
       using difference_type = short;
-      using pointer = short*;
-      using reference = short&;
+      using pointer = int*;
+      using reference = int&;
       citerator& operator++()  noexcept {
          long long test = _cw & -_cw;  // only leaves LSB at 1
          _cw ^= test;                  // clear LSB
@@ -375,7 +375,7 @@ public:
       citerator operator++(int) { citerator retval = *this; ++(*this); return retval;}
       bool operator==(citerator other) const {return _cwi == other._cwi && _cw == other._cw;}
       bool operator!=(citerator other) const {return !(*this == other);}
-      short operator*() const   { return (_cwi<<6) + __builtin_ctzl(_cw);}
+      int operator*() const   { return (_cwi<<6) + __builtin_ctzl(_cw);}
       friend class NatSet;
    };
    iterator begin() const { return iterator(_t,0);}
@@ -656,10 +656,10 @@ public:
       }
    public:
       using iterator_category = std::forward_iterator_tag;
-      using value_type = short;
+      using value_type = int;
       using difference_type = short;
-      using pointer = short*;
-      using reference = short&;
+      using pointer = int*;
+      using reference = int&;
       iterator& operator++()  noexcept {
          long long test = _cw & -_cw;  // only leaves LSB at 1
          _cw ^= test;                  // clear LSB
@@ -670,7 +670,7 @@ public:
       iterator operator++(int) { iterator retval = *this; ++(*this); return retval;}
       bool operator==(iterator other) const {return _cwi == other._cwi && _cw == other._cw;}
       bool operator!=(iterator other) const {return !(*this == other);}
-      short operator*() const   { return (_cwi<<6) + __builtin_ctzl(_cw);}
+      int operator*() const   { return (_cwi<<6) + __builtin_ctzl(_cw);}
       friend class GNSet;
    };
    iterator begin() const { return iterator(_t,_mxw,0);}
-- 
2.43.0


From b1c94a2c1f493ee2195865f65fcafc0aff535cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:05 +0000
Subject: [PATCH 12/25] fix: a moved-from GNSet or FArray must be empty, not a
 size without storage

Assigning a value of the same size to it wrote through a null pointer.
---
 src/util.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/util.hpp b/src/util.hpp
index 4154404..9f0ae07 100644
--- a/src/util.hpp
+++ b/src/util.hpp
@@ -441,7 +441,8 @@ public:
       _mxw = s._mxw;
       _nbp = s._nbp;
       _t = s._t;
-      s._t = nullptr;      
+      s._t = nullptr;
+      s._mxw = s._nbp = 0;
    }
    template <unsigned short nbw> GNSet(const NatSet<nbw>& s) {     
       _mxw = nbw;
@@ -521,6 +522,7 @@ public:
       _nbp = s._nbp;
       _t = s._t;
       s._t = nullptr;
+      s._mxw = s._nbp = 0;
       return *this;
    }
    short nbWords() const noexcept { return _mxw;}
@@ -931,6 +933,7 @@ public:
    }
    FArray(FArray&& t) : _tab(t._tab),_mx(t._mx) {
       t._tab = nullptr;
+      t._mx = 0;
    }
    ~FArray() { if (_tab) delete[] _tab;}
    FArray& operator=(const FArray& t) {
@@ -948,6 +951,7 @@ public:
       _mx = a._mx;
       _tab = a._tab;
       a._tab = nullptr;
+      a._mx = 0;
       return *this;
    }
    std::size_t size() const noexcept { return _mx;}
-- 
2.43.0


From 67fa82199325fffdf646dcd7e8f2866d7b6ce0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:05 +0000
Subject: [PATCH 13/25] fix: a moved-from Vec must not share its storage with
 the new owner

---
 src/vec.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vec.hpp b/src/vec.hpp
index 25efaf2..15fb5d4 100644
--- a/src/vec.hpp
+++ b/src/vec.hpp
@@ -88,7 +88,10 @@ public:
    Vec(Vec&& v)
       : _mem(v._mem),_sz(v._sz),_msz(v._msz),
         _data(std::move(v._data))
-   {}
+   {
+      v._data = nullptr;
+      v._sz = v._msz = 0;
+   }
    ~Vec() {}
    Vec& operator=(const Vec& v) {
       if (_msz < v._msz) {
-- 
2.43.0


From ae3c43e8ec326b866d8bb7b1e641a40e86886e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:44 +0000
Subject: [PATCH 14/25] fix: Range::contains must agree with the values the
 range enumerates

The upper end, which is excluded, was reported as contained, and a descending
range contained nothing.
---
 src/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.hpp b/src/util.hpp
index 9f0ae07..90f421e 100644
--- a/src/util.hpp
+++ b/src/util.hpp
@@ -100,7 +100,7 @@ public:
    Range(int f,int t) : _from(f),_to(t) {}
    Range(Range&& r) : _from(r._from),_to(r._to) {}
    Range(const Range& r) : _from(r._from),_to(r._to) {}
-   bool contains(int p) const noexcept { return _from <= p && p <= _to;}
+   bool contains(int p) const noexcept { return (_from <= _to) ? (_from <= p && p < _to) : (_to < p && p <= _from);}
    int size() const noexcept { return (_to >= _from) ? _to - _from : _from - _to;}
    auto largest() const noexcept { return (_to >= _from) ? _to : _from;}
    auto from() const noexcept  { return _from;}
-- 
2.43.0


From 55f0c6a53cb4fea589b64d9e92b8cb3a2938891a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:44 +0000
Subject: [PATCH 15/25] fix: revBitsOfWord leaves the last byte uninitialised

---
 src/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.hpp b/src/util.hpp
index 90f421e..fb98ff5 100644
--- a/src/util.hpp
+++ b/src/util.hpp
@@ -56,7 +56,7 @@ namespace std {
       unsigned long long out;
       unsigned char* sw = (unsigned char*)&w;
       unsigned char* dw = (unsigned char*)&out;
-      for(int i=0;i < 7;i++)
+      for(int i=0;i < 8;i++)
          dw[i] = revBitsOfByte(sw[7-i]);
       return out;
    }
-- 
2.43.0


From 460f4bbf7bf2d2f30782262736a872f7a0123777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:44 +0000
Subject: [PATCH 16/25] fix: hash tables of requested size 0 or 1 read outside
 the table of primes

---
 src/hashtable.hpp | 4 +++-
 src/lighthash.hpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/hashtable.hpp b/src/hashtable.hpp
index cf5e39a..96dffa8 100644
--- a/src/hashtable.hpp
+++ b/src/hashtable.hpp
@@ -58,8 +58,10 @@ public:
       std::size_t low=0,up = tsz - 1;
       while (low <= up) {
          int m = (low + up)/2;
-         if (sz < _primes[m])
+         if (sz < _primes[m]) {
+            if (m == 0) break; // smaller than the smallest prime
             up = m - 1;
+         }
          else if (sz > _primes[m])
             low = m + 1;
          else {
diff --git a/src/lighthash.hpp b/src/lighthash.hpp
index a7091e1..c26418c 100644
--- a/src/lighthash.hpp
+++ b/src/lighthash.hpp
@@ -58,8 +58,10 @@ public:
       std::size_t low=0,up = tsz - 1;
       while (low <= up) {
          int m = (low + up)/2;
-         if (sz < _primes[m])
+         if (sz < _primes[m]) {
+            if (m == 0) break; // smaller than the smallest prime
             up = m - 1;
+         }
          else if (sz > _primes[m])
             low = m + 1;
          else {
-- 
2.43.0


From 2aa754ca2e94e3f2e2417711f835bf6771514c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:44 +0000
Subject: [PATCH 17/25] fix: UnionFind::merge returns the representative of the
 merged set

---
 src/uf.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/uf.hpp b/src/uf.hpp
index 5e3d109..42709ce 100644
--- a/src/uf.hpp
+++ b/src/uf.hpp
@@ -51,11 +51,12 @@ public:
       if (r0->_sz > r1->_sz) {
          r1->_parent = r0;
          r0->_sz += r1->_sz;
+         return r0;
       } else {
          r0->_parent = r1;
          r1->_sz += r0->_sz;
+         return r1;
       }
-      return r0;
    }   
    friend std::ostream& operator<<(std::ostream& os,const Node::Ptr& v) {
       std::shared_ptr<Node> c = v;
-- 
2.43.0


From 7c2a127c46e25bafdcb68c404fbe21225ca8c5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:13 +0000
Subject: [PATCH 18/25] fix: the exact diagram is complete when the model has a
 local bound

Nodes kept the initial (infinite) bound while the diagram was built, so with a
local bound function the transitions out of every node but the root were pruned.
---
 src/dd.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dd.cpp b/src/dd.cpp
index 1082050..d2871de 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -323,6 +323,9 @@ void Exact::compute(Bounds& bnds)
             Edge::Ptr e = new (_dd->_mem) Edge(p,child,l);
             e->_obj = theCost;
             _dd->addArc(e); // connect to new node
+            const auto ep = p->getBound() + theCost;
+            if (_dd->isBetter(ep,child->getBound()))
+               child->setBound(ep); // transition uses the bound of its source (with a local bound)
             if (!_dd->eqSink(child)) {
                if (newNode)
                   qn.enQueue(child);
-- 
2.43.0


From fac7c93e550dfd0c233c7753519f95735b416532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:04 +0000
Subject: [PATCH 19/25] fix: record the best path of a relaxed diagram whose
 sink is exact

When merging happened but no path through an inexact node reaches the sink, the
cutset only covers the arcs into inexact nodes; the exact paths to the sink were
neither covered by the cutset nor recorded, so the optimum could be lost.
---
 src/dd.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dd.hpp b/src/dd.hpp
index a806a3c..f7e789c 100644
--- a/src/dd.hpp
+++ b/src/dd.hpp
@@ -434,7 +434,7 @@ private:
          bnds.setIncumbent(_trg->beginOptLabels(),_trg->endOptLabels());
          std::cout <<  std::setprecision(6) << "P TIGHTEN: " << bnds << "\n";
       }
-      else if (_strat->dual() && _exact) {
+      else if (_strat->dual() && (_exact || _trg->isExact())) { // an exact sink has a feasible best path, which no cutset node need cover
          bnds.setPrimal(DD::better(_trg->getBound(),bnds.getPrimal()));
          bnds.setIncumbent(_trg->beginOptLabels(),_trg->endOptLabels());
          std::cout <<  std::setprecision(6) << "D TIGHTEN: " << bnds << "\n";
-- 
2.43.0


From eca69d4e6885f0a746ac07328b78d5f7e99ccecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:58 +0000
Subject: [PATCH 20/25] fix: a state that was dominated earlier can be the
 result of a merge

Its node is left in the node table with a stale layer, so the merge was refused
and the relaxed layer stayed wider than the requested width.
---
 src/dd.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dd.hpp b/src/dd.hpp
index f7e789c..fec45d1 100644
--- a/src/dd.hpp
+++ b/src/dd.hpp
@@ -526,7 +526,9 @@ private:
          // std::cout << "Merge\n";
          // std::cout << "\tF:";printNode(std::cout,f);std::cout<<"\n";
          // std::cout << "\tS:";printNode(std::cout,s);std::cout<<"\n";         
-         if (inMap && inMap->getLayer() < std::max(fp->getLayer(),sp->getLayer()))
+         // a node without parents (dominated or merged away) is not in the diagram: its layer is stale
+         const bool inUse = inMap && (inMap->nbParents() > 0 || inMap == _root || inMap == _trg);
+         if (inUse && inMap->getLayer() < std::max(fp->getLayer(),sp->getLayer()))
             return nullptr;
          ANode::Ptr rv = makeNode(std::move(vs.value()));
          if (isBetter(fp->getBound(),rv->getBound())) {
-- 
2.43.0


From c0875ce85d6f25b00cf61662f54916ee0112e4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:27 +0000
Subject: [PATCH 21/25] fix: GNSet: iterating over a copy of a set without
 storage must end

A copy of a set with no words has a non-null _t: begin() then skipped past end().
---
 src/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.hpp b/src/util.hpp
index fb98ff5..6ac4636 100644
--- a/src/util.hpp
+++ b/src/util.hpp
@@ -644,7 +644,7 @@ public:
       unsigned long long    _cw; // current word
       iterator(unsigned long long* t,unsigned short nbw,unsigned short at)
          : _t(t),_nbw(nbw),_cwi(at),_cw((at < nbw) ? t[at] : 0) {
-         while (_cw == 0 && _t && ++_cwi < _nbw) 
+         while (_cw == 0 && _cwi < _nbw && ++_cwi < _nbw) 
             _cw = _t[_cwi];         
       }
       iterator(unsigned long long* t,unsigned short nbw)
-- 
2.43.0


From 6a74e012f5d3def8eb006b6307af7bddd0f5b1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:34 +0000
Subject: [PATCH 22/25] fix: CQueue of initial size 0 must not share a location
 between two slots

---
 src/queue.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/queue.hpp b/src/queue.hpp
index bdfaef5..26a3c54 100644
--- a/src/queue.hpp
+++ b/src/queue.hpp
@@ -74,7 +74,7 @@ template <typename T> class CQueue  {
    }
 public:
    CQueue(int sz = 32) : _mxSeg(8),_nbs(1) {
-      _mxs = 1;
+      _mxs = 2; // one slot is always left free
       while (_mxs <= sz) _mxs <<= 1; // mxs must be a power of 2.
       _locs = new Location<T>[_mxs];
       _vlocs = new Location<T>*[_mxSeg];
-- 
2.43.0


From 285630504c5b47e2c7b73b1b239a0c9b99d37a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:54 +0000
Subject: [PATCH 23/25] fix: a search gives back the nodes and strategies it
 allocates

Each call of BAndB::search left behind the pool of its queue nodes (8 MB and
more, plus what the states own) and its two strategies.
---
 src/dd.hpp     | 7 +++++++
 src/search.cpp | 8 +++++---
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/dd.hpp b/src/dd.hpp
index fec45d1..70f4682 100644
--- a/src/dd.hpp
+++ b/src/dd.hpp
@@ -349,6 +349,13 @@ class DDNodeAllocator :public AbstractNodeAllocator {
    LHashtable<ST> _nmap;
 public:
    DDNodeAllocator(LPool::Ptr pool) : AbstractNodeAllocator(pool),_nmap(pool->get(),200000) {}
+   ~DDNodeAllocator() { // the nodes live (and die) with their allocator
+      _nmap.doOnAll([](Node<ST>* np) {
+         np->~Node<ST>();
+      });
+      delete _base->get();
+      delete _base;
+   }
    ANode::Ptr cloneNode(ANode::Ptr src) override {
       auto sp = static_cast<const Node<ST>*>(src.get());
       Node<ST>* at = nullptr;
diff --git a/src/search.cpp b/src/search.cpp
index 0478340..b3d6adb 100644
--- a/src/search.cpp
+++ b/src/search.cpp
@@ -35,10 +35,12 @@ void BAndB::search(Bounds& bnds)
    });
    AbstractDD::Ptr relaxed = _theDD->duplicate();
    AbstractDD::Ptr restricted = _theDD->duplicate();
-   WidthBounded* ddr[2];
+   Relaxed    relaxedStrat(_mxw);
+   Restricted restrictedStrat(_mxw);
+   WidthBounded* ddr[2] = {&relaxedStrat,&restrictedStrat};
    //_theDD->setStrategy(new Exact);
-   relaxed->setStrategy(ddr[0] = new Relaxed(_mxw));
-   restricted->setStrategy(ddr[1] = new Restricted(_mxw));
+   relaxed->setStrategy(ddr[0]);
+   restricted->setStrategy(ddr[1]);
    auto hOrder = [relaxed](const QNode& a,const QNode& b) {
       return relaxed->isBetter(a.bound,b.bound);
    };
-- 
2.43.0


From 391af46b72ebf42cc0067ff73e6ea128d89b005e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:48 +0000
Subject: [PATCH 24/25] fix: display must not let its children go on as copies
 of the program when dot or open is missing

---
 src/dd.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/dd.cpp b/src/dd.cpp
index d2871de..34fe1e1 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -182,15 +182,17 @@ void AbstractDD::display()
    out.close();
    pid_t child = fork();
    if (child == 0) {
-      int st = execlp("dot","dot","-Tpdf","-O",buf,NULL);
-      printf("execl status: %d\n",st);
+      execlp("dot","dot","-Tpdf","-O",buf,NULL);
+      perror("dot");
+      _exit(127); // only the caller goes on
    }
    int st = 0;
    waitpid(child,&st,0);
    child = fork();
    if (child == 0) {
       execlp("open","open",base.c_str(),NULL);
-      printf("execl2 status: %d\n",st);
+      perror("open");
+      _exit(127); // only the caller goes on
    }
    //unlink(buf);
 }
-- 
2.43.0


From 3f61acbf847c36c6c97e9c98f8a036d117f0dd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:48 +0000
Subject: [PATCH 25/25] fix: display closes the descriptor of its temporary
 file

---
 src/dd.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dd.cpp b/src/dd.cpp
index 34fe1e1..e905a09 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -174,7 +174,8 @@ void AbstractDD::display()
 {
    const std::string gLabel = _strat->getName();
    char buf[256] = "/tmp/dotfile-XXXXXXX";
-   mkstemp(buf);
+   int fd = mkstemp(buf);
+   if (fd >= 0) close(fd); // written through the stream below
    std::ofstream out(buf);
    std::string base = buf;
    base = base + ".pdf";
-- 
2.43.0

