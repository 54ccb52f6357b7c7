// Random operation sequences on the containers of the library; every call is logged with its arguments and
// its observed results for the specifications of the abstract data types (spec/*Trace.tla).
// usage: hx_cont MODE from to seed out
#include "codd.hpp"
#include "heap.hpp"
#include "queue.hpp"
#include "hashtable.hpp"
#include "lighthash.hpp"
#include "uf.hpp"
#include "msort.hpp"
#include <random>
#include <sstream>
#include <map>
#include "run.hpp"
typedef std::mt19937 Rng;
struct Ev {   // one event
   std::ostringstream o;
   Ev(const char* n) { o << "{\"ev\":\"" << n << "\""; }
   Ev& k(const char* f,long v) { o << ",\"" << f << "\":" << v; return *this; }
   Ev& b(const char* f,bool v) { o << ",\"" << f << "\":" << (v?"true":"false"); return *this; }
   Ev& s(const char* f,const std::string& v) { o << ",\"" << f << "\":\"" << v << "\""; return *this; }
   template<class C> Ev& l(const char* f,const C& c) {
      o << ",\"" << f << "\":["; bool first = true;
      for(const auto& x : c) { o << (first?"":",") << x; first = false; }
      o << "]"; return *this;
   }
   ~Ev() { o << "}"; emit(o.str()); }
};
static int R(Rng& r,int a,int b) { return a + (int)(r() % (unsigned)(b-a+1)); }
template<class T> static T& any(Rng& r,std::vector<T>& v) { return v[r()%v.size()]; }

// ------------------------------------------------------------------ FIFO queue
static void doQueue(int k,Rng& r,int steps) {
   static const int szs[] = {0,1,2,3,4,5,7,8,15,16,32};
   int sz = szs[r()%11];
   Ev("case").k("case",k).k("sz",sz);
   CQueue<int> q(sz);
   std::vector<std::pair<int,Location<int>*>> h;  // live handles, by value (values are distinct)
   int next = 1, grow = R(r,0,3);
   auto dump = [&]() { std::vector<int> c; q.doOnAll([&](Location<int>* l) { c.push_back(l->value()); }); return c; };
   auto drop = [&](int v) { for(size_t i=0;i<h.size();i++) if (h[i].first==v) { h.erase(h.begin()+i); break; } };
   for(int s=0;s<steps;s++) {
      int w = R(r,0,99);
      if (w < 25 + 12*grow) { int v = next++; auto l = q.enQueue(v); h.push_back({v,l}); Ev("enq").k("v",v).k("n",q.size()); }
      else if (w < 65) { bool e = q.empty(); int v = q.deQueue(); if (!e) drop(v); Ev("deq").k("r",v).k("n",q.size()); }
      else if (w < 70) Ev("peek").k("r",q.peek()).b("e",q.empty()).k("n",q.size());
      else if (w < 75 && !h.empty()) { auto& x = any(r,h); Ev("val").k("v",x.first).k("r",**x.second); }
      else if (w < 83 && !h.empty()) { auto x = any(r,h); q.retract(x.second); drop(x.first); Ev("retract").k("v",x.first).b("found",true).l("c",dump()); }
      else if (w < 89 && q.size() > 0) { int v = R(r,0,2) ? any(r,h).first : next+7; bool f = q.retract(v); if (f) drop(v); Ev("retract").k("v",v).b("found",f).l("c",dump()); }
      else if (w < 93) { int m = R(r,1,4); int x = q.foldl([m](int acc,int v) { return v % m == 0 ? v : acc; },0); Ev("fold").k("m",m).k("r",x); }
      else if (w < 99) Ev("dump").l("c",dump());
      else if (R(r,0,4)==0) { q.clear(); h.clear(); Ev("clear").k("n",q.size()); }
      if (R(r,0,40)==0) grow = R(r,0,3);
   }
   if (k%10==0) {    // long queues: many doublings
      for(int z=R(r,1,3);z>0;z--) {
         int n = R(r,200,1500), v0 = next; std::vector<int> bad, out;
         for(int i=0;i<n;i++) { int v = next++; h.push_back({v,q.enQueue(v)}); }
         Ev("enqs").k("lo",v0).k("hi",next-1).k("n",q.size());
         for(auto& x : h) if (x.second->value() != x.first) bad.push_back(x.first);
         Ev("vals").l("bad",bad);
         for(int i=0;i<6;i++) { auto x = any(r,h); q.retract(x.second); drop(x.first); Ev("retract").k("v",x.first).b("found",true).l("c",dump()); }
         int m = R(r,0,1) ? q.size()/2 : R(r,0,q.size()); for(int i=0;i<m;i++) { int v = q.deQueue(); out.push_back(v); drop(v); }
         Ev("deqs").l("c",out).k("n",q.size());
      }
      std::vector<int> out; while (!q.empty()) out.push_back(q.deQueue());
      Ev("deqs").l("c",out).k("n",q.size());
      return;
   }
   while (!q.empty()) { int v = q.deQueue(); Ev("deq").k("r",v).k("n",q.size()); }
}

// ------------------------------------------------------------------ priority queue with locations
struct It { int key, id; It& operator--() { --key; return *this; } It operator--(int) { It o = *this; --key; return o; }
   bool operator==(const It& o) const { return id==o.id; }
   friend std::ostream& operator<<(std::ostream& os,const It& i) { return os << i.key << "/" << i.id; } };
static void doHeap(int k,Rng& r,int steps) {
   typedef Heap<It,std::function<bool(const It&,const It&)>> H;
   static const int szs[] = {1,2,3,4,8,16,64,1000};
   int sz = szs[r()%8]; bool mn = R(r,0,2) != 0; int span = R(r,0,1) ? 4 : 60;
   Ev("case").k("case",k).k("sz",sz).b("min",mn);
   Pool p(R(r,0,1) ? 4096 : 1<<16);
   std::function<bool(const It&,const It&)> ord = mn ? std::function<bool(const It&,const It&)>([](const It& a,const It& b) { return a.key < b.key; })
                                                     : std::function<bool(const It&,const It&)>([](const It& a,const It& b) { return a.key > b.key; });
   H h(&p,sz,ord);
   std::vector<std::pair<int,H::Location*>> live; int id = 1;
   auto drop = [&](int v) { for(size_t i=0;i<live.size();i++) if (live[i].first==v) { live.erase(live.begin()+i); break; } };
   for(int round=0;round<2;round++) {
      int n0 = R(r,0,3) ? R(r,0,20) : R(r,60,150);
      if (R(r,0,1)) {       // bulk construction
         for(int i=0;i<n0;i++) { It x{R(r,-span,span),id++}; auto l = h.insert(x); live.push_back({x.id,l}); Ev("ins").k("key",x.key).k("id",x.id).k("n",h.size()); }
         h.buildHeap(); Ev("build").k("n",h.size());
      }
      int grow = R(r,0,3);
      for(int s=0;s<steps;s++) {
         int w = R(r,0,99);
         if (w < 20 + 12*grow) { It x{R(r,-span,span),id++}; auto l = h.insertHeap(x); live.push_back({x.id,const_cast<H::Location*>(l)}); Ev("ins").k("key",x.key).k("id",x.id).k("n",h.size()); }
         else if (w < 60) { if (!h.empty()) { It x = h.extractMax(); drop(x.id); Ev("ext").k("key",x.key).k("id",x.id).k("n",h.size()); } }
         else if (w < 72 && mn && !live.empty()) { auto x = any(r,live); h.decrease(x.second); Ev("dec").k("id",x.first).k("r",x.second->value().key); }
         else if (w < 84 && !live.empty()) { auto x = any(r,live); It y = h.remove(x.second); drop(y.id); Ev("rem").k("id",x.first).k("rid",y.id).k("key",y.key).k("n",h.size()); }
         else if (w < 92 && !live.empty()) { auto x = any(r,live); It y = **x.second; Ev("val").k("id",x.first).k("rid",y.id).k("key",y.key); }
         else { std::vector<int> c; for(unsigned i=0;i<h.size();i++) c.push_back(h[i]->value().id); Ev("ids").l("c",c).b("e",h.empty()); }
      }
      if (k%10==0) {   // large heaps
         int n = R(r,100,900), bulk = h.empty() && R(r,0,1); std::vector<int> ks,is,bad;
         for(int i=0;i<n;i++) { It x{R(r,-span*20,span*20),id++}; auto l = bulk ? h.insert(x) : const_cast<H::Location*>(h.insertHeap(x)); live.push_back({x.id,l}); ks.push_back(x.key); is.push_back(x.id); }
         if (bulk) h.buildHeap();
         Ev("inss").l("key",ks).l("id",is).k("n",h.size());
         for(auto& x : live) if (x.second->value().id != x.first) bad.push_back(x.first);
         Ev("vals").l("bad",bad);
         for(int i=0;i<10;i++) { auto x = any(r,live); It y = h.remove(x.second); drop(y.id); Ev("rem").k("id",x.first).k("rid",y.id).k("key",y.key).k("n",h.size()); }
         if (mn) for(int i=0;i<10;i++) { auto x = any(r,live); h.decrease(x.second); Ev("dec").k("id",x.first).k("r",x.second->value().key); }
         ks.clear(); is.clear();
         int m = R(r,0,1) ? h.size() : R(r,0,h.size());
         for(int i=0;i<m;i++) { It x = h.extractMax(); drop(x.id); ks.push_back(x.key); is.push_back(x.id); }
         Ev("exts").l("key",ks).l("id",is).k("n",h.size());
      }
      if (round==0 && R(r,0,1)) { h.clear(); live.clear(); Ev("clear").k("n",h.size()); }
      else while (!h.empty()) { It x = h.extractMax(); drop(x.id); Ev("ext").k("key",x.key).k("id",x.id).k("n",h.size()); }
   }
}

// ------------------------------------------------------------------ hash tables
struct Key { int v; friend bool operator==(const Key& a,const Key& b) { return a.v==b.v; } friend std::ostream& operator<<(std::ostream& o,const Key& k) { return o << k.v; } };
static int KMOD = 0;
template<> struct std::hash<Key> { std::size_t operator()(const Key& k) const noexcept { std::size_t h = k.v * 2654435761ull; return KMOD ? h % KMOD : h; } };
static std::size_t tsize(Rng& r) { static const std::size_t s[] = {0,1,2,3,10,547,548,600,5000,20000,200000,209939,300000}; return s[r()%(R(r,0,9)?9:13)]; }
// keys 0..: K = Key or a set whose storage depends on how it was built
template<class K> K mkKey(Rng& r,int i);
template<> Key mkKey<Key>(Rng&,int i) { return Key{i*7}; }
template<> GNSet mkKey<GNSet>(Rng& r,int i) {   // the subset of {0,64,130,3} with code i, built in different ways
   static const int el[] = {0,64,130,3};
   std::vector<int> e; for(int j=0;j<4;j++) if (i>>j & 1) e.push_back(el[j]);
   std::shuffle(e.begin(),e.end(),r);
   GNSet s(R(r,0,3)*64);
   if (R(r,0,2)==0) { s.insert(200); s.remove(200); }
   for(int x : e) s.insert(x);
   return s;
}
struct Bulk {    // many keys in one event
   std::vector<int> k,v; std::vector<int> f;
   void add(int a,int b,bool c) { k.push_back(a); v.push_back(b); f.push_back(c); }
   void log(const char* n,std::size_t sz) { Ev(n).l("k",k).l("v",v).l("f",f).k("n",sz); }
};
template<class K> static void tableOps(int k,Rng& r,int steps,int nk) {
   std::size_t sz = tsize(r); KMOD = R(r,0,2) ? 0 : R(r,1,3);
   Ev("case").k("case",k).k("sz",sz);
   Pool p(R(r,0,1) ? 4096 : 1<<20);
   Quiet qt;
   Hashtable<K,int> t(&p,sz);
   for(int s=0;s<steps;s++) {
      int w = R(r,0,99), i = R(r,0,nk-1); K key = mkKey<K>(r,i);
      int val = -1;
      if (w < 25) { int v = R(r,1,1000); t.insert(key,v); Ev("put").k("k",i).k("v",v).k("n",t.size()); }
      else if (w < 50) { auto a = t.getLoc(key,val); bool f = a; Ev("get").k("k",i).b("f",f).k("v",f?val:0).k("n",t.size());
                         if (!f && R(r,0,1)) { int v = R(r,1,1000); t.safeInsertAt(a,key,v); Ev("put").k("k",i).k("v",v).k("n",t.size()); } }
      else if (w < 60) { bool f = t.get(key,val); if (!f) { int v = R(r,1,1000); t.safeInsert(key,v); Ev("put").k("k",i).k("v",v).k("n",t.size()); } }
      else if (w < 90) { bool f = t.get(key,val); Ev("get").k("k",i).b("f",f).k("v",f?val:0).k("n",t.size()); }
      else if (w < 97) { std::vector<int> c; long cnt = 0; t.doOnAll([&](const K&,int v) { c.push_back(v); cnt++; }); std::sort(c.begin(),c.end()); Ev("all").l("c",c).k("n",t.size()); }
      else if (w < 99) { t.clear(); Ev("clear").k("n",t.size()); }
   }
   if constexpr (std::is_same_v<K,Key>) if (k%6==0) {
      int n = R(r,100,1500); if (KMOD) n = 150;
      for(int z=0;z<2;z++) {
         Bulk p,g; int val = -1, st = R(r,1,3);
         for(int i=0;i<n;i+=st) { int v = R(r,1,1000); t.insert(Key{i*7},v); p.add(i,v,true); }
         p.log("puts",t.size());
         for(int i=0;i<n;i++) { bool f = t.get(Key{i*7},val); g.add(i,f?val:0,f); }
         g.log("gets",t.size());
         if (z==0 && R(r,0,1)) { int m = R(r,0,3) ? (R(r,0,2) ? 256 : 512) - (R(r,0,3)==0) : R(r,0,2) ? R(r,1,600) : 65536; for(int i=0;i<m;i++) t.clear(); Ev("clear").k("n",t.size()); n = R(r,20,300); }
      }
   }
}
template<class K> static void ltableOps(int k,Rng& r,int steps,int nk) {
   std::size_t sz = tsize(r); KMOD = R(r,0,2) ? 0 : R(r,1,3);
   Ev("case").k("case",k).k("sz",sz);
   Pool p(1<<20), np(1<<20);
   Quiet qt;
   LHashtable<K> t(&p,sz);
   unsigned nid = 1;
   for(int s=0;s<steps;s++) {
      int w = R(r,0,99), i = R(r,0,nk-1); K key = mkKey<K>(r,i); Node<K>* n = nullptr;
      if (w < 92) {
         auto a = t.getLoc(key,n); bool f = a;
         Ev("get").k("k",i).b("f",f).k("v",f ? (long)n->getId() : 0).k("n",t.size());
         if (!f && R(r,0,2)) {
            K cp = mkKey<K>(r,i);
            n = new (&np) Node<K>(&np,std::move(cp),nid++,true);
            if (R(r,0,1)) t.safeInsertAt(a,n); else t.rawInsertAt(a,n);
            Ev("put").k("k",i).k("v",n->getId()).k("n",t.size());
         }
      }
      else if (w < 98) { std::vector<int> c; t.doOnAll([&](Node<K>* x) { c.push_back(x->getId()); }); std::sort(c.begin(),c.end()); Ev("all").l("c",c).k("n",t.size()); }
      else { t.clear(); Ev("clear").k("n",t.size()); }
   }
   if constexpr (std::is_same_v<K,Key>) if (k%6==0) {
      int n = R(r,100,1500); if (KMOD) n = 150;
      for(int z=0;z<2;z++) {
         Bulk p,g; int st = R(r,1,3);
         for(int i=0;i<n;i+=st) { Node<K>* x = nullptr; auto a = t.getLoc(Key{i*7},x); if (a) continue; x = new (&np) Node<K>(&np,Key{i*7},nid++,true); t.safeInsertAt(a,x); p.add(i,x->getId(),true); }
         p.log("puts",t.size());
         for(int i=0;i<n;i++) { Node<K>* x = nullptr; bool f = t.getLoc(Key{i*7},x); g.add(i,f?(int)x->getId():0,f); }
         g.log("gets",t.size());
         if (z==0 && R(r,0,1)) { int m = R(r,0,3) ? (R(r,0,2) ? 256 : 512) - (R(r,0,3)==0) : R(r,0,2) ? R(r,1,600) : 65536; for(int i=0;i<m;i++) t.clear(); Ev("clear").k("n",t.size()); n = R(r,20,300); }
      }
   }
}
static void doTable(int k,Rng& r,int steps) {
   switch(R(r,0,3)) {
      case 0: tableOps<Key>(k,r,steps,R(r,2,60)); break;
      case 1: tableOps<GNSet>(k,r,steps,16); break;
      case 2: ltableOps<Key>(k,r,steps,R(r,2,60)); break;
      default: ltableOps<GNSet>(k,r,steps,16);
   }
}

// ------------------------------------------------------------------ memory pool
static void doPool(int k,Rng& r,int steps) {
   static const int segs[] = {16,32,64,128,256,1024,4096,1<<22};
   int sg = segs[r()%8];
   Ev("case").k("case",k).k("seg",sg);
   Pool p(sg);
   struct Blk { int id; unsigned char* a; int sz; unsigned char st; };
   std::vector<Blk> live; std::vector<std::pair<PoolMark,int>> marks;
   int id = 1; int big = sg > 4096 ? sg/3 : sg*2;
   auto alloc = [&](int sz) {
      unsigned char* a = nullptr;
      switch(R(r,0,2)) { case 0: a = (unsigned char*)p.allocate(sz); break; case 1: a = (unsigned char*)operator new(sz,&p); break; default: a = (unsigned char*)new (&p) char[sz]; }
      unsigned char st = (unsigned char)(id*37+11);
      memset(a,st,sz);
      unsigned long x = (unsigned long)a, e = x + sz;
      Ev("alloc").k("id",id).k("sz",sz).k("hi",x>>24).k("lo",x & 0xffffff).k("ehi",e>>24).k("elo",e & 0xffffff).k("al",x & 15);
      live.push_back({id,a,sz,st}); id++;
   };
   auto check = [&](const Blk& b) { int bad = 0; for(int i=0;i<b.sz;i++) bad += b.a[i]!=b.st; Ev("read").k("id",b.id).k("bad",bad); };
   std::vector<int> sizes;
   for(int s=0;s<steps;s++) {
      int w = R(r,0,99);
      if (w < 60) alloc(R(r,0,9) ? R(r,1,sg > 4096 ? 20000 : std::max(2,sg/2)) : R(r,1,big));
      else if (w < 75 && !live.empty()) check(any(r,live));
      else if (w < 88) { marks.push_back({p.mark(),(int)live.size()}); Ev("mark").k("m",marks.size()); }
      else if (w < 96 && !marks.empty()) {
         int m = R(r,0,marks.size()-1);
         p.clear(marks[m].first); live.resize(marks[m].second); marks.resize(m+1); Ev("release").k("m",m+1);
      } else if (w < 97) { if (R(r,0,1)) p.clear(); else p.clear(PoolMark()); live.clear(); marks.clear(); Ev("reset").k("m",0); }
      else {   // the same requests twice from the same mark
         auto mk = p.mark(); int n = R(r,1,8); std::vector<int> sz; std::vector<unsigned long> a1,a2;
         for(int i=0;i<n;i++) sz.push_back(R(r,1,std::min(big,5000)));
         for(int i=0;i<n;i++) a1.push_back((unsigned long)p.allocate(sz[i]));
         p.clear(mk);
         for(int i=0;i<n;i++) a2.push_back((unsigned long)p.allocate(sz[i]));
         p.clear(mk);
         int same = 0; for(int i=0;i<n;i++) same += a1[i]==a2[i];
         Ev("again").k("n",n).k("same",same);
      }
   }
   if (k%10==0) for(int z=R(r,70,200);z>0;z--) alloc(R(r,1,sg > 4096 ? 200000 : std::max(2,sg)));   // many segments
   for(auto& b : live) check(b);
}

// ------------------------------------------------------------------ sets
static std::vector<int> valsOf(Rng& r,int mx,int n) {
   static const int edge[] = {0,1,2,31,32,62,63,64,65,126,127,128,129,190,191,192,193,255,256,319,320,511};
   std::vector<int> v;
   for(int i=0;i<n;i++) { int x = R(r,0,1) ? edge[r()%22] : R(r,0,mx-1); if (x >= mx) x = x % mx; v.push_back(x); }
   return v;
}
template<class S> static std::vector<int> cont(const S& s) { std::vector<int> c; for(int v : s) { c.push_back(v); if (c.size() > 3000) break; } return c; }
template<class S> static std::string str(const S& s) { std::ostringstream o; o << s; return o.str(); }
static GNSet gnInit(std::vector<int>& v) {
   switch(v.size()) { case 0: return GNSet{std::initializer_list<int>{}}; case 1: return GNSet{std::initializer_list<int>{v[0]}};
      case 2: return GNSet({v[0],v[1]}); case 3: return GNSet({v[0],v[1],v[2]}); default: v.resize(4); return GNSet({v[0],v[1],v[2],v[3]}); }
}
static void doGNSet(int k,Rng& r,int steps) {
   const int N = 4; int mx = R(r,0,9)==0 ? 65535 : R(r,0,1) ? 130 : 320;
   Ev("case").k("case",k).k("N",N).k("U",mx);
   std::vector<GNSet> S; for(int i=0;i<N;i++) S.push_back(GNSet(i*64)); // different storage sizes
   auto res = [&](Ev& e,int i) -> Ev& { return e.k("i",i+1).l("c",cont(S[i])).k("n",S[i].size()).b("e",S[i].empty()); };
   for(int s=0;s<steps;s++) {
      int w = R(r,0,35), i = R(r,0,N-1), j = R(r,0,N-1), q = R(r,0,N-1), x = valsOf(r,mx,1)[0];
      switch(w) {
         case 0: case 1: case 2: case 3: case 4: { S[i].insert(x); Ev e("insert"); res(e.k("x",x),i); break; }
         case 5: case 6: { auto c = cont(S[i]); if (!c.empty() && R(r,0,3)) x = any(r,c); S[i].remove(x); Ev e("remove"); res(e.k("x",x),i); break; }
         case 7: { S[i].clear(); Ev e("clear"); res(e,i); break; }
         case 8: case 9: { S[i].unionWith(S[j]); Ev e("union"); res(e.k("j",j+1),i); break; }
         case 10: { S[i].interWith(S[j]); Ev e("inter"); res(e.k("j",j+1),i); break; }
         case 11: { S[i].diffWith(S[j]); Ev e("diff"); res(e.k("j",j+1),i); break; }
         case 12: { GNSet t = S[j] | S[q]; S[i] = t; Ev e("or"); res(e.k("j",j+1).k("q",q+1),i); break; }
         case 13: { S[i] = S[j] & S[q]; Ev e("and"); res(e.k("j",j+1).k("q",q+1),i); break; }
         case 14: { S[i] = S[j] - S[q]; Ev e("minus"); res(e.k("j",j+1).k("q",q+1),i); break; }
         case 15: { S[i] = S[j]; Ev e("copy"); res(e.k("j",j+1),i); break; }
         case 16: { if (i!=j) { S[i] = std::move(S[j]); Ev e("move"); res(e.k("j",j+1).l("cj",cont(S[j])),i); } break; }
         case 17: { S[i].removeAbove(x); Ev e("above"); res(e.k("x",x),i); break; }
         case 18: { if (x > 1000) x = 1000; S[i].removeBelow(x); Ev e("below"); res(e.k("x",x),i); break; }
         case 19: { if (S[i].nbWords() <= 8 && R(r,0,1)) { int nw = S[i].nbWords(); S[i].complement(); Ev e("compl"); res(e.k("w",nw*64),i); } break; }
         case 20: { int a = R(r,0,70), b = a + R(r,-3,70); S[i] = GNSet(a,b); Ev e("range"); res(e.k("a",a).k("b",b),i); break; }
         case 21: { int a = R(r,0,130), b = R(r,-1,130); Range g(a,b); S[i] = GNSet(g); Ev e("fromRange"); res(e.k("a",a).k("b",b),i); break; }
         case 22: { auto v = valsOf(r,mx,R(r,0,4)); S[i] = gnInit(v); Ev e("init"); res(e.l("v",v),i); break; }
         case 23: { NatSet<5> t; auto v = valsOf(r,320,R(r,0,6)); for(int y : v) t.insert(y); S[i] = GNSet(t); Ev e("init"); res(e.l("v",v),i); break; }
         case 24: { int m = R(r,2,4), z = R(r,0,3); S[i] = filter(S[j],[m,z](int y) { return y % m == z % m; }); Ev e("filter"); res(e.k("j",j+1).k("m",m).k("z",z),i); break; }
         case 25: { int a = R(r,0,70), b = a + R(r,0,70); S[i] = setFrom(std::views::iota(a,b)); Ev e("range"); res(e.k("a",a).k("b",b-1),i); break; }
         case 26: { GNSet t(S[j]); GNSet u(std::move(t)); S[i] = u; Ev e("copy"); res(e.k("j",j+1),i); break; }
         case 27: Ev("has").k("i",i+1).k("x",x).b("r",S[i].contains(x)); break;
         case 28: { if (R(r,0,1)) S[i] = GNSet(S[j]); else S[i] = S[j]; Ev e("copyeq"); res(e.k("j",j+1).b("eq",S[i]==S[j]),i); break; }
         case 29: case 30: Ev("eq").k("i",i+1).k("j",j+1).b("eq",S[i]==S[j]).b("ne",S[i]!=S[j]).b("h",std::hash<GNSet>{}(S[i])==std::hash<GNSet>{}(S[j])); break;
         case 31: { Ev e("minmax"); e.k("i",i+1).k("mn",S[i].empty() ? -1 : min(S[i])).k("mx",S[i].empty() ? -1 : max(S[i])).b("dmn",min(S[i])==std::numeric_limits<int>::max()).b("dmx",max(S[i])==std::numeric_limits<int>::min()); break; }
         case 32: { int m = R(r,1,3); int z = R(r,0,m-1); auto f = [m,z](int y) { return y % m == z; }; auto t = [](int y) { return 3*y - 100; };
                    int a = min(S[i],f,t), b = max(S[i],f,t); long sm = sum(S[i],t); bool none = a==std::numeric_limits<int>::max() && b==std::numeric_limits<int>::min();
                    Ev("agg").k("i",i+1).k("m",m).k("z",z).k("mn",none?0:a).k("mx",none?0:b).b("none",none).k("sum",sm); break; }
         case 33: if (S[i].size() < 30) Ev("str").k("i",i+1).s("s",str(S[i])); break;
         case 34: if (!S[i].empty()) Ev("last").k("i",i+1).k("r",*S[i].rbegin()); break;
         case 35: Ev("snap").k("i",i+1).l("c",cont(S[i])); break;
      }
   }
   for(int i=0;i<N;i++) Ev("snap").k("i",i+1).l("c",cont(S[i]));
}
template<unsigned short W> static void natOps(int k,Rng& r,int steps) {
   const int N = 4, mx = 64*W;
   Ev("case").k("case",k).k("N",N).k("U",mx);
   std::vector<NatSet<W>> S(N);
   auto cc = [](const NatSet<W>& s) { std::vector<int> c; for(auto i=s.cbegin();i!=s.cend();++i) { c.push_back(*i); if (c.size()>3000) break; } return c; };
   auto res = [&](Ev& e,int i) -> Ev& { return e.k("i",i+1).l("c",R(r,0,1) ? cont(S[i]) : cc(S[i])).k("n",S[i].size()).b("e",S[i].empty()); };
   for(int s=0;s<steps;s++) {
      int w = R(r,0,25), i = R(r,0,N-1), j = R(r,0,N-1), q = R(r,0,N-1), x = valsOf(r,mx,1)[0];
      switch(w) {
         case 0: case 1: case 2: case 3: { S[i].insert(x); Ev e("insert"); res(e.k("x",x),i); break; }
         case 4: { S[i].clear(); Ev e("clear"); res(e,i); break; }
         case 5: { S[i].unionWith(S[j]); Ev e("union"); res(e.k("j",j+1),i); break; }
         case 6: { S[i].interWith(S[j]); Ev e("inter"); res(e.k("j",j+1),i); break; }
         case 7: { S[i] = S[j] | S[q]; Ev e("or"); res(e.k("j",j+1).k("q",q+1),i); break; }
         case 8: { S[i] = S[j] & S[q]; Ev e("and"); res(e.k("j",j+1).k("q",q+1),i); break; }
         case 9: { S[i] = S[j]; Ev e("copy"); res(e.k("j",j+1),i); break; }
         case 10: { if (R(r,0,2)==0) { S[i].complement(); Ev e("compl"); res(e.k("w",mx),i); } break; }
         case 11: { int a = R(r,0,mx-2), b = std::min(mx-2,a + R(r,-3,70)); S[i] = NatSet<W>(a,b); Ev e("range"); res(e.k("a",a).k("b",b),i); break; }
         case 12: { auto v = valsOf(r,mx,R(r,0,3)); v.resize(std::min<size_t>(3,v.size()));
                    if (v.size()==0) S[i] = NatSet<W>{}; else if (v.size()==1) S[i] = NatSet<W>{v[0]}; else if (v.size()==2) S[i] = NatSet<W>(std::initializer_list<int>{v[0],v[1]}); else S[i] = NatSet<W>({v[0],v[1],v[2]});
                    Ev e("init"); res(e.l("v",v),i); break; }
         case 13: case 14: case 15: case 16: case 17: case 18: { // o - S, all results representable
                    if (R(r,0,1)) { int lo = R(r,0,mx-1), hi = std::min(mx-1,lo + R(r,0,100)); S[j].clear(); for(int y=R(r,1,9);y>0;y--) S[j].insert(R(r,lo,hi)); Ev e("init"); res(e.l("v",cont(S[j])),j); }
                    if (S[j].empty()) { S[i] = R(r,0,200) - S[j]; Ev e("flip"); res(e.k("j",j+1).k("o",0),i); break; }
                    auto c = cont(S[j]); int lo = c.front(), hi = c.back();   // o in hi .. lo + mx-1
                    int o = R(r,0,3) ? R(r,hi,lo+mx-1) : (R(r,0,1) ? hi : lo+mx-1);
                    NatSet<W> t = o - S[j]; S[i] = t; Ev e("flip"); res(e.k("j",j+1).k("o",o),i); break; }
         case 19: Ev("has").k("i",i+1).k("x",x).b("r",S[i].contains(x)); break;
         case 20: { S[i] = S[j]; Ev e("copyeq"); res(e.k("j",j+1).b("eq",S[i]==S[j]),i); break; }
         case 21: Ev("eq").k("i",i+1).k("j",j+1).b("eq",S[i]==S[j]).b("ne",!(S[i]==S[j])).b("h",std::hash<NatSet<W>>{}(S[i])==std::hash<NatSet<W>>{}(S[j])); break;
         case 22: if (!S[i].empty()) Ev("last").k("i",i+1).k("r",S[i].largest()); break;
         case 23: { GNSet g(S[i]); Ev e("snap"); e.k("i",i+1).l("c",cont(g)); break; }
         case 24: if (S[i].size() < 30) Ev("str").k("i",i+1).s("s",str(S[i])); break;
         case 25: { NatSet<W> t(S[j]); NatSet<W> u(std::move(t)); S[i] = u; Ev e("copy"); res(e.k("j",j+1),i); break; }
      }
   }
   for(int i=0;i<N;i++) Ev("snap").k("i",i+1).l("c",cont(S[i]));
}
static void doNat(int k,Rng& r,int steps) {
   switch(R(r,0,5)) { case 0: natOps<1>(k,r,steps); break; case 1: natOps<2>(k,r,steps); break; case 2: natOps<3>(k,r,steps); break; case 3: natOps<4>(k,r,steps); break; case 4: natOps<5>(k,r,steps); break; default: natOps<8>(k,r,steps); }
}
// std::set helpers and bit reversal
static void doSet(int k,Rng& r,int steps) {
   const int N = 4, mx = 40;
   Ev("case").k("case",k).k("N",N).k("U",mx);
   typedef std::set<int> SS; std::vector<SS> S(N);
   auto res = [&](Ev& e,int i) -> Ev& { return e.k("i",i+1).l("c",cont(S[i])).k("n",S[i].size()).b("e",S[i].empty()); };
   for(int s=0;s<steps;s++) {
      int w = R(r,0,13), i = R(r,0,N-1), j = R(r,0,N-1), q = R(r,0,N-1), x = R(r,0,mx-1);
      switch(w) {
         case 0: case 1: case 2: { S[i].insert(x); Ev e("insert"); res(e.k("x",x),i); break; }
         case 3: { S[i] = S[j] | S[q]; Ev e("or"); res(e.k("j",j+1).k("q",q+1),i); break; }
         case 4: { S[i] = S[j] & S[q]; Ev e("and"); res(e.k("j",j+1).k("q",q+1),i); break; }
         case 5: { S[i] = ::remove<int>(S[i],x); Ev e("remove"); res(e.k("x",x),i); break; }
         case 6: { int m = R(r,2,4), z = R(r,0,3); S[i] = std::filter(S[j],[m,z](int y) { return y % m == z % m; }); Ev e("filter"); res(e.k("j",j+1).k("m",m).k("z",z),i); break; }
         case 7: { Ev e("minmax"); int a = std::min(S[i]), b = std::max(S[i]); e.k("i",i+1).k("mn",S[i].empty() ? -1 : a).k("mx",S[i].empty() ? -1 : b).b("dmn",a==std::numeric_limits<int>::max()).b("dmx",b==std::numeric_limits<int>::min()); break; }
         case 8: { int m = R(r,2,5); Ev("any").k("i",i+1).k("m",m).b("r",std::member(S[i],[m](int y) { return y % m == 0; })); break; }
         case 9: { int t = std::foldl(S[i],[](int acc,int y) { return (acc*7 + y) % 1009; },1); Ev("fold").k("i",i+1).k("r",t); break; }
         case 10: Ev("sum").k("i",i+1).k("r",sum(S[i],[](const int& y) { return 3*y - 100; })); break;
         case 11: Ev("str").k("i",i+1).s("s",str(S[i])); break;
         case 12: Ev("eq").k("i",i+1).k("j",j+1).b("eq",S[i]==S[j]).b("ne",S[i]!=S[j]).b("h",std::hash<SS>{}(S[i])==std::hash<SS>{}(S[j])); break;
         case 13: { unsigned long long v = 0; for(int b : S[i]) v |= 1ull << b; v |= (unsigned long long)R(r,0,1) << 63;
                    auto bits = [](unsigned long long z) { std::vector<int> c; for(int b=0;b<64;b++) if (z>>b & 1) c.push_back(b); return c; };
                    Ev("rev").l("v",bits(v)).l("a",bits(std::revBitsOfWord(v))).l("b",bits(std::revBitsOfLong(v))).l("y",bits(std::revBitsOfByte(v & 255))); break; }
      }
   }
   for(int i=0;i<N;i++) Ev("snap").k("i",i+1).l("c",cont(S[i]));
}

// ------------------------------------------------------------------ pool vectors
struct Rec { int v, pad; Rec(int x=0) : v(x),pad(x*3) {} operator int() const { return pad==v*3 ? v : -999; } };
template<class T,class SZ> static void vecOps(int k,Rng& r,int steps) {
   const int N = 3;
   Ev("case").k("case",k).k("N",N);
   Pool p(R(r,0,1) ? 256 : 1<<16), p2(512);
   typedef Vec<T,SZ> V; std::vector<V> S;
   for(int i=0;i<N;i++) S.push_back(V(&p,(SZ)R(r,0,3)));
   auto content = [](const V& v) { std::vector<int> c; for(auto i=v.begin();i!=v.end();i++) c.push_back((int)*i); return c; };
   auto cc = [](const V& v) { std::vector<int> c; for(auto i=v.cbegin();i!=v.cend();++i) c.push_back((int)*i); return c; };
   for(int s=0;s<steps;s++) {
      int w = R(r,0,99), i = R(r,0,N-1), j = R(r,0,N-1), x = R(r,1,999); V& v = S[i]; int n = v.size();
      if (w < 35) { long at = v.push_back(T(x)); Ev("push").k("i",i+1).k("x",x).k("r",at).k("n",v.size()); }
      else if (w < 42) { if (n) { int y = (int)v.pop_back(); Ev("pop").k("i",i+1).k("r",y).k("n",v.size()); } }
      else if (w < 50) { int at = R(r,0,3) ? n : R(r,0,n); if (R(r,0,1)) v[at] = T(x); else { const T t(x); v[at] = t; } Ev("set").k("i",i+1).k("at",at).k("x",x).k("n",v.size()); }
      else if (w < 56) { if (n) { int at = R(r,0,n-1); v.at(at,T(x)); Ev("at").k("i",i+1).k("at",at).k("x",x).k("n",v.size()); } }
      else if (w < 64) { if (n) { int at = R(r,0,n-1); const V& cv = v; int a = (int)cv.get(at), b = (int)cv[at]; T t = v[at]; Ev("get").k("i",i+1).k("at",at).k("r",a).k("r2",b).k("r3",(int)t); } }
      else if (w < 74) { if (n) { int at = R(r,0,n-1), y = -1, cnt = 0; long m = v.remove(at,[&](const T& t) { y = (int)t; cnt++; }); Ev("rem").k("i",i+1).k("at",at).k("y",y).k("cnt",cnt).k("r",m).k("n",v.size()); } }
      else if (w < 78) { S[i] = S[j]; Ev("copy").k("i",i+1).k("j",j+1).l("c",content(S[i])); }
      else if (w < 81) { if (i!=j) { S[i] = std::move(S[j]); Ev("move").k("i",i+1).k("j",j+1).l("c",content(S[i])).k("nj",S[j].size()); } }
      else if (w < 84) { V t(&p2,S[j]); V u(t); V z(std::move(u)); S[i] = z; Ev("copy").k("i",i+1).k("j",j+1).l("c",content(S[i])); }
      else if (w < 86) { v.clear(); Ev("clear").k("i",i+1).k("n",v.size()); }
      else if (w < 88) { if (n < 20) Ev("str").k("i",i+1).s("s",str(v)); }
      else if (w < 94) Ev("snap").k("i",i+1).l("c",content(v));
      else Ev("snap").k("i",i+1).l("c",cc(v));
   }
   if (k%8==0) for(int z=0;z<3;z++) {
      int i = R(r,0,N-1), n = R(r,100,1200), j = R(r,0,N-1); V& v = S[i]; std::vector<int> xs,out; long at = -1, bad = 0, n0 = v.size();
      for(int q=0;q<n;q++) { int x = R(r,1,999); at = v.push_back(T(x)); bad += at != n0 + q; xs.push_back(x); }
      Ev("pushs").k("i",i+1).l("x",xs).k("bad",bad).k("n",v.size());
      S[j] = S[i]; Ev("copy").k("i",j+1).k("j",i+1).l("c",content(S[j]));
      int m = R(r,0,v.size()-1); for(int q=0;q<m;q++) out.push_back((int)v.pop_back());
      if (i!=j) Ev("pops").k("i",i+1).l("c",out).k("n",v.size()); else Ev("pops").k("i",i+1).l("c",out).k("n",v.size());
   }
   for(int i=0;i<N;i++) Ev("snap").k("i",i+1).l("c",content(S[i]));
}
static void doVec(int k,Rng& r,int steps) {
   switch(R(r,0,2)) { case 0: vecOps<int,unsigned>(k,r,steps); break; case 1: vecOps<int,std::size_t>(k,r,steps); break; default: vecOps<Rec,unsigned>(k,r,steps); }
}
// ------------------------------------------------------------------ union-find
static void doUF(int k,Rng& r,int steps) {
   Ev("case").k("case",k);
   UnionFind<int> u; typedef UnionFind<int>::Node::Ptr NP; std::vector<NP> nd; std::vector<std::weak_ptr<UnionFind<int>::Node>> wk; std::vector<void*> raw;
   bool keep = R(r,0,1);     // the user keeps the nodes alive, or leaves that to the structure
   auto idx = [&](const NP& p) { for(size_t i=0;i<raw.size();i++) if (raw[i]==p.get()) return (int)i+1; return 0; };
   auto at = [&](int i) { return keep ? nd[i] : wk[i].lock(); };
   int mx = R(r,2,40); if (k%10==0) { mx = R(r,100,250); steps = 500; }
   auto find = [&](int a) { NP x = at(a); Ev("find").k("a",a+1).k("r",x ? idx(u.setFor(x)) : 0); };
   for(int s=0;s<steps;s++) {
      int w = R(r,0,99), n = raw.size();
      if (n < 2 || (w < 30 && n < mx)) { NP x = u.makeSet(n+1); if (keep) nd.push_back(x); wk.push_back(x); raw.push_back(x.get()); Ev("make").k("r",raw.size()); }
      else if (w < 55) { int a = R(r,0,n-1), b = R(r,0,n-1); NP p = at(a), q = at(b); int x = p && q ? idx(u.merge(p,q)) : 0; Ev("merge").k("a",a+1).k("b",b+1).k("r",x); }
      else find(R(r,0,n-1));
   }
   for(size_t i=0;i<raw.size();i++) find(i);
}
// ------------------------------------------------------------------ sorting
struct KV { int k, id; };
static void doSort(int k,Rng& r,int steps) {
   Ev("case").k("case",k);
   for(int s=0;s<steps;s++) {
      int n = R(r,0,2) ? R(r,0,12) : R(r,0,5) ? R(r,13,40) : R(r,0,5) ? R(r,41,400) : R(r,400,3000), span = R(r,0,1) ? 3 : 1000; bool up = R(r,0,1);
      std::vector<int> a,b,ids;
      std::vector<KV> v; for(int i=0;i<n;i++) { v.push_back({R(r,-span,span),i+1}); }
      int sh = R(r,0,4); if (sh==0) std::sort(v.begin(),v.end(),[](const KV& x,const KV& y) { return x.k<y.k; }); if (sh==1) std::sort(v.begin(),v.end(),[](const KV& x,const KV& y) { return x.k>y.k; });
      for(int i=0;i<n;i++) { v[i].id = i+1; a.push_back(v[i].k); }
      int extra = R(r,0,1); v.push_back({-77,-77});   // one past the end must not be touched
      mergeSort(v.data(),n,[up](const KV& x,const KV& y) { return up ? x.k<y.k : x.k>y.k; });
      for(int i=0;i<n;i++) { b.push_back(v[i].k); ids.push_back(v[i].id); }
      Ev("sort").b("up",up).l("a",a).l("b",b).l("ids",ids).b("guard",v[n].k==-77 && v[n].id==-77);
      (void)extra;
   }
}
// ------------------------------------------------------------------ node lists and arrays
static void doList(int k,Rng& r,int steps) {
   Pool p(1<<16); typedef Node<Key> N; std::vector<N*> nd; ANList l; std::vector<int> in;
   int nn = k%8 ? R(r,1,12) : R(r,50,90); for(int i=0;i<nn;i++) nd.push_back(new (&p) N(&p,Key{i},i+1,true));
   Ev("case").k("case",k).s("kind","list");
   auto c = [&]() { std::vector<int> v; for(auto x : l) { v.push_back(x->getId()); if (v.size() > 100) break; } return v; };
   for(int s=0;s<steps;s++) {
      int w = R(r,0,99); std::vector<int> out; for(int i=0;i<(int)nd.size();i++) if (std::find(in.begin(),in.end(),i)==in.end()) out.push_back(i);
      if (w < 40 && !out.empty()) { int i = any(r,out); l.push_back(nd[i]); in.push_back(i); Ev("push").k("x",i+1).l("c",c()).k("n",l.size()); }
      else if (w < 50 && !in.empty()) { int b = l.back()->getId(); l.pop_back(); in.erase(std::find(in.begin(),in.end(),b-1)); Ev("pop").k("r",b).l("c",c()).k("n",l.size()); }
      else if (w < 75 && !in.empty()) { int i = any(r,in); l.remove(nd[i]); in.erase(std::find(in.begin(),in.end(),i)); Ev("remove").k("x",i+1).l("c",c()).k("n",l.size()); }
      else if (w < 90) { int i = R(r,0,nd.size()-1); Ev("has").k("x",i+1).b("r",l.confirmMembership(nd[i])).k("f",in.empty()?0:(int)l.front()->getId()).k("b",in.empty()?0:(int)l.back()->getId()); }
      else if (w < 94 && !in.empty()) {
         auto i = l.begin(); for(size_t q=1;q<in.size();q++) { if (q%2) ++i; else i++; }
         std::vector<int> v; for(size_t q=0;q<in.size();q++) { v.push_back((*i)->getId()); if (q+1<in.size()) { if (q%2) --i; else i--; } }
         Ev("rev").l("c",v).k("n",l.size()); }
      else if (w < 96) { l.clear(); in.clear(); Ev("clear").l("c",c()).k("n",l.size()); }
   }
}
// the content is read after some operations only: reading it may tidy up the array
static void doNDA(int k,Rng& r,int steps) {
   Pool p(1<<16); typedef Node<Key> N; std::vector<N*> nd; NDArray l(R(r,1,4)); int n = 0; bool holes = false, popped = false;
   const int MX = k%10 ? 200 : 1500; for(int i=0;i<MX;i++) { nd.push_back(new (&p) N(&p,Key{i},i+1,true)); nd[i]->setBound(R(r,-9,9)); }
   std::vector<int> bs; for(auto x : nd) bs.push_back((int)x->getBound());
   Ev("case").k("case",k).s("kind","array").l("bound",bs);
   int look = R(r,0,2)*40;
   auto idsFrom = [&](NDArray::iterator i) { std::vector<int> v; for(;i!=l.end();i++) { v.push_back((*i)->getId()); if (v.size() > 2000) break; } return v; };
   auto c = [&]() { return idsFrom(l.begin()); };
   auto fin = [&](Ev& e) { e.k("n",l.size()); bool o = R(r,0,99) >= look; e.b("o",o).l("c",o ? c() : std::vector<int>{}); };
   for(int s=0;s<steps;s++) {
      int w = R(r,0,99);
      if (MX > 200 && s%20==5) { std::vector<int> xs; for(int q=R(r,50,600);q>0 && n < MX;q--) { l.push_back(nd[n]); n++; xs.push_back(n); } Ev("pushs").l("x",xs).k("n",l.size()); continue; }
      if (w < 50 && n < MX) { l.push_back(nd[n]); n++; Ev e("push"); e.k("x",n); fin(e); }
      else if (w < 60 && !holes) { l.sort([](const ANode::Ptr& a,const ANode::Ptr& b) { return a->getBound() < b->getBound(); }); int z = l.size(); Ev e("sorted"); e.l("c",c()).k("n",z); }
      else if (w < 65 && !holes && l.size() > 0) { int at = R(r,0,l.size()); auto f = l.at(at); l.eraseSuffix(f); Ev e("cut"); e.k("at",at); fin(e); }
      else if (w < 78 && l.size() > 0) {   // at(0): the first node, holes or not
         auto it = R(r,0,1) ? l.begin() : l.at(0); auto cs = idsFrom(it); int x = R(r,0,1) ? cs[0] : any(r,cs); while ((int)(*it)->getId() != x) ++it;
         int by = R(r,0,1); NDArray::iterator nx = it; if (by) nx = l.erase(it); else nx.erase();
         holes = true; Ev e("erase"); e.k("x",x).k("r",nx==l.end() ? 0 : (int)(*nx)->getId()); fin(e); }
      else if (w < 86 && l.size() > 0) { int f = R(r,0,1) ? (int)l.front()->getId() : -1; l.pop_front(); holes = popped = true; Ev e("popfront"); e.k("r",f); fin(e); }
      else if (w < 92 && popped && n < MX) { l.push_front(nd[n]); n++; Ev e("pushfront"); e.k("x",n); popped = false; fin(e); }
      else if (w < 94) { l.clear(); holes = popped = false; Ev e("clear"); fin(e); }
      else if (l.size() > 0) {   // backwards
         auto b = l.begin(), i = l.end(); std::vector<int> v; bool post = R(r,0,1);
         do { if (post) i--; else --i; v.push_back(*i ? (int)(*i)->getId() : 0); } while (i != b && v.size() < 2000);
         Ev e("rev"); e.l("c",v).k("n",l.size()); }
   }
}
// ------------------------------------------------------------------ arrays, matrices, ranges
static void doArr(int k,Rng& r,int steps) {
   const int N = 3; Ev("case").k("case",k).k("N",N);
   std::vector<FArray<int>> S(N);
   auto c = [](const FArray<int>& a) { std::vector<int> v; for(auto i=a.begin();i!=a.end();i++) { v.push_back(*i); if (v.size()>500) break; } return v; };
   for(int s=0;s<steps;s++) {
      int w = R(r,0,13), i = R(r,0,N-1), j = R(r,0,N-1), x = R(r,-3,3);
      switch(w) {
         case 0: { int n = R(r,0,9) ? R(r,0,5) : R(r,6,400); S[i] = FArray<int>(n,x); Ev("fill").k("i",i+1).k("x",x).k("m",n).l("c",c(S[i])).k("n",S[i].size()); break; }
         case 1: { int n = R(r,0,9) ? R(r,0,5) : R(r,6,400); FArray<int> t(n); for(int q=0;q<n;q++) t[q] = x+q; S[i] = t; std::vector<int> e; for(int q=0;q<n;q++) e.push_back(x+q); Ev("init").k("i",i+1).l("v",e).l("c",c(S[i])).k("n",S[i].size()); break; }
         case 2: case 3: case 4: if (S[i].size()) { int at = R(r,0,S[i].size()-1); S[i][at] = x; Ev("set").k("i",i+1).k("at",at).k("x",x).l("c",c(S[i])).k("n",S[i].size()); } break;
         case 5: S[i] = S[j]; Ev("copy").k("i",i+1).k("j",j+1).l("c",c(S[i])).k("n",S[i].size()); break;
         case 6: { FArray<int> t(S[j]); FArray<int> u(std::move(t)); S[i] = u; Ev("copy").k("i",i+1).k("j",j+1).l("c",c(S[i])).k("n",S[i].size()); break; }
         case 7: if (i!=j) { S[i] = std::move(S[j]); Ev("move").k("i",i+1).k("j",j+1).l("c",c(S[i])).k("n",S[i].size()).k("nj",S[j].size()); } break;
         case 8: case 9: Ev("eq").k("i",i+1).k("j",j+1).b("eq",S[i]==S[j]).b("h",std::hash<FArray<int>>{}(S[i])==std::hash<FArray<int>>{}(S[j])); break;
         case 10: if (S[i].size()) { int at = R(r,0,S[i].size()-1); const auto& cs = S[i]; Ev("get").k("i",i+1).k("at",at).k("r",cs[at]); } break;
         case 11: { std::vector<int> a = c(S[i]), b = c(S[j]); Ev("veq").k("i",i+1).k("j",j+1).b("h",std::hash<std::vector<int>>{}(a)==std::hash<std::vector<int>>{}(b)); break; }
         default: Ev("snap").k("i",i+1).l("c",c(S[i])); break;
      }
   }
   for(int i=0;i<N;i++) Ev("snap").k("i",i+1).l("c",c(S[i]));
}
template<class M,class F,class G> static void matOps(int k,Rng& r,int steps,std::vector<int> dims,M a,M b,F cell,G rd) {
   Ev("case").k("case",k).l("dims",dims);
   int tot = 1; for(int d : dims) tot *= d;
   auto idx = [&](int o) { std::vector<int> p(dims.size()); for(int i=dims.size()-1;i>=0;i--) { p[i] = o % dims[i]; o /= dims[i]; } return p; };
   M* m[2] = {&a,&b};
   for(int z=0;z<2;z++) for(int o=0;o<tot;o++) { cell(*m[z],idx(o)) = 0; }
   Ev("zero").k("d",0);
   for(int s=0;s<steps;s++) {
      int w = R(r,0,99), z = R(r,0,1); auto p = idx(R(r,0,tot-1)); int x = R(r,1,999);
      if (w < 50) { cell(*m[z],p) = x; Ev("set").k("m",z+1).l("p",p).k("x",x); }
      else if (w < 70) Ev("get").k("m",z+1).l("p",p).k("r",cell(*m[z],p));
      else if (w < 90) Ev("get").k("m",z+1).l("p",p).k("r",rd(*m[z],p));
      else if (w < 95) { *m[z] = *m[1-z]; Ev("copy").k("m",z+1); }
      else { M t(*m[1-z]); *m[z] = t; std::vector<int> ds; for(size_t d=0;d<dims.size();d++) ds.push_back(m[z]->getDim(d)); Ev("copy").k("m",z+1); Ev("dims").k("a",m[z]->getArity()).l("d",ds); }
   }
   if (tot <= 300) {   // printed form: the numbers it shows, one line per cell
      std::ostringstream os; os << *m[0]; std::string t = os.str(); std::istringstream is(t); std::string ln;
      while (std::getline(is,ln)) { for(char& c : ln) if (!isdigit(c)) c = ' '; std::istringstream ns(ln); std::vector<int> q; int x; while (ns >> x) q.push_back(x); Ev("line").l("q",q); }
      Ev("lines").k("m",1);
   }
   for(int z=0;z<2;z++) for(int o=0;o<tot;o++) { auto p = idx(o); Ev("get").k("m",z+1).l("p",p).k("r",o%2 ? rd(*m[z],p) : cell(*m[z],p)); }
}
static void doMat(int k,Rng& r,int steps) {
   int d0 = R(r,1,5), d1 = R(r,1,5), d2 = R(r,1,4), d3 = R(r,1,3);
   if (k%8==0) { int* d[] = {&d0,&d1,&d2,&d3}; *d[R(r,0,3)] = R(r,20,70); }
   // cells are written through references and read through references or constant row proxies
   if (R(r,0,2)==0) { Matrix<int,2> a(d0,d1), b(d0,d1); matOps(k,r,steps,{d0,d1},a,b,[](auto& m,const std::vector<int>& p) -> int& { return m[p[0]][p[1]]; },
      [](auto& m,const std::vector<int>& p) { const auto x = m[p[0]]; return x[p[1]]; }); }
   else if (R(r,0,1)) { int d[] = {d0,d1,d2}; FMatrix<FArray<int>,3> a(d), b(d); matOps(k,r,steps,{d0,d1,d2},a,b,[](auto& m,const std::vector<int>& p) -> int& { return m[p[0]][p[1]][p[2]]; },
      [](auto& m,const std::vector<int>& p) { const auto x = m[p[0]]; const auto y = x[p[1]]; return y[p[2]]; }); }
   else { int d[] = {d0,d1,d2,d3}; FMatrix<FArray<int>,4> a(d), b(d); matOps(k,r,steps,{d0,d1,d2,d3},a,b,[](auto& m,const std::vector<int>& p) -> int& { return m[p[0]][p[1]][p[2]][p[3]]; },
      [](auto& m,const std::vector<int>& p) { const auto x = m[p[0]]; const auto y = x[p[1]]; const auto z = y[p[2]]; return z[p[3]]; }); }
}
static void doRange(int k,Rng& r,int steps) {
   Ev("case").k("case",k);
   for(int s=0;s<steps;s++) {
      int a = R(r,-6,9), b = R(r,-6,9), w = R(r,0,5); if (R(r,0,9)==0) { a = R(r,-100,100); b = R(r,-100,100); } bool far = R(r,0,5)==0; if (far) { a = R(r,-1000000000,1000000000); b = R(r,0,1) ? R(r,-1000000000,1000000000) : a + R(r,-3,3); }
      Range g = w==0 ? Range(a,b) : w==1 ? Range::open(a,b) : w==2 ? Range::close(a,b) : w==3 ? Range::openInc(a,b) : w==4 ? Range::closeInc(a,b) : Range(a,b).flip();
      static const char* nm[] = {"open","open","close","openInc","closeInc","flip"};
      if (far) {   // judged by the ends only
         int m = a + (b-a)/2; std::vector<int> xs = {a-2,a-1,a,a+1,a+2,m,b-2,b-1,b,b+1,b+2,0,R(r,-1000000000,1000000000)}, in; for(int x : xs) in.push_back(g.contains(x));
         Ev("far").s("how",nm[w]).k("a",a).k("b",b).k("n",g.size()).l("x",xs).l("in",in).k("first",g.begin()!=g.end() ? *g.begin() : 2000000000); continue;
      }
      std::vector<int> c; for(auto i=g.begin();i!=g.end();) { c.push_back(*i); if (R(r,0,1)) ++i; else i++; if (c.size() > 400) break; }
      std::vector<int> in; for(int x=-110;x<=110;x++) if (g.contains(x)) in.push_back(x);
      Ev("range").s("how",nm[w]).k("a",a).k("b",b).k("f",g.from()).k("t",g.to()).k("n",g.size()).k("l",g.largest()).l("c",c).l("in",in);
   }
}
// ------------------------------------------------------------------ many components on one pool
// Components born before a mark do not grow until the pool is released to it.
struct Comp { int id, lvl; virtual ~Comp() {} virtual void op(Rng& r,bool grow) = 0; virtual void snap() = 0; };
struct VecC : Comp {
   Vec<int,unsigned> v; VecC(Pool* p,int c) : v(p,c) {}
   void op(Rng& r,bool grow) override {
      int w = R(r,0,9);
      if (w < 6 && grow) for(int n=R(r,0,5)?1:R(r,2,40);n>0;n--) { int x = R(r,0,9999); v.push_back(x); Ev("push").k("i",id).k("x",x).k("n",v.size()); }
      else if (w < 8 && v.size()) { int x = v.pop_back(); Ev("pop").k("i",id).k("r",x).k("n",v.size()); }
      else if (v.size()) { int a = R(r,0,v.size()-1), x = R(r,0,9999); v.at(a,x); Ev("at").k("i",id).k("at",a).k("x",x).k("n",v.size()); }
   }
   void snap() override { std::vector<int> c; for(unsigned i=0;i<v.size();i++) c.push_back(v.get(i)); Ev("vsnap").k("i",id).l("c",c); }
};
struct HeapC : Comp {
   typedef Heap<It,bool(*)(const It&,const It&)> H;
   H h; std::vector<std::pair<int,const H::Location*>> live; int next = 1;
   HeapC(Pool* p,int c) : h(p,c,[](const It& a,const It& b) { return a.key < b.key; }) {}
   void op(Rng& r,bool grow) override {
      int w = R(r,0,9);
      if (w < 6 && grow) for(int n=R(r,0,5)?1:R(r,2,40);n>0;n--) { It x{R(r,-99,99),next++}; live.push_back({x.id,h.insertHeap(x)}); Ev("hins").k("i",id).k("key",x.key).k("id",x.id).k("n",h.size()); }
      else if (w < 8 && h.size()) { It x = h.extractMax(); std::erase_if(live,[&](auto& l) { return l.first==x.id; }); Ev("hext").k("i",id).k("key",x.key).k("id",x.id).k("n",h.size()); }
      else if (!live.empty()) { auto x = any(r,live); h.decrease(const_cast<H::Location*>(x.second)); Ev("hdec").k("i",id).k("id",x.first).k("r",x.second->value().key); }
   }
   void snap() override { std::vector<int> a,b; for(auto& l : live) { const It& x = l.second->value(); a.push_back(x.id); b.push_back(x.key); } Ev("hsnap").k("i",id).l("id",a).l("key",b).k("n",h.size()); }
};
struct MapC : Comp {
   Hashtable<Key,int> t; MapC(Pool* p,int sz) : t(p,sz) {}
   void op(Rng& r,bool grow) override {
      int i = R(r,0,30), val = 0;
      if (grow && R(r,0,1)) { int v = R(r,1,9999); t.insert(Key{i*7},v); Ev("put").k("i",id).k("k",i).k("v",v).k("n",t.size()); }
      else { bool f = t.get(Key{i*7},val); Ev("get").k("i",id).k("k",i).b("f",f).k("v",f?val:0); }
   }
   void snap() override { for(int i=0;i<=30;i+=6) { int val = 0; bool f = t.get(Key{i*7},val); Ev("get").k("i",id).k("k",i).b("f",f).k("v",f?val:0); } }
};
struct NodeC : Comp {     // nodes of a diagram, found by state: their values and labels live on the pool as well
   Pool* p; LHashtable<Key> t; unsigned nid = 1; NodeC(Pool* pp,int sz) : p(pp),t(pp,sz) {}
   void look(int i) { Node<Key>* n = nullptr; t.getLoc(Key{i*7},n); Ev("get").k("i",id).k("k",i).b("f",n!=nullptr).k("v",n ? (int)n->getBound() : 0); }
   void op(Rng& r,bool grow) override {
      int i = R(r,0,30); Node<Key>* n = nullptr; auto a = t.getLoc(Key{i*7},n);
      if (!n && grow) { n = new (p) Node<Key>(p,Key{i*7},nid++,true); t.safeInsertAt(a,n); }
      else if (R(r,0,1)) { look(i); return; }
      if (n) { int v = R(r,1,9999); n->setBound(v); Ev("put").k("i",id).k("k",i).k("v",v).k("n",t.size()); }
   }
   void snap() override { for(int i=0;i<=30;i+=6) look(i); }
};
struct BlkC : Comp {
   unsigned char* a; int sz; unsigned char st = 0; BlkC(Pool* p,int n) : a((unsigned char*)p->allocate(n)),sz(n) { memset(a,0,n); }
   void op(Rng& r,bool) override { st = R(r,1,255); memset(a,st,sz); Ev("write").k("i",id).k("x",st); }
   void snap() override { int bad = 0; for(int i=0;i<sz;i++) bad += a[i]!=st; Ev("read").k("i",id).k("r",a[0]).k("bad",bad); }
};
static void doShared(int k,Rng& r,int steps) {
   static const int segs[] = {64,256,1024,4096,1<<16,1<<20};
   int sg = segs[r()%6]; KMOD = R(r,0,2) ? 0 : R(r,1,3);
   Ev("case").k("case",k).k("seg",sg);
   Pool p(sg); Quiet qt;
   std::vector<std::unique_ptr<Comp>> cs; std::vector<std::pair<PoolMark,int>> marks; int next = 1;
   auto born = [&]() {
      int t = R(r,0,9); const char* nm; Comp* c;
      if (t < 3) { c = new VecC(&p,R(r,0,3)?R(r,1,4):R(r,5,40)); nm = "vec"; }
      else if (t < 5) { c = new HeapC(&p,R(r,1,8)); nm = "heap"; }
      else if (t < 6) { c = new MapC(&p,R(r,0,600)); nm = "map"; }
      else if (t < 7) { c = new NodeC(&p,R(r,0,600)); nm = "map"; }
      else { c = new BlkC(&p,R(r,0,4)?R(r,1,40):R(r,41,600)); nm = "blk"; }
      c->id = next++; c->lvl = marks.size(); cs.emplace_back(c);
      Ev("new").k("i",c->id).s("t",nm);
   };
   auto all = [&]() { for(auto& c : cs) c->snap(); };
   for(int i=R(r,2,6);i>0;i--) born();
   for(int s=0;s<steps;s++) {
      int w = R(r,0,99);
      if (cs.empty() || (w < 8 && cs.size() < 14)) born();
      else if (w < 80) { auto& c = any(r,cs); c->op(r,c->lvl==(int)marks.size()); }
      else if (w < 90) any(r,cs)->snap();
      else if (w < 94 && marks.size() < 3) { marks.push_back({p.mark(),(int)cs.size()}); Ev("mark").k("m",marks.size()); }
      else if (w < 97 && !marks.empty()) {
         int m = R(r,0,marks.size()-1);
         cs.resize(marks[m].second); p.clear(marks[m].first); marks.resize(m); Ev("release").k("m",m+1);
         all();
      }
   }
   all();
}
int main(int argc,char** argv) {
   std::string mode = argv[1];
   int from = atoi(argv[2]), to = atoi(argv[3]), seed = atoi(argv[4]);
   std::map<std::string,std::pair<void(*)(int,Rng&,int),int>> m = {
      {"queue",{doQueue,150}},{"heap",{doHeap,90}},{"table",{doTable,120}},{"pool",{doPool,70}},{"gnset",{doGNSet,120}},{"natset",{doNat,120}},{"set",{doSet,80}},
      {"vec",{doVec,120}},{"uf",{doUF,80}},{"sort",{doSort,12}},{"list",{doList,80}},{"ndarray",{doNDA,60}},{"array",{doArr,80}},{"matrix",{doMat,60}},{"range",{doRange,40}},{"shared",{doShared,150}}};
   LEAKS = mode != "table";    // tables on a pool do not own their keys
   auto it = m.find(mode); if (it==m.end()) return 4;
   return runCases(argv[5],from,to,50,20,[&](int k) {
      Rng r(seed*7919u + k*2654435761u + std::hash<std::string>{}(mode)%1000003);
      it->second.first(k,r,it->second.second);
   });
}
