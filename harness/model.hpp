// Random layered transition systems ("subset construction") used as user models of CODD.
// A base system has K layers of base states, L labels; a CODD state is (layer, set of base states),
// transition = union of successors, cost = best over the members, merge = union (always a relaxation),
// local bound = best over members of (completion value + slack) (admissible), dominance = same class and
// completion value at least as good (a preorder).  All numbers are integers in quarter units in the
// log and v*UNIT in the closures, so that truncation to int is visible.
#ifndef CODD_VERIF_MODEL
#define CODD_VERIF_MODEL
#include "codd.hpp"
#include <random>
#include <sstream>
#include <string>
#include <vector>
#include <cmath>
// a set of base states.  It owns memory and a moved-from one is empty, like the states of real models.
#ifdef STATE_GN
struct BS {
   GNSet s;
   void set(int b) { s.insert(b); }
   bool operator[](int b) const { return s.contains(b); }
   friend bool operator==(const BS& a,const BS& b) { return a.s==b.s; }
   friend BS operator|(const BS& a,const BS& b) { return BS{a.s | b.s}; }
   friend std::ostream& operator<<(std::ostream& os,const BS& b) { return os << b.s; }
};
template<> struct std::hash<BS> { std::size_t operator()(const BS& a) const noexcept { return std::hash<GNSet>{}(a.s); } };
#else
struct BS {
   std::vector<unsigned> w;
   void set(int b) { while ((int)w.size() <= b/32) w.push_back(0); w[b/32] |= 1u << (b%32); }   // the last word is never 0
   bool operator[](int b) const { return b/32 < (int)w.size() && (w[b/32] >> (b%32) & 1); }
   friend bool operator==(const BS& a,const BS& b) { return a.w==b.w; }
   friend BS operator|(const BS& a,const BS& b) {
      BS r = a.w.size() >= b.w.size() ? a : b; const BS& q = a.w.size() >= b.w.size() ? b : a;
      for(size_t i=0;i<q.w.size();i++) r.w[i] |= q.w[i];
      return r;
   }
   friend std::ostream& operator<<(std::ostream& os,const BS& b) { for(auto x : b.w) os << x << ','; return os; }
};
template<> struct std::hash<BS> { std::size_t operator()(const BS& a) const noexcept { std::size_t h = 7; for(auto x : a.w) h = (h ^ x) * 1099511628211ull; return h ^ (h>>29); } };
#endif
struct St {
   int i; BS m;
   friend std::ostream& operator<<(std::ostream& os,const St& s) { return os << "<" << s.i << "," << s.m << ">"; }
   friend bool operator==(const St& a,const St& b) { return a.i==b.i && a.m==b.m; }
};
template<> struct std::equal_to<St> { bool operator()(const St& a,const St& b) const { return a==b; } };
static int HMOD = 0;
template<> struct std::hash<St> {
   std::size_t operator()(const St& a) const noexcept {
      std::size_t h = std::hash<BS>{}(a.m) * 31 + a.i; return HMOD ? h % HMOD : h;
   }
};
static const int BAD = 1000000000;
static const double INFV = 2147483647.0;
static double UNIT = 0.25;    // a unit of the log in the costs the engine sees: 1/4, sometimes much smaller
inline double real(int v) { return v >= BAD || v <= -BAD ? v/4.0 : v*UNIT; }
// value -> units; anything of the order of the engine's "no value" is +-BAD; non representable -> BAD-7
inline int q4(double v) {
   if (v >= 1e8) return BAD;
   if (v <= -1e8) return -BAD;
   double x = v / UNIT;
   if (std::floor(x) != x || x >= BAD || x <= -BAD) return BAD - 7;
   return (int)x;
}
struct Cfg { int maxK=5, maxN=6, maxL=4, pSink=20; bool wide=false, sparse=false, deep=false; };
// sparse: most labels are not allowed, so that many branches are dead ends
struct Model {
   int K, L; bool mx; std::vector<int> n;
   std::vector<std::vector<std::vector<int>>> to, c;  // to: 0 none, else base index 1..
   std::vector<std::vector<int>> sinkl;
   std::vector<std::vector<int>> h, slack, slackB, cls;
   std::vector<int> lab;
   int refuse, hmod, lgk; bool domSink, nfa = false; int seed;
   St root() const { St s{0,BS()}; for(int b=0;b<n[0];b++) s.m.set(b); return s; }
   int opt() const { return hv(root()); }
   bool better(int a,int b) const { return mx ? a>b : a<b; }
   int bad() const { return mx ? -BAD : BAD; }
   void gen(int sd,const Cfg& f) {
      seed = sd; unsigned us = (sd*2654435761u >> 16) % 6; UNIT = us==0 ? 1.0/1024 : us==1 ? 1.0/1048576 : 0.25;
      std::mt19937 r(sd*2654435761u + 17);
      auto R = [&](int a,int b) { return (int)(a + r() % (unsigned)(b-a+1)); };
      K = R(f.deep ? 12 : f.wide ? 3 : 1,f.maxK); L = R(f.wide ? f.maxL/2 : 1,f.maxL); mx = r() % 2;
      n.assign(K,1);
      for(int i=1;i<K;i++) n[i] = R(f.wide ? f.maxN/2 : 1,f.maxN);
      nfa = !f.wide && r()%3==0;   // several initial base states, costs by layer and label only: exact states are sets
      if (nfa) { n[0] = R(1,4); for(int i=1;i<K;i++) if (n[i]>6) n[i] = 6; }
      int pNone = f.wide ? (f.sparse ? R(20,60) : R(0,20)) : (f.sparse ? R(40,75) : R(0,40)), cm = R(1,12), neg = r()%3==0, quarter = r()%2;
      refuse = r()%3==0 ? R(2,4) : 0;
      hmod = r()%3==0 ? R(1,3) : 0;
      domSink = r()%2;
      int ncls = R(1,3), sl = R(0,6);
      int sch = R(0,3);
      lab.clear();
      for(int l=0;l<L;l++) lab.push_back(sch==0 ? l : sch==1 ? l+1 : sch==2 ? 60+l : 5+37*l);
      lgk = sch < 3 ? R(0,2) : (R(0,1) ? 0 : 2);  // 0 GNSet, 1 Range, 2 NatSet
      int big = r()%6==0 ? (f.deep ? 2000001 : 10000001) : 0;   // sums that single precision or small integers cannot hold
      auto Q = [&](int a,int b) { int v = R(a,b); return quarter ? v*4 + R(0,3) : v*4; };
      auto QC = [&](int a,int b) { int v = Q(a,b); return big ? v + big*R(neg ? -3 : 0,3) : v; };
      to.assign(K,{}); c = to; sinkl.assign(K,{}); slack.assign(K,{}); slackB = cls = slack; h = slack;
      int pS = R(0,2)==0 ? 0 : f.pSink;
      for(int i=0;i<K;i++) {
         sinkl[i].assign(L,0);
         for(int l=0;l<L;l++) sinkl[i][l] = (i==K-1) || R(0,99) < pS;
         for(int b=0;b<n[i];b++) {
            std::vector<int> t(L), cc(L);
            for(int l=0;l<L;l++) {
               t[l] = R(0,99) < pNone ? 0 : (sinkl[i][l] ? 1 : R(1,n[i+1]));
               cc[l] = nfa && b>0 ? c[i][0][l] : QC(neg ? -cm : 0,cm);
            }
            to[i].push_back(t); c[i].push_back(cc);
            int s1 = Q(0,sl); slack[i].push_back(s1); slackB[i].push_back(R(0,s1)); cls[i].push_back(R(0,ncls-1));
         }
      }
      fillH();
      if (f.sparse && opt()==bad() && sd < (1<<30) && attempts++ < 6) gen(sd + (1<<20)*7,f); // prefer feasible ones
      attempts = 0;
   }
   int attempts = 0;
   void fillH() {
      for(int i=K-1;i>=0;i--) {
         h[i].assign(n[i],bad());
         for(int b=0;b<n[i];b++) for(int l=0;l<L;l++) if (to[i][b][l]) {
            int t = sinkl[i][l] ? 0 : h[i+1][to[i][b][l]-1];
            if (t == bad()) continue;
            int v = c[i][b][l] + t;
            if (better(v,h[i][b])) h[i][b] = v;
         }
      }
   }
   bool in(const St& s,int b) const { return s.m[b]; }
   int hv(const St& s) const {
      if (s.i==K) return 0;
      int v = bad();
      for(int b=0;b<n[s.i];b++) if (in(s,b) && better(h[s.i][b],v)) v = h[s.i][b];
      return v;
   }
   int local(const St& s,bool bb) const {
      if (s.i==K) return 0;
      int v = bad();
      for(int b=0;b<n[s.i];b++) if (in(s,b)) {
         int x = h[s.i][b]==bad() ? 0 : h[s.i][b];
         int sl = bb ? slackB[s.i][b] : slack[s.i][b];
         x += mx ? sl : -sl;
         if (better(x,v)) v = x;
      }
      return v;
   }
   int lidx(int label) const { for(int l=0;l<L;l++) if (lab[l]==label) return l; return -1; }
   std::optional<St> tau(const St& s,int label) const {
      int l = lidx(label);
      if (l<0 || s.i<0 || s.i>=K) return std::nullopt;
      BS m; bool any = false;
      for(int b=0;b<n[s.i];b++) if (in(s,b) && to[s.i][b][l]) { any = true; m.set(to[s.i][b][l]-1); }
      if (!any) return std::nullopt;
      if (sinkl[s.i][l]) return St{K,BS()};
      return St{s.i+1,m};
   }
   int cost(const St& s,int label) const {
      int l = lidx(label), v = bad();
      if (l<0 || s.i<0 || s.i>=K) return v;
      for(int b=0;b<n[s.i];b++) if (in(s,b) && to[s.i][b][l] && better(c[s.i][b][l],v)) v = c[s.i][b][l];
      return v;
   }
   unsigned apart(const St& a,const St& b) const { unsigned h = 5; for(int q=0;q<n[a.i];q++) if (in(a,q)!=in(b,q)) h = h*31 + q; return h>>3 ^ h; }
   std::optional<St> merge(const St& a,const St& b) const {
      if (a.i!=b.i || a.i==K) return std::nullopt;
      if (refuse && apart(a,b) % refuse == 0) return std::nullopt;
      return St{a.i,a.m|b.m};
   }
   int clsOf(const St& s) const { for(int q=0;q<n[s.i];q++) if (in(s,q)) return cls[s.i][q]; return 0; }
   bool dom(const St& a,const St& b) const {
      if (a.i==K) return false;
      if (b.i==K) return domSink && hv(a)!=bad() && !better(0,hv(a));
      if (a.i!=b.i) return false;
      return clsOf(a)==clsOf(b) && !better(hv(b),hv(a));
   }
   std::string json() const {
      std::ostringstream o;
      auto arr = [&](const std::vector<int>& v) { o << "["; for(size_t i=0;i<v.size();i++) o << (i?",":"") << v[i]; o << "]"; };
      auto arr2 = [&](const std::vector<std::vector<int>>& v) { o << "["; for(size_t i=0;i<v.size();i++) { o << (i?",":""); arr(v[i]); } o << "]"; };
      auto arr3 = [&](const std::vector<std::vector<std::vector<int>>>& v) { o << "["; for(size_t i=0;i<v.size();i++) { o << (i?",":""); arr2(v[i]); } o << "]"; };
      o << "{\"seed\":" << seed << ",\"K\":" << K << ",\"L\":" << L << ",\"mx\":" << (mx?"true":"false") << ",\"n\":"; arr(n);
      o << ",\"to\":"; arr3(to); o << ",\"c\":"; arr3(c); o << ",\"snk\":"; arr2(sinkl);
      o << ",\"slack\":"; arr2(slack); o << ",\"cls\":"; arr2(cls); o << "}";
      return o.str();
   }
   std::string st(const St& s) const {
      std::ostringstream o; o << "{\"i\":" << s.i << ",\"m\":[";
      bool f = true;
      for(int b=0;b<320;b++) if (s.m[b]) { o << (f?"":",") << b+1; f = false; }
      o << "]}"; return o.str();
   }
};
typedef std::function<bool(const St&,const St&)> DomF;
struct Spy {   // optional observers of the user callbacks
   std::function<void(const St&,LocalContext)> onLocal;
};
template<class CMP,class LS> AbstractDD::Ptr mkWith(const Model* M,bool loc,bool dom,LS lgf,Spy* spy) {
   HMOD = M->hmod;
   auto tgt = [M] { return St{M->K,BS()}; };
   auto stf = [M](const St& s,int l) { return M->tau(s,l); };
   auto stc = [M](const St& s,int l) { return real(M->cost(s,l)); };
   auto smf = [M](const St& a,const St& b) { return M->merge(a,b); };
   auto eqs = [M](const St& s) { return s.i==M->K; };
   std::function<double(const St&,LocalContext)> lo = nullptr;
   if (loc) lo = [M,spy](const St& s,LocalContext x) { if (spy && spy->onLocal) spy->onLocal(s,x); return real(M->local(s,x==BBCtx)); };
   DomF df = nullptr;
   if (dom) df = [M](const St& a,const St& b) { return M->dom(a,b); };
   GNSet all;
   for(int l : M->lab) all.insert(l);
   return DD<St,CMP,decltype(tgt),LS,decltype(stf),decltype(stc),decltype(smf),decltype(eqs),
             double(*)(const St&,LocalContext),DomF>::makeDD(std::function<St()>([M] { return M->root(); }),tgt,lgf,stf,stc,smf,eqs,all,lo,df);
}
template<class CMP> AbstractDD::Ptr mkCmp(const Model* M,bool loc,bool dom,Spy* spy) {
   if (M->lgk==1) {
      auto f = [M](const St&) { return Range::close(M->lab.front(),M->lab.back()); };
      return mkWith<CMP>(M,loc,dom,f,spy);
   } else if (M->lgk==2) {
      auto f = [M](const St&) { NatSet<8> s; for(int l : M->lab) s.insert(l); return s; };
      return mkWith<CMP>(M,loc,dom,f,spy);
   } else {
      auto f = [M](const St&) { GNSet s; for(int l : M->lab) s.insert(l); return s; };
      return mkWith<CMP>(M,loc,dom,f,spy);
   }
}
inline AbstractDD::Ptr mkDD(const Model* M,bool loc,bool dom,Spy* spy=nullptr) {
   return M->mx ? mkCmp<Maximize<double>>(M,loc,dom,spy) : mkCmp<Minimize<double>>(M,loc,dom,spy);
}
#endif
