// Exact diagrams of models in which a state may be reached at different depths (no layers): DagTrace.tla.
// usage: hx_dag MODE from to seed out
#include "codd.hpp"
#include "run.hpp"
#include <map>
#include <random>
#include <sstream>
#include <cmath>
struct DS {      // owns memory; a moved-from state is no state
   std::vector<int> v;
   friend std::ostream& operator<<(std::ostream& os,const DS& s) { return os << (s.v.empty() ? -1 : s.v[0]); }
   friend bool operator==(const DS& a,const DS& b) { return a.v==b.v; }
   int id() const { return v.size()==1 ? v[0] : -1; }
};
template<> struct std::equal_to<DS> { bool operator()(const DS& a,const DS& b) const { return a==b; } };
static int HM = 0;
template<> struct std::hash<DS> { std::size_t operator()(const DS& a) const noexcept { std::size_t h = a.id()*2654435761u; return HM ? h % HM : h; } };
static int q4(double v) { if (v >= 1e8) return 1000000000; if (v <= -1e8) return -1000000000; double x = v*4; return std::floor(x)==x ? (int)x : 999999993; }
struct Dag { int N,L; bool mx; std::vector<std::vector<int>> t,c; };
template<class CMP> static AbstractDD::Ptr mk(const Dag* D) {
   auto tgt = [D] { return DS{{D->N}}; };
   auto lgf = [D](const DS&) { return Range::close(1,D->L); };
   auto stf = [D](const DS& s,int l) -> std::optional<DS> { int u = s.id(); if (u<1 || u>=D->N || !D->t[u-1][l-1]) return std::nullopt; return DS{{D->t[u-1][l-1]}}; };
   auto stc = [D](const DS& s,int l) { return D->c[s.id()-1][l-1]/4.0; };
   auto smf = [](const DS&,const DS&) -> std::optional<DS> { return std::nullopt; };
   auto eqs = [D](const DS& s) { return s.id()==D->N; };
   GNSet all; for(int l=1;l<=D->L;l++) all.insert(l);
   return DD<DS,CMP,decltype(tgt),decltype(lgf),decltype(stf),decltype(stc),decltype(smf),decltype(eqs)>::makeDD(
      std::function<DS()>([] { return DS{{1}}; }),tgt,lgf,stf,stc,smf,eqs,all);
}
typedef ANode::Ptr NP;
static int idOf(NP n) { return static_cast<Node<DS>*>(n.get())->get().id(); }
int main(int argc,char** argv) {
   int from = atoi(argv[2]), to = atoi(argv[3]), seed = atoi(argv[4]);
   LEAKS = true;
   return runCases(argv[5],from,to,100,30,[&](int k) {
      std::mt19937 r(seed*7919 + k*2654435761u);
      auto R = [&](int a,int b) { return (int)(a + r()%(unsigned)(b-a+1)); };
      Dag D; bool wide = k%20==0; D.N = wide ? R(40,300) : R(2,14); D.L = R(1,wide ? 3 : 4); D.mx = r()%2; HM = r()%3 ? 0 : R(1,3);
      int pn = R(0,50), far = r()%2, neg = r()%2;
      for(int u=1;u<D.N;u++) {
         std::vector<int> t(D.L),c(D.L);
         for(int l=0;l<D.L;l++) { t[l] = R(0,99)<pn ? 0 : far ? R(u+1,D.N) : R(u+1,std::min(D.N,u+3)); c[l] = R(neg ? -40 : 0,40); }
         D.t.push_back(t); D.c.push_back(c);
      }
      auto dd = D.mx ? mk<Maximize<double>>(&D) : mk<Minimize<double>>(&D);
      Exact ex; dd->setStrategy(&ex);
      for(int j=0;j<2;j++) {
         { Quiet q; if (j) dd->reset(); Bounds b(dd); dd->compute(b); }
         std::vector<NP> all; std::map<ANode*,int> at; all.push_back(dd->getRoot()); at[all[0].get()] = 1;
         for(size_t i=0;i<all.size() && i<5000;i++)
            for(auto ki=all[i]->beginKids();ki!=all[i]->endKids();ki++) { NP t = (*ki)->_to; if (!at.count(t.get())) { all.push_back(t); at[t.get()] = all.size(); } }
         std::ostringstream o;
         o << "{\"ev\":\"dag\",\"case\":" << k << ",\"first\":" << (j==0 ? "true" : "false") << ",\"nodes\":[";
         for(size_t i=0;i<all.size();i++) {
            NP n = all[i];
            o << (i?",":"") << "{\"s\":" << idOf(n) << ",\"b\":" << q4(n->getBound()) << ",\"ex\":" << (n->isExact() ? 1 : 0) << ",\"lbl\":[";
            bool f = true;
            for(auto x=n->beginOptLabels();x!=n->endOptLabels();++x) { o << (f?"":",") << *x; f = false; }
            o << "],\"par\":["; f = true;
            for(auto p=n->beginPar();p!=n->endPar();p++) { Edge::Ptr e = *p; auto w = at.find(e->_from.get()); o << (f?"":",") << "[" << (w==at.end() ? -5 : w->second) << "," << e->_lbl << "," << (e->_to==n) << "]"; f = false; }
            o << "],\"kids\":["; f = true;
            for(auto p=n->beginKids();p!=n->endKids();p++) { Edge::Ptr e = *p; o << (f?"":",") << "[" << e->_lbl << "," << at[e->_to.get()] << "," << q4(e->_obj) << "," << (e->_from==n) << "]"; f = false; }
            o << "]}";
         }
         auto inc = dd->incumbent();
         o << "],\"val\":" << q4(dd->currentOpt()) << ",\"exact\":" << (dd->isExact() ? 1 : 0) << ",\"inc\":[";
         for(size_t i=0;i<inc.size();i++) o << (i?",":"") << inc[i];
         o << "]";
         if (j==0) {
            auto mat = [&](const std::vector<std::vector<int>>& m) { o << "["; for(size_t i=0;i<m.size();i++) { o << (i?",[":"["); for(size_t x=0;x<m[i].size();x++) o << (x?",":"") << m[i][x]; o << "]"; } o << "]"; };
            o << ",\"N\":" << D.N << ",\"L\":" << D.L << ",\"mx\":" << (D.mx?"true":"false") << ",\"t\":"; mat(D.t); o << ",\"c\":"; mat(D.c);
         }
         o << "}"; emit(o.str());
      }
   });
}
