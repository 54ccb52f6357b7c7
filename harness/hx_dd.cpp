// Compiles diagrams with the public API and writes them out, layer by layer, for DiagramTrace.tla;
// mode "bnb" drives the branch and bound building blocks under arbitrary schedules for BnBTrace.tla.
// usage: hx_dd MODE from to seed out
#include "model.hpp"
#include "run.hpp"
#include <map>
#include <deque>
#ifdef __SANITIZE_ADDRESS__
extern "C" void* verif_last_block;    // poison.cpp
#endif
typedef ANode::Ptr NP;
static const St& stOf(NP n) { return static_cast<Node<St>*>(n.get())->get(); }
static std::string B(bool b) { return b ? "true" : "false"; }
template<class V> static std::string lbls(const Model& M,V b,V e) {
   std::ostringstream o; o << "["; bool f = true;
   for(auto it=b;it!=e;++it) { int x = *it; o << (f?"":",") << M.lidx(x)+1; f = false; }
   o << "]"; return o.str();
}
static std::string lblOf(const Model& M,NP n) { return lbls(M,n->beginOptLabels(),n->endOptLabels()); }
typedef std::map<ANode*,int> Ids;   // nodes are named by the order in which they are found
static std::string nodeJ(const Model& M,NP n,const Ids* ids=nullptr) {
   auto idOf = [&](NP x) { if (!ids) return (int)x->getId(); auto i = ids->find(x.get()); return i==ids->end() ? -5 : i->second; };
   std::ostringstream o;
   o << "{\"id\":" << idOf(n) << ",\"st\":" << M.st(stOf(n)) << ",\"b\":" << q4(n->getBound()) << ",\"bb\":" << q4(n->getBackwardBound())
     << ",\"ex\":" << B(n->isExact()) << ",\"ly\":" << n->getLayer() << ",\"lbl\":" << lblOf(M,n) << ",\"par\":[";
   bool f = true;
   for(auto p=n->beginPar();p!=n->endPar();p++) { Edge::Ptr e = *p; o << (f?"":",") << "[" << idOf(e->_from) << "," << M.lidx(e->_lbl)+1 << "," << (e->_to==n?1:0) << "]"; f = false; }
   o << "]}"; return o.str();
}
struct Opt { std::string strat; int w; bool loc,dom; int primal; bool same; };
// log a compiled diagram
static void dump(const Model& M,AbstractDD::Ptr dd,const Opt& o,int k,bool first,bool applied,bool better,int after,NP src) {
   NP root = dd->getRoot();
   Ids ids; std::vector<std::vector<NP>> lay(M.K+1); NP sink = nullptr;
   int last = 0;
   ids[root.get()] = ++last; lay[stOf(root).i].push_back(root);
   for(int i=stOf(root).i;i<M.K;i++)
      for(NP n : lay[i])
         for(auto ki=n->beginKids();ki!=n->endKids();ki++) {
            NP t = (*ki)->_to;
            if (ids.count(t.get())) continue;
            if (stOf(t).i>=M.K) { sink = t; ids[t.get()] = 0; }
            else if (stOf(t).i!=i+1) ids[t.get()] = -7;      // not a node of the next layer
            else { ids[t.get()] = ++last; lay[i+1].push_back(t); }
         }
   {
      std::ostringstream os;
      os << "{\"ev\":\"begin\",\"case\":" << k << ",\"first\":" << B(first) << ",\"strat\":\"" << o.strat << "\",\"w\":" << o.w
         << ",\"loc\":" << B(o.loc) << ",\"dom\":" << B(o.dom) << ",\"ref\":" << B(M.refuse!=0) << ",\"primal\":" << o.primal << ",\"same\":" << B(o.same)
         << ",\"root\":" << nodeJ(M,root,&ids) << ",\"src\":" << (src ? nodeJ(M,src) : nodeJ(M,root));
      if (first) os << ",\"model\":" << M.json();
      os << "}"; emit(os.str());
   }
   for(int i=stOf(root).i;i<M.K;i++) {
      std::ostringstream os; os << "{\"ev\":\"layer\",\"out\":[";
      for(size_t j=0;j<lay[i].size();j++) {
         NP p = lay[i][j]; bool f = true;
         os << (j?",[":"[");
         for(auto ki=p->beginKids();ki!=p->endKids();ki++) {
            Edge::Ptr e = *ki;
            os << (f?"":",") << "[" << M.lidx(e->_lbl)+1 << "," << ids[e->_to.get()] << "," << q4(e->_obj) << "," << (e->_from==p?1:0) << "]"; f = false;
         }
         os << "]";
      }
      os << "],\"nodes\":["; bool f = true;
      for(NP n : lay[i+1]) { os << (f?"":",") << nodeJ(M,n,&ids); f = false; }
      os << "]}"; emit(os.str());
   }
   std::ostringstream os; auto inc = dd->incumbent();
   auto cs = o.strat=="relaxed" ? dd->computeCutSet() : std::vector<NP>{};
   os << "{\"ev\":\"close\",\"exact\":" << B(dd->isExact()) << ",\"cur\":" << q4(dd->currentOpt()) << ",\"inc\":" << lbls(M,inc.begin(),inc.end())
      << ",\"sink\":" << (sink ? nodeJ(M,sink,&ids) : std::string("{\"id\":0,\"st\":{\"i\":0,\"m\":[]},\"b\":0,\"bb\":0,\"ly\":0,\"ex\":true,\"lbl\":[],\"par\":[]}"))
      << ",\"applied\":" << B(applied) << ",\"better\":" << B(better) << ",\"after\":" << after << ",\"cut\":[";
   for(size_t i=0;i<cs.size();i++) { auto it = ids.find(cs[i].get()); os << (i?",":"") << (it==ids.end() ? -5 : it->second); }
   os << "]}"; emit(os.str());
}
static std::vector<std::shared_ptr<void>> OWN;      // the strategies of a case
struct Release { ~Release() { OWN.clear(); } };
template<class S> static S* own(S* s) { OWN.push_back(std::shared_ptr<S>(s)); return s; }
static Strategy* mkS(const std::string& s,int w) {
   if (s=="exact") return own(new Exact);
   if (s=="restricted") return own(new Restricted(w));
   return own(new Relaxed(w));
}
static Bounds mkB(AbstractDD::Ptr dd,int primal,int none) {
   if (primal==none) return Bounds(dd);
   Bounds b; b.setPrimal(real(primal)); return b;
}
int main(int argc,char** argv) {
   std::string mode = argv[1];
   int from = atoi(argv[2]), to = atoi(argv[3]), seed = atoi(argv[4]);
   std::string base = mode.substr(0,mode.find('-'));
   bool wide = mode.find("-wide")!=std::string::npos;
   LEAKS = true;
   return runCases(argv[5],from,to,40,wide?120:30,[&](int k) {
      Release rel0; Model M; Cfg f; f.pSink = (k%3)*15;
      if (k%5>=3) { f.sparse = true; f.maxK = 7; f.maxN = 9; f.maxL = 5; }
      if (base=="bnb") { f.maxK = 8; f.maxN = 9; f.maxL = 5; }
      if (wide) { f.wide = true; f.maxK = 5; f.maxN = 40 + (k%3)*130; f.maxL = 10; f.pSink = (k%3)*4; }
      if (mode.find("-deep")!=std::string::npos) { f.deep = true; f.sparse = false; f.maxK = 12 + (k%3)*14; f.maxN = 2 + k%4; f.maxL = 3; f.pSink = (k%4)*2; }
      M.gen(seed*1000003 + k + (base=="exact"?1:base=="restricted"?2:base=="relaxed"?3:4)*7919*131,f);
      if (base=="relaxed" && wide) M.refuse = 0;
      std::mt19937 r(seed*7919 + k*31 + 5);
      int v = k%4; bool loc = v&1, dom = v&2;
      const int none = M.bad();
      int opt = M.opt()==none ? 0 : M.opt();
      auto prim = [&]() { return r()%3 ? none : opt + ((int)(r()%25) - 12)*(1 + (int)(r()%3)); };
      auto W = [&]() { return wide ? (int)(r()%3 ? 20 + r()%160 : 1 + r()%20) : 1 + (int)(r()%5); };
      std::vector<std::pair<std::string,int>> dumps;
      if (base=="exact") {
         // the exact diagram, and that of a subproblem
         auto dd = mkDD(&M,loc,dom); dd->setStrategy(mkS("exact",0));
         Opt o{"exact",0,loc,dom,prim(),false};
         { Quiet q; Bounds b = mkB(dd,o.primal,none); dd->compute(b); }
         dump(M,dd,o,k,true,false,false,0,nullptr);
         if (k%3==0) {
            auto rel = dd->duplicate(); rel->setStrategy(mkS("relaxed",wide ? W() : 1 + r()%3));
            AbstractNodeAllocator::Ptr pool = rel->makeNDAllocator(); std::vector<NP> roots;
            { Quiet q; Bounds b(rel); rel->compute(b);
              roots.push_back(pool->cloneNode(rel->getRoot()));
              for(NP n : rel->computeCutSet()) { NP c = pool->cloneNode(n); if (c) roots.push_back(c); } }
            NP src = roots[r()%roots.size()];
            auto fresh = dd->duplicate(); fresh->setStrategy(mkS("exact",0));
            o.primal = prim();
            for(int j=0;j<2;j++) {
               auto x = j ? fresh : dd; o.same = j==1;
               bool better; int after;
               { Quiet q; Bounds b = mkB(x,o.primal,none); better = x->apply(src,b); after = q4(b.getPrimal()); }
               dump(M,x,o,k,false,true,better,after,src);
            }
         }
      } else if (mode.find("-mix")!=std::string::npos) {
         // one diagram object, its strategy and width changed between compilations; each compilation is
         // repeated on an object that never compiled anything
         auto dd = mkDD(&M,loc,dom), proto = dd->duplicate(), rel = dd->duplicate();
         rel->setStrategy(mkS("relaxed",1 + r()%3));
         AbstractNodeAllocator::Ptr pool = rel->makeNDAllocator(); std::vector<NP> roots;
         { Quiet q; Bounds b(rel); rel->compute(b);
           roots.push_back(pool->cloneNode(rel->getRoot()));
           for(NP n : rel->computeCutSet()) { NP c = pool->cloneNode(n); if (c) roots.push_back(c); } }
         static const char* SN[3] = {"exact","restricted","relaxed"};
         std::string cur; WidthBounded* cw = nullptr; int w = 0; bool applied = false;   // once applied, an object has no other root
         for(int j=0;j<5;j++) {
            if (j==0 || r()%3) {        // another strategy
               cur = SN[r()%3]; w = 1 + r()%5;
               Strategy* s = mkS(cur,w); cw = cur=="exact" ? nullptr : static_cast<WidthBounded*>(s);
               dd->setStrategy(s);
            } else if (cw) { w = 1 + r()%5; cw->setWidth(w); }
            if (cur=="exact") w = 0;
            auto fresh = proto->duplicate(); fresh->setStrategy(mkS(cur,w));
            Opt o{cur,w,loc,dom,prim(),false};
            bool again = applied || (j && r()%4); applied = again; NP src = again ? roots[r()%roots.size()] : nullptr;
            for(int t=0;t<2;t++) {
               auto x = t ? fresh : dd; o.same = t==1;
               bool better = false; int after = 0;
               { Quiet q; Bounds b = mkB(x,o.primal,none);
                 if (src) { better = x->apply(src,b); after = q4(b.getPrimal()); }
                 else { if (j && !t) x->reset(); x->compute(b); } }
               dump(M,x,o,k,j==0 && t==0,(bool)src,better,after,src);
            }
         }
      } else if (base=="restricted" || base=="relaxed") {
         auto dd = mkDD(&M,loc,dom); auto fresh = dd->duplicate();
         int w = W();
         dd->setStrategy(mkS(base,w));
         Opt o{base,w,loc,dom,prim(),false};
         { Quiet q; Bounds b = mkB(dd,o.primal,none); dd->compute(b); }
         dump(M,dd,o,k,true,false,false,0,nullptr);
         // subproblems, as the branch and bound builds them: clone cutset nodes, apply on a reused diagram
         auto rel = dd->duplicate(); rel->setStrategy(mkS("relaxed",wide ? W() : 1 + r()%3));
         AbstractNodeAllocator::Ptr pool; std::vector<NP> roots;
         { Quiet q; Bounds b(rel); rel->compute(b); pool = rel->makeNDAllocator();
           roots.push_back(pool->cloneNode(rel->getRoot()));
           for(NP n : rel->computeCutSet()) { NP c = pool->cloneNode(n); if (c) roots.push_back(c); } }
         int cnt = wide ? 1 : 3;
         std::shuffle(roots.begin(),roots.end(),r);
         for(int j=0;j<cnt && j<(int)roots.size();j++) {
            NP src = roots[j];
            Opt o2{base,w,loc,dom,prim(),false};
            bool better; int after;
            if (j==0 && k%20==7) { Quiet q; for(int i=0;i<255;i++) dd->reset(); }    // a much used object
            { Quiet q; Bounds b = mkB(dd,o2.primal,none); better = dd->apply(src,b); after = q4(b.getPrimal()); }
            dump(M,dd,o2,k,false,true,better,after,src);
            if (j==0) { // the same subproblem on a diagram that never compiled anything: identical
               fresh->setStrategy(mkS(base,w));
               o2.same = true;
               { Quiet q; Bounds b = mkB(fresh,o2.primal,none); better = fresh->apply(src,b); after = q4(b.getPrimal()); }
               dump(M,fresh,o2,k,false,true,better,after,src);
            }
         }
#ifdef __SANITIZE_ADDRESS__
         if (!roots.empty()) {   // compiling the same subproblem again and again needs no more memory
            NP src = roots[0]; std::vector<char*> at; std::size_t a = 0, c = 0;
            for(int j=0;j<6;j++) {
               { Quiet q; Bounds b = mkB(dd,none,none); dd->apply(src,b); }
               at.push_back((char*)verif_last_block); a = c; c = __sanitizer_get_current_allocated_bytes();
            }
            bool grows = true; for(int j=2;j<6;j++) grows = grows && at[j] > at[j-1];
            std::ostringstream os; os << "{\"ev\":\"owned\",\"more\":" << (grows ? 1 : c > a ? 2 : 0) << "}"; emit(os.str());
         }
#endif
      } else if (base=="bnb") {
         // branch and bound with an arbitrary node selection and arbitrary widths, built from the
         // library's own components
         auto proto = mkDD(&M,loc,dom);
         AbstractDD::Ptr rel = proto->duplicate(), res = proto->duplicate();
         WidthBounded *sr = own(new Relaxed(1)), *ss = own(new Restricted(1));
         rel->setStrategy(sr); res->setStrategy(ss);
         Bounds b; b.attach(rel);
         std::vector<std::string> sols;
         b.onSolution([&](const std::vector<int>& inc) { sols.push_back(lbls(M,inc.begin(),inc.end())); });
         auto pool = proto->makeNDAllocator();
         std::vector<NP> open;
         NP rootN; { Quiet q; rootN = pool->cloneNode(rel->init()); }
         { std::ostringstream o; o << "{\"ev\":\"start\",\"case\":" << k << ",\"loc\":" << B(loc) << ",\"dom\":" << B(dom) << ",\"root\":" << nodeJ(M,rootN) << ",\"model\":" << M.json() << "}"; emit(o.str()); }
         open.push_back(rootN);
         int steps = 0, minw = 1;
         auto jsols = [&]() { std::string t = "["; for(size_t i=0;i<sols.size();i++) t += (i?",":"") + sols[i]; sols.clear(); return t + "]"; };
         auto relaxEv = [&](NP x,bool db) {
            std::ostringstream o;
            o << "{\"ev\":\"relax\",\"x\":" << nodeJ(M,x) << ",\"better\":" << B(db) << ",\"exact\":" << B(rel->isExact()) << ",\"cur\":" << q4(rel->currentOpt())
              << ",\"sols\":" << jsols() << ",\"primal\":" << q4(b.getPrimal()) << "}";
            emit(o.str());
         };
         while (!open.empty() && steps++ < 60) {
            int at = r()%open.size(); NP x = open[at]; open.erase(open.begin()+at);
            int w1 = minw + r()%4, w2 = 1 + r()%4; sr->setWidth(w1); ss->setWidth(w2);
            sols.clear();
            bool db; { Quiet q; db = rel->apply(x,b); }
            relaxEv(x,db);
            if (!db) continue;
            bool pb; { Quiet q; pb = res->apply(x,b); }
            { std::ostringstream o;
              o << "{\"ev\":\"restrict\",\"better\":" << B(pb) << ",\"exact\":" << B(res->isExact()) << ",\"cur\":" << q4(res->currentOpt())
                << ",\"sols\":" << jsols() << ",\"primal\":" << q4(b.getPrimal()) << "}"; emit(o.str()); }
            if (res->isExact() || rel->isExact()) continue;
            std::ostringstream o; o << "{\"ev\":\"branch\",\"cut\":["; bool ff = true;
            for(NP n : rel->computeCutSet()) {
               bool isRoot = n==rel->getRoot();
               NP c = isRoot ? x : pool->cloneNode(n);
               o << (ff?"":",") << "{\"n\":" << nodeJ(M,n) << ",\"root\":" << B(isRoot) << ",\"kept\":" << B((bool)c)
                 << ",\"got\":" << (c ? nodeJ(M,c) : nodeJ(M,n)) << "}"; ff = false;
               if (isRoot) minw = w1 + 1;
               if (c && std::find(open.begin(),open.end(),c)==open.end()) open.push_back(c);
            }
            o << "]}"; emit(o.str());
         }
         std::ostringstream o; o << "{\"ev\":\"finish\",\"open\":" << open.size() << ",\"primal\":" << q4(b.getPrimal()) << "}"; emit(o.str());
      }
   });
}
