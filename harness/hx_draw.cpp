// Draws and prints compiled diagrams (AbstractDD::display, AbstractDD::print) with stand-ins for the programs
// dot and open in a scratch folder, and writes down the diagram and what was drawn for DrawTrace.tla.
// usage: hx_draw draw from to seed out
#include "model.hpp"
#include "run.hpp"
#include <map>
#include <regex>
#include <filesystem>
#include <sys/stat.h>
namespace fs = std::filesystem;
typedef ANode::Ptr NP;
static std::string B(bool b) { return b ? "true" : "false"; }
static int LAST = 0;           // layer of the sink
static bool EXACT6 = true;     // six digits, as printed, determine a cost
static int cst(double v) { return EXACT6 ? q4(v) : 0; }
static int toI(const std::string& s) { try { return std::stoi(s); } catch (...) { return -9; } }
static double toD(const std::string& s) { try { return std::stod(s); } catch (...) { return 0.3; } }
struct Arc { int f,t,l,c; };
static std::string arcsJ(const std::vector<Arc>& a) {
   std::ostringstream o; o << "[";
   for(size_t i=0;i<a.size();i++) o << (i?",":"") << "[" << a[i].f << "," << a[i].t << "," << a[i].l << "," << a[i].c << "]";
   o << "]"; return o.str();
}
static std::string txt(AbstractDD::Ptr dd,NP n) { std::ostringstream o; dd->printNode(o,n); return o.str(); }
// the diagram as found from its root; names: printed form of a node -> its number
static void diagram(const char* ev,int k,AbstractDD::Ptr dd,std::map<std::string,int>& names) {
   std::vector<NP> q{dd->getRoot()}; std::set<ANode*> in{q[0].get()}; std::vector<Arc> arcs;
   for(size_t i=0;i<q.size();i++) for(auto e=q[i]->beginKids();e!=q[i]->endKids();e++) {
      NP t = (*e)->_to; if (in.insert(t.get()).second) q.push_back(t);
      arcs.push_back({(int)q[i]->getId(),(int)t->getId(),(*e)->_lbl,cst((*e)->_obj)});
   }
   std::ostringstream o; o << "{\"ev\":\"" << ev << "\",\"case\":" << k << ",\"nodes\":[";
   names.clear();
   for(size_t i=0;i<q.size();i++) {
      const St& s = static_cast<Node<St>*>(q[i].get())->get(); bool sink = s.i >= LAST;
      o << (i?",":"") << "[" << q[i]->getId() << "," << (q[i]->isExact()?1:0) << "," << (sink?1:0) << "," << cst(q[i]->getBound()) << "]";
      names[txt(dd,q[i])] = q[i]->getId();
   }
   o << "],\"arcs\":" << arcsJ(arcs) << "}"; emit(o.str());
}
// the temporary file of the picture: remembered, so that it can be removed
static std::string TEMP;
extern "C" int mkstemp(char* t) { int fd = mkostemp(t,0); if (fd >= 0) TEMP = t; return fd; }
static void script(const std::string& p,const std::string& t) { { std::ofstream f(p); f << t; } chmod(p.c_str(),0755); }
static std::string slurp(const std::string& p) { std::ifstream f(p); std::ostringstream o; o << f.rdbuf(); return o.str(); }
static int files() { int n = 0; for(auto& e : fs::directory_iterator("/proc/self/fd")) { (void)e; n++; } return n; }
// statements of the drawing: "A" [..]; and "A" ->"B" [..];
static void drawing(const std::string& g,const std::map<std::string,int>& names) {
   auto num = [&](const std::string& s) { auto i = names.find(s); return i==names.end() ? -1 : i->second; };
   static const std::regex arc("^\\s*\"([^\"]*)\"\\s*->\\s*\"([^\"]*)\"\\s*\\[(.*)\\];?\\s*$"), node("^\\s*\"([^\"]*)\"\\s*\\[(.*)\\];?\\s*$"),
      col("fillcolor=\"?(\\w+)"), lab("label=\"([^\"(]*)\\((-?[0-9]+)\\)\"");
   std::istringstream is(g); std::string ln; std::smatch m; std::vector<Arc> arcs; std::ostringstream o; bool f = true;
   o << "{\"ev\":\"drawn\",\"nodes\":[";
   while (std::getline(is,ln)) {
      if (std::regex_match(ln,m,arc)) {
         std::smatch q; std::string at = m[3]; Arc a{num(m[1]),num(m[2]),-9,-9};
         if (std::regex_search(at,q,lab)) { a.l = toI(q[2]); a.c = cst(toD(q[1])); }
         arcs.push_back(a);
      } else if (std::regex_match(ln,m,node)) {
         std::smatch q; std::string at = m[2]; std::string c = std::regex_search(at,q,col) ? q[1].str() : "";
         o << (f?"":",") << "[" << num(m[1]) << "," << (c=="green" ? 1 : c=="red" ? 0 : 2) << "," << (at.find("shape=box")!=std::string::npos?1:0) << "]"; f = false;
      }
   }
   o << "],\"arcs\":" << arcsJ(arcs) << "}"; emit(o.str());
}
static void printed(const std::string& s) {
   static const std::regex e("E<([0-9]+) --- (.*)\\((-?[0-9]+)\\) ---> ([0-9]+)");
   std::vector<Arc> arcs;
   for(std::sregex_iterator i(s.begin(),s.end(),e),z;i!=z;++i) arcs.push_back({toI((*i)[1]),toI((*i)[4]),toI((*i)[3]),cst(toD((*i)[2]))});
   emit("{\"ev\":\"printed\",\"arcs\":" + arcsJ(arcs) + "}");
}
int main(int argc,char** argv) {
   int from = atoi(argv[2]), to = atoi(argv[3]), seed = atoi(argv[4]);
   std::string dir = std::string(argv[5]) + ".d"; fs::create_directories(dir + "/empty");
   std::string out = dir + "/seen", sys = getenv("PATH") ? getenv("PATH") : "/usr/bin:/bin";
   script(dir + "/dot","#!/bin/sh\nfor f; do if [ -f \"$f\" ]; then cat \"$f\" > '" + out + "'; echo \"$f\" > '" + out + ".name'; fi; done\n");
   script(dir + "/open","#!/bin/sh\nexit 0\n");
   int rc = runCases(argv[5],from,to,40,60,[&](int k) {
      Model M; Cfg f; f.pSink = (k%3)*15; if (k%5>=3) { f.sparse = true; f.maxK = 7; f.maxN = 9; f.maxL = 5; }
      if (k%16==7) { f.wide = true; f.maxK = 5; f.maxN = 90; f.maxL = 8; f.pSink = 3; }
      M.gen(seed*1000003 + k,f); LAST = M.K; EXACT6 = UNIT == 0.25;
      for(auto& a : M.c) for(auto& b : a) for(int c : b) if (c > 3000 || c < -3000) EXACT6 = false;
      std::mt19937 r(seed*7919 + k*31 + 5);
      Exact ex; int w = f.wide ? 20 + r()%100 : 1 + r()%5; Restricted rs(w); Relaxed rl(w);
      Strategy* all[] = {&ex,&rs,&rl};
      auto dd = mkDD(&M,k&1,k&2); dd->setStrategy(all[k%3]);
      std::map<std::string,int> names; bool missing = k%4==3, viaPrint = (k/3)%2;
      for(int j=0;j<2;j++) {
         { Quiet q; Bounds b(dd); if (j) dd->reset(); dd->compute(b); }
         diagram("dd",k,dd,names);
         // the programs are stand-ins, or not installed at all
         setenv("PATH",(missing ? dir + "/empty" : dir + ":" + sys).c_str(),1);
         TEMP.clear(); unlink(out.c_str()); unlink((out + ".name").c_str());
         pid_t me = getpid(); int open0 = files(); std::ostringstream es; std::string before;
         fflush(nullptr);
         { Quiet q; if (viaPrint) dd->print(es,"g"); else dd->display(); }
         if (getpid() != me) { if (!TEMP.empty()) unlink(TEMP.c_str()); emit("{\"ev\":\"stray\"}"); _exit(0); }    // a copy of this process came back from the call
         while (waitpid(-1,nullptr,0) > 0) {}
         emit("{\"ev\":\"files\",\"more\":" + std::to_string(files() - open0) + "}");
         setenv("PATH",sys.c_str(),1);
         if (!missing) {
            std::string nm = slurp(out + ".name"); if (!nm.empty() && nm.back()=='\n') nm.pop_back();
            drawing(slurp(out),names);
            if (nm.compare(0,5,"/tmp/")==0) unlink(nm.c_str());
         }
         if (TEMP.compare(0,5,"/tmp/")==0) unlink(TEMP.c_str());
         if (viaPrint) printed(es.str());
         diagram("after",k,dd,names);
      }
   });
   fs::remove_all(dir);
   return rc;
}
