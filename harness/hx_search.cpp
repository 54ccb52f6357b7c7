// End to end runs of BAndB::search observed through the public API only.
// usage: hx_search MODE from to seed out
#include "model.hpp"
#include "run.hpp"
#include <chrono>
static std::string lbls(const Model& M,const std::vector<int>& v) {
   std::ostringstream o; o << "[";
   for(size_t i=0;i<v.size();i++) o << (i?",":"") << M.lidx(v[i])+1;
   o << "]"; return o.str();
}
static int limOf(const std::string& s) {
   auto p = s.rfind("LIM?:");
   if (p==std::string::npos) return -1;
   return atoi(s.c_str()+p+5);
}
// the incumbent as the Bounds object prints it
static std::vector<int> incOf(const Bounds& b) {
   std::ostringstream os; os << b; std::string s = os.str(); std::vector<int> v;
   auto p = s.rfind("INC:"); if (p==std::string::npos) return v;
   auto q = s.find('[',p); if (q==std::string::npos) q = p+4;
   for(const char* c = s.c_str()+q;*c;) if (isdigit(*c) || (*c=='-' && isdigit(c[1]))) { char* e; v.push_back(strtol(c,&e,10)); c = e; } else c++;
   return v;
}
// Captures the prints of the search; each progress line B&B(n) dual primal gap% time becomes an event at the
// moment it is printed.  Six decimals are printed: tol is what that leaves open, in units.
struct Watch : std::streambuf {
   std::string all, line; std::streambuf* old;
   Watch() : old(std::cout.rdbuf(this)) {}
   ~Watch() { std::cout.rdbuf(old); std::cout.precision(6); std::cout.unsetf(std::ios::floatfield); }
   int overflow(int c) override { if (c != EOF) put((char)c); return c==EOF ? 0 : c; }
   std::streamsize xsputn(const char* s,std::streamsize n) override { for(std::streamsize i=0;i<n;i++) put(s[i]); return n; }
   void put(char c) { all += c; if (c=='\n') { look(); line.clear(); } else line += c; }
   static int units(double v) { if (v >= 1e8) return BAD; if (v <= -1e8) return -BAD; double x = std::round(v/UNIT); return x >= BAD ? BAD : x <= -BAD ? -BAD : (int)x; }
   void look() {
      auto p = line.find("B&B("), q = line.find(')',p==std::string::npos ? 0 : p); if (p==std::string::npos || q==std::string::npos) return;
      std::istringstream is(line.substr(q+1)); std::string d,pr,g; is >> d >> pr >> g;
      auto num = [](const std::string& s,double& v) { char* e; v = strtod(s.c_str(),&e); return e!=s.c_str() && std::isfinite(v); };
      double dv = 0, pv = 0, gv = 0; if (!num(pr,pv)) return;
      bool hd = num(d,dv), hg = g.find('%')!=std::string::npos && num(g,gv) && std::fabs(gv) <= 100;
      auto t = line.find("time:"); double tv = -1; if (t!=std::string::npos) num(line.substr(t+5),tv);
      std::ostringstream o;
      o << "{\"ev\":\"prog\",\"n\":" << atoi(line.c_str()+p+4) << ",\"hasd\":" << (hd?"true":"false") << ",\"dual\":" << units(dv) << ",\"primal\":" << units(pv)
        << ",\"hasg\":" << (hg?"true":"false") << ",\"gap\":" << (long)std::lround(gv*10000) << ",\"tol\":" << (UNIT < 2e-6 ? 1 : 0) << ",\"ms\":" << (long)std::lround(tv*1000) << "}";
      emit(o.str());
   }
};
// the last line Done(width):primal #nodes:explored/taken; dtol: what the printed digits leave open, in units
static std::string doneOf(const std::string& s) {
   double v = 0; int a = -1, b = -1; bool ok = false; auto p = s.rfind("Done("), q = p==std::string::npos ? p : s.find("):",p);
   if (q!=std::string::npos) { char* e; v = strtod(s.c_str()+q+2,&e); ok = e != s.c_str()+q+2 && std::isfinite(v); }
   auto n = p==std::string::npos ? p : s.find("#nodes:",p); if (n!=std::string::npos) sscanf(s.c_str()+n+7," %d/%d",&a,&b);
   std::ostringstream o; o << ",\"done\":" << Watch::units(v) << ",\"hasv\":" << (ok?"true":"false") << ",\"dtol\":" << (long)std::min(1e9,std::ceil(std::fabs(v)*1e-5/UNIT) + 1) - (UNIT==0.25 && std::fabs(v) < 1000 ? 1 + (long)std::ceil(std::fabs(v)*1e-5/UNIT) : 0)
     << ",\"nn\":" << a << ",\"nt\":" << b;
   return o.str();
}
static SolutionCB logger(const Model& M,Bounds& b,const char* ev) {
   return [&M,&b,ev](const std::vector<int>& inc) {
      std::ostringstream o;
      o << "{\"ev\":\"" << ev << "\",\"val\":" << q4(b.getPrimal()) << ",\"lbl\":" << lbls(M,inc) << "}";
      emit(o.str());
   };
}
// one search on a fresh or given Bounds; reg: 0 no new callback, 1 one, 2 two; burn: CPU time spent in the limit predicate (ms)
static void oneSearch(const Model& M,AbstractDD::Ptr dd,int w,Bounds& b,int reg,int limitAt,bool withLimit,double burn=0) {
   if (reg > 0) b.onSolution(logger(M,b,"sol"));
   if (reg > 1) b.onSolution(logger(M,b,"sol2"));
   BAndB e(dd,w);
   int calls = 0;
   typedef std::chrono::high_resolution_clock Clk; typedef std::chrono::duration<double,std::milli> Ms;
   auto began = Clk::now(), asked = began, left = began;   // before the search, first call of the predicate, last return of it
   if (withLimit)
      e.setTimeLimit([&](double ms) {
         auto here = Clk::now();
         if (calls++ == 0) asked = left = here;
         long lo = (long)std::floor(Ms(left-asked).count()) - 1, hi = (long)std::ceil(Ms(here-began).count()) + 1;
         bool stop = limitAt >= 0 && calls > limitAt;
         std::ostringstream o;
         o << "{\"ev\":\"tick\",\"ms\":" << (long)ms << ",\"lo\":" << lo << ",\"hi\":" << hi << ",\"stop\":" << (stop?"true":"false") << "}";
         emit(o.str());
         if (burn > 0) { auto t = Clk::now(); while (Ms(Clk::now()-t).count() < burn) {} }
         left = Clk::now();
         return stop;
      });
   std::string txt;
   { Watch q; e.search(b); txt = q.all; }
   std::ostringstream o;
   o << "{\"ev\":\"end\",\"primal\":" << q4(b.getPrimal()) << ",\"lim\":" << limOf(txt) << ",\"inc\":" << lbls(M,incOf(b)) << doneOf(txt) << "}";
   emit(o.str());
}
static void head(int k,const Model& M,int w,bool loc,bool dom,int warm,bool lim,bool first,bool keep,bool cb=true) {
   std::ostringstream o;
   o << "{\"ev\":\"case\",\"case\":" << k << ",\"w\":" << w << ",\"loc\":" << (loc?"true":"false") << ",\"dom\":" << (dom?"true":"false")
     << ",\"warm\":" << warm << ",\"lim\":" << (lim?"true":"false") << ",\"first\":" << (first?"true":"false")
     << ",\"keep\":" << (keep?"true":"false") << ",\"cb\":" << (cb?"true":"false");
   if (first) o << ",\"model\":" << M.json();
   o << "}";
   emit(o.str());
}
int main(int argc,char** argv) {
   std::string mode = argv[1];
   int from = atoi(argv[2]), to = atoi(argv[3]), seed = atoi(argv[4]);
   int per = mode=="options" || mode=="reuse" ? 20 : 100;
   LEAKS = true;
   return runCases(argv[5],from,to,per,mode=="big"?120:30,[&](int k) {
      Model M; Cfg f;
      f.pSink = (k%3)*15;
      if (k%5>=2) { f.sparse = k%5>2; f.maxK = 8; f.maxN = 9; f.maxL = 5; }
      if (mode=="report" || (mode=="det" && k%2)) { f.maxK = 9 + k%4; f.maxN = 9; f.maxL = 6; f.sparse = k%3==0; f.pSink = (k%3)*8; }
      if (mode=="big") { f.wide = true; f.maxK = 7; f.maxN = 40 + (k%3)*100; f.maxL = 7; f.pSink = (k%3)*5; }
      if (mode=="deep") { f.deep = true; f.sparse = false; f.maxK = 12 + (k%3)*14; f.maxN = 2 + k%4; f.maxL = 3; f.pSink = (k%4)*2; }
      M.gen(seed*1000003 + k,f);
      std::mt19937 r(seed*7919 + k*31 + 5);
      int w = 1 + r()%5;
      if (mode=="report" || mode=="det") w = 1 + r()%3;
      if (mode=="big") w = (r()%2) ? 40 + r()%200 : 5 + r()%40;
      int v = k%4;
      const int none = M.bad();
      if (mode=="plain" || mode=="big" || mode=="deep" || mode=="report") {
         int cb = (k/4)%8;   // how the solutions are observed: callback, constructor, two callbacks, none
         head(k,M,w,v&1,v&2,none,false,true,false,cb!=7);
         if (cb==6) { Bounds* p = nullptr; Bounds b([&](const std::vector<int>& inc) { logger(M,*p,"sol")(inc); }); p = &b; oneSearch(M,mkDD(&M,v&1,v&2),w,b,0,-1,false); }
         else { Bounds b; oneSearch(M,mkDD(&M,v&1,v&2),w,b,cb==7 ? 0 : cb==5 ? 2 : 1,-1,false); }
      } else if (mode=="warm") {   // primal given by the user before the search
         int opt = M.opt(); if (opt==M.bad()) opt = 0;
         int warm = opt + ((int)(r()%17) - 8)*(1 + (int)(r()%4));
         bool cb = (k/4)%3!=2;
         head(k,M,w,v&1,v&2,warm,false,true,false,cb);
         Bounds b; b.setPrimal(real(warm));
         oneSearch(M,mkDD(&M,v&1,v&2),w,b,cb,-1,false);
      } else if (mode=="limit") {
         int at = (k%5==0) ? -1 : r()%6;
         head(k,M,w,v&1,v&2,none,true,true,false);
         Bounds b; oneSearch(M,mkDD(&M,v&1,v&2),w,b,1,at,true,k%16==0 ? 3 : 0);
      } else if (mode=="options") { // the same model under every option and several widths
         bool first = true;
         int hm[2] = {0,1};
         for(int o=0;o<4;o++) for(int j=0;j<3;j++) {
            int ww = j==0 ? 1 : j==1 ? 2 + (int)(r()%4) : 64;
            M.hmod = hm[(o+j)%2]; M.lgk = (M.lab.back()-M.lab.front()==M.L-1) ? (o+j)%3 : ((o+j)%2)*2;
            head(k,M,ww,o&1,o&2,none,false,first,!first); first = false;
            Bounds b; oneSearch(M,mkDD(&M,o&1,o&2),ww,b,1,-1,false);
         }
      } else if (mode=="det") {     // the same search again, in other memory with other content
         std::vector<std::unique_ptr<char[]>> junk;
         for(int j=0;j<3;j++) {
            mallopt(M_PERTURB,j==0 ? 0 : j==1 ? 0x5a : 0xfe);
            for(int i=r()%20;i>0;i--) { size_t n = 16 << (r()%18); junk.emplace_back(new char[n]); memset(junk.back().get(),0xa0 + j,n); if (r()%2) std::swap(junk.back(),junk[r()%junk.size()]); }
            if (j==2) junk.clear();
            head(k,M,w,v&1,v&2,none,false,j==0,j>0);
            Bounds b; oneSearch(M,mkDD(&M,v&1,v&2),w,b,1,-1,false);
         }
      } else if (mode=="reuse") {
         // several searches with the same engine model object, fresh Bounds or the same Bounds
         auto dd = mkDD(&M,v&1,v&2);
         bool first = true;
         for(int j=0;j<3;j++) {
            int ww = 1 + r()%5;
            head(k,M,ww,v&1,v&2,none,false,first,!first); first = false;
            Bounds b; oneSearch(M,dd,ww,b,1,-1,false);
         }
         Bounds b; int from = r()%4;   // the callback is added before one of the searches, or never
         for(int j=0;j<3;j++) {
            int ww = 1 + r()%5;
            bool given = j!=1 && r()%2;
            if (given) b.setPrimal(real((M.opt()==none ? 0 : M.opt()) + (M.mx ? 1 : -1)*(int)(r()%6)));   // at least as good as the optimum
            int warm = j==0 && !given ? none : q4(b.getPrimal());
            head(k,M,ww,v&1,v&2,warm,false,false,true,j>=from);
            oneSearch(M,j==1 ? mkDD(&M,v&1,v&2) : dd,ww,b,j==from,-1,false);
         }
      }
   });
}
