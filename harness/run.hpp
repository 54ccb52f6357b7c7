// Runs numbered cases in short lived child processes and writes their events as NDJSON.
// A crash, an abort, an uncaught exception or exhaustion of the CPU budget of a case becomes an
// event {"ev":"crash"} of that case: no specification has such an action.
#ifndef CODD_VERIF_RUN
#define CODD_VERIF_RUN
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <functional>
#include <iostream>
#include <fstream>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <malloc.h>
static FILE* LOG = nullptr;
inline void emit(const std::string& s) { fwrite(s.data(),1,s.size(),LOG); fputc('\n',LOG); fflush(LOG); }
#ifdef __SANITIZE_ADDRESS__
extern "C" std::size_t __sanitizer_get_current_allocated_bytes();
#endif
static bool LEAKS = false;     // check that cases give back the memory they use
struct Shared { volatile int cur; volatile int started; };
// fn(case) must log the event "case" first.
inline int runCases(const char* out,int from,int to,int per,int cpuSec,std::function<void(int)> fn) {
   unlink(out);
   Shared* sh = (Shared*)mmap(nullptr,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
   int at = from, crashes = 0;
   while (at < to) {
      int end = std::min(to,at+per);
      sh->cur = at;
      fflush(stdout);
      pid_t p = fork();
      if (p==0) {
         struct rlimit z = {0,0}; setrlimit(RLIMIT_CORE,&z);
         #ifndef __SANITIZE_ADDRESS__
         struct rlimit mem = {(rlim_t)3<<30,(rlim_t)3<<30}; setrlimit(RLIMIT_AS,&mem);
#endif
         int nul = open("/dev/null",O_WRONLY); dup2(nul,1); dup2(nul,2);
         LOG = fopen(out,"a");
         static char buf[1<<16], buf2[1<<16]; setvbuf(LOG,buf,_IOFBF,sizeof buf);
         for(int k=at;k<end;k++) {
            sh->cur = k;
            mallopt(M_PERTURB,((unsigned)k*2654435761u>>16)%3==1 ? 0x5a : ((unsigned)k*2654435761u>>16)%3==2 ? 0xfe : 0);   // what memory contains before it is written
            struct itimerval tv; memset(&tv,0,sizeof tv); tv.it_value.tv_sec = cpuSec;
            setitimer(ITIMER_PROF,&tv,nullptr);
            alarm(10*cpuSec);
            fn(k);
#ifdef __SANITIZE_ADDRESS__
            if (LEAKS && k%4==0) {      // the same history again: what it allocates it gives back
               FILE* l = LOG; LOG = fopen("/dev/null","w"); setvbuf(LOG,buf2,_IOFBF,sizeof buf2);
               fn(k); std::size_t a = __sanitizer_get_current_allocated_bytes();
               fn(k); std::size_t b = __sanitizer_get_current_allocated_bytes();
               fclose(LOG); LOG = l;
               emit("{\"ev\":\"owned\",\"case\":" + std::to_string(k) + ",\"more\":" + std::to_string((long)b-(long)a) + "}");
            }
#endif
         }
         fflush(LOG);
         _exit(0);
      }
      int st = 0; waitpid(p,&st,0);
      if (WIFEXITED(st) && WEXITSTATUS(st)==0) { at = end; continue; }
      int sig = WIFSIGNALED(st) ? WTERMSIG(st) : 1000+WEXITSTATUS(st);
      if (sig==SIGKILL || sig==SIGTERM) return 3;  // not the code under test
      FILE* f = fopen(out,"a");
      fprintf(f,"{\"ev\":\"crash\",\"case\":%d,\"sig\":%d}\n",sh->cur,sig);
      fclose(f);
      crashes++;
      at = sh->cur + 1;
      if (crashes > 20) break;
   }
   return 0;
}
struct Quiet {   // capture the engine's prints
   std::ostringstream os; std::streambuf* old;
   Quiet() : old(std::cout.rdbuf(os.rdbuf())) {}
   ~Quiet() { std::cout.rdbuf(old); std::cout.precision(6); std::cout.unsetf(std::ios::floatfield); }
};
#endif
