// driver: prog TOPIC FROM TO [-v]   runs cases seeds FROM..TO-1
// prints "CASE seed" before each case to fd 3 (or stdout) so a crash can be attributed
#include "common.h"
vector<Fail> g_fails; string g_desc; bool g_verbose=false;
int harness_main(int argc,char**argv,const vector<Topic>&topics){
  if(argc<4){ for(auto&t:topics) printf("%s\n",t.name); return 2; }
  string name=argv[1]; long a=atol(argv[2]),b=atol(argv[3]); double maxs=1e9; for(int i=4;i<argc;i++){ if(!strcmp(argv[i],"-v")) g_verbose=true; if(!strncmp(argv[i],"-t",2)) maxs=atof(argv[i]+2); }
  struct timespec t0,t1; clock_gettime(CLOCK_MONOTONIC,&t0); long n=0; long nontriv=0;
  for(auto&t:topics) if(name==t.name){ for(long s=a;s<b;s++){ g_desc=""; g_fails.clear(); printf("CASE %ld\n",s); fflush(stdout);
      Rng r(s*1000003+12345); int size=s<200?1:s<1000?2:3; t.fn(r,size); n++; if(g_desc.size()) nontriv++;
      if(g_verbose||n<=2) { printf("DESC %s\n",g_desc.c_str()); }
      if(!g_fails.empty()){ for(auto&f:g_fails) printf("FAIL %s seed=%ld %s :: %s\n",f.prop.c_str(),s,f.msg.c_str(),g_desc.c_str()); fflush(stdout); return 1; }
      clock_gettime(CLOCK_MONOTONIC,&t1); if((t1.tv_sec-t0.tv_sec)+1e-9*(t1.tv_nsec-t0.tv_nsec)>maxs) break; }
    printf("DONE %ld %ld\n",n,nontriv); return 0; }
  fprintf(stderr,"no such topic\n"); return 2; }
