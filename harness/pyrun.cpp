// entry points of the in-process MPI for the Python harness
#include "fm.h"
#include <string.h>
extern "C" int fm_pyrun(int n,void(*body)(int),unsigned long seed,char*msg,int len,int*live){
  fm::Options o; o.seed=seed; auto r=fm::run(n,[&](int i){ body(i); },o);
  std::string s=r.kind.empty()?"":r.kind+": "+r.msg; for(size_t i=0;i<r.exited.size();i++) if(r.exited[i]>=0) s+=" exit of rank "+std::to_string(i)+": "+r.printed[i];
  strncpy(msg,s.c_str(),len-1); msg[len-1]=0; live[0]=r.live_comms; live[1]=r.live_groups; live[2]=r.live_reqs; return s.empty()?0:1; }
