#ifndef COMMON_H
#define COMMON_H
#include <complex>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <functional>
#include <algorithm>
#include <unistd.h>
#include "fm.h"
#include "fftdata.h"
using std::string; using std::vector;
typedef std::complex<double> cplx;
struct Rng { uint64_t s; Rng(uint64_t x){ s=x*0x9E3779B97F4A7C15ULL+0x1234567; next();next(); } uint64_t next(){ uint64_t z=(s+=0x9E3779B97F4A7C15ULL); z=(z^(z>>30))*0xBF58476D1CE4E5B9ULL; z=(z^(z>>27))*0x94D049BB133111EBULL; return z^(z>>31);} int in(int a,int b){ return a+(int)(next()%(uint64_t)(b-a+1)); } bool p(int pct){ return in(1,100)<=pct; } double u(){ return (double)(next()>>11)/9007199254740992.0*2-1; } };
struct Box { int lo[3],hi[3]; int n(int d)const{return hi[d]-lo[d]+1;} long vol()const{ long v=1; for(int d=0;d<3;d++){ if(n(d)<=0) return 0; v*=n(d);} return v;} bool has(const int*g)const{ for(int d=0;d<3;d++) if(g[d]<lo[d]||g[d]>hi[d]) return false; return true; } };
inline string bstr(const Box&b,int nd=3){ char t[128]; if(nd==3) snprintf(t,sizeof t,"[%d:%d %d:%d %d:%d]",b.lo[0],b.hi[0],b.lo[1],b.hi[1],b.lo[2],b.hi[2]); else snprintf(t,sizeof t,"[%d:%d %d:%d]",b.lo[0],b.hi[0],b.lo[1],b.hi[1]); return t; }
// split box b among ranks [a,e) ; free dims given by mask
inline void kd(Rng&r,Box b,int a,int e,int mask,vector<Box>&out,const vector<int>&perm,bool uneven){
  if(e-a==1){ out[perm[a]]=b; return; }
  int m=uneven?r.in(a+1,e-1):(a+e)/2; vector<int> ds; for(int d=0;d<3;d++) if(mask>>d&1) ds.push_back(d);
  int d=ds[r.in(0,(int)ds.size()-1)]; int n=b.n(d); int cut=uneven?r.in(0,std::max(0,n)):(int)((long)std::max(0,n)*(m-a)/(e-a));
  Box x=b,y=b; x.hi[d]=b.lo[d]+cut-1; y.lo[d]=b.lo[d]+cut; kd(r,x,a,m,mask,out,perm,uneven); kd(r,y,m,e,mask,out,perm,uneven); }
inline vector<Box> tiling(Rng&r,int nd,const Box&g,int P,string&desc){
  vector<Box> t(P); vector<int> perm(P); for(int i=0;i<P;i++) perm[i]=i; if(r.p(50)) for(int i=P-1;i>0;i--) std::swap(perm[i],perm[r.in(0,i)]);
  int full=(1<<nd)-1, kind=r.in(0,9), mask=full; bool uneven=r.p(60);
  if(kind==0){ desc="one"; int own=r.in(0,P-1); for(int i=0;i<P;i++){ t[i]=g; if(i!=own){ int d=r.in(0,nd-1); if(r.p(50)) t[i].hi[d]=t[i].lo[d]-1; else t[i].lo[d]=t[i].hi[d]+1; } } return t; }
  if(kind<=3){ int d=r.in(0,nd-1); mask=full&~(1<<d); desc="pencil"+std::to_string(d); }
  else if(kind==4){ int d=r.in(0,nd-1); mask=1<<d; desc="slab"+std::to_string(d); }
  else desc="kd";
  kd(r,g,0,P,mask,t,perm,uneven); return t; }
// exactly sized heap array; FFTW builds add canaries because FFTW itself is not instrumented
template<class T> struct Arr { T*p; size_t n,pad; char*base; 
  Arr(size_t n_):n(n_){
#ifdef FFT_FFTW3
    pad=64;
#else
    pad=0;
#endif
    base=(char*)malloc(n*sizeof(T)+2*pad); p=(T*)(base+pad); memset(base,0x5A,n*sizeof(T)+2*pad); }
  ~Arr(){ free(base); } bool ok()const{ for(size_t i=0;i<pad;i++) if(base[i]!=0x5A||base[pad+n*sizeof(T)+i]!=0x5A) return false; return true; }
  T&operator[](size_t i){return p[i];} T* get(){ return n?p:(T*)(pad?p:p); } Arr(const Arr&)=delete; };
struct Fail { string prop,msg; };
extern vector<Fail> g_fails; extern string g_desc; extern bool g_verbose;
inline void bad(const string&prop,const string&msg){ if(g_fails.size()<20) g_fails.push_back({prop,msg}); }
inline int smooth(Rng&r,int lo,int hi){ for(;;){ int n=r.in(lo,hi),m=n; for(int q:{2,3,5}) while(m%q==0) m/=q; if(m==1) return n; } }
// separable DFT, sign -1 forward
inline void dft_axis(vector<cplx>&a,const int*n,int d,int sign){ int N=n[d]; long st=1; for(int i=0;i<d;i++) st*=n[i]; long tot=(long)n[0]*n[1]*n[2]; vector<cplx> w(N),v(N); for(int k=0;k<N;k++) w[k]=std::polar(1.0,sign*2*M_PI*k/N); for(long b=0;b<tot;b++){ if((b/st)%N) continue; for(int i=0;i<N;i++) v[i]=a[b+i*st]; for(int k=0;k<N;k++){ cplx s=0; for(int i=0;i<N;i++) s+=v[i]*w[(long)i*k%N]; a[b+k*st]=s; } } }
inline double tol(double N){ return (sizeof(FFT_SCALAR)==4?3e-5:1e-11)*(std::sqrt(N)+4); }
// index of global point g in box b stored with axis order perm (perm 0: 0,1,2 ; 1: 1,2,0 ; 2: 2,0,1) ; 2d: perm 1 = 1,0
inline long loc(const Box&b,const int*g,int perm,int nd){ int o[3]; if(nd==2){ if(perm==0){o[0]=0;o[1]=1;} else {o[0]=1;o[1]=0;} o[2]=2; } else { for(int i=0;i<3;i++) o[i]=(i+perm)%3; } long q=0; for(int i=2;i>=0;i--) q=q*b.n(o[i])+(g[o[i]]-b.lo[o[i]]); return q; }
template<class F> inline void each(const Box&b,F f){ int g[3]; for(g[2]=b.lo[2];g[2]<=b.hi[2];g[2]++) for(g[1]=b.lo[1];g[1]<=b.hi[1];g[1]++) for(g[0]=b.lo[0];g[0]<=b.hi[0];g[0]++) f(g); }
typedef void (*TopicFn)(Rng&,int size);
struct Topic { const char*name; TopicFn fn; };
int harness_main(int argc,char**argv,const vector<Topic>&topics);
#endif
