// pack/unpack kernels against their description, element by element, in exactly sized arrays
#include "common.h"
#include "pack2d.h"
#include "pack3d.h"
using namespace FFTMPI_NS;
struct K3 { const char*n; void (*f)(FFT_SCALAR*,FFT_SCALAR*,pack_plan_3d*); };
struct K2 { const char*n; void (*f)(FFT_SCALAR*,FFT_SCALAR*,pack_plan_2d*); };
static K3 k3[]={
#include "kernels3.inc"
{0,0}};
static K2 k2[]={
#include "kernels2.inc"
{0,0}};
static bool ends(const string&s,const char*e){ size_t n=strlen(e); return s.size()>=n&&s.compare(s.size()-n,n,e)==0; }
// nd, kernel name, sizes -> run and compare
static void run(int nd,const string&nm,int F,int M,int S,int sl,int sp,int q,std::function<void(FFT_SCALAR*,FFT_SCALAR*,long,long)> call){
  bool pk=nm.compare(0,4,"pack")==0; int perm=nm.find("permute2")!=string::npos?2:nm.find("permute")!=string::npos?1:0;
  // perm 0: F counts values (already times q)
  int Q=perm?q:1; auto di=[&](int f,int m,int s,int v)->long{ if(nd==3){ if(perm==0) return (long)s*sp+(long)m*sl+f; if(perm==1) return (long)f*sp+(long)s*sl+(long)m*Q+v; return (long)m*sp+(long)f*sl+(long)s*Q+v; } if(perm==0) return (long)s*sl+f; return (long)f*sl+(long)s*Q+v; };
  long dn=0; for(int s=0;s<S;s++)for(int m=0;m<M;m++)for(int f=0;f<F;f++)for(int v=0;v<Q;v++) dn=std::max(dn,di(f,m,s,v)+1);
  long bn=(long)F*M*S*Q; Arr<FFT_SCALAR> D(dn),B(bn); vector<FFT_SCALAR> d0(dn),b0(bn); for(long i=0;i<dn;i++) d0[i]=D[i]=i+1; for(long i=0;i<bn;i++) b0[i]=B[i]=-(i+1);
  call(D.get(),B.get(),dn,bn);
  vector<FFT_SCALAR> d1=d0,b1=b0; long b=0; for(int s=0;s<S;s++)for(int m=0;m<M;m++)for(int f=0;f<F;f++)for(int v=0;v<Q;v++,b++){ if(pk) b1[b]=d0[di(f,m,s,v)]; else d1[di(f,m,s,v)]=b0[b]; }
  for(long i=0;i<dn;i++) if(D[i]!=d1[i]){ bad("C06",nm+": data["+std::to_string(i)+"]="+std::to_string(D[i])+" expected "+std::to_string(d1[i])); break; }
  for(long i=0;i<bn;i++) if(B[i]!=b1[i]){ bad("C06",nm+": buf["+std::to_string(i)+"]="+std::to_string(B[i])+" expected "+std::to_string(b1[i])); break; }
  if(!D.ok()||!B.ok()) bad("C06",nm+": out of bounds write"); }
static void one(int nd,const string&nm,int F,int M,int S,int sl,int sp,int q){
  char t[200]; snprintf(t,sizeof t,"%s nfast=%d nmid=%d nslow=%d line=%d plane=%d nqty=%d",nm.c_str(),F,M,S,sl,sp,q); g_desc=t; bool pk=nm.compare(0,4,"pack")==0;
  if(nd==3){ for(K3*k=k3;k->n;k++) if(nm==k->n) run(3,nm,F,M,S,sl,sp,q,[&](FFT_SCALAR*d,FFT_SCALAR*b,long,long){ pack_plan_3d p; p.nfast=F;p.nmid=M;p.nslow=S;p.nstride_line=sl;p.nstride_plane=sp;p.nqty=q; if(pk) k->f(d,b,&p); else k->f(b,d,&p); }); }
  else { for(K2*k=k2;k->n;k++) if(nm==k->n) run(2,nm,F,1,S,sl,0,q,[&](FFT_SCALAR*d,FFT_SCALAR*b,long,long){ pack_plan_2d p; p.nfast=F;p.nslow=S;p.nstride=sl;p.nqty=q; if(pk) k->f(d,b,&p); else k->f(b,d,&p); }); } }
static void t_pack(Rng&r,int size){
  int n3=sizeof k3/sizeof k3[0]-1,n2=sizeof k2/sizeof k2[0]-1; int i=r.in(0,n3+n2-1); int nd=i<n3?3:2; string nm=nd==3?k3[i].n:k2[i-n3].n;
  int mx=size==1?4:7; int q=(nm.find("_1_")!=string::npos)?1:(nm.find("_2_")!=string::npos)?2:r.in(1,5);
  int F=r.in(1,mx),M=nd==3?r.in(1,mx):1,S=r.in(1,mx),g=r.p(50)?0:r.in(0,3),g2=r.p(50)?0:r.in(0,5),sl,sp; int perm=nm.find("permute2")!=string::npos?2:nm.find("permute")!=string::npos?1:0;
  if(nd==3){ if(perm==0){ F*=q; sl=F+g; sp=sl*M+g2; } else if(perm==1){ sl=q*M+g; sp=sl*S+g2; } else { sl=q*S+g; sp=sl*F+g2; } }
  else { sp=0; if(perm==0){ F*=q; sl=F+g; } else sl=q*S+g; }
  one(nd,nm,F,M,S,sl,sp,q); }
int main(int argc,char**argv){
  if(argc==9&&!strcmp(argv[1],"replay")){ one(strstr(argv[2],"_3d")?3:2,argv[2],atoi(argv[3]),atoi(argv[4]),atoi(argv[5]),atoi(argv[6]),atoi(argv[7]),atoi(argv[8])); printf("DESC %s\n",g_desc.c_str()); for(auto&f:g_fails) printf("FAIL %s %s\n",f.prop.c_str(),f.msg.c_str()); return g_fails.empty()?0:1; }
  return harness_main(argc,argv,{{"pack",t_pack}}); }
