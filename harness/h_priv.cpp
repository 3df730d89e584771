// checks that need to see internal tile sizes
#include "common.h"
#define private public
#include "fft3d.h"
#include "fft2d.h"
#undef private
using namespace FFTMPI_NS;
static void lines(vector<cplx>&d,long nl,int len,int sign){ vector<cplx> v(len); for(long l=0;l<nl;l++){ for(int k=0;k<len;k++){ cplx s=0; for(int i=0;i<len;i++) s+=d[l*len+i]*std::polar(1.0,sign*2*M_PI*(double)((long)i*k%len)/len); v[k]=s; } for(int k=0;k<len;k++) d[l*len+k]=v[k]; } }
static void t_one1d(Rng&r,int size){ int nd=r.in(2,3),mx=size==1?5:size==2?9:12; int n[3]; for(int d=0;d<3;d++) n[d]=d<nd?smooth(r,2,mx):1; int P=r.in(1,size==1?5:8); Box g; for(int d=0;d<3;d++){ g.lo[d]=0; g.hi[d]=n[d]-1; } string s1,s2; auto in=tiling(r,nd,g,P,s1),out=tiling(r,nd,g,P,s2); int perm=r.in(0,nd==3?2:1),exch=r.in(0,1),coll=r.in(0,2),dir=r.p(50)?1:-1,scaled=r.in(0,1); 
  g_desc="nd="+std::to_string(nd)+" grid="+std::to_string(n[0])+"x"+std::to_string(n[1])+"x"+std::to_string(n[2])+" P="+std::to_string(P)+" permute="+std::to_string(perm)+" exchange="+std::to_string(exch)+" dir="+std::to_string(dir); vector<unsigned long> sd(P); for(auto&x:sd) x=r.next();
  auto o=fm::run(P,[&](int me){ const Box&i=in[me]; const Box&u=out[me]; int fs,ss,rs; int prec=sizeof(FFT_SCALAR)==4?1:2; 
    auto go=[&](auto*f,int k){ Rng q(sd[me]); Arr<FFT_SCALAR> A(2*(size_t)fs); vector<cplx> d(fs); for(int j=0;j<fs;j++){ A[2*j]=q.u(); A[2*j+1]=q.u(); d[j]=cplx(A[2*j],A[2*j+1]); } f->only_1d_ffts(A.get(),dir); lines(d,f->fft_fast->n,n[0],-dir); if constexpr(std::is_same_v<decltype(f),FFT3d*>) lines(d,f->fft_mid->n,n[1],-dir); lines(d,f->fft_slow->n,n[nd-1],-dir); double t=tol((double)n[0]*n[1]*n[2]); for(int j=0;j<fs;j++) if(!(std::abs(d[j]-cplx(A[2*j],A[2*j+1]))<=t)){ bad("C17","only_1d_ffts: rank "+std::to_string(me)+" element "+std::to_string(j)); break; } if(!A.ok()) bad("C08","only_1d_ffts wrote outside"); };
    if(nd==3){ FFT3d f(MPI_COMM_WORLD,prec); f.exchange=exch; f.collective=coll; f.scaled=scaled; f.setup(n[0],n[1],n[2],i.lo[0],i.hi[0],i.lo[1],i.hi[1],i.lo[2],i.hi[2],u.lo[0],u.hi[0],u.lo[1],u.hi[1],u.lo[2],u.hi[2],perm,fs,ss,rs); go(&f,0); }
    else { FFT2d f(MPI_COMM_WORLD,prec); f.exchange=exch; f.collective=coll; f.scaled=scaled; f.setup(n[0],n[1],i.lo[0],i.hi[0],i.lo[1],i.hi[1],u.lo[0],u.hi[0],u.lo[1],u.hi[1],perm,fs,ss,rs); go(&f,0); } });
  if(o.kind.size()) bad("C07",o.kind+": "+o.msg); }
int main(int argc,char**argv){ return harness_main(argc,argv,{{"one1d",t_one1d}}); }
