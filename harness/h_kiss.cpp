// the bundled 1d FFT used directly
#include "common.h"
#include "ffttype.h"
#ifdef FFT_KISS
#include "kissfft.h"
static void t_kiss(Rng&r,int size){ int mx=size==1?400:size==2?3000:60000; int n=r.p(20)?smooth(r,2,mx):smooth(r,2,r.p(50)?mx:mx/10); if(r.p(15)){ n=1; while(n<mx){ int q[]={2,3,4,5}; int f=q[r.in(0,3)]; if((long)n*f>mx) break; n*=f; } if(n<2) n=2; }
  int inv=r.in(0,1); bool ip=r.p(50); int kind=r.in(0,2); g_desc="n="+std::to_string(n)+" inverse="+std::to_string(inv)+" inplace="+std::to_string(ip)+" data="+std::to_string(kind);
  kiss_fft_cfg st=kiss_fft_alloc(n,inv,NULL,NULL); Arr<FFT_DATA> A(n),B(ip?0:n); vector<cplx> x(n); int k0=r.in(0,n-1);
  for(int i=0;i<n;i++){ cplx v=kind==0?cplx(r.u(),r.u()):kind==1?std::polar(1.0,2*M_PI*(double)((long)i*k0%n)/n):cplx(i==k0,0); A[i].re=v.real(); A[i].im=v.imag(); x[i]=cplx(A[i].re,A[i].im); }
  FFT_DATA*o=ip?A.get():B.get(); kiss_fft(st,A.get(),o); free(st); double nx=0; for(auto&v:x) nx+=std::norm(v); double eps=sizeof(FFT_SCALAR)==4?1.2e-7:2.3e-16; double te=eps*std::sqrt(nx)*(16+4*std::log2((double)n))+ (sizeof(FFT_SCALAR)==4?0:1e-15)*n*std::sqrt(nx/n);
  if(!ip) for(int i=0;i<n;i++) if(A[i].re!=(FFT_SCALAR)x[i].real()||A[i].im!=(FFT_SCALAR)x[i].imag()){ bad("C16","separate input was modified"); break; }
  int nk=n<=600?n:(int)(400000/n)+3; for(int t=0;t<nk;t++){ int k=n<=600?t:(t<2?(t?n-1:k0):r.in(0,n-1)); cplx s=0,c=0; for(int i=0;i<n;i++){ cplx y=x[i]*std::polar(1.0,(inv?1:-1)*2*M_PI*(double)((long)i*k%n)/n)-c; cplx u=s+y; c=(u-s)-y; s=u; } double e=std::abs(s-cplx(o[k].re,o[k].im)),tk=te+eps*(8+2*std::log2((double)n))*std::abs(s); if(!(e<=tk)){ char m[200]; snprintf(m,sizeof m,"bin %d: got (%.9g,%.9g) expected (%.9g,%.9g) tolerance %g",k,(double)o[k].re,(double)o[k].im,s.real(),s.imag(),te); bad("C16",m); break; } }
  if(!A.ok()||!B.ok()) bad("C16","write outside the line"); }
int main(int argc,char**argv){ return harness_main(argc,argv,{{"kiss",t_kiss}}); }
#else
int main(int argc,char**argv){ return harness_main(argc,argv,{{"kiss",[](Rng&,int){}}}); }
#endif
