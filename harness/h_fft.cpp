// cases for FFT3d / FFT2d through the public C++ interface
#include "common.h"
#include "fft3d.h"
#include "fft2d.h"
#include "remap3d.h"
#include "remap2d.h"
using namespace FFTMPI_NS;
// every Remap set up by the FFT objects is recorded here (linker --wrap)
#include <map>
#include <mutex>
static std::map<int,vector<int64_t*>> g_rec; static std::mutex g_mx;
static void rec(int64_t*m){ int me; MPI_Comm_rank(MPI_COMM_WORLD,&me); std::lock_guard<std::mutex> l(g_mx); g_rec[me].push_back(m); }
extern "C" {
void __real__ZN9FFTMPI_NS7Remap3d5setupEiiiiiiiiiiiiiiiRiS1_(Remap3d*,int,int,int,int,int,int,int,int,int,int,int,int,int,int,int,int&,int&);
void __wrap__ZN9FFTMPI_NS7Remap3d5setupEiiiiiiiiiiiiiiiRiS1_(Remap3d*t,int a,int b,int c,int d,int e,int f,int g,int h,int i,int j,int k,int l,int m,int n,int o,int&p,int&q){ __real__ZN9FFTMPI_NS7Remap3d5setupEiiiiiiiiiiiiiiiRiS1_(t,a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q); rec(&t->memusage); }
void __real__ZN9FFTMPI_NS7Remap2d5setupEiiiiiiiiiiiRiS1_(Remap2d*,int,int,int,int,int,int,int,int,int,int,int,int&,int&);
void __wrap__ZN9FFTMPI_NS7Remap2d5setupEiiiiiiiiiiiRiS1_(Remap2d*t,int a,int b,int c,int d,int e,int f,int g,int h,int i,int j,int k,int&p,int&q){ __real__ZN9FFTMPI_NS7Remap2d5setupEiiiiiiiiiiiRiS1_(t,a,b,c,d,e,f,g,h,i,j,k,p,q); rec(&t->memusage); }
}
struct Cfg { int nd,P,n[3]; vector<Box> in,out; string din,dout; int permute,coll,exch,pack,mem,scaled; int rdv; uint64_t seed; bool same; };
static Cfg gen(Rng&r,int nd,int size){
  Cfg c; c.nd=nd; int mx=size==1?(nd==3?5:8):size==2?(nd==3?9:16):(nd==3?16:40); for(int d=0;d<3;d++) c.n[d]=d<nd?smooth(r,2,r.p(70)?mx:std::max(2,mx/2)):1;
  if(r.p(25)) c.n[1]=c.n[0]; if(nd==3&&r.p(25)) c.n[2]=c.n[r.in(0,1)];
  int pm=size==1?5:size==2?9:14; c.P=r.in(1,pm);
  Box g; for(int d=0;d<3;d++){ g.lo[d]=0; g.hi[d]=c.n[d]-1; }
  c.in=tiling(r,nd,g,c.P,c.din); c.same=r.p(25); if(c.same){ c.out=c.in; c.dout="same"; } else c.out=tiling(r,nd,g,c.P,c.dout);
  c.permute=r.in(0,nd==3?2:1); if(c.same&&r.p(50)) c.permute=0; c.coll=r.in(0,2); c.exch=r.in(0,1); c.pack=r.in(0,2); c.mem=r.p(50); c.scaled=r.p(70); c.rdv=r.p(50); c.seed=r.next()%1000000;
  string s="nd="+std::to_string(nd)+" grid="+std::to_string(c.n[0])+"x"+std::to_string(c.n[1])+(nd==3?"x"+std::to_string(c.n[2]):"")+" P="+std::to_string(c.P)+" permute="+std::to_string(c.permute)+" collective="+std::to_string(c.coll)+" exchange="+std::to_string(c.exch)+" pack="+std::to_string(c.pack)+" memoryflag="+std::to_string(c.mem)+" scaled="+std::to_string(c.scaled)+" unbuffered_sends="+std::to_string(c.rdv)+" in="+c.din+":"; for(auto&b:c.in) s+=bstr(b,nd); s+=" out="+c.dout+":"; for(auto&b:c.out) s+=bstr(b,nd); g_desc=s; return c; }
struct F { FFT3d*a=0; FFT2d*b=0; int nd;
  F(int nd_):nd(nd_){ int prec=sizeof(FFT_SCALAR)==4?1:2; if(nd==3) a=new FFT3d(MPI_COMM_WORLD,prec); else b=new FFT2d(MPI_COMM_WORLD,prec); }
  ~F(){ delete a; delete b; }
  void opts(const Cfg&c){ if(a){ a->collective=c.coll; a->exchange=c.exch; a->packflag=c.pack; a->memoryflag=c.mem; a->scaled=c.scaled; } else { b->collective=c.coll; b->exchange=c.exch; b->packflag=c.pack; b->memoryflag=c.mem; b->scaled=c.scaled; } }
  void setup(const Cfg&c,int me,int&f,int&s,int&r){ const Box&i=c.in[me]; const Box&o=c.out[me]; f=s=r=-7; if(a) a->setup(c.n[0],c.n[1],c.n[2],i.lo[0],i.hi[0],i.lo[1],i.hi[1],i.lo[2],i.hi[2],o.lo[0],o.hi[0],o.lo[1],o.hi[1],o.lo[2],o.hi[2],c.permute,f,s,r); else b->setup(c.n[0],c.n[1],i.lo[0],i.hi[0],i.lo[1],i.hi[1],o.lo[0],o.hi[0],o.lo[1],o.hi[1],c.permute,f,s,r); }
  void tune(const Cfg&c,int me,int&f,int&s,int&r,int flag,int niter,double tmax,int tflag){ const Box&i=c.in[me]; const Box&o=c.out[me]; f=s=r=-7; if(a) a->tune(c.n[0],c.n[1],c.n[2],i.lo[0],i.hi[0],i.lo[1],i.hi[1],i.lo[2],i.hi[2],o.lo[0],o.hi[0],o.lo[1],o.hi[1],o.lo[2],o.hi[2],c.permute,f,s,r,flag,niter,tmax,tflag); else b->tune(c.n[0],c.n[1],i.lo[0],i.hi[0],i.lo[1],i.hi[1],o.lo[0],o.hi[0],o.lo[1],o.hi[1],c.permute,f,s,r,flag,niter,tmax,tflag); }
  void mem(FFT_SCALAR*s,FFT_SCALAR*r){ if(a) a->setup_memory(s,r); else b->setup_memory(s,r); }
  void compute(FFT_SCALAR*i,FFT_SCALAR*o,int f){ if(a) a->compute(i,o,f); else b->compute(i,o,f); }
  void only_remaps(FFT_SCALAR*i,FFT_SCALAR*o,int f){ if(a) a->only_remaps(i,o,f); else b->only_remaps(i,o,f); }
  void only_one(FFT_SCALAR*i,FFT_SCALAR*o,int f,int w){ if(a) a->only_one_remap(i,o,f,w); else b->only_one_remap(i,o,f,w); }
  void only_1d(FFT_SCALAR*i,int f){ if(a) a->only_1d_ffts(i,f); else b->only_1d_ffts(i,f); }
  void remaponly(int v){ if(a) a->remaponly=v; else b->remaponly=v; }
};
static void fill(Arr<FFT_SCALAR>&A,const Box&b,int perm,int nd,const vector<cplx>&g,const int*n){ each(b,[&](const int*x){ long q=loc(b,x,perm,nd); cplx v=g[x[0]+(long)n[0]*(x[1]+(long)n[1]*x[2])]; A[2*q]=v.real(); A[2*q+1]=v.imag(); }); }
static string cmp(Arr<FFT_SCALAR>&A,const Box&b,int perm,int nd,const vector<cplx>&g,const int*n,double t){ string r; each(b,[&](const int*x){ if(r.size()) return; long q=loc(b,x,perm,nd); cplx v=g[x[0]+(long)n[0]*(x[1]+(long)n[1]*x[2])]; cplx w(A[2*q],A[2*q+1]); double e=std::abs(v-w); if(!(e<=t)){ char s[256]; snprintf(s,sizeof s,"at grid point (%d,%d,%d): got (%.9g,%.9g) expected (%.9g,%.9g)",x[0],x[1],x[2],w.real(),w.imag(),v.real(),v.imag()); r=s; } }); return r; }
static const char *pre(int nd,const char*a,const char*b){ return nd==3?a:b; }
static void outcome(const fm::Outcome&o,const char*prop="C07"){ if(o.kind.size()) bad(o.kind=="abort"?"C11":prop,o.kind+": "+o.msg); for(size_t i=0;i<o.exited.size();i++) if(o.exited[i]>=0){ bad("C11","rank "+std::to_string(i)+" stopped a valid request: "+o.printed[0]); break; } }
static vector<cplx> randgrid(Rng&r,const int*n){ vector<cplx> g((long)n[0]*n[1]*n[2]); for(auto&x:g){ double a=(FFT_SCALAR)r.u(),b=(FFT_SCALAR)r.u(); x=cplx(a,b);} return g; }
// mode bits: what to exercise
static void fft_case(Rng&r,int nd,int size,int mode){
  Cfg c=gen(r,nd,size); const int*n=c.n; double N=(double)n[0]*n[1]*n[2];
  vector<cplx> g=randgrid(r,n),G=g; for(int d=0;d<nd;d++) dft_axis(G,n,d,-1); vector<cplx> B=g; for(int d=0;d<nd;d++) dft_axis(B,n,d,+1);
  vector<cplx> Bs=B; if(c.scaled) for(auto&x:Bs) x/=N;
  double te=tol(N); fm::Options fo; fo.rendezvous=c.rdv; fo.seed=c.seed+1;
  int dir0=r.in(0,1); bool oop=(mode&2)||r.p(mode?40:50); int prop17=mode&4;
  g_desc+=" outofplace="+std::to_string(oop)+" ops="+(prop17?"onestep":"compute");
  const char*PF=pre(nd,"C01","C03"); 
  auto o=fm::run(c.P,[&](int me){
    F f(nd); f.opts(c); int fs,ss,rs; f.setup(c,me,fs,ss,rs);
    long is=c.in[me].vol(),os=c.out[me].vol(); if(fs<is||fs<os) bad("C08","fftsize "+std::to_string(fs)+" below tile size");
    Arr<FFT_SCALAR> sb(std::max(ss,0)),rb(std::max(rs,0)); if(!c.mem) f.mem(sb.get(),rb.get());
    auto run=[&](int dir,const vector<cplx>&src,const vector<cplx>&exp,const char*what,const char*prop,std::function<void(FFT_SCALAR*,FFT_SCALAR*)> op){
      const Box&bi=dir>0?c.in[me]:c.out[me]; const Box&bo=dir>0?c.out[me]:c.in[me]; int pi=dir>0?0:c.permute, po=dir>0?c.permute:0;
      if(oop){ Arr<FFT_SCALAR> A(2*bi.vol()),O(2*(size_t)fs); fill(A,bi,pi,nd,src,n); vector<FFT_SCALAR> keep(A.p,A.p+2*bi.vol()); op(A.get(),O.get()); string e=cmp(O,bo,po,nd,exp,n,te); if(e.size()) bad("C10",string(what)+" with separate arrays: rank "+std::to_string(me)+" "+e); if(!keep.empty()&&memcmp(keep.data(),A.p,keep.size()*sizeof(FFT_SCALAR))) bad("C10",string(what)+": separate input array was modified on rank "+std::to_string(me)); if(!A.ok()||!O.ok()) bad("C08",string(what)+": write outside data array"); }
      else { Arr<FFT_SCALAR> A(2*(size_t)fs); fill(A,bi,pi,nd,src,n); op(A.get(),A.get()); string e=cmp(A,bo,po,nd,exp,n,te); if(e.size()) bad(prop,string(what)+": rank "+std::to_string(me)+" "+e); if(!A.ok()) bad("C08",string(what)+": write outside data array"); }
      if(!sb.ok()||!rb.ok()) bad("C08",string(what)+": write outside send/recv buffer"); };
    auto fwd=[&]{ run(1,g,G,"forward compute",PF,[&](FFT_SCALAR*i,FFT_SCALAR*o){ f.compute(i,o,1); }); };
    auto bwd=[&]{ run(-1,g,Bs,"backward compute",nd==3?"C02":"C03",[&](FFT_SCALAR*i,FFT_SCALAR*o){ f.compute(i,o,-1); }); };
    if(!prop17){ if(dir0){ fwd(); bwd(); } else { bwd(); fwd(); }
      { Arr<FFT_SCALAR> A(2*(size_t)fs); fill(A,c.in[me],0,nd,g,n); f.compute(A.get(),A.get(),1); f.compute(A.get(),A.get(),-1); vector<cplx> e=g; if(!c.scaled) for(auto&x:e) x*=N; string s=cmp(A,c.in[me],0,nd,e,n,te*(c.scaled?1:N)); if(s.size()) bad(nd==3?"C02":"C03","round trip: rank "+std::to_string(me)+" "+s); } }
    else {
      for(int dir=1;dir>=-1;dir-=2){ run(dir,g,g,"only_remaps","C17",[&](FFT_SCALAR*i,FFT_SCALAR*o){ f.only_remaps(i,o,dir); });
        f.remaponly(1); run(dir,g,g,"compute with remaponly","C17",[&](FFT_SCALAR*i,FFT_SCALAR*o){ f.compute(i,o,dir); }); f.remaponly(0);
        int K=nd==3?4:3; bool sameL=c.permute==0; for(int q=0;q<c.P;q++) if(memcmp(&c.in[q],&c.out[q],sizeof(Box))) sameL=false; bool up=dir>0||sameL;
        run(dir,g,g,"single remaps in order","C17",[&](FFT_SCALAR*i,FFT_SCALAR*o){ if(i==o){ for(int w=1;w<=K;w++) f.only_one(o,o,dir,up?w:K+1-w); } else {
            // distinct arrays at every stage
            f.only_one(i,o,dir,up?1:K); Arr<FFT_SCALAR> T(2*(size_t)fs); for(int w=2;w<=K;w++){ memcpy(T.p,o,sizeof(FFT_SCALAR)*2*fs); for(long z=0;z<2L*fs;z++) o[z]=(FFT_SCALAR)-7.25; f.only_one(T.get(),o,dir,up?w:K+1-w); } } });
        // the 1d transforms alone on zero data must stay zero and in bounds
        { Arr<FFT_SCALAR> Z(2*(size_t)fs); for(long i=0;i<2L*fs;i++) Z[i]=0; f.only_1d(Z.get(),dir); for(long i=0;i<2L*fs;i++) if(Z[i]!=0){ bad("C17","only_1d_ffts changed zeroes"); break; } if(!Z.ok()) bad("C08","only_1d_ffts wrote outside"); } }
    }
  },fo);
  outcome(o); if(o.live_comms||o.live_groups||o.live_reqs) bad("C12","MPI objects not released: comms="+std::to_string(o.live_comms)+" groups="+std::to_string(o.live_groups)+" requests="+std::to_string(o.live_reqs)); if(o.unmatched) bad("C07","messages never received"); }
static void t_fft3(Rng&r,int s){ fft_case(r,3,s,0); }
static void t_fft2(Rng&r,int s){ fft_case(r,2,s,0); }
static void t_oop3(Rng&r,int s){ fft_case(r,3,s,2); }
static void t_oop2(Rng&r,int s){ fft_case(r,2,s,2); }
static void t_step3(Rng&r,int s){ fft_case(r,3,s,4); }
static void t_step2(Rng&r,int s){ fft_case(r,2,s,4); }
// process grids
static void t_grid(Rng&r,int size){ int nd=r.in(2,3); Cfg c=gen(r,nd,1); c.P=size==1?r.in(1,24):r.in(1,64); if(nd==3&&c.P>24) c.P=24; c.exch=1; Box g; for(int d=0;d<3;d++){ g.lo[d]=0; g.hi[d]=c.n[d]-1; } c.in=tiling(r,nd,g,c.P,c.din); c.out=tiling(r,nd,g,c.P,c.dout); g_desc="nd="+std::to_string(nd)+" P="+std::to_string(c.P)+" grid="+std::to_string(c.n[0])+"x"+std::to_string(c.n[1])+"x"+std::to_string(c.n[2])+" permute="+std::to_string(c.permute);
  fm::Options fo; fo.seed=c.seed; vector<cplx> gg=randgrid(r,c.n),G=gg; for(int d=0;d<nd;d++) dft_axis(G,c.n,d,-1);
  auto o=fm::run(c.P,[&](int me){ F f(nd); f.opts(c); int fs,ss,rs; f.setup(c,me,fs,ss,rs); 
    if(f.a){ FFT3d&a=*f.a; auto chk=[&](int x,int y,int z,int one,const char*nm){ if((long)x*y*z!=c.P||x<1||y<1||z<1) bad("C09",string(nm)+" process grid "+std::to_string(x)+"x"+std::to_string(y)+"x"+std::to_string(z)+" for P="+std::to_string(c.P)); int v[3]={x,y,z}; if(one>=0&&v[one]!=1) bad("C09",string(nm)+" pencils cut in their own axis"); }; chk(a.npfast1,a.npfast2,a.npfast3,0,"fast"); chk(a.npmid1,a.npmid2,a.npmid3,1,"mid"); chk(a.npslow1,a.npslow2,a.npslow3,2,"slow"); chk(a.npbrick1,a.npbrick2,a.npbrick3,-1,"brick"); }
    else { FFT2d&a=*f.b; auto chk=[&](int x,int y,int one,const char*nm){ if((long)x*y!=c.P||x<1||y<1) bad("C09",string(nm)+" process grid "+std::to_string(x)+"x"+std::to_string(y)+" for P="+std::to_string(c.P)); int v[2]={x,y}; if(one>=0&&v[one]!=1) bad("C09",string(nm)+" pencils cut in their own axis"); }; chk(a.npfast1,a.npfast2,0,"fast"); chk(a.npslow1,a.npslow2,1,"slow"); chk(a.npbrick1,a.npbrick2,-1,"brick"); }
    Arr<FFT_SCALAR> sb(std::max(ss,0)),rb(std::max(rs,0)); if(!c.mem) f.mem(sb.get(),rb.get()); Arr<FFT_SCALAR> A(2*(size_t)fs); fill(A,c.in[me],0,nd,gg,c.n); f.compute(A.get(),A.get(),1); string e=cmp(A,c.out[me],c.permute,nd,G,c.n,tol((double)gg.size())); if(e.size()) bad("C09","forward compute wrong with these process grids: "+e);
  },fo); outcome(o); }
// memory accounting
static void t_memu(Rng&r,int size){ int nd=r.in(2,3); Cfg c=gen(r,nd,size>2?2:1); fm::Options fo; fo.seed=c.seed; g_rec.clear();
  auto o=fm::run(c.P,[&](int me){ F f(nd); f.opts(c); int fs,ss,rs; f.setup(c,me,fs,ss,rs); long e=c.mem?(long)(ss+rs)*sizeof(FFT_SCALAR):0; vector<int64_t*> v; { std::lock_guard<std::mutex> l(g_mx); v=g_rec[me]; } for(auto*p:v) e+=*p; long got=f.a?f.a->memusage:f.b->memusage; if(got!=e) bad("C13","memusage "+std::to_string(got)+" but its "+std::to_string(v.size())+" remaps and buffers take "+std::to_string(e)+" on rank "+std::to_string(me)); },fo); outcome(o); }
// tuning
static void t_tune(Rng&r,int size){ int nd=r.in(2,3); Cfg c=gen(r,nd,size>2?2:1); if(c.P>6) c.P=6; Box g; for(int d=0;d<3;d++){ g.lo[d]=0; g.hi[d]=c.n[d]-1; } c.in=tiling(r,nd,g,c.P,c.din); c.out=tiling(r,nd,g,c.P,c.dout);
  int flag=r.in(-1,1),niter=r.in(1,3),tflag=r.in(0,1); double tm[]={0,0,1e9,0.2,0.1,0.05,0.02,0.01,0.007,0.005,0.003,0.002,0.001,1e-5}; double tmax=tm[r.in(0,13)]; fm::Options fo; fo.rendezvous=c.rdv; fo.seed=c.seed; fo.badclock=1; fo.clockscale=1e-3;
  char tb[256]; snprintf(tb,sizeof tb," tune flag=%d niter=%d tmax=%g tflag=%d clockseed=%lu",flag,niter,tmax,tflag,(unsigned long)c.seed); 
  g_desc="nd="+std::to_string(nd)+" grid="+std::to_string(c.n[0])+"x"+std::to_string(c.n[1])+"x"+std::to_string(c.n[2])+" P="+std::to_string(c.P)+" permute="+std::to_string(c.permute)+" collective="+std::to_string(c.coll)+" exchange="+std::to_string(c.exch)+" pack="+std::to_string(c.pack)+" memoryflag="+std::to_string(c.mem)+tb+" in="; for(auto&b:c.in) g_desc+=bstr(b,nd); g_desc+=" out="; for(auto&b:c.out) g_desc+=bstr(b,nd);
  vector<cplx> gg=randgrid(r,c.n),G=gg; for(int d=0;d<nd;d++) dft_axis(G,c.n,d,-1); vector<string> summ(c.P);
  auto o=fm::run(c.P,[&](int me){ F f(nd); f.opts(c); int fs,ss,rs; f.tune(c,me,fs,ss,rs,flag,niter,tmax,tflag);
    auto body=[&](auto&a){ char t[256];
      if(a.ntrial<1||a.ntrial>10) { bad("C14","ntrial="+std::to_string(a.ntrial)); return; }
      if(a.collective!=a.cbest||a.exchange!=a.ebest||a.packflag!=a.pbest) bad("C14","settings after tune are not the best ones");
      if(a.memoryflag!=c.mem) bad("C14","memoryflag not restored");
      if(a.npertrial<1) bad("C14","npertrial="+std::to_string(a.npertrial));
      int hit=-1; for(int i=0;i<a.ntrial;i++){ if(a.cflags[i]<0||a.cflags[i]>2||a.eflags[i]<0||a.eflags[i]>1||a.pflags[i]<0||a.pflags[i]>2) bad("C14","recorded flags of trial "+std::to_string(i)+" out of range"); if(a.cflags[i]==a.cbest&&a.eflags[i]==a.ebest&&a.pflags[i]==a.pbest&&a.tfft[i]==a.besttime) hit=i; if(!(a.tfft[i]>0)) bad("C14","recorded time not positive"); }
      if(hit<0) bad("C14","best settings/time are not those of a recorded trial");
      // fastest: no recorded trial of the final comparison group is faster
      if(a.ntrial>=9) { for(int i=6;i<9;i++) if(a.tfft[i]<a.besttime) bad("C14","a recorded trial is faster than the best one"); int b=0; for(int i=1;i<6;i++) if(a.tfft[i]<a.tfft[b]) b=i; if(a.cbest!=a.cflags[b]||a.ebest!=a.eflags[b]) bad("C14","collective/exchange are not those of the fastest trial"); }
      else for(int i=0;i<a.ntrial;i++){ if(a.ntrial>1&&!(tmax>0)) {} if(i>0||a.ntrial==1||true){ if(a.tfft[i]<a.besttime&&!(a.ntrial==2&&i==0)) bad("C14","a recorded trial is faster than the best one"); } }
      if(tmax==0&&(a.ntrial!=9||a.npertrial!=niter)) bad("C14","without a time limit ntrial="+std::to_string(a.ntrial)+" npertrial="+std::to_string(a.npertrial));
      snprintf(t,sizeof t,"c=%d e=%d p=%d n=%d per=%d",a.cbest,a.ebest,a.pbest,a.ntrial,a.npertrial); summ[me]=t; };
    if(f.a) body(*f.a); else body(*f.b);
    Arr<FFT_SCALAR> sb(std::max(ss,0)),rb(std::max(rs,0)); if(!c.mem) f.mem(sb.get(),rb.get()); Arr<FFT_SCALAR> A(2*(size_t)fs); fill(A,c.in[me],0,nd,gg,c.n); f.compute(A.get(),A.get(),1); string e=cmp(A,c.out[me],c.permute,nd,G,c.n,tol((double)gg.size())); if(e.size()) bad("C14","compute after tune is wrong: "+e);
    f.compute(A.get(),A.get(),-1);
  },fo); outcome(o,"C14"); for(int i=1;i<c.P;i++) if(summ[i]!=summ[0]) bad("C14","processes disagree after tune: rank 0 "+summ[0]+", rank "+std::to_string(i)+" "+summ[i]); if(o.live_comms||o.live_reqs) bad("C12","MPI objects not released after tune"); }
// misuse: every listed call must stop with ERROR on every rank
static void t_err(Rng&r,int size){ (void)size; int nd=r.in(2,3); Cfg c=gen(r,nd,1); int what=r.in(0,21); int bad1=r.in(0,c.P-1); bool expect=true; int prec=sizeof(FFT_SCALAR)==4?1:2; int arg=r.in(-3,20);
  int dim=r.in(0,nd-1); int badn[]={0,1,-1,7,11,13,14,21,22,49,26,35,77,121,28,33,-4,42,55,1}; int bn=badn[r.in(0,19)]; bool touched=false; string d=g_desc; 
  if(what==20||what==21) { // valid requests with unusual but legal arguments must pass
    expect=false; }
  auto o=fm::run(c.P,[&](int me){
    if(what==0){ if(arg==1||arg==2){ arg=prec==1?2:1; } if(nd==3) new FFT3d(MPI_COMM_WORLD,arg); else new FFT2d(MPI_COMM_WORLD,arg); return; }
    F*fp=new F(nd); F&f=*fp; f.opts(c); int fs,ss,rs; vector<FFT_SCALAR> d(20000,0);
    Cfg k=c;
    switch(what){
      case 1: k.n[dim]=bn; { vector<Box> t; Box g; for(int q=0;q<3;q++){ g.lo[q]=0; g.hi[q]=std::max(k.n[q],0)-1; } for(int q=0;q<c.P;q++){ Box b=g; if(q) b.hi[0]=b.lo[0]-1; t.push_back(b);} k.in=k.out=t; } f.setup(k,me,fs,ss,rs); break;
      case 2: if(me==bad1) k.in[me].lo[dim]=-1; f.setup(k,me,fs,ss,rs); break;
      case 3: if(me==bad1) k.in[me].hi[dim]=k.n[dim]; f.setup(k,me,fs,ss,rs); break;
      case 4: if(me==bad1) k.in[me].lo[dim]=k.in[me].hi[dim]+2; f.setup(k,me,fs,ss,rs); break;
      case 5: { // drop a part of the tiling
        int q=0; for(int t=0;t<c.P;t++) if(c.in[t].vol()>0) q=t; if(me==q) k.in[me].hi[dim]--; f.setup(k,me,fs,ss,rs); break; }
      case 6: f.compute(d.data(),d.data(),1); break;
      case 7: f.only_remaps(d.data(),d.data(),1); break;
      case 8: f.only_one(d.data(),d.data(),1,1); break;
      case 9: f.only_1d(d.data(),1); break;
      case 10: k.mem=0; f.opts(k); f.mem(d.data(),d.data()); break;
      case 11: k.mem=1; f.opts(k); f.setup(k,me,fs,ss,rs); f.mem(d.data(),d.data()); break;
      case 12: k.mem=0; f.opts(k); f.setup(k,me,fs,ss,rs); f.compute(d.data(),d.data(),1); break;
      case 13: k.mem=0; f.opts(k); f.setup(k,me,fs,ss,rs); if(arg&1) f.only_remaps(d.data(),d.data(),-1); else f.only_one(d.data(),d.data(),1,2); break;
      case 14: f.setup(k,me,fs,ss,rs); f.setup(k,me,fs,ss,rs); break;
      case 15: f.setup(k,me,fs,ss,rs); f.tune(k,me,fs,ss,rs,0,1,0.0,0); break;
      case 16: f.tune(k,me,fs,ss,rs,arg&1?2:-2,1,0.0,0); break;
      case 17: f.tune(k,me,fs,ss,rs,0,arg&1?0:-1,0.0,0); break;
      case 18: f.tune(k,me,fs,ss,rs,0,1,-1.0,0); break;
      case 19: f.tune(k,me,fs,ss,rs,0,1,0.0,arg&1?2:-1); break;
      case 20: f.setup(k,me,fs,ss,rs); delete fp; return;
      case 21: k.mem=1; f.opts(k); f.tune(k,me,fs,ss,rs,0,1,0.0,1); f.compute(vector<FFT_SCALAR>(2*fs+2,0).data(),vector<FFT_SCALAR>(2*fs+2,0).data(),1); delete fp; return;
    }
    touched=true;
  },fm::Options());
  g_desc="nd="+std::to_string(nd)+" misuse="+std::to_string(what)+" arg="+std::to_string(arg)+" side="+std::to_string(bn)+" dim="+std::to_string(dim)+" "+d;
  if(!expect){ outcome(o,"C11"); return; }
  bool all=true; for(int e:o.exited) if(e!=1) all=false;
  if(o.kind=="abort") return; // stopped by MPI_Abort
  if(o.kind.size()) bad("C11","invalid call ended in "+o.kind+": "+o.msg);
  else if(!all||touched) bad("C11","invalid call was not refused");
  else if(o.printed[0].find("ERROR")==string::npos) bad("C11","no error message for invalid call"); }
// life cycle
extern "C" int __lsan_do_recoverable_leak_check(void);
static void t_life(Rng&r,int size){ int nd=r.in(2,3); Cfg c=gen(r,nd,size>2?2:1); int what=r.in(0,4); g_desc+=" life="+std::to_string(what); fm::Options fo; fo.rendezvous=c.rdv; fo.seed=c.seed; int caller=0;
  auto o=fm::run(c.P,[&](int me){ F f(nd); f.opts(c); int fs,ss,rs; if(what==0) return; 
    if(what==4) { f.tune(c,me,fs,ss,rs,0,1,0.0,0); } else f.setup(c,me,fs,ss,rs);
    if(what==1) return;
    FFT_SCALAR*sb=(FFT_SCALAR*)malloc(sizeof(FFT_SCALAR)*ss),*rb=(FFT_SCALAR*)malloc(sizeof(FFT_SCALAR)*rs); if(!c.mem) f.mem(sb,rb);
    if(what>=3){ FFT_SCALAR*d=(FFT_SCALAR*)malloc(2*sizeof(FFT_SCALAR)*(fs+1)); memset(d,0,2*sizeof(FFT_SCALAR)*(fs+1)); f.compute(d,d,1); f.compute(d,d,-1); free(d); }
    if(f.a){ delete f.a; f.a=0; } else { delete f.b; f.b=0; }
    free(sb); free(rb); },fo); (void)caller;
  outcome(o,"C12"); if(o.live_comms||o.live_groups||o.live_reqs) bad("C12","MPI objects not released: comms="+std::to_string(o.live_comms)+" groups="+std::to_string(o.live_groups)+" requests="+std::to_string(o.live_reqs));
#ifndef NO_LSAN
  if(__lsan_do_recoverable_leak_check()) bad("C12","memory leaked");
#endif
}
int main(int argc,char**argv){ return harness_main(argc,argv,{{"fft3",t_fft3},{"fft2",t_fft2},{"oop3",t_oop3},{"oop2",t_oop2},{"step3",t_step3},{"step2",t_step2},{"grid",t_grid},{"tune",t_tune},{"err",t_err},{"life",t_life},{"memu",t_memu}}); }
