// cases for Remap3d / Remap2d used directly
#include "common.h"
#include "remap3d.h"
#include "remap2d.h"
#include "pack3d.h"
#include "pack2d.h"
using namespace FFTMPI_NS;
static void remap_case(Rng&r,int nd,int size,int mode){
  const char*PR=nd==3?"C04":"C05"; int mx=size==1?4:size==2?7:11; Box g; bool neg=r.p(40);
  for(int d=0;d<3;d++){ g.lo[d]=(d<nd&&neg)?r.in(-9,9):0; g.hi[d]=g.lo[d]+(d<nd?r.in(1,mx):1)-1; }
  int P=r.in(1,size==1?5:size==2?8:13); string di,dO; vector<Box> in=tiling(r,nd,g,P,di),out=r.p(15)?in:tiling(r,nd,g,P,dO);
  // an empty tile may have any bounds with hi = lo-1 in some dimension
  for(int q=0;q<P;q++) for(auto*t:{&in,&out}) if((*t)[q].vol()==0&&r.p(30)){ Box&b=(*t)[q]; for(int d=0;d<nd;d++) if(b.hi[d]<b.lo[d]){ int v=r.in(-30,30); b.lo[d]=v; b.hi[d]=v-1; } }
  int nqty=r.in(1,5),perm=r.in(0,nd==3?2:1),coll=r.in(0,1),pk=r.in(0,2),mem=r.in(0,1),rdv=r.in(0,1); bool inplace=mode==1?false:r.p(50); unsigned long seed=r.next()%1000000; int twice=r.in(1,2);
  g_desc="nd="+std::to_string(nd)+" P="+std::to_string(P)+" nqty="+std::to_string(nqty)+" permute="+std::to_string(perm)+" collective="+std::to_string(coll)+" pack="+std::to_string(pk)+" memoryflag="+std::to_string(mem)+" unbuffered_sends="+std::to_string(rdv)+" inplace="+std::to_string(inplace)+" in="; for(auto&b:in) g_desc+=bstr(b,nd); g_desc+=" out="; for(auto&b:out) g_desc+=bstr(b,nd);
  auto val=[&](const int*x,int q){ return (FFT_SCALAR)(1000+((x[0]+64)*97+(x[1]+64)*1009+(x[2]+64)*10007)%100003*8+q); };
  auto ov=[&](const Box&a,const Box&b){ long v=1; for(int d=0;d<nd;d++){ int l=std::max(a.lo[d],b.lo[d]),h=std::min(a.hi[d],b.hi[d]); if(h<l) return 0L; v*=h-l+1; } return v; };
  // connected components of the overlap graph
  vector<int> comp(P); for(int i=0;i<P;i++) comp[i]=i; std::function<int(int)> find=[&](int x){ return comp[x]==x?x:comp[x]=find(comp[x]); }; for(int a=0;a<P;a++) for(int b=0;b<P;b++) if(ov(in[a],out[b])) comp[find(a)]=find(b);
  fm::Options fo; fo.rendezvous=rdv; fo.seed=seed;
  auto o=fm::run(P,[&](int me){ Remap3d*a=0; Remap2d*b=0; int ss=-7,rs=-7; const Box&i=in[me]; const Box&u=out[me];
    if(nd==3){ a=new Remap3d(MPI_COMM_WORLD); a->collective=coll; a->packflag=pk; a->setup(i.lo[0],i.hi[0],i.lo[1],i.hi[1],i.lo[2],i.hi[2],u.lo[0],u.hi[0],u.lo[1],u.hi[1],u.lo[2],u.hi[2],nqty,perm,mem,ss,rs); }
    else { b=new Remap2d(MPI_COMM_WORLD); b->collective=coll; b->packflag=pk; b->setup(i.lo[0],i.hi[0],i.lo[1],i.hi[1],u.lo[0],u.hi[0],u.lo[1],u.hi[1],nqty,perm,mem,ss,rs); }
    long nsend=0,nrecv=0,ngroup=0,any=0; for(int q=0;q<P;q++){ long s=ov(i,out[q]),v=ov(in[q],u); if(s||v) any=1; if(s&&(coll||q!=me)) nsend++; if(v&&(coll||q!=me)) nrecv++; if(find(q)==find(me)) ngroup++; } if(!any) ngroup=0;
    long ps=nd==3?sizeof(pack_plan_3d):sizeof(pack_plan_2d); long mu=nsend*(12+ps)+nrecv*(16+8+ps)+(mem?(long)(ss+rs)*sizeof(FFT_SCALAR):0)+(coll?28*ngroup:0); long got=a?(long)a->memusage:(long)b->memusage; if(got!=mu) bad("C13","remap memusage "+std::to_string(got)+" expected "+std::to_string(mu)+" on rank "+std::to_string(me));
    if(ss<0||rs<0) bad("C08","negative buffer size reported");
    { Arr<FFT_SCALAR> sb(mem?0:std::max(ss,0)),rb(mem?0:std::max(rs,0)); FFT_SCALAR*sp=mem?0:sb.get(),*rp=mem?0:rb.get();
      for(int t=0;t<twice;t++){
        long ni=i.vol()*nqty,nu=u.vol()*nqty; Arr<FFT_SCALAR> A(inplace?std::max(ni,nu):ni),O(inplace?0:nu);
        each(i,[&](const int*x){ for(int q=0;q<nqty;q++) A[loc(i,x,0,nd)*nqty+q]=val(x,q); }); vector<FFT_SCALAR> keep(A.p,A.p+A.n);
        FFT_SCALAR*dst=inplace?A.get():O.get(); if(a) a->remap(A.get(),dst,sp,rp); else b->remap(A.get(),dst,sp,rp);
        bool ok=true; each(u,[&](const int*x){ for(int q=0;q<nqty&&ok;q++){ FFT_SCALAR v=dst[loc(u,x,perm,nd)*nqty+q]; if(v!=val(x,q)){ ok=false; char m[200]; snprintf(m,sizeof m,"rank %d grid point (%d,%d,%d) value %d: got %g expected %g",me,x[0],x[1],x[2],q,(double)v,(double)val(x,q)); bad(PR,m); } } });
        if(!inplace&&!keep.empty()&&memcmp(keep.data(),A.p,A.n*sizeof(FFT_SCALAR))) bad(PR,"separate input array was modified on rank "+std::to_string(me));
        if(inplace) for(long k=nu;k<(long)A.n;k++) if(A[k]!=keep[k]){ bad(PR,"element outside the output tile was written on rank "+std::to_string(me)); break; }
        if(!A.ok()||!O.ok()) bad("C08","write outside data array"); if(!sb.ok()||!rb.ok()) bad("C08","write outside buffers"); } }
    delete a; delete b; },fo);
  if(o.kind.size()) bad(o.kind=="abort"?"C11":"C07",o.kind+": "+o.msg); for(size_t k=0;k<o.exited.size();k++) if(o.exited[k]>=0){ bad("C11","a valid remap was refused: "+o.printed[0]); break; }
  if(o.live_comms||o.live_groups||o.live_reqs) bad("C12","MPI objects not released: comms="+std::to_string(o.live_comms)+" groups="+std::to_string(o.live_groups)+" requests="+std::to_string(o.live_reqs)); if(o.unmatched) bad("C07","messages never received"); }
static void t_r3(Rng&r,int s){ remap_case(r,3,s,0); }
static void t_r2(Rng&r,int s){ remap_case(r,2,s,0); }
extern "C" int __lsan_do_recoverable_leak_check(void);
static void t_rlife(Rng&r,int size){ int nd=r.in(2,3); if(r.p(15)){ g_desc="remap created and destroyed without setup"; auto o=fm::run(2,[&](int me){ if(nd==3){ Remap3d*a=new Remap3d(MPI_COMM_WORLD); a->collective=r.in(0,1)?1:1; delete a; } else delete new Remap2d(MPI_COMM_WORLD); }); if(o.kind.size()) bad("C12",o.kind+": "+o.msg); } else remap_case(r,nd,size>2?2:1,0);
  if(__lsan_do_recoverable_leak_check()) bad("C12","memory leaked"); }
static void t_rerr(Rng&r,int size){ int nd=r.in(2,3),P=r.in(1,4); (void)size; bool touched=false; g_desc="remap before setup nd="+std::to_string(nd)+" P="+std::to_string(P);
  auto o=fm::run(P,[&](int me){ FFT_SCALAR d[4]={1,2,3,4}; if(nd==3) (new Remap3d(MPI_COMM_WORLD))->remap(d,d,d,d); else (new Remap2d(MPI_COMM_WORLD))->remap(d,d,d,d); touched=true; });
  if(o.kind=="abort") return; if(o.kind.size()) bad("C11","remap before setup ended in "+o.kind+": "+o.msg); else { bool all=true; for(int e:o.exited) if(e!=1) all=false; if(!all||touched) bad("C11","remap before setup was not refused"); } }
int main(int argc,char**argv){ return harness_main(argc,argv,{{"remap3",t_r3},{"remap2",t_r2},{"rlife",t_rlife},{"rerr",t_rerr}}); }
