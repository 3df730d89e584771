// C15: the real *_wrap.cpp and *_wrap.f90 against recording stand-ins of the C++ classes
#define private public
#include "fft3d.h"
#include "fft2d.h"
#include "remap3d.h"
#include "remap2d.h"
#undef private
#include "fft3d_wrap.h"
#include "fft2d_wrap.h"
#include "remap3d_wrap.h"
#include "remap2d_wrap.h"
#include "common.h"
using namespace FFTMPI_NS;
static vector<string> rec; static const void*lastobj; static int outs[3]; static int live;
static string S(const void*p){ char t[40]; snprintf(t,40,"%p",p); return t; }
static string S(MPI_Comm p){ return S((const void*)p); }
static string S(FFT_SCALAR*p){ return S((const void*)p); }
static string S(int x){ return std::to_string(x); } static string S(double x){ char t[60]; snprintf(t,60,"%.17g",x); return t; }
static string cat(){ return ""; }
template<class A,class...R> static string cat(A a,R...r){ return " "+S(a)+cat(r...); }
template<class...R> static void note(const char*n,const void*o,R...r){ rec.push_back(string(n)+" "+S(o)+cat(r...)); lastobj=o; }
#define O(a,b,c) a=outs[0],b=outs[1],c=outs[2]
namespace FFTMPI_NS {
FFT3d::FFT3d(MPI_Comm c,int p){ note("new",0,c,p); lastobj=this; live++; } FFT3d::~FFT3d(){ note("del",this); live--; }
void FFT3d::setup(int a,int b,int c,int d,int e,int f,int g,int h,int i,int j,int k,int l,int m,int n,int o,int p,int&x,int&y,int&z){ note("setup",this,a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p); O(x,y,z); }
void FFT3d::setup_memory(FFT_SCALAR*a,FFT_SCALAR*b){ note("setup_memory",this,a,b); }
void FFT3d::compute(FFT_SCALAR*a,FFT_SCALAR*b,int f){ note("compute",this,a,b,f); }
void FFT3d::only_1d_ffts(FFT_SCALAR*a,int f){ note("only_1d_ffts",this,a,f); }
void FFT3d::only_remaps(FFT_SCALAR*a,FFT_SCALAR*b,int f){ note("only_remaps",this,a,b,f); }
void FFT3d::only_one_remap(FFT_SCALAR*a,FFT_SCALAR*b,int f,int w){ note("only_one_remap",this,a,b,f,w); }
void FFT3d::tune(int a,int b,int c,int d,int e,int f,int g,int h,int i,int j,int k,int l,int m,int n,int o,int p,int&x,int&y,int&z,int q,int r,double t,int u){ note("tune",this,a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,t,u); O(x,y,z); }
FFT2d::FFT2d(MPI_Comm c,int p){ note("new",0,c,p); lastobj=this; live++; } FFT2d::~FFT2d(){ note("del",this); live--; }
void FFT2d::setup(int a,int b,int d,int e,int f,int g,int h,int i,int j,int k,int p,int&x,int&y,int&z){ note("setup",this,a,b,d,e,f,g,h,i,j,k,p); O(x,y,z); }
void FFT2d::setup_memory(FFT_SCALAR*a,FFT_SCALAR*b){ note("setup_memory",this,a,b); }
void FFT2d::compute(FFT_SCALAR*a,FFT_SCALAR*b,int f){ note("compute",this,a,b,f); }
void FFT2d::only_1d_ffts(FFT_SCALAR*a,int f){ note("only_1d_ffts",this,a,f); }
void FFT2d::only_remaps(FFT_SCALAR*a,FFT_SCALAR*b,int f){ note("only_remaps",this,a,b,f); }
void FFT2d::only_one_remap(FFT_SCALAR*a,FFT_SCALAR*b,int f,int w){ note("only_one_remap",this,a,b,f,w); }
void FFT2d::tune(int a,int b,int d,int e,int f,int g,int h,int i,int j,int k,int p,int&x,int&y,int&z,int q,int r,double t,int u){ note("tune",this,a,b,d,e,f,g,h,i,j,k,p,q,r,t,u); O(x,y,z); }
Remap3d::Remap3d(MPI_Comm c){ note("new",0,c); lastobj=this; live++; } Remap3d::~Remap3d(){ note("del",this); live--; }
void Remap3d::setup(int a,int b,int c,int d,int e,int f,int g,int h,int i,int j,int k,int l,int m,int n,int o,int&x,int&y){ note("setup",this,a,b,c,d,e,f,g,h,i,j,k,l,m,n,o); x=outs[0]; y=outs[1]; }
void Remap3d::remap(FFT_SCALAR*a,FFT_SCALAR*b,FFT_SCALAR*c,FFT_SCALAR*d){ note("remap",this,a,b,c,d); }
Remap2d::Remap2d(MPI_Comm c){ note("new",0,c); lastobj=this; live++; } Remap2d::~Remap2d(){ note("del",this); live--; }
void Remap2d::setup(int a,int b,int c,int d,int e,int f,int g,int h,int m,int n,int o,int&x,int&y){ note("setup",this,a,b,c,d,e,f,g,h,m,n,o); x=outs[0]; y=outs[1]; }
void Remap2d::remap(FFT_SCALAR*a,FFT_SCALAR*b,FFT_SCALAR*c,FFT_SCALAR*d){ note("remap",this,a,b,c,d); }
}
static void expect(const char*fn,const string&want){ if(rec.size()!=1||rec[0]!=want){ string g; for(auto&x:rec) g+="{"+x+"}"; bad("C15",string(fn)+": did "+g+" instead of {"+want+"}"); } rec.clear(); }
template<class...R> static string E(const char*n,const void*o,R...r){ return string(n)+" "+S(o)+cat(r...); }
static void outsok(const char*fn,int*o,int n){ for(int i=0;i<n;i++) if(o[i]!=outs[i]) bad("C15",string(fn)+": result "+S(i+1)+" not returned"); }
#ifdef HAVE_F90
extern "C" {
void f3_create(int,int,void**); void f3_destroy(void*); void f3_setup(void*,int*,int*); void f3_memory(void*,void*,void*); void f3_compute(void*,void*,void*,int); void f3_1d(void*,void*,int); void f3_remaps(void*,void*,void*,int); void f3_one(void*,void*,void*,int,int); void f3_tune(void*,int*,int*,int,int,double,int);
void f3_set(void*,int); void f3_get(void*,int*,double*,int64_t*,void**,int*);
void f2_create(int,int,void**); void f2_destroy(void*); void f2_setup(void*,int*,int*); void f2_memory(void*,void*,void*); void f2_compute(void*,void*,void*,int); void f2_1d(void*,void*,int); void f2_remaps(void*,void*,void*,int); void f2_one(void*,void*,void*,int,int); void f2_tune(void*,int*,int*,int,int,double,int);
void f2_set(void*,int); void f2_get(void*,int*,double*,int64_t*,void**,int*);
void r3_create(int,void**); void r3_destroy(void*); void r3_set(void*,int); void r3_setup(void*,int*,int*); void r3_remap(void*,void*,void*,void*,void*);
void r2_create(int,void**); void r2_destroy(void*); void r2_set(void*,int); void r2_setup(void*,int*,int*); void r2_remap(void*,void*,void*,void*,void*); }
#endif
static const char*KW[]={"collective","exchange","pack","memory","scale","remaponly","npfast1","npfast2","npfast3","npmid1","npmid2","npmid3","npslow1","npslow2","npslow3","npbrick1","npbrick2","npbrick3","ntrial","npertrial","setuptime","memusage","fft1d","precision","cflags","eflags","pflags","tfft","t1d","tremap","tremap1","tremap2","tremap3","tremap4","","nosuch","Collective","packflag","npfast","tremap5","collectiv","collectivex"};
// distinct values in every public field
template<class F> static void fill(F*f,Rng&r){ memset((void*)f,0,sizeof(F)); unsigned char*p=(unsigned char*)f; for(size_t i=0;i<sizeof(F);i++) p[i]=1+r.in(0,120); f->fft1d="ONEDLIB"; f->precision="prec"; f->ntrial=r.in(1,10); f->setuptime=1.25+r.in(1,99); f->memusage=7000000000LL+r.in(1,99); }
template<class F> static void mid(F*f,std::vector<std::pair<string,int*>>&v){}
template<> void mid<FFT3d>(FFT3d*f,std::vector<std::pair<string,int*>>&v){ v.push_back({"npmid1",&f->npmid1}); v.push_back({"npmid2",&f->npmid2}); v.push_back({"npmid3",&f->npmid3}); v.push_back({"npfast3",&f->npfast3}); v.push_back({"npslow3",&f->npslow3}); v.push_back({"npbrick3",&f->npbrick3}); }
template<class F> static void dv4(F*f,std::vector<std::pair<string,double*>>&v){}
template<> void dv4<FFT3d>(FFT3d*f,std::vector<std::pair<string,double*>>&v){ v.push_back({"tremap4",f->tremap4}); }
template<class F,class A,class B,class C,class D,class G,class H,class I> static void kw(const char*nm,Rng&r,A set,B geti,C getd,D get64,G gets,H getiv,I getdv){
  char*raw=(char*)calloc(1,sizeof(F)); F*f=(F*)raw; char*cp=(char*)malloc(sizeof(F));
  for(const char*k:KW){ fill(f,r); string n=string(nm)+" "+k;
    vector<std::pair<string,int*>> st={{"collective",&f->collective},{"exchange",&f->exchange},{"pack",&f->packflag},{"memory",&f->memoryflag},{"scale",&f->scaled},{"remaponly",&f->remaponly}};
    int val=r.in(-5,100000); memcpy(cp,f,sizeof(F)); { F*c=(F*)cp; for(auto&x:st) if(x.first==k) *(int*)(cp+((char*)x.second-raw))=val; } set((void*)f,k,val); if(memcmp(cp,f,sizeof(F))) bad("C15","set "+n+" wrote the wrong settings");
    memcpy(cp,f,sizeof(F));
    vector<std::pair<string,int*>> gi={{"collective",&f->collective},{"exchange",&f->exchange},{"pack",&f->packflag},{"npfast1",&f->npfast1},{"npfast2",&f->npfast2},{"npslow1",&f->npslow1},{"npslow2",&f->npslow2},{"npbrick1",&f->npbrick1},{"npbrick2",&f->npbrick2},{"ntrial",&f->ntrial},{"npertrial",&f->npertrial}}; mid<F>(f,gi);
    int wi=-1; for(auto&x:gi) if(x.first==k) wi=*x.second; if(geti((void*)f,k)!=wi) bad("C15","get_int "+n);
    double wd=!strcmp(k,"setuptime")?f->setuptime:-1.0; if(getd((void*)f,k)!=wd) bad("C15","get_double "+n);
    int64_t w6=!strcmp(k,"memusage")?f->memusage:-1; if(get64((void*)f,k)!=w6) bad("C15","get_int64 "+n);
    int len=-77; const char*ws=!strcmp(k,"fft1d")?f->fft1d:!strcmp(k,"precision")?f->precision:NULL; if(gets((void*)f,k,&len)!=ws) bad("C15","get_string "+n); if(ws&&len!=(int)strlen(ws)) bad("C15","get_string length "+n);
    int*wv=!strcmp(k,"cflags")?f->cflags:!strcmp(k,"eflags")?f->eflags:!strcmp(k,"pflags")?f->pflags:NULL; len=-77; if(getiv((void*)f,k,&len)!=wv) bad("C15","get_int_vector "+n); if(wv&&len!=f->ntrial) bad("C15","get_int_vector length "+n);
    vector<std::pair<string,double*>> gv={{"tfft",f->tfft},{"t1d",f->t1d},{"tremap",f->tremap},{"tremap1",f->tremap1},{"tremap2",f->tremap2},{"tremap3",f->tremap3}}; dv4<F>(f,gv); double*wp=NULL; for(auto&x:gv) if(x.first==k) wp=x.second; len=-77; if(getdv((void*)f,k,&len)!=wp) bad("C15","get_double_vector "+n); if(wp&&len!=f->ntrial) bad("C15","get_double_vector length "+n);
    if(memcmp(cp,f,sizeof(F))) bad("C15","a get function changed the object: "+n); }
  free(raw); free(cp); }
template<class F,class A> static void rkw(const char*nm,Rng&r,A set){ char*raw=(char*)calloc(1,sizeof(F)),*cp=(char*)malloc(sizeof(F)); F*f=(F*)raw;
  for(const char*k:KW){ for(size_t i=0;i<sizeof(F);i++) raw[i]=1+r.in(0,100); memcpy(cp,raw,sizeof(F)); int v=r.in(0,9999); F*c=(F*)cp; if(!strcmp(k,"collective")) c->collective=v; if(!strcmp(k,"pack")) c->packflag=v; set((void*)f,(char*)k,v); if(memcmp(cp,raw,sizeof(F))) bad("C15",string("set ")+nm+" "+k+" wrote the wrong settings"); }
  free(raw); free(cp); }
static void wrap(Rng&r,int){
  g_desc="all wrapper functions with distinct arguments";
  int a[16],b[16]; for(int i=0;i<16;i++){ a[i]=100*(i+1)+r.in(0,99); b[i]=a[i]-1; } for(int i=0;i<3;i++) outs[i]=r.in(1,1000000)*3+i; int o[3]; double t=r.in(1,999)/8.0; int q=r.in(-9,9),n=r.in(1,99),u=r.in(0,9);
  FFT_SCALAR*x=(FFT_SCALAR*)0x1000,*y=(FFT_SCALAR*)0x2000,*z=(FFT_SCALAR*)0x3000,*w=(FFT_SCALAR*)0x4000; MPI_Comm C=(MPI_Comm)0x500; void*p; void*f;
  rec.clear();
#define B3 b[3],b[4],b[5],b[6],b[7],b[8],b[9],b[10],b[11],b[12],b[13],b[14]
#define A3 a[3],a[4],a[5],a[6],a[7],a[8],a[9],a[10],a[11],a[12],a[13],a[14]
#define A2 a[3],a[4],a[5],a[6],a[7],a[8],a[9],a[10]
#define B2 b[3],b[4],b[5],b[6],b[7],b[8],b[9],b[10]
  p=0; fft3d_create(C,q,&p); f=(void*)lastobj; expect("fft3d_create",E("new",0,C,q)); if(p!=f) bad("C15","fft3d_create does not return the object");
  fft3d_setup(f,a[0],a[1],a[2],A3,a[15],o,o+1,o+2); expect("fft3d_setup",E("setup",f,a[0],a[1],a[2],A3,a[15])); outsok("fft3d_setup",o,3);
  fft3d_setup_fortran(f,a[0],a[1],a[2],A3,a[15],o,o+1,o+2); expect("fft3d_setup_fortran",E("setup",f,a[0],a[1],a[2],B3,a[15])); outsok("fft3d_setup_fortran",o,3);
  fft3d_setup_memory(f,x,y); expect("fft3d_setup_memory",E("setup_memory",f,x,y));
  fft3d_compute(f,x,y,q); expect("fft3d_compute",E("compute",f,x,y,q));
  fft3d_only_1d_ffts(f,x,q); expect("fft3d_only_1d_ffts",E("only_1d_ffts",f,x,q));
  fft3d_only_remaps(f,x,y,q); expect("fft3d_only_remaps",E("only_remaps",f,x,y,q));
  fft3d_only_one_remap(f,x,y,q,u); expect("fft3d_only_one_remap",E("only_one_remap",f,x,y,q,u));
  fft3d_tune(f,a[0],a[1],a[2],A3,a[15],o,o+1,o+2,q,n,t,u); expect("fft3d_tune",E("tune",f,a[0],a[1],a[2],A3,a[15],q,n,t,u)); outsok("fft3d_tune",o,3);
  fft3d_tune_fortran(f,a[0],a[1],a[2],A3,a[15],o,o+1,o+2,q,n,t,u); expect("fft3d_tune_fortran",E("tune",f,a[0],a[1],a[2],B3,a[15],q,n,t,u)); outsok("fft3d_tune_fortran",o,3);
  fft3d_destroy(f); expect("fft3d_destroy",E("del",f));
  p=0; fft2d_create(C,q,&p); f=(void*)lastobj; expect("fft2d_create",E("new",0,C,q)); if(p!=f) bad("C15","fft2d_create does not return the object");
  fft2d_setup(f,a[0],a[1],A2,a[15],o,o+1,o+2); expect("fft2d_setup",E("setup",f,a[0],a[1],A2,a[15])); outsok("fft2d_setup",o,3);
  fft2d_setup_fortran(f,a[0],a[1],A2,a[15],o,o+1,o+2); expect("fft2d_setup_fortran",E("setup",f,a[0],a[1],B2,a[15])); outsok("fft2d_setup_fortran",o,3);
  fft2d_setup_memory(f,x,y); expect("fft2d_setup_memory",E("setup_memory",f,x,y));
  fft2d_compute(f,x,y,q); expect("fft2d_compute",E("compute",f,x,y,q));
  fft2d_only_1d_ffts(f,x,q); expect("fft2d_only_1d_ffts",E("only_1d_ffts",f,x,q));
  fft2d_only_remaps(f,x,y,q); expect("fft2d_only_remaps",E("only_remaps",f,x,y,q));
  fft2d_only_one_remap(f,x,y,q,u); expect("fft2d_only_one_remap",E("only_one_remap",f,x,y,q,u));
  fft2d_tune(f,a[0],a[1],A2,a[15],o,o+1,o+2,q,n,t,u); expect("fft2d_tune",E("tune",f,a[0],a[1],A2,a[15],q,n,t,u)); outsok("fft2d_tune",o,3);
  fft2d_tune_fortran(f,a[0],a[1],A2,a[15],o,o+1,o+2,q,n,t,u); expect("fft2d_tune_fortran",E("tune",f,a[0],a[1],B2,a[15],q,n,t,u)); outsok("fft2d_tune_fortran",o,3);
  fft2d_destroy(f); expect("fft2d_destroy",E("del",f));
  p=0; remap3d_create(C,&p); f=(void*)lastobj; expect("remap3d_create",E("new",0,C)); if(p!=f) bad("C15","remap3d_create does not return the object");
  remap3d_setup(f,A3,a[0],a[1],a[2],o,o+1); expect("remap3d_setup",E("setup",f,A3,a[0],a[1],a[2])); outsok("remap3d_setup",o,2);
  remap3d_setup_fortran(f,A3,a[0],a[1],a[2],o,o+1); expect("remap3d_setup_fortran",E("setup",f,B3,a[0],a[1],a[2])); outsok("remap3d_setup_fortran",o,2);
  remap3d_remap(f,x,y,z,w); expect("remap3d_remap",E("remap",f,x,y,z,w)); remap3d_destroy(f); expect("remap3d_destroy",E("del",f));
  p=0; remap2d_create(C,&p); f=(void*)lastobj; expect("remap2d_create",E("new",0,C)); if(p!=f) bad("C15","remap2d_create does not return the object");
  remap2d_setup(f,A2,a[0],a[1],a[2],o,o+1); expect("remap2d_setup",E("setup",f,A2,a[0],a[1],a[2])); outsok("remap2d_setup",o,2);
  remap2d_setup_fortran(f,A2,a[0],a[1],a[2],o,o+1); expect("remap2d_setup_fortran",E("setup",f,B2,a[0],a[1],a[2])); outsok("remap2d_setup_fortran",o,2);
  remap2d_remap(f,x,y,z,w); expect("remap2d_remap",E("remap",f,x,y,z,w)); remap2d_destroy(f); expect("remap2d_destroy",E("del",f));
  kw<FFT3d>("3d",r,fft3d_set,fft3d_get_int,fft3d_get_double,fft3d_get_int64,fft3d_get_string,fft3d_get_int_vector,fft3d_get_double_vector);
  kw<FFT2d>("2d",r,fft2d_set,fft2d_get_int,fft2d_get_double,fft2d_get_int64,fft2d_get_string,fft2d_get_int_vector,fft2d_get_double_vector);
  rkw<Remap3d>("remap3d",r,remap3d_set); rkw<Remap2d>("remap2d",r,remap2d_set);
  MPI_Comm FC=MPI_Comm_f2c(0);
  { p=0; fft3d_create_fortran(0,q,&p); f=(void*)lastobj; expect("fft3d_create_fortran",E("new",0,FC,q)); if(p!=f) bad("C15","fft3d_create_fortran does not return the object"); fft3d_destroy(f);
    p=0; fft2d_create_fortran(0,q,&p); f=(void*)lastobj; rec.erase(rec.begin()); expect("fft2d_create_fortran",E("new",0,FC,q)); if(p!=f) bad("C15","fft2d_create_fortran does not return the object"); fft2d_destroy(f);
    p=0; remap3d_create_fortran(0,&p); f=(void*)lastobj; rec.erase(rec.begin()); expect("remap3d_create_fortran",E("new",0,FC)); if(p!=f) bad("C15","remap3d_create_fortran does not return the object"); remap3d_destroy(f);
    p=0; remap2d_create_fortran(0,&p); f=(void*)lastobj; rec.erase(rec.begin()); expect("remap2d_create_fortran",E("new",0,FC)); if(p!=f) bad("C15","remap2d_create_fortran does not return the object"); remap2d_destroy(f); rec.clear(); }
#ifdef HAVE_F90
#define FT(P,CLS,CR,AA,BB,LEAD,GI) \
  p=0; P##_create(0,q,&p); f=(void*)lastobj; expect(#P " Fortran create",E("new",0,FC,q)); if(p!=f) bad("C15",#P " Fortran create result"); \
  P##_setup(f,a,o); expect(#P " Fortran setup",E("setup",f,LEAD,BB,a[15])); outsok(#P " Fortran setup",o,3); \
  P##_memory(f,x,y); expect(#P " Fortran setup_memory",E("setup_memory",f,x,y)); P##_compute(f,x,y,q); expect(#P " Fortran compute",E("compute",f,x,y,q)); \
  P##_1d(f,x,q); expect(#P " Fortran only_1d_ffts",E("only_1d_ffts",f,x,q)); P##_remaps(f,x,y,q); expect(#P " Fortran only_remaps",E("only_remaps",f,x,y,q)); \
  P##_one(f,x,y,q,u); expect(#P " Fortran only_one_remap",E("only_one_remap",f,x,y,q,u)); \
  P##_tune(f,a,o,q,n,t,u); expect(#P " Fortran tune",E("tune",f,LEAD,BB,a[15],q,n,t,u)); outsok(#P " Fortran tune",o,3); \
  { CLS*g=(CLS*)f; g->memusage=7000000001LL; g->setuptime=2.5; g->ntrial=4; g->fft1d="ONED"; g->precision="pr"; P##_set(f,q); if(g->exchange!=q) bad("C15",#P " Fortran set"); int gi=0; double gd=0; int64_t g6=0; void*gs[3]={0,0,0}; int gl[3]={0,0,0}; P##_get(f,&gi,&gd,&g6,gs,gl); if(gi!=4||gd!=2.5||g6!=7000000001LL||gs[0]!=(void*)g->precision||gs[1]!=(void*)g->eflags||gs[2]!=(void*)g->tremap2||gl[0]!=2||gl[1]!=4||gl[2]!=4) bad("C15",#P " Fortran get functions"); } \
  P##_destroy(f); expect(#P " Fortran destroy",E("del",f));
#define L3 a[0],a[1],a[2]
#define L2 a[0],a[1]
  FT(f3,FFT3d,0,A3,B3,L3,0) FT(f2,FFT2d,0,A2,B2,L2,0)
#define RT(P,CLS,BB) p=0; P##_create(0,&p); f=(void*)lastobj; expect(#P " Fortran create",E("new",0,FC)); if(p!=f) bad("C15",#P " Fortran create result"); P##_setup(f,a,o); expect(#P " Fortran setup",E("setup",f,BB,a[0],a[1],a[2])); outsok(#P " Fortran setup",o,2); P##_set(f,q); if(((CLS*)f)->packflag!=q) bad("C15",#P " Fortran set"); P##_remap(f,x,y,z,w); expect(#P " Fortran remap",E("remap",f,x,y,z,w)); P##_destroy(f); expect(#P " Fortran destroy",E("del",f));
  RT(r3,Remap3d,B3) RT(r2,Remap2d,B2)
#endif
  if(live) bad("C15","objects left"); live=0; }
int main(int c,char**v){ return harness_main(c,v,{{"wrap",wrap}}); }
