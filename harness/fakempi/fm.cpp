#include "fm.h"
#include <pthread.h>
#include <unistd.h>
#include <setjmp.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <algorithm>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <condition_variable>
#include <thread>
using std::string; using std::vector;

struct fm_group { vector<int> w; bool empty_const=false; };          // world ranks
struct Contribution { const void *s=nullptr; void *r=nullptr; int scount=0,rcount=0; vector<int> scnt,sdsp,rcnt,rdsp; int st=0,rt=0; vector<int> grp; bool grpnull=false; int color=0,key=0; MPI_Comm *newc=nullptr; };
struct Coll { string op; int root=0; int mop=0; int count=0; int type=0; int arrived=0; bool done=false; vector<Contribution> c; vector<bool> in; };
struct fm_comm { vector<int> w; std::map<int,long> seq; std::map<long,std::shared_ptr<Coll>> colls; int freed=0; bool perm=false; int id=0; };
struct Msg { int src,dst,tag; fm_comm *comm; const void *buf; vector<char> copy; size_t bytes; bool owned=false; bool matched=false; };
struct fm_req { bool recv; void *buf; size_t bytes; int peer,tag; fm_comm *comm; int owner; bool done=false; int asrc=-1,atag=-1; size_t got=0; std::shared_ptr<Msg> m; long order=0; };

namespace {
struct Rank { std::condition_variable cv; std::function<bool()> pred; bool blocked=false, done=false; jmp_buf jb; int exitcode=-1; string out; double t=0; unsigned long rs; bool finalized=false; const char *where=""; };
struct World {
  int n; std::mutex mu; vector<std::unique_ptr<Rank>> r; int cur=0; bool abort=false;
  string kind,msg; fm::Options o; unsigned long rs;
  vector<std::unique_ptr<fm_comm>> comms; int live_comms=0, live_groups=0, live_reqs=0;
  std::list<std::shared_ptr<Msg>> msgs; std::list<fm_req*> posted; fm_comm *world=nullptr; vector<fm_comm*> self;
  std::condition_variable main_cv; bool alldone=false; double gt=0;
};
World *W=nullptr; fm_group EMPTY;
thread_local int me=-1;
unsigned long nextr(unsigned long &s){ s^=s<<13; s^=s>>7; s^=s<<17; return s; }
[[noreturn]] void leave(){ longjmp(W->r[me]->jb,1); }
// choose next runnable rank and hand the baton over; caller holds lock
void schedule(std::unique_lock<std::mutex>&lk,bool i_am_done){
  vector<int> ok;
  for(int i=0;i<W->n;i++){ auto&R=*W->r[i]; if(R.done) continue; if(W->abort||!R.blocked||R.pred()) ok.push_back(i);}
  if(ok.empty()){
    bool all=true; for(auto&R:W->r) if(!R->done) all=false;
    if(all){ W->alldone=true; W->main_cv.notify_all(); return; }
    if(!W->abort){ W->abort=true; if(W->kind.empty()){ W->kind="deadlock"; string s="ranks waiting forever:"; for(int i=0;i<W->n;i++) if(!W->r[i]->done) s+=" "+std::to_string(i)+"("+W->r[i]->where+")"; W->msg=s; } }
    for(int i=0;i<W->n;i++) if(!W->r[i]->done) ok.push_back(i);
  }
  int nx=ok[nextr(W->rs)%ok.size()];
  W->cur=nx; W->r[nx]->cv.notify_all();
  if(!i_am_done && nx!=me) W->r[me]->cv.wait(lk,[&]{return W->cur==me;});
}
void block(const char*where,std::function<bool()> pred){
  { std::unique_lock<std::mutex> lk(W->mu);
    auto&R=*W->r[me]; R.where=where;
    for(;;){
      R.blocked=true; R.pred=pred; schedule(lk,false);
      if(W->abort) break;
      if(pred()) break;
    }
    R.blocked=false; R.where="";
  }
  if(W->abort) leave();
}
void yield_(){ block("",[]{return true;}); }
int dsz(int t){ return t&0xff; }
int crank(fm_comm*c,int wr){ for(size_t i=0;i<c->w.size();i++) if(c->w[i]==wr) return i; return -1; }
void check_comm(fm_comm*c,const char*op){ if(!c) fm::fail("misuse",string(op)+" on MPI_COMM_NULL"); if(crank(c,me)<0) fm::fail("misuse",string(op)+" on a communicator this process is not in"); if(W->r[me]->finalized) fm::fail("misuse",string(op)+" after MPI_Finalize"); }
fm_comm* newcomm(const vector<int>&w,bool perm=false){ W->comms.emplace_back(new fm_comm); auto c=W->comms.back().get(); c->w=w; c->perm=perm; c->id=W->comms.size(); if(!perm) W->live_comms+=w.size(); return c; }
template<class T> void red(void*a,const void*b,int n,int op){ T*x=(T*)a; const T*y=(const T*)b; for(int i=0;i<n;i++) switch(op){case MPI_MAX:x[i]=std::max(x[i],y[i]);break;case MPI_MIN:x[i]=std::min(x[i],y[i]);break;case MPI_SUM:x[i]+=y[i];break;case MPI_PROD:x[i]*=y[i];break;case MPI_LAND:x[i]=x[i]&&y[i];break;case MPI_LOR:x[i]=x[i]||y[i];break;default: if constexpr(std::is_integral<T>::value){ if(op==MPI_BAND)x[i]&=y[i]; else x[i]|=y[i]; } } }
void reduce(void*a,const void*b,int n,int t,int op){ switch(t){case MPI_INT:case MPI_UNSIGNED:red<int>(a,b,n,op);break;case MPI_FLOAT:red<float>(a,b,n,op);break;case MPI_DOUBLE:red<double>(a,b,n,op);break;case MPI_LONG:case MPI_LONG_LONG:red<int64_t>(a,b,n,op);break;default:red<signed char>(a,b,n,op);} }
// run one collective; fin is executed by the last arriver with all contributions
std::shared_ptr<Coll> coll(fm_comm*c,const char*op,int root,int mop,int count,int type,Contribution con,std::function<void(Coll&,fm_comm*)> fin){
  check_comm(c,op);
  yield_();
  int cr=crank(c,me); long s=c->seq[cr]++;
  auto &slot=c->colls[s]; if(!slot){ slot=std::make_shared<Coll>(); slot->op=op; slot->root=root; slot->mop=mop; slot->count=count; slot->type=type; slot->c.resize(c->w.size()); slot->in.resize(c->w.size()); }
  auto k=slot;
  if(k->op!=op||k->root!=root||k->mop!=mop) fm::fail("mismatch","collective "+std::to_string(s)+" on communicator "+std::to_string(c->id)+": rank "+std::to_string(me)+" calls "+op+" while another rank called "+k->op);
  if(k->count!=count||k->type!=type) fm::fail("mismatch",string("collective ")+op+": counts/types differ between ranks ("+std::to_string(count)+" vs "+std::to_string(k->count)+")");
  k->c[cr]=con; k->in[cr]=true; k->arrived++;
  if(k->arrived==(int)c->w.size()){ fin(*k,c); k->done=true; c->colls.erase(s); }
  else block(op,[k]{return k->done;});
  return k;
}
void try_match(){
  for(auto it=W->posted.begin();it!=W->posted.end();){
    fm_req*q=*it; std::shared_ptr<Msg> hit; 
    for(auto mi=W->msgs.begin();mi!=W->msgs.end();++mi){ auto&m=*mi; if(m->dst!=q->owner||m->comm!=q->comm) continue; if(q->peer!=MPI_ANY_SOURCE&&q->peer!=m->src) continue; if(q->tag!=MPI_ANY_TAG&&q->tag!=m->tag) continue; hit=m; W->msgs.erase(mi); break; }
    if(hit){ if(hit->bytes>q->bytes){ fm::fail("truncation","message from rank "+std::to_string(hit->src)+" to rank "+std::to_string(hit->dst)+" has "+std::to_string(hit->bytes)+" bytes, receive has room for "+std::to_string(q->bytes)); }
      const void*src=hit->owned?(const void*)hit->copy.data():hit->buf; if(hit->bytes) memcpy(q->buf,src,hit->bytes); hit->matched=true; q->done=true; q->asrc=hit->src; q->atag=hit->tag; q->got=hit->bytes; it=W->posted.erase(it); }
    else ++it;
  }
}
std::shared_ptr<Msg> post_send(const void*b,int n,int t,int dst,int tag,fm_comm*c,bool buffered){
  auto m=std::make_shared<Msg>(); m->src=crank(c,me); m->dst=dst; m->tag=tag; m->comm=c; m->buf=b; m->bytes=(size_t)n*dsz(t);
  if(n<0) fm::fail("misuse","negative count in send"); if(dst<0||dst>=(int)c->w.size()) fm::fail("misuse","invalid destination rank");
  if(buffered){ m->copy.resize(m->bytes); if(m->bytes) memcpy(m->copy.data(),b,m->bytes); m->owned=true; }
  W->msgs.push_back(m); try_match(); return m;
}
void finish(fm_req*q,MPI_Status*st){ if(st){ st->MPI_SOURCE=q->asrc; st->MPI_TAG=q->atag; st->fm_count=q->got; } delete q; W->live_reqs--; }
bool rdone(fm_req*q){ return q->recv?q->done:(q->m->owned||q->m->matched); }
}

extern "C" {
MPI_Comm fm_world_handle(void){ return W->world; }
MPI_Comm fm_self_handle(void){ return W->self[me]; }
MPI_Group fm_group_empty(void){ EMPTY.empty_const=true; return &EMPTY; }
void fm_exit(int code){ if(me<0) _exit(code); W->r[me]->exitcode=code; leave(); }
int fm_printf(const char*f,...){ char b[4096]; va_list a; va_start(a,f); int n=vsnprintf(b,sizeof b,f,a); va_end(a); if(me>=0) W->r[me]->out+=b; return n; }
int fm_puts(const char*s){ if(me>=0){ W->r[me]->out+=s; W->r[me]->out+="\n"; } return 0; }
int MPI_Init(int*,char***){return 0;}
int MPI_Initialized(int*f){*f=1;return 0;}
int MPI_Finalized(int*f){*f=W->r[me]->finalized;return 0;}
int MPI_Finalize(void){ W->r[me]->finalized=true; return 0; }
int MPI_Abort(MPI_Comm,int code){ { std::unique_lock<std::mutex> lk(W->mu); if(W->kind.empty()){ W->kind="abort"; W->msg="MPI_Abort("+std::to_string(code)+") by rank "+std::to_string(me)+": "+W->r[me]->out; } W->abort=true; } leave(); }
int MPI_Comm_rank(MPI_Comm c,int*r){ check_comm(c,"MPI_Comm_rank"); *r=crank(c,me); return 0; }
int MPI_Comm_size(MPI_Comm c,int*r){ check_comm(c,"MPI_Comm_size"); *r=c->w.size(); return 0; }
int MPI_Barrier(MPI_Comm c){ coll(c,"MPI_Barrier",0,0,0,0,Contribution(),[](Coll&,fm_comm*){}); return 0; }
double MPI_Wtime(void){ auto&R=*W->r[me]; double d=(1+nextr(R.rs)%1000)*1e-3*W->o.clockscale; if(W->o.badclock) d*=(1+nextr(R.rs)%7); R.t+=d; return R.t; }
int MPI_Bcast(void*b,int n,MPI_Datatype t,int root,MPI_Comm c){ Contribution k; k.r=b; coll(c,"MPI_Bcast",root,0,n,t,k,[=](Coll&C,fm_comm*cc){ for(size_t i=0;i<cc->w.size();i++) if((int)i!=root) memcpy(C.c[i].r,C.c[root].r,(size_t)n*dsz(t)); }); return 0; }
static void fill_in_place(Coll&C){ for(auto&x:C.c) if(x.s==MPI_IN_PLACE) x.s=x.r; }
int MPI_Allreduce(const void*s,void*r,int n,MPI_Datatype t,MPI_Op op,MPI_Comm c){ Contribution k; k.s=s;k.r=r; coll(c,"MPI_Allreduce",0,op,n,t,k,[=](Coll&C,fm_comm*cc){ fill_in_place(C); vector<char> a((size_t)n*dsz(t)); memcpy(a.data(),C.c[0].s,a.size()); for(size_t i=1;i<cc->w.size();i++) reduce(a.data(),C.c[i].s,n,t,op); for(auto&x:C.c) memcpy(x.r,a.data(),a.size()); }); return 0; }
int MPI_Reduce(const void*s,void*r,int n,MPI_Datatype t,MPI_Op op,int root,MPI_Comm c){ Contribution k; k.s=s;k.r=r; coll(c,"MPI_Reduce",root,op,n,t,k,[=](Coll&C,fm_comm*cc){ fill_in_place(C); vector<char> a((size_t)n*dsz(t)); memcpy(a.data(),C.c[0].s,a.size()); for(size_t i=1;i<cc->w.size();i++) reduce(a.data(),C.c[i].s,n,t,op); memcpy(C.c[root].r,a.data(),a.size()); }); return 0; }
int MPI_Scan(const void*s,void*r,int n,MPI_Datatype t,MPI_Op op,MPI_Comm c){ Contribution k; k.s=s;k.r=r; coll(c,"MPI_Scan",0,op,n,t,k,[=](Coll&C,fm_comm*cc){ fill_in_place(C); vector<char> a((size_t)n*dsz(t)); memcpy(a.data(),C.c[0].s,a.size()); for(size_t i=0;i<cc->w.size();i++){ if(i) reduce(a.data(),C.c[i].s,n,t,op); memcpy(C.c[i].r,a.data(),a.size()); } }); return 0; }
int MPI_Exscan(const void*s,void*r,int n,MPI_Datatype t,MPI_Op op,MPI_Comm c){ Contribution k; k.s=s;k.r=r; coll(c,"MPI_Exscan",0,op,n,t,k,[=](Coll&C,fm_comm*cc){ vector<char> a((size_t)n*dsz(t)); memcpy(a.data(),C.c[0].s,a.size()); for(size_t i=1;i<cc->w.size();i++){ vector<char> b(a); reduce(a.data(),C.c[i].s,n,t,op); memcpy(C.c[i].r,b.data(),b.size()); } }); return 0; }
int MPI_Allgather(const void*s,int sn,MPI_Datatype st,void*r,int rn,MPI_Datatype rt,MPI_Comm c){ Contribution k; k.s=s;k.r=r; if((long)sn*dsz(st)!=(long)rn*dsz(rt)&&s!=MPI_IN_PLACE) fm::fail("mismatch","MPI_Allgather send/recv size"); size_t b=(size_t)rn*dsz(rt); coll(c,"MPI_Allgather",0,0,(int)b,0,k,[=](Coll&C,fm_comm*cc){ vector<char> all(b*cc->w.size()); for(size_t i=0;i<cc->w.size();i++) memcpy(all.data()+i*b, C.c[i].s==MPI_IN_PLACE?(char*)C.c[i].r+i*b:(const char*)C.c[i].s,b); for(auto&x:C.c) memcpy(x.r,all.data(),all.size()); }); return 0; }
int MPI_Allgatherv(const void*s,int sn,MPI_Datatype st,void*r,const int*rc,const int*rd,MPI_Datatype rt,MPI_Comm c){ Contribution k; k.s=s;k.r=r;k.scount=sn*dsz(st); int n=c->w.size(); k.rcnt.assign(rc,rc+n);k.rdsp.assign(rd,rd+n); coll(c,"MPI_Allgatherv",0,0,0,0,k,[=](Coll&C,fm_comm*cc){ for(size_t j=0;j<cc->w.size();j++) for(size_t i=0;i<cc->w.size();i++){ if(C.c[j].rcnt[i]*dsz(rt)!=C.c[i].scount) fm::fail("mismatch","MPI_Allgatherv counts"); memcpy((char*)C.c[j].r+(size_t)C.c[j].rdsp[i]*dsz(rt),C.c[i].s,C.c[i].scount);} }); return 0; }
int MPI_Gather(const void*s,int sn,MPI_Datatype st,void*r,int,MPI_Datatype,int root,MPI_Comm c){ Contribution k; k.s=s;k.r=r; size_t b=(size_t)sn*dsz(st); coll(c,"MPI_Gather",root,0,(int)b,0,k,[=](Coll&C,fm_comm*cc){ for(size_t i=0;i<cc->w.size();i++) memcpy((char*)C.c[root].r+i*b,C.c[i].s,b); }); return 0; }
int MPI_Alltoall(const void*s,int sn,MPI_Datatype st,void*r,int,MPI_Datatype,MPI_Comm c){ Contribution k; k.s=s;k.r=r; size_t b=(size_t)sn*dsz(st); coll(c,"MPI_Alltoall",0,0,(int)b,0,k,[=](Coll&C,fm_comm*cc){ size_t n=cc->w.size(); for(size_t i=0;i<n;i++) for(size_t j=0;j<n;j++) memcpy((char*)C.c[j].r+i*b,(const char*)C.c[i].s+j*b,b); }); return 0; }
int MPI_Alltoallv(const void*s,const int*sc,const int*sd,MPI_Datatype st,void*r,const int*rc,const int*rd,MPI_Datatype rt,MPI_Comm c){
  check_comm(c,"MPI_Alltoallv"); int n=c->w.size(); Contribution k; k.s=s;k.r=r;k.st=st;k.rt=rt; k.scnt.assign(sc,sc+n);k.sdsp.assign(sd,sd+n);k.rcnt.assign(rc,rc+n);k.rdsp.assign(rd,rd+n);
  coll(c,"MPI_Alltoallv",0,0,0,st,k,[=](Coll&C,fm_comm*cc){ int n=cc->w.size(); for(int i=0;i<n;i++) for(int j=0;j<n;j++){ long a=(long)C.c[i].scnt[j]*dsz(C.c[i].st), b=(long)C.c[j].rcnt[i]*dsz(C.c[j].rt); if(a!=b) fm::fail("mismatch","MPI_Alltoallv: rank "+std::to_string(cc->w[i])+" sends "+std::to_string(a)+" bytes to rank "+std::to_string(cc->w[j])+" which expects "+std::to_string(b)); if(a) memcpy((char*)C.c[j].r+(long)C.c[j].rdsp[i]*dsz(C.c[j].rt),(const char*)C.c[i].s+(long)C.c[i].sdsp[j]*dsz(C.c[i].st),a); } }); return 0; }
int MPI_Send(const void*b,int n,MPI_Datatype t,int d,int tag,MPI_Comm c){ check_comm(c,"MPI_Send"); if(d==MPI_PROC_NULL) return 0; yield_(); auto m=post_send(b,n,t,d,tag,c,!W->o.rendezvous); if(W->o.rendezvous&&!m->matched) block("MPI_Send",[m]{return m->matched;}); return 0; }
int MPI_Ssend(const void*b,int n,MPI_Datatype t,int d,int tag,MPI_Comm c){ check_comm(c,"MPI_Ssend"); yield_(); auto m=post_send(b,n,t,d,tag,c,false); if(!m->matched) block("MPI_Ssend",[m]{return m->matched;}); return 0; }
int MPI_Rsend(const void*b,int n,MPI_Datatype t,int d,int tag,MPI_Comm c){ return MPI_Send(b,n,t,d,tag,c); }
int MPI_Isend(const void*b,int n,MPI_Datatype t,int d,int tag,MPI_Comm c,MPI_Request*q){ check_comm(c,"MPI_Isend"); yield_(); auto m=post_send(b,n,t,d,tag,c,!W->o.rendezvous); auto r=new fm_req(); r->recv=false; r->m=m; r->owner=crank(c,me); r->comm=c; *q=r; W->live_reqs++; return 0; }
int MPI_Irecv(void*b,int n,MPI_Datatype t,int s,int tag,MPI_Comm c,MPI_Request*q){ check_comm(c,"MPI_Irecv"); if(n<0) fm::fail("misuse","negative count in MPI_Irecv"); if(s!=MPI_ANY_SOURCE&&(s<0||s>=(int)c->w.size())) fm::fail("misuse","invalid source rank"); auto r=new fm_req(); r->recv=true; r->buf=b; r->bytes=(size_t)n*dsz(t); r->peer=s; r->tag=tag; r->comm=c; r->owner=crank(c,me); *q=r; W->live_reqs++; W->posted.push_back(r); yield_(); try_match(); return 0; }
int MPI_Wait(MPI_Request*q,MPI_Status*st){ if(!*q) return 0; fm_req*r=*q; if(!rdone(r)) block("MPI_Wait",[r]{return rdone(r);}); finish(r,st); *q=0; return 0; }
int MPI_Recv(void*b,int n,MPI_Datatype t,int s,int tag,MPI_Comm c,MPI_Status*st){ MPI_Request q; MPI_Irecv(b,n,t,s,tag,c,&q); return MPI_Wait(&q,st); }
int MPI_Sendrecv(const void*b,int n,MPI_Datatype t,int d,int tag,void*rb,int rn,MPI_Datatype rt,int s,int rtag,MPI_Comm c,MPI_Status*st){ MPI_Request q,q2; MPI_Irecv(rb,rn,rt,s,rtag,c,&q); MPI_Isend(b,n,t,d,tag,c,&q2); MPI_Wait(&q2,0); return MPI_Wait(&q,st); }
int MPI_Waitall(int n,MPI_Request*q,MPI_Status*st){ for(int i=0;i<n;i++) MPI_Wait(&q[i],st?&st[i]:0); return 0; }
int MPI_Waitany(int n,MPI_Request*q,int*idx,MPI_Status*st){ bool any=false; for(int i=0;i<n;i++) if(q[i]) any=true; if(!any){ *idx=MPI_UNDEFINED; return 0; }
  auto ready=[=]{ for(int i=0;i<n;i++) if(q[i]&&rdone(q[i])) return true; return false; }; yield_(); if(!ready()) block("MPI_Waitany",ready);
  vector<int> ok; for(int i=0;i<n;i++) if(q[i]&&rdone(q[i])) ok.push_back(i); int i=ok[nextr(W->rs)%ok.size()]; finish(q[i],st); q[i]=0; *idx=i; return 0; }
int MPI_Waitsome(int n,MPI_Request*q,int*cnt,int*idx,MPI_Status*st){ int i; MPI_Waitany(n,q,&i,st); if(i==MPI_UNDEFINED){*cnt=MPI_UNDEFINED;return 0;} *cnt=1; idx[0]=i; return 0; }
int MPI_Test(MPI_Request*q,int*f,MPI_Status*st){ yield_(); if(!*q){*f=1;return 0;} if(rdone(*q)){ finish(*q,st); *q=0; *f=1;} else *f=0; return 0; }
int MPI_Testall(int n,MPI_Request*q,int*f,MPI_Status*){ yield_(); *f=1; for(int i=0;i<n;i++) if(q[i]&&!rdone(q[i])) *f=0; if(*f) for(int i=0;i<n;i++) if(q[i]){ finish(q[i],0); q[i]=0; } return 0; }
int MPI_Get_count(const MPI_Status*s,MPI_Datatype t,int*n){ *n=s->fm_count/dsz(t); return 0; }
int MPI_Type_size(MPI_Datatype t,int*n){ *n=dsz(t); return 0; }
int MPI_Comm_group(MPI_Comm c,MPI_Group*g){ check_comm(c,"MPI_Comm_group"); *g=new fm_group; (*g)->w=c->w; W->live_groups++; return 0; }
int MPI_Group_incl(MPI_Group g,int n,const int*r,MPI_Group*o){ if(n==0){ *o=fm_group_empty(); return 0; } auto k=new fm_group; for(int i=0;i<n;i++){ if(r[i]<0||r[i]>=(int)g->w.size()) fm::fail("misuse","MPI_Group_incl: rank out of range"); k->w.push_back(g->w[r[i]]); } auto s=k->w; std::sort(s.begin(),s.end()); if(std::unique(s.begin(),s.end())!=s.end()) fm::fail("misuse","MPI_Group_incl: duplicate ranks"); *o=k; W->live_groups++; return 0; }
int MPI_Group_size(MPI_Group g,int*n){ *n=g->w.size(); return 0; }
int MPI_Group_rank(MPI_Group g,int*n){ *n=MPI_UNDEFINED; for(size_t i=0;i<g->w.size();i++) if(g->w[i]==me) *n=i; return 0; }
int MPI_Group_free(MPI_Group*g){ if(!*g) fm::fail("misuse","MPI_Group_free of null group"); if(!(*g)->empty_const){ delete *g; W->live_groups--; } *g=0; return 0; }
static void create_fin(Coll&C,fm_comm*cc){
  int n=cc->w.size(); std::map<vector<int>,fm_comm*> made;
  for(int i=0;i<n;i++){ auto&g=C.c[i].grp; for(int x:g){ int j=crank(cc,x); if(j<0) fm::fail("mismatch","MPI_Comm_create: group member outside communicator"); if(C.c[j].grp!=g) fm::fail("mismatch","MPI_Comm_create: rank "+std::to_string(cc->w[i])+" passes a group containing rank "+std::to_string(x)+" which passes a different group"); } }
  for(int i=0;i<n;i++){ auto&g=C.c[i].grp; if(std::find(g.begin(),g.end(),cc->w[i])==g.end()){ *C.c[i].newc=MPI_COMM_NULL; continue; } if(!made.count(g)) made[g]=newcomm(g); *C.c[i].newc=made[g]; } }
int MPI_Comm_create(MPI_Comm c,MPI_Group g,MPI_Comm*nc){ Contribution k; k.grp=g->w; k.newc=nc; coll(c,"MPI_Comm_create",0,0,0,0,k,create_fin); return 0; }
int MPI_Comm_create_group(MPI_Comm c,MPI_Group g,int,MPI_Comm*nc){ return MPI_Comm_create(c,g,nc); }
int MPI_Comm_split(MPI_Comm c,int color,int key,MPI_Comm*nc){ Contribution k; k.color=color;k.key=key;k.newc=nc; coll(c,"MPI_Comm_split",0,0,0,0,k,[](Coll&C,fm_comm*cc){ int n=cc->w.size(); std::map<int,vector<std::pair<int,int>>> g; for(int i=0;i<n;i++) if(C.c[i].color!=MPI_UNDEFINED) g[C.c[i].color].push_back({C.c[i].key,i}); else *C.c[i].newc=0; for(auto&x:g){ std::sort(x.second.begin(),x.second.end()); vector<int> w; for(auto&p:x.second) w.push_back(cc->w[p.second]); auto z=newcomm(w); for(auto&p:x.second) *C.c[p.second].newc=z; } }); return 0; }
int MPI_Comm_dup(MPI_Comm c,MPI_Comm*nc){ Contribution k; k.newc=nc; coll(c,"MPI_Comm_dup",0,0,0,0,k,[](Coll&C,fm_comm*cc){ auto z=newcomm(cc->w); for(auto&x:C.c) *x.newc=z; }); return 0; }
int MPI_Comm_free(MPI_Comm*c){ if(!c||!*c) fm::fail("misuse","MPI_Comm_free of null communicator"); { bool known=false; for(auto&x:W->comms) if(x.get()==*c) known=true; if(!known) fm::fail("misuse","MPI_Comm_free of an invalid communicator"); } if((*c)->perm) fm::fail("misuse","MPI_Comm_free of a communicator the library does not own"); fm_comm*cc=*c; coll(cc,"MPI_Comm_free",0,0,0,0,Contribution(),[](Coll&,fm_comm*){}); if(--W->live_comms<0) fm::fail("misuse","communicator freed twice"); if(++cc->freed>(int)cc->w.size()) fm::fail("misuse","communicator freed twice"); *c=MPI_COMM_NULL; return 0; }
MPI_Comm MPI_Comm_f2c(MPI_Fint f){ if(f==4711) return W->world; return MPI_COMM_NULL; }
MPI_Fint MPI_Comm_c2f(MPI_Comm c){ return c==W->world?4711:0; }
}
namespace fm {
void fail(const string&kind,const string&msg){ { std::unique_lock<std::mutex> lk(W->mu); if(W->kind.empty()){ W->kind=kind; W->msg=msg; } W->abort=true; } leave(); }
bool finalized(){ return W->r[me]->finalized; }
Outcome run(int n,std::function<void(int)> body,Options o){
  World w; W=&w; w.n=n; w.o=o; w.rs=o.seed*6364136223846793005UL+1442695040888963407UL; if(!w.rs) w.rs=1; for(int i=0;i<5;i++) nextr(w.rs);
  vector<int> all; for(int i=0;i<n;i++) all.push_back(i); w.world=newcomm(all,true); for(int i=0;i<n;i++) w.self.push_back(newcomm({i},true));
  for(int i=0;i<n;i++){ w.r.emplace_back(new Rank); w.r[i]->rs=(o.seed+1)*(i+7)*2654435761UL+12345; }
  w.cur=0; vector<std::thread> th;
  for(int i=0;i<n;i++) th.emplace_back([&,i]{ me=i; { std::unique_lock<std::mutex> lk(w.mu); w.r[i]->cv.wait(lk,[&]{return w.cur==i;}); }
      if(!setjmp(w.r[i]->jb)){ if(!w.abort) body(i); }
      std::unique_lock<std::mutex> lk(w.mu); w.r[i]->done=true; w.r[i]->blocked=false; schedule(lk,true); });
  for(auto&t:th) t.join();
  Outcome out; out.kind=w.kind; out.msg=w.msg; for(auto&r:w.r){ out.exited.push_back(r->exitcode); out.printed.push_back(r->out); }
  out.live_comms=w.live_comms; out.live_groups=w.live_groups; out.live_reqs=w.live_reqs; out.unmatched=w.msgs.size();
  W=nullptr; return out; }
}
