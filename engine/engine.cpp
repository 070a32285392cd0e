// symir: symbolic executor for whole-program LLVM IR of Rust code.
// Deterministic flat memory with page journaling, DFS over feasible branches, z3 as the deciding solver.
#include "expr.h"
#include <llvm-c/Core.h>
#include <llvm-c/BitReader.h>
#include <llvm-c/Target.h>
#include <llvm-c/DebugInfo.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <malloc.h>
#include <atomic>
#include <map>
#include <set>
#include <stdarg.h>
using std::vector; using std::string;

void fatal(const char*fmt,...){ va_list ap; va_start(ap,fmt); fprintf(stderr,"engine fatal: "); vfprintf(stderr,fmt,ap); fprintf(stderr,"\n"); va_end(ap); fflush(0); _exit(70); }
static double now(){ timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }

// ------------------------------------------------------------------ program representation
struct Slot { u64 v; u32 s; u32 pad; };
enum IOp : u16 { I_NOP, I_MOV, I_ADD,I_SUB,I_MUL,I_UDIV,I_SDIV,I_UREM,I_SREM,I_AND,I_OR,I_XOR,I_SHL,I_LSHR,I_ASHR,
  I_EQ,I_NE,I_ULT,I_ULE,I_UGT,I_UGE,I_SLT,I_SLE,I_SGT,I_SGE,
  I_TRUNC,I_ZEXT,I_SEXT,I_SELECT,I_LOAD,I_STORE,I_GEPC,I_GEP1,I_GEPN,I_ALLOCA,I_BR,I_CBR,I_SWITCH,I_RET,I_CALL,I_UNREACH,
  I_WBIN,I_WCMP,I_WCAST,I_BITCAST,I_FBIN,I_FCMP,I_FNEG,I_FCAST,I_XELEM,I_IELEM,I_RMW,I_CMPXCHG,I_BAD };
struct Ins { u16 op; u8 w, w2; i32 d,a,b,c; u64 imm; };
struct Edge { u32 target; u32 block; vector<std::pair<i32,i32>> mv; };
struct SwitchInfo { i32 slot; i32 hi=0; std::map<u128,u32> wide; unsigned w; std::unordered_map<u64,u32> map; u32 defEdge; vector<u64> vals; vector<u32> valEdge; };
struct GepInfo { i64 base; vector<std::pair<i32,i64>> terms; vector<u8> tw; };
struct CallInfo { i32 func=-1; i32 slot=0; vector<i32> args; vector<u8> argw; int intr=0; i32 d; u32 nret; string name; u8 w=0; u8 w2=0; };
struct BcInfo { vector<std::pair<i32,u8>> src, dst; };
struct Func { string name; bool decl; bool translated=false; u32 nargs=0,nslots=0,nret=0; vector<Ins> code; vector<i32> retSlots; int intr=0; LLVMValueRef v; bool sieve=false; u32 firstBlock=0,nBlocks=0; };
static vector<Func> F; static vector<Slot> K; static vector<Edge> EDG; static vector<SwitchInfo> SW; static vector<GepInfo> GEPS; static vector<CallInfo> CALLS; static vector<BcInfo> BCS;
static vector<vector<i32>> IDX; // misc index lists
struct Blk { u32 func; vector<u32> lines; };
static vector<Blk> BLKS; static vector<string> LINES; static std::unordered_map<string,u32> lineIdx;

// ------------------------------------------------------------------ memory
static const u64 BASE=0x100000000000ULL, MSIZE=1ull<<31; static const unsigned PS=10, PSZ=1<<PS;
static const u64 FUNCBASE=0x200000000000ULL;
static u32*pgEpoch; static u32**pgShadow; static u32 curEpoch=1;
struct PageSave { u32 page; u8*data; u32*sh; };
static vector<PageSave> journal; static vector<u8*> freeData; static vector<u32*> freeSh; static bool journaling=false;
static void savePage(u32 p){
  pgEpoch[p]=curEpoch; if(!journaling) return;
  PageSave s; s.page=p; if(freeData.empty()) s.data=(u8*)malloc(PSZ); else { s.data=freeData.back(); freeData.pop_back(); }
  memcpy(s.data,(void*)(BASE+((u64)p<<PS)),PSZ);
  if(pgShadow[p]){ if(freeSh.empty()) s.sh=(u32*)malloc(PSZ*4); else { s.sh=freeSh.back(); freeSh.pop_back(); } memcpy(s.sh,pgShadow[p],PSZ*4); } else s.sh=0;
  journal.push_back(s);
}
static inline void touch(u32 p){ if(pgEpoch[p]!=curEpoch) savePage(p); }
static void restoreTo(size_t len){
  while(journal.size()>len){ PageSave s=journal.back(); journal.pop_back();
    memcpy((void*)(BASE+((u64)s.page<<PS)),s.data,PSZ); freeData.push_back(s.data);
    if(s.sh){ if(!pgShadow[s.page]) fatal("shadow vanished"); memcpy(pgShadow[s.page],s.sh,PSZ*4); freeSh.push_back(s.sh); }
    else if(pgShadow[s.page]){ freeSh.push_back(pgShadow[s.page]); pgShadow[s.page]=0; } }
  curEpoch++;
}
static u32* shadowFor(u32 p){ if(!pgShadow[p]){ if(freeSh.empty()) pgShadow[p]=(u32*)malloc(PSZ*4); else { pgShadow[p]=freeSh.back(); freeSh.pop_back(); } memset(pgShadow[p],0,PSZ*4); } return pgShadow[p]; }
static inline bool inMem(u64 a,u64 n){ return a>=BASE+4096 && a-BASE<MSIZE && n<=MSIZE-(a-BASE); }
static inline u32 shadowAt(u64 a){ u32 p=(a-BASE)>>PS; return pgShadow[p]? pgShadow[p][a&(PSZ-1)]:0; }
static inline u8& byteAt(u64 a){ return *(u8*)a; }

struct HeapState { u64 top; u64 freeHead[160]; u64 live; } H;
static u64 STACKBASE, STACKEND, HEAPBASE;
static unsigned sizeClass(u64 n,u64&sz){ if(n<=1024){ sz=(n+15)&~15ull; if(!sz)sz=16; return sz/16; } unsigned c=65; sz=2048; while(sz<n){ sz*=2; c++; } return c; }

// ------------------------------------------------------------------ interpreter state
struct Frame { u32 f; u32 pc; u32 base; i32 ret; u64 sp; };
static Slot*STK; static u32 stkTop=0; static const u32 STKMAX=1<<22;
static vector<Frame> FR; static u64 allocaSp;
static u64 insPath=0, insTotal=0, insLimit=2000000000ull;
static vector<Slot> obsList; static vector<u32> symOrder; // variables in creation order on this path
static u32 symCount=0; // reuse of variables across paths: k-th sym call of width w -> var
static vector<vector<u32>> varPool; // [width] -> vars
static std::map<unsigned,u32> poolUsed;
static string curNote;

// path condition
struct PCState { vector<Ex> cons; } PC;
static vector<Bits256> DOM; static vector<u32> multiCnt; static vector<vector<u32>> varCons;
static std::unordered_map<Ex,u8> asserted; static std::unordered_map<Ex,u64> known;
struct Undo { u8 k; u32 id; Bits256 b; }; // 1 asserted, 2 known, 3 dom, 4 cons
static vector<Undo> undo;
struct Checkpoint { vector<Slot> stk; vector<Frame> fr; u64 allocaSp; HeapState h; size_t jlen, ulen; vector<u64> altModel; Ex altC; bool given; u64 insPath; u64 obs; vector<u32> symOrder; std::map<unsigned,u32> poolUsed; string note; u32 reachLen; };
static vector<Checkpoint*> CPS;
static bool pathDead=false;

struct Global { std::atomic<i64> tokens; };
static Global*GL; static vector<u64> PARAMS;
struct Shared { std::atomic<u64> paths, dead, forks, qDom, qAudit, qCache, qZ3, qZ3sat, qZ3unsat, qUnknown, qModel, ins, checks, checksZ3, violations, panics, incomplete, crash, procs, samples, sampleCtr, smtDumps, maxCons, assumeFail, concretize, enumAddr, tableLoads, limitHits; std::atomic<u64> z3us; std::atomic<u64> reach[256]; std::atomic<u64> checkCnt[256]; std::atomic<u32> stop; char incReason[512]; std::atomic<u64> maxZ3us; };
static Shared*SH; static u8*COV; // per block
static string outDir; static double deadline; static unsigned sampleStride=101; static u64 maxSamples=60; static unsigned z3TimeoutMs=20000; static int nproc=8; static u64 smtDumpMax=24;
static bool verbose=false;
static vector<string> panicNames;

static void incomplete(const char*fmt,...){ char b[400]; va_list ap; va_start(ap,fmt); vsnprintf(b,sizeof b,fmt,ap); va_end(ap);
  if(SH->incomplete.fetch_add(1)==0){ snprintf(SH->incReason,sizeof SH->incReason,"%s",b); fprintf(stderr,"incomplete: %s\n",b); if(FR.size()){ for(int i=(int)FR.size()-1;i>=0&&i>(int)FR.size()-8;i--) fprintf(stderr,"   in %s\n",F[FR[i].f].name.c_str()); } } }

// ------------------------------------------------------------------ constraints
static void growVars(){ while(DOM.size()<VARS.size()){ u32 v=DOM.size(); Bits256 b{{0,0,0,0}}; if(VARS[v].w<=8) for(unsigned i=0;i<(1u<<VARS[v].w);i++) b.set(i); DOM.push_back(b); multiCnt.push_back(0); varCons.emplace_back(); } }
static void addCons(Ex e){
  if(isConst(e)){ if(!N[e].imm) pathDead=true; return; }
  if(asserted.count(e)) return;
  asserted[e]=1; undo.push_back({1,e,{}}); Ex ne=mkNot(e); if(!asserted.count(ne)){ asserted[ne]=0; undo.push_back({1,ne,{}}); }
  Node n=N[e];
  if(n.op==O_AND&&n.w==1){ addCons(n.a); addCons(n.b); return; }
  if(n.op==O_NOT&&N[n.a].op==O_OR){ Node o=N[n.a]; addCons(mkNot(o.a)); addCons(mkNot(o.b)); return; }
  if(n.op==O_EQ&&isConst(n.b)&&N[n.a].w<=64){ if(!known.count(n.a)){ known[n.a]=N[n.b].imm; undo.push_back({2,n.a,{}}); } }
  const vector<u32>&sp=SUPP[n.supp];
  if(sp.size()==1&&VARS[sp[0]].w<=8){ u32 v=sp[0]; Bits256 t=truthOf(e); undo.push_back({3,v,DOM[v]}); for(int i=0;i<4;i++) DOM[v].b[i]&=t.b[i];
    if(DOM[v].count()==1){ for(unsigned i=0;i<256;i++) if(DOM[v].get(i)){ Ex ve=varNode(v); if(!known.count(ve)){ known[ve]=i; undo.push_back({2,ve,{}}); } } } }
  u32 id=PC.cons.size(); PC.cons.push_back(e); undo.push_back({4,id,{}});
  for(u32 v:sp){ varCons[v].push_back(id); if(sp.size()>1) multiCnt[v]++; }
  if(PC.cons.size()>SH->maxCons) SH->maxCons=PC.cons.size();
}
static void undoTo(size_t len){
  while(undo.size()>len){ Undo u=undo.back(); undo.pop_back();
    switch(u.k){ case 1: asserted.erase(u.id); break; case 2: known.erase(u.id); break; case 3: DOM[u.id]=u.b; break;
      case 4: { Ex e=PC.cons.back(); const vector<u32>&sp=SUPP[N[e].supp]; for(u32 v:sp){ varCons[v].pop_back(); if(sp.size()>1) multiCnt[v]--; } PC.cons.pop_back(); } } }
}
enum Res { UNSAT, SAT, UNK };
struct QC { Res r; vector<std::pair<u32,u64>> m; };
static std::unordered_map<string,QC> qcache;
static Z3_solver SI=0;
static Z3_solver SFP=0;
static void z3init(){
  Z3_config c=Z3_mk_config(); Z3_set_param_value(c,"model","true"); ZC=Z3_mk_context(c); Z3_del_config(c);
  Z3_set_error_handler(ZC,[](Z3_context c,Z3_error_code e){ fatal("z3 error %s",Z3_get_error_msg(c,e)); });
  SI=Z3_mk_simple_solver(ZC); Z3_solver_inc_ref(ZC,SI);
  Z3_params p=Z3_mk_params(ZC); Z3_params_inc_ref(ZC,p); Z3_params_set_uint(ZC,p,Z3_mk_string_symbol(ZC,"rlimit"),3000000); Z3_solver_set_params(ZC,SI,p); Z3_params_dec_ref(ZC,p);
}
static Res z3check(const vector<Ex>&cs,const vector<u32>&vars,vector<std::pair<u32,u64>>&m){
  double t0=now(); bool heavy=false; for(Ex e:cs) if(N[e].flags) heavy=true;
  Z3_lbool r=Z3_L_UNDEF; Z3_solver S=0;
  auto getModel=[&](Z3_solver s){ Z3_model md=Z3_solver_get_model(ZC,s); Z3_model_inc_ref(ZC,md);
    for(u32 v:vars){ Z3_ast o; if(!Z3_model_eval(ZC,md,toBV(varNode(v)),true,&o)) fatal("model eval"); uint64_t x=0; Z3_inc_ref(ZC,o); if(!Z3_get_numeral_uint64(ZC,o,&x)) fatal("model numeral"); Z3_dec_ref(ZC,o); m.push_back({v,x}); }
    Z3_model_dec_ref(ZC,md); };
  u64 dn=SH->qZ3.fetch_add(1);
  bool dump=!outDir.empty()&&smtDumpMax&&(dn%131==7)&&SH->smtDumps.fetch_add(1)<smtDumpMax;
  if(!heavy){ S=SI; Z3_solver_push(ZC,S); for(Ex e:cs) Z3_solver_assert(ZC,S,toBool(e)); r=Z3_solver_check(ZC,S); if(r==Z3_L_TRUE) getModel(S); Z3_solver_pop(ZC,S,1); }
  string dumpText;
  if(heavy||r==Z3_L_UNDEF||dump){
    bool fp=false; for(Ex e:cs) if(N[e].flags&F_FP) fp=true;
    Z3_solver S2; if(fp) S2=Z3_mk_solver(ZC); else { Z3_tactic t=Z3_mk_tactic(ZC,"qfbv"); Z3_tactic_inc_ref(ZC,t); S2=Z3_mk_solver_from_tactic(ZC,t); Z3_tactic_dec_ref(ZC,t);} Z3_solver_inc_ref(ZC,S2);
    Z3_params p=Z3_mk_params(ZC); Z3_params_inc_ref(ZC,p); Z3_params_set_uint(ZC,p,Z3_mk_string_symbol(ZC,"rlimit"),z3TimeoutMs*3000u); Z3_solver_set_params(ZC,S2,p); Z3_params_dec_ref(ZC,p);
    for(Ex e:cs) Z3_solver_assert(ZC,S2,toBool(e));
    if(dump) dumpText=Z3_solver_to_string(ZC,S2);
    if(heavy||r==Z3_L_UNDEF){ r=Z3_solver_check(ZC,S2); if(r==Z3_L_TRUE) getModel(S2); }
    Z3_solver_dec_ref(ZC,S2);
  }
  if(dump&&r!=Z3_L_UNDEF){ char nm[64]; snprintf(nm,64,"/q%llu_%s.smt2",(unsigned long long)dn,r==Z3_L_TRUE?"sat":"unsat"); FILE*f=fopen((outDir+nm).c_str(),"w"); if(f){ fprintf(f,"(set-logic ALL)\n%s(check-sat)\n",dumpText.c_str()); fclose(f);} }
  double dt=(now()-t0)*1e6; SH->z3us+=(u64)dt; if((u64)dt>SH->maxZ3us){ SH->maxZ3us=(u64)dt; }
  if(r==Z3_L_TRUE){ SH->qZ3sat++; return SAT; } if(r==Z3_L_FALSE){ SH->qZ3unsat++; return UNSAT; }
  SH->qUnknown++; return UNK;
}
// is PC && cond satisfiable? On SAT, out = full model (copy of MODEL with the slice updated)
static Res query0(Ex cond,vector<u64>&out,bool&byDom,bool forceZ3);
// z3 verdict for PC && cond over the independent slice of the path condition (used to audit the byte-domain shortcut)
static Res z3slice(Ex cond){ vector<u32> vars(SUPP[N[cond].supp].begin(),SUPP[N[cond].supp].end()), cs; vector<u8> inC(PC.cons.size(),0), inV(VARS.size(),0); for(u32 v:vars) inV[v]=1;
  for(size_t i=0;i<vars.size();i++) for(u32 c:varCons[vars[i]]) if(!inC[c]){ inC[c]=1; cs.push_back(c); for(u32 v:SUPP[N[PC.cons[c]].supp]) if(!inV[v]){ inV[v]=1; vars.push_back(v); } }
  vector<Ex> exs; for(u32 c:cs) exs.push_back(PC.cons[c]); exs.push_back(cond); vector<std::pair<u32,u64>> m; return z3check(exs,vars,m); }
static Res query(Ex cond,vector<u64>&out,bool forceZ3=false){
  bool byDom=false; Res r=query0(cond,out,byDom,forceZ3);
  if(byDom&&SH->qDom%97==0){ Res z=z3slice(cond); SH->qAudit++; if(z!=UNK&&z!=r) fatal("byte-domain verdict %d but z3 says %d: %s",r,z,exprStr(cond).c_str()); }
  return r;
}
static Res query0(Ex cond,vector<u64>&out,bool&byDom,bool forceZ3){
  if(isConst(cond)){ if(N[cond].imm){ out=MODEL; return SAT; } return UNSAT; }
  const vector<u32>&sp=SUPP[N[cond].supp];
  Bits256 cand{{0,0,0,0}}; u32 sv=~0u;
  if(!forceZ3&&sp.size()==1&&VARS[sp[0]].w<=8){ u32 v=sv=sp[0]; Bits256 t=truthOf(cond); for(int i=0;i<4;i++) cand.b[i]=t.b[i]&DOM[v].b[i];
    if(!cand.any()){ SH->qDom++; byDom=true; return UNSAT; }
    if(!multiCnt[v]){ SH->qDom++; byDom=true; out=MODEL; for(unsigned i=0;i<256;i++) if(cand.get(i)){ out[v]=i; break; } return SAT; } }
  // slice
  static vector<u8> inC,inV; vector<u32> vars(sp.begin(),sp.end()), cs; inC.assign(PC.cons.size(),0); inV.assign(VARS.size(),0);
  for(u32 v:vars) inV[v]=1;
  for(size_t i=0;i<vars.size();i++) for(u32 c:varCons[vars[i]]) if(!inC[c]){ inC[c]=1; cs.push_back(c); for(u32 v:SUPP[N[PC.cons[c]].supp]) if(!inV[v]){ inV[v]=1; vars.push_back(v); } }
  std::sort(cs.begin(),cs.end());
  vector<Ex> exs; for(u32 c:cs) exs.push_back(PC.cons[c]);
  // cheap witness search on the single byte variable
  if(sv!=~0u){ u64 old=MODEL[sv]; int tries=0; bool ok=false; u64 w=0;
    for(unsigned i=0;i<256&&tries<6;i++) if(cand.get(i)){ tries++; MODEL[sv]=i; modelChanged(); bool all=true; for(Ex e:exs) if(!(u64)evalExpr(e)){ all=false; break; } if(all){ ok=true; w=i; break; } }
    MODEL[sv]=old; modelChanged();
    if(ok){ SH->qModel++; out=MODEL; out[sv]=w; return SAT; } }
  std::sort(exs.begin(),exs.end()); exs.push_back(cond);
  string key((char*)exs.data(),exs.size()*4);
  auto it=qcache.find(key);
  if(it!=qcache.end()){ SH->qCache++; if(it->second.r==SAT){ out=MODEL; for(auto&p:it->second.m) out[p.first]=p.second; } return it->second.r; }
  QC q; q.r=z3check(exs,vars,q.m);
  if(q.r==SAT){ out=MODEL; for(auto&p:q.m) out[p.first]=p.second;
    // sanity: the model must satisfy every constraint of the slice under our own evaluator
    std::swap(out,MODEL); modelChanged(); for(Ex e:exs) if(!(u64)evalExpr(e)){ if(N[e].flags&F_FP){ incomplete("fp model mismatch"); q.r=UNK; break; } fatal("z3 model does not satisfy constraint %s",exprStr(e).c_str()); } std::swap(out,MODEL); modelChanged(); }
  if(qcache.size()>400000) qcache.clear();
  qcache[key]=q; return q.r;
}
static void pushCheckpoint(Ex alt,vector<u64>&altModel){
  Checkpoint*c=new Checkpoint; c->stk.assign(STK,STK+stkTop); c->fr=FR; c->allocaSp=allocaSp; c->h=H; c->jlen=journal.size(); c->ulen=undo.size(); c->altModel.swap(altModel); c->altC=alt; c->given=false; c->insPath=insPath; c->obs=obsList.size(); c->symOrder=symOrder; c->poolUsed=poolUsed; c->note=curNote;
  CPS.push_back(c); curEpoch++; journaling=true;
}
static void restoreCp(Checkpoint*c){
  restoreTo(c->jlen); undoTo(c->ulen); memcpy(STK,c->stk.data(),c->stk.size()*sizeof(Slot)); stkTop=c->stk.size(); FR=c->fr; allocaSp=c->allocaSp; H=c->h; insPath=c->insPath; obsList.resize(c->obs); symOrder=c->symOrder; poolUsed=c->poolUsed; curNote=c->note; pathDead=false;
}
static void tryGive();
// decide a branch condition; alternatives re-execute the current instruction
static bool decide(Ex e){
  if(isConst(e)) return N[e].imm;
  auto it=asserted.find(e); if(it!=asserted.end()) return it->second;
  bool mv=(u64)evalExpr(e)&1; Ex pos=mv?e:mkNot(e), neg=mkNot(pos);
  vector<u64> alt; Res r=query(neg,alt);
  if(r==UNSAT){ asserted[pos]=1; asserted[neg]=0; undo.push_back({1,pos,{}}); undo.push_back({1,neg,{}}); return mv; }
  if(r==UNK){ incomplete("solver gave no answer (%s)",exprStr(e,5).c_str()); addCons(pos); return mv; }
  SH->forks++;
  pushCheckpoint(neg,alt); addCons(pos); tryGive(); return mv;
}
static u64 concretize(Ex e){
  if(isConst(e)) return N[e].imm;
  auto it=known.find(e); if(it!=known.end()) return it->second;
  SH->concretize++;
  u64 v=(u64)evalExpr(e); Ex c=mkEqC(e,v);
  if(!decide(c)) fatal("concretize: model disagrees");
  if(!known.count(e)){ known[e]=v; undo.push_back({2,e,{}}); }
  return v;
}
// ------------------------------------------------------------------ work sharing
static vector<pid_t> kids; static bool isRoot=true;
static void tryGive(){
  if(GL->tokens.load(std::memory_order_relaxed)<=0) return;
  size_t i=0; while(i<CPS.size()&&CPS[i]->given) i++; if(i>=CPS.size()) return;
  i64 t=GL->tokens.load(); do { if(t<=0) return; } while(!GL->tokens.compare_exchange_weak(t,t-1));
  SH->procs++; fflush(0);
  pid_t p=fork(); if(p<0){ GL->tokens++; return; }
  if(p>0){ CPS[i]->given=true; kids.push_back(p); return; }
  isRoot=false; prctl(PR_SET_PDEATHSIG,SIGKILL); kids.clear();
  while(CPS.size()>i+1){ Checkpoint*c=CPS.back(); restoreTo(c->jlen); undoTo(c->ulen); delete c; CPS.pop_back(); }
  Checkpoint*c=CPS.back(); restoreCp(c); MODEL=c->altModel; MODEL.resize(VARS.size(),0); modelChanged(); Ex a=c->altC; for(auto*x:CPS) delete x; CPS.clear(); journaling=false;
  for(auto&s:journal){ free(s.data); if(s.sh) free(s.sh); } journal.clear(); curEpoch++;
  addCons(a);
  extern void childLoop(); childLoop();
}

// ------------------------------------------------------------------ memory access with symbolic overlay
static Ex byteEx(u64 a){ u32 s=shadowAt(a); if(s){ auto it=known.find(s); if(it!=known.end()) return mkConst(8,it->second); return s; } return mkConst(8,byteAt(a)); }
static Slot loadSlow(u64 a,unsigned nb,unsigned w){
  Slot r{0,0,0}; bool any=false; for(unsigned i=0;i<nb;i++) if(shadowAt(a+i)){ any=true; break; }
  if(!any){ memcpy(&r.v,(void*)a,nb); r.v&=mask64(w); return r; }
  Ex e=byteEx(a); for(unsigned i=1;i<nb;i++) e=mkConcat(byteEx(a+i),e);
  if(nb*8>w) e=mkExtract(e,0,w);
  if(isConst(e)) r.v=N[e].imm; else { auto it=known.find(e); if(it!=known.end()) r.v=it->second; else r.s=e; }
  return r;
}
static bool memFault(u64 a,u64 n);
static inline Slot loadMem(u64 a,unsigned nb,unsigned w){
  u64 off=a-BASE; 
  if(__builtin_expect((off&(PSZ-1))+nb<=PSZ && !pgShadow[off>>PS],1)){ Slot r{0,0,0}; switch(nb){ case 1: r.v=*(u8*)a; break; case 2: r.v=*(u16*)a; break; case 4: r.v=*(u32*)a; break; case 8: r.v=*(u64*)a; break; default: memcpy(&r.v,(void*)a,nb); } if(w&7) r.v&=mask64(w); return r; }
  return loadSlow(a,nb,w);
}
static void setByte(u64 a,u8 v,u32 s){ u32 p=(a-BASE)>>PS; touch(p); byteAt(a)=v; if(s) shadowFor(p)[a&(PSZ-1)]=s; else if(pgShadow[p]) pgShadow[p][a&(PSZ-1)]=0; }
static inline void storeMem(u64 a,unsigned nb,Slot s,unsigned w){
  u64 off=a-BASE;
  if(__builtin_expect(!s.s&&(off&(PSZ-1))+nb<=PSZ&&!pgShadow[off>>PS],1)){ touch(off>>PS); switch(nb){ case 1: *(u8*)a=s.v; break; case 2: *(u16*)a=s.v; break; case 4: *(u32*)a=s.v; break; case 8: *(u64*)a=s.v; break; default: memcpy((void*)a,&s.v,nb); } return; }
  if(!s.s){ for(unsigned i=0;i<nb;i++) setByte(a+i,s.v>>(8*i),0); return; }
  Ex e=s.s; if(width(e)<nb*8) e=mkZext(e,nb*8);
  for(unsigned i=0;i<nb;i++){ Ex b=mkExtract(e,8*i,8); if(isConst(b)) setByte(a+i,N[b].imm,0); else setByte(a+i,0,b); }
}
static void copyMem(u64 d,u64 s,u64 n){
  if(!n||d==s) return;
  bool sh=false; for(u32 p=(s-BASE)>>PS;p<=(s+n-1-BASE)>>PS;p++) if(pgShadow[p]){ sh=true; break; }
  bool dsh=false; for(u32 p=(d-BASE)>>PS;p<=(d+n-1-BASE)>>PS;p++){ touch(p); if(pgShadow[p]) dsh=true; }
  vector<u32> tmp;
  if(sh){ bool any=false; tmp.resize(n); for(u64 i=0;i<n;i++){ tmp[i]=shadowAt(s+i); if(tmp[i]) any=true; } if(!any) sh=false; }
  memmove((void*)d,(void*)s,n);
  if(sh) for(u64 i=0;i<n;i++){ u32 p=(d+i-BASE)>>PS; if(tmp[i]) shadowFor(p)[(d+i)&(PSZ-1)]=tmp[i]; else if(pgShadow[p]) pgShadow[p][(d+i)&(PSZ-1)]=0; }
  else if(dsh) for(u64 i=0;i<n;i++){ u32 p=(d+i-BASE)>>PS; if(pgShadow[p]) pgShadow[p][(d+i)&(PSZ-1)]=0; }
}
static u64 gmalloc(u64 n,u64 align){
  if(n>(256u<<20)) return 0;
  u64 sz; unsigned c;
  if(align>16){ u64 a=(H.top+16+align-1)&~(align-1); c=sizeClass(n,sz); H.top=a+sz; if(H.top>=BASE+MSIZE-4096) fatal("guest heap exhausted"); Slot h{0,0,0}; storeMem(a-16,8,h,64); Slot h2{sz,0,0}; storeMem(a-8,8,h2,64); return a; }
  c=sizeClass(n,sz); if(H.freeHead[c]){ u64 a=H.freeHead[c]; H.freeHead[c]=loadMem(a,8,64).v; return a; }
  u64 a=H.top+16; H.top=a+sz; if(H.top>=BASE+MSIZE-4096) fatal("guest heap exhausted");
  Slot h{c,0,0}; storeMem(a-16,8,h,64); Slot h2{sz,0,0}; storeMem(a-8,8,h2,64); return a;
}
static void gfree(u64 a){ if(!a) return; if(!inMem(a,8)||a<HEAPBASE) fatal("bad free %llx",(unsigned long long)a); u64 c=*(u64*)(a-16); if(!c) return; if(c>=160) fatal("corrupt heap header"); Slot l{H.freeHead[c],0,0}; storeMem(a,8,l,64); H.freeHead[c]=a; }
static u64 gsize(u64 a){ return *(u64*)(a-8); }

// ------------------------------------------------------------------ reports
static string demangle(const string&s){ return s; }
static string jesc(const string&s){ string r; for(unsigned char c:s){ if(c=='"'||c=='\\'){ r+='\\'; r+=c; } else if(c<32||c>126){ char b[8]; snprintf(b,8,"\\u%04x",c); r+=b; } else r+=c; } return r; }
static string inputHex(const vector<u64>&m){ string r; char b[24]; for(u32 v:symOrder){ unsigned nb=(VARS[v].w+7)/8; u64 x=m[v]; for(unsigned i=0;i<nb;i++){ snprintf(b,8,"%02x",(unsigned)(x>>(8*i))&255); r+=b; } } return r; }
static string backtrace(){ string r; int n=0; for(int i=(int)FR.size()-1;i>=0&&n<14;i--,n++){ if(n) r+=" < "; r+=F[FR[i].f].name; } return r; }
static void violation(const string&id,const string&msg,const vector<u64>&model){
  SH->violations++;
  for(int k=0;k<3;k++){ string p=outDir+"/viol_"+id+"_"+std::to_string(k)+".json"; int fd=open(p.c_str(),O_CREAT|O_EXCL|O_WRONLY,0644); if(fd<0) continue;
    string s="{\"check\":\""+jesc(id)+"\",\"msg\":\""+jesc(msg)+"\",\"input\":\""+inputHex(model)+"\",\"where\":\""+jesc(backtrace())+"\"}\n"; if(write(fd,s.data(),s.size())<0){} close(fd); break; }
}
static bool memFault(u64 a,u64 n){ if(inMem(a,n)) return false; violation("memfault","invalid memory access",MODEL); SH->panics++; pathDead=true; if(verbose) fprintf(stderr,"memfault %llx in %s\n",(unsigned long long)a,backtrace().c_str()); return true; }

#include "translate.inc"
#include "interp.inc"

int main(int argc,char**argv){
  { struct rlimit rl; getrlimit(RLIMIT_STACK,&rl); if(rl.rlim_cur!=RLIM_INFINITY&&rl.rlim_cur<(1ull<<30)&&!getenv("SYMIR_STK")){ rl.rlim_cur=rl.rlim_max==RLIM_INFINITY? (1ull<<30): rl.rlim_max; setrlimit(RLIMIT_STACK,&rl); setenv("SYMIR_STK","1",1); execv("/proc/self/exe",argv); execv(argv[0],argv); } }
  string bc,entry; double budget=600;
  for(int i=1;i<argc;i++){ string a=argv[i]; auto nx=[&]{ return string(argv[++i]); };
    if(a=="--bc") bc=nx(); else if(a=="--entry") entry=nx(); else if(a=="--out") outDir=nx(); else if(a=="--time") budget=atof(nx().c_str()); else if(a=="-j") nproc=atoi(nx().c_str()); else if(a=="-v") verbose=true; else if(a=="--stride") sampleStride=atoi(nx().c_str()); else if(a=="--samples") maxSamples=atoi(nx().c_str()); else if(a=="--limit") insLimit=strtoull(nx().c_str(),0,10); else if(a=="--param") PARAMS.push_back(strtoull(nx().c_str(),0,10)); else if(a=="--z3ms") z3TimeoutMs=atoi(nx().c_str()); else if(a=="--dumps") smtDumpMax=atoi(nx().c_str()); else fatal("arg %s",a.c_str()); }
  double t0=now(); deadline=t0+budget;
  GL=(Global*)mmap(0,sizeof(Global),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
  if(mmap((void*)BASE,MSIZE,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED,-1,0)!=(void*)BASE) fatal("mmap");
  u32 np=MSIZE>>PS; pgEpoch=(u32*)mmap(0,np*4,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); pgShadow=(u32**)mmap(0,np*8,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
  STK=(Slot*)mmap(0,(u64)STKMAX*sizeof(Slot),PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
  loadModule(bc);
  double t1=now();
  vector<string> entries; { size_t p=0; while(p<=entry.size()){ size_t q=entry.find(',',p); if(q==string::npos) q=entry.size(); if(q>p) entries.push_back(entry.substr(p,q-p)); p=q+1; } }
  GL->tokens=nproc;
  string base=outDir; std::map<pid_t,string> running; int worst=0;
  auto reap=[&](bool block){ int st; pid_t p=waitpid(-1,&st,block?0:WNOHANG); if(p<=0) return false; int rc=WIFEXITED(st)?WEXITSTATUS(st):99; if(rc==3||rc>1) worst=3; else if(rc==1&&worst==0) worst=1; if(rc>3){ fprintf(stderr,"entry %s: engine process ended with %d\n",running[p].c_str(),st); } running.erase(p); return true; };
  for(auto&e:entries){
    while(true){ i64 t=GL->tokens.load(); if(t>0){ if(GL->tokens.compare_exchange_strong(t,t-1)) break; } else { if(!reap(false)) usleep(2000); } }
    fflush(0); pid_t p=fork(); if(p<0) fatal("fork");
    if(p>0){ running[p]=e; continue; }
    prctl(PR_SET_PDEATHSIG,SIGKILL);
    if(!base.empty()){ mkdir(base.c_str(),0755); outDir=base+"/"+e; mkdir(outDir.c_str(),0755); }
    SH=(Shared*)mmap(0,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
    COV=(u8*)mmap(0,BLKS.size()+1,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
    expr_init(); z3init();
    double te=now();
    startEntry(e); exploreAll(); GL->tokens++;
    for(pid_t k:kids){ int st; waitpid(k,&st,0); if(!WIFEXITED(st)||WEXITSTATUS(st)) SH->crash++; }
    writeSummary(e,t1-t0,now()-te);
    fflush(0); _exit( (SH->crash||SH->incomplete||SH->stop)?3: SH->violations?1:0 );
  }
  while(!running.empty()) if(!reap(true)) break;
  return worst;
}
