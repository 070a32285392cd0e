#include "expr.h"
#include <string>
std::vector<Node> N; std::vector<VarInfo> VARS; std::vector<std::vector<u64>> TABLES;
std::vector<std::vector<u32>> SUPP; std::vector<u64> MODEL; Z3_context ZC;
static std::vector<u32> varNodes;
static std::vector<u32> buckets; static u32 bmask;
static std::unordered_map<u64,u32> suppUnion;
static std::unordered_map<std::string,u32> suppIndex;
static std::unordered_map<std::string,u32> tableIndex;

static u32 suppOf(const std::vector<u32>&v){
  std::string k((const char*)v.data(),v.size()*4);
  auto it=suppIndex.find(k); if(it!=suppIndex.end()) return it->second;
  u32 id=SUPP.size(); SUPP.push_back(v); suppIndex[k]=id; return id;
}
static u32 unionSupp(u32 a,u32 b){
  if(a==b||b==0) return a; if(a==0) return b; if(a>b) std::swap(a,b);
  u64 k=((u64)a<<32)|b; auto it=suppUnion.find(k); if(it!=suppUnion.end()) return it->second;
  std::vector<u32> r; std::set_union(SUPP[a].begin(),SUPP[a].end(),SUPP[b].begin(),SUPP[b].end(),std::back_inserter(r));
  u32 id=suppOf(r); suppUnion[k]=id; return id;
}
static inline u64 hmix(u64 h){ h^=h>>33; h*=0xff51afd7ed558ccdULL; h^=h>>33; h*=0xc4ceb9fe1a85ec53ULL; h^=h>>33; return h; }
static inline u64 nhash(u8 op,u16 w,u32 a,u32 b,u32 c,u64 i,u64 j){ return hmix(op|((u64)w<<8)|((u64)a<<32))^hmix(b+0x9e3779b97f4a7c15ULL*c)^hmix(i*31+j*0x1234567); }
static Ex mk(u8 op,unsigned w,u32 a=0,u32 b=0,u32 c=0,u64 imm=0,u64 imm2=0){
  u64 h=nhash(op,w,a,b,c,imm,imm2);
  for(u32 i=buckets[h&bmask];i;i=N[i].next){ Node&n=N[i]; if(n.op==op&&n.w==w&&n.a==a&&n.b==b&&n.c==c&&n.imm==imm&&n.imm2==imm2) return i; }
  if(N.size()*2>buckets.size()){
    u32 nb=buckets.size()*2; buckets.assign(nb,0); bmask=nb-1;
    for(u32 i=1;i<N.size();i++){ Node&n=N[i]; u64 hh=nhash(n.op,n.w,n.a,n.b,n.c,n.imm,n.imm2)&bmask; n.next=buckets[hh]; buckets[hh]=i; }
  }
  Node n; memset(&n,0,sizeof n); n.op=op;n.w=w;n.a=a;n.b=b;n.c=c;n.imm=imm;n.imm2=imm2;
  if(op==O_VAR||op==O_TABLE) n.supp=suppOf({(u32)(op==O_VAR?imm:imm)});
  else { n.supp=unionSupp(unionSupp(a?N[a].supp:0,b?N[b].supp:0),c?N[c].supp:0);
    if(op>=O_FADD) n.flags|=F_FP;
    if((op==O_MUL||op==O_UDIV||op==O_SDIV||op==O_UREM||op==O_SREM)&&w>=16) n.flags|=F_MUL;
    if(a)n.flags|=N[a].flags; if(b)n.flags|=N[b].flags; if(c)n.flags|=N[c].flags; }
  u32 id=N.size(); n.next=buckets[h&bmask]; buckets[h&bmask]=id; N.push_back(n); return id;
}
void expr_init(){ N.reserve(1<<20); N.push_back(Node{}); buckets.assign(1<<20,0); bmask=(1<<20)-1; SUPP.push_back({}); suppIndex[""]=0; }
Ex mkConst(unsigned w,u128 v){ v&=mask128(w); return mk(O_CONST,w,0,0,0,(u64)v,(u64)(v>>64)); }
Ex mkVar(unsigned w){ u32 id=VARS.size(); VARS.push_back({w}); MODEL.push_back(0); Ex e=mk(O_VAR,w,0,0,0,id); varNodes.push_back(e); return e; }
Ex varNode(u32 v){ return varNodes[v]; }

static double b2d(u128 v){ u64 x=(u64)v; double d; memcpy(&d,&x,8); return d; }
static u64 d2b(double d){ u64 x; memcpy(&x,&d,8); return x; }
static float b2f(u128 v){ u32 x=(u32)v; float d; memcpy(&d,&x,4); return d; }
static u32 f2b(float d){ u32 x; memcpy(&x,&d,4); return x; }
static u128 evalOp(const Node&n,u128 a,u128 b,u128 c){
  unsigned w=n.w, wa=n.a?N[n.a].w:0; u128 m=mask128(w);
  switch(n.op){
  case O_CONST: return ((u128)n.imm2<<64)|n.imm;
  case O_ADD: return (a+b)&m; case O_SUB: return (a-b)&m; case O_MUL: return (a*b)&m;
  case O_UDIV: return b? (a/b)&m : m; case O_UREM: return b? a%b : a;
  case O_SDIV: { i128 x=sext128(a,w),y=sext128(b,w); if(!y) return x<0?1:m; if(y==-1) return (u128)(-(u128)x)&m; return (u128)(x/y)&m; }
  case O_SREM: { i128 x=sext128(a,w),y=sext128(b,w); if(!y) return a; if(y==-1) return 0; return (u128)(x%y)&m; }
  case O_AND: return a&b; case O_OR: return a|b; case O_XOR: return a^b;
  case O_SHL: return b>=w?0:(a<<(unsigned)b)&m; case O_LSHR: return b>=w?0:a>>(unsigned)b;
  case O_ASHR: { i128 x=sext128(a,w); unsigned s=b>=w?w-1:(unsigned)b; if(s>127)s=127; return (u128)(x>>s)&m; }
  case O_EQ: return a==b; case O_ULT: return a<b; case O_ULE: return a<=b;
  case O_SLT: return sext128(a,wa)<sext128(b,wa); case O_SLE: return sext128(a,wa)<=sext128(b,wa);
  case O_NOT: return a^1;
  case O_CONCAT: return (a<<N[n.b].w)|b;
  case O_EXTRACT: return (a>>n.imm)&m;
  case O_ZEXT: return a; case O_SEXT: return (u128)sext128(a,wa)&m;
  case O_ITE: return a?b:c;
  case O_FADD: return w==64? (u128)d2b(b2d(a)+b2d(b)) : f2b(b2f(a)+b2f(b));
  case O_FSUB: return w==64? (u128)d2b(b2d(a)-b2d(b)) : f2b(b2f(a)-b2f(b));
  case O_FMUL: return w==64? (u128)d2b(b2d(a)*b2d(b)) : f2b(b2f(a)*b2f(b));
  case O_FDIV: return w==64? (u128)d2b(b2d(a)/b2d(b)) : f2b(b2f(a)/b2f(b));
  case O_FREM: return w==64? (u128)d2b(fmod(b2d(a),b2d(b))) : f2b(fmodf(b2f(a),b2f(b)));
  case O_FEQ: return wa==64? b2d(a)==b2d(b): b2f(a)==b2f(b);
  case O_FLT: return wa==64? b2d(a)<b2d(b): b2f(a)<b2f(b);
  case O_FLE: return wa==64? b2d(a)<=b2d(b): b2f(a)<=b2f(b);
  case O_FUNO: return wa==64? (std::isnan(b2d(a))||std::isnan(b2d(b))): (std::isnan(b2f(a))||std::isnan(b2f(b)));
  case O_SITOFP: { i128 x=sext128(a,wa); return w==64? (u128)d2b((double)x): f2b((float)x); }
  case O_UITOFP: return w==64? (u128)d2b((double)a): f2b((float)a);
  case O_FPTOSI: { double d=wa==64?b2d(a):b2f(a); if(!(d>-1.7e38&&d<1.7e38)) return 0; return (u128)(i128)d&m; }
  case O_FPTOUI: { double d=wa==64?b2d(a):b2f(a); if(!(d>-1&&d<1.7e38)) return 0; return (u128)d&m; }
  case O_FPTRUNC: return f2b((float)b2d(a)); case O_FPEXT: return d2b((double)b2f(a));
  case O_FLOOR: return w==64?(u128)d2b(floor(b2d(a))):f2b(floorf(b2f(a)));
  case O_CEIL: return w==64?(u128)d2b(ceil(b2d(a))):f2b(ceilf(b2f(a)));
  case O_FTRUNC: return w==64?(u128)d2b(trunc(b2d(a))):f2b(truncf(b2f(a)));
  case O_FSQRT: return w==64?(u128)d2b(sqrt(b2d(a))):f2b(sqrtf(b2f(a)));
  case O_FROUND: return w==64?(u128)d2b(round(b2d(a))):f2b(roundf(b2f(a)));
  }
  fatal("evalOp %d",n.op);
}
static std::vector<u128> memoV; static std::vector<u32> memoS; static u32 curStamp=1;
void modelChanged(){ curStamp++; }
static u128 evalRec(Ex e){
  if(memoS[e]==curStamp) return memoV[e];
  const Node n=N[e]; u128 r;
  if(n.op==O_CONST) return ((u128)n.imm2<<64)|n.imm;
  if(n.op==O_VAR) r=MODEL[n.imm];
  else if(n.op==O_TABLE) r=TABLES[n.imm2][MODEL[n.imm]&255];
  else if(n.op==O_ITE) r= evalRec(n.a)? evalRec(n.b):evalRec(n.c);
  else r=evalOp(n, n.a?evalRec(n.a):0, n.b?evalRec(n.b):0, n.c?evalRec(n.c):0);
  memoS[e]=curStamp; memoV[e]=r; return r;
}
u128 evalExpr(Ex e){ if(memoS.size()<N.size()){ memoS.resize(N.size()+N.size()/2+1024,0); memoV.resize(memoS.size()); } return evalRec(e); }

static void postorder(Ex e,std::vector<Ex>&out,std::unordered_map<Ex,u32>&idx){
  if(idx.count(e)) return; const Node n=N[e];
  if(n.op!=O_VAR&&n.op!=O_CONST&&n.op!=O_TABLE){ if(n.a)postorder(n.a,out,idx); if(n.b)postorder(n.b,out,idx); if(n.c)postorder(n.c,out,idx); }
  idx[e]=out.size(); out.push_back(e);
}
template<class F> static void evalAll(Ex e,F f){
  std::vector<Ex> ord; std::unordered_map<Ex,u32> idx; postorder(e,ord,idx);
  std::vector<u128> v(ord.size()); struct K{u32 a,b,c;}; std::vector<K> ks(ord.size());
  for(size_t i=0;i<ord.size();i++){ Node&n=N[ord[i]]; ks[i]={0,0,0}; if(n.op!=O_VAR&&n.op!=O_CONST&&n.op!=O_TABLE){ if(n.a)ks[i].a=idx[n.a]; if(n.b)ks[i].b=idx[n.b]; if(n.c)ks[i].c=idx[n.c]; } }
  for(unsigned x=0;x<256;x++){
    for(size_t i=0;i<ord.size();i++){ const Node&n=N[ord[i]];
      if(n.op==O_VAR) v[i]=x; else if(n.op==O_CONST) v[i]=((u128)n.imm2<<64)|n.imm; else if(n.op==O_TABLE) v[i]=TABLES[n.imm2][x];
      else v[i]=evalOp(n,v[ks[i].a],v[ks[i].b],v[ks[i].c]); }
    f(x,v[ord.size()-1]);
  }
}
static std::unordered_map<Ex,Bits256> truthMemo;
const Bits256& truthOf(Ex e){
  auto it=truthMemo.find(e); if(it!=truthMemo.end()) return it->second;
  Bits256 r{{0,0,0,0}};
  const Node n=N[e];
  if(n.op==O_NOT){ r=truthOf(n.a); for(int i=0;i<4;i++) r.b[i]=~r.b[i]; }
  else if((n.op==O_AND||n.op==O_OR)&&!isConst(n.a)&&!isConst(n.b)){ Bits256 x=truthOf(n.a),y=truthOf(n.b); for(int i=0;i<4;i++) r.b[i]= n.op==O_AND? x.b[i]&y.b[i]:x.b[i]|y.b[i]; }
  else evalAll(e,[&](unsigned x,u128 v){ if(v&1) r.set(x); });
  return truthMemo[e]=r;
}
void tableOf(Ex e,u32 var,std::vector<u64>&out){ out.assign(256,0); evalAll(e,[&](unsigned x,u128 v){ out[x]=(u64)v; }); }

Ex mkTable(u32 var,unsigned w,const std::vector<u64>&t){
  bool same=true; for(auto x:t) if(x!=t[0]) same=false; if(same) return mkConst(w,t[0]);
  std::string k((const char*)t.data(),t.size()*8); u32 id; auto it=tableIndex.find(k);
  if(it==tableIndex.end()){ id=TABLES.size(); TABLES.push_back(t); tableIndex[k]=id; } else id=it->second;
  return mk(O_TABLE,w,0,0,0,var,id);
}
Ex mkNot(Ex a){ Node n=N[a]; if(n.op==O_CONST) return mkConst(1,n.imm^1); if(n.op==O_NOT) return n.a; return mk(O_NOT,1,a); }
static Ex foldBin(u8 op,unsigned w,Ex a,Ex b){ Node t{}; t.op=op;t.w=w;t.a=a;t.b=b; return mkConst(w,evalOp(t,cval(a),cval(b),0)); }
static bool isZ(Ex e){ return N[e].op==O_CONST&&!N[e].imm&&!N[e].imm2; }
static bool isOnes(Ex e){ return N[e].op==O_CONST&&cval(e)==mask128(N[e].w); }
static bool splitOf(Ex e,unsigned&lo){ const Node&n=N[e]; if(n.op==O_CONCAT){lo=N[n.b].w;return true;} if(n.op==O_ZEXT){lo=N[n.a].w;return true;} return false; }
static Ex hiOf(Ex e,unsigned lo){ return mkExtract(e,lo,N[e].w-lo); }
static Ex loOf(Ex e,unsigned lo){ return mkExtract(e,0,lo); }
Ex mkBin(u8 op,Ex a,Ex b){
  unsigned w=N[a].w; if(N[b].w!=w) fatal("mkBin width %d %u %u",op,w,N[b].w);
  bool ca=isConst(a), cb=isConst(b);
  if(ca&&cb) return foldBin(op,w,a,b);
  bool comm=op==O_ADD||op==O_MUL||op==O_AND||op==O_OR||op==O_XOR;
  if(comm){ if(ca||(!cb&&a>b)){ std::swap(a,b); std::swap(ca,cb); } }
  Node na=N[a], nb=N[b];
  switch(op){
  case O_ADD: if(isZ(b)) return a;
    if(w==1) return mkBin(O_XOR,a,b);
    if(cb&&na.op==O_ADD&&isConst(na.b)) return mkBin(O_ADD,na.a,mkConst(w,cval(na.b)+cval(b)));
    break;
  case O_SUB: if(isZ(b)) return a; if(a==b) return mkConst(w,0); if(w==1) return mkBin(O_XOR,a,b);
    if(cb) return mkBin(O_ADD,a,mkConst(w,-cval(b)));
    break;
  case O_MUL: if(isZ(b)) return b; if(cb&&cval(b)==1) return a; if(w==1) return mkBin(O_AND,a,b);
    if(cb){ u128 c=cval(b); if((c&(c-1))==0){ unsigned k=0; while(!((c>>k)&1))k++; return mkBin(O_SHL,a,mkConst(w,k)); } }
    break;
  case O_UDIV: if(cb&&cval(b)==1) return a;
    if(cb&&cval(b)){ u128 c=cval(b); if((c&(c-1))==0){ unsigned k=0; while(!((c>>k)&1))k++; return mkBin(O_LSHR,a,mkConst(w,k)); } }
    break;
  case O_UREM: if(cb&&cval(b)){ u128 c=cval(b); if((c&(c-1))==0) return mkBin(O_AND,a,mkConst(w,c-1)); }
    break;
  case O_AND: if(isZ(b)) return b; if(isOnes(b)) return a; if(a==b) return a;
    if(w==1){ if(mkNot(a)==b) return mkConst(1,0); }
    if(cb){ u128 c=cval(b); if((c&(c+1))==0){ unsigned k=0; while((c>>k)&1)k++; return mkZext(mkExtract(a,0,k),w); } 
      if(na.op==O_AND&&isConst(na.b)) return mkBin(O_AND,na.a,mkConst(w,cval(na.b)&c)); }
    goto bitwise;
  case O_OR: if(isZ(b)) return a; if(isOnes(b)) return b; if(a==b) return a;
    if(w==1){ if(mkNot(a)==b) return mkConst(1,1); }
    goto bitwise;
  case O_XOR: if(isZ(b)) return a; if(a==b) return mkConst(w,0);
    if(w==1&&isOnes(b)) return mkNot(a);
    if(w==1&&na.op==O_NOT) return mkNot(mkBin(O_XOR,na.a,b));
    if(w==1&&nb.op==O_NOT) return mkNot(mkBin(O_XOR,a,nb.a));
    goto bitwise;
  bitwise: { unsigned la=0,lb=0; bool sa=splitOf(a,la), sb=splitOf(b,lb);
      if(w>1&&((sa&&cb)||(sa&&sb&&la==lb))) return mkConcat(mkBin(op,hiOf(a,la),hiOf(b,la)),mkBin(op,loOf(a,la),loOf(b,la)));
      // disjoint pieces: a = x:0_k  and b = 0:y with width(y)<=k
      if(w>1&&sa&&sb&&op!=O_AND){
        if(isZ(loOf(a,la))&&lb<=la&&isZ(hiOf(b,lb))) return mkConcat(hiOf(a,la),loOf(b,la));
        if(isZ(loOf(b,lb))&&la<=lb&&isZ(hiOf(a,la))) return mkConcat(hiOf(b,lb),loOf(a,lb));
      } }
    break;
  case O_SHL: if(isZ(b)) return a; if(isZ(a)) return a;
    if(cb){ u128 k=cval(b); if(k>=w) return mkConst(w,0); return mkConcat(mkExtract(a,0,w-(unsigned)k),mkConst((unsigned)k,0)); }
    break;
  case O_LSHR: if(isZ(b)) return a; if(isZ(a)) return a;
    if(cb){ u128 k=cval(b); if(k>=w) return mkConst(w,0); return mkZext(mkExtract(a,(unsigned)k,w-(unsigned)k),w); }
    break;
  case O_ASHR: if(isZ(b)) return a;
    if(cb){ u128 k=cval(b); if(k>=w) k=w-1; return mkSext(mkExtract(a,(unsigned)k,w-(unsigned)k),w); }
    break;
  }
  return mk(op,w,a,b);
}
Ex mkCmp(u8 op,Ex a,Ex b){
  unsigned w=N[a].w; if(N[b].w!=w) fatal("mkCmp width %d %u %u",op,w,N[b].w);
  if(op==O_ULE) return mkNot(mkCmp(O_ULT,b,a));
  if(op==O_SLE) return mkNot(mkCmp(O_SLT,b,a));
  if(a==b) return mkConst(1,op==O_EQ);
  bool ca=isConst(a),cb=isConst(b);
  if(ca&&cb){ Node t{}; t.op=op;t.w=1;t.a=a;t.b=b; return mkConst(1,evalOp(t,cval(a),cval(b),0)); }
  if(op==O_EQ){
    if(ca||(!cb&&a>b)){ std::swap(a,b); std::swap(ca,cb); }
    Node na=N[a], nb=N[b];
    if(w==1){ if(cb) return nb.imm? a: mkNot(a); return mkNot(mkBin(O_XOR,a,b)); }
    if(cb){ u128 c=cval(b);
      switch(na.op){
      case O_ZEXT: { unsigned k=N[na.a].w; if(c>>k) return mkConst(1,0); return mkEqC(na.a,c); }
      case O_SEXT: { unsigned k=N[na.a].w; if(((u128)sext128(c&mask128(k),k)&mask128(w))!=c) return mkConst(1,0); return mkEqC(na.a,c&mask128(k)); }
      case O_CONCAT: { unsigned k=N[na.b].w; Ex h=mkEqC(na.a,c>>k); if(isZ(h)) return h; return mkBin(O_AND,h,mkEqC(na.b,c&mask128(k))); }
      case O_ITE: if(isConst(na.b)||isConst(na.c)) return mkIte(na.a,mkEqC(na.b,c),mkEqC(na.c,c)); break;
      case O_ADD: if(isConst(na.b)) return mkEqC(na.a,c-cval(na.b)&mask128(w)); break;
      case O_XOR: if(isConst(na.b)) return mkEqC(na.a,c^cval(na.b)); break;
      case O_SUB: if(isConst(na.a)) return mkEqC(na.b,(cval(na.a)-c)&mask128(w)); break;
      }
    } else {
      unsigned la,lb; if(splitOf(a,la)&&splitOf(b,lb)&&la==lb) return mkBin(O_AND,mkCmp(O_EQ,hiOf(a,la),hiOf(b,la)),mkCmp(O_EQ,loOf(a,la),loOf(b,la)));
    }
    return mk(O_EQ,1,a,b);
  }
  Node na=N[a], nb=N[b];
  if(op==O_ULT){
    if(isZ(b)) return mkConst(1,0); if(cb&&cval(b)==1) return mkEqC(a,0); if(isOnes(a)) return mkConst(1,0);
    if(isOnes(b)) return mkNot(mkEqC(a,cval(b))); if(isZ(a)) return mkNot(mkEqC(b,0));
    if(w==1) return mkBin(O_AND,mkNot(a),b);
    if(na.op==O_ZEXT&&cb){ unsigned k=N[na.a].w; if(cval(b)>>k) return mkConst(1,1); return mkCmp(O_ULT,na.a,mkConst(k,cval(b))); }
    if(nb.op==O_ZEXT&&ca){ unsigned k=N[nb.a].w; if(cval(a)>>k) return mkConst(1,0); return mkCmp(O_ULT,mkConst(k,cval(a)),nb.a); }
    if(na.op==O_ZEXT&&nb.op==O_ZEXT&&N[na.a].w==N[nb.a].w) return mkCmp(O_ULT,na.a,nb.a);
  } else {
    if(na.op==O_ZEXT&&cb){ if(cval(b)>>(w-1)) return mkConst(1,0); return mkCmp(O_ULT,a,b); }
    if(nb.op==O_ZEXT&&ca){ if(cval(a)>>(w-1)) return mkConst(1,1); return mkCmp(O_ULT,a,b); }
    if(na.op==O_ZEXT&&nb.op==O_ZEXT) return mkCmp(O_ULT,a,b);
    if(w==1) return mkBin(O_AND,a,mkNot(b));
    // x < 0  <=> top bit
    if(isZ(b)) return mkExtract(a,w-1,1);
  }
  if(na.op==O_ITE&&cb&&(isConst(na.b)||isConst(na.c))) return mkIte(na.a,mkCmp(op,na.b,b),mkCmp(op,na.c,b));
  if(nb.op==O_ITE&&ca&&(isConst(nb.b)||isConst(nb.c))) return mkIte(nb.a,mkCmp(op,a,nb.b),mkCmp(op,a,nb.c));
  return mk(op,1,a,b);
}
Ex mkIte(Ex c,Ex a,Ex b){
  if(a==b) return a; if(isConst(c)) return N[c].imm? a:b;
  if(N[c].op==O_NOT) return mkIte(N[c].a,b,a);
  Node na=N[a], nb=N[b];
  if(na.w!=nb.w) fatal("mkIte width");
  if(na.op==O_ITE&&na.a==c) return mkIte(c,na.b,b);
  if(nb.op==O_ITE&&nb.a==c) return mkIte(c,a,nb.c);
  if(na.w==1){
    if(na.op==O_CONST) return na.imm? mkBin(O_OR,c,b): mkBin(O_AND,mkNot(c),b);
    if(nb.op==O_CONST) return nb.imm? mkBin(O_OR,mkNot(c),a): mkBin(O_AND,c,a);
    if(a==c) return mkBin(O_OR,c,b); if(b==c) return mkBin(O_AND,c,a);
  }
  return mk(O_ITE,na.w,c,a,b);
}
Ex mkExtract(Ex a,unsigned off,unsigned w){
  Node n=N[a]; if(off+w>n.w||!w) fatal("mkExtract %u %u of %u",off,w,n.w);
  if(off==0&&w==n.w) return a;
  switch(n.op){
  case O_CONST: return mkConst(w,cval(a)>>off);
  case O_EXTRACT: return mkExtract(n.a,off+n.imm,w);
  case O_CONCAT: { unsigned k=N[n.b].w; if(off>=k) return mkExtract(n.a,off-k,w); if(off+w<=k) return mkExtract(n.b,off,w);
      return mkConcat(mkExtract(n.a,0,off+w-k),mkExtract(n.b,off,k-off)); }
  case O_ZEXT: { unsigned k=N[n.a].w; if(off>=k) return mkConst(w,0); if(off+w<=k) return mkExtract(n.a,off,w); return mkZext(mkExtract(n.a,off,k-off),w); }
  case O_SEXT: { unsigned k=N[n.a].w; if(off+w<=k) return mkExtract(n.a,off,w); if(off==0) return mkSext(n.a,w); break; }
  case O_AND: case O_OR: case O_XOR: return mkBin(n.op,mkExtract(n.a,off,w),mkExtract(n.b,off,w));
  case O_ADD: case O_SUB: case O_MUL: if(off==0) return mkBin(n.op,mkExtract(n.a,0,w),mkExtract(n.b,0,w)); break;
  }
  return mk(O_EXTRACT,w,a,0,0,off);
}
Ex mkConcat(Ex hi,Ex lo){
  Node h=N[hi], l=N[lo]; unsigned w=h.w+l.w; if(w>128) fatal("concat >128");
  if(h.op==O_CONST&&l.op==O_CONST) return mkConst(w,(cval(hi)<<l.w)|cval(lo));
  if(h.op==O_CONCAT) return mkConcat(h.a,mkConcat(h.b,lo));
  if(isZ(hi)) return mkZext(lo,w);
  if(h.op==O_ZEXT) return mkZext(mkConcat(h.a,lo),w);
  if(l.op==O_ZEXT){ Ex z=mkConst(l.w-N[l.a].w,0); if(h.op==O_CONST) return mk(O_CONCAT,w,mkConcat(hi,z),l.a); return mk(O_CONCAT,w,hi,lo); }
  if(h.op==O_EXTRACT&&l.op==O_EXTRACT&&h.a==l.a&&l.imm+l.w==h.imm) return mkExtract(h.a,l.imm,w);
  if(l.op==O_CONCAT){ Node lh=N[l.a];
    if(h.op==O_EXTRACT&&lh.op==O_EXTRACT&&h.a==lh.a&&lh.imm+lh.w==h.imm) return mkConcat(mkExtract(h.a,lh.imm,h.w+lh.w),l.b);
    if(h.op==O_CONST&&lh.op==O_CONST) return mk(O_CONCAT,w,mkConcat(hi,l.a),l.b); }
  return mk(O_CONCAT,w,hi,lo);
}
Ex mkZext(Ex a,unsigned w){ Node n=N[a]; if(n.w==w) return a; if(n.w>w) return mkExtract(a,0,w); if(n.op==O_CONST) return mkConst(w,cval(a)); if(n.op==O_ZEXT) return mkZext(n.a,w); return mk(O_ZEXT,w,a); }
Ex mkSext(Ex a,unsigned w){ Node n=N[a]; if(n.w==w) return a; if(n.op==O_CONST) return mkConst(w,(u128)sext128(cval(a),n.w)); if(n.op==O_ZEXT) return mkZext(n.a,w); if(n.op==O_SEXT) return mkSext(n.a,w); return mk(O_SEXT,w,a); }
Ex mkUn(u8 op,unsigned w,Ex a){ if(isConst(a)){ Node t{}; t.op=op;t.w=w;t.a=a; return mkConst(w,evalOp(t,cval(a),0,0)); } return mk(op,w,a); }
Ex mkFp(u8 op,Ex a,Ex b){ unsigned w=(op>=O_FEQ&&op<=O_FUNO)?1:N[a].w; if(isConst(a)&&isConst(b)){ Node t{}; t.op=op;t.w=w;t.a=a;t.b=b; return mkConst(w,evalOp(t,cval(a),cval(b),0)); } return mk(op,w,a,b); }
Ex mkPopcount(Ex e){ unsigned w=N[e].w; Ex r=mkConst(w,0); for(unsigned i=0;i<w;i++) r=mkBin(O_ADD,r,mkZext(mkExtract(e,i,1),w)); return r; }
Ex mkBswap(Ex e){ unsigned w=N[e].w; Ex r=mkExtract(e,0,8); for(unsigned i=8;i<w;i+=8) r=mkConcat(r,mkExtract(e,i,8)); return r; }
Ex mkBitrev(Ex e){ unsigned w=N[e].w; Ex r=mkExtract(e,0,1); for(unsigned i=1;i<w;i++) r=mkConcat(r,mkExtract(e,i,1)); return r; }
Ex mkCtz(Ex e){ unsigned w=N[e].w; Ex r=mkConst(w,w); for(int i=w-1;i>=0;i--) r=mkIte(mkExtract(e,i,1),mkConst(w,i),r); return r; }
Ex mkClz(Ex e){ unsigned w=N[e].w; Ex r=mkConst(w,w); for(unsigned i=0;i<w;i++) r=mkIte(mkExtract(e,i,1),mkConst(w,w-1-i),r); return r; }
Ex mkUmulOvf(Ex a,Ex b){ unsigned w=N[a].w; if(w>64){ // a*b overflows iff a!=0 && b > max/a
    Ex z=mkEqC(a,0); Ex q=mkBin(O_UDIV,mkConst(w,mask128(w)),a); return mkBin(O_AND,mkNot(z),mkCmp(O_ULT,q,b)); }
  Ex p=mkBin(O_MUL,mkZext(a,2*w),mkZext(b,2*w)); return mkNot(mkEqC(mkExtract(p,w,w),0)); }
Ex mkSmulOvf(Ex a,Ex b){ unsigned w=N[a].w; if(w>64) fatal("smulo w"); Ex p=mkBin(O_MUL,mkSext(a,2*w),mkSext(b,2*w)); Ex hi=mkExtract(p,w,w); return mkNot(mkCmp(O_EQ,hi,mkSext(mkExtract(p,w-1,1),w))); }
Ex mkAddOvfU(Ex a,Ex b){ unsigned w=N[a].w; if(isConst(b)) return isZ(b)?mkConst(1,0):mkNot(mkCmp(O_ULT,a,mkConst(w,-cval(b)))); return mkCmp(O_ULT,mkBin(O_ADD,a,b),a); }
Ex mkSubOvfU(Ex a,Ex b){ return mkCmp(O_ULT,a,b); }
static Ex top(Ex e){ return mkExtract(e,N[e].w-1,1); }
Ex mkAddOvfS(Ex a,Ex b){ Ex r=mkBin(O_ADD,a,b); Ex sa=top(a),sb=top(b),sr=top(r); return mkBin(O_AND,mkNot(mkBin(O_XOR,sa,sb)),mkBin(O_XOR,sa,sr)); }
Ex mkSubOvfS(Ex a,Ex b){ Ex r=mkBin(O_SUB,a,b); Ex sa=top(a),sb=top(b),sr=top(r); return mkBin(O_AND,mkBin(O_XOR,sa,sb),mkBin(O_XOR,sa,sr)); }
Ex mkFptoiSat(Ex a,unsigned w,bool sgn){
  unsigned wa=N[a].w; if(wa!=64) fatal("fptoi.sat f32"); double lo= sgn? -ldexp(1.0,w-1):0.0, hi= sgn? ldexp(1.0,w-1):ldexp(1.0,w);
  Ex nan=mkFp(O_FUNO,a,a); Ex L=mkConst(64,d2b(lo)),H=mkConst(64,d2b(hi));
  Ex mid=mkUn(sgn?O_FPTOSI:O_FPTOUI,w,a);
  Ex mx=mkConst(w,sgn? mask128(w)>>1 : mask128(w)), mn=mkConst(w,sgn? (u128)1<<(w-1):0);
  return mkIte(nan,mkConst(w,0),mkIte(mkFp(O_FLE,H,a),mx,mkIte(sgn?mkFp(O_FLT,a,L):mkFp(O_FLE,a,L),mn,mid)));
}
// ---------- z3 ----------
static std::vector<Z3_ast> bvM, boM;
static Z3_ast keep(Z3_ast a){ Z3_inc_ref(ZC,a); return a; }
static Z3_ast num(unsigned w,u128 v){ Z3_sort s=Z3_mk_bv_sort(ZC,w); if(w<=64) return Z3_mk_unsigned_int64(ZC,(u64)v,s);
  Z3_ast h=Z3_mk_unsigned_int64(ZC,(u64)(v>>64),Z3_mk_bv_sort(ZC,w-64)); Z3_ast l=Z3_mk_unsigned_int64(ZC,(u64)v,Z3_mk_bv_sort(ZC,64)); return Z3_mk_concat(ZC,h,l); }
static Z3_sort fsort(unsigned w){ return w==64?Z3_mk_fpa_sort_64(ZC):Z3_mk_fpa_sort_32(ZC); }
static Z3_ast toF(Ex e){ return Z3_mk_fpa_to_fp_bv(ZC,toBV(e),fsort(N[e].w)); }
static Z3_ast toBV0(Ex e){
  Node n=N[e];
  auto A=[&]{return toBV(n.a);}; auto B=[&]{return toBV(n.b);};
  switch(n.op){
  case O_CONST: return num(n.w,cval(e));
  case O_VAR: { char nm[24]; snprintf(nm,sizeof nm,"v%u",(u32)n.imm); return Z3_mk_const(ZC,Z3_mk_string_symbol(ZC,nm),Z3_mk_bv_sort(ZC,n.w)); }
  case O_TABLE: { const std::vector<u64>&t=TABLES[n.imm2]; Z3_ast x=toBV(varNode(n.imm));
      std::unordered_map<u64,int> cnt; for(auto v:t) cnt[v]++; u64 best=t[0]; for(auto&p:cnt) if(p.second>cnt[best]) best=p.first;
      Z3_ast r=num(n.w,best); unsigned i=0;
      while(i<256){ unsigned j=i; while(j+1<256&&t[j+1]==t[i]) j++; if(t[i]!=best){ Z3_ast c= i==j? Z3_mk_eq(ZC,x,num(8,i)) : 0; if(!c){ Z3_ast cs[2]={Z3_mk_bvule(ZC,num(8,i),x),Z3_mk_bvule(ZC,x,num(8,j))}; c=Z3_mk_and(ZC,2,cs); } r=Z3_mk_ite(ZC,c,num(n.w,t[i]),r); } i=j+1; }
      return r; }
  case O_ADD: return Z3_mk_bvadd(ZC,A(),B()); case O_SUB: return Z3_mk_bvsub(ZC,A(),B()); case O_MUL: return Z3_mk_bvmul(ZC,A(),B());
  case O_UDIV: return Z3_mk_bvudiv(ZC,A(),B()); case O_SDIV: return Z3_mk_bvsdiv(ZC,A(),B()); case O_UREM: return Z3_mk_bvurem(ZC,A(),B()); case O_SREM: return Z3_mk_bvsrem(ZC,A(),B());
  case O_SHL: return Z3_mk_bvshl(ZC,A(),B()); case O_LSHR: return Z3_mk_bvlshr(ZC,A(),B()); case O_ASHR: return Z3_mk_bvashr(ZC,A(),B());
  case O_CONCAT: return Z3_mk_concat(ZC,A(),B());
  case O_EXTRACT: return Z3_mk_extract(ZC,n.imm+n.w-1,n.imm,A());
  case O_ZEXT: return Z3_mk_zero_ext(ZC,n.w-N[n.a].w,A()); case O_SEXT: return Z3_mk_sign_ext(ZC,n.w-N[n.a].w,A());
  case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: { Z3_ast rm=Z3_mk_fpa_rne(ZC),a=toF(n.a),b=toF(n.b),r; r= n.op==O_FADD?Z3_mk_fpa_add(ZC,rm,a,b): n.op==O_FSUB?Z3_mk_fpa_sub(ZC,rm,a,b): n.op==O_FMUL?Z3_mk_fpa_mul(ZC,rm,a,b):Z3_mk_fpa_div(ZC,rm,a,b); return Z3_mk_fpa_to_ieee_bv(ZC,r); }
  case O_SITOFP: return Z3_mk_fpa_to_ieee_bv(ZC,Z3_mk_fpa_to_fp_signed(ZC,Z3_mk_fpa_rne(ZC),A(),fsort(n.w)));
  case O_UITOFP: return Z3_mk_fpa_to_ieee_bv(ZC,Z3_mk_fpa_to_fp_unsigned(ZC,Z3_mk_fpa_rne(ZC),A(),fsort(n.w)));
  case O_FPTOSI: return Z3_mk_fpa_to_sbv(ZC,Z3_mk_fpa_rtz(ZC),toF(n.a),n.w);
  case O_FPTOUI: return Z3_mk_fpa_to_ubv(ZC,Z3_mk_fpa_rtz(ZC),toF(n.a),n.w);
  case O_FPTRUNC: case O_FPEXT: return Z3_mk_fpa_to_ieee_bv(ZC,Z3_mk_fpa_to_fp_float(ZC,Z3_mk_fpa_rne(ZC),toF(n.a),fsort(n.w)));
  case O_FLOOR: return Z3_mk_fpa_to_ieee_bv(ZC,Z3_mk_fpa_round_to_integral(ZC,Z3_mk_fpa_rtn(ZC),toF(n.a)));
  case O_CEIL: return Z3_mk_fpa_to_ieee_bv(ZC,Z3_mk_fpa_round_to_integral(ZC,Z3_mk_fpa_rtp(ZC),toF(n.a)));
  case O_FTRUNC: return Z3_mk_fpa_to_ieee_bv(ZC,Z3_mk_fpa_round_to_integral(ZC,Z3_mk_fpa_rtz(ZC),toF(n.a)));
  case O_FROUND: return Z3_mk_fpa_to_ieee_bv(ZC,Z3_mk_fpa_round_to_integral(ZC,Z3_mk_fpa_rna(ZC),toF(n.a)));
  case O_FSQRT: return Z3_mk_fpa_to_ieee_bv(ZC,Z3_mk_fpa_sqrt(ZC,Z3_mk_fpa_rne(ZC),toF(n.a)));
  }
  if(n.w==1) return Z3_mk_ite(ZC,toBool(e),num(1,1),num(1,0));
  switch(n.op){
  case O_AND: return Z3_mk_bvand(ZC,A(),B()); case O_OR: return Z3_mk_bvor(ZC,A(),B()); case O_XOR: return Z3_mk_bvxor(ZC,A(),B());
  case O_ITE: return Z3_mk_ite(ZC,toBool(n.a),toBV(n.b),toBV(n.c));
  }
  fatal("toBV op %d",n.op);
}
static Z3_ast toBool0(Ex e){
  Node n=N[e];
  switch(n.op){
  case O_CONST: return n.imm?Z3_mk_true(ZC):Z3_mk_false(ZC);
  case O_NOT: return Z3_mk_not(ZC,toBool(n.a));
  case O_AND: { Z3_ast x[2]={toBool(n.a),toBool(n.b)}; return Z3_mk_and(ZC,2,x); }
  case O_OR: { Z3_ast x[2]={toBool(n.a),toBool(n.b)}; return Z3_mk_or(ZC,2,x); }
  case O_XOR: return Z3_mk_xor(ZC,toBool(n.a),toBool(n.b));
  case O_ITE: return Z3_mk_ite(ZC,toBool(n.a),toBool(n.b),toBool(n.c));
  case O_EQ: return Z3_mk_eq(ZC,toBV(n.a),toBV(n.b));
  case O_ULT: return Z3_mk_bvult(ZC,toBV(n.a),toBV(n.b)); case O_SLT: return Z3_mk_bvslt(ZC,toBV(n.a),toBV(n.b));
  case O_FEQ: return Z3_mk_fpa_eq(ZC,toF(n.a),toF(n.b)); case O_FLT: return Z3_mk_fpa_lt(ZC,toF(n.a),toF(n.b)); case O_FLE: return Z3_mk_fpa_leq(ZC,toF(n.a),toF(n.b));
  case O_FUNO: { Z3_ast x[2]={Z3_mk_fpa_is_nan(ZC,toF(n.a)),Z3_mk_fpa_is_nan(ZC,toF(n.b))}; return Z3_mk_or(ZC,2,x); }
  }
  return Z3_mk_eq(ZC,toBV(e),num(1,1));
}
Z3_ast toBV(Ex e){ if(bvM.size()<=e) bvM.resize(N.size()+N.size()/2+64,nullptr); if(bvM[e]) return bvM[e]; Z3_ast r=keep(toBV0(e)); if(bvM.size()<=e) bvM.resize(N.size()+64,nullptr); return bvM[e]=r; }
Z3_ast toBool(Ex e){ if(boM.size()<=e) boM.resize(N.size()+N.size()/2+64,nullptr); if(boM[e]) return boM[e]; Z3_ast r=keep(toBool0(e)); if(boM.size()<=e) boM.resize(N.size()+64,nullptr); return boM[e]=r; }
static const char*opn[]={"none","const","var","table","+","-","*","/u","/s","%u","%s","&","|","^","<<",">>u",">>s","=","<u","<=u","<s","<=s","!","concat","extract","zext","sext","ite","f+","f-","f*","f/","f%","f=","f<","f<=","funo","sitofp","uitofp","fptosi","fptoui","fptrunc","fpext","floor","ceil","ftrunc","fsqrt","fround"};
std::string exprStr(Ex e,int d){ Node n=N[e]; char b[64]; if(n.op==O_CONST){ snprintf(b,64,"%llu:%u",(unsigned long long)n.imm,n.w); return b; } if(n.op==O_VAR){ snprintf(b,64,"v%llu",(unsigned long long)n.imm); return b; } if(n.op==O_TABLE){ snprintf(b,64,"table%llu[v%llu]",(unsigned long long)n.imm2,(unsigned long long)n.imm); return b; }
  if(d<=0) return "..."; std::string s="("; s+=opn[n.op]; if(n.op==O_EXTRACT){ snprintf(b,64,"[%llu+%u]",(unsigned long long)n.imm,n.w); s+=b; } if(n.a) s+=" "+exprStr(n.a,d-1); if(n.b) s+=" "+exprStr(n.b,d-1); if(n.c) s+=" "+exprStr(n.c,d-1); return s+")"; }
