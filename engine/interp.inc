// Interpreter (included by engine.cpp)
static u64 entryDone=0;
static inline Slot& RR(Slot*fp,i32 i){ return i>=0? fp[i] : K[~i]; }
static inline Ex ex(const Slot&s,unsigned w){ if(!s.s) return mkConst(w,s.v); if(width(s.s)!=w){ return mkZext(s.s,w); } return s.s; }
static inline Slot slotOf(Ex e){ Slot r{0,0,0}; if(isConst(e)) r.v=N[e].imm; else r.s=e; return r; }
static void endPath(){
  u64 p=SH->paths.fetch_add(1);
  if((p<6||p%sampleStride==0)&&SH->samples.load()<maxSamples&&!outDir.empty()){
    SH->samples++; u64 d=1469598103934665603ull; for(auto&o:obsList){ u64 v=o.s? (u64)evalExpr(o.s):o.v; for(int i=0;i<8;i++){ d^=(v>>(8*i))&255; d*=1099511628211ull; } }
    char b[96]; string s="{\"input\":\""+inputHex(MODEL)+"\""; snprintf(b,96,",\"digest\":\"%016llx\",\"obs\":%zu,\"path\":%llu}\n",(unsigned long long)d,obsList.size(),(unsigned long long)p); s+=b;
    int fd=open((outDir+"/samples.jsonl").c_str(),O_CREAT|O_APPEND|O_WRONLY,0644); if(fd>=0){ if(write(fd,s.data(),s.size())<0){} close(fd);} }
}
static void killPath(){ pathDead=true; SH->dead++; }
static u64 addrOf(const Slot&s){ return s.s? concretize(s.s): s.v; }
static Slot loadSym(const Slot&as,u64 off,unsigned nb,unsigned w){
  Ex e=as.s; auto kn=known.find(e); if(kn!=known.end()){ u64 a=kn->second+off; if(memFault(a,nb)) return Slot{0,0,0}; return loadMem(a,nb,w); }
  const vector<u32>&sp=SUPP[N[e].supp];
  if(sp.size()==1&&VARS[sp[0]].w<=8&&nb<=8){
    vector<u64> t; tableOf(e,sp[0],t); Bits256&d=DOM[sp[0]]; bool ok=true; vector<u64> r(256,0); u64 lastOk=0; bool have=false; int cnt=0;
    for(unsigned i=0;i<256&&ok;i++) if(d.get(i)){ u64 a=t[i]+off; if(!inMem(a,nb)){ ok=false; break; } for(unsigned q=0;q<nb;q++) if(shadowAt(a+q)){ ok=false; break; } if(!ok) break; u64 x=0; memcpy(&x,(void*)a,nb); r[i]=x&mask64(w); lastOk=r[i]; have=true; cnt++; }
    if(ok&&have){ // fill infeasible entries with a neighbour value to keep the table regular
      u64 cur=lastOk; for(unsigned i=0;i<256;i++) if(d.get(i)) { cur=r[i]; break; } for(unsigned i=0;i<256;i++){ if(d.get(i)) cur=r[i]; else r[i]=cur; }
      SH->tableLoads++; return slotOf(mkTable(sp[0],w,r)); } }
  u64 a=concretize(e)+off; if(memFault(a,nb)) return Slot{0,0,0}; return loadMem(a,nb,w);
}
static u128 wide(const Slot*lo,const Slot*hi){ return ((u128)hi->v<<64)|lo->v; }
static Ex wideEx(Slot&lo,Slot&hi,unsigned w){ return mkConcat(ex(hi,w-64),ex(lo,64)); }
static u64 concBin(int op,unsigned w,u64 a,u64 b,bool&bad){
  u64 m=mask64(w);
  switch(op){ case I_ADD: return (a+b)&m; case I_SUB: return (a-b)&m; case I_MUL: return (a*b)&m;
  case I_UDIV: if(!b){bad=true;return 0;} return a/b; case I_UREM: if(!b){bad=true;return 0;} return a%b;
  case I_SDIV: { i64 x=sext64(a,w),y=sext64(b,w); if(!y){bad=true;return 0;} if(y==-1) return (0-a)&m; return (u64)(x/y)&m; }
  case I_SREM: { i64 x=sext64(a,w),y=sext64(b,w); if(!y){bad=true;return 0;} if(y==-1) return 0; return (u64)(x%y)&m; }
  case I_AND: return a&b; case I_OR: return a|b; case I_XOR: return a^b;
  case I_SHL: return b>=w?0:(a<<b)&m; case I_LSHR: return b>=w?0:a>>b; case I_ASHR: return (u64)(sext64(a,w)>>(b>=w?w-1:b))&m; }
  return 0;
}
static const u8 BOP[]={O_ADD,O_SUB,O_MUL,O_UDIV,O_SDIV,O_UREM,O_SREM,O_AND,O_OR,O_XOR,O_SHL,O_LSHR,O_ASHR};
static Ex cmpEx(int op,Ex a,Ex b){ switch(op){ case I_EQ: return mkCmp(O_EQ,a,b); case I_NE: return mkNot(mkCmp(O_EQ,a,b)); case I_ULT: return mkCmp(O_ULT,a,b); case I_ULE: return mkCmp(O_ULE,a,b); case I_UGT: return mkCmp(O_ULT,b,a); case I_UGE: return mkCmp(O_ULE,b,a); case I_SLT: return mkCmp(O_SLT,a,b); case I_SLE: return mkCmp(O_SLE,a,b); case I_SGT: return mkCmp(O_SLT,b,a); case I_SGE: return mkCmp(O_SLE,b,a); } fatal("cmp"); }
static bool cmp128(int op,u128 a,u128 b,unsigned w){ i128 x=sext128(a,w),y=sext128(b,w); switch(op){ case I_EQ: return a==b; case I_NE: return a!=b; case I_ULT: return a<b; case I_ULE: return a<=b; case I_UGT: return a>b; case I_UGE: return a>=b; case I_SLT: return x<y; case I_SLE: return x<=y; case I_SGT: return x>y; case I_SGE: return x>=y; } return false; }
static double asD(u64 v,unsigned w){ if(w==64){ double d; memcpy(&d,&v,8); return d; } float f; u32 x=v; memcpy(&f,&x,4); return f; }
static u64 fromD(double d,unsigned w){ if(w==64){ u64 v; memcpy(&v,&d,8); return v; } float f=(float)d; u32 x; memcpy(&x,&f,4); return x; }
static Ex fcmpEx(int p,Ex a,Ex b){
  Ex uno=mkFp(O_FUNO,a,b); Ex r;
  switch(p){ case 0: return mkConst(1,0); case 15: return mkConst(1,1); case 7: return mkNot(uno); case 8: return uno;
    case 1: return mkFp(O_FEQ,a,b); case 2: return mkFp(O_FLT,b,a); case 3: return mkFp(O_FLE,b,a); case 4: return mkFp(O_FLT,a,b); case 5: return mkFp(O_FLE,a,b); case 6: return mkBin(O_AND,mkNot(uno),mkNot(mkFp(O_FEQ,a,b)));
    case 9: r=mkFp(O_FEQ,a,b); break; case 10: r=mkFp(O_FLT,b,a); break; case 11: r=mkFp(O_FLE,b,a); break; case 12: r=mkFp(O_FLT,a,b); break; case 13: r=mkFp(O_FLE,a,b); break; case 14: return mkNot(mkFp(O_FEQ,a,b)); default: fatal("fcmp"); }
  return mkBin(O_OR,uno,r);
}
static bool fcmpC(int p,double a,double b){ bool u=std::isnan(a)||std::isnan(b); switch(p){ case 0: return false; case 15: return true; case 7: return !u; case 8: return u; case 1: return !u&&a==b; case 2: return !u&&a>b; case 3: return !u&&a>=b; case 4: return !u&&a<b; case 5: return !u&&a<=b; case 6: return !u&&a!=b; case 9: return u||a==b; case 10: return u||a>b; case 11: return u||a>=b; case 12: return u||a<b; case 13: return u||a<=b; case 14: return u||a!=b; } return false; }

static string gstr(u64 p,u64 n){ string s; if(n>2000) n=2000; for(u64 i=0;i<n;i++) s+=(char)byteAt(p+i); return s; }
static u32 newSym(unsigned w){ u32 k=poolUsed[w]++; while(varPool.size()<=w) varPool.emplace_back(); auto&p=varPool[w]; while(p.size()<=k){ mkVar(w); p.push_back(VARS.size()-1); growVars(); } symOrder.push_back(p[k]); return p[k]; }
static void symByte(u64 a){ u32 v=newSym(8); setByte(a,0,varNode(v)); }
static bool doCheck(Ex c,u32 id,const string&msg){
  SH->checks++; SH->checkCnt[id&255]++;
  if(isConst(c)){ if(N[c].imm) return true; violation("c"+std::to_string(id),msg,MODEL); killPath(); return false; }
  vector<u64> m; Res r=query(mkNot(c),m,true); SH->checksZ3++;
  if(r==UNK){ incomplete("solver gave no answer on check %u",id); return true; }
  if(r==SAT){ violation("c"+std::to_string(id),msg,m); vector<u64> m2; if(!((u64)evalExpr(c)&1)){ Res r2=query(c,m2); if(r2!=SAT){ killPath(); return false; } MODEL=m2; MODEL.resize(VARS.size(),0); modelChanged(); } }
  addCons(c); return true;
}
static bool doAssume(Ex c){
  if(isConst(c)){ if(!N[c].imm){ SH->assumeFail++; killPath(); return false; } return true; }
  if(!((u64)evalExpr(c)&1)){ vector<u64> m; Res r=query(c,m); if(r!=SAT){ if(r==UNK) incomplete("solver gave no answer on assume"); SH->assumeFail++; killPath(); return false; } MODEL=m; MODEL.resize(VARS.size(),0); modelChanged(); }
  addCons(c); return true;
}
static Ex byteOf(const Slot&s){ return mkNot(mkEqC(ex(s,8),0)); }
static void setRes(Slot*fp,i32 d,Slot s){ fp[d]=s; }
// returns false if the path ended
static bool doIntr(CallInfo&c,Slot*fp){
  auto A=[&](unsigned i)->Slot&{ return RR(fp,c.args[i]); };
  auto CV=[&](unsigned i)->u64{ Slot&s=A(i); return s.s? concretize(s.s): s.v; };
  unsigned w=c.w; Slot*D=fp+c.d;
  if(w>64&&w<=128){ // integers of two slots
    auto W=[&](unsigned i)->Ex{ Slot lo=A(2*i),hi=A(2*i+1); return wideEx(lo,hi,w); };
    auto out=[&](Ex r){ Slot lo=slotOf(mkExtract(r,0,64)),hi=slotOf(mkExtract(r,64,w-64)); D[0]=lo; D[1]=hi; return true; };
    Ex top1=mkConst(w,(u128)1<<(w-1)), max1=mkConst(w,((u128)1<<(w-1))-1);
    switch(c.intr){
    case N_UMIN: case N_UMAX: case N_SMIN: case N_SMAX: { Ex x=W(0),y=W(1); bool sg=c.intr==N_SMIN||c.intr==N_SMAX, mn=c.intr==N_UMIN||c.intr==N_SMIN; Ex lt=mkCmp(sg?O_SLT:O_ULT,x,y); return out(mn?mkIte(lt,x,y):mkIte(lt,y,x)); }
    case N_ABS: { Ex x=W(0); return out(mkIte(mkExtract(x,w-1,1),mkBin(O_SUB,mkConst(w,0),x),x)); }
    case N_UADDS: { Ex x=W(0),y=W(1); return out(mkIte(mkAddOvfU(x,y),mkConst(w,mask128(w)),mkBin(O_ADD,x,y))); }
    case N_USUBS: { Ex x=W(0),y=W(1); return out(mkIte(mkCmp(O_ULT,x,y),mkConst(w,0),mkBin(O_SUB,x,y))); }
    case N_SADDS: case N_SSUBS: { Ex x=W(0),y=W(1); bool add=c.intr==N_SADDS; Ex r=mkBin(add?O_ADD:O_SUB,x,y), o=add?mkAddOvfS(x,y):mkSubOvfS(x,y); return out(mkIte(o,mkIte(mkExtract(x,w-1,1),top1,max1),r)); }
    case N_CTPOP: return out(mkPopcount(W(0)));
    case N_BSWAP: return out(mkBswap(W(0)));
    case N_BITREV: return out(mkBitrev(W(0)));
    case N_CTTZ: return out(mkCtz(W(0)));
    case N_CTLZ: return out(mkClz(W(0)));
    case N_FSHL: case N_FSHR: { unsigned k=CV(4)%w; Ex a=W(0),b=W(1); if(!k) return out(c.intr==N_FSHL?a:b); if(c.intr==N_FSHR) k=w-k; return out(mkConcat(mkExtract(a,0,w-k),mkExtract(b,w-k,k))); }
    case N_SMULO: { Ex x=W(0),y=W(1),r=mkBin(O_MUL,x,y); Ex z=mkEqC(x,0), m1=mkCmp(O_EQ,x,mkConst(w,mask128(w)));
      Ex bad=mkIte(m1,mkCmp(O_EQ,y,top1),mkNot(mkCmp(O_EQ,mkBin(O_SDIV,r,mkIte(mkBin(O_OR,z,m1),mkConst(w,1),x)),y)));
      Slot lo=slotOf(mkExtract(r,0,64)),hi=slotOf(mkExtract(r,64,w-64)),o=slotOf(mkBin(O_AND,mkNot(z),bad)); D[0]=lo; D[1]=hi; D[2]=o; return true; }
    default: break;
    }
  }
  switch(c.intr){
  case N_NOP: return true;
  case N_MEMCPY: case N_MEMMOVE: case X_MEMCPYF: { u64 n=CV(2); u64 d=CV(0),s=CV(1); if(n){ if(memFault(d,n)||memFault(s,n)) return false; copyMem(d,s,n); } if(c.intr==X_MEMCPYF&&c.nret) *D=Slot{d,0,0}; return true; }
  case N_MEMSET: { u64 n=CV(2),d=CV(0); if(!n) return true; if(memFault(d,n)) return false; Slot v=A(1); for(u64 i=0;i<n;){ u64 a=d+i; u32 p=(a-BASE)>>PS; u64 ch=std::min<u64>(n-i,PSZ-(a&(PSZ-1))); if(!v.s&&!pgShadow[p]){ touch(p); memset((void*)a,(int)v.v,ch); } else for(u64 j=0;j<ch;j++) setByte(a+j,v.v,v.s); i+=ch; } return true; }
  case N_CTLZ: case N_CTTZ: { Slot&s=A(0); if(!s.s){ u64 r; if(!s.v) r=w; else r= c.intr==N_CTLZ? __builtin_clzll(s.v)-(64-w): __builtin_ctzll(s.v); *D=Slot{r,0,0}; return true; }
      u64 r=w; for(unsigned i=0;i<w;i++){ unsigned b= c.intr==N_CTTZ? i: w-1-i; if(decide(mkExtract(s.s,b,1))){ r=i; break; } } *D=Slot{r,0,0}; return true; }
  case N_CTPOP: { Slot&s=A(0); *D= s.s? slotOf(mkPopcount(s.s)): Slot{(u64)__builtin_popcountll(s.v),0,0}; return true; }
  case N_BSWAP: { Slot&s=A(0); if(s.s) *D=slotOf(mkBswap(s.s)); else *D=Slot{__builtin_bswap64(s.v)>>(64-w),0,0}; return true; }
  case N_BITREV: { Slot&s=A(0); *D=slotOf(mkBitrev(ex(s,w))); return true; }
  case N_FSHL: case N_FSHR: { u64 k=CV(2)%w; Slot&a=A(0),&b=A(1); if(c.intr==N_FSHR) k=(w-k)%w; // fshl by k ; fshr by s == fshl by w-s (s!=0), s==0 -> b
      if(c.intr==N_FSHR&&k==0){ *D=b; return true; } if(k==0){ *D=a; return true; }
      if(!a.s&&!b.s){ *D=Slot{((a.v<<k)|(b.v>>(w-k)))&mask64(w),0,0}; return true; }
      *D=slotOf(mkConcat(mkExtract(ex(a,w),0,w-k),mkExtract(ex(b,w),w-k,k))); return true; }
  case N_UADDO: case N_SADDO: case N_USUBO: case N_SSUBO: case N_UMULO: case N_SMULO: {
      if(w>64){ Slot a0=A(0),a1=A(1),b0=A(2),b1=A(3); Ex a=wideEx(a0,a1,w),b=wideEx(b0,b1,w); Ex r,o; switch(c.intr){ case N_UADDO: r=mkBin(O_ADD,a,b);o=mkAddOvfU(a,b);break; case N_SADDO: r=mkBin(O_ADD,a,b);o=mkAddOvfS(a,b);break; case N_USUBO: r=mkBin(O_SUB,a,b);o=mkSubOvfU(a,b);break; case N_SSUBO: r=mkBin(O_SUB,a,b);o=mkSubOvfS(a,b);break; case N_UMULO: r=mkBin(O_MUL,a,b);o=mkUmulOvf(a,b);break; default: fatal("smulo128"); } D[0]=slotOf(mkExtract(r,0,64)); D[1]=slotOf(mkExtract(r,64,w-64)); D[2]=slotOf(o); return true; }
      Slot a=A(0),b=A(1); if(!a.s&&!b.s){ i128 x=sext128(a.v,w),y=sext128(b.v,w); u128 ua=a.v,ub=b.v; u64 r; bool o; switch(c.intr){ case N_UADDO: r=(a.v+b.v)&mask64(w); o=(ua+ub)>>w; break; case N_USUBO: r=(a.v-b.v)&mask64(w); o=a.v<b.v; break; case N_UMULO: { u128 p=ua*ub; r=(u64)p&mask64(w); o=(p>>w)!=0; break; } default: { i128 p= c.intr==N_SADDO? x+y: c.intr==N_SSUBO? x-y: x*y; r=(u64)p&mask64(w); o= p!=sext128((u128)p&mask128(w),w); } } D[0]=Slot{r,0,0}; D[1]=Slot{o,0,0}; return true; }
      Ex x=ex(a,w),y=ex(b,w),r,o; switch(c.intr){ case N_UADDO: if(isConst(x)) std::swap(x,y); r=mkBin(O_ADD,x,y);o=mkAddOvfU(x,y);break; case N_SADDO: r=mkBin(O_ADD,x,y);o=mkAddOvfS(x,y);break; case N_USUBO: r=mkBin(O_SUB,x,y);o=mkSubOvfU(x,y);break; case N_SSUBO: r=mkBin(O_SUB,x,y);o=mkSubOvfS(x,y);break; case N_UMULO: r=mkBin(O_MUL,x,y);o=mkUmulOvf(x,y);break; default: r=mkBin(O_MUL,x,y);o=mkSmulOvf(x,y);break; }
      D[0]=slotOf(r); D[1]=slotOf(o); return true; }
  case N_UADDS: case N_USUBS: case N_SADDS: case N_SSUBS: { Slot a=A(0),b=A(1); Ex x=ex(a,w),y=ex(b,w); Ex mx=mkConst(w,mask128(w)); if(c.intr==N_UADDS) *D=slotOf(mkIte(mkAddOvfU(x,y),mx,mkBin(O_ADD,x,y))); else if(c.intr==N_USUBS) *D=slotOf(mkIte(mkCmp(O_ULT,x,y),mkConst(w,0),mkBin(O_SUB,x,y)));
      else { bool add=c.intr==N_SADDS; Ex r=mkBin(add?O_ADD:O_SUB,x,y), o=add?mkAddOvfS(x,y):mkSubOvfS(x,y); Ex sat=mkIte(mkExtract(x,w-1,1),mkConst(w,(u128)1<<(w-1)),mkConst(w,((u128)1<<(w-1))-1)); *D=slotOf(mkIte(o,sat,r)); } return true; }
  case N_UMIN: case N_UMAX: case N_SMIN: case N_SMAX: { if(w>64) { incomplete("wide minmax"); killPath(); return false; } Slot a=A(0),b=A(1); Ex x=ex(a,w),y=ex(b,w); bool s=c.intr==N_SMIN||c.intr==N_SMAX, mn=c.intr==N_UMIN||c.intr==N_SMIN; Ex lt=mkCmp(s?O_SLT:O_ULT,x,y); *D=slotOf(mn?mkIte(lt,x,y):mkIte(lt,y,x)); return true; }
  case N_ABS: { Slot a=A(0); Ex x=ex(a,w); *D=slotOf(mkIte(mkExtract(x,w-1,1),mkBin(O_SUB,mkConst(w,0),x),x)); return true; }
  case N_UCMP: case N_SCMP: { unsigned w2=c.w2; Ex x,y; if(w>64){ Slot a0=A(0),a1=A(1),b0=A(2),b1=A(3); x=wideEx(a0,a1,w); y=wideEx(b0,b1,w); } else { x=ex(A(0),w); y=ex(A(1),w); } u8 o=c.intr==N_UCMP?O_ULT:O_SLT; *D=slotOf(mkIte(mkCmp(o,x,y),mkConst(w2,mask64(w2)),mkIte(mkCmp(O_EQ,x,y),mkConst(w2,0),mkConst(w2,1)))); return true; }
  case N_FABS: { Slot a=A(0); if(!a.s) *D=Slot{a.v&~(1ull<<(w-1)),0,0}; else *D=slotOf(mkZext(mkExtract(a.s,0,w-1),w)); return true; }
  case N_FLOOR: *D=slotOf(mkUn(O_FLOOR,w,ex(A(0),w))); return true; case N_CEIL: *D=slotOf(mkUn(O_CEIL,w,ex(A(0),w))); return true;
  case N_FTRUNC: *D=slotOf(mkUn(O_FTRUNC,w,ex(A(0),w))); return true; case N_FROUND: *D=slotOf(mkUn(O_FROUND,w,ex(A(0),w))); return true; case N_FSQRT: *D=slotOf(mkUn(O_FSQRT,w,ex(A(0),w))); return true;
  case N_FPTOSISAT: case N_FPTOUISAT: *D=slotOf(mkFptoiSat(ex(A(0),w),c.w2,c.intr==N_FPTOSISAT)); return true;
  case N_REDOR: case N_REDAND: case N_REDADD: { Ex r=ex(A(0),w); for(size_t i=1;i<c.args.size();i++) r=mkBin(c.intr==N_REDOR?O_OR:c.intr==N_REDAND?O_AND:O_ADD,r,ex(A(i),w)); *D=slotOf(r); return true; }
  case N_TLSADDR: case N_EXPECT: *D=A(0); return true;
  case N_ISCONST: *D=Slot{0,0,0}; return true;
  case X_SYM: { unsigned b=CV(0); u32 v=newSym(b); *D=Slot{0,varNode(v),0}; if(b<64) *D=slotOf(mkZext(varNode(v),64)); return true; }
  case X_SYMBYTES: { u64 p=CV(0),n=CV(1); if(n&&memFault(p,n)) return false; for(u64 i=0;i<n;i++) symByte(p+i); return true; }
  case X_ASSUME: return doAssume(byteOf(A(0)));
  case X_CHECK: { u32 id=CV(1); return doCheck(byteOf(A(0)),id,gstr(CV(2),CV(3))); }
  case X_REACH: SH->reach[CV(0)&255]++; return true;
  case X_OBSERVE: obsList.push_back(A(0)); return true;
  case X_CONCRETE: *D=Slot{CV(0),0,0}; return true;
  case X_ISSYM: *D=Slot{1,0,0}; return true;
  case X_NOTE: curNote=gstr(CV(0),CV(1)); return true;
  case X_INSCOUNT: *D=Slot{insPath,0,0}; return true;
  case X_PARAM: { u64 i=CV(0); *D=Slot{i<PARAMS.size()?PARAMS[i]:0,0,0}; return true; }
  case X_MALLOC: { Slot&s=A(0); u64 n; if(s.s){ // over-allocate to the largest feasible size class
        n=concretize(s.s); } else n=s.v; *D=Slot{gmalloc(n,16),0,0}; return true; }
  case X_CALLOC: { u64 n=CV(0)*CV(1); u64 a=gmalloc(n,16); if(a&&n){ for(u64 i=0;i<n;){ u64 x=a+i; u32 p=(x-BASE)>>PS; u64 ch=std::min<u64>(n-i,PSZ-(x&(PSZ-1))); touch(p); memset((void*)x,0,ch); if(pgShadow[p]) memset(pgShadow[p]+(x&(PSZ-1)),0,ch*4); i+=ch; } } *D=Slot{a,0,0}; return true; }
  case X_REALLOC: { u64 p=CV(0),n=CV(1); if(!p){ *D=Slot{gmalloc(n,16),0,0}; return true; } u64 old=gsize(p); if(n<=old){ *D=Slot{p,0,0}; return true; } u64 a=gmalloc(n,16); if(a){ copyMem(a,p,old); gfree(p); } *D=Slot{a,0,0}; return true; }
  case X_FREE: gfree(CV(0)); return true;
  case X_MEMALIGN: { u64 pp=CV(0),al=CV(1),n=CV(2); u64 a=gmalloc(n,al); Slot s{a,0,0}; storeMem(pp,8,s,64); *D=Slot{0,0,0}; return true; }
  case X_MEMCMP: case X_BCMP: { u64 n=CV(2); u64 a=CV(0),b=CV(1); if(n&&(memFault(a,n)||memFault(b,n))) return false;
      if(c.intr==X_BCMP){ Ex all=mkConst(1,1); for(u64 i=0;i<n;i++){ Ex q=mkCmp(O_EQ,byteEx(a+i),byteEx(b+i)); if(isConst(q)){ if(!N[q].imm){ all=q; break; } continue; } all=mkBin(O_AND,all,q); } *D=slotOf(mkIte(all,mkConst(32,0),mkConst(32,1))); return true; }
      u64 stop=n; for(u64 i=0;i<n;i++){ Ex x=byteEx(a+i),y=byteEx(b+i); if(isConst(x)&&isConst(y)&&N[x].imm!=N[y].imm){ stop=i+1; break; } }
      Ex r=mkConst(32,0); for(u64 i=stop;i-->0;){ Ex x=byteEx(a+i),y=byteEx(b+i); r=mkIte(mkCmp(O_EQ,x,y),r,mkIte(mkCmp(O_ULT,x,y),mkConst(32,0xffffffff),mkConst(32,1))); } *D=slotOf(r); return true; }
  case X_STRLEN: { u64 a=CV(0),n=0; while(true){ if(memFault(a+n,1)) return false; Ex b=byteEx(a+n); if(isConst(b)){ if(!N[b].imm) break; } else if(decide(mkEqC(b,0))) break; n++; } *D=Slot{n,0,0}; return true; }
  case X_CLOCK: { u64 p=CV(1); Slot s{1700000000,0,0}, z{0,0,0}; storeMem(p,8,s,64); storeMem(p+8,8,z,64); *D=Slot{0,0,0}; return true; }
  case X_GETRANDOM: { u64 p=CV(0),n=CV(1); if(memFault(p,n)) return false; for(u64 i=0;i<n;i++) setByte(p+i,(u8)(0x5a+i*7),0); *D=Slot{n,0,0}; return true; }
  case X_KEYCREATE: { Slot s{1,0,0}; storeMem(CV(0),4,s,32); *D=Slot{0,0,0}; return true; }
  case X_ZERO: for(u32 i=0;i<c.nret;i++) D[i]=Slot{0,0,0}; return true;
  case X_ERRNO: *D=Slot{STACKBASE-64,0,0}; return true;
  case X_WRITE: *D=Slot{CV(2),0,0}; return true;
  case X_MINUS1: *D=Slot{0xffffffffull,0,0}; return true;
  case X_SYSCONF: *D=Slot{4096,0,0}; return true;
  case X_FMOD: *D=slotOf(mkFp(O_FREM,ex(A(0),64),ex(A(1),64))); return true;
  case N_TRAP: case X_PANIC: { SH->panics++; violation("panic",c.name,MODEL); killPath(); return false; }
  case X_UNSUPP: default: incomplete("unsupported external %s",c.name.c_str()); killPath(); return false;
  }
}
static Slot selectSlot(Ex c,const Slot&a,const Slot&b,unsigned w){ if(!a.s&&!b.s&&a.v==b.v) return a; return slotOf(mkIte(c,ex(a,w),ex(b,w))); }

static void takeEdge(Frame&fr,Slot*fp,u32 eid){
  Edge&e=EDG[eid]; COV[e.block]=1;
  size_t n=e.mv.size();
  if(n==1){ fp[e.mv[0].first]=RR(fp,e.mv[0].second); }
  else if(n){ Slot tmp[64]; vector<Slot> big; Slot*t=tmp; if(n>64){ big.resize(n); t=big.data(); } for(size_t i=0;i<n;i++) t[i]=RR(fp,e.mv[i].second); for(size_t i=0;i<n;i++) fp[e.mv[i].first]=t[i]; }
  fr.pc=e.target;
}
static void enter(u32 fi,i32 retAbs){
  Func&f=F[fi]; if(FR.size()>3000){ violation("stackoverflow","call depth",MODEL); killPath(); return; }
  if(stkTop+f.nslots+64>=STKMAX) fatal("interp stack");
  Frame fr; fr.f=fi; fr.pc=0; fr.base=stkTop; fr.ret=retAbs; fr.sp=allocaSp; stkTop+=f.nslots; FR.push_back(fr); COV[f.firstBlock]=1;
}
// runs until the path ends
static u64 tick=0;
static void runPath(){
  Frame*fr=&FR.back(); Slot*fp=STK+fr->base; Ins*code=F[fr->f].code.data();
  #define RELOAD() do{ fr=&FR.back(); fp=STK+fr->base; code=F[fr->f].code.data(); }while(0)
  while(true){
    Ins&I=code[fr->pc];
    if(++insPath>=insLimit){ SH->limitHits++; violation("hang","instruction limit on one path",MODEL); killPath(); return; }
    if((++tick&0xfffff)==0){ if(now()>deadline||SH->stop){ if(!SH->stop.exchange(1)) incomplete("time budget exhausted"); pathDead=true; return; } tryGive(); }
    switch(I.op){
    case I_NOP: break;
    case I_MOV: fp[I.d]=RR(fp,I.a); break;
#define CB(OPN,EXPR) case OPN: { Slot&a=RR(fp,I.a),&b=RR(fp,I.b); if(!(a.s|b.s)){ u64 x=a.v,y=b.v; Slot r{(EXPR),0,0}; fp[I.d]=r; } else fp[I.d]=slotOf(mkBin(BOP[OPN-I_ADD],ex(a,I.w),ex(b,I.w))); break; }
    CB(I_ADD,(x+y)&mask64(I.w)) CB(I_SUB,(x-y)&mask64(I.w)) CB(I_MUL,(x*y)&mask64(I.w)) CB(I_AND,x&y) CB(I_OR,x|y) CB(I_XOR,x^y)
    CB(I_SHL,y>=I.w?0:(x<<y)&mask64(I.w)) CB(I_LSHR,y>=I.w?0:x>>y)
    case I_ASHR: case I_UDIV: case I_SDIV: case I_UREM: case I_SREM: { Slot&a=RR(fp,I.a),&b=RR(fp,I.b); if(!(a.s|b.s)){ bool bad=false; u64 r=concBin(I.op,I.w,a.v,b.v,bad); if(bad){ violation("panic","division by zero",MODEL); killPath(); return; } fp[I.d]=Slot{r,0,0}; } else fp[I.d]=slotOf(mkBin(BOP[I.op-I_ADD],ex(a,I.w),ex(b,I.w))); break; }
#define CC(OPN,EXPR) case OPN: { Slot&a=RR(fp,I.a),&b=RR(fp,I.b); if(!(a.s|b.s)){ u64 x=a.v,y=b.v; Slot r{(u64)(EXPR),0,0}; fp[I.d]=r; } else fp[I.d]=slotOf(cmpEx(OPN,ex(a,I.w),ex(b,I.w))); break; }
    CC(I_EQ,x==y) CC(I_NE,x!=y) CC(I_ULT,x<y) CC(I_ULE,x<=y) CC(I_UGT,x>y) CC(I_UGE,x>=y)
    CC(I_SLT,sext64(x,I.w)<sext64(y,I.w)) CC(I_SLE,sext64(x,I.w)<=sext64(y,I.w)) CC(I_SGT,sext64(x,I.w)>sext64(y,I.w)) CC(I_SGE,sext64(x,I.w)>=sext64(y,I.w))
    case I_TRUNC: { Slot&a=RR(fp,I.a); if(!a.s) fp[I.d]=Slot{a.v&mask64(I.w2),0,0}; else fp[I.d]=slotOf(mkExtract(ex(a,I.w),0,I.w2)); break; }
    case I_ZEXT: { Slot&a=RR(fp,I.a); if(!a.s) fp[I.d]=a; else fp[I.d]=slotOf(mkZext(ex(a,I.w),I.w2)); break; }
    case I_SEXT: { Slot&a=RR(fp,I.a); if(!a.s) fp[I.d]=Slot{(u64)sext64(a.v,I.w)&mask64(I.w2),0,0}; else fp[I.d]=slotOf(mkSext(ex(a,I.w),I.w2)); break; }
    case I_SELECT: { Slot&c=RR(fp,I.a); if(!c.s) fp[I.d]= c.v&1? RR(fp,I.b):RR(fp,I.c); else { auto it=asserted.find(c.s); if(it!=asserted.end()) fp[I.d]= it->second? RR(fp,I.b):RR(fp,I.c); else fp[I.d]=selectSlot(c.s,RR(fp,I.b),RR(fp,I.c),I.w); } break; }
    case I_LOAD: { Slot&a=RR(fp,I.a); Slot r; if(a.s){ r=loadSym(a,I.imm,I.b,I.w); if(pathDead) return; } else { u64 ad=a.v+I.imm; if(__builtin_expect(!inMem(ad,I.b),0)){ memFault(ad,I.b); return; } r=loadMem(ad,I.b,I.w); } fp[I.d]=r; break; }
    case I_STORE: { Slot&a=RR(fp,I.a); u64 ad=(a.s?concretize(a.s):a.v)+I.imm; if(__builtin_expect(!inMem(ad,I.c),0)){ memFault(ad,I.c); return; } storeMem(ad,I.c,RR(fp,I.b),I.w); break; }
    case I_GEPC: { Slot&a=RR(fp,I.a); if(!a.s) fp[I.d]=Slot{a.v+I.imm,0,0}; else fp[I.d]=slotOf(mkBin(O_ADD,a.s,mkConst(64,I.imm))); break; }
    case I_GEP1: { Slot&a=RR(fp,I.a),&b=RR(fp,I.b); if(!(a.s|b.s)) fp[I.d]=Slot{a.v+b.v*(u64)I.c,0,0}; else fp[I.d]=slotOf(mkBin(O_ADD,mkBin(O_MUL,ex(b,64),mkConst(64,(u64)I.c)),ex(a,64))); break; }
    case I_GEPN: { GepInfo&g=GEPS[I.imm]; Slot&a=RR(fp,I.a); bool s=a.s; for(auto&t:g.terms) if(RR(fp,t.first).s) s=true; if(!s){ u64 r=a.v+g.base; for(size_t i=0;i<g.terms.size();i++) r+=(u64)sext64(RR(fp,g.terms[i].first).v,g.tw[i])*(u64)g.terms[i].second; fp[I.d]=Slot{r,0,0}; } else { Ex r=mkBin(O_ADD,ex(a,64),mkConst(64,g.base)); for(size_t i=0;i<g.terms.size();i++) r=mkBin(O_ADD,r,mkBin(O_MUL,mkSext(ex(RR(fp,g.terms[i].first),g.tw[i]),64),mkConst(64,g.terms[i].second))); fp[I.d]=slotOf(r); } break; }
    case I_ALLOCA: { u64 al=(u64)I.b; u64 n=RR(fp,I.a).v; allocaSp=(allocaSp+al-1)/al*al; fp[I.d]=Slot{allocaSp,0,0}; u64 sz=I.imm*n; allocaSp+=sz<16?16:sz; if(allocaSp>=STACKEND){ violation("stackoverflow","guest stack",MODEL); killPath(); return; } break; }
    case I_BR: takeEdge(*fr,fp,(u32)I.imm); continue;
    case I_CBR: { Slot&c=RR(fp,I.a); bool t; if(!c.s) t=c.v&1; else { t=decide(c.s); if(pathDead) return; } takeEdge(*fr,fp,t?(u32)(I.imm>>32):(u32)I.imm); continue; }
    case I_SWITCH: { SwitchInfo&s=SW[I.imm]; Slot&c=RR(fp,s.slot); u32 e; if(s.w>64){ Slot&h=RR(fp,s.hi); if(c.s||h.s){ Ex v=wideEx(c,h,s.w); e=s.defEdge; for(auto&kv:s.wide) if(decide(mkCmp(O_EQ,v,mkConst(s.w,kv.first)))){ e=kv.second; break; } if(pathDead) return; takeEdge(*fr,fp,e); continue; } auto it=s.wide.find(((u128)h.v<<64)|c.v); e= it==s.wide.end()? s.defEdge:it->second; takeEdge(*fr,fp,e); continue; } if(!c.s){ auto it=s.map.find(c.v); e= it==s.map.end()? s.defEdge:it->second; }
        else { auto kn=known.find(c.s); u64 v= kn!=known.end()? kn->second: (u64)evalExpr(c.s); auto it=s.map.find(v); e= it==s.map.end()? s.defEdge:it->second;
          if(kn==known.end()){ Ex cond; if(e!=s.defEdge){ cond=mkConst(1,0); for(size_t i=0;i<s.vals.size();i++) if(s.valEdge[i]==e) cond=mkBin(O_OR,cond,mkEqC(c.s,s.vals[i])); } else { cond=mkConst(1,1); for(size_t i=0;i<s.vals.size();i++) if(s.valEdge[i]!=e) cond=mkBin(O_AND,cond,mkNot(mkEqC(c.s,s.vals[i]))); }
            if(!decide(cond)) fatal("switch model"); } }
        takeEdge(*fr,fp,e); continue; }
    case I_RET: { vector<i32>&l=IDX[I.imm]; Frame f=*fr; Slot tmp[32]; if(l.size()>32) fatal("ret"); for(size_t i=0;i<l.size();i++) tmp[i]=RR(fp,l[i]); allocaSp=f.sp; stkTop=f.base; FR.pop_back(); if(FR.empty()){ endPath(); pathDead=true; return; } for(size_t i=0;i<l.size();i++) STK[f.ret+i]=tmp[i]; RELOAD(); fr->pc++; continue; }
    case I_CALL: { CallInfo&c=CALLS[I.imm]; if(c.intr){ if(!doIntr(c,fp)){ if(!pathDead) killPath(); return; } if(pathDead) return; RELOAD(); break; }
        i32 fi=c.func; if(fi<0){ u64 a=addrOf(RR(fp,c.slot)); if(a<FUNCBASE||(a-FUNCBASE)/16>=F.size()||(a&15)){ memFault(a,1); if(!pathDead) killPath(); return; } fi=(a-FUNCBASE)/16; if(F[fi].intr){ CallInfo k=c; k.intr=F[fi].intr; k.name=F[fi].name; k.w=64; if(!doIntr(k,fp)){ if(!pathDead) killPath(); return; } if(pathDead) return; RELOAD(); break; } }
        Func&f=F[fi]; if(!f.translated) fatal("untranslated %s",f.name.c_str()); u32 base=stkTop; for(size_t i=0;i<c.args.size()&&i<f.nargs;i++) STK[base+i]=RR(fp,c.args[i]);
        enter(fi,fr->base+c.d); if(pathDead) return; RELOAD(); continue; }
    case I_UNREACH: violation("unreachable","unreachable instruction executed",MODEL); SH->panics++; killPath(); return;
    case I_WBIN: { Slot a0=RR(fp,I.a),a1=RR(fp,Tr::at(I.a,1)),b0=RR(fp,I.b),b1=RR(fp,Tr::at(I.b,1)); Ex r=mkBin(BOP[I.imm-I_ADD],wideEx(a0,a1,I.w),wideEx(b0,b1,I.w)); fp[I.d]=slotOf(mkExtract(r,0,64)); fp[I.d+1]=slotOf(mkExtract(r,64,I.w-64)); break; }
    case I_WCMP: { Slot a0=RR(fp,I.a),a1=RR(fp,Tr::at(I.a,1)),b0=RR(fp,I.b),b1=RR(fp,Tr::at(I.b,1)); if(!(a0.s|a1.s|b0.s|b1.s)) fp[I.d]=Slot{cmp128(I.imm,wide(&a0,&a1),wide(&b0,&b1),I.w),0,0}; else fp[I.d]=slotOf(cmpEx(I.imm,wideEx(a0,a1,I.w),wideEx(b0,b1,I.w))); break; }
    case I_WCAST: { Ex s; if(I.w>64){ Slot a0=RR(fp,I.a),a1=RR(fp,Tr::at(I.a,1)); s=wideEx(a0,a1,I.w); } else s=ex(RR(fp,I.a),I.w); Ex r= I.imm==2? mkSext(s,I.w2): I.imm==1? mkZext(s,I.w2): mkExtract(s,0,I.w2); if(I.w2>64){ fp[I.d]=slotOf(mkExtract(r,0,64)); fp[I.d+1]=slotOf(mkExtract(r,64,I.w2-64)); } else fp[I.d]=slotOf(r); break; }
    case I_BITCAST: { BcInfo&b=BCS[I.imm]; // gather pieces (source value, bit offset)
        unsigned sw=b.src[0].second, dw=b.dst[0].second; vector<Slot> src; for(auto&p:b.src) src.push_back(RR(fp,p.first));
        if(sw<=dw){ unsigned per=dw/sw; for(size_t i=0;i<b.dst.size();i++){ bool sym=false; for(unsigned j=0;j<per;j++) if(src[i*per+j].s) sym=true; if(!sym){ u64 r=0; for(unsigned j=0;j<per;j++) r|=src[i*per+j].v<<(j*sw); fp[b.dst[i].first]=Slot{r,0,0}; } else { Ex e=ex(src[i*per],sw); for(unsigned j=1;j<per;j++) e=mkConcat(ex(src[i*per+j],sw),e); fp[b.dst[i].first]=slotOf(e); } } }
        else { unsigned per=sw/dw; for(size_t i=0;i<b.dst.size();i++){ Slot&s=src[i/per]; unsigned off=(i%per)*dw; if(!s.s) fp[b.dst[i].first]=Slot{(s.v>>off)&mask64(dw),0,0}; else fp[b.dst[i].first]=slotOf(mkExtract(ex(s,sw),off,dw)); } }
        break; }
    case I_FBIN: { Slot&a=RR(fp,I.a),&b=RR(fp,I.b); fp[I.d]=slotOf(mkFp(I.imm,ex(a,I.w),ex(b,I.w))); break; }
    case I_FCMP: { Slot&a=RR(fp,I.a),&b=RR(fp,I.b); if(!(a.s|b.s)) fp[I.d]=Slot{fcmpC(I.imm,asD(a.v,I.w),asD(b.v,I.w)),0,0}; else fp[I.d]=slotOf(fcmpEx(I.imm,ex(a,I.w),ex(b,I.w))); break; }
    case I_FNEG: { Slot&a=RR(fp,I.a); u64 sb=1ull<<(I.w-1); if(!a.s) fp[I.d]=Slot{a.v^sb,0,0}; else fp[I.d]=slotOf(mkBin(O_XOR,a.s,mkConst(I.w,sb))); break; }
    case I_FCAST: { Slot&a=RR(fp,I.a); fp[I.d]=slotOf(mkUn(I.imm,I.w2,ex(a,I.w))); break; }
    case I_XELEM: { vector<i32>&l=IDX[I.imm]; u64 i=addrOf(RR(fp,I.a)); fp[I.d]= i<l.size()? RR(fp,l[i]):Slot{0,0,0}; break; }
    case I_IELEM: { u64 i=addrOf(RR(fp,I.a)); if(i<(u64)I.c) fp[I.d+i]=RR(fp,I.b); break; }
    case I_RMW: { u64 a=addrOf(RR(fp,I.a)); if(memFault(a,I.c)) return; Slot old=loadMem(a,I.c,I.w), x=RR(fp,I.b); Slot nw; Ex o=ex(old,I.w),y=ex(x,I.w); switch(I.imm){ case 0: nw=x; break; case 1: nw=slotOf(mkBin(O_ADD,o,y)); break; case 2: nw=slotOf(mkBin(O_SUB,o,y)); break; case 3: nw=slotOf(mkBin(O_AND,o,y)); break; case 5: nw=slotOf(mkBin(O_OR,o,y)); break; case 6: nw=slotOf(mkBin(O_XOR,o,y)); break; case 7: nw=slotOf(mkIte(mkCmp(O_SLT,o,y),y,o)); break; case 8: nw=slotOf(mkIte(mkCmp(O_SLT,o,y),o,y)); break; case 9: nw=slotOf(mkIte(mkCmp(O_ULT,o,y),y,o)); break; case 10: nw=slotOf(mkIte(mkCmp(O_ULT,o,y),o,y)); break; default: incomplete("rmw"); killPath(); return; } storeMem(a,I.c,nw,I.w); fp[I.d]=old; break; }
    case I_CMPXCHG: { u64 a=addrOf(RR(fp,I.a)); unsigned nb=I.imm; if(memFault(a,nb)) return; Slot old=loadMem(a,nb,I.w); Ex eq=mkCmp(O_EQ,ex(old,I.w),ex(RR(fp,I.b),I.w)); bool t=decide(eq); if(t) storeMem(a,nb,RR(fp,I.c),I.w); fp[I.d]=old; fp[I.d+1]=Slot{t,0,0}; break; }
    case I_BAD: incomplete("unsupported instruction: %s",Tr::badMsgs[I.imm].c_str()); killPath(); return;
    default: fatal("op %d",I.op);
    }
    if(pathDead) return;
    fr->pc++;
  }
}
static bool backtrack(){
  while(!CPS.empty()){
    Checkpoint*c=CPS.back();
    if(c->given){ restoreTo(c->jlen); undoTo(c->ulen); CPS.pop_back(); delete c; continue; }
    restoreCp(c); MODEL=c->altModel; MODEL.resize(VARS.size(),0); modelChanged(); Ex a=c->altC; size_t ol=c->obs; obsList.resize(ol); CPS.pop_back(); delete c; if(CPS.empty()){ journaling=false; for(auto&s:journal){ freeData.push_back(s.data); if(s.sh) freeSh.push_back(s.sh); } journal.clear(); }
    addCons(a); return true;
  }
  return false;
}
static void exploreAll(){
  while(true){ u64 i0=tick; runPath(); SH->ins+=tick-i0; if(SH->stop) break; if(!backtrack()) break; }
}
void childLoop(){
  exploreAll();
  GL->tokens++;
  for(pid_t k:kids){ int st; while(waitpid(k,&st,0)<0&&errno==EINTR); if(!WIFEXITED(st)||WEXITSTATUS(st)) SH->crash++; }
  fflush(0); _exit(0);
}
static void startEntry(const string&e){ for(u32 i=0;i<F.size();i++) if(F[i].name==e){ enter(i,0); return; } fatal("entry"); }
static void writeSummary(const string&entry,double tload,double trun){
  FILE*f=stdout; if(!outDir.empty()){ f=fopen((outDir+"/summary.json").c_str(),"w"); if(!f) fatal("summary"); }
  std::set<u32> fs; std::set<u32> ls; for(size_t i=0;i<BLKS.size();i++) if(COV[i]){ fs.insert(BLKS[i].func); for(u32 l:BLKS[i].lines) ls.insert(l); }
  fprintf(f,"{\"entry\":\"%s\",\"load_s\":%.2f,\"run_s\":%.2f,\"paths\":%llu,\"dead_paths\":%llu,\"forks\":%llu,\"instructions\":%llu,\"checks\":%llu,\"violations\":%llu,\"panics\":%llu,\"incomplete\":%llu,\"inc_reason\":\"%s\",\"crash\":%llu,\"procs\":%llu,",entry.c_str(),tload,trun,(unsigned long long)SH->paths,(unsigned long long)SH->dead,(unsigned long long)SH->forks,(unsigned long long)SH->ins,(unsigned long long)SH->checks,(unsigned long long)SH->violations,(unsigned long long)SH->panics,(unsigned long long)SH->incomplete,jesc(SH->incReason).c_str(),(unsigned long long)SH->crash,(unsigned long long)SH->procs);
  fprintf(f,"\"q_domain\":%llu,\"q_audit\":%llu,\"checks_z3\":%llu,\"q_cache\":%llu,\"q_model\":%llu,\"q_z3\":%llu,\"q_z3_sat\":%llu,\"q_z3_unsat\":%llu,\"q_unknown\":%llu,\"z3_s\":%.3f,\"z3_max_ms\":%.1f,\"max_constraints\":%llu,\"concretize\":%llu,\"table_loads\":%llu,\"assume_fail\":%llu,",(unsigned long long)SH->qDom,(unsigned long long)SH->qAudit,(unsigned long long)SH->checksZ3,(unsigned long long)SH->qCache,(unsigned long long)SH->qModel,(unsigned long long)SH->qZ3,(unsigned long long)SH->qZ3sat,(unsigned long long)SH->qZ3unsat,(unsigned long long)SH->qUnknown,SH->z3us/1e6,SH->maxZ3us/1e3,(unsigned long long)SH->maxCons,(unsigned long long)SH->concretize,(unsigned long long)SH->tableLoads,(unsigned long long)SH->assumeFail);
  fprintf(f,"\"reach\":{"); bool first=true; for(int i=0;i<256;i++) if(SH->reach[i]){ fprintf(f,"%s\"%d\":%llu",first?"":",",i,(unsigned long long)SH->reach[i]); first=false; }
  fprintf(f,"},\"check_counts\":{"); first=true; for(int i=0;i<256;i++) if(SH->checkCnt[i]){ fprintf(f,"%s\"%d\":%llu",first?"":",",i,(unsigned long long)SH->checkCnt[i]); first=false; }
  fprintf(f,"},\"functions\":["); first=true; for(u32 i:fs){ fprintf(f,"%s\"%s\"",first?"":",",jesc(F[i].name).c_str()); first=false; }
  fprintf(f,"],\"lines\":["); first=true; for(u32 i:ls){ fprintf(f,"%s\"%s\"",first?"":",",jesc(LINES[i]).c_str()); first=false; }
  fprintf(f,"]}\n"); if(f!=stdout) fclose(f);
}
