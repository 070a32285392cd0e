// Translation of LLVM IR into the flat instruction format (included by engine.cpp)
extern "C" { const char*LLVMGetRawDataValues(LLVMValueRef c,size_t*n); LLVMValueRef LLVMGetSwitchCaseValue(LLVMValueRef s,unsigned i); }
static LLVMModuleRef MOD; static LLVMTargetDataRef TD;
static std::unordered_map<LLVMValueRef,u32> funcIdx; static std::unordered_map<LLVMValueRef,u64> globalAddr;
static string vname(LLVMValueRef v){ size_t n; const char*s=LLVMGetValueName2(v,&n); return string(s,n); }
static unsigned bitsOf(LLVMTypeRef t){ switch(LLVMGetTypeKind(t)){ case LLVMIntegerTypeKind: return LLVMGetIntTypeWidth(t); case LLVMPointerTypeKind: return 64; case LLVMDoubleTypeKind: return 64; case LLVMFloatTypeKind: return 32; case LLVMHalfTypeKind: return 16; default: return 0; } }
struct Leaf { u64 off; unsigned w; }; // one slot each; wide ints become 64-bit pieces
static bool leaves(LLVMTypeRef t,u64 off,vector<Leaf>&out){
  switch(LLVMGetTypeKind(t)){
  case LLVMVoidTypeKind: return true;
  case LLVMIntegerTypeKind: { unsigned w=LLVMGetIntTypeWidth(t); if(w<=64){ out.push_back({off,w}); return true; } if(w>128) { for(unsigned i=0;i<w;i+=64) out.push_back({off+i/8,64}); return true; } out.push_back({off,64}); out.push_back({off+8,w-64}); return true; }
  case LLVMPointerTypeKind: case LLVMDoubleTypeKind: out.push_back({off,64}); return true;
  case LLVMFloatTypeKind: out.push_back({off,32}); return true;
  case LLVMHalfTypeKind: out.push_back({off,16}); return true;
  case LLVMStructTypeKind: { unsigned n=LLVMCountStructElementTypes(t); for(unsigned i=0;i<n;i++) if(!leaves(LLVMStructGetTypeAtIndex(t,i),off+LLVMOffsetOfElement(TD,t,i),out)) return false; return true; }
  case LLVMArrayTypeKind: { u64 n=LLVMGetArrayLength2(t); LLVMTypeRef e=LLVMGetElementType(t); u64 sz=LLVMABISizeOfType(TD,e); if(n>4096) return false; for(u64 i=0;i<n;i++) if(!leaves(e,off+i*sz,out)) return false; return true; }
  case LLVMVectorTypeKind: { unsigned n=LLVMGetVectorSize(t); LLVMTypeRef e=LLVMGetElementType(t); unsigned b=bitsOf(e); for(unsigned i=0;i<n;i++){ if(b>=8||n==1) { if(!leaves(e,off+(u64)i*b/8,out)) return false; } else out.push_back({off,b}); } return true; }
  default: return false; } }
static unsigned nslots(LLVMTypeRef t){ vector<Leaf> l; if(!leaves(t,0,l)) return 1; return l.size(); }
static u128 bigConst(LLVMValueRef v){ char*s=LLVMPrintValueToString(v); string t=s; LLVMDisposeMessage(s); size_t p=t.rfind(' '); t=t.substr(p+1); bool neg=t[0]=='-'; u128 r=0; for(char c:t) if(c>='0'&&c<='9') r=r*10+(c-'0'); if(t=="true") r=1; return neg?(u128)-(i128)r:r; }
static u64 fpBits(LLVMValueRef v,unsigned w){ LLVMBool lose; double d=LLVMConstRealGetDouble(v,&lose); if(w==64){ u64 x; memcpy(&x,&d,8); return x; } float f=(float)d; u32 x; memcpy(&x,&f,4); return x; }
static u64 constAddr(LLVMValueRef v);
// flatten a constant into slot values
static void flatConst(LLVMValueRef v,vector<u64>&out){
  LLVMTypeRef t=LLVMTypeOf(v); LLVMTypeKind k=LLVMGetTypeKind(t);
  if(LLVMIsUndef(v)||LLVMIsPoison(v)||LLVMIsAConstantAggregateZero(v)||LLVMIsAConstantPointerNull(v)){ unsigned n=nslots(t); for(unsigned i=0;i<n;i++) out.push_back(0); return; }
  if(LLVMIsAConstantInt(v)){ if(k==LLVMVectorTypeKind){ unsigned n=LLVMGetVectorSize(t); u128 x=bigConst(v); char*s=LLVMPrintValueToString(v); string str=s; LLVMDisposeMessage(s); size_t p=str.rfind('('); if(p!=string::npos){ string u=str.substr(p+1); size_t q=u.rfind(' '); u=u.substr(q+1); bool neg=u[0]=='-'; x=0; for(char c:u) if(isdigit(c)) x=x*10+(c-'0'); if(u.substr(0,4)=="true") x=1; if(neg) x=-x; } unsigned b=bitsOf(LLVMGetElementType(t)); for(unsigned i=0;i<n;i++) out.push_back((u64)x&mask64(b)); return; }
    unsigned w=LLVMGetIntTypeWidth(t); if(w<=64){ out.push_back(LLVMConstIntGetZExtValue(v)&mask64(w)); return; } u128 x=bigConst(v); out.push_back((u64)x); out.push_back((u64)(x>>64)&mask64(w-64)); return; }
  if(LLVMIsAConstantFP(v)){ out.push_back(fpBits(v,bitsOf(t))); return; }
  if(k==LLVMPointerTypeKind||LLVMIsAConstantExpr(v)){ if(k==LLVMIntegerTypeKind||k==LLVMPointerTypeKind){ u64 x=constAddr(v); out.push_back(k==LLVMIntegerTypeKind? x&mask64(bitsOf(t)):x); return; } fatal("constexpr type"); }
  if(k==LLVMStructTypeKind||k==LLVMArrayTypeKind||k==LLVMVectorTypeKind){ u64 n= k==LLVMStructTypeKind?LLVMCountStructElementTypes(t): k==LLVMArrayTypeKind?LLVMGetArrayLength2(t):LLVMGetVectorSize(t); for(u64 i=0;i<n;i++){ LLVMValueRef e=LLVMGetAggregateElement(v,i); if(!e){ char*s=LLVMPrintValueToString(v); fatal("aggregate element %s",s); } flatConst(e,out); } return; }
  char*s=LLVMPrintValueToString(v); fatal("constant %s",s);
}
static u64 constAddr(LLVMValueRef v){
  if(LLVMIsAConstantPointerNull(v)||LLVMIsUndef(v)||LLVMIsPoison(v)) return 0;
  if(LLVMIsAFunction(v)) return FUNCBASE+16ull*funcIdx.at(v);
  if(LLVMIsAGlobalVariable(v)) return globalAddr.at(v);
  if(LLVMIsAGlobalAlias(v)) return constAddr(LLVMAliasGetAliasee(v));
  if(LLVMIsAConstantInt(v)) return LLVMConstIntGetZExtValue(v);
  if(LLVMIsAConstantExpr(v)){
    switch(LLVMGetConstOpcode(v)){
    case LLVMPtrToInt: case LLVMIntToPtr: case LLVMBitCast: case LLVMAddrSpaceCast: case LLVMTrunc: return constAddr(LLVMGetOperand(v,0));
    case LLVMAdd: return constAddr(LLVMGetOperand(v,0))+constAddr(LLVMGetOperand(v,1));
    case LLVMSub: return constAddr(LLVMGetOperand(v,0))-constAddr(LLVMGetOperand(v,1));
    case LLVMGetElementPtr: { u64 a=constAddr(LLVMGetOperand(v,0)); LLVMTypeRef t=LLVMGetGEPSourceElementType(v); int n=LLVMGetNumOperands(v);
        for(int i=1;i<n;i++){ i64 ix=LLVMConstIntGetSExtValue(LLVMGetOperand(v,i)); if(i==1) a+=ix*(i64)LLVMABISizeOfType(TD,t); else { LLVMTypeKind k=LLVMGetTypeKind(t); if(k==LLVMStructTypeKind){ a+=LLVMOffsetOfElement(TD,t,ix); t=LLVMStructGetTypeAtIndex(t,ix); } else { t=LLVMGetElementType(t); a+=ix*(i64)LLVMABISizeOfType(TD,t); } } }
        return a; }
    default: break; } }
  char*s=LLVMPrintValueToString(v); fatal("constAddr %s",s);
}
static void initMem(LLVMValueRef v,u64 a){
  LLVMTypeRef t=LLVMTypeOf(v); LLVMTypeKind k=LLVMGetTypeKind(t);
  if(LLVMIsUndef(v)||LLVMIsPoison(v)||LLVMIsAConstantAggregateZero(v)) return;
  if(k==LLVMArrayTypeKind&&LLVMIsAConstantDataArray(v)){ size_t n; const char*s; LLVMTypeRef e=LLVMGetElementType(t); s=LLVMGetRawDataValues(v,&n); (void)e; memcpy((void*)a,s,n); return; }
  if(k==LLVMStructTypeKind){ unsigned n=LLVMCountStructElementTypes(t); for(unsigned i=0;i<n;i++) initMem(LLVMGetAggregateElement(v,i),a+LLVMOffsetOfElement(TD,t,i)); return; }
  if(k==LLVMArrayTypeKind){ u64 n=LLVMGetArrayLength2(t),sz=LLVMABISizeOfType(TD,LLVMGetElementType(t)); for(u64 i=0;i<n;i++) initMem(LLVMGetAggregateElement(v,i),a+i*sz); return; }
  vector<Leaf> l; leaves(t,0,l); vector<u64> x; flatConst(v,x); for(size_t i=0;i<l.size();i++) memcpy((void*)(a+l[i].off),&x[i],(l[i].w+7)/8);
}
// ---- intrinsics
enum { N_NONE=0,N_MEMCPY,N_MEMMOVE,N_MEMSET,N_NOP,N_CTLZ,N_CTTZ,N_CTPOP,N_BSWAP,N_BITREV,N_FSHL,N_FSHR,N_UADDO,N_SADDO,N_USUBO,N_SSUBO,N_UMULO,N_SMULO,N_UADDS,N_USUBS,N_SADDS,N_SSUBS,N_UMIN,N_UMAX,N_SMIN,N_SMAX,N_ABS,N_UCMP,N_SCMP,N_FABS,N_FLOOR,N_CEIL,N_FTRUNC,N_FROUND,N_FSQRT,N_FPTOSISAT,N_FPTOUISAT,N_REDOR,N_REDAND,N_REDADD,N_TLSADDR,N_ISCONST,N_TRAP,N_EXPECT,N_FMULADD,
  X_SYM,X_SYMBYTES,X_ASSUME,X_CHECK,X_REACH,X_OBSERVE,X_CONCRETE,X_ISSYM,X_NOTE,X_SETLIMIT,X_SAVEINS,X_INSCOUNT,
  X_MALLOC,X_CALLOC,X_REALLOC,X_FREE,X_MEMALIGN,X_MEMCMP,X_BCMP,X_STRLEN,X_MEMCPYF,X_CLOCK,X_GETRANDOM,X_KEYCREATE,X_ZERO,X_ERRNO,X_WRITE,X_PANIC,X_SYSCONF,X_MINUS1,X_FMOD,X_PARAM,X_UNSUPP };
static int intrinsicOf(const string&n){
  auto st=[&](const char*p){ return n.compare(0,strlen(p),p)==0; };
  if(st("llvm.")){
    static const std::pair<const char*,int> T[]={ {"llvm.memcpy",N_MEMCPY},{"llvm.memmove",N_MEMMOVE},{"llvm.memset",N_MEMSET},{"llvm.lifetime",N_NOP},{"llvm.assume",N_NOP},{"llvm.experimental.noalias",N_NOP},{"llvm.prefetch",N_NOP},{"llvm.dbg",N_NOP},{"llvm.x86.sse2.pause",N_NOP},{"llvm.donothing",N_NOP},{"llvm.ctlz",N_CTLZ},{"llvm.cttz",N_CTTZ},{"llvm.ctpop",N_CTPOP},{"llvm.bswap",N_BSWAP},{"llvm.bitreverse",N_BITREV},{"llvm.fshl",N_FSHL},{"llvm.fshr",N_FSHR},
      {"llvm.uadd.with",N_UADDO},{"llvm.sadd.with",N_SADDO},{"llvm.usub.with",N_USUBO},{"llvm.ssub.with",N_SSUBO},{"llvm.umul.with",N_UMULO},{"llvm.smul.with",N_SMULO},{"llvm.uadd.sat",N_UADDS},{"llvm.usub.sat",N_USUBS},{"llvm.sadd.sat",N_SADDS},{"llvm.ssub.sat",N_SSUBS},{"llvm.umin",N_UMIN},{"llvm.umax",N_UMAX},{"llvm.smin",N_SMIN},{"llvm.smax",N_SMAX},{"llvm.abs",N_ABS},{"llvm.ucmp",N_UCMP},{"llvm.scmp",N_SCMP},{"llvm.fabs",N_FABS},{"llvm.floor",N_FLOOR},{"llvm.ceil",N_CEIL},{"llvm.trunc",N_FTRUNC},{"llvm.round.",N_FROUND},{"llvm.sqrt",N_FSQRT},{"llvm.fptosi.sat",N_FPTOSISAT},{"llvm.fptoui.sat",N_FPTOUISAT},{"llvm.vector.reduce.or",N_REDOR},{"llvm.vector.reduce.and",N_REDAND},{"llvm.vector.reduce.add",N_REDADD},{"llvm.threadlocal.address",N_TLSADDR},{"llvm.is.constant",N_ISCONST},{"llvm.trap",N_TRAP},{"llvm.expect",N_EXPECT} };
    for(auto&p:T) if(st(p.first)) return p.second;
    return X_UNSUPP; }
  static const std::map<string,int> X={ {"vf_sym",X_SYM},{"vf_sym_bytes",X_SYMBYTES},{"vf_assume",X_ASSUME},{"vf_check",X_CHECK},{"vf_reach",X_REACH},{"vf_observe",X_OBSERVE},{"vf_concrete",X_CONCRETE},{"vf_is_symbolic",X_ISSYM},{"vf_note",X_NOTE},{"vf_ins_count",X_INSCOUNT},{"vf_param",X_PARAM},
    {"malloc",X_MALLOC},{"calloc",X_CALLOC},{"realloc",X_REALLOC},{"free",X_FREE},{"posix_memalign",X_MEMALIGN},{"memcmp",X_MEMCMP},{"bcmp",X_BCMP},{"strlen",X_STRLEN},{"memcpy",X_MEMCPYF},{"memmove",X_MEMCPYF},{"clock_gettime",X_CLOCK},{"getrandom",X_GETRANDOM},{"__cxa_thread_atexit_impl",X_ZERO},{"getenv",X_ZERO},{"pthread_key_create",X_KEYCREATE},{"pthread_getspecific",X_ZERO},{"pthread_key_delete",X_ZERO},{"pthread_setspecific",X_ZERO},{"pthread_self",X_ZERO},{"gettid",X_ZERO},{"__errno_location",X_ERRNO},{"write",X_WRITE},{"writev",X_WRITE},{"abort",X_PANIC},{"sysconf",X_SYSCONF},{"open64",X_MINUS1},{"open",X_MINUS1},{"sched_getaffinity",X_MINUS1},{"fmod",X_FMOD} };
  auto it=X.find(n); if(it!=X.end()) return it->second;
  return 0;
}
static bool isPanicFn(const string&n){
  auto has=[&](const char*p){ return n.find(p)!=string::npos; };
  return has("4core9panicking9panic_fmt")||has("9panicking18panic_nounwind_fmt")||has("5alloc18handle_alloc_error")||has("rust_begin_unwind")||has("3std9panicking11begin_panic")||has("3std7process5abort")||has("9panicking5panic")&&n.size()&&has("4core9panickingNE")||has("___rust_start_panic")||has("rust_panic_with_hook");
}
struct Tr {
  Func&f; std::unordered_map<LLVMValueRef,i32> slot; u32 next=0; std::unordered_map<LLVMBasicBlockRef,u32> bstart; std::unordered_map<LLVMBasicBlockRef,u32> bid; vector<std::pair<u32,LLVMBasicBlockRef>> fixEdges;
  static std::unordered_map<string,i32> kpool;
  Tr(Func&f):f(f){}
  static i32 kslots(const vector<u64>&v){ string key((const char*)v.data(),v.size()*8); auto it=kpool.find(key); if(it!=kpool.end()) return it->second; i32 id=~(i32)(K.size()+v.size()-1); // contiguous: base index b -> ~b ; element i at index (~base)+i
    id=~(i32)K.size(); for(u64 x:v) K.push_back({x,0,0}); kpool[key]=id; return id; }
  // slot index of element i of operand o
  static i32 at(i32 o,unsigned i){ return o>=0? o+(i32)i : ~((~o)+(i32)i); }
  i32 val(LLVMValueRef v){ auto it=slot.find(v); if(it!=slot.end()) return it->second; if(LLVMIsAConstant(v)){ vector<u64> x; flatConst(v,x); if(x.empty()) x.push_back(0); return kslots(x); } 
    if(LLVMIsAInlineAsm(v)||LLVMGetTypeKind(LLVMTypeOf(v))==LLVMMetadataTypeKind) return kslots({0}); char*s=LLVMPrintValueToString(v); fatal("val %s in %s",s,f.name.c_str()); }
  Ins& emit(u16 op,u8 w,i32 d,i32 a,i32 b,i32 c=0,u64 imm=0){ Ins i; i.op=op;i.w=w;i.w2=0;i.d=d;i.a=a;i.b=b;i.c=c;i.imm=imm; f.code.push_back(i); return f.code.back(); }
  u32 edge(LLVMBasicBlockRef from,LLVMBasicBlockRef to){ Edge e; e.target=0; e.block=bid[to];
    for(LLVMValueRef i=LLVMGetFirstInstruction(to);i&&LLVMIsAPHINode(i);i=LLVMGetNextInstruction(i)){ unsigned n=LLVMCountIncoming(i); unsigned k; for(k=0;k<n;k++) if(LLVMGetIncomingBlock(i,k)==from) break; if(k==n) fatal("phi"); i32 s=val(LLVMGetIncomingValue(i,k)), d=slot[i]; unsigned ns=nslots(LLVMTypeOf(i)); for(unsigned q=0;q<ns;q++) e.mv.push_back({d+(i32)q,at(s,q)}); }
    u32 id=EDG.size(); EDG.push_back(e); fixEdges.push_back({id,to}); return id; }
  static unsigned elemBits(LLVMTypeRef t){ return LLVMGetTypeKind(t)==LLVMVectorTypeKind? bitsOf(LLVMGetElementType(t)):bitsOf(t); }
  static unsigned lanes(LLVMTypeRef t){ return LLVMGetTypeKind(t)==LLVMVectorTypeKind? LLVMGetVectorSize(t):1; }
  void bad(LLVMValueRef v){ char*s=LLVMPrintValueToString(v); badMsgs.push_back(s); LLVMDisposeMessage(s); emit(I_BAD,0,0,0,0,0,badMsgs.size()-1); }
  static vector<string> badMsgs;
  void run();
  void ins(LLVMValueRef v,LLVMBasicBlockRef bb);
  void call(LLVMValueRef v,LLVMBasicBlockRef bb);
};
std::unordered_map<string,i32> Tr::kpool; vector<string> Tr::badMsgs;
void Tr::run(){
  LLVMValueRef fn=f.v; unsigned na=LLVMCountParams(fn); for(unsigned i=0;i<na;i++){ LLVMValueRef p=LLVMGetParam(fn,i); slot[p]=next; next+=nslots(LLVMTypeOf(p)); } f.nargs=next;
  f.nret=nslots(LLVMGetReturnType(LLVMGlobalGetValueType(fn)));
  f.firstBlock=BLKS.size();
  for(LLVMBasicBlockRef b=LLVMGetFirstBasicBlock(fn);b;b=LLVMGetNextBasicBlock(b)){ bid[b]=BLKS.size(); BLKS.push_back({(u32)(&f-&F[0]),{}}); for(LLVMValueRef i=LLVMGetFirstInstruction(b);i;i=LLVMGetNextInstruction(i)){ LLVMTypeRef t=LLVMTypeOf(i); if(LLVMGetTypeKind(t)!=LLVMVoidTypeKind){ 
        slot[i]=next; next+=nslots(t); } } }
  f.nBlocks=BLKS.size()-f.firstBlock;
  for(LLVMBasicBlockRef b=LLVMGetFirstBasicBlock(fn);b;b=LLVMGetNextBasicBlock(b)){ bstart[b]=f.code.size(); Blk&B=BLKS[bid[b]]; u32 last=~0u;
    for(LLVMValueRef i=LLVMGetFirstInstruction(b);i;i=LLVMGetNextInstruction(i)){ ins(i,b);
      unsigned fl=0; const char*fnm=LLVMGetDebugLocFilename(i,&fl); if(fnm&&fl){ string s(fnm,fl); size_t p=s.find("src/"); bool rel= s.compare(0,4,"src/")==0; if(rel||s.find("/repo/src/")!=string::npos){ if(!rel) p=s.find("/repo/src/")+6; s=s.substr(p)+":"+std::to_string(LLVMGetDebugLocLine(i)); unsigned dl=0; const char*dn=LLVMGetDebugLocDirectory(i,&dl); string dir(dn?dn:"",dl); if(dir.find("/repo")!=string::npos||!rel){ auto it=lineIdx.find(s); u32 id; if(it==lineIdx.end()){ id=LINES.size(); LINES.push_back(s); lineIdx[s]=id; } else id=it->second; if(id!=last){ B.lines.push_back(id); last=id; } } } } } }
  for(auto&p:fixEdges) EDG[p.first].target=bstart[p.second];
  f.nslots=next; f.translated=true;
}
void Tr::call(LLVMValueRef v,LLVMBasicBlockRef bb){
  LLVMValueRef cv=LLVMGetCalledValue(v); CallInfo c; c.d=slot.count(v)?slot[v]:0; LLVMTypeRef rt=LLVMTypeOf(v); c.nret=nslots(rt); unsigned na=LLVMGetNumArgOperands(v);
  for(unsigned i=0;i<na;i++){ LLVMValueRef a=LLVMGetOperand(v,i); LLVMTypeRef t=LLVMTypeOf(a); if(LLVMGetTypeKind(t)==LLVMMetadataTypeKind) continue; i32 s=val(a); vector<Leaf> l; leaves(t,0,l); for(unsigned q=0;q<l.size();q++){ c.args.push_back(at(s,q)); c.argw.push_back(l[q].w); } }
  if(LLVMIsAInlineAsm(cv)){ c.name="asm"; size_t al=0; const char*ap=LLVMGetInlineAsmAsmString(cv,&al); string as(ap,al), code; for(size_t i=0;i<as.size();i++){ if(!as.compare(i,2,"/*")){ size_t e=as.find("*/",i); i= e==string::npos? as.size(): e+1; continue; } if(!isspace((unsigned char)as[i])) code+=as[i]; }
    // optimization barriers hand their operand on; cpuid reports no features; other assembly is not encoded
    if(code.empty()) c.intr= !c.nret? N_NOP: c.nret==c.args.size()&&c.nret==1? N_EXPECT: X_UNSUPP; else c.intr= code.find("cpuid")!=string::npos||code.find("xgetbv")!=string::npos? X_ZERO: X_UNSUPP; if(c.intr==X_UNSUPP) c.name="inline assembly "+as; }
  else if(LLVMIsAFunction(cv)){ Func&cf=F[funcIdx[cv]]; c.func=funcIdx[cv]; c.name=cf.name; c.intr=cf.intr; if(cf.intr>=N_CTLZ&&cf.intr<=N_FMULADD){ LLVMTypeRef at=na?LLVMTypeOf(LLVMGetOperand(v,0)):rt; c.w=elemBits(at); c.w2=elemBits(rt);
      unsigned ln=lanes(at);
      if(ln>1&&cf.intr<N_FABS&&cf.intr>=N_CTLZ&&!(cf.intr>=N_UADDO&&cf.intr<=N_SMULO)){ // lane-wise
        vector<i32> all=c.args; unsigned nargs=all.size()/ln; bool flag=(cf.intr==N_CTLZ||cf.intr==N_CTTZ||cf.intr==N_ABS); if(flag) nargs=1; i32 d=c.d;
        for(unsigned q=0;q<ln;q++){ CallInfo k=c; k.args.clear(); k.argw.clear(); for(unsigned j=0;j<nargs;j++){ k.args.push_back(all[j*ln+q]); k.argw.push_back(c.w);} if(flag){ k.args.push_back(all.back()); k.argw.push_back(1);} k.d=d+q; k.nret=1; CALLS.push_back(k); emit(I_CALL,0,0,0,0,0,CALLS.size()-1); }
        return; } } }
  else { c.slot=val(cv); c.func=-1; c.name="indirect"; }
  CALLS.push_back(c); emit(I_CALL,0,0,0,0,0,CALLS.size()-1);
}
void Tr::ins(LLVMValueRef v,LLVMBasicBlockRef bb){
  LLVMOpcode op=LLVMGetInstructionOpcode(v); LLVMTypeRef t=LLVMTypeOf(v); i32 d=slot.count(v)?slot[v]:0;
  auto opd=[&](int i){ return LLVMGetOperand(v,i); };
  switch(op){
  case LLVMRet: { f.code.reserve(0); int n=LLVMGetNumOperands(v); vector<i32> l; if(n){ i32 s=val(opd(0)); unsigned k=nslots(LLVMTypeOf(opd(0))); for(unsigned q=0;q<k;q++) l.push_back(at(s,q)); } IDX.push_back(l); emit(I_RET,0,0,0,0,0,IDX.size()-1); break; }
  case LLVMBr:
#ifdef HAVE_NEW_BR
#endif
  default:
    break;
  }
  if(op==LLVMRet) return;
  if(LLVMIsATerminatorInst(v)&&op!=LLVMInvoke&&op!=LLVMSwitch&&op!=LLVMUnreachable&&op!=LLVMResume){
    unsigned ns=LLVMGetNumSuccessors(v);
    if(ns==1){ u32 e=edge(bb,LLVMGetSuccessor(v,0)); emit(I_BR,0,0,0,0,0,e); return; }
    if(ns==2){ i32 c=val(LLVMGetCondition(v)); LLVMBasicBlockRef s0=LLVMGetSuccessor(v,0), s1=LLVMGetSuccessor(v,1); u32 e0=edge(bb,s0), e1=edge(bb,s1); emit(I_CBR,1,0,c,0,0,((u64)e0<<32)|e1); return; }
    bad(v); return; }
  switch(op){
  case LLVMUnreachable: case LLVMResume: emit(I_UNREACH,0,0,0,0); return;
  case LLVMSwitch: { SwitchInfo s; LLVMValueRef c=LLVMGetOperand(v,0); s.slot=val(c); s.w=bitsOf(LLVMTypeOf(c)); if(s.w>64) s.hi=at(s.slot,1); unsigned n=LLVMGetNumSuccessors(v); std::unordered_map<LLVMBasicBlockRef,u32> em; auto ge=[&](LLVMBasicBlockRef b){ auto it=em.find(b); if(it!=em.end()) return it->second; u32 e=edge(bb,b); em[b]=e; return e; };
      s.defEdge=ge(LLVMGetSuccessor(v,0)); for(unsigned i=1;i<n;i++){ if(s.w>64){ s.wide[bigConst(LLVMGetSwitchCaseValue(v,i))&mask128(s.w)]=ge(LLVMGetSuccessor(v,i)); continue; } u64 cv=LLVMConstIntGetZExtValue(LLVMGetSwitchCaseValue(v,i))&mask64(s.w); u32 e=ge(LLVMGetSuccessor(v,i)); s.map[cv]=e; s.vals.push_back(cv); s.valEdge.push_back(e); } SW.push_back(s); emit(I_SWITCH,s.w,0,s.slot,0,0,SW.size()-1); return; }
  case LLVMInvoke: { call(v,bb); u32 e=edge(bb,LLVMGetNormalDest(v)); emit(I_BR,0,0,0,0,0,e); return; }
  case LLVMCall: call(v,bb); return;
  case LLVMPHI: return;
  case LLVMLandingPad: emit(I_UNREACH,0,0,0,0); return;
  case LLVMFence: return;
  case LLVMAlloca: { u64 sz=LLVMABISizeOfType(TD,LLVMGetAllocatedType(v)); unsigned al=LLVMGetAlignment(v); if(al<16) al=16; i32 n=val(opd(0)); emit(I_ALLOCA,64,d,n,al,0,sz); return; }
  case LLVMLoad: { vector<Leaf> l; if(!leaves(t,0,l)){ bad(v); return; } if(LLVMGetTypeKind(t)==LLVMVectorTypeKind&&elemBits(t)<8){ unsigned pw=elemBits(t)*lanes(t); if(pw%8||pw>64){ bad(v); return; } // packed bits
      i32 tmp=next++; emit(I_LOAD,pw,tmp,val(opd(0)),pw/8,0,0); BcInfo bi; bi.src.push_back({tmp,(u8)pw}); for(unsigned q=0;q<lanes(t);q++) bi.dst.push_back({d+(i32)q,(u8)elemBits(t)}); BCS.push_back(bi); emit(I_BITCAST,0,d,tmp,0,0,BCS.size()-1); return; } i32 a=val(opd(0)); for(unsigned q=0;q<l.size();q++) emit(I_LOAD,l[q].w,d+q,a,(l[q].w+7)/8,0,l[q].off); 
      // loading over own address slot is impossible (SSA)
      return; }
  case LLVMStore: { LLVMTypeRef st=LLVMTypeOf(opd(0)); vector<Leaf> l; if(!leaves(st,0,l)){ bad(v); return; } if(LLVMGetTypeKind(st)==LLVMVectorTypeKind&&elemBits(st)<8){ unsigned n=lanes(st), pw=elemBits(st)*n; if(pw%8||pw>64){ bad(v); return; }
      i32 tmp=next++, sv=val(opd(0)); BcInfo bi; for(unsigned q=0;q<n;q++) bi.src.push_back({at(sv,q),(u8)elemBits(st)}); bi.dst.push_back({tmp,(u8)pw}); BCS.push_back(bi); emit(I_BITCAST,0,tmp,sv,0,0,BCS.size()-1); emit(I_STORE,pw,0,val(opd(1)),tmp,pw/8,0); return; }
      i32 a=val(opd(1)), s=val(opd(0)); for(unsigned q=0;q<l.size();q++) emit(I_STORE,l[q].w,0,a,at(s,q),(l[q].w+7)/8,l[q].off); return; }
  case LLVMGetElementPtr: { if(LLVMGetTypeKind(t)==LLVMVectorTypeKind){ bad(v); return; } GepInfo g; g.base=0; i32 b=val(opd(0)); LLVMTypeRef ty=LLVMGetGEPSourceElementType(v); int n=LLVMGetNumOperands(v);
      for(int i=1;i<n;i++){ LLVMValueRef x=opd(i); i64 sc; if(i==1) sc=LLVMABISizeOfType(TD,ty); else if(LLVMGetTypeKind(ty)==LLVMStructTypeKind){ unsigned ix=LLVMConstIntGetZExtValue(x); g.base+=LLVMOffsetOfElement(TD,ty,ix); ty=LLVMStructGetTypeAtIndex(ty,ix); continue; } else { ty=LLVMGetElementType(ty); sc=LLVMABISizeOfType(TD,ty); }
        if(LLVMIsAConstantInt(x)) g.base+=LLVMConstIntGetSExtValue(x)*sc; else { g.terms.push_back({val(x),sc}); g.tw.push_back(bitsOf(LLVMTypeOf(x))); } }
      if(g.terms.empty()) emit(I_GEPC,64,d,b,0,0,g.base); else if(g.terms.size()==1&&g.tw[0]==64&&g.base==0&&g.terms[0].second>0&&g.terms[0].second<(1<<30)) emit(I_GEP1,64,d,b,g.terms[0].first,(i32)g.terms[0].second); else { GEPS.push_back(g); emit(I_GEPN,64,d,b,0,0,GEPS.size()-1); } return; }
  case LLVMExtractValue: { unsigned n=LLVMGetNumIndices(v); const unsigned*ix=LLVMGetIndices(v); LLVMTypeRef ty=LLVMTypeOf(opd(0)); unsigned off=0; for(unsigned i=0;i<n;i++){ if(LLVMGetTypeKind(ty)==LLVMStructTypeKind){ for(unsigned j=0;j<ix[i];j++) off+=nslots(LLVMStructGetTypeAtIndex(ty,j)); ty=LLVMStructGetTypeAtIndex(ty,ix[i]); } else { ty=LLVMGetElementType(ty); off+=ix[i]*nslots(ty); } } i32 s=val(opd(0)); unsigned k=nslots(t); for(unsigned q=0;q<k;q++) emit(I_MOV,0,d+q,at(s,off+q),0); return; }
  case LLVMInsertValue: { unsigned n=LLVMGetNumIndices(v); const unsigned*ix=LLVMGetIndices(v); LLVMTypeRef ty=t; unsigned off=0; for(unsigned i=0;i<n;i++){ if(LLVMGetTypeKind(ty)==LLVMStructTypeKind){ for(unsigned j=0;j<ix[i];j++) off+=nslots(LLVMStructGetTypeAtIndex(ty,j)); ty=LLVMStructGetTypeAtIndex(ty,ix[i]); } else { ty=LLVMGetElementType(ty); off+=ix[i]*nslots(ty); } } i32 s=val(opd(0)), x=val(opd(1)); unsigned k=nslots(t), m=nslots(ty); for(unsigned q=0;q<k;q++) emit(I_MOV,0,d+q,(q>=off&&q<off+m)? at(x,q-off):at(s,q),0); return; }
  case LLVMExtractElement: { i32 s=val(opd(0)); unsigned k=lanes(LLVMTypeOf(opd(0))); unsigned per=nslots(t); if(LLVMIsAConstantInt(opd(1))){ u64 i=LLVMConstIntGetZExtValue(opd(1)); if(i>=k) i=0; for(unsigned q=0;q<per;q++) emit(I_MOV,0,d+q,at(s,i*per+q),0); } else { if(per!=1){ bad(v); return; } vector<i32> l; for(unsigned q=0;q<k;q++) l.push_back(at(s,q)); IDX.push_back(l); emit(I_XELEM,0,d,val(opd(1)),0,0,IDX.size()-1); } return; }
  case LLVMInsertElement: { i32 s=val(opd(0)),x=val(opd(1)); unsigned k=lanes(t); if(nslots(t)!=k){ bad(v); return; } if(LLVMIsAConstantInt(opd(2))){ u64 i=LLVMConstIntGetZExtValue(opd(2)); for(unsigned q=0;q<k;q++) emit(I_MOV,0,d+q,q==i?x:at(s,q),0); } else { for(unsigned q=0;q<k;q++) emit(I_MOV,0,d+q,at(s,q),0); emit(I_IELEM,0,d,val(opd(2)),x,k); } return; }
  case LLVMShuffleVector: { i32 a=val(opd(0)),b=val(opd(1)); unsigned na=lanes(LLVMTypeOf(opd(0))); unsigned n=LLVMGetNumMaskElements(v); if(nslots(t)!=n){ bad(v); return; } i32 z=kslots({0}); for(unsigned q=0;q<n;q++){ int m=LLVMGetMaskValue(v,q); emit(I_MOV,0,d+q, m<0? z: m<(int)na? at(a,m):at(b,m-na),0); } return; }
  case LLVMSelect: { i32 c=val(opd(0)),a=val(opd(1)),b=val(opd(2)); bool vc=LLVMGetTypeKind(LLVMTypeOf(opd(0)))==LLVMVectorTypeKind; vector<Leaf> l; leaves(t,0,l); for(unsigned q=0;q<l.size();q++){ emit(I_SELECT,l[q].w,d+q,vc?at(c,q):c,at(a,q),at(b,q)); } return; }
  case LLVMFreeze: { i32 s=val(opd(0)); unsigned k=nslots(t); for(unsigned q=0;q<k;q++) emit(I_MOV,0,d+q,at(s,q),0); return; }
  case LLVMFNeg: { i32 s=val(opd(0)); for(unsigned q=0;q<lanes(t);q++) emit(I_FNEG,elemBits(t),d+q,at(s,q),0); return; }
  case LLVMAtomicRMW: { i32 a=val(opd(0)),x=val(opd(1)); unsigned w=bitsOf(t); emit(I_RMW,w,d,a,x,(w+7)/8,LLVMGetAtomicRMWBinOp(v)); return; }
  case LLVMAtomicCmpXchg: { i32 a=val(opd(0)),e=val(opd(1)),n=val(opd(2)); unsigned w=bitsOf(LLVMTypeOf(opd(1))); emit(I_CMPXCHG,w,d,a,e,n,(w+7)/8); return; }
  default: break; }
  // arithmetic
  if(LLVMGetNumOperands(v)<1){ bad(v); return; }
  LLVMTypeRef ot=LLVMTypeOf(opd(0)); unsigned w=elemBits(ot), wr=elemBits(t), n=lanes(t);
  i32 a=val(opd(0)), b=LLVMGetNumOperands(v)>1?val(opd(1)):0;
  int bop=-1;
  switch(op){ case LLVMAdd: bop=I_ADD; break; case LLVMSub: bop=I_SUB; break; case LLVMMul: bop=I_MUL; break; case LLVMUDiv: bop=I_UDIV; break; case LLVMSDiv: bop=I_SDIV; break; case LLVMURem: bop=I_UREM; break; case LLVMSRem: bop=I_SREM; break; case LLVMAnd: bop=I_AND; break; case LLVMOr: bop=I_OR; break; case LLVMXor: bop=I_XOR; break; case LLVMShl: bop=I_SHL; break; case LLVMLShr: bop=I_LSHR; break; case LLVMAShr: bop=I_ASHR; break; default: break; }
  if(bop>=0){ if(w>64){ if(n!=1||w>128){ bad(v); return; } emit(I_WBIN,w,d,a,b,0,bop); return; } for(unsigned q=0;q<n;q++) emit(bop,w,d+q,at(a,q),at(b,q)); return; }
  switch(op){
  case LLVMICmp: { static const int M[]={I_EQ,I_NE,I_UGT,I_UGE,I_ULT,I_ULE,I_SGT,I_SGE,I_SLT,I_SLE}; int p=LLVMGetICmpPredicate(v)-LLVMIntEQ; if(w>64){ if(n!=1){ bad(v); return; } emit(I_WCMP,w,d,a,b,0,M[p]); return; } for(unsigned q=0;q<n;q++) emit(M[p],w,d+q,at(a,q),at(b,q)); return; }
  case LLVMFCmp: for(unsigned q=0;q<n;q++) emit(I_FCMP,w,d+q,at(a,q),at(b,q),0,LLVMGetFCmpPredicate(v)); return;
  case LLVMFAdd: case LLVMFSub: case LLVMFMul: case LLVMFDiv: case LLVMFRem: { int o= op==LLVMFAdd?O_FADD: op==LLVMFSub?O_FSUB: op==LLVMFMul?O_FMUL: op==LLVMFDiv?O_FDIV:O_FREM; for(unsigned q=0;q<n;q++) emit(I_FBIN,w,d+q,at(a,q),at(b,q),0,o); return; }
  case LLVMTrunc: case LLVMZExt: case LLVMSExt: case LLVMPtrToInt: case LLVMIntToPtr: {
      if(w>64||wr>64){ if(n!=1||w>128||wr>128){ bad(v); return; } Ins&i=emit(I_WCAST,w,d,a,0,0,op==LLVMSExt?2: op==LLVMTrunc?0:1); i.w2=wr; return; }
      int o= op==LLVMTrunc?I_TRUNC: op==LLVMSExt?I_SEXT: op==LLVMZExt?I_ZEXT: wr<w?I_TRUNC: wr>w?I_ZEXT:I_MOV; for(unsigned q=0;q<n;q++){ Ins&i=emit(o,w,d+q,at(a,q),0); i.w2=wr; } return; }
  case LLVMSIToFP: case LLVMUIToFP: case LLVMFPToSI: case LLVMFPToUI: case LLVMFPTrunc: case LLVMFPExt: { int o= op==LLVMSIToFP?O_SITOFP: op==LLVMUIToFP?O_UITOFP: op==LLVMFPToSI?O_FPTOSI: op==LLVMFPToUI?O_FPTOUI: op==LLVMFPTrunc?O_FPTRUNC:O_FPEXT; if(w>64||wr>64){ bad(v); return; } for(unsigned q=0;q<n;q++){ Ins&i=emit(I_FCAST,w,d+q,at(a,q),0,0,o); i.w2=wr; } return; }
  case LLVMAddrSpaceCast: emit(I_MOV,0,d,a,0); return;
  case LLVMBitCast: { vector<Leaf> ls,ld; leaves(ot,0,ls); leaves(t,0,ld); if(ls.size()==ld.size()&&ls[0].w==ld[0].w){ for(unsigned q=0;q<ls.size();q++) emit(I_MOV,0,d+q,at(a,q),0); return; }
      BcInfo bi; for(unsigned q=0;q<ls.size();q++) bi.src.push_back({at(a,q),(u8)ls[q].w}); for(unsigned q=0;q<ld.size();q++) bi.dst.push_back({d+(i32)q,(u8)ld[q].w}); BCS.push_back(bi); emit(I_BITCAST,0,d,a,0,0,BCS.size()-1); return; }
  default: bad(v); return; }
}
static void loadModule(const string&bc){
  LLVMContextRef cx=LLVMContextCreate(); LLVMMemoryBufferRef mb; char*err=0;
  if(LLVMCreateMemoryBufferWithContentsOfFile(bc.c_str(),&mb,&err)) fatal("read %s: %s",bc.c_str(),err);
  if(LLVMParseBitcodeInContext2(cx,mb,&MOD)) fatal("parse bitcode");
  TD=LLVMGetModuleDataLayout(MOD);
  u64 a=BASE+65536;
  auto alignUp=[](u64 x,u64 al){ return (x+al-1)/al*al; };
  for(LLVMValueRef f=LLVMGetFirstFunction(MOD);f;f=LLVMGetNextFunction(f)){ Func fn; fn.name=vname(f); fn.v=f; fn.decl=LLVMIsDeclaration(f); funcIdx[f]=F.size(); fn.intr=0; if(fn.decl) { fn.intr=intrinsicOf(fn.name); if(!fn.intr) fn.intr=isPanicFn(fn.name)?X_PANIC:X_UNSUPP; } else if(isPanicFn(fn.name)) fn.intr=X_PANIC; else if(fn.name.compare(0,3,"vf_")==0) fn.intr=intrinsicOf(fn.name); F.push_back(fn); }
  vector<std::pair<LLVMValueRef,u64>> gl;
  for(LLVMValueRef g=LLVMGetFirstGlobal(MOD);g;g=LLVMGetNextGlobal(g)){ LLVMTypeRef t=LLVMGlobalGetValueType(g); u64 sz= LLVMTypeIsSized(t)?LLVMABISizeOfType(TD,t):64; unsigned al=LLVMGetAlignment(g); if(al<16) al=16; a=alignUp(a,al); globalAddr[g]=a; gl.push_back({g,a}); a+=sz<16?16:sz; if(LLVMIsDeclaration(g)) a+=64; }
  for(auto&p:gl) if(!LLVMIsDeclaration(p.first)&&LLVMGetInitializer(p.first)) initMem(LLVMGetInitializer(p.first),p.second);
  STACKBASE=alignUp(a,1<<20); STACKEND=STACKBASE+(128u<<20); HEAPBASE=STACKEND; allocaSp=STACKBASE; memset(&H,0,sizeof H); H.top=HEAPBASE+16;
  K.reserve(1<<22); K.push_back({0,0,0});
  for(u32 i=0;i<F.size();i++) if(!F[i].decl&&F[i].intr==0){ Tr t(F[i]); t.run(); }
  LLVMDisposeModule(MOD); LLVMContextDispose(cx); malloc_trim(0);
  funcIdx.clear(); globalAddr.clear();
}
