// Hash-consed bit-vector expressions with simplification, evaluation and z3 translation.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <vector>
#include <string>
#include <unordered_map>
#include <algorithm>
#include <z3.h>
typedef uint64_t u64; typedef uint32_t u32; typedef uint16_t u16; typedef uint8_t u8;
typedef int64_t i64; typedef int32_t i32;
typedef unsigned __int128 u128; typedef __int128 i128;
typedef u32 Ex;

enum Op : u8 {
  O_NONE=0, O_CONST, O_VAR, O_TABLE,
  O_ADD,O_SUB,O_MUL,O_UDIV,O_SDIV,O_UREM,O_SREM,O_AND,O_OR,O_XOR,O_SHL,O_LSHR,O_ASHR,
  O_EQ,O_ULT,O_ULE,O_SLT,O_SLE,
  O_NOT, // 1 bit
  O_CONCAT,O_EXTRACT,O_ZEXT,O_SEXT,O_ITE,
  O_FADD,O_FSUB,O_FMUL,O_FDIV,O_FREM,O_FEQ,O_FLT,O_FLE,O_FUNO,
  O_SITOFP,O_UITOFP,O_FPTOSI,O_FPTOUI,O_FPTRUNC,O_FPEXT,O_FLOOR,O_CEIL,O_FTRUNC,O_FSQRT,O_FROUND
};
struct Node { u8 op; u8 flags; u16 w; u32 a,b,c; u64 imm, imm2; u32 supp; u32 next; };

[[noreturn]] void fatal(const char*fmt,...);
inline u64 mask64(unsigned w){ return w>=64? ~0ull : ((1ull<<w)-1); }
inline u128 mask128(unsigned w){ return w>=128? ~(u128)0 : (((u128)1<<w)-1); }
inline i64 sext64(u64 v,unsigned w){ if(w>=64) return (i64)v; u64 m=1ull<<(w-1); v&=mask64(w); return (i64)((v^m)-m); }
inline i128 sext128(u128 v,unsigned w){ if(w>=128) return (i128)v; u128 m=(u128)1<<(w-1); v&=mask128(w); return (i128)((v^m)-m); }

struct Bits256 { u64 b[4]; bool get(unsigned i)const{return b[i>>6]>>(i&63)&1;} void set(unsigned i){b[i>>6]|=1ull<<(i&63);} 
  int count()const{return __builtin_popcountll(b[0])+__builtin_popcountll(b[1])+__builtin_popcountll(b[2])+__builtin_popcountll(b[3]);} 
  bool any()const{return b[0]|b[1]|b[2]|b[3];} };
struct VarInfo { unsigned w; };
extern std::vector<Node> N;
extern std::vector<VarInfo> VARS;
extern std::vector<std::vector<u64>> TABLES;
extern std::vector<std::vector<u32>> SUPP;   // support sets (sorted variable ids); 0 = empty
extern std::vector<u64> MODEL;               // var -> value
extern Z3_context ZC;
void expr_init();
void modelChanged();
Ex mkConst(unsigned w,u128 v);
Ex mkVar(unsigned w);                        // new variable
Ex varNode(u32 var);
Ex mkBin(u8 op,Ex a,Ex b);
Ex mkCmp(u8 op,Ex a,Ex b);
Ex mkNot(Ex a);
Ex mkIte(Ex c,Ex a,Ex b);
Ex mkExtract(Ex a,unsigned off,unsigned w);
Ex mkConcat(Ex hi,Ex lo);
Ex mkZext(Ex a,unsigned w);
Ex mkSext(Ex a,unsigned w);
Ex mkTable(u32 var,unsigned w,const std::vector<u64>&t);
Ex mkUn(u8 op,unsigned w,Ex a);              // fp conversions/unary
Ex mkFp(u8 op,Ex a,Ex b);
inline bool isConst(Ex e){ return N[e].op==O_CONST; }
inline u128 cval(Ex e){ return ((u128)N[e].imm2<<64)|N[e].imm; }
inline unsigned width(Ex e){ return N[e].w; }
inline Ex mkEqC(Ex a,u128 v){ return mkCmp(O_EQ,a,mkConst(width(a),v)); }
u128 evalExpr(Ex e);                         // under MODEL
const Bits256& truthOf(Ex e);                // 1-bit expr over one byte variable
void tableOf(Ex e, u32 var, std::vector<u64>&out); // <=64 bit expr over one byte variable
Z3_ast toBV(Ex e); Z3_ast toBool(Ex e);
std::string exprStr(Ex e,int depth=8);
Ex mkPopcount(Ex e); Ex mkBswap(Ex e); Ex mkBitrev(Ex e); Ex mkCtz(Ex e); Ex mkClz(Ex e);
Ex mkUmulOvf(Ex a,Ex b); Ex mkSmulOvf(Ex a,Ex b);
Ex mkAddOvfU(Ex a,Ex b); Ex mkAddOvfS(Ex a,Ex b); Ex mkSubOvfU(Ex a,Ex b); Ex mkSubOvfS(Ex a,Ex b);
Ex mkFptoiSat(Ex a,unsigned w,bool sgn);
enum { F_FP=1, F_MUL=2 };
