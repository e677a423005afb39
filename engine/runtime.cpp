#include <sys/resource.h>
// Runtime of the symbolic execution engine: expression DAG, shadow memory, path events, library wrappers.
// Compiled without instrumentation.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <cerrno>
#include <string>
#include <vector>
#include <map>
#include <unordered_map>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <malloc.h>
#include <sys/stat.h>
#include <cstdarg>
#include <new>
#include <fstream>
#include <ctime>
#include <sys/time.h>
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64; typedef int64_t i64; typedef unsigned __int128 u128; typedef __int128 i128;
extern "C" { int __sym_runtime_module=1; }

enum Op : u16 { CONST, VAR, TABLE, TEXT, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR, EQ, ULT, ULE, SLT, SLE, ITE, ZEXT, SEXT, EXTRACT, CONCAT,
  FADD, FSUB, FMUL, FDIV, FREM, FEQ, FLT, FLE, FUNO, FNEG, FABS, FRTI, FSQRT, SI2F, UI2F, F2SI, F2UI, FPEXT, FPTRUNC, BV2F, F2BV, UFUN };
static const char *opname[]={"CONST","VAR","TABLE","TEXT","ADD","SUB","MUL","UDIV","SDIV","UREM","SREM","AND","OR","XOR","SHL","LSHR","ASHR","EQ","ULT","ULE","SLT","SLE","ITE","ZEXT","SEXT","EXTRACT","CONCAT","FADD","FSUB","FMUL","FDIV","FREM","FEQ","FLT","FLE","FUNO","FNEG","FABS","FRTI","FSQRT","SI2F","UI2F","F2SI","F2UI","FPEXT","FPTRUNC","BV2F","F2BV","UFUN"};

struct Var { int id; int kind; u32 n; u64 val; bool alive[256]; std::vector<std::vector<u8>> tables; };
struct Node { u16 op; u16 w; u8 fp; u8 flags; u32 id; Node *a,*b,*c; u64 imm; u128 val; Var *sup; i64 epoch; u128 ev; Node*hn; u8 known; u8 dumped; };
// flags: 1 = multi support, 2 = opaque text inside
static const u8 MULTI=1, OPQ=2;

extern "C" { Node *__sym_args[64]; Node *__sym_ret[8]; void *__sym_token; }

static bool inited=false, finished=false;
static std::vector<Var*> *vars;
struct Chan { std::unordered_map<u64,Node*> sh; };
static std::map<std::string,Chan> *chans;
static Chan *chan(const std::string&n){ return &(*chans)[n]; }
static u64 maxev=60000; static const char *tracefile; static char cwdbuf[4096];

// ---------------------------------------------------------------- nodes
static Node **htab; static u32 hsize, hcount; static u32 nextid=1;
static u8 *arena; static size_t arenaLeft;
static Node *rawnode(){ if(arenaLeft<sizeof(Node)){ arenaLeft=1<<20; arena=(u8*)malloc(arenaLeft);} Node*n=(Node*)arena; arena+=sizeof(Node); arenaLeft-=sizeof(Node); memset((void*)n,0,sizeof*n); return n; }
static inline u128 mask(u128 v,unsigned w){ return w>=128?v:(v&((((u128)1)<<w)-1)); }
static inline i128 sx(u128 v,unsigned w){ if(w>=128) return (i128)v; u128 m=((u128)1)<<(w-1); v=mask(v,w); return (i128)((v^m)-m); }
static inline double d64(u128 v){ u64 x=(u64)v; double d; memcpy(&d,&x,8); return d; }
static inline float f32(u128 v){ u32 x=(u32)v; float d; memcpy(&d,&x,4); return d; }
static inline u128 dbits(double d){ u64 x; memcpy(&x,&d,8); return x; }
static inline u128 fbits(float d){ u32 x; memcpy(&x,&d,4); return x; }
static double fv(Node*n,u128 v){ return n->w==32?(double)f32(v):d64(v); }
static u128 fpk(double d,unsigned w){ return w==32?fbits((float)d):dbits(d); }

static u128 compute(Node*n,u128 a,u128 b,u128 c){
  unsigned w=n->w; unsigned aw=n->a?n->a->w:0;
  switch(n->op){
    case ADD: return mask(a+b,w); case SUB: return mask(a-b,w); case MUL: return mask(a*b,w);
    case UDIV: return b?mask(a/b,w):mask(~(u128)0,w); case UREM: return b?a%b:a;
    case SDIV: { i128 x=sx(a,w),y=sx(b,w); if(!y) return mask(x<0?1:(u128)-1,w); if(y==-1) return mask(-(u128)x,w); return mask((u128)(x/y),w);} 
    case SREM: { i128 x=sx(a,w),y=sx(b,w); if(!y) return a; if(y==-1) return 0; return mask((u128)(x%y),w);} 
    case AND: return a&b; case OR: return a|b; case XOR: return a^b;
    case SHL: return b>=w?0:mask(a<<(unsigned)b,w); case LSHR: return b>=w?0:a>>(unsigned)b; case ASHR: return mask((u128)(sx(a,w)>>(unsigned)(b>=w?w-1:b)),w);
    case EQ: return a==b; case ULT: return a<b; case ULE: return a<=b; case SLT: return sx(a,aw)<sx(b,aw); case SLE: return sx(a,aw)<=sx(b,aw);
    case ITE: return a?b:c; case ZEXT: return a; case SEXT: return mask((u128)sx(a,aw),w); case EXTRACT: return mask(a>>(unsigned)n->imm,w); case CONCAT: return (a<<n->b->w)|b;
    case FADD: return w==32?fbits(f32(a)+f32(b)):dbits(d64(a)+d64(b)); case FSUB: return w==32?fbits(f32(a)-f32(b)):dbits(d64(a)-d64(b));
    case FMUL: return w==32?fbits(f32(a)*f32(b)):dbits(d64(a)*d64(b)); case FDIV: return w==32?fbits(f32(a)/f32(b)):dbits(d64(a)/d64(b));
    case FREM: return w==32?fbits(fmodf(f32(a),f32(b))):dbits(fmod(d64(a),d64(b)));
    case FEQ: return fv(n->a,a)==fv(n->b,b); case FLT: return fv(n->a,a)<fv(n->b,b); case FLE: return fv(n->a,a)<=fv(n->b,b); case FUNO: return std::isnan(fv(n->a,a))||std::isnan(fv(n->b,b));
    case FNEG: return a^(((u128)1)<<(w-1)); case FABS: return a&~(((u128)1)<<(w-1)); case FSQRT: return fpk(sqrt(fv(n->a,a)),w);
    case FRTI: { double x=fv(n->a,a); double r=n->imm==2?floor(x):n->imm==3?ceil(x):n->imm==4?trunc(x):n->imm==5?round(x):rint(x); return fpk(r,w);} 
    case SI2F: return w==32?fbits((float)(i64)sx(a,aw)):dbits((double)(i64)sx(a,aw)); case UI2F: return w==32?fbits((float)(u64)a):dbits((double)(u64)a);
    case F2SI: { double x=fv(n->a,a); if(!(x>=-9223372036854775808.0&&x<9223372036854775808.0)) return mask((u128)1<<63,w); return mask((u128)(i128)(i64)x,w);} 
    case F2UI: { double x=fv(n->a,a); if(!(x>-1&&x<18446744073709551616.0)) return mask((u128)1<<63,w); return mask((u128)(u64)x,w);} 
    case FPEXT: return dbits((double)f32(a)); case FPTRUNC: return fbits((float)d64(a)); case BV2F: case F2BV: return a;
    default: return 0;
  }
}
static Node *mk(u16 op,unsigned w,u8 fp,Node*a,Node*b,Node*c,u64 imm,u128 cval=0,Var*var=nullptr){
  u64 h=op*1000003ull^w*7919ull^fp; auto mix=[&](u64 x){ h=(h^x)*0x9E3779B97F4A7C15ull; h^=h>>29; }; mix(a?a->id:0); mix(b?b->id:0); mix(c?c->id:0); mix(imm); if(op==CONST){ mix((u64)cval); mix((u64)(cval>>64)); } if(op==VAR||op==TABLE) mix(var->id+77);
  if(!htab){ hsize=1<<16; htab=(Node**)calloc(hsize,sizeof(Node*)); }
  if(hcount>hsize*2){ u32 ns=hsize*4; Node**nt=(Node**)calloc(ns,sizeof(Node*)); for(u32 i=0;i<hsize;i++){ Node*n=htab[i]; while(n){ Node*nx=n->hn; u32 k=(u32)(n->epoch>>0); (void)k; 
      // recompute hash
      u64 hh=n->op*1000003ull^n->w*7919ull^n->fp; auto mx=[&](u64 x){ hh=(hh^x)*0x9E3779B97F4A7C15ull; hh^=hh>>29; }; mx(n->a?n->a->id:0); mx(n->b?n->b->id:0); mx(n->c?n->c->id:0); mx(n->imm); if(n->op==CONST){ mx((u64)n->val); mx((u64)(n->val>>64)); } if(n->op==VAR||n->op==TABLE) mx(n->sup->id+77);
      u32 s=hh&(ns-1); n->hn=nt[s]; nt[s]=n; n=nx; } } free(htab); htab=nt; hsize=ns; }
  u32 s=h&(hsize-1);
  for(Node*n=htab[s];n;n=n->hn) if(n->op==op&&n->w==w&&n->fp==fp&&n->a==a&&n->b==b&&n->c==c&&n->imm==imm&&(op!=CONST||n->val==cval)&&((op!=VAR&&op!=TABLE)||n->sup==var)) return n;
  Node*n=rawnode(); n->op=op; n->w=w; n->fp=fp; n->a=a; n->b=b; n->c=c; n->imm=imm; n->id=nextid++; n->hn=htab[s]; htab[s]=n; hcount++;
  if(op==CONST) n->val=cval; else if(op==VAR){ n->val=var->val; n->sup=var; if(var->kind>=2){ n->flags|=MULTI; } }
  else if(op==TABLE){ n->sup=var; n->val=var->tables[imm][var->val]; }
  else if(op==TEXT){ n->flags|=OPQ; n->val=cval; }
  else { Node*k[3]={a,b,c}; for(Node*x:k) if(x){ n->flags|=x->flags&(MULTI|OPQ); if(x->sup){ if(n->sup&&n->sup!=x->sup) n->flags|=MULTI; n->sup=x->sup; } }
    n->val=compute(n,a?a->val:0,b?b->val:0,c?c->val:0); }
  return n;
}
static Node *kc(u128 v,unsigned w,u8 fp=0){ return mk(CONST,w,fp,0,0,0,0,mask(v,w)); }
static inline bool isC(Node*n){ return n->op==CONST; }
static Node *fold(Node*n){ return n; }

static Node *eNot(Node*a);
static Node *eExtract(Node*a,unsigned lo,unsigned w);
static Node *toBV(Node*a){ if(!a->fp) return a; if(a->op==BV2F) return a->a; if(isC(a)) return kc(a->val,a->w); return mk(F2BV,a->w,0,a,0,0,0); }
static Node *toFP(Node*a,unsigned w){ if(a->fp) return a; if(a->op==F2BV) return a->a; if(isC(a)) return kc(a->val,w,1); return mk(BV2F,w,1,a,0,0,0); }
static Node *eConcat(Node*a,Node*b){ // a high
  if(isC(a)&&isC(b)) return kc((a->val<<b->w)|b->val,a->w+b->w);
  if(a->op==EXTRACT&&b->op==EXTRACT&&a->a==b->a&&a->imm==b->imm+b->w){ unsigned w=a->w+b->w; if(b->imm==0&&w==a->a->w) return a->a; return mk(EXTRACT,w,0,a->a,0,0,b->imm); }
  if(a->op==EXTRACT&&a->imm==b->w&&!a->a->fp&&eExtract(a->a,0,b->w)==b) return eExtract(a->a,0,a->w+b->w); // pieces of one word
  if(isC(a)&&a->val==0){ if(b->op==ZEXT) return mk(ZEXT,a->w+b->w,0,b->a,0,0,0); return mk(ZEXT,a->w+b->w,0,b,0,0,0);} 
  return mk(CONCAT,a->w+b->w,0,a,b,0,0);
}
static Node *eExtract(Node*a,unsigned lo,unsigned w){
  if(lo==0&&w==a->w) return a;
  if(isC(a)) return kc(a->val>>lo,w);
  switch(a->op){
    case EXTRACT: return eExtract(a->a,a->imm+lo,w);
    case CONCAT: { unsigned bw=a->b->w; if(lo+w<=bw) return eExtract(a->b,lo,w); if(lo>=bw) return eExtract(a->a,lo-bw,w); break; }
    case ZEXT: { unsigned aw=a->a->w; if(lo+w<=aw) return eExtract(a->a,lo,w); if(lo>=aw) return kc(0,w); if(lo==0) return mk(ZEXT,w,0,a->a,0,0,0); break; }
    case SEXT: { unsigned aw=a->a->w; if(lo+w<=aw) return eExtract(a->a,lo,w); if(lo==0) return mk(SEXT,w,0,a->a,0,0,0); break; }
    case ITE: if(isC(a->b)&&isC(a->c)) { Node*x=eExtract(a->b,lo,w),*y=eExtract(a->c,lo,w); if(x==y) return x; return mk(ITE,w,0,a->a,x,y,0);} break;
    case AND: case OR: case XOR: if(isC(a->b)){ Node*x=eExtract(a->a,lo,w),*y=eExtract(a->b,lo,w); if(isC(x)&&isC(y)) { Node t=*a; t.w=w; return kc(a->op==AND?x->val&y->val:a->op==OR?x->val|y->val:x->val^y->val,w);} if(a->op==AND&&y->val==0) return kc(0,w); if(a->op==AND&&y->val==mask(~(u128)0,w)) return x; if(a->op!=AND&&y->val==0) return x; return mk(a->op,w,0,x,y,0,0);} break;
    case ADD: case SUB: case MUL: if(lo==0&&a->w>w){ /* low bits */ Node*x=eExtract(a->a,0,w),*y=eExtract(a->b,0,w); extern Node*eBin(u16,Node*,Node*); return eBin(a->op,x,y);} break;
  }
  return mk(EXTRACT,w,0,a,0,0,lo);
}
static Node *eZext(Node*a,unsigned w){ if(a->w==w) return a; if(isC(a)) return kc(a->val,w); if(a->op==ZEXT) return mk(ZEXT,w,0,a->a,0,0,0); if(a->op==ITE&&isC(a->b)&&isC(a->c)) return mk(ITE,w,0,a->a,kc(a->b->val,w),kc(a->c->val,w),0); return mk(ZEXT,w,0,a,0,0,0); }
static Node *eSext(Node*a,unsigned w){ if(a->w==w) return a; if(isC(a)) return kc((u128)sx(a->val,a->w),w); if(a->op==ZEXT&&a->w>a->a->w) return mk(ZEXT,w,0,a->a,0,0,0); if(a->op==SEXT) return mk(SEXT,w,0,a->a,0,0,0); if(a->op==ITE&&isC(a->b)&&isC(a->c)) return mk(ITE,w,0,a->a,eSext(a->b,w),eSext(a->c,w),0); return mk(SEXT,w,0,a,0,0,0); }
static Node *eIte(Node*c,Node*a,Node*b){ if(isC(c)) return c->val?a:b; if(a==b) return a; if(a->w==1&&isC(a)&&isC(b)&&!a->fp) return a->val?c:eNot(c); if(c->op==XOR&&c->w==1&&isC(c->b)) return eIte(c->a,b,a); return mk(ITE,a->w,a->fp,c,a,b,0); }
static Node *eNot(Node*a){ if(isC(a)) return kc(a->val^1,1); if(a->op==XOR&&isC(a->b)&&a->b->val==1) return a->a; return mk(XOR,1,0,a,kc(1,1),0,0); }
static Node *eEq(Node*a,Node*b){
  if(a==b) return kc(1,1); if(isC(a)) std::swap(a,b);
  if(isC(a)&&isC(b)) return kc(a->val==b->val,1);
  if(isC(b)){
    if(a->w==1) return b->val?a:eNot(a);
    if(a->op==ZEXT){ if(b->val>>a->a->w) return kc(0,1); return eEq(a->a,kc(b->val,a->a->w)); }
    if(a->op==SEXT){ u128 lowv=mask(b->val,a->a->w); if(mask((u128)sx(lowv,a->a->w),a->w)!=b->val) return kc(0,1); return eEq(a->a,kc(lowv,a->a->w)); }
    if(a->op==ITE){ if(isC(a->b)&&isC(a->c)){ bool x=a->b->val==b->val,y=a->c->val==b->val; if(x&&y) return kc(1,1); if(!x&&!y) return kc(0,1); return x?a->a:eNot(a->a);} }
    if(a->op==ADD&&isC(a->b)) return eEq(a->a,kc(b->val-a->b->val,a->w));
    if(a->op==SUB&&isC(a->a)) return eEq(a->b,kc(a->a->val-b->val,a->w));
    if(a->op==SUB&&b->val==0) return eEq(a->a,a->b);
    if(a->op==XOR&&isC(a->b)) return eEq(a->a,kc(b->val^a->b->val,a->w));
    if(a->op==XOR&&b->val==0) return eEq(a->a,a->b);
    if(a->op==CONCAT){ Node*x=eEq(a->a,kc(b->val>>a->b->w,a->a->w)); Node*y=eEq(a->b,kc(b->val,a->b->w)); if(isC(x)) return x->val?y:kc(0,1); if(isC(y)) return y->val?x:kc(0,1); return mk(AND,1,0,x,y,0,0); }
  }
  if(a->op==ZEXT&&b->op==ZEXT&&a->a->w==b->a->w) return eEq(a->a,b->a);
  if(a->op==SEXT&&b->op==SEXT&&a->a->w==b->a->w) return eEq(a->a,b->a);
  if(a->id>b->id) std::swap(a,b);
  return mk(EQ,1,0,a,b,0,0);
}
static Node *eLt(u16 op,Node*a,Node*b){ // ULT ULE SLT SLE
  if(a==b) return kc(op==ULE||op==SLE,1);
  if(isC(a)&&isC(b)){ Node t; memset((void*)&t,0,sizeof t); t.op=op; t.w=1; t.a=a; t.b=b; return kc(compute(&t,a->val,b->val,0),1); }
  // zext normalisation: both non-negative -> unsigned on narrow width
  Node*x=a->op==ZEXT?a->a:nullptr,*y=b->op==ZEXT?b->a:nullptr;
  if(x&&y&&x->w==y->w) return eLt(op==SLT||op==ULT?ULT:ULE,x,y);
  if(x&&isC(b)){ i128 v=(op==SLT||op==SLE)?sx(b->val,b->w):(i128)b->val; i128 mx=(((i128)1)<<x->w)-1; if(v<0) return kc(0,1); if(v>mx) return kc(1,1); return eLt(op==SLT||op==ULT?ULT:ULE,x,kc((u128)v,x->w)); }
  if(y&&isC(a)){ i128 v=(op==SLT||op==SLE)?sx(a->val,a->w):(i128)a->val; i128 mx=(((i128)1)<<y->w)-1; if(v<0) return kc(1,1); if(v>mx) return kc(0,1); return eLt(op==SLT||op==ULT?ULT:ULE,kc((u128)v,y->w),y); }
  if((op==SLT||op==SLE)){ if(a->op==SEXT&&b->op==SEXT&&a->a->w==b->a->w) return eLt(op,a->a,b->a); }
  if(op==ULT&&isC(b)&&b->val==0) return kc(0,1);
  if(op==ULT&&isC(b)&&b->val==1) return eEq(a,kc(0,a->w));
  return mk(op,1,0,a,b,0,0);
}
Node *eBin(u16 op,Node*a,Node*b){
  unsigned w=a->w; u128 ones=mask(~(u128)0,w);
  if(isC(a)&&isC(b)){ Node t; memset((void*)&t,0,sizeof t); t.op=op; t.w=w; t.a=a; t.b=b; return kc(compute(&t,a->val,b->val,0),w); }
  if((op==ADD||op==MUL||op==AND||op==OR||op==XOR)&&isC(a)) std::swap(a,b);
  switch(op){
    case ADD: if(isC(b)){ if(b->val==0) return a; if(a->op==ADD&&isC(a->b)) return eBin(ADD,a->a,kc(a->b->val+b->val,w)); if(a->op==SUB&&isC(a->a)) return eBin(SUB,kc(a->a->val+b->val,w),a->b); } else if(a->op==ADD&&isC(a->b)) return eBin(ADD,eBin(ADD,a->a,b),a->b); else if(b->op==ADD&&isC(b->b)) return eBin(ADD,eBin(ADD,a,b->a),b->b); if(a->op==SUB&&a->b==b) return a->a; if(b->op==SUB&&b->b==a) return b->a; break;
    case SUB: if(a==b) return kc(0,w); if(isC(b)) return eBin(ADD,a,kc(-b->val,w)); if(a->op==ADD&&isC(a->b)) return eBin(ADD,eBin(SUB,a->a,b),a->b); if(b->op==ADD&&isC(b->b)) return eBin(ADD,eBin(SUB,a,b->a),kc(-b->b->val,w)); if(a->op==ADD&&a->a==b) return a->b; if(a->op==ADD&&a->b==b) return a->a; break;
    case MUL: if(isC(b)){ if(b->val==0) return b; if(b->val==1) return a; } break;
    case AND: if(a==b) return a; if(isC(b)){ if(b->val==0) return b; if(b->val==ones) return a; if(a->op==ZEXT&&mask(b->val,a->a->w)==mask(~(u128)0,a->a->w)) return a; if(a->op==AND&&isC(a->b)) return eBin(AND,a->a,kc(a->b->val&b->val,w)); } break;
    case OR: if(a==b) return a; if(isC(b)){ if(b->val==0) return a; if(b->val==ones) return b; } 
      // (x zext) | (y << k) -> concat
      break;
    case XOR: if(a==b) return kc(0,w); if(isC(b)){ if(b->val==0) return a; if(a->op==XOR&&isC(a->b)) return eBin(XOR,a->a,kc(a->b->val^b->val,w)); } break;
    case SHL: case LSHR: case ASHR: if(isC(b)){ if(b->val==0) return a; unsigned k=b->val>=w?w:(unsigned)b->val; if(op==SHL){ if(k>=w) return kc(0,w); return eConcat(eExtract(a,0,w-k),kc(0,k)); } if(op==LSHR){ if(k>=w) return kc(0,w); return eZext(eExtract(a,k,w-k),w);} if(op==ASHR&&k<w) return eSext(eExtract(a,k,w-k),w); } break;
    case UDIV: case SDIV: if(isC(b)&&b->val==1&&w>1) return a; break;
    default: break;
  }
  return mk(op,w,0,a,b,0,0);
}
static inline Node *ret(Node*n){ return (!n||isC(n))?nullptr:n; }

// ---------------------------------------------------------------- events
struct Ev { char k; Node*n; u128 v; int fid; };
static Ev *evs; static u32 nev, capev; static u64 opaqueCount, pinCount, skipDom, brCount;
static std::unordered_map<int,u64> *fidTouched;
extern "C" void __symx_finish(int why);
static void touch(int fid){ if(fidTouched) (*fidTouched)[fid]++; }
static void addEv(char k,Node*n,u128 v,int fid){ if(nev>=maxev){ __symx_finish(99); _exit(77);} if(nev==capev){ capev=capev?capev*2:1024; evs=(Ev*)realloc(evs,capev*sizeof(Ev)); } evs[nev++]={k,n,v,fid}; touch(fid); }
static i64 evalEpoch=1;
static u128 evalAt(Node*n,Var*v,u64 x){ if(n->op==CONST) return n->val; if(n->epoch==evalEpoch) return n->ev; u128 r;
  if(n->op==VAR) r=n->sup==v?x:n->val; else if(n->op==TABLE) r=n->sup==v?v->tables[n->imm][x]:n->val; else if(n->op==TEXT) r=n->val;
  else r=compute(n,n->a?evalAt(n->a,v,x):0,n->b?evalAt(n->b,v,x):0,n->c?evalAt(n->c,v,x):0);
  n->epoch=evalEpoch; n->ev=r; return r; }
static Node *findText(Node*n){ if(!n) return nullptr; if(n->op==TEXT) return n; if(!(n->flags&OPQ)) return nullptr; Node*x=findText(n->a); if(x) return x; x=findText(n->b); return x?x:findText(n->c); }
static bool onlyText(Node*n,Node*t){ if(!n||n==t) return true; if(n->op==VAR||n->op==TABLE) return false; if(n->op==TEXT) return false; if(n->op==CONST) return true; return onlyText(n->a,t)&&onlyText(n->b,t)&&onlyText(n->c,t); }
static u128 evalText(Node*n,Node*t,u64 x){ if(n==t) return x; if(n->op==CONST) return n->val; return compute(n,n->a?evalText(n->a,t,x):0,n->b?evalText(n->b,t,x):0,n->c?evalText(n->c,t,x):0); }
// TEXT imm: bits 0-7 i, 8-15 n, 16-23 kind (0 int signed, 1 real, 2 unsigned), 24-31 precision, 32-39 fmt ; a=expr
static void branch(Node*n,bool taken,int fid){
  if(!n||isC(n)) return; brCount++;
  if((n->val!=0)!=taken){ fprintf(stderr,"SYMCX: value mismatch at branch node %u op %s\n",n->id,opname[n->op]); opaqueCount++; return; }
  if(n->known) return;
  if(n->flags&OPQ){
    Node*t=findText(n);
    if(onlyText(n,t)&&((t->imm>>16)&255)!=1){ bool neg=false; unsigned i=t->imm&255; int tr[2]={-1,-1}; bool mixed=false; for(int d='0';d<='9';d++){ int r=evalText(n,t,d)?1:0; if(tr[0]<0) tr[0]=r; else if(tr[0]!=r) mixed=true; }
      if(i==0&&((t->imm>>16)&255)==0){ tr[1]=evalText(n,t,'-')?1:0; neg=true; }
      if(!mixed){ if(!neg||tr[0]==tr[1]) return; Node*s=eLt(SLT,t->a,kc(0,t->a->w)); branch(s,(i64)t->a->val<0,fid); return; } }
    if(onlyText(n,t)&&((t->imm>>16)&255)==1&&((t->imm>>32)&255)==9){ // numeral of a REAL hole: [-]digits.digits, position of '.' irrelevant
      u8 ch=(u8)t->val; unsigned i=t->imm&255; if(ch=='.') return; int tr[2]={-1,-1}; bool mixed=false; for(int d='0';d<='9';d++){ int r=evalText(n,t,d)?1:0; if(tr[0]<0) tr[0]=r; else if(tr[0]!=r) mixed=true; }
      if(!mixed){ if(i!=0) return; tr[1]=evalText(n,t,'-')?1:0; if(tr[0]==tr[1]) return; Node*s=eLt(SLT,toBV(t->a),kc(0,64)); branch(s,(i64)t->a->val<0,fid); return; } }
    if(onlyText(n,t)&&((t->imm>>16)&255)==1&&((t->imm>>32)&255)!=9){ // some character of a rendered REAL: decided when all of them behave alike
      static const char cs[]="0123456789.+einfa"; int r0=evalText(n,t,cs[0])?1:0; bool mixed=false; for(const char*q=cs;*q;q++) if((evalText(n,t,(u8)*q)?1:0)!=r0) mixed=true;
      int rm=evalText(n,t,'-')?1:0; if(!mixed){ if(rm==r0) return; if((t->imm&255)==0){ Node*s=eLt(SLT,toBV(t->a),kc(0,64)); branch(s,(i64)t->a->val<0,fid); return; } } }
    if(getenv("SYMCX_DBG")) fprintf(stderr,"OPQ op %s fid %d fmt %d prec %d i %d\n",opname[n->op],fid,(int)((t->imm>>32)&255),(int)((t->imm>>24)&255),(int)(t->imm&255));
    opaqueCount++; n->known=1; return; }
  if(n->sup&&!(n->flags&MULTI)){
    Var*v=n->sup; bool any0=false,any1=false; static bool tt[256]; for(u32 x=0;x<v->n;x++) if(v->alive[x]){ evalEpoch++; tt[x]=evalAt(n,v,x)!=0; (tt[x]?any1:any0)=true; }
    if(any0&&any1){ addEv('B',n,taken,fid); for(u32 x=0;x<v->n;x++) if(v->alive[x]&&tt[x]!=taken) v->alive[x]=false; }
    else skipDom++;
    return; }
  n->known=1; Node*nn=eNot(n); if(!isC(nn)) nn->known=1;
  // conjunctions: both sides known as well
  addEv('B',n,taken,fid);
}
static void concretize(Node*n,int fid){ if(!n||isC(n)) return;
  while(n->op==ADD&&(isC(n->a)||isC(n->b))) n=isC(n->a)?n->b:n->a;   // base addresses differ between runs: fix the symbolic offset
  if(isC(n)) return;
  if(n->flags&OPQ){ // a value computed from one character of a numeral: fixed when all characters it can be behave alike
    Node*t=findText(n); u64 kind=(t->imm>>16)&255; bool hole=kind==1&&((t->imm>>32)&255)==9;
    if(onlyText(n,t)&&!(hole&&(u8)t->val=='.')){ const char*cs=kind!=1||hole?"0123456789":"0123456789.+einfa"; u128 r0=evalText(n,t,cs[0]); bool mixed=false; for(const char*q=cs;*q;q++) if(evalText(n,t,(u8)*q)!=r0) mixed=true;
      if(!mixed){ if((t->imm&255)!=0||kind==2||evalText(n,t,'-')==r0) return; branch(eLt(SLT,kind==1?toBV(t->a):t->a,kc(0,t->a->w)),(i64)t->a->val<0,fid); return; } }
    if(getenv("SYMCX_DBG")) fprintf(stderr,"OPQ concretize %s fid %d i %d\n",opname[n->op],fid,(int)(t->imm&255)); opaqueCount++; return; }
  if(n->sup&&!(n->flags&MULTI)){ Var*v=n->sup; bool same=true; std::vector<u128> ev(v->n); for(u32 x=0;x<v->n;x++) if(v->alive[x]){ evalEpoch++; ev[x]=evalAt(n,v,x); if(ev[x]!=n->val) same=false; } if(same){ skipDom++; return; }
    addEv('C',n,n->val,fid); for(u32 x=0;x<v->n;x++) if(v->alive[x]&&ev[x]!=n->val) v->alive[x]=false; return; }
  if(n->known&2) return; n->known|=2; addEv('C',n,n->val,fid); }
static void pin(Node*n,int fid){ if(!n||isC(n)) return; if(n->flags&OPQ){ if(getenv("SYMCX_DBG")) fprintf(stderr,"OPQ pin %s fid %d\n",opname[n->op],fid); opaqueCount++; return; } if(n->sup&&!(n->flags&MULTI)){ concretize(n,fid); return; } if(n->known&2) return; n->known|=2; pinCount++; addEv('P',n,n->val,fid); }

// ---------------------------------------------------------------- shadow memory
static const u32 PT=1<<14; struct Page{ u64 no; Node**sh; Page*next; }; static Page*ptab[PT]; static u8 bloom[1<<16]; static bool anySh=false; static u64 bmin=~0ull,bmax=0;
static Node **pageOf(u64 addr,bool create){ u64 no=addr>>12; if(!create&&!bloom[no&0xffff]) return nullptr; u32 h=(no*0x9E3779B97F4A7C15ull)>>50; for(Page*p=ptab[h];p;p=p->next) if(p->no==no) return p->sh; if(!create) return nullptr; Page*p=(Page*)malloc(sizeof(Page)); p->no=no; p->sh=(Node**)calloc(4096,sizeof(Node*)); p->next=ptab[h]; ptab[h]=p; bloom[no&0xffff]=1; anySh=true; if(no<bmin)bmin=no; if(no>bmax)bmax=no; return p->sh; }
static inline Node *getB(u64 a){ Node**p=pageOf(a,false); return p?p[a&4095]:nullptr; }
static inline void setB(u64 a,Node*n){ Node**p=pageOf(a,n!=nullptr); if(p) p[a&4095]=n; }
static void clearRange(u64 a,u64 n){ if(!anySh||!n) return; u64 e=a+n; while(a<e){ u64 lim=(a|4095)+1; if(lim>e||lim==0) lim=e; Node**p=pageOf(a,false); if(p) memset(p+(a&4095),0,(lim-a)*sizeof(Node*)); a=lim; } }
static bool anyIn(u64 a,u64 n){ if(!anySh||!n) return false; u64 e=a+n; while(a<e){ u64 lim=(a|4095)+1; if(lim>e||lim==0) lim=e; Node**p=pageOf(a,false); if(p) for(u64 i=a;i<lim;i++) if(p[i&4095]) return true; a=lim; } return false; }
static Node *byteOr(u64 a){ Node*n=getB(a); return n?n:kc(*(u8*)a,8); }
static Node *loadBV(u64 a,unsigned size){ Node*r=byteOr(a); for(unsigned i=1;i<size;i++) r=eConcat(byteOr(a+i),r); return r; }
static void storeBV(u64 a,unsigned size,Node*v){ for(unsigned i=0;i<size;i++){ Node*b=size==1?v:(v->op==ADD||v->op==SUB||v->op==MUL||v->op==XOR)?mk(EXTRACT,8,0,v,0,0,i*8):eExtract(v,i*8,8); setB(a+i,isC(b)?nullptr:b); } }
static void copySh(u64 d,u64 s,u64 n){ if(!anySh||!n) return; if(!anyIn(s,n)){ clearRange(d,n); return; } std::vector<Node*> t(n); for(u64 i=0;i<n;i++) t[i]=getB(s+i); for(u64 i=0;i<n;i++) setB(d+i,t[i]); }

extern "C" {
void __sym_regfns(void*t,u32 n);
Node *__sym_load(void*p,u32 size,u32 fp,u32 w){ if(!anySh) return nullptr; u64 a=(u64)p; if(!anyIn(a,size)) return nullptr; Node*r=loadBV(a,size); if(w<size*8) r=eExtract(r,0,w); if(isC(r)) return nullptr; if(fp) r=toFP(r,w); return ret(r); }
void __sym_store(void*p,u32 size,u32 fp,Node*s,u32 w){ u64 a=(u64)p; if(!s){ clearRange(a,size); return; } if(fp) s=toBV(s); if(s->w<size*8) s=eZext(s,size*8); storeBV(a,size,s); }
void __sym_addr(Node*s,void*p,u32 fid){ if(s) concretize(s,fid); }
void __sym_alloca(void*p,u64 n){ clearRange((u64)p,n); }
Node *__sym_gepidx(Node*acc,Node*ix,u64 scale,u32 w){ if(!ix) return acc; Node*t=eBin(MUL,eSext(ix,64),kc(scale,64)); return acc?eBin(ADD,acc,t):t; }
Node *__sym_gepfin(Node*acc,void*res){ if(!acc) return nullptr; if(isC(acc)) return nullptr; return ret(eBin(ADD,acc,kc((u128)((u64)res-(u64)acc->val),64))); }
static Node *opn(Node*n,u64 v,unsigned w){ return n?n:kc(v,w); }
Node *__sym_bin(u32 op,u32 w,Node*a,u64 av,Node*b,u64 bv,u32 fid){
  if(!a&&!b) return nullptr; Node*x=opn(a,av,w),*y=opn(b,bv,w); u16 o;
  switch(op){ case 13:o=ADD;break; case 15:o=SUB;break; case 17:o=MUL;break; case 19:o=UDIV;break; case 20:o=SDIV;break; case 22:o=UREM;break; case 23:o=SREM;break; case 25:o=SHL;break; case 26:o=LSHR;break; case 27:o=ASHR;break; case 28:o=AND;break; case 29:o=OR;break; case 30:o=XOR;break;
    case 100: return ret(eIte(eLt(SLT,x,y),y,x)); case 101: return ret(eIte(eLt(SLT,x,y),x,y)); case 102: return ret(eIte(eLt(ULT,x,y),y,x)); case 103: return ret(eIte(eLt(ULT,x,y),x,y));
    case 104: return ret(eIte(eLt(SLT,x,kc(0,w)),eBin(SUB,kc(0,w),x),x));
    case 105: { Node*s=eBin(ADD,x,y); return ret(eIte(eLt(ULT,s,x),kc(~(u128)0,w),s)); } case 106: return ret(eIte(eLt(ULT,x,y),kc(0,w),eBin(SUB,x,y)));
    default: return nullptr; }
  if(o==UDIV||o==SDIV||o==UREM||o==SREM){ // faults become branches
    if(!isC(y)) branch(eEq(y,kc(0,w)),y->val==0,fid);
    if((o==SDIV||o==SREM)&&!(isC(y)&&y->val!=mask(~(u128)0,w))&&!(isC(x)&&x->val!=((u128)1)<<(w-1))){ Node*c1=eEq(y,kc(~(u128)0,w)),*c2=eEq(x,kc(((u128)1)<<(w-1),w)); Node*c=isC(c1)?(c1->val?c2:c1):isC(c2)?(c2->val?c1:c2):mk(AND,1,0,c1,c2,0,0); branch(c,c->val!=0,fid); } }
  return ret(eBin(o,x,y)); }
Node *__sym_ovf(u32 op,u32 w,Node*a,u64 av,Node*b,u64 bv){ if(!a&&!b) return nullptr; bool sg=op>=1000; op%=1000; Node*x=opn(a,av,w),*y=opn(b,bv,w); unsigned W=op==17?2*w:w+1; if(W>128) return nullptr; Node*X=sg?eSext(x,W):eZext(x,W),*Y=sg?eSext(y,W):eZext(y,W); Node*r=eBin(op==13?ADD:op==15?SUB:MUL,X,Y); Node*lo=eBin(op==13?ADD:op==15?SUB:MUL,x,y); Node*e=sg?eSext(lo,W):eZext(lo,W); return ret(eNot(eEq(r,e))); }
Node *__sym_cmp(u32 p,u32 w,Node*a,u64 av,Node*b,u64 bv){ if(!a&&!b) return nullptr; Node*x=opn(a,av,w),*y=opn(b,bv,w); Node*r;
  switch(p){ case 32:r=eEq(x,y);break; case 33:r=eNot(eEq(x,y));break; case 34:r=eLt(ULT,y,x);break; case 35:r=eLt(ULE,y,x);break; case 36:r=eLt(ULT,x,y);break; case 37:r=eLt(ULE,x,y);break; case 38:r=eLt(SLT,y,x);break; case 39:r=eLt(SLE,y,x);break; case 40:r=eLt(SLT,x,y);break; default:r=eLt(SLE,x,y);break; } return ret(r); }
static Node *AND1(Node*a,Node*b){ if(isC(a)) return a->val?b:a; if(isC(b)) return b->val?a:b; return mk(AND,1,0,a,b,0,0); }
static Node *OR1(Node*a,Node*b){ if(isC(a)) return a->val?a:b; if(isC(b)) return b->val?b:a; return mk(OR,1,0,a,b,0,0); }
Node *__sym_fcmp(u32 p,u32 w,Node*a,u64 av,Node*b,u64 bv){ if(!a&&!b) return nullptr; Node*x=a?a:kc(av,w,1),*y=b?b:kc(bv,w,1); 
  auto uno=[&]{return mk(FUNO,1,0,x,y,0,0);}; auto eq=[&]{return mk(FEQ,1,0,x,y,0,0);}; auto lt=[&](Node*l,Node*r){return mk(FLT,1,0,l,r,0,0);}; auto le=[&](Node*l,Node*r){return mk(FLE,1,0,l,r,0,0);};
  Node*r; switch(p){ case 0: return nullptr; case 1:r=eq();break; case 2:r=lt(y,x);break; case 3:r=le(y,x);break; case 4:r=lt(x,y);break; case 5:r=le(x,y);break; case 6:r=AND1(eNot(eq()),eNot(uno()));break; case 7:r=eNot(uno());break; case 8:r=uno();break; case 9:r=OR1(eq(),uno());break; case 10:r=eNot(le(x,y));break; case 11:r=eNot(lt(x,y));break; case 12:r=eNot(le(y,x));break; case 13:r=eNot(lt(y,x));break; case 14:r=eNot(eq());break; default:return nullptr; } return ret(r); }
Node *__sym_fbin(u32 op,u32 w,Node*a,u64 av,Node*b,u64 bv){ if(!a&&!b) return nullptr; Node*x=a?a:kc(av,w,1),*y=b?b:kc(bv,w,1); u16 o=op==14?FADD:op==16?FSUB:op==18?FMUL:op==21?FDIV:FREM; return ret(mk(o,w,1,x,y,0,0)); }
Node *__sym_fun(u32 k,u32 w,Node*a){ if(!a) return nullptr; if(k==0) return a->op==FNEG?a->a:mk(FNEG,w,1,a,0,0,0); if(k==1) return mk(FABS,w,1,a,0,0,0); if(k==7) return mk(FSQRT,w,1,a,0,0,0); return mk(FRTI,w,1,a,0,0,k); }
Node *__sym_cast(u32 op,u32 sw,u32 dw,Node*a){ if(!a) return nullptr; switch(op){
  case 38: return ret(eExtract(a,0,dw)); case 39: return ret(eZext(a,dw)); case 40: return ret(eSext(a,dw));
  case 41: return ret(mk(F2UI,dw,0,a,0,0,0)); case 42: return ret(mk(F2SI,dw,0,a,0,0,0)); case 43: return ret(mk(UI2F,dw,1,a,0,0,0)); case 44: return ret(mk(SI2F,dw,1,a,0,0,0));
  case 45: return ret(mk(FPTRUNC,dw,1,a,0,0,0)); case 46: return ret(mk(FPEXT,dw,1,a,0,0,0));
  case 47: case 48: return ret(dw<a->w?eExtract(a,0,dw):eZext(a,dw));
  case 49: return a->fp?a:a; default: return a; } }
Node *__sym_select(Node*c,u32 cv,u32 fp,u32 w,Node*a,u64 av,Node*b,u64 bv){ if(!c) return cv?a:b; Node*x=a?a:kc(av,w,fp),*y=b?b:kc(bv,w,fp); return ret(eIte(c,x,y)); }
void __sym_br(Node*c,u32 cv,u32 fid){ if(c) branch(c,cv,fid); }
void __sym_switch(Node*c,u64 v,u32 w,u32 n,u64*cs,u32 fid){ if(!c) return; for(u32 i=0;i<n;i++){ bool t=cs[i]==v; Node*e=eEq(c,kc(cs[i],w)); branch(e,t,fid); if(t) return; } }
void __sym_pin(Node*s,u32 fid){ if(s) pin(s,fid); }
void __sym_memcpy(u8*d,u8*s,u64 n,Node*ds,Node*ss,Node*ns,u32 fid){ if(ds) concretize(ds,fid); if(ss) concretize(ss,fid); if(ns) concretize(ns,fid); copySh((u64)d,(u64)s,n); }
void __sym_memset(u8*d,u32 v,u64 n,Node*ds,Node*vs,Node*ns,u32 fid){ if(ds) concretize(ds,fid); if(ns) concretize(ns,fid); if(!vs) clearRange((u64)d,n); else { Node*b=eExtract(vs,0,8); for(u64 i=0;i<n;i++) setB((u64)d+i,isC(b)?nullptr:b); } }
static int extfid=1;
// concretise the bytes of a std::string-like {char*,size_t}
void __sym_conc_string(void*p){ if(!p) return; struct S{char*p;u64 n;}*s=(S*)p; if(s->n<65536) for(u64 i=0;i<s->n;i++) if(Node*b=getB((u64)s->p+i)) concretize(b,extfid); }
}

// ---------------------------------------------------------------- argument protocol for wrappers
static bool tok(void*f){ bool r=__sym_token==f; __sym_token=nullptr; return r; }
#define ARG(ok,i) ((ok)?__sym_args[i]:nullptr)
static void setRet(Node*n,int i=0){ __sym_ret[i]=ret(n); }
static Node *sbyte(const void*p){ return getB((u64)p); }
static bool brEq(const void*p,u8 c){ Node*n=sbyte(p); bool t=*(u8*)p==c; if(n) branch(eEq(n,kc(c,8)),t,extfid); return t; }
static void concBytes(const void*p,u64 n){ if(anyIn((u64)p,n)) for(u64 i=0;i<n;i++) if(Node*b=getB((u64)p+i)) concretize(b,extfid); }
static Node *inRange(Node*b,u8 lo,u8 hi){ return eLt(ULE,eBin(SUB,b,kc(lo,8)),kc(hi-lo,8)); }

extern "C" {
#define W(name) __symw_##name
u64 W(strlen)(const char*s){ tok((void*)W(strlen)); u64 i=0; for(;;i++){ if(brEq(s+i,0)) break; } setRet(nullptr); return i; }
static int cmpBytes(const u8*a,const u8*b,u64 n,bool str){ for(u64 i=0;i<n;i++){ Node*x=sbyte(a+i),*y=sbyte(b+i); if(x||y){ Node*X=x?x:kc(a[i],8),*Y=y?y:kc(b[i],8); branch(eEq(X,Y),a[i]==b[i],extfid); if(a[i]!=b[i]){ branch(eLt(ULT,X,Y),a[i]<b[i],extfid); return a[i]<b[i]?-1:1; } } else if(a[i]!=b[i]) return a[i]<b[i]?-1:1; if(str&&a[i]==0){ return 0; } } return 0; }
static int eqBytes(const u8*a,const u8*b,u64 n){ for(u64 i=0;i<n;i++){ Node*x=sbyte(a+i),*y=sbyte(b+i); if(x||y){ Node*X=x?x:kc(a[i],8),*Y=y?y:kc(b[i],8); branch(eEq(X,Y),a[i]==b[i],extfid); } if(a[i]!=b[i]) return 1; } return 0; }
static u64 lenArg(bool ok,int i,u64 v){ Node*n=ARG(ok,i); if(n) concretize(n,extfid); return v; }
int W(memcmp)(const void*a,const void*b,u64 n){ bool k=tok((void*)W(memcmp)); lenArg(k,2,n); int r=anyIn((u64)a,n)||anyIn((u64)b,n)?cmpBytes((u8*)a,(u8*)b,n,false):memcmp(a,b,n); setRet(nullptr); return r; }
int W(bcmp)(const void*a,const void*b,u64 n){ bool k=tok((void*)W(bcmp)); lenArg(k,2,n); int r=anyIn((u64)a,n)||anyIn((u64)b,n)?eqBytes((u8*)a,(u8*)b,n):bcmp(a,b,n); setRet(nullptr); return r; }
int W(strcmp)(const char*a,const char*b){ tok((void*)W(strcmp)); int r=cmpBytes((u8*)a,(u8*)b,~0ull>>1,true); setRet(nullptr); return r; }
int W(strncmp)(const char*a,const char*b,u64 n){ tok((void*)W(strncmp)); int r=cmpBytes((u8*)a,(u8*)b,n,true); setRet(nullptr); return r; }
void *W(memchr)(const void*p,int c,u64 n){ bool k=tok((void*)W(memchr)); Node*cs=ARG(k,1); if(cs) concretize(cs,extfid); lenArg(k,2,n); setRet(nullptr); if(!anyIn((u64)p,n)) return (void*)memchr(p,c,n); for(u64 i=0;i<n;i++) if(brEq((u8*)p+i,(u8)c)) return (u8*)p+i; return nullptr; }
char *W(strchr)(const char*p,int c){ bool k=tok((void*)W(strchr)); Node*cs=ARG(k,1); if(cs) concretize(cs,extfid); setRet(nullptr); for(;;p++){ if(brEq(p,(u8)c)) return (char*)p; if(brEq(p,0)) return nullptr; } }
static Node *clsBuild(Node*a,int(*f)(int)){ // 32-bit int argument in -128..255; result 0/1 as i32
  Node*b=eExtract(a,0,8); Node*r=kc(0,1); int i=0; Node*hi=eEq(eExtract(a,8,24),kc(0,24)); // C locale: only 0..127 can be true
  (void)hi; while(i<256){ if(f(i)){ int j=i; while(j<255&&f(j+1)) j++; r=OR1(r,inRange(b,i,j)); i=j+1; } else i++; } 
  // negative values (sign-extended chars >=128) are not in any class in the C locale
  return eIte(r,kc(1,32),kc(0,32)); }
#define CLS(name) int W(name)(int c){ bool k=tok((void*)W(name)); Node*a=ARG(k,0); int v=name(c)?1:0; if(!a){ setRet(nullptr); return v; } Node*r=clsBuild(a,[](int x){return x<128&&name(x)?1:0;}); setRet(r); return v; }
CLS(isalpha) CLS(isalnum) CLS(isdigit) CLS(isspace) CLS(isupper) CLS(islower) CLS(ispunct) CLS(isprint) CLS(isxdigit)
int W(toupper)(int c){ bool k=tok((void*)W(toupper)); Node*a=ARG(k,0); if(a){ Node*b=eExtract(a,0,8); setRet(eIte(inRange(b,'a','z'),eBin(SUB,a,kc(32,32)),a)); } else setRet(nullptr); return toupper(c); }
int W(tolower)(int c){ bool k=tok((void*)W(tolower)); Node*a=ARG(k,0); if(a){ Node*b=eExtract(a,0,8); setRet(eIte(inRange(b,'A','Z'),eBin(ADD,a,kc(32,32)),a)); } else setRet(nullptr); return tolower(c); }

// --- numbers from text. A run of TEXT bytes denotes the number it renders.
// a run may start at its second character when the first is a minus sign (a lexer that treats '-' as an operator); then *neg is set
static Node *textRun(const char*p,unsigned*len,bool*neg){ Node*n=sbyte(p); *neg=false; if(!n||n->op!=TEXT||(n->imm&255)>1) return nullptr; unsigned st=n->imm&255; u64 kind=(n->imm>>16)&255; if(st==1){ bool ng=kind==0?(i64)sx(n->a->val,n->a->w)<0:kind==1?(n->a->val>>63)&1:false; if(!ng) return nullptr; *neg=true; } unsigned k=(n->imm>>8)&255; for(unsigned i=1;st+i<k;i++){ Node*m=sbyte(p+i); if(!m||m->op!=TEXT||m->a!=n->a||(m->imm&255)!=st+i||(m->imm>>8)!=(n->imm>>8)) return nullptr; } *len=k-st; return n; }
static bool brIn(const void*p,u8 lo,u8 hi){ Node*n=sbyte(p); u8 c=*(u8*)p; bool t=c>=lo&&c<=hi; if(n) branch(inRange(n,lo,hi),t,extfid); return t; }
static const char*skipws(const char*p){ while(true){ Node*n=sbyte(p); u8 c=*(u8*)p; bool t=c==' '||(c>=9&&c<=13); if(n) branch(OR1(eEq(n,kc(' ',8)),inRange(n,9,13)),t,extfid); if(!t) return p; p++; } }
static long strtoX(const char*s,char**end,int base,bool uns,Node**out){
  *out=nullptr; const char*p=skipws(s); unsigned len; bool tneg; Node*t=textRun(p,&len,&tneg);
  errno=0; 
  if(t&&base==10&&((t->imm>>16)&255)!=1){ char*e; long r=uns?(long)strtoul(p,&e,10):strtol(p,&e,10); if(e==p+len){ *end=e; Node*x=t->a; if(tneg){ // the digits of a negative number without its sign
        int er=errno; bool isMin=x->val==(u128)1<<(x->w-1); branch(eEq(x,kc((u128)1<<(x->w-1),x->w)),isMin,extfid); errno=er; if(isMin) return r; *out=eSext(eBin(SUB,kc(0,x->w),x),64); return r; }
      if(x->w<64) x=((t->imm>>16)&255)==2?eZext(x,64):eSext(x,64);
      if(((t->imm>>16)&255)==2&&!uns){ // unsigned text > INT64_MAX: range error
        branch(eLt(SLT,x,kc(0,64)),(i64)x->val<0,extfid); if((i64)x->val<0) return r; }
      *out=x; return r; } }
  bool any=false; for(const char*q=p;;q++){ if(sbyte(q)) {any=true;break;} if(!isalnum(*(u8*)q)&&*q!='-'&&*q!='+') break; }
  if(!any||base!=10){ if(any) for(const char*q=p;*q;q++) concBytes(q,1); char*e; long r=uns?(long)strtoul(s,&e,base):strtol(s,&e,base); *end=e; return r; }
  const char*q=p; bool neg=false; if(brEq(q,'-')){ neg=true; q++; } else if(brEq(q,'+')) q++;
  const char*d0=q; Node*acc=kc(0,64); while(brIn(q,'0','9')){ Node*b=byteOr((u64)q); acc=eBin(ADD,eBin(MUL,acc,kc(10,64)),eZext(eBin(SUB,b,kc('0',8)),64)); q++; if(q-d0>40) break; }
  char*e; long r=uns?(long)strtoul(s,&e,10):strtol(s,&e,10); *end=e; if(q==d0) return r;
  if(q-d0>18){ // possible overflow: pin the digits
    for(const char*z=d0;z<q;z++) if(Node*b=sbyte(z)) concretize(b,extfid); return r; }
  if(neg) acc=eBin(SUB,kc(0,64),acc); *out=ret(acc); return r; }
#define STRTO(name,type,uns) type W(name)(const char*s,char**end,int base){ tok((void*)W(name)); char*e; Node*o; int er; type r=(type)strtoX(s,&e,base,uns,&o); er=errno; if(end){ *end=e; clearRange((u64)end,8);} setRet(o); errno=er; return r; }
STRTO(__isoc23_strtol,long,false) STRTO(strtol,long,false) STRTO(__isoc23_strtoll,long,false) STRTO(strtoll,long,false)
STRTO(__isoc23_strtoul,long,true) STRTO(strtoul,long,true) STRTO(__isoc23_strtoull,long,true) STRTO(strtoull,long,true)
int W(atoi)(const char*s){ tok((void*)W(atoi)); char*e; Node*o; int r=(int)strtoX(s,&e,10,false,&o); setRet(o?eExtract(o,0,32):nullptr); return r; }
long W(atol)(const char*s){ tok((void*)W(atol)); char*e; Node*o; long r=strtoX(s,&e,10,false,&o); setRet(o); return r; }
extern "C" long __symr_rrun(const char*p,long avail){ unsigned len; bool neg; if(avail<=0) return 0; Node*t=textRun(p,&len,&neg); return t&&!neg&&((t->imm>>16)&255)==1&&(long)len<=avail?len:0; }
static double strtoD(const char*s,char**end,Node**out){ *out=nullptr; const char*p=skipws(s); unsigned len; bool tneg; Node*t=textRun(p,&len,&tneg);
  if(t&&tneg&&!(((t->imm>>16)&255)==1&&((t->imm>>32)&255)==9)) { pin(t->a,extfid); return strtod(s,end); }
  if(t){ char*e; double r=strtod(p,&e); if(e==p+len){ *end=e; unsigned kind=(t->imm>>16)&255; 
      if(kind==0){ *out=mk(SI2F,64,1,t->a,0,0,0); return r; } if(kind==2){ *out=mk(UI2F,64,1,t->a,0,0,0); return r; }
      unsigned prec=(t->imm>>24)&255,fmt=(t->imm>>32)&255; if(fmt==9||(fmt==0&&prec>=17)||(fmt==2&&prec>=16)||fmt==3){ *out=t->a; if(tneg) *out=mk(FNEG,64,1,t->a,0,0,0); if(dbits(r)!=(*out)->val) { *out=nullptr; opaqueCount++; } return r; }
      pin(t->a,extfid); return r; } 
    // text prefix of a rendered real (e.g. trailing zeros removed)
    pin(t->a,extfid); return strtod(s,end); }
  bool any=false; for(const char*q=p;;q++){ if(sbyte(q)) {any=true;break;} if(!*q||isspace(*(u8*)q)) break; }
  if(!any){ char*e; double r=strtod(s,&e); *end=e; return r; }
  // simple symbolic numerals: [sign] digits [. digits], anything else falls back to concretised bytes
  const char*q=p; bool neg=false; if(brEq(q,'-')){ neg=true; q++; } else if(brEq(q,'+')) q++;
  const char*d0=q; Node*acc=kc(0,64); int nd=0,nf=0; while(nd<18&&brIn(q,'0','9')){ Node*b=byteOr((u64)q); acc=eBin(ADD,eBin(MUL,acc,kc(10,64)),eZext(eBin(SUB,b,kc('0',8)),64)); q++; nd++; }
  if(nd<18&&brEq(q,'.')){ q++; while(nd<15&&brIn(q,'0','9')){ Node*b=byteOr((u64)q); acc=eBin(ADD,eBin(MUL,acc,kc(10,64)),eZext(eBin(SUB,b,kc('0',8)),64)); q++; nd++; nf++; } }
  char*e; double r=strtod(s,&e); *end=e; (void)d0;
  auto oneOf=[&](const char*set){ Node*b=sbyte(q); if(!b) return; Node*c=kc(0,1); bool t=false; for(const char*z=set;*z;z++){ c=OR1(c,eEq(b,kc((u8)*z,8))); t|=*(u8*)q==(u8)*z; } branch(c,t,extfid); };
  if(nd==0&&d0==q) oneOf("iInN");
  if(nd==0&&e==s) return r;      // no conversion
  bool sym=nd>0&&nd<=15; if(sym){ // the numeral must end here: no exponent, hex or special form
    oneOf("eExXpP0123456789");
    if(e!=q) sym=false; }
  if(!sym){ for(const char*z=p;*z;z++) if(Node*b=sbyte(z)) concretize(b,extfid); return r; }
  if(isC(acc)) return r;
  Node*f=mk(SI2F,64,1,acc,0,0,0); if(nf){ double d=1; for(int i=0;i<nf;i++) d*=10; f=mk(FDIV,64,1,f,kc(dbits(d),64,1),0,0); } if(neg) f=mk(FNEG,64,1,f,0,0,0);
  if(f->val!=dbits(r)){ opaqueCount++; return r; } *out=f; return r; }
double W(strtod)(const char*s,char**end){ tok((void*)W(strtod)); char*e; Node*o; double r=strtoD(s,&e,&o); int er=errno; if(end){ *end=e; clearRange((u64)end,8);} setRet(o); errno=er; return r; }
double W(__isoc23_strtod)(const char*s,char**end){ tok((void*)W(__isoc23_strtod)); char*e; Node*o; double r=strtoD(s,&e,&o); int er=errno; if(end){ *end=e; clearRange((u64)end,8);} setRet(o); errno=er; return r; }
double W(atof)(const char*s){ tok((void*)W(atof)); char*e; Node*o; double r=strtoD(s,&e,&o); setRet(o); return r; }
double W(modf)(double x,double*ip){ bool k=tok((void*)W(modf)); Node*a=ARG(k,0); double r=modf(x,ip); if(!a){ clearRange((u64)ip,8); setRet(nullptr); return r; } Node*t=mk(FRTI,64,1,a,0,0,4); storeBV((u64)ip,8,toBV(t)); Node*fr=mk(FSUB,64,1,a,t,0,0); 
  setRet(mk(ITE,64,1,mk(FEQ,1,0,a,t,0,0),kc(0,64,1),fr,0)); return r; }
#define F1(name,k) double W(name)(double x){ bool t=tok((void*)W(name)); Node*a=ARG(t,0); setRet(a?__sym_fun(k,64,a):nullptr); return name(x); }
F1(floor,2) F1(ceil,3) F1(trunc,4) F1(round,5) F1(fabs,1) F1(sqrt,7)
double W(fmod)(double x,double y){ bool k=tok((void*)W(fmod)); Node*a=ARG(k,0),*b=ARG(k,1); if(a||b) setRet(mk(FREM,64,1,a?a:kc(dbits(x),64,1),b?b:kc(dbits(y),64,1),0,0)); else setRet(nullptr); return fmod(x,y); }
#define P1(name) double W(name)(double x){ bool t=tok((void*)W(name)); Node*a=ARG(t,0); if(a) pin(a,extfid); setRet(nullptr); return name(x); }
#define P2(name) double W(name)(double x,double y){ bool t=tok((void*)W(name)); Node*a=ARG(t,0); if(a) pin(a,extfid); a=ARG(t,1); if(a) pin(a,extfid); setRet(nullptr); return name(x,y); }
P2(pow) P1(sin) P1(cos) P1(tan) P1(asin) P1(acos) P1(atan) P2(atan2) P1(exp) P1(log) P1(log10)

void *W(malloc)(u64 n){ bool k=tok((void*)W(malloc)); lenArg(k,0,n); setRet(nullptr); void*p=malloc(n); if(p) clearRange((u64)p,n); return p; }
void *W(calloc)(u64 n,u64 m){ tok(0); setRet(nullptr); void*p=calloc(n,m); if(p) clearRange((u64)p,n*m); return p; }
void *W(realloc)(void*o,u64 n){ tok(0); setRet(nullptr); std::vector<Node*> t; u64 on=o?malloc_usable_size(o):0; if(on>n) on=n; for(u64 i=0;i<on;i++) t.push_back(getB((u64)o+i)); void*p=realloc(o,n); if(p){ clearRange((u64)p,n); for(u64 i=0;i<on;i++) if(t[i]) setB((u64)p+i,t[i]); } return p; }
void W(free)(void*p){ tok(0); if(p&&anySh) clearRange((u64)p,malloc_usable_size(p)); free(p); }
void *W(memcpy)(void*d,const void*s,u64 n){ bool k=tok((void*)W(memcpy)); __sym_memcpy((u8*)d,(u8*)s,n,ARG(k,0),ARG(k,1),ARG(k,2),extfid); setRet(nullptr); return memcpy(d,s,n); }
void *W(memmove)(void*d,const void*s,u64 n){ bool k=tok((void*)W(memmove)); __sym_memcpy((u8*)d,(u8*)s,n,ARG(k,0),ARG(k,1),ARG(k,2),extfid); setRet(nullptr); return memmove(d,s,n); }
void *W(memset)(void*d,int c,u64 n){ bool k=tok((void*)W(memset)); __sym_memset((u8*)d,c,n,ARG(k,0),ARG(k,1),ARG(k,2),extfid); setRet(nullptr); return memset(d,c,n); }
char *W(strcpy)(char*d,const char*s){ tok(0); u64 n=strlen(s)+1; copySh((u64)d,(u64)s,n); setRet(nullptr); return strcpy(d,s); }
char *W(strdup)(const char*s){ tok(0); u64 n=strlen(s)+1; char*d=(char*)malloc(n); copySh((u64)d,(u64)s,n); memcpy(d,s,n); setRet(nullptr); return d; }
int W(vsnprintf)(char*b,u64 n,const char*f,va_list ap){ tok(0); int r=vsnprintf(b,n,f,ap); clearRange((u64)b,n); setRet(nullptr); return r; }
int W(snprintf)(char*b,u64 n,const char*f,...){ tok(0); va_list ap; va_start(ap,f); int r=vsnprintf(b,n,f,ap); va_end(ap); clearRange((u64)b,n); setRet(nullptr); return r; }

// --- environment choices
static std::vector<Node*> *randq; static size_t randi; static Node*timeNode; static i64 timeVal=1700000000;
int W(rand)(void){ tok(0); if(randq&&randi<randq->size()){ Node*n=(*randq)[randi++]; setRet(n); return (int)n->val; } setRet(nullptr); return 12345; }
long W(time)(long*t){ tok(0); if(t){ *t=timeVal; storeBV((u64)t,8,timeNode?timeNode:kc(timeVal,64)); } setRet(timeNode); return timeVal; }
long W(_ZNSt6chrono3_V212system_clock3nowEv)(){ tok(0); setRet(nullptr); return timeVal*1000000000l; }
struct tm *W(localtime)(const time_t*t){ tok(0); concBytes(t,8); setRet(nullptr); return gmtime(t); }
struct tm *W(localtime_r)(const time_t*t,struct tm*o){ tok(0); concBytes(t,8); setRet(nullptr); clearRange((u64)o,sizeof*o); return gmtime_r(t,o); }
struct tm *W(gmtime)(const time_t*t){ tok(0); concBytes(t,8); setRet(nullptr); return gmtime(t); }
int W(clock_gettime)(int c,struct timespec*t){ tok(0); setRet(nullptr); t->tv_sec=timeVal; t->tv_nsec=0; return 0; }
int W(gettimeofday)(struct timeval*t,void*z){ tok(0); setRet(nullptr); t->tv_sec=timeVal; t->tv_usec=0; return 0; }
u64 W(_ZSt11_Hash_bytesPKvmm)(const void*p,u64 n,u64 seed){ tok(0); concBytes(p,n); setRet(nullptr); return std::_Hash_bytes(p,n,seed); }

// --- stdin
static std::string *inbuf; static u64 inpos; static bool inloaded;
static void loadIn(){ if(inloaded) return; inloaded=true; inbuf=new std::string; char b[4096]; ssize_t k; while((k=read(0,b,sizeof b))>0) inbuf->append(b,k); }
u64 inConsumed(){ return inpos; }
static void attach(Chan*c,u64 off,u64 addr,u64 n){ clearRange(addr,n); if(c->sh.empty()) return; for(u64 i=0;i<n;i++){ auto it=c->sh.find(off+i); if(it!=c->sh.end()&&it->second) setB(addr+i,it->second); } }
char *W(readline)(const char*prompt){ tok(0); setRet(nullptr); loadIn(); if(inpos>=inbuf->size()) return nullptr; Chan*c=chan("-"); u64 st=inpos,e=st; while(e<inbuf->size()){ Node*n=nullptr; auto it=c->sh.find(e); if(it!=c->sh.end()) n=it->second; bool t=(*inbuf)[e]=='\n'; if(n) branch(eEq(n,kc('\n',8)),t,extfid); if(t) break; e++; }
  char*b=(char*)malloc(e-st+1); memcpy(b,inbuf->data()+st,e-st); b[e-st]=0; attach(c,st,(u64)b,e-st); clearRange((u64)b+(e-st),1); inpos=e<inbuf->size()?e+1:e; return b; }
i64 __symr_in(char*b,i64 n){ tok(0); setRet(nullptr); loadIn(); i64 k=0; Chan*c=chan("-"); while(k<n&&inpos<inbuf->size()){ b[k]=(*inbuf)[inpos]; attach(c,inpos,(u64)b+k,1); inpos++; k++; if(b[k-1]=='\n') break; } return k; }

// --- stdout / stderr
struct OutCh { std::string s; std::vector<std::pair<u64,Node*>> sh; }; static OutCh *outch;
void __symr_out(int ch,const char*s,i64 n){ bool k=tok((void*)__symr_out); Node*ns=ARG(k,2); if(ns) concretize(ns,extfid); OutCh&o=outch[ch]; for(i64 i=0;i<n;i++) if(Node*b=getB((u64)s+i)) o.sh.push_back({o.s.size()+i,b}); o.s.append(s,n); }

// --- rendering numbers
static void lenEvents(Node*x,bool uns){ // number of characters of the decimal text becomes part of the path
  unsigned w=x->w; if(!uns){ bool neg=(i128)sx(x->val,w)<0; branch(eLt(SLT,x,kc(0,w)),neg,extfid); 
    i128 v=sx(x->val,w); u128 m=v<0?(u128)-v:(u128)v; u128 t=10; for(int d=1;d<19;d++,t*=10){ bool fits=m<t; if(!neg) branch(eLt(SLT,x,kc(t,w)),fits,extfid); else branch(eLt(SLE,x,kc((u128)(-(i128)t),w)),!fits,extfid); if(fits) break; } }
  else { u128 m=x->val,t=10; for(int d=1;d<20;d++,t*=10){ bool fits=m<t; branch(eLt(ULT,x,kc(t,w)),fits,extfid); if(fits) break; } } }
static bool smallDom(Node*x){ if(!x->sup||(x->flags&MULTI)) return false; unsigned k=0; for(u32 i=0;i<x->sup->n;i++) k+=x->sup->alive[i]; return k<=16; }
static void putText(Node*x,char*buf,unsigned n,u64 kind,u64 prec,u64 fmt){ clearRange((u64)buf,n); if(!x||isC(x)) return; if(smallDom(x)&&kind!=1){ concretize(x,extfid); return; } if(x->flags&OPQ){ return; } for(unsigned i=0;i<n;i++) setB((u64)buf+i,mk(TEXT,8,0,x,0,0,i|((u64)n<<8)|(kind<<16)|(prec<<24)|(fmt<<32),(u8)buf[i])); }
// buf must hold 64 bytes; direct!=0: the text goes straight to an output channel (its length need not be fixed)
i64 __symr_itext(i64 v,char*buf,int direct){ bool k=tok((void*)__symr_itext); Node*x=ARG(k,0); setRet(nullptr); int n=snprintf(buf,64,"%ld",(long)v); if(x&&!isC(x)&&!direct&&!smallDom(x)) lenEvents(x,false); putText(x,buf,n,0,0,0); return n; }
i64 __symr_utext(u64 v,char*buf,int direct){ bool k=tok((void*)__symr_utext); Node*x=ARG(k,0); setRet(nullptr); int n=snprintf(buf,64,"%lu",(unsigned long)v); if(x&&!isC(x)&&!direct&&!smallDom(x)) lenEvents(x,true); putText(x,buf,n,2,0,0); return n; }
i64 __symr_dtext(double v,char*buf,i64 cap,const char*cfmt,int prec,int fmt,int direct){ bool k=tok((void*)__symr_dtext); Node*x=ARG(k,0); setRet(nullptr); int n=snprintf(buf,cap,cfmt,prec,v); if(n>=cap) n=cap-1; if(n>255){ if(x) pin(x,extfid); clearRange((u64)buf,n); } else putText(x,buf,n,1,prec&255,fmt); return n; }
}
// --- files
#undef W
struct FInfo{ std::string path; };
static std::unordered_map<const void*,std::string> *fopenMap;
typedef std::__basic_file<char> BF;
struct BFraw{ FILE*f; bool created; };
extern "C" {
BF *__symw__ZNSt12__basic_fileIcE4openEPKcSt13_Ios_Openmodei(BF*t,const char*name,std::ios_base::openmode m,int pr){ tok(0); concBytes(name,strlen(name)+1); BF*r=t->open(name,m,pr); if(r){ std::string p=name; if(p.compare(0,2,"./")==0) p=p.substr(2); (*fopenMap)[t]=p; if((m&std::ios_base::trunc)||((m&std::ios_base::out)&&!(m&(std::ios_base::in|std::ios_base::app)))) chan(p)->sh.clear(); } setRet(nullptr); return r; }
BF *__symw__ZNSt12__basic_fileIcE5closeEv(BF*t){ tok(0); setRet(nullptr); BF*r=t->close(); fopenMap->erase(t); return r; }
i64 __symw__ZNSt12__basic_fileIcE6xsgetnEPcl(BF*t,char*b,i64 n){ tok(0); setRet(nullptr); i64 off=lseek(t->fd(),0,SEEK_CUR); i64 k=t->xsgetn(b,n); if(k>0){ auto it=fopenMap->find(t); if(it!=fopenMap->end()) attach(chan(it->second),off,(u64)b,k); else clearRange((u64)b,k); } return k; }
static void wrote(BF*t,const char*s,i64 n,i64 off){ auto it=fopenMap->find(t); if(it==fopenMap->end()) return; Chan*c=chan(it->second); for(i64 i=0;i<n;i++){ Node*b=getB((u64)s+i); if(b) c->sh[off+i]=b; else if(!c->sh.empty()) c->sh.erase(off+i); } }
i64 __symw__ZNSt12__basic_fileIcE6xsputnEPKcl(BF*t,const char*s,i64 n){ tok(0); setRet(nullptr); i64 k=t->xsputn(s,n); if(k>0) wrote(t,s,k,lseek(t->fd(),0,SEEK_CUR)-k); return k; }
i64 __symw__ZNSt12__basic_fileIcE8xsputn_2EPKclS2_l(BF*t,const char*s,i64 n,const char*s2,i64 n2){ tok(0); setRet(nullptr); i64 k=t->xsputn_2(s,n,s2,n2); if(k==n+n2){ i64 e=lseek(t->fd(),0,SEEK_CUR); wrote(t,s,n,e-k); wrote(t,s2,n2,e-n2); } return k; }
i64 __symw__ZNSt12__basic_fileIcE7seekoffElSt12_Ios_Seekdir(BF*t,i64 o,std::ios_base::seekdir d){ tok(0); setRet(nullptr); return t->seekoff(o,d); }
i64 __symw__ZNSt12__basic_fileIcE9showmanycEv(BF*t){ tok(0); setRet(nullptr); return t->showmanyc(); }
}

// ---------------------------------------------------------------- heap: shadows die with the block
void *operator new(size_t n){ void*p=malloc(n?n:1); if(!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n){ void*p=malloc(n?n:1); if(!p) throw std::bad_alloc(); return p; }
void operator delete(void*p) noexcept { if(!p) return; if(anySh) clearRange((u64)p,malloc_usable_size(p)); free(p); }
void operator delete[](void*p) noexcept { if(!p) return; if(anySh) clearRange((u64)p,malloc_usable_size(p)); free(p); }
void operator delete(void*p,size_t) noexcept { ::operator delete(p); }
void operator delete[](void*p,size_t) noexcept { ::operator delete(p); }

// ---------------------------------------------------------------- start / finish
struct FnEnt{ u32 id; const char*name; }; static FnEnt**ftabs; static u32*ftabn; static u32 nft;
extern "C" void __sym_regfns(void*t,u32 n){ ftabs=(FnEnt**)realloc(ftabs,(nft+1)*sizeof(void*)); ftabn=(u32*)realloc(ftabn,(nft+1)*4); ftabs[nft]=(FnEnt*)t; ftabn[nft]=n; nft++; }
static FILE*tf;
static void dumpNode(Node*n){ if(!n||n->dumped) return; 
  std::vector<Node*> st{n}; while(!st.empty()){ Node*x=st.back(); if(x->dumped){ st.pop_back(); continue; } Node*k[3]={x->a,x->b,x->c}; bool ready=true; for(Node*y:k) if(y&&!y->dumped){ st.push_back(y); ready=false; } if(!ready) continue; x->dumped=1; st.pop_back();
    fprintf(tf,"N %u %s %u %d %u %u %u %llu",x->id,opname[x->op],x->w,x->fp,x->a?x->a->id:0,x->b?x->b->id:0,x->c?x->c->id:0,(unsigned long long)x->imm);
    if(x->op==CONST) fprintf(tf," %llx%016llx",(unsigned long long)(u64)(x->val>>64),(unsigned long long)(u64)x->val); else if(x->op==VAR) fprintf(tf," %d",x->sup->id); else if(x->op==TABLE){ fprintf(tf," %d",x->sup->id); for(u8 tb:x->sup->tables[x->imm]) fprintf(tf," %u",tb); } else if(x->op==TEXT) fprintf(tf," %u",(unsigned)x->val); fputc('\n',tf); } }
static void hex(const std::string&s){ for(unsigned char c:s) fprintf(tf,"%02x",c); }
extern "C" u64 inConsumed();
extern "C" void __symx_finish(int why){ if(finished||!inited) return; finished=true;
  if(outch){ size_t o=0; for(int ch=1;ch<=2;ch++){ const std::string&s=outch[ch].s; o=0; while(o<s.size()){ ssize_t k=write(ch,s.data()+o,s.size()-o); if(k<=0) break; o+=k; } } }
  if(!tracefile) return; { struct rlimit rl; if(!getrlimit(RLIMIT_FSIZE,&rl)){ rl.rlim_cur=rl.rlim_max; setrlimit(RLIMIT_FSIZE,&rl); } } tf=fopen(tracefile,"w"); if(!tf) return;
  fprintf(tf,"S %d %llu\n",why,(unsigned long long)inConsumed());
  for(u32 i=0;i<nev;i++) dumpNode(evs[i].n);
  for(int ch=1;ch<=2;ch++) for(auto&p:outch[ch].sh) dumpNode(p.second);
  for(auto&c:*chans) for(auto&p:c.second.sh) dumpNode(p.second);
  for(u32 i=0;i<nev;i++) fprintf(tf,"E %c %u %llu %d\n",evs[i].k,evs[i].n->id,(unsigned long long)evs[i].v,evs[i].fid);
  for(int ch=1;ch<=2;ch++){ fprintf(tf,"O %d ",ch); hex(outch[ch].s); fputc('\n',tf); for(auto&p:outch[ch].sh) fprintf(tf,"o %llu %u\n",(unsigned long long)p.first,p.second->id); }
  for(auto&c:*chans) if(c.first!="-"&&!c.second.sh.empty()){ fprintf(tf,"F "); hex(c.first); fputc('\n',tf); for(auto&p:c.second.sh) fprintf(tf,"f %llu %u\n",(unsigned long long)p.first,p.second->id); }
  for(auto&t:*fidTouched){ const char*nm="(library model)"; for(u32 i=0;i<nft;i++) for(u32 j=0;j<ftabn[i];j++) if(ftabs[i][j].id==(u32)t.first) nm=ftabs[i][j].name; fprintf(tf,"T %d %llu %s\n",t.first,(unsigned long long)t.second,nm); }
  fprintf(tf,"D opaque=%llu pins=%llu domskip=%llu branches=%llu nodes=%u\n",(unsigned long long)opaqueCount,(unsigned long long)pinCount,(unsigned long long)skipDom,(unsigned long long)brCount,nextid);
  fprintf(tf,"Z\n"); fclose(tf); }
static void onsig(int s){ __symx_finish(s); signal(s,SIG_DFL); raise(s); _exit(128+s); }
static std::string unhex(const char*h){ std::string r; while(h[0]&&h[1]){ unsigned x; sscanf(h,"%2x",&x); r+=(char)x; h+=2; } return r; }
extern "C" __attribute__((constructor(101))) void __symx_init(){ if(inited) return; 
  vars=new std::vector<Var*>; chans=new std::map<std::string,Chan>; fidTouched=new std::unordered_map<int,u64>; outch=new OutCh[3]; fopenMap=new std::unordered_map<const void*,std::string>; 
  inited=true; tracefile=getenv("SYMCX_TRACE");
  static char stk[1<<16]; stack_t ss; ss.ss_sp=stk; ss.ss_size=sizeof stk; ss.ss_flags=0; sigaltstack(&ss,nullptr); struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_handler=onsig; sa.sa_flags=SA_ONSTACK; for(int s:{SIGSEGV,SIGABRT,SIGFPE,SIGILL,SIGBUS,SIGALRM,SIGTERM,SIGXCPU,SIGTRAP}) sigaction(s,&sa,nullptr);
  if(const char*al=getenv("SYMCX_ALARM")) alarm(atoi(al));
  const char*cfg=getenv("SYMCX_CFG"); if(!cfg) return; FILE*f=fopen(cfg,"r"); if(!f) return; char*line=nullptr; size_t cap=0; ssize_t ln; Chan*cur=nullptr; randq=new std::vector<Node*>;
  auto var=[&](int id)->Var*{ while((int)vars->size()<=id) vars->push_back(nullptr); return (*vars)[id]; };
  while((ln=getline(&line,&cap,f))>0){ if(line[ln-1]=='\n') line[--ln]=0; char*sv; char*t=strtok_r(line," ",&sv); if(!t) continue; auto nx=[&]{ char*z=strtok_r(nullptr," ",&sv); return z?z:(char*)"0"; };
    if(t[0]=='v'){ int id=atoi(nx()); std::string k=nx(); Var*v=new Var(); v->id=id; v->n=0; if(k=="byte"){ v->kind=0; v->n=256; v->val=strtoull(nx(),0,10); } else if(k=="choice"){ v->kind=1; v->n=atoi(nx()); v->val=strtoull(nx(),0,10); } else if(k=="int"){ v->kind=2; v->val=(u64)strtoll(nx(),0,10); } else if(k=="int31"){ v->kind=4; v->val=strtoull(nx(),0,10);} else { v->kind=3; v->val=strtoull(nx(),0,16); } for(u32 i=0;i<256;i++) v->alive[i]=i<v->n; if(k=="byte"||k=="choice"){ char*z=strtok_r(nullptr," ",&sv); if(z&&strlen(z)>1){ std::string al=unhex(z); for(u32 i=0;i<256;i++) v->alive[i]=false; for(unsigned char c:al) v->alive[c]=true; } } var(id); (*vars)[id]=v; }
    else if(t[0]=='c'){ std::string n=unhex(nx()); cur=chan(n); }
    else if(t[0]=='m'){ u64 off=strtoull(nx(),0,10); std::string k=nx(); Var*v=var(atoi(nx())); Node*n=nullptr;
      if(k=="b") n=mk(VAR,8,0,0,0,0,0,0,v); else if(k=="t"){ std::vector<u8> tb; for(u32 i=0;i<v->n;i++) tb.push_back(atoi(nx())); u64 ti=~0ull; for(u64 i=0;i<v->tables.size();i++) if(v->tables[i]==tb) ti=i; if(ti==~0ull){ ti=v->tables.size(); v->tables.push_back(tb);} bool cst=true; for(u32 i=1;i<v->n;i++) if(tb[i]!=tb[0]) cst=false; if(!cst) n=mk(TABLE,8,0,0,0,0,ti,0,v); }
      else { u64 i=atoi(nx()),cn=atoi(nx()); int ch=atoi(nx()); Node*x=k=="i"?mk(VAR,64,0,0,0,0,0,0,v):mk(VAR,64,1,0,0,0,0,0,v); n=mk(TEXT,8,0,x,0,0,i|(cn<<8)|((u64)(k=="i"?0:1)<<16)|(k=="g"?(u64)17<<24:0)|((u64)(k=="r"?9:0)<<32),ch); }
      if(cur&&n) cur->sh[off]=n; }
    else if(t[0]=='q'){ Var*v=var(atoi(nx())); v->kind=4; randq->push_back(eExtract(eZext(mk(VAR,31,0,0,0,0,0,0,v),32),0,32)); }
    else if(t[0]=='x') maxev=strtoull(nx(),0,10);
    else if(t[0]=='r'){ randq->push_back(nullptr); }
    else if(t[0]=='w'){ timeVal=strtoll(nx(),0,10); }
  } fclose(f); free(line); }
extern "C" __attribute__((destructor(101))) void __symx_fini(){ __symx_finish(0); }
