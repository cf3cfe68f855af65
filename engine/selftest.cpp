#include "expr.h"
#include <random>
std::mt19937_64 R(1);
// pairs: simplified expression and reference evaluation closure through a parallel tree
struct T { EOp op; unsigned w; uint32_t aux; int k[3]; u128 v; };
std::vector<T> ts; std::vector<EP> es;
u128 ev(int i,const Model&m){ T&t=ts[i]; if(t.op==E_CONST) return t.v&maskw(t.w); if(t.op==E_VAR) return m.get(t.aux)&maskw(t.w); u128 a=ev(t.k[0],m), b=t.k[1]>=0?ev(t.k[1],m):0, c=t.k[2]>=0?ev(t.k[2],m):0; return evalOp(t.op,t.w,t.aux,a,ts[t.k[0]].w,b,t.k[1]>=0?ts[t.k[1]].w:0,c); }
u128 rc(unsigned w){ switch(R()%6){case 0:return (R()%20); case 1:return -(u128)(R()%20); case 2: return R(); case 3: return R()%100000; case 4: return (u128)1<<(R()%w); default: return -(u128)(R()%100000);} }
int main(int argc,char**argv){ long N=atol(argv[1]); long bad=0; Model m;
 for(long it=0;it<N;it++){ ts.clear(); es.clear(); unsigned W[]={8,16,32,64,64,64,12,1};
  for(int i=0;i<3;i++){ unsigned w=W[R()%8]; ts.push_back({E_VAR,w,(uint32_t)(100*w+i),{-1,-1,-1},0}); es.push_back(mkvar(100*w+i,w)); }
  for(int s=0;s<14;s++){ int a=R()%ts.size(); unsigned w=ts[a].w; int kind=R()%10;
   if(kind<1){ unsigned nw=W[R()%8]; if(nw<w){ ts.push_back({E_EXTRACT,nw,0,{a,-1,-1},0}); es.push_back(mkExtract(es[a],0,nw)); } else { bool z=R()%2; ts.push_back({z?E_ZEXT:E_SEXT,nw,0,{a,-1,-1},0}); es.push_back(z?mkZext(es[a],nw):mkSext(es[a],nw)); } continue; }
   if(kind<2&&w<64){ bool z=R()%3; ts.push_back({z?E_ZEXT:E_SEXT,64,0,{a,-1,-1},0}); es.push_back(z?mkZext(es[a],64):mkSext(es[a],64)); continue; }
   int b=-1; std::vector<int> c; for(int j=0;j<(int)ts.size();j++) if(ts[j].w==w) c.push_back(j);
   if(kind<8){ u128 v=rc(w)&maskw(w); ts.push_back({E_CONST,w,0,{-1,-1,-1},v}); es.push_back(mkc(v,w)); b=ts.size()-1; } else b=c[R()%c.size()];
   static const EOp ops[]={E_ADD,E_SUB,E_MUL,E_UDIV,E_SDIV,E_UREM,E_SREM,E_AND,E_OR,E_XOR,E_SHL,E_LSHR,E_ASHR,E_EQ,E_ULT,E_ULE,E_SLT,E_SLE,E_UDIV,E_SDIV,E_UREM,E_SREM,E_ADD,E_ITE};
   EOp op=ops[R()%24];
   if(op==E_ITE){ std::vector<int> q; for(int j=0;j<(int)ts.size();j++) if(ts[j].w==1) q.push_back(j); if(q.empty()) continue; int k=q[R()%q.size()]; ts.push_back({E_ITE,w,0,{k,a,b},0}); es.push_back(mkIte(es[k],es[a],es[b])); continue; }
   bool cmp=op>=E_EQ&&op<=E_SLE; bool sw=R()%2&&cmp; int x=sw?b:a,y=sw?a:b; ts.push_back({op,cmp?1u:w,0,{x,y,-1},0}); es.push_back(mk2(op,es[x],es[y])); }
  for(int t=0;t<12;t++){ m.v.clear(); for(int j=0;j<(int)ts.size();j++) if(ts[j].op==E_VAR) m.set(ts[j].aux,rc(64)&maskw(ts[j].w));
   for(int j=0;j<(int)ts.size();j++){ u128 g; evalExpr(es[j],m,g); u128 e=ev(j,m); s128 lo,hi; rng(es[j],lo,hi); s128 sv=sx128(e,ts[j].w); if(g!=e||sv<lo||sv>hi){ bad++; if(bad<10) printf("BAD it=%ld op=%d w=%u got=%llx want=%llx range %lld %lld a=%d b=%d\n",it,ts[j].op,ts[j].w,(unsigned long long)g,(unsigned long long)e,(long long)lo,(long long)hi,ts[j].k[0],ts[j].k[1]); break; } } }
 } printf("bad=%ld nodes=%zu\n",bad,EC.nodes); }
