#include "emp-tool/emp-tool.h"
#include <vector>
#include <random>
using namespace emp;
struct G{int t; uint32_t a,b,o;};
struct Rec: CircuitExecution, ProtocolExecution { std::vector<G> g; uint32_t n=2;
 static block mk(uint32_t i){block b=zero_block; memcpy(&b,&i,4); return b;} static uint32_t ix(const block&b){uint32_t i; memcpy(&i,&b,4); return i;}
 block and_gate(const block&a,const block&b)override{g.push_back({0,ix(a),ix(b),n});return mk(n++);}
 block xor_gate(const block&a,const block&b)override{g.push_back({1,ix(a),ix(b),n});return mk(n++);}
 block not_gate(const block&a)override{g.push_back({2,ix(a),0,n});return mk(n++);}
 block public_label(bool b)override{return mk(b);} uint64_t num_and()override{return 0;}
 void feed(block*l,int,const bool*,int k)override{for(int i=0;i<k;++i)l[i]=mk(n++);}
 void reveal(bool*,int,const block*,int)override{} };
struct Circ{std::vector<G> g; uint32_t n; uint32_t in[2][32]; std::vector<uint32_t> out;};
static Circ record(const std::string&op){ Rec r; CircuitExecution::circ_exec=&r; ProtocolExecution::prot_exec=&r; Circ c; Float a(0.f,ALICE),b(0.f,BOB);
 for(int i=0;i<32;++i){c.in[0][i]=Rec::ix(a.value[i].bit);c.in[1][i]=Rec::ix(b.value[i].bit);} r.g.clear();
 auto put=[&](const Float&f){for(int i=0;i<32;++i)c.out.push_back(Rec::ix(f.value[i].bit));}; auto pb=[&](const Bit&x){c.out.push_back(Rec::ix(x.bit));};
 if(op=="add")put(a+b);if(op=="sub")put(a-b);if(op=="mul")put(a*b);if(op=="div")put(a/b);if(op=="sqr")put(a.sqr());if(op=="sqrt")put(a.sqrt());
 if(op=="eq")pb(a.equal(b));if(op=="le")pb(a.less_equal(b));if(op=="lt")pb(a.less_than(b));
 if(op=="sin")put(a.sin());if(op=="cos")put(a.cos());if(op=="exp2")put(a.exp2());if(op=="exp")put(a.exp());if(op=="ln")put(a.ln());if(op=="log2")put(a.log2());
 c.g=r.g;c.n=r.n;return c;}
static void eval(const Circ&c,const uint32_t*x,const uint32_t*y,uint32_t*o,std::vector<uint64_t>&w){ w.resize(c.n); w[0]=0;w[1]=~0ull; for(int i=0;i<32;++i){uint64_t p=0,q=0;for(int k=0;k<64;++k){p|=(uint64_t)((x[k]>>i)&1)<<k;q|=(uint64_t)((y[k]>>i)&1)<<k;}w[c.in[0][i]]=p;w[c.in[1][i]]=q;}
 for(auto&g:c.g)w[g.o]=g.t==0?w[g.a]&w[g.b]:g.t==1?w[g.a]^w[g.b]:~w[g.a];
 for(int k=0;k<64;++k){uint32_t v=0;for(size_t i=0;i<c.out.size();++i)v|=(uint32_t)((w[c.out[i]]>>k)&1)<<i;o[k]=v;}}
static uint32_t fu(float f){uint32_t u;memcpy(&u,&f,4);return u;} static float uf(uint32_t u){float f;memcpy(&f,&u,4);return f;}
