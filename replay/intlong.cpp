// Bounded stand-in for the entropy stage with long code words (C09, C10, C12): the tree is grown from given frequencies, up to 64 bits deep.
#include "main.hpp"
#include <algorithm>
#include <queue>
#include "sz_huffman.hpp"
#include "sz_compression_utils.hpp"
#include "sz_decompression_utils.hpp"
static void run_long(Rng& r){
	size_t k=2+r.below(62), states=128; std::vector<size_t> f; size_t a=1+r.below(3),b=a+r.below(2); size_t tail=r.below(3)==0? 1+r.below(12):0;
	for(size_t i=0;i<tail;i++) f.push_back(1+r.below(2)); for(size_t i=0;i<k;i++){ f.push_back(a); size_t c=a+b; a=b; b=c; if(r.chance(0.05)) b+=r.below(3); if(a>((size_t)1<<55)) break; }
	size_t m=f.size(); std::vector<int> sym(m); std::vector<int> perm(states); for(size_t i=0;i<states;i++) perm[i]=i; for(size_t i=states;i>1;i--) std::swap(perm[i-1],perm[r.below(i)]); std::sort(perm.begin(),perm.begin()+m); if(r.chance(0.5)) std::random_shuffle(perm.begin(),perm.begin()+m,[&](int x){return (int)r.below(x);});
	for(size_t i=0;i<m;i++) sym[i]=perm[i];
	size_t n=1+r.below(400); std::vector<int> s(n); for(auto& v: s) v=sym[r.chance(0.5)? r.below(m) : r.below(std::min<size_t>(m,10))]; std::vector<int> s0=s;
	g_desc=fmt("Huffman with given frequencies: %zu symbols, n=%zu",m,n); say("CASE",g_desc); phase("build");
	HuffmanTree*h=createHuffmanTree((int)states); for(size_t c=0;c<states;c++) for(size_t i=0;i<m;i++) if(sym[i]==(int)c) qinsert(h,new_node(h,f[i],c,0,0));
	while(h->qend>2){ node x=qremove(h), y=qremove(h); qinsert(h,new_node(h,0,0,x,y)); }
	build_code(h,h->qq[1],0,0,0); int mx=0; size_t bits=0; for(int v: s){ mx=std::max<int>(mx,h->cout[v]); bits+=h->cout[v]; } if(mx>64||m<2){ SZ_ReleaseHuffman(h); return; } g_nontrivial++;
	phase("encode"); std::vector<unsigned char> buf(n*8+64,(unsigned char)r.below(256)); size_t len=0; encode(h,s.data(),n,buf.data(),&len); if(s!=s0) fail("C20","encode changed its input");
	if(len!=(bits+7)/8) fail("C09",fmt("%zu code bits reported as %zu bytes",bits,len));
	Exact x((unsigned char*)memcpy(malloc(len),buf.data(),len),len); phase("decode"); std::vector<int> d(n,-1); decode(x.p,n,h->qq[1],d.data()); for(size_t i=0;i<n;i++) if(d[i]!=s[i]){ fail("C09",fmt("symbol %zu: %d decoded as %d, longest code word %d bits",i,s[i],d[i],mx)); break; }
	SZ_ReleaseHuffman(h);
}
bool run_group(const std::string& g, Rng& r){ if(g=="long") run_long(r); else return false; return true; }
