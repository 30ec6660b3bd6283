// Bounded stand-in for the entropy stage: C09 (lossless), C10 (prefix-free, optimal), C12 (serialized tree).
#include "main.hpp"
#include <algorithm>
#include <queue>
#include "sz_huffman.hpp"
#include "sz_compression_utils.hpp"
#include "sz_decompression_utils.hpp"

static std::vector<int> symbols(Rng& r, size_t& states, int& mode){
	mode=r.below(9); size_t n, k; std::vector<int> s;
	static const size_t st[]={2,4,16,32,64,256,1024,4096,65536,131072,131072}; states=st[r.below(11)];
	switch(mode){
		case 0: n=1+r.below(3000); k=1; break;
		case 1: n=1+r.below(3000); k=states; break;
		case 2: n=1+r.below(5000); k=1+r.below(40); break;
		case 3: n=200+r.below(600); k=124+r.below(10); break;                 // around 256 nodes
		case 4: n=70000; k=32760+r.below(20); states=131072; break;           // around 65536 nodes
		case 5: n=0; k=2+r.below(25); break;                                  // Fibonacci frequencies: deep trees
		case 6: n=1+r.below(20); k=1+r.below(6); break;
		case 7: n=2000+r.below(6000); k=2+r.below(300); break;
		default: n=1+r.below(20000); k=states;
	}
	if(mode==4 && !r.chance(0.12)){ n=300; k=1+r.below(300); mode=2; }
	if(k>states) k=states; size_t off=r.below(states-k+1);
	if(mode==5){ size_t a=1,b=1; for(size_t i=0;i<k;i++){ for(size_t j=0;j<a;j++) s.push_back(off+i); size_t c=a+b; a=b; b=c; } for(size_t i=s.size();i>1;i--) std::swap(s[i-1],s[r.below(i)]); }
	else for(size_t i=0;i<n;i++){
		size_t v; if((mode==3||mode==4) && i<k) v=i; else if(mode==7){ v=0; while(v+1<k && r.chance(0.6)) v++; } else if(mode==8){ double g=fabs(r.gauss())*(1+states/200.0); v=(size_t)g; if(v>=k) v=r.below(k); } else v=r.below(k);
		s.push_back(off+v); }
	if(r.chance(0.3)&&mode!=5&&mode!=4&&k>1){ for(auto& v: s) if(r.chance(0.9)) v=off; }
	return s;
}
static size_t optimal_bits(std::vector<size_t> f){ std::priority_queue<size_t,std::vector<size_t>,std::greater<size_t>> q(f.begin(),f.end()); size_t t=0; while(q.size()>1){ size_t a=q.top(); q.pop(); a+=q.top(); q.pop(); t+=a; q.push(a); } return t; }
static bool same_tree(node a, node b){ if(!a||!b) return a==b; if((a->t!=0)!=(b->t!=0)) return false; if(a->t) return a->c==b->c; return same_tree(a->left,b->left)&&same_tree(a->right,b->right); }
static size_t count_nodes(node a){ return a? 1+(a->t?0:count_nodes(a->left)+count_nodes(a->right)) : 0; }
static void leaves(node a, int d, std::string& p, HuffmanTree* h, long& bad, std::vector<char>& seen){
	if(a->t){ if(a->c>=h->stateNum||!h->code[a->c]||h->cout[a->c]!=d){ bad++; return; } seen[a->c]=1;
		for(int i=0;i<d&&i<64;i++) if(((h->code[a->c][0]>>(63-i))&1)!=(unsigned long)(p[i]-'0')){ bad++; return; } return; }
	p.push_back('0'); leaves(a->left,d+1,p,h,bad,seen); p.back()='1'; leaves(a->right,d+1,p,h,bad,seen); p.pop_back();
}
static void run_huff(Rng& r){
	size_t states; int mode; std::vector<int> s=symbols(r,states,mode), s0=s; size_t n=s.size();
	std::vector<size_t> freq(states,0); for(int v: s) freq[v]++; std::vector<size_t> fs; size_t mn=states,mx=0; for(size_t i=0;i<states;i++) if(freq[i]){ fs.push_back(freq[i]); mn=std::min(mn,i); mx=std::max(mx,i); }
	g_desc=fmt("Huffman n=%zu states=%zu mode=%d distinct=%zu range=[%zu,%zu]",n,states,mode,fs.size(),mn,mx); say("CASE",g_desc); g_nontrivial += fs.size()>1;
	phase("build");
	HuffmanTree * h=createHuffmanTree((int)states); init(h,s.data(),n); std::vector<std::pair<std::pair<unsigned long,unsigned>,size_t>> cw; size_t bits=0; bool cover=true, toolong=false;
	for(size_t i=0;i<states;i++){ bool has=h->code[i]!=NULL; if(has!=(freq[i]!=0)) cover=false; if(has&&freq[i]){ bits+=freq[i]*h->cout[i]; if(h->cout[i]>64) toolong=true; cw.push_back({{h->cout[i]?h->code[i][0]:0,h->cout[i]},i}); } }
	if(!cover) fail("C10","code words do not cover exactly the symbols that occur");
	size_t opt=optimal_bits(fs); if(bits!=opt) fail("C10",fmt("total code length %zu, optimal %zu",bits,opt));
	if(!toolong && cw.size()>1){ std::sort(cw.begin(),cw.end()); for(size_t i=0;i+1<cw.size();i++){ unsigned la=cw[i].first.second, lb=cw[i+1].first.second, l=std::min(la,lb);
		if(l==0||((cw[i].first.first^cw[i+1].first.first)>>(64-l))==0){ fail("C10",fmt("codes of symbols %zu and %zu share a prefix",cw[i].second,cw[i+1].second)); break; } } }
	phase("tree bytes"); unsigned char * tb=NULL; size_t nc=2*fs.size()-1; unsigned ts=convert_HuffTree_to_bytes_anyStates(h,(int)nc,&tb);
	if(count_nodes(h->qq[1])!=nc) fail("C12",fmt("tree has %zu nodes, expected %zu",count_nodes(h->qq[1]),nc));
	{ Exact x(tb,ts); HuffmanTree * g=createHuffmanTree(states); node root=reconstruct_HuffTree_from_bytes_anyStates(g,x.p,(int)nc);
		if(!same_tree(h->qq[1],root)) fail("C12",fmt("tree of %zu nodes differs after serialization",nc));
		else { long bad=0; std::string p; std::vector<char> seen(states,0); if(!toolong && nc>1) leaves(root,0,p,h,bad,seen); if(bad) fail("C12",fmt("%ld code words do not match the path to their leaf",bad)); }
		SZ_ReleaseHuffman(g); }
	SZ_ReleaseHuffman(h);
	phase("encode"); size_t cap=Huffman_encoded_size_bound(states,n); unsigned char * buf=(unsigned char*)malloc(cap), *pos=buf; memset(buf,0xA5,cap);
	Huffman_encode_tree_and_data(states,s.data(),n,pos); size_t len=pos-buf; if(s!=s0) fail("C20","Huffman_encode_tree_and_data changed its input");
	if(len>cap){ fail("C09",fmt("reported length %zu exceeds the bound %zu",len,cap)); free(buf); return; }
	Exact x(buf,len); phase("decode"); const unsigned char * q=x.p; int * d=Huffman_decode_tree_and_data(states,n,q); phase("check");
	for(size_t i=0;i<n;i++) if(d[i]!=s[i]){ fail("C09",fmt("symbol %zu: %d decoded as %d",i,s[i],d[i])); break; }
	if((size_t)(q-x.p)!=len) fail("C09",fmt("decoder advanced %zu bytes, encoder %zu",(size_t)(q-x.p),len));
	size_t head=sizeof(size_t)+sizeof(unsigned)+ts+sizeof(size_t); if(len!=head+(bits+7)/8) fail("C09",fmt("length %zu, expected %zu",len,head+(bits+7)/8));
	free(d);
	if(r.chance(0.1)&&fs.size()>1){ phase("consumption"); if(survives_truncation(x.p,x.n,[&](unsigned char*t){ const unsigned char*u=t; Huffman_decode_tree_and_data(states,n,u); })) fail("C09","the last reported byte is never read"); }
}
bool run_group(const std::string& g, Rng& r){ if(g=="huff") run_huff(r); else return false; return true; }
