// Bounded stand-ins for the kernels: C07, C08 (quantizers), C11 (flags), C15 (coefficients), C19 (number of codes).
#include "main.hpp"
#include "fields.hpp"
#include <cassert>
#include <iostream>
#include "sz_huffman.hpp"
#include "sz_compression_utils.hpp"
#include "sz_decompression_utils.hpp"
#include "sz_prediction.hpp"
// the header defines non-inline functions: give this copy names of its own
#define estimate_quantization_intervals drv_estimate_quantization_intervals
#define estimate_mean_freq_and_position drv_estimate_mean_freq_and_position
#include "sz_optimize_quant_intervals.hpp"
#include "sz_cp_preserve_utils.hpp"
#include "sz3_utils.hpp"
typedef long double LD;
template<typename T> bool beq(T a, T b){ return memcmp(&a,&b,sizeof a)==0; }
template<typename T> static T anyval(Rng& r){ switch(r.below(8)){ case 0: return 0; case 1: return (T)r.sym(); case 2: return (T)(r.sym()*1e30); case 3: return (T)(r.sym()*1e-30); case 4: return (T)((int)r.below(21)-10); case 5: return -(T)0; case 6: return (T)(r.sym()*exp(r.gauss()*20)); default: return (T)(1+r.sym()*1e-6); } }
template<typename T> static void run_quant(Rng& r){
	T cur=anyval<T>(r); float pred= r.chance(0.3)?(float)cur : r.chance(0.5)?(float)(cur+r.sym()*0.1):(float)anyval<float>(r); if(!std::isfinite(pred)) pred=0; if(!std::isfinite(cur)) cur=1;
	double prec= r.chance(0.1)?0: r.chance(0.5)? pow(10,-8*r.u()) : r.chance(0.5)? fabs((double)cur-pred)*pow(2,-(double)r.below(20)) : ldexp(1,-(int)r.below(40)); static const int caps[]={32,64,256,1024,65536}; int cap=caps[r.below(5)], rad=cap/2; if(r.chance(0.1)) cap-=2;
	if(r.chance(0.1)){ prec=ldexp(1,-(int)r.below(9)); pred=(float)((int)r.below(5)-2); cur=(T)(pred+(r.chance(0.5)?1:-1)*(cap-3+(int)r.below(6))*prec); }   // quotients at the edge of the alphabet
	g_desc=fmt("quantize<%zu> pred=%.9g cur=%.17g precision=%.17g capacity=%d",sizeof(T)*8,pred,(double)cur,prec,cap); say("CASE",g_desc);
	T un[2]={T(7),T(7)}; T*up=un; T dec=42; int k=quantize(pred,cur,prec,cap,rad,up,&dec); T un2[2]={T(7),T(7)}; T*up2=un2; int k2=quantize(pred,cur,prec,cap,rad,up2); g_nontrivial++;
	if(k!=k2||(up-un)!=(up2-un2)) fail("C08",fmt("the two forms of quantize disagree: %d %d",k,k2));
	if(k<0||k>=2*rad||(cap<2*rad&&k==1)) fail("C08",fmt("code %d outside the alphabet or the code of the mean",k));
	const T* rp=un; T rec=recover<T>(pred,prec,k,rad,rp); meanInfo<T> mi; const T* rp2=un; T rec2=recover<T>(mi,pred,prec,k,rad,rp2);
	if((k==0)!=(up==un+1)) fail("C08",fmt("code %d but %d verbatim values stored",k,(int)(up-un)));
	if(k==0 && !(beq(dec,cur)&&beq(un[0],cur))) fail("C08","verbatim value not exact");
	if((rp-un)!=(up-un)) fail("C08","decoder consumes a different number of verbatim values");
	if(!beq(rec,dec)||!beq(rec2,dec)) fail("C08",fmt("decoder reconstructs %.17g/%.17g, encoder %.17g",(double)rec,(double)rec2,(double)dec));
	if(k!=0 && !(fabs(dec-cur)<=prec)) fail("C08",fmt("predicted value off by %.17g",(double)fabs(dec-cur)));
}
template<typename T,typename E> static void run_sz3q(Rng& r){
	T cur=anyval<T>(r), pred= r.chance(0.3)?cur: r.chance(0.5)?(T)(cur+r.sym()*0.1):anyval<T>(r); if(!std::isfinite(pred)) pred=0; if(!std::isfinite(cur)) cur=1;
	E eb= r.chance(0.1)?0: (E)(r.chance(0.5)? pow(10,-8*r.u()) : fabs((double)cur-pred)*pow(2,-(double)r.below(20))); int rad= r.chance(0.5)?32768:(1<<(1+r.below(15)));
	if(r.chance(0.1)){ eb=(E)ldexp(1,-(int)r.below(9)); pred=(T)((int)r.below(5)-2); cur=(T)(pred+(r.chance(0.5)?1:-1)*(2*rad-3+(int)r.below(6))*eb); }
	g_desc=fmt("VariableEBLinearQuantizer<%zu> pred=%.9g cur=%.17g eb=%.17g radius=%d",sizeof(T)*8,(double)pred,(double)cur,(double)eb,rad); say("CASE",g_desc); g_nontrivial++;
	VariableEBLinearQuantizer<T,E> q(rad), p(rad); T d=cur, dst=42; int k=q.quantize_and_overwrite(d,pred,eb), k2=p.quantize_and_overwrite(cur,pred,eb,dst), k0=p.quantize(cur,pred,eb);
	if(k!=k2||k!=k0||!beq(d,dst)) fail("C08",fmt("forms of the quantizer disagree: %d %d %d",k,k2,k0));
	if(k<0||k>=2*rad) fail("C08",fmt("code %d outside the alphabet",k));
	if(k && !(fabs(d-cur)<=eb)) fail("C08",fmt("predicted value off by %.9g > %.9g",(double)fabs(d-cur),(double)eb));
	if(!k && !beq(d,cur)) fail("C08","verbatim value not exact");
	unsigned char buf[64], *c=buf; q.save(c); size_t rem=64; const unsigned char*cc=buf; VariableEBLinearQuantizer<T,E> w(5); w.load(cc,rem); if(cc!=c) fail("C13","quantizer state read with another length");
	T rec=w.recover(pred,k,eb); if(!beq(rec,d)) fail("C08",fmt("decoder reconstructs %.17g, encoder %.17g",(double)rec,(double)d));
}
static void run_ebq(Rng& r){
	double thr= r.chance(0.5)? std::numeric_limits<float>::epsilon() : ldexp(1,-(int)r.below(60)); int base= r.chance(0.7)?2:4; double lob=log2(base);
	double eb= r.below(10)==0?0: r.chance(0.1)? thr*ldexp(1,(int)r.below(30)) : r.chance(0.2)? thr*(1+1e-9*r.sym()) : thr*exp(r.u()*40-3); double e0=eb;
	g_desc=fmt("eb_exponential_quantize eb=%.17g base=%d threshold=%.17g",e0,base,thr); say("CASE",g_desc); g_nontrivial++;
	int id=eb_exponential_quantize(eb,base,lob,thr);
	if(id<0) fail("C07",fmt("negative index %d",id));
	if(!(eb<=e0*(1+2e-15))) fail("C07",fmt("recorded tolerance %.17g exceeds the derived one",eb));
	if((id==0)!=(eb==0)) fail("C07",fmt("index %d with tolerance %.17g",id,eb));
	if(id && !beq(eb,(double)(pow(base,id)*thr))) fail("C07","tolerance is not the one of its index");
	if(eb*base*base < e0 && e0>thr*base*1.01) fail("C07",fmt("tolerance %.17g rounded down to %.17g",e0,eb));
	double l=e0<1e4?e0:1, l0=l; int li=eb_linear_quantize(l,1e-3); if(!(l<=l0*(1+1e-12))||!beq(l,li*1e-3)) fail("C07","linear tolerance");
}
static void run_bits(Rng& r){
	size_t n=1+r.below(r.chance(0.5)?40:3000); std::vector<unsigned char> f(n); double p=r.u(); for(auto&v: f) v=r.chance(p); std::vector<unsigned char> f0=f; size_t nb=(n-1)/8+1;
	g_desc=fmt("flags n=%zu",n); say("CASE",g_desc); g_nontrivial++;
	unsigned char*b=(unsigned char*)malloc(nb),*pos=b; phase("pack"); convertIntArray2ByteArray_fast_1b_to_result_sz(f.data(),n,pos); if(f!=f0) fail("C20","flags modified");
	if((size_t)(pos-b)!=nb) fail("C11",fmt("packing advanced %zu bytes, expected %zu",(size_t)(pos-b),nb));
	const unsigned char*q=b; phase("unpack"); unsigned char*g=convertByteArray2IntArray_fast_1b_sz(n,q,nb); if((size_t)(q-b)!=nb) fail("C11",fmt("unpacking advanced %zu bytes",(size_t)(q-b)));
	for(size_t i=0;i<n;i++) if(g[i]!=f[i]){ fail("C11",fmt("flag %zu is %d after unpacking, was %d",i,g[i],f[i])); break; }
	free(g); free(b);
}
static void run_pow2(Rng& r){
	unsigned b= r.chance(0.3)?1+r.below(70): r.chance(0.5)? (1u<<r.below(32))+(int)r.below(3)-1 : r.next()&0x7fffffff; if(b==0||b>0x80000000u) b=5; g_desc=fmt("round_up_power_of_2 %u",b); g_nontrivial++;
	unsigned v=round_up_power_of_2(b); unsigned long w=1; while(w<b) w*=2; if(v!=w) fail("C19",fmt("%u instead of %lu",v,w));
}
template<typename T> static void run_intv(Rng& r){
	size_t r1=pick_dim(r,30), r2=pick_dim(r,30), r3=pick_dim(r,30); int kind=r.below(NKIND); double sc; std::vector<T> f=scalar_field<T>(kind,r1,r2,r3,r,sc); double eb=sc*pow(10,-9*r.u()); std::vector<T> f0=f;
	g_desc=fmt("optimize_quant_invl_3d<%zu> field=%s %zux%zux%zu eb=%.9g",sizeof(T)*8,kind_name(kind),r1,r2,r3,eb); say("CASE",g_desc); phase("estimate"); g_nontrivial++;
	int cap=0; optimize_quant_invl_3d(f.data(),r1,r2,r3,eb,cap); if(cap<32||cap>131072||(cap&(cap-1))) fail("C19",fmt("estimated number of codes is %d",cap));
	std::vector<size_t> iv(1+r.below(32768)); size_t tot=0; double p=r.u(); for(auto&v: iv){ v=r.chance(p)?r.below(1000):0; tot+=v; } if(r.chance(0.3)){ size_t e=r.below(iv.size()); iv[e]+=1000000; tot+=1000000; }
	unsigned k=estimate_quantization_intervals(iv,tot); if(k<32||k>131072||(k&(k-1))) fail("C19",fmt("estimate_quantization_intervals returned %u",k));
}
static void run_reg(Rng& r){
	bool d3=r.chance(0.5); int C=d3?RegCoeffNum3d:RegCoeffNum2d; size_t cnt=1+r.below(r.chance(0.5)?4:120); int bs=1+r.below(16); double prec=pow(10,-6*r.u()); double amp=r.chance(0.3)?1e4:1;
	std::vector<float> orig((cnt)*C), p((cnt+1)*C,0.f); std::vector<int> ty(cnt*C); std::vector<float> un(cnt*C+1); float*up=un.data(); int*tp=ty.data();
	double precs[8]; float rel=RegErrThreshold*prec/C; for(int i=0;i<C-1;i++) precs[i]=rel/bs; precs[C-1]=rel;
	g_desc=fmt("regression coefficients dim=%d count=%zu bsize=%d precision=%.9g amp=%g",d3?3:2,cnt,bs,prec,amp); say("CASE",g_desc); g_nontrivial++;
	for(size_t i=0;i<cnt;i++){ for(int j=0;j<C;j++){ orig[i*C+j]=p[(i+1)*C+j]= r.chance(0.3)?0:(float)(amp*r.sym()*(r.chance(0.5)?1e-3:1)); }
		if(d3) compress_regression_coefficient_3d(precs,p.data()+(i+1)*C,tp,up); else compress_regression_coefficient_2d(precs,p.data()+(i+1)*C,tp,up); tp+=C; }
	size_t uc=up-un.data(); std::vector<unsigned char> b(8+uc*4+Huffman_encoded_size_bound(2*RegCoeffCapacity,cnt*C)); unsigned char*pos=b.data(); phase("encode");
	if(d3) encode_regression_coefficients(ty.data(),un.data(),cnt,uc,pos); else encode_regression_coefficients_2d(ty.data(),un.data(),cnt,uc,pos);
	size_t len=pos-b.data(); unsigned char*cp=(unsigned char*)malloc(len); memcpy(cp,b.data(),len); const unsigned char*q=cp; phase("decode");
	float*d= d3? decode_regression_coefficients(q,cnt,bs,prec) : decode_regression_coefficients_2d(q,cnt,bs,prec); if((size_t)(q-cp)!=len) fail("C15","decoder of the coefficients stops elsewhere");
	for(size_t i=0;i<cnt*C;i++){ if(!beq(d[C+i],p[C+i])){ fail("C15",fmt("coefficient %zu: encoder %.9g decoder %.9g",i,p[C+i],d[C+i])); break; } if(!(fabs((double)d[C+i]-orig[i])<=precs[i%C])){ fail("C15",fmt("coefficient %zu off by more than its precision",i)); break; } }
	free(d); free(cp);
}
bool run_group(const std::string& g, Rng& r){
	if(g=="quant"){ for(int i=0;i<200;i++){ if(r.chance(0.5)) run_quant<float>(r); else run_quant<double>(r); } }
	else if(g=="sz3q"){ for(int i=0;i<100;i++){ if(r.chance(0.5)) run_sz3q<float,float>(r); else run_sz3q<double,double>(r); } }
	else if(g=="ebq"){ for(int i=0;i<200;i++) run_ebq(r); }
	else if(g=="bits") run_bits(r);
	else if(g=="pow2"){ for(int i=0;i<200;i++) run_pow2(r); }
	else if(g=="intv"){ if(r.chance(0.5)) run_intv<float>(r); else run_intv<double>(r); }
	else if(g=="reg") run_reg(r);
	else return false; return true;
}
