// Replay / bounded stand-in driver: runs the real library (public headers only) on generated inputs and
// checks the observable properties.  usage: bat <group> <seed> <first> <count> <logfile> [scale]
#include "main.hpp"
#include "fields.hpp"
#include "cpchk.hpp"
#include "sz_compress_3d.hpp"
#include "sz_decompress_3d.hpp"
#include "sz_compress_pwr.hpp"
#include "sz_decompress_pwr.hpp"
#include "sz_compress_cp_preserve_2d.hpp"
#include "sz_decompress_cp_preserve_2d.hpp"
#include "sz_lossless.hpp"


template<typename T> const char * tn();
template<> const char * tn<float>(){ return "float"; }
template<> const char * tn<double>(){ return "double"; }
template<typename T> LD rnd_tol();
template<> LD rnd_tol<float>(){ return 2.4e-7L; }
template<> LD rnd_tol<double>(){ return 1e-15L; }

template<typename T> bool same_bits(const T * a, const T * b, size_t n){ return n==0 || memcmp(a,b,n*sizeof(T))==0; }
template<typename T> bool bits_eq(T a, T b){ return memcmp(&a,&b,sizeof(T))==0; }

template<typename T>
double pick_eb(Rng& r, double scale){
	switch(r.below(6)){
		case 0: return scale*0.1; case 1: return scale*0.01; case 2: return scale*0.001;
		case 3: return scale*pow(10, -8*r.u());
		case 4: return scale*ldexp(1.0, -20-(int)r.below(8));      // near one ulp of float data
		default: return scale*pow(2,-(double)r.below(16));
	}
}
template<typename T>
void check_abs(const char * prop, const T * o, const T * d, const double * ebs, double eb, size_t n, const char * what){
	for(size_t i=0;i<n;i++){
		LD e = ebs ? ebs[i] : eb, err = fabsl((LD)o[i]-(LD)d[i]);
		if(!(err <= e*(1+rnd_tol<T>()))){
			fail(prop, fmt("%s element %zu: original %.9g decoded %.9g error %.6Lg exceeds bound %.6Lg", what, i, (double)o[i], (double)d[i], err, e)); return;
		}
	}
}
template<typename T>
void check_inputs(const char * prop, const std::vector<T>& before, const std::vector<T>& after, const char * what){
	if(!same_bits(before.data(), after.data(), before.size())) fail(prop, std::string("input array modified: ")+what);
}

// ------------------------------------------------------------------------------------------- block codecs
template<typename T> struct Dummy{};
static void run_block2d(Rng& r){
	size_t r1=pick_dim(r,g_maxd), r2=pick_dim(r,g_maxd); int kind=r.below(NKIND); double sc;
	std::vector<float> f=scalar_field<float>(kind,r1,r2,1,r,sc), f0=f;
	double eb=pick_eb<float>(r,sc); static const int bss[]={12,12,8,6,16,5,9,32,3,1}; int bs=bss[r.below(10)];
	g_desc=fmt("sz_compress_2d<float> field=%s r1=%zu r2=%zu eb=%.9g bsize=%d",kind_name(kind),r1,r2,eb,bs); say("CASE",g_desc);
	size_t n=r1*r2, cs=0; phase("compress");
	bool bi=r.chance(0.5); unsigned char * c=sz_compress_2d(f.data(),r1,r2,eb,cs,bs,bi); Exact x(c,cs);
	check_inputs("C20",f0,f,"data"); phase("decompress");
	float * d=sz_decompress_2d<float>(x.p,r1,r2); phase("check");
	check_abs("C01",f.data(),d,(double*)0,eb,n,"2d");
	if(r.chance(0.2)){ phase("consumption"); if(survives_truncation(x.p,x.n,[&](unsigned char*q){ sz_decompress_2d<float>(q,r1,r2); })) fail("C13","the last reported byte is never read"); }
	if(r.chance(0.3)){ phase("repeat"); size_t cs2=0; unsigned char * c2=sz_compress_2d(f.data(),r1,r2,eb,cs2,bs,bi); Exact x2(c2,cs2);
		float * d2=sz_decompress_2d<float>(x2.p,r1,r2); if(cs2!=cs||memcmp(x.p,x2.p,cs)||!same_bits(d,d2,n)) fail("C20","repeated compression decodes differently");
		float * d3=sz_decompress_2d<float>(x.p,r1,r2); if(!same_bits(d,d3,n)) fail("C20","repeated decompression differs"); free(d2); free(d3); }
	free(d); g_nontrivial += n>4;
}
template<typename T> static void run_block2deb(Rng& r){
	size_t r1=pick_dim(r,g_maxd), r2=pick_dim(r,g_maxd); int kind=r.below(NKIND); double sc;
	std::vector<T> f=scalar_field<T>(kind,r1,r2,1,r,sc), f0=f; size_t n=r1*r2;
	std::vector<double> eb(n); double base=pick_eb<T>(r,sc); int em=r.below(4);
	for(size_t i=0;i<n;i++){ eb[i]= em==0? base : em==1 ? base*pow(4,-(double)r.below(12)) : em==2 ? (r.chance(0.5)?0:base) : (r.chance(0.2)?0:base*r.u()); }
	std::vector<double> e0=eb;
	static const int bss[]={12,12,8,6,16,5,9,32,3,1}; int bs=bss[r.below(10)];
	g_desc=fmt("sz_compress_2d_with_eb<%s> field=%s r1=%zu r2=%zu base_eb=%.9g eb_mode=%d bsize=%d",tn<T>(),kind_name(kind),r1,r2,base,em,bs); say("CASE",g_desc);
	size_t cs=0; phase("compress");
	unsigned char * c=sz_compress_2d_with_eb(f.data(),eb.data(),r1,r2,cs,bs); Exact x(c,cs);
	check_inputs("C20",f0,f,"data"); check_inputs("C20",e0,eb,"bounds"); phase("decompress");
	T * d=sz_decompress_2d_with_eb<T>(x.p,eb.data(),r1,r2); phase("check");
	check_inputs("C20",e0,eb,"bounds");
	check_abs("C01",f.data(),d,eb.data(),0,n,"2d_with_eb");
	if(r.chance(0.2)){ phase("consumption"); if(survives_truncation(x.p,x.n,[&](unsigned char*q){ sz_decompress_2d_with_eb<T>(q,eb.data(),r1,r2); })) fail("C13","the last reported byte is never read"); }
	for(size_t i=0;i<n;i++) if(eb[i]==0 && !bits_eq(d[i],f[i])){ fail("C08",fmt("zero-bound element %zu not stored exactly: %.9g decoded %.9g",i,(double)f[i],(double)d[i])); break; }
	if(r.chance(0.3)){ phase("repeat"); size_t cs2=0; unsigned char * c2=sz_compress_2d_with_eb(f.data(),eb.data(),r1,r2,cs2,bs); Exact x2(c2,cs2);
		T * d2=sz_decompress_2d_with_eb<T>(x2.p,eb.data(),r1,r2); if(cs2!=cs||memcmp(x.p,x2.p,cs)||!same_bits(d,d2,n)) fail("C20","repeated compression decodes differently"); free(d2); }
	free(d); g_nontrivial += n>4;
}
template<typename T> static void run_block3d(Rng& r){
	int m = g_maxd/3+3; size_t r1=pick_dim(r,m), r2=pick_dim(r,m), r3=pick_dim(r,m); int kind=r.below(NKIND); double sc;
	std::vector<T> f=scalar_field<T>(kind,r1,r2,r3,r,sc), f0=f; size_t n=r1*r2*r3;
	double eb=pick_eb<T>(r,sc); static const int bss[]={8,8,6,4,5,12,3,7}; int bs=bss[r.below(8)]; bool ind=r.chance(0.4);
	g_desc=fmt("sz_compress_3d<%s> field=%s r1=%zu r2=%zu r3=%zu eb=%.9g bsize=%d independent=%d",tn<T>(),kind_name(kind),r1,r2,r3,eb,bs,(int)ind); say("CASE",g_desc);
	size_t cs=0; phase("compress");
	unsigned char * c=sz_compress_3d(f.data(),r1,r2,r3,eb,cs,bs,ind); Exact x(c,cs);
	check_inputs("C20",f0,f,"data"); phase("decompress");
	T * d=sz_decompress_3d<T>(x.p,r1,r2,r3); phase("check");
	check_abs("C01",f.data(),d,(double*)0,eb,n,"3d");
	if(r.chance(0.2)){ phase("consumption"); if(survives_truncation(x.p,x.n,[&](unsigned char*q){ sz_decompress_3d<T>(q,r1,r2,r3); })) fail("C13","the last reported byte is never read"); }
	if(r.chance(0.2)){ phase("repeat"); size_t cs2=0; unsigned char * c2=sz_compress_3d(f.data(),r1,r2,r3,eb,cs2,bs,ind); Exact x2(c2,cs2);
		T * d2=sz_decompress_3d<T>(x2.p,r1,r2,r3); if(cs2!=cs||memcmp(x.p,x2.p,cs)||!same_bits(d,d2,n)) fail("C20","repeated compression decodes differently"); free(d2); }
	free(d); g_nontrivial += n>4;
}
template<typename T> static void run_block3deb(Rng& r){   // no decoder exists for this stream: memory safety and inputs only
	int m = g_maxd/3+3; size_t r1=pick_dim(r,m), r2=pick_dim(r,m), r3=pick_dim(r,m); int kind=r.below(NKIND); double sc;
	std::vector<T> f=scalar_field<T>(kind,r1,r2,r3,r,sc), f0=f; size_t n=r1*r2*r3; std::vector<double> eb(n); double base=pick_eb<T>(r,sc); int em=r.below(3);
	for(size_t i=0;i<n;i++) eb[i]= em==0? base : em==1 ? base*pow(4,-(double)r.below(12)) : (r.chance(0.5)?0:base);
	std::vector<double> e0=eb; static const int bss[]={8,8,6,4,5,12,3,7}; int bs=bss[r.below(8)];
	g_desc=fmt("sz_compress_3d_with_eb<%s> field=%s r1=%zu r2=%zu r3=%zu base_eb=%.9g eb_mode=%d bsize=%d",tn<T>(),kind_name(kind),r1,r2,r3,base,em,bs); say("CASE",g_desc);
	size_t cs=0; phase("compress");
	unsigned char * c=sz_compress_3d_with_eb(f.data(),eb.data(),r1,r2,r3,cs,bs); Exact x(c,cs);
	check_inputs("C20",f0,f,"data"); check_inputs("C20",e0,eb,"bounds"); g_nontrivial += n>4;
}
// ------------------------------------------------------------------------------------------- pointwise relative
static std::vector<float> pwr_field(int& kind, size_t r1, size_t r2, Rng& r){
	double sc; static const int ks[]={0,1,3,4,5,6,8,9,10,11,12,13,14,15,15,15}; kind=ks[r.below(16)];
	std::vector<float> f=scalar_field<float>(kind,r1,r2,1,r,sc);
	int z=r.below(6); if(z==5){ float m=0; for(float v: f) m=fmaxf(m,fabsf(v)); int k=8+r.below(112); bool one=r.chance(0.7); double few=r.chance(0.5)?0.1:0.01; if(m>0) for(auto& v: f){ if(r.chance(few)) v=(1+0.3f*(float)r.u())*(v<0?-1:1); else v=ldexpf(v/m,-(one?k:(int)r.below(k))); } }
	for(auto& v: f){ if(z==0 && r.chance(0.3)) v=0; if(z==1) v=fabsf(v); if(z==2) v=-fabsf(v); if(z==3 && r.chance(0.02)) v*=1e-20f; if(v!=0 && fabsf(v)<1e-37f) v=1e-37f; }
	return f;
}
static void check_pwr(const std::vector<float>& f, const float * d, const double * ebs, double eb, size_t n, bool tight){
	for(size_t i=0;i<n;i++){
		LD x=f[i], y=d[i], e=ebs?ebs[i]:eb;
		if(x==0){ if(!(y==0)){ fail("C02",fmt("element %zu: zero decoded as %.9g",i,(double)d[i])); return; } continue; }
		if(!(y!=0 && (y>0)==(x>0))){ fail("C02",fmt("element %zu: sign of %.9g lost, decoded %.9g",i,(double)f[i],(double)d[i])); return; }
		LD slack = tight ? 2.5e-7L*(1+e) : 2.5e-7L*(1+e)*(2+fabsl(log2l(fabsl(x))));
		if(!(fabsl(y-x) <= fabsl(x)*(e+slack))){ fail("C02",fmt("element %zu: original %.9g decoded %.9g relative error %.8Lg exceeds %.8Lg",i,(double)f[i],(double)d[i],fabsl(y-x)/fabsl(x),e)); return; }
	}
}
static void run_pwr(Rng& r){
	size_t r1=pick_dim(r,g_maxd), r2=pick_dim(r,g_maxd), n=r1*r2; int kind; std::vector<float> f=pwr_field(kind,r1,r2,r), f0=f;
	static const double ebs[]={0.1,0.01,0.001,0.5,1,0.0001,0.25}; double eb = r.chance(0.6)? ebs[r.below(7)] : pow(10,-4*r.u()); bool web=r.chance(0.5);
	static const int bss[]={12,12,8,16,5}; int bs=bss[r.below(5)];
	g_desc=fmt("sz_compress_2d_pwr%s<float> field=%s r1=%zu r2=%zu eb=%.9g bsize=%d",web?"_with_eb":"",kind_name(kind),r1,r2,eb,bs); say("CASE",g_desc);
	size_t cs=0; float * d;
	if(!web){
		phase("compress"); unsigned char * c=sz_compress_2d_pwr(f.data(),r1,r2,eb,cs,bs); Exact x(c,cs); phase("decompress");
		d=sz_decompress_2d_pwr<float>(x.p,r1,r2); phase("check"); check_pwr(f,d,0,eb,n,true);
		if(r.chance(0.2)){ phase("consumption"); if(survives_truncation(x.p,x.n,[&](unsigned char*q){ sz_decompress_2d_pwr<float>(q,r1,r2); })) fail("C13","the last reported byte is never read"); }
	} else {
		std::vector<double> e(n); int em=r.below(3); for(size_t i=0;i<n;i++) e[i]= em==0?eb: em==1? (r.chance(0.2)?0:eb*(0.1+0.9*r.u())) : eb*pow(2,-(double)r.below(4));
		for(auto& v: e) if(v!=0 && v<1e-4) v=1e-4;
		std::vector<double> e0=e; double * le=NULL; phase("compress"); unsigned char * c=sz_compress_2d_pwr_with_eb(f.data(),e.data(),&le,r1,r2,cs,bs); Exact x(c,cs); phase("decompress");
		check_inputs("C20",e0,e,"bounds");
		d=sz_decompress_2d_pwr_with_eb<float>(x.p,le,r1,r2); phase("check"); check_pwr(f,d,e.data(),0,n,false);
		if(r.chance(0.2)){ phase("consumption"); if(survives_truncation(x.p,x.n,[&](unsigned char*q){ sz_decompress_2d_pwr_with_eb<float>(q,le,r1,r2); })) fail("C13","the last reported byte is never read"); }
		free(le);
	}
	check_inputs("C20",f0,f,"data"); free(d); g_nontrivial += n>4;
}
// ------------------------------------------------------------------------------------------- CP preserving
enum { OFF=0, OFFLOG, ON, ONLOG, ONABS, RELAX, BILIN, SZ3, NCODEC };
static const char * cname[]={"offline","offline_log","online","online_log","online_abs","online_abs_relax_FN","bilinear_online_log","sz3_online_abs"};
template<typename T> unsigned char * comp(int c,const T*U,const T*V,size_t r1,size_t r2,size_t& cs,double eb){
	switch(c){
		case OFF: return sz_compress_cp_preserve_2d_offline(U,V,r1,r2,cs,false,eb);
		case OFFLOG: return sz_compress_cp_preserve_2d_offline_log(U,V,r1,r2,cs,false,eb);
		case ON: return sz_compress_cp_preserve_2d_online(U,V,r1,r2,cs,false,eb);
		case ONLOG: return sz_compress_cp_preserve_2d_online_log(U,V,r1,r2,cs,false,eb);
		case ONABS: return sz_compress_cp_preserve_2d_online_abs(U,V,r1,r2,cs,false,eb);
		case RELAX: return sz_compress_cp_preserve_2d_online_abs_relax_FN(U,V,r1,r2,cs,false,eb);
		case BILIN: return sz_compress_cp_preserve_2d_bilinear_online_log(U,V,r1,r2,cs,false,eb);
		default: return sz3_compress_cp_preserve_2d_online_abs(U,V,r1,r2,cs,false,eb);
	}
}
template<typename T> void decomp(int c,const unsigned char*p,size_t r1,size_t r2,T*&U,T*&V){
	switch(c){
		case OFF: sz_decompress_cp_preserve_2d_offline<T>(p,r1,r2,U,V); break;
		case OFFLOG: sz_decompress_cp_preserve_2d_offline_log<T>(p,r1,r2,U,V); break;
		case ON: case ONABS: case RELAX: sz_decompress_cp_preserve_2d_online<T>(p,r1,r2,U,V); break;
		case ONLOG: case BILIN: sz_decompress_cp_preserve_2d_online_log<T>(p,r1,r2,U,V); break;
		default: sz3_decompress_cp_preserve_2d_online<T>(p,r1,r2,U,V);
	}
}
template<typename T> static void check_cp(int c,const std::vector<T>&U,const std::vector<T>&V,const T*dU,const T*dV,size_t r1,size_t r2,double eb,bool tiny){
	size_t n=r1*r2; bool absb = c==ONABS||c==SZ3||c==RELAX, lg = c==OFFLOG||c==ONLOG||c==BILIN;
	for(int w=0;w<2;w++){ const std::vector<T>& o=w?V:U; const T*d=w?dV:dU;
		for(size_t i=0;i<n;i++){ LD x=o[i],y=d[i],err=fabsl(x-y),lim;
			if(absb) lim=(LD)eb*(1+1e-6L);
			else if(lg) lim = x==0?0: fabsl(x)*(eb+rnd_tol<T>()*(1+eb)*(4+fabsl(log2l(fabsl(x)))));
			else lim=fabsl(x)*eb*(1+1e-6L);
			if(!(err<=lim)){ fail("C03",fmt("%s[%zu,%zu]: original %.9g decoded %.9g error %.6Lg exceeds %.6Lg",w?"V":"U",i/r2,i%r2,(double)o[i],(double)d[i],err,lim)); return; }
			if(!absb && (x>0)!=(y>0)&&eb<0.9){ fail("C03",fmt("%s[%zu,%zu]: sign or zero not kept: %.9g decoded %.9g",w?"V":"U",i/r2,i%r2,(double)o[i],(double)d[i])); return; }
		} }
	if(tiny) return;   // the products of the barycentric test underflow
	static const int XU[3][2]={{0,0},{1,0},{1,1}}, XL[3][2]={{0,0},{0,1},{1,1}};
	int k4=0,k5=0,k6=0;
	for(size_t i=0;i+1<r1;i++) for(size_t j=0;j+1<r2;j++){
		size_t a=i*r2+j;
		if(c!=BILIN) for(int k=0;k<2;k++){
			size_t b=k==0?a+r2:a+1, e=a+r2+1;
			int o=tri_at(U.data(),V.data(),a,b,e), d=tri_at(dU,dV,a,b,e); g_ncp+=o==1;
			if(o>=0&&d>=0&&o!=d&&!k4){ k4=1; fail("C04",fmt("cell (%zu,%zu) %s triangle: %s",i,j,k?"lower":"upper",o?"critical point lost":"critical point created")); }
			if(absb&&o==1&&!k5){ size_t id[3]={a,b,e}; for(int t=0;t<3;t++) if(!bits_eq(U[id[t]],dU[id[t]])||!bits_eq(V[id[t]],dV[id[t]])){ k5=1; fail("C05",fmt("vertex (%zu,%zu) of a cell holding a critical point is not bit-exact: (%.9g,%.9g) decoded (%.9g,%.9g)",id[t]/r2,id[t]%r2,(double)U[id[t]],(double)V[id[t]],(double)dU[id[t]],(double)dV[id[t]])); break; } }
			if(!absb&&o==1&&d==1&&!k6){ const int (*X)[2]=k==0?XU:XL; int ko=tri_kind(U[a],V[a],U[b],V[b],U[e],V[e],X), kd=tri_kind(dU[a],dV[a],dU[b],dV[b],dU[e],dV[e],X);
				if(ko>=0&&kd>=0&&ko!=kd){ k6=1; fail("C22",fmt("cell (%zu,%zu) %s triangle: kind of critical point changed from %d to %d",i,j,k?"lower":"upper",ko,kd)); } }
		} else {
			size_t b=a+1,e=a+r2+1,g=a+r2; int o=quad(U[a],U[b],U[e],U[g],V[a],V[b],V[e],V[g]), d=quad(dU[a],dU[b],dU[e],dU[g],dV[a],dV[b],dV[e],dV[g]);
			if(o>=0&&d>=0&&o!=d&&!k4){ k4=1; fail("C04",fmt("cell (%zu,%zu): number of critical points changed from %d to %d",i,j,o,d)); }
			g_ncp+=o>0;
		}
	}
	if(absb&&r1>1&&r2>1) for(size_t i=0;i<n;i++) if(U[i]==0&&V[i]==0&&!(dU[i]==0&&dV[i]==0)){ fail("C05",fmt("zero vector at (%zu,%zu) decoded as (%.9g,%.9g)",i/r2,i%r2,(double)dU[i],(double)dV[i])); break; }
}
template<typename T> static void run_cp(Rng& r,int only=-1){
	size_t r1=pick_dim(r,g_maxd), r2=pick_dim(r,g_maxd), n=r1*r2; int c= only>=0?only:(int)r.below(NCODEC), kind=r.below(NVKIND); double sc; std::vector<T> U,V; 
	vector_field<T>(kind,r1,r2,r,U,V,sc); bool absb = c==ONABS||c==SZ3||c==RELAX; int sh=0;
	if(r.chance(0.25)){ sh = sizeof(T)==4 ? (int)r.below(81)-40 : (int)r.below(211)-90; sc=ldexp(sc,sh); for(size_t i=0;i<n;i++){ U[i]=ldexp(U[i],sh); V[i]=ldexp(V[i],sh); } }
	bool tiny = !absb && r.chance(0.05); int lowest=-98; if(tiny){ int k= sizeof(T)==4? 85+(int)r.below(35) : 85+(int)r.below(900); lowest= sizeof(T)==4?-125:-1020; sc=ldexp(sc,-k); for(size_t i=0;i<n;i++){ U[i]=ldexp(U[i],-k); V[i]=ldexp(V[i],-k); } }
	if(!absb) for(size_t i=0;i<n;i++){ T lo=ldexp((T)1,lowest); if(U[i]!=0&&fabs(U[i])<lo) U[i]=U[i]>0?lo:-lo; if(V[i]!=0&&fabs(V[i])<lo) V[i]=V[i]>0?lo:-lo; }
	std::vector<T> U0=U,V0=V;
	static const double es[]={0.1,0.1,0.01,0.001,0.05,0.5}; double eb=es[r.below(6)]; if(r.chance(0.3)) eb=pow(10,-6*r.u()); if(absb){ eb*=sc; if(r.chance(0.1)) eb*=20; if(r.chance(0.05)) eb*=1e-7; }
	if(absb&&r.chance(0.2)) eb=ldexp(1.0,2*(int)floor(log2(sc)/2)-2*(int)r.below(14));   // exactly representable tolerance levels
	if(absb&&r.chance(0.04)) eb=ldexp(1.0+r.u(),-50-(int)r.below(4));                       // next to the smallest recordable tolerance
	if(r.chance(0.02)) eb=0;
	g_desc=fmt("cp_preserve_2d_%s<%s> field=%s*2^%d r1=%zu r2=%zu eb=%.9g",cname[c],tn<T>(),vkind_name(kind),sh,r1,r2,eb); say("CASE",g_desc);
	size_t cs=0; phase("compress"); unsigned char * p=comp(c,U.data(),V.data(),r1,r2,cs,eb); Exact x(p,cs);
	check_inputs("C20",U0,U,"U"); check_inputs("C20",V0,V,"V"); phase("decompress");
	T*dU=NULL,*dV=NULL; decomp(c,x.p,r1,r2,dU,dV); phase("check"); check_cp(c,U,V,dU,dV,r1,r2,eb,tiny);
	if(r.chance(0.2)){ phase("consumption"); if(survives_truncation(x.p,x.n,[&](unsigned char*q){ T*a=NULL,*b=NULL; decomp(c,q,r1,r2,a,b); })) fail("C13","the last reported byte is never read"); }
	if(r.chance(0.2)){ phase("repeat"); size_t cs2=0; unsigned char * p2=comp(c,U.data(),V.data(),r1,r2,cs2,eb); Exact x2(p2,cs2); T*eU=(T*)malloc(8),*eV=(T*)malloc(8); decomp(c,x2.p,r1,r2,eU,eV);
		if(cs!=cs2||memcmp(x.p,x2.p,cs)||!same_bits(dU,eU,n)||!same_bits(dV,eV,n)) fail("C20","repeated compression decodes differently"); free(eU); free(eV); }
	free(dU); free(dV); g_nontrivial += n>4;
}
// ------------------------------------------------------------------------------------------- lossless wrapper
static void run_lossless(Rng& r){
	size_t n = r.below(8)==0 ? r.below(130) : 1+r.below(200000); int m=r.below(5); std::vector<unsigned char> d(n?n:1);
	for(size_t i=0;i<n;i++) d[i]= m==0?r.next(): m==1?0: m==2?(i/100): m==3?(r.chance(0.02)?r.next():7): (i*i>>7);
	static const int lv[]={3,1,0,-5,19,22,5}; int level=lv[r.below(7)]; if(level>5 && n>30000) level=3; std::vector<unsigned char> d0=d;
	g_desc=fmt("sz_lossless n=%zu mode=%d level=%d",n,m,level); say("CASE",g_desc); phase("compress");
	unsigned char*c=NULL; unsigned long cs=sz_lossless_compress(ZSTD_COMPRESSOR,level,d.data(),n,&c); if(cs==0||cs>n*2+300){ fail("C21",fmt("compressed size %lu",cs)); free(c); return; }
	Exact x(c,cs); if(d!=d0) fail("C20","lossless input modified"); phase("decompress");
	if(is_lossless_compressed_data(x.p,cs)!=ZSTD_COMPRESSOR) fail("C21","compressed data not recognised");
	unsigned char*o=NULL; unsigned long os=sz_lossless_decompress(ZSTD_COMPRESSOR,x.p,cs,&o,n); phase("check");
	if(os!=n||memcmp(o,d0.data(),n)!=0) fail("C21","decompressed bytes differ"); free(o);
	if(n<=65536){ unsigned char*o2=NULL; unsigned long s2=sz_lossless_decompress65536bytes(ZSTD_COMPRESSOR,x.p,cs,&o2); if(s2!=65536||memcmp(o2,d0.data(),n)!=0) fail("C21","65536-byte decompression differs"); free(o2); }
	g_nontrivial += n>4;
}
bool run_group(const std::string& g, Rng& r){
	if(g=="block2d") run_block2d(r);
	else if(g=="block2deb"){ if(r.chance(0.6)) run_block2deb<float>(r); else run_block2deb<double>(r); }
	else if(g=="block3d"){ if(r.chance(0.6)) run_block3d<float>(r); else run_block3d<double>(r); }
	else if(g=="block3deb"){ if(r.chance(0.6)) run_block3deb<float>(r); else run_block3deb<double>(r); }
	else if(g=="pwr") run_pwr(r);
	else if(g=="lossless") run_lossless(r);
	else if(g=="cp"){ if(r.chance(0.6)) run_cp<float>(r); else run_cp<double>(r); }
	else { int o=-1; for(int c=0;c<NCODEC;c++) if(g==std::string("cp_")+cname[c]) o=c; if(o<0) return false; if(r.chance(0.6)) run_cp<float>(r,o); else run_cp<double>(r,o); }
	return true;
}
