// Bounded stand-in for the tolerance derivation: C06. replaces: sz_compress_cp_preserve_2d.cpp
#include "main.hpp"
#include "cpchk.hpp"
#include "../src/sz_compress_cp_preserve_2d.cpp"
template<typename T> static T comp1(Rng& r, int m){ switch(m){ case 0: return (T)r.sym(); case 1: return (T)((int)r.below(7)-3); case 2: return (T)(r.chance(0.3)?0:r.sym()); case 3: return (T)(r.sym()*exp(r.gauss()*3)); default: return (T)(1+0.1*r.sym()); } }
template<typename T> static void run_abs(Rng& r){
	int m=r.below(5); T u[3],v[3]; for(int i=0;i<3;i++){ u[i]=comp1<T>(r,m); v[i]=comp1<T>(r,r.chance(0.8)?m:(int)r.below(4)); }
	double e=derive_cp_eb_for_positions_online_abs(u[0],u[1],u[2],v[0],v[1],v[2]); int o=tri(u[0],v[0],u[1],v[1],u[2],v[2]);
	g_desc=fmt("derive_abs<%zu> u=(%.9g,%.9g,%.9g) v=(%.9g,%.9g,%.9g) tolerance=%.9g",sizeof(T)*8,(double)u[0],(double)u[1],(double)u[2],(double)v[0],(double)v[1],(double)v[2],e); g_nontrivial += e>0; g_ncp += o==1;
	if(o==1 && e!=0){ fail("C06","a cell holding a critical point gets a nonzero absolute tolerance"); return; }
	if(!(e>0)||!std::isfinite(e)||o<0) return;
	for(int k=0;k<12;k++){ LD a= k<4? ((k&1)?1:-1) : r.sym(), b= k<4? ((k&2)?1:-1): r.sym(); int d=tri(u[0],v[0],u[1],v[1],(LD)u[2]+a*e*0.9999L,(LD)v[2]+b*e*0.9999L);
		if(d>=0&&d!=o){ fail("C06",fmt("moving the vertex by (%.6Lg,%.6Lg) of the tolerance changes the outcome from %d to %d",a,b,o,d)); return; } }
}
template<typename T> static void run_rel(Rng& r){
	int m=r.below(5); T u[3],v[3]; for(int i=0;i<3;i++){ u[i]=comp1<T>(r,m); v[i]=comp1<T>(r,r.chance(0.8)?m:(int)r.below(4)); }
	static const int tx[6][3]={{1,0,1},{0,0,1},{0,1,1},{0,1,0},{1,1,0},{1,0,0}}, ty[6][3]={{0,0,1},{0,1,1},{0,1,0},{1,1,0},{1,0,0},{1,0,1}};
	int w=r.below(6), xs[3][2]; for(int i=0;i<3;i++){ xs[i][1]=tx[w][i]; xs[i][0]=ty[w][i]; }
	T c[4]; get_adjugate_matrix_for_position<T>(xs[0][1],xs[1][1],xs[2][1],xs[0][0],xs[1][0],xs[2][0],c);
	double e=derive_cp_eb_for_positions_online(u[0],u[1],u[2],v[0],v[1],v[2],c); int o=tri(u[0],v[0],u[1],v[1],u[2],v[2]); int ko=o==1?tri_kind(u[0],v[0],u[1],v[1],u[2],v[2],xs):-1;
	g_desc=fmt("derive_rel<%zu> u=(%.9g,%.9g,%.9g) v=(%.9g,%.9g,%.9g) triangle=%d tolerance=%.9g",sizeof(T)*8,(double)u[0],(double)u[1],(double)u[2],(double)v[0],(double)v[1],(double)v[2],w,e); g_nontrivial += e>0; g_ncp += o==1;
	if(!(e>0)||o<0) return; if(e>1) e=1;
	for(int k=0;k<12;k++){ LD a= k<4? ((k&1)?1:-1) : r.sym(), b= k<4? ((k&2)?1:-1): r.sym(); LD nu=u[2]*(1+a*e*0.9999L), nv=v[2]*(1+b*e*0.9999L); int d=tri(u[0],v[0],u[1],v[1],nu,nv);
		if(d>=0&&d!=o){ fail("C06",fmt("changing the vertex by (%.6Lg,%.6Lg) of the tolerance changes the outcome from %d to %d",a,b,o,d)); return; }
		if(d==1&&o==1&&ko>=0){ int kd=tri_kind(u[0],v[0],u[1],v[1],nu,nv,xs); if(kd>=0&&kd!=ko){ fail("C22",fmt("changing the vertex by (%.6Lg,%.6Lg) of the tolerance changes the kind from %d to %d",a,b,ko,kd)); return; } } }
}
bool run_group(const std::string& g, Rng& r){
	if(g=="dabs"){ for(int i=0;i<500;i++){ if(r.chance(0.5)) run_abs<float>(r); else run_abs<double>(r); } }
	else if(g=="drel"){ for(int i=0;i<500;i++){ if(r.chance(0.5)) run_rel<float>(r); else run_rel<double>(r); } }
	else return false; return true;
}
