// Input generators. Every value produced is finite; domains are stated in properties.jsonl.
#pragma once
#include "common.hpp"

inline size_t pick_dim(Rng& r, size_t maxd){
	static const size_t sp[] = {1,2,3,4,5,6,7,8,9,11,12,13,15,16,17,20,23,24,25,31,32,33,36,37,48,49,63,64,65};
	size_t d;
	if(r.chance(0.7)) d = sp[r.below(sizeof(sp)/sizeof(sp[0]))];
	else d = 1 + r.below(maxd);
	return d>maxd ? 1 + d%maxd : d;
}

// scalar fields ------------------------------------------------------------------------------
static const int NKIND = 16;
inline const char * kind_name(int k){
	static const char * n[NKIND] = {"smooth","noise","spiky","constant","zeros","plane","mean_outliers","huge","tiny","integers","step","wide_range","checker","plane_patches","plane_noise","sparse_zeros"};
	return n[k];
}
template<typename T>
std::vector<T> scalar_field(int kind, size_t n1, size_t n2, size_t n3, Rng& r, double& scale){
	size_t n = n1*n2*n3;
	std::vector<T> f(n);
	double a = 0.3+3*r.u(), b=0.3+3*r.u(), c=0.3+3*r.u(), ph=r.u()*6;
	double off = r.chance(0.3) ? r.sym()*100 : 0;
	double px=r.sym(), py=r.sym(), pz=r.sym();
	int per = 3 + r.below(40);
	scale = 1;
	for(size_t i=0;i<n1;i++) for(size_t j=0;j<n2;j++) for(size_t k=0;k<n3;k++){
		double x=(i+1.0)/n1*6, y=(j+1.0)/n2*6, z=(k+1.0)/n3*6;
		double v=0;
		switch(kind){
			case 0: v = sin(a*x+ph)*cos(b*y)+0.5*sin(c*z) + off; break;
			case 1: v = r.sym(); break;
			case 2: v = sin(a*x)+cos(b*y); if(r.chance(0.25)) v += r.sym()*1e6; break;
			case 3: v = off+1.25; break;
			case 4: v = 0; break;
			case 5: v = px*i + py*j + pz*k + off; break;
			case 6: v = r.chance(0.9) ? 5.0 + 1e-4*r.sym() : r.sym()*100; break;
			case 7: v = r.sym()*1e30; scale=1e30; break;
			case 8: v = r.sym()*1e-30; scale=1e-30; break;
			case 9: v = (double)(int64_t)(r.below(9)) - 4; break;
			case 10: v = (i*2<n1 ? 1 : -1) * (j*2<n2 ? 3 : 1) + (k*2<n3?0.5:0); break;
			case 11: v = r.sym()*exp(r.gauss()*12); break;
			case 12: v = ((i+j+k)&1) ? 1000.5 : -1000.5; break;
			case 13: v = (((i/per)+(j/per)+(k/per))&1) ? px*i+py*j+pz*k+off : r.sym()*3; break;
			case 14: v = px*i+py*j+pz*k+off + 0.05*r.sym(); break;
			case 15: v = r.chance(0.4) ? 0 : sin(a*x)*cos(b*y)*(1+z); break;
		}
		f[(i*n2+j)*n3+k] = (T)v;
	}
	return f;
}

// vector fields ------------------------------------------------------------------------------
static const int NVKIND = 18;
inline const char * vkind_name(int k){
	static const char * n[NVKIND] = {"gyre","saddle","vortex","fourier","noise","integers","sparse_zeros","quarters","constant","dependent","u_zero","big","small","front","smooth_noise","neg_ramp","offset_noise","offset_steps"};
	return n[k];
}
template<typename T>
void vector_field(int kind, size_t n1, size_t n2, Rng& r, std::vector<T>& U, std::vector<T>& V, double& scale){
	size_t n=n1*n2; U.assign(n,0); V.assign(n,0);
	double a=0.5+4*r.u(), b=0.5+4*r.u(), p=6*r.u(), q=6*r.u();
	double cx=r.u()*n1, cy=r.u()*n2, k1=r.sym(), k2=r.sym(), k3=r.sym(), k4=r.sym();
	double A[4],B[4],C[4],D[4]; for(int t=0;t<4;t++){ A[t]=r.sym()*5;B[t]=r.sym()*5;C[t]=r.u()*6;D[t]=r.u()*6; }
	scale=1;
	for(size_t i=0;i<n1;i++) for(size_t j=0;j<n2;j++){
		double x=(i+0.5)/n1*3, y=(j+0.5)/n2*3, u=0,v=0;
		switch(kind){
			case 0: u=-sin(a*x+p)*cos(b*y+q); v=cos(a*x+p)*sin(b*y+q); break;
			case 1: u=(i-cx)*0.1+0.013; v=-(j-cy)*0.1+0.007; break;
			case 2: u=-(j-cy)*0.1+k1*(i-cx)*0.1; v=(i-cx)*0.1+k2*(j-cy)*0.1; break;
			case 3: for(int t=0;t<4;t++){ u+=sin(A[t]*x+B[t]*y+C[t]); v+=cos(B[t]*x-A[t]*y+D[t]); } break;
			case 4: u=r.sym(); v=r.sym(); break;
			case 5: u=(double)(int)r.below(7)-3; v=(double)(int)r.below(7)-3; break;
			case 6: u=sin(a*x+p); v=cos(b*y+q); if(r.chance(0.2)) u=0; if(r.chance(0.2)) v=0; break;
			case 7: u=((int)r.below(17)-8)*0.25; v=((int)r.below(17)-8)*0.25; break;
			case 8: u=k1; v=k2; break;
			case 9: u=sin(a*x+p)*cos(b*y)+0.1; v=2*u; break;
			case 10: u=0; v=sin(a*x+b*y); break;
			case 11: u=r.sym()*1e6*sin(a*x); v=r.sym()*1e6; scale=1e6; break;
			case 12: u=r.sym()*1e-6; v=r.sym()*1e-6*cos(b*y); scale=1e-6; break;
			case 13: u=(i+2*j < n1 ? 1.0 : -0.7)+0.1*sin(a*x); v=(2*i+j < n2 ? -0.4 : 1.1)+0.1*cos(b*y); break;
			case 14: u=sin(a*x+p)*cos(b*y)+0.02*r.sym(); v=cos(a*x)*sin(b*y+q)+0.02*r.sym(); break;
			case 16: u=2.5+r.sym(); v=-1.7+r.sym(); break;
			case 17: u=((i/3+j/4)&1) ? 3.0+0.01*r.sym() : 1.0+k1*0.5; v=((i/5+j/2)&1) ? 2.0 : 0.4+0.3*r.u(); break;
			case 15: u=-(double)j-0.25*k3; v=-(double)i+5*k4; break;
		}
		U[i*n2+j]=(T)u; V[i*n2+j]=(T)v;
	}
}
