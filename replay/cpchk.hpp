// Geometric oracles with a safety margin (shared by the replay drivers)
#pragma once
#include "common.hpp"
typedef long double LD;
// classification of one triangle, decided only with a margin: 1 critical point inside, 0 none, -1 too close to call
static int tri(LD u0,LD v0,LD u1,LD v1,LD u2,LD v2, LD * det=0){
	LD M0=u2*v0-u0*v2, M1=u1*v2-u2*v1, M2=u0*v1-u1*v0;
	LD m = 2e-5L*(fabsl(u2*v0)+fabsl(u0*v2)+fabsl(u1*v2)+fabsl(u2*v1)+fabsl(u0*v1)+fabsl(u1*v0));
	LD mn=fminl(M0,fminl(M1,M2)), mx=fmaxl(M0,fmaxl(M1,M2));
	if(det) *det=M0+M1+M2;
	if(mn>m || mx<-m) return 1;
	if(mn<-m && mx>m) return 0;
	return -1;
}
template<typename T> int tri_at(const T*U,const T*V,size_t a,size_t b,size_t c){ return tri(U[a],V[a],U[b],V[b],U[c],V[c]); }
// kind of critical point of a linear triangle field: 0 saddle, 1 source-like, 2 sink-like (+4 if rotating); -1 too close to call
static int tri_kind(LD u0,LD v0,LD u1,LD v1,LD u2,LD v2, const int x[3][2]){
	// Jacobian from vertex values at integer coordinates (column=x, row=y)
	LD dx1=x[1][1]-x[0][1], dy1=x[1][0]-x[0][0], dx2=x[2][1]-x[0][1], dy2=x[2][0]-x[0][0], D=dx1*dy2-dx2*dy1;
	LD ux=((u1-u0)*dy2-(u2-u0)*dy1)/D, uy=((u2-u0)*dx1-(u1-u0)*dx2)/D, vx=((v1-v0)*dy2-(v2-v0)*dy1)/D, vy=((v2-v0)*dx1-(v1-v0)*dx2)/D;
	LD su=fabsl(u0)+fabsl(u1)+fabsl(u2)+fabsl(v0)+fabsl(v1)+fabsl(v2), m=1e-4L;
	LD tr=ux+vy, det=ux*vy-uy*vx, dis=tr*tr-4*det;
	if(fabsl(det)<m*su*su) return -1;
	if(det<0) return 0;
	if(fabsl(tr)<m*su || fabsl(dis)<m*su*su) return -1;
	return (tr>0?1:2)+(dis<0?4:0);
}
// robust number of zeros of the bilinear interpolant in a square, -1 if too close to call
static int quad(LD a,LD b,LD c,LD d,LD e,LD f,LD g,LD h){ // u: a=(0,0) b=(x=1) c=(1,1) d=(y=1); v likewise
	LD A0=a-b-d+c,B0=b-a,C0=d-a,D0=a, A1=e-f-h+g,B1=f-e,C1=h-e,D1=e;
	// (A0 y + B0) x + (C0 y + D0) = 0 ; eliminate x: quadratic in y
	LD q2=A0*C1-A1*C0, q1=A0*D1+B0*C1-A1*D0-B1*C0, q0=B0*D1-B1*D0;
	LD S=fabsl(a)+fabsl(b)+fabsl(c)+fabsl(d), Q=fabsl(e)+fabsl(f)+fabsl(g)+fabsl(h), s=S*Q+1e-300L;
	if(fabsl(q2)<1e-3L*s) return -1;
	// the library expresses the same roots through A0*C1-A1*C0 as y-eigenvalues; x from either equation
	LD disc=q1*q1-4*q2*q0; if(fabsl(disc)<1e-3L*s*s) return -1; if(disc<0) return 0;
	int cnt=0; for(int t=-1;t<=1;t+=2){ LD y=(-q1+t*sqrtl(disc))/(2*q2); LD d0=A0*y+B0,d1=A1*y+B1,x;
		LD rel0=fabsl(d0)/(S+1e-300L), rel1=fabsl(d1)/(Q+1e-300L);
		if(rel0<1e-3L && rel1<1e-3L) return -1;
		x = rel0>rel1 ? -(C0*y+D0)/d0 : -(C1*y+D1)/d1;
		LD m=2e-3L; if((fabsl(x)<m||fabsl(x-1)<m) && y>-m && y<1+m) return -1; if((fabsl(y)<m||fabsl(y-1)<m) && x>-m && x<1+m) return -1;
		if(x>0&&x<1&&y>0&&y<1) cnt++; }
	return cnt;
}
