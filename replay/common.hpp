// Shared helpers of the replay driver: deterministic case generation, logging.
#pragma once
#include <cstdio>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cmath>
#include <cfloat>
#include <string>
#include <vector>
#include <limits>
#include <unistd.h>

struct Rng{
	uint64_t s;
	explicit Rng(uint64_t seed): s(seed*0x9E3779B97F4A7C15ull + 0x1234567ull){ next(); next(); }
	uint64_t next(){ uint64_t z=(s+=0x9E3779B97F4A7C15ull); z=(z^(z>>30))*0xBF58476D1CE4E5B9ull; z=(z^(z>>27))*0x94D049BB133111EBull; return z^(z>>31); }
	uint64_t below(uint64_t n){ return n? next()%n : 0; }
	double u(){ return (next()>>11)*(1.0/9007199254740992.0); }
	double sym(){ return 2*u()-1; }
	double gauss(){ double a=0; for(int i=0;i<12;i++) a+=u(); return a-6; }
	bool chance(double p){ return u()<p; }
};

extern FILE * g_log;
extern std::string g_desc;
extern long g_fails;
extern long g_evals;
extern long g_nontrivial;

inline void say(const char * kind, const std::string& msg){
	fprintf(g_log, "%s %s\n", kind, msg.c_str()); fflush(g_log);
}
inline std::string fmt(const char * f, ...) __attribute__((format(printf,1,2)));
inline std::string fmt(const char * f, ...){
	char b[1024]; va_list ap; va_start(ap,f); vsnprintf(b,sizeof b,f,ap); va_end(ap); return b;
}
// FAIL <property> <message>
inline void fail(const char * prop, const std::string& msg){
	g_fails++;
	say("FAIL", std::string(prop)+" "+g_desc+" :: "+msg);
}

// hand the decoder a block of exactly the reported size, so that any read outside it is a memory error
struct Exact{
	unsigned char * p; size_t n;
	Exact(unsigned char * c, size_t n_): n(n_){ p=(unsigned char*)malloc(n?n:1); memcpy(p,c,n); free(c); }
	~Exact(){ free(p); }
};
// true when the decoder, given one byte less than the reported size, still runs without touching the missing byte
// (run in a child process; the missing byte is the red zone of the heap block)
#include <sys/wait.h>
#include <fcntl.h>
template<class F> bool survives_truncation(const unsigned char * p, size_t n, F dec){
	if(n<1) return false;
	fflush(NULL); pid_t c=fork();
	if(c==0){ int z=open("/dev/null",O_WRONLY); dup2(z,2); dup2(z,1); unsigned char * q=(unsigned char*)malloc(n-1?n-1:1); memcpy(q,p,n-1); dec(q); _exit(0); }
	int st=0; waitpid(c,&st,0); return WIFEXITED(st)&&WEXITSTATUS(st)==0;
}
inline void phase(const char * p){ fprintf(g_log, "PHASE %s\n", p); fflush(g_log); }
