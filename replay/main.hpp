// Common main of the replay drivers: <driver> <group> <seed> <first> <count> <logfile> [maxdim]
#pragma once
#include "common.hpp"
FILE * g_log; std::string g_desc; long g_fails, g_evals, g_nontrivial, g_ncp; int g_maxd = 70;
// heap blocks start with changing contents, so that results depending on uninitialised memory show up
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
static uint64_t g_noise = 1; static bool g_noisy = false;
static void noise_hook(const volatile void * p, size_t n){
	if(!g_noisy || !p || n > 60000) return;
	static const unsigned char w[8] = {0x00,0x3f,0x40,0xbe,0x41,0xc2,0x01,0x7e};
	g_noise = g_noise*6364136223846793005ull + 1442695040888963407ull; memset((void*)p, w[g_noise>>61], n);
}
static void noise_free(const volatile void *){}
bool run_group(const std::string& g, Rng& r);
int main(int argc,char**argv){
	std::string g=argv[1]; uint64_t seed=strtoull(argv[2],0,10); long first=atol(argv[3]), cnt=atol(argv[4]); g_log=fopen(argv[5],"w"); if(argc>6) g_maxd=atoi(argv[6]);
	if(!freopen("/dev/null","w",stdout)) return 3;
	__sanitizer_install_malloc_and_free_hooks(noise_hook, noise_free);
	for(long i=first;i<first+cnt;i++){
		uint64_t h=14695981039346656037ull; for(char ch: g) h=(h^(unsigned char)ch)*1099511628211ull;
		g_noise = i; g_noisy = true; Rng r(seed*1000003ull + i*7919ull + h); fprintf(g_log,"INDEX %ld\n",i); g_evals++;
		if(!run_group(g,r)) return 4;
		if(g_fails>20) break;
	}
	fprintf(g_log,"DONE evals=%ld nontrivial=%ld cells_with_cp=%ld fails=%ld\n",g_evals,g_nontrivial,g_ncp,g_fails); fclose(g_log); return g_fails?1:0;
}
