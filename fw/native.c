/* Native replay driver: inputs come from a file of "name value" lines (k-th line of a
 * name answers the k-th request for it), or from a PRNG when FW_FUZZ=<runs> is set.  */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <setjmp.h>
#include <signal.h>
#include <unistd.h>
void harness(void);
void fw_assume(int c);
void fw_native_init(void) __attribute__((weak));
static char names[4096][64]; static uint64_t vals[4096]; static int used[4096]; static int n;
static int fuzz; static uint64_t rs; static jmp_buf jb;
static char logn[4096][64]; static uint64_t logv[4096]; static int ln;
static uint64_t rnd(void){ rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }
static uint64_t special(void){
	static const uint64_t s[] = {0,1,2,3,5,7,~0ull,1ull<<63,(1ull<<63)-1,1ull<<31,1ull<<32,(1ull<<53)+1,(1ull<<24)+1,63,64,65,
	 0x3ff0000000000000ull,0x7fefffffffffffffull,0x8000000000000000ull,0x4340000000000001ull,0x0000000000000001ull,0x4170000010000000ull,10,31,32,255,256,127,128};
	switch(rnd()%6){ case 0: case 1: return s[rnd()%(sizeof s/sizeof*s)]; case 2: return rnd()%16; case 3: return rnd()%300;
	case 4: return -(rnd()%300); default: return rnd(); }
}
uint64_t fw_u64(const char *name){
	uint64_t v = 0;
	if(fuzz){ v = special(); }
	else for(int i=0;i<n;i++) if(!used[i] && !strcmp(names[i],name)){ used[i]=1; v = vals[i]; break; }
	if(ln < 4096){ strncpy(logn[ln],name,63); logv[ln++] = v; }
	return v;
}
uint64_t fw_pick(const char *name, uint64_t lo, uint64_t hi){
	if(!fuzz){ uint64_t v = fw_u64(name); if(v < lo || v > hi) fw_assume(0); return v; }
	uint64_t v = special(); if(hi - lo + 1 && (v < lo || v > hi)) v = lo + v % (hi - lo + 1);
	if(ln < 4096){ strncpy(logn[ln],name,63); logv[ln++] = v; }
	return v;
}
void fw_assume(int c){ if(!c){ if(fuzz) longjmp(jb,1); printf("REPLAY: assumption not met\n"); exit(77); } }
static void dump(void){ for(int i=0;i<ln;i++) printf("INPUT %s %llu\n",logn[i],(unsigned long long)logv[i]); }
void fw_check(int c, const char *id){ if(!c){ printf("REPLAY: FAILED %s\n",id); dump(); fflush(stdout); _exit(1); } }
void *fw_native_alloc(size_t k){ void *p = malloc(k ? k : 1); if(!p) fw_assume(0); memset(p, 0, k); if(fuzz) for(size_t i=0;i<k;i++) ((unsigned char*)p)[i] = special(); return p; }
static void crash(int sig){ printf("REPLAY: CRASH signal %d\n",sig); dump(); fflush(stdout); _exit(1); }
int main(int argc,char **argv){
	signal(SIGFPE,crash); signal(SIGSEGV,crash); signal(SIGABRT,crash); signal(SIGBUS,crash);
	const char *f = getenv("FW_FUZZ");
	if(fw_native_init) fw_native_init();
	if(f){
		fuzz = 1; const char *s = getenv("VERIF_SEED"); rs = 0x9E3779B97F4A7C15ull * (uint64_t)(1 + (s?atoi(s):1)) | 1;
		volatile long runs = atol(f);
		for(volatile long i=0;i<runs;i++){ ln = 0; if(!setjmp(jb)) harness(); }
		printf("REPLAY: no failure in %ld runs\n",(long)runs); return 0;
	}
	FILE *fp = argc > 1 ? fopen(argv[1],"r") : stdin;
	while(fp && n < 4096 && fscanf(fp," %63s %llu",names[n],(unsigned long long*)&vals[n])==2) n++;
	harness();
	printf("REPLAY: no failure\n");
	return 0;
}
