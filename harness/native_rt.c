// Native driver for a harness: replays verifier counterexamples or searches
// for a failing input of the same contract on the real code.
#define _GNU_SOURCE
#include "vf.h"
#include <signal.h>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/resource.h>
jmp_buf vf_jmp;
void VF_ENTRY(void);
typedef struct { char *name; uint64_t v; int used; } KV;
static KV *kv; static int nkv;
static struct { char *name; uint64_t v; } log_[4096]; static int nlog;
static int fuzz; static uint64_t rng; static const char *failmsg;
static uint64_t rnd(void){ rng ^= rng<<13; rng ^= rng>>7; rng ^= rng<<17; return rng*0x2545F4914F6CDD1DULL; }
static uint64_t gen(void){
  static const uint64_t sp[]={0,1,2,3,7,8,15,16,31,32,33,63,64,127,128,255,256,32767,32768,65535,65536,
   0x7fffffff,0x80000000,0xffffffff,0x100000000,0x7fffffffffffffff,0x8000000000000000,0xffffffffffffffff};
  switch(rnd()%6){
  case 0: return rnd();
  case 1: return rnd()&0xff;
  case 2: return (uint64_t)1<<(rnd()%64);
  case 3: return sp[rnd()%(sizeof sp/sizeof*sp)];
  case 4: return -(rnd()%300);
  default: return sp[rnd()%(sizeof sp/sizeof*sp)]+rnd()%5-2;
  }
}
uint64_t vf_input(const char *name,int size,uint64_t lo,uint64_t hi,int ranged){
  uint64_t v=0; 
  if(fuzz){
    if(ranged){ uint64_t span=hi-lo+1; uint64_t g=rnd()%3?rnd():gen(); v=span?lo+g%span:gen(); }
    else v=gen();
  } else {
    int found=0;
    for(int i=0;i<nkv;i++) if(!kv[i].used&&!strcmp(kv[i].name,name)){kv[i].used=1;v=kv[i].v;found=1;break;}
    if(!found && ranged) v=lo;
  }
  if(size<8) v&=((uint64_t)1<<(size*8))-1;
  if(nlog<4096){log_[nlog].name=(char*)name;log_[nlog++].v=v;}
  return v;
}
void vf_reject(void){ longjmp(vf_jmp,1); }
void vf_failed(const char *m){ failmsg=m; longjmp(vf_jmp,2); }
static void report(const char *m){
  printf("FAILED %s\n",m);
  for(int i=0;i<nlog;i++) printf("INPUT %s=%llu\n",log_[i].name,(unsigned long long)log_[i].v);
  fflush(stdout);
}
static void onsig(int s){ char b[64]; snprintf(b,64,"crash signal %d in the real code",s); report(b); _exit(3); }
int main(int argc,char**argv){
  struct rlimit rl={4ULL<<30,4ULL<<30}; setrlimit(RLIMIT_AS,&rl);
  signal(SIGSEGV,onsig);signal(SIGFPE,onsig);signal(SIGABRT,onsig);
  if(argc>2&&!strcmp(argv[1],"--replay")){
    FILE*f=fopen(argv[2],"r"); char l[4096];
    while(f&&fgets(l,sizeof l,f)){ char*e=strrchr(l,'='); if(!e||strncmp(l,"INPUT ",6))continue; *e=0;
      kv=realloc(kv,(nkv+1)*sizeof*kv); kv[nkv].name=strdup(l+6); kv[nkv].used=0; kv[nkv++].v=strtoull(e+1,0,0);}
    alarm(20);
    int r=setjmp(vf_jmp);
    if(r==0){ VF_ENTRY(); puts("PASSED"); return 0;}
    if(r==1){ puts("REJECTED"); return 4;}
    report(failmsg); return 1;
  }
  // --fuzz N SEED SECONDS : each batch runs in its own process, so leaks and
  // static state of the compiler do not accumulate.
  uint64_t n=strtoull(argv[2],0,0), seed=strtoull(argv[3],0,0); int secs=atoi(argv[4]);
  fuzz=1; uint64_t done=0; time_t t0=time(0);
  for(uint64_t b=0; done<n && time(0)-t0<secs; b++){
    fflush(stdout); int p[2]; if(pipe(p))return 2;
    pid_t pid=fork();
    if(!pid){
      volatile uint64_t ran=0; rng=(seed*1000003+b)*0x9E3779B97F4A7C15ULL|1; for(int i=0;i<8;i++)rnd(); alarm(20);
      for(volatile int i=0;i<500;i++){
        nlog=0; int r=setjmp(vf_jmp);
        if(r==0){ VF_ENTRY(); ran++; } else if(r==2){ report(failmsg); _exit(1);} }
      (void)!write(p[1],(void*)&ran,8); _exit(0);
    }
    close(p[1]); int st; uint64_t ran=0; if(read(p[0],&ran,8)!=8)ran=0; close(p[0]); waitpid(pid,&st,0);
    if(WIFEXITED(st)&&(WEXITSTATUS(st)==1||WEXITSTATUS(st)==3)) return WEXITSTATUS(st);
    if(!WIFEXITED(st)||WEXITSTATUS(st)){ printf("ABORT batch status %x\n",st); return 5; }
    done+=500; if(ran==0&&b>200){ puts("NO accepted inputs"); return 6;}
  }
  printf("FUZZ ok %llu\n",(unsigned long long)done); return 0;
}
