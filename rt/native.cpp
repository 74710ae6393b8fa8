// Concrete executor: runs harnesses against the real library (built with ASan)
// on seeded random inputs, or on a recorded input vector (replay).
//   native run H seconds seed maxiter outfile      random search
//   native replay H file tries                      replay recorded values
// exit 0: no failure; 3: failure (outfile/stdout tells which); 4: usage
#include "vrt.h"
#include <stdio.h>
#include <setjmp.h>
#include <signal.h>
#include <unistd.h>
#include <dlfcn.h>
#include <time.h>
#include <sys/time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <map>
#include <string>
#include <vector>
#include <set>
#include <sanitizer/common_interface_defs.h>
typedef unsigned long long u64;
static u64 S[2];
static u64 rnd() { u64 a=S[0],b=S[1]; S[0]=b; a^=a<<23; S[1]=a^b^(a>>18)^(b>>5); return S[1]+b; }
static void seedr(u64 x) { S[0]=x*0x9E3779B97F4A7C15ull+1; S[1]=x^0xD1B54A32D192ED03ull; for(int i=0;i<8;i++) rnd(); }
struct Rec { std::string n; u64 v; };
static std::vector<Rec> rec;
static bool replay=false; static std::map<std::string,std::vector<u64> > rv; static std::map<std::string,size_t> rp;
static jmp_buf jb; static const char *H_name; static const char *outfile; static long iter;
static std::set<std::string> covers; static u64 checks=0;
static std::vector<void*> bufs;
static u64 put(const char *n, u64 v) { rec.push_back(Rec{n,v}); return v; }
static bool rep(const char *n, u64 &v) {
  if (!replay) return false;
  std::vector<u64>&q=rv[n]; size_t &p=rp[n];
  if (p<q.size()) { v=q[p++]; return true; }
  return false;
}
static u64 spice(int bits) {
  u64 m = bits==64? ~0ull : ((1ull<<bits)-1);
  switch (rnd()%8) {
    case 0: return rnd()%4;
    case 1: return rnd()%20;
    case 2: return (m-(rnd()%3));
    case 3: return ((1ull<<(rnd()%bits))+(rnd()%3)-1)&m;
    case 4: return rnd()%256;
    default: return rnd()&m;
  }
}
extern "C" {
unsigned int nd_u32(const char *n){u64 v; if(!rep(n,v)) v=spice(32); return (unsigned)put(n,(unsigned)v);}
unsigned long nd_u64(const char *n){u64 v; if(!rep(n,v)) v=spice(64); return put(n,v);}
unsigned char nd_u8(const char *n){u64 v; if(!rep(n,v)) v=spice(8); return (unsigned char)put(n,v&255);}
unsigned short nd_u16(const char *n){u64 v; if(!rep(n,v)) v=spice(16); return (unsigned short)put(n,v&65535);}
int nd_i32(const char *n){u64 v; if(!rep(n,v)) { v=spice(32); if(rnd()%3==0) v=(unsigned)-(int)(rnd()%12);} return (int)put(n,(unsigned)v);}
float nd_f32(const char *n){u64 v; union{float f;unsigned u;}x; if(!rep(n,v)) { switch(rnd()%4){case 0: x.f=(float)(rnd()%3)/2; break; case 1: x.f=(float)(rnd()%1000)/999.f; break; case 2: x.f=(float)(int)(rnd()%2001-1000)/100.f; break; default: x.u=(unsigned)rnd();} v=x.u;} x.u=(unsigned)put(n,v); return x.f;}
double nd_f64(const char *n){u64 v; union{double f;u64 u;}x; if(!rep(n,v)) { switch(rnd()%4){case 0: x.f=(rnd()%3)/2.; break; case 1: x.f=(rnd()%1000)/999.; break; default: x.u=rnd();} v=x.u;} x.u=put(n,v); return x.f;}
unsigned int nd_rng(const char *n, unsigned lo, unsigned hi){u64 v; if(rep(n,v)) { if(v<lo||v>hi) longjmp(jb,2); } else { u64 w=(u64)hi-lo+1; switch(rnd()%8){case 0: v=lo; break; case 1: v=hi; break; case 2: v=lo+rnd()%(w<6?w:6); break; case 3: v=hi-rnd()%(w<6?w:6); break; default: v=lo+rnd()%w;} } return (unsigned)put(n,v);}
int nd_irng(const char *n, int lo, int hi){u64 v; int r; if(rep(n,v)) { r=(int)v; if(r<lo||r>hi) longjmp(jb,2); } else { u64 w=(u64)((long long)hi-lo+1); switch(rnd()%8){case 0: r=lo; break; case 1: r=hi; break; default: r=(int)(lo+(long long)(rnd()%w));} } put(n,(unsigned)r); return r;}
unsigned int nd_len(const char *n, unsigned cb, unsigned nb){return nd_rng(n,0,nb);}
unsigned int nd_dim(const char *n, unsigned cb, unsigned nb){return nd_rng(n,1,nb);}
void *nd_buf(const char *n, size_t sz){
  u64 v; if(!rep(n,v)) v=rnd()&0xffffffffu; put(n,v);
  unsigned char *p=(unsigned char*)malloc(sz?sz:1); if(!p) longjmp(jb,2);
  u64 s0=S[0],s1=S[1]; seedr(v+77);
  if (sz > (1u<<24)) { memset(p,(int)v,sz); }
  else switch(v%6){
    case 0: for(size_t i=0;i<sz;i++) p[i]=rnd()%2; break;
    case 1: { int c=rnd()%256; for(size_t i=0;i<sz;i++){ if(rnd()%7==0) c=rnd()%256; p[i]=c; } break; }
    case 2: for(size_t i=0;i<sz;i++) p[i]=(rnd()%3)?rnd():(rnd()%2?255:0); break;
    case 3: { int per=1+rnd()%8; unsigned char t[8]; for(int i=0;i<8;i++) t[i]=rnd(); for(size_t i=0;i<sz;i++){ if((i%per)==0&&rnd()%40==0) for(int k=0;k<8;k++) t[k]=rnd(); p[i]=t[i%per];} break; }
    default: for(size_t i=0;i<sz;i++) p[i]=rnd();
  }
  S[0]=s0;S[1]=s1; return p; }
void vrt_assume(int c){ if(!c) longjmp(jb,1); }
static void dump(const char *what,const char *id){
  FILE *f=fopen(outfile,"w"); if(!f) f=stdout;
  fprintf(f,"harness %s\nfailure %s %s\niteration %ld\n",H_name,what,id,iter);
  for(size_t i=0;i<rec.size();i++) fprintf(f,"in %s %llu\n",rec[i].n.c_str(),rec[i].v);
  fclose(f);
}
void vrt_check(int c,const char *id){ checks++; if(!c){ dump("check",id); printf("FAIL %s %s\n",H_name,id); fflush(stdout); _exit(3);} }
void vrt_cover(const char *id){ covers.insert(id); }
}
static void death(){ dump("memory-error","sanitizer"); printf("FAIL %s memory-error\n",H_name); fflush(stdout); _exit(3); }
static void hang(int){ dump("hang","time"); printf("FAIL %s hang\n",H_name); fflush(stdout); _exit(3); }
static double now(){ struct timeval t; gettimeofday(&t,0); return t.tv_sec+t.tv_usec*1e-6; }
extern "C" void vrt_native_init(void){ ilInit(); }
int main(int c,char**v){
  if(c<5) return 4;
  H_name=v[2]; void(*h)(void)=(void(*)(void))dlsym(RTLD_DEFAULT,v[2]); if(!h){ printf("NOHARNESS %s\n",v[2]); return 4; }
  __sanitizer_set_death_callback(death); signal(SIGALRM,hang);
  if(!strcmp(v[1],"run")){
    double T=atof(v[3]); u64 seed=strtoull(v[4],0,10); long maxit=atol(v[5]); outfile=v[6];
    double t0=now();
    // work is done in children that are replaced when they have grown, so leaks
    // in the library or the harness do not end the search
    struct Sh { volatile long it, ok, rej; volatile u64 checks; char cov[64][48]; volatile int ncov; };
    Sh *sh=(Sh*)mmap(0,sizeof(Sh),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
    for(;;){
      fflush(stdout); pid_t c=fork(); if(c<0) return 4;
      if(c==0){
        long n0=sh->it; void (*ini)(void)=(void(*)(void))dlsym(RTLD_DEFAULT,"vrt_native_init"); if(ini) ini();
        for(iter=n0; iter<maxit && now()-t0<T; iter++){
          sh->it=iter; seedr(seed*1000003u+iter); rec.clear(); alarm(40);
          if(!setjmp(jb)) { h(); sh->ok=sh->ok+1; } else sh->rej=sh->rej+1;
          if((iter&63)==0){ FILE*f=fopen("/proc/self/statm","r"); long a=0,r=0; if(f){ if(fscanf(f,"%ld %ld",&a,&r)!=2) r=0; fclose(f);} if(r>200000) { iter++; sh->it=iter; break; } }
        }
        sh->checks+=checks;
        for(std::set<std::string>::iterator i=covers.begin();i!=covers.end();++i){ bool have=false; for(int k=0;k<sh->ncov;k++) if(*i==sh->cov[k]) have=true; if(!have&&sh->ncov<64){ strncpy(sh->cov[sh->ncov],i->c_str(),47); sh->ncov=sh->ncov+1; } }
        _exit(iter<maxit && now()-t0<T ? 10 : 0);
      }
      int st=0; waitpid(c,&st,0);
      if(WIFEXITED(st)&&WEXITSTATUS(st)==10) continue;
      if(WIFEXITED(st)&&WEXITSTATUS(st)==0) break;
      if(WIFEXITED(st)&&WEXITSTATUS(st)==3) _exit(3);
      printf("FAIL %s died: status %x at iteration %ld\n",H_name,st,sh->it); fflush(stdout); 
      { FILE*f=fopen(outfile,"w"); if(f){ fprintf(f,"harness %s\nfailure died %x\nseed %llu iteration %ld\n",H_name,st,seed,(long)sh->it); fclose(f);} } _exit(3);
    }
    printf("OK %s iters=%ld accepted=%ld rejected=%ld checks=%llu covers=%d",H_name,(long)sh->it+1,(long)sh->ok,(long)sh->rej,(u64)sh->checks,(int)sh->ncov);
    for(int i=0;i<sh->ncov;i++) printf(" [%s]",sh->cov[i]); printf("\n"); fflush(stdout); _exit(0);
  } else {
    FILE*f=fopen(v[3],"r"); if(!f) return 4; char ln[512],nm[256]; u64 x; while(fgets(ln,sizeof ln,f)) if(sscanf(ln,"in %255s %llu",nm,&x)==2) rv[nm].push_back(x); fclose(f);
    { void (*ini)(void)=(void(*)(void))dlsym(RTLD_DEFAULT,"vrt_native_init"); if(ini) ini(); } replay=true; outfile=c>5?v[5]:"/dev/null"; long tries=atol(v[4]); long rej=0;
    for(iter=0;iter<tries;iter++){ seedr(iter+1); rp.clear(); rec.clear(); alarm(40); int r=setjmp(jb); if(!r) h(); else rej++; }
    printf("OK replay %s tries=%ld rejected=%ld\n",H_name,tries,rej); fflush(stdout); _exit(0);
  }
}
