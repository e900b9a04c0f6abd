// Deterministic heap: while a job runs, every allocation of the process comes from an arena at a fixed address that no
// earlier job touched, so addresses and the contents of uninitialised memory are a function of the seed alone.
#include "core.h"
#include <errno.h>
#include <sys/mman.h>
#include <unistd.h>
extern "C" { void*__libc_malloc(size_t); void __libc_free(void*); void*__libc_calloc(size_t,size_t); void*__libc_realloc(void*,size_t); void*__libc_memalign(size_t,size_t); }
namespace {
char*const BASE=(char*)0x300000000000ULL; const size_t SPAN=24ull<<30; const size_t LIMIT=3ull<<30;
bool on=false,mapped=false; char*top=nullptr; size_t live=0; u64 nalloc=0;
struct Hd { u64 size; u32 cls; u32 magic; };
const u32 MAGIC=0x51A110C, DEAD=0xDEADBEE; const u64 TAIL=0xC0DEFACE5AFE7A11ULL; // TAIL follows every block
 void*fl[256];
int cls_of(size_t n,size_t&r){ if(n<=16){ r=16; return 0; } int b=63-__builtin_clzll(n-1); // 2^b < n <= 2^(b+1)
  size_t q=((size_t)1<<b)/4; int s=(int)((n-1-((size_t)1<<b))/(q?q:1)); r=((size_t)1<<b)+(s+1)*q; r=(r+15)&~(size_t)15; return 1+(b-3)*4+s; }
inline bool mine(void*p){ return (char*)p>=BASE&&(char*)p<BASE+SPAN; }
void*get(size_t n){
  if(n>(1ull<<40)) return nullptr; size_t r; int c=cls_of(n+8,r); void*p; nalloc++;
  if(live+r>LIMIT) return nullptr;
  if(fl[c]){ p=fl[c]; fl[c]=*(void**)p; }
  else { if(top+r+sizeof(Hd)>BASE+SPAN) return nullptr; p=top+sizeof(Hd); top+=r+sizeof(Hd); }
  Hd*h=(Hd*)p-1; h->size=n; h->cls=c; h->magic=MAGIC; live+=r; memset(p,0xA5,n<4096?n:4096); memcpy((char*)p+n,&TAIL,8); return p; }
void put(void*p){ Hd*h=(Hd*)p-1; if(h->magic!=MAGIC) { bool dbl=h->magic==DEAD; on=false; sim::violation(dbl?"double-free":"heap-corruption",string("rank ")+std::to_string(sim::cur)+(dbl?" freed a block twice":" freed a block whose header was overwritten")); }
  if(memcmp((char*)p+h->size,&TAIL,8)){ on=false; sim::violation("heap-corruption",string("rank ")+std::to_string(sim::cur)+" wrote past the end of a block"); }
  size_t r; cls_of(h->size+8,r); live-=r; size_t n=h->size; h->magic=DEAD; memset(p,0x5B,n<1024?n:1024); *(void**)p=fl[h->cls]; fl[h->cls]=p; }
void*aligned(size_t al,size_t n){ // over-allocate and never reuse: rare
  if(al<=16) return get(n); if(n>(1ull<<40)) return nullptr; size_t r; int c=cls_of(n+8,r); char*q=(char*)(((u64)top+sizeof(Hd)+al-1)/al*al); if(q+r>BASE+SPAN) return nullptr; top=q+r; top=(char*)(((u64)top+15)&~15ull); Hd*h=(Hd*)q-1; h->size=n; h->cls=c; h->magic=MAGIC; live+=r; memset(q,0xA5,n<4096?n:4096); memcpy(q+n,&TAIL,8); return q; }
}
void heap_prepare(){ if(!mapped){ void*p=mmap(BASE,SPAN,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0); if(p!=BASE){ fprintf(stderr,"cannot map the simulated heap\n"); _exit(2);} mapped=true; } }
void heap_start(){ top=BASE; live=0; nalloc=0; memset(fl,0,sizeof fl); on=true; }
void heap_stop(){ on=false; }
extern "C" {
void*malloc(size_t n){ if(!on) return __libc_malloc(n); void*p=get(n); if(!p) errno=ENOMEM; return p; }
void free(void*p){ if(!p) return; if(mine(p)){ if(on) put(p); return; } if(on) return; __libc_free(p); } // blocks of the parent stay untouched in the child
void*calloc(size_t a,size_t b){ if(!on) return __libc_calloc(a,b); if(b&&a>(~(size_t)0)/b) return nullptr; void*p=get(a*b); if(p) memset(p,0,a*b); else errno=ENOMEM; return p; }
void*realloc(void*p,size_t n){ if(!p) return malloc(n); if(!mine(p)){ if(!on) return __libc_realloc(p,n); size_t o=((u64*)p)[-1]&~7ull; o=o>16?o-16:0; void*q=get(n); if(q) memcpy(q,p,o<n?o:n); return q; } 
  Hd*h=(Hd*)p-1; size_t o=h->size; void*q=malloc(n); if(!q) return nullptr; memcpy(q,p,o<n?o:n); free(p); return q; }
void*memalign(size_t a,size_t n){ return on? aligned(a,n):__libc_memalign(a,n); }
void*aligned_alloc(size_t a,size_t n){ return memalign(a,n); }
int posix_memalign(void**q,size_t a,size_t n){ void*p=memalign(a,n); if(!p) return ENOMEM; *q=p; return 0; }
size_t malloc_usable_size(void*p){ if(!p) return 0; if(mine(p)) return ((Hd*)p-1)->size; return (((u64*)p)[-1]&~7ull)-8; }
}
