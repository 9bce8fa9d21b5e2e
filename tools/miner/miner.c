// Cuckaroo miner used once, offline, to produce headers with a genuine proof of
// work for the checks' corpus (harness/data/mined.json). Not used by any check.
//
// usage: miner EDGEBITS PREPOW_HEX [THREADS] [FIRST_NONCE] [CYCLE_LENGTH=42]
//   PREPOW_HEX is the serialised header without its proof of work; its last 8
//   bytes (big endian) are the header nonce, which is what is iterated.
// prints: nonce and the edge nonces, one JSON line.
#define _GNU_SOURCE
#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdatomic.h>
#include <time.h>
typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8;
#define MAXP 64
static int PROOF=42;

// ---- blake2b-256 (single small message) ----
static const u64 IV[8]={0x6a09e667f3bcc908ULL,0xbb67ae8584caa73bULL,0x3c6ef372fe94f82bULL,0xa54ff53a5f1d36f1ULL,0x510e527fade682d1ULL,0x9b05688c2b3e6c1fULL,0x1f83d9abfb41bd6bULL,0x5be0cd19137e2179ULL};
static const u8 SG[12][16]={{0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15},{14,10,4,8,9,15,13,6,1,12,0,2,11,7,5,3},{11,8,12,0,5,2,15,13,10,14,3,6,7,1,9,4},{7,9,3,1,13,12,11,14,2,6,5,10,4,0,15,8},{9,0,5,7,2,4,10,15,14,1,11,12,6,8,3,13},{2,12,6,10,0,11,8,3,4,13,7,5,15,14,1,9},{12,5,1,15,14,13,4,10,0,7,6,3,9,2,8,11},{13,11,7,14,12,1,3,9,5,0,15,4,8,6,2,10},{6,15,14,9,11,3,0,8,12,2,13,7,1,4,10,5},{10,2,8,4,7,6,1,5,15,11,9,14,3,12,13,0},{0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15},{14,10,4,8,9,15,13,6,1,12,0,2,11,7,5,3}};
static inline u64 ror(u64 x,int n){return x>>n|x<<(64-n);}
static void b2comp(u64 h[8],const u8 blk[128],u64 t,int last){u64 v[16],m[16];memcpy(m,blk,128);for(int i=0;i<8;i++){v[i]=h[i];v[i+8]=IV[i];}v[12]^=t;if(last)v[14]=~v[14];
#define G(a,b,c,d,x,y) v[a]+=v[b]+x;v[d]=ror(v[d]^v[a],32);v[c]+=v[d];v[b]=ror(v[b]^v[c],24);v[a]+=v[b]+y;v[d]=ror(v[d]^v[a],16);v[c]+=v[d];v[b]=ror(v[b]^v[c],63);
for(int r=0;r<12;r++){const u8*s=SG[r];G(0,4,8,12,m[s[0]],m[s[1]])G(1,5,9,13,m[s[2]],m[s[3]])G(2,6,10,14,m[s[4]],m[s[5]])G(3,7,11,15,m[s[6]],m[s[7]])G(0,5,10,15,m[s[8]],m[s[9]])G(1,6,11,12,m[s[10]],m[s[11]])G(2,7,8,13,m[s[12]],m[s[13]])G(3,4,9,14,m[s[14]],m[s[15]])}
for(int i=0;i<8;i++)h[i]^=v[i]^v[i+8];}
static void blake2b256(const u8*in,size_t n,u8 out[32]){u64 h[8];memcpy(h,IV,64);h[0]^=0x01010020;u64 t=0;u8 b[128];while(n>128){memcpy(b,in,128);t+=128;b2comp(h,b,t,0);in+=128;n-=128;}memset(b,0,128);memcpy(b,in,n);t+=n;b2comp(h,b,t,1);memcpy(out,h,32);}

static u64 K[4]; static int EB; static u64 NE; static u32 MASK; static int T=8;
#define L 8
typedef u64 vec __attribute__((vector_size(L*8)));
#define ROT(x,b) (((x)<<(b))|((x)>>(64-(b))))
#define SR v0+=v1;v1=ROT(v1,13);v1^=v0;v0=ROT(v0,32);v2+=v3;v3=ROT(v3,16);v3^=v2;v0+=v3;v3=ROT(v3,21);v3^=v0;v2+=v1;v1=ROT(v1,17);v1^=v2;v2=ROT(v2,32);
// hashes L consecutive 64-blocks starting at nonce 'start'; out[lane][i]
static void blocks(u64 start,u64 out[L][64]){vec v0,v1,v2,v3,n;for(int i=0;i<L;i++){v0[i]=K[0];v1[i]=K[1];v2[i]=K[2];v3[i]=K[3];n[i]=start+64*i;}
 vec buf[64];const vec c=(vec){0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff};
 for(int i=0;i<64;i++){v3^=n;SR SR v0^=n;v2^=c;SR SR SR SR buf[i]=v0^v1^v2^v3;n+=1;}
 vec last=buf[63];for(int i=0;i<64;i++){vec x=i==63?last:buf[i]^last;for(int l=0;l<L;l++)out[l][i]=x[l];}}

typedef struct{u32 n,u,v;}edge;
static edge*seg[64];static u64 cnt[64];static u64 cap;
static _Atomic u64*bm; // 2 bits per node, 32 nodes per word
static u64 words;
static pthread_barrier_t bar;
static volatile int stop;
static inline void mark(u32 x){_Atomic u64*w=&bm[x>>5];int b=(x&31)*2;u64 o=atomic_load_explicit(w,memory_order_relaxed);if(o>>b&2)return;o=atomic_fetch_or_explicit(w,1ULL<<b,memory_order_relaxed);if(o>>b&1)atomic_fetch_or_explicit(w,2ULL<<b,memory_order_relaxed);}
static inline int multi(u32 x){return atomic_load_explicit(&bm[x>>5],memory_order_relaxed)>>((x&31)*2)&2;}
static void clearbm(int id){u64 a=words*id/T,b=words*(id+1)/T;memset((void*)(bm+a),0,(b-a)*8);}
static void*work(void*p){int id=(int)(long)p;u64 nb=NE/64,a=nb*id/T/L*L*64,b=(id==T-1?nb:nb*(id+1)/T/L*L)*64;static __thread u64 out[L][64];
 clearbm(id);pthread_barrier_wait(&bar);
 for(u64 s=a;s<b;s+=64*L){blocks(s,out);for(int l=0;l<L;l++)for(int i=0;i<64;i++)__builtin_prefetch((void*)&bm[((u32)out[l][i]&MASK)>>5],1);for(int l=0;l<L;l++)for(int i=0;i<64;i++)mark((u32)out[l][i]&MASK);}
 pthread_barrier_wait(&bar);
 u64 c=0;edge*e=seg[id];
 for(u64 s=a;s<b;s+=64*L){blocks(s,out);for(int l=0;l<L;l++)for(int i=0;i<64;i++)__builtin_prefetch((void*)&bm[((u32)out[l][i]&MASK)>>5],0);for(int l=0;l<L;l++)for(int i=0;i<64;i++){u32 u=(u32)out[l][i]&MASK;if(multi(u)){if(c>=cap){fprintf(stderr,"cap\n");exit(3);}e[c++]=(edge){(u32)(s+64*l+i),u,(u32)(out[l][i]>>32)&MASK};}}}
 cnt[id]=c;pthread_barrier_wait(&bar);
 u64 prev=0;
 for(int r=1;;r++){clearbm(id);pthread_barrier_wait(&bar);c=cnt[id];
  #define X(k) ((r&1)?e[k].v:e[k].u)
  for(u64 k=0;k<c;k++){if(k+24<c)__builtin_prefetch((void*)&bm[X(k+24)>>5],1);mark(X(k));}
  pthread_barrier_wait(&bar);u64 o=0;
  for(u64 k=0;k<c;k++){if(k+24<c)__builtin_prefetch((void*)&bm[X(k+24)>>5],0);if(multi(X(k)))e[o++]=e[k];}
  cnt[id]=o;pthread_barrier_wait(&bar);
  u64 tot=0;for(int t=0;t<T;t++)tot+=cnt[t];
  if(tot==0||(tot==prev&&r>4)||r>400||(tot<200000&&r>60)){break;}prev=tot;pthread_barrier_wait(&bar);}
 return 0;}

static edge*E;static u64 N;
static int cmpu(const void*a,const void*b){u32 x=((edge*)a)->u,y=((edge*)b)->u;return x<y?-1:x>y;}
static u32*vidx;static int cmpv(const void*a,const void*b){u32 x=E[*(u32*)a].v,y=E[*(u32*)b].v;return x<y?-1:x>y;}
static u32*uidx_start;static int cmp32(const void*a,const void*b){u32 x=*(u32*)a,y=*(u32*)b;return x<y?-1:x>y;}
static u32 path[MAXP];
static u64 lo_u(u32 x){u64 l=0,h=N;while(l<h){u64 m=(l+h)/2;if(E[m].u<x)l=m+1;else h=m;}return l;}
static u64 lo_v(u32 x){u64 l=0,h=N;while(l<h){u64 m=(l+h)/2;if(E[vidx[m]].v<x)l=m+1;else h=m;}return l;}
static u64 steps;
// walk from edge path[d-1]; at odd d we leave through v, at even through u. closes at the u of path[0].
static int dfs(int d){if(++steps>50000000)return 0;u32 cur=path[d-1];
 if(d==PROOF){return E[cur].u==E[path[0]].u;}
 if(d&1){for(u64 k=lo_v(E[cur].v);k<N&&E[vidx[k]].v==E[cur].v;k++){u32 j=vidx[k];if(j<=path[0]||j==cur)continue;int bad=0;for(int q=0;q<d-1;q++)if(E[path[q]].v==E[j].v||(q>0&&path[q]==j))bad=1;if(bad)continue;path[d]=j;if(dfs(d+1))return 1;}}
 else{ if(E[cur].u==E[path[0]].u)return 0;for(u64 k=lo_u(E[cur].u);k<N&&E[k].u==E[cur].u;k++){u32 j=k;if(j<=path[0]||j==cur)continue;int bad=0;for(int q=0;q<d-1;q++)if(E[path[q]].u==E[j].u)bad=1;if(bad)continue;path[d]=j;if(dfs(d+1))return 1;}}
 return 0;}

int main(int ac,char**av){if(ac<3)return 2;EB=atoi(av[1]);const char*hx=av[2];size_t n=strlen(hx)/2;u8*pre=malloc(n);for(size_t i=0;i<n;i++){unsigned x;sscanf(hx+2*i,"%2x",&x);pre[i]=x;}
 if(ac>3)T=atoi(av[3]);u64 nonce=ac>4?strtoull(av[4],0,10):0;if(ac>5)PROOF=atoi(av[5]);
 NE=1ULL<<EB;MASK=(u32)(NE-1);words=NE/32;bm=aligned_alloc(64,words*8<64?64:words*8);
 cap=(u64)(NE/T*0.66)+100000;for(int i=0;i<T;i++)seg[i]=malloc(cap*sizeof(edge));
 pthread_barrier_init(&bar,0,T);
 for(;;nonce++){for(int i=0;i<8;i++)pre[n-1-i]=nonce>>(8*i);u8 h[32];blake2b256(pre,n,h);memcpy(K,h,32);
  struct timespec t0,t1;clock_gettime(CLOCK_MONOTONIC,&t0);
  pthread_t th[64];for(long i=0;i<T;i++)pthread_create(&th[i],0,work,(void*)i);for(int i=0;i<T;i++)pthread_join(th[i],0);
  N=0;for(int t=0;t<T;t++)N+=cnt[t];E=malloc((N+1)*sizeof(edge));u64 o=0;for(int t=0;t<T;t++){memcpy(E+o,seg[t],cnt[t]*sizeof(edge));o+=cnt[t];}
  // finish trimming single-threaded by sorting
  for(;;){u64 before=N;qsort(E,N,sizeof(edge),cmpu);u64 w=0;for(u64 k=0;k<N;k++){int m=(k>0&&E[k-1].u==E[k].u)||(k+1<N&&E[k+1].u==E[k].u);(void)m;}
    u8*keep=calloc(N+1,1);for(u64 k=0;k<N;k++)keep[k]=(k>0&&E[k-1].u==E[k].u)||(k+1<N&&E[k+1].u==E[k].u);
    for(u64 k=0;k<N;k++)if(keep[k])E[w++]=E[k];N=w;free(keep);
    u32*ix=malloc((N+1)*4);for(u64 k=0;k<N;k++)ix[k]=k;vidx=ix;qsort(ix,N,4,cmpv);keep=calloc(N+1,1);
    for(u64 k=0;k<N;k++)keep[ix[k]]=(k>0&&E[ix[k-1]].v==E[ix[k]].v)||(k+1<N&&E[ix[k+1]].v==E[ix[k]].v);
    w=0;for(u64 k=0;k<N;k++)if(keep[k])E[w++]=E[k];N=w;free(keep);free(ix);if(N==before)break;}
  qsort(E,N,sizeof(edge),cmpu);vidx=malloc((N+1)*4);for(u64 k=0;k<N;k++)vidx[k]=k;qsort(vidx,N,4,cmpv);
  int found=0;steps=0;for(u64 k=0;k<N&&!found;k++){path[0]=k;if(dfs(1))found=1;}
  clock_gettime(CLOCK_MONOTONIC,&t1);fprintf(stderr,"eb %d nonce %lu core %lu %.1fs %s\n",EB,nonce,N,(t1.tv_sec-t0.tv_sec)+(t1.tv_nsec-t0.tv_nsec)/1e9,found?"FOUND":"");
  if(found){u32 s[MAXP];for(int i=0;i<PROOF;i++)s[i]=E[path[i]].n;qsort(s,PROOF,4,cmp32);printf("{\"nonce\":%lu,\"edges\":[",nonce);for(int i=0;i<PROOF;i++)printf("%s%u",i?",":"",s[i]);printf("]}\n");return 0;}
  free(E);free(vidx);}
}
