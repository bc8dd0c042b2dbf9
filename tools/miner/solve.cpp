// Cuckaroo (2018, siphash-block) 42-cycle miner.  Not used by any check: it only
// produced the PoW-valid header fixtures committed in /verif/fixtures/headers.jsonl.
// usage: solve EDGEBITS THREADS MAXTRIES START [CYCLELEN] < 'hex of header bytes without trailing 8-byte nonce'
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <vector>
#include <thread>
#include <atomic>
#include <string>
#include <unordered_map>
#include <algorithm>
#include <functional>
#include <chrono>
typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8;
// ---- blake2b-256
static const u64 IV[8]={0x6a09e667f3bcc908ULL,0xbb67ae8584caa73bULL,0x3c6ef372fe94f82bULL,0xa54ff53a5f1d36f1ULL,0x510e527fade682d1ULL,0x9b05688c2b3e6c1fULL,0x1f83d9abfb41bd6bULL,0x5be0cd19137e2179ULL};
static const u8 SG[12][16]={{0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15},{14,10,4,8,9,15,13,6,1,12,0,2,11,7,5,3},{11,8,12,0,5,2,15,13,10,14,3,6,7,1,9,4},{7,9,3,1,13,12,11,14,2,6,5,10,4,0,15,8},{9,0,5,7,2,4,10,15,14,1,11,12,6,8,3,13},{2,12,6,10,0,11,8,3,4,13,7,5,15,14,1,9},{12,5,1,15,14,13,4,10,0,7,6,3,9,2,8,11},{13,11,7,14,12,1,3,9,5,0,15,4,8,6,2,10},{6,15,14,9,11,3,0,8,12,2,13,7,1,4,10,5},{10,2,8,4,7,6,1,5,15,11,9,14,3,12,13,0},{0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15},{14,10,4,8,9,15,13,6,1,12,0,2,11,7,5,3}};
static inline u64 ror(u64 x,int n){return x>>n|x<<(64-n);}
static void b2comp(u64*h,const u8*blk,u64 t,bool last){u64 m[16],v[16];memcpy(m,blk,128);for(int i=0;i<8;i++){v[i]=h[i];v[i+8]=IV[i];}v[12]^=t;if(last)v[14]=~v[14];
#define G(a,b,c,d,x,y) v[a]+=v[b]+x;v[d]=ror(v[d]^v[a],32);v[c]+=v[d];v[b]=ror(v[b]^v[c],24);v[a]+=v[b]+y;v[d]=ror(v[d]^v[a],16);v[c]+=v[d];v[b]=ror(v[b]^v[c],63);
for(int r=0;r<12;r++){const u8*s=SG[r];G(0,4,8,12,m[s[0]],m[s[1]])G(1,5,9,13,m[s[2]],m[s[3]])G(2,6,10,14,m[s[4]],m[s[5]])G(3,7,11,15,m[s[6]],m[s[7]])G(0,5,10,15,m[s[8]],m[s[9]])G(1,6,11,12,m[s[10]],m[s[11]])G(2,7,8,13,m[s[12]],m[s[13]])G(3,4,9,14,m[s[14]],m[s[15]])}
for(int i=0;i<8;i++)h[i]^=v[i]^v[i+8];}
static void blake2b256(const u8*in,size_t n,u8*out){u64 h[8];for(int i=0;i<8;i++)h[i]=IV[i];h[0]^=0x01010020;u8 blk[128];u64 t=0;while(n>128){t+=128;b2comp(h,in,t,false);in+=128;n-=128;}memset(blk,0,128);memcpy(blk,in,n);t+=n;b2comp(h,blk,t,true);memcpy(out,h,32);}
static u64 K[4];
#define L 8
// 8 blocks of 64 in parallel
static inline void rot(u64*x,int n){for(int l=0;l<L;l++)x[l]=x[l]<<n|x[l]>>(64-n);}
static inline void rnd(u64*a,u64*b,u64*c,u64*d){
 for(int l=0;l<L;l++){a[l]+=b[l]; b[l]=b[l]<<13|b[l]>>51; b[l]^=a[l]; a[l]=a[l]<<32|a[l]>>32; c[l]+=d[l]; d[l]=d[l]<<16|d[l]>>48; d[l]^=c[l]; a[l]+=d[l]; d[l]=d[l]<<21|d[l]>>43; d[l]^=a[l]; c[l]+=b[l]; b[l]=b[l]<<17|b[l]>>47; b[l]^=c[l]; c[l]=c[l]<<32|c[l]>>32;}}
static void blocks(u64 start,u64 (*out)[L]){ // out[64][L], lane l = block start+64*l
 u64 a[L],b[L],c[L],d[L];for(int l=0;l<L;l++){a[l]=K[0];b[l]=K[1];c[l]=K[2];d[l]=K[3];}
 for(int n=0;n<64;n++){u64 nn[L];for(int l=0;l<L;l++){nn[l]=start+64*l+n;d[l]^=nn[l];}rnd(a,b,c,d);rnd(a,b,c,d);for(int l=0;l<L;l++){a[l]^=nn[l];c[l]^=0xff;}rnd(a,b,c,d);rnd(a,b,c,d);rnd(a,b,c,d);rnd(a,b,c,d);for(int l=0;l<L;l++)out[n][l]=a[l]^b[l]^c[l]^d[l];}
 for(int n=0;n<63;n++)for(int l=0;l<L;l++)out[n][l]^=out[63][l];}
struct E{u32 u,v,n;};
static int EB,NT;static u64 N,MASK;
typedef std::atomic<u64> A64;
static A64 *B1,*B2;
static inline void cnt(u64 x){u64 w=x>>6,m=1ULL<<(x&63);if(B1[w].load(std::memory_order_relaxed)&m){if(!(B2[w].load(std::memory_order_relaxed)&m))B2[w].fetch_or(m,std::memory_order_relaxed);}else{u64 o=B1[w].fetch_or(m,std::memory_order_relaxed);if(o&m)B2[w].fetch_or(m,std::memory_order_relaxed);}}
static inline bool two(u64 x){return B2[x>>6].load(std::memory_order_relaxed)>>(x&63)&1;}
static void par(std::function<void(int)>f){std::vector<std::thread>t;for(int i=0;i<NT;i++)t.emplace_back(f,i);for(auto&x:t)x.join();}
static void clr(){par([](int t){u64 W=(N+63)/64,s=W*t/NT,e=W*(t+1)/NT;memset((void*)(B1+s),0,(e-s)*8);memset((void*)(B2+s),0,(e-s)*8);});}
template<class F>static void gen(int t,F f){u64 nb=N/(64*L);if(nb==0)nb=1;u64 s=nb*t/NT,e=nb*(t+1)/NT;static thread_local u64 out[64][L];for(u64 b=s;b<e;b++){u64 st=b*64*L;blocks(st,out);for(int l=0;l<L;l++)for(int n=0;n<64;n++){u64 no=st+64*l+n;f((u32)(out[n][l]&MASK),(u32)((out[n][l]>>32)&MASK),(u32)no);}}}
int main(int c,char**v){size_t LEN=c>5?atoi(v[5]):42;EB=atoi(v[1]);NT=atoi(v[2]);u64 tries=strtoull(v[3],0,10),start=strtoull(v[4],0,10);N=1ULL<<EB;MASK=N-1;std::string hx;int ch;while((ch=getchar())!=EOF)if(ch>' ')hx+=ch;std::vector<u8>h;for(size_t i=0;i+1<hx.size();i+=2)h.push_back(strtoul(hx.substr(i,2).c_str(),0,16));size_t hl=h.size();h.resize(hl+8);
 B1=(A64*)aligned_alloc(64,(N+63)/64*8+64);B2=(A64*)aligned_alloc(64,(N+63)/64*8+64);std::vector<std::vector<E>>es(NT);
 for(u64 t=0;t<tries;t++){u64 nonce=start+t;for(int i=0;i<8;i++)h[hl+i]=nonce>>(56-8*i);u8 d[32];blake2b256(h.data(),h.size(),d);memcpy(K,d,32);
  auto T0=std::chrono::steady_clock::now();
  clr();par([](int t){gen(t,[](u32 u,u32,u32){cnt(u);});});
  // survivors of U -> count V
  par([&](int t){es[t].clear();auto&q=es[t];gen(t,[&](u32 u,u32 w,u32 n){if(two(u))q.push_back({u,w,n});});});
  size_t tot=0;for(auto&q:es)tot+=q.size();
  for(int r=0;r<400;r++){bool V=(r&1)==0;clr();par([&](int t){for(auto&e:es[t])cnt(V?e.v:e.u);});par([&](int t){auto&q=es[t];size_t k=0;for(auto&e:q)if(two(V?e.v:e.u))q[k++]=e;q.resize(k);});size_t nt=0;for(auto&q:es)nt+=q.size();if(nt<2000||(r>60&&nt<100000)){tot=nt;break;}if(r>10&&nt==tot&&!V)break;tot=nt;}
  std::vector<E> all;for(auto&q:es)all.insert(all.end(),q.begin(),q.end());
  // path-following cycle finder
  std::unordered_map<u64,std::pair<u64,u32>> par_; bool found=false;
  for(auto&e:all){u64 a=(u64)e.u*2,b=(u64)e.v*2+1;std::vector<std::pair<u64,u32>>pa,pb;auto walk=[&](u64 x,std::vector<std::pair<u64,u32>>&p){p.push_back({x,0});for(int i=0;i<200000;i++){auto it=par_.find(x);if(it==par_.end())break;x=it->second.first;p.push_back({x,it->second.second});}};
   walk(a,pa);walk(b,pb);
   if(pa.back().first==pb.back().first){size_t i=pa.size()-1,j=pb.size()-1;while(i>0&&j>0&&pa[i-1].first==pb[j-1].first){i--;j--;}
     size_t len=i+j+1; if(len==LEN){std::vector<u32>s;s.push_back(e.n);for(size_t x=1;x<=i;x++)s.push_back(pa[x].second);for(size_t x=1;x<=j;x++)s.push_back(pb[x].second);std::sort(s.begin(),s.end());if(std::adjacent_find(s.begin(),s.end())==s.end()){printf("%llu",(unsigned long long)nonce);for(u32 x:s)printf(" %u",x);printf("\n");fflush(stdout);found=true;break;}}
   } else { // merge shorter path
     auto&P=pa.size()<pb.size()?pa:pb;u64 other=pa.size()<pb.size()?b:a; // reverse P so its start points to other
     for(size_t x=P.size()-1;x>0;x--)par_[P[x].first]={P[x-1].first,P[x].second};
     par_[P[0].first]={other,e.n};
   }}
  fprintf(stderr,"eb %d nonce %llu edges %zu %.1fs%s\n",EB,(unsigned long long)nonce,all.size(),std::chrono::duration<double>(std::chrono::steady_clock::now()-T0).count(),found?" FOUND":"");
  if(found)return 0;}
 return 3;}
