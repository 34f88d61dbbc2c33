/* Reference definitions of the hash functions, written from RFC 1321,
   FIPS 180-4 and the Keccak SHA-3 submission (padding 10*1 on the message
   itself, the variant the toolkit's own vectors use). */
typedef uint32_t w32; typedef uint64_t w64;
static w32 rr(w32 x,int n) { return((x >> n) | (x << (32-n))); }
static w32 rl(w32 x,int n) { return((x << n) | (x >> (32-n))); }
static w64 rr64(w64 x,int n) { return((x >> n) | (x << (64-n))); }
static w64 rl64(w64 x,int n) { return(n ? ((x << n) | (x >> (64-n))) : x); }
static w32 be32(const unsigned char *p) { return(((w32) p[0] << 24) | ((w32) p[1] << 16) | ((w32) p[2] << 8) | p[3]); }
static w32 le32(const unsigned char *p) { return(((w32) p[3] << 24) | ((w32) p[2] << 16) | ((w32) p[1] << 8) | p[0]); }
static w64 be64(const unsigned char *p) { return(((w64) be32(p) << 32) | be32(p+4)); }
static w64 le64(const unsigned char *p) { return(((w64) le32(p+4) << 32) | le32(p)); }
static const w32 K256[64]={
0x428a2f98U,0x71374491U,0xb5c0fbcfU,0xe9b5dba5U,0x3956c25bU,0x59f111f1U,
0x923f82a4U,0xab1c5ed5U,0xd807aa98U,0x12835b01U,0x243185beU,0x550c7dc3U,
0x72be5d74U,0x80deb1feU,0x9bdc06a7U,0xc19bf174U,0xe49b69c1U,0xefbe4786U,
0x0fc19dc6U,0x240ca1ccU,0x2de92c6fU,0x4a7484aaU,0x5cb0a9dcU,0x76f988daU,
0x983e5152U,0xa831c66dU,0xb00327c8U,0xbf597fc7U,0xc6e00bf3U,0xd5a79147U,
0x06ca6351U,0x14292967U,0x27b70a85U,0x2e1b2138U,0x4d2c6dfcU,0x53380d13U,
0x650a7354U,0x766a0abbU,0x81c2c92eU,0x92722c85U,0xa2bfe8a1U,0xa81a664bU,
0xc24b8b70U,0xc76c51a3U,0xd192e819U,0xd6990624U,0xf40e3585U,0x106aa070U,
0x19a4c116U,0x1e376c08U,0x2748774cU,0x34b0bcb5U,0x391c0cb3U,0x4ed8aa4aU,
0x5b9cca4fU,0x682e6ff3U,0x748f82eeU,0x78a5636fU,0x84c87814U,0x8cc70208U,
0x90befffaU,0xa4506cebU,0xbef9a3f7U,0xc67178f2U};
static const w64 K512[80]={
0x428a2f98d728ae22ULL,0x7137449123ef65cdULL,0xb5c0fbcfec4d3b2fULL,0xe9b5dba58189dbbcULL,
0x3956c25bf348b538ULL,0x59f111f1b605d019ULL,0x923f82a4af194f9bULL,0xab1c5ed5da6d8118ULL,
0xd807aa98a3030242ULL,0x12835b0145706fbeULL,0x243185be4ee4b28cULL,0x550c7dc3d5ffb4e2ULL,
0x72be5d74f27b896fULL,0x80deb1fe3b1696b1ULL,0x9bdc06a725c71235ULL,0xc19bf174cf692694ULL,
0xe49b69c19ef14ad2ULL,0xefbe4786384f25e3ULL,0x0fc19dc68b8cd5b5ULL,0x240ca1cc77ac9c65ULL,
0x2de92c6f592b0275ULL,0x4a7484aa6ea6e483ULL,0x5cb0a9dcbd41fbd4ULL,0x76f988da831153b5ULL,
0x983e5152ee66dfabULL,0xa831c66d2db43210ULL,0xb00327c898fb213fULL,0xbf597fc7beef0ee4ULL,
0xc6e00bf33da88fc2ULL,0xd5a79147930aa725ULL,0x06ca6351e003826fULL,0x142929670a0e6e70ULL,
0x27b70a8546d22ffcULL,0x2e1b21385c26c926ULL,0x4d2c6dfc5ac42aedULL,0x53380d139d95b3dfULL,
0x650a73548baf63deULL,0x766a0abb3c77b2a8ULL,0x81c2c92e47edaee6ULL,0x92722c851482353bULL,
0xa2bfe8a14cf10364ULL,0xa81a664bbc423001ULL,0xc24b8b70d0f89791ULL,0xc76c51a30654be30ULL,
0xd192e819d6ef5218ULL,0xd69906245565a910ULL,0xf40e35855771202aULL,0x106aa07032bbd1b8ULL,
0x19a4c116b8d2d0c8ULL,0x1e376c085141ab53ULL,0x2748774cdf8eeb99ULL,0x34b0bcb5e19b48a8ULL,
0x391c0cb3c5c95a63ULL,0x4ed8aa4ae3418acbULL,0x5b9cca4f7763e373ULL,0x682e6ff3d6b2b8a3ULL,
0x748f82ee5defb2fcULL,0x78a5636f43172f60ULL,0x84c87814a1f0ab72ULL,0x8cc702081a6439ecULL,
0x90befffa23631e28ULL,0xa4506cebde82bde9ULL,0xbef9a3f7b2c67915ULL,0xc67178f2e372532bULL,
0xca273eceea26619cULL,0xd186b8c721c0c207ULL,0xeada7dd6cde0eb1eULL,0xf57d4f7fee6ed178ULL,
0x06f067aa72176fbaULL,0x0a637dc5a2c898a6ULL,0x113f9804bef90daeULL,0x1b710b35131c471bULL,
0x28db77f523047d84ULL,0x32caab7b40c72493ULL,0x3c9ebe0a15c9bebcULL,0x431d67c49c100d4cULL,
0x4cc5d4becb3e42b6ULL,0x597f299cfc657e2aULL,0x5fcb6fab3ad6faecULL,0x6c44198c4a475817ULL};
static const w32 H224[8]={
0xc1059ed8U,0x367cd507U,0x3070dd17U,0xf70e5939U,0xffc00b31U,0x68581511U,
0x64f98fa7U,0xbefa4fa4U};
static const w32 H256[8]={
0x6a09e667U,0xbb67ae85U,0x3c6ef372U,0xa54ff53aU,0x510e527fU,0x9b05688cU,
0x1f83d9abU,0x5be0cd19U};
static const w64 H384[8]={
0xcbbb9d5dc1059ed8ULL,0x629a292a367cd507ULL,0x9159015a3070dd17ULL,0x152fecd8f70e5939ULL,
0x67332667ffc00b31ULL,0x8eb44a8768581511ULL,0xdb0c2e0d64f98fa7ULL,0x47b5481dbefa4fa4ULL};
static const w64 H512[8]={
0x6a09e667f3bcc908ULL,0xbb67ae8584caa73bULL,0x3c6ef372fe94f82bULL,0xa54ff53a5f1d36f1ULL,
0x510e527fade682d1ULL,0x9b05688c2b3e6c1fULL,0x1f83d9abfb41bd6bULL,0x5be0cd19137e2179ULL};
static const w32 TMD5[64]={
0xd76aa478U,0xe8c7b756U,0x242070dbU,0xc1bdceeeU,0xf57c0fafU,0x4787c62aU,
0xa8304613U,0xfd469501U,0x698098d8U,0x8b44f7afU,0xffff5bb1U,0x895cd7beU,
0x6b901122U,0xfd987193U,0xa679438eU,0x49b40821U,0xf61e2562U,0xc040b340U,
0x265e5a51U,0xe9b6c7aaU,0xd62f105dU,0x02441453U,0xd8a1e681U,0xe7d3fbc8U,
0x21e1cde6U,0xc33707d6U,0xf4d50d87U,0x455a14edU,0xa9e3e905U,0xfcefa3f8U,
0x676f02d9U,0x8d2a4c8aU,0xfffa3942U,0x8771f681U,0x6d9d6122U,0xfde5380cU,
0xa4beea44U,0x4bdecfa9U,0xf6bb4b60U,0xbebfbc70U,0x289b7ec6U,0xeaa127faU,
0xd4ef3085U,0x04881d05U,0xd9d4d039U,0xe6db99e5U,0x1fa27cf8U,0xc4ac5665U,
0xf4292244U,0x432aff97U,0xab9423a7U,0xfc93a039U,0x655b59c3U,0x8f0ccc92U,
0xffeff47dU,0x85845dd1U,0x6fa87e4fU,0xfe2ce6e0U,0xa3014314U,0x4e0811a1U,
0xf7537e82U,0xbd3af235U,0x2ad7d2bbU,0xeb86d391U};
static const w64 RCK[24]={
0x0000000000000001ULL,0x0000000000008082ULL,0x800000000000808aULL,0x8000000080008000ULL,
0x000000000000808bULL,0x0000000080000001ULL,0x8000000080008081ULL,0x8000000000008009ULL,
0x000000000000008aULL,0x0000000000000088ULL,0x0000000080008009ULL,0x000000008000000aULL,
0x000000008000808bULL,0x800000000000008bULL,0x8000000000008089ULL,0x8000000000008003ULL,
0x8000000000008002ULL,0x8000000000000080ULL,0x000000000000800aULL,0x800000008000000aULL,
0x8000000080008081ULL,0x8000000000008080ULL,0x0000000080000001ULL,0x8000000080008008ULL};
static const int RHO[25]={0,1,62,28,27,36,44,6,55,20,3,10,43,25,39,41,45,15,21,8,18,2,61,56,14};

static void ref_sha256(w32 *h,const unsigned char *b)
{
  w32 w[64], a=h[0], B=h[1], c=h[2], d=h[3], e=h[4], f=h[5], g=h[6], H=h[7], t1, t2; int i;
  for (i=0; i < 16; i++) w[i]=be32(b+4*i);
  for (i=16; i < 64; i++)
    w[i]=(rr(w[i-2],17) ^ rr(w[i-2],19) ^ (w[i-2] >> 10))+w[i-7]+(rr(w[i-15],7) ^ rr(w[i-15],18) ^ (w[i-15] >> 3))+w[i-16];
  for (i=0; i < 64; i++)
  {
    t1=H+(rr(e,6) ^ rr(e,11) ^ rr(e,25))+((e & f) ^ (~e & g))+K256[i]+w[i];
    t2=(rr(a,2) ^ rr(a,13) ^ rr(a,22))+((a & B) ^ (a & c) ^ (B & c));
    H=g; g=f; f=e; e=d+t1; d=c; c=B; B=a; a=t1+t2;
  }
  h[0]+=a; h[1]+=B; h[2]+=c; h[3]+=d; h[4]+=e; h[5]+=f; h[6]+=g; h[7]+=H;
}
static void ref_sha512(w64 *h,const unsigned char *b)
{
  w64 w[80], a=h[0], B=h[1], c=h[2], d=h[3], e=h[4], f=h[5], g=h[6], H=h[7], t1, t2; int i;
  for (i=0; i < 16; i++) w[i]=be64(b+8*i);
  for (i=16; i < 80; i++)
    w[i]=(rr64(w[i-2],19) ^ rr64(w[i-2],61) ^ (w[i-2] >> 6))+w[i-7]+(rr64(w[i-15],1) ^ rr64(w[i-15],8) ^ (w[i-15] >> 7))+w[i-16];
  for (i=0; i < 80; i++)
  {
    t1=H+(rr64(e,14) ^ rr64(e,18) ^ rr64(e,41))+((e & f) ^ (~e & g))+K512[i]+w[i];
    t2=(rr64(a,28) ^ rr64(a,34) ^ rr64(a,39))+((a & B) ^ (a & c) ^ (B & c));
    H=g; g=f; f=e; e=d+t1; d=c; c=B; B=a; a=t1+t2;
  }
  h[0]+=a; h[1]+=B; h[2]+=c; h[3]+=d; h[4]+=e; h[5]+=f; h[6]+=g; h[7]+=H;
}
static void ref_sha1(w32 *h,const unsigned char *b)
{
  w32 w[80], A=h[0], B=h[1], C=h[2], D=h[3], E=h[4], t; int i;
  for (i=0; i < 16; i++) w[i]=be32(b+4*i);
  for (i=16; i < 80; i++) w[i]=rl(w[i-3] ^ w[i-8] ^ w[i-14] ^ w[i-16],1);
  for (i=0; i < 80; i++)
  {
    w32 f, k;
    if (i < 20) { f=(B & C) | (~B & D); k=0x5a827999U; }
    else if (i < 40) { f=B ^ C ^ D; k=0x6ed9eba1U; }
    else if (i < 60) { f=(B & C) | (B & D) | (C & D); k=0x8f1bbcdcU; }
    else { f=B ^ C ^ D; k=0xca62c1d6U; }
    t=rl(A,5)+f+E+w[i]+k;
    E=D; D=C; C=rl(B,30); B=A; A=t;
  }
  h[0]+=A; h[1]+=B; h[2]+=C; h[3]+=D; h[4]+=E;
}
static void ref_md5(w32 *h,const unsigned char *b)
{
  static const int S[4][4]={{7,12,17,22},{5,9,14,20},{4,11,16,23},{6,10,15,21}};
  w32 A=h[0], B=h[1], C=h[2], D=h[3], x[16]; int i;
  for (i=0; i < 16; i++) x[i]=le32(b+4*i);
  for (i=0; i < 64; i++)
  {
    w32 f, t; int g;
    if (i < 16) { f=(B & C) | (~B & D); g=i; }
    else if (i < 32) { f=(D & B) | (~D & C); g=(5*i+1)%16; }
    else if (i < 48) { f=B ^ C ^ D; g=(3*i+5)%16; }
    else { f=C ^ (B | ~D); g=(7*i)%16; }
    t=D; D=C; C=B;
    B=B+rl(A+f+TMD5[i]+x[g],S[i/16][i%4]);
    A=t;
  }
  h[0]+=A; h[1]+=B; h[2]+=C; h[3]+=D;
}
static void ref_keccak(w64 *s)
{
  w64 c[5], d[5], t[25]; int r, x, y;
  for (r=0; r < 24; r++)
  {
    for (x=0; x < 5; x++) c[x]=s[x] ^ s[x+5] ^ s[x+10] ^ s[x+15] ^ s[x+20];
    for (x=0; x < 5; x++) d[x]=c[(x+4)%5] ^ rl64(c[(x+1)%5],1);
    for (x=0; x < 5; x++) for (y=0; y < 5; y++)
      t[y+5*((2*x+3*y)%5)]=rl64(s[x+5*y] ^ d[x],RHO[x+5*y]);
    for (x=0; x < 5; x++) for (y=0; y < 5; y++)
      s[x+5*y]=t[x+5*y] ^ (~t[(x+1)%5+5*y] & t[(x+2)%5+5*y]);
    s[0]^=RCK[r];
  }
}
#define REFMAX 512              /* longest padded message */
/* reference digest of n bytes; type is the toolkit's HashType; returns its size */
static size_t ref_hash(int type,const unsigned char *p,size_t n,unsigned char *out)
{
  unsigned char b[REFMAX]; size_t i, j, blk, len, size; w32 h[8]; w64 H[8], S[25];
  for (i=0; i < n; i++) b[i]=p[i];
  if (type >= SHA3Hash)
    {
      size=type == SHA3Hash ? 36 : type == SHA3224Hash ? 28 : type == SHA3256Hash ? 32 : type == SHA3384Hash ? 48 : 64;
      blk=200-2*size;
      len=(n/blk+1)*blk;
      for (i=n; i < len; i++) b[i]=0;
      b[n]|=1; b[len-1]|=0x80;
      for (i=0; i < 25; i++) S[i]=0;
      for (i=0; i < len; i+=blk)
      {
        for (j=0; j < blk/8; j++) S[j]^=le64(b+i+8*j);
        ref_keccak(S);
      }
      for (i=0; i < size; i++) out[i]=(unsigned char) (S[i/8] >> (8*(i%8)));
      return(size);
    }
  blk=(type == SHA2384Hash || type == SHA2512Hash) ? 128 : 64;
  len=(n+1+blk/8+blk-1)/blk*blk;
  for (i=n; i < len; i++) b[i]=0;
  b[n]=0x80;
  for (i=0; i < 8; i++)
    if (type == MD5Hash) b[len-8+i]=(unsigned char) (((w64) n*8) >> (8*i));
    else b[len-1-i]=(unsigned char) (((w64) n*8) >> (8*i));
  if (type == SHA2384Hash || type == SHA2512Hash)
    {
      size=type == SHA2384Hash ? 48 : 64;
      for (i=0; i < 8; i++) H[i]=type == SHA2384Hash ? H384[i] : H512[i];
      for (i=0; i < len; i+=blk) ref_sha512(H,b+i);
      for (i=0; i < size; i++) out[i]=(unsigned char) (H[i/8] >> (8*(7-i%8)));
      return(size);
    }
  if (type == MD5Hash || type == SHA1Hash)
    { h[0]=0x67452301U; h[1]=0xefcdab89U; h[2]=0x98badcfeU; h[3]=0x10325476U; h[4]=0xc3d2e1f0U; }
  else
    for (i=0; i < 8; i++) h[i]=type == SHA2224Hash ? H224[i] : H256[i];
  for (i=0; i < len; i+=blk)
    if (type == MD5Hash) ref_md5(h,b+i);
    else if (type == SHA1Hash) ref_sha1(h,b+i);
    else ref_sha256(h,b+i);
  size=type == MD5Hash ? 16 : type == SHA1Hash ? 20 : type == SHA2224Hash ? 28 : 32;
  for (i=0; i < size; i++)
    out[i]=(unsigned char) (type == MD5Hash ? h[i/4] >> (8*(i%4)) : h[i/4] >> (8*(3-i%4)));
  return(size);
}
