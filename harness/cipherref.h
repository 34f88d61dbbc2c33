/* Reference block ciphers written from their specifications: FIPS-197, Serpent,
   Twofish, ChaCha20.  The tables are computed from the field definitions and the
   published 4-bit permutations. */
static const unsigned char ref_s[256]={
  99,124,119,123,242,107,111,197,48,1,103,43,254,215,171,118,
  202,130,201,125,250,89,71,240,173,212,162,175,156,164,114,192,
  183,253,147,38,54,63,247,204,52,165,229,241,113,216,49,21,
  4,199,35,195,24,150,5,154,7,18,128,226,235,39,178,117,
  9,131,44,26,27,110,90,160,82,59,214,179,41,227,47,132,
  83,209,0,237,32,252,177,91,106,203,190,57,74,76,88,207,
  208,239,170,251,67,77,51,133,69,249,2,127,80,60,159,168,
  81,163,64,143,146,157,56,245,188,182,218,33,16,255,243,210,
  205,12,19,236,95,151,68,23,196,167,126,61,100,93,25,115,
  96,129,79,220,34,42,144,136,70,238,184,20,222,94,11,219,
  224,50,58,10,73,6,36,92,194,211,172,98,145,149,228,121,
  231,200,55,109,141,213,78,169,108,86,244,234,101,122,174,8,
  186,120,37,46,28,166,180,198,232,221,116,31,75,189,139,138,
  112,62,181,102,72,3,246,14,97,53,87,185,134,193,29,158,
  225,248,152,17,105,217,142,148,155,30,135,233,206,85,40,223,
  140,161,137,13,191,230,66,104,65,153,45,15,176,84,187,22,
};
static const unsigned char ref_is[256]={
  82,9,106,213,48,54,165,56,191,64,163,158,129,243,215,251,
  124,227,57,130,155,47,255,135,52,142,67,68,196,222,233,203,
  84,123,148,50,166,194,35,61,238,76,149,11,66,250,195,78,
  8,46,161,102,40,217,36,178,118,91,162,73,109,139,209,37,
  114,248,246,100,134,104,152,22,212,164,92,204,93,101,182,146,
  108,112,72,80,253,237,185,218,94,21,70,87,167,141,157,132,
  144,216,171,0,140,188,211,10,247,228,88,5,184,179,69,6,
  208,44,30,143,202,63,15,2,193,175,189,3,1,19,138,107,
  58,145,17,65,79,103,220,234,151,242,207,206,240,180,230,115,
  150,172,116,34,231,173,53,133,226,249,55,232,28,117,223,110,
  71,241,26,113,29,41,197,137,111,183,98,14,170,24,190,27,
  252,86,62,75,198,210,121,32,154,219,192,254,120,205,90,244,
  31,221,168,51,136,7,199,49,177,18,16,89,39,128,236,95,
  96,81,127,169,25,181,74,13,45,229,122,159,147,201,156,239,
  160,224,59,77,174,42,245,176,200,235,187,60,131,83,153,97,
  23,43,4,126,186,119,214,38,225,105,20,99,85,33,12,125,
};
static const unsigned char ref_q0[256]={
  169,103,179,232,4,253,163,118,154,146,128,120,228,221,209,56,
  13,198,53,152,24,247,236,108,67,117,55,38,250,19,148,72,
  242,208,139,48,132,84,223,35,25,91,61,89,243,174,162,130,
  99,1,131,46,217,81,155,124,166,235,165,190,22,12,227,97,
  192,140,58,245,115,44,37,11,187,78,137,107,83,106,180,241,
  225,230,189,69,226,244,182,102,204,149,3,86,212,28,30,215,
  251,195,142,181,233,207,191,186,234,119,57,175,51,201,98,113,
  129,121,9,173,36,205,249,216,229,197,185,77,68,8,134,231,
  161,29,170,237,6,112,178,210,65,123,160,17,49,194,39,144,
  32,246,96,255,150,92,177,171,158,156,82,27,95,147,10,239,
  145,133,73,238,45,79,143,59,71,135,109,70,214,62,105,100,
  42,206,203,47,252,151,5,122,172,127,213,26,75,14,167,90,
  40,20,63,41,136,60,76,2,184,218,176,23,85,31,138,125,
  87,199,141,116,183,196,159,114,126,21,34,18,88,7,153,52,
  110,80,222,104,101,188,219,248,200,168,43,64,220,254,50,164,
  202,16,33,240,211,93,15,0,111,157,54,66,74,94,193,224,
};
static const unsigned char ref_q1[256]={
  117,243,198,244,219,123,251,200,74,211,230,107,69,125,232,75,
  214,50,216,253,55,113,241,225,48,15,248,27,135,250,6,63,
  94,186,174,91,138,0,188,157,109,193,177,14,128,93,210,213,
  160,132,7,20,181,144,44,163,178,115,76,84,146,116,54,81,
  56,176,189,90,252,96,98,150,108,66,247,16,124,40,39,140,
  19,149,156,199,36,70,59,112,202,227,133,203,17,208,147,184,
  166,131,32,255,159,119,195,204,3,111,8,191,64,231,43,226,
  121,12,170,130,65,58,234,185,228,154,164,151,126,218,122,23,
  102,148,161,29,61,240,222,179,11,114,167,28,239,209,83,62,
  143,51,38,95,236,118,42,73,129,136,238,33,196,26,235,217,
  197,57,153,205,173,49,139,1,24,35,221,31,78,45,249,72,
  79,242,101,142,120,92,88,25,141,229,152,87,103,127,5,100,
  175,99,182,254,245,183,60,165,206,233,104,68,224,77,67,105,
  41,46,172,21,89,168,10,158,110,71,223,52,53,106,207,220,
  34,201,192,155,137,212,237,171,18,162,13,82,187,2,47,169,
  215,97,30,180,80,4,246,194,22,37,134,86,85,9,190,145,
};

static unsigned char ref_x2(unsigned char b) { return (unsigned char) ((b << 1) ^ ((b & 0x80) ? 0x1b : 0)); }

/* ---- FIPS-197 ---- */
static int ref_aes_expand(const unsigned char *k,size_t nk,unsigned char w[60][4])
{
  int i, j, nr=(int) nk+6; unsigned char rc=1, t[4], u;
  for (i=0; i < (int) nk; i++) for (j=0; j < 4; j++) w[i][j]=k[4*i+j];
  for (; i < 4*(nr+1); i++)
  {
    for (j=0; j < 4; j++) t[j]=w[i-1][j];
    if (i % (int) nk == 0)
      {
        u=t[0]; t[0]=ref_s[t[1]]^rc; t[1]=ref_s[t[2]]; t[2]=ref_s[t[3]]; t[3]=ref_s[u];
        rc=ref_x2(rc);
      }
    else if (nk > 6 && i % (int) nk == 4)
      for (j=0; j < 4; j++) t[j]=ref_s[t[j]];
    for (j=0; j < 4; j++) w[i][j]=w[i-(int) nk][j]^t[j];
  }
  return(nr);
}
static void ref_aes(const unsigned char *k,size_t nk,const unsigned char *in,unsigned char *out)
{
  unsigned char w[60][4], s[4][4], t[4][4]; int r, c, i, nr=ref_aes_expand(k,nk,w);
  for (c=0; c < 4; c++) for (i=0; i < 4; i++) s[i][c]=in[4*c+i]^w[c][i];
  for (r=1; r <= nr; r++)
  {
    for (i=0; i < 4; i++) for (c=0; c < 4; c++) t[i][c]=ref_s[s[i][(c+i)%4]];
    for (c=0; c < 4; c++)
      for (i=0; i < 4; i++)
        s[i][c]=(unsigned char) ((r == nr ? t[i][c] : ref_x2(t[i][c])^ref_x2(t[(i+1)%4][c])^t[(i+1)%4][c]^t[(i+2)%4][c]^t[(i+3)%4][c]) ^ w[4*r+c][i]);
  }
  for (c=0; c < 4; c++) for (i=0; i < 4; i++) out[4*c+i]=s[i][c];
}

/* ---- Serpent ---- */
static const unsigned char ref_sb[8][16]={
  {3,8,15,1,10,6,5,11,14,13,4,2,7,0,9,12},{15,12,2,7,9,0,5,10,1,11,14,8,6,13,3,4},
  {8,6,7,9,3,12,10,15,13,1,14,4,0,11,5,2},{0,15,11,8,12,9,6,3,13,1,2,4,10,7,5,14},
  {1,15,8,3,12,0,11,6,2,5,4,10,9,14,7,13},{15,5,2,11,4,10,9,12,0,3,14,8,13,6,7,1},
  {7,2,12,5,8,4,6,11,14,9,1,15,13,3,10,0},{1,13,15,0,14,8,2,11,7,4,12,10,9,3,5,6}};
#define REF_ROL(x,n) (((x) << (n)) | ((x) >> (32-(n))))
static void ref_sbox(int n,uint32_t x[4])
{
  /* algebraic normal form of each output bit, on whole words; n+8 is the inverse of box n */
  uint32_t y[4], m; int i, j, k, c; unsigned char t[16];
  for (i=0; i < 16; i++)
    if (n < 8) t[i]=ref_sb[n][i]; else t[ref_sb[n-8][i]]=(unsigned char) i;
  for (i=0; i < 4; i++)
  {
    y[i]=0;
    for (j=0; j < 16; j++)
    {
      c=0;
      for (k=0; k < 16; k++) if ((k & j) == k) c^=(t[k] >> i) & 1;
      if (!c) continue;
      m=0xffffffffU;
      for (k=0; k < 4; k++) if ((j >> k) & 1) m&=x[k];
      y[i]^=m;
    }
  }
  for (i=0; i < 4; i++) x[i]=y[i];
}
static uint32_t ref_le(const unsigned char *p) { return (uint32_t) p[0]|((uint32_t) p[1] << 8)|((uint32_t) p[2] << 16)|((uint32_t) p[3] << 24); }
static void ref_st(unsigned char *p,uint32_t v) { int i; for (i=0; i < 4; i++) p[i]=(unsigned char) (v >> (8*i)); }
static void ref_serpent_key(const unsigned char *k,size_t n,uint32_t w[140])
{
  unsigned char kb[32]; int i;
  for (i=0; i < 32; i++) kb[i]=(size_t) i < n ? k[i] : (size_t) i == n ? 1 : 0;
  for (i=0; i < 8; i++) w[i]=ref_le(kb+4*i);
  for (i=8; i < 140; i++) { uint32_t t=w[i-8]^w[i-5]^w[i-3]^w[i-1]^0x9e3779b9U^(uint32_t) (i-8); w[i]=REF_ROL(t,11); }
  for (i=0; i < 33; i++)
    ref_sbox((35-i)%8,w+8+4*i);
}
static void ref_serpent_enc(const uint32_t w[132],uint32_t x[4])
{
  int i, j;
  for (i=0; i < 32; i++)
  {
    for (j=0; j < 4; j++) x[j]^=w[4*i+j];
    ref_sbox(i%8,x);
    if (i == 31) break;
    x[0]=REF_ROL(x[0],13); x[2]=REF_ROL(x[2],3);
    x[1]^=x[0]^x[2]; x[3]^=x[2]^(x[0] << 3);
    x[1]=REF_ROL(x[1],1); x[3]=REF_ROL(x[3],7);
    x[0]^=x[1]^x[3]; x[2]^=x[3]^(x[1] << 7);
    x[0]=REF_ROL(x[0],5); x[2]=REF_ROL(x[2],22);
  }
  for (j=0; j < 4; j++) x[j]^=w[128+j];
}
static void ref_serpent_dec(const uint32_t w[132],uint32_t x[4])
{
  int i, j;
  for (j=0; j < 4; j++) x[j]^=w[128+j];
  for (i=31; i >= 0; i--)
  {
    if (i != 31)
      {
        x[2]=REF_ROL(x[2],10); x[0]=REF_ROL(x[0],27);
        x[2]^=x[3]^(x[1] << 7); x[0]^=x[1]^x[3];
        x[3]=REF_ROL(x[3],25); x[1]=REF_ROL(x[1],31);
        x[3]^=x[2]^(x[0] << 3); x[1]^=x[0]^x[2];
        x[2]=REF_ROL(x[2],29); x[0]=REF_ROL(x[0],19);
      }
    ref_sbox(8+i%8,x);
    for (j=0; j < 4; j++) x[j]^=w[4*i+j];
  }
}
static void ref_serpent(const unsigned char *k,size_t n,const unsigned char *in,unsigned char *out,int back)
{
  uint32_t w[140], x[4]; int j;
  ref_serpent_key(k,n,w);
  for (j=0; j < 4; j++) x[j]=ref_le(in+4*j);
  if (back) ref_serpent_dec(w+8,x); else ref_serpent_enc(w+8,x);
  for (j=0; j < 4; j++) ref_st(out+4*j,x[j]);
}

/* ---- Twofish ---- */
static unsigned char ref_gm(unsigned char a,unsigned char b,unsigned p)
{
  unsigned r=0, x=a; int i;
  for (i=0; i < 8; i++) { if ((b >> i) & 1) r^=x; x=(x << 1)^((x & 0x80) ? p : 0); }
  return (unsigned char) r;
}
static uint32_t ref_mds(int col,unsigned char y)
{
  static const unsigned char m[4][4]={{0x01,0xef,0x5b,0x5b},{0x5b,0xef,0xef,0x01},{0xef,0x5b,0x01,0xef},{0xef,0x01,0xef,0x5b}};
  uint32_t r=0; int i;
  for (i=0; i < 4; i++) r|=(uint32_t) ref_gm(y,m[i][col],0x169) << (8*i);
  return r;
}
static uint32_t ref_h(const unsigned char x[4],unsigned char l[4][4],int k)
{
  unsigned char y[4]; int i;
  for (i=0; i < 4; i++) y[i]=x[i];
  if (k == 4)
    { y[0]=ref_q1[y[0]]^l[3][0]; y[1]=ref_q0[y[1]]^l[3][1]; y[2]=ref_q0[y[2]]^l[3][2]; y[3]=ref_q1[y[3]]^l[3][3]; }
  if (k >= 3)
    { y[0]=ref_q1[y[0]]^l[2][0]; y[1]=ref_q1[y[1]]^l[2][1]; y[2]=ref_q0[y[2]]^l[2][2]; y[3]=ref_q0[y[3]]^l[2][3]; }
  y[0]=ref_q1[ref_q0[ref_q0[y[0]]^l[1][0]]^l[0][0]];
  y[1]=ref_q0[ref_q0[ref_q1[y[1]]^l[1][1]]^l[0][1]];
  y[2]=ref_q1[ref_q1[ref_q0[y[2]]^l[1][2]]^l[0][2]];
  y[3]=ref_q0[ref_q1[ref_q1[y[3]]^l[1][3]]^l[0][3]];
  return ref_mds(0,y[0])^ref_mds(1,y[1])^ref_mds(2,y[2])^ref_mds(3,y[3]);
}
static void ref_twofish(const unsigned char *key,size_t n,const unsigned char *in,unsigned char *out)
{
  static const unsigned char rs[4][8]={{0x01,0xa4,0x55,0x87,0x5a,0x58,0xdb,0x9e},{0xa4,0x56,0x82,0xf3,0x1e,0xc6,0x68,0xe5},
    {0x02,0xa1,0xfc,0xc1,0x47,0xae,0x3d,0x19},{0xa4,0x55,0x87,0x5a,0x58,0xdb,0x9e,0x03}};
  unsigned char me[4][4], mo[4][4], s[4][4], b[4]; uint32_t K[40], r[4], t0, t1; int i, j, c, k=(int) n/8;
  for (i=0; i < k; i++)
    for (j=0; j < 4; j++)
    {
      me[i][j]=key[8*i+j]; mo[i][j]=key[8*i+4+j];
      s[k-1-i][j]=0;
      for (c=0; c < 8; c++) s[k-1-i][j]^=ref_gm(key[8*i+c],rs[j][c],0x14d);
    }
  for (i=0; i < 20; i++)
  {
    for (j=0; j < 4; j++) b[j]=(unsigned char) (2*i);
    t0=ref_h(b,me,k);
    for (j=0; j < 4; j++) b[j]=(unsigned char) (2*i+1);
    t1=ref_h(b,mo,k); t1=REF_ROL(t1,8);
    K[2*i]=t0+t1; t1=t0+2*t1; K[2*i+1]=REF_ROL(t1,9);
  }
  for (i=0; i < 4; i++) r[i]=ref_le(in+4*i)^K[i];
  for (i=0; i < 16; i++)
  {
    uint32_t f0, f1, n2, n3;
    ref_st(b,r[0]); t0=ref_h(b,s,k);
    t1=REF_ROL(r[1],8); ref_st(b,t1); t1=ref_h(b,s,k);
    f0=t0+t1+K[2*i+8]; f1=t0+2*t1+K[2*i+9];
    n2=r[2]^f0; n2=(n2 >> 1)|(n2 << 31);
    n3=REF_ROL(r[3],1)^f1;
    r[2]=r[0]; r[3]=r[1]; r[0]=n2; r[1]=n3;
  }
  for (i=0; i < 4; i++) ref_st(out+4*i,r[(i+2)%4]^K[i+4]);
}

/* ---- ChaCha20, 64-bit counter and nonce ---- */
#define REF_QR(a,b,c,d) x[a]+=x[b]; x[d]^=x[a]; x[d]=REF_ROL(x[d],16); x[c]+=x[d]; x[b]^=x[c]; x[b]=REF_ROL(x[b],12); \
  x[a]+=x[b]; x[d]^=x[a]; x[d]=REF_ROL(x[d],8); x[c]+=x[d]; x[b]^=x[c]; x[b]=REF_ROL(x[b],7);
static void ref_chacha(const unsigned char *k,size_t n,const unsigned char *counter,const unsigned char *nonce,const unsigned char *in,unsigned char *out)
{
  uint32_t s[16], x[16]; int i; const char *c=n == 32 ? "expand 32-byte k" : "expand 16-byte k";
  for (i=0; i < 4; i++) s[i]=ref_le((const unsigned char *) c+4*i);
  for (i=0; i < 8; i++) s[4+i]=ref_le(k+(n == 32 ? 4*i : 4*(i%4)));
  for (i=0; i < 2; i++) { s[12+i]=counter ? ref_le(counter+4*i) : 0; s[14+i]=nonce ? ref_le(nonce+4*i) : 0; }
  for (i=0; i < 16; i++) x[i]=s[i];
  for (i=0; i < 10; i++)
  {
    REF_QR(0,4,8,12) REF_QR(1,5,9,13) REF_QR(2,6,10,14) REF_QR(3,7,11,15)
    REF_QR(0,5,10,15) REF_QR(1,6,11,12) REF_QR(2,7,8,13) REF_QR(3,4,9,14)
  }
  for (i=0; i < 16; i++) ref_st(out+4*i,(x[i]+s[i])^ref_le(in+4*i));
}
