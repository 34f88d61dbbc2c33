/* C03: cipher modes (wizard/cipher.c) over a keyed permutation that stands in
   for each block cipher.  The stand-in's bytes depend on the key, on the
   cipher it stands for and, chained, on all bytes before them.
   CIPHER 1 AES, 2 Serpent, 3 Twofish, 4 ChaCha; MODE one of the CipherMode names. */
#include "stub_base.h"
#include "wizard/string_.h"
#include "wizard/random_.h"
#include "wizard/cipher.h"
#include "wizard/aes.h"
#include "wizard/serpent.h"
#include "wizard/twofish.h"
#include "wizard/chacha.h"

#ifndef CIPHER
#define CIPHER 1
#endif
#define BLK (CIPHER == 4 ? 64 : 16)
#define KEY 16

static void ideal(int alg,const unsigned char *key,const unsigned char *in,unsigned char *out,size_t n)
{
  unsigned char t[64], c=(unsigned char) (17*alg); size_t i;
  for (i=0; i < n; i++) t[i]=in[(7*i+3)%n];
  for (i=0; i < n; i++) { c=(unsigned char) ((t[i]^key[i%KEY])+((c << 1) | (c >> 7))); t[i]=c; }
  for (i=0; i < n; i++) out[i]=t[i];
}
static void inverse(int alg,const unsigned char *key,const unsigned char *in,unsigned char *out,size_t n)
{
  unsigned char t[64], c=(unsigned char) (17*alg); size_t i;
  for (i=0; i < n; i++)
  {
    t[(7*i+3)%n]=(unsigned char) ((in[i]-((c << 1) | (c >> 7)))^key[i%KEY]);
    c=in[i];
  }
  for (i=0; i < n; i++) out[i]=t[i];
}

#define STAND_IN(T,A,B) \
struct _##T##Info { unsigned char key[KEY]; int live; }; \
static struct _##T##Info T##_handle; \
T##Info *Acquire##T##Info(void) { T##_handle.live=1; return(&T##_handle); } \
T##Info *Destroy##T##Info(T##Info *h) { h->live=0; return(NULL); } \
unsigned int Get##T##Blocksize(const T##Info *h) { return(B); } \
void Set##T##Key(T##Info *h,const StringInfo *k) \
  { size_t i; for (i=0; i < KEY; i++) h->key[i]=GetStringInfoDatum(k)[i]; } \
void Encipher##T##Block(T##Info *h,const unsigned char *p,unsigned char *c) { ideal(A,h->key,p,c,B); } \
void Decipher##T##Block(T##Info *h,const unsigned char *c,unsigned char *p) { inverse(A,h->key,c,p,B); }
STAND_IN(AES,1,16)
STAND_IN(Serpent,2,16)
STAND_IN(Twofish,3,16)
STAND_IN(Chacha,4,64)

static char random_handle;
RandomInfo *AcquireRandomInfo(const HashType t) { return((RandomInfo *) &random_handle); }
RandomInfo *DestroyRandomInfo(RandomInfo *r) { return(NULL); }
void SetRandomKey(RandomInfo *r,const size_t n,unsigned char *k)
{
  size_t i;
  for (i=0; i < n; i++) k[i]=vf_u8();
}
StringInfo *GetRandomKey(RandomInfo *r,const size_t n)
{
  StringInfo *s=AcquireStringInfo(n);
  SetRandomKey(r,n,GetStringInfoDatum(s));
  return(s);
}

static const CipherType types[]={UndefinedCipher,AESCipher,SerpentCipher,TwofishCipher,ChachaCipher};
static unsigned char key[KEY], nonce[64];
static CipherInfo *cipher;
static StringInfo *iv;

static void setup(int top)
{
  StringInfo *k=AcquireStringInfo(KEY); size_t i;
  vf_bytes(key,KEY);
  for (i=0; i < BLK; i++) nonce[i]=top == 2 ? 0xff : i == 0 && MODE == CTRMode ? vf_u8() & 0x7f : vf_u8();
  for (i=0; i < KEY; i++) GetStringInfoDatum(k)[i]=key[i];
  iv=AcquireStringInfo(BLK);
  for (i=0; i < BLK; i++) GetStringInfoDatum(iv)[i]=nonce[i];
  cipher=AcquireCipherInfo(types[CIPHER],MODE);
  vf_assert(GetCipherBlocksize(cipher) == BLK,"block length");
  SetCipherKey(cipher,k);
  SetCipherNonce(cipher,iv);
}

#define MAX 140
/* what the definition of the mode gives for a ciphertext; the counter starts
   at the nonce */
static void defined(const unsigned char *c,size_t n,unsigned char *p)
{
  unsigned char a[64], b[64]; size_t i, j, carry;
  for (i=0; i < BLK; i++) a[i]=nonce[i];
  if (MODE == CFBMode)
    {
      for (j=0; j < n; j++)
      {
        ideal(CIPHER,key,a,b,BLK);
        p[j]=c[j]^b[0];
        for (i=0; i+1 < BLK; i++) a[i]=a[i+1];
        a[BLK-1]=c[j];
      }
      return;
    }
  for (j=0; j < n; j+=BLK)
  {
    if (MODE == ECBMode || MODE == CBCMode)
      {
        inverse(CIPHER,key,c+j,b,BLK);
        for (i=0; i < BLK; i++) p[j+i]=MODE == ECBMode ? b[i] : b[i]^a[i];
        for (i=0; i < BLK; i++) a[i]=c[j+i];
        continue;
      }
    ideal(CIPHER,key,a,b,BLK);
    for (i=0; i < BLK; i++) p[j+i]=c[j+i]^b[i];
    if (MODE == OFBMode)
      for (i=0; i < BLK; i++) a[i]=b[i];
    else
      for (i=BLK, carry=1; i-- > 0; )
      {
        carry+=a[i];
        a[i]=(unsigned char) carry;
        carry>>=8;
      }
  }
}

static void check(int alias)
{
  size_t n=vf_length(0,MAX-64), i; unsigned char m[MAX], c[MAX], p[MAX]; StringInfo *s, *r;
  s=AcquireStringInfo(n);
  for (i=0; i < n; i++) m[i]=vf_u8();
  for (i=0; i < n; i++) GetStringInfoDatum(s)[i]=m[i];
  r=alias ? EncryptCipher(cipher,s) : EncipherCipher(cipher,s);
  vf_assert(r != NULL && GetStringInfoLength(r) == n,"enciphered length");
  for (i=0; i < MAX; i++) c[i]=p[i]=0;
  for (i=0; i < (n+BLK-1)/BLK*BLK; i++) c[i]=GetStringInfoDatum(r)[i];
  defined(c,n,p);
  for (i=0; i < n; i++) vf_assert(p[i] == m[i],"enciphered as defined");
  SetCipherNonce(cipher,iv);
  r=alias ? DecryptCipher(cipher,r) : DecipherCipher(cipher,r);
  vf_assert(r != NULL && GetStringInfoLength(r) == n,"deciphered length");
  for (i=0; i < n; i++) vf_assert(GetStringInfoDatum(r)[i] == m[i],"deciphered message");
  for (i=0; i < BLK; i++) vf_assert(GetStringInfoDatum(iv)[i] == nonce[i],"nonce");
}
void h_mode(void)
{
  setup(1);
  check(0);
  vf_reach("end");
}
/* a second message under the same nonce handed over again */
void h_twice(void)
{
  setup(1);
  check(0);
  SetCipherNonce(cipher,iv);
  check(1);
  cipher=DestroyCipherInfo(cipher);
  vf_assert(cipher == NULL && AES_handle.live+Serpent_handle.live+Twofish_handle.live+Chacha_handle.live == 0,"released");
  vf_reach("end");
}
/* deciphering an arbitrary ciphertext of whole blocks */
void h_decipher(void)
{
  size_t n=vf_length(0,MAX-64), i; unsigned char c[MAX], p[MAX]; StringInfo *s, *r;
  setup(1);
  s=AcquireStringInfo(n);
  for (i=0; i < n; i++) c[i]=vf_u8();
  for (i=0; i < n; i++) GetStringInfoDatum(s)[i]=c[i];
  r=DecipherCipher(cipher,s);
  vf_assert(r != NULL && GetStringInfoLength(r) == n,"deciphered length");
  defined(c,n,p);
  for (i=0; i < n; i++) vf_assert(GetStringInfoDatum(r)[i] == p[i],"deciphered as defined");
  vf_reach("end");
}
/* a counter that has no next value is not taken round to zero */
void h_wrap(void)
{
  StringInfo *s=AcquireStringInfo(2*BLK); size_t i;
  setup(2);
  for (i=0; i < 2*BLK; i++) GetStringInfoDatum(s)[i]=0;
  vf_reach("start");
  vf_allow_fatal=1;
#ifdef BACK
  (void) DecipherCipher(cipher,s);
#else
  (void) EncipherCipher(cipher,s);
#endif
  vf_assert(0,"counter wrapped");
}
/* a new cipher has a nonce of one block; resetting it gives zeros */
void h_nonce(void)
{
  const StringInfo *s; size_t i;
  setup(1);
  s=GetCipherNonce(cipher);
  vf_assert(GetStringInfoLength(s) == BLK,"nonce length");
  for (i=0; i < BLK; i++) vf_assert(GetStringInfoDatum(s)[i] == nonce[i],"nonce set");
  s=GenerateCipherNonce(cipher);
  vf_assert(GetStringInfoLength(s) == BLK,"generated length");
  if (MODE == CTRMode)
    for (i=BLK/2; i < BLK; i++) vf_assert(GetStringInfoDatum(s)[i] == 0,"counter starts at zero");
  vf_assert(GetCipherNonce(cipher) != s,"generated nonce is the caller's");
  for (i=0; i < BLK; i++) vf_assert(GetStringInfoDatum(GetCipherNonce(cipher))[i] == nonce[i],"nonce kept");
  ResetCipherNonce(cipher);
  for (i=0; i < BLK; i++) vf_assert(GetStringInfoDatum(GetCipherNonce(cipher))[i] == 0,"nonce reset");
  vf_reach("end");
}
