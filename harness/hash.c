/* C04 (and the shared part of C05): whole hash functions, through the public
   interface, against reference definitions.  TYPE is the HashType; the message
   is fed in pieces of the lengths VF_LENS. */
#include "stub_base.h"
#include "wizard/string_.h"
#include "wizard/hash.h"
#include "hashref.h"

#ifndef PRE
#define PRE 0                   /* bytes fed before the object is initialised again */
#endif
#ifndef PREFINAL
#define PREFINAL 0              /* 1: that earlier message is finalised */
#endif
#ifndef AGAIN
#define AGAIN 0                 /* 1: finalise twice, digest read after each */
#endif

/* n symbolic bytes, drawn as whole words in the hash's byte order; for SHA-3 the
   bytes of an incomplete last lane are fixed */
static void vf_words(unsigned char *p,size_t n)
{
  size_t i; uint64_t w=0;
  for (i=0; i < n; i++)
  {
    if (i%8 == 0)
      {
        if (TYPE >= SHA3Hash && n-i < 8) w=0xe7a93c5d82f1b604ULL;
        else w=vf_u64();
      }
    p[i]=(unsigned char) (w >> (8*((TYPE == MD5Hash || TYPE >= SHA3Hash) ? i%8 : 7-i%8)));
  }
}

static const size_t lens[]={VF_LENS};
#define NL (sizeof(lens)/sizeof(lens[0]))

void h_hash(void)
{
  unsigned char m[REFMAX], d[64], *p; size_t i, j, n=0, size; HashInfo *h; const StringInfo *g;
  h=AcquireHashInfo(TYPE);
  if (PRE > 0)
    {
      StringInfo *s=AcquireStringInfo(PRE);
      vf_bytes(GetStringInfoDatum(s),PRE);
      InitializeHash(h);
      UpdateHash(h,s);
      if (PREFINAL) FinalizeHash(h);
    }
  InitializeHash(h);
  for (i=0; i < NL; i++) n+=lens[i];
  vf_words(m,n);
  n=0;
  for (i=0; i < NL; i++)
  {
    StringInfo *s=AcquireStringInfo(lens[i] ? lens[i] : 1);
    SetStringInfoLength(s,lens[i]);
    p=GetStringInfoDatum(s);
    for (j=0; j < lens[i]; j++) p[j]=m[n+j];
    UpdateHash(h,s);
    for (j=0; j < lens[i]; j++) vf_assert(p[j] == m[n+j],"message changed");
    n+=lens[i];
  }
  FinalizeHash(h);
  g=GetHashDigest(h);
  size=ref_hash(TYPE,m,n,d);
  vf_assert(GetStringInfoLength(g) == size,"digest length");
  vf_assert(GetHashDigestsize(h) == size,"digest size");
  p=GetStringInfoDatum(g);
  for (i=0; i < size; i++)
    vf_assert(p[i] == d[i],"digest");
  vf_reach("end");
}

/* ---- C05: HMAC, RFC 2104 ---------------------------------------------- */
#ifdef KEYLEN
#include "wizard/hmac.h"
static void ref_hmac(const unsigned char *k,size_t kn,size_t blk,const unsigned char *m,size_t n,unsigned char *out)
{
  unsigned char b[REFMAX], pad[256], kd[64]; size_t i, size;
  for (i=0; i < blk; i++) pad[i]=0;
  if (kn > blk) { size=ref_hash(TYPE,k,kn,kd); for (i=0; i < size; i++) pad[i]=kd[i]; }
  else for (i=0; i < kn; i++) pad[i]=k[i];
  for (i=0; i < blk; i++) b[i]=pad[i] ^ 0x36;
  for (i=0; i < n; i++) b[blk+i]=m[i];
  size=ref_hash(TYPE,b,blk+n,kd);
  for (i=0; i < blk; i++) b[i]=pad[i] ^ 0x5c;
  for (i=0; i < size; i++) b[blk+i]=kd[i];
  ref_hash(TYPE,b,blk+size,out);
}
#ifndef OLDKEY
#define OLDKEY 0                /* length of a key used for an earlier computation */
#endif
void h_hmac(void)
{
  unsigned char k[256], m[REFMAX], d[64], *p; size_t i, j, n=0, size, blk; HMACInfo *h; const StringInfo *g;
  StringInfo *key=AcquireStringInfo(KEYLEN ? KEYLEN : 1);
  SetStringInfoLength(key,KEYLEN);
  vf_words(k,KEYLEN);
  for (i=0; i < KEYLEN; i++) GetStringInfoDatum(key)[i]=k[i];
  h=AcquireHMACInfo(TYPE);
  if (OLDKEY > 0)
    {
      StringInfo *o=AcquireStringInfo(OLDKEY);
      for (i=0; i < OLDKEY; i++) GetStringInfoDatum(o)[i]=(unsigned char) (0xc1+7*i);
      InitializeHMAC(h,o);
      UpdateHMAC(h,o);
      FinalizeHMAC(h);
    }
  InitializeHMAC(h,key);
  for (i=0; i < NL; i++) n+=lens[i];
  vf_words(m,n);
  n=0;
  for (i=0; i < NL; i++)
  {
    StringInfo *s=AcquireStringInfo(lens[i] ? lens[i] : 1);
    SetStringInfoLength(s,lens[i]);
    p=GetStringInfoDatum(s);
    for (j=0; j < lens[i]; j++) p[j]=m[n+j];
    UpdateHMAC(h,s);
    for (j=0; j < lens[i]; j++) vf_assert(p[j] == m[n+j],"message changed");
    n+=lens[i];
  }
  FinalizeHMAC(h);
  vf_assert(GetStringInfoLength(key) == KEYLEN,"key length changed");
  for (i=0; i < KEYLEN; i++) vf_assert(GetStringInfoDatum(key)[i] == k[i],"key changed");
  blk=(TYPE >= SHA3Hash) ? 64 : (TYPE == SHA2384Hash || TYPE == SHA2512Hash) ? 128 : 64;
  g=GetHMACDigest(h);
  ref_hmac(k,KEYLEN,blk,m,n,d);
  size=GetStringInfoLength(g);
  vf_assert(size == GetHMACDigestsize(h),"digest size");
  vf_assert(size == (TYPE == MD5Hash ? 16 : TYPE == SHA1Hash ? 20 : TYPE == SHA2224Hash ? 28 : TYPE == SHA2256Hash ? 32 : TYPE == SHA2384Hash ? 48 :
    TYPE == SHA2512Hash ? 64 : TYPE == SHA3224Hash ? 28 : TYPE == SHA3256Hash ? 32 : TYPE == SHA3384Hash ? 48 : TYPE == SHA3512Hash ? 64 : 36),"code length");
  p=GetStringInfoDatum(g);
  for (i=0; i < size; i++) vf_assert(p[i] == d[i],"code");
  vf_reach("end");
}
#endif
