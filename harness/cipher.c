/* C01, C02: single blocks of AES, Serpent, Twofish and ChaCha.
   ALG 1 AES, 2 Serpent, 3 Twofish, 4 ChaCha; KEYLEN key bytes. */
#include "stub_base.h"
#include "wizard/string_.h"
#include "wizard/aes.h"
#include "wizard/serpent.h"
#include "wizard/twofish.h"
#include "wizard/chacha.h"
#include "cipherref.h"

#define BLK (ALG == 4 ? 64 : 16)
#ifndef FIXKEY
#define FIXKEY 0                /* 0: symbolic key; else seed of a fixed one */
#endif
#ifndef OLDKEY
#define OLDKEY 0                /* length of a key set before */
#endif
#ifndef NONCE
#define NONCE 1                 /* ChaCha: 0 no nonce set, 1 nonce and counter, 2 nonce only */
#endif

static void draw(unsigned char *p,size_t n)
{
  size_t i; uint32_t w=0;
  if (ALG == 1) { for (i=0; i < n; i++) p[i]=vf_u8(); return; }
  for (i=0; i < n; i++)
  {
    if (i%4 == 0) w=vf_u32();
    p[i]=(unsigned char) (w >> (8*(i%4)));
  }
}
static unsigned char fixed(size_t i,unsigned seed)
{
  if (seed == 1) return 0;
  if (seed == 2) return 0xff;
  return (unsigned char) ((i*i*37+i*101+seed*71+(seed*i >> 3)) & 0xff);
}

static unsigned char key[64], nonce[8], counter[8];
static void *setup(void)
{
  StringInfo *s=AcquireStringInfo(KEYLEN ? KEYLEN : 1), *o=NULL; size_t i; void *c;
  SetStringInfoLength(s,KEYLEN);
  if (FIXKEY) { for (i=0; i < KEYLEN; i++) key[i]=fixed(i,FIXKEY); }
  else draw(key,KEYLEN);
  for (i=0; i < KEYLEN; i++) GetStringInfoDatum(s)[i]=key[i];
  if (OLDKEY)
    {
      o=AcquireStringInfo(OLDKEY);
      for (i=0; i < OLDKEY; i++) GetStringInfoDatum(o)[i]=fixed(i,77);
    }
#if ALG == 1
  c=AcquireAESInfo(); if (o) SetAESKey(c,o); SetAESKey(c,s);
#elif ALG == 2
  c=AcquireSerpentInfo(); if (o) SetSerpentKey(c,o); SetSerpentKey(c,s);
#elif ALG == 3
  c=AcquireTwofishInfo(); if (o) SetTwofishKey(c,o); SetTwofishKey(c,s);
#else
  c=AcquireChachaInfo(); if (o) SetChachaKey(c,o); SetChachaKey(c,s);
  if (NONCE)
    {
      draw(nonce,8);
      if (NONCE == 1) draw(counter,8);
      SetChachaNonce(c,nonce,NONCE == 1 ? counter : NULL);
    }
#endif
  for (i=0; i < KEYLEN; i++) vf_assert(GetStringInfoDatum(s)[i] == key[i],"key changed");
  return c;
}
static void encipher(void *c,const unsigned char *in,unsigned char *out)
{
#if ALG == 1
  EncipherAESBlock(c,in,out);
#elif ALG == 2
  EncipherSerpentBlock(c,in,out);
#elif ALG == 3
  EncipherTwofishBlock(c,in,out);
#else
  EncipherChachaBlock(c,in,out);
#endif
}
static void decipher(void *c,const unsigned char *in,unsigned char *out)
{
#if ALG == 1
  DecipherAESBlock(c,in,out);
#elif ALG == 2
  DecipherSerpentBlock(c,in,out);
#elif ALG == 3
  DecipherTwofishBlock(c,in,out);
#else
  DecipherChachaBlock(c,in,out);
#endif
}

/* C01 */
void h_inverse(void)
{
  unsigned char p[BLK], q[BLK], r[BLK]; size_t i; void *c=setup();
  draw(p,BLK);
  for (i=0; i < BLK; i++) q[i]=r[i]=0;
  encipher(c,p,q);
  decipher(c,q,r);
  for (i=0; i < BLK; i++) vf_assert(r[i] == p[i],"deciphered block");
  /* in place, twice under one key */
  for (i=0; i < BLK; i++) r[i]=q[i];
  decipher(c,r,r);
  for (i=0; i < BLK; i++) vf_assert(r[i] == p[i],"deciphered in place");
  vf_reach("end");
}
/* the block length the cipher reports is the length it enciphers */
void h_block(void)
{
  void *c=setup(); size_t n;
#if ALG == 1
  n=GetAESBlocksize(c);
#elif ALG == 2
  n=GetSerpentBlocksize(c);
#elif ALG == 3
  n=GetTwofishBlocksize(c);
#else
  n=GetChachaBlocksize(c);
#endif
  vf_assert(n == BLK,"block length");
  vf_reach("end");
}
/* C02 */
void h_published(void)
{
  unsigned char p[BLK], q[BLK], r[BLK]; size_t i; void *c=setup();
  draw(p,BLK);
  for (i=0; i < BLK; i++) q[i]=r[i]=0;
  encipher(c,p,q);
#if ALG == 1
  ref_aes(key,KEYLEN/4,p,r);
#elif ALG == 2
  ref_serpent(key,KEYLEN,p,r,0);
#elif ALG == 3
  ref_twofish(key,KEYLEN,p,r);
#else
  ref_chacha(key,KEYLEN,NONCE == 1 ? counter : NULL,NONCE ? nonce : NULL,p,r);
#endif
  for (i=0; i < BLK; i++) vf_assert(q[i] == r[i],"enciphered block");
  vf_reach("end");
}

#if ALG == 2
/* C01 for Serpent, in three steps: the enciphering is the reference's
   (h_published), the deciphering is the reference's inverse, and the reference
   inverse undoes the reference for all round keys */
void h_published_back(void)
{
  unsigned char p[BLK], q[BLK], r[BLK]; size_t i; void *c=setup();
  draw(p,BLK);
  for (i=0; i < BLK; i++) q[i]=r[i]=0;
  decipher(c,p,q);
  ref_serpent(key,KEYLEN,p,r,1);
  for (i=0; i < BLK; i++) vf_assert(q[i] == r[i],"deciphered block");
  vf_reach("end");
}
void h_reference(void)
{
  uint32_t w[132], x[4], y[4]; int i;
  for (i=0; i < 132; i++) w[i]=vf_u32();
  for (i=0; i < 4; i++) x[i]=y[i]=vf_u32();
  ref_serpent_enc(w,x);
  ref_serpent_dec(w,x);
  for (i=0; i < 4; i++) vf_assert(x[i] == y[i],"reference inverse");
  vf_reach("end");
}
#endif
