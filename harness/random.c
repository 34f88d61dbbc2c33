/* C07: the random stream (wizard/random.c) over a stand-in keyed hash that
   numbers the blocks it makes and keeps the counter values they are made from. */
#include "stub_base.h"
#include "wizard/string_.h"
#include "wizard/hash.h"
#include "wizard/hmac.h"
#include "wizard/file.h"
#include "wizard/entropy.h"
#include "wizard/crc64.h"
#include "wizard/magick.h"
#include "wizard/random_.h"

#ifndef D
#define D 8                     /* digest length */
#endif
#define BLOCKS 12
#define NONCE (2*D)

struct _HMACInfo { int unused; };
static HMACInfo hmac;
static StringInfo *digest;
static unsigned char counters[BLOCKS][NONCE];
static int blocks, fed, recording;

HMACInfo *AcquireHMACInfo(const HashType t)
{
  size_t i;
  digest=AcquireStringInfo(D);
  for (i=0; i < D; i++) GetStringInfoDatum(digest)[i]=0;
  return(&hmac);
}
HMACInfo *DestroyHMACInfo(HMACInfo *h) { return(NULL); }
size_t GetHMACDigestsize(const HMACInfo *h) { return(D); }
const StringInfo *GetHMACDigest(const HMACInfo *h) { return(digest); }
void ResetHMAC(HMACInfo *h) { fed=0; }
void UpdateHMAC(HMACInfo *h,const StringInfo *m)
{
  size_t i;
  if (!recording) return;
  if (blocks >= BLOCKS) vf_stop();
  vf_assert(fed == 0 && GetStringInfoLength(m) == NONCE,"one counter per block");
  for (i=0; i < NONCE; i++) counters[blocks][i]=GetStringInfoDatum(m)[i];
  fed=1;
}
void FinalizeHMAC(HMACInfo *h)
{
  size_t i;
  vf_assert(!recording || fed == 1,"counter in block");
#ifdef BYTES
  for (i=0; i < D; i++) GetStringInfoDatum(digest)[i]=vf_u8();
#else
  for (i=0; i < D; i++) GetStringInfoDatum(digest)[i]=(unsigned char) (blocks*D+i);
#endif
  blocks++;
}
/* the key may also set the counter's start: any value */
void InitializeHMAC(HMACInfo *h,const StringInfo *k)
{
  size_t i;
  for (i=0; i < D; i++) GetStringInfoDatum(digest)[i]=vf_u8();
  ResetHMAC(h);
}

/* ---- surroundings */
static char file;
FileInfo *AcquireFileInfo(const char *p,const char *n,const FileMode m,ExceptionInfo *e)
{ return(m == ReadFileMode ? NULL : (FileInfo *) &file); }
FileInfo *DestroyFileInfo(FileInfo *f,ExceptionInfo *e) { return(NULL); }
const char *GetFilePath(const FileInfo *f) { return("reservoir"); }
WizardBooleanType WriteFileChunk(FileInfo *f,const void *c,const size_t n) { return(WizardTrue); }
WizardBooleanType WriteFile16Bits(FileInfo *f,const unsigned short v) { return(WizardTrue); }
WizardBooleanType WriteFile32Bits(FileInfo *f,const size_t v) { return(WizardTrue); }
WizardBooleanType WriteFile64Bits(FileInfo *f,const WizardSizeType v) { return(WizardTrue); }
WizardBooleanType ReadFileChunk(FileInfo *f,void *c,const size_t n) { return(WizardFalse); }
WizardBooleanType ReadFile16Bits(FileInfo *f,unsigned short *v) { return(WizardFalse); }
WizardBooleanType ReadFile32Bits(FileInfo *f,size_t *v) { return(WizardFalse); }
WizardBooleanType ReadFile64Bits(FileInfo *f,WizardSizeType *v) { return(WizardFalse); }
unsigned char WizardMagick[4]={1,2,3,4};
EntropyInfo *AcquireEntropyInfo(const EntropyType t,const size_t l) { return(NULL); }
EntropyInfo *DestroyEntropyInfo(EntropyInfo *e) { return(NULL); }
WizardBooleanType IncreaseEntropy(EntropyInfo *e,const StringInfo *s,ExceptionInfo *x) { return(WizardTrue); }
const StringInfo *GetEntropyChaos(const EntropyInfo *e) { return(NULL); }
StringInfo *GetWizardMagick(const unsigned char *m,const size_t n) { return(AcquireStringInfo(1)); }
CRC64Info *AcquireCRC64Info(void) { return(NULL); }
CRC64Info *DestroyCRC64Info(CRC64Info *c) { return(NULL); }
WizardBooleanType InitializeCRC64(CRC64Info *c) { return(WizardTrue); }
WizardBooleanType UpdateCRC64(CRC64Info *c,const StringInfo *s) { return(WizardTrue); }
WizardBooleanType FinalizeCRC64(CRC64Info *c) { return(WizardTrue); }
WizardSizeType GetCRC64CyclicRedundancyCheck(const CRC64Info *c) { return(0); }
static StringInfo *crc;
const StringInfo *GetCRC64Digest(const CRC64Info *c) { if (crc == NULL) { crc=AcquireStringInfo(8); ResetStringInfo(crc); } return(crc); }
int vf_getentropy(void *b,size_t n)
{
  size_t i;
  for (i=0; i < n; i++) ((unsigned char *) b)[i]=0;
  return(0);
}

static RandomInfo *setup(void)
{
  RandomInfo *r=AcquireRandomInfo(UndefinedHash);
  vf_assert(r != NULL,"random stream");
  return(r);
}

#define MAX 40
/* requests are consecutive parts of the stream */
void h_stream(void)
{
  RandomInfo *r; unsigned char out[MAX+1]; size_t i, j, k, n, at=0, parts;
  SetRandomSecretKey(5);        /* fixed seed for the pseudo-random values */
  r=setup();
  recording=1;
  vf_allow_fatal=1;             /* an exhausted counter ends the operation */
  for (parts=0; parts < PARTS; parts++)
  {
    n=vf_length(0,MAX/PARTS);
    out[at+n]=0xee;
    if (parts == 1)
      {
        StringInfo *s=GetRandomKey(r,n);
        vf_assert(GetStringInfoLength(s) == n,"length");
        for (i=0; i < n; i++) out[at+i]=GetStringInfoDatum(s)[i];
      }
    else
      SetRandomKey(r,n,out+at);
    vf_assert(out[at+n] == 0xee,"bytes beyond the request");
    at+=n;
  }
  for (i=1; i < at; i++) vf_assert(out[i] == (unsigned char) (out[0]+i),"successive bytes");
  for (j=0; j < (size_t) blocks && j < BLOCKS; j++)
    for (k=0; k < j; k++)
    {
      int differ=0;
      for (i=0; i < NONCE; i++) differ|=counters[j][i] != counters[k][i];
      vf_assert(differ,"counter values differ");
    }
  vf_reach("end");
}
/* deviates */
void h_value(void)
{
  RandomInfo *r; double v; int before;
  SetRandomSecretKey(5);
  r=setup();
  recording=1;
  vf_allow_fatal=1;
  before=blocks;
  v=GetRandomValue(r);
  vf_assert(v >= 0.0 && v < 1.0,"deviate in [0,1)");
  vf_assert(blocks > before,"fresh bytes");
  vf_reach("end");
}
#ifdef PSEUDO
struct _HashInfo { int unused; };
static HashInfo hash;
static StringInfo *hashed;
HashInfo *AcquireHashInfo(const HashType t) { hashed=AcquireStringInfo(32); return(&hash); }
HashInfo *DestroyHashInfo(HashInfo *h) { return(NULL); }
WizardBooleanType UpdateHash(HashInfo *h,const StringInfo *s) { return(WizardTrue); }
WizardBooleanType FinalizeHash(HashInfo *h) { size_t i; for (i=0; i < 32; i++) GetStringInfoDatum(hashed)[i]=vf_u8(); return(WizardTrue); }
const StringInfo *GetHashDigest(const HashInfo *h) { return(hashed); }
size_t GetHashDigestsize(const HashInfo *h) { return(32); }
#else
HashInfo *AcquireHashInfo(const HashType t) { return(NULL); }
HashInfo *DestroyHashInfo(HashInfo *h) { return(NULL); }
WizardBooleanType UpdateHash(HashInfo *h,const StringInfo *s) { return(WizardTrue); }
WizardBooleanType FinalizeHash(HashInfo *h) { return(WizardTrue); }
const StringInfo *GetHashDigest(const HashInfo *h) { return(digest); }
size_t GetHashDigestsize(const HashInfo *h) { return(D); }
#endif
void h_pseudo(void)
{
  RandomInfo *r; double v;
  SetRandomSecretKey(5);
  r=setup();
  v=GetPseudoRandomValue(r);
  vf_assert(v >= 0.0 && v < 1.0,"deviate in [0,1)");
  v=GetPseudoRandomValue(r);
  vf_assert(v >= 0.0 && v < 1.0,"second deviate in [0,1)");
  vf_reach("end");
}
