/* C06: CRC-64 against the bit-at-a-time definition (ISO polynomial x^64+x^4+x^3+x+1,
   reflected, initial value 0, no final xor). */
#include "stub_base.h"
#include "wizard/string_.h"
#include "wizard/crc64.h"
#include "wizard/hash.h"

#ifndef PRE
#define PRE 0
#endif
#ifndef PREFINAL
#define PREFINAL 0
#endif
#ifndef VIAHASH
#define VIAHASH 0
#endif
#define MAXMSG 64

static const size_t lens[]={VF_LENS};
#define NL (sizeof(lens)/sizeof(lens[0]))

void h_crc(void)
{
  unsigned char m[MAXMSG], *p; size_t i, j, n=0, t=0; uint64_t crc=0; CRC64Info *c=NULL; HashInfo *h=NULL; const StringInfo *g;
  if (VIAHASH) h=AcquireHashInfo(CRC64Hash); else c=AcquireCRC64Info();
  if (PRE > 0)
    {
      StringInfo *s=AcquireStringInfo(PRE);
      vf_bytes(GetStringInfoDatum(s),PRE);
      if (VIAHASH) { InitializeHash(h); UpdateHash(h,s); } else { InitializeCRC64(c); UpdateCRC64(c,s); }
      if (PREFINAL) { if (VIAHASH) FinalizeHash(h); else FinalizeCRC64(c); }
    }
  if (VIAHASH) InitializeHash(h); else InitializeCRC64(c);
  for (i=0; i < NL; i++) n+=lens[i];
  vf_bytes(m,n);
  for (i=0; i < NL; i++)
  {
    StringInfo *s=AcquireStringInfo(lens[i] ? lens[i] : 1);
    SetStringInfoLength(s,lens[i]);
    p=GetStringInfoDatum(s);
    for (j=0; j < lens[i]; j++) p[j]=m[t+j];
    if (VIAHASH) UpdateHash(h,s); else UpdateCRC64(c,s);
    for (j=0; j < lens[i]; j++) vf_assert(p[j] == m[t+j],"message changed");
    t+=lens[i];
  }
  if (VIAHASH) FinalizeHash(h); else FinalizeCRC64(c);
  for (i=0; i < n; i++)
  {
    crc^=m[i];
    for (j=0; j < 8; j++) crc=(crc & 1) ? (crc >> 1)^0xd800000000000000ULL : crc >> 1;
  }
  g=VIAHASH ? GetHashDigest(h) : GetCRC64Digest(c);
  vf_assert(GetStringInfoLength(g) == 8,"digest length");
  if (VIAHASH) vf_assert(GetHashDigestsize(h) == 8,"digest size");
  else
    {
      vf_assert(GetCRC64Digestsize(c) == 8,"digest size");
      vf_assert(GetCRC64CyclicRedundancyCheck(c) == crc,"crc value");
    }
  p=GetStringInfoDatum(g);
  for (i=0; i < 8; i++) vf_assert(p[i] == (unsigned char) (crc >> (56-8*i)),"digest");
  vf_reach("end");
}
