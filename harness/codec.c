/* C17: Base64 and hexadecimal text. */
#include "stub_base.h"
#include "wizard/string_.h"
#include "wizard/utility.h"
#ifndef N
#define N 4
#endif
static const char digits[]="ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static int six(int c)
{
  if (c >= 'A' && c <= 'Z') return(c-'A');
  if (c >= 'a' && c <= 'z') return(c-'a'+26);
  if (c >= '0' && c <= '9') return(c-'0'+52);
  if (c == '+') return(62);
  if (c == '/') return(63);
  return(-1);
}
void h_base64(void)
{
  unsigned char *b, *d; char *t, x[2*N+6]; size_t n=vf_length(1,N), i, k=0, m;
  /* the encoder forms blob+length-2, which the solver would not order below blob */
  b=n < 2 ? (unsigned char *) malloc(n+2)+2 : (unsigned char *) malloc(n);
  for (i=0; i < N; i++)
    if (i < n)
      b[i]=vf_u8();
  t=Base64Encode(b,n,&m);
  for (i=0; i < N; i+=3)
    if (i < n)
      {
        unsigned v=(unsigned) b[i] << 16;
        if (i+1 < n) v|=(unsigned) b[i+1] << 8;
        if (i+2 < n) v|=b[i+2];
        x[k++]=digits[v >> 18];
        x[k++]=digits[(v >> 12) & 63];
        x[k++]=i+1 < n ? digits[(v >> 6) & 63] : '=';
        x[k++]=i+2 < n ? digits[v & 63] : '=';
      }
  x[k]=0;
  vf_assert(t != NULL && m == k,"length of the encoding");
  for (i=0; i <= k; i++)
    vf_cut(t[i] == x[i],"the encoding is the standard one");
  d=Base64Decode(t,&m);
  vf_assert(d != NULL && m == n,"decoded length");
  for (i=0; i < n; i++)
    vf_assert(d[i] == b[i],"decoded bytes");
  vf_reach("end");
}
/* any text: accepted exactly if it is an encoding, blanks allowed */
void h_base64_any(void)
{
  char *t=vf_string(N+2); unsigned char *d, o[N+2]; size_t m=99, i, k=0, pads=0, bits=0; unsigned v=0; int ok=1;
  for (i=0; t[i] != 0; i++)
  {
    int c=(unsigned char) t[i], s=six(c);
    if (c == ' ' || (c >= 9 && c <= 13))
      continue;
    if (c == '=')
      { pads++; continue; }
    if (s < 0 || pads != 0)
      { ok=0; break; }
    v=(v << 6) | (unsigned) s; bits+=6;
    if (bits >= 8)
      { bits-=8; o[k++]=(unsigned char) (v >> bits); v&=(1u << bits)-1; }
  }
  if (ok)
    ok=(bits == 0 && pads == 0) || (bits == 4 && pads == 2 && v == 0) || (bits == 2 && pads == 1 && v == 0);
  d=Base64Decode(t,&m);
  vf_assert((d != NULL) == ok,"text is accepted exactly if it is an encoding");
  if (ok)
    {
      vf_assert(m == k,"decoded length");
      for (i=0; i < k; i++)
        vf_assert(d[i] == o[i],"decoded bytes");
    }
  else
    vf_assert(m == 0,"rejected text has no content");
  vf_reach("end");
}
static int hex(int c)
{
  if (c >= '0' && c <= '9') return(c-'0');
  if (c >= 'a' && c <= 'f') return(c-'a'+10);
  if (c >= 'A' && c <= 'F') return(c-'A'+10);
  return(-1);
}
void h_hex(void)
{
  unsigned char b[N]; size_t n=vf_length(0,N), i; StringInfo *s, *d; char *t;
  vf_bytes(b,N);
  s=BlobToStringInfo(b,n);
  t=StringInfoToHexString(s);
  for (i=0; i < n; i++)
    vf_cut(t[2*i] == "0123456789abcdef"[b[i] >> 4] && t[2*i+1] == "0123456789abcdef"[b[i] & 15],"hexadecimal digits");
  vf_cut(t[2*n] == 0,"hexadecimal text is terminated");
  d=HexStringToStringInfo(t);
  vf_assert(GetStringInfoLength(d) == n,"decoded length");
  for (i=0; i < n; i++)
    vf_assert(GetStringInfoDatum(d)[i] == b[i],"decoded bytes");
  vf_reach("end");
}
void h_hex_any(void)
{
  char *t=vf_string(2*N); size_t i, n=0; StringInfo *d;
  while (t[n] != 0) n++;
  d=HexStringToStringInfo(t);
  vf_assert(GetStringInfoLength(d) == n/2,"decoded length");
  for (i=0; i < n/2; i++)
    if (hex(t[2*i]) >= 0 && hex(t[2*i+1]) >= 0)
      vf_assert(GetStringInfoDatum(d)[i] == hex(t[2*i])*16+hex(t[2*i+1]),"decoded bytes");
  vf_reach("end");
}
