/* C16: strings and byte buffers. */
#include "stub_base.h"
#include "wizard/string_.h"
#include "wizard/cipher.h"
#include <ctype.h>
#ifndef N
#define N 5
#endif
#ifdef VF_CBMC
size_t strlcat(char *d,const char *s,size_t n)
{
  size_t l, i;
  for (l=0; l < n && d[l] != 0; l++) ;
  for (i=0; s[i] != 0; i++)
    if (l+i+1 < n)
      d[l+i]=s[i];
  if (l < n)
    d[l+i < n ? l+i : n-1]=0;
  return(l+i);
}
#endif
static size_t len(const char *s)
{
  size_t n=0;
  while (s[n] != '\0')
    n++;
  return(n);
}
static int same(const void *a,const void *b,size_t n)
{
  size_t i;
  for (i=0; i < n; i++)
    if (((const unsigned char *) a)[i] != ((const unsigned char *) b)[i])
      return(0);
  return(1);
}
static int space(int c)
{
  return(c == ' ' || (c >= '\t' && c <= '\r'));
}
void h_copy(void)
{
  char *s=vf_string(N+4), *d; size_t n=vf_length(0,N+3), r, m, l=len(s);
  d=(char *) malloc(n == 0 ? 1 : n);
  if (n == 0)
    *d=1;
  r=CopyWizardString(d,s,n);
  if (n == 0)
    vf_assert(*d == 1,"copy into nothing writes nothing");
  else
    {
      m=l < n ? l : n-1;
      vf_assert(same(d,s,m) && d[m] == '\0',"copy holds the text, terminated");
      vf_assert(r == m,"copy reports the length stored");
    }
  vf_reach("end");
}
void h_concat(void)
{
  size_t n=vf_length(1,N+2), l, i, r, m; char *d=(char *) malloc(n), *s=vf_string(N);
  char o[N+2];
  for (i=0; i < n; i++)
      o[i]=d[i]=(char) vf_u8();
  for (l=0; l < n && d[l] != '\0'; l++) ;
  r=ConcatenateWizardString(d,s,n);
  vf_assert(r == l+len(s),"concatenation reports the untruncated length");
  if (l < n)
    {
      m=len(s) < n-l ? len(s) : n-l-1;
      vf_assert(same(d,o,l) && same(d+l,s,m) && d[l+m] == '\0',"concatenation holds both texts, terminated");
    }
  else
    vf_assert(same(d,o,n),"a full buffer is left alone");
  vf_reach("end");
}
void h_acquire(void)
{
  char *s=vf_string(N), *t, *c=NULL;
  size_t n=len(s);
  t=AcquireString(s);
  vf_assert(same(t,s,n+1),"acquired string");
  if (vf_bool())
    t=DestroyString(t);
  else
    {
      char *u=vf_string(N);
      vf_assert(CloneString(&t,u) == t && same(t,u,len(u)+1),"cloned string");
      vf_assert(CloneString(&c,u) == c && same(c,u,len(u)+1),"cloned string");
      vf_assert(CloneString(&t,NULL) == NULL && t == NULL,"clone of nothing");
    }
  t=ConstantString(s);
  vf_assert(same(t,s,n+1),"constant string");
  vf_assert(*AcquireString(NULL) == '\0' && *ConstantString(NULL) == '\0',"empty string");
  vf_reach("end");
}
void h_concatenate(void)
{
  char *s=vf_string(N), *t=vf_string(N), *d=ConstantString(s), *e=NULL;
  vf_assert(ConcatenateString(&d,t) != WizardFalse,"concatenated");
  vf_assert(same(d,s,len(s)) && same(d+len(s),t,len(t)+1),"concatenated text");
  vf_assert(ConcatenateString(&e,t) != WizardFalse && same(e,t,len(t)+1),"concatenated to nothing");
  vf_reach("end");
}
static StringInfo *info(unsigned char *b,size_t *n)
{
  StringInfo *s; size_t i;
  *n=vf_length(0,N);
  for (i=0; i < N; i++)
    if (i < *n)
      b[i]=vf_u8();
  s=BlobToStringInfo(b,*n);
  vf_assert(GetStringInfoLength(s) == *n && same(GetStringInfoDatum(s),b,*n),"buffer from bytes");
  return(s);
}
void h_info_compare(void)
{
  unsigned char a[N], b[N]; size_t n, m, i; StringInfo *s=info(a,&n), *t=info(b,&m); int r, x=0;
  r=CompareStringInfo(s,t);
  for (i=0; i < N && x == 0 && i < n && i < m; i++)
    x=(int) a[i]-(int) b[i];
  if (x == 0)
    x=n < m ? -1 : n > m;
  vf_assert((r < 0) == (x < 0) && (r > 0) == (x > 0),"comparison is lexicographic");
  vf_reach("end");
}
void h_info_concat(void)
{
  unsigned char a[N], b[N]; size_t n, m; StringInfo *s=info(a,&n), *t=info(b,&m);
  ConcatenateStringInfo(s,t);
  vf_assert(GetStringInfoLength(s) == n+m,"length of the concatenation");
  vf_assert(same(GetStringInfoDatum(s),a,n) && same(GetStringInfoDatum(s)+n,b,m),"bytes of the concatenation");
  vf_assert(GetStringInfoLength(t) == m && same(GetStringInfoDatum(t),b,m),"source is unchanged");
  vf_reach("end");
}
void h_info_split(void)
{
  unsigned char a[N]; size_t n, k=vf_length(0,N+1), i; StringInfo *s=info(a,&n), *h;
  if (vf_bool())
    {
      StringInfo *c=CloneStringInfo(s);
      s=DestroyStringInfo(s);
      vf_assert(GetStringInfoLength(c) == n && same(GetStringInfoDatum(c),a,n),"clone equals the buffer");
      s=c;
    }
  h=SplitStringInfo(s,k);
  if (k > n)
    vf_assert(h == NULL && GetStringInfoLength(s) == n && same(GetStringInfoDatum(s),a,n),"no split beyond the end");
  else
    {
      vf_assert(GetStringInfoLength(h) == k && same(GetStringInfoDatum(h),a,k),"head of the split");
      vf_assert(GetStringInfoLength(s) == n-k && same(GetStringInfoDatum(s),a+k,n-k),"tail of the split");
      /* room for one cipher block behind every buffer */
      for (i=0; i < MaxCipherBlocksize; i+=MaxCipherBlocksize-1)
        {
          GetStringInfoDatum(h)[k+i]=1;
          GetStringInfoDatum(s)[n-k+i]=1;
        }
    }
  vf_reach("end");
}
void h_info_set(void)
{
  unsigned char a[N], b[N]; size_t n, m, k, i; StringInfo *s=info(a,&n), *t=info(b,&m);
  SetStringInfo(s,t);
  vf_assert(GetStringInfoLength(s) == n,"assignment keeps the length");
  for (i=0; i < n; i++)
    vf_assert(GetStringInfoDatum(s)[i] == (i < m ? b[i] : 0),"assignment copies and clears the rest");
  vf_assert(GetStringInfoLength(t) == m && same(GetStringInfoDatum(t),b,m),"source is unchanged");
  SetStringInfoDatum(s,a);
  vf_assert(same(GetStringInfoDatum(s),a,n),"bytes are assigned");
  k=vf_length(0,N);
  SetStringInfoLength(s,k);
  vf_assert(GetStringInfoLength(s) == k && same(GetStringInfoDatum(s),a,k < n ? k : n),"resize keeps the common bytes");
  GetStringInfoDatum(s)[k+MaxCipherBlocksize-1]=1;
  ResetStringInfo(s);
  for (i=0; i < k; i++)
    vf_assert(GetStringInfoDatum(s)[i] == 0,"reset clears");
  vf_reach("end");
}
void h_info_text(void)
{
  char *s=vf_string(N), *t; StringInfo *i; unsigned char a[N]; size_t n;
  i=StringToStringInfo(s);
  vf_assert(GetStringInfoLength(i) == len(s) && same(GetStringInfoDatum(i),s,len(s)),"buffer from text");
  i=info(a,&n);
  t=StringInfoToString(i);
  vf_assert(same(t,a,n) && t[n] == '\0',"text from buffer");
  vf_reach("end");
}
void h_strip(void)
{
  char *s=vf_string(N+1), o[N+2]; size_t n=len(s), b=0, e=n, i;
  for (i=0; i <= n; i++)
    o[i]=s[i];
  while (b < e && space(o[b])) b++;
  if (b < e && (o[b] == '\'' || o[b] == '"')) b++;
  while (e > b && space(o[e-1])) e--;
  if (e > b && (o[e-1] == '\'' || o[e-1] == '"')) e--;
  StripString(s);
  /* a text of blanks or quotes only may leave one of them */
  if (e > b+1)
    {
      vf_assert(len(s) == e-b,"length of the stripped text");
      for (i=0; i < e-b; i++)
        vf_assert(s[i] == (o[b+i] == '\n' ? ' ' : o[b+i]),"stripped text");
    }
  else
    vf_assert(len(s) <= 1,"nothing but blanks and quotes");
  vf_reach("end");
}
/* leftmost, non-overlapping replacement */
#ifndef SL
#define SL 2
#endif
#ifndef RL
#define RL 2
#endif
void h_subst(void)
{
  char *s=vf_string(N), a[SL+1], b[RL+1], x[N*(RL+1)+2], *t; size_t i, k=0, n=len(s); int r, hit=0;
  for (i=0; i < SL; i++) { a[i]=(char) vf_u8(); vf_assume(a[i] != 0); }
  a[SL]=0;
  for (i=0; i < RL; i++) { b[i]=(char) vf_u8(); vf_assume(b[i] != 0); }
  b[RL]=0;
  t=ConstantString(s);
  for (i=0; i < n; )
    if (i+SL <= n && same(s+i,a,SL))
      {
        size_t j;
        for (j=0; j < RL; j++)
          x[k++]=b[j];
        i+=SL; hit=1;
      }
    else
      x[k++]=s[i++];
  x[k]=0;
  r=SubstituteString(&t,a,b);
  vf_assert((r != WizardFalse) == hit,"substitution reports whether it matched");
  vf_assert(same(t,x,k+1),"every occurrence is replaced");
  vf_reach("end");
}
void h_argv(void)
{
  char *s=vf_string(N), **v; int n=-1, i; const char *p=s, *b;
  v=StringToArgv(s,&n);
  for (i=0; i < (N+1)/2+1; i++)
  {
    while (space(*p)) p++;
    if (*p == 0)
      break;
    b=p;
    if (*p == '"' || *p == '\'')
      {
        for (b++, p++; *p != 0 && *p != b[-1]; p++) ;
      }
    else
      while (*p != 0 && !space(*p)) p++;
    vf_assert(i < n,"every argument is found");
    vf_assert(v[i] != NULL && same(v[i],b,(size_t) (p-b)) && v[i][p-b] == 0,"argument text");
    while (*p != 0 && !space(*p)) p++;
  }
  vf_assert(n == i && v[i] == NULL,"argument count and end mark");
  vf_reach("end");
}
void h_locale(void)
{
  char *s=vf_string(N), *t=vf_string(N), o[N+1]; size_t n=vf_length(0,N+1), i; int x=0, y=0, r, c, d;
  for (i=0; i <= N && i <= len(s); i++)
    o[i]=s[i];
  for (i=0; x == 0; i++)
  {
    c=(unsigned char) s[i]; d=(unsigned char) t[i];
    if (c >= 'A' && c <= 'Z') c+=32;
    if (d >= 'A' && d <= 'Z') d+=32;
    x=c-d;
    if (i < n)
      y=x;
    if (c == 0)
      break;
  }
  r=LocaleCompare(s,t);
  vf_assert((r < 0) == (x < 0) && (r > 0) == (x > 0),"case-insensitive comparison");
  r=LocaleNCompare(s,t,n);
  vf_assert((r < 0) == (y < 0) && (r > 0) == (y > 0),"case-insensitive comparison of a prefix");
  vf_assert(LocaleCompare(NULL,NULL) == 0 && LocaleCompare(NULL,t) < 0 && LocaleCompare(s,NULL) > 0,"missing text is least");
  LocaleLower(s);
  for (i=0; o[i] != 0; i++)
    vf_assert(s[i] == (o[i] >= 'A' && o[i] <= 'Z' ? o[i]+32 : o[i]),"lower case");
  vf_assert(s[i] == 0,"lower case");
  vf_reach("end");
}
