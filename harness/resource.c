/* C21: resource accounting. */
#define VF_SEM_CHECK
#ifdef TEMP
#define VF_NO_FORMAT
#endif
#include "stub_base.h"
#include "wizard/resource_.h"
#include "wizard/option.h"
#include "wizard/splay-tree.h"
#include "wizard/random_.h"
#include "wizard/string_.h"
#include <errno.h>
#ifndef OPS
#define OPS 3
#endif
ssize_t FormatWizardSize(const WizardSizeType size,const WizardBooleanType bi,
  const size_t length,char *format)
{
  if (length != 0)
    *format='\0';
  return(0);
}
const char *WizardOptionToMnemonic(const WizardOption o,const ssize_t t) { return(""); }
#ifndef WizardResourceInfinity
#define WizardResourceInfinity (~0UL)
#endif
extern WizardSizeType GetWizardResourceLimit(const ResourceType);
#ifndef TYPE
#define TYPE vf_small(0,3)
#endif
#define MAXUSE ((WizardSizeType) 1 << 63)
static const ResourceType types[4]={MemoryResource,MapResource,DiskResource,FileResource};
void h_account(void)
{
  int k, t=TYPE, o=(t+1+vf_small(0,2))%4, i;
  WizardSizeType limit=vf_u64(), other=vf_u64(), size, use=0, granted[OPS]; int live[OPS], ok;
  vf_assume(other < MAXUSE/2);
  (void) SetWizardResourceLimit(types[o],WizardResourceInfinity);
  vf_assert(AcquireWizardResource(types[o],other) != WizardFalse,"unlimited resource is granted");
  (void) SetWizardResourceLimit(types[t],limit);
  vf_assert(GetWizardResourceLimit(types[t]) == limit,"limit is what was set");
  vf_assert(GetWizardResource(types[t]) == 0,"nothing is in use at first");
  for (k=0; k < OPS; k++)
  {
    live[k]=0;
    if (vf_bool())
      {
        /* request */
        size=vf_u64();
        ok=AcquireWizardResource(types[t],size) != WizardFalse;
        if (limit != WizardResourceInfinity)
          {
            /* the account is kept in 63 bits; limits above that are out of reach */
            int expect=size < MAXUSE && use+size < limit && use+size < MAXUSE;
            vf_assert(ok == expect,"granted exactly if the use stays below the limit");
          }
        else
          vf_assert(ok || use+size < use || use+size >= MAXUSE,"unlimited resource is granted");
        if (ok)
          { live[k]=1; granted[k]=size; use+=size; }
      }
    else
      {
        /* release a granted request */
        i=vf_small(0,OPS-1);
        vf_assume(i < k && live[i]);
        RelinquishWizardResource(types[t],granted[i]);
        live[i]=0; use-=granted[i];
      }
    vf_assert(GetWizardResource(types[t]) == use,"use is the sum of the granted requests");
    vf_assert(vf_locks == 0,"lock is released");
  }
  for (i=0; i < OPS; i++)
    if (live[i])
      RelinquishWizardResource(types[t],granted[i]);
  vf_assert(GetWizardResource(types[t]) == 0,"everything is returned");
  vf_assert(GetWizardResource(types[o]) == other,"other resources are not affected");
  vf_reach("end");
}
void h_area(void)
{
  WizardSizeType limit=vf_u64(), size=vf_u64(); int ok;
  (void) SetWizardResourceLimit(AreaResource,limit);
  vf_assert(GetWizardResourceLimit(AreaResource) == limit,"limit is what was set");
  ok=AcquireWizardResource(AreaResource,size) != WizardFalse;
  vf_assert(ok == (limit == WizardResourceInfinity || size < limit),"area is granted exactly below the limit");
  vf_assert(vf_locks == 0,"lock is released");
  vf_reach("end");
}
/* temporary files: one file unit each, returned on release */
static struct { char name[4]; int there; } files[3]; static int n_files;
struct _SplayTreeInfo { const char *key[3]; int (*cmp)(const void *,const void *); void *(*rel)(void *); int it; };
static SplayTreeInfo tree;
SplayTreeInfo *NewSplayTree(int (*c)(const void *,const void *),void *(*k)(void *),void *(*v)(void *))
{
  tree.cmp=c; tree.rel=k;
  return(&tree);
}
WizardBooleanType AddValueToSplayTree(SplayTreeInfo *t,const void *k,const void *v)
{
  int i;
  for (i=0; i < 3; i++)
    if (t->key[i] != NULL && t->cmp(t->key[i],k) == 0)
      {
        (void) t->rel((void *) t->key[i]);
        t->key[i]=(const char *) k;
        return(WizardTrue);
      }
  for (i=0; i < 3; i++)
    if (t->key[i] == NULL)
      {
        t->key[i]=(const char *) k;
        return(WizardTrue);
      }
  return(WizardFalse);
}
WizardBooleanType DeleteNodeFromSplayTree(SplayTreeInfo *t,const void *k)
{
  int i;
  for (i=0; i < 3; i++)
    if (t->key[i] != NULL && t->cmp(t->key[i],k) == 0)
      {
        (void) t->rel((void *) t->key[i]);
        t->key[i]=NULL;
        return(WizardTrue);
      }
  return(WizardFalse);
}
void ResetSplayTreeIterator(SplayTreeInfo *t) { t->it=0; }
const void *GetNextKeyInSplayTree(SplayTreeInfo *t)
{
  while (t->it < 3 && t->key[t->it] == NULL)
    t->it++;
  return(t->it < 3 ? t->key[t->it++] : NULL);
}
const void *GetValueFromSplayTree(SplayTreeInfo *t,const void *k) { return(NULL); }
int CompareSplayTreeString(const void *a,const void *b) { return(strcasecmp((const char *) a,(const char *) b)); }
char *ConstantString(const char *s)
{
  char *d=(char *) malloc(16); size_t i;
  for (i=0; s[i] != 0 && i < 15; i++)
    d[i]=s[i];
  d[i]=0;
  return(d);
}
char *DestroyString(char *s) { return(NULL); }
int LocaleCompare(const char *a,const char *b) { return(strcasecmp(a,b)); }
char *GetEnvironmentValue(const char *n) { return(ConstantString("t")); }
RandomInfo *AcquireRandomInfo(const HashType h) { return((RandomInfo *) &tree); }
StringInfo *GetRandomKey(RandomInfo *r,const size_t n) { return((StringInfo *) &tree); }
static unsigned char keybytes[12];
unsigned char *GetStringInfoDatum(const StringInfo *s) { return(keybytes); }
size_t GetStringInfoLength(const StringInfo *s) { return(0); }
StringInfo *DestroyStringInfo(StringInfo *s) { return(NULL); }
#ifdef TEMP
pid_t vf_getpid(void) { return(1); }
ssize_t FormatLocaleString(char *s,const size_t n,const char *f,...)
{
  int i;
  s[0]='n'; s[1]='-';
  for (i=2; i < 15; i++)
    s[i]='X';
  s[15]=0;
  return(15);
}
int vf_mkstemp(char *f)
{
  int i;
  if (vf_bool())
    { errno=EACCES; return(-1); }
  files[n_files].name[0]=f[0]='n'; files[n_files].name[1]=f[1]=(char) vf_u8(); f[2]=0;
  vf_assume(f[1] == 'x' || f[1] == 'X' || f[1] == 'y');
  for (i=0; i < n_files; i++)
    vf_assume(!files[i].there || files[i].name[1] != f[1]);
  files[n_files].there=1;
  return(10+n_files++);
}
int vf_open(const char *p,int flags,...) { errno=EACCES; return(-1); }
int vf_close(int f) { return(0); }
int vf_fchmod(int f,mode_t m) { return(0); }
int vf_stat(const char *p,struct stat *s) { s->st_mode=S_IFDIR; return(0); }
int vf_unlink(const char *p)
{
  int i, k=-1;
  for (i=0; i < n_files; i++)
    if (files[i].there && files[i].name[1] == p[1] && p[0] == 'n' && p[2] == 0)
      k=i;
  if (k < 0)
    { errno=ENOENT; return(-1); }
  files[k].there=0;
  return(0);
}
void h_temporary(void)
{
  char a[32], b[32]; int fa, fb; ExceptionInfo e; WizardSizeType use=0;
  WizardSizeType limit=vf_small(0,3);
  memset(a,0,32); memset(b,0,32);
  (void) SetWizardResourceLimit(FileResource,limit);
  fa=AcquireUniqueFileResource("",a,&e);
  if (fa != -1) use++;
  vf_assert(GetWizardResource(FileResource) == use,"a temporary file takes one file unit");
  vf_assert(fa != -1 || n_files == 0 || !files[n_files-1].there,"a refused temporary file is not left behind");
  fb=AcquireUniqueFileResource("",b,&e);
  if (fb != -1) use++;
  vf_assert(GetWizardResource(FileResource) == use,"a temporary file takes one file unit");
  if (fa != -1)
    vf_assert(files[fa-10].there,"another temporary file stays");
  if (fb != -1)
    {
      (void) RelinquishUniqueFileResource(b,WizardTrue);
      use--;
      vf_assert(!files[fb-10].there,"a released temporary file is gone");
      if (fa != -1)
        vf_assert(files[fa-10].there,"another temporary file stays");
      vf_assert(GetWizardResource(FileResource) == use,"releasing a temporary file returns its unit");
    }
  if (fa != -1)
    {
      (void) RelinquishUniqueFileResource(a,WizardTrue);
      vf_assert(!files[fa-10].there,"a released temporary file is gone");
      vf_assert(GetWizardResource(FileResource) == 0,"releasing a temporary file returns its unit");
    }
  vf_assert(vf_locks == 0,"lock is released");
  vf_reach("end");
}
#endif
