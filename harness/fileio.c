/* C10: file transfers and integers; C11: the file lock. */
#include "stub_base.h"
#include "wizard/file.h"
#include "wizard/string_.h"
#include "wizard/utility.h"
#include <errno.h>
#include <fcntl.h>
#include <sys/stat.h>
#ifndef L
#define L 4
#endif
#define MAXINT 2
static unsigned char disk[16]; static size_t disk_len, pos; static int interrupts, io_error;
static const unsigned char *expect_base; static size_t expect_len;
struct _FileInfo { char *path; int file; struct stat properties; SemaphoreInfo *semaphore; time_t timestamp; size_t signature; };
#ifdef CHUNK
/* one call per byte, the interrupts, and one that reports the end */
static int sys_calls;
static void sys_call(void)
{
  sys_calls++;
  vf_assert(sys_calls <= L+MAXINT+2,"the transfer ends");
  vf_assume(sys_calls <= L+MAXINT+2);
}
ssize_t vf_read(int f,void *p,size_t n)
{
  size_t k, i;
  sys_call();
  vf_assert(f == 5,"the file's descriptor is used");
  vf_assert(expect_base == NULL || (p == expect_base+pos && n <= expect_len-pos),"the next bytes are read into their place");
  if (io_error)
    { errno=EIO; return(-1); }
  if (interrupts < MAXINT && vf_bool())
    { interrupts++; errno=EINTR; return(-1); }
  if (vf_bool())
    { io_error=1; errno=EIO; return(-1); }
  if (pos >= disk_len || n == 0)
    return(0);
#ifdef WHOLE
  k=n < disk_len-pos ? n : disk_len-pos;
#else
  k=vf_small(1,L > 8 ? L : 8);
  vf_assume(k <= n && k <= disk_len-pos);
#endif
  for (i=0; i < k; i++)
    ((unsigned char *) p)[i]=disk[pos++];
  return((ssize_t) k);
}
ssize_t vf_write(int f,const void *p,size_t n)
{
  size_t k, i;
  sys_call();
  vf_assert(f == 5,"the file's descriptor is used");
  vf_assert(expect_base == NULL || (p == expect_base+pos && n <= expect_len-pos),"the next bytes are written from their place");
  if (io_error)
    { errno=EIO; return(-1); }
  if (interrupts < MAXINT && vf_bool())
    { interrupts++; errno=EINTR; return(-1); }
  if (vf_bool())
    { io_error=1; errno=ENOSPC; return(-1); }
  if (n == 0)
    return(0);
#ifdef WHOLE
  k=n;
#else
  k=vf_small(1,L > 8 ? L : 8);
  vf_assume(k <= n);
#endif
  for (i=0; i < k; i++)
    disk[pos++]=((const unsigned char *) p)[i];
  return((ssize_t) k);
}
static FileInfo info;
static void setup(void)
{
  info.file=5; info.signature=WizardSignature; info.path="p";
  errno=vf_bool() ? EINTR : 0;             /* left over from an earlier call */
}
void h_read(void)
{
  unsigned char b[L+1]; size_t n=vf_small(0,L), i; int ok;
  setup();
  vf_bytes(disk,L);
  disk_len=vf_small(0,L);
  b[n]=0x5a;
  expect_base=b; expect_len=n;
  ok=ReadFileChunk(&info,b,n) != WizardFalse;
  vf_assert(ok == (pos == n),"success exactly if all bytes were transferred");
  vf_assert(ok || io_error || disk_len < n,"a transfer fails only on error or end of file");
  for (i=0; i < pos; i++)
    vf_assert(b[i] == disk[i],"bytes in order");
  vf_assert(b[n] == 0x5a,"nothing behind the buffer is touched");
  vf_reach("end");
}
void h_write(void)
{
  unsigned char b[L+1]; size_t n=vf_small(0,L), i; int ok;
  setup();
  vf_bytes(b,L);
  expect_base=b; expect_len=n;
  ok=WriteFileChunk(&info,b,n) != WizardFalse;
  vf_assert(ok == (pos == n),"success exactly if all bytes were transferred");
  vf_assert(ok || io_error,"a transfer fails only on error");
  for (i=0; i < pos; i++)
    vf_assert(disk[i] == b[i],"bytes in order");
  vf_reach("end");
}
#ifdef BITS
/* BITS 16, 32 or 64 */
void h_integer(void)
{
  uint64_t v=vf_u64(), r=0; int i, ok; unsigned short s=0; size_t l=0; WizardSizeType q=0;
  setup();
#if BITS == 16
  ok=WriteFile16Bits(&info,(unsigned short) v) != WizardFalse;
#elif BITS == 32
  ok=WriteFile32Bits(&info,(size_t) (v & 0xffffffff)) != WizardFalse;
#else
  ok=WriteFile64Bits(&info,v) != WizardFalse;
#endif
  vf_assert(ok == (pos == BITS/8),"success exactly if all bytes were transferred");
  if (!ok)
    return;
  for (i=0; i < BITS/8; i++)
    vf_assert(disk[i] == (unsigned char) (v >> (8*i)),"least significant byte first");
  disk_len=pos-vf_small(0,1); pos=0; interrupts=0; sys_calls=0;
#if BITS == 16
  ok=ReadFile16Bits(&info,&s) != WizardFalse; r=s;
#elif BITS == 32
  ok=ReadFile32Bits(&info,&l) != WizardFalse; r=l;
#else
  ok=ReadFile64Bits(&info,&q) != WizardFalse; r=q;
#endif
  vf_assert(ok == (pos == BITS/8),"success exactly if all bytes were transferred");
  if (ok)
    vf_assert(r == (BITS == 64 ? v : v & (((uint64_t) 1 << (BITS % 64))-1)),"the integer reads back");
  vf_reach("end");
}
#endif
void h_byte(void)
{
  int c;
  setup();
  vf_bytes(disk,1);
  disk_len=vf_small(0,1);
  c=ReadFileByte(&info);
  vf_assert(c == (pos == 1 ? (int) disk[0] : EOF),"byte or end of file");
  vf_reach("end");
}
#endif
#ifdef LOCK
/* ---- the lock: a simulated file system with one lock file ----------------- */
#define SELF 100
#define OTHER 200
static int lk_there, lk_len; static long lk_pid; static size_t lk_tid; static unsigned char lk_data[16];
static int other_alive=0, other_eperm, own_created, own_partial, opened, data_open, removed_own, delays, data_there, remove_fails, write_fails;
static size_t rpos; static int flaky;
char *GetEnvironmentValue(const char *n) { return(NULL); }
size_t ConcatenateWizardString(char *d,const char *s,const size_t n) { return(0); }
char *AcquireString(const char *s)
{
  char *d=(char *) malloc(8); int i;
  for (i=0; s != NULL && i < 6 && s[i] != 0; i++)
    d[i]=s[i];
  d[i]=0;
  return(d);
}
char *DestroyString(char *s) { free(s); return(NULL); }
size_t CopyWizardString(char *d,const char *s,const size_t n)
{
  size_t i;
  for (i=0; i < 6 && s[i] != 0; i++)
    d[i]=s[i];
  d[i]=0;
  return(i);
}
void AppendFileExtension(const char *e,char *p)
{
  vf_assert(p[0] == 'f' && p[1] == 0,"the lock file belongs to the file");
  p[1]='L'; p[2]=0;
}
static int is_lock(const char *p) { return(p[0] == 'f' && p[1] == 'L' && p[2] == 0); }
void WizardDelay(const WizardSizeType ms)
{
  /* meanwhile another owner may finish writing its lock, release it, or die */
  delays++;
  if (lk_there && !own_created && vf_bool())
    { if (lk_len < 16) lk_len=16; else lk_there=0; }
}
pid_t vf_getpid(void) { return(SELF); }
pthread_t vf_pthread_self(void) { return((pthread_t) 7); }
int vf_kill(pid_t p,int s)
{
  vf_assert(s == 0,"no signal is sent");
  if (p == SELF || (p == OTHER && other_alive))
    {
      if (p == OTHER && other_eperm)
        { errno=EPERM; return(-1); }
      return(0);
    }
  errno=ESRCH;
  return(-1);
}
int vf_open(const char *p,int flags,...)
{
  if (is_lock(p))
    {
      if ((flags & O_CREAT) != 0)
        {
          vf_assert((flags & O_EXCL) != 0,"the lock is created exclusively");
          if (lk_there)
            { errno=EEXIST; return(-1); }
          if (flaky && vf_bool())
            { errno=EACCES; return(-1); }
          lk_there=1; lk_len=0; own_created=1; opened++;
          return(3);
        }
      if (!lk_there)
        { errno=ENOENT; return(-1); }
      rpos=0; opened++;
      return(4);
    }
  vf_assert(p[0] == 'f' && p[1] == 0,"the file is opened");
  vf_assert(lk_there && own_created && lk_len == 16,"the file is opened only under the lock");
  if (flaky && vf_bool())
    { errno=ENOENT; return(-1); }
  data_open++;
  return(5);
}
int vf_close(int f)
{
  if (f == 5) data_open--; else opened--;
  vf_assert(data_open >= 0 && opened >= 0,"only open descriptors are closed");
  return(0);
}
ssize_t vf_write(int f,const void *p,size_t n)
{
  size_t i;
  vf_assert(f == 3,"the lock file is written");
  if (write_fails)
    { errno=ENOSPC; return(-1); }
  for (i=0; i < n; i++)
    lk_data[lk_len++]=((const unsigned char *) p)[i];
  return((ssize_t) n);
}
ssize_t vf_read(int f,void *p,size_t n)
{
  size_t i;
  vf_assert(f == 4,"the lock file is read");
  if (rpos+n > (size_t) lk_len)
    return(0);
  for (i=0; i < n; i++)
    ((unsigned char *) p)[i]=lk_data[rpos++];
  return((ssize_t) n);
}
int vf_unlink(const char *p)
{
  vf_assert(is_lock(p),"only the lock file is removed");
  vf_assert(lk_there,"the lock that is removed exists");
  vf_assert(own_created || !other_alive,"the lock of a live owner is never removed");
  if (remove_fails)
    { errno=EPERM; return(-1); }
  if (own_created)
    removed_own++;
  lk_there=0; own_created=0;
  return(0);
}
int vf_fstat(int f,struct stat *s) { return(0); }
static void holder(long pid,size_t tid)
{
  memcpy(lk_data,&pid,8); memcpy(lk_data+8,&tid,8);
  lk_there=1;
  lk_len=16;
}
void h_lock(void)
{
  FileInfo *i; ExceptionInfo e; int start=vf_small(0,4), mode=vf_bool();
  errno=0; flaky=1;
  write_fails=vf_bool();
  if (start != 0)
    {
      if (start == 4)
        holder(SELF,8);                    /* another thread of this process */
      else
        holder(OTHER,7);
      other_alive=start != 2;
      other_eperm=start == 1 && vf_bool();
      if (start == 3)
        lk_len=8;                          /* the owner is still writing it */
      if (start == 2)
        remove_fails=vf_bool();
    }
  i=AcquireFileInfo("f","",mode ? ReadFileMode : WriteFileMode,&e);
  vf_assert(opened == 0,"no descriptor of the lock file is left open");
  if (i == NULL)
    {
      vf_assert(!own_created,"a failed acquisition leaves no lock of its own");
      vf_assert(data_open == 0,"nothing is left open");
      if ((start == 1 || start == 4) && delays == 0)
        vf_assert(lk_there,"the lock of a live owner stays");
    }
  else
    {
      long pid; size_t tid;
      memcpy(&pid,lk_data,8); memcpy(&tid,lk_data+8,8);
      vf_assert(lk_there && own_created && lk_len == 16 && pid == SELF && tid == 7,"the lock names its owner");
      i=DestroyFileInfo(i,&e);
      vf_assert(i == NULL && !lk_there && removed_own == 1 && data_open == 0,"release removes the lock that was obtained");
    }
  vf_reach("end");
}
/* with nothing in the way the lock is obtained, also over a dead owner's */
void h_available(void)
{
  FileInfo *i; ExceptionInfo e;
  if (vf_bool())
    { holder(OTHER,7); other_alive=0; }
  errno=0;
  i=AcquireFileInfo("f","",WriteFileMode,&e);
  vf_assert(i != NULL,"a free lock or that of a dead owner is obtained");
  vf_reach("end");
}
#endif
