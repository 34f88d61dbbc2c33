/* Native replay driver: runs one harness function on the recorded inputs.
   exit 0 = finished, 99 = an assertion of the harness failed, 98 = sanitizer,
   77 = an assumption does not hold (not a counterexample). */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#undef _exit
#undef exit
static uint64_t in[1 << 20]; static size_t n_in, at;
extern void VF_MAIN(void);
uint64_t vf_next(void)
{
  return(at < n_in ? in[at++] : 0);
}
void vf_fail(const char *m,const char *f,int l)
{
  fprintf(stderr,"VF-FAIL %s (%s:%d)\n",m,f,l); fflush(stderr); _exit(99);
}
void vf_unmet(const char *f,int l)
{
  fprintf(stderr,"VF-UNMET %s:%d\n",f,l); fflush(stderr); _exit(77);
}
void vf_finish(void)
{
  fprintf(stderr,"VF-DONE\n"); fflush(stderr); _exit(0);
}
int main(void)
{
  const char *f=getenv("VF_INPUT");
  unsigned long long v;
  FILE *p=f ? fopen(f,"r") : NULL;
  if (p)
    {
      while (n_in < (1 << 20) && fscanf(p,"%llu",&v) == 1)
        in[n_in++]=v;
      fclose(p);
    }
  VF_MAIN();
  vf_finish();
}
