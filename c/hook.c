/* Linked into the instrumented builds of the programs under test: virtual time.
   CMV_TIME = start epoch; each sleep() advances it at once. No other effect. */
#define _GNU_SOURCE
#include <stdlib.h>
#include <time.h>
#include <sys/time.h>
#include <unistd.h>
#include <sys/syscall.h>
static long cmv_base=-1; static int cmv_init; static long cmv_slus=-1;
static void cmv_setup(void)
{
   if(cmv_init) return;
   cmv_init=1;
   char *e=getenv("CMV_TIME");
   if(e && *e) cmv_base=atol(e);
   e=getenv("CMV_SLEEP_US");
   if(e && *e) cmv_slus=atol(e);
}
static long cmv_real(struct timespec *ts)
{
   struct timespec t={0,0}; syscall(SYS_clock_gettime,CLOCK_REALTIME,&t);
   if(ts) *ts=t;
   return t.tv_sec;
}
time_t time(time_t *p)
{
   time_t t;
   cmv_setup();
   t=cmv_base>=0 ? cmv_base : cmv_real(NULL);
   if(p) *p=t;
   return t;
}
int gettimeofday(struct timeval *tv,void *tz)
{
   struct timespec ts;
   cmv_setup();
   if(!tv) return 0;
   if(cmv_base>=0) { static long calls; calls++; tv->tv_sec=cmv_base+calls/250; tv->tv_usec=calls%250*4000; }
   else { cmv_real(&ts); tv->tv_sec=ts.tv_sec; tv->tv_usec=ts.tv_nsec/1000; }
   return 0;
}
static void cmv_pause(unsigned long long us)
{
   struct timespec ts; ts.tv_sec=us/1000000; ts.tv_nsec=(us%1000000)*1000;
   syscall(SYS_nanosleep,&ts,NULL);
}
unsigned int sleep(unsigned int n)
{
   cmv_setup();
   if(cmv_base>=0) { cmv_base+=n; if(cmv_slus>0) cmv_pause(cmv_slus); }
   else cmv_pause((unsigned long long)n*1000000);
   return 0;
}
int usleep(useconds_t n)
{
   cmv_setup();
   if(cmv_base>=0) { if(cmv_slus>0) cmv_pause(cmv_slus); }
   else cmv_pause(n);
   return 0;
}
int nanosleep(const struct timespec *a,struct timespec *b)
{
   cmv_setup();
   if(cmv_base>=0) { cmv_base+=a->tv_sec; if(cmv_slus>0) cmv_pause(cmv_slus); }
   else syscall(SYS_nanosleep,a,b);
   return 0;
}
#ifdef CMV_MSAN
/* Fixed-size records are written with whatever follows the end of a short string in them; only
   decisions made on uninitialised values are of interest here. */
#include <stdio.h>
__attribute__((no_sanitize("memory"))) size_t fwrite(const void *p,size_t s,size_t n,FILE *f)
{
   return fwrite_unlocked(p,s,n,f);
}
#endif
