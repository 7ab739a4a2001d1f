/* inj LOG MODE N ERR -- command...
   Runs the command and counts its file system changes (system calls that change a file or directory, except the log file
   and standard output). MODE:
     count          only list them
     kill           SIGKILL just before change number N
     tear           change number N, if it is a write of more than 600 bytes, is done only in part; then SIGKILL (other changes: SIGKILL just after)
     fail           change number N fails with error ERR
     full           change number N and all later changes that need space fail with error ERR
     short          change number N, if it is a write of more than 600 bytes, writes only half of its data; it or later ones that need space fail with ERR
     delay          system calls on files are delayed at random by up to ERR microseconds (seed N); the lines have begin and end times (ns)
   LOG gets one line per change: number, call, path. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <errno.h>
#include <fcntl.h>
#include <sys/ptrace.h>
#include <sys/wait.h>
#include <sys/user.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/stat.h>
#include <time.h>
static char fdpath[1024][300]; static int fdmode[1024];
static pid_t pid;
static void rstr(unsigned long a,char *b,int n)
{
   struct iovec l={b,n-1},r={(void*)a,n-1}; int i; long v;
   ssize_t k=process_vm_readv(pid,&l,1,&r,1,0);
   if(k<=0){ for(i=0;i<n-9;i+=8){ errno=0; v=ptrace(PTRACE_PEEKDATA,pid,a+i,0); if(errno)break; memcpy(b+i,&v,8); if(memchr(&v,0,8))break; } b[n-1]=0; if(errno) b[i]=0; return; }
   b[k]=0;
}
static int islog(char *p){ int l=strlen(p); return (l>=6 && !strcmp(p+l-6,"cm.log")) || !strncmp(p,"/dev/",5)&&strncmp(p,"/dev/shm/",9); }
static char *esc(char *p){ static char b[300]; int i; for(i=0;p[i]&&i<299;i++) b[i]=p[i]=='\n'?'?':p[i]; b[i]=0; return b; }
static long long now(void){ struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec*1000000000LL+t.tv_nsec; }
static unsigned long long rs; static unsigned rnd(void){ rs^=rs<<13; rs^=rs>>7; rs^=rs<<17; return rs>>20; }
int main(int argc,char **argv)
{
   if(argc<7) return 99;
   FILE *log=fopen(argv[1],"w"); char *mode=argv[2]; long N=atol(argv[3]); long err=atol(argv[4]); int status;
   if(!log) return 99;
   pid=fork();
   if(pid==0){ fclose(log); ptrace(PTRACE_TRACEME,0,0,0); raise(SIGSTOP); execvp(argv[6],argv+6); _exit(127); }
   waitpid(pid,&status,0);
   ptrace(PTRACE_SETOPTIONS,pid,0,PTRACE_O_TRACESYSGOOD|PTRACE_O_EXITKILL|PTRACE_O_TRACEEXEC);
   int delay=!strcmp(mode,"delay"); long long t0=0; char dn[20],dp[300]; rs=N*2654435761ULL+88172645463325252ULL;
   int in=0,execd=0,failing=0; long n=0; int sig=0; long forced=0; int killafter=0; char p[300],opath[300]; int oflag=0; long call=0;
   for(;;){
      if(ptrace(PTRACE_SYSCALL,pid,0,sig)<0) break;
      sig=0;
      if(waitpid(pid,&status,0)<0) break;
      if(WIFEXITED(status)){ fprintf(log,"exit %d changes %ld\n",WEXITSTATUS(status),n); fclose(log); return WEXITSTATUS(status); }
      if(WIFSIGNALED(status)){ fprintf(log,"signal %d changes %ld\n",WTERMSIG(status),n); fclose(log); return WTERMSIG(status)==SIGKILL?137:200; }
      if(!WIFSTOPPED(status)) continue;
      if(status>>8==(SIGTRAP|(PTRACE_EVENT_EXEC<<8))){ execd=1; in=1; call=0; continue; }
      if(WSTOPSIG(status)!=(SIGTRAP|0x80)){ sig=WSTOPSIG(status); if(sig==SIGTRAP||sig==SIGSTOP) sig=0; continue; }
      if(!execd) continue;
      struct user_regs_struct r; ptrace(PTRACE_GETREGS,pid,0,&r);
      if(!in){
         in=1; call=r.orig_rax; oflag=0; int m=0,space=0; const char *nm=""; p[0]=0;
         switch(call){
            case SYS_openat: case SYS_open: { unsigned long a=call==SYS_open?r.rdi:r.rsi; long f=call==SYS_open?r.rsi:r.rdx; rstr(a,p,300); strcpy(opath,p); oflag=(f&(O_WRONLY|O_RDWR))?1:0; struct stat st; if((f&O_CREAT)&&stat(p,&st)) m=space=1; if(f&O_TRUNC) m=1; nm="open"; break; }
            case SYS_creat: rstr(r.rdi,p,300); strcpy(opath,p); oflag=1; m=space=1; nm="creat"; break;
            case SYS_write: case SYS_pwrite64: case SYS_writev: if(r.rdi>2&&r.rdi<1024&&fdmode[r.rdi]){ m=space=1; strcpy(p,fdpath[r.rdi]); nm="write"; } break;
            case SYS_ftruncate: if(r.rdi<1024) strcpy(p,fdpath[r.rdi]); m=1; nm="ftruncate"; break;
            case SYS_truncate: rstr(r.rdi,p,300); m=1; nm="truncate"; break;
            case SYS_rename: rstr(r.rsi,p,300); m=1; nm="rename"; break;
            case SYS_renameat: case SYS_renameat2: rstr(r.r10,p,300); m=1; nm="rename"; break;
            case SYS_unlink: case SYS_rmdir: rstr(r.rdi,p,300); m=1; nm="unlink"; break;
            case SYS_unlinkat: rstr(r.rsi,p,300); m=1; nm="unlink"; break;
            case SYS_mkdir: rstr(r.rdi,p,300); m=space=1; nm="mkdir"; break;
            case SYS_mkdirat: rstr(r.rsi,p,300); m=space=1; nm="mkdir"; break;
            case SYS_link: case SYS_symlink: rstr(r.rsi,p,300); m=space=1; nm="link"; break;
            case SYS_linkat: rstr(r.r10,p,300); m=space=1; nm="link"; break;
         }
         if(delay&&p[0]=='/'&&(!strncmp(p,"/dev/shm/",9)||!strncmp(p,"/tmp/",5))||delay&&call==SYS_newfstatat){
            unsigned k=rnd()%8; if(k<3&&err>0) usleep(rnd()%(k==0?err:err/8+1)); }
         if(m&&islog(p)) m=0;
         if(m&&delay){ n++; t0=now(); strcpy(dn,nm); strcpy(dp,p); }
         else if(m){
            n++; fprintf(log,"%ld %s %s\n",n,nm,esc(p));
            if(call==SYS_rename||call==SYS_renameat||call==SYS_renameat2||call==SYS_link||call==SYS_linkat){ char q[300]; rstr(call==SYS_rename||call==SYS_link?r.rdi:r.rsi,q,300); fprintf(log,"from %s\n",esc(q)); }
            int iswr=!strcmp(nm,"write")&&call!=SYS_writev;
            if(!strcmp(mode,"kill")&&n==N){ kill(pid,SIGKILL); continue; }
            if(!strcmp(mode,"tear")&&n==N){ killafter=1; if(iswr&&r.rdx>600){ r.rdx/=2; ptrace(PTRACE_SETREGS,pid,0,&r);} }
            if(!strcmp(mode,"short")&&n==N&&iswr&&r.rdx>600){ r.rdx/=2; ptrace(PTRACE_SETREGS,pid,0,&r); failing=1; }
            else if((!strcmp(mode,"fail")&&n==N)||((!strcmp(mode,"full")||!strcmp(mode,"short"))&&n>=N&&space)||(failing&&space)){ forced=err; r.orig_rax=-1; ptrace(PTRACE_SETREGS,pid,0,&r); fprintf(log,"failed %ld %s %s\n",n,nm,esc(p)); }
         }
      } else {
         in=0;
         if(t0){ if((long)r.rax>=0) fprintf(log,"%lld %lld %s %s\n",t0,now(),dn,esc(dp)); t0=0; }
         if(killafter){ kill(pid,SIGKILL); killafter=0; continue; }
         if(forced){ r.rax=-forced; ptrace(PTRACE_SETREGS,pid,0,&r); forced=0; continue; }
         if((call==SYS_openat||call==SYS_open||call==SYS_creat)&&(long)r.rax>=0&&(long)r.rax<1024){ strcpy(fdpath[r.rax],opath); fdmode[r.rax]=oflag; }
         if(call==SYS_close&&r.rdi<1024) fdmode[r.rdi]=0;
      }
   }
   if(waitpid(pid,&status,0)==pid && WIFSIGNALED(status)){ fprintf(log,"signal %d changes %ld\n",WTERMSIG(status),n); fclose(log); return WTERMSIG(status)==SIGKILL?137:200; }
   fclose(log); return 98;
}
