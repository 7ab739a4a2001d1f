/* Stand-in archiver. Archive = "CMPK" { u16 namelen, name, u32 size, data }*
   pk a ARC FILE...  adds (same name replaces; written to temp file, renamed)
   pk x ARC          extracts into the current directory (base names only)
   Faults from the file named by CMV_PKFAULT (contents: "rc N", "sig N", "partial", "none";
   read per call so that a fault can be limited to given calls by the driver). */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <signal.h>
#include <unistd.h>
struct ent { char name[260]; uint32_t size; char *data; } *e; int n;
static int load(const char *f)
{
   FILE *h=fopen(f,"rb"); char m[4]; unsigned char b[4];
   if(!h) return 1;
   if(fread(m,1,4,h)!=4 || memcmp(m,"CMPK",4)) { fclose(h); return -1; }
   while(fread(b,1,2,h)==2)
   {
      int l=b[0]|b[1]<<8;
      e=realloc(e,sizeof(*e)*(n+1));
      if(l>255 || fread(e[n].name,1,l,h)!=(size_t)l) return -1;
      e[n].name[l]=0;
      if(fread(b,1,4,h)!=4) return -1;
      e[n].size=b[0]|b[1]<<8|b[2]<<16|(uint32_t)b[3]<<24;
      if(e[n].size>100000000) return -1;
      e[n].data=malloc(e[n].size+1);
      if(fread(e[n].data,1,e[n].size,h)!=e[n].size) return -1;
      n++;
   }
   fclose(h); return 0;
}
static void fault(char op,const char *arc)
{
   char *f=getenv("CMV_PKFAULT"); char l[100]; FILE *h; int lineno=0; long cnt=0; char cf[300];
   if(!f) return;
   /* per-process-tree call counter kept beside the fault file */
   snprintf(cf,sizeof cf,"%s.n",f);
   if((h=fopen(cf,"r"))) { if(fscanf(h,"%ld",&cnt)!=1) cnt=0; fclose(h); }
   if((h=fopen(cf,"w"))) { fprintf(h,"%ld\n",cnt+1); fclose(h); }
   if(!(h=fopen(f,"r"))) return;
   while(fgets(l,sizeof l,h))
   {
      char o; int call,v=0; char kind[20];
      /* "a 0 rc 3": op a (or * for any), call index (or -1 any), kind, value */
      if(sscanf(l," %c %d %19s %d",&o,&call,kind,&v)<3) continue;
      if(o!='*' && o!=op) continue;
      if(call!=-1 && call!=cnt) continue;
      if(!strcmp(kind,"rc")) exit(v);
      if(!strcmp(kind,"sig")) { kill(getppid()==1?getpid():getpid(),v); pause(); }
      if(!strcmp(kind,"sigsh")) { kill(getppid(),v); kill(getpid(),v); pause(); }
      if(!strcmp(kind,"partial")) { FILE *p=fopen(arc,"ab"); if(p) { fwrite("CMPKjunk",1,8,p); fclose(p);} exit(v?v:1); }
   }
   fclose(h); (void)lineno;
}
int main(int c,char **v)
{
   int i,j,rc;
   if(c<3) return 2;
   fault(v[1][0],v[2]);
   rc=load(v[2]);
   if(v[1][0]=='a')
   {
      char t[400]; FILE *h;
      if(rc<0) return 3;
      for(i=3;i<c;i++)
      {
         FILE *s=fopen(v[i],"rb"); char *b=strrchr(v[i],'/'); long z;
         if(!s) return 4;
         b=b?b+1:v[i];
         fseek(s,0,SEEK_END); z=ftell(s); rewind(s);
         for(j=0;j<n;j++) if(!strcmp(e[j].name,b)) break;
         if(j==n) { e=realloc(e,sizeof(*e)*(n+1)); n++; }
         snprintf(e[j].name,sizeof e[j].name,"%s",b);
         e[j].size=z; e[j].data=malloc(z+1);
         if(fread(e[j].data,1,z,s)!=(size_t)z) return 4;
         fclose(s);
      }
      snprintf(t,sizeof t,"%s.pktmp",v[2]);
      if(!(h=fopen(t,"wb"))) return 5;
      if(fwrite("CMPK",1,4,h)!=4) return 5;
      for(j=0;j<n;j++)
      {
         unsigned char b[6]; int l=strlen(e[j].name);
         b[0]=l; b[1]=l>>8; fwrite(b,1,2,h); fwrite(e[j].name,1,l,h);
         b[0]=e[j].size; b[1]=e[j].size>>8; b[2]=e[j].size>>16; b[3]=e[j].size>>24;
         fwrite(b,1,4,h); if(fwrite(e[j].data,1,e[j].size,h)!=e[j].size) { unlink(t); return 5; }
      }
      if(fclose(h)) { unlink(t); return 5; }
      if(rename(t,v[2])) return 5;
      return 0;
   }
   if(rc) return 3;
   for(j=0;j<n;j++)
   {
      FILE *h; char *b=strrchr(e[j].name,'/'); b=b?b+1:e[j].name;
      if(!(h=fopen(b,"wb"))) return 6;
      if(fwrite(e[j].data,1,e[j].size,h)!=e[j].size) return 6;
      if(fclose(h)) return 6;
   }
   return 0;
}
