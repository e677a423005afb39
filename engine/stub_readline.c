/* stand-in for GNU readline: reads one line from stdin, echoes nothing */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <time.h>
static char buf[65536]; static long pos=0,len=0;
char *readline(const char*p){ char*o=NULL; size_t n=0,cap=0; int any=0; (void)p; for(;;){ if(pos>=len){ len=read(0,buf,sizeof buf); pos=0; if(len<=0){ len=0; break; } } char c=buf[pos++]; any=1; if(c=='\n') break; if(n+2>cap){ cap=cap?cap*2:64; o=realloc(o,cap); } o[n++]=c; }
  if(!any) { free(o); return NULL; } if(!o) o=malloc(1); o[n]=0; return o; }
void add_history(const char*s){ (void)s; }
int rl_bind_key(int k,int(*f)(int,int)){ (void)k; (void)f; return 0; }
int rl_tab_insert(int a,int b){ (void)a; (void)b; return 0; }

/* environment choice points, set by the replay driver */
int rand(void){ static const char*p; static int init; if(!init){ init=1; p=getenv("SYMCX_RAND"); } if(!p||!*p) return 12345; char*e; long v=strtol(p,&e,10); p=*e==','?e+1:e; return (int)v; }
time_t time(time_t*t){ const char*s=getenv("SYMCX_TIME"); time_t v=s?atol(s):1700000000; if(t) *t=v; return v; }
