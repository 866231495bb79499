// F09/F10/F25: memory of finished tasks must be given back (more workers than PUs; chunk unmapping).
#include <redGrapes/redGrapes.hpp>
#include <redGrapes/resource/ioresource.hpp>
#include <hwloc.h>
#include <cstdio>
#include <unistd.h>
namespace rg = redGrapes;
static long rss(){ long a=0,b=0; FILE*f=fopen("/proc/self/statm","r"); if(fscanf(f,"%ld %ld",&a,&b)!=2) return -1; fclose(f); return b*4; }
int main(int c, char**v){ spdlog::set_level(spdlog::level::off); int W=atoi(v[1]); int batch=atoi(v[2]); rg::init(W);
    auto round=[&]{ for(int i=0;i<20000;i+=batch){ for(int k=0;k<batch;++k) rg::emplace_task([]{}); rg::barrier(); } };
    round(); long a=rss(); for(int k=0;k<4;++k) round(); long b=rss();
    printf("rss %ld -> %ld kB\n",a,b);
    rg::finalize(); return b>a*2; }
