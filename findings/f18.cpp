// F18: main thread waits on a future; wake-up must not be lost.
#include <redGrapes/redGrapes.hpp>
#include <atomic>
namespace rg = redGrapes;
int main(int c,char**v){ spdlog::set_level(spdlog::level::off); rg::init(2); int N=atoi(v[1]); long s=0;
    for(int i=0;i<N;++i) s += rg::emplace_task([]{ return 1; }).get();
    rg::finalize(); return s!=N; }
