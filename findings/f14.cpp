// F14: task yields on an event which is notified concurrently by another thread.
#include <redGrapes/redGrapes.hpp>
#include <redGrapes/resource/ioresource.hpp>
#include <atomic>
namespace rg = redGrapes;
int main(int c,char**v){ spdlog::set_level(spdlog::level::off); rg::init(4); int N=atoi(v[1]); std::atomic<int> n{0};
    for(int i=0;i<N;++i){
      rg::emplace_task([&n]{ auto g = rg::emplace_task([]{ return 7; }).submit(); n += (g.get()==7); }).enable_stack_switching();
      if(i%64==0) rg::barrier(); }
    rg::barrier(); rg::finalize(); return n!=N; }
