// F01: a task ordered after a parent task must not start before the parent's children are done.
#include <redGrapes/redGrapes.hpp>
#include <redGrapes/resource/ioresource.hpp>
#include <atomic>
#include <chrono>
#include <cstdio>
namespace rg = redGrapes;
int main(){
    spdlog::set_level(spdlog::level::off);
    int bad=0;
    for(int w=1; w<=4; w*=4){
        rg::init(w);
        { rg::IOResource<int> r; std::atomic<bool> child{false}, early{false};
        rg::emplace_task([&](auto r){ rg::emplace_task([&](auto){ std::this_thread::sleep_for(std::chrono::milliseconds(50)); child=true; }, r.write()); }, r.write());
        rg::emplace_task([&](auto){ if(!child) early=true; }, r.write());
        rg::barrier();
        if(early) { bad=1; printf("workers=%d: follower of the parent ran before the child\n", w);} }
        rg::finalize();
    }
    return bad;
}
