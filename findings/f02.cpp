// F02: notifying an external event from a non-worker thread while all workers are busy.
#include <redGrapes/redGrapes.hpp>
#include <redGrapes/resource/ioresource.hpp>
#include <atomic>
#include <chrono>
#include <cstdio>
namespace rg = redGrapes;
int main(){
    spdlog::set_level(spdlog::level::off);
    rg::init(1);
    { rg::IOResource<int> r; std::atomic<bool> go{false}, busy{false}, ran{false};
    auto f = rg::emplace_task([](auto){ return rg::create_event(); }, r.write()).submit();
    auto ev = f.get();
    rg::emplace_task([&](auto){ ran=true; }, r.write());
    rg::emplace_task([&]{ busy=true; while(!go); });
    while(!busy) std::this_thread::yield();
    ev->notify();            // all workers busy, called from the main thread
    go=true;
    rg::barrier();
    if(!ran) return 1; }
    rg::finalize();
    return 0;
}
