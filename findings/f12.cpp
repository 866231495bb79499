// F12: more than 65535 predecessors of one task.
#include <redGrapes/redGrapes.hpp>
#include <redGrapes/resource/ioresource.hpp>
#include <atomic>
namespace rg = redGrapes;
int main(){ spdlog::set_level(spdlog::level::off); rg::init(2); int bad=0;
    { rg::IOResource<int> r; std::atomic<int> n{0}; std::atomic<bool> go{false}, early{false}, ran{false}; const int N=70000;
    rg::emplace_task([&](auto){ while(!go); }, r.write());
    for(int i=0;i<N;++i) rg::emplace_task([&](auto){ n++; }, r.read());
    rg::emplace_task([&](auto){ if(n!=N) early=true; ran=true; }, r.write());
    std::this_thread::sleep_for(std::chrono::seconds(20)); go=true;
    rg::barrier(); if(early||!ran) bad=1; }
    rg::finalize(); return bad; }
