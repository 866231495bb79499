// F06b: demotion with a follower depending through two resources: every edge must be released.
#include <redGrapes/redGrapes.hpp>
#include <redGrapes/resource/ioresource.hpp>
#include <atomic>
namespace rg = redGrapes;
int main(){ spdlog::set_level(spdlog::level::off); rg::init(4); int bad=0;
    { rg::IOResource<int> r, s; std::atomic<bool> go{false}; std::atomic<int> n{0};
    rg::emplace_task([&](auto a, auto b){ while(!go); rg::update_properties(rg::TaskProperties::Patch::Builder().remove_resources({r.write(), s.write()}).add_resources({r.read(), s.read()})); }, r.write(), s.write());
    rg::emplace_task([&](auto, auto){ n++; }, r.read(), s.read());
    std::this_thread::sleep_for(std::chrono::milliseconds(200)); go=true;
    rg::barrier(); if(n!=1) bad=1; }
    rg::finalize(); return bad; }
