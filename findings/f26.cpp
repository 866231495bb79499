// F26: while a task demotes write->read, no other task may see it without any access.
#include <redGrapes/redGrapes.hpp>
#include <redGrapes/resource/ioresource.hpp>
#include <atomic>
namespace rg = redGrapes;
static std::atomic<bool> slow{false}, in_slow{false};
struct SlowIO : rg::access::IOAccess {
    SlowIO(Mode m) : IOAccess(m) {}
    bool operator==(SlowIO const& o) const { if(slow){ in_slow=true; std::this_thread::sleep_for(std::chrono::milliseconds(300)); } return mode==o.mode; }
};
template<> struct fmt::formatter<SlowIO> : fmt::formatter<rg::access::IOAccess> {};
int main(){ spdlog::set_level(spdlog::level::off); rg::init(4); int bad=0;
    { rg::Resource<SlowIO> s; rg::IOResource<int> r; std::atomic<bool> done{false}, early{false};
    auto sw = s.make_access(SlowIO(SlowIO::write)), sr = s.make_access(SlowIO(SlowIO::read));
    rg::emplace_task([&](auto a){ slow=true;
        rg::update_properties(rg::TaskProperties::Patch::Builder().remove_resources({r.write(), sw}).add_resources({r.read(), sr}));
        slow=false; std::this_thread::sleep_for(std::chrono::milliseconds(300)); done=true; }, r.write()).resources({r.write(), sw});
    while(!in_slow) std::this_thread::yield();
    rg::emplace_task([&](auto a){ if(!done) early=true; }, r.write());
    rg::barrier(); if(early) { printf("writer ran while the demoted reader was still running\n"); bad=1; } }
    rg::finalize(); return bad; }
