// F05: access demotion of a running task must be accepted, promotion rejected.
#include <redGrapes/redGrapes.hpp>
#include <redGrapes/resource/ioresource.hpp>
#include <atomic>
namespace rg = redGrapes;
int main(){ spdlog::set_level(spdlog::level::off); rg::init(2); int bad=0;
    { rg::IOResource<int> r; std::atomic<int> ok{0}, rej{0}, reader{0}, parallel{0};
    rg::emplace_task([&](auto a){ try { rg::update_properties(rg::TaskProperties::Patch::Builder().remove_resources({a.write()}).add_resources({a.read()})); ok++; } catch(std::runtime_error&) {}
        for(int i=0;i<2000 && !reader;++i) std::this_thread::sleep_for(std::chrono::milliseconds(1)); if(reader) parallel++; }, r.write());
    rg::emplace_task([&](auto a){ reader++; }, r.read());
    rg::barrier();
    rg::emplace_task([&](auto a){ try { rg::update_properties(rg::TaskProperties::Patch::Builder().add_resources({r.write()})); } catch(std::runtime_error&) { rej++; } }, r.read());
    rg::barrier();
    if(!ok || !rej || !parallel) { printf("demotion ok=%d parallel=%d promotion rejected=%d\n", (int)ok, (int)parallel, (int)rej); bad=1; } }
    rg::finalize(); return bad; }
