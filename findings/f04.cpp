// F04: one task with two accesses to the same resource.
#include <redGrapes/redGrapes.hpp>
#include <redGrapes/resource/ioresource.hpp>
#include <atomic>
namespace rg = redGrapes;
int main(){ spdlog::set_level(spdlog::level::off); rg::init(2);
    { rg::IOResource<int> r; std::atomic<int> n{0};
    rg::emplace_task([&](auto dst, auto src){ n++; }, r.write(), r.read());
    rg::barrier(); if(n!=1) return 1; }
    rg::finalize(); return 0; }
