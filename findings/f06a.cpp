// F06a: update_properties in a child must never release the parent's completion edge.
#include <redGrapes/redGrapes.hpp>
#include <redGrapes/resource/ioresource.hpp>
#include <atomic>
namespace rg = redGrapes;
int main(){ spdlog::set_level(spdlog::level::off); rg::init(4); int bad=0;
    { rg::IOResource<int> r; std::atomic<bool> child{false}, early{false}, upd{false};
    rg::emplace_task([&](auto a){
        rg::IOResource<int> inner;
        rg::emplace_task([&](auto b){ rg::update_properties(rg::TaskProperties::Patch::Builder()); upd=true; std::this_thread::sleep_for(std::chrono::milliseconds(200)); child=true; }, inner.write());
        while(!upd); }, r.write());
    rg::emplace_task([&](auto){ if(!child) early=true; }, r.write());
    rg::barrier(); if(early){ printf("parent completed before its child\n"); bad=1; } }
    rg::finalize(); return bad; }
