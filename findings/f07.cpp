// F07: a task without stack switching that yields must still run exactly once.
#include <redGrapes/redGrapes.hpp>
#include <redGrapes/resource/ioresource.hpp>
#include <atomic>
namespace rg = redGrapes;
int main(){ spdlog::set_level(spdlog::level::off); rg::init(2); int bad=0;
    { std::atomic<int> n{0};
    auto f = rg::emplace_task([]{ return rg::create_event(); }).submit();
    auto ev = f.get();
    auto g = rg::emplace_task([&,ev]{ n++; rg::yield(*ev); }).submit();
    std::this_thread::sleep_for(std::chrono::milliseconds(100));
    ev->notify(); 
    std::this_thread::sleep_for(std::chrono::milliseconds(300));
    if(n!=1) { printf("body executed %d times\n",(int)n); fflush(stdout); _Exit(1); }
    g.get(); rg::barrier(); }
    rg::finalize(); return bad; }
