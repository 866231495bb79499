// F11: an allocation that does not fit into a chunk must fail, not loop forever.
#include <redGrapes/redGrapes.hpp>
#include <array>
namespace rg = redGrapes;
int main(){ spdlog::set_level(spdlog::level::off); rg::init(1);
    for(size_t n : {30000ul, 40000ul, 64000ul, 65536ul, 70000ul}) { auto b = rg::memory::Allocator().allocate(n); if(n<=32768 && !b) return 1; if(b) rg::memory::Allocator().deallocate(b); }
    rg::finalize(); return 0; }
