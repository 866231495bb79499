// F20: allocation failure must be reported, not constructed into at null.
#include <redGrapes/redGrapes.hpp>
#include <redGrapes/resource/ioresource.hpp>
#include <array>
namespace rg = redGrapes;
int main(){ spdlog::set_level(spdlog::level::off); rg::init(1); int r=1; try { rg::IOResource<std::array<char,200000>> x; } catch(std::bad_alloc&) { r=0; } rg::finalize(); return r; }
