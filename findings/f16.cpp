// F16: ChunkedList must construct/destroy each element exactly once.
#include <redGrapes/redGrapes.hpp>
#include <redGrapes/util/chunked_list.hpp>
#include <cstdio>
static long ctor, dtor;
struct C { int* p; C(){ p=new int; ctor++; } C(C const&){ p=new int; ctor++; } ~C(){ dtor++; } C& operator=(C const&){ return *this; } };
int main(){ spdlog::set_level(spdlog::level::off); redGrapes::init(1);
    { redGrapes::ChunkedList<C,8> l{redGrapes::memory::Allocator()}; C c; l.push(c); auto p=l.push(c); l.remove(p); }
    printf("ctor %ld dtor %ld\n",ctor,dtor); int bad = ctor!=dtor;
    redGrapes::finalize(); return bad; }
