// F28: elements stay visible while a new chunk was appended whose first slot is not in use yet.
#include <redGrapes/redGrapes.hpp>
#include <redGrapes/util/chunked_list.hpp>
#include <atomic>
#include <cstdlib>
#include <thread>
namespace rg = redGrapes;
struct A { rg::memory::Block allocate(size_t n){ return {(uintptr_t) std::aligned_alloc(64, (n+63)/64*64), n}; } void deallocate(rg::memory::Block b){ std::free((void*) b.ptr); } };
struct E { int v; E(int v):v(v){} };
int main(){ long miss=0; for(int r=0;r<20000 && !miss;r++){ rg::ChunkedList<E,2,A> l(A{}); l.push(E(-1));
    std::atomic<bool> done{false};
    std::thread t([&]{ for(int i=0;i<40;i++) l.push(E(i)); done=true; });
    while(!done) if(!(l.rbegin()!=l.rend())) miss++;
    t.join(); }
    printf("list with elements seen as empty %ld times\n", miss); return miss!=0; }
