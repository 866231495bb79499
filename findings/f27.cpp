// F27: a slot whose push is still in progress must not be skipped because its successor is removed meanwhile.
#include <redGrapes/redGrapes.hpp>
#include <redGrapes/util/chunked_list.hpp>
#include <atomic>
#include <cstdlib>
#include <thread>
namespace rg = redGrapes;
struct A { rg::memory::Block allocate(size_t n){ return {(uintptr_t) std::aligned_alloc(64, (n+63)/64*64), n}; } void deallocate(rg::memory::Block b){ std::free((void*) b.ptr); } };
static std::atomic<bool> slow{false}, copying{false};
struct E { int v; E(int v):v(v){} E(E const& o):v(o.v){ if(v==2 && slow){ copying=true; while(slow) std::this_thread::yield(); } } bool operator==(E const&o) const {return v==o.v;} };
int main(){ rg::ChunkedList<E,8,A> l(A{});
    l.push(E(1)); E two(2); slow=true;
    std::thread t([&]{ l.push(two); });           // reserves slot 1, still constructing
    while(!copying) std::this_thread::yield();
    { auto it = l.push(E(3)); l.remove(it); }      // slot 2 comes and goes
    slow=false; t.join();
    int n=0; bool found=false; for(auto it=l.rbegin(); it!=l.rend(); ++it){ n++; found|=it->v==2; }
    printf("%d items, found=%d\n", n, found); return !(n==2 && found); }
