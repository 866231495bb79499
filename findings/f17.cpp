// F17: concurrent iteration and removal must destroy each element exactly once.
#include <redGrapes/redGrapes.hpp>
#include <redGrapes/util/chunked_list.hpp>
#include <thread>
#include <cstdio>
static std::atomic<long> ctor, dtor;
struct C { C(){ ctor++; } C(C const&){ ctor++; } ~C(){ dtor++; } C& operator=(C const&){ return *this; } };
int main(int c,char**v){ spdlog::set_level(spdlog::level::off); redGrapes::init(1); int N=atoi(v[1]); std::atomic<bool> stop{false};
    { C x; redGrapes::ChunkedList<C,8> l{redGrapes::memory::Allocator()}; l.push(x);
      std::thread t[3]; for(auto&u:t) u=std::thread([&]{ while(!stop) for(auto it=l.rbegin(); it!=l.rend(); ++it); });
      for(int i=0;i<N;++i){ l.remove(l.push(x)); }
      stop=true; for(auto&u:t) u.join(); }
    printf("ctor %ld dtor %ld\n",(long)ctor,(long)dtor); int bad = ctor!=dtor;
    redGrapes::finalize(); return bad; }
