// F03: AtomicBitfield::set must return the previous value for every index.
#include <redGrapes/util/bitfield.hpp>
#include <cstdio>
#include <cstdint>
int main(){ redGrapes::AtomicBitfield b(130); int bad=0;
    for(unsigned i=0;i<130;++i){ if(b.set(i,true)) bad++; if(!b.set(i,true)) { if(!bad) printf("idx %u: previous value lost\n",i); bad++; } if(!b.set(i,false)) bad++; }
    return bad!=0; }
