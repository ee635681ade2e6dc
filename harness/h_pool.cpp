#include "common.hpp"
#include "MemoryPoolBase.hpp"
#include "ReiserRT_CoreExceptions.hpp"
using namespace ReiserRT::Core;
// gives the protected interface that ObjectPool and BlockPool build on
struct VPool : MemoryPoolBase
{
    VPool( size_t n, size_t e ) : MemoryPoolBase{ n, e } {}
    ~VPool() = default;
    using MemoryPoolBase::getRawBlock;
    using MemoryPoolBase::returnRawBlock;
};
extern "C" {
VPool * h_pool_new( size_t n, size_t e ) { return new VPool( n, e ); }
void h_pool_delete( VPool * p ) { delete p; }
void * h_pool_get( VPool & p ) { return p.getRawBlock(); }
void h_pool_ret( VPool & p, void * b ) { p.returnRawBlock( b ); }
size_t h_pool_size( VPool & p ) { return p.getSize(); }
size_t h_pool_esize( VPool & p ) { return p.getElementSize(); }
size_t h_pool_psize( VPool & p ) { return p.getPaddedElementSize(); }
void h_pool_stats( VPool & p, uint64_t * out )
{
    auto s = p.getRunningStateStatistics();
    out[0] = s.size; out[1] = s.runningCount; out[2] = s.lowWatermark;
}
}
