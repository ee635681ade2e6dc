#include "common.hpp"
#include "MessageQueue.hpp"
#include "ReiserRT_CoreExceptions.hpp"
#include <new>
using namespace ReiserRT::Core;
extern "C" {
void v_mctor( void * self, long kind, long arg );                 // may throw
void v_mmove( void * self, long kind, const void * from );        // may throw
void v_mctor_n( void * self, long kind, long arg );
void v_mmove_n( void * self, long kind, const void * from );
void v_mdtor( void * self, long kind );
void v_dispatch( void * self, long kind );                        // may throw
const char * v_name( const void * self, long kind );
void v_wake();                                                    // may throw
}
#define VMSG( K ) \
    void dispatch() override { v_dispatch( this, K ); } \
    const char * name() const override { return v_name( this, K ); }
// base first
struct VMsg : MessageBase
{
    long x;
    explicit VMsg( int a ) { v_mctor( this, 1, a ); }
    VMsg() { v_mctor( this, 1, 77 ); }
    VMsg( int a, const char *, long &, std::nullptr_t, double ) { v_mctor( this, 1, a ); }
    VMsg( VMsg && o ) : MessageBase( o ) { v_mmove( this, 1, &o ); }
    ~VMsg() override { v_mdtor( this, 1 ); }
    VMSG( 1 )
};
// message base at another place within the object
struct VMOther { long w; virtual ~VMOther() = default; };
struct VMMulti : VMOther, MessageBase
{
    long y;
    explicit VMMulti( int a ) { v_mctor( this, 2, a ); }
    VMMulti( VMMulti && o ) : VMOther(), MessageBase( o ) { v_mmove( this, 2, &o ); }
    ~VMMulti() override { v_mdtor( this, 2 ); }
    VMSG( 2 )
};
struct VMBig : MessageBase
{
    long big[ 20 ];
    explicit VMBig( int a ) { v_mctor( this, 3, a ); }
    VMBig( VMBig && o ) : MessageBase( o ) { v_mmove( this, 3, &o ); }
    ~VMBig() override { v_mdtor( this, 3 ); }
    VMSG( 3 )
};
// nothing of it throws
struct VMNoexc : MessageBase
{
    int z;
    explicit VMNoexc( int a ) noexcept { v_mctor_n( this, 4, a ); }
    VMNoexc( VMNoexc && o ) noexcept : MessageBase( o ) { v_mmove_n( this, 4, &o ); }
    ~VMNoexc() override { v_mdtor( this, 4 ); }
    VMSG( 4 )
};
struct VQueue : MessageQueue
{
    VQueue( size_t n, size_t e, bool l ) : MessageQueue{ n, e, l } {}
    using MessageQueue::getElementSize;
    using MessageQueue::isAborted;
};
using Lock = MessageQueue::AutoDispatchLock;
#define VOPS( D ) \
  extern "C" void h_mq_put_##D( VQueue & q, D * src ) { q.put( std::move( *src ) ); } \
  extern "C" void h_mq_emplace_##D( VQueue & q, int a ) { q.emplace< D >( a ); } \
  extern "C" MessageBase * h_msg_make_##D( void * p ) { return new( p ) D{ 7 }; } \
  extern "C" void * h_msg_new_##D() { return new D{ 7 }; } \
  extern "C" size_t h_msg_size_##D() { return sizeof( D ); }
VOPS( VMsg )
VOPS( VMMulti )
VOPS( VMBig )
VOPS( VMNoexc )
extern "C" void h_mq_emplace0_VMsg( VQueue & q, int ) { q.emplace< VMsg >(); }
extern "C" void h_mq_emplace5_VMsg( VQueue & q, int a ) { long l = 0; q.emplace< VMsg >( a, "text", l, nullptr, 1.5 ); }
extern "C" {
VQueue * h_mq_new( size_t n, size_t e, bool l ) { return new VQueue( n, e, l ); }
VQueue * h_mq_newd( size_t n, size_t e ) { return static_cast< VQueue * >( new MessageQueue( n, e ) ); }
void h_mq_delete( VQueue * q ) { delete q; }
size_t h_mq_esize( VQueue & q ) { return q.getElementSize(); }
void h_mq_abort( VQueue & q ) { q.abort(); }
bool h_mq_aborted( VQueue & q ) { return q.isAborted(); }
void h_mq_dispatch( VQueue & q ) { q.getAndDispatch(); }
void h_mq_dispatch_wake( VQueue & q ) { MessageQueue::WakeupCallFunctionType f{ []{ v_wake(); } }; q.getAndDispatch( f ); }
void h_mq_purge( VQueue & q ) { q.purge(); }
const char * h_mq_name( VQueue & q ) { return q.getNameOfLastMessageDispatched(); }
void h_mq_stats( VQueue & q, uint64_t * out )
{
    auto s = q.getRunningStateStatistics();
    out[0] = s.size; out[1] = s.runningCount; out[2] = s.highWatermark;
}
// in-place lock objects
size_t h_lock_size() { return sizeof( Lock ); }
void h_lock_get( VQueue & q, void * p ) { new( p ) Lock{ q.getAutoDispatchLock() }; }
void h_lock_move( Lock & from, void * p ) { new( p ) Lock{ std::move( from ) }; }
void h_lock_assign( Lock & to, Lock & from ) { to = std::move( from ); }
void h_lock_lock( Lock & l ) { l.lock(); }
void h_lock_unlock( Lock & l ) { l.unlock(); }
void h_lock_destroy( Lock & l ) { l.~Lock(); }
void * h_lock_native( Lock & l ) { return (void *)l.native_handle(); }
void h_fn_flush( const std::function< void( void * ) > & f, void * p ) { f( p ); }
}
