#include "common.hpp"
#include "guard.hpp"

// what the scenario knows about one pool
struct World
{
    Live live;
    vs::Num held, out, failed, size, low, maxHeld, maxOut, peak[ 64 ];
    VS_RAW void begin() { ++out; if ( long( out ) > long( maxOut ) ) maxOut.v = long( out ); for ( auto & p : peak ) if ( p < long( out ) ) p.v = long( out ); peak[ vs::self() ].v = long( out ); }
    VS_RAW void got() { ++held; if ( long( held ) > long( maxHeld ) ) maxHeld.v = long( held ); if ( long( held ) > long( size ) ) fail( "C11", "more blocks are held than the pool has" ); }
    VS_RAW void none() { --out; if ( long( peak[ vs::self() ] ) <= long( size ) ) fail( "C11", "a request fails although a block is free" ); }
};
static World * w;
VS_RAW static bool cas( vs::Num & n, long a, long b ) { if ( n.v != a ) return false; n.v = b; return true; }
template< size_t S, bool Aligned = true > struct Obj
{
    unsigned char b[ S ];
    VS_RAW Obj() { unsigned char * p = (unsigned char *)this; asm volatile( "" : "+r"( p ) :: "memory" ); w->live.add( p, S, 0, true, Aligned ); }
    VS_RAW ~Obj() { unsigned char * p = (unsigned char *)this; if ( !w->live.remove( p, 0 ) ) fail( "C10 C11", "an object is destroyed that is not alive" ); asm volatile( "" ::: "memory" ); }
};
struct Boom {};
template< size_t S > struct Bad : Obj< S > { Bad() { throw Boom{}; } };

template< class P > static void stats( P & pool, long & last )
{
    auto s = pool.getRunningStateStatistics();
    check( long( s.size ) == long( w->size ), "C12", "a snapshot shows another size than the pool's" );
    check( s.lowWatermark <= s.runningCount, "C12", "a snapshot shows a low watermark above the running count" );
    check( s.runningCount <= s.size, "C12", "a snapshot shows a running count above the size" );
    check( long( s.lowWatermark ) <= last, "C12", "the low watermark increases" );
    last = s.lowWatermark;
}
template< class P > static void still( P & pool, bool exact )
{
    auto s = pool.getRunningStateStatistics();
    check( long( s.runningCount ) == long( w->size ) - long( w->held ), "C12", "the running count is not the number of free blocks" );
    check( long( s.lowWatermark ) <= long( w->size ) - long( w->maxHeld ), "C12", "the low watermark is above the smallest running count reached" );
    if ( exact ) check( long( s.lowWatermark ) == long( w->size ) - long( w->maxHeld ), "C12", "the low watermark is not the smallest running count reached" );
    check( long( s.lowWatermark ) >= long( w->size ) - long( w->maxOut ), "C12", "the low watermark is below every running count reached" );
}
template< class P, class Ptr, class Get > static bool get( P & pool, Ptr & to, Get g )
{
    w->begin();
    try { to = g( pool ); }
    catch ( const RingBufferUnderflow & ) { w->none(); return false; }
    if ( !to ) { w->none(); return false; }
    w->got();
    return true;
}
template< class B > static void drop( typename B::Ptr & p ) { if ( !p ) return; B::before( p ); w->held -= 1; p.reset(); --w->out; check( vs::locks() == 0, "C11", "the pool's lock is still held" ); }
template< size_t S > struct OP
{
    using Pool = ObjectPool< Obj< S > >;
    using Ptr = typename Pool::ObjectPtrType;
    static Ptr get( Pool & p ) { return p.template createObj< Obj< S > >(); }
    static void before( Ptr & ) {}
    static Pool * make( size_t n ) { return new Pool{ n }; }
};
template< class T, size_t K > struct BP
{
    using Pool = BlockPool< T >;
    using Ptr = typename Pool::BlockPtrType;
    static Ptr get( Pool & p )
    {
        Ptr b = p.getBlock();
        if ( std::is_scalar< T >::value ) w->live.add( b.get(), K * sizeof( T ), 0, true );
        return b;
    }
    static void before( Ptr & p ) { if ( std::is_scalar< T >::value && !w->live.remove( p.get(), 0 ) ) fail( "C10 C11", "a block is given back that is not alive" ); }
    static Pool * make( size_t n ) { return new Pool{ n, K }; }
};
static size_t roundUp( size_t n ) { size_t r = 2; while ( r < n ) r *= 2; return r; }
template< class B > static std::unique_ptr< typename B::Pool > make( size_t n )
{
    std::unique_ptr< typename B::Pool > p{ B::make( n ) };
    w->size.v = long( p->getSize() );
    w->low.v = w->size.v;
    check( p->getSize() == roundUp( n ), "C11", "getSize() is not the round-up of the request" );
    return p;
}
template< class B > static void race()
{
    World ww;
    w = &ww;
    {
        auto pool = make< B >( 1 + rnd( 6 ) );
        int th = 2 + rnd( 3 );
        typename B::Ptr slot[ 64 ], shared[ 8 ];
        vs::Num full[ 8 ];
        for ( int i = 1; i <= th; ++i )
        {
            int k = 2 + rnd( 8 ), keep = 1 + rnd( 4 ), swap = rnd( 3 );
            vs::go( [&, i, k, keep, swap] {
                typename B::Ptr mine[ 4 ];
                long last = ww.size;
                for ( int j = 0; j < k; ++j )
                {
                    int x = rnd( keep );
                    if ( mine[ x ] )
                    {
                        int to = rnd( 8 );
                        if ( swap == 0 && cas( full[ to ], 0, 1 ) ) shared[ to ] = std::move( mine[ x ] ), full[ to ].v = 2;
                        else drop< B >( mine[ x ] );
                    }
                    else if ( swap == 0 && rnd( 2 ) )
                    {
                        int from = rnd( 8 );
                        if ( cas( full[ from ], 2, 3 ) ) { mine[ x ] = std::move( shared[ from ] ); full[ from ].v = 0; }
                    }
                    else get( *pool, mine[ x ], B::get );
                    stats( *pool, last );
                }
                for ( int x = 0; x < 4; ++x ) if ( rnd( 2 ) ) drop< B >( mine[ x ] ); else slot[ 4 * i + x ] = std::move( mine[ x ] );
            } );
        }
        if ( rnd( 2 ) ) vs::go( [&] { long last = ww.size; for ( int j = 0; j < 12; ++j ) { stats( *pool, last ); vs::yield(); } } );
        vs::quiet();
        still( *pool, false );
        for ( auto & s : shared ) drop< B >( s );
        for ( auto & s : slot ) drop< B >( s );
        still( *pool, false );
        check( long( ww.held ) == 0, "C11", "the scenario lost a block" );
        // every block can be had again, and no more than those
        std::vector< typename B::Ptr > all( size_t( ww.size ) + 1 );
        for ( long i = 0; i < ww.size; ++i ) check( get( *pool, all[ i ], B::get ), "C11", "a returned block is not available again" );
        check( !get( *pool, all[ ww.size ], B::get ), "C11", "the pool hands out more blocks than it has" );
        still( *pool, false );
        if ( rnd( 2 ) ) while ( !all.empty() ) { drop< B >( all.back() ); all.pop_back(); }
        else for ( auto & a : all ) drop< B >( a );
    }
}
template< class B > static void seq( size_t n )
{
    World ww;
    w = &ww;
    auto pool = make< B >( n );
    size_t N = pool->getSize();
    long last = long( N );
    std::vector< typename B::Ptr > held;
    still( *pool, true );
    for ( int j = 0; j < 60; ++j )
    {
        int way = rnd( 4 );
        for ( int k = way == 0 ? int( N ) + 2 : rnd( 5 ); k-- && N <= 300; )
        {
            typename B::Ptr p;
            bool free = held.size() < N;
            check( get( *pool, p, B::get ) == free, "C11", free ? "a request fails although a block is free" : "a request succeeds although no block is free" );
            if ( p ) held.push_back( std::move( p ) );
            stats( *pool, last );
            still( *pool, true );
        }
        for ( int k = way == 3 ? int( N ) : rnd( 5 ); k-- && !held.empty(); )
        {
            size_t i = rnd( held.size() );
            drop< B >( held[ i ] );
            held.erase( held.begin() + i );
            stats( *pool, last );
            still( *pool, true );
        }
    }
    for ( auto & h : held ) drop< B >( h );
    still( *pool, true );
}
// constructors that throw give their block back
static void throwing()
{
    World ww;
    w = &ww;
    struct V { virtual ~V() = default; };
    struct D : V { unsigned char b[ 40 ]; D( int k ) { if ( k ) throw Boom{}; } };
    ObjectPool< V > pool{ 1 + rnd( 4 ), sizeof( D ) };
    ww.size.v = long( pool.getSize() );
    for ( int j = 0; j < 20; ++j ) { bool t = false; try { pool.createObj< D >( 1 ); } catch ( const Boom & ) { t = true; } check( t, "C11 C13", "the exception of a constructor is lost" ); }
    std::vector< ObjectPool< V >::ObjectPtrType > all;
    try { for ( long i = 0; i < ww.size; ++i ) all.push_back( pool.createObj< D >( 0 ) ); } catch ( const RingBufferUnderflow & ) { fail( "C11 C13", "a block is lost when a constructor throws" ); }
    auto s = pool.getRunningStateStatistics();
    check( s.runningCount == 0 && s.lowWatermark == 0, "C12", "the statistics of a used up pool are not zero" );
}
// objects up to the padded element size
struct VB { virtual ~VB() = default; };
template< size_t K > struct VD : VB
{
    unsigned char b[ K ];
    VS_RAW VD() { unsigned char * p = (unsigned char *)this; asm volatile( "" : "+r"( p ) :: "memory" ); w->live.add( p, sizeof *this, sizeof( VB ), true ); }
    VS_RAW ~VD() override { unsigned char * p = (unsigned char *)this; if ( !w->live.remove( p, sizeof( VB ) ) ) fail( "C10 C11", "an object is destroyed that is not alive" ); asm volatile( "" ::: "memory" ); }
};
template< size_t K > static void padded( size_t e )
{
    World ww;
    w = &ww;
    ObjectPool< VB > pool{ 4, e };
    std::vector< ObjectPool< VB >::ObjectPtrType > v;
    for ( int j = 0; j < 40; ++j )
        if ( rnd( 3 ) && v.size() < 4 ) { try { v.push_back( pool.template createObj< VD< K > >() ); } catch ( const ObjectPoolElementSizeError & ) { check( sizeof( VD< K > ) > e, "C13", "an object that fits is rejected" ); } }
        else if ( !v.empty() ) v.erase( v.begin() + rnd( v.size() ) );
}
struct L { long v; };
// a large pool, one thread
static void large( size_t n )
{
    ObjectPool< L > pool{ n };
    check( pool.getSize() == n, "C11", "getSize is wrong" );
    std::vector< ObjectPool< L >::ObjectPtrType > all;
    long * lo = nullptr, * hi = nullptr;
    for ( size_t i = 0; i < n; ++i )
    {
        try { all.push_back( pool.createObj< L >( long( i ) ) ); } catch ( const RingBufferUnderflow & ) { fail( "C11", "a request fails although a block is free" ); return; }
        auto s = pool.getRunningStateStatistics();
        check( s.runningCount == n - i - 1 && s.lowWatermark == n - i - 1, "C12", "the statistics of a large pool are wrong" );
    }
    for ( size_t i = 0; i < n; ++i ) check( all[ i ]->v == long( i ), "C10", "the bytes of a live block changed" );
    all.clear();
    auto s = pool.getRunningStateStatistics();
    check( s.runningCount == n && s.lowWatermark == 0, "C12", "the statistics of a large pool are wrong" );
}
template< class B > static void all( const char * name )
{
    vs::scenario( name, 800, [] { seq< B >( 1 + rnd( 20 ) ); } );
    vs::scenario( name, 4000, [] { race< B >(); } );
}
int main( int, char ** v )
{
    vs::prop = v[ 1 ];
    vs::stuckProps = "C11";
    for ( size_t n : { 65536, 131072 } ) vs::scenario( "large", 1, [n] { large( n ); } );
    vs::scenario( "throwing", 20, throwing );
    for ( size_t e : { 1, 8, 9, 12, 15, 16, 17, 20, 23, 24, 25, 31, 32, 33, 40, 41 } ) vs::scenario( "padded size", 10, [e] { padded< 8 >( e ); padded< 16 >( e ); padded< 24 >( e ); } );
    all< OP< 1 > >( "objects of 1 byte" );
    all< OP< 24 > >( "objects of 24 bytes" );
    all< OP< 13 > >( "objects of 13 bytes" );
    all< BP< Obj< 7, false >, 3 > >( "blocks of 3 objects of 7 bytes" );
    all< BP< long, 4 > >( "blocks of 4 numbers" );
    for ( size_t n : { 100, 255, 256 } ) vs::scenario( "size", 3, [n] { seq< OP< 5 > >( n ); } );
    printf( "ok\n" );
}
