#include "common.hpp"
template< class T > struct Val { static T of( uint64_t i ) { return T( i ); } };
template< class T > struct Val< T * > { static T * of( uint64_t i ) { return (T *)( 0x1000 + 8 * i ); } };

template< class T > static void fifo( size_t n )
{
    RingBufferSimple< T > r{ n };
    size_t N = r.getSize();
    std::deque< uint64_t > model;
    uint64_t next = 1;
    auto put = [&] {
        bool full = model.size() == N, thrown = false;
        try { r.put( Val< T >::of( next ) ); } catch ( const RingBufferOverflow & ) { thrown = true; }
        check( thrown == full, "C01", full ? "put on a full buffer succeeds" : "put on a buffer that is not full throws" );
        if ( !thrown ) model.push_back( next );
        ++next;
    };
    auto get = [&] {
        bool empty = model.empty(), thrown = false;
        T v{};
        try { v = r.get(); } catch ( const RingBufferUnderflow & ) { thrown = true; }
        check( thrown == empty, "C01", empty ? "get on an empty buffer succeeds" : "get on a buffer that is not empty throws" );
        if ( !thrown && !empty ) { check( v == Val< T >::of( model.front() ), "C01", "get returns another value than the oldest one" ); model.pop_front(); }
    };
    get();
    for ( size_t i = 0; i < N + 1; ++i ) put();
    put();
    for ( size_t i = 0; i < N / 2; ++i ) get();
    for ( size_t i = 0; i < N / 2 + 1; ++i ) put();
    while ( !model.empty() ) get();
    get();
    for ( int i = 0; i < 3000; ++i ) { int bias = rnd( 3 ); for ( int k = rnd( 2 * N < 40 ? 2 * N : 40 ); k--; ) if ( (int)rnd( 3 ) < bias ) put(); else get(); }
}

static void geometry()
{
    std::vector< uint64_t > ns = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 1000, 1023, 1024, 1025, 65535, 65536, 65537,
        524287, 524288, 524289, 1048575, 1048576, 1048577, 1u << 21, 0x7fffffff, 0x80000000u, 0xfffffffeu, 0xffffffffu, 1ull << 32,
        ( 1ull << 32 ) + 1, ( 1ull << 32 ) + 5, ( 1ull << 32 ) + 1048576, 1ull << 33, 1ull << 63, ( 1ull << 63 ) + 3, ~0ull - 1, ~0ull };
    for ( int i = 0; i < 40; ++i ) { ns.push_back( rnd( 1 << 21 ) ); ns.push_back( rnd() ); }
    for ( uint64_t n : ns )
    {
        uint64_t c = n < 2 ? 2 : n > 1048576 ? 1048576 : n, N = 1, b = 0;
        while ( N < c ) { N *= 2; ++b; }
        RingBufferSimple< unsigned char > r{ size_t( n ) };
        check( r.getSize() == N, "C02", ( "getSize is wrong for a request of " + std::to_string( n ) ).c_str() );
        check( r.getMask() == N - 1, "C02", ( "getMask is wrong for a request of " + std::to_string( n ) ).c_str() );
        check( r.getNumBits() == b, "C02", ( "getNumBits is wrong for a request of " + std::to_string( n ) ).c_str() );
        bool thrown = false;
        try { r.get(); } catch ( const RingBufferUnderflow & ) { thrown = true; }
        check( thrown, "C02", "a new buffer is not empty" );
        uint64_t k = 0;
        try { for ( ; k <= N; ++k ) r.put( k ); } catch ( const RingBufferOverflow & ) {}
        check( k == N, "C02", ( "the buffer does not hold its size for a request of " + std::to_string( n ) ).c_str() );
        RingBufferSimple< int * > rp{ size_t( n ) };
        check( rp.getSize() == N && rp.getMask() == N - 1 && rp.getNumBits() == b, "C02", "geometry of a pointer buffer is wrong" );
    }
}

static void lifetime()
{
    // past 2^32 operations
    RingBufferSimple< unsigned > r{ 4 };
    unsigned a = 0, b = 0;
    for ( uint64_t i = 0; i < ( 1ull << 32 ) + 10; ++i )
    {
        r.put( a++ );
        if ( r.get() != b++ ) fail( "C01", "wrong value after very many operations" );
    }
    for ( int i = 0; i < 4; ++i ) r.put( i );
    bool thrown = false;
    try { r.put( 9 ); } catch ( const RingBufferOverflow & ) { thrown = true; }
    check( thrown, "C01", "put on a full buffer succeeds after very many operations" );
}

static void lifetimeFull()
{
    // the counters wrap while the buffer is not empty
    RingBufferSimple< unsigned > r{ 4 };
    unsigned a = 0, b = 0;
    for ( int i = 0; i < 3; ++i ) r.put( a++ );
    for ( uint64_t i = 0; i < ( 1ull << 32 ) + 10; ++i )
    {
        r.put( a++ );
        if ( i > 0xfffffff0ull || ( i & 0xfffff ) < 2 || ( i & 0xffff ) > 0xfffc )
        {
            bool thrown = false;
            try { r.put( 9 ); } catch ( const RingBufferOverflow & ) { thrown = true; }
            check( thrown, "C01", "put on a full buffer succeeds after very many operations" );
        }
        if ( r.get() != b++ ) fail( "C01", "wrong value after very many operations" );
    }
}

enum class E : short { a };
int main( int c, char ** v )
{
    vs::prop = v[ 1 ];
    vs::scenario( "geometry", 2, geometry );
    if ( !strcmp( v[ 1 ], "C02" ) ) { printf( "ok\n" ); return 0; }
    for ( size_t n : { 0, 1, 2, 3, 4, 5, 8, 13, 64, 100 } )
        vs::scenario( "sequences", 2, [n] { fifo< int >( n ); fifo< unsigned char >( n ); fifo< uint64_t >( n ); fifo< int * >( n ); fifo< const char * >( n ); fifo< void * >( n ); fifo< double >( n ); fifo< E >( n ); } );
    for ( size_t n : { 4096, 65535, 65536, 131072, 262144, 1048576 } )
        vs::scenario( "large buffers", 1, [n] { fifo< uint64_t >( n ); fifo< int * >( n ); fifo< int >( n ); } );
    if ( c > 2 && !strcmp( v[ 2 ], "san" ) ) { printf( "ok\n" ); return 0; }
    vs::scenario( "lifetime", 1, lifetime );
    vs::scenario( "lifetime, nearly full", 1, lifetimeFull );
    printf( "ok\n" );
}
