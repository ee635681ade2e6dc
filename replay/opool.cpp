#include "common.hpp"
#include <new>
// sequential driver, also built with the address sanitizer
struct Boom {};
static long born[ 4000 ], died[ 4000 ];
static std::set< void * > alive;
static int throwAt = -1, made = 0;
enum { OK = 0x600D };
struct Note
{
    volatile unsigned magic;
    long id;
    Note( long i, void * whole ) : magic{ OK }, id{ i } { ++born[ id ]; check( alive.insert( whole ).second, "C13 C14", "an object is constructed on memory that holds one already" ); w = whole; }
    ~Note()
    {
        if ( magic != OK ) { fail( "C13 C14", "something that is not a live object is destroyed" ); return; }
        magic = 0;
        check( ++died[ id ] == 1, "C13 C14", "an object is destroyed twice" );
        alive.erase( w );
    }
    void * w;
};
struct Base
{
    long tag = 7;
    virtual ~Base() = default;
    virtual long id() const = 0;
    virtual long sum() const { return 0; }
};
struct One : Base
{
    Note n;
    long a, b;
    One( long i, long a, std::unique_ptr< long > b ) : n{ i, this }, a{ a }, b{ *b } { if ( made++ == throwAt ) throw Boom{}; }
    long id() const override { return n.id; }
    long sum() const override { return a + b; }
};
struct First { long f[ 2 ] = { 1, 2 }; virtual ~First() = default; virtual void first() {} };
struct Two : First, Base
{
    Note n;
    long s;
    Two( long i, long & a ) : n{ i, this }, s{ ++a } { if ( made++ == throwAt ) throw Boom{}; }
    long id() const override { return n.id; }
    long sum() const override { return s; }
};
struct Virt : First, virtual Base
{
    Note n;
    Virt( long i ) : n{ i, this } { if ( made++ == throwAt ) throw Boom{}; }
    long id() const override { return n.id; }
};
struct Huge : Base
{
    unsigned char x[ 300 ];
    long id() const override { return 0; }
};
using Pool = ObjectPool< Base >;
using Ptr = Pool::ObjectPtrType;
static void objects()
{
    memset( born, 0, sizeof born );
    memset( died, 0, sizeof died );
    alive.clear();
    size_t el = std::max( { sizeof( One ), sizeof( Two ), sizeof( Virt ) } );
    Pool pa{ 1 + rnd( 6 ), el }, pb{ 1 + rnd( 6 ), el };
    Pool * pool[] = { &pa, &pb };
    long held[ 2 ] = { 0, 0 }, next = 1;
    struct H { Ptr p; int of; long id; };
    std::vector< H > v;
    auto exact = [&]( const char * what ) {
        long n = 0;
        for ( int k = 0; k < 2; ++k )
        {
            auto s = pool[ k ]->getRunningStateStatistics();
            check( long( s.runningCount ) == long( s.size ) - held[ k ], "C13", what );
            n += held[ k ];
        }
        check( long( alive.size() ) == n, "C13", "an object was left behind, or destroyed too early" );
    };
    for ( int j = 0; j < 80; ++j )
    {
        int op = rnd( 8 ), k = rnd( 2 );
        if ( op < 4 )
        {
            bool free = held[ k ] < long( pool[ k ]->getSize() ), threw = false, boom = rnd( 4 ) == 0;
            made = 0;
            throwAt = boom ? 0 : -1;
            Ptr p;
            long id = next++, arg = 5;
            int kind = rnd( 4 );
            try
            {
                if ( kind == 0 ) p = pool[ k ]->createObj< One >( id, 40l, std::unique_ptr< long >{ new long{ id } } );
                else if ( kind == 1 ) p = pool[ k ]->createObj< Two >( id, arg );
                else if ( kind == 2 ) p = pool[ k ]->createObj< Virt >( id );
                else
                {
                    bool rejected = false;
                    --next;
                    try { p = pool[ k ]->createObj< Huge >(); } catch ( const ObjectPoolElementSizeError & ) { rejected = true; } catch ( const RingBufferUnderflow & ) {}
                    check( rejected && !p, "C13", "createObj of a type that does not fit does not throw ObjectPoolElementSizeError" );
                    exact( "createObj of a type that does not fit takes a block" );
                    continue;
                }
            }
            catch ( const Boom & ) { threw = true; check( boom, "C13", "an exception nobody threw" ); }
            catch ( const RingBufferUnderflow & ) { threw = true; check( !free, "C11 C13", "createObj fails although a block is free" ); }
            check( threw == ( boom || !free ), "C13", "createObj neither delivers nor throws, or both" );
            if ( threw ) { check( !p && born[ id ] == died[ id ] , "C13", "createObj throws and leaves an object behind" ); exact( "createObj throws and keeps a block" ); continue; }
            check( bool( p ), "C13", "createObj delivers no object" );
            check( born[ id ] == 1 && died[ id ] == 0, "C13", "createObj does not construct exactly one object" );
            check( p->id() == id && p->tag == 7 && p->sum() == ( kind == 0 ? 40 + id : kind == 1 ? 6 : 0 ) && arg == ( kind == 1 ? 6 : 5 ), "C13", "the arguments of createObj are not forwarded" );
            ++held[ k ];
            v.push_back( H{ std::move( p ), k, id } );
            exact( "createObj does not take exactly one block of its pool" );
        }
        else if ( !v.empty() )
        {
            size_t i = rnd( v.size() );
            long id = v[ i ].id;
            if ( op == 4 )
            {   // transfer
                Ptr p = std::move( v[ i ].p );
                check( !v[ i ].p && died[ id ] == 0, "C13", "a transfer destroys the object" );
                if ( rnd( 2 ) ) { Ptr q{ nullptr }; q = std::move( p ); v[ i ].p = std::move( q ); } else v[ i ].p = std::move( p );
                exact( "a transfer changes the free blocks" );
                continue;
            }
            if ( op == 5 && v.size() > 1 )
            {   // assignment destroys what the target owns
                size_t t = rnd( v.size() );
                if ( t == i ) continue;
                long gone = v[ t ].id;
                --held[ v[ t ].of ];
                v[ t ].p = std::move( v[ i ].p );
                check( died[ gone ] == 1 && died[ id ] == 0, "C13", "assigning to a pointer does not destroy exactly the object it owned" );
                v[ t ].id = id;
                v[ t ].of = v[ i ].of;
                v.erase( v.begin() + i );
                exact( "a destroyed object's block does not go back to its pool" );
                continue;
            }
            --held[ v[ i ].of ];
            if ( op == 6 ) v[ i ].p.reset();
            else if ( rnd( 2 ) ) { std::shared_ptr< Base > s{ std::move( v[ i ].p ) }; auto s2 = s; s.reset(); check( died[ id ] == 0, "C13", "the object is destroyed too early" ); }
            else { Ptr p{ std::move( v[ i ].p ) }; }
            check( died[ id ] == 1, "C13", "destroying the pointer does not destroy the object exactly once" );
            v.erase( v.begin() + i );
            exact( "a destroyed object's block does not go back to its pool" );
        }
    }
    v.clear();
    held[ 0 ] = held[ 1 ] = 0;
    exact( "a destroyed object's block does not go back to its pool" );
    // all blocks of both pools are there, and they are their own
    std::set< void * > at[ 2 ];
    throwAt = -1;
    for ( int round = 0; round < 2; ++round )
    {
        for ( int k = 0; k < 2; ++k )
        {
            for ( size_t i = 0; i < pool[ k ]->getSize(); ++i )
            {
                Ptr p;
                long a = 0;
                try { p = pool[ k ]->createObj< Two >( next++, a ); } catch ( const RingBufferUnderflow & ) { fail( "C11 C13", "a block was lost" ); }
                if ( !p ) return;
                void * where = dynamic_cast< void * >( p.get() );
                if ( round == 0 ) check( at[ k ].insert( where ).second, "C11 C13", "a block is handed out twice" );
                else check( at[ k ].count( where ), "C11 C13", "a block went back to another pool or address" );
                v.push_back( H{ std::move( p ), k, 0 } );
            }
        }
        while ( !v.empty() ) { size_t i = rnd( v.size() ); v.erase( v.begin() + i ); }
    }
}
struct Plain { Note n; long a[ 3 ]; Plain( long i, long x ) : n{ i, this }, a{ x, x, x } { if ( made++ == throwAt ) throw Boom{}; } };
static void sameType()
{
    memset( born, 0, sizeof born );
    memset( died, 0, sizeof died );
    alive.clear();
    throwAt = -1;
    ObjectPool< Plain > p{ 1 + rnd( 5 ) };
    long id = 0;
    for ( int j = 0; j < 3; ++j )
    {
        std::vector< ObjectPool< Plain >::ObjectPtrType > v;
        for ( size_t i = 0; i < p.getSize(); ++i )
        {
            ++id;
            try { v.push_back( p.createObj< Plain >( id, id * 3 ) ); } catch ( const RingBufferUnderflow & ) { fail( "C11 C13", "a block was lost" ); return; }
            check( v.back()->a[ 2 ] == id * 3 && born[ id ] == 1, "C13", "the object is not constructed once with its arguments" );
        }
        made = 0;
        v.erase( v.begin() + rnd( v.size() ) );
        throwAt = 0;
        ++id;
        bool threw = false;
        try { p.createObj< Plain >( id, 0 ); } catch ( const Boom & ) { threw = true; }
        throwAt = -1;
        check( threw && born[ id ] == died[ id ], "C13", "the exception of a constructor is lost" );
        auto s = p.getRunningStateStatistics();
        check( s.runningCount == 1, "C13", "createObj throws and keeps a block" );
    }
    for ( long i = 1; i <= id; ++i ) check( born[ i ] == died[ i ], "C13", "an object was not destroyed" );
}
// elements of blocks
static long nextEl = 0, elBorn = 0, elDied = 0;
template< bool NoThrow, size_t S > struct El
{
    Note n;
    unsigned char x[ S ];
    El() noexcept( NoThrow ) : n{ ( nextEl = nextEl % 3900 + 1, born[ nextEl ] = died[ nextEl ] = 0, nextEl ), this } { memset( x, 3, S ); if ( !NoThrow && made++ == throwAt ) throw Boom{}; ++elBorn; }
    ~El() { ++elDied; }
};
template< bool NT, size_t S > static void blocks()
{
    using T = El< NT, S >;
    alive.clear();
    nextEl = elBorn = elDied = 0;
    throwAt = -1;
    size_t K = 1 + rnd( 9 );
    BlockPool< T > p{ 1 + rnd( 6 ), K };
    std::vector< typename BlockPool< T >::BlockPtrType > v;
    auto exact = [&]( const char * what ) {
        auto s = p.getRunningStateStatistics();
        check( s.runningCount == s.size - v.size(), "C14", what );
        check( alive.size() == v.size() * K, "C14", "the number of live elements is wrong" );
    };
    for ( int j = 0; j < 60; ++j )
    {
        int op = rnd( 5 );
        if ( op < 3 )
        {
            bool free = v.size() < p.getSize(), boom = !NT && rnd( 3 ) == 0;
            made = 0;
            throwAt = boom ? int( rnd( K ) ) : -1;
            long b0 = elBorn, d0 = elDied;
            bool threw = false;
            try
            {
                auto b = p.getBlock();
                check( elBorn - b0 == long( K ) && elDied == d0, "C14", "getBlock does not construct each element exactly once" );
                check( b.get_deleter().getNumElements() == K, "C14", "the deleter reports another number of elements" );
                for ( size_t i = 0; i < K; ++i ) check( alive.count( &b[ i ] ), "C14", "an element was not constructed" );
                if ( rnd( 4 ) == 0 ) { auto c = std::move( b ); check( c.get_deleter().getNumElements() == K, "C14", "the deleter reports another number of elements" ); v.push_back( std::move( c ) ); }
                else v.push_back( std::move( b ) );
            }
            catch ( const Boom & ) { threw = true; check( boom, "C14", "an exception nobody threw" ); check( elBorn - b0 == throwAt && elDied - d0 == throwAt, "C14", "elements constructed before the exception are not destroyed" ); }
            catch ( const RingBufferUnderflow & ) { threw = true; check( !free, "C11 C14", "getBlock fails although a block is free" ); }
            check( threw == ( boom || !free ), "C14", "getBlock neither delivers nor throws, or both" );
            exact( threw ? "getBlock throws and keeps its block" : "getBlock does not take exactly one block" );
        }
        else if ( !v.empty() )
        {
            size_t i = rnd( v.size() );
            long d0 = elDied;
            v.erase( v.begin() + i );
            check( elDied - d0 == long( K ), "C14", "not every element is destroyed exactly once" );
            exact( "a block does not go back to its pool" );
        }
    }
    v.clear();
    exact( "a block does not go back to its pool" );
    throwAt = -1;
    for ( size_t i = 0; i < p.getSize(); ++i ) try { v.push_back( p.getBlock() ); } catch ( const RingBufferUnderflow & ) { fail( "C11 C14", "a block was lost" ); return; }
    std::set< void * > at;
    for ( auto & b : v ) check( at.insert( b.get() ).second, "C11 C14", "a block is handed out twice" );
}
// elements without data, and many small ones
template< class T > static void count( size_t K )
{
    T::live = T::made = 0;
    BlockPool< T > p{ 2, K };
    for ( int i = 0; i < 5; ++i )
    {
        auto a = p.getBlock();
        auto b = p.getBlock();
        check( T::live == long( 2 * K ) && T::made == long( 2 * K ), "C14", "getBlock does not construct each element exactly once" );
        check( a.get_deleter().getNumElements() == K, "C14", "the deleter reports another number of elements" );
        a.reset();
        check( T::live == long( K ), "C14", "not every element is destroyed exactly once" );
        b.reset();
        check( T::live == 0, "C14", "not every element is destroyed exactly once" );
        T::made = 0;
        check( p.getRunningStateStatistics().runningCount == 2, "C14", "a block does not go back to its pool" );
    }
    T::boom = K / 2;
    try { p.getBlock(); check( T::quiet, "C14", "the exception of a constructor is lost" ); } catch ( const Boom & ) { check( T::live == 0, "C14", "elements constructed before the exception are not destroyed" ); }
    T::boom = -1;
    check( p.getRunningStateStatistics().runningCount == 2, "C14", "getBlock throws and keeps its block" );
}
template< bool NT, int W > struct Tiny { static inline long live = 0, made = 0, boom = -1; enum { quiet = NT }; Tiny() noexcept( NT ) { if ( !NT && made == boom ) throw Boom{}; ++live; ++made; } ~Tiny() { --live; } };
template< bool NT > struct Tiny< NT, 3 > { char x[ 3 ]; static inline long live = 0, made = 0, boom = -1; enum { quiet = NT }; Tiny() noexcept( NT ) { if ( !NT && made == boom ) throw Boom{}; ++live; ++made; } ~Tiny() { --live; } };
enum class Colour : unsigned short { RED };
template< class T > static void scalars()
{
    size_t K = 1 + rnd( 9 );
    BlockPool< T > p{ 1 + rnd( 6 ), K };
    using P = typename BlockPool< T >::BlockPtrType;
    std::vector< P > v;
    for ( int j = 0; j < 60; ++j )
    {
        if ( rnd( 3 ) )
        {
            bool free = v.size() < p.getSize(), threw = false;
            P b;
            try { b = p.getBlock(); } catch ( const RingBufferUnderflow & ) { threw = true; }
            check( threw == !free, "C11 C14", "getBlock fails although a block is free, or the other way round" );
            if ( threw ) continue;
            for ( size_t i = 0; i < K; ++i ) check( b[ i ] == T{}, "C14 C10", "the elements of a fresh block of scalars are not zero" );
            check( b.get_deleter().getNumElements() == K, "C14", "the deleter reports another number of elements" );
            memset( (void *)b.get(), 0xEE, K * sizeof( T ) );
            v.push_back( std::move( b ) );
        }
        else if ( !v.empty() ) v.erase( v.begin() + rnd( v.size() ) );
        auto s = p.getRunningStateStatistics();
        check( s.runningCount == s.size - v.size(), "C14", "a block does not go back to its pool" );
    }
    v.clear();
    P none;
    check( none.get_deleter().getNumElements() == 0, "C14", "a deleter without a pool reports elements" );
}
int main( int, char ** v )
{
    vs::prop = v[ 1 ];
    vs::budget = 60;
    if ( strstr( "C13 C10 C11", vs::prop ) ) { vs::scenario( "objects", 3000, objects ); vs::scenario( "objects of one type", 2000, sameType ); }
    if ( strstr( "C14 C10 C11", vs::prop ) )
    {
        vs::scenario( "elements that may throw", 2000, [] { blocks< false, 1 >(); blocks< false, 20 >(); } );
        vs::scenario( "elements that do not throw", 2000, [] { blocks< true, 1 >(); blocks< true, 20 >(); } );
        for ( size_t k : { 1, 2, 3, 255, 256, 257, 65535, 65536, 70000 } )
            vs::scenario( "many elements", 1, [k] { count< Tiny< true, 0 > >( k ); count< Tiny< false, 0 > >( k ); count< Tiny< true, 3 > >( k ); count< Tiny< false, 3 > >( k ); } );
        vs::scenario( "numbers", 2000, [] { scalars< char >(); scalars< int >(); scalars< double >(); scalars< void * >(); scalars< Colour >(); scalars< std::nullptr_t >(); } );
    }
    printf( "ok\n" );
}
