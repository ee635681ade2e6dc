// Small functions over the constructs that the library's compiled code is made of. Each is run natively and by the verifier.
#include <atomic>
#include <cstdint>
#include <cstring>
#include <functional>
#include <memory>
#include <new>
#include <stdexcept>
#include <algorithm>
#include <limits>
using u64 = std::uint64_t;
using i64 = std::int64_t;
using u32 = std::uint32_t;
#define T( N ) extern "C" u64 t_##N( u64 a, u64 b )
// ---- arithmetic of all widths
T( add32 ) { return u32( a ) + u32( b ); }
T( sub16 ) { return std::uint16_t( a - b ); }
T( mul64 ) { return a * b; }
T( mul32 ) { return u32( a ) * u32( b ); }
T( udiv ) { return b ? a / b : 7; }
T( urem ) { return b ? a % b : 7; }
T( sdiv ) { auto x = std::int32_t( a ); auto y = std::int8_t( b ); return y > 0 ? u64( i64( x / y ) ) : 3; }
T( srem ) { auto x = std::int32_t( a ); auto y = std::int8_t( b ); return y > 0 ? u64( i64( x % y ) ) : 3; }
T( shl ) { return a << ( b & 63 ); }
T( lshr ) { return a >> ( b & 63 ); }
T( ashr ) { return u64( i64( a ) >> ( b & 63 ) ); }
T( shl32 ) { return u32( a ) << ( b & 31 ); }
T( ashr8 ) { return u64( i64( std::int8_t( a ) >> ( b & 7 ) ) ); }
T( logic ) { return ( a & ~b ) | ( a ^ ( b << 3 ) ); }
T( sext ) { return u64( i64( std::int8_t( a ) ) + std::int16_t( b ) ); }
T( cmp ) { return ( a < b ) | ( ( i64( a ) < i64( b ) ) << 1 ) | ( ( a <= b ) << 2 ) | ( ( i64( a ) >= i64( b ) ) << 3 ) | ( ( u32( a ) > u32( b ) ) << 4 ) | ( ( a == b ) << 5 ); }
T( cmp8 ) { auto x = std::int8_t( a ), y = std::int8_t( b ); return ( x < y ) | ( ( x != y ) << 1 ) | ( ( std::uint8_t( a ) >= std::uint8_t( b ) ) << 2 ); }
T( sel ) { return a > b ? a - b : b > 100 ? b : a + 1; }
T( minmax ) { return std::min( a, b ) * 3 + std::max( u32( a ), u32( b ) ); }
T( lim ) { return a >= std::numeric_limits< u32 >::max() ? 1 : a + 1 == 0; }
T( round ) { return ( a + ( sizeof( void * ) - 1 ) ) & ~( sizeof( void * ) - 1 ); }
T( neg ) { return u64( -i64( a ) ) ^ u64( !b ); }
T( clz ) { return ( a ? __builtin_clzll( a ) : 64 ) + ( b ? __builtin_ctzll( b ) : 64 ) * 100 + __builtin_popcountll( a ) * 10000; }
T( boolean ) { bool x = a & 1, y = b & 1; bool z = x != y; return z + 2 * ( x && !y ) + 4 * ( x || y ); }
// ---- control flow
T( swit ) { switch ( a & 7 ) { case 0: return b; case 1: return b + 1; case 3: b *= 2; [[fallthrough]]; case 4: return b + 9; case 7: return 0; default: return a; } }
T( nest ) { u64 r = 0; if ( a & 1 ) { if ( b & 1 ) r = 1; else r = 2; if ( a & 2 ) r += 4; } else if ( b & 4 ) r = 8; return r; }
T( gotos ) { int k = 0; again: if ( ++k < 3 && ( a >> k & 1 ) ) goto again; return u64( k ) + b; }
static u64 rec( u64 n ) { return n == 0 ? 1 : n * rec( n - 1 ); }
T( recursion ) { return rec( a & 3 ) + b; }
T( shortloop ) { u64 r = b; for ( int i = 0; i < 5; ++i ) r = r * 3 + ( a >> i & 1 ); return r; }
// ---- memory
struct S { char c; short s; int i; u64 l; unsigned f1 : 3, f2 : 13, f3 : 16; };
T( fields ) { S s{}; s.c = char( a ); s.s = short( b ); s.i = int( a >> 8 ); s.l = b; s.f1 = a; s.f2 = b; s.f3 = a + b; S t = s; t.f2 += 1; return u64( t.c ) + u64( t.s ) * 3 + u64( t.i ) * 5 + t.l * 7 + t.f1 * 11 + t.f2 * 13 + t.f3 * 17; }
union C { u64 state; struct { u32 run, low; } counts; };
T( uni ) { C c{ a }; if ( --c.counts.run < c.counts.low ) c.counts.low = c.counts.run; c.counts.run += u32( b ); return c.state; }
T( bytes ) { unsigned char x[ 8 ]; std::memcpy( x, &a, 8 ); x[ b & 7 ] = 0x5a; u64 r; std::memcpy( &r, x, 8 ); return r; }
T( setmem ) { unsigned char x[ 16 ]; std::memset( x, int( a ), 16 ); u32 r; std::memcpy( &r, x + 5, 4 ); return r + b; }
T( arr ) { u64 x[ 4 ] = { a, b, a + b, 9 }; u64 * p = x + ( b & 3 ); return *p + x[ a & 3 ]; }
T( heap ) { auto * p = new u64[ 3 ]{ a, b, 1 }; std::swap( p[ 0 ], p[ 2 ] ); u64 r = p[ 0 ] * 3 + p[ 1 ] * 5 + p[ 2 ]; delete [] p; return r; }
T( ptrdiff ) { char x[ 64 ]; char * p = x + ( a & 63 ), * q = x + ( b & 63 ); return u64( p - q ) + ( p < q ) + 2 * ( p == q ); }
T( placement ) { alignas( 8 ) char buf[ 16 ] = {}; u64 * p = new ( buf + 8 ) u64{ a }; *p += b; return *reinterpret_cast< u64 * >( buf + 8 ) + u64( buf[ 0 ] ); }
// ---- classes
struct Cnt { static int live; u64 v; explicit Cnt( u64 x ) : v{ x } { ++live; } Cnt( const Cnt & o ) : v{ o.v + 1 } { ++live; } Cnt( Cnt && o ) noexcept : v{ o.v } { o.v = 0; ++live; } ~Cnt() { --live; } };
int Cnt::live = 0;
T( objects ) { Cnt::live = 0; u64 r; { Cnt x{ a }; Cnt y{ x }; Cnt z{ std::move( x ) }; r = x.v + y.v * 3 + z.v * 5 + u64( Cnt::live ) * 7; } return r + b + u64( Cnt::live ); }
struct A { virtual ~A() = default; virtual u64 f( u64 x ) { return x + 1; } u64 d{ 3 }; };
struct B { virtual ~B() = default; virtual u64 g( u64 x ) { return x * 2; } u64 e{ 4 }; };
struct D : A, B { u64 f( u64 x ) override { return x + d + 10; } u64 g( u64 x ) override { return x * 3 + e; } };
struct V : virtual A { u64 f( u64 x ) override { return x ^ d; } };
T( virt ) { D d; A * p = ( a & 1 ) ? static_cast< A * >( &d ) : new A; B * q = &d; u64 r = p->f( a ) * 7 + q->g( b ); if ( !( a & 1 ) ) delete p; return r; }
T( vbase ) { V v; A * p = &v; return p->f( a ) + b; }
T( dyn ) { D d; B * q = &d; void * w = dynamic_cast< void * >( q ); A * p = &d; return ( w == &d ) + 2 * ( dynamic_cast< void * >( p ) == w ) + 4 * ( static_cast< void * >( q ) == w ) + a + b; }
T( fptr ) { u64 ( *f )( u64, u64 ) = ( a & 1 ) ? t_mul64 : t_logic; return f( a, b ); }
T( lambda ) { u64 k = b; auto f = [ &k, a ]( u64 x ) { k += x; return k * a; }; return f( 3 ) + f( 4 ) + k; }
T( function ) { u64 k = b; std::function< u64( u64 ) > f = [ &k, a ]( u64 x ) { return k += x + a; }; auto g = f; return g( 1 ) + f( 2 ) + k; }
T( emptyfn ) { std::function< void() > f; if ( a & 1 ) f = [ &b ] { ++b; }; try { f(); } catch ( const std::bad_function_call & ) { return 77; } return b; }
T( unique ) { Cnt::live = 0; u64 r; { auto p = std::make_unique< Cnt >( a ); std::unique_ptr< Cnt > q; q = std::move( p ); r = q->v + ( p ? 1 : 0 ); if ( b & 1 ) q.reset(); r += u64( Cnt::live ) * 5; } return r + u64( Cnt::live ) * 9; }
// ---- exceptions
struct E1 : std::runtime_error { explicit E1( int x ) : std::runtime_error{ "E1" }, k{ x } {} int k; };
struct E2 {};
static void thrower( u64 a ) { switch ( a & 3 ) { case 0: throw E1{ int( a >> 2 & 255 ) }; case 1: throw E2{}; case 2: throw 5L; default: return; } }
T( exc ) { try { thrower( a ); return b; } catch ( const E1 & e ) { return u64( e.k ) + 100; } catch ( const std::exception & ) { return 1; } catch ( E2 & ) { return 2; } catch ( ... ) { return 3; } }
T( excbase ) { try { thrower( a ); } catch ( const std::runtime_error & ) { return b + 1; } catch ( ... ) { return b + 2; } return b; }
T( unwind ) { Cnt::live = 0; u64 r = 0; try { Cnt x{ b }; try { Cnt y{ a }; thrower( a ); r = 1; } catch ( E2 & ) { r = 10 + u64( Cnt::live ); throw; } } catch ( ... ) { r += 100; } return r + u64( Cnt::live ) * 1000; }
T( rethrow ) { std::exception_ptr p; try { thrower( a ); } catch ( ... ) { p = nullptr; return ( a & 3 ) + 4; } return b; }
struct Guard { u64 & r; u64 k; ~Guard() { r = r * 3 + k; } };
T( order ) { u64 r = b; try { Guard x{ r, 1 }; Guard y{ r, 2 }; thrower( a ); Guard z{ r, 4 }; } catch ( ... ) { r += 1000; } return r; }
T( newthrow ) { struct X { u64 v; explicit X( u64 q ) : v{ q } { if ( q & 1 ) throw E2{}; } }; u64 r; try { X * p = new X{ a }; r = p->v; delete p; } catch ( E2 & ) { r = b; } return r; }
// ---- atomics
T( atom ) { std::atomic< u64 > x{ a }; u64 o = x.fetch_add( b ); o ^= x.fetch_sub( 3 ) * 3; o += x.exchange( 9 ); x.store( o + 1, std::memory_order_release ); return x.load( std::memory_order_acquire ) + ( x |= b ) + ( x &= 255 ); }
T( cas ) { std::atomic< u32 > x{ u32( a & 1 ) }; u32 e = u32( b & 1 ); bool ok = x.compare_exchange_strong( e, 7 ); return x.load() + ok * 10u + e * 100u; }
T( atomset ) { std::atomic< bool > x{ false }; bool o = x.exchange( a & 1 ); std::atomic< u32 > y{ u32( b ) }; ++y; y--; y += 2; return o + 2 * x.load() + 4 * u64( y.load() ); }
// ---- loops: decided by the induction rule
T( lsum ) { u64 n = a & 0xffff, r = b; for ( u64 i = 0; i != n; ++i ) r += 3; return r; }
T( lcount ) { u64 n = a & 0xfff, k = 0; while ( n ) { --n; ++k; } return k * 2 + b; }
T( lcond ) { u64 n = a & 0xfff, k = 0; for ( u64 i = 0; i < n; ++i ) if ( i & 1 ) ++k; return k + b; }
T( lfind ) { u64 n = 1; while ( n < ( a & 0xfffff ) ) n <<= 1; return n + b; }
T( lbits ) { u64 k = 0, n = a & 0xfffff; while ( n >>= 1 ) ++k; return k + b; }
T( lbreak ) { u64 i = 0, n = a & 0xfff; for ( ; i < n; ++i ) if ( i == ( b & 0xfff ) ) break; return i; }
T( larr ) { u64 n = ( a & 15 ) + 1; auto * p = new u64[ n ]; for ( u64 i = 0; i != n; ++i ) p[ i ] = i * 5 + b; u64 r = p[ n - 1 ]; delete [] p; return r; }
T( lobj ) { Cnt::live = 0; u64 n = a & 7; for ( u64 i = 0; i != n; ++i ) { Cnt x{ i }; b += x.v; } return b + u64( Cnt::live ) * 100; }
T( lexc ) { u64 i = 0, n = a & 0xff; try { for ( ; i != n; ++i ) if ( i == ( b & 0xff ) ) throw E2{}; } catch ( E2 & ) { return i + 1000; } return i; }
T( lnest ) { u64 r = 0; for ( u64 i = 0; i < ( a & 7 ); ++i ) for ( u64 j = 0; j < ( b & 7 ); ++j ) r += 2; return r; }
T( ldo ) { u64 n = a & 0xff, k = 0; do { ++k; } while ( k < n ); return k + b; }
T( ldown ) { u64 r = b; for ( u64 i = a & 0xff; i-- > 0; ) r ^= 1; return r; }
T( lcas ) { std::atomic< u64 > x{ a }; u64 c = x.load(), n; do { n = c + b; } while ( !x.compare_exchange_weak( c, n ) ); return x.load(); }
T( ltwo ) { u64 x = b, y = 1; for ( u64 i = 0; i < ( a & 0xff ); ++i ) { x += 2; y += x; } return x ^ y; }
T( lswap ) { u64 x = a, y = b; for ( u64 i = 0; i < ( a & 0x3f ); ++i ) { u64 t = x; x = y; y = t; } return x * 2 + y; }
T( lfib ) { u64 x = 0, y = 1; for ( u64 i = 0; i < ( a & 0x3f ); ++i ) { u64 t = x + y; x = y; y = t; } return x + b; }
T( lwrap ) { std::uint8_t i = std::uint8_t( a ); u64 k = 0; while ( i != std::uint8_t( b ) ) { ++i; ++k; } return k; }
T( lstep3 ) { u64 k = 0; for ( u64 i = 0; i < ( a & 0xff ); i += 3 ) ++k; return k + b; }
T( lbreak2 ) { u64 k = 0; for ( u64 i = 0; i < ( a & 0xff ); ++i ) { if ( k > ( b & 0x1f ) ) break; k += 2; } return k; }
T( lcontinue ) { u64 k = 0; for ( u64 i = 0; i < ( a & 0xff ); ++i ) { if ( ( i & 3 ) == ( b & 3 ) ) continue; ++k; } return k; }
T( lpwalk ) { u64 n = ( a & 15 ) + 1; char * p = new char[ n ]; char * e = p + n; u64 k = 0; for ( char * q = p; q != e; ++q ) { *q = char( b ); ++k; } u64 r = u64( std::uint8_t( p[ n - 1 ] ) ) + k * 256; delete [] p; return r; }
T( lflag ) { bool seen = false; u64 n = a & 0xff; for ( u64 i = 0; i < n; ++i ) if ( i == ( b & 0xff ) ) seen = true; return seen ? n : n + 1000; }
T( lmax ) { u64 m = 0; for ( u64 i = 0; i < ( a & 0x1f ); ++i ) { u64 v = ( i * 7 ) & 15; if ( v > m ) m = v; } return m + b; }
T( lstruct ) { S s{}; for ( u64 i = 0; i < ( a & 0xff ); ++i ) { s.i += 3; s.l += b; if ( s.i > 30 ) s.s = 1; } return u64( s.i ) + s.l + u64( s.s ); }
T( lret ) { for ( u64 i = 0; i < ( a & 0xff ); ++i ) if ( i * 3 > ( b & 0x7f ) ) return i; return 999; }
T( lcasfail ) { std::atomic< u64 > x{ a & 7 }; u64 c = 0, k = 0; while ( !x.compare_exchange_strong( c, b ) ) ++k; return x.load() + ( k ? 1 : 0 ) * 1000 + ( c << 4 ); }
T( lthrow ) { Cnt::live = 0; u64 i = 0; try { for ( ; ; ++i ) { Cnt c{ i }; if ( i == ( a & 0x3f ) ) throw E2{}; } } catch ( E2 & ) { return i + u64( Cnt::live ) * 1000 + b; } }
T( ltry ) { u64 k = 0; for ( u64 i = 0; i < ( a & 0x1f ); ++i ) { try { if ( i & 1 ) throw E2{}; ++k; } catch ( E2 & ) { k += 10; } } return k + b; }
T( lfn ) { u64 k = 0; std::function< void( u64 ) > f = [ &k ]( u64 i ) { k += i; }; for ( u64 i = 0; i < ( a & 0x1f ); ++i ) f( 2 ); return k + b; }
T( lnest2 ) { u64 r = 0; for ( u64 i = 0; i < ( a & 7 ); ++i ) { for ( u64 j = i; j < 8; ++j ) ++r; } return r + b; }
T( lrev ) { u64 n = ( a & 7 ) + 2; auto * p = new u64[ n ]; for ( u64 i = 0; i != n; ++i ) p[ i ] = i; for ( u64 i = 0, j = n - 1; i < j; ++i, --j ) { u64 t = p[ i ]; p[ i ] = p[ j ]; p[ j ] = t; } u64 r = p[ 0 ] * 10 + p[ n - 1 ] + b; delete [] p; return r; }
