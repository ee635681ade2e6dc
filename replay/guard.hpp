// heap blocks with guard zones: tells whether a memory range lies inside one live allocation
#pragma once
#include "sched.hpp"
#include <cstdlib>
#include <new>
namespace guard {
struct A { unsigned char * p; size_t n; };
static A tab[ 4096 ];
static int used;
static const size_t Z = 128;
VS_RAW static void * get( size_t n )
{
    unsigned char * q = (unsigned char *)malloc( n + 2 * Z );
    if ( !q ) abort();
    for ( size_t i = 0; i < Z; ++i ) q[ i ] = q[ Z + n + i ] = 0xA5;
    for ( size_t i = 0; i < n; ++i ) q[ Z + i ] = 0xC7;
    for ( int i = 0; i < 4096; ++i ) if ( !tab[ i ].p ) { tab[ i ] = A{ q + Z, n }; if ( i >= used ) used = i + 1; break; }
    return q + Z;
}
VS_RAW static void put( void * v )
{
    if ( !v ) return;
    unsigned char * p = (unsigned char *)v;
    for ( int i = 0; i < used; ++i ) if ( tab[ i ].p == p )
    {
        for ( size_t k = 0; k < Z; ++k ) if ( p[ k - Z ] != 0xA5 || p[ tab[ i ].n + k ] != 0xA5 ) vs::fail( "C10", "memory outside the arena was overwritten" );
        tab[ i ].p = nullptr;
        free( p - Z );
        return;
    }
    if ( used == 4096 ) return;     // not recorded; leaks
    vs::fail( "C10 C11 C16 C07", "memory is freed twice, or was never allocated" );
}
// true unless [p, p+n) leaves the allocation it begins in or next to
VS_RAW static bool inside( const void * v, size_t n )
{
    const unsigned char * p = (const unsigned char *)v;
    for ( int i = 0; i < used; ++i ) if ( tab[ i ].p && p >= tab[ i ].p - Z && p < tab[ i ].p + tab[ i ].n + Z )
        if ( p >= tab[ i ].p && p + n <= tab[ i ].p + tab[ i ].n ) return true;
    for ( int i = 0; i < used; ++i ) if ( tab[ i ].p && p >= tab[ i ].p - Z && p < tab[ i ].p + tab[ i ].n + Z ) return false;
    return true;
}
}
void * operator new( size_t n ) { return guard::get( n ); }
void * operator new[]( size_t n ) { return guard::get( n ); }
void operator delete( void * p ) noexcept { guard::put( p ); }
void operator delete[]( void * p ) noexcept { guard::put( p ); }
void operator delete( void * p, size_t ) noexcept { guard::put( p ); }
void operator delete[]( void * p, size_t ) noexcept { guard::put( p ); }

// objects that are alive on blocks
struct Live
{
    struct E { unsigned char * p; size_t n; unsigned char fill; };
    E e[ 512 ];
    int n = 0;
    VS_RAW Live() {}
    // a new object of s bytes at v on a fresh block; fills [v+skip, v+s)
    VS_RAW void add( void * v, size_t s, size_t skip, bool zero, bool aligned = true )
    {
        unsigned char * p = (unsigned char *)v;
        if ( aligned && (size_t)p % sizeof( void * ) ) vs::fail( "C10", "a block is not aligned for pointers" );
        if ( !guard::inside( p, s ) ) vs::fail( "C10", "a live block reaches outside the memory of its pool or queue" );
        for ( int i = 0; i < n; ++i ) if ( p < e[ i ].p + e[ i ].n && e[ i ].p < p + s ) vs::fail( "C10 C11", "two live blocks overlap" );
        if ( zero ) for ( size_t i = skip; i < s; ++i ) if ( p[ i ] ) { vs::fail( "C10", "a fresh block is not zero-filled" ); break; }
        unsigned char f = (unsigned char)( 1 + vs::rnd( 250 ) );
        for ( size_t i = skip; i < s; ++i ) p[ i ] = f;
        if ( n < 512 ) e[ n++ ] = E{ p + skip, s - skip, f };
    }
    VS_RAW void intact() { for ( int i = 0; i < n; ++i ) for ( size_t k = 0; k < e[ i ].n; ++k ) if ( e[ i ].p[ k ] != e[ i ].fill ) { vs::fail( "C10", "the bytes of a live block changed" ); return; } }
    VS_RAW bool remove( void * v, size_t skip )
    {
        unsigned char * p = (unsigned char *)v + skip;
        intact();
        for ( int i = 0; i < n; ++i ) if ( e[ i ].p == p ) { e[ i ] = e[ --n ]; return true; }
        return false;
    }
};
