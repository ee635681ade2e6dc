#include "common.hpp"
#include "RingBufferGuarded.hpp"
using namespace ReiserRT::Core;
extern "C" {
unsigned long v_prime( unsigned long i );     // the priming functor; may throw
void v_flush( unsigned long v );              // the flushing functor; may throw
}
template< typename T > static T vfrom( unsigned long v ) { return (T)v; }
template< typename T > static unsigned long vto( T v ) { return (unsigned long)v; }
template<> double vfrom< double >( unsigned long v ) { double d; __builtin_memcpy( &d, &v, sizeof d ); return d; }
template<> unsigned long vto< double >( double d ) { unsigned long v; __builtin_memcpy( &v, &d, sizeof d ); return v; }
#define RBG( N, T, E ) \
  extern "C" RingBufferGuarded< T > * h_rbg_new_##N( size_t n, bool p ) { return new RingBufferGuarded< T >{ n, p }; } \
  extern "C" RingBufferGuarded< T > * h_rbg_newd_##N( size_t n ) { return new RingBufferGuarded< T >{ n }; } \
  extern "C" void h_rbg_delete_##N( RingBufferGuarded< T > * p ) { delete p; } \
  extern "C" bool h_rbg_put_##N( RingBufferGuarded< T > & r, T v ) { return r.put( v ); } \
  extern "C" T h_rbg_get_##N( RingBufferGuarded< T > & r ) { return r.get(); } \
  extern "C" void h_rbg_abort_##N( RingBufferGuarded< T > & r ) { r.abort(); } \
  extern "C" void h_rbg_prime_##N( RingBufferGuarded< T > & r ) \
  { RingBufferGuarded< T >::PrimingFunctionType f{ []( size_t i ) { return vfrom< E >( v_prime( i ) ); } }; r.prime( f ); } \
  extern "C" void h_rbg_flush_##N( RingBufferGuarded< T > & r ) \
  { RingBufferGuarded< T >::FlushingFunctionType f{ []( E v ) { v_flush( vto( v ) ); } }; r.flush( f ); }
RBG( u8, unsigned char, unsigned char )
RBG( f64, double, double )
RBG( i32, int, int )
RBG( u64, unsigned long, unsigned long )
RBG( vp, void *, void * )
RBG( ip, int *, void * )
RBG( cip, const int *, void * )
extern "C" size_t h_rbg_size_u64( RingBufferGuarded< unsigned long > & r ) { return r.getSize(); }
extern "C" size_t h_rbg_mask_u64( RingBufferGuarded< unsigned long > & r ) { return r.getMask(); }
extern "C" size_t h_rbg_bits_u64( RingBufferGuarded< unsigned long > & r ) { return r.getNumBits(); }
