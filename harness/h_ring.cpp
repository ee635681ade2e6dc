#include "common.hpp"
#include "RingBufferSimple.hpp"
using namespace ReiserRT::Core;
enum class VColour : unsigned short { red, green };
struct VRec { int a; int b; };
#define RING( N, T ) \
  extern "C" RingBufferSimple< T > * h_rs_new_##N( size_t n ) { return new RingBufferSimple< T >{ n }; } \
  extern "C" void h_rs_delete_##N( RingBufferSimple< T > * p ) { delete p; } \
  extern "C" void h_rs_put_##N( RingBufferSimple< T > & r, T v ) { r.put( v ); } \
  extern "C" T h_rs_get_##N( RingBufferSimple< T > & r ) { return r.get(); } \
  extern "C" size_t h_rs_size_##N( RingBufferSimple< T > & r ) { return r.getSize(); } \
  extern "C" size_t h_rs_mask_##N( RingBufferSimple< T > & r ) { return r.getMask(); } \
  extern "C" size_t h_rs_bits_##N( RingBufferSimple< T > & r ) { return r.getNumBits(); }
typedef int VRec::* VMemPtr;
RING( bool, bool )
RING( u8, unsigned char )
RING( u16, unsigned short )
RING( i32, int )
RING( u64, unsigned long )
RING( flt, float )
RING( dbl, double )
RING( enm, VColour )
RING( mem, VMemPtr )
RING( vp, void * )
RING( ip, int * )
RING( cip, const int * )
RING( rec, VRec * )
RING( pp, int ** )
