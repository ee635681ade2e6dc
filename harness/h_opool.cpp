#include "common.hpp"
#include "ObjectPool.hpp"
#include "BlockPool.hpp"
#include <new>
using namespace ReiserRT::Core;
extern "C" {
void v_ctor( void * self, long kind, long arg );        // may throw
void v_dtor( void * self, long kind );
void v_fwd( void * self, const void * a, const void * b, const void * c, long which );
void v_ector( void * self, long kind );                 // may throw
void v_ector_n( void * self, long kind );
void v_edtor( void * self, long kind );
}
struct VPlain { long x; explicit VPlain( int a ) { v_ctor( this, 1, a ); } ~VPlain() { v_dtor( this, 1 ); } };
struct VBase { long y; explicit VBase( int a ) { v_ctor( this, 2, a ); } virtual ~VBase() { v_dtor( this, 2 ); } };
struct VDer : VBase { long z; explicit VDer( int a ) : VBase( a ) { v_ctor( this, 3, a ); } ~VDer() override { v_dtor( this, 3 ); } };
struct VOther { long w; VOther() {} virtual ~VOther() = default; };
struct VMulti : VOther, VBase { explicit VMulti( int a ) : VBase( a ) { v_ctor( this, 4, a ); } ~VMulti() override { v_dtor( this, 4 ); } };
struct VBig : VBase { long big[ 20 ]; explicit VBig( int a ) : VBase( a ) { v_ctor( this, 5, a ); } ~VBig() override { v_dtor( this, 5 ); } };
struct VFwd
{
    VFwd( int & a, int && b, const int & c ) { v_fwd( this, &a, &b, &c, 1 ); }
    VFwd( const int & a, const int & b, const int & c ) { v_fwd( this, &a, &b, &c, 2 ); }
    ~VFwd() { v_dtor( this, 6 ); }
};
#define OPOOL( N, T ) \
  extern "C" ObjectPool< T > * h_op_new_##N( size_t n, size_t m ) { return new ObjectPool< T >{ n, m }; } \
  extern "C" ObjectPool< T > * h_op_newd_##N( size_t n ) { return new ObjectPool< T >{ n }; } \
  extern "C" void * h_op_ptr_##N( ) { return new ObjectPoolPtrType< T >{}; } \
  extern "C" void h_op_destroy_##N( ObjectPoolPtrType< T > * p ) { delete p; } \
  extern "C" void h_op_reset_##N( ObjectPoolPtrType< T > * p ) { p->reset(); } \
  extern "C" void h_op_null_##N( ObjectPoolPtrType< T > * p ) { *p = nullptr; } \
  extern "C" void * h_op_move_##N( ObjectPoolPtrType< T > * p ) { return new ObjectPoolPtrType< T >{ std::move( *p ) }; } \
  extern "C" void h_op_assign_##N( ObjectPoolPtrType< T > * p, ObjectPoolPtrType< T > * q ) { *p = std::move( *q ); } \
  extern "C" void * h_op_addr_##N( ObjectPoolPtrType< T > * p ) { return p->get(); }
#define OMAKE( N, T, D ) \
  extern "C" void * h_op_make_##N##_##D( ObjectPool< T > & p, int a ) { return new ObjectPoolPtrType< T >{ p.createObj< D >( a ) }; }
OPOOL( plain, VPlain )
OMAKE( plain, VPlain, VPlain )
OPOOL( base, VBase )
OMAKE( base, VBase, VBase )
OMAKE( base, VBase, VDer )
OMAKE( base, VBase, VMulti )
OMAKE( base, VBase, VBig )
OPOOL( fwd, VFwd )
extern "C" void * h_op_make_fwd( ObjectPool< VFwd > & p, int * a, int * b, const int * c )
{ return new ObjectPoolPtrType< VFwd >{ p.createObj< VFwd >( *a, std::move( *b ), *c ) }; }

struct VTrivial { int a; short b; };
enum class VEnum : short { a = 1, b };
using VMemPtr = int VTrivial::*;
struct VNt { long a; VNt() noexcept { v_ector_n( this, 1 ); } ~VNt() { v_edtor( this, 1 ); } };
struct VThr { long a, b; VThr() { v_ector( this, 2 ); } ~VThr() { v_edtor( this, 2 ); } };
struct VThr4 { int a; VThr4() { v_ector( this, 3 ); } ~VThr4() { v_edtor( this, 3 ); } };
struct VNtTrivD { long a; VNtTrivD() noexcept { v_ector_n( this, 4 ); } };
struct VEmpty { VEmpty() { v_ector( this, 5 ); } ~VEmpty() { v_edtor( this, 5 ); } };                    // no data members
struct V24 { long a, b, c; V24() { v_ector( this, 6 ); } ~V24() { v_edtor( this, 6 ); } };               // size is no power of two
struct VThrTrivD { short a; VThrTrivD() { v_ector( this, 7 ); } };
struct VNtEmpty { VNtEmpty() noexcept { v_ector_n( this, 8 ); } ~VNtEmpty() { v_edtor( this, 8 ); } };
#define BPOOL( N, T ) \
  extern "C" BlockPool< T > * h_bp_new_##N( size_t n, size_t m ) { return new BlockPool< T >{ n, m }; } \
  extern "C" void * h_bp_get_##N( BlockPool< T > & p ) { return new BlockPoolPtrType< T >{ p.getBlock() }; } \
  extern "C" void * h_bp_ptr_##N() { return new BlockPoolPtrType< T >{}; } \
  extern "C" void h_bp_destroy_##N( BlockPoolPtrType< T > * p ) { delete p; } \
  extern "C" void h_bp_reset_##N( BlockPoolPtrType< T > * p ) { p->reset(); } \
  extern "C" void * h_bp_move_##N( BlockPoolPtrType< T > * p ) { return new BlockPoolPtrType< T >{ std::move( *p ) }; } \
  extern "C" void h_bp_assign_##N( BlockPoolPtrType< T > * p, BlockPoolPtrType< T > * q ) { *p = std::move( *q ); } \
  extern "C" void * h_bp_addr_##N( BlockPoolPtrType< T > * p ) { return p->get(); } \
  extern "C" size_t h_bp_count_##N( BlockPoolPtrType< T > * p ) { return p->get_deleter().getNumElements(); }
BPOOL( u8, unsigned char )
BPOOL( i32, int )
BPOOL( dbl, double )
BPOOL( ptr, void * )
BPOOL( triv, VTrivial )
BPOOL( enm, VEnum )
BPOOL( mptr, VMemPtr )
BPOOL( nt, VNt )
BPOOL( thr, VThr )
BPOOL( thr4, VThr4 )
BPOOL( ntd, VNtTrivD )
BPOOL( emp, VEmpty )
BPOOL( ntemp, VNtEmpty )
BPOOL( s24, V24 )
BPOOL( ttd, VThrTrivD )
