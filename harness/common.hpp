// Harness support: opaque events.  v_* functions have no body; the verifier gives them meaning.
#pragma once
#include <cstddef>
#include <cstdint>
#include <stdexcept>
// exception types that opaque user code may throw: one unrelated to std::exception, one derived from it
struct VUserExc { int code; };
struct VUserStdExc : std::runtime_error { VUserStdExc() : std::runtime_error( "user" ) {} };
extern "C" {
void v_op( long id );                       // a user functor
}
