#include "ops_impl.hpp"
namespace sim { void run_op_u32(const Op& op, TextStore& t, Outcome& o) { OpsOn<utf32ne_string, false, false>::guarded(op, t.s32, t, o); } }
