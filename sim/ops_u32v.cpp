#include "ops_impl.hpp"
namespace sim { void run_op_u32v(const Op& op, TextStore& t, Outcome& o) { OpsOn<utf32ne_string_view, false, true>::guarded(op, t.v32, t, o); } }
