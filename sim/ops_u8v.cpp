#include "ops_impl.hpp"
namespace sim { void run_op_u8v(const Op& op, TextStore& t, Outcome& o) { OpsOn<utf8_string_view, true, true>::guarded(op, t.v8, t, o); } }
