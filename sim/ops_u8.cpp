#include "ops_impl.hpp"
namespace sim { void run_op_u8(const Op& op, TextStore& t, Outcome& o) { OpsOn<utf8_string, true, false>::guarded(op, t.s8, t, o); } }
