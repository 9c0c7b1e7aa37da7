#include "ops_impl.hpp"
namespace sim { void run_op_sim(const Op& op, TextStore& t, Outcome& o) { OpsOn<sim_string, true, false>::guarded(op, t.sim, t, o); } }
