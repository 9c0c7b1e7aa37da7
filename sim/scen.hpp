#ifndef U5ESIM_SCEN
#define U5ESIM_SCEN
#include "plan.hpp"
namespace sim {
void exec_C01(const Plan&); void exec_C02(const Plan&); void exec_C03(const Plan&); void exec_C04(const Plan&); void exec_C05(const Plan&);
void exec_C06(const Plan&); void exec_C07(const Plan&); void exec_C08(const Plan&); void exec_C09(const Plan&); void exec_C10(const Plan&);
void exec_C11(const Plan&); void exec_C12(const Plan&); void exec_C13(const Plan&); void exec_C14(const Plan&); void exec_C05S(const Plan&); void exec_C11_threads(const Plan&); void exec_C15(const Plan&); void exec_C18(const Plan&); void exec_C16(const Plan&); void exec_C17(const Plan&);
std::string op_desc(const Op&);
}
#endif
