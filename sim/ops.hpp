// The library operations the multi-call scenarios are made of.
#ifndef U5ESIM_OPS
#define U5ESIM_OPS
#include "seam.hpp"
#include <u5e/utf8_string.hpp>
#include <u5e/utf8_string_view.hpp>
#include <u5e/utf32ne_string.hpp>
#include <u5e/utf32ne_string_view.hpp>
#include <vector>

namespace sim {
typedef u5e::basic_encodedstring<u5e::utf8, SimText> sim_string;
typedef u5e::basic_encodedstring<u5e::utf8, SimFile> file_string;
typedef u5e::basic_encodedstring<u5e::utf32ne, SimFile32> file32_string;

// one text in every storage, at a fixed place in simulated memory
struct TextStore {
  int id; size_t cap8, n8, cap32, n32;
  u5e::utf8_string s8; u5e::utf32ne_string s32; u5e::utf8_string_view v8; u5e::utf32ne_string_view v32; sim_string sim;
  char* b8; int* b32; char* bs;
  u64 hash() const;
};
TextStore* new_text(int id, const std::vector<int>& cps, size_t cap_cps);
void rewrite_text(TextStore*, const std::vector<int>& cps);   // in place: same memory, other text
void new_text_octets(TextStore*, const std::string&);

void run_op(const Op&, TextStore&, Outcome&);                 // faults: t_hooks and alloc_fault(); never throws
int  op_failed(const Outcome&);                               // how it ended: 0 result, else the marker put last
enum { END_ALLOC = -1001, END_SEAM = -1002, END_OTHER = -1003 };
void run_op_u8(const Op&, TextStore&, Outcome&); void run_op_u8v(const Op&, TextStore&, Outcome&); void run_op_u32(const Op&, TextStore&, Outcome&);
void run_op_u32v(const Op&, TextStore&, Outcome&); void run_op_sim(const Op&, TextStore&, Outcome&);
}
#endif
