/* Declarations of the fast_float interface that libdcp uses; for analysis only */
#ifndef VERIF_STUB_FAST_FLOAT_H
#define VERIF_STUB_FAST_FLOAT_H
#include <system_error>
namespace fast_float {
struct from_chars_result { const char* ptr; std::errc ec; };
template <typename T> from_chars_result from_chars(const char* first, const char* last, T& value) noexcept;
}
#endif
