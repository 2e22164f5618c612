// libstdc++ runtime pieces the code under test calls, for the symbolic build.
#include <stdexcept>
#include <new>
// standard exceptions (message text is not modelled)
namespace std {
exception::~exception() noexcept {}
const char *exception::what() const noexcept { return "std::exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char *bad_alloc::what() const noexcept { return "bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char *bad_array_new_length::what() const noexcept { return "bad_array_new_length"; }
}
#include "rt_exc.inc"
void std::__throw_length_error(const char *s) { throw std::length_error(s); }
void std::__throw_logic_error(const char *s) { throw std::logic_error(s); }
void std::__throw_out_of_range(const char *s) { throw std::out_of_range(s); }
void std::__throw_out_of_range_fmt(const char *s, ...) { throw std::out_of_range(s); }
void std::__throw_invalid_argument(const char *s) { throw std::invalid_argument(s); }
void std::__throw_bad_alloc() { throw std::bad_alloc(); }
void std::__throw_bad_array_new_length() { throw std::bad_array_new_length(); }
template class std::basic_string<char>;
