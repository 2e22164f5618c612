namespace std {
logic_error::logic_error(const char *) : _M_msg() {}
logic_error::logic_error(const string &) : _M_msg() {}
logic_error::logic_error(const logic_error &) noexcept : _M_msg() {}
logic_error &logic_error::operator=(const logic_error &) noexcept { return *this; }
logic_error::~logic_error() noexcept {}
const char *logic_error::what() const noexcept { return "logic_error"; }
runtime_error::runtime_error(const char *) : _M_msg() {}
runtime_error::runtime_error(const string &) : _M_msg() {}
runtime_error::runtime_error(const runtime_error &) noexcept : _M_msg() {}
runtime_error &runtime_error::operator=(const runtime_error &) noexcept { return *this; }
runtime_error::~runtime_error() noexcept {}
const char *runtime_error::what() const noexcept { return "runtime_error"; }
#define D(N, B) N::N(const char *s) : B(s) {} N::N(const string &s) : B(s) {} N::~N() noexcept {}
D(domain_error, logic_error) D(invalid_argument, logic_error) D(length_error, logic_error) D(out_of_range, logic_error)
D(range_error, runtime_error) D(overflow_error, runtime_error) D(underflow_error, runtime_error)
}
