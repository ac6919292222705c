// Bitcode models of the parts of libstdc++ / libsupc++ that have no source here.
// Compiled with -fno-access-control and linked into every symbolic module.
#include <iomanip>
#include <unordered_map>
#include <system_error>
#include <memory>
#include <functional>
#include <exception>
#include <stdexcept>
#include <new>
#include <typeinfo>
#include <string>
#include <map>
#include <list>
#include <locale>
#include <sstream>
#include <iostream>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <cerrno>
#include <cctype>
#include "sym.h"

// ---------------------------------------------------------------- exceptions
extern "C" {
struct rt_exc {             // 64 bytes, placed in front of the exception object
  void* ti; void (*dtor)(void*); void* adjusted; long handlers; rt_exc* next; long rethrown; long pad[2];
};
void __eng_raise(void* obj) __attribute__((noreturn));
void* pthread_getspecific(unsigned);
int pthread_setspecific(unsigned, const void*);
#define RT_EXC_KEY 1000000u   // per-thread slot: stack of caught exceptions

void* __cxa_allocate_exception(size_t n) noexcept {
  rt_exc* h = (rt_exc*)calloc(1, sizeof(rt_exc) + n);
  return h + 1;
}
void __cxa_free_exception(void* o) noexcept { free((rt_exc*)o - 1); }
void __cxa_throw(void* o, void* ti, void (*dtor)(void*)) {
  rt_exc* h = (rt_exc*)o - 1;
  h->ti = ti; h->dtor = dtor; h->adjusted = o; h->handlers = 0; h->next = 0;
  __eng_raise(o);
}
void* __cxa_begin_catch(void* o) noexcept {
  rt_exc* h = (rt_exc*)o - 1;
  rt_exc* top = (rt_exc*)pthread_getspecific(RT_EXC_KEY);
  h->handlers = h->handlers < 0 ? -h->handlers + 1 : h->handlers + 1;
  if (top != h) { h->next = top; pthread_setspecific(RT_EXC_KEY, h); }
  return h->adjusted;
}
void* __cxa_get_exception_ptr(void* o) noexcept { return ((rt_exc*)o - 1)->adjusted; }
void __cxa_end_catch() {
  rt_exc* h = (rt_exc*)pthread_getspecific(RT_EXC_KEY);
  if (!h) return;
  if (h->handlers < 0) {            // being rethrown
    if (++h->handlers == 0) pthread_setspecific(RT_EXC_KEY, h->next);
    return;
  }
  if (--h->handlers == 0) {
    pthread_setspecific(RT_EXC_KEY, h->next);
    if (h->dtor) h->dtor(h + 1);
    free(h);
  }
}
void __cxa_rethrow() {
  rt_exc* h = (rt_exc*)pthread_getspecific(RT_EXC_KEY);
  if (!h) std::terminate();
  h->handlers = -h->handlers;
  h->adjusted = h + 1;
  __eng_raise(h + 1);
}
void __cxa_call_unexpected(void*) { std::terminate(); }
void __cxa_bad_cast() { throw std::bad_cast(); }
void __cxa_bad_typeid() { throw std::bad_typeid(); }
void __cxa_throw_bad_array_new_length() { throw std::bad_array_new_length(); }
void __cxa_pure_virtual() { sym_fail("pure virtual function called"); }
void __rt_throw_bad_alloc() { throw std::bad_alloc(); }
// byte 0: initialised, byte 1: being initialised, bytes 4-7: nobody has to wait any more
int __cxa_guard_acquire(char* g) {
  for (;;) {
    if (__atomic_load_n(g, __ATOMIC_ACQUIRE)) return 0;
    World w;
    if (!g[1]) { g[1] = 1; return 1; }
    sym_wait((volatile int*)(g + 4));
  }
}
static void guard_leave(char* g) { World w; g[1] = 0; *(volatile int*)(g + 4) = 1; }
void __cxa_guard_release(char* g) { __atomic_store_n(g, 1, __ATOMIC_RELEASE); guard_leave(g); }
void __cxa_guard_abort(char* g) { guard_leave(g); }
struct rt_eh_globals { void* caught; unsigned uncaught; };
void* __cxa_get_globals() { static rt_eh_globals g; return &g; }
}
namespace std {
bool uncaught_exception() noexcept { return false; }
int uncaught_exceptions() noexcept { return 0; }

exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
type_info::~type_info() {}
bool type_info::__is_pointer_p() const { return false; }
bool type_info::__is_function_p() const { return false; }

static char* rt_dup(const char* s, size_t n) { char* p = (char*)malloc(n + 1); memcpy(p, s, n); p[n] = 0; return p; }
__cow_string::__cow_string() : _M_p(rt_dup("", 0)) {}
__cow_string::__cow_string(const std::string& s) : _M_p(rt_dup(s.data(), s.size())) {}
__cow_string::__cow_string(const char* s, size_t n) : _M_p(rt_dup(s, n)) {}
__cow_string::__cow_string(const __cow_string& o) noexcept : _M_p(rt_dup(o._M_p, strlen(o._M_p))) {}
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { if (this != &o) { free((void*)_M_p); _M_p = rt_dup(o._M_p, strlen(o._M_p)); } return *this; }
__cow_string::~__cow_string() { free((void*)_M_p); }
__cow_string::__cow_string(__cow_string&& o) noexcept : _M_p(o._M_p) { o._M_p = rt_dup("", 0); }
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { std::swap(_M_p, o._M_p); return *this; }

logic_error::logic_error(const string& s) : _M_msg(s) {}
logic_error::logic_error(const char* s) : _M_msg(s, strlen(s)) {}
logic_error::logic_error(const logic_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error& logic_error::operator=(const logic_error& o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::~logic_error() noexcept {}
const char* logic_error::what() const noexcept { return _M_msg._M_p; }
runtime_error::runtime_error(const string& s) : _M_msg(s) {}
runtime_error::runtime_error(const char* s) : _M_msg(s, strlen(s)) {}
runtime_error::runtime_error(const runtime_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error& runtime_error::operator=(const runtime_error& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::~runtime_error() noexcept {}
const char* runtime_error::what() const noexcept { return _M_msg._M_p; }
logic_error::logic_error(logic_error&& o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error& logic_error::operator=(logic_error&& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::runtime_error(runtime_error&& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error& runtime_error::operator=(runtime_error&& o) noexcept { _M_msg = o._M_msg; return *this; }
#define RT_DER(D, B) D::D(const string& s) : B(s) {} D::D(const char* s) : B(s) {} D::~D() noexcept {}
RT_DER(domain_error, logic_error) RT_DER(invalid_argument, logic_error) RT_DER(length_error, logic_error) RT_DER(out_of_range, logic_error)
RT_DER(range_error, runtime_error) RT_DER(overflow_error, runtime_error) RT_DER(underflow_error, runtime_error)

void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
void __throw_bad_function_call() { throw bad_function_call(); }
bad_weak_ptr::~bad_weak_ptr() noexcept {}
const char* bad_weak_ptr::what() const noexcept { return "bad_weak_ptr"; }
void __throw_domain_error(const char* s) { throw domain_error(s); }
void __throw_range_error(const char* s) { throw range_error(s); }
void __throw_overflow_error(const char* s) { throw overflow_error(s); }
void __throw_underflow_error(const char* s) { throw underflow_error(s); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_ios_failure(const char* s) { throw runtime_error(s); }
}
extern "C" void rt_throw_oor_fmt(const char* s, ...) __asm__("_ZSt24__throw_out_of_range_fmtPKcz");
extern "C" void rt_throw_oor_fmt(const char* s, ...) { throw std::out_of_range(s); }

// ---------------------------------------------------------------- containers
namespace std {
#include "nodes.h"
// depends on the length only, so that the bucket of a symbolic key is known
size_t _Hash_bytes(const void*, size_t n, size_t seed) { return seed + n; }
namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
  static const size_t primes[] = { 2, 5, 11, 23, 47, 97, 199, 409, 823, 1741, 3469, 6949, 14033 };
  size_t i = 0;
  while (primes[i] < n) i++;
  _M_next_resize = primes[i];
  return primes[i];
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const {
  if (elt + ins <= bkt && elt + ins <= _M_next_resize) return make_pair(false, 0ul);
  if (elt + ins <= bkt) { _M_next_resize = bkt; return make_pair(false, 0ul); }
  return make_pair(true, _M_next_bkt(elt + ins > 2 * bkt ? elt + ins : 2 * bkt));
}
}
// ---------------------------------------------------------------- error categories
error_category::~error_category() noexcept {}
error_condition error_category::default_error_condition(int e) const noexcept { return error_condition(e, *this); }
bool error_category::equivalent(int e, const error_condition& c) const noexcept { return default_error_condition(e) == c; }
bool error_category::equivalent(const error_code& c, int e) const noexcept { return *this == c.category() && c.value() == e; }
__cow_string error_category::_M_message(int) const { return __cow_string("error", 5); }
struct rt_category : error_category {
  const char* n; rt_category(const char* s) : n(s) {}
  const char* name() const noexcept override { return n; }
  string message(int) const override { return "error"; }
  error_condition default_error_condition(int e) const noexcept override { return error_condition(e, generic_category()); }
};
alignas(rt_category) static char rt_gencat[sizeof(rt_category)], rt_syscat[sizeof(rt_category)];
__attribute__((constructor(101))) static void rt_categories() { new (rt_gencat) rt_category("generic"); new (rt_syscat) rt_category("system"); }
const error_category& _V2::generic_category() noexcept { return *(rt_category*)rt_gencat; }
const error_category& _V2::system_category() noexcept { return *(rt_category*)rt_syscat; }
__thread void* __once_callable;
__thread void (*__once_call)();
extern "C" void __once_proxy() { __once_call(); }
error_condition error_code::default_error_condition() const noexcept { return _M_cat->default_error_condition(_M_value); }
system_error::~system_error() noexcept {}
void __throw_system_error(int e) { throw system_error(error_code(e, generic_category())); }
}

// ---------------------------------------------------------------- locale ("C" only)
extern "C" const unsigned short rt_ctype_table[384];
static const unsigned short* rt_ctype_p;
extern "C" const unsigned short** __ctype_b_loc() { rt_ctype_p = rt_ctype_table + 128; return &rt_ctype_p; }
namespace std {
struct rt_impl_hold { const locale::facet* f; int refs; };
locale::locale() throw() : _M_impl(0) {}
locale::locale(const locale& o) throw() : _M_impl(o._M_impl) { if (_M_impl) _M_impl->_M_refcount++; }
const locale& locale::operator=(const locale& o) throw() { if (o._M_impl) o._M_impl->_M_refcount++; this->~locale(); _M_impl = o._M_impl; return *this; }
locale::~locale() throw() { if (_M_impl && --_M_impl->_M_refcount == 0) { if (_M_impl->_M_facets) { const facet* f = (const facet*)_M_impl->_M_facets; if (--f->_M_refcount < 0) delete f; } ::operator delete(_M_impl); } _M_impl = 0; }
bool locale::operator==(const locale& o) const throw() { return _M_impl == o._M_impl; }
const locale& locale::classic() { static locale l; return l; }
locale locale::global(const locale&) { return locale(); }
locale::facet::~facet() {}
size_t locale::id::_M_id() const throw() { return 0; }
// custom locales only carry one extra facet, which the stream models ignore
locale::_Impl::_Impl(const _Impl&, size_t r) : _M_refcount(r), _M_facets(0), _M_facets_size(0), _M_caches(0), _M_names((char**)&_M_caches) {}
locale::_Impl::~_Impl() throw() {}
void locale::_Impl::_M_install_facet(const locale::id*, const facet* f) { _M_facets = (const facet**)f; }
locale::id ctype<char>::id;
ctype<char>::ctype(const mask* t, bool, size_t r) : facet(r), _M_c_locale_ctype(0), _M_del(false), _M_toupper(0), _M_tolower(0), _M_table(t), _M_widen_ok(0), _M_narrow_ok(0) {}
ctype<char>::~ctype() {}
char ctype<char>::do_toupper(char c) const { return (unsigned char)(c - 'a') < 26 ? c - 32 : c; }
char ctype<char>::do_tolower(char c) const { return (unsigned char)(c - 'A') < 26 ? c + 32 : c; }
const char* ctype<char>::do_toupper(char* b, const char* e) const { for (; b < e; b++) *b = do_toupper(*b); return e; }
const char* ctype<char>::do_tolower(char* b, const char* e) const { for (; b < e; b++) *b = do_tolower(*b); return e; }
void ctype<char>::_M_widen_init() const { for (int i = 0; i < 256; i++) _M_widen[i] = (char)i; _M_widen_ok = 1; }
void ctype<char>::_M_narrow_init() const { for (int i = 0; i < 256; i++) _M_narrow[i] = (char)i; _M_narrow_ok = 1; }
const ctype<char>& rt_ctype() { static ctype<char> c(rt_ctype_table + 128, false, 1); return c; }
}

// ---------------------------------------------------------------- streams
namespace std {
ios_base::ios_base() noexcept : _M_precision(6), _M_width(0), _M_flags(skipws | dec), _M_exception(goodbit), _M_streambuf_state(goodbit), _M_callbacks(0), _M_word_size(0), _M_word(_M_local_word) {}
ios_base::~ios_base() {}
void ios_base::_M_init() throw() { _M_precision = 6; _M_width = 0; _M_flags = skipws | dec; }
locale ios_base::imbue(const locale& l) throw() { locale o = _M_ios_locale; _M_ios_locale = l; return o; }

ios_base::Init::Init() {}
ios_base::Init::~Init() {}
template class basic_streambuf<char>;
template class basic_ios<char>;
template class basic_ostream<char>;
template class basic_istream<char>;
template class basic_stringbuf<char>;
template class basic_ostringstream<char>;
template class basic_istringstream<char>;
template class basic_stringstream<char>;
template class basic_iostream<char>;
template ostream& operator<<(ostream&, char);
template ostream& operator<<(ostream&, unsigned char);
template ostream& operator<<(ostream&, signed char);
template ostream& operator<<(ostream&, const char*);
template ostream& operator<<(ostream&, const unsigned char*);
template ostream& operator<<(ostream&, const signed char*);
template ostream& operator<<(ostream&, const string&);
template ostream& operator<<(ostream&, _Setfill<char>);
template ostream& endl(ostream&);
template ostream& ends(ostream&);
template ostream& flush(ostream&);
template istream& operator>>(istream&, char&);
template istream& operator>>(istream&, unsigned char&);
template<> istream& operator>>(istream& i, string& s) {
  istream::sentry ok(i, false);
  if (!ok) return i;
  s.clear();
  streambuf* sb = i.rdbuf();
  long w = i.width(0); int c = sb->sgetc();
  for (; c != EOF && !((c == ' ') | ((unsigned)(c - 9) < 5)) && (w <= 0 || (long)s.size() < w); c = sb->snextc()) s += (char)c;
  if (c == EOF) i.setstate(ios_base::eofbit);
  if (s.empty()) i.setstate(ios_base::failbit);
  return i;
}
template<> istream& getline(istream& i, string& s, char d) {
  istream::sentry ok(i, true);
  s.clear();
  if (!ok) return i;
  streambuf* sb = i.rdbuf();
  bool any = false; int c = sb->sgetc();
  for (; c != EOF && (char)c != d; c = sb->snextc()) { s += (char)c; any = true; }
  if (c == EOF) i.setstate(any ? ios_base::eofbit : ios_base::eofbit | ios_base::failbit); else sb->sbumpc();
  return i;
}
template istream& getline(istream&, string&);
template istream& ws(istream&);
template class basic_string<char>;
template ostream& __ostream_insert(ostream&, const char*, streamsize);
// standard streams discard their output
struct rt_nullbuf : streambuf { int overflow(int c) override { return c == EOF ? 0 : c; } streamsize xsputn(const char*, streamsize n) override { return n; } };
static rt_nullbuf rt_nb;
}
extern "C" {
char rt_cout[sizeof(std::ostream)] __asm__("_ZSt4cout") __attribute__((aligned(16)));
char rt_cerr[sizeof(std::ostream)] __asm__("_ZSt4cerr") __attribute__((aligned(16)));
char rt_clog[sizeof(std::ostream)] __asm__("_ZSt4clog") __attribute__((aligned(16)));
}
__attribute__((constructor(101))) static void rt_streams() {
  new (&std::rt_nb) std::rt_nullbuf;
  new (rt_cout) std::ostream(&std::rt_nb);
  new (rt_cerr) std::ostream(&std::rt_nb);
  new (rt_clog) std::ostream(&std::rt_nb);
}
