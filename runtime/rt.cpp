// Runtime library for symbolic execution: the parts of libc / libstdc++ that live in
// shared objects, written against the same headers the code under test uses.
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <cstdlib>
#include <cerrno>
#include <climits>
#include <new>
#include <exception>
#include <stdexcept>
#include <string>
#include <string_view>
#include <functional>
#include <optional>
#include <variant>
#include <any>
#include <map>
#include <list>
#include <unordered_map>
#include <memory>
#include <mutex>
#include <condition_variable>
#include <thread>
#include <future>
#include <typeinfo>
#include <system_error>
#include <iostream>
#include <sstream>
#include <bits/hash_bytes.h>
extern "C" { void* jsym_alloc(size_t, size_t); void jsym_free(void*); int jsym_spawn(void (*)(void*), void*); void* jsym_current_exception(); [[noreturn]] void jsym_rethrow(void*); 
extern char __libc_single_threaded; char __libc_single_threaded = 1; void* __dso_handle_jsym; }
// ---- allocation
static constexpr size_t kLimit = size_t(1) << 29;
void* operator new(size_t n) { if (n > kLimit) throw std::bad_alloc(); return jsym_alloc(n, 16); }
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, std::align_val_t a) { if (n > kLimit) throw std::bad_alloc(); return jsym_alloc(n, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return operator new(n, a); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { if (n > kLimit) return nullptr; return jsym_alloc(n, 16); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { if (n > kLimit) return nullptr; return jsym_alloc(n, 16); }
void* operator new(size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { if (n > kLimit) return nullptr; return jsym_alloc(n, (size_t)a); }
const std::nothrow_t std::nothrow{};
// ---- exceptions
namespace std {
exception::~exception() noexcept {} const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {} const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {} const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {} const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {} const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {} const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {} const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
bad_weak_ptr::~bad_weak_ptr() noexcept {} const char* bad_weak_ptr::what() const noexcept { return "bad_weak_ptr"; }
static char* dupz(const char* s, size_t n) { char* p = (char*)jsym_alloc(n + 1, 16); memcpy(p, s, n); p[n] = 0; return p; }
struct __cow_access { static const char*& p(__cow_string& s) { return *(const char**)&s; } static const char* p(const __cow_string& s) { return *(const char* const*)&s; } };
__cow_string::__cow_string() { __cow_access::p(*this) = dupz("", 0); }
__cow_string::__cow_string(const std::string& s) { __cow_access::p(*this) = dupz(s.data(), s.size()); }
__cow_string::__cow_string(const char* s, size_t n) { __cow_access::p(*this) = dupz(s, n); }
__cow_string::__cow_string(const __cow_string& o) noexcept { auto* q = __cow_access::p(o); __cow_access::p(*this) = dupz(q, strlen(q)); }
__cow_string::__cow_string(__cow_string&& o) noexcept { __cow_access::p(*this) = __cow_access::p(o); __cow_access::p(o) = dupz("", 0); }
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { auto* q = __cow_access::p(o); char* n = dupz(q, strlen(q)); jsym_free((void*)__cow_access::p(*this)); __cow_access::p(*this) = n; return *this; }
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { std::swap(__cow_access::p(*this), __cow_access::p(o)); return *this; }
__cow_string::~__cow_string() { jsym_free((void*)__cow_access::p(*this)); }
#define EXC(T) T::T(const string& s) : _M_msg(s) {} T::T(const char* s) : _M_msg(s, strlen(s)) {} T::T(const T& o) noexcept : exception(o), _M_msg(o._M_msg) {} T& T::operator=(const T& o) noexcept { _M_msg = o._M_msg; return *this; } T::T(T&& o) noexcept : _M_msg(std::move(o._M_msg)) {} T& T::operator=(T&& o) noexcept { _M_msg = std::move(o._M_msg); return *this; } T::~T() noexcept {} const char* T::what() const noexcept { return __cow_access::p(_M_msg); }
EXC(logic_error) EXC(runtime_error)
#define SUB(T, B) T::T(const string& s) : B(s) {} T::T(const char* s) : B(s) {} T::~T() noexcept {}
SUB(domain_error, logic_error) SUB(invalid_argument, logic_error) SUB(length_error, logic_error) SUB(out_of_range, logic_error) SUB(range_error, runtime_error) SUB(overflow_error, runtime_error) SUB(underflow_error, runtime_error)
void __throw_bad_exception() { throw bad_exception(); } void __throw_bad_alloc() { throw bad_alloc(); } void __throw_bad_array_new_length() { throw bad_array_new_length(); } void __throw_bad_cast() { throw bad_cast(); } void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_logic_error(const char* s) { throw logic_error(s); } void __throw_domain_error(const char* s) { throw domain_error(s); } void __throw_invalid_argument(const char* s) { throw invalid_argument(s); } void __throw_length_error(const char* s) { throw length_error(s); } void __throw_out_of_range(const char* s) { throw out_of_range(s); } void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); } void __throw_runtime_error(const char* s) { throw runtime_error(s); } void __throw_range_error(const char* s) { throw range_error(s); } void __throw_overflow_error(const char* s) { throw overflow_error(s); } void __throw_underflow_error(const char* s) { throw underflow_error(s); } void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_system_error(int) { throw runtime_error("system error"); }
type_info::~type_info() {} 
bool type_info::__is_pointer_p() const { return false; } bool type_info::__is_function_p() const { return false; } bool type_info::__do_catch(const type_info*, void**, unsigned) const { return false; } bool type_info::__do_upcast(const __cxxabiv1::__class_type_info*, void**) const { return false; }
bool _Sp_make_shared_tag::_S_eq(const type_info& ti) noexcept { return ti == typeid(_Sp_make_shared_tag); }
// ---- exception_ptr
namespace __exception_ptr {
exception_ptr::exception_ptr(void* p) noexcept : _M_exception_object(p) {}
void exception_ptr::_M_addref() noexcept {} void exception_ptr::_M_release() noexcept {} void* exception_ptr::_M_get() const noexcept { return _M_exception_object; }
}
struct __eptr_access { void* p; };
exception_ptr current_exception() noexcept { exception_ptr e; *(void**)&e = jsym_current_exception(); return e; }
void rethrow_exception(exception_ptr e) { jsym_rethrow(*(void**)&e); }
// ---- hashing
size_t _Hash_bytes(const void* p, size_t len, size_t seed) { // MurmurHash64A variant of libstdc++ 64-bit
    static const size_t mul = (((size_t)0xc6a4a793UL) << 32UL) + (size_t)0x5bd1e995UL; const char* buf = (const char*)p;
    auto sm = [](size_t v) { return v ^ (v >> 47); };
    size_t la = len & ~(size_t)7; const char* end = buf + la; size_t h = seed ^ (len * mul);
    for (const char* q = buf; q != end; q += 8) { size_t d; memcpy(&d, q, 8); d = sm(d * mul) * mul; h ^= d; h *= mul; }
    if (len & 7) { size_t d = 0; size_t n = len & 7; for (size_t i = n; i-- > 0;) d = (d << 8) + (unsigned char)end[i]; h ^= d; h *= mul; }
    h = sm(h) * mul; h = sm(h); return h; }
size_t _Fnv_hash_bytes(const void* p, size_t len, size_t h) { const char* c = (const char*)p; for (; len; --len) { h ^= (size_t)(unsigned char)*c++; h *= 1099511628211ULL; } return h; }
namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { static const size_t pr[] = {2, 5, 11, 23, 47, 97, 199, 409, 823, 1741, 3739, 7517, 15173, 30727, 62233, 126271}; for (size_t p : pr) if (p >= n) { const_cast<_Prime_rehash_policy*>(this)->_M_next_resize = (size_t)((float)p * _M_max_load_factor); return p; } const_cast<_Prime_rehash_policy*>(this)->_M_next_resize = n; return n; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const { if (ne + ni > _M_next_resize) { size_t mb = (size_t)((ne + ni) / _M_max_load_factor) + 1; if (_M_next_resize == 0 && mb < 11) mb = 11; if (mb >= nb) { size_t g = nb * 2; return {true, _M_next_bkt(mb > g ? mb : g)}; } const_cast<_Prime_rehash_policy*>(this)->_M_next_resize = (size_t)(nb * _M_max_load_factor); } return {false, 0}; }
void _List_node_base::_M_hook(_List_node_base* p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { auto* n = _M_next; auto* p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base* f, _List_node_base* l) noexcept { if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f; auto* t = _M_prev; _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
void _List_node_base::_M_reverse() noexcept { auto* t = this; do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this); }
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept { if (x._M_next != &x) { if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; } else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; } } else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; } }
}
// ---- red-black trees (ordering-preserving, unbalanced: balance is a performance property only)
static _Rb_tree_node_base* inc(_Rb_tree_node_base* x) noexcept { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; } else { auto* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
static _Rb_tree_node_base* dec(_Rb_tree_node_base* x) noexcept { if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right; else if (x->_M_left) { auto* y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; } else { auto* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; } return x; }
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) noexcept { return inc(x); } const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) noexcept { return inc(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) noexcept { return dec(x); } const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) noexcept { return dec(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) noexcept { x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_black; if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; } else { p->_M_right = x; if (p == h._M_right) h._M_right = x; } }
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) noexcept {
    auto repl = [&](_Rb_tree_node_base* o, _Rb_tree_node_base* n) { if (h._M_parent == o) h._M_parent = n; else if (o->_M_parent->_M_left == o) o->_M_parent->_M_left = n; else o->_M_parent->_M_right = n; if (n) n->_M_parent = o->_M_parent; };
    if (z->_M_left && z->_M_right) { auto* y = z->_M_right; while (y->_M_left) y = y->_M_left; if (y->_M_parent != z) { repl(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; } repl(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y; return z; }
    auto* c = z->_M_left ? z->_M_left : z->_M_right; auto* par = z->_M_parent; repl(z, c);
    if (h._M_left == z) { if (!z->_M_right) h._M_left = par; else { auto* m = c; while (m->_M_left) m = m->_M_left; h._M_left = m; } }
    if (h._M_right == z) { if (!z->_M_left) h._M_right = par; else { auto* m = c; while (m->_M_right) m = m->_M_right; h._M_right = m; } }
    return z; }
// ---- threads
condition_variable::condition_variable() noexcept {} condition_variable::~condition_variable() noexcept {}
void condition_variable::wait(unique_lock<mutex>& l) { pthread_cond_wait(native_handle(), l.mutex()->native_handle()); }
void condition_variable::notify_one() noexcept { pthread_cond_signal(native_handle()); } void condition_variable::notify_all() noexcept { pthread_cond_broadcast(native_handle()); }
__thread void* __once_callable; __thread void (*__once_call)();
// ---- error categories
const char* const jsym_cat = "generic";
struct jsym_category : error_category { const char* name() const noexcept override { return jsym_cat; } string message(int) const override { return "error"; } };
error_category::~error_category() {} error_condition error_category::default_error_condition(int c) const noexcept { return error_condition(c, *this); } bool error_category::equivalent(int c, const error_condition& e) const noexcept { return default_error_condition(c) == e; } bool error_category::equivalent(const error_code& c, int i) const noexcept { return *this == c.category() && c.value() == i; }
const error_category& generic_category() noexcept { static jsym_category c; return c; } const error_category& system_category() noexcept { static jsym_category c; return c; }
system_error::~system_error() noexcept {}
// ---- streams
static stringbuf& nb() { static stringbuf b; return b; }
ostream cout(&nb()), cerr(&nb()), clog(&nb()); istream cin(nullptr);
}
namespace __cxxabiv1 { extern "C" { void __cxa_bad_cast() { throw std::bad_cast(); } void __cxa_bad_typeid() { throw std::bad_typeid(); } void __cxa_throw_bad_array_new_length() { throw std::bad_array_new_length(); } } }
