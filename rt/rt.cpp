// Run-time support for symbolic execution: the non-template parts of the C++ library and of libc
// that the code under test links against. Plain implementations; compiled to bitcode.
#include <string>
#include <stdexcept>
#include <new>
#include <typeinfo>
#include <exception>
#include <memory>
#include <map>
#include <list>
#include <functional>
#include <system_error>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <ctime>
#include <sys/time.h>
#include "vs_iostream.h"

extern "C" {
void* malloc(size_t); void free(void*);
void* __rt_memchr(const void* p, int c, size_t n) { auto b = (const unsigned char*)p; for (size_t i = 0; i < n; i++) if (b[i] == (unsigned char)c) return (void*)(b + i); return nullptr; }
[[noreturn]] void __rt_throw_bad_alloc() { throw std::bad_alloc(); }
[[noreturn]] void __cxa_throw_bad_array_new_length() { throw std::bad_array_new_length(); }
[[noreturn]] void __cxa_bad_cast() { throw std::bad_cast(); }
[[noreturn]] void __cxa_bad_typeid() { throw std::bad_typeid(); }
int __cxa_atexit(void (*)(void*), void*, void*) { return 0; }
int __cxa_thread_atexit(void (*)(void*), void*, void*) { return 0; }
int __cxa_guard_acquire(unsigned char* g) { return !*g; }
void __cxa_guard_release(unsigned char* g) { *g = 1; }
void __cxa_guard_abort(unsigned char*) {}
void* __dso_handle = nullptr;

}

namespace std {
exception::~exception() noexcept {} const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {} const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {} const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {} const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {} const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {} const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_weak_ptr::~bad_weak_ptr() noexcept {} const char* bad_weak_ptr::what() const noexcept { return "bad_weak_ptr"; }
bad_function_call::~bad_function_call() noexcept {} const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
// a private copy of the message
static const char* dupm(const char* s) { size_t n = strlen(s) + 1; char* r = (char*)malloc(n); memcpy(r, s, n); return r; }
__cow_string::__cow_string() { _M_p = dupm(""); }
__cow_string::__cow_string(const string& s) { _M_p = dupm(s.c_str()); }
__cow_string::__cow_string(const char* s, size_t n) { char* r = (char*)malloc(n + 1); memcpy(r, s, n); r[n] = 0; _M_p = r; }
__cow_string::__cow_string(const __cow_string& o) noexcept { _M_p = dupm(o._M_p); }
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { if (this != &o) { free((void*)_M_p); _M_p = dupm(o._M_p); } return *this; }
__cow_string::~__cow_string() { free((void*)_M_p); }
#define STDEXC(T, Base) \
	T::T(const string& s) : Base(s) {} T::T(const char* s) : Base(s) {} T::~T() noexcept {}
logic_error::logic_error(const string& s) : _M_msg(s) {} logic_error::logic_error(const char* s) : _M_msg(s, strlen(s)) {}
logic_error::logic_error(const logic_error& o) noexcept : exception(o), _M_msg(o._M_msg) {} logic_error& logic_error::operator=(const logic_error& o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::~logic_error() noexcept {} const char* logic_error::what() const noexcept { return *(const char* const*)&_M_msg; }
runtime_error::runtime_error(const string& s) : _M_msg(s) {} runtime_error::runtime_error(const char* s) : _M_msg(s, strlen(s)) {}
runtime_error::runtime_error(const runtime_error& o) noexcept : exception(o), _M_msg(o._M_msg) {} runtime_error& runtime_error::operator=(const runtime_error& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::~runtime_error() noexcept {} const char* runtime_error::what() const noexcept { return *(const char* const*)&_M_msg; }
STDEXC(domain_error, logic_error) STDEXC(invalid_argument, logic_error) STDEXC(length_error, logic_error) STDEXC(out_of_range, logic_error)
STDEXC(range_error, runtime_error) STDEXC(overflow_error, runtime_error) STDEXC(underflow_error, runtime_error)
#define THROW(N, T) void N(const char* m) { throw T(m); }
THROW(__throw_logic_error, logic_error) THROW(__throw_length_error, length_error) THROW(__throw_out_of_range, out_of_range) THROW(__throw_invalid_argument, invalid_argument) THROW(__throw_runtime_error, runtime_error) THROW(__throw_domain_error, domain_error) THROW(__throw_overflow_error, overflow_error) THROW(__throw_range_error, range_error)
void __throw_out_of_range_fmt(const char* m, ...) { throw out_of_range(m); }
void __throw_bad_alloc() { throw bad_alloc(); } void __throw_bad_array_new_length() { throw bad_array_new_length(); } void __throw_bad_cast() { throw bad_cast(); } void __throw_bad_function_call() { throw bad_function_call(); } void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_system_error(int) { throw runtime_error("system_error"); }
type_info::~type_info() {}
bool type_info::__is_pointer_p() const { return false; } bool type_info::__is_function_p() const { return false; }
bool type_info::__do_catch(const type_info*, void**, unsigned) const { return false; } bool type_info::__do_upcast(const __cxxabiv1::__class_type_info*, void**) const { return false; }

// red-black tree
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() {
	if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
	auto y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; return x; }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() {
	if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
	if (x->_M_left) { auto y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
	auto y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y; }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
static void rotL(_Rb_tree_node_base* x, _Rb_tree_node_base*& root) { auto y = x->_M_right; x->_M_right = y->_M_left; if (y->_M_left) y->_M_left->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y; y->_M_left = x; x->_M_parent = y; }
static void rotR(_Rb_tree_node_base* x, _Rb_tree_node_base*& root) { auto y = x->_M_left; x->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y; y->_M_right = x; x->_M_parent = y; }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
	auto& root = h._M_parent; x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_red;
	if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
	else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
	while (x != root && x->_M_parent->_M_color == _S_red) {
		auto g = x->_M_parent->_M_parent;
		if (x->_M_parent == g->_M_left) { auto y = g->_M_right; if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; g->_M_color = _S_red; x = g; } else { if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotL(x, root); } x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rotR(g, root); } }
		else { auto y = g->_M_left; if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; g->_M_color = _S_red; x = g; } else { if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotR(x, root); } x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rotL(g, root); } }
	}
	root->_M_color = _S_black;
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
	auto& root = h._M_parent; auto& leftmost = h._M_left; auto& rightmost = h._M_right; auto y = z; _Rb_tree_node_base *x = nullptr, *xp = nullptr;
	if (!y->_M_left) x = y->_M_right; else if (!y->_M_right) x = y->_M_left; else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
	if (y != z) {
		z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
		if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; } else xp = y;
		if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
		y->_M_parent = z->_M_parent; auto c = y->_M_color; y->_M_color = z->_M_color; z->_M_color = c; y = z;
	} else {
		xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent;
		if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
		if (leftmost == z) { if (!z->_M_right) leftmost = z->_M_parent; else { auto m = x; while (m->_M_left) m = m->_M_left; leftmost = m; } }
		if (rightmost == z) { if (!z->_M_left) rightmost = z->_M_parent; else { auto m = x; while (m->_M_right) m = m->_M_right; rightmost = m; } }
	}
	if (y->_M_color != _S_red) {
		while (x != root && (!x || x->_M_color == _S_black)) {
			if (x == xp->_M_left) {
				auto w = xp->_M_right; if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotL(xp, root); w = xp->_M_right; }
				if ((!w->_M_left || w->_M_left->_M_color == _S_black) && (!w->_M_right || w->_M_right->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
				else { if (!w->_M_right || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotR(w, root); w = xp->_M_right; } w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_right) w->_M_right->_M_color = _S_black; rotL(xp, root); break; }
			} else {
				auto w = xp->_M_left; if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotR(xp, root); w = xp->_M_left; }
				if ((!w->_M_right || w->_M_right->_M_color == _S_black) && (!w->_M_left || w->_M_left->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
				else { if (!w->_M_left || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotL(w, root); w = xp->_M_left; } w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_left) w->_M_left->_M_color = _S_black; rotR(xp, root); break; }
			}
		}
		if (x) x->_M_color = _S_black;
	}
	return y;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { auto n = _M_next, p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base* f, _List_node_base* l) noexcept { if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f; auto t = _M_prev; _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
void _List_node_base::_M_reverse() noexcept { auto t = this; do { auto n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = t->_M_prev; } while (t != this); }
}
template class basic_string<char>;
template string operator+(const char*, const string&);
template string operator+(char, const string&);
template string operator+(const string&, const string&);

class vs_nullout : public ostream {}; static vs_nullout no_; class vs_nullin : public istream {}; 
ostream cout, cerr, clog; istream cin;
}
