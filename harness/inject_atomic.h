// Forced include of the "inj" builds: every std::atomic of the library becomes one that calls a
// scheduling hook around each operation and whose weak compare-exchange may fail spuriously, as
// the language allows.  vh_atomic_point() is weak: harnesses may define it.
#pragma once
#ifdef __cplusplus
#include <bits/stdc++.h>
extern "C" void vh_atomic_point(int kind) __attribute__((weak));     // before an atomic access
extern "C" int vh_spurious(void) __attribute__((weak));              // should this weak CAS fail?
namespace std {
template <class T> struct verif_atomic : public atomic<T> {
	typedef atomic<T> B;
	static void p(int k) { if (vh_atomic_point) vh_atomic_point(k); }
	verif_atomic() noexcept = default;
	constexpr verif_atomic(T v) noexcept : B(v) {}
	verif_atomic(const verif_atomic&) = delete;
	T operator=(T v) noexcept { p(1); return B::operator=(v); }
	operator T() const noexcept { p(0); return B::load(); }
	T load(memory_order m = memory_order_seq_cst) const noexcept { p(0); return B::load(m); }
	void store(T v, memory_order m = memory_order_seq_cst) noexcept { p(1); B::store(v, m); }
	T exchange(T v, memory_order m = memory_order_seq_cst) noexcept { p(2); return B::exchange(v, m); }
	bool compare_exchange_strong(T& e, T d, memory_order m = memory_order_seq_cst) noexcept { p(2); return B::compare_exchange_strong(e, d, m); }
	bool compare_exchange_strong(T& e, T d, memory_order m, memory_order f) noexcept { p(2); return B::compare_exchange_strong(e, d, m, f); }
	bool compare_exchange_weak(T& e, T d, memory_order m = memory_order_seq_cst) noexcept { p(2); if (vh_spurious && vh_spurious()) { e = B::load(); return false; } return B::compare_exchange_weak(e, d, m); }
	bool compare_exchange_weak(T& e, T d, memory_order m, memory_order f) noexcept { p(2); if (vh_spurious && vh_spurious()) { e = B::load(f); return false; } return B::compare_exchange_weak(e, d, m, f); }
	template <class U> T fetch_add(U v, memory_order m = memory_order_seq_cst) noexcept { p(2); return B::fetch_add(v, m); }
	template <class U> T fetch_sub(U v, memory_order m = memory_order_seq_cst) noexcept { p(2); return B::fetch_sub(v, m); }
	template <class U> T fetch_or(U v, memory_order m = memory_order_seq_cst) noexcept { p(2); return B::fetch_or(v, m); }
	template <class U> T fetch_and(U v, memory_order m = memory_order_seq_cst) noexcept { p(2); return B::fetch_and(v, m); }
	T operator++() noexcept { p(2); return B::fetch_add(1) + 1; }
	T operator++(int) noexcept { p(2); return B::fetch_add(1); }
	T operator--() noexcept { p(2); return B::fetch_sub(1) - 1; }
	T operator--(int) noexcept { p(2); return B::fetch_sub(1); }
	template <class U> T operator+=(U v) noexcept { p(2); return B::fetch_add(v) + v; }
	template <class U> T operator-=(U v) noexcept { p(2); return B::fetch_sub(v) - v; }
};
}
#define atomic verif_atomic
#endif
