// Device pointers and the algorithms on them: commands of the default stream of the current device.
#ifndef SYM_THRUST_H
#define SYM_THRUST_H
#include "cuda_runtime.h"
#include <type_traits>
#include <utility>
namespace thrust {
template<class T> struct device_ptr
{
	T* p; bool mine; typename std::remove_const<T>::type keep;
	device_ptr() : p(0), mine(false), keep() {} explicit device_ptr(T* q) : p(q), mine(false), keep() {}
	T* get() const { return p; }
	device_ptr operator+(ptrdiff_t n) const { return device_ptr(p + n); } device_ptr operator-(ptrdiff_t n) const { return device_ptr(p - n); } ptrdiff_t operator-(const device_ptr& o) const { return p - o.p; }
	// a value found by an algorithm, or one fetched from the device
	typename std::remove_const<T>::type operator[](ptrdiff_t i) const { if(mine && i == 0) return keep; typename std::remove_const<T>::type v; cudaMemcpy(&v, p + i, sizeof v, cudaMemcpyDeviceToHost); return v; }
	typename std::remove_const<T>::type operator*() const { return (*this)[0]; }
};
template<class T> inline device_ptr<T> device_pointer_cast(T* p) { return device_ptr<T>(p); }
template<class T> inline T* raw_pointer_cast(const device_ptr<T>& p) { return p.get(); }
template<class A, class B> using pair = std::pair<A, B>;
template<class F> inline void sym_run(const char* name, F f) { unsigned one[3] = {1, 1, 1}; sym_launch([](void* p) { (*(F*)p)(); }, [](void* p) { delete(F*)p; }, new F(f), one, one, 0, 0, name); }
template<class T, class V> inline void fill(device_ptr<T> a, device_ptr<T> b, const V& v) { T* p = a.get(); T* q = b.get(); T x = v; if(p != q) sym_run("thrust::fill", [=]() { for(T* i = p; i != q; ++i) *i = x; }); }
template<class T> inline void sym_extreme(const T* p, const T* q, typename std::remove_const<T>::type* lo, typename std::remove_const<T>::type* hi)
{
	typedef typename std::remove_const<T>::type V; V* r; cudaMalloc(&r, 2 * sizeof(V));
	sym_run("thrust::minmax_element", [=]() { V a = *p, b = *p; for(const T* i = p + 1; i < q; ++i) { V v = *i; a = v < a ? v : a; b = b < v ? v : b; } r[0] = a; r[1] = b; });
	V h[2]; cudaMemcpy(h, r, sizeof h, cudaMemcpyDeviceToHost); cudaFree(r); *lo = h[0]; *hi = h[1];
}
template<class T> inline pair<device_ptr<T>, device_ptr<T> > minmax_element(device_ptr<T> a, device_ptr<T> b)
{
	pair<device_ptr<T>, device_ptr<T> > r(a, a); if(a.get() == b.get()) return r;
	sym_extreme(a.get(), b.get(), &r.first.keep, &r.second.keep); r.first.mine = r.second.mine = true; return r;
}
template<class T> inline device_ptr<T> min_element(device_ptr<T> a, device_ptr<T> b) { return minmax_element(a, b).first; }
template<class T> inline device_ptr<T> max_element(device_ptr<T> a, device_ptr<T> b) { return minmax_element(a, b).second; }
}
#endif
