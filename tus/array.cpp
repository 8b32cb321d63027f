// Instantiations of tpie::array (analysed, never executed).
#include <tpie/array.h>
#include <tpie/array_view.h>
#include <new>

struct el { el(); el(const el &); el & operator=(const el &); ~el(); long a[3]; };
struct xalloc {
	el * allocate(size_t n);
	void deallocate(el * p, size_t n) noexcept;
	void construct(el * p);
	void construct(el * p, const el & x);
	void destroy(el * p) noexcept;
	long tag;
};
typedef tpie::array<el> arr;
typedef tpie::array<el, xalloc> xarr;

void w_resize(arr & a, size_t n) { a.resize(n); }
void w_resize_fill(arr & a, size_t n, const el & e) { a.resize(n, e); }
void w_assign(arr & a, const arr & b) { a = b; }
void w_move(arr & a, arr & b) { a = std::move(b); }
void w_swap(arr & a, arr & b) { a.swap(b); }
void w_stdswap(arr & a, arr & b) { using std::swap; swap(a, b); }
void w_destroy(arr & a) { a.~arr(); }
void w_ctor(void * p, size_t n, const tpie::allocator<el> & al) { new (p) arr(n, al); }
void w_ctor_fill(void * p, size_t n, const el & e, const tpie::allocator<el> & al) { new (p) arr(n, e, al); }
void w_ctor_bucket(void * p, size_t n, tpie::memory_bucket_ref b) { new (p) arr(n, b); }
void w_copy(void * p, const arr & b) { new (p) arr(b); }
void w_movector(void * p, arr & b) { new (p) arr(std::move(b)); }
void x_resize(xarr & a, size_t n) { a.resize(n); }
void x_resize_fill(xarr & a, size_t n, const el & e) { a.resize(n, e); }
void x_assign(xarr & a, const xarr & b) { a = b; }
void x_move(xarr & a, xarr & b) { a = std::move(b); }
void x_swap(xarr & a, xarr & b) { a.swap(b); }
void x_destroy(xarr & a) { a.~xarr(); }
void x_ctor(void * p, size_t n, const xalloc & al) { new (p) xarr(n, al); }
void x_ctor_fill(void * p, size_t n, const el & e, const xalloc & al) { new (p) xarr(n, e, al); }
void x_copy(void * p, const xarr & b) { new (p) xarr(b); }
void x_movector(void * p, xarr & b) { new (p) xarr(std::move(b)); }
void w_view(void * p, const tpie::array_view<const el> & v) { new (p) arr(v); }
void w_view_mutable(void * p, const tpie::array_view<el> & v) { new (p) arr(v); }
