// Instantiations of the memory API (analysed, never executed).
#include <tpie/memory.h>
#include <tpie/array.h>
#include <tpie/dummy_progress.h>

struct w_plain { long a, b, c; };
struct w_member { w_member(int); w_member(const w_member &); ~w_member(); long x; };
struct w_poly { w_poly(int); virtual ~w_poly(); long x[3]; };
struct w_poly_derived : w_poly { w_poly_derived(int); ~w_poly_derived() override; long y[2]; };

w_plain * w_new_plain() { return tpie::tpie_new<w_plain>(); }
w_member * w_new_member(int i) { return tpie::tpie_new<w_member>(i); }
w_poly * w_new_poly(int i) { return tpie::tpie_new<w_poly>(i); }
w_poly * w_new_derived(int i) { return tpie::tpie_new<w_poly_derived>(i); }
void w_delete_plain(w_plain * p) { tpie::tpie_delete(p); }
void w_delete_member(w_member * p) { tpie::tpie_delete(p); }
void w_delete_poly(w_poly * p) { tpie::tpie_delete(p); }
w_plain * w_newarr_plain(size_t n) { return tpie::tpie_new_array<w_plain>(n); }
struct w_def { w_def(); ~w_def(); short a[3]; };
w_def * w_newarr_def(size_t n) { return tpie::tpie_new_array<w_def>(n); }
void w_delarr_plain(w_plain * p, size_t n) { tpie::tpie_delete_array(p, n); }
void w_delarr_def(w_def * p, size_t n) { tpie::tpie_delete_array(p, n); }
w_plain * w_alloc_plain(tpie::allocator<w_plain> & a, size_t n) { return a.allocate(n); }
void w_dealloc_plain(tpie::allocator<w_plain> & a, w_plain * p, size_t n) { a.deallocate(p, n); }
void w_unique_reset(tpie::unique_ptr<w_member> & p) { p.reset(); }
void w_make_unique(tpie::unique_ptr<w_member> & p) { p = tpie::make_unique<w_member>(4); }
