// Moves and swaps of tpie's movable classes (analysed, never executed).
#include <new>
#include <utility>
#include <tpie/array.h>
#include <tpie/packed_array.h>
#include <tpie/memory.h>
#include <tpie/uncompressed_stream.h>
#include <tpie/tiny.h>
#include <tpie/progress_indicator_base.h>
#include <tpie/progress_indicator_subindicator.h>
#include <tpie/fractional_progress.h>
#include <tpie/pipelining.h>
#include <tpie/pipelining/virtual.h>
#include <tpie/pipelining/parallel.h>
#include <tpie/btree/internal_store.h>
#include <tpie/btree/serialized_store.h>
#include <tpie/btree/external_store.h>

namespace tp = tpie::pipelining;
typedef tpie::bbits::internal_store<long, long, 2, 4> w_internal;
#define MC(n, ...) void w_mc_##n(__VA_ARGS__ * to, __VA_ARGS__ * from) { new (static_cast<void *>(to)) __VA_ARGS__(std::move(*from)); }
#define MA(n, ...) __VA_ARGS__ * w_ma_##n(__VA_ARGS__ * to, __VA_ARGS__ * from) { return &(*to = std::move(*from)); }
#define SW(n, ...) void w_sw_##n(__VA_ARGS__ * to, __VA_ARGS__ * from) { to->swap(*from); }
#define SF(n, ...) void w_sw_##n(__VA_ARGS__ * to, __VA_ARGS__ * from) { using std::swap; swap(*to, *from); }
#define BOTH(n, ...) MC(n, __VA_ARGS__) MA(n, __VA_ARGS__)

template <typename D> using w_devb_t = tp::bits::devirtualize_begin_node<D, long>;
struct w_node : tp::node { w_node(); w_node(w_node &&) = default; w_node & operator=(w_node &&) = default; void go() override; };
struct w_sink : tp::node { typedef long item_type; w_sink(); w_sink(w_sink &&) = default; w_sink & operator=(w_sink &&) = default; void push(const long &); };
struct w_src : tp::node { typedef long item_type; w_src(); w_src(w_src &&) = default; w_src & operator=(w_src &&) = default; long pull(); bool can_pull(); };
struct w_pi : tpie::progress_indicator_base { w_pi(); w_pi(w_pi &&) = default; w_pi & operator=(w_pi &&) = default; void refresh() override; };
struct w_fact1 : tp::factory_base { template <typename D> using constructed_type = w_devb_t<D>; w_fact1(w_fact1 &&) = default; w_fact1 & operator=(w_fact1 &&) = default; long extra; };
typedef tp::bits::pair_factory<w_fact1, w_fact1> w_pairf;
typedef tp::bits::devirtualize_begin_node<w_sink, long> w_devb;
typedef tp::bits::devirtualize_pull_end_node<w_src, long> w_deve;
typedef tpie::packed_array<bool, 1> w_packed;
typedef tpie::bbits::serialized_store<long, long, 0, 0, 0> w_sers;
typedef tpie::bbits::external_store<long, long, 0, 0, 0> w_exts;
typedef tpie::tiny::set<long> w_tset;
typedef tpie::tiny::map<long, long> w_tmap;

BOTH(node, w_node)
BOTH(pi, w_pi)
BOTH(sub, tpie::progress_indicator_subindicator)
BOTH(packed, w_packed) SW(packed, w_packed)
BOTH(internal, w_internal)
BOTH(sers, w_sers)
MC(exts, w_exts)
BOTH(pairf, w_pairf)
MC(virtrecv, tp::bits::virtrecv<long>)
MC(virtpullrecv, tp::bits::virtpullrecv<long>)
BOTH(devb, w_devb)
BOTH(deve, w_deve)
SW(ustream, tpie::uncompressed_stream<long>)
SF(ustream2, tpie::uncompressed_stream<long>)
BOTH(tset, w_tset) SW(tset, w_tset)
MC(tmap, w_tmap)
BOTH(alloc, tpie::allocator<long>)
BOTH(bref, tpie::memory_bucket_ref)
MC(anync, tp::any_noncopyable)
