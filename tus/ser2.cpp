// Instantiations of serialize and unserialize (analysed, never executed).
#include <tpie/serialization2.h>
#include <tpie/serialization_stream.h>
#include <tpie/array.h>
#include <tpie/flags.h>
#include <list>
#include <deque>

struct sink { void write(const char *, size_t); };
struct source { void read(char *, size_t); };
// types with functions of their own
struct foo { long a, b, c; foo(); foo(const foo &); foo & operator=(const foo &); };
struct bar { int x[3]; bar(); bar(const bar &); bar & operator=(const bar &); };
struct pod { int a; char b; double c; };
enum class en : unsigned short { x, y };
void serialize(sink &, const foo &);
void serialize(sink &, const bar &);
void unserialize(source &, foo &);
void unserialize(source &, bar &);
using W = tpie::serialization_writer::serializer;
using RW = tpie::serialization_reverse_writer::serializer;
using RB = tpie::bits::serialization_reader_base;
void serialize(W &, const foo &);
void serialize(RW &, const foo &);
void unserialize(RB &, foo &);
using tpie::serialize;
using tpie::unserialize;

using tup = std::tuple<foo, bar, pod, int>;
#define BOTH(n, ...) \
	void w_s_##n(sink & d, const __VA_ARGS__ & v) { serialize(d, v); } \
	void w_u_##n(source & d, __VA_ARGS__ & v) { unserialize(d, v); }
template <typename T> using a5 = T[5];
using pfb = std::pair<foo, bar>;
using pip = std::pair<int, pod>;
BOTH(int, int)
BOTH(bool, bool)
BOTH(enum, en)
BOTH(double, double)
BOTH(pod, pod)
BOTH(flags, tpie::flags<en>)
BOTH(carr_pod, a5<pod>)
BOTH(carr_foo, a5<foo>)
BOTH(sarr_foo, std::array<foo, 5>)
BOTH(sarr_bar, std::array<bar, 5>)
BOTH(vec_int, std::vector<int>)
BOTH(vec_pod, std::vector<pod>)
BOTH(vec_foo, std::vector<foo>)
BOTH(vec_bar, std::vector<bar>)
BOTH(arr_int, tpie::array<int>)
BOTH(arr_foo, tpie::array<foo>)
BOTH(string, std::string)
BOTH(wstring, std::basic_string<char32_t>)
BOTH(pair, pfb)
BOTH(pair2, pip)
BOTH(tuple, tup)
const void * w_at_pair_0(const pfb & p) { return &p.first; }
const void * w_at_pair_1(const pfb & p) { return &p.second; }
const void * w_at_pair2_0(const pip & p) { return &p.first; }
const void * w_at_pair2_1(const pip & p) { return &p.second; }
const void * w_at_tuple_0(const tup & t) { return &std::get<0>(t); }
const void * w_at_tuple_1(const tup & t) { return &std::get<1>(t); }
const void * w_at_tuple_2(const tup & t) { return &std::get<2>(t); }
const void * w_at_tuple_3(const tup & t) { return &std::get<3>(t); }
// ranges
void w_s_range_foo(sink & d, const foo * a, const foo * b) { serialize(d, a, b); }
void w_u_range_foo(source & d, foo * a, foo * b) { unserialize(d, a, b); }
void w_s_range_int(sink & d, const int * a, const int * b) { serialize(d, a, b); }
void w_u_range_int(source & d, int * a, int * b) { unserialize(d, a, b); }
void w_s_rev_int(sink & d, const tpie::array<int> & a) { serialize(d, a.rbegin(), a.rend()); }
void w_u_rev_int(source & d, tpie::array<int> & a) { unserialize(d, a.rbegin(), a.rend()); }
// sizes
size_t w_z_int(const int & v) { return tpie::serialized_size(v); }
size_t w_z_pod(const pod & v) { return tpie::serialized_size(v); }
size_t w_z_vec_int(const std::vector<int> & v) { return tpie::serialized_size(v); }
size_t w_z_string(const std::string & v) { return tpie::serialized_size(v); }
size_t w_z_pair2(const pip & v) { return tpie::serialized_size(v); }
// streams
void w_w_one(tpie::serialization_writer & w, const foo & v) { w.serialize(v); }
void w_w_range(tpie::serialization_writer & w, const foo * a, const foo * b) { w.serialize(a, b); }
void w_rw_one(tpie::serialization_reverse_writer & w, const foo & v) { w.serialize(v); }
void w_rw_range(tpie::serialization_reverse_writer & w, const foo * a, const foo * b) { w.serialize(a, b); }
void w_r_one(tpie::serialization_reader & r, foo & v) { r.unserialize(v); }
void w_r_range(tpie::serialization_reader & r, foo * a, foo * b) { r.unserialize(a, b); }
