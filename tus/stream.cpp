// Instantiations of uncompressed streams (analysed, never executed).
#include <tpie/uncompressed_stream.h>
#include <tpie/file.h>
#include <tpie/stream_crtp.inl>
#include <tpie/file_base_crtp.inl>

struct w_item { long a; int b, c, d; };   // 24 bytes
using us = tpie::uncompressed_stream<w_item>;
using ff = tpie::file<w_item>;
using fs = tpie::file<w_item>::stream;
using acc = tpie::file_accessor::file_accessor;
using u64 = tpie::stream_size_type;
using i64 = tpie::stream_offset_type;

size_t w_v_read_block(acc & a, void * d, u64 b, size_t n) { return a.read_block(d, b, n); }
void w_v_write_block(acc & a, const void * d, u64 b, size_t n) { a.write_block(d, b, n); }

void w_us_write(us & s, const w_item & i) { s.write(i); }
void w_us_read(us & s, w_item & o) { o = s.read(); }
void w_us_peek(us & s, w_item & o) { o = s.peek(); }
void w_us_read_back(us & s, w_item & o) { o = s.read_back(); }
void w_us_seek_b(us & s, i64 o) { s.seek(o, us::beginning); }
void w_us_seek_c(us & s, i64 o) { s.seek(o, us::current); }
void w_us_seek_e(us & s, i64 o) { s.seek(o, us::end); }
void w_us_skip(us & s) { s.skip(); }
void w_us_skip_back(us & s) { s.skip_back(); }
u64 w_us_offset(us & s) { return s.offset(); }
u64 w_us_size(us & s) { return s.size(); }
bool w_us_can_read(us & s) { return s.can_read(); }
bool w_us_can_read_back(us & s) { return s.can_read_back(); }
void w_us_truncate(us & s, u64 n) { s.truncate(n); }
void w_us_close(us & s) { s.close(); }
void w_us_read_array(us & s, w_item * b, size_t n) { s.read(b, b + n); }
void w_us_write_array(us & s, const w_item * b, size_t n) { s.write(b, b + n); }
void w_us_open(us & s, const std::string & p, tpie::access_type a) { s.open(p, a); }
void w_us_open_temp(us & s, tpie::temp_file & f, tpie::access_type a) { s.open(f, a); }
void w_us_open_anon(us & s) { s.open(); }
void w_us_construct(void * p) { new (p) us(); }
void w_us_destroy(us & s) { s.~us(); }
void w_us_swap(us & a, us & b) { a.swap(b); }

void w_fs_write(fs & s, const w_item & i) { s.write(i); }
void w_fs_read(fs & s, w_item & o) { o = s.read(); }
void w_fs_read_back(fs & s, w_item & o) { o = s.read_back(); }
void w_fs_seek_b(fs & s, i64 o) { s.seek(o, fs::beginning); }
void w_fs_seek_c(fs & s, i64 o) { s.seek(o, fs::current); }
void w_fs_seek_e(fs & s, i64 o) { s.seek(o, fs::end); }
u64 w_fs_offset(fs & s) { return s.offset(); }
u64 w_fs_size(fs & s) { return s.size(); }
bool w_fs_can_read(fs & s) { return s.can_read(); }
bool w_fs_can_read_back(fs & s) { return s.can_read_back(); }
void w_fs_read_array(fs & s, w_item * b, size_t n) { s.read(b, b + n); }
void w_fs_write_array(fs & s, const w_item * b, size_t n) { s.write(b, b + n); }
void w_fs_attach(fs & s, ff & f) { s.attach(f); }
void w_fs_detach(fs & s) { s.detach(); }
void w_fs_construct(void * p) { new (p) fs(); }
void w_fs_destroy(fs & s) { s.~fs(); }
void w_ff_close(ff & f) { f.close(); }
void w_ff_truncate(ff & f, u64 n) { f.truncate(n); }
void w_ff_destroy(ff & f) { f.~ff(); }
