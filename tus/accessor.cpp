// Instantiations of the stream file accessors (analysed, never executed).
#include <tpie/file_accessor/file_accessor.h>
#include <tpie/file_accessor/byte_stream_accessor.h>
#include <tpie/file_accessor/stream_accessor.h>
using raw = tpie::file_accessor::raw_file_accessor;
using bsa = tpie::file_accessor::byte_stream_accessor<raw>;
using bla = tpie::file_accessor::stream_accessor<raw>;
template class tpie::file_accessor::byte_stream_accessor<raw>;
template class tpie::file_accessor::stream_accessor<raw>;
template class tpie::file_accessor::stream_accessor_base<raw>;

void w_raw_read(raw & r, void * p, tpie::memory_size_type n) { r.read_i(p, n); }
void w_raw_write(raw & r, const void * p, tpie::memory_size_type n) { r.write_i(p, n); }
void w_raw_seek(raw & r, tpie::stream_size_type n) { r.seek_i(n); }
tpie::stream_size_type w_raw_size(raw & r) { return r.file_size_i(); }
void w_raw_truncate(raw & r, tpie::stream_size_type n) { r.truncate_i(n); }
void w_raw_open_ro(raw & r, const std::string & s) { r.open_ro(s); }
void w_raw_open_wo(raw & r, const std::string & s) { r.open_wo(s); }
void w_raw_open_rw(raw & r, const std::string & s) { r.open_rw_new(s); }
bool w_raw_try_rw(raw & r, const std::string & s) { return r.try_open_rw(s); }
void w_raw_close(raw & r) { r.close_i(); }
void w_raw_destroy(raw & r) { r.~raw(); }
void w_raw_construct(void * p) { new (p) raw(); }

void w_st_open(bla & a, const std::string & s, bool r, bool w, size_t i, size_t b, size_t u, tpie::cache_hint h, int c) { a.open(s, r, w, i, b, u, h, c); }
void w_st_close(bla & a) { a.close(); }
void w_st_truncate(bla & a, tpie::stream_size_type n) { a.truncate(n); }
void w_st_write_user(bla & a, const void * p, size_t n) { a.write_user_data(p, n); }
size_t w_st_read_user(bla & a, void * p, size_t n) { return a.read_user_data(p, n); }
size_t w_st_read_block(bla & a, void * p, tpie::stream_size_type b, size_t n) { return a.bla::read_block(p, b, n); }
void w_st_write_block(bla & a, const void * p, tpie::stream_size_type b, size_t n) { a.bla::write_block(p, b, n); }
void w_by_write(bsa & a, tpie::stream_size_type o, const void * p, size_t n) { a.write(o, p, n); }
void w_by_append(bsa & a, const void * p, size_t n) { a.append(p, n); }
size_t w_by_read(bsa & a, tpie::stream_size_type o, void * p, size_t n) { return a.read(o, p, n); }
void w_by_truncate(bsa & a, tpie::stream_size_type n) { a.truncate_bytes(n); }
tpie::stream_size_type w_by_size(bsa & a) { return a.file_size(); }
void w_by_open(bsa & a, const std::string & s, bool r, bool w, size_t i, size_t b, size_t u, tpie::cache_hint h, int c) { a.open(s, r, w, i, b, u, h, c); }
void w_by_close(bsa & a) { a.close(); }
