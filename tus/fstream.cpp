// Instantiations of tpie::file_stream (analysed, never executed).
#include <tpie/file_stream.h>
#include <tpie/compressed/stream.h>

struct w_item { long a; int b, c, d; };   // 24 bytes
using cs = tpie::file_stream<w_item>;
using u64 = tpie::stream_size_type;
using i64 = tpie::stream_offset_type;

void w_cs_write(cs & s, const w_item & i) { s.write(i); }
void w_cs_read(cs & s, w_item & o) { o = s.read(); }
void w_cs_peek(cs & s, w_item & o) { o = s.peek(); }
void w_cs_skip(cs & s) { s.skip(); }
void w_cs_skip_back(cs & s) { s.skip_back(); }
void w_cs_read_back(cs & s, w_item & o) { o = s.read_back(); }
void w_cs_seek_b(cs & s, i64 o) { s.seek(o, cs::beginning); }
void w_cs_seek_c(cs & s, i64 o) { s.seek(o, cs::current); }
void w_cs_seek_e(cs & s, i64 o) { s.seek(o, cs::end); }
u64 w_cs_offset(cs & s) { return s.offset(); }
u64 w_cs_size(cs & s) { return s.size(); }
bool w_cs_can_read(cs & s) { return s.can_read(); }
bool w_cs_can_read_back(cs & s) { return s.can_read_back(); }
void w_cs_truncate(cs & s, u64 n) { s.truncate(n); }
void w_cs_truncate_pos(cs & s, const tpie::stream_position & p) { s.truncate(p); }
tpie::stream_position w_cs_get_position(cs & s) { return s.get_position(); }
void w_cs_set_position(cs & s, const tpie::stream_position & p) { s.set_position(p); }
void w_cs_close(cs & s) { s.close(); }
void w_cs_read_array(cs & s, w_item * b, w_item * e) { s.read(b, e); }
void w_cs_write_array(cs & s, const w_item * b, const w_item * e) { s.write(b, e); }
void w_cs_open(cs & s, const std::string & p, tpie::open::type f, size_t u) { s.open(p, f, u); }
void w_cs_open_temp(cs & s, tpie::temp_file & t, tpie::open::type f, size_t u) { s.open(t, f, u); }
void w_cs_open_anon(cs & s, tpie::open::type f, size_t u) { s.open(f, u); }
size_t w_cs_read_user_data(cs & s, void * d, size_t n) { return s.read_user_data(d, n); }
void w_cs_write_user_data(cs & s, const void * d, size_t n) { s.write_user_data(d, n); }
void w_cs_construct(void * p) { new (p) cs(); }
void w_cs_destroy(cs & s) { s.~cs(); }
tpie::stream_position w_cs_end_position() { return tpie::stream_position::end(); }
