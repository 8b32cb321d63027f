// Instantiations of serialization streams (analysed, never executed).
#include <tpie/serialization_stream.h>
#include <tpie/tempname.h>

using w = tpie::serialization_writer;
using rw = tpie::serialization_reverse_writer;
using r = tpie::serialization_reader;
using rr = tpie::serialization_reverse_reader;
using u64 = tpie::stream_size_type;

void w_sw_write(w & x, const char * s, size_t n) { w::serializer z(x); z.write(s, n); }
void w_sw_open(w & x, const std::string & p) { x.open(p); }
void w_sw_open_temp(w & x, tpie::temp_file & t) { x.open(t); }
void w_sw_close(w & x) { x.close(); }
void w_sw_destroy(w & x) { x.~serialization_writer(); }

void w_rw_append(rw::serializer & z, const char * s, size_t n) { z.write(s, n); }
void w_rw_write(rw & x) { rw::serializer z(x); }
void w_rw_open(rw & x, const std::string & p) { x.open(p); }
void w_rw_open_temp(rw & x, tpie::temp_file & t) { x.open(t); }
void w_rw_close(rw & x) { x.close(); }
void w_rw_destroy(rw & x) { x.~serialization_reverse_writer(); }

void w_r_read(r & x, char * s, size_t n) { x.read(s, n); }
void w_r_open(r & x, const std::string & p) { x.open(p); }
void w_r_open_temp(r & x, tpie::temp_file & t) { x.open(t); }
void w_r_close(r & x) { x.close(); }
bool w_r_can_read(r & x) { return x.can_read(); }
u64 w_r_offset(r & x) { return x.offset(); }
u64 w_r_size(r & x) { return x.size(); }
u64 w_r_file_size(r & x) { return x.file_size(); }

void w_rr_read(rr & x, char * s, size_t n) { x.read(s, n); }
void w_rr_open(rr & x, const std::string & p) { x.open(p); }
void w_rr_open_temp(rr & x, tpie::temp_file & t) { x.open(t); }
void w_rr_close(rr & x) { x.close(); }
bool w_rr_can_read(rr & x) { return x.can_read(); }
u64 w_rr_offset(rr & x) { return x.offset(); }
u64 w_rr_size(rr & x) { return x.size(); }
u64 w_rr_file_size(rr & x) { return x.file_size(); }
