#include <cstddef>
#include <tpie/compressed/scheme.h>
#include <tpie/compressed/direction.h>
using tpie::compression_scheme;
const compression_scheme & w_cz_get(compression_scheme::type t) { return tpie::get_compression_scheme(t); }
size_t w_cz_max_compressed_length(const compression_scheme & s, size_t n) { return s.max_compressed_length(n); }
void w_cz_compress(const compression_scheme & s, char * d, const char * c, size_t n, size_t * z) { s.compress(d, c, n, z); }
size_t w_cz_uncompressed_length(const compression_scheme & s, const char * c, size_t n) { return s.uncompressed_length(c, n); }
void w_cz_uncompress(const compression_scheme & s, char * d, const char * c, size_t n) { s.uncompress(d, c, n); }
int w_cz_dir_forward() { return (int)tpie::read_direction::forward; }
int w_cz_dir_backward() { return (int)tpie::read_direction::backward; }
