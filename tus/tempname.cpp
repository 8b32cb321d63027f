// Uses of temporary files (analysed, never executed).
#include <tpie/tempname.h>
using tpie::bits::temp_file_inner;
bool w_tf_is_persistent(temp_file_inner & t) { return t.is_persistent(); }
void w_tf_set_persistent(temp_file_inner & t, bool b) { t.set_persistent(b); }
void w_tf_destroy(temp_file_inner & t) { t.~temp_file_inner(); }
void w_tf_default(void * p) { new (p) temp_file_inner(); }
void w_tf_path(void * p, const std::string & s, bool b) { new (p) temp_file_inner(s, b); }
const std::string & w_tf_get_path(temp_file_inner & t) { return t.path(); }
void w_tf_update(temp_file_inner & t, tpie::stream_size_type n) { t.update_recorded_size(n); }
void w_tf_add(temp_file_inner * t) { intrusive_ptr_add_ref(t); }
void w_tf_release(temp_file_inner * t) { intrusive_ptr_release(t); }
std::string w_tn_actual() { return tpie::tempname::get_actual_path(); }
std::string w_tn_name(const std::string & b, const std::string & d, const std::string & e) { return tpie::tempname::tpie_name(b, d, e); }
std::string w_tn_dir(const std::string & b, const std::string & d) { return tpie::tempname::tpie_dir_name(b, d); }
void w_tn_set(const std::string & p, const std::string & s) { tpie::tempname::set_default_path(p, s); }
const std::string & w_tn_get() { return tpie::tempname::get_default_path(); }
void w_tn_finish() { tpie::finish_tempfile(); }
bool w_tn_try(const std::string & p) { return tpie::tempname::try_directory(p); }
