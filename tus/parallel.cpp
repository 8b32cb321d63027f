// Instantiations of the parallel pipelining nodes (analysed, never executed).
#include <tpie/pipelining.h>
#include <tpie/pipelining/parallel.h>

namespace tp = tpie::pipelining;
struct w_item { long a, b, c; };

template <typename dest_t>
class w_mul_t : public tp::node {
public:
	typedef w_item item_type;
	w_mul_t(dest_t dest) : dest(std::move(dest)) { add_push_destination(this->dest); }
	void push(const w_item & i);
private:
	dest_t dest;
};
w_item w_opaque(const w_item &);
template <typename dest_t> void w_mul_t<dest_t>::push(const w_item & i) { dest.push(w_opaque(i)); }
typedef tp::pipe_middle<tp::factory<w_mul_t> > w_mul;

void w_parallel(tpie::file_stream<w_item> & in, tpie::file_stream<w_item> & out) {
	tp::pipeline p = tp::input(in) | tp::parallel(w_mul(), tp::maintain_order, 4, 64) | tp::output(out);
	p();
}
