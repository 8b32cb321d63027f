// entry points that make the virtual calls of tpie::job visible
#include <tpie/job.h>
struct w_job : tpie::job {
	void w_on_done() { on_done(); }
};
__attribute__((noinline)) void w_v_call(tpie::job *j) { (*j)(); }
__attribute__((noinline)) void w_v_on_done(w_job *j) { j->w_on_done(); }
