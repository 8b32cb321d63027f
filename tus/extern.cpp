// instantiates the external stack and queue and the internal queue, stack and vector
#include <tpie/stack.h>
#include <tpie/queue.h>
#include <tpie/internal_queue.h>
#include <tpie/internal_stack.h>
#include <tpie/internal_vector.h>
template class tpie::stack<long>;
template class tpie::queue<long>;
template class tpie::internal_queue<long>;
template class tpie::internal_stack_vector_base<long, tpie::internal_vector<long>>;
template class tpie::internal_stack<long>;
template class tpie::internal_vector<long>;
