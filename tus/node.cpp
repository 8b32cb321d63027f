#include <tpie/pipelining/node.h>
using tpie::pipelining::node;
void w_nd_prepare(node & n) { n.prepare(); }
void w_nd_propagate(node & n) { n.propagate(); }
void w_nd_begin(node & n) { n.begin(); }
void w_nd_go(node & n) { n.go(); }
void w_nd_end(node & n) { n.end(); }
bool w_nd_canevacuate(node & n) { return n.can_evacuate(); }
void w_nd_evacuate(node & n) { n.evacuate(); }
bool w_nd_isgofree(node & n) { return n.is_go_free(); }
void w_nd_rchanged(node & n) { n.resource_available_changed(tpie::MEMORY, 7); }
void w_nd_availmem(node & n) { n.set_available_memory(7); }
#define STATE(x) int w_st_##x() { return (int)node::STATE_##x; }
STATE(FRESH) STATE(IN_PREPARE) STATE(AFTER_PREPARE) STATE(IN_PROPAGATE) STATE(AFTER_PROPAGATE)
STATE(IN_BEGIN) STATE(AFTER_BEGIN) STATE(IN_GO) STATE(IN_END) STATE(AFTER_END)
int w_en_NO_RESOURCE() { return (int)tpie::NO_RESOURCE; }
int w_en_FILES() { return (int)tpie::FILES; }
int w_en_MEMORY() { return (int)tpie::MEMORY; }
#define REL(x) int w_en_##x() { return (int)tpie::pipelining::bits::x; }
REL(pushes) REL(pulls) REL(depends) REL(no_forward_depends) REL(memory_share_depends)
