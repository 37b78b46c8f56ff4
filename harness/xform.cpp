// a registered transformation applied to the graph: the graph before and after, and what was printed
#include "kh.h"
using namespace kh;
int main() { return run([](const Case& c, Out& o) {
	models::Dataflow* d = build(c.g); parameters_list_t p;
	for (auto& a : c.args) if (a.first.substr(0, 2) == "P_") p[a.first.substr(2)] = a.second;
	o.raw("before", dump(d));
	std::string t = algo(d, c.str("algo"), p);
	o.raw("after", dump(d)); o.str("text", t);
	}); }
