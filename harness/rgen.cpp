// graphs made by a registered generator: once, then again after another one was made
#include "kh.h"
using namespace kh;
int main() { return run([](const Case& c, Out& o) {
	parameters_list_t p; for (auto& a : c.args) if (a.first.substr(0, 2) == "P_") p[a.first.substr(2)] = a.second;
	const generator_t* g = KiterRegistry<generator_t>::get(c.str("gen"));
	models::Dataflow* a = g->fun(p); o.raw("g", dump(a));
	parameters_list_t r = p; r["seed"] = c.str("other", "7"); delete g->fun(r);
	o.raw("same", dump(g->fun(p)));
	}); }
