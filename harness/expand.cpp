// partial expansion of a graph: what is printed, and the normalised weights of its tasks
#include "kh.h"
#include <algorithms/normalization.h>
using namespace kh;
int main() { return run([](const Case& c, Out& o) {
	models::Dataflow* d = build(c.g);
	parameters_list_t p;
	for (auto& a : c.args) if (a.first.compare(0, 2, "P_") == 0) p[a.first.substr(2)] = a.second;
	p["DOT"] = "1";
	o.str("text", algo(d, "PartialExpansion", p));
	models::Dataflow* e = build(c.g);
	std::vector<long> z; if (algorithms::normalize(e)) for (auto& t : c.g.tasks) z.push_back((long) e->getZi(e->getVertexById((ARRAY_INDEX) t.id)));
	o.raw("z", ints(z));
	});
}
