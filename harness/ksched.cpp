// throughput of the K-periodic scheduling problem for given periodicity vectors (lines "k1 k2 ...", task order)
#include "kh.h"
#include <algorithms/throughput/kperiodic.h>
#include <algorithms/schedulings.h>
#include <models/repetition_vector.h>
using namespace kh;
int main() { return run([](const Case& c, Out& o) {
	std::vector<std::string> r;
	for (auto& l : c.lines) {
		models::Dataflow* d = build(c.g);
		computeRepetitionVector(d);
		std::istringstream s(l); periodicity_vector_t k; size_t i = 0; long x;
		while (s >> x) { k[d->getVertexById((ARRAY_INDEX) c.g.tasks.at(i++).id)] = x; }
		r.push_back(ld(algorithms::KSchedule(d, &k).throughput));
	}
	o.raw("thr", arr(r.begin(), r.end(), [](const std::string& x){ return x; }));
	std::istringstream s(c.str("algo")); std::string n;
	while (s >> n) { models::Dataflow* d = build(c.g); o.str(n, algo(d, n)); }
	});
}
