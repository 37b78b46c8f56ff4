// repetition vector, normalisation weights, strongly connected components, cycles, as computed by the library
#include "kh.h"
#include <models/repetition_vector.h>
#include <algorithms/normalization.h>
#include <algorithms/scc.h>
#include <algorithms/analysis/cycle_detection.h>
using namespace kh;
int main() { return run([](const Case& c, Out& o) {
	std::string what = c.str("what");
	models::Dataflow* d = build(c.g);
	if (what == "rep") {
		bool ok = computeRepetitionVector(d); o.flag("ok", ok);
		std::vector<long> n, q;
		if (ok) for (auto& t : c.g.tasks) { Vertex v = d->getVertexById((ARRAY_INDEX) t.id); n.push_back((long) d->getNi(v)); }
		o.raw("n", ints(n)); o.flag("flag", d->has_repetition_vector());
	} else if (what == "norm") {
		bool ok = algorithms::normalize(d); o.flag("ok", ok); o.flag("flag", d->is_normalized());
		std::vector<long> z, an, ad;
		if (ok) {
			for (auto& t : c.g.tasks) z.push_back((long) d->getZi(d->getVertexById((ARRAY_INDEX) t.id)));
			for (auto& h : c.g.chans) { Edge e = d->getEdgeById((ARRAY_INDEX) h.id); an.push_back((long) d->getAlpha(e).numerator()); ad.push_back((long) d->getAlpha(e).denominator()); }
		}
		o.raw("z", ints(z)); o.raw("an", ints(an)); o.raw("ad", ints(ad));
	} else if (what == "scc") {
		auto m = algorithms::computeSCCKosaraju(d);
		std::string s = "["; bool f = true;
		for (auto& k : m) { if (!f) s += ","; f = false; std::vector<long> v(k.second.begin(), k.second.end()); s += ints(v); }
		o.raw("scc", s + "]");
		models::Dataflow* e = build(c.g);
		o.str("detect", algo(e, "CycleDetection")); o.str("count", algo(e, "CycleCount")); o.str("count2", algo(e, "CycleCount"));
	}
	});
}
