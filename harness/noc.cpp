// network on chip: mesh construction, mapping, routing, modelling of the communications
#include "kh.h"
#include <models/NoC.h>
#include <algorithms/mappings.h>
#include <models/repetition_vector.h>
using namespace kh;
static std::string maps(models::Dataflow* d) {
	std::vector<std::string> r; {ForEachVertex(d, v) { r.push_back("[" + std::to_string((long) d->getVertexId(v)) + "," + std::to_string((long) d->getMapping(v)) + "]"); }}
	return arr(r.begin(), r.end(), [](const std::string& x){ return x; });
}
static std::string routes(models::Dataflow* d) {
	std::vector<std::string> r; {ForEachEdge(d, e) { r.push_back("[" + std::to_string((long) d->getEdgeId(e)) + "," + ints(d->getRoute(e)) + "]"); }}
	return arr(r.begin(), r.end(), [](const std::string& x){ return x; });
}
int main() { return run([](const Case& c, Out& o) {
	models::Dataflow* d = build(c.g); srand((unsigned) c.num("seed", 1));
	if (c.has("mesh")) { std::istringstream s(c.str("mesh")); int x, y; s >> x >> y; NoC n(x, y); d->setNoC(n); }
	for (auto& l : c.lines) { std::istringstream in(l); long t, n; if (in >> t >> n) d->setMapping(d->getVertexById((ARRAY_INDEX) t), (node_id_t) n); }
	std::istringstream s(c.str("algos")); std::string n;
	parameters_list_t p; for (auto& a : c.args) if (a.first.rfind("P_", 0) == 0) p[a.first.substr(2)] = a.second;
	std::string steps; bool first = true;
	while (s >> n) {
		std::string text = algo(d, n, p);
		steps += (first ? "" : ",") + std::string("{\"algo\":") + q(n) + ",\"map\":" + maps(d) + ",\"routes\":" + routes(d) + (n == "PrintMapping" ? ",\"text\":" + q(text) + ",\"g\":" + dump(d) : "") + "}"; first = false;
	}
	o.raw("steps", "[" + steps + "]");
	const NoC& k = d->getNoC(); o.num("xs", k.getXSize()); o.num("ys", k.getYSize());
	o.raw("nodes", arr(k.getNodes().begin(), k.getNodes().end(), [](const NetworkNode& x){ return "[" + std::to_string(x.id) + "," + std::to_string((int) x.type) + "," + std::to_string((long) std::floor(x.x)) + "," + std::to_string((long) std::floor(x.y)) + "]"; }));
	o.raw("places", arr(k.getNodes().begin(), k.getNodes().end(), [](const NetworkNode& x){ return "[" + std::to_string(x.id) + "," + std::to_string(std::lround(x.x * 1000)) + "," + std::to_string(std::lround(x.y * 1000)) + "]"; }));
	o.raw("edges", arr(k.getEdges().begin(), k.getEdges().end(), [](const NetworkEdge& x){ return "[" + std::to_string(x.id) + "," + std::to_string(x.src) + "," + std::to_string(x.dst) + "]"; }));
	o.raw("g", dump(d));
	});
}
