// event graphs.  mode "ratio": a graph given by lines "s t num den d" (weight num/den, duration d) is solved by
// MinCycleRatio / MaxCycleRatio, and start times are computed for the periods in "omegas".
// mode "refine": the refinement loop of the K-periodic analysis, with the event graph after each step and the
// one generated from scratch for the same periodicity vector.
#include "kh.h"
#include <models/EventGraph.h>
#include <models/repetition_vector.h>
#include <algorithms/throughput/kperiodic.h>
#include <algorithms/schedulings.h>
#include <algorithms/normalization.h>
using namespace kh;
static std::string ev(const models::SchedulingEvent& e) { return "[" + std::to_string((long) e.getTaskId()) + "," + std::to_string((long) e.getTaskPhase()) + "," + std::to_string((long) e.getTaskOc()) + "]"; }
static std::string con(const models::SchedulingEventConstraint& c) { return "{\"s\":" + ev(c._s) + ",\"t\":" + ev(c._t) + ",\"w\":" + ld(c._w) + ",\"d\":" + ld(c._d) + ",\"id\":" + std::to_string((long) c._id) + "}"; }
static std::string all(models::EventGraph* g) {
	std::vector<std::string> e, k;
	{ForEachEvent(g, v) { e.push_back(ev(g->getEvent(v))); }}
	{ForEachConstraint(g, x) { k.push_back(con(g->getConstraint(x))); }}
	auto id = [](const std::string& x){ return x; };
	return "{\"events\":" + arr(e.begin(), e.end(), id) + ",\"cons\":" + arr(k.begin(), k.end(), id) + "}";
}
static std::string circ(models::EventGraph* g, const std::vector<models::EventGraphEdge>& c) { return arr(c.begin(), c.end(), [g](const models::EventGraphEdge& e){ return con(g->getConstraint(e)); }); }
int main() { return run([](const Case& c, Out& o) {
	if (c.str("mode") == "ratio") {
		models::EventGraph g; long n = c.num("n"); std::vector<models::EventGraphVertex> v;
		for (long i = 1; i <= n; i++) v.push_back(g.addEvent(models::SchedulingEvent((ARRAY_INDEX) i, 1, 1)));
		ARRAY_INDEX id = 0;
		for (auto& l : c.lines) { std::istringstream s(l); long a, b, p, q, d; s >> a >> b >> p >> q >> d; g.addEventConstraint(v.at(a - 1), v.at(b - 1), (TIME_UNIT) p / (TIME_UNIT) q, (TIME_UNIT) d, ++id); }
		auto mn = g.MinCycleRatio(); o.real("min", mn.first); o.raw("minc", circ(&g, mn.second));
		auto mx = g.MaxCycleRatio(); o.real("max", mx.first); o.raw("maxc", circ(&g, mx.second));
		std::istringstream s(c.str("omegas")); std::string w; std::string r;
		while (s >> w) {
			bool ok = g.computeStartingTimeWithOmega(w == "inf" ? std::numeric_limits<TIME_UNIT>::infinity() : (TIME_UNIT) std::stold(w));
			std::vector<std::string> st; for (auto x : v) st.push_back(ld(g.getStartingTime(x)));
			r += (r.empty() ? "" : ",") + std::string("{\"ok\":") + (ok ? "true" : "false") + ",\"st\":" + arr(st.begin(), st.end(), [](const std::string& x){ return x; }) + "}";
		}
		o.raw("starts", "[" + r + "]");
		return;
	}
	models::Dataflow* d = build(c.g); computeRepetitionVector(d);
	periodicity_vector_t k; for (auto& t : c.g.tasks) k[d->getVertexById((ARRAY_INDEX) t.id)] = 1;
	auto kv = [&]{ return arr(c.g.tasks.begin(), c.g.tasks.end(), [&](const TaskSpec& t){ return std::to_string((long) k.at(d->getVertexById((ARRAY_INDEX) t.id))); }); };
	models::EventGraph* g = algorithms::generateKPeriodicEventGraph(d, &k);
	std::string steps; bool done = false; long n = 0, limit = c.num("steps", 6);
	while (!done && n++ < limit) {
		auto r = g->MinCycleRatio(); critical_circuit_t cc;
		for (auto& e : r.second) if (g->getChannelId(e)) cc.insert(d->getEdgeById(g->getChannelId(e)));
		if (c.has("scan")) { steps += (n > 1 ? "," : "") + kv(); done = !algorithms::updateEventGraph(d, &k, &cc, g); continue; }
		periodicity_vector_t k0 = k; kperiodic_result_t ks = algorithms::KSchedule(d, &k0);
		models::EventGraph* f = algorithms::generateKPeriodicEventGraph(d, &k);
		std::vector<long> ce; for (auto e : ks.critical_edges) ce.push_back((long) d->getEdgeId(e));
		if (n > 1) steps += ",";
		steps += "{\"k\":" + kv() + ",\"g\":" + all(g) + ",\"fresh\":" + all(f) + ",\"ratio\":" + ld(r.first) + ",\"circuit\":" + circ(g, r.second) + ",\"thr\":" + ld(ks.throughput) + ",\"ce\":" + ints(ce) + "}";
		delete f;
		done = !algorithms::updateEventGraph(d, &k, &cc, g);
	}
	o.flag("done", done); o.raw("steps", "[" + steps + "]");
	});
}
