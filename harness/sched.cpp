// periodic schedules returned by the library.  Lines: "1P" "KP" "SP" "V k1 k2 .." "LP k1 k2 .." "RLP"
#include "kh.h"
#include <algorithms/throughput/kperiodic.h>
#include <algorithms/schedulings.h>
#include <models/repetition_vector.h>
#include <models/Scheduling.h>
using namespace kh;
models::Scheduling period2Scheduling (const models::Dataflow* const, const periodicity_vector_t&, kperiodic_result_t&);
static std::string text(const Case& c, models::Scheduling s, models::Dataflow* d, bool crit) {
	auto f = [](TIME_UNIT x){ return ld(x); };
	std::string r = "{\"omega\":" + ld(s.getGraphPeriod()) + ",\"tasks\":[";
	auto sc = s.getTaskSchedule(); bool first = true;
	for (auto& t : c.g.tasks) {
		if (!first) r += ","; first = false;
		auto& x = sc[(ARRAY_INDEX) t.id];
		r += "{\"is\":" + arr(x.initial_starts.begin(), x.initial_starts.end(), f) + ",\"p\":" + ld(x.periodic_starts.first) +
		     ",\"ps\":" + arr(x.periodic_starts.second.begin(), x.periodic_starts.second.end(), f) + "}";
	}
	r += "]";
	return r + "}";
}
int main() { return run([](const Case& c, Out& o) {
	std::vector<std::string> res;
	for (auto& l : c.lines) {
		std::istringstream s(l); std::string k; s >> k;
		models::Dataflow* d = build(c.g);
		if (!computeRepetitionVector(d)) { res.push_back("{\"omega\":\"nan\",\"tasks\":[]}"); continue; }
		periodicity_vector_t kv; long x; size_t i = 0;
		while (s >> x) kv[d->getVertexById((ARRAY_INDEX) c.g.tasks.at(i++).id)] = x;
		if (k == "1P") res.push_back(text(c, algorithms::scheduling::CSDF_1PeriodicScheduling(d), d, true));
		else if (k == "KP") res.push_back(text(c, algorithms::scheduling::CSDF_KPeriodicScheduling(d), d, true));
		else if (k == "SP") res.push_back(text(c, algorithms::scheduling::CSDF_SPeriodicScheduling(d), d, true));
		else if (k == "RLP") res.push_back(text(c, algorithms::scheduling::CSDF_RealPeriodicScheduling_LP(d), d, false));
		else if (k == "LP") res.push_back(text(c, algorithms::scheduling::CSDF_KPeriodicScheduling_LP(d, kv), d, false));
		else if (k == "V") { kperiodic_result_t r = algorithms::KSchedule(d, &kv); res.push_back(text(c, period2Scheduling(d, kv, r), d, true)); }
	}
	o.raw("sched", arr(res.begin(), res.end(), [](const std::string& x){ return x; }));
	});
}
