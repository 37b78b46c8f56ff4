// the schedule validator on a given schedule.  Lines (one per task, in order): "n starts.. period m starts.."
#include "kh.h"
#include <algorithms/schedulings.h>
#include <models/repetition_vector.h>
#include <models/Scheduling.h>
using namespace kh;
int main() { return run([](const Case& c, Out& o) {
	models::Dataflow* d = build(c.g);
	if (!computeRepetitionVector(d)) { o.str("verdict", "inconsistent"); return; }
	if (c.has("by")) {            // a schedule made by the library itself
		auto f = [](TIME_UNIT x){ return ld(x); }; const std::string by = c.str("by");
		models::Scheduling sc = by == "1P" ? algorithms::scheduling::CSDF_1PeriodicScheduling(d) : by == "KP" ? algorithms::scheduling::CSDF_KPeriodicScheduling(d) : algorithms::scheduling::CSDF_SPeriodicScheduling(d);
		o.raw("omega", ld(sc.getGraphPeriod())); auto all = sc.getTaskSchedule(); std::vector<std::string> rows;
		for (auto& t : c.g.tasks) { auto& x = all[(ARRAY_INDEX) t.id];
			rows.push_back("{\"is\":" + arr(x.initial_starts.begin(), x.initial_starts.end(), f) + ",\"p\":" + ld(x.periodic_starts.first) + ",\"ps\":" + arr(x.periodic_starts.second.begin(), x.periodic_starts.second.end(), f) + "}"); }
		o.raw("sched", arr(rows.begin(), rows.end(), [](const std::string& x){ return x; }));
		o.str("verdict", std::isfinite((double) sc.getGraphPeriod()) && sc.getGraphPeriod() > 0 ? sc.is_valid_schedule() ? "yes" : "no" : "none"); return;
	}
	scheduling_t s; size_t i = 0;
	for (auto& l : c.lines) {
		std::istringstream in(l); size_t n; long double x; task_schedule_t ts;
		in >> n; while (n--) { in >> x; ts.initial_starts.push_back(x); }
		in >> ts.periodic_starts.first >> n; while (n--) { in >> x; ts.periodic_starts.second.push_back(x); }
		s.set((ARRAY_INDEX) c.g.tasks.at(i++).id, ts);
	}
	models::Scheduling sc(d, (TIME_UNIT) c.real("omega"), s);
	o.str("verdict", sc.is_valid_schedule() ? "yes" : "no");
	o.str("again", sc.is_valid_schedule() ? "yes" : "no");
	});
}
