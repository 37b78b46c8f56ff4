// the drawings of a schedule (given by lines "n starts.. period m starts..", or made by the library: ARG by=)
#include "kh.h"
#include <algorithms/schedulings.h>
#include <models/repetition_vector.h>
#include <models/Scheduling.h>
#include <printers/stdout.h>
using namespace kh;
int main() { return run([](const Case& c, Out& o) {
	models::Dataflow* d = build(c.g);
	if (!computeRepetitionVector(d)) { o.str("by", "inconsistent"); return; }
	scheduling_t s; size_t i = 0;
	for (auto& l : c.lines) {
		std::istringstream in(l); size_t n; long double x; task_schedule_t ts;
		in >> n; while (n--) { in >> x; ts.initial_starts.push_back(x); }
		in >> ts.periodic_starts.first >> n; while (n--) { in >> x; ts.periodic_starts.second.push_back(x); }
		s.set((ARRAY_INDEX) c.g.tasks.at(i++).id, ts);
	}
	const std::string by = c.str("by", "given");
	models::Scheduling sc = by == "1P" ? algorithms::scheduling::CSDF_1PeriodicScheduling(d) : by == "KP" ? algorithms::scheduling::CSDF_KPeriodicScheduling(d) :
		by == "SP" ? algorithms::scheduling::CSDF_SPeriodicScheduling(d) :  models::Scheduling(d, 1, s);
	auto f = [](TIME_UNIT x){ return ld(x); };
	auto all = sc.getTaskSchedule(); std::vector<std::string> rows;
	for (auto& t : c.g.tasks) { auto& x = all[(ARRAY_INDEX) t.id];
		rows.push_back("{\"is\":" + arr(x.initial_starts.begin(), x.initial_starts.end(), f) + ",\"p\":" + ld(x.periodic_starts.first) + ",\"ps\":" + arr(x.periodic_starts.second.begin(), x.periodic_starts.second.end(), f) + "}"); }
	o.raw("sched", arr(rows.begin(), rows.end(), [](const std::string& x){ return x; }));
	o.real("omega", sc.getGraphPeriod());
	for (char k : c.str("order", "atkd")) {
		if (k == 'a') o.str("ascii", sc.asASCII((int) c.num("line", 60)));
		if (k == 't') o.str("text", sc.asText());
		if (k == 'k') o.str("tikz", printers::Scheduling2Tikz(sc));
		if (k == 'd') { if (c.num("twice")) printers::PeriodicScheduling2DOT(d, sc, 7, false, 3, 5);
			o.str("dot", printers::PeriodicScheduling2DOT(d, sc, c.real("until"), false, c.real("xs", 1), c.real("ys", 1))); }
	}
	}); }
