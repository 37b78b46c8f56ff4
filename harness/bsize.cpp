// buffer sizes computed for a period.  Lines: "PER p ilp" "SP p ilp" "BURST|AVERAGE|MINMAX|WIGGERS p ilp" (library calls),
// "CMD algorithm p offset|-" (the command's text), "VB p mul" (the graph AddVBuffers leaves)
#include "kh.h"
#include <algorithms/buffersizing.h>
#include <algorithms/buffersizing/periodic.h>
#include <algorithms/buffersizing/periodic_fixed.h>
#include <models/repetition_vector.h>
using namespace kh;
static std::string sizes(const Case& c, models::Dataflow* d, BufferSizingResult r, bool each) {
	std::string s = "{\"valid\":" + std::string(r.is_valid() ? "true" : "false") + ",\"total\":" + std::to_string((long) r.total_size()) + ",\"each\":[";
	if (each && r.is_valid()) for (size_t i = 0; i < c.g.chans.size(); i++) s += (i ? "," : "") + ld(r.get_edge_size((ARRAY_INDEX) c.g.chans[i].id));
	return s + "]}";
}
int main() { return run([](const Case& c, Out& o) {
	std::vector<std::string> res;
	for (auto& l : c.lines) {
		std::istringstream s(l); std::string k, x, y; s >> k >> x >> y;
		models::Dataflow* d = build(c.g);
		std::string r;
		capture([&]{
			if (k == "CMD") { std::string off; s >> off; parameters_list_t p; p["PERIOD"] = y; if (off != "-") p["OFFSET"] = off; r = q(algo(d, x, p)); }
			else if (k == "VB") { parameters_list_t p; p["PERIOD"] = x; p["MUL"] = y; algo(d, "AddVBuffers", p); r = dump(d); }
			else {
				TIME_UNIT p = commons::fromString<TIME_UNIT>(x); bool ilp = y == "1";
				std::map<Vertex, std::vector<TIME_UNIT>> off; computeRepetitionVector(d); bool ok = true;
				if (k == "PER") { r = sizes(c, d, algorithms::periodic_memory_sizing_csdf(d, p, ilp, false), false); return; }
				if (k == "SP") { r = sizes(c, d, algorithms::speriodic_memory_sizing_csdf(d, p, ilp, false), true); return; }
				if (k == "BURST") ok = algorithms::generateBurstOffsets(d, off);
				if (k == "AVERAGE") ok = algorithms::generateAverageOffsets(d, p, off);
				if (k == "MINMAX") ok = algorithms::generateMinMaxOffsets(d, p, off);
				if (k == "WIGGERS") ok = algorithms::generateWiggersOffsets(d, p, off);
				if (!ok) { r = "{\"valid\":false,\"total\":0,\"each\":[]}"; return; }
				std::string os = "["; for (size_t i = 0; i < c.g.tasks.size(); i++) { auto& v = off[d->getVertexById((ARRAY_INDEX) c.g.tasks[i].id)];
					os += (i ? "," : "") + arr(v.begin(), v.end(), [](TIME_UNIT t){ return ld(t); }); }
				std::string z = sizes(c, d, algorithms::compute_periodic_fixed_memory(d, off, p, ilp, false), true);
				r = z.substr(0, z.size() - 1) + ",\"offsets\":" + os + "]}";
			}
		});
		res.push_back(r);
	}
	o.raw("res", arr(res.begin(), res.end(), [](const std::string& x){ return x; }));
	});
}
