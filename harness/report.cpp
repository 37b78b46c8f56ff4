// what the printers say about a graph: table, drawing (full, simple), generated C++ program
#include "kh.h"
#include <printers/stdout.h>
#include <fstream>
using namespace kh;
static std::string extras(const models::Dataflow* d) {
	std::string t = "["; bool first = true;
	{ForEachEdge(d, e) { t += (first ? "" : ",") + q(d->getEdgeTypeStr(e)); first = false; }}
	return t + "]";
}
int main() { return run([](const Case& c, Out& o) {
	models::Dataflow* d = build(c.g);
	if (c.has("app")) d->setAppName(c.str("app"));
	if (c.has("type")) d->setGraphType(c.str("type"));
	for (auto& a : c.args) if (a.first.substr(0, 2) == "B_") d->setEdgeType(d->getEdgeById(std::stol(a.first.substr(2))), EDGE_TYPE::BUFFERLESS_EDGE);
	o.str("app", d->getAppName()); o.str("name", d->getGraphName()); o.str("type", d->getGraphType());
	o.raw("before", dump(d)); o.raw("etypes", extras(d));
	parameters_list_t v; v["verbose"] = "1";
	auto file = [&](const std::string& a) {
		if (!c.num("file")) return algo(d, a);
		parameters_list_t p; std::string path = "/tmp/kh_rep_" + std::to_string(getpid()); p["filename"] = path; algo(d, a, p);
		std::ifstream f(path); std::stringstream b; b << f.rdbuf(); unlink(path.c_str()); return b.str(); };
	for (char k : c.str("order", "sdfgi")) {
		if (k == 's') o.str("script", c.num("verbose") ? algo(d, "PrintKiter", v) : algo(d, "PrintKiter"));
		if (k == 'd') o.str("dot", file("PrintGraph"));
		if (k == 'f') o.str("full", printers::GenerateGraphDOT(d, false));
		if (k == 'g') o.str("simple", printers::GenerateGraphDOT(d, true));
		if (k == 'i') o.str("infos", algo(d, "PrintInfos"));
	}
	o.raw("after", dump(d));
	}); }
