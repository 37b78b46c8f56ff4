// chains graph -> document -> graph -> document ... (ARG start=graph|doc, the document in L lines; ARG file=1 goes through files)
#include "kh.h"
#include <printers/SDF3Wrapper.h>
#include <fstream>
using namespace kh;
static std::string full(const models::Dataflow* d) {
	std::string t = "["; bool first = true;
	{ForEachVertex(d, v) { t += (first ? "" : ",") + q(d->getVertexType(v)); first = false; }}
	return "{\"kind\":\"graph\",\"app\":" + q(d->getAppName()) + ",\"name\":" + q(d->getGraphName()) + ",\"type\":" + q(d->getGraphType()) + ",\"types\":" + t + "],\"dump\":" + dump(d) + "}";
}
int main() { return run([](const Case& c, Out& o) {
	std::string res = "["; models::Dataflow* d = nullptr; std::string text; bool file = c.num("file");
	std::string path = "/tmp/kh_xml_" + std::to_string(getpid()) + ".xml";
	auto add = [&](const std::string& s) { res += (res.size() > 1 ? "," : "") + s; };
	auto read = [&] {
		if (file) { { std::ofstream f(path); f << text; } d = printers::readSDF3File(path); unlink(path.c_str()); }
		else d = printers::parseSDF3XML(text);
		if (d) add(full(d)); else add("{\"kind\":\"none\"}"); };
	auto write = [&] {
		if (file) { printers::writeSDF3File(path, d); std::ifstream f(path); std::stringstream b; b << f.rdbuf(); text = b.str(); unlink(path.c_str()); }
		else text = printers::generateSDF3XML(d);
		add("{\"kind\":\"doc\",\"text\":" + q(text) + "}"); };
	if (c.str("start") == "doc") { for (auto& l : c.lines) text += l + "\n"; read(); }
	else {
		d = build(c.g);
		for (auto& a : c.args) {
			if (a.first.substr(0, 2) == "V_") d->setVertexName(d->getVertexById(std::stol(a.first.substr(2))), a.second);
			if (a.first.substr(0, 2) == "E_") d->setEdgeName(d->getEdgeById(std::stol(a.first.substr(2))), a.second);
			if (a.first.substr(0, 2) == "Y_") d->setVertexType(d->getVertexById(std::stol(a.first.substr(2))), a.second);
			if (a.first == "app") d->setAppName(a.second);
			if (a.first == "type") d->setGraphType(a.second);
		}
		add(full(d));
	}
	for (long i = 0; i < c.num("turns", 2) && d; i++) { write(); read(); }
	o.raw("chain", res + "]");
	}); }
