// runs registered algorithms by name and reports what they print; ARG P_<name> passes parameter <name>
#include "kh.h"
using namespace kh;
int main() { return run([](const Case& c, Out& o) {
	parameters_list_t p;
	for (auto& a : c.args) if (a.first.compare(0, 2, "P_") == 0) p[a.first.substr(2)] = a.second;
	std::istringstream s(c.str("algo")); std::string n;
	while (s >> n) { models::Dataflow* d = build(c.g); o.str(n, algo(d, n, p)); }
	});
}
