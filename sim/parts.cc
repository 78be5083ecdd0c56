// registry and data source of the component library; never instrumented
#include "parts.hh"
#include <cmath>

namespace sim {

static std::vector<Info> &list()
{
	static std::vector<Info> l;
	return l;
}

const std::vector<Info> &parts()
{
	static bool sorted = false;
	if (!sorted) {
		// order of static initialisers is the linker's business
		std::vector<Info> &l = list();
		for (size_t i = 1; i < l.size(); ++i)
			for (size_t j = i; j > 0 && strcmp(l[j].name, l[j-1].name) < 0; --j)
				std::swap(l[j], l[j-1]);
		sorted = true;
	}
	return list();
}

void add_part(const Info &i) { list().push_back(i); }

double In::unit() { return double(int64_t(rng.next() >> 40) - (1 << 23)) / double(1 << 23); }

double In::real()
{
	if (given && left > 0) {
		--left;
		return *given++;
	}
	switch (style & 3) {
	case 1: return double(rng.range(-3, 3));
	case 2: return std::ldexp(unit(), int(rng.range(-20, 20)));
	case 3: return rng.chance(1, 3) ? 0.25 : rng.chance(1, 2) ? -1 : unit();
	default: return unit();
	}
}

int64_t In::integer(int64_t lo, int64_t hi) { return rng.range(lo, hi); }

bool In::retune() { return rng.chance(1, style & 4 ? 2 : 16); }

void Out::word(uint64_t w)
{
	hash = (hash ^ w) * 0x100000001b3ull;
	hash ^= hash >> 29;
	++n;
}

void Out::put(double d)
{
	uint64_t w;
	if (d != d)
		d = 0x7ff8dead;
	memcpy(&w, &d, sizeof w);
	if (n < int(sizeof v / sizeof v[0]))
		v[n] = d;
	word(w);
}

void Out::bad(const char *what) { damage = what; }

}
