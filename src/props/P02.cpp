// P02: no model file crashes the library
#include "loads.hpp"
const char* PROP_ID = "P02";
const char* PROP_RULE =
    "non-trivial: the model was damaged (at least one mutation applied), and either it was refused "
    "with an error or the system was created in spite of the damage and then driven";
int PROP_CPU_LIMIT = 20;

static std::vector<std::string>
split_lines(const std::string& s)
{
	std::vector<std::string> v;
	size_t a = 0;
	while (a < s.size()) {
		size_t b = s.find('\n', a);
		if (b == std::string::npos)
			b = s.size();
		v.push_back(s.substr(a, b - a));
		a = b + 1;
	}
	return v;
}
static std::vector<std::string>
split_words(const std::string& s)
{
	std::vector<std::string> v;
	std::istringstream i(s);
	std::string w;
	while (i >> w)
		v.push_back(w);
	return v;
}

static const std::vector<std::string> WORDS = {
	"0",       "-1",         "1",       "2",      "3",       "-3",     "99",      "2.5",
	"nan",     "inf",        "-",       "abc",    "1|2",     "1|2|3",  "|",       "||",
	"1|2|3|4", "R1A",        "R1B",     "R9A",    "R1",      "R",      "RA",      "9",
	"Fixed",   "Free",       "Coupled", "Pinned", "Vessel",  "Body1",  "Body9",   "Body",
	"Body0",   "Turbine1",   "Coupled", "CoupledPinned", "Body1Pinned", "VesPin", "missing.txt",
	"main",    "---",        "L1N99PX", "L9N1PX", "FairTen9", "FairTen", "L0NBT", "R9PX",
	"P9PX",    "B9PX",       "L1",      "LN",     "P",       "1e30",   "-1e30",   "1e400",
	"Body1Pinned", "Anchor", "Connect", "\xc3\xa9\xff", "\"", "TenEnd", "999", "Point1", "Con1", "N", "R1NB", "L-1NAT", "R0N1FX"
};
static const std::vector<std::string> HEADS = {
	"---- LINE TYPES ----", "---- ROD TYPES ----", "---- BODIES ----",  "---- BODY LIST ----",
	"---- RODS ----",       "---- ROD LIST ----",  "---- POINTS ----",  "---- CONNECTION PROPERTIES ----",
	"---- LINES ----",      "---- LINE LIST ----", "---- FAILURE ----", "---- OPTIONS ----",
	"---- OUTPUTS ----",    "---- FOO ----",       "---- END ----",     "---"
};
static const std::vector<std::string> OPTS = {
	"foo tScheme", "rk4 tScheme", "0 WaveKin", "1 WaveKin", "2 WaveKin", "3 WaveKin", "4 WaveKin", "5 WaveKin",
	"6 WaveKin", "7 WaveKin", "8 WaveKin", "-1 WaveKin", "1 Currents", "2 Currents", "3 Currents",
	"4 Currents", "5 Currents", "6 Currents", "1 dtWave", "0 dtWave", "-1 dtWave", "missing.txt SeafloorFile",
	"bath.txt SeafloorFile", "2 writeLog", "-1 writeLog", "3 disableOutput", "0.1 CFL", "0 CFL", "0 WtrDpth",
	"missing.txt WtrDpth", "bath.txt WtrDpth", "1 UnifyCurrentGrid", "dtM", "0.1", "abc abc", "0 dtOut",
	"1 ICgenDynamic", "-1 TmaxIC", "0 dtIC"
};

static std::string
mutate_text(Gen& g, const std::string& text, int& n)
{
	auto L = split_lines(text);
	auto join = [&] {
		std::string s;
		for (auto& l : L)
			s += l + "\n";
		return s;
	};
	int k = g.range(1, 4);
	bool cut = false;
	std::string out;
	for (int q = 0; q < k && L.size(); q++) {
		size_t i = g.draw(L.size());
		auto W = split_words(L[i]);
		auto put = [&] {
			L[i].clear();
			for (auto& w : W)
				L[i] += (L[i].empty() ? "" : " ") + w;
		};
		n++;
		switch (g.weighted({ 8, 6, 5, 3, 3, 2, 2, 2, 2, 2, 2, 1 })) {
			case 0: // replace a word
				if (W.size()) {
					W[g.draw(W.size())] = g.pick(WORDS);
					put();
				}
				break;
			case 1: // drop the tail of a line
				if (W.size()) {
					W.resize(g.draw(W.size()));
					put();
				}
				break;
			case 2: // drop a line
				L.erase(L.begin() + i);
				break;
			case 3: // repeat a line
				L.insert(L.begin() + i, L[i]);
				break;
			case 4: // drop a word
				if (W.size()) {
					W.erase(W.begin() + g.draw(W.size()));
					put();
				}
				break;
			case 5: // swap two lines
				std::swap(L[i], L[g.draw(L.size())]);
				break;
			case 6: // another header
				L.insert(L.begin() + i, g.pick(HEADS));
				break;
			case 7: // cut the file
				L.resize(i);
				break;
			case 8: { // an option
				L.insert(L.begin() + i, g.pick(OPTS));
				break;
			}
			case 9: { // outputs
				L.insert(L.begin() + i, g.pick(HEADS));
				L.insert(L.begin() + i + 1, g.pick(WORDS));
				break;
			}
			case 10: { // insert a word
				W.insert(W.begin() + g.draw(W.size() + 1), g.pick(WORDS));
				put();
				break;
			}
			case 11: // cut in the middle of a line, without a line end
				if (!cut) {
					L.resize(i + 1);
					L[i] = L[i].substr(0, g.draw(L[i].size() + 1));
					cut = true;
				}
				break;
		}
	}
	out = join();
	if (cut && out.size())
		out.pop_back();
	if (g.chance(1, 10)) {
		std::string o2;
		for (char ch : out) {
			if (ch == '\n')
				o2 += '\r';
			o2 += ch;
		}
		out = o2;
		n++;
	}
	return out;
}

// A fault which makes a model meaningless: the model has to be refused
static std::string
fatal_fault(Gen& g, const std::string& text, std::string& out)
{
	auto L = split_lines(text);
	struct Row
	{
		size_t i;
		std::string sec;
	};
	std::vector<Row> rows;
	std::string sec;
	size_t first = 0;
	for (size_t i = 0; i < L.size(); i++) {
		if (L[i].find("---") != std::string::npos) {
			auto w = split_words(L[i]);
			sec.clear();
			for (auto& x : w)
				if (x.find("---") == std::string::npos)
					sec += (sec.empty() ? "" : " ") + x;
			first = i + 3;
			if (sec == "OPTIONS")
				first = i + 1;
			continue;
		}
		static const std::vector<std::string> secs = { "LINE TYPES", "ROD TYPES", "BODIES", "RODS",
			                                           "POINTS",     "LINES",     "OPTIONS" };
		if (i >= first && std::count(secs.begin(), secs.end(), sec))
			rows.push_back({ i, sec });
	}
	Row r = g.pick(rows);
	auto W = split_words(L[r.i]);
	std::string what = r.sec + ": ";
	size_t need = r.sec == "LINE TYPES" ? 10
	              : r.sec == "ROD TYPES" ? 7
	              : r.sec == "BODIES"    ? 14
	              : r.sec == "RODS"      ? 11
	              : r.sec == "POINTS"    ? 9
	              : r.sec == "LINES"     ? 7
	                                     : 0;
	struct Edit
	{
		size_t k;
		std::string v;
	};
	std::vector<Edit> ed;
	if (r.sec == "LINE TYPES")
		ed = { { 3, "missing.dat" }, { 5, "missing.dat" }, { 4, "missing.dat" } };
	else if (r.sec == "BODIES")
		ed = { { 9, "1|2" }, { 10, "1|2|3|4" }, { 12, "1|2|3|4|5" }, { 13, "1|2" } };
	else if (r.sec == "RODS")
		ed = { { 1, "nosuch" }, { 2, "Foo" }, { 2, "Body99" }, { 2, "Body0" }, { 9, "-2" } };
	else if (r.sec == "POINTS")
		ed = { { 1, "Foo" }, { 1, "Body99" }, { 1, "Body0" } };
	else if (r.sec == "LINES")
		ed = { { 1, "nosuch" }, { 2, "99" }, { 3, "99" }, { 2, "R99A" }, { 3, "R99B" }, { 2, "0" },
			   { 3, "0" },      { 3, "Foo" }, { 2, "R1" }, { 5, "0" },   { 5, "-2" } };
	if (r.sec == "OPTIONS") {
		std::string o = "missing.txt SeafloorFile";
		L.insert(L.begin() + r.i, o);
		what += "option '" + o + "'";
	} else {
		size_t q = g.draw(ed.size() + 2);
		if (q >= ed.size()) {
			W.resize(1 + g.draw(need - 1));
			what += "row cut to " + std::to_string(W.size()) + " fields";
		} else {
			what += "'" + W[ed[q].k] + "' changed into '" + ed[q].v + "'";
			W[ed[q].k] = ed[q].v;
		}
		std::string l;
		for (auto& w : W)
			l += (l.empty() ? "" : " ") + w;
		L[r.i] = l;
	}
	out.clear();
	for (auto& l : L)
		out += l + "\n";
	return what;
}

void
run_case(Gen& g, Ctx& c)
{
	GenOpt o;
	o.maxlines = 3;
	o.maxseg = 4;
	Sys y = gen_sys(g, o);
	y.scheme = "euler";
	y.dtM = stable_dt(y, 0.03);
	DepthFn depth = [&](double, double) { return -y.depth; };
	if (y.depth < 100 && g.chance(1, 4)) {
		Loads L;
		L.y = y;
		gen_bathymetry(g, L, -y.depth - 4, -y.depth - 0.5);
		y = L.y;
	}
	if (g.chance(1, 3)) {
		double ts = 1;
		while (ts > 10 * y.dtM)
			ts /= 2;
		Water w = gen_water(g, g.pick(std::vector<int>{ 0, 7, 2, 3 }),
		                    g.pick(std::vector<int>{ 0, 1, 2, 5 }), y.g, y.rho, y.depth, depth, ts);
		use_water(y, w, false);
	}
	for (auto& l : y.lines)
		if (g.chance(1, 4))
			l.out = "pvUDctsdKb";
	for (auto& l : y.rods)
		if (g.chance(1, 4))
			l.out = "pvf";
	for (int k = g.range(0, 3); k > 0; k--)
		y.outs.push_back(g.pick(std::vector<std::string>{ "FairTen1", "L1N1PX", "P1PX", "L1NBT",
		                                                   "AnchTen1", "L1TA", "R1PX", "B1RX", "R1NAFX" }));
	int n = 0;
	if (g.chance(1, 4)) {
		y.write();
		std::string bad, what = fatal_fault(g, y.text(), bad);
		put_file(y.path, bad);
		c.note("%s\n%s", what.c_str(), bad.c_str());
		MD a(y.path);
		c.evals++;
		if (a.s)
			c.fail("accepted", "a meaningless model was accepted: %s", what.c_str());
		c.tag("refused: " + what.substr(0, what.find(':')));
		c.nontrivial(true);
		return;
	}
	// which file is damaged
	std::vector<std::string> names{ y.path };
	y.write();
	for (auto& f : y.files)
		names.push_back(f.first);
	for (auto& t : y.lt) {
		if (t.ea.x.size())
			names.push_back("ea_" + t.name + ".dat");
		if (t.ei.x.size())
			names.push_back("ei_" + t.name + ".dat");
		if (t.ba.x.size())
			names.push_back("ba_" + t.name + ".dat");
	}
	std::string victim = names[0];
	if (names.size() > 1 && g.coin())
		victim = names[1 + g.draw(names.size() - 1)];
	std::string bad = mutate_text(g, get_file(victim), n);
	put_file(victim, bad);
	c.tag(victim == y.path ? "model damaged" : "auxiliary file damaged");
	c.note("damaged file: %s\n%s\n", victim.c_str(), bad.c_str());
	if (victim != y.path)
		c.note("model:\n%s", y.text().c_str());
	MD a(y.path);
	c.evals++;
	if (!a.s) {
		c.tag("refused by Create");
		c.nontrivial(n > 0);
		return;
	}
	// the damaged text may ask for a lot of work: then it is only created
	auto W = split_words(bad);
	std::vector<std::vector<std::string>> rows;
	bool heavy = false;
	for (auto& l : split_lines(bad)) {
		auto w = split_words(l);
		if (w.size() >= 2 && (w[1] == "dtM" || w[1] == "CFL" || w[1] == "TmaxIC" || w[1] == "dtIC" ||
		                      w[1] == "dtWave" || w[1] == "ICgenDynamic")) {
			double v = atof(w[0].c_str());
			if (w[1] == "TmaxIC" ? !(v < 0.1) : !(v > 1e-6))
				heavy = true;
		}
		for (auto& x : w)
			if (x == "999" || x == "1e30" || x == "-1e30" || x == "1e400" || x == "inf")
				heavy = true;
	}
	unsigned nl = 0, np = 0, nr = 0, nb = 0;
	auto touch = [&] {
		MoorDyn_GetNumberLines(a.s, &nl);
		MoorDyn_GetNumberPoints(a.s, &np);
		MoorDyn_GetNumberRods(a.s, &nr);
		MoorDyn_GetNumberBodies(a.s, &nb);
		Sys z;
		z.lines.resize(std::min(nl, 50u));
		z.points.resize(std::min(np, 50u));
		z.rods.resize(std::min(nr, 50u));
		z.bodies.resize(std::min(nb, 50u));
		snap(a.s, z);
		c.evals++;
	};
	touch();
	unsigned dof = a.dof();
	if (dof > 10000)
		c.fail("dof", "%u coupled degrees of freedom", dof);
	std::vector<double> x(dof + 12, 0.0), xd(dof + 12, 0.0), f(dof + 12, 0.0);
	auto x0 = coupled_x0(y);
	for (size_t i = 0; i < x0.size() && i < dof; i++)
		x[i] = x0[i];
	if (heavy) {
		c.tag("created only");
		c.nontrivial(n > 0);
		return;
	}
	// (a model which is read may well ask for a tiny time step)
	soft_cpu_limit(5);
	int e = MoorDyn_Init_NoIC(a.s, x.data(), xd.data());
	c.evals++;
	c.nontrivial(n > 0);
	if (e) {
		c.tag("refused by Init");
		return;
	}
	c.tag("accepted");
	touch();
	double t = 0;
	for (int k = 0; k < 2; k++) {
		double dt = 1e-4;
		e = MoorDyn_Step(a.s, x.data(), xd.data(), f.data(), &t, &dt);
		c.evals++;
		if (e)
			break;
	}
	touch();
	size_t sz = 0;
	if (MoorDyn_Serialize(a.s, &sz, NULL) == MOORDYN_SUCCESS) {
		std::vector<uint64_t> buf(sz / 8 + 2);
		MoorDyn_Serialize(a.s, &sz, buf.data());
		MoorDyn_Deserialize(a.s, buf.data());
	}
}
