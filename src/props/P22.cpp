// P22: the models built with the classes of moordyn.Generator are the ones of the input files. The same model is written
// as an input file and described to the Python classes, in any order and with some of the values amended afterwards
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include "model.hpp"
#include "pyembed.hpp"
#include <cstring>
const char* PROP_ID = "P22";
const char* PROP_RULE = "non-trivial: both models were created and at least one step was compared";
int PROP_CPU_LIMIT = 60;

typedef std::vector<std::pair<std::string, std::string>> Args; // property, expression

void
run_case(Gen& g, Ctx& c)
{
	start(c);
	GenOpt o;
	o.maxlines = 4;
	o.maxseg = 4;
	o.curves = false;
	Sys y = gen_sys(g, o);
	// BodyPoint does not offer these
	for (auto& b : y.bodies)
		if (b.type == "CoupledPinned")
			b.type = "Coupled";
	// values which are equal or null, or the same in all the directions
	for (auto& b : y.bodies) {
		if (g.chance(1, 4))
			b.cg = V3{ b.cg.z, b.cg.z, b.cg.z };
		if (g.chance(1, 6))
			b.cg = V3{ 0, 0, b.cg.z };
		if (g.chance(1, 6))
			b.I = V3{ b.I.x, b.I.x, b.I.x };
		if (g.chance(1, 6))
			b.ca = V3{ b.ca.x, b.ca.x, b.ca.x };
		if (g.chance(1, 6))
			std::fill(b.cda, b.cda + 6, b.cda[0]);
	}
	y.dtM = stable_dt(y, 0.05);
	y.opts.push_back({ "dtIC", "0.1" });
	// entities without anything attached, so that the numbers are not the trivial ones
	int more = g.range(0, 12);
	for (int i = 0; i < more; i++) {
		SPoint p;
		p.attach = "Fixed";
		p.r = { g.real(-20, 20), g.real(-20, 20), -y.depth * g.real(0.1, 0.9) };
		y.points.push_back(p);
	}
	Motion m = gen_motion(g, y, 0.3, 0.3, 3.0);
	y.write();

	// ---- the script
	std::string s = "import io, sys, tempfile\n"
	                "tempfile.tempdir = '.'\n"
	                "G = moordyn.Generator\n"
	                "m = G.Mooring()\n";
	int setters = 0, late = 0;
	auto junk = [&]() {
		return g.pick(std::vector<std::string>{ "0", "1", "12345678.25", "-3.5" });
	};
	auto pnum = [&](double d) {
		// integers in Python are also good
		if (d == std::floor(d) && std::fabs(d) < 1e6 && g.chance(1, 2))
			return std::to_string((long)d);
		return "float('" + num(d) + "')";
	};
	auto list = [&](const double* d, int n) {
		bool tup = g.chance(1, 3);
		std::string r = tup ? "(" : "[";
		for (int i = 0; i < n; i++)
			r += pnum(d[i]) + ", ";
		return r + (tup ? ")" : "]");
	};
	auto lv = [&](V3 v) {
		double d[3] = { v.x, v.y, v.z };
		return list(d, 3);
	};
	auto word = [&](const std::string& w) {
		std::string r = w;
		int k = g.range(0, 2);
		for (auto& ch : r)
			ch = k == 0 ? toupper(ch) : k == 1 ? tolower(ch) : ch;
		return r;
	};
	std::vector<std::string> amends;
	// the objects are made with some wrong values, which are amended before or after they are added
	auto make = [&](const std::string& var, const std::string& cls, const Args& a, const std::vector<std::string>& lists) {
		std::string t = var + " = G." + cls + "(";
		std::vector<std::string> set;
		for (auto& q : a) {
			bool isobj = q.second.rfind("o_", 0) == 0;
			bool islist = q.second[0] == '[' || (q.second[0] == '(');
			if (isobj && !q.first.empty() && g.chance(1, 6)) {
				// another object for now
				auto is = [&](const char* k) { return q.second.rfind(k, 0) == 0; };
				t += std::string(is("o_bp")                  ? "G.BodyPoint()"
				                 : is("o_rp")                ? "G.RodPoint()"
				                 : is("o_ea") || is("o_eb")  ? (y.points.empty() ? "G.LinePoint(o_rod0)" : "G.LinePoint(o_pt0)")
				                 : is("o_body")              ? "'Fixed'"
				                 : is("o_lt")                ? "o_lt0"
				                                             : "o_rt0") +
				     ", ";
				set.push_back(var + "." + q.first + " = " + q.second);
				setters++;
			} else if (!isobj && !q.first.empty() && g.chance(1, 5)) {
				std::string j = junk();
				if (islist)
					j = "[" + j + ", 0, " + junk() + "]";
				t += j + ", ";
				if (islist && g.chance(1, 3) &&
				    std::find(lists.begin(), lists.end(), q.first) != lists.end())
					set.push_back(var + "." + q.first + ".values = " + q.second);
				else
					set.push_back(var + "." + q.first + " = " + q.second);
				setters++;
			} else
				t += q.second + ", ";
		}
		s += t + ")\n";
		if (g.chance(1, 2))
			for (auto& q : set)
				s += q + "\n";
		else {
			late += !set.empty();
			amends.insert(amends.end(), set.begin(), set.end());
		}
	};
	auto id = [](const char* k, int i) { return std::string("o_") + k + std::to_string(i); };
	std::vector<std::string> order[6];
	auto make_in = [&](int kind, const std::string& var, const std::string& cls, const Args& a, const std::string& add,
	                   const std::vector<std::string>& lists = {}) {
		make(var, cls, a, lists);
		order[kind].push_back("m." + add + "(" + var + ")");
	};
	for (size_t i = 0; i < y.lt.size(); i++) {
		auto& t = y.lt[i];
		make_in(0,
		        id("lt", i),
		        "LineMaterial",
		        { { "", "'" + t.name + "'" },
		          { "d", pnum(t.d) },
		          { "w", pnum(t.w) },
		          { "ea", pnum(t.EA) },
		          { "ba", pnum(t.BA) },
		          { "ei", pnum(t.EI) },
		          { "cdn", pnum(t.Cd) },
		          { "can", pnum(t.Ca) },
		          { "cdt", pnum(t.CdAx) },
		          { "cat", pnum(t.CaAx) } },
		        "AddLineMaterial");
	}
	for (size_t i = 0; i < y.rt.size(); i++) {
		auto& t = y.rt[i];
		make_in(1,
		        id("rt", i),
		        "RodMaterial",
		        { { "", "'" + t.name + "'" },
		          { "d", pnum(t.d) },
		          { "w", pnum(t.w) },
		          { "cdn", pnum(t.Cd) },
		          { "can", pnum(t.Ca) },
		          { "cdt", pnum(t.CdEnd) },
		          { "cat", pnum(t.CaEnd) } },
		        "AddRodMaterial");
	}
	for (size_t i = 0; i < y.bodies.size(); i++) {
		auto& b = y.bodies[i];
		std::string bp = id("bp", i);
		s += bp + " = G.BodyPoint()\n";
		std::string set;
		if (b.type == "Coupled")
			set = bp + ".coupled = True";
		else if (b.type == "Free")
			set = bp + ".fixed = False";
		if (g.chance(1, 4)) {
			// a history
			s += bp + ".coupled = True\n" + bp + ".fixed = True\n";
			setters++;
		}
		if (!set.empty()) {
			if (g.chance(1, 2))
				s += set + "\n";
			else
				amends.push_back(set), late++;
		}
		double cda[6];
		int n = b.ncda;
		for (int k = 0; k < 6; k++)
			cda[k] = b.cda[n == 2 ? (k ? 3 : 0) : k];
		make_in(2,
		        id("body", i),
		        "Body",
		        { { "type", bp },
		          { "p", lv(b.r) },
		          { "r", lv(b.ang) },
		          { "mass", pnum(b.m) },
		          { "cog", lv(b.cg) },
		          { "I", lv(b.I) },
		          { "cda", n == 1 && g.chance(1, 2) ? pnum(cda[0]) : list(cda, n) },
		          { "vol", pnum(b.v) },
		          { "ca", lv(b.ca) } },
		        "AddBody",
		        { "p", "r", "cog", "I", "cda", "ca" });
	}
	auto bodyof = [&](const std::string& a) { return atoi(a.c_str() + 4) - 1; };
	for (size_t i = 0; i < y.rods.size(); i++) {
		auto& r = y.rods[i];
		std::string rp = id("rp", i);
		s += rp + " = G.RodPoint()\n";
		if (g.chance(1, 4)) {
			s += rp + ".coupled = True\n" + rp + ".pinned = True\n" + rp + ".fixed = True\n" + rp + ".pinned = False\n";
			setters++;
		}
		std::vector<std::string> set;
		if (r.attach.rfind("Body", 0) == 0)
			set.push_back(rp + ".body = " + id("body", bodyof(r.attach)));
		else if (r.attach.rfind("Coupled", 0) == 0)
			set.push_back(rp + ".coupled = True");
		else if (r.attach == "Free")
			set.push_back(rp + ".fixed = False");
		if (r.attach.find("inned") != std::string::npos)
			set.push_back(rp + ".pinned = True");
		if (set.size() > 1 && g.chance(1, 2))
			std::swap(set[0], set[1]);
		bool l = g.chance(1, 2);
		for (auto& q : set)
			if (l)
				amends.push_back(q), late++;
			else
				s += q + "\n";
		make_in(3,
		        id("rod", i),
		        "Rod",
		        { { "material", id("rt", r.type) },
		          { "point", rp },
		          { "p0", lv(r.a) },
		          { "p1", lv(r.b) },
		          { "n", std::to_string(r.n) } },
		        "AddRod",
		        { "p0", "p1" });
	}
	for (size_t i = 0; i < y.points.size(); i++) {
		auto& p = y.points[i];
		bool body = p.attach.rfind("Body", 0) == 0;
		make_in(4,
		        id("pt", i),
		        "Point",
		        { { "type", body ? id("body", bodyof(p.attach)) : "'" + word(p.attach) + "'" },
		          { "p", lv(p.r) },
		          { "mass", pnum(p.m) },
		          { "vol", pnum(p.v) },
		          { "cda", pnum(p.cda) },
		          { "ca", pnum(p.ca) } },
		        "AddPoint",
		        { "p" });
		if (body)
			c.tag("point of a body");
	}
	for (size_t i = 0; i < y.lines.size(); i++) {
		auto& l = y.lines[i];
		for (int k = 0; k < 2; k++) {
			auto& e = k ? l.b : l.a;
			std::string v = id(k ? "eb" : "ea", i);
			std::string ob = id(e.rod ? "rod" : "pt", e.id - 1);
			s += v + " = G.LinePoint(" + ob;
			int how = g.range(0, 2);
			if (e.rod && (e.endB ? how < 2 : how == 0))
				s += std::string(how ? ", end_point='" : ", '") + (e.endB ? "B" : "A") + "'";
			s += ")\n";
			if (e.rod && e.endB && how == 2) {
				amends.push_back(v + ".end_point = 'B'");
				setters++, late++;
			}
			if (e.rod)
				c.tag(e.endB ? "rod end B" : "rod end A");
		}
		make_in(5,
		        id("ln", i),
		        "Line",
		        { { "material", id("lt", l.type) },
		          { "point0", id("ea", i) },
		          { "point1", id("eb", i) },
		          { "l", pnum(l.len) },
		          { "n", std::to_string(l.n) } },
		        "AddLine");
	}
	// the kinds are added in any order, keeping the one of the entities of each kind
	size_t at[6] = {};
	for (;;) {
		std::vector<int> left;
		for (int k = 0; k < 6; k++)
			if (at[k] < order[k].size())
				left.push_back(k);
		if (left.empty())
			break;
		int k = g.pick(left);
		s += order[k][at[k]++] + "\n";
		if (!amends.empty() && g.chance(1, 4)) {
			s += amends.front() + "\n";
			amends.erase(amends.begin());
		}
	}
	for (auto& q : amends)
		s += q + "\n";
	{
		int k = 0;
		auto opt = [&](const std::string& n, const std::string& e) {
			std::string v = "o_op" + std::to_string(k++);
			bool st = g.chance(1, 6);
			s += v + " = G.Option('" + n + "', " + (st ? junk() : e) + ")\nm.AddOption(" + v + ")\n";
			if (st)
				s += v + ".value = " + e + "\n", setters++;
		};
		opt("writeLog", "0");
		opt("dtM", pnum(y.dtM));
		opt("tScheme", "'" + y.scheme + "'");
		opt("g", pnum(y.g));
		opt("WtrDnsty", pnum(y.rho));
		opt("WtrDpth", pnum(y.depth));
		opt("kBot", pnum(y.kb));
		opt("cBot", pnum(y.cb));
		opt("FrictionCoefficient", pnum(y.fric));
		opt("FricDamp", pnum(y.fricdamp));
		opt("StatDynFricScale", pnum(y.statdyn));
		opt("TmaxIC", pnum(y.tmaxic));
		for (auto& p : y.opts)
			opt(p.first, "'" + p.second + "'");
	}
	bool twice = g.chance(1, 6);
	s += "_so = sys.stdout\nsys.stdout = io.StringIO()\ntry:\n    system = m.Create()\n";
	if (twice)
		s += "    moordyn.Close(system)\n    system = m.Create()\n";
	s += "finally:\n    text = sys.stdout.getvalue()\n    sys.stdout = _so\n";
	c.note("%s\n---- python\n%s", y.text().c_str(), s.c_str());
	if (setters)
		c.tag("amended");
	if (late)
		c.tag("amended late");
	if (twice)
		c.tag("created twice");

	// ---- run it
	PyObject* d = PyDict_New();
	PyDict_SetItemString(d, "__builtins__", PyEval_GetBuiltins());
	PyDict_SetItemString(d, "moordyn", MOD);
	PyObject* r = PyRun_String(s.c_str(), Py_file_input, d, d);
	if (!r) {
		PyObject* e = PyErr_GetRaisedException();
		PyObject* t = PyObject_Str(e);
		std::string what = std::string(Py_TYPE(e)->tp_name) + ": " + (t ? PyUnicode_AsUTF8(t) : "");
		Py_XDECREF(t);
		Py_XDECREF(e);
		Py_DECREF(d);
		c.fail("exception", "the Python script fails: %s", what.c_str());
		return;
	}
	Py_DECREF(r);
	PyObject* text = PyDict_GetItemString(d, "text");
	c.note("---- file of the generator\n%s", text ? PyUnicode_AsUTF8(text) : "");
	PyObject* cap = PyDict_GetItemString(d, "system");
	if (!cap || !PyCapsule_CheckExact(cap)) {
		Py_DECREF(d);
		c.fail("not-created", "the model of the generator is not read by MoorDyn");
		return;
	}
	MD p;
	p.s = (MoorDyn)PyCapsule_GetPointer(cap, PyCapsule_GetName(cap));
	Py_DECREF(d);
	MoorDyn_SetVerbosity(p.s, MOORDYN_NO_OUTPUT);
	MD q(y.path);
	if (!q.s)
		c.fail("setup", "the input file is not read");

	// ---- the same system
	auto eq = [&](const char* w, double a, double b) {
		c.evals++;
		if (memcmp(&a, &b, sizeof a) && !(a == b))
			c.fail("differs", "%s: %.17g with the generator, %.17g with the input file", w, a, b);
	};
	unsigned a = 0, b = 0;
#define N(fn)                                                                                                          \
	fn(p.s, &a);                                                                                                       \
	fn(q.s, &b);                                                                                                       \
	eq(#fn, a, b);
	N(MoorDyn_GetNumberBodies)
	N(MoorDyn_GetNumberRods)
	N(MoorDyn_GetNumberPoints)
	N(MoorDyn_GetNumberLines)
	N(MoorDyn_NCoupledDOF)
	auto types = [&](const char* w, size_t n, auto get, auto type) {
		for (size_t i = 1; i <= n; i++) {
			int ta = 99, tb = 99;
			type(get(p.s, i), &ta);
			type(get(q.s, i), &tb);
			eq(w, ta, tb);
		}
	};
	types("body type", y.bodies.size(), MoorDyn_GetBody, MoorDyn_GetBodyType);
	types("rod type", y.rods.size(), MoorDyn_GetRod, MoorDyn_GetRodType);
	types("point type", y.points.size(), MoorDyn_GetPoint, MoorDyn_GetPointType);
	auto cmp = [&](const char* when) {
		Snap u = snap(p.s, y), v = snap(q.s, y);
		if (u.v.size() != v.v.size())
			c.fail("differs", "%s: different numbers of nodes", when);
		for (size_t i = 0; i < u.v.size(); i++) {
			c.evals++;
			if (!(u.v[i] == v.v[i]) && !(std::isnan(u.v[i]) && std::isnan(v.v[i])))
				c.fail("differs",
				       "%s: %s is %.17g with the generator, %.17g with the input file",
				       when,
				       u.lab[i].c_str(),
				       u.v[i],
				       v.v[i]);
		}
	};
	std::vector<double> x, xd;
	m.eval(0, x, xd);
	bool ic = y.tmaxic > 0 && g.chance(1, 2);
	int ea = ic ? MoorDyn_Init(p.s, x.data(), xd.data()) : MoorDyn_Init_NoIC(p.s, x.data(), xd.data());
	int eb = ic ? MoorDyn_Init(q.s, x.data(), xd.data()) : MoorDyn_Init_NoIC(q.s, x.data(), xd.data());
	eq("Init", ea, eb);
	if (ea)
		return;
	cmp("after Init");
	double t = 0, t2 = 0, dt = y.dtM * g.range(1, 3);
	int ns = g.range(1, 4);
	std::vector<double> f(x.size() + 1, 0.0), f2(x.size() + 1, 0.0);
	for (int k = 0; k < ns; k++) {
		m.eval(t, x, xd);
		double h = dt, h2 = dt;
		ea = MoorDyn_Step(p.s, x.data(), xd.data(), f.data(), &t, &h);
		eb = MoorDyn_Step(q.s, x.data(), xd.data(), f2.data(), &t2, &h2);
		eq("Step", ea, eb);
		if (ea)
			break;
		c.nontrivial();
		cmp("after a step");
		for (size_t i = 0; i + 2 < f.size(); i++)
			eq("coupling force", f[i], f2[i]);
	}
}
