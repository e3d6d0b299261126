// P16: the queries and the refused calls have no effect, and the settings work
#include "loads.hpp"
#include <climits>
const char* PROP_ID = "P16";
const char* PROP_RULE =
    "non-trivial: the fuzzed instance took at least 2 steps, with at least 5 extra calls that its "
    "twin did not receive, at least one of them refused; or some setting of the API was compared "
    "with the same setting in the file";
int PROP_CPU_LIMIT = 30;

static const std::vector<std::string> SCHEMES = {
	"rk2", "euler", "leuler", "heun", "rk4", "ab2", "ab3", "ab4", "lab2", "lab3", "beuler3",
	"midpoint3", "aca4", "wilson4", "anderson4" };

namespace {
struct Call
{
	std::string name;
	int err;
	std::vector<double> out;
	bool same(const Call& o) const
	{
		if (err != o.err || out.size() != o.out.size())
			return false;
		for (size_t i = 0; i < out.size(); i++)
			if (!(out[i] == o.out[i] || (std::isnan(out[i]) && std::isnan(o.out[i]))))
				return false;
		return true;
	}
};
// Buffers on the heap with the exact size, so that the sanitizer sees any excess
struct Buf
{
	double* p;
	size_t n;
	explicit Buf(size_t n)
	  : p((double*)calloc(n, sizeof(double)))
	  , n(n)
	{
	}
	~Buf() { free(p); }
	Buf(const Buf&) = delete;
	operator double*() { return p; }
	std::vector<double> v() const { return std::vector<double>(p, p + n); }
};
const int NLINE = 21, NROD = 8, NPOINT = 9, NBODY = 9, NSYS = 17, NENV = 4;

Call
line_call(int k, MoorDynLine l, unsigned i)
{
	Buf b3(3), b1(1), b9(9);
	int n = 0;
	unsigned u = 0;
	auto I = [&](const char* s, int e) { return Call{ s, e, { (double)n, (double)u } }; };
	auto S = [&](const char* s, int e) { return Call{ s, e, b1.v() }; };
	auto V = [&](const char* s, int e) { return Call{ s, e, b3.v() }; };
	switch (k) {
		case 0: return I("GetLineID", MoorDyn_GetLineID(l, &n));
		case 1: return I("GetLineN", MoorDyn_GetLineN(l, &u));
		case 2: return I("GetLineNumberNodes", MoorDyn_GetLineNumberNodes(l, &u));
		case 3: return S("GetLineUnstretchedLength", MoorDyn_GetLineUnstretchedLength(l, b1));
		case 4: return I("IsLineConstantEA", MoorDyn_IsLineConstantEA(l, &n));
		case 5: return S("GetLineConstantEA", MoorDyn_GetLineConstantEA(l, b1));
		case 6: return I("IsLinePressBend", MoorDyn_IsLinePressBend(l, &n));
		case 7: return S("GetLineFairTen", MoorDyn_GetLineFairTen(l, b1));
		case 8: return S("GetLineMaxTen", MoorDyn_GetLineMaxTen(l, b1));
		case 9: return I("SaveLineVTK", l ? 0 : MoorDyn_SaveLineVTK(l, "l.vtp"));
		case 10: return V("GetLineNodePos", MoorDyn_GetLineNodePos(l, i, b3));
		case 11: return V("GetLineNodeVel", MoorDyn_GetLineNodeVel(l, i, b3));
		case 12: return V("GetLineNodeForce", MoorDyn_GetLineNodeForce(l, i, b3));
		case 13: return V("GetLineNodeTen", MoorDyn_GetLineNodeTen(l, i, b3));
		case 14: return V("GetLineNodeBendStiff", MoorDyn_GetLineNodeBendStiff(l, i, b3));
		case 15: return V("GetLineNodeWeight", MoorDyn_GetLineNodeWeight(l, i, b3));
		case 16: return V("GetLineNodeDrag", MoorDyn_GetLineNodeDrag(l, i, b3));
		case 17: return V("GetLineNodeFroudeKrilov", MoorDyn_GetLineNodeFroudeKrilov(l, i, b3));
		case 18: return V("GetLineNodeSeabedForce", MoorDyn_GetLineNodeSeabedForce(l, i, b3));
		case 19: return S("GetLineNodeCurv", MoorDyn_GetLineNodeCurv(l, i, b1));
		default: {
			int e = MoorDyn_GetLineNodeM(l, i, (double(*)[3])b9.p);
			return Call{ "GetLineNodeM", e, b9.v() };
		}
	}
}
Call
rod_call(int k, MoorDynRod r, unsigned i)
{
	Buf b3(3), b6(6), b36(36);
	int n = 0;
	unsigned u = 0;
	auto I = [&](const char* s, int e) { return Call{ s, e, { (double)n, (double)u } }; };
	switch (k) {
		case 0: return I("GetRodID", MoorDyn_GetRodID(r, &n));
		case 1: return I("GetRodType", MoorDyn_GetRodType(r, &n));
		case 2: return I("GetRodN", MoorDyn_GetRodN(r, &u));
		case 3: return I("GetRodNumberNodes", MoorDyn_GetRodNumberNodes(r, &u));
		case 4: {
			int e = MoorDyn_GetRodForce(r, b6);
			return Call{ "GetRodForce", e, b6.v() };
		}
		case 5: {
			int e = MoorDyn_GetRodM(r, (double(*)[6])b36.p);
			return Call{ "GetRodM", e, b36.v() };
		}
		case 6: {
			int e = MoorDyn_GetRodNodePos(r, i, b3);
			return Call{ "GetRodNodePos", e, b3.v() };
		}
		default: {
			int e = MoorDyn_GetRodNodeVel(r, i, b3);
			return Call{ "GetRodNodeVel", e, b3.v() };
		}
	}
}
Call
point_call(int k, MoorDynPoint p, unsigned i)
{
	Buf b3(3), b9(9);
	int n = 0;
	unsigned u = 0;
	auto I = [&](const char* s, int e) { return Call{ s, e, { (double)n, (double)u } }; };
	auto V = [&](const char* s, int e) { return Call{ s, e, b3.v() }; };
	switch (k) {
		case 0: return I("GetPointID", MoorDyn_GetPointID(p, &n));
		case 1: return I("GetPointType", MoorDyn_GetPointType(p, &n));
		case 2: return V("GetPointPos", MoorDyn_GetPointPos(p, b3));
		case 3: return V("GetPointVel", MoorDyn_GetPointVel(p, b3));
		case 4: return V("GetPointForce", MoorDyn_GetPointForce(p, b3));
		case 5: {
			int e = MoorDyn_GetPointM(p, (double(*)[3])b9.p);
			return Call{ "GetPointM", e, b9.v() };
		}
		case 6: return I("GetPointNAttached", MoorDyn_GetPointNAttached(p, &u));
		case 7: return I("SavePointVTK", p ? 0 : MoorDyn_SavePointVTK(p, "p.vtp"));
		default: {
			MoorDynLine l = nullptr;
			int id = 0;
			int e = MoorDyn_GetPointAttached(p, i, &l, &n);
			if (!e)
				MoorDyn_GetLineID(l, &id);
			return Call{ "GetPointAttached", e, { (double)n, (double)id } };
		}
	}
}
Call
body_call(int k, MoorDynBody b, unsigned)
{
	Buf b3(3), b6(6), c6(6), b36(36);
	int n = 0;
	auto I = [&](const char* s, int e) { return Call{ s, e, { (double)n } }; };
	auto V = [&](const char* s, int e) { return Call{ s, e, b3.v() }; };
	switch (k) {
		case 0: return I("GetBodyID", MoorDyn_GetBodyID(b, &n));
		case 1: return I("GetBodyType", MoorDyn_GetBodyType(b, &n));
		case 2: {
			int e = MoorDyn_GetBodyState(b, b6, c6);
			auto o = b6.v(), q = c6.v();
			o.insert(o.end(), q.begin(), q.end());
			return Call{ "GetBodyState", e, o };
		}
		case 3: return V("GetBodyPos", MoorDyn_GetBodyPos(b, b3));
		case 4: return V("GetBodyAngle", MoorDyn_GetBodyAngle(b, b3));
		case 5: return V("GetBodyVel", MoorDyn_GetBodyVel(b, b3));
		case 6: return V("GetBodyAngVel", MoorDyn_GetBodyAngVel(b, b3));
		case 7: {
			int e = MoorDyn_GetBodyForce(b, b6);
			return Call{ "GetBodyForce", e, b6.v() };
		}
		default: {
			int e = MoorDyn_GetBodyM(b, (double(*)[6])b36.p);
			return Call{ "GetBodyM", e, b36.v() };
		}
	}
}
// queries of the system
Call
sys_call(int k, MoorDyn s, int nl)
{
	Buf b1(1);
	unsigned u = 0;
	auto I = [&](const char* n, int e) { return Call{ n, e, { (double)u } }; };
	auto S = [&](const char* n, int e) { return Call{ n, e, b1.v() }; };
	switch (k) {
		case 0: return I("NCoupledDOF", MoorDyn_NCoupledDOF(s, &u));
		case 1: return I("GetNumberBodies", MoorDyn_GetNumberBodies(s, &u));
		case 2: return I("GetNumberRods", MoorDyn_GetNumberRods(s, &u));
		case 3: return I("GetNumberPoints", MoorDyn_GetNumberPoints(s, &u));
		case 4: return I("GetNumberLines", MoorDyn_GetNumberLines(s, &u));
		case 5: return S("GetDt", MoorDyn_GetDt(s, b1));
		case 6: return S("GetCFL", MoorDyn_GetCFL(s, b1));
		case 7: {
			size_t len = 0;
			int e = MoorDyn_GetTimeScheme(s, nullptr, &len);
			if (e)
				return Call{ "GetTimeScheme", e, {} };
			char* t = (char*)malloc(len);
			e = MoorDyn_GetTimeScheme(s, t, &len);
			if (strlen(t) + 1 != len)
				e = -1000;
			std::vector<double> o(t, t + len);
			free(t);
			return Call{ "GetTimeScheme", e, o };
		}
		case 8: return I("ExternalWaveKinGetN", MoorDyn_ExternalWaveKinGetN(s, &u));
		case 9: return I("SetVerbosity", MoorDyn_SetVerbosity(s, MOORDYN_NO_OUTPUT));
		case 10: return I("SetLogLevel", MoorDyn_SetLogLevel(s, MOORDYN_NO_OUTPUT));
		case 11: return I("Log", MoorDyn_Log(s, MOORDYN_DBG_LEVEL, "hello\n"));
		case 12: {
			size_t n = 0;
			int e = MoorDyn_Serialize(s, &n, nullptr);
			if (e)
				return Call{ "Serialize", e, {} };
			uint64_t* d = (uint64_t*)malloc(n);
			e = MoorDyn_Serialize(s, nullptr, d);
			free(d);
			return Call{ "Serialize", e, { (double)n } };
		}
		case 13: return I("Save", MoorDyn_Save(s, "saved.dat"));
		case 14: {
			float *a = (float*)calloc(nl, 4), *b = (float*)calloc(nl, 4),
			      *c = (float*)calloc(nl, 4), *d = (float*)calloc(nl, 4);
			int e = MoorDyn_GetFASTtens(s, &nl, a, b, c, d);
			std::vector<double> o;
			for (int i = 0; i < nl; i++)
				o.insert(o.end(), { a[i], b[i], c[i], d[i] });
			free(a), free(b), free(c), free(d);
			return Call{ "GetFASTtens", e, o };
		}
		case 15: return I("SetLogFile", MoorDyn_SetLogFile(s, "extra.log"));
		default: return I("SaveVTK", s ? 0 : MoorDyn_SaveVTK(s, "s.vtm"));
	}
}
Call
env_call(int k, MoorDyn s, V3 p)
{
	Buf b1(1), u(3), ud(3), z(1), q(1);
	MoorDynSeafloor fl = s ? MoorDyn_GetSeafloor(s) : nullptr;
	MoorDynWaves w = s ? MoorDyn_GetWaves(s) : nullptr;
	auto S = [&](const char* n, int e) { return Call{ n, e, b1.v() }; };
	switch (k) {
		case 0: return S("GetDepthAt", MoorDyn_GetDepthAt(fl, p.x, p.y, b1));
		case 1: return S("GetAverageDepth", MoorDyn_GetAverageDepth(fl, b1));
		case 2: return S("GetMinDepth", MoorDyn_GetMinDepth(fl, b1));
		default: {
			int e = MoorDyn_GetWavesKin(w, p.x, p.y, p.z, u, ud, z, q, fl);
			std::vector<double> o = { z[0], q[0] };
			for (int i = 0; i < 3; i++)
				o.push_back(u[i]), o.push_back(ud[i]);
			return Call{ "GetWavesKin", e, o };
		}
	}
}
} // namespace

// A setting of the API, before the initialization, is as if it were in the file
static void
file_mode(Gen& g, Ctx& c)
{
	GenOpt o;
	o.maxlines = 3;
	o.maxseg = 5;
	Sys y = gen_sys(g, o);
	Sys z = y;
	z.path = "set.txt";
	z.dtM = stable_dt(y, 0.04);
	z.scheme = g.pick(SCHEMES);
	bool sd = g.coin(), ss = g.coin(), se = g.coin();
	if (!sd)
		y.dtM = z.dtM;
	else
		y.dtM = z.dtM * g.real(0.2, 3);
	if (!ss)
		y.scheme = z.scheme;
	else
		y.scheme = g.pick(SCHEMES);
	// the stiffness of a type, if it does not define the damping too
	int type = -1;
	// (the local schemes choose the time step of each line from the stiffness in the file)
	if (se && z.scheme[0] != 'l')
		for (size_t i = 0; i < y.lt.size(); i++)
			if (y.lt[i].ea.x.empty() && y.lt[i].BA >= 0)
				type = i;
	if (type >= 0)
		y.lt[type].EA = z.lt[type].EA * g.real(0.3, 5);
	Motion m = gen_motion(g, y, 0.3, 0.3, 3.0);
	y.write();
	z.write();
	c.note("file %d %d %d\n%s--- set:\n%s", sd, ss, type, z.text().c_str(), y.text().c_str());
	MD a(y.path), b(z.path);
	if (!a.s || !b.s)
		c.fail("create", "a valid system was rejected");
	if (ss && MoorDyn_SetTimeScheme(a.s, z.scheme.c_str()))
		c.fail("setter-failed", "SetTimeScheme failed before the initialization");
	if (sd && MoorDyn_SetDt(a.s, z.dtM))
		c.fail("setter-failed", "SetDt failed before the initialization");
	if (type >= 0)
		for (size_t i = 0; i < y.lines.size(); i++)
			if (y.lines[i].type == type && MoorDyn_SetLineConstantEA(MoorDyn_GetLine(a.s, i + 1), z.lt[type].EA))
				c.fail("setter-failed", "SetLineConstantEA failed before the initialization");
	std::vector<double> x, xd, fa(y.dofs() + 1), fb(y.dofs() + 1);
	m.eval(0, x, xd);
	if (MoorDyn_Init_NoIC(a.s, x.data(), xd.data()) || MoorDyn_Init_NoIC(b.s, x.data(), xd.data()))
		c.fail("init", "initialisation failed");
	double t = 0, tb = 0, dt = z.dtM * g.range(1, 5) * (g.coin() ? 1 : 0.9);
	for (int k = g.range(1, 6); k > 0; k--) {
		m.eval(t, x, xd);
		double h = dt, h2 = dt;
		int e2 = MoorDyn_Step(b.s, x.data(), xd.data(), fb.data(), &tb, &h2);
		int e1 = MoorDyn_Step(a.s, x.data(), xd.data(), fa.data(), &t, &h);
		if (e2 == MOORDYN_NAN_ERROR)
			c.discard("unstable");
		if (e1 || e2)
			c.fail("step", "step failed with %d and %d", e1, e2);
	}
	Snap p = snap(a.s, y), q = snap(b.s, z);
	if (!finite_all(q))
		c.discard("non-finite state");
	double sc = 0;
	for (double v : q.v)
		sc = std::max(sc, std::fabs(v));
	for (size_t i = 0; i < p.v.size(); i++)
		if (!(std::fabs(p.v[i] - q.v[i]) <= 1e-9 * std::fabs(q.v[i]) + 1e-9 * std::min(sc, 1.0)))
			c.fail("file", "%s is %.12g with the settings of the API, %.12g with those of the file",
			       p.lab[i].c_str(), p.v[i], q.v[i]);
	c.evals += p.v.size();
	c.tag("API against file");
	if (sd)
		c.tag("file: dtM");
	if (ss)
		c.tag("file: tScheme");
	if (type >= 0)
		c.tag("file: EA");
	c.nontrivial(sd || ss || type >= 0);
}

void
run_case(Gen& g, Ctx& c)
{
	if (g.chance(1, 5))
		return file_mode(g, c);
	GenOpt o;
	o.maxlines = 3;
	o.maxseg = 5;
	Loads L;
	L.y = gen_sys(g, o);
	Sys& y = L.y;
	y.scheme = g.pick(SCHEMES);
	y.dtM = stable_dt(y, 0.05);
	y.tmaxic = 0;
	bool bath = g.chance(1, 3);
	L.depth = [&](double, double) { return -y.depth; };
	if (bath) {
		gen_bathymetry(g, L, -y.depth - 4, -y.depth - 0.5);
		L.depth = [&](double x, double yy) { return bilinear(L.bathx, L.bathy, L.bathz, x, yy); };
		c.tag("bathymetry");
	}
	bool external = g.chance(1, 4);
	int wave = external ? 0 : g.pick(std::vector<int>{ 0, 0, 7, 2, 3 });
	int cur = g.pick(std::vector<int>{ 0, 0, 1, 2 });
	if (wave || cur) {
		double h = y.depth;
		if (bath) {
			h = 0;
			for (auto& r : L.bathz)
				for (double z : r)
					h -= z / (L.bathx.size() * L.bathy.size());
		}
		L.W = gen_water(g, wave, cur, y.g, y.rho, h, L.depth, 1);
	}
	use_water(y, L.W, external);
	Motion m = gen_motion(g, y, 0.3, 0.3, 3.0);
	double dt = y.dtM * g.range(1, 3);
	y.write();
	c.note("dt %g\n%s", dt, y.text().c_str());
	MD a(y.path), b(y.path);
	if (!a.s || !b.s)
		c.fail("create", "a valid system was rejected");
	std::vector<double> x, xd;
	int extra = 0, refused = 0, steps = 0;
	unsigned dof = y.dofs();
	bool ready = false, pressure = false;
	std::string cur_scheme = y.scheme;
	auto nodes_of = [&](MoorDyn s, bool rod, unsigned i) {
		unsigned n = 0;
		if (rod)
			MoorDyn_GetRodN(MoorDyn_GetRod(s, i), &n);
		else
			MoorDyn_GetLineN(MoorDyn_GetLine(s, i), &n);
		return n;
	};
	auto bad = [&](unsigned n) -> unsigned { // not a valid index of [0, n)
		switch (g.range(0, 5)) {
			case 0: return n;
			case 1: return n + 1;
			case 2: return n + (unsigned)g.range(2, 40);
			case 3: return UINT_MAX;
			case 4: return (unsigned)INT_MAX;
			default: return (unsigned)INT_MAX + 1u;
		}
	};
	auto must_fail = [&](const Call& q, const char* why) {
		c.note("refused %s (%s)\n", q.name.c_str(), why);
		c.evals++;
		extra++;
		refused++;
		if (!q.err)
			c.fail("accepted", "MoorDyn_%s succeeded with %s", q.name.c_str(), why);
		c.tag(std::string("refused: ") + why);
	};
	std::string P = y.path;
	auto query = [&]() {
		MoorDyn s = a.s;
		Call u, v;
		// before the initialization there is nothing to observe but the memory safety
		int kind = g.weighted({ (int)y.lines.size() ? 5 : 0, (int)y.rods.size() ? 3 : 0,
		                        (int)y.points.size() ? 3 : 0, (int)y.bodies.size() ? 3 : 0, 4, 1 });
		auto twice = [&](auto f) {
			u = f(s);
			v = f(s);
			if (ready && !u.same(v))
				c.fail("repeated-query", "MoorDyn_%s gives two different answers in a row",
				       u.name.c_str());
		};
		if (kind == 0) {
			unsigned i = g.range(1, y.lines.size()), k = g.range(0, NLINE - 1),
			         n = g.range(0, nodes_of(s, false, i));
			twice([&](MoorDyn q) { return line_call(k, MoorDyn_GetLine(q, i), n); });
			if (k == 0 && u.out[0] != i)
				c.fail("id", "line %u says it is the line %g", i, u.out[0]);
			if (k == 2 && u.out[1] != nodes_of(s, false, i) + 1)
				c.fail("nodes", "line %u has %g nodes and %u segments", i, u.out[1],
				       nodes_of(s, false, i));
			if (k == 4 && u.out[0] != (y.lt[y.lines[i - 1].type].ea.x.empty() ? 1 : 0))
				c.fail("isconstant", "line %u: IsLineConstantEA is %g", i, u.out[0]);
		} else if (kind == 1) {
			unsigned i = g.range(1, y.rods.size()), k = g.range(0, NROD - 1),
			         n = g.range(0, nodes_of(s, true, i));
			twice([&](MoorDyn q) { return rod_call(k, MoorDyn_GetRod(q, i), n); });
			if (k == 0 && u.out[0] != i)
				c.fail("id", "rod %u says it is the rod %g", i, u.out[0]);
			if (k == 3 && u.out[1] != nodes_of(s, true, i) + 1)
				c.fail("nodes", "rod %u has %g nodes and %u segments", i, u.out[1],
				       nodes_of(s, true, i));
		} else if (kind == 2) {
			unsigned i = g.range(1, y.points.size()), k = g.range(0, NPOINT - 1), n = 0;
			MoorDyn_GetPointNAttached(MoorDyn_GetPoint(s, i), &n);
			if (k == NPOINT - 1 && !n)
				k = 0;
			n = n ? g.range(0, n - 1) : 0;
			twice([&](MoorDyn q) { return point_call(k, MoorDyn_GetPoint(q, i), n); });
			if (k == 0 && u.out[0] != i)
				c.fail("id", "point %u says it is the point %g", i, u.out[0]);
		} else if (kind == 3) {
			unsigned i = g.range(1, y.bodies.size()), k = g.range(0, NBODY - 1);
			twice([&](MoorDyn q) { return body_call(k, MoorDyn_GetBody(q, i), 0); });
			if (k == 0 && u.out[0] != i)
				c.fail("id", "body %u says it is the body %g", i, u.out[0]);
		} else if (kind == 4) {
			unsigned k = g.range(0, NSYS - 1);
			if (!ready && (k == 12 || k == 13))
				k = 0;
			int nl = g.range(0, y.lines.size());
			if (k >= 9 && k <= 15 && k != 14) { // only the fuzzed instance
				u = sys_call(k, s, nl);
				v = u;
			} else
				twice([&](MoorDyn q) { return sys_call(k, q, nl); });
			double want[] = { (double)dof, (double)y.bodies.size(), (double)y.rods.size(),
				              (double)y.points.size(), (double)y.lines.size() };
			// the count of pinned bodies is a known finding of P07
			for (auto& q : y.bodies)
				if (q.type == "CoupledPinned")
					want[0] += 3;
			if (k < 5 && u.out[0] != want[k] && !(k == 0 && u.out[0] == dof))
				c.fail("counts", "MoorDyn_%s gives %g, expected %g", u.name.c_str(), u.out[0],
				       want[k]);
		} else {
			V3 p{ g.sym(60), g.sym(60), g.real(-y.depth, 3) };
			int k = g.range(0, NENV - 1);
			if (!ready || (k < 3 && !bath))
				k = 3;
			if (!ready || external)
				return;
			twice([&](MoorDyn q) { return env_call(k, q, p); });
		}
		c.evals++;
		extra++;
		if (!(kind == 4 && u.name.find("VTK") != std::string::npos))
			c.note("query %s\n", u.name.c_str());
		if (ready && u.err)
			c.fail("query-failed", "MoorDyn_%s failed with %d", u.name.c_str(), u.err);
		c.tag("query " + u.name);
	};
	auto refuse = [&]() {
		MoorDyn s = a.s;
		switch (g.range(0, 7)) {
			case 0: { // null handles
				switch (g.range(0, 8)) {
					case 0: return must_fail(line_call(g.range(0, NLINE - 1), nullptr, 0), "a null line");
					case 1: return must_fail(rod_call(g.range(0, NROD - 1), nullptr, 0), "a null rod");
					case 2: return must_fail(point_call(g.range(0, NPOINT - 1), nullptr, 0), "a null point");
					case 3: return must_fail(body_call(g.range(0, NBODY - 1), nullptr, 0), "a null body");
					case 4: return must_fail(sys_call(g.range(0, NSYS - 1), nullptr, 0), "a null system");
					case 5: return must_fail(env_call(g.range(0, NENV - 1), nullptr, V3{}), "a null seafloor or waves");
					case 6: {
						double v[64] = {};
						int k = g.range(0, 4);
						Call q{ "SetLine*", 0, {} };
						q.err = k == 0   ? MoorDyn_SetLineConstantEA(nullptr, 1e3)
						        : k == 1 ? MoorDyn_SetLinePressBend(nullptr, 1)
						        : k == 2 ? MoorDyn_SetLinePressInt(nullptr, v)
						        : k == 3 ? MoorDyn_SetLineUnstretchedLength(nullptr, 10)
						                 : MoorDyn_SetLineUnstretchedLengthVel(nullptr, 1);
						return must_fail(q, "a null line");
					}
					case 7: {
						double v[64] = {}, tt = 0, hh = 0.1;
						int k = g.range(0, 9);
						unsigned n = 0;
						Call q{ "system call " + std::to_string(k), 0, {} };
						q.err = k == 0   ? MoorDyn_SetDt(nullptr, 1e-3)
						        : k == 1 ? MoorDyn_SetCFL(nullptr, 0.5)
						        : k == 2 ? MoorDyn_SetTimeScheme(nullptr, "rk2")
						        : k == 3 ? MoorDyn_Init(nullptr, v, v)
						        : k == 4 ? MoorDyn_Init_NoIC(nullptr, v, v)
						        : k == 5 ? MoorDyn_Step(nullptr, v, v, v, &tt, &hh)
						        : k == 6 ? MoorDyn_Close(nullptr)
						        : k == 7 ? MoorDyn_ExternalWaveKinInit(nullptr, &n)
						        : k == 8 ? MoorDyn_ExternalWaveKinGetCoordinates(nullptr, v)
						                 : MoorDyn_ExternalWaveKinSet(nullptr, v, v, 0);
						return must_fail(q, "a null system");
					}
					default: {
						bool r = MoorDyn_GetLine(nullptr, 1) || MoorDyn_GetRod(nullptr, 1) ||
						         MoorDyn_GetPoint(nullptr, 1) || MoorDyn_GetBody(nullptr, 1) ||
						         MoorDyn_GetWaves(nullptr) || MoorDyn_GetSeafloor(nullptr);
						return must_fail(Call{ "GetX", !r, {} }, "a null system");
					}
				}
			}
			case 1: { // objects that do not exist
				int k = g.range(0, 3);
				unsigned n = k == 0   ? y.lines.size()
				             : k == 1 ? y.rods.size()
				             : k == 2 ? y.points.size()
				                      : y.bodies.size();
				unsigned i = g.chance(1, 3) ? 0 : bad(n + 1);
				void* r = k == 0   ? (void*)MoorDyn_GetLine(s, i)
				          : k == 1 ? (void*)MoorDyn_GetRod(s, i)
				          : k == 2 ? (void*)MoorDyn_GetPoint(s, i)
				                   : (void*)MoorDyn_GetBody(s, i);
				return must_fail(Call{ "Get[Line|Rod|Point|Body]", r == nullptr, {} },
				                 "an object that does not exist");
			}
			case 2: {
				if (y.lines.empty())
					return;
				unsigned i = g.range(1, y.lines.size());
				unsigned n = bad(nodes_of(s, false, i) + 1);
				return must_fail(line_call(g.range(10, 20), MoorDyn_GetLine(s, i), n),
				                 "a line node that does not exist");
			}
			case 3: {
				if (y.rods.empty())
					return;
				unsigned i = g.range(1, y.rods.size());
				unsigned n = bad(nodes_of(s, true, i) + 1);
				return must_fail(rod_call(g.range(6, 7), MoorDyn_GetRod(s, i), n),
				                 "a rod node that does not exist");
			}
			case 4: {
				if (y.points.empty())
					return;
				unsigned i = g.range(1, y.points.size()), n = 0;
				MoorDyn_GetPointNAttached(MoorDyn_GetPoint(s, i), &n);
				return must_fail(point_call(8, MoorDyn_GetPoint(s, i), bad(n)),
				                 "an attached line that does not exist");
			}
			case 5: {
				static const std::vector<std::string> W = { "foo", "", "rk", "RK5", "ab0", "ab6",
					                                        "beuler", "wilson", "aca", " rk4" };
				std::string w = g.pick(W);
				return must_fail(Call{ "SetTimeScheme", MoorDyn_SetTimeScheme(s, w.c_str()), {} },
				                 "an unknown time scheme");
			}
			case 6: {
				int k = g.range(0, 4);
				if (!ready && k >= 2)
					k = 0;
				std::vector<double> z(3 * 64 + dof);
				double t = 0, h = dt;
				int n = y.lines.size() + g.range(1, 3);
				std::vector<float> fl(n + 1);
				if (k == 0)
					return must_fail(Call{ "Deserialize", MoorDyn_Deserialize(s, nullptr), {} },
					                 "null data");
				if (k == 1)
					return must_fail(Call{ "Load", MoorDyn_Load(s, "nowhere/none.dat"), {} },
					                 "a file that does not exist");
				if (k == 2)
					return must_fail(Call{ "Save", MoorDyn_Save(s, "nowhere/none.dat"), {} },
					                 "a folder that does not exist");
				if (k == 3 && !external)
					return must_fail(Call{ "ExternalWaveKinSet",
					                       MoorDyn_ExternalWaveKinSet(s, z.data(), z.data(), 0), {} },
					                 "no external kinematics");
				if (k == 4 && g.coin())
					n = -g.range(1, 3);
				if (k == 4)
					return must_fail(Call{ "GetFASTtens", MoorDyn_GetFASTtens(s, &n, fl.data(), fl.data(), fl.data(), fl.data()), {} },
					                 "more lines than there are");
				(void)t;
				(void)h;
				return;
			}
			default: {
				if (!dof)
					return;
				std::vector<double> z(dof), f(dof);
				m.eval(0, z, f);
				double t = 0, h = dt;
				int k = g.range(0, 2);
				Call q{ ready ? "Step" : "Init", 0, {} };
				if (ready)
					q.err = MoorDyn_Step(s, k == 0 ? nullptr : z.data(), k == 1 ? nullptr : f.data(),
					                     k == 2 ? nullptr : z.data(), &t, &h);
				else
					q.err = g.coin() ? MoorDyn_Init(s, k != 1 ? nullptr : z.data(), k != 0 ? nullptr : f.data())
					                 : MoorDyn_Init_NoIC(s, k != 1 ? nullptr : z.data(), k != 0 ? nullptr : f.data());
				return must_fail(q, "null coupled kinematics");
			}
		}
	};
	auto both = [&](const std::string& what, const std::function<int(MoorDyn)>& f) {
		c.note("both: %s\n", what.c_str());
		int e1 = f(a.s), e2 = f(b.s);
		c.evals++;
		if (e1 || e2)
			c.fail("setter-failed", "%s failed with %d and %d", what.c_str(), e1, e2);
	};
	auto nearly = [&](const char* sig, const std::string& what, double got, double want) {
		c.evals++;
		if (!(std::fabs(got - want) <= 1e-12 * std::fabs(want)))
			c.fail(sig, "%s reads %.17g after setting %.17g", what.c_str(), got, want);
	};
	auto setter = [&]() {
		switch (g.range(0, 4)) {
			case 0: {
				std::string w = g.pick(SCHEMES);
				if (ready && g.coin() && (cur_scheme == "euler" || cur_scheme == "rk2" || cur_scheme == "rk4")) {
					// the same one-step scheme again: nothing changes
					c.note("the same scheme again\n");
					if (MoorDyn_SetTimeScheme(a.s, cur_scheme.c_str()))
						c.fail("setter-failed", "SetTimeScheme %s failed", cur_scheme.c_str());
					extra++;
					c.tag("SetTimeScheme with the current scheme");
					break;
				}
				cur_scheme = w;
				Snap s0;
				if (ready)
					s0 = snap(a.s, y, SNAP_KIN);
				both("SetTimeScheme " + w, [&](MoorDyn s) { return MoorDyn_SetTimeScheme(s, w.c_str()); });
				c.tag("SetTimeScheme");
				if (ready) {
					Snap s1 = snap(a.s, y, SNAP_KIN);
					for (size_t i = 0; i < s0.v.size(); i++)
						if (std::isfinite(s0.v[i]) && !(s0.v[i] == s1.v[i]))
							c.fail("scheme-moves", "setting the time scheme changed %s from %.17g to %.17g",
							       s0.lab[i].c_str(), s0.v[i], s1.v[i]);
				}
				size_t n = 0;
				char nm[256];
				MoorDyn_GetTimeScheme(a.s, nm, &n);
				MD z;
				Sys y2 = y;
				y2.scheme = w;
				y2.path = "scheme.txt";
				y2.write();
				z.s = MoorDyn_Create("scheme.txt");
				if (!z.s)
					c.fail("create", "a valid system was rejected");
				char nz[256];
				MoorDyn_GetTimeScheme(z.s, nz, &n);
				if (strcmp(nm, nz))
					c.fail("scheme-name", "the time scheme is \"%s\" after setting %s, whose name is \"%s\"",
					       nm, w.c_str(), nz);
				break;
			}
			case 1: {
				double v = y.dtM * g.real(0.5, 1.0, 16), q = 0;
				both("SetDt " + num(v), [&](MoorDyn s) { return MoorDyn_SetDt(s, v); });
				MoorDyn_GetDt(a.s, &q);
				nearly("dt", "the time step", q, v);
				c.tag("SetDt");
				break;
			}
			case 2: {
				double q = 0, w = 0, d0 = 0, d1 = 0;
				MoorDyn_GetCFL(a.s, &q);
				MoorDyn_GetDt(a.s, &d0);
				if (!(q > 0) || !std::isfinite(q) || !ready)
					return;
				// the CFL factor is proportional to the time step
				double k = g.real(0.5, 1.0, 16) * y.dtM / d0, v = q * k;
				both("SetCFL " + num(v), [&](MoorDyn s) { return MoorDyn_SetCFL(s, v); });
				MoorDyn_GetCFL(a.s, &w);
				MoorDyn_GetDt(a.s, &d1);
				nearly("cfl", "the CFL factor", w, v);
				c.tag("SetCFL");
				if (!(d1 > 0))
					c.fail("cfl-dt", "the time step is %g after setting the CFL factor %g", d1, v);
				both("SetDt " + num(y.dtM), [&](MoorDyn s) { return MoorDyn_SetDt(s, y.dtM); });
				break;
			}
			case 3: {
				if (y.lines.empty())
					return;
				unsigned i = g.range(1, y.lines.size());
				double EA = 0, q = 0;
				MoorDyn_GetLineConstantEA(MoorDyn_GetLine(a.s, i), &EA);
				double v = EA * g.real(0.25, 1.0, 12);
				if (!(v > 0))
					return;
				both("SetLineConstantEA " + num(v),
				     [&](MoorDyn s) { return MoorDyn_SetLineConstantEA(MoorDyn_GetLine(s, i), v); });
				MoorDyn_GetLineConstantEA(MoorDyn_GetLine(a.s, i), &q);
				nearly("ea", "the stiffness", q, v);
				c.tag("SetLineConstantEA");
				break;
			}
			default: {
				if (y.lines.empty())
					return;
				unsigned i = g.range(1, y.lines.size());
				int v = g.coin(), q = -1;
				both("SetLinePressBend " + std::to_string(v),
				     [&](MoorDyn s) { return MoorDyn_SetLinePressBend(MoorDyn_GetLine(s, i), v); });
				MoorDyn_IsLinePressBend(MoorDyn_GetLine(a.s, i), &q);
				if ((q != 0) != (v != 0))
					c.fail("pressbend", "IsLinePressBend is %d after setting %d", q, v);
				pressure = true;
				c.tag("SetLinePressBend");
				if (ready) {
					std::vector<double> p(nodes_of(a.s, false, i) + 1);
					for (auto& w : p)
						w = g.sym(1e3, 20);
					both("SetLinePressInt",
					     [&](MoorDyn s) { return MoorDyn_SetLinePressInt(MoorDyn_GetLine(s, i), p.data()); });
				}
				break;
			}
		}
	};
	auto compare = [&](const char* when) {
		Snap p = snap(a.s, y), q = snap(b.s, y);
		c.evals += p.v.size();
		if (!finite_all(q))
			c.discard("non-finite state");
		for (size_t i = 0; i < p.v.size(); i++)
			if (!(p.v[i] == q.v[i]))
				c.fail("effect", "%s, after %d extra calls, %s is %.17g instead of %.17g", when, extra,
				       p.lab[i].c_str(), p.v[i], q.v[i]);
	};
	// before the initialization
	for (int k = g.range(0, 6); k > 0; k--)
		switch (g.weighted({ 3, 3, 1 })) {
			case 0: query(); break;
			case 1: refuse(); break;
			default: {
				// the settings can be chosen before the initialization
				setter();
			}
		}
	m.eval(0, x, xd);
	x.resize(dof);
	xd.resize(dof);
	if (int e = MoorDyn_Init_NoIC(b.s, x.data(), xd.data()))
		c.fail("init", "initialisation failed with %d", e);
	if (int e = MoorDyn_Init_NoIC(a.s, x.data(), xd.data()))
		c.fail("init", "initialisation failed with %d after extra calls", e);
	unsigned nk = 0;
	if (external) {
		unsigned n2 = 0;
		if (MoorDyn_ExternalWaveKinInit(a.s, &nk) || MoorDyn_ExternalWaveKinInit(b.s, &n2) || nk != n2)
			c.fail("external", "the external kinematics cannot be set up (%u %u points)", nk, n2);
	}
	ready = true;
	double t = 0, tb = 0;
	std::vector<double> fa(dof), fb(dof);
	for (int k = g.range(2, 14); k > 0; k--) {
		switch (g.weighted({ 4, 3, 3, 1, 1 })) {
			case 0: {
				if (external) {
					std::vector<double> U(3 * nk), Ud(3 * nk);
					for (unsigned i = 0; i < 3 * nk; i++) {
						U[i] = 0.1 * sin(i + t);
						Ud[i] = 0.1 * cos(i + t);
					}
					if (nk)
						both("ExternalWaveKinSet", [&](MoorDyn s) {
							return MoorDyn_ExternalWaveKinSet(s, U.data(), Ud.data(), t);
						});
				}
				m.eval(t, x, xd);
				x.resize(dof);
				xd.resize(dof);
				double h1 = dt, h2 = dt;
				c.note("step\n");
				int e2 = MoorDyn_Step(b.s, x.data(), xd.data(), fb.data(), &tb, &h2);
				int e1 = MoorDyn_Step(a.s, x.data(), xd.data(), fa.data(), &t, &h1);
				if (e2 == MOORDYN_NAN_ERROR)
					c.discard("unstable");
				if (e1 || e2)
					c.fail("step", "step failed with %d and %d", e1, e2);
				steps++;
				if (t != tb || !(std::fabs(t - steps * dt) <= 1e-9 * dt))
					c.fail("time", "the times are %.17g and %.17g after %d steps of %g", t, tb, steps, dt);
				for (unsigned i = 0; i < dof; i++)
					if (std::isfinite(fb[i]) && fa[i] != fb[i])
						c.fail("effect", "the coupled force %u is %.17g instead of %.17g", i, fa[i], fb[i]);
				break;
			}
			case 1: query(); break;
			case 2: refuse(); break;
			case 3: setter(); break;
			default: { // a step of no time gives the forces back
				if (!steps)
					break;
				Snap s0 = snap(a.s, y);
				std::vector<double> f(dof, 123), z(dof, 0.5);
				double h = g.coin() ? 0 : -dt, t1 = t;
				int e = MoorDyn_Step(a.s, z.data(), z.data(), f.data(), &t1, &h);
				extra++;
				if (e)
					c.fail("zero-step", "a step of no time failed with %d", e);
				if (t1 != t)
					c.fail("zero-step", "a step of %g moved the time from %g to %g", h, t, t1);
				c.tag("step of no time");
				for (unsigned i = 0; i < dof; i++)
					if (std::isfinite(fa[i]) && f[i] != fa[i])
						c.fail("zero-step", "a step of no time gives the force %u as %.17g, it was %.17g",
						       i, f[i], fa[i]);
				Snap s1 = snap(a.s, y);
				for (size_t i = 0; i < s0.v.size(); i++)
					if (std::isfinite(s0.v[i]) && !(s0.v[i] == s1.v[i]))
						c.fail("zero-step", "a step of no time changed %s from %.17g to %.17g",
						       s0.lab[i].c_str(), s0.v[i], s1.v[i]);
			}
		}
	}
	compare("at the end");
	if (pressure)
		c.tag("pressure bending");
	c.nontrivial(steps >= 2 && extra >= 5 && refused >= 1);
}
