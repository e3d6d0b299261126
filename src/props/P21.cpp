// P21: the Python module is the C API. The interpreter is embedded; moordyn.py is the one of the repository and
// cmoordyn.cpp is compiled into this program
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include "loads.hpp"
#include <cstring>
#include <fstream>
#include <sstream>
#include "pyembed.hpp"
const char* PROP_ID = "P21";
const char* PROP_RULE = "non-trivial: at least one step and ten calls of the Python module were compared with "
                        "those of the C API";
int PROP_CPU_LIMIT = 60;

static std::string
slurp(const std::string& f)
{
	std::ifstream i(f, std::ios::binary);
	std::stringstream s;
	s << i.rdbuf();
	return s.str();
}

void
run_case(Gen& g, Ctx& c)
{
	start(c);
	GenOpt o;
	o.maxlines = 3;
	o.maxseg = 4;
	Loads L;
	L.y = gen_sys(g, o);
	Sys& y = L.y;
	// the announced number of coordinates is not the one which is used in these (known finding of P07)
	for (auto& b : y.bodies)
		if (b.type == "CoupledPinned")
			b.type = "Coupled";
	y.dtM = stable_dt(y, 0.05);
	bool bath = g.chance(1, 3);
	L.depth = [&](double, double) { return -y.depth; };
	if (bath) {
		gen_bathymetry(g, L, -y.depth - 4, -y.depth - 0.5);
		L.depth = [&](double x, double yy) { return bilinear(L.bathx, L.bathy, L.bathz, x, yy); };
		c.tag("bathymetry");
	}
	bool external = g.chance(1, 3);
	int wave = external ? 0 : g.pick(std::vector<int>{ 0, 0, 7 });
	if (wave) {
		double h = y.depth;
		if (bath) {
			h = 0;
			for (auto& r : L.bathz)
				for (double z : r)
					h -= z / (L.bathx.size() * L.bathy.size());
		}
		L.W = gen_water(g, wave, 0, y.g, y.rho, h, L.depth, 1);
	}
	use_water(y, L.W, external);
	y.opts.push_back({ "dtIC", "0.1" });
	bool noic = g.chance(3, 4) || y.dtM < 2e-5;
	y.tmaxic = noic ? 0 : 0.3;
	Motion m = gen_motion(g, y, 0.3, 0.3, 3.0);
	double dt = y.dtM * g.range(1, 3);
	Sys z = y;
	z.path = "py.txt";
	z.write();
	y.write();
	c.note("dt %g\n%s", dt, y.text().c_str());

	int calls = 0, steps = 0;
	auto ask = [&](const char* what, const R& r, const std::vector<double>& e, int err, const char* shape = "") {
		calls++;
		c.evals++;
		if (err) {
			if (r.ok)
				c.fail("accepted", "%s: the C call fails with %d, but the Python one gives an answer", what, err);
			if (r.exc != "RuntimeError")
				c.fail("exception", "%s: the C call fails with %d, and the Python one raises %s", what, err,
				       r.exc.c_str());
			return;
		}
		if (!r.ok)
			c.fail("raised", "%s: the C call works, but the Python one raises %s", what, r.exc.c_str());
		if (*shape && r.shape != shape)
			c.fail("shape", "%s: the answer is %s, expected %s", what, r.shape.c_str(), shape);
		if (r.v.size() != e.size())
			c.fail("size", "%s: %zu values (%s), expected %zu", what, r.v.size(), r.shape.c_str(), e.size());
		for (size_t i = 0; i < e.size(); i++)
			if (!(r.v[i] == e[i]) && !(std::isnan(r.v[i]) && std::isnan(e[i])))
				c.fail("value", "%s: value %zu is %.17g, expected %.17g", what, i, r.v[i], e[i]);
	};
	auto code = [&](const char* what, const R& r, int err) { // those which return the error code
		calls++;
		c.evals++;
		if (!r.ok || r.v.size() != 1 || r.v[0] != err)
			c.fail("code", "%s: the C call gives %d, but the Python one %s %g", what, err,
			       r.ok ? "returns" : r.exc.c_str(), r.v.empty() ? NAN : r.v[0]);
	};
	auto none = [&](const char* what, const R& r, int err) { // those which return nothing
		calls++;
		c.evals++;
		if (err ? r.ok || r.exc != "RuntimeError" : !r.ok)
			c.fail("code", "%s: the C call gives %d, but the Python one %s", what, err,
			       r.ok ? "works" : r.exc.c_str());
	};
	auto refused = [&](const char* what, const R& r) {
		c.evals++;
		if (r.ok || r.exc == "SystemError" || r.exc == "nothing")
			c.fail("accepted", "%s: %s", what, r.ok ? "no exception" : r.exc.c_str());
		c.tag("refused");
	};

	// sequences of numbers which are not those of a call taking n
	auto wrong = [&](int n) -> PyObject* {
		std::vector<int> sz = { 0, 1, n - 1, n + 1, n + 3, 2 * n };
		int q = g.pick(sz);
		if (q < 0 || q == n)
			q = n + 1;
		std::vector<double> d(q + 1, 0.25);
		return lst(d.data(), q, g.range(0, 2));
	};
	// something in the place of a sequence of n numbers
	auto word = [&](const double* d, int n) -> PyObject* {
		if (!n || g.chance(1, 3))
			return g.coin() ? F(1.0) : ref(Py_None);
		PyObject* l = lst(d, n);
		PyList_SetItem(l, g.range(0, n - 1), g.coin() ? S("far") : ref(Py_None));
		return l;
	};

	if (g.chance(1, 8)) {
		R r = py("Create", S("missing.txt"));
		ask("Create of a missing file", r, {}, 1);
	}
	R cap = py("Create", S(z.path));
	if (!cap.ok)
		c.fail("create", "a valid system was rejected by Python: %s", cap.exc.c_str());
	PyObject* P = cap.o;
	code("SetVerbosity", py("SetVerbosity", ref(P), I(4096)), 0);
	struct Closer
	{
		PyObject* p;
		bool open = true;
		~Closer()
		{
			if (open)
				py("Close", ref(p));
		}
	} closer{ P };
	MD a(y.path);
	if (!a.s)
		c.fail("create", "a valid system was rejected");
	MoorDyn s = a.s;
	unsigned dof = 0, nb = 0, nr = 0, np = 0, nl = 0;
	int e = MoorDyn_NCoupledDOF(s, &dof);
	ask("NCoupledDOF", py("NCoupledDOF", ref(P)), { (double)dof }, e, "i");
	e = MoorDyn_GetNumberBodies(s, &nb);
	ask("GetNumberBodies", py("GetNumberBodies", ref(P)), { (double)nb }, e, "i");
	e = MoorDyn_GetNumberRods(s, &nr);
	ask("GetNumberRods", py("GetNumberRods", ref(P)), { (double)nr }, e, "i");
	e = MoorDyn_GetNumberPoints(s, &np);
	ask("GetNumberPoints", py("GetNumberPoints", ref(P)), { (double)np }, e, "i");
	e = MoorDyn_GetNumberLines(s, &nl);
	ask("GetNumberLines", py("GetNumberLines", ref(P)), { (double)nl }, e, "i");
	std::vector<double> x, xd, f(dof + 1);
	m.eval(0, x, xd);
	x.resize(dof);
	xd.resize(dof);
	if (!noic)
		std::fill(xd.begin(), xd.end(), 0.0);
	if (g.chance(1, 6)) {
		const char* fn = g.coin() ? "Init" : "Init_NoIC";
		if (g.chance(1, 3)) {
			bool first = g.coin();
			refused("Init with something else",
			        py(fn, ref(P), first ? word(x.data(), dof) : lst(x.data(), dof), first ? lst(xd.data(), dof) : word(xd.data(), dof)));
		} else {
			refused("Init with another number of positions", py(fn, ref(P), wrong(dof), lst(xd.data(), dof)));
			refused("Init with another number of velocities", py(fn, ref(P), lst(x.data(), dof), wrong(dof)));
		}
	}
	int how = g.range(0, 2);
	const char* fn = noic ? "Init_NoIC" : "Init";
	e = noic ? MoorDyn_Init_NoIC(s, x.data(), xd.data()) : MoorDyn_Init(s, x.data(), xd.data());
	code(fn, py(fn, ref(P), lst(x.data(), dof, how), lst(xd.data(), dof, how)), e);
	if (e)
		c.discard("the initialization failed");
	unsigned nk = 0;
	if (external) {
		code("ExternalWaveKinInit", py("ExternalWaveKinInit", ref(P)), MoorDyn_ExternalWaveKinInit(s, &nk));
		c.tag("external waves");
	}
	e = MoorDyn_ExternalWaveKinGetN(s, &nk);
	ask("ExternalWaveKinGetN", py("ExternalWaveKinGetN", ref(P)), { (double)nk }, e, "i");

	R waves = py("GetWaves", ref(P)), floor = py("GetSeafloor", ref(P));
	MoorDynWaves cw = MoorDyn_GetWaves(s);
	MoorDynSeafloor cf = MoorDyn_GetSeafloor(s);
	if (!waves.ok || waves.o == Py_None)
		c.fail("handle", "GetWaves gives nothing");
	if (!floor.ok || (floor.o == Py_None) != !cf)
		c.fail("handle", "GetSeafloor gives %s", floor.ok ? floor.shape.c_str() : floor.exc.c_str());
	auto handle = [&](const char* n, unsigned i, void* h) {
		R r = py(n, ref(P), I(i));
		if (r.ok != !!h)
			c.fail("handle", "%s(%u): %s", n, i, r.ok ? "there should be none" : r.exc.c_str());
		return r;
	};

	auto dget = [&](const char* n, PyObject* h, int err, const double* v, int k, const char* shape) {
		ask(n, py(n, ref(h)), std::vector<double>(v, v + k), err, shape);
	};
	auto look = [&](unsigned mask) {
		double v[36], w[36];
		int k;
		unsigned u;
		if (mask & 1)
			for (unsigned i = 1; i <= nb; i++) {
				MoorDynBody b = MoorDyn_GetBody(s, i);
				R h = handle("GetBody", i, b);
				e = MoorDyn_GetBodyID(b, &k);
				ask("GetBodyID", py("GetBodyID", ref(h.o)), { (double)k }, e, "i");
				e = MoorDyn_GetBodyType(b, &k);
				ask("GetBodyType", py("GetBodyType", ref(h.o)), { (double)k }, e, "i");
				e = MoorDyn_GetBodyState(b, v, w);
				std::vector<double> q(v, v + 6);
				q.insert(q.end(), w, w + 6);
				ask("GetBodyState", py("GetBodyState", ref(h.o)), q, e, "2[6[d]]");
				dget("GetBodyPos", h.o, MoorDyn_GetBodyPos(b, v), v, 3, "3[d]");
				dget("GetBodyAngle", h.o, MoorDyn_GetBodyAngle(b, v), v, 3, "3[d]");
				dget("GetBodyVel", h.o, MoorDyn_GetBodyVel(b, v), v, 3, "3[d]");
				dget("GetBodyAngVel", h.o, MoorDyn_GetBodyAngVel(b, v), v, 3, "3[d]");
				dget("GetBodyForce", h.o, MoorDyn_GetBodyForce(b, v), v, 6, "6[d]");
				dget("GetBodyM", h.o, MoorDyn_GetBodyM(b, (double(*)[6])v), v, 36, "6[6[d]]");
			}
		if (mask & 2)
			for (unsigned i = 1; i <= nr; i++) {
				MoorDynRod b = MoorDyn_GetRod(s, i);
				R h = handle("GetRod", i, b);
				e = MoorDyn_GetRodID(b, &k);
				ask("GetRodID", py("GetRodID", ref(h.o)), { (double)k }, e, "i");
				e = MoorDyn_GetRodType(b, &k);
				ask("GetRodType", py("GetRodType", ref(h.o)), { (double)k }, e, "i");
				e = MoorDyn_GetRodN(b, &u);
				ask("GetRodN", py("GetRodN", ref(h.o)), { (double)u }, e, "i");
				dget("GetRodForce", h.o, MoorDyn_GetRodForce(b, v), v, 6, "6[d]");
				dget("GetRodM", h.o, MoorDyn_GetRodM(b, (double(*)[6])v), v, 36, "6[6[d]]");
				for (unsigned j = 0; j <= u + 1; j++) {
					e = MoorDyn_GetRodNodePos(b, j, v);
					ask("GetRodNodePos", py("GetRodNodePos", ref(h.o), I(j)), std::vector<double>(v, v + 3), e,
					    "3[d]");
					e = MoorDyn_GetRodNodeVel(b, j, v);
					ask("GetRodNodeVel", py("GetRodNodeVel", ref(h.o), I(j)), std::vector<double>(v, v + 3), e,
					    "3[d]");
				}
			}
		if (mask & 4)
			for (unsigned i = 1; i <= np; i++) {
				MoorDynPoint b = MoorDyn_GetPoint(s, i);
				R h = handle("GetPoint", i, b);
				e = MoorDyn_GetPointID(b, &k);
				ask("GetPointID", py("GetPointID", ref(h.o)), { (double)k }, e, "i");
				e = MoorDyn_GetPointType(b, &k);
				ask("GetPointType", py("GetPointType", ref(h.o)), { (double)k }, e, "i");
				dget("GetPointPos", h.o, MoorDyn_GetPointPos(b, v), v, 3, "3[d]");
				dget("GetPointVel", h.o, MoorDyn_GetPointVel(b, v), v, 3, "3[d]");
				dget("GetPointForce", h.o, MoorDyn_GetPointForce(b, v), v, 3, "3[d]");
				dget("GetPointM", h.o, MoorDyn_GetPointM(b, (double(*)[3])v), v, 9, "3[3[d]]");
				e = MoorDyn_GetPointNAttached(b, &u);
				ask("GetPointNAttached", py("GetPointNAttached", ref(h.o)), { (double)u }, e, "i");
				for (unsigned j = 0; j <= u; j++) {
					MoorDynLine l = nullptr;
					int end = -1, id = -1;
					e = MoorDyn_GetPointAttached(b, j, &l, &end);
					R r = py("GetPointAttached", ref(h.o), I(j));
					c.evals++;
					if (r.ok != !e)
						c.fail("code", "GetPointAttached(%u) of %u: the C call gives %d", j, u, e);
					if (e)
						continue;
					MoorDyn_GetLineID(l, &id);
					if (!PyTuple_Check(r.o) || PyTuple_Size(r.o) != 2 ||
					    PyLong_AsLong(PyTuple_GetItem(r.o, 1)) != end)
						c.fail("value", "GetPointAttached: the end is not %d", end);
					ask("GetLineID of GetPointAttached", py("GetLineID", ref(PyTuple_GetItem(r.o, 0))),
					    { (double)id }, 0, "i");
				}
			}
		if (mask & 8)
			for (unsigned i = 1; i <= nl; i++) {
				MoorDynLine b = MoorDyn_GetLine(s, i);
				R h = handle("GetLine", i, b);
				e = MoorDyn_GetLineID(b, &k);
				ask("GetLineID", py("GetLineID", ref(h.o)), { (double)k }, e, "i");
				e = MoorDyn_GetLineN(b, &u);
				ask("GetLineN", py("GetLineN", ref(h.o)), { (double)u }, e, "i");
				dget("GetLineUnstretchedLength", h.o, MoorDyn_GetLineUnstretchedLength(b, v), v, 1, "d");
				e = MoorDyn_IsLineConstantEA(b, &k);
				ask("IsLineConstantEA", py("IsLineConstantEA", ref(h.o)), { k ? 1. : 0. }, e, "i");
				dget("GetLineConstantEA", h.o, MoorDyn_GetLineConstantEA(b, v), v, 1, "d");
				e = MoorDyn_IsLinePressBend(b, &k);
				ask("IsLinePressBend", py("IsLinePressBend", ref(h.o)), { k ? 1. : 0. }, e, "i");
				dget("GetLineFairTen", h.o, MoorDyn_GetLineFairTen(b, v), v, 1, "d");
				dget("GetLineMaxTen", h.o, MoorDyn_GetLineMaxTen(b, v), v, 1, "d");
				typedef int (*Get)(MoorDynLine, unsigned, double*);
				struct
				{
					const char* n;
					Get q;
				} gets[] = { { "GetLineNodePos", MoorDyn_GetLineNodePos },
					         { "GetLineNodeVel", MoorDyn_GetLineNodeVel },
					         { "GetLineNodeForce", MoorDyn_GetLineNodeForce },
					         { "GetLineNodeTen", MoorDyn_GetLineNodeTen },
					         { "GetLineNodeBendStiff", MoorDyn_GetLineNodeBendStiff },
					         { "GetLineNodeWeight", MoorDyn_GetLineNodeWeight },
					         { "GetLineNodeDrag", MoorDyn_GetLineNodeDrag },
					         { "GetLineNodeFroudeKrilov", MoorDyn_GetLineNodeFroudeKrilov },
					         { "GetLineNodeSeabedForce", MoorDyn_GetLineNodeSeabedForce } };
				for (unsigned j = 0; j <= u + 1; j++) {
					for (auto& q : gets) {
						e = q.q(b, j, v);
						ask(q.n, py(q.n, ref(h.o), I(j)), std::vector<double>(v, v + 3), e, "3[d]");
					}
					e = MoorDyn_GetLineNodeCurv(b, j, v);
					ask("GetLineNodeCurv", py("GetLineNodeCurv", ref(h.o), I(j)), { v[0] }, e, "d");
					e = MoorDyn_GetLineNodeM(b, j, (double(*)[3])v);
					ask("GetLineNodeM", py("GetLineNodeM", ref(h.o), I(j)), std::vector<double>(v, v + 9), e,
					    "3[3[d]]");
				}
			}
		if (mask & 16) {
			for (int i = 0; i < 2; i++) {
				double X = g.sym(60), Y = g.sym(60), Z = g.real(-y.depth, 5), zeta = NAN, p = NAN;
				bool sea = cf && g.coin();
				e = MoorDyn_GetWavesKin(cw, X, Y, Z, v, v + 3, &zeta, &p, sea ? cf : nullptr);
				v[6] = zeta;
				v[7] = p;
				R r = sea || g.coin() ? py("GetWavesKin", ref(waves.o), F(X), F(Y), F(Z), F(0.0),
				                           ref(sea ? floor.o : Py_None))
				                      : py("GetWavesKin", ref(waves.o), F(X), F(Y), F(Z), F(0.0));
				ask("GetWavesKin", r, std::vector<double>(v, v + 8), e);
				if (cf) {
					e = MoorDyn_GetDepthAt(cf, X, Y, v);
					ask("GetDepthAt", py("GetDepthAt", ref(floor.o), F(X), F(Y)), { v[0] }, e, "d");
				}
			}
			if (cf) {
				dget("GetAverageDepth", floor.o, MoorDyn_GetAverageDepth(cf, v), v, 1, "d");
				dget("GetMinDepth", floor.o, MoorDyn_GetMinDepth(cf, v), v, 1, "d");
			}
			int n = g.range(0, nl + 1);
			std::vector<float> t[4];
			for (auto& q : t)
				q.resize(nl + 2);
			e = MoorDyn_GetFASTtens(s, &n, t[0].data(), t[1].data(), t[2].data(), t[3].data());
			std::vector<double> q;
			for (auto& w : t)
				q.insert(q.end(), w.begin(), w.begin() + n);
			ask("GetFASTtens", py("GetFASTtens", ref(P), I(n)), q, e);
		}
		if (mask & 32 && nk) {
			std::vector<double> r(3 * nk);
			e = MoorDyn_ExternalWaveKinGetCoordinates(s, r.data());
			ask("GetWaveKinCoordinates", py("GetWaveKinCoordinates", ref(P)), r, e,
			    (std::to_string(nk) + "[3[d]]").c_str());
		}
	};

	double t = 0;
	std::vector<uint64_t> mem;
	R bytes;
	int n = g.range(3, 10);
	for (int k = 0; k < n; k++) {
		switch (g.weighted({ 5, 4, 3, 2, 2 })) {
			case 0: {
				if (external && nk) {
					std::vector<double> U(3 * nk), Ud(3 * nk);
					PyObject *pu = PyList_New(nk), *pa = PyList_New(nk);
					for (unsigned i = 0; i < 3 * nk; i++) {
						U[i] = 0.1 * sin(i + t);
						Ud[i] = 0.1 * cos(i + t);
					}
					for (unsigned i = 0; i < nk; i++) {
						PyList_SET_ITEM(pu, i, lst(U.data() + 3 * i, 3));
						PyList_SET_ITEM(pa, i, lst(Ud.data() + 3 * i, 3));
					}
					c.note("SetWaveKin\n");
					e = MoorDyn_ExternalWaveKinSet(s, U.data(), Ud.data(), t);
					code("SetWaveKin", py("SetWaveKin", ref(P), pu, pa, F(t)), e);
				}
				m.eval(t, x, xd);
				x.resize(dof);
				xd.resize(dof);
				double h = dt * (g.chance(1, 8) ? 0 : 1), tp = t;
				c.note("step of %g\n", h);
				std::vector<double> fz(dof + 1, 0.0);
				e = MoorDyn_Step(s, x.data(), xd.data(), fz.data(), &t, &h);
				how = g.range(0, 2);
				R r = py("Step", ref(P), lst(x.data(), dof, how), lst(xd.data(), dof, how), F(tp), F(h));
				fz.resize(dof);
				ask("Step", r, fz, e);
				if (e)
					c.discard("unstable");
				steps++;
				break;
			}
			case 1:
				c.note("queries\n");
				look(g.range(1, 63));
				break;
			case 2: {
				if (!nl)
					break;
				int i = g.range(1, nl);
				MoorDynLine l = MoorDyn_GetLine(s, i);
				R h = handle("GetLine", i, l);
				double len = y.lines[i - 1].len;
				switch (g.range(0, 4)) {
					case 0: {
						double v = len * g.real(0.9, 1.1);
						c.note("length of %d: %g\n", i, v);
						none("SetLineUnstretchedLength", py("SetLineUnstretchedLength", ref(h.o), F(v)),
						     MoorDyn_SetLineUnstretchedLength(l, v));
						break;
					}
					case 1: {
						double v = g.sym(0.05) * len / (n * dt);
						c.note("rate of %d: %g\n", i, v);
						none("SetLineUnstretchedLengthVel", py("SetLineUnstretchedLengthVel", ref(h.o), F(v)),
						     MoorDyn_SetLineUnstretchedLengthVel(l, v));
						break;
					}
					case 2: {
						double v = y.lt[y.lines[i - 1].type].EA0() * g.real(0.3, 1);
						c.note("stiffness of %d: %g\n", i, v);
						none("SetLineConstantEA", py("SetLineConstantEA", ref(h.o), F(v)),
						     MoorDyn_SetLineConstantEA(l, v));
						break;
					}
					case 3: {
						int b = g.coin();
						c.note("pressure bending of %d: %d\n", i, b);
						none("SetLinePressBend", py("SetLinePressBend", ref(h.o), PyBool_FromLong(b)),
						     MoorDyn_SetLinePressBend(l, b));
						break;
					}
					default: {
						std::vector<double> p(y.lines[i - 1].n + 1);
						for (auto& q : p)
							q = g.real(0, 1e4);
						c.note("pressure of %d\n", i);
						none("SetLinePressInt", py("SetLinePressInt", ref(h.o), lst(p.data(), p.size(), g.range(0, 2))),
						     MoorDyn_SetLinePressInt(l, p.data()));
						refused("SetLinePressInt with another number of values",
						        py("SetLinePressInt", ref(h.o), wrong(p.size())));
						refused("SetLinePressInt with something else",
						        py("SetLinePressInt", ref(h.o), word(p.data(), p.size())));
					}
				}
				look(8);
				c.tag("settings");
				break;
			}
			case 3: {
				switch (g.range(0, 3)) {
					case 0: {
						size_t sz = 0;
						MoorDyn_Serialize(s, &sz, nullptr);
						mem.assign(sz / 8 + 1, 0);
						e = MoorDyn_Serialize(s, nullptr, mem.data());
						bytes = py("Serialize", ref(P));
						c.evals++;
						c.note("Serialize\n");
						if (e || !bytes.ok || !PyBytes_Check(bytes.o))
							c.fail("checkpoint", "Serialize failed (%d, %s)", e, bytes.exc.c_str());
						if ((size_t)PyBytes_Size(bytes.o) != sz)
							c.fail("checkpoint", "the size of Serialize differs");
						if (g.coin()) // the checkpoints are interchangeable
							memcpy(mem.data(), PyBytes_AsString(bytes.o), sz);
						else {
							Py_DECREF(bytes.o);
							bytes.o = PyBytes_FromStringAndSize((const char*)mem.data(), sz);
						}
						break;
					}
					case 1:
						if (!bytes.o)
							break;
						c.note("Deserialize\n");
						none("Deserialize", py("Deserialize", ref(P), ref(bytes.o)),
						     MoorDyn_Deserialize(s, mem.data()));
						break;
					case 2:
						c.note("Save\n");
						none("Save", py("Save", ref(P), S("py.bin")), MoorDyn_Save(s, "c.bin"));
						c.evals++;
						if (slurp("py.bin").size() != slurp("c.bin").size())
							c.fail("checkpoint", "the sizes of the files of Save differ");
						break;
					default: {
						c.note("Load\n");
						bool swap = g.coin();
						none("Load", py("Load", ref(P), S(swap ? "c.bin" : "py.bin")),
						     MoorDyn_Load(s, swap ? "py.bin" : "c.bin"));
					}
				}
				c.tag("checkpoint");
				break;
			}
			default: {
				double v[8] = { 0 };
				switch (g.range(0, 9)) {
					case 0: handle("GetBody", g.coin() ? 0 : nb + 1, nullptr); break;
					case 1: handle("GetRod", g.coin() ? 0 : nr + 1, nullptr); break;
					case 2: handle("GetPoint", g.coin() ? 0 : np + 1, nullptr); break;
					case 3: handle("GetLine", g.coin() ? 0 : nl + 1, nullptr); break;
					case 4:
						refused("Step with another number of positions",
						        py("Step", ref(P), wrong(dof), lst(xd.data(), dof), F(t), F(dt)));
						refused("Step with another number of velocities",
						        py("Step", ref(P), lst(x.data(), dof), wrong(dof), F(t), F(dt)));
						if (external && nk) {
							auto kin = [&](int n) {
								double d[3] = { 0.1, 0.2, 0.3 };
								PyObject* l = PyList_New(n);
								for (int i = 0; i < n; i++)
									PyList_SET_ITEM(l, i, lst(d, 3));
								return l;
							};
							int n = g.pick(std::vector<int>{ 0, 1, (int)nk - 1, (int)nk + 1 });
							if (n == (int)nk)
								n++;
							refused("SetWaveKin at other points", py("SetWaveKin", ref(P), kin(n), kin(n), F(t)));
							refused("SetWaveKin with more accelerations", py("SetWaveKin", ref(P), kin(nk), kin(nk + 1), F(t)));
							refused("SetWaveKin with less accelerations", py("SetWaveKin", ref(P), kin(nk), kin(nk - 1), F(t)));
						}
						break;
					case 5: // handles of another kind
						refused("a system as a line", py("GetLineN", ref(P)));
						refused("waves as a system", py("NCoupledDOF", ref(waves.o)));
						refused("None as a system", py("NCoupledDOF", ref(Py_None)));
						break;
					case 6: {
						bool first = g.coin();
						refused("Step with something else",
						        py("Step",
						           ref(P),
						           first ? word(x.data(), dof) : lst(x.data(), dof),
						           first ? lst(xd.data(), dof) : word(xd.data(), dof),
						           F(t),
						           F(dt)));
						break;
					}
					case 7: {
						R r = py("Load", ref(P), S("missing.bin"));
						refused("Load of a missing file", r);
						refused("Save to a missing folder", py("Save", ref(P), S("missing/py.bin")));
						break;
					}
					case 8: refused("Deserialize of something else", py("Deserialize", ref(P), I(3))); break;
					default:
						code("SetLogFile", py("SetLogFile", ref(P), S("py.log")), MoorDyn_SetLogFile(s, "c.log"));
						code("SetLogLevel", py("SetLogLevel", ref(P), I(1)), MoorDyn_SetLogLevel(s, 1));
						code("SetLogLevel", py("SetLogLevel", ref(P), I(4096)), MoorDyn_SetLogLevel(s, 4096));
				}
				(void)v;
			}
		}
	}
	look(63);
	closer.open = false;
	code("Close", py("Close", ref(P)), 0);
	c.nontrivial(steps && calls >= 10);
}
