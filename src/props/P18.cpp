// P18: the legacy (v1) API is the same simulation behind a single hidden instance
#include "loads.hpp"
#include "MoorDyn.h"
#include <memory>
#include <sys/stat.h>
const char* PROP_ID = "P18";
const char* PROP_RULE =
    "non-trivial: a system was initialised through the legacy API and at least 2 steps of it were "
    "compared, or a call without a system, or a refused initialisation, was made";
int PROP_CPU_LIMIT = 60;

namespace {
struct Model
{
	Loads L;
	Motion m;
	bool external = false;
	double dt = 0;
};
const double MARK = -7.25e77;
} // namespace

void
run_case(Gen& g, Ctx& c)
{
	int nm = g.range(1, 2);
	std::vector<std::unique_ptr<Model>> models;
	for (int i = 0; i < nm; i++) {
		models.emplace_back(new Model);
		Model& M = *models.back();
		GenOpt o;
		o.maxlines = 3;
		o.maxseg = 5;
		M.L.y = gen_sys(g, o);
		Sys& y = M.L.y;
		y.dtM = stable_dt(y, 0.05);
		y.scheme = g.pick(std::vector<std::string>{ "rk2", "euler", "ab2", "leuler", "heun", "rk4" });
		y.opts.push_back({ "dtIC", "0.1" });
		y.tmaxic = (g.chance(1, 4) && y.dtM > 4e-5) ? 0.2 : 0;
		M.dt = y.dtM * g.range(1, 3);
		M.external = g.chance(1, 3);
		if (M.external) {
			use_water(y, M.L.W, true);
			c.tag("external waves");
		}
		for (size_t k = 0; k < y.lines.size(); k++)
			if (g.coin())
				y.outs.push_back("FairTen" + std::to_string(k + 1));
		M.m = gen_motion(g, y, 0.4, 0.3, 3.0);
		c.note("model %d, dt %g:\n%s\n", i, M.dt, y.text().c_str());
	}
	// what the hidden instance has to be
	MoorDyn s = nullptr;
	const Model* cur = nullptr;
	double t = 0;
	unsigned nw = 0;
	int steps = 0, refused = 0, dirs = 0, compared = 0;
	bool healthy = true;
	std::string d1, d2; // directories of the current one
	bool ic_default = false;
	auto make = [&](const Model& M, bool dflt) {
		d1 = dflt ? "Mooring" : "a" + std::to_string(dirs);
		d2 = "b" + std::to_string(dirs++);
		const char* f = dflt ? "/lines.txt" : "/sys.txt";
		Sys y = M.L.y;
		mkdir(d1.c_str(), 0755);
		mkdir(d2.c_str(), 0755);
		y.path = d1 + f;
		y.write();
		y.path = d2 + f;
		y.write();
		return std::string(f);
	};
	auto files = [&](const std::string& a, const std::string& b) {
		std::string p = get_file(a), q = get_file(b);
		c.evals++;
		if (p != q)
			c.fail("file", "%s and %s differ", a.c_str(), b.c_str());
		if (!p.empty())
			c.tag("output file");
	};
	std::string f1, f2;
	auto close2 = [&]() {
		if (s)
			MoorDyn_Close(s);
		s = nullptr;
		cur = nullptr;
		nw = 0;
	};
	int nops = g.range(2, 14);
	for (int op = 0; op < nops; op++) {
		int w = g.weighted({ 8, 3, 2, 2, 4, 4, 3 });
		if (!s && w == 0 && g.chance(7, 10))
			w = 1;
		if (w == 0) { // step
			if (!s) {
				double x[64] = { 0 }, f[64], tt = 1, dt = 0.01;
				for (double& v : f)
					v = MARK;
				int e = MoorDynStep(x, x, f, &tt, &dt);
				c.note("step without a system\n");
				if (!e)
					c.fail("no-system", "MoorDynStep without a system returned success");
				for (double& v : f)
					if (v != MARK)
						c.fail("no-system", "MoorDynStep without a system wrote forces");
				if (tt != 1 || dt != 0.01)
					c.fail("no-system", "MoorDynStep without a system changed the time");
				c.nontrivial();
				continue;
			}
			std::vector<double> x, xd;
			cur->m.eval(t, x, xd);
			if (nw) {
				std::vector<double> r1(3 * nw, MARK), r2(3 * nw, MARK), u(3 * nw), ud(3 * nw);
				getWaveKinCoordinates(r1.data());
				MoorDyn_ExternalWaveKinGetCoordinates(s, r2.data());
				c.evals += 3 * nw;
				for (unsigned i = 0; i < 3 * nw; i++) {
					if (r1[i] != r2[i])
						c.fail("waves", "wave point %u: %.17g and %.17g", i, r1[i], r2[i]);
					u[i] = 0.3 * sin(r1[i] + t);
					ud[i] = 0.3 * cos(r1[i] + t);
				}
				setWaveKin(u.data(), ud.data(), t);
				MoorDyn_ExternalWaveKinSet(s, u.data(), ud.data(), t);
			}
			std::vector<double> fa(x.size(), MARK), fb(x.size(), MARK);
			double ta = t, tb = t, da = cur->dt, db = cur->dt;
			int ea = MoorDynStep(x.data(), xd.data(), fa.data(), &ta, &da);
			int eb = MoorDyn_Step(s, x.data(), xd.data(), fb.data(), &tb, &db);
			c.note("step to %g: %d %d\n", tb, ea, eb);
			c.evals += fa.size() + 3;
			if (ea != eb || ta != tb || da != db)
				c.fail("step", "MoorDynStep gave %d t %.17g dt %.17g, MoorDyn_Step %d t %.17g dt %.17g", ea,
				       ta, da, eb, tb, db);
			t = tb;
			if (eb) {
				healthy = false;
				close2();
				MoorDynClose();
				c.discard("failed step");
			}
			for (double v : fb)
				if (!std::isfinite(v))
					c.discard("non-finite forces");
			for (size_t i = 0; i < fa.size(); i++)
				if (fa[i] != fb[i])
					c.fail("forces", "force %zu is %.17g from MoorDynStep, %.17g from MoorDyn_Step", i, fa[i],
					       fb[i]);
			steps++;
			compared = std::max(compared, steps);
		} else if (w == 1) { // initialisation, maybe over a previous one
			const Model& M = *models[g.range(0, nm - 1)];
			struct stat st;
			bool dflt = g.chance(1, 8) && stat("Mooring", &st);
			std::string old1 = f1, old2 = f2;
			std::string f = make(M, dflt);
			std::vector<double> x, xd;
			M.m.eval(0, x, xd);
			std::string p1 = d1 + f, p2 = d2 + f;
			MoorDyn n = MoorDyn_Create(p2.c_str());
			if (!n)
				c.fail("create", "a valid system was rejected");
			MoorDyn_SetVerbosity(n, MOORDYN_NO_OUTPUT);
			int eb = MoorDyn_Init(n, x.data(), xd.data());
			int ea = MoorDynInit(x.data(), xd.data(), dflt ? (g.coin() ? "" : nullptr) : p1.c_str());
			c.note("init %s: %d %d\n", p1.c_str(), ea, eb);
			c.evals++;
			if (ea != eb)
				c.fail("init", "MoorDynInit returned %d, MoorDyn_Init %d", ea, eb);
			if (dflt)
				c.tag("default file");
			if (eb) {
				MoorDyn_Close(n);
				continue;
			}
			if (s)
				c.tag("initialised over another system");
			close2();
			// the replaced one was closed, its files are complete
			if (!old1.empty())
				files(old1, old2);
			f1 = p1.substr(0, p1.size() - 4) + ".out";
			f2 = p2.substr(0, p2.size() - 4) + ".out";
			s = n;
			cur = &M;
			t = 0;
			steps = 0;
			if (M.external) {
				int na = externalWaveKinInit();
				MoorDyn_ExternalWaveKinInit(s, &nw);
				c.evals++;
				if (na != (int)nw)
					c.fail("waves", "%d wave points instead of %u", na, nw);
			}
		} else if (w == 2) { // refused initialisation
			refused++;
			int kind = g.range(0, 3);
			const Model& M = *models[0];
			std::vector<double> x, xd;
			M.m.eval(0, x, xd);
			int e;
			if (kind == 0 || (kind == 2 && !M.L.y.dofs())) {
				e = MoorDynInit(x.data(), xd.data(), "missing/file.txt");
				kind = 0;
			} else if (kind == 1) {
				mkdir("bad", 0755);
				std::string q = M.L.y.text();
				Sys y = M.L.y;
				y.path = "bad/sys.txt";
				y.write();
				put_file("bad/sys.txt", q.substr(0, q.find("OPTIONS")) + "x\n9 nosuchtype 1 2 10 4 -\n");
				std::string txt = q;
				// a line of an unknown type
				size_t at = txt.find("---------------------- OPTIONS");
				txt.insert(at, "77 nosuchtype 1 1 10 4 -\n");
				put_file("bad/sys.txt", txt);
				e = MoorDynInit(x.data(), xd.data(), "bad/sys.txt");
			} else if (kind == 2) {
				mkdir("bad2", 0755);
				Sys y = M.L.y;
				y.path = "bad2/sys.txt";
				y.write();
				e = MoorDynInit(nullptr, nullptr, "bad2/sys.txt");
			} else {
				put_file("empty.txt", "");
				e = MoorDynInit(x.data(), xd.data(), "empty.txt");
				if (!e) { // an empty file is an empty system for all that we know
					MoorDynClose();
					close2();
					f1 = f2 = "";
					c.note("empty file accepted\n");
					continue;
				}
			}
			c.note("refused init %d: %d\n", kind, e);
			c.evals++;
			if (!e)
				c.fail("refused", "MoorDynInit accepted an invalid model (kind %d)", kind);
			c.tag(s ? "refused, with a system" : "refused, without a system");
			c.nontrivial();
		} else if (w == 3) { // close
			int e = MoorDynClose();
			c.note("close: %d\n", e);
			c.evals++;
			if (s ? e != 0 : e == 0)
				c.fail("close", "MoorDynClose returned %d %s a system", e, s ? "with" : "without");
			bool had = s;
			close2();
			if (had) {
				files(f1, f2);
				f1 = f2 = "";
			} else
				c.nontrivial();
		} else if (w == 4) { // lines
			int n = cur ? (int)cur->L.y.lines.size() : 2;
			int l = g.range(-1, n + 2);
			bool ok = s && l >= 1 && l <= n;
			double v = GetFairTen(l), r = -1;
			if (ok)
				MoorDyn_GetLineFairTen(MoorDyn_GetLine(s, l), &r);
			c.note("line %d: %g %g\n", l, v, r);
			c.evals += 4;
			if (v != r)
				c.fail("fairten", "GetFairTen(%d) is %.17g instead of %.17g", l, v, r);
			unsigned nn = 0;
			if (ok)
				MoorDyn_GetLineN(MoorDyn_GetLine(s, l), &nn);
			int k = g.range(-1, nn + 2);
			double p[3] = { MARK, MARK, MARK }, q[3] = { MARK, MARK, MARK };
			int ea = GetNodePos(l, k, p);
			bool okn = ok && k >= 0 && k <= (int)nn;
			if (okn)
				MoorDyn_GetLineNodePos(MoorDyn_GetLine(s, l), k, q);
			if (okn ? ea != 0 : ea == 0)
				c.fail("node", "GetNodePos(%d, %d) returned %d", l, k, ea);
			for (int i = 0; i < 3; i++)
				if (p[i] != q[i])
					c.fail("node", "GetNodePos(%d, %d) gave %.17g instead of %.17g", l, k, p[i], q[i]);
			c.tag(okn ? "node" : "invalid line or node");
		} else if (w == 5) { // points
			int n = cur ? (int)cur->L.y.points.size() : 2;
			int l = g.range(-1, n + 2);
			bool ok = s && l >= 1 && l <= n;
			for (int k = 0; k < 2; k++) {
				double p[3] = { MARK, MARK, MARK }, q[3] = { MARK, MARK, MARK };
				int ea = k ? GetPointForce(l, p) : GetPointPos(l, p);
				if (ok) {
					auto P = MoorDyn_GetPoint(s, l);
					k ? MoorDyn_GetPointForce(P, q) : MoorDyn_GetPointPos(P, q);
				}
				c.evals += 3;
				if (ok ? ea != 0 : ea == 0)
					c.fail("point", "GetPoint%s(%d) returned %d", k ? "Force" : "Pos", l, ea);
				for (int i = 0; i < 3; i++)
					if (p[i] != q[i])
						c.fail("point", "GetPoint%s(%d) gave %.17g instead of %.17g", k ? "Force" : "Pos", l,
						       p[i], q[i]);
			}
			c.note("point %d\n", l);
			c.tag(ok ? "point" : "invalid point");
		} else { // fairlead and anchor tensions, waves
			int n = cur ? (int)cur->L.y.lines.size() : 2;
			int k = g.range(-1, n + 1);
			bool ok = s && k >= 0 && k <= n;
			size_t z = std::max(k, 0);
			std::vector<float> a[4], b[4];
			for (int i = 0; i < 4; i++)
				a[i].assign(z, -3), b[i].assign(z, -3);
			int ea = GetFASTtens(&k, a[0].data(), a[1].data(), a[2].data(), a[3].data());
			if (ok)
				MoorDyn_GetFASTtens(s, &k, b[0].data(), b[1].data(), b[2].data(), b[3].data());
			c.note("FAST tensions %d\n", k);
			c.evals += 4 * z + 1;
			if (ok ? ea != 0 : ea == 0)
				c.fail("fast", "GetFASTtens of %d lines returned %d", k, ea);
			for (int i = 0; i < 4; i++)
				for (size_t q = 0; q < z; q++)
					if (a[i][q] != b[i][q] && !(std::isnan(a[i][q]) && std::isnan(b[i][q])))
						c.fail("fast", "GetFASTtens: array %d, line %zu: %g instead of %g", i, q, a[i][q], b[i][q]);
			if (!s) {
				double r[3] = { MARK, MARK, MARK };
				int nn = externalWaveKinInit();
				getWaveKinCoordinates(r);
				setWaveKin(r, r, 1);
				if (nn || r[0] != MARK || r[1] != MARK || r[2] != MARK)
					c.fail("no-system", "wave points without a system");
				c.nontrivial();
			}
		}
	}
	(void)healthy;
	(void)ic_default;
	// the final state, through everything that the legacy API shows
	if (s) {
		const Sys& y = cur->L.y;
		for (size_t i = 1; i <= y.points.size(); i++) {
			double p[3];
			V3 q = ppos(s, i), f = pforce(s, i);
			GetPointPos(i, p);
			c.evals += 6;
			if (p[0] != q.x || p[1] != q.y || p[2] != q.z)
				c.fail("point", "the final position of point %zu differs", i);
			GetPointForce(i, p);
			if (p[0] != f.x || p[1] != f.y || p[2] != f.z)
				c.fail("point", "the final force of point %zu differs", i);
		}
		for (size_t i = 1; i <= y.lines.size(); i++)
			for (int k = 0; k <= y.lines[i - 1].n; k++) {
				double p[3];
				V3 q = lpos(s, i, k);
				GetNodePos(i, k, p);
				c.evals += 3;
				if (p[0] != q.x || p[1] != q.y || p[2] != q.z)
					c.fail("node", "the final position of node %d of line %zu differs", k, i);
			}
		close2();
		if (MoorDynClose())
			c.fail("close", "MoorDynClose failed");
		files(f1, f2);
	}
	c.nontrivial(compared >= 2);
}
