// P04: the same model and inputs give the same results, whatever else lives in the process
#include "loads.hpp"
#include <malloc.h>
#include <sys/stat.h>
const char* PROP_ID = "P04";
const char* PROP_RULE =
    "non-trivial: both systems took at least 2 steps while another instance was alive, with a "
    "different content of the fresh memory";
int PROP_CPU_LIMIT = 60;

static const std::vector<std::string> SCHEMES = {
	"rk2", "euler", "leuler", "heun", "rk4", "ab2", "ab3", "ab4", "lab2", "lab3", "lab4", "beuler3",
	"midpoint3", "aca5", "wilson5", "anderson5" };

namespace {
struct Job
{
	Loads L; // only the system
	Motion m;
	double dt = 0;
	int n = 0;
	bool external = false, noic = true;
	std::vector<double> set; // stiffness factor at each step, or 0
};
// One run of a job, with everything that was seen
struct Live
{
	const Job* j = nullptr;
	MoorDyn s = nullptr;
	double t = 0;
	int k = -1;
	unsigned nw = 0;
	std::vector<double> trace;
	std::vector<std::string> lab;
	std::vector<int> codes;
	bool stop = false, pending = false;
	void see()
	{
		Snap q = snap(s, j->L.y);
		// the first and the last queries are of the same place
		static const double at[4][3] = { { 0, 0, -2 }, { 7, -3, -11 }, { -5, 4, -1 }, { 0, 0, -2 } };
		for (auto& p : at) {
			double h = 0, U[3] = {}, Ud[3] = {}, zeta = 0, pd = 0;
			MoorDynSeafloor sf = MoorDyn_GetSeafloor(s);
			if (sf && !MoorDyn_GetDepthAt(sf, p[0], p[1], &h))
				q.add("depth", h);
			if (!MoorDyn_GetWavesKin(MoorDyn_GetWaves(s), p[0], p[1], p[2], U, Ud, &zeta, &pd, sf)) {
				q.add("water velocity", { U[0], U[1], U[2] });
				q.add("water acceleration", { Ud[0], Ud[1], Ud[2] });
				q.add("elevation", zeta);
				q.add("pressure", pd);
			}
		}
		trace.insert(trace.end(), q.v.begin(), q.v.end());
		lab.insert(lab.end(), q.lab.begin(), q.lab.end());
	}
	void create(const Job& job, const std::string& dir)
	{
		j = &job;
		Sys y = job.L.y;
		y.path = dir + "/sys.txt";
		s = MoorDyn_Create(y.path.c_str());
		if (!s)
			return;
		MoorDyn_SetVerbosity(s, MOORDYN_NO_OUTPUT);
	}
	void step()
	{
		std::vector<double> x, xd;
		// what a step left is looked at later, perhaps after something else happened
		if (pending) {
			pending = false;
			see();
			return;
		}
		if (stop)
			return;
		if (k < 0) {
			job().m.eval(0, x, xd);
			int e = job().noic ? MoorDyn_Init_NoIC(s, x.data(), xd.data())
			                   : MoorDyn_Init(s, x.data(), xd.data());
			codes.push_back(e);
			stop = e != 0;
			if (!stop && job().external)
				codes.push_back(MoorDyn_ExternalWaveKinInit(s, &nw));
			pending = !stop;
		} else {
			job().m.eval(t, x, xd);
			std::vector<double> f(x.size() + 1, 0);
			if (nw) {
				std::vector<double> r(3 * nw), u(3 * nw), ud(3 * nw);
				codes.push_back(MoorDyn_ExternalWaveKinGetCoordinates(s, r.data()));
				for (unsigned i = 0; i < 3 * nw; i++) {
					u[i] = 0.2 * sin(r[i] + t);
					ud[i] = 0.2 * cos(r[i] + t);
				}
				codes.push_back(MoorDyn_ExternalWaveKinSet(s, u.data(), ud.data(), t));
			}
			if (job().set[k] && !job().L.y.lines.empty()) {
				double EA = 0;
				MoorDynLine l = MoorDyn_GetLine(s, 1);
				MoorDyn_GetLineConstantEA(l, &EA);
				MoorDyn_SetLineConstantEA(l, EA * job().set[k]);
			}
			double h = job().dt;
			int e = MoorDyn_Step(s, x.data(), xd.data(), f.data(), &t, &h);
			codes.push_back(e);
			stop = e != 0;
			trace.push_back(t);
			lab.push_back("time");
			for (unsigned i = 0; i < job().L.y.dofs(); i++) {
				trace.push_back(f[i]);
				lab.push_back("force" + std::to_string(i));
			}
			pending = !stop;
		}
		k++;
	}
	bool done() const { return !pending && (stop || k >= j->n); }
	const Job& job() const { return *j; }
	void close()
	{
		if (s)
			codes.push_back(MoorDyn_Close(s));
		s = nullptr;
	}
};
void
gen_job(Gen& g, Ctx& c, Job& J, char id)
{
	GenOpt o;
	o.maxlines = 3;
	o.maxseg = 5;
	o.zerorods = true;
	J.L.y = gen_sys(g, o);
	Sys& y = J.L.y;
	y.scheme = g.pick(SCHEMES);
	y.dtM = stable_dt(y, 0.05);
	y.opts.push_back({ "dtIC", "0.1" });
	y.tmaxic = 0.2;
	J.noic = g.chance(3, 4) || y.dtM < 4e-5;
	J.dt = y.dtM * g.range(1, 3);
	J.n = g.range(2, 5);
	J.external = g.chance(1, 4);
	for (int i = 0; i < J.n; i++)
		J.set.push_back(g.chance(1, 8) ? g.real(0.5, 1) : 0);
	bool bath = g.chance(1, 4);
	Loads& L = J.L;
	DepthFn depth = [d = y.depth](double, double) { return -d; };
	double h = y.depth;
	if (bath) {
		gen_bathymetry(g, L, -y.depth - 4, -y.depth - 0.5);
		depth = [X = L.bathx, Y = L.bathy, Z = L.bathz](double x, double yy) { return bilinear(X, Y, Z, x, yy); };
		// this path is relative to the working directory
		std::string name = std::string("bath") + id + ".txt";
		put_file(name, y.files["bath.txt"]);
		y.opts.back().second = name;
		h = 0;
		for (auto& r : L.bathz)
			for (double z : r)
				h -= z / (L.bathx.size() * L.bathy.size());
		c.tag("bathymetry");
	}
	int wave = J.external ? 0 : g.pick(std::vector<int>{ 0, 0, 7, 2, 3 });
	int cur = g.pick(std::vector<int>{ 0, 0, 1, 2, 5 });
	if (wave || cur)
		L.W = gen_water(g, wave, cur, y.g, y.rho, h, depth, 1);
	if (wave || cur || J.external)
		c.tag("water " + std::to_string(J.external ? 1 : wave) + " " + std::to_string(cur));
	use_water(y, L.W, J.external);
	for (size_t i = 0; i < y.lines.size(); i++)
		if (g.coin()) {
			y.lines[i].out = g.coin() ? "ptv" : "pdVs";
			y.outs.push_back("FairTen" + std::to_string(i + 1));
		}
	for (size_t i = 0; i < y.points.size(); i++)
		if (g.chance(1, 3))
			y.outs.push_back("POINT" + std::to_string(i + 1) + (g.coin() ? "FX" : "PZ"));
	J.m = gen_motion(g, y, 0.4, 0.3, 3.0);
}
__attribute__((noinline)) void
dirty_stack(unsigned char v)
{
	volatile unsigned char b[100000];
	for (size_t i = 0; i < sizeof b; i++)
		b[i] = v;
}
} // namespace

void
run_case(Gen& g, Ctx& c)
{
	Job A, B;
	gen_job(g, c, A, 'A');
	if (g.coin()) {
		gen_job(g, c, B, 'B');
	} else {
		// the same objects in the same places, with other properties: what is kept from one of
		// them looks right to the other one
		B.L.y = A.L.y;
		B.m = A.m;
		B.dt = A.dt;
		B.n = A.n;
		B.external = A.external;
		B.noic = A.noic;
		B.set = A.set;
		Sys& y = B.L.y;
		std::vector<int> what;
		for (int k = 0; k < 6; k++)
			if (g.coin())
				what.push_back(k);
		if (what.empty())
			what = { 0, 1, 2, 3, 4, 5 };
		for (int k : what)
			switch (k) {
				case 0: y.g *= 0.75; break;
				case 1: y.rho *= 0.875; break;
				case 2:
					for (auto& t : y.lt) {
						t.Cd += 0.25;
						t.w *= 1.25;
						t.d *= 0.875;
						for (auto& v : t.ea.y)
							v *= 0.75;
						t.EA *= 0.75;
					}
					break;
				case 3:
					for (auto& t : y.rt) {
						t.w *= 1.25;
						t.Cd += 0.25;
					}
					for (auto& b : y.bodies) {
						b.m *= 1.25;
						b.cda[0] += 0.25;
					}
					for (auto& p : y.points) {
						p.m *= 1.25;
						p.cda += 0.25;
					}
					break;
				case 4: {
					y.kb *= 0.5;
					y.depth += 0.25;
					if (y.files.count("bath.txt")) {
						// the same grid, raised
						std::stringstream in(y.files["bath.txt"]), out;
						std::string l;
						for (int i = 0; i < 3 && getline(in, l); i++)
							out << l << "\n";
						double p, q, z;
						while (in >> p >> q >> z)
							out << num(p) << " " << num(q) << " " << num(z + 0.25) << "\n";
						y.files["bath.txt"] = out.str();
						put_file("bathB.txt", out.str());
						for (auto& op : y.opts)
							if (op.first == "SeafloorFile")
								op.second = "bathB.txt";
						c.tag("sibling bathymetry");
					}
					break;
				}
				case 5: B.m = gen_motion(g, y, 0.4, 0.3, 3.0); break;
			}
		c.tag("siblings");
	}
	const char* dirs[] = { "soloA", "soloB", "mixA", "mixB", "mixC" };
	for (int i = 0; i < 5; i++) {
		mkdir(dirs[i], 0755);
		Sys y = (i == 1 || i == 3) ? B.L.y : A.L.y;
		y.path = std::string(dirs[i]) + "/sys.txt";
		y.write();
	}
	int pa = g.range(0, 255), pb = g.range(0, 255);
	bool third = g.coin();
	c.note("A: scheme %s dt %g n %d\n%s\nB: scheme %s dt %g n %d\n%s\nmemory %d %d third %d\n",
	       A.L.y.scheme.c_str(), A.dt, A.n, A.L.y.text().c_str(), B.L.y.scheme.c_str(), B.dt, B.n,
	       B.L.y.text().c_str(), pa, pb, third);
	// each one alone
	mallopt(M_PERTURB, pa);
	Live a, b;
	for (int i = 0; i < 2; i++) {
		Live& v = i ? b : a;
		dirty_stack(pa);
		v.create(i ? B : A, dirs[i]);
		if (!v.s)
			c.fail("create", "a valid system was rejected");
		while (!v.done())
			v.step();
		v.close();
	}
	for (double v : a.trace)
		if (!std::isfinite(v))
			c.discard("non-finite state");
	for (double v : b.trace)
		if (!std::isfinite(v))
			c.discard("non-finite state");
	// all together
	mallopt(M_PERTURB, pb);
	dirty_stack(pb);
	Live m[3];
	bool made[3] = { false, false, !third };
	const Job* jobs[3] = { &A, &B, &A };
	int left = third ? 3 : 2, overlap = 0;
	while (left) {
		int i = g.range(0, 2);
		for (int q = 0; q < 3 && (made[i] && (!m[i].s)); q++)
			i = (i + 1) % 3;
		if (!made[i]) {
			m[i].create(*jobs[i], dirs[2 + i]);
			made[i] = true;
			if (!m[i].s)
				c.fail("create", "a valid system was rejected beside another one");
		} else if (m[i].done()) {
			m[i].close();
			left--;
		} else {
			dirty_stack(g.range(0, 255));
			m[i].step();
			overlap += (m[0].s != nullptr) + (m[1].s != nullptr) + (m[2].s != nullptr) > 1;
		}
	}
	auto same = [&](const Live& p, const Live& q, const char* who) {
		c.evals += p.trace.size();
		if (p.codes != q.codes)
			c.fail("codes", "%s: the returned codes differ", who);
		if (p.trace.size() != q.trace.size())
			c.fail("trace", "%s: %zu values instead of %zu", who, q.trace.size(), p.trace.size());
		for (size_t i = 0; i < p.trace.size(); i++)
			if (!(p.trace[i] == q.trace[i]))
				c.fail("trace", "%s: %s is %.17g alone and %.17g beside others", who, p.lab[i].c_str(),
				       p.trace[i], q.trace[i]);
	};
	auto files = [&](const Sys& y, const char* d1, const char* d2) {
		std::vector<std::string> fs = { "sys.out" };
		for (size_t i = 1; i <= y.lines.size(); i++)
			fs.push_back("sys_Line" + std::to_string(i) + ".out");
		for (auto& f : fs) {
			std::string p = get_file(std::string(d1) + "/" + f), q = get_file(std::string(d2) + "/" + f);
			c.evals++;
			// the header of the main file has the date
			if (p != q)
				c.fail("file", "%s/%s and %s/%s differ", d1, f.c_str(), d2, f.c_str());
			if (!p.empty())
				c.tag("output file");
		}
	};
	same(a, m[0], "A");
	same(b, m[1], "B");
	files(A.L.y, dirs[0], dirs[2]);
	files(B.L.y, dirs[1], dirs[3]);
	if (third) {
		same(a, m[2], "second A");
		files(A.L.y, dirs[0], dirs[4]);
	}
	c.tag("scheme:" + A.L.y.scheme);
	if (!A.noic)
		c.tag("initial condition");
	c.nontrivial(overlap >= 2 && pa != pb);
}
