// Drives a generated system with an explicit one-stage scheme so that the loads
// reported after a step are those of a known state, and rebuilds that state.
#pragma once
#include "water.hpp"

struct Loads
{
	Sys y;
	MD md;
	std::vector<double> x, xd, xdprev, f;
	double dt = 0;
	std::vector<LineK> lines;
	std::vector<RodK> rods;
	std::vector<BodyK> bodies;
	struct PK
	{
		V3 r, v, U, Ud;
	};
	std::vector<PK> points;
	std::vector<LineF> lf; // reference loads
	std::vector<V3> rodw;  // angular velocity of each rod (normal part)
	DepthFn depth;
	bool external = false;
	Water W; // waves and currents of the input files
	std::vector<V3> u, ud; // external kinematics: lines, rods, points, ground, bodies
	std::vector<double> bathx, bathy;
	std::vector<std::vector<double>> bathz;
};

inline int
attach_body(const std::string& a)
{
	return a.size() > 4 && a.compare(0, 4, "Body") == 0 ? atoi(a.c_str() + 4) : 0;
}
inline bool
is_pinned(const std::string& a)
{
	return a.size() >= 6 && a.substr(a.size() - 6) == "Pinned";
}

// bilinear interpolation, constant outside the grid
inline double
bilinear(const std::vector<double>& X, const std::vector<double>& Y,
         const std::vector<std::vector<double>>& Z, double x, double y)
{
	auto loc = [](const std::vector<double>& a, double v, double& f) {
		size_t n = a.size();
		if (n == 1 || v <= a[0]) {
			f = 0;
			return (size_t)0;
		}
		if (v >= a[n - 1]) {
			f = 1;
			return n - 2;
		}
		size_t i = 0;
		while (v > a[i + 1])
			i++;
		f = (v - a[i]) / (a[i + 1] - a[i]);
		return i;
	};
	double fx, fy;
	size_t i = loc(X, x, fx), j = loc(Y, y, fy);
	size_t i1 = std::min(i + 1, X.size() - 1), j1 = std::min(j + 1, Y.size() - 1);
	return Z[i][j] * (1 - fx) * (1 - fy) + Z[i1][j] * fx * (1 - fy) + Z[i][j1] * (1 - fx) * fy +
	       Z[i1][j1] * fx * fy;
}

inline void
gen_bathymetry(Gen& g, Loads& L, double zlo, double zhi)
{
	int nx = g.range(2, 4), ny = g.range(2, 4);
	double v = -20;
	for (int i = 0; i < nx; i++) {
		L.bathx.push_back(v);
		v += 2 + g.range(1, 12);
	}
	v = -20;
	for (int i = 0; i < ny; i++) {
		L.bathy.push_back(v);
		v += 2 + g.range(1, 12);
	}
	L.bathz.assign(nx, std::vector<double>(ny));
	std::string o = std::to_string(nx) + " " + std::to_string(ny) + "\n";
	for (int i = 0; i < nx; i++)
		o += (i ? " " : "") + num(L.bathx[i]);
	o += "\n";
	for (int i = 0; i < ny; i++)
		o += (i ? " " : "") + num(L.bathy[i]);
	o += "\n";
	for (int i = 0; i < nx; i++)
		for (int j = 0; j < ny; j++) {
			// single precision is what the file reader keeps
			L.bathz[i][j] = zlo + (zhi - zlo) * g.range(0, 16) / 16.0;
			o += num(L.bathx[i]) + " " + num(L.bathy[j]) + " " + num(L.bathz[i][j]) + "\n";
		}
	L.y.files["bath.txt"] = o;
	L.y.opts.push_back({ "SeafloorFile", "bath.txt" });
}

// position of a rod end / point relative to the reference axes
inline void
read_state(Loads& L)
{
	MoorDyn s = L.md.s;
	const Sys& y = L.y;
	L.lines.resize(y.lines.size());
	L.rods.resize(y.rods.size());
	L.points.resize(y.points.size());
	L.bodies.resize(y.bodies.size());
	for (size_t i = 0; i < y.bodies.size(); i++) {
		double r[6], rd[6];
		MoorDyn_GetBodyState(MoorDyn_GetBody(s, i + 1), r, rd);
		auto& b = L.bodies[i];
		b.r = { r[0], r[1], r[2] };
		b.R = euler({ r[3], r[4], r[5] });
		b.v = { rd[0], rd[1], rd[2] };
		b.w = { rd[3], rd[4], rd[5] };
		b.U = {};
	}
	L.rodw.assign(y.rods.size(), {});
	for (size_t i = 0; i < y.rods.size(); i++) {
		auto& R = L.rods[i];
		unsigned n = 0;
		MoorDyn_GetRodN(MoorDyn_GetRod(s, i + 1), &n);
		V3 a = rpos(s, i + 1, 0), b = rpos(s, i + 1, n);
		R.a = a;
		R.len = norm(y.rods[i].b - y.rods[i].a);
		R.q = n ? unit(b - a) : V3{ 0, 0, 1 };
		V3 va = rvel(s, i + 1, 0), vb = rvel(s, i + 1, n);
		R.v.assign(n + 1, va);
		for (unsigned k = 1; k <= n; k++)
			R.v[k] = va + ((double)k / n) * (vb - va);
		L.rodw[i] = n ? cross(R.q, vb - va) / R.len : V3{};
		R.w.assign(n + 1, WKin());
	}
	for (size_t i = 0; i < y.points.size(); i++) {
		L.points[i].r = ppos(s, i + 1);
		L.points[i].v = pvel(s, i + 1);
		L.points[i].U = L.points[i].Ud = {};
	}
	for (size_t i = 0; i < y.lines.size(); i++) {
		auto& K = L.lines[i];
		unsigned n = 0;
		MoorDynLine l = MoorDyn_GetLine(s, i + 1);
		MoorDyn_GetLineN(l, &n);
		K.r.resize(n + 1);
		K.v.resize(n + 1);
		K.w.assign(n + 1, WKin());
		for (unsigned k = 0; k <= n; k++) {
			K.r[k] = lpos(s, i + 1, k);
			K.v[k] = lvel(s, i + 1, k);
		}
		MoorDyn_GetLineUnstretchedLength(l, &K.len);
		if (K.len0 == 0)
			K.len0 = K.len;
	}
}

// replace the velocities of whatever is driven by the coupled motions; the
// positions are those of the snapshot because the motion is continuous
inline void
override_coupled(Loads& L)
{
	const Sys& y = L.y;
	size_t ix = 0;
	auto v3 = [&](size_t o) { return V3{ L.xd[ix + o], L.xd[ix + o + 1], L.xd[ix + o + 2] }; };
	auto rod_set = [&](size_t i, V3 va, V3 w) {
		auto& R = L.rods[i];
		L.rodw[i] = w - dot(w, R.q) * R.q;
		int n = (int)R.v.size() - 1;
		for (int k = 0; k <= n; k++)
			R.v[k] = va + (n ? (double)k / n : 0.0) * R.len * cross(w, R.q);
	};
	for (size_t i = 0; i < y.bodies.size(); i++) {
		bool c6 = y.bodies[i].type == "Coupled", c3 = y.bodies[i].type == "CoupledPinned";
		if (!c6 && !c3)
			continue;
		auto& b = L.bodies[i];
		b.v = v3(0);
		if (c6)
			b.w = v3(3);
		ix += c6 ? 6 : 3;
		for (size_t p = 0; p < y.points.size(); p++)
			if (attach_body(y.points[p].attach) == (int)i + 1)
				L.points[p].v = b.v + cross(b.w, L.points[p].r - b.r);
		for (size_t p = 0; p < y.rods.size(); p++)
			if (attach_body(y.rods[p].attach) == (int)i + 1) {
				V3 va = b.v + cross(b.w, L.rods[p].a - b.r);
				rod_set(p, va, is_pinned(y.rods[p].attach) ? L.rodw[p] : b.w);
			}
	}
	for (size_t i = 0; i < y.rods.size(); i++) {
		bool c6 = y.rods[i].attach == "Coupled", c3 = y.rods[i].attach == "CoupledPinned";
		if (!c6 && !c3)
			continue;
		rod_set(i, v3(0), c6 ? v3(3) : L.rodw[i]);
		ix += c6 ? 6 : 3;
	}
	for (size_t i = 0; i < y.points.size(); i++)
		if (y.points[i].attach == "Coupled") {
			L.points[i].v = v3(0);
			ix += 3;
		}
	for (size_t i = 0; i < y.lines.size(); i++)
		for (int e = 0; e < 2; e++) {
			const SEnd& E = e ? y.lines[i].b : y.lines[i].a;
			auto& K = L.lines[i];
			size_t k = e ? K.r.size() - 1 : 0;
			if (E.rod) {
				auto& R = L.rods[E.id - 1];
				K.v[k] = E.endB ? R.v.back() : R.v[0];
			} else
				K.v[k] = L.points[E.id - 1].v;
		}
}

inline void
cantilevers(Loads& L)
{
	for (size_t i = 0; i < L.y.lines.size(); i++) {
		auto& K = L.lines[i];
		auto& S = L.y.lines[i];
		K.cantA = S.a.rod;
		K.cantB = S.b.rod;
		if (S.a.rod)
			K.qA = S.a.endB ? L.rods[S.a.id - 1].q : -L.rods[S.a.id - 1].q;
		if (S.b.rod)
			K.qB = S.b.endB ? -L.rods[S.b.id - 1].q : L.rods[S.b.id - 1].q;
	}
}

inline void
external_kin(Loads& L, Gen& g)
{
	L.u.clear();
	L.ud.clear();
	size_t n = 0;
	for (auto& k : L.lines)
		n += k.r.size();
	for (auto& k : L.rods)
		n += k.v.size();
	n += L.points.size() + 1 + L.bodies.size();
	// a smooth field with random coefficients, different for each kind of node
	double a[12];
	for (double& v : a)
		v = g.sym(2.0, 200);
	for (size_t i = 0; i < n; i++) {
		double w = 0.7 * i;
		L.u.push_back({ a[0] + a[1] * sin(w), a[2] + a[3] * cos(w), a[4] * sin(2 * w) });
		L.ud.push_back({ a[5] + a[6] * cos(w), a[7] * sin(w), a[8] + a[9] * cos(3 * w) });
	}
	size_t i = 0;
	for (auto& k : L.lines)
		for (auto& w : k.w)
			w.U = L.u[i], w.Ud = L.ud[i], i++;
	for (auto& k : L.rods)
		for (auto& w : k.w)
			w.U = L.u[i], w.Ud = L.ud[i], i++;
	for (auto& p : L.points)
		p.U = L.u[i], p.Ud = L.ud[i], i++;
	i++;
	for (auto& b : L.bodies)
		b.U = L.u[i], i++;
}

// kinematics of the waves and currents of the input files (decided by P13), on top of
// the external ones
inline void
file_kin(Loads& L, Ctx& c)
{
	MoorDynWaves wv = MoorDyn_GetWaves(L.md.s);
	MoorDynSeafloor fl = L.bathx.size() ? MoorDyn_GetSeafloor(L.md.s) : NULL;
	auto add = [&](V3 p, WKin& w) {
		double U[3], Ud[3], zeta = NAN, pd = NAN;
		if (MoorDyn_GetWavesKin(wv, p.x, p.y, p.z, U, Ud, &zeta, &pd, fl))
			c.fail("waves-query", "the query of the water kinematics failed");
		for (int k = 0; k < 3; k++)
			w.U[k] += U[k], w.Ud[k] += Ud[k];
		w.zeta += zeta;
		w.pd += pd;
	};
	for (auto& k : L.lines)
		for (size_t i = 0; i < k.w.size(); i++)
			add(k.r[i], k.w[i]);
	for (auto& k : L.rods)
		for (size_t i = 0; i < k.w.size(); i++)
			add(k.a + (k.w.size() > 1 ? (double)i / (k.w.size() - 1) : 0.0) * k.len * k.q, k.w[i]);
	for (auto& p : L.points) {
		WKin k;
		add(p.r, k);
		p.U += k.U;
		p.Ud += k.Ud;
	}
	for (auto& b : L.bodies) {
		WKin k;
		add(b.r, k);
		b.U += k.U;
	}
}

struct LoadOpt
{
	GenOpt gen;
	bool internal_pressure = true, payout = true, external = true, bathymetry = true;
	int water = 1; // out of 4 cases, how many have waves or currents from files
	double amp = 2, angamp = 0.5, wmax = 6;
	int maxsteps = 25;
	std::function<void(Gen&, Sys&)> tweak;
	std::function<void(Sys&)> pre;     // once the time step is known
	std::function<void(double)> after; // after the initialization and every step
};

// Runs the system up to one step whose loads are known; the reference line
// loads are left in L.lf
inline void
drive(Gen& g, Ctx& c, Loads& L, const LoadOpt& o)
{
	L.y = gen_sys(g, o.gen);
	Sys& y = L.y;
	if (o.tweak)
		o.tweak(g, y);
	y.scheme = "euler";
	y.dtM = stable_dt(y, 0.03);
	L.dt = y.dtM;
	if (o.pre)
		o.pre(y);
	if (o.gen.curves)
		for (auto& t : y.lt) {
			if (t.EI > 0 && g.chance(1, 3)) {
				double k = 0, m = 0;
				t.ei.x = { 0 };
				t.ei.y = { 0 };
				for (int i = 0, n = g.range(1, 3); i < n; i++) {
					k += g.real(0.01, 0.2, 50);
					m += t.EI * g.real(0.005, 0.1, 50);
					t.ei.x.push_back(k);
					t.ei.y.push_back(m);
				}
			}
			if (g.chance(1, 5)) {
				double k = 0, m = 0, B = 0.3 * sqrt(t.EA0() * t.w);
				t.ba.x = { 0 };
				t.ba.y = { 0 };
				for (int i = 0, n = g.range(1, 3); i < n; i++) {
					k += g.real(0.05, 0.5, 50);
					m += B * g.real(0.01, 0.5, 50);
					t.ba.x.push_back(k);
					t.ba.y.push_back(m);
				}
			}
		}
	L.external = o.external && g.coin();
	bool bath = o.bathymetry && y.depth < 100 && g.coin();
	L.depth = [&L](double, double) { return -L.y.depth; };
	if (bath) {
		gen_bathymetry(g, L, -y.depth - 4, -y.depth - 0.5);
		L.depth = [&L](double x, double yy) {
			return bilinear(L.bathx, L.bathy, L.bathz, x, yy);
		};
		c.tag("bathymetry");
	}
	L.W.depth = L.depth;
	if (o.water && g.chance(o.water, 4)) {
		int wave = L.external ? 0 : g.pick(std::vector<int>{ 0, 7, 2, 3 });
		int cur = g.pick(std::vector<int>{ 0, 1, 2, 5 });
		double h = y.depth, ts = 1;
		if (bath) {
			h = 0;
			for (auto& r : L.bathz)
				for (double z : r)
					h -= z / (L.bathx.size() * L.bathy.size());
		}
		while (ts > 10 * L.dt)
			ts /= 2;
		L.W = gen_water(g, wave, cur, y.g, y.rho, h, L.depth, ts);
		c.tag("waves " + std::to_string(L.external ? 1 : wave));
		c.tag("currents " + std::to_string(cur));
	}
	use_water(y, L.W, L.external);
	Motion m = gen_motion(g, y, o.amp, o.angamp, o.wmax);
	int steps = g.range(1, o.maxsteps);
	int jump = g.range(0, 2); // 0: smooth velocity, 1: velocity jump, 2: bigger jump
	y.write();
	c.note("dt %g steps %d external %d jump %d\n%s", L.dt, steps, L.external, jump,
	       y.text().c_str());
	if (bath)
		c.note("%s", y.files["bath.txt"].c_str());
	for (auto& f : L.W.files)
		c.note("--> %s\n%s", f.first.c_str(), f.second.c_str());
	L.md.s = MoorDyn_Create(y.path.c_str());
	if (!L.md.s)
		c.fail("create", "a valid system was rejected");
	MoorDyn_SetVerbosity(L.md.s, MOORDYN_NO_OUTPUT);
	m.eval(0, L.x, L.xd);
	L.f.assign(L.x.size() + 1, 0);
	int e = MoorDyn_Init_NoIC(L.md.s, L.x.data(), L.xd.data());
	if (e)
		c.fail("init", "initialisation of a valid system failed with %d", e);
	if (o.after)
		o.after(0);
	read_state(L);
	unsigned nw = 0;
	if (L.external)
		MoorDyn_ExternalWaveKinInit(L.md.s, &nw);
	if (o.internal_pressure)
		for (size_t i = 0; i < y.lines.size(); i++)
			if (g.chance(1, 6)) {
				auto& K = L.lines[i];
				K.pb = true;
				K.pin.clear();
				for (size_t k = 0; k < K.r.size(); k++)
					K.pin.push_back(g.real(0, 1e6, 100));
				MoorDynLine l = MoorDyn_GetLine(L.md.s, i + 1);
				MoorDyn_SetLinePressBend(l, 1);
				MoorDyn_SetLinePressInt(l, K.pin.data());
				c.tag("internal pressure");
			}
	double t = 0;
	auto step = [&](bool last) {
		if (L.external) {
			external_kin(L, g);
			if (nw != L.u.size())
				c.fail("wavekin-n", "%u external kinematics points, expected %zu", nw,
				       L.u.size());
			std::vector<double> U, Ud;
			for (size_t i = 0; i < nw; i++)
				for (int k = 0; k < 3; k++) {
					U.push_back(L.u[i][k]);
					Ud.push_back(L.ud[i][k]);
				}
			int ew = MoorDyn_ExternalWaveKinSet(L.md.s, U.data(), Ud.data(), t);
			if (ew == MOORDYN_NAN_ERROR)
				c.discard("unstable");
			if (ew)
				c.fail("wavekin-set", "setting the water kinematics failed");
		}
		if (last && (L.W.wave || L.W.cur)) {
			file_kin(L, c);
		}
		double h = L.dt;
		int e = MoorDyn_Step(L.md.s, L.x.data(), L.xd.data(), L.f.data(), &t, &h);
		if (e == MOORDYN_NAN_ERROR)
			c.discard("unstable");
		if (e)
			c.fail("step", "step failed with %d", e);
		if (o.after)
			o.after(t);
	};
	for (int k = 0; k < steps; k++) {
		m.eval(k * L.dt, L.x, L.xd);
		step(false);
	}
	L.xdprev = L.xd;
	// continuous positions, with a possible jump of the velocities
	auto ia = coupled_is_angle(y);
	for (size_t i = 0; i < m.d.size(); i++) {
		L.x[i] += L.dt * L.xd[i];
		if (jump)
			L.xd[i] += (ia[i] ? 0.2 : 1.0) * g.sym(jump == 1 ? 0.05 : 1.0);
	}
	if (o.payout && g.chance(1, 4)) {
		int i = g.draw(y.lines.size());
		double len = y.lines[i].len * g.real(0.85, 1.15, 60);
		MoorDyn_SetLineUnstretchedLength(MoorDyn_GetLine(L.md.s, i + 1), len);
		c.tag("payout");
	}
	read_state(L);
	auto bounded = [&](V3 r, V3 v) {
		if (!(norm(r) < 1e4) || !(norm(v) < 1e3))
			c.discard("unstable");
	};
	for (auto& k : L.lines)
		for (size_t i = 0; i < k.r.size(); i++)
			bounded(k.r[i], k.v[i]);
	for (auto& k : L.rods)
		for (auto& v : k.v)
			bounded(k.a, v);
	for (auto& k : L.points)
		bounded(k.r, k.v);
	for (auto& k : L.bodies) {
		bounded(k.r, k.v);
		bounded(k.w, k.w);
	}
	override_coupled(L);
	step(true); // also draws the final water kinematics into L
	cantilevers(L);
	for (size_t i = 0; i < y.lines.size(); i++)
		L.lf.push_back(ref_line(y, y.lt[y.lines[i].type], L.lines[i], L.depth));
}

inline void
check_vec(Ctx& c, const char* sig, const std::string& what, V3 got, V3 want, double tol)
{
	c.evals += 3;
	double d = norm(got - want);
	if (!(d <= tol))
		c.fail(sig, "%s is (%.12g %.12g %.12g), expected (%.12g %.12g %.12g), tolerance %.3g",
		       what.c_str(), got.x, got.y, got.z, want.x, want.y, want.z, tol);
	c.metric("err/tol", tol > 0 ? d / tol : 0);
}
inline std::vector<End>
ends_at(const Loads& L, bool rod, int id, bool endB)
{
	std::vector<End> v;
	for (size_t i = 0; i < L.y.lines.size(); i++)
		for (int e = 0; e < 2; e++) {
			const SEnd& E = e ? L.y.lines[i].b : L.y.lines[i].a;
			if (E.rod != rod || E.id != id || (rod && E.endB != endB))
				continue;
			auto& F = L.lf[i];
			size_t n = F.F.size() - 1;
			v.push_back(e ? End{ F.F[n], F.momB, F.M[n] } : End{ F.F[0], F.momA, F.M[0] });
		}
	return v;
}
