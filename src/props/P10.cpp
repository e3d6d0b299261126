// P10: everything stays attached, and the coupled objects follow the host
#include "loads.hpp"
const char* PROP_ID = "P10";
const char* PROP_RULE =
    "non-trivial: the system moved (some node changed its position by more than 1e-6 m) and at "
    "least one object follows another one (a line end, or a point or rod of a body)";
int PROP_CPU_LIMIT = 30;

static const std::vector<std::string> SCHEMES = {
	"rk2", "euler", "leuler", "heun", "rk4", "ab2", "ab3", "ab4", "lab2", "lab3", "lab4", "beuler3",
	"midpoint3", "aca5", "wilson5", "anderson5" };

struct Kin
{
	V3 r, v, w;
	M3 R;
};

void
run_case(Gen& g, Ctx& c)
{
	GenOpt o;
	o.maxlines = 5;
	o.maxseg = 5;
	o.zerorods = true;
	Sys y = gen_sys(g, o);
	y.scheme = g.pick(SCHEMES);
	y.dtM = stable_dt(y, 0.05);
	y.opts.push_back({ "dtIC", "0.1" });
	y.tmaxic = 0.3;
	// the initial condition of very stiff systems takes too many steps
	bool noic = g.chance(7, 8) || y.dtM < 2e-5;
	int nsub = g.range(1, 4);
	double dt = y.dtM * nsub;
	if (g.coin())
		dt *= 0.875;
	int n = g.range(1, 8);
	Motion m = gen_motion(g, y, 1.0, g.coin() ? 0.3 : 1.5, 3.0);
	int jump = g.chance(1, 3) ? g.range(0, n - 1) : -1; // the host is not consistent there
	y.write();
	c.note("scheme %s dt %g n %d jump %d noic %d\n%s", y.scheme.c_str(), dt, n, jump, noic,
	       y.text().c_str());
	MD a(y.path);
	if (!a.s)
		c.fail("create", "a valid system was rejected");
	MoorDyn s = a.s;
	std::vector<double> x, xd, f(m.d.size() + 1);
	m.eval(0, x, xd);
	if (!noic) // the coupled objects move while the initial condition is computed
		std::fill(xd.begin(), xd.end(), 0.0);
	int e = noic ? MoorDyn_Init_NoIC(s, x.data(), xd.data()) : MoorDyn_Init(s, x.data(), xd.data());
	if (e == MOORDYN_NAN_ERROR)
		c.discard("unstable initial condition");
	if (e)
		c.fail("init", "initialisation failed with %d", e);
	bool follows = false;
	auto near = [&](const char* sig, const std::string& what, V3 got, V3 want, double sc) {
		c.evals++;
		double d = norm(got - want);
		c.metric(sig, d / sc);
		if (!(d <= 1e-9 * sc))
			c.fail(sig, "%s is (%.12g %.12g %.12g), expected (%.12g %.12g %.12g)", what.c_str(),
			       got.x, got.y, got.z, want.x, want.y, want.z);
	};
	// hx, hv: what the host prescribes at this instant
	auto check = [&](const std::vector<double>& hx, const std::vector<double>& hv) {
		if (!finite_all(snap(s, y, SNAP_KIN)))
			c.discard("non-finite state");
		size_t q = 0;
		auto at = [&](const std::vector<double>& v, size_t i) {
			return V3{ v[i], v[i + 1], v[i + 2] };
		};
		std::vector<Kin> B(y.bodies.size());
		for (size_t i = 0; i < y.bodies.size(); i++) {
			std::string N = "body " + std::to_string(i + 1) + " (" + y.bodies[i].type + ") ";
			MoorDynBody b = MoorDyn_GetBody(s, i + 1);
			double r[6], v[6], p3[3], a3[3], v3[3], w3[3];
			if (MoorDyn_GetBodyState(b, r, v) || MoorDyn_GetBodyPos(b, p3) || MoorDyn_GetBodyAngle(b, a3) ||
			    MoorDyn_GetBodyVel(b, v3) || MoorDyn_GetBodyAngVel(b, w3))
				c.fail("getter", "a body getter failed");
			B[i].r = { r[0], r[1], r[2] };
			B[i].v = { v[0], v[1], v[2] };
			B[i].w = { v[3], v[4], v[5] };
			V3 ang{ r[3], r[4], r[5] };
			B[i].R = euler(ang);
			double sc = 10 + norm(B[i].v) + norm(B[i].w);
			near("body-getters", N + "position", { p3[0], p3[1], p3[2] }, B[i].r, 1);
			near("body-getters", N + "angles", { a3[0], a3[1], a3[2] }, ang, 1);
			near("body-getters", N + "velocity", { v3[0], v3[1], v3[2] }, B[i].v, sc);
			near("body-getters", N + "angular velocity", { w3[0], w3[1], w3[2] }, B[i].w, sc);
			if (y.bodies[i].type == "Fixed") {
				near("fixed", N + "position", B[i].r, y.bodies[i].r, 100);
				near("fixed", N + "velocity", B[i].v, {}, 1);
				near("fixed", N + "angular velocity", B[i].w, {}, 1);
				M3 R = euler(y.bodies[i].ang * (M_PI / 180));
				for (int k = 0; k < 3; k++) {
					V3 u{ double(k == 0), double(k == 1), double(k == 2) };
					near("fixed", N + "orientation", B[i].R * u, R * u, 10);
				}
			}
			if (y.bodies[i].type == "Coupled" || y.bodies[i].type == "CoupledPinned") {
				near("coupled", N + "position", B[i].r, at(hx, q), 100);
				near("coupled", N + "velocity", B[i].v, at(hv, q), 10);
				q += 3;
				if (y.bodies[i].type == "Coupled") {
					M3 R = euler(at(hx, q));
					for (int k = 0; k < 3; k++) {
						V3 u{ double(k == 0), double(k == 1), double(k == 2) };
						near("coupled", N + "orientation", B[i].R * u, R * u, 10);
					}
					near("coupled", N + "angular velocity", B[i].w, at(hv, q), 10);
					q += 3;
				}
				c.tag("body " + y.bodies[i].type);
			}
		}
		auto rigid = [&](const Kin& k, V3 rel, V3& p, V3& v) {
			V3 d = k.R * rel;
			p = k.r + d;
			v = k.v + cross(k.w, d);
		};
		for (size_t i = 0; i < y.rods.size(); i++) {
			auto& R = y.rods[i];
			std::string N = "rod " + std::to_string(i + 1) + " (" + R.attach + ") ";
			unsigned nn = 0;
			MoorDyn_GetRodN(MoorDyn_GetRod(s, i + 1), &nn);
			if ((int)nn != R.n)
				c.fail("rod-nodes", "%shas %u segments instead of %d", N.c_str(), nn, R.n);
			V3 A = rpos(s, i + 1, 0), Z = rpos(s, i + 1, nn), vA = rvel(s, i + 1, 0),
			   vZ = rvel(s, i + 1, nn);
			double sc = 10 + norm(vA) + norm(vZ);
			if (!nn)
				c.tag("rod without length " + (attach_body(R.attach) ? std::string("Body") : R.attach));
			double len = nn ? norm(R.b - R.a) : 0;
			near("rod-length", N + "length", { norm(Z - A), 0, 0 }, { len, 0, 0 }, 100);
			for (unsigned k = 1; k < nn; k++) {
				double h = k / (double)nn;
				near("rod-straight", N + "node " + std::to_string(k), rpos(s, i + 1, k),
				     A + h * (Z - A), 100);
				near("rod-straight", N + "velocity of node " + std::to_string(k), rvel(s, i + 1, k),
				     vA + h * (vZ - vA), sc);
			}
			if (nn)
				near("rod-rigid", N + "stretching rate", { dot(vZ - vA, Z - A) / len, 0, 0 }, {},
				     sc);
			int b = attach_body(R.attach);
			V3 p, v;
			if (b) {
				rigid(B[b - 1], R.a, p, v);
				double s2 = 100 + norm(v);
				near("rod-of-body", N + "end A", A, p, s2);
				near("rod-of-body", N + "velocity of end A", vA, v, s2);
				follows = true;
				if (!is_pinned(R.attach) && nn) {
					rigid(B[b - 1], R.b, p, v);
					near("rod-of-body", N + "end B", Z, p, s2);
					near("rod-of-body", N + "velocity of end B", vZ, v, s2 + norm(v));
				}
				c.tag(is_pinned(R.attach) ? "rod pinned to a body" : "rod of a body");
			} else if (R.attach == "Fixed") {
				near("fixed", N + "end A", A, R.a, 100);
				near("fixed", N + "velocity of end A", vA, {}, 1);
				if (nn) {
					near("fixed", N + "end B", Z, R.b, 100);
					near("fixed", N + "velocity of end B", vZ, {}, 1);
				}
			} else if (R.attach == "Pinned") {
				near("fixed", N + "end A", A, R.a, 100);
				near("fixed", N + "velocity of end A", vA, {}, 1);
			} else if (R.attach == "Coupled" || R.attach == "CoupledPinned") {
				near("coupled", N + "end A", A, at(hx, q), 100);
				near("coupled", N + "velocity of end A", vA, at(hv, q), 10);
				q += 3;
				if (R.attach == "Coupled") {
					if (nn) {
						V3 d = euler(at(hx, q)) * (R.b - R.a);
						near("coupled", N + "end B", Z, A + d, 100);
						near("coupled", N + "velocity of end B", vZ, vA + cross(at(hv, q), d),
						     100);
					}
					q += 3;
				}
				c.tag("rod " + R.attach);
			}
		}
		for (size_t i = 0; i < y.points.size(); i++) {
			auto& P = y.points[i];
			std::string N = "point " + std::to_string(i + 1) + " (" + P.attach + ") ";
			V3 r = ppos(s, i + 1), v = pvel(s, i + 1);
			int b = attach_body(P.attach);
			if (b) {
				V3 p, w;
				rigid(B[b - 1], P.r, p, w);
				double s2 = 100 + norm(w);
				near("point-of-body", N + "position", r, p, s2);
				near("point-of-body", N + "velocity", v, w, s2);
				follows = true;
				c.tag("point of a body " + y.bodies[b - 1].type);
			} else if (P.attach == "Fixed") {
				near("fixed", N + "position", r, P.r, 100);
				near("fixed", N + "velocity", v, {}, 1);
			} else if (P.attach == "Coupled") {
				near("coupled", N + "position", r, at(hx, q), 100);
				near("coupled", N + "velocity", v, at(hv, q), 10);
				q += 3;
				c.tag("point Coupled");
			}
			unsigned na = 0, want = 0;
			if (MoorDyn_GetPointNAttached(MoorDyn_GetPoint(s, i + 1), &na))
				c.fail("getter", "MoorDyn_GetPointNAttached failed");
			for (auto& l : y.lines)
				want += (!l.a.rod && l.a.id == (int)i + 1) + (!l.b.rod && l.b.id == (int)i + 1);
			if (na != want)
				c.fail("attached", "%s%u line ends attached, expected %u", N.c_str(), na, want);
			for (unsigned k = 0; k < na; k++) {
				MoorDynLine l = nullptr;
				int end = -1, id = 0;
				if (MoorDyn_GetPointAttached(MoorDyn_GetPoint(s, i + 1), k, &l, &end) || !l ||
				    MoorDyn_GetLineID(l, &id) || id < 1 || id > (int)y.lines.size())
					c.fail("attached", "%sthe attached line %u cannot be got", N.c_str(), k);
				const SEnd& E = end == 0 ? y.lines[id - 1].a : y.lines[id - 1].b;
				if (E.rod || E.id != (int)i + 1)
					c.fail("attached", "%sreports the end %d of line %d, which is not there",
					       N.c_str(), end, id);
			}
		}
		for (size_t i = 0; i < y.lines.size(); i++) {
			auto& l = y.lines[i];
			unsigned nn = 0;
			MoorDyn_GetLineN(MoorDyn_GetLine(s, i + 1), &nn);
			if ((int)nn != l.n)
				c.fail("line-nodes", "line %zu has %u segments instead of %d", i + 1, nn, l.n);
			for (int k = 0; k < 2; k++) {
				const SEnd& E = k ? l.b : l.a;
				unsigned m = 0;
				if (E.rod)
					MoorDyn_GetRodN(MoorDyn_GetRod(s, E.id), &m);
				V3 p = E.rod ? rpos(s, E.id, E.endB ? m : 0) : ppos(s, E.id);
				V3 v = E.rod ? rvel(s, E.id, E.endB ? m : 0) : pvel(s, E.id);
				std::string N = std::string("end ") + (k ? "B" : "A") + " of line " +
				                std::to_string(i + 1) + " at " + E.str();
				near("line-end", N, lpos(s, i + 1, k ? nn : 0), p, 100);
				near("line-end", N + ", velocity", lvel(s, i + 1, k ? nn : 0), v, 10 + norm(v));
				follows = true;
				c.tag(E.rod ? "line end at a rod" : "line end at a point");
			}
		}
	};
	auto s0 = snap(s, y, SNAP_KIN);
	check(x, xd);
	double t = 0;
	double moved = 0;
	for (int k = 0; k < n; k++) {
		m.eval(k * dt, x, xd);
		if (k == jump)
			for (size_t i = 0; i + 1 < x.size(); i++)
				x[i] += 0.01 * (1 + i % 3);
		double h = dt;
		e = MoorDyn_Step(s, x.data(), xd.data(), f.data(), &t, &h);
		if (e == MOORDYN_NAN_ERROR)
			c.discard("unstable");
		if (e)
			c.fail("step", "step failed with %d", e);
		std::vector<double> hx = x;
		for (size_t i = 0; i < x.size(); i++)
			hx[i] += dt * xd[i];
		check(hx, xd);
		auto s1 = snap(s, y, SNAP_KIN);
		for (size_t i = 0; i < s1.v.size(); i++)
			moved = std::max(moved, std::fabs(s1.v[i] - s0.v[i]));
	}
	c.tag("scheme:" + y.scheme);
	c.nontrivial(follows && moved > 1e-6);
}
