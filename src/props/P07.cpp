// P07: load balance of the points and reactions handed to the host
#include "loads.hpp"
const char* PROP_ID = "P07";
const char* PROP_RULE =
    "non-trivial: at least one point that is free, coupled or part of a body has a line attached "
    "or hydrodynamic/inertial properties of its own, and its reference load is not null";
int PROP_CPU_LIMIT = 30;

void
run_case(Gen& g, Ctx& c)
{
	Loads L;
	LoadOpt o;
	o.gen.maxlines = 4;
	o.gen.maxseg = 5;
	drive(g, c, L, o);
	MoorDyn s = L.md.s;
	const Sys& y = L.y;
	for (auto& F : L.lf)
		if (F.friction_edge || F.surface_edge)
			c.discard("non-smooth state");
	std::vector<V3> pf(y.points.size());
	for (size_t i = 0; i < y.points.size(); i++) {
		auto& P = y.points[i];
		auto ends = ends_at(L, false, i + 1, false);
		V3 F;
		M3 M;
		ref_point(y, P, L.points[i].v, L.points[i].U, ends, F, M);
		pf[i] = F;
		if (P.attach == "Fixed" ||
		    (attach_body(P.attach) && y.bodies[attach_body(P.attach) - 1].type == "Fixed"))
			continue;
		double sc = norm(F), bs = 0;
		for (size_t l = 0; l < y.lines.size(); l++)
			for (int e = 0; e < 2; e++) {
				const SEnd& E = e ? y.lines[l].b : y.lines[l].a;
				if (!E.rod && E.id == (int)i + 1) {
					size_t n = e ? L.lf[l].F.size() - 1 : 0;
					sc += L.lf[l].scale[n];
					bs += L.lf[l].bscale[n];
				}
			}
		double tol = 1e-10 * sc + bs + 1e-9;
		std::string N = "point " + std::to_string(i + 1) + " (" + P.attach + ") ";
		c.nontrivial(norm(F) > 0);
		c.tag(attach_body(P.attach) ? "point of a body" : "point " + P.attach);
		if (ends.size() > 1)
			c.tag("several lines at a point");
		check_vec(c, "point-force", N + "force", pforce(s, i + 1), F, tol);
		double m[3][3];
		MoorDyn_GetPointM(MoorDyn_GetPoint(s, i + 1), m);
		double d = 0;
		for (int k = 0; k < 9; k++)
			d = std::max(d, std::fabs(m[k / 3][k % 3] - M[k / 3][k % 3]));
		c.evals += 9;
		if (!(d <= 1e-9 * (1e-6 + maxabs(M))))
			c.fail("point-mass", "%smass differs by %g (%g)", N.c_str(), d, maxabs(M));
		if (P.attach == "Free") {
			V3 a = solve(M, F);
			check_vec(c, "point-acceleration", N + "velocity after the step", pvel(s, i + 1),
			          L.points[i].v + L.dt * a,
			          1e-9 * (norm(L.points[i].v) + 1e-3) +
			              L.dt * 3 * tol * norm(a) / (norm(F) + 1e-300));
			check_vec(c, "point-advance", N + "position after the step", ppos(s, i + 1),
			          L.points[i].r + L.dt * L.points[i].v, 1e-9);
		}
	}
	// the reactions handed to the host: bodies, rods and points, in this order
	std::vector<double> want;
	std::vector<std::string> lab;
	auto put = [&](const double* v, int n, const std::string& l) {
		for (int k = 0; k < n; k++) {
			want.push_back(v[k]);
			lab.push_back(l + " component " + std::to_string(k));
		}
	};
	for (size_t i = 0; i < y.bodies.size(); i++) {
		double v[6] = { 0 };
		MoorDyn_GetBodyForce(MoorDyn_GetBody(s, i + 1), v);
		if (y.bodies[i].type == "Coupled")
			put(v, 6, "body " + std::to_string(i + 1));
		if (y.bodies[i].type == "CoupledPinned")
			put(v, 3, "body " + std::to_string(i + 1));
	}
	for (size_t i = 0; i < y.rods.size(); i++) {
		double v[6] = { 0 };
		MoorDyn_GetRodForce(MoorDyn_GetRod(s, i + 1), v);
		if (y.rods[i].attach == "Coupled")
			put(v, 6, "rod " + std::to_string(i + 1));
		if (y.rods[i].attach == "CoupledPinned")
			put(v, 3, "rod " + std::to_string(i + 1));
	}
	for (size_t i = 0; i < y.points.size(); i++)
		if (y.points[i].attach == "Coupled") {
			double v[3] = { 0 };
			MoorDyn_GetPointForce(MoorDyn_GetPoint(s, i + 1), v);
			put(v, 3, "point " + std::to_string(i + 1));
		}
	unsigned pinned = 0;
	for (auto& b : y.bodies)
		pinned += b.type == "CoupledPinned";
	if (want.size() != y.dofs() || (L.md.dof() != y.dofs() && L.md.dof() != y.dofs() + 3 * pinned))
		c.fail("dofs", "%u coupled degrees of freedom, expected %u", L.md.dof(), y.dofs());
	for (size_t i = 0; i < want.size(); i++) {
		c.evals++;
		if (!(std::fabs(want[i] - L.f[i]) <= 1e-12 * std::fabs(want[i])))
			c.fail("host-forces", "host force %zu is %.12g, but the load on %s is %.12g", i,
			       L.f[i], lab[i].c_str(), want[i]);
	}
	// and again when asked to step nothing
	if (want.size()) {
		std::vector<double> f(L.f.size(), -1);
		double t = 0, h = 0;
		if (MoorDyn_Step(s, L.x.data(), L.xd.data(), f.data(), &t, &h))
			c.fail("null-step", "a null step failed");
		for (size_t i = 0; i < want.size(); i++)
			if (!(f[i] == L.f[i]))
				c.fail("null-step", "a null step changed the force %zu from %g to %g", i, L.f[i],
				       f[i]);
	}
	// the number of degrees of freedom announced is the one exchanged
	if (L.md.dof() != y.dofs())
		c.fail("dofs-pinned-body",
		       "%u coupled degrees of freedom are announced, but %u are exchanged: the coupled "
		       "pinned bodies count 6 and take 3",
		       L.md.dof(), y.dofs());
}
