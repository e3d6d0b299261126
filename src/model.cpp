#include "model.hpp"

std::vector<double>
coupled_x0(const Sys& y)
{
	std::vector<double> x;
	auto p3 = [&](V3 v) {
		x.push_back(v.x);
		x.push_back(v.y);
		x.push_back(v.z);
	};
	for (auto& b : y.bodies) {
		if (b.type == "Coupled") {
			p3(b.r);
			p3(b.ang * (M_PI / 180));
		} else if (b.type == "CoupledPinned")
			p3(b.r);
	}
	for (auto& r : y.rods) {
		if (r.attach == "Coupled") {
			p3(r.a);
			p3({ 0, 0, 0 });
		} else if (r.attach == "CoupledPinned")
			p3(r.a);
	}
	for (auto& p : y.points)
		if (p.attach == "Coupled")
			p3(p.r);
	return x;
}

static int
body_of(const std::string& a)
{
	if (a.size() > 4 && a.compare(0, 4, "Body") == 0)
		return atoi(a.c_str() + 4);
	return 0;
}

V3
end_pos(const Sys& y, const SEnd& e)
{
	std::string at;
	V3 p;
	if (e.rod) {
		at = y.rods[e.id - 1].attach;
		p = e.endB && y.rods[e.id - 1].n ? y.rods[e.id - 1].b : y.rods[e.id - 1].a;
	} else {
		at = y.points[e.id - 1].attach;
		p = y.points[e.id - 1].r;
	}
	int b = body_of(at);
	if (!b)
		return p;
	auto& B = y.bodies[b - 1];
	return B.r + euler(B.ang * (M_PI / 180)) * p;
}

V3
rod_dir(const Sys& y, int rod)
{
	return unit(end_pos(y, { true, rod, true }) - end_pos(y, { true, rod, false }));
}

double
stable_dt(const Sys& y, double safety)
{
	double dt = 0.05;
	for (auto& L : y.lines) {
		auto& t = y.lt[L.type];
		double l = std::fabs(L.len) / L.n;
		double EA = t.EA;
		if (t.ea.x.size()) {
			EA = t.ea.y.back() / t.ea.x.back();
			for (size_t i = 1; i < t.ea.x.size(); i++)
				EA = std::max(EA, (t.ea.y[i] - t.ea.y[i - 1]) / (t.ea.x[i] - t.ea.x[i - 1]));
		}
		double w = t.w;
		double om = 2 / l * sqrt(EA / w);
		double BA = t.BA;
		if (t.ba.x.size()) {
			BA = 0;
			for (size_t i = 1; i < t.ba.x.size(); i++)
				BA = std::max(BA, (t.ba.y[i] - t.ba.y[i - 1]) / (t.ba.x[i] - t.ba.x[i - 1]));
		} else if (BA < 0)
			BA = -BA * l * sqrt(t.EA0() * w);
		double lam = 4 * BA / (w * l * l);
		double EI = t.EI;
		for (size_t i = 1; i < t.ei.x.size(); i++)
			EI = std::max(EI, (t.ei.y[i] - t.ei.y[i - 1]) / (t.ei.x[i] - t.ei.x[i - 1]));
		double ob = 4 / (l * l) * sqrt(EI / w);
		double os = sqrt(y.kb * t.d / w), ls = y.cb * t.d / w;
		for (double r : { om, lam, ob, os, ls })
			if (r > 0)
				dt = std::min(dt, safety * 2 / r);
		// attached light objects
		for (const SEnd* e : { &L.a, &L.b }) {
			double m = 1e9, inv = 0, arm = 0, I = 1e9;
			int b = 0;
			if (e->rod) {
				auto& R = y.rods[e->id - 1];
				b = body_of(R.attach);
				double len = R.n ? norm(R.b - R.a) : 0;
				m = R.n ? std::max(1e-9, y.rt[R.type].w * len) : 0.5 * w * l;
				I = R.n ? m * len * len / 12 : 1e9;
				arm = len;
				if (b) {
					inv = R.n ? 1 / m + arm * arm / I : 0;
					m = 1e9;
					I = 1e9;
					arm = norm(e->endB && R.n ? R.b : R.a);
				}
			} else {
				auto& P = y.points[e->id - 1];
				b = body_of(P.attach);
				if (b)
					arm = norm(P.r);
				else
					m = P.m + 0.5 * w * l;
			}
			if (b) {
				auto& B = y.bodies[b - 1];
				m = B.m;
				I = std::min(B.I.x, std::min(B.I.y, B.I.z));
			}
			inv += 1 / m + arm * arm / I;
			double o2 = 2 * sqrt(EA / l * inv);
			dt = std::min(dt, safety * 2 / o2);
			double l2 = 4 * BA / l * inv;
			if (l2 > 0)
				dt = std::min(dt, safety * 2 / l2);
		}
	}
	// round to a readable value
	double e = pow(10, floor(log10(dt)) - 1);
	return floor(dt / e) * e;
}

Motion
gen_motion(Gen& g, const Sys& y, double amp, double angamp, double wmax)
{
	Motion m;
	auto x0 = coupled_x0(y);
	auto ia = coupled_is_angle(y);
	for (size_t i = 0; i < x0.size(); i++) {
		double a = ia[i] ? angamp : amp;
		Motion::D d;
		d.x0 = x0[i];
		d.v = g.sym(a);
		d.a = g.sym(a);
		d.w = wmax * g.real(0.1, 1.0);
		d.ph = g.real(0, 6.28);
		m.d.push_back(d);
	}
	return m;
}

Sys
gen_sys(Gen& g, const GenOpt& o)
{
	Sys y;
	y.g = g.chance(1, 4) ? g.real(1, 20) : 9.81;
	y.rho = g.chance(1, 4) ? g.real(500, 1500) : 1025;
	int env = g.weighted({ 3, o.seabed ? 3 : 0, o.surface ? 3 : 0 });
	double zlo = -30, zhi = -3;
	y.depth = 200;
	if (env == 1) {
		y.depth = 30;
		zlo = -30;
		zhi = -18;
	} else if (env == 2) {
		zlo = -8;
		zhi = 6;
	}
	y.kb = g.logreal(1e3, 3e5);
	y.cb = g.logreal(1e2, 3e4);
	if (o.friction && g.coin()) {
		y.fric = g.real(0.05, 1.0);
		y.fricdamp = g.logreal(20, 2000);
		y.statdyn = g.coin() ? 1.0 : g.real(0.5, 2.0);
	}
	int nlt = g.range(1, 2);
	for (int i = 0; i < nlt; i++) {
		LType t;
		t.name = i ? "wire" : "main";
		t.d = g.logreal(0.02, 0.3, 200);
		double rel = g.coin() ? g.real(1.1, 8) : g.real(0.5, 8);
		char b[32];
		snprintf(b, sizeof b, "%.5g", rel * y.rho * t.A());
		t.w = atof(b);
		// stiffness relative to the weight of ~20 m of line
		t.EA = std::max(1e3, std::floor(t.w * 9.81 * 20 * g.logreal(5, 500) * o.softness));
		t.BA = g.coin() ? -g.real(0, 1.0) : std::floor(g.real(0, 0.5) * 2 * sqrt(t.EA * t.w));
		if (t.BA == 0)
			t.BA = 0;
		t.Cd = g.real(0, 2.5, 100);
		t.Ca = g.real(0, 1.5, 100);
		t.CdAx = g.real(0, 0.6, 100);
		t.CaAx = g.real(0, 0.6, 100);
		if (o.bending && g.chance(1, 3))
			t.EI = std::floor(t.EA * t.d * t.d * g.real(0.01, 0.5)) + 1;
		if (o.curves && g.chance(1, 4)) {
			int n = g.range(2, 5);
			double x = 0, yv = 0;
			t.ea.x.push_back(0);
			t.ea.y.push_back(0);
			for (int k = 1; k < n; k++) {
				x += g.real(0.005, 0.05, 50);
				yv += t.EA * g.real(0.002, 0.05, 50);
				t.ea.x.push_back(atof(num(x).c_str()));
				t.ea.y.push_back(std::floor(yv));
			}
		}
		y.lt.push_back(t);
	}
	auto rpoint = [&](double lo, double hi) {
		V3 p;
		p.x = g.sym(15, 150);
		p.y = g.sym(15, 150);
		p.z = g.real(lo, hi, 270);
		return p;
	};
	int nb = o.bodies ? g.weighted({ 4, 3, 1 }) : 0;
	for (int i = 0; i < nb; i++) {
		SBody b;
		std::vector<std::string> ty = { "Fixed" };
		if (o.coupled)
			ty.push_back("Coupled");
		if (o.freebodies) {
			ty.push_back("Free");
			ty.push_back("Free");
		}
		if (o.coupled && o.pinned && o.freebodies)
			ty.push_back("CoupledPinned");
		b.type = g.pick(ty);
		b.r = rpoint(std::max(zlo + 5, -25.0), std::min(zhi, -3.0));
		if (g.coin())
			b.ang = { g.sym(60, 60), g.sym(60, 60), g.sym(170, 170) };
		b.m = g.logreal(500, 20000, 100);
		b.v = g.coin() ? atof(num(std::floor(1000 * b.m / y.rho * g.real(0, 2)) / 1000).c_str())
		               : 0;
		if (g.coin())
			b.cg = { g.sym(0.5, 50), g.sym(0.5, 50), g.sym(1, 50) };
		for (int k = 0; k < 3; k++)
			b.I[k] = std::floor(b.m * g.real(0.5, 4));
		for (int k = 0; k < 6; k++)
			b.cda[k] = g.real(0, k < 3 ? 10 : 50, 100);
		for (int k = 0; k < 3; k++)
			b.ca[k] = g.real(0, 1.5, 30);
		// thin lens: keep added mass physical
		y.bodies.push_back(b);
	}
	int nr = o.rods ? g.weighted({ 4, 3, 2, 1 }) : 0;
	if (nr)
		for (int i = 0, n = g.range(1, 2); i < n; i++) {
			RType t;
			t.name = i ? "float" : "rodA";
			t.d = g.logreal(0.1, 1.5, 100);
			char b[32];
			snprintf(b, sizeof b, "%.5g", g.real(0.2, 5) * y.rho * M_PI / 4 * t.d * t.d);
			t.w = atof(b);
			t.Cd = g.real(0, 2, 40);
			t.Ca = g.real(0, 1.5, 30);
			t.CdEnd = g.real(0, 2, 40);
			t.CaEnd = g.real(0, 1, 30);
			y.rt.push_back(t);
		}
	for (int i = 0; i < nr; i++) {
		SRod r;
		r.type = g.range(0, (int)y.rt.size() - 1);
		std::vector<std::string> ty = { "Fixed" };
		if (o.coupled)
			ty.push_back("Coupled");
		if (o.freerods) {
			ty.push_back("Free");
			ty.push_back("Free");
			if (o.pinned)
				ty.push_back("Pinned");
			if (o.pinned && o.coupled)
				ty.push_back("CoupledPinned");
		}
		for (int b = 1; b <= nb; b++) {
			ty.push_back("Body" + std::to_string(b));
			if (o.freerods && o.pinned)
				ty.push_back("Body" + std::to_string(b) + "Pinned");
		}
		r.attach = g.pick(ty);
		double len = g.real(1, 8, 70);
		V3 dir{ g.sym(1, 20), g.sym(1, 20), g.sym(1, 20) };
		if (norm(dir) < 0.3)
			dir = { 0, 0, 1 };
		dir = unit(dir);
		V3 a = body_of(r.attach) ? V3{ g.sym(2, 40), g.sym(2, 40), g.sym(2, 40) }
		                         : rpoint(zlo + 1, zhi);
		V3 b = a + len * dir;
		if (!body_of(r.attach) && b.z < -y.depth + 0.5)
			b.z = a.z + len;
		for (int k = 0; k < 3; k++)
			b[k] = std::floor(b[k] * 1000) / 1000;
		r.a = a;
		r.b = b;
		r.n = g.range(1, 6);
		if (o.zerorods && g.chance(1, 3))
			r.n = 0;
		y.rods.push_back(r);
	}
	int np = g.range(2, 5);
	for (int i = 0; i < np; i++) {
		SPoint p;
		std::vector<std::string> ty = { "Fixed" };
		if (o.coupled) {
			ty.push_back("Coupled");
			ty.push_back("Coupled");
		}
		if (o.freepts) {
			ty.push_back("Free");
			ty.push_back("Free");
		}
		for (int b = 1; b <= nb; b++) {
			ty.push_back("Body" + std::to_string(b));
			ty.push_back("Body" + std::to_string(b));
		}
		p.attach = g.pick(ty);
		if (i == 0)
			p.attach = "Fixed";
		if (body_of(p.attach))
			p.r = { g.sym(2, 40), g.sym(2, 40), g.sym(2, 40) };
		else
			p.r = rpoint(zlo, zhi);
		if (i == 0 && env == 1 && g.coin())
			p.r.z = -y.depth;
		if (p.attach == "Free" || g.chance(1, 3)) {
			p.m = g.real(20, 500, 48);
			p.v = g.coin() ? std::floor(1000 * p.m / y.rho * g.real(0, 2.5)) / 1000 : 0;
			p.cda = g.real(0, 3, 30);
			p.ca = g.real(0, 1.5, 30);
		}
		y.points.push_back(p);
	}
	// a line between the first two points always exists
	std::vector<SEnd> ends;
	for (int i = 1; i <= np; i++)
		ends.push_back({ false, i, false });
	for (int i = 1; i <= nr; i++) {
		ends.push_back({ true, i, false });
		ends.push_back({ true, i, true });
	}
	int nl = g.range(1, o.maxlines);
	std::vector<bool> used(ends.size(), false);
	for (int i = 0; i < nl; i++) {
		SLine L;
		L.type = g.range(0, nlt - 1);
		size_t a = g.draw(ends.size()), b = g.draw(ends.size());
		// prefer to use ends that are not used yet
		for (size_t k = 0; k < ends.size() && used[b]; k++)
			b = (b + 1) % ends.size();
		if (a == b)
			a = (b + 1) % ends.size();
		L.a = ends[a];
		L.b = ends[b];
		V3 pa = end_pos(y, L.a), pb = end_pos(y, L.b);
		double dist = norm(pa - pb);
		if (dist < 1.0 || pa.z < -y.depth || pb.z < -y.depth) {
			if (i + 1 < nl || !y.lines.empty())
				continue;
			// fall back to moving the second point
			y.points[1].attach = "Fixed";
			y.points[1].r = y.points[0].r + V3{ 6, 2, 3 };
			L.a = { false, 1, false };
			L.b = { false, 2, false };
			dist = 7;
			a = 0;
			b = 1;
		}
		used[a] = used[b] = true;
		L.len = std::floor(100 * dist * g.real(0.9, 1.4, 50)) / 100;
		L.n = g.range(2, o.maxseg);
		y.lines.push_back(L);
	}
	// a free rod without length has no mass but that of its lines
	for (size_t i = 0; i < y.rods.size(); i++) {
		bool any = false;
		for (auto& L : y.lines)
			for (const SEnd* e : { &L.a, &L.b })
				any = any || (e->rod && e->id == (int)i + 1);
		if (!y.rods[i].n && y.rods[i].attach == "Free" && !any)
			y.rods[i].n = 2;
	}
	y.dtM = stable_dt(y, 0.1);
	return y;
}
