// P12: the results do not depend on how the model is written
#include "loads.hpp"
#include <algorithm>
#include <sys/stat.h>
const char* PROP_ID = "P12";
const char* PROP_RULE =
    "non-trivial: both versions of the model took at least 2 steps and something moved, and the "
    "second version really is written differently";
int PROP_CPU_LIMIT = 60;

static const std::vector<std::string> SCHEMES = { "rk2",  "euler",   "leuler",    "heun",
	                                              "rk4",  "ab2",     "ab3",       "ab4",
	                                              "lab2", "beuler3", "midpoint3", "wilson5" };

namespace {
typedef std::vector<double> Vec;
struct Host
{
	std::vector<Vec> x, xd; // initialization and every step
};
struct ObjB
{
	V3 r, v, w, f, m;
	M3 R;
};
struct ObjR
{
	std::vector<V3> r, v;
	V3 f, m;
};
struct ObjP
{
	V3 r, v, f;
	M3 M;
};
struct ObjL
{
	double len;
	std::vector<V3> r, v, f;
	std::vector<M3> M;
};
struct Obs
{
	std::vector<ObjB> b;
	std::vector<ObjR> r;
	std::vector<ObjP> p;
	std::vector<ObjL> l;
	std::vector<V3> host; // coupled forces and moments, 3 by 3
};
Obs
observe(MoorDyn s, const Sys& y, const Vec& f)
{
	Obs o;
	for (size_t i = 1; i <= y.bodies.size(); i++) {
		double r[6], v[6], F[6];
		MoorDynBody b = MoorDyn_GetBody(s, i);
		MoorDyn_GetBodyState(b, r, v);
		MoorDyn_GetBodyForce(b, F);
		o.b.push_back({ { r[0], r[1], r[2] }, { v[0], v[1], v[2] }, { v[3], v[4], v[5] },
		                { F[0], F[1], F[2] }, { F[3], F[4], F[5] }, euler({ r[3], r[4], r[5] }) });
	}
	for (size_t i = 1; i <= y.rods.size(); i++) {
		double F[6];
		ObjR q;
		unsigned n = 0;
		MoorDyn_GetRodN(MoorDyn_GetRod(s, i), &n);
		for (unsigned k = 0; k <= n; k++) {
			q.r.push_back(rpos(s, i, k));
			q.v.push_back(rvel(s, i, k));
		}
		MoorDyn_GetRodForce(MoorDyn_GetRod(s, i), F);
		q.f = { F[0], F[1], F[2] };
		q.m = { F[3], F[4], F[5] };
		o.r.push_back(q);
	}
	for (size_t i = 1; i <= y.points.size(); i++) {
		double m[3][3];
		ObjP q;
		q.r = ppos(s, i);
		q.v = pvel(s, i);
		q.f = pforce(s, i);
		MoorDyn_GetPointM(MoorDyn_GetPoint(s, i), m);
		for (int k = 0; k < 9; k++)
			q.M[k / 3][k % 3] = m[k / 3][k % 3];
		o.p.push_back(q);
	}
	for (size_t i = 1; i <= y.lines.size(); i++) {
		ObjL q;
		unsigned n = 0;
		MoorDyn_GetLineN(MoorDyn_GetLine(s, i), &n);
		MoorDyn_GetLineUnstretchedLength(MoorDyn_GetLine(s, i), &q.len);
		for (unsigned k = 0; k <= n; k++) {
			q.r.push_back(lpos(s, i, k));
			q.v.push_back(lvel(s, i, k));
			q.f.push_back(lforce(s, i, k));
			q.M.push_back(lmass(s, i, k));
		}
		o.l.push_back(q);
	}
	for (size_t i = 0; i + 2 < f.size(); i += 3)
		o.host.push_back({ f[i], f[i + 1], f[i + 2] });
	return o;
}
struct Trace
{
	std::vector<Obs> o;
	std::vector<Snap> s;
	bool bad = false; // it blew up
};
Trace
run(Ctx& c, const Sys& y, const Host& h, double dt, const char* which)
{
	Trace t;
	MD a(y.path);
	if (!a.s)
		c.fail("create", "the %s model was rejected", which);
	unsigned n = y.dofs();
	Vec x = h.x[0], xd = h.xd[0], f(n, 0);
	x.push_back(0), xd.push_back(0);
	int e = MoorDyn_Init_NoIC(a.s, x.data(), xd.data());
	if (e)
		c.fail("init", "the initialisation of the %s model failed with %d", which, e);
	t.o.push_back(observe(a.s, y, {}));
	t.s.push_back(snap(a.s, y));
	double time = 0;
	for (size_t k = 1; k < h.x.size(); k++) {
		x = h.x[k], xd = h.xd[k];
		x.push_back(0), xd.push_back(0);
		f.assign(n + 1, 0);
		double d = dt;
		e = MoorDyn_Step(a.s, x.data(), xd.data(), f.data(), &time, &d);
		if (e == MOORDYN_NAN_ERROR) {
			t.bad = true;
			return t;
		}
		if (e)
			c.fail("step", "a step of the %s model failed with %d", which, e);
		f.resize(n);
		t.o.push_back(observe(a.s, y, f));
		t.s.push_back(snap(a.s, y));
		if (!finite_all(t.s.back())) {
			t.bad = true;
			return t;
		}
		for (auto& l : t.o.back().l)
			for (size_t i = 0; i < l.v.size(); i++)
				if (norm(l.v[i]) > 100 || norm(l.r[i]) > 1e5) {
					t.bad = true;
					return t;
				}
	}
	return t;
}
Host
host_of(Gen& g, const Sys& y, double dt, int n, bool angvel)
{
	Motion m = gen_motion(g, y, 0.8, 0.3, 3.0);
	auto ia = coupled_is_angle(y);
	Host h;
	for (int k = -1; k < n; k++) {
		Vec x, xd;
		m.eval(std::max(k, 0) * dt, x, xd);
		x.resize(ia.size());
		xd.resize(ia.size());
		if (!angvel)
			for (size_t i = 0; i < ia.size(); i++)
				if (ia[i])
					xd[i] = 0;
		h.x.push_back(x);
		h.xd.push_back(xd);
	}
	return h;
}

// ------------------------------------------------------------------ formats
std::string
any_case(Gen& g, std::string s)
{
	int k = g.range(0, 3);
	for (char& ch : s)
		if (k == 1 || (k == 3 && g.coin()))
			ch = toupper(ch);
		else if (k == 2 || k == 3)
			ch = tolower(ch);
	return s;
}
std::string
any_num(Gen& g, const std::string& w)
{
	char* e;
	double v = strtod(w.c_str(), &e);
	if (*e || w.empty())
		return w;
	char b[400];
	std::vector<const char*> fs = { "%.17g", "%.16e", "%.17E", "%+.17g" };
	int k = g.range(0, (int)fs.size());
	if (k == 0)
		return w;
	snprintf(b, sizeof b, fs[k - 1], v);
	return strtod(b, 0) == v ? b : w;
}
std::string
any_list(Gen& g, const std::string& w)
{
	std::string o, t;
	std::stringstream ss(w);
	while (std::getline(ss, t, '|'))
		o += (o.empty() ? "" : "|") + any_num(g, t);
	return o;
}
std::string
any_text(Gen& g, const std::string& text)
{
	struct Sec
	{
		std::string title;
		std::vector<std::string> head, rows;
	};
	std::vector<Sec> secs;
	std::stringstream ss(text);
	std::string ln;
	std::string first, last;
	while (std::getline(ss, ln)) {
		if (ln.find("---") != std::string::npos) {
			std::string t;
			for (char ch : ln)
				if (ch != '-')
					t += ch;
			t = t.substr(1, t.find_last_not_of(' '));
			secs.push_back({ t, {}, {} });
		} else {
			Sec& s = secs.back();
			bool free = s.title == "OPTIONS" || s.title == "OUTPUTS" || secs.size() == 1;
			if (!free && s.head.size() < 2)
				s.head.push_back(ln);
			else
				s.rows.push_back(ln);
		}
	}
	Sec top = secs.front();
	secs.erase(secs.begin());
	secs.pop_back();
	if (g.coin())
		for (size_t i = secs.size(); i > 1; i--)
			std::swap(secs[i - 1], secs[g.draw(i)]);
	static const std::map<std::string, std::vector<std::string>> TITLES = {
		{ "LINE TYPES", { "LINE TYPES", "LINE DICTIONARY" } },
		{ "ROD TYPES", { "ROD TYPES", "ROD DICTIONARY" } },
		{ "BODIES", { "BODIES", "BODY LIST", "BODY PROPERTIES" } },
		{ "POINTS", { "POINTS", "POINT LIST", "POINT PROPERTIES", "CONNECTION PROPERTIES", "NODE PROPERTIES" } },
		{ "RODS", { "RODS", "ROD LIST", "ROD PROPERTIES" } },
		{ "LINES", { "LINES", "LINE LIST", "LINE PROPERTIES" } },
		{ "OPTIONS", { "OPTIONS", "SOLVER OPTIONS" } },
		{ "OUTPUTS", { "OUTPUTS", "OUTPUT" } },
	};
	static const std::map<std::string, std::vector<std::string>> OPTS = {
		{ "dtM", { "dtM", "DT" } },
		{ "g", { "g", "gravity" } },
		{ "WtrDnsty", { "WtrDnsty", "rho", "Rho" } },
		{ "kBot", { "kBot", "kbot", "kb" } },
		{ "cBot", { "cBot", "cbot", "cb" } },
		{ "TmaxIC", { "TmaxIC", "ICTmax" } },
	};
	static const std::map<std::string, std::vector<std::string>> BODY = {
		{ "Fixed", { "Fixed", "Anchor", "Fix" } },
		{ "Coupled", { "Coupled", "Vessel", "Ves", "Cpld" } },
		{ "CoupledPinned", { "CoupledPinned", "VesselPinned", "VesPin", "CpldPin" } },
		{ "Pinned", { "Pinned", "Pin" } },
		{ "Free", { "Free" } },
	};
	std::string eol = g.chance(1, 3) ? "\r\n" : "\n";
	auto dashes = [&] { return std::string(g.range(3, 30), '-'); };
	auto row = [&](const std::vector<std::string>& w) {
		std::string o = g.chance(1, 4) ? std::string(g.range(1, 5), ' ') : "";
		for (size_t i = 0; i < w.size(); i++)
			o += (i ? std::string(g.chance(1, 3) ? g.range(1, 9) : 1, ' ') : "") + w[i];
		if (g.chance(1, 6))
			o += std::string(g.range(1, 4), ' ');
		return o + eol;
	};
	auto words = [](const std::string& s) {
		std::vector<std::string> w;
		std::stringstream q(s);
		std::string t;
		while (q >> t)
			w.push_back(t);
		return w;
	};
	std::string o = dashes() + " MoorDyn Input File " + dashes() + eol + "written in another way" + eol;
	for (auto& s : secs) {
		o += dashes() + " " + any_case(g, g.pick(TITLES.at(s.title))) + " " + dashes() + eol;
		for (auto& h : s.head)
			o += h + eol;
		auto rows = s.rows;
		if (s.title == "OPTIONS")
			for (size_t i = rows.size(); i > 1; i--)
				std::swap(rows[i - 1], rows[g.draw(i)]);
		if (s.title == "LINE TYPES" && g.coin())
			rows.insert(rows.begin() + g.draw(rows.size() + 1), "unused 0.1 10 1e6 -1 0 1 1 0 0");
		if (s.title == "ROD TYPES" && g.coin())
			rows.insert(rows.begin() + g.draw(rows.size() + 1), "unused 0.1 10 1 1 0 0");
		for (auto& r : rows) {
			auto w = words(r);
			if (s.title == "LINE TYPES" || s.title == "ROD TYPES") {
				for (size_t i = 1; i < w.size(); i++)
					w[i] = any_num(g, w[i]);
			} else if (s.title == "BODIES") {
				w[1] = any_case(g, g.pick(BODY.at(w[1])));
				for (size_t i = 2; i < w.size(); i++)
					w[i] = any_list(g, w[i]);
			} else if (s.title == "RODS") {
				std::string at = w[2];
				int b = attach_body(at);
				if (b)
					w[2] = any_case(g, "Body") + std::to_string(b) +
					       (is_pinned(at) ? any_case(g, g.pick(BODY.at("Pinned"))) : "");
				else {
					auto v = BODY.at(at);
					if (at == "Free")
						v = { "Free", "Point", "Con" };
					w[2] = any_case(g, g.pick(v));
				}
				for (size_t i = 3; i < 9; i++)
					w[i] = any_num(g, w[i]);
			} else if (s.title == "POINTS") {
				std::string at = w[1];
				int b = attach_body(at);
				if (b)
					w[1] = any_case(g, "Body") + std::to_string(b);
				else {
					auto v = BODY.at(at);
					if (at == "Free")
						v = { "Free", "Point", "Con", "Connect" };
					if (at == "Coupled")
						v.push_back("Fairlead");
					w[1] = any_case(g, g.pick(v));
				}
				for (size_t i = 2; i < w.size(); i++)
					w[i] = any_num(g, w[i]);
				if (g.chance(1, 4)) // the external force, which is zero
					w.insert(w.begin() + 7, { "0", "0", "0.0" });
			} else if (s.title == "LINES") {
				for (int i = 2; i < 4; i++) {
					if (w[i][0] == 'R') {
						std::string e = w[i].substr(1);
						w[i] = any_case(g, g.coin() ? "Rod" : "R") + any_case(g, e);
					} else
						w[i] = any_case(g, g.pick(std::vector<std::string>{ "", "C", "Con", "P", "Point" })) + w[i];
				}
				w[4] = any_num(g, w[4]);
			} else if (s.title == "OPTIONS") {
				w[0] = w[1] == "tScheme" || w[1] == "writeLog" ? w[0] : any_num(g, w[0]);
				if (OPTS.count(w[1]))
					w[1] = g.pick(OPTS.at(w[1]));
				if (g.chance(1, 3)) {
					w.push_back("-");
					w.push_back("a remark, g rho 12");
				}
			}
			o += row(w);
		}
		if (s.title == "OPTIONS" && g.chance(1, 3))
			o += eol;
	}
	o += dashes() + " need this line " + dashes() + eol;
	return o;
}
// ------------------------------------------------------------ permutations
std::vector<int>
perm(Gen& g, size_t n) // perm[old] = new
{
	std::vector<int> p(n);
	for (size_t i = 0; i < n; i++)
		p[i] = i;
	for (size_t i = n; i > 1; i--)
		std::swap(p[i - 1], p[g.draw(i)]);
	return p;
}
struct Map
{
	std::vector<int> b, r, p, l; // index in the other model of each object
};
// offset of the coupled coordinates of each object; -1 if it is not coupled
struct Layout
{
	std::vector<int> b, r, p, nb, nr;
};
Layout
layout(const Sys& y)
{
	Layout o;
	int q = 0;
	auto f = [&](const std::string& a, std::vector<int>& v, std::vector<int>& n) {
		int k = a == "Coupled" ? 6 : a == "CoupledPinned" ? 3 : 0;
		v.push_back(k ? q : -1);
		n.push_back(k);
		q += k;
	};
	for (auto& b : y.bodies)
		f(b.type, o.b, o.nb);
	for (auto& r : y.rods)
		f(r.attach, o.r, o.nr);
	for (auto& p : y.points) {
		o.p.push_back(p.attach == "Coupled" ? q : -1);
		q += p.attach == "Coupled" ? 3 : 0;
	}
	return o;
}
std::string
rebody(const std::string& a, const std::vector<int>& pb, int off = 0)
{
	int b = attach_body(a);
	if (!b)
		return a;
	return "Body" + std::to_string((pb.empty() ? b - 1 : pb[b - 1]) + 1 + off) +
	       (is_pinned(a) ? "Pinned" : "");
}
M3
Rz(double a)
{
	return rotz(a);
}
bool
angles(const M3& R, V3& a)
{
	if (std::fabs(R[0][2]) > 0.97)
		return false;
	a = { atan2(-R[1][2], R[2][2]), asin(R[0][2]), atan2(-R[0][1], R[0][0]) };
	return true;
}
} // namespace

void
run_case(Gen& g, Ctx& c)
{
	GenOpt o;
	o.maxlines = 4;
	o.maxseg = 5;
	Sys A = gen_sys(g, o);
	A.scheme = g.pick(SCHEMES);
	A.dtM = stable_dt(A, 0.05);
	int kind = g.weighted({ 3, 2, 3, 2, 2 });
	int n = g.range(2, 6);
	static const char* KIND[] = { "format", "order", "rigid", "union", "reverse" };
	c.tag(KIND[kind]);
	A.path = "a/sys.txt";
	mkdir("a", 0755);
	mkdir("b", 0755);
	double dt = A.dtM * g.range(1, 3);
	if (kind)
		A.statdyn = 1;
	// names of the types, some of them contained in others
	std::vector<std::string> ln = { "ch", "cha", "chai", "chain", "ain", "chains", "c" }, rn = ln;
	auto name = [&](Sys& y) {
		auto take = [&](std::vector<std::string>& from) {
			size_t k = g.draw(from.size());
			std::string s = from[k];
			from.erase(from.begin() + k);
			return s;
		};
		for (auto& t : y.lt)
			t.name = take(ln);
		for (auto& t : y.rt)
			t.name = take(rn);
	};
	if (g.coin()) {
		// a type that nothing uses
		if (g.coin()) {
			LType t = A.lt[0];
			t.d *= 2, t.w *= 3, t.EA *= 0.5;
			t.name = "unused";
			A.lt.push_back(t);
		}
		if (!A.rt.empty() && g.coin()) {
			RType t = A.rt[0];
			t.d *= 2, t.w *= 3;
			t.name = "unused";
			A.rt.push_back(t);
		}
	}
	name(A);
	Sys B = A;
	B.path = "b/sys.txt";
	Map map;
	for (size_t i = 0; i < A.bodies.size(); i++)
		map.b.push_back(i);
	for (size_t i = 0; i < A.rods.size(); i++)
		map.r.push_back(i);
	for (size_t i = 0; i < A.points.size(); i++)
		map.p.push_back(i);
	for (size_t i = 0; i < A.lines.size(); i++)
		map.l.push_back(i);
	std::vector<bool> rev(A.lines.size(), false);
	M3 R = eye();
	V3 T{};
	Sys C; // the second half of a union
	Map mapc;
	Host hA, hB, hC;
	bool differs = true;
	if (kind == 0) {
		hA = hB = host_of(g, A, dt, n, true);
		A.write();
		B.write();
		std::string t = any_text(g, A.text());
		put_file(B.path, t);
		differs = t != A.text();
		c.note("scheme %s dt %g n %d\n%s\nwritten as\n%s", A.scheme.c_str(), dt, n, A.text().c_str(),
		       t.c_str());
	} else if (kind == 1) {
		hA = host_of(g, A, dt, n, true);
		map.b = perm(g, A.bodies.size());
		map.r = perm(g, A.rods.size());
		map.p = perm(g, A.points.size());
		map.l = perm(g, A.lines.size());
		auto plt = perm(g, A.lt.size()), prt = perm(g, A.rt.size());
		for (size_t i = 0; i < A.lt.size(); i++)
			B.lt[plt[i]] = A.lt[i];
		for (size_t i = 0; i < A.rt.size(); i++)
			B.rt[prt[i]] = A.rt[i];
		for (size_t i = 0; i < A.bodies.size(); i++)
			B.bodies[map.b[i]] = A.bodies[i];
		for (size_t i = 0; i < A.rods.size(); i++) {
			SRod& r = B.rods[map.r[i]] = A.rods[i];
			r.type = prt[r.type];
			r.attach = rebody(r.attach, map.b);
		}
		for (size_t i = 0; i < A.points.size(); i++) {
			SPoint& p = B.points[map.p[i]] = A.points[i];
			p.attach = rebody(p.attach, map.b);
		}
		for (size_t i = 0; i < A.lines.size(); i++) {
			SLine& l = B.lines[map.l[i]] = A.lines[i];
			l.type = plt[l.type];
			for (SEnd* e : { &l.a, &l.b })
				e->id = (e->rod ? map.r : map.p)[e->id - 1] + 1;
		}
		differs = B.text() != A.text();
	} else if (kind == 2) {
		hA = host_of(g, A, dt, n, false);
		double a = g.coin() ? g.range(0, 3) * M_PI / 2 : g.sym(3.14);
		R = Rz(a);
		T = { g.sym(1000), g.sym(1000), 0 };
		if (g.chance(1, 4))
			T = {};
		auto mv = [&](V3 v) { return R * v + T; };
		for (auto& b : B.bodies) {
			b.r = mv(b.r);
			V3 q;
			if (!angles(R * euler(b.ang * (M_PI / 180)), q))
				c.discard("gimbal");
			b.ang = q * (180 / M_PI);
		}
		for (auto& r : B.rods)
			if (!attach_body(r.attach)) {
				r.a = mv(r.a);
				r.b = mv(r.b);
			}
		for (auto& p : B.points)
			if (!attach_body(p.attach))
				p.r = mv(p.r);
		differs = B.text() != A.text();
		c.note("turned %g and moved (%g %g)\n", a, T.x, T.y);
	} else if (kind == 3) {
		if (A.scheme == "leuler") // the time step of a line depends on those of the others
			A.scheme = "rk2";
		C = gen_sys(g, o);
		C.g = A.g, C.rho = A.rho, C.depth = A.depth, C.kb = A.kb, C.cb = A.cb, C.fric = A.fric,
		C.fricdamp = A.fricdamp, C.statdyn = 1, C.scheme = A.scheme;
		double deepest = 0;
		for (auto& l : C.lines)
			for (SEnd* e : { &l.a, &l.b })
				deepest = std::min(deepest, end_pos(C, *e).z);
		if (deepest < -A.depth)
			c.discard("the other half is too deep");
		A.dtM = C.dtM = B.dtM = std::min(A.dtM, stable_dt(C, 0.05));
		dt = A.dtM * g.range(1, 3);
		C.path = "c/sys.txt";
		mkdir("c", 0755);
		name(C);
		hA = host_of(g, A, dt, n, true);
		hC = host_of(g, C, dt, n, true);
		bool front = g.coin();
		Sys& F = front ? C : A; // the one whose objects come first
		Sys& S = front ? A : C;
		B = F;
		B.path = "b/sys.txt";
		int nlt = F.lt.size(), nrt = F.rt.size(), nb = F.bodies.size(), nr = F.rods.size(),
		    np = F.points.size(), nl = F.lines.size();
		B.lt.insert(B.lt.end(), S.lt.begin(), S.lt.end());
		B.rt.insert(B.rt.end(), S.rt.begin(), S.rt.end());
		B.bodies.insert(B.bodies.end(), S.bodies.begin(), S.bodies.end());
		for (auto r : S.rods) {
			r.type += nrt;
			r.attach = rebody(r.attach, {}, nb);
			B.rods.push_back(r);
		}
		for (auto p : S.points) {
			p.attach = rebody(p.attach, {}, nb);
			B.points.push_back(p);
		}
		for (auto l : S.lines) {
			l.type += nlt;
			for (SEnd* e : { &l.a, &l.b })
				e->id += e->rod ? nr : np;
			B.lines.push_back(l);
		}
		auto fill = [&](Map& m, const Sys& s, bool second) {
			m = Map();
			for (size_t i = 0; i < s.bodies.size(); i++)
				m.b.push_back(i + (second ? nb : 0));
			for (size_t i = 0; i < s.rods.size(); i++)
				m.r.push_back(i + (second ? nr : 0));
			for (size_t i = 0; i < s.points.size(); i++)
				m.p.push_back(i + (second ? np : 0));
			for (size_t i = 0; i < s.lines.size(); i++)
				m.l.push_back(i + (second ? nl : 0));
		};
		fill(map, A, front);
		fill(mapc, C, !front);
	} else {
		hA = hB = host_of(g, A, dt, n, true);
		bool any = false;
		for (size_t i = 0; i < A.lines.size(); i++)
			if (g.coin()) {
				rev[i] = any = true;
				std::swap(B.lines[i].a, B.lines[i].b);
			}
		if (!any) {
			rev[0] = true;
			std::swap(B.lines[0].a, B.lines[0].b);
		}
	}
	// the same commands of the host, for the other model
	Layout la = layout(A), lb = layout(B), lc = layout(C);
	auto copy = [&](const Host& h, const Sys& s, const Layout& ls, const Map& m) {
		for (size_t k = 0; k < h.x.size(); k++) {
			auto put = [&](int from, int to, int len, bool isrod) {
				for (int v = 0; v < 2; v++) {
					const Vec& src = v ? h.xd[k] : h.x[k];
					Vec& dst = v ? hB.xd[k] : hB.x[k];
					V3 p{ src[from], src[from + 1], src[from + 2] };
					p = v ? R * p : R * p + T;
					for (int i = 0; i < 3; i++)
						dst[to + i] = p[i];
					if (len < 6)
						continue;
					V3 a{ src[from + 3], src[from + 4], src[from + 5] };
					if (kind == 2) {
						if (v)
							a = R * a;
						else if (!angles(isrod ? R * euler(a) * tr(R) : R * euler(a), a))
							c.discard("gimbal");
					}
					for (int i = 0; i < 3; i++)
						dst[to + 3 + i] = a[i];
				}
			};
			for (size_t i = 0; i < s.bodies.size(); i++)
				if (ls.b[i] >= 0)
					put(ls.b[i], lb.b[m.b[i]], ls.nb[i], false);
			for (size_t i = 0; i < s.rods.size(); i++)
				if (ls.r[i] >= 0)
					put(ls.r[i], lb.r[m.r[i]], ls.nr[i], true);
			for (size_t i = 0; i < s.points.size(); i++)
				if (ls.p[i] >= 0)
					put(ls.p[i], lb.p[m.p[i]], 3, false);
		}
	};
	if (kind >= 1 && kind <= 3) {
		hB.x.assign(hA.x.size(), Vec(B.dofs()));
		hB.xd = hB.x;
		copy(hA, A, la, map);
		if (kind == 3)
			copy(hC, C, lc, mapc);
	}
	if (kind) {
		A.write();
		B.write();
		c.note("%s: scheme %s dt %g n %d\n%s\nagainst\n%s", KIND[kind], A.scheme.c_str(), dt, n,
		       A.text().c_str(), B.text().c_str());
	}
	Trace ta = run(c, A, hA, dt, "original");
	if (ta.bad)
		c.discard("unstable");
	Trace tc;
	if (kind == 3) {
		C.write();
		tc = run(c, C, hC, dt, "second");
		if (tc.bad)
			c.discard("unstable");
	}
	Trace tb = run(c, B, hB, dt, "rewritten");
	if (tb.bad && kind == 0)
		c.fail("format", "the rewritten model blew up");
	if (kind == 0) {
		for (size_t k = 0; k < ta.s.size(); k++) {
			if (k >= tb.s.size())
				c.fail("format", "the rewritten model stopped at step %zu", k);
			for (size_t i = 0; i < ta.s[k].v.size(); i++) {
				c.evals++;
				if (!(ta.s[k].v[i] == tb.s[k].v[i]))
					c.fail("format", "step %zu: %s is %.17g in the original model, %.17g in the "
					       "rewritten one", k, ta.s[k].lab[i].c_str(), ta.s[k].v[i], tb.s[k].v[i]);
			}
			for (size_t i = 0; i < ta.o[k].host.size(); i++)
				if (!(ta.o[k].host[i].x == tb.o[k].host[i].x && ta.o[k].host[i].y == tb.o[k].host[i].y &&
				      ta.o[k].host[i].z == tb.o[k].host[i].z))
					c.fail("format", "step %zu: the forces of the host differ", k);
		}
	} else {
		if (tb.bad)
			c.discard("unstable");
		double EA = 0;
		for (auto& t : B.lt)
			EA = std::max(EA, t.EA);
		// the catenary solver amplifies the rounding errors of taut lines
		double e0 = 0, lmin = 1e9;
		if (kind == 2 || kind == 4)
			for (size_t i = 0; i < A.lines.size(); i++) {
				auto &a = ta.o[0].l[i], &b = tb.o[0].l[i];
				for (size_t j = 0; j < a.r.size(); j++)
					e0 = std::max(e0, norm(R * a.r[j] + T - b.r[kind == 4 && rev[i] ? a.r.size() - 1 - j : j]));
			}
		// the heading of quasi-vertical rods (1e-6) is not defined
		if (kind == 2)
			for (auto& o : ta.o)
				for (auto& r : o.r) {
					for (V3 x : r.r)
						if (std::fabs(x.z) < 1e-9)
							c.discard("exactly at the surface");
					if (hypot(r.r.back().x - r.r[0].x, r.r.back().y - r.r[0].y) < 1e-5 * norm(r.r.back() - r.r[0]))
						c.discard("vertical rod");
				}
		// the plane of a line folded back along its rod is not defined
		for (auto& o : ta.o)
			for (size_t i = 0; i < A.lines.size(); i++)
				for (int b = 0; b < 2; b++) {
					const SEnd& e = b ? A.lines[i].b : A.lines[i].a;
					auto& l = o.l[i].r;
					if (!e.rod)
						continue;
					auto& r = o.r[e.id - 1].r;
					V3 d = b ? l[l.size() - 2] - l.back() : l[1] - l[0], q = r.back() - r[0];
					if (std::fabs(dot(d, q)) > (1 - 1e-6) * norm(d) * norm(q))
						c.discard("line along its rod");
				}
		// Eigen turns a vector half a turn with an error of 1e-6 rad
		if (kind == 2)
			for (auto* t : { &ta, &tb })
				for (auto& o : t->o)
					for (size_t i = 0; i < A.rods.size(); i++)
						if (attach_body(A.rods[i].attach)) {
							auto& r = o.r[i].r;
							V3 q = r.back() - r[0], d = A.rods[i].b - A.rods[i].a;
							if (dot(q, d) < -(1 - 1e-10) * norm(q) * norm(d))
								c.discard("half a turn");
						}
		for (auto& l : B.lines)
			lmin = std::min(lmin, l.len / l.n);
		c.metric("initial profile (m)", e0);
		if (e0 > (kind == 4 ? 1e-6 : 1e-4)) {
			if (kind == 4)
				c.discard("another initial profile");
			if (e0 < 0.02) // the solver stops at a tolerance
				c.discard("loose catenary");
			// the catenary solver may fail, or find another solution, after the slightest change
			for (const Sys* y : { &A, &B }) {
				const Trace& t = y == &A ? ta : tb;
				const Host& h = y == &A ? hA : hB;
				for (int i = 1; i <= 4; i++) {
					Sys z = *y;
					for (auto& l : z.lines)
						l.len *= 1 + i * 1e-12;
					Host h0;
					h0.x = { h.x[0] }, h0.xd = { h.xd[0] };
					z.path = "z/sys.txt";
					mkdir("z", 0755);
					z.write();
					Trace tz = run(c, z, h0, dt, "perturbed");
					for (size_t k = 0; k < z.lines.size(); k++)
						for (size_t j = 0; j < tz.o[0].l[k].r.size(); j++)
							if (norm(tz.o[0].l[k].r[j] - t.o[0].l[k].r[j]) > 1e-5)
								c.discard("no catenary");
				}
			}
			c.fail("profile", "the initial profiles of the lines differ %g m", e0);
		}
		auto compare = [&](const Trace& t, const Sys& s, const Layout& ls, const Map& m, const char* who) {
			for (size_t k = 0; k < t.o.size(); k++) {
				const Obs &p = t.o[k], &q = tb.o[k];
				double vs = 1, fs = 1000, ms = 0;
				for (auto& l : p.l)
					for (size_t i = 0; i < l.v.size(); i++) {
						vs = std::max(vs, norm(l.v[i]));
						fs = std::max(fs, norm(l.f[i]));
						ms = std::max(ms, maxabs(l.M[i]));
					}
				for (auto& b : p.b)
					vs = std::max(vs, norm(b.v) + 5 * norm(b.w)), fs = std::max(fs, norm(b.f) + norm(b.m) / 5);
				for (auto& b : p.r)
					fs = std::max(fs, norm(b.f) + norm(b.m) / 5);
				for (auto& b : p.p)
					fs = std::max(fs, norm(b.f)), ms = std::max(ms, maxabs(b.M));
				double rt = 1e-8 * 100 + 10 * e0, vt = 1e-7 * vs + 10 * e0 / A.dtM,
				       ft = 1e-8 * (fs + EA) + 20 * EA / lmin * e0, mt = (1e-9 + 10 * e0 / lmin) * (ms + 1);
				auto same = [&](const std::string& what, V3 a, V3 b, double tol, const char* sig) {
					c.evals++;
					double d = norm(a - b);
					c.metric(sig, d / tol);
					if (!(d <= tol)) {
						c.fail(KIND[kind], "%sstep %zu: %s is (%.10g %.10g %.10g) and should be "
						       "(%.10g %.10g %.10g)", who, k, what.c_str(), b.x, b.y, b.z, a.x, a.y, a.z);
					}
				};
				for (size_t i = 0; i < s.bodies.size(); i++) {
					auto &a = p.b[i], &b = q.b[m.b[i]];
					std::string N = "body " + std::to_string(i + 1) + " ";
					same(N + "position", R * a.r + T, b.r, rt, "position");
					for (int u = 0; u < 3; u++) {
						V3 x{ double(u == 0), double(u == 1), double(u == 2) };
						same(N + "orientation", R * (a.R * x), b.R * x, 1e-8 + 10 * e0, "orientation");
					}
					same(N + "velocity", R * a.v, b.v, vt, "velocity");
					same(N + "angular velocity", R * a.w, b.w, vt, "velocity");
					same(N + "force", R * a.f, b.f, ft, "force");
					same(N + "moment", R * a.m, b.m, 5 * ft, "force");
				}
				for (size_t i = 0; i < s.rods.size(); i++) {
					auto &a = p.r[i], &b = q.r[m.r[i]];
					std::string N = "rod " + std::to_string(i + 1) + " ";
					for (size_t j = 0; j < a.r.size(); j++) {
						same(N + "node position", R * a.r[j] + T, b.r[j], rt, "position");
						same(N + "node velocity", R * a.v[j], b.v[j], vt, "velocity");
					}
					same(N + "force", R * a.f, b.f, ft, "force");
					same(N + "moment", R * a.m, b.m, 5 * ft, "force");
				}
				for (size_t i = 0; i < s.points.size(); i++) {
					auto &a = p.p[i], &b = q.p[m.p[i]];
					std::string N = "point " + std::to_string(i + 1) + " ";
					same(N + "position", R * a.r + T, b.r, rt, "position");
					same(N + "velocity", R * a.v, b.v, vt, "velocity");
					same(N + "force", R * a.f, b.f, ft, "force");
					if (!(maxabs(R * a.M * tr(R) - b.M) <= mt))
						c.fail(KIND[kind], "%sstep %zu: the mass of %sdiffers", who, k, N.c_str());
				}
				for (size_t i = 0; i < s.lines.size(); i++) {
					auto &a = p.l[i], &b = q.l[m.l[i]];
					size_t nn = a.r.size();
					for (size_t j = 0; j < nn; j++) {
						size_t h = kind == 4 && rev[i] ? nn - 1 - j : j;
						std::string N = "line " + std::to_string(i + 1) + " node " + std::to_string(j) + " ";
						same(N + "position", R * a.r[j] + T, b.r[h], rt, "position");
						same(N + "velocity", R * a.v[j], b.v[h], vt, "velocity");
						same(N + "force", R * a.f[j], b.f[h], ft, "force");
						if (!(maxabs(R * a.M[j] * tr(R) - b.M[h]) <= mt))
							c.fail(KIND[kind], "%sstep %zu: the mass of %sdiffers", who, k, N.c_str());
					}
					same("line " + std::to_string(i + 1) + " length", { a.len, 0, 0 }, { b.len, 0, 0 }, 1e-9 * 100,
					     "length");
				}
				// what the host gets
				auto got = [&](int from, int to, int len, const std::string& N) {
					if (k == 0 || from < 0)
						return;
					for (int j = 0; j < len; j += 3)
						same(N + " force for the host", R * p.host[(from + j) / 3], q.host[(to + j) / 3],
						     j ? 5 * ft : ft, "force");
				};
				for (size_t i = 0; i < s.bodies.size(); i++)
					got(ls.b[i], lb.b[m.b[i]], ls.nb[i], "body " + std::to_string(i + 1));
				for (size_t i = 0; i < s.rods.size(); i++)
					got(ls.r[i], lb.r[m.r[i]], ls.nr[i], "rod " + std::to_string(i + 1));
				for (size_t i = 0; i < s.points.size(); i++)
					got(ls.p[i], lb.p[m.p[i]], 3, "point " + std::to_string(i + 1));
			}
		};
		compare(ta, A, la, map, "");
		if (kind == 3)
			compare(tc, C, lc, mapc, "second half, ");
	}
	double moved = 0;
	for (size_t i = 0; i < ta.s[0].v.size(); i++)
		moved = std::max(moved, std::fabs(ta.s.back().v[i] - ta.s[0].v[i]));
	c.nontrivial(differs && moved > 1e-6);
}
