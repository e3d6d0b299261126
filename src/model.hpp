// Structured model of a MoorDyn system, its rendering as an input file and
// thin wrappers of the public C API.
#pragma once
#include "MoorDyn2.h"
#include "engine.hpp"
#include "vec.hpp"
#include <fstream>

inline std::string
num(double v)
{
	char b[64];
	// shortest representation that round-trips
	for (int p = 6; p <= 17; p++) {
		snprintf(b, sizeof b, "%.*g", p, v);
		if (strtod(b, 0) == v)
			break;
	}
	return b;
}

struct Curve
{
	std::vector<double> x, y;
};

struct LType
{
	std::string name;
	double d = 0.1, w = 50, EA = 1e6, BA = -0.5, EI = 0, Cd = 1.2, Ca = 1.0, CdAx = 0.1,
	       CaAx = 0.0;
	Curve ea; // tabulated stress-strain if not empty
	Curve ei, ba;
	double A() const { return M_PI / 4 * d * d; }
	double EA0() const { return ea.x.empty() ? EA : ea.y.back() / ea.x.back(); }
};
struct RType
{
	std::string name;
	double d = 0.5, w = 200, Cd = 1, Ca = 1, CdEnd = 0.8, CaEnd = 0.6;
};
struct SBody
{
	std::string type; // Fixed, Coupled, CoupledPinned, Free
	V3 r, ang;        // degrees
	double m = 1000, v = 1;
	V3 cg, I{ 1000, 1000, 1000 };
	double cda[6] = { 1, 1, 1, 10, 10, 10 };
	V3 ca{ 1, 1, 1 };
	int ncda = 6; // how CdA is written: 1, 2, 3 or 6 values
	std::string out = "";
};
struct SRod
{
	int type = 0;
	std::string attach; // Fixed, Pinned, Coupled, CoupledPinned, Free, Body1, Body1Pinned
	V3 a, b;            // body-relative if attached to a body
	int n = 4;
	std::string out = "-";
};
struct SPoint
{
	std::string attach; // Fixed, Coupled, Free, Body1
	V3 r;
	double m = 0, v = 0, cda = 0, ca = 0;
};
struct SEnd
{
	bool rod = false;
	int id = 1;
	bool endB = false;
	std::string str() const
	{
		return rod ? "R" + std::to_string(id) + (endB ? "B" : "A") : std::to_string(id);
	}
};
struct SLine
{
	int type = 0;
	SEnd a, b;
	double len = 10;
	int n = 4;
	std::string out = "-";
};

struct Sys
{
	std::vector<LType> lt;
	std::vector<RType> rt;
	std::vector<SBody> bodies;
	std::vector<SRod> rods;
	std::vector<SPoint> points;
	std::vector<SLine> lines;
	std::vector<std::pair<std::string, std::string>> opts; // key, value
	std::vector<std::string> outs;
	std::map<std::string, std::string> files; // extra files, relative path
	// environment, always written explicitly
	double g = 9.81, rho = 1025, depth = 100, kb = 3e6, cb = 3e5, fric = 0, fricdamp = 200,
	       statdyn = 1;
	double dtM = 1e-3;
	std::string scheme = "rk2";
	double tmaxic = 0;
	std::string path = "sys.txt";

	std::string text() const;
	void write() const;
	unsigned dofs() const;
};

inline std::string
Sys::text() const
{
	std::string o;
	o += "--------------------- MoorDyn Input File ----------------------\n"
	     "generated\n";
	o += "---------------------- LINE TYPES -----------------------------\n"
	     "TypeName Diam Mass/m EA BA/-zeta EI Cd Ca CdAx CaAx\n"
	     "(name) (m) (kg/m) (N) (N-s/-) (N-m^2) (-) (-) (-) (-)\n";
	for (size_t i = 0; i < lt.size(); i++) {
		auto& t = lt[i];
		o += t.name + " " + num(t.d) + " " + num(t.w) + " " +
		     (t.ea.x.empty() ? num(t.EA) : "ea_" + t.name + ".dat") + " " +
		     (t.ba.x.empty() ? num(t.BA) : "ba_" + t.name + ".dat") + " " +
		     (t.ei.x.empty() ? num(t.EI) : "ei_" + t.name + ".dat") + " " + num(t.Cd) + " " +
		     num(t.Ca) + " " + num(t.CdAx) + " " + num(t.CaAx) + "\n";
	}
	if (rt.size()) {
		o += "---------------------- ROD TYPES ------------------------------\n"
		     "TypeName Diam Mass/m Cd Ca CdEnd CaEnd\n"
		     "(name) (m) (kg/m) (-) (-) (-) (-)\n";
		for (auto& t : rt)
			o += t.name + " " + num(t.d) + " " + num(t.w) + " " + num(t.Cd) + " " + num(t.Ca) +
			     " " + num(t.CdEnd) + " " + num(t.CaEnd) + "\n";
	}
	auto v3 = [](V3 v, const char* s) { return num(v.x) + s + num(v.y) + s + num(v.z); };
	if (bodies.size()) {
		o += "---------------------- BODIES ---------------------------------\n"
		     "ID Attachment X0 Y0 Z0 r0 p0 y0 Mass CG* I* Volume CdA* Ca*\n"
		     "(#) (word) (m) (m) (m) (deg) (deg) (deg) (kg) (m) (kg-m^2) (m^3) (m^2) (-)\n";
		int id = 1;
		for (auto& b : bodies) {
			std::string cda;
			int n = b.ncda;
			if (n == 1)
				cda = num(b.cda[0]);
			else if (n == 2)
				cda = num(b.cda[0]) + "|" + num(b.cda[3]);
			else
				for (int i = 0; i < n; i++)
					cda += (i ? "|" : "") + num(b.cda[i]);
			o += std::to_string(id++) + " " + b.type + " " + v3(b.r, " ") + " " +
			     v3(b.ang, " ") + " " + num(b.m) + " " + v3(b.cg, "|") + " " + v3(b.I, "|") +
			     " " + num(b.v) + " " + cda + " " + v3(b.ca, "|") +
			     (b.out.empty() ? "" : " " + b.out) + "\n";
		}
	}
	if (rods.size()) {
		o += "---------------------- RODS -----------------------------------\n"
		     "ID RodType Attachment Xa Ya Za Xb Yb Zb NumSegs RodOutputs\n"
		     "(#) (name) (word/ID) (m) (m) (m) (m) (m) (m) (-) (-)\n";
		int id = 1;
		for (auto& r : rods)
			o += std::to_string(id++) + " " + rt[r.type].name + " " + r.attach + " " +
			     v3(r.a, " ") + " " + v3(r.b, " ") + " " + std::to_string(r.n) + " " + r.out +
			     "\n";
	}
	if (points.size()) {
		o += "---------------------- POINTS ---------------------------------\n"
		     "ID Attachment X Y Z Mass Volume CdA Ca\n"
		     "(#) (word/ID) (m) (m) (m) (kg) (m^3) (m^2) (-)\n";
		int id = 1;
		for (auto& p : points)
			o += std::to_string(id++) + " " + p.attach + " " + v3(p.r, " ") + " " + num(p.m) +
			     " " + num(p.v) + " " + num(p.cda) + " " + num(p.ca) + "\n";
	}
	o += "---------------------- LINES ----------------------------------\n"
	     "ID LineType AttachA AttachB UnstrLen NumSegs LineOutputs\n"
	     "(#) (name) (ID) (ID) (m) (-) (-)\n";
	{
		int id = 1;
		for (auto& l : lines)
			o += std::to_string(id++) + " " + lt[l.type].name + " " + l.a.str() + " " +
			     l.b.str() + " " + num(l.len) + " " + std::to_string(l.n) + " " + l.out + "\n";
	}
	o += "---------------------- OPTIONS --------------------------------\n";
	o += "0 writeLog\n";
	if (dtM > 0)
		o += num(dtM) + " dtM\n";
	o += scheme + " tScheme\n";
	o += num(g) + " g\n" + num(rho) + " WtrDnsty\n" + num(depth) + " WtrDpth\n" + num(kb) +
	     " kBot\n" + num(cb) + " cBot\n" + num(fric) + " FrictionCoefficient\n" +
	     num(fricdamp) + " FricDamp\n" + num(statdyn) + " StatDynFricScale\n" + num(tmaxic) +
	     " TmaxIC\n";
	for (auto& p : opts)
		o += p.second + " " + p.first + "\n";
	if (outs.size()) {
		o += "---------------------- OUTPUTS --------------------------------\n";
		for (auto& s : outs)
			o += s + "\n";
	}
	o += "--------------------- need this line --------------------------\n";
	return o;
}

inline void
put_file(const std::string& p, const std::string& s)
{
	FILE* f = fopen(p.c_str(), "wb");
	if (!f)
		throw std::runtime_error("cannot write " + p);
	fwrite(s.data(), 1, s.size(), f);
	fclose(f);
}
inline std::string
get_file(const std::string& p)
{
	std::ifstream f(p, std::ios::binary);
	std::stringstream s;
	s << f.rdbuf();
	return s.str();
}

inline void
Sys::write() const
{
	put_file(path, text());
	std::string dir;
	size_t p = path.rfind('/');
	if (p != std::string::npos)
		dir = path.substr(0, p + 1);
	for (auto& t : lt) {
		auto wr = [&](const char* k, const Curve& c) {
			if (c.x.empty())
				return;
			std::string o = "----curve----\nStrain Tension\n(-) (N)\n";
			for (size_t i = 0; i < c.x.size(); i++)
				o += num(c.x[i]) + " " + num(c.y[i]) + "\n";
			put_file(dir + k + t.name + ".dat", o);
		};
		wr("ea_", t.ea);
		wr("ba_", t.ba);
		wr("ei_", t.ei);
	}
	for (auto& f : files)
		put_file(dir + f.first, f.second);
}

inline unsigned
Sys::dofs() const
{
	unsigned n = 0;
	for (auto& b : bodies)
		n += b.type == "Coupled" ? 6 : b.type == "CoupledPinned" ? 3 : 0;
	for (auto& r : rods)
		n += r.attach == "Coupled" ? 6 : r.attach == "CoupledPinned" ? 3 : 0;
	for (auto& p : points)
		n += p.attach == "Coupled" ? 3 : 0;
	return n;
}

// ---------------------------------------------------------------- API
struct MD
{
	MoorDyn s = nullptr;
	MD() = default;
	explicit MD(const std::string& path, bool quiet = true)
	{
		s = MoorDyn_Create(path.c_str());
		if (s && quiet)
			MoorDyn_SetVerbosity(s, MOORDYN_NO_OUTPUT);
	}
	MD(const MD&) = delete;
	MD& operator=(const MD&) = delete;
	~MD()
	{
		if (s)
			MoorDyn_Close(s);
	}
	void close()
	{
		if (s)
			MoorDyn_Close(s);
		s = nullptr;
	}
	unsigned dof()
	{
		unsigned n = 0;
		MoorDyn_NCoupledDOF(s, &n);
		return n;
	}
};
inline V3 lpos(MoorDyn s, int l, int n)
{
	double v[3];
	MoorDyn_GetLineNodePos(MoorDyn_GetLine(s, l), n, v);
	return { v[0], v[1], v[2] };
}
#define LGET(fn, api)                                                          \
	inline V3 fn(MoorDyn s, int l, int n)                                      \
	{                                                                          \
		double v[3] = { NAN, NAN, NAN };                                       \
		api(MoorDyn_GetLine(s, l), n, v);                                      \
		return { v[0], v[1], v[2] };                                           \
	}
LGET(lvel, MoorDyn_GetLineNodeVel)
LGET(lforce, MoorDyn_GetLineNodeForce)
LGET(lten, MoorDyn_GetLineNodeTen)
LGET(lbend, MoorDyn_GetLineNodeBendStiff)
LGET(lweight, MoorDyn_GetLineNodeWeight)
LGET(ldrag, MoorDyn_GetLineNodeDrag)
LGET(lfk, MoorDyn_GetLineNodeFroudeKrilov)
LGET(lseabed, MoorDyn_GetLineNodeSeabedForce)
inline M3 lmass(MoorDyn s, int l, int n)
{
	double m[3][3];
	M3 r;
	MoorDyn_GetLineNodeM(MoorDyn_GetLine(s, l), n, m);
	for (int i = 0; i < 3; i++)
		for (int j = 0; j < 3; j++)
			r[i][j] = m[i][j];
	return r;
}
inline double lcurv(MoorDyn s, int l, int n)
{
	double v = NAN;
	MoorDyn_GetLineNodeCurv(MoorDyn_GetLine(s, l), n, &v);
	return v;
}
inline V3 ppos(MoorDyn s, int p)
{
	double v[3];
	MoorDyn_GetPointPos(MoorDyn_GetPoint(s, p), v);
	return { v[0], v[1], v[2] };
}
inline V3 pvel(MoorDyn s, int p)
{
	double v[3];
	MoorDyn_GetPointVel(MoorDyn_GetPoint(s, p), v);
	return { v[0], v[1], v[2] };
}
inline V3 pforce(MoorDyn s, int p)
{
	double v[3];
	MoorDyn_GetPointForce(MoorDyn_GetPoint(s, p), v);
	return { v[0], v[1], v[2] };
}
inline V3 rpos(MoorDyn s, int p, int n)
{
	double v[3];
	MoorDyn_GetRodNodePos(MoorDyn_GetRod(s, p), n, v);
	return { v[0], v[1], v[2] };
}
inline V3 rvel(MoorDyn s, int p, int n)
{
	double v[3];
	MoorDyn_GetRodNodeVel(MoorDyn_GetRod(s, p), n, v);
	return { v[0], v[1], v[2] };
}

// Everything observable through the API, with a label per value
struct Snap
{
	std::vector<double> v;
	std::vector<std::string> lab;
	void add(const std::string& l, double x)
	{
		v.push_back(x);
		lab.push_back(l);
	}
	void add(const std::string& l, V3 x)
	{
		add(l + ".x", x.x);
		add(l + ".y", x.y);
		add(l + ".z", x.z);
	}
};
enum
{
	SNAP_KIN = 1,
	SNAP_DYN = 2,
	SNAP_ALL = 3
};
inline Snap
snap(MoorDyn s, const Sys& y, int what = SNAP_ALL)
{
	Snap o;
	for (size_t i = 1; i <= y.bodies.size(); i++) {
		double r[6], rd[6], f[6], m[6][6];
		std::string L = "body" + std::to_string(i);
		MoorDynBody b = MoorDyn_GetBody(s, i);
		MoorDyn_GetBodyState(b, r, rd);
		if (what & SNAP_KIN)
			for (int k = 0; k < 6; k++) {
				o.add(L + ".r" + std::to_string(k), r[k]);
				o.add(L + ".v" + std::to_string(k), rd[k]);
			}
		if (what & SNAP_DYN) {
			MoorDyn_GetBodyForce(b, f);
			MoorDyn_GetBodyM(b, m);
			for (int k = 0; k < 6; k++)
				o.add(L + ".f" + std::to_string(k), f[k]);
			for (int k = 0; k < 36; k++)
				o.add(L + ".M" + std::to_string(k), m[k / 6][k % 6]);
		}
	}
	for (size_t i = 1; i <= y.rods.size(); i++) {
		double f[6], m[6][6];
		std::string L = "rod" + std::to_string(i);
		MoorDynRod b = MoorDyn_GetRod(s, i);
		unsigned n = 0;
		MoorDyn_GetRodN(b, &n);
		if (what & SNAP_KIN)
			for (unsigned k = 0; k <= n; k++) {
				o.add(L + ".pos" + std::to_string(k), rpos(s, i, k));
				o.add(L + ".vel" + std::to_string(k), rvel(s, i, k));
			}
		if (what & SNAP_DYN) {
			MoorDyn_GetRodForce(b, f);
			MoorDyn_GetRodM(b, m);
			for (int k = 0; k < 6; k++)
				o.add(L + ".f" + std::to_string(k), f[k]);
			for (int k = 0; k < 36; k++)
				o.add(L + ".M" + std::to_string(k), m[k / 6][k % 6]);
		}
	}
	for (size_t i = 1; i <= y.points.size(); i++) {
		std::string L = "point" + std::to_string(i);
		if (what & SNAP_KIN) {
			o.add(L + ".pos", ppos(s, i));
			o.add(L + ".vel", pvel(s, i));
		}
		if (what & SNAP_DYN) {
			double m[3][3];
			o.add(L + ".f", pforce(s, i));
			MoorDyn_GetPointM(MoorDyn_GetPoint(s, i), m);
			for (int k = 0; k < 9; k++)
				o.add(L + ".M" + std::to_string(k), m[k / 3][k % 3]);
		}
	}
	for (size_t i = 1; i <= y.lines.size(); i++) {
		std::string L = "line" + std::to_string(i);
		MoorDynLine l = MoorDyn_GetLine(s, i);
		unsigned n = 0;
		MoorDyn_GetLineN(l, &n);
		if (what & SNAP_KIN) {
			double ul;
			MoorDyn_GetLineUnstretchedLength(l, &ul);
			o.add(L + ".unstretched", ul);
		}
		for (unsigned k = 0; k <= n; k++) {
			std::string K = L + ".node" + std::to_string(k);
			if (what & SNAP_KIN) {
				o.add(K + ".pos", lpos(s, i, k));
				o.add(K + ".vel", lvel(s, i, k));
			}
			if (what & SNAP_DYN) {
				o.add(K + ".force", lforce(s, i, k));
				o.add(K + ".ten", lten(s, i, k));
				o.add(K + ".weight", lweight(s, i, k));
				o.add(K + ".drag", ldrag(s, i, k));
				o.add(K + ".fk", lfk(s, i, k));
				o.add(K + ".seabed", lseabed(s, i, k));
				o.add(K + ".bend", lbend(s, i, k));
				o.add(K + ".curv", lcurv(s, i, k));
				M3 m = lmass(s, i, k);
				for (int q = 0; q < 9; q++)
					o.add(K + ".M" + std::to_string(q), m[q / 3][q % 3]);
			}
		}
	}
	return o;
}

inline bool
finite_all(const Snap& a)
{
	for (double x : a.v)
		if (!std::isfinite(x))
			return false;
	return true;
}

// --------------------------------------------------------- coupled motion
// Smooth prescribed motion for every coupled DOF: x(t), and its derivative
struct Motion
{
	struct D
	{
		double x0, v, a, w, ph;
	};
	std::vector<D> d;
	void eval(double t, std::vector<double>& x, std::vector<double>& xd) const
	{
		x.resize(d.size() + 1);
		xd.resize(d.size() + 1);
		for (size_t i = 0; i < d.size(); i++) {
			x[i] = d[i].x0 + d[i].v * t + d[i].a * (sin(d[i].w * t + d[i].ph) - sin(d[i].ph));
			xd[i] = d[i].v + d[i].a * d[i].w * cos(d[i].w * t + d[i].ph);
		}
	}
};
// initial coupled coordinates in the documented order: bodies, rods, points
std::vector<double>
coupled_x0(const Sys& y);
inline std::vector<bool>
coupled_is_angle(const Sys& y)
{
	std::vector<bool> v;
	for (auto& b : y.bodies)
		if (b.type == "Coupled")
			for (int i = 0; i < 6; i++)
				v.push_back(i >= 3);
		else if (b.type == "CoupledPinned")
			v.insert(v.end(), 3, false);
	for (auto& b : y.rods)
		if (b.attach == "Coupled")
			for (int i = 0; i < 6; i++)
				v.push_back(i >= 3);
		else if (b.attach == "CoupledPinned")
			v.insert(v.end(), 3, false);
	for (auto& b : y.points)
		if (b.attach == "Coupled")
			v.insert(v.end(), 3, false);
	return v;
}

// ------------------------------------------------------------- generator
struct GenOpt
{
	int maxlines = 4;
	int maxseg = 8;
	bool bodies = true, rods = true, freepts = true, freebodies = true, freerods = true,
	     coupled = true, pinned = true, curves = true, bending = true, seabed = true,
	     surface = true, friction = true, zerorods = false, damp_curves = false;
	double softness = 1.0; // multiplies EA
};
Sys
gen_sys(Gen& g, const GenOpt& o = GenOpt());
// a time step that keeps explicit schemes stable with some margin
double
stable_dt(const Sys& y, double safety = 0.15);
Motion
gen_motion(Gen& g, const Sys& y, double amp, double angamp, double wmax);
// global position of an attachment end at the reference configuration
V3
end_pos(const Sys& y, const SEnd& e);
V3
rod_dir(const Sys& y, int rod);
