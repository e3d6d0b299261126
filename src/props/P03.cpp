// P03: damaged or foreign checkpoints are refused and leave the system alone
#include "model.hpp"
#include <csignal>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
const char* PROP_ID = "P03";
const char* PROP_RULE =
    "non-trivial: a fault (truncation, padding, header or payload corruption, a checkpoint of a "
    "different system, a missing file or a write failure) was injected in a system with at least "
    "one executed step, and at least two further steps were compared with the undisturbed run";
int PROP_CPU_LIMIT = 60;

static const std::vector<std::string> SCHEMES = { "rk2", "euler", "leuler", "heun", "rk4", "ab3",
	                                              "beuler2", "wilson2", "aca2", "anderson3" };

static void
compare(Ctx& c, const char* sig, const Snap& a, const Snap& b, const char* what, double tol)
{
	for (size_t i = 0; i < a.v.size(); i++) {
		c.evals++;
		double d = std::fabs(a.v[i] - b.v[i]);
		double s = std::max(1.0, std::max(std::fabs(a.v[i]), std::fabs(b.v[i])));
		if (!(d <= tol * s))
			c.fail(sig, "%s: %s is %.17g, expected %.17g", what, a.lab[i].c_str(), b.v[i], a.v[i]);
	}
}

static Sys
other_system(Gen& g, const Sys& y, std::string& how)
{
	Sys z = y;
	z.path = "other.txt";
	switch (g.range(0, 5)) {
		case 0: {
			int i = g.draw(z.lines.size());
			z.lines[i].n += g.range(1, 3);
			how = "one more segment";
			break;
		}
		case 1:
			z.lines.push_back(z.lines[0]);
			how = "one more line";
			break;
		case 2: {
			SPoint p;
			p.attach = "Fixed";
			p.r = { 3, 3, -5 };
			z.points.push_back(p);
			how = "one more point";
			break;
		}
		case 3: {
			// same amount of information, distributed differently
			SLine L = z.lines[0];
			z.lines.push_back(L);
			z.lines.back().n = z.lines[0].n + g.range(1, 4);
			how = "swapped";
			break;
		}
		case 4:
			z.scheme = y.scheme == "rk4" ? "euler" : "rk4";
			how = "another time scheme";
			break;
		default: {
			SBody b;
			b.type = "Fixed";
			b.r = { 1, 1, -5 };
			z.bodies.push_back(b);
			how = "one more body";
		}
	}
	return z;
}

void
run_case(Gen& g, Ctx& c)
{
	GenOpt o;
	o.maxlines = 3;
	o.maxseg = 5;
	Sys y = gen_sys(g, o);
	y.scheme = g.pick(SCHEMES);
	y.dtM = stable_dt(y, 0.05);
	double dt = y.dtM;
	int n1 = g.range(1, 3), n2 = g.range(2, 4);
	Motion m = gen_motion(g, y, 1.0, 0.3, 3.0);
	int kind = g.range(0, 8);
	static const char* names[] = { "truncated", "padded",   "magic",   "version",      "length",
		                           "foreign",   "bitflips", "missing", "write-failure" };
	Sys z;
	std::string how;
	if (kind == 5) {
		z = other_system(g, y, how);
		if (how == "swapped") {
			// the running system gets the mirrored definition
			SLine L = z.lines[0];
			y.lines.push_back(L);
			y.lines[0].n = z.lines.back().n;
			y.lines.back().n = z.lines[0].n;
		}
	}
	y.write();
	c.note("fault %s %s scheme %s n1 %d n2 %d\n%s", names[kind], how.c_str(), y.scheme.c_str(), n1,
	       n2, y.text().c_str());
	c.tag(std::string("fault:") + names[kind]);
	if (how.size())
		c.tag("foreign:" + how);

	std::vector<double> x, xd, f(m.d.size() + 64);
	auto init = [&](MD& s) {
		m.eval(0, x, xd);
		int e = MoorDyn_Init_NoIC(s.s, x.data(), xd.data());
		if (e)
			c.fail("init", "initialisation of a valid system failed with %d", e);
	};
	auto step = [&](MD& s, int k) {
		double t = k * dt;
		m.eval(t, x, xd);
		double h = dt;
		return MoorDyn_Step(s.s, x.data(), xd.data(), f.data(), &t, &h);
	};
	MD a(y.path);
	if (!a.s)
		c.fail("create", "a valid system was rejected");
	init(a);
	for (int k = 0; k < n1; k++)
		if (step(a, k))
			c.discard("unstable");
	if (MoorDyn_Save(a.s, "good.dat"))
		c.fail("save", "cannot save");
	std::vector<Snap> ref;
	ref.push_back(snap(a.s, y));
	for (int k = 0; k < n2; k++) {
		if (step(a, n1 + k))
			c.discard("unstable");
		ref.push_back(snap(a.s, y));
		if (!finite_all(ref.back()))
			c.discard("non-finite");
	}
	a.close();

	std::string good = get_file("good.dat"), bad = good;
	bool must_refuse = true;
	switch (kind) {
		case 0: {
			size_t n = g.coin() ? g.draw(std::min<size_t>(64, good.size())) : g.draw(good.size());
			bad.resize(n);
			// a partial copy whose header has been adjusted
			if (n >= 17 && g.coin()) {
				uint64_t len = (n - 17) / 8;
				bad.resize(17 + 8 * len);
				memcpy(&bad[9], &len, 8);
				if (bad == good)
					c.discard("not a change");
			}
			break;
		}
		case 1: {
			size_t n = 1 + g.draw(40);
			for (size_t i = 0; i < n; i++)
				bad += (char)g.draw(256);
			if (g.coin()) {
				uint64_t len = (bad.size() - 17) / 8;
				bad.resize(17 + 8 * len);
				memcpy(&bad[9], &len, 8);
				if (bad == good)
					c.discard("not a change");
			}
			break;
		}
		case 2:
			bad[g.draw(7)] ^= 1 + g.draw(255);
			break;
		case 3:
			bad[7] = g.draw(2);
			bad[8] = g.draw(256);
			break;
		case 4: {
			uint64_t len;
			memcpy(&len, &bad[9], 8);
			switch (g.range(0, 3)) {
				case 0:
					len += 1 + g.draw(5);
					break;
				case 1:
					len -= 1 + g.draw(std::min<uint64_t>(len, 20));
					break;
				case 2:
					len += (1 + g.draw(7)) << 61; // same number of bytes modulo 2^64
					break;
				default:
					len = g.draw(UINT64_MAX);
			}
			memcpy(&bad[9], &len, 8);
			if (bad == good)
				c.discard("not a change");
			break;
		}
		case 5: {
			z.write();
			MD b(z.path);
			if (!b.s)
				c.fail("create", "a valid system was rejected");
			init(b);
			for (int k = 0; k < n1; k++)
				if (step(b, k))
					c.discard("unstable");
			if (MoorDyn_Save(b.s, "other.dat"))
				c.fail("save", "cannot save");
			bad = get_file("other.dat");
			break;
		}
		case 6: {
			must_refuse = false;
			int n = g.range(1, 4);
			for (int i = 0; i < n; i++) {
				size_t w = 17 + 8 * g.draw((good.size() - 17) / 8);
				uint64_t v;
				memcpy(&v, &bad[w], 8);
				switch (g.range(0, 3)) {
					case 0:
						v ^= 1ull << g.draw(64);
						break;
					case 1:
						v = g.draw(100);
						break;
					case 2:
						v = g.draw(UINT64_MAX);
						break;
					default:
						v += 1;
				}
				memcpy(&bad[w], &v, 8);
			}
			break;
		}
		default:;
	}
	put_file("bad.dat", bad);

	MD b(y.path);
	init(b);
	for (int k = 0; k < n1; k++)
		step(b, k);
	if (kind == 8) {
		// the media fails after some bytes
		signal(SIGXFSZ, SIG_IGN);
		struct rlimit old, lim;
		getrlimit(RLIMIT_FSIZE, &old);
		lim = old;
		lim.rlim_cur = g.draw(good.size());
		setrlimit(RLIMIT_FSIZE, &lim);
		int e = MoorDyn_Save(b.s, "full.dat");
		setrlimit(RLIMIT_FSIZE, &old);
		c.evals++;
		if (!e)
			c.fail("save-unreported", "saving reported success, but just %llu of %zu bytes can be written",
			       (unsigned long long)lim.rlim_cur, good.size());
		e = MoorDyn_Save(b.s, "no/such/folder/file.dat");
		c.evals++;
		if (!e)
			c.fail("save-unreported", "saving in a missing folder reported success");
	} else {
		mkdir("folder", 0755);
		int e = MoorDyn_Load(b.s, kind != 7     ? "bad.dat"
		                          : g.coin() ? "no_such_file.dat"
		                                     : "folder");
		c.evals++;
		if (!e && must_refuse)
			c.fail("accepted", "a %s checkpoint %s was accepted", names[kind], how.c_str());
		if (!e) {
			// just the payload changed: anything but a memory error is fine
			for (int k = 0; k < n2; k++)
				step(b, n1 + k);
			c.tag("bitflips:accepted");
			if (MoorDyn_Load(b.s, "good.dat"))
				c.fail("reload", "the original checkpoint is refused afterwards");
		}
	}
	compare(c, "disturbed", ref[0], snap(b.s, y), "state right after the failure", 1e-9);
	for (int k = 0; k < n2; k++) {
		if (step(b, n1 + k))
			c.fail("disturbed", "the simulation cannot continue after the failure");
		compare(c, "disturbed", ref[k + 1], snap(b.s, y), "continuation after the failure", 1e-9);
	}
	c.nontrivial();
}
