#include <sys/time.h>
#include "engine.hpp"
#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

using std::string;
using std::vector;

static const size_t MAXC = 1 << 16;
struct Shared
{
	int status; // 0 running, 1 ok, 2 fail, 3 discard
	int nontrivial;
	uint64_t evals;
	uint64_t nch;
	char sig[256];
	char msg[4096];
	char tags[4096];
	char metrics[4096];
	char render[1 << 17];
	uint64_t ch[MAXC];
};
static Shared* sh;
static string g_scratch;
static bool g_thorough = false;
static bool g_verbose = false;

static double
now()
{
	struct timespec t;
	clock_gettime(CLOCK_MONOTONIC, &t);
	return t.tv_sec + 1e-9 * t.tv_nsec;
}

static void
wipe(const string& d)
{
	DIR* p = opendir(d.c_str());
	if (!p)
		return;
	while (struct dirent* e = readdir(p)) {
		string n = e->d_name;
		if (n == "." || n == "..")
			continue;
		string f = d + "/" + n;
		struct stat st;
		if (lstat(f.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) {
			wipe(f);
			rmdir(f.c_str());
		} else
			unlink(f.c_str());
	}
	closedir(p);
}

static string
slurp(const string& f, size_t maxn)
{
	string s;
	FILE* p = fopen(f.c_str(), "rb");
	if (!p)
		return s;
	char b[4096];
	size_t n;
	while ((n = fread(b, 1, sizeof b, p)) > 0 && s.size() < maxn)
		s.append(b, n);
	fclose(p);
	return s;
}

struct Outcome
{
	int status = 0; // 1 ok, 2 fail, 3 discard
	bool nontrivial = false;
	uint64_t evals = 0;
	vector<uint64_t> ch;
	string sig, msg, render, tags, metrics;
};

static void
cp(char* d, size_t n, const string& s)
{
	size_t k = s.size() < n - 1 ? s.size() : n - 1;
	memcpy(d, s.data(), k);
	d[k] = 0;
}

void
soft_cpu_limit(double seconds)
{
	signal(SIGVTALRM, +[](int) {
		strcpy(sh->msg, "more work than the budget of a case");
		sh->status = 3;
		_exit(0);
	});
	struct itimerval v = {};
	v.it_value.tv_sec = (long)seconds;
	v.it_value.tv_usec = (long)((seconds - (long)seconds) * 1e6);
	setitimer(ITIMER_VIRTUAL, &v, NULL);
}

extern "C" const char*
__asan_default_options()
{
	return "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_"
	       "null=1:max_allocation_size_mb=2048:detect_stack_use_after_return=0:handle_abort=0";
}
extern "C" const char*
__ubsan_default_options()
{
	return "halt_on_error=1:print_stacktrace=1:exitcode=77";
}

static Outcome
execute(const vector<uint64_t>* forced, uint64_t seed, uint64_t index)
{
	string dir = g_scratch + "/case";
	wipe(dir);
	mkdir(dir.c_str(), 0755);
	string errf = g_scratch + "/stderr";
	sh->status = 0;
	sh->nontrivial = 0;
	sh->evals = 0;
	sh->nch = 0;
	sh->sig[0] = sh->msg[0] = sh->tags[0] = sh->render[0] = sh->metrics[0] = 0;
	fflush(stdout);
	pid_t pid = fork();
	if (pid < 0) {
		perror("fork");
		exit(3);
	}
	if (pid == 0) {
		struct rlimit rl;
		rl.rlim_cur = PROP_CPU_LIMIT;
		rl.rlim_max = PROP_CPU_LIMIT + 5;
		setrlimit(RLIMIT_CPU, &rl);
		rl.rlim_cur = rl.rlim_max = 0;
		setrlimit(RLIMIT_CORE, &rl);
		rl.rlim_cur = rl.rlim_max = 1ull << 30;
		setrlimit(RLIMIT_FSIZE, &rl);
		if (chdir(dir.c_str()))
			_exit(4);
		int e = open(errf.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
		int n = open("/dev/null", O_RDWR);
		dup2(n, 0);
		if (!g_verbose) {
			dup2(n, 1);
			dup2(e, 2);
		}
		Gen g;
		Ctx c;
		c.scratch = dir;
		c.thorough = g_thorough;
		c.case_index = index;
		if (forced) {
			g.replay = true;
			g.forced = *forced;
		} else
			g.s = seed;
		// the render and the choices must survive a crash: the property keeps
		// them up to date through c.render / g.used, copied by the crash
		// handler below
		static Gen* pg;
		static Ctx* pc;
		pg = &g;
		pc = &c;
		auto publish = [] {
			sh->nch = pg->used.size() < MAXC ? pg->used.size() : MAXC;
			memcpy(sh->ch, pg->used.data(), sh->nch * sizeof(uint64_t));
			cp(sh->render, sizeof sh->render, pc->render);
			sh->evals = pc->evals;
			sh->nontrivial = pc->is_nontrivial;
			string t;
			for (auto& x : pc->tags)
				t += x + "\n";
			cp(sh->tags, sizeof sh->tags, t);
			t.clear();
			for (auto& x : pc->maxima) {
				char b[256];
				snprintf(b, sizeof b, "%s %.6g\n", x.first.c_str(), x.second);
				t += b;
			}
			cp(sh->metrics, sizeof sh->metrics, t);
		};
		static void (*pub)() = +publish;
		auto handler = +[](int s) {
			pub();
			signal(s, SIG_DFL);
			raise(s);
		};
		for (int s : { SIGXCPU, SIGABRT, SIGTERM, SIGFPE, SIGILL })
			signal(s, handler);
#if !defined(__SANITIZE_ADDRESS__) && !defined(VH_ASAN)
		signal(SIGSEGV, handler);
		signal(SIGBUS, handler);
#else
		extern void vh_set_death(void (*)());
		vh_set_death(pub);
#endif
		int status;
		try {
			run_case(g, c);
			status = 1;
		} catch (Failure& f) {
			status = 2;
			cp(sh->sig, sizeof sh->sig, f.sig);
			cp(sh->msg, sizeof sh->msg, f.msg);
		} catch (Discard& d) {
			status = 3;
			cp(sh->msg, sizeof sh->msg, d.why);
		} catch (std::exception& x) {
			status = 2;
			cp(sh->sig, sizeof sh->sig, "exception");
			cp(sh->msg, sizeof sh->msg, string("uncaught exception: ") + x.what());
		} catch (const char* x) {
			status = 2;
			cp(sh->sig, sizeof sh->sig, "exception");
			cp(sh->msg, sizeof sh->msg, string("uncaught exception: ") + x);
		}
		publish();
		sh->status = status;
		_exit(0);
	}
	int st = 0;
	while (waitpid(pid, &st, 0) < 0)
		;
	Outcome o;
	o.status = sh->status;
	o.nontrivial = sh->nontrivial;
	o.evals = sh->evals;
	o.ch.assign(sh->ch, sh->ch + sh->nch);
	o.sig = sh->sig;
	o.msg = sh->msg;
	o.render = sh->render;
	o.tags = sh->tags;
	o.metrics = sh->metrics;
	if (o.status == 0) {
		o.status = 2;
		string err = slurp(errf, 200000), sum;
		size_t p = err.find("runtime error:");
		size_t q = err.find("SUMMARY:");
		if (p != string::npos)
			sum = err.substr(p, err.find('\n', p) - p);
		else if (q != string::npos)
			sum = err.substr(q, err.find('\n', q) - q);
		if (WIFSIGNALED(st)) {
			int s = WTERMSIG(st);
			if (s == SIGXCPU || s == SIGKILL) {
				o.sig = "hang";
				o.msg = "the case used more CPU time than the limit (hang)";
				if (s == SIGKILL) {
					o.status = 3;
					o.msg = "killed";
				}
			} else {
				o.sig = string("crash:") + strsignal(s);
				o.msg = string("crashed with signal ") + strsignal(s);
			}
		} else {
			o.sig = "abnormal-exit";
			char b[64];
			snprintf(b, sizeof b, "process exited abnormally (code %d)", WEXITSTATUS(st));
			o.msg = b;
		}
		if (!sum.empty()) {
			o.msg += ": " + sum;
			o.sig = "sanitizer";
			// the library would get std::bad_alloc
			if (sum.find("out-of-memory") != string::npos ||
			    sum.find("allocation-size-too-big") != string::npos) {
				o.status = 3;
				o.msg = "asked for more memory than the budget of a case";
				return o;
			}
		}
		if (o.msg.size() < 3000 && !err.empty()) {
			size_t f = err.find("    #0");
			if (f != string::npos)
				o.msg += "\n" + err.substr(f, 900);
			else if (sum.empty()) {
				while (!err.empty() && err.back() == '\n')
					err.pop_back();
				size_t l = err.size() > 400 ? err.size() - 400 : 0;
				o.msg += "; last words: " + err.substr(l);
			}
		}
	}
	return o;
}

// true if a is simpler than b
static bool
simpler(const vector<uint64_t>& a, const vector<uint64_t>& b)
{
	if (a.size() != b.size())
		return a.size() < b.size();
	return a < b;
}

static Outcome
shrink(Outcome best, double budget, int maxruns)
{
	double t0 = now();
	int runs = 0;
	auto attempt = [&](const vector<uint64_t>& c) {
		if (now() - t0 > budget || runs >= maxruns)
			return false;
		runs++;
		Outcome o = execute(&c, 0, 0);
		if (o.status == 2 && o.sig == best.sig && simpler(o.ch, best.ch)) {
			best = o;
			return true;
		}
		return false;
	};
	bool progress = true;
	while (progress && now() - t0 < budget && runs < maxruns) {
		progress = false;
		// delete blocks
		for (size_t k = best.ch.size() / 2; k >= 1; k /= 2) {
			for (size_t i = 0; i + k <= best.ch.size();) {
				vector<uint64_t> c = best.ch;
				c.erase(c.begin() + i, c.begin() + i + k);
				if (attempt(c))
					progress = true;
				else
					i += k;
				if (now() - t0 > budget || runs >= maxruns)
					break;
			}
			if (now() - t0 > budget || runs >= maxruns)
				break;
		}
		// zero blocks
		for (size_t k = 16; k >= 1; k /= 2)
			for (size_t i = 0; i + k <= best.ch.size(); i += k) {
				vector<uint64_t> c = best.ch;
				bool any = false;
				for (size_t j = i; j < i + k; j++) {
					any |= c[j] != 0;
					c[j] = 0;
				}
				if (any && attempt(c))
					progress = true;
				if (now() - t0 > budget || runs >= maxruns)
					break;
			}
		// reduce individual values
		for (size_t i = 0; i < best.ch.size(); i++) {
			if (now() - t0 > budget || runs >= maxruns)
				break;
			uint64_t lo = 0;
			while (i < best.ch.size() && lo < best.ch[i]) {
				uint64_t mid = lo + (best.ch[i] - lo) / 2;
				vector<uint64_t> c = best.ch;
				c[i] = mid;
				if (attempt(c))
					progress = true;
				else
					lo = mid + 1;
				if (now() - t0 > budget || runs >= maxruns)
					break;
			}
		}
	}
	return best;
}

static string
jstr(const string& s)
{
	string o = "\"";
	for (unsigned char ch : s) {
		if (ch == '"' || ch == '\\') {
			o += '\\';
			o += ch;
		} else if (ch == '\n')
			o += "\\n";
		else if (ch < 32 || ch > 126) {
			char b[8];
			snprintf(b, sizeof b, "\\u%04x", ch);
			o += b;
		} else
			o += ch;
	}
	return o + "\"";
}

static string
jch(const vector<uint64_t>& c)
{
	string o = "[";
	for (size_t i = 0; i < c.size(); i++)
		o += (i ? "," : "") + std::to_string(c[i]);
	return o + "]";
}

static uint64_t
hashc(const vector<uint64_t>& c)
{
	uint64_t h = 1469598103934665603ull;
	for (uint64_t v : c)
		for (int i = 0; i < 8; i++) {
			h ^= (v >> (8 * i)) & 255;
			h *= 1099511628211ull;
		}
	return h;
}

#if defined(VH_ASAN)
static void (*g_death)() = nullptr;
extern "C" void
__sanitizer_set_death_callback(void (*)(void));
static void
vh_death()
{
	if (g_death)
		g_death();
}
void
vh_set_death(void (*f)())
{
	g_death = f;
	__sanitizer_set_death_callback(vh_death);
}
#endif

int
main(int argc, char** argv)
{
	uint64_t seed = 1, worker = 0, cases = 100;
	double budget = 1e9;
	string out, replay, known;
	for (int i = 1; i < argc; i++) {
		string a = argv[i];
		auto val = [&] { return string(i + 1 < argc ? argv[++i] : ""); };
		if (a == "--seed")
			seed = strtoull(val().c_str(), 0, 10);
		else if (a == "--worker")
			worker = strtoull(val().c_str(), 0, 10);
		else if (a == "--cases")
			cases = strtoull(val().c_str(), 0, 10);
		else if (a == "--budget")
			budget = atof(val().c_str());
		else if (a == "--out")
			out = val();
		else if (a == "--scratch")
			g_scratch = val();
		else if (a == "--thorough")
			g_thorough = true;
		else if (a == "--replay")
			replay = val();
		else if (a == "--known")
			known = val();
		else if (a == "--verbose")
			g_verbose = true;
		else if (a == "--rule") {
			puts(PROP_RULE);
			return 0;
		}
	}
	if (g_scratch.empty()) {
		char t[] = "/tmp/vhXXXXXX";
		g_scratch = mkdtemp(t);
	}
	mkdir(g_scratch.c_str(), 0755);
	sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE,
	                   MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	std::set<string> knownsigs;
	{
		std::stringstream ss(known);
		string k;
		while (std::getline(ss, k, ','))
			knownsigs.insert(k);
	}
	if (!replay.empty()) {
		string s = slurp(replay, 1 << 26);
		size_t p = s.find("\"choices\"");
		if (p == string::npos) {
			fprintf(stderr, "no choices in %s\n", replay.c_str());
			return 3;
		}
		p = s.find('[', p);
		size_t q = s.find(']', p);
		vector<uint64_t> c;
		const char* x = s.c_str() + p + 1;
		while (x < s.c_str() + q) {
			char* e;
			uint64_t v = strtoull(x, &e, 10);
			if (e == x)
				break;
			c.push_back(v);
			x = e;
			while (*x == ',' || *x == ' ' || *x == '\n')
				x++;
		}
		Outcome o = execute(&c, 0, 0);
		printf("status %d (1 ok, 2 fail, 3 discard) nontrivial %d evals %llu\n", o.status,
		       o.nontrivial, (unsigned long long)o.evals);
		printf("sig: %s\nmsg: %s\n%s\nmetrics:\n%s\ntags:\n%s", o.sig.c_str(),
		       o.msg.c_str(), o.render.c_str(), o.metrics.c_str(), o.tags.c_str());
		return o.status == 2 ? 1 : 0;
	}
	double t0 = now();
	uint64_t n = 0, ok = 0, disc = 0, nt = 0, evals = 0;
	std::map<string, uint64_t> tags, discards, knownhits;
	std::map<string, double> metrics;
	vector<uint64_t> hashes;
	vector<string> samples;
	string failure;
	for (uint64_t i = 0; i < cases && now() - t0 < budget; i++) {
		uint64_t sd = seed * 0x9E3779B97F4A7C15ull ^ (worker + 1) * 0xD1B54A32D192ED03ull ^
		              (i + 1) * 0x8CB92BA72F3D8DD7ull;
		Outcome o = execute(nullptr, sd, i);
		n++;
		evals += o.evals;
		auto lines = [](const string& t) {
			vector<string> v;
			std::stringstream ss(t);
			string l;
			while (std::getline(ss, l))
				v.push_back(l);
			return v;
		};
		for (auto& t : lines(o.tags))
			tags[t]++;
		for (auto& m : lines(o.metrics)) {
			size_t p = m.find(' ');
			double v = atof(m.c_str() + p + 1);
			double& d = metrics[m.substr(0, p)];
			if (v > d)
				d = v;
		}
		if (o.status == 1) {
			ok++;
			if (o.nontrivial) {
				nt++;
				hashes.push_back(hashc(o.ch));
				if (samples.size() < 2 || (samples.size() < 3 && i > 20))
					samples.push_back(o.render.substr(0, 1500));
			}
		} else if (o.status == 3) {
			disc++;
			discards[o.msg]++;
		} else {
			if (knownsigs.count(o.sig)) {
				knownhits[o.sig]++;
				continue;
			}
			Outcome b = shrink(o, g_thorough ? 120 : 60, 1500);
			failure = "{\"sig\":" + jstr(b.sig) + ",\"msg\":" + jstr(b.msg) +
			          ",\"first_msg\":" + jstr(o.msg) + ",\"case_seed\":" + std::to_string(sd) +
			          ",\"choices\":" + jch(b.ch) + ",\"first_choices\":" + jch(o.ch) +
			          ",\"render\":" + jstr(b.render) + "}";
			break;
		}
	}
	string j = "{";
	j += "\"cases\":" + std::to_string(n) + ",\"ok\":" + std::to_string(ok) +
	     ",\"discarded\":" + std::to_string(disc) + ",\"nontrivial\":" + std::to_string(nt) +
	     ",\"evals\":" + std::to_string(evals);
	j += ",\"hashes\":" + jch(hashes);
	auto mapj = [&](const char* k, std::map<string, uint64_t>& m) {
		j += string(",\"") + k + "\":{";
		bool f = true;
		for (auto& x : m) {
			j += (f ? "" : ",") + jstr(x.first) + ":" + std::to_string(x.second);
			f = false;
		}
		j += "}";
	};
	mapj("tags", tags);
	mapj("discards", discards);
	mapj("known", knownhits);
	j += ",\"metrics\":{";
	bool f = true;
	for (auto& x : metrics) {
		char b[64];
		if (std::isfinite(x.second))
			snprintf(b, sizeof b, "%.6g", x.second);
		else
			snprintf(b, sizeof b, "\"nonfinite\"");
		j += (f ? "" : ",") + jstr(x.first) + ":" + b;
		f = false;
	}
	j += "},\"samples\":[";
	for (size_t i = 0; i < samples.size(); i++)
		j += (i ? "," : "") + jstr(samples[i]);
	j += "],\"wall\":" + std::to_string(now() - t0);
	j += ",\"rule\":" + jstr(PROP_RULE);
	if (!failure.empty())
		j += ",\"failure\":" + failure;
	j += "}\n";
	wipe(g_scratch + "/case");
	if (out.empty())
		fputs(j.c_str(), stdout);
	else {
		FILE* p = fopen(out.c_str(), "wb");
		fputs(j.c_str(), p);
		fclose(p);
	}
	return failure.empty() ? 0 : 1;
}
