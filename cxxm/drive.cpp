// Random histories over the C++ wrapper. Every step is also made on the Rust interface (src/lib.rs)
// and the results compared.
// Usage: drive SEED ROUNDS STEPS [ONLY_ROUND | threads N]
// With threads, N threads work on N + 2 histories at once and pass them on to each other every few
// steps, so objects are used, moved and destroyed on other threads than they were made on.
#include <adv.hpp>

#include <atomic>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <string>
#include <thread>
#include <utility>
#include <vector>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define WITH_ASAN 1
#endif
#endif
#ifdef __SANITIZE_ADDRESS__
#define WITH_ASAN 1
#endif
#ifdef WITH_ASAN
extern "C" size_t __sanitizer_get_current_allocated_bytes();
extern "C" int __lsan_do_recoverable_leak_check();
#endif

using adv::AContext;
using adv::ADouble;

extern "C" {
void* m_new();
void m_enter(void* mirror);
void m_drop(void* mirror);
void m_reset();
void m_ctx_new(long k);
void m_ctx_free(long k);
void m_indep(long k, long dst, double v, double d);
void* probe_indep(void* ctx, double v, double d);
void m_const(long dst, double v);
void m_copy(long dst, long src);
void m_bin(int op, long dst, long a, long b);
void m_un(int op, long dst, long a);
void m_free(long a);
void m_dep(long k, long a);
const char* m_message();
int m_check_var(long k, const void* h);
int m_check_ctx(long k, const void* h);
int probe_alive(size_t cid);
size_t probe_cid(const void* h);

void __real_adv_acontext_set_dependent(void* ctx, const void* val);
void* __real_adv_acontext_new_independent(void* ctx);
}

// ---- looking behind the wrapper: the C calls it makes pass the handles
static thread_local bool g_capture = false;
static thread_local const void* g_ctx = nullptr;
static thread_local const void* g_val = nullptr;
static thread_local bool g_point = false;
static thread_local double g_v = 0, g_d = 0;

extern "C" void __wrap_adv_acontext_set_dependent(void* ctx, const void* val)
{
	if (g_capture) {
		g_ctx = ctx;
		g_val = val;
		return;
	}
	__real_adv_acontext_set_dependent(ctx, val);
}
extern "C" void* __wrap_adv_acontext_new_independent(void* ctx)
{
	if (g_point) {
		return probe_indep(ctx, g_v, g_d);
	}
	return __real_adv_acontext_new_independent(ctx);
}

// ---- state
struct Slot
{
	std::unique_ptr<ADouble> v;
	long id = -1;       // in the mirror
	long ctx = -1;      // context the variable belongs to
	bool known = true;  // false after it was moved from
};
struct Context
{
	std::unique_ptr<AContext> c;
	bool moved = false; // moved from
	long id = -1;
	size_t cid = 0;
};
// one history under way; a thread works on one at a time
struct World
{
	void* mirror = nullptr;
	uint64_t s = 0;
	std::string log;
	uint64_t print = 0;
	unsigned long events = 0, checks = 0, recordings = 0;
	std::map<std::string, unsigned long> kinds;
	long round = 0;
	size_t left = 0;
	std::vector<Slot> slots;
	std::vector<Context> ctxs;
	std::set<long> alive;
	long next = 0;
	const void* last = nullptr; // the thread that worked on it before
	unsigned long passed = 0;
};
static thread_local World* W = nullptr;
#define g_s (W->s)
#define g_log (W->log)
#define g_print (W->print)
#define g_events (W->events)
#define g_checks (W->checks)
#define g_recordings (W->recordings)
#define g_kinds (W->kinds)
#define g_round (W->round)
#define g_slots (W->slots)
#define g_ctxs (W->ctxs)
#define g_alive (W->alive)
#define g_next (W->next)
static void enter(World* w)
{
	W = w;
	m_enter(w->mirror);
	static thread_local char me;
	w->passed += w->last && w->last != &me;
	w->last = &me;
}

// ---- random numbers
static uint64_t rnd()
{
	g_s += 0x9E3779B97F4A7C15ull;
	uint64_t z = g_s;
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
	z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
	return z ^ (z >> 31);
}
static size_t below(size_t n) { return rnd() % n; }
static bool chance(double p) { return (rnd() >> 11) * (1.0 / 9007199254740992.0) < p; }
static double number()
{
	static const double special[] = {0.0, -0.0, 1.0, -1.0, 0.5, 2.0, -3.0, 1e-3, 7.25, -1e100};
	if (chance(0.3)) {
		return special[below(sizeof special / sizeof *special)];
	}
	return (double(rnd() % 80001) - 40000.0) / 10000.0;
}

// ---- log
static void say(const std::string& kind, const std::string& s)
{
	g_log += kind + " " + s + "; ";
	for (char c : kind + s) {
		g_print = (g_print ^ (unsigned char)c) * 0x100000001b3ull;
	}
	++g_kinds[kind];
	++g_events;
}
[[noreturn]] static void bad(const std::string& sig, const std::string& what)
{
	std::printf("FAIL [%s] round %ld: %s after: %s\n", sig.c_str(), g_round, what.c_str(), g_log.c_str());
	std::fflush(stdout);
	std::_Exit(1);
}

// ---- helpers
static std::string S(size_t i) { return "v" + std::to_string(i); }

static const void* see(const ADouble& v)
{
	static thread_local std::unique_ptr<AContext> helper(new AContext);
	g_capture = true;
	g_val = nullptr;
	helper->set_dependent(v);
	g_capture = false;
	return g_val;
}
static const void* see(AContext& c)
{
	static thread_local std::unique_ptr<ADouble> dummy(new ADouble(1.0));
	g_capture = true;
	g_ctx = nullptr;
	c.set_dependent(*dummy);
	g_capture = false;
	return g_ctx;
}
static void check(const ADouble& v, long id, const char* sig)
{
	++g_checks;
	if (m_check_var(id, see(v))) {
		bad(sig, m_message());
	}
}
static void check(const Slot& s, const char* sig)
{
	if (s.known) {
		check(*s.v, s.id, sig);
	}
}
static void check_all(const char* sig)
{
	for (auto& s : g_slots) {
		if (s.v) {
			check(s, sig);
		}
	}
}
static void check_ctx(Context& c)
{
	++g_recordings;
	if (m_check_ctx(c.id, see(*c.c))) {
		bad("cxx:recording", m_message());
	}
}
static long mirror_const(double v)
{
	long id = g_next++;
	m_const(id, v);
	return id;
}
static long mirror_bin(char op, long a, long b)
{
	long id = g_next++;
	m_bin(op, id, a, b);
	return id;
}
static long mirror_un(char op, long a)
{
	long id = g_next++;
	m_un(op, id, a);
	return id;
}
// `computed`: results of operations on leftover variables belong to no context, copies of them do
static long put(ADouble&& v, long id, long ctx, bool computed = true)
{
	Slot s;
	s.v.reset(new ADouble(std::move(v)));
	s.id = id;
	s.ctx = ctx >= 0 && (!computed || g_alive.count(ctx)) ? ctx : -1;
	g_slots.push_back(std::move(s));
	check(g_slots.back(), "cxx:value");
	return (long)g_slots.size() - 1;
}

static ADouble apply(char op, const ADouble& a, const ADouble& b)
{
	switch (op) {
	case '+': return a + b;
	case '-': return a - b;
	case '*': return a * b;
	case '/': return a / b;
	case '<': return adv::min(a, b);
	default: return adv::max(a, b);
	}
}
static ADouble apply(char op, const ADouble& a, double b)
{
	switch (op) {
	case '+': return a + b;
	case '-': return a - b;
	case '*': return a * b;
	case '/': return a / b;
	case '<': return min(a, b);
	default: return max(a, b);
	}
}
static ADouble apply(char op, double a, const ADouble& b)
{
	switch (op) {
	case '+': return a + b;
	case '-': return a - b;
	case '*': return a * b;
	case '/': return a / b;
	case '<': return min(a, b);
	default: return max(a, b);
	}
}
static ADouble apply(char op, int a, const ADouble& b)
{
	switch (op) {
	case '+': return a + b;
	case '-': return a - b;
	case '*': return a * b;
	case '/': return a / b;
	case '<': return adv::min(a, b);
	default: return adv::max(a, b);
	}
}
static ADouble apply(char op, const ADouble& a)
{
	switch (op) {
	case 's': return sin(a);
	case 'c': return cos(a);
	case 't': return tan(a);
	case 'a': return abs(a);
	case 'e': return exp(a);
	default: return ln(a);
	}
}
static ADouble by_value(ADouble a) { return a; }
static ADouble through(ADouble a, const ADouble& b, bool first)
{
	if (first) {
		return a;
	}
	return b;
}

static long joint(const Slot& a, const Slot& b) { return a.ctx >= 0 ? a.ctx : b.ctx; }
static bool fits(const Slot& a, const Slot& b) { return a.ctx < 0 || b.ctx < 0 || a.ctx == b.ctx; }

static std::vector<size_t> usable()
{
	std::vector<size_t> r;
	for (size_t i = 0; i < g_slots.size(); ++i) {
		if (g_slots[i].v && g_slots[i].known) {
			r.push_back(i);
		}
	}
	return r;
}
static std::vector<size_t> existing()
{
	std::vector<size_t> r;
	for (size_t i = 0; i < g_slots.size(); ++i) {
		if (g_slots[i].v) {
			r.push_back(i);
		}
	}
	return r;
}

static void end_context(size_t k)
{
	// variables left over go on, unrecorded; the mirror's too
	m_ctx_free(g_ctxs[k].id);
	g_alive.erase(g_ctxs[k].id);
}

static void plain()
{
	static const double odd[] = {0.0, -0.0, 1e-310, -1e-310, 1e300, -1e300, INFINITY, -INFINITY, NAN, 1.0, -1.0};
	auto some = [&] { return chance(0.3) ? odd[below(sizeof odd / sizeof *odd)] : number(); };
	const double a = some(), b = some();
	struct { const char* n; double got, want; } t[] = {
		{"sin", adv::sin(a), std::sin(a)}, {"cos", adv::cos(a), std::cos(a)}, {"tan", adv::tan(a), std::tan(a)},
		{"abs", adv::abs(a), std::fabs(a)}, {"exp", adv::exp(a), std::exp(a)}, {"ln", adv::ln(std::fabs(a)), std::log(std::fabs(a))},
		{"min", adv::min(a, b), a < b ? a : b}, {"max", adv::max(a, b), a < b ? b : a},
	};
	for (auto& x : t) {
		++g_checks;
		// of equal zeros either may be the smaller
		const bool sign = x.n[0] == 'm' || std::signbit(x.got) == std::signbit(x.want);
		if (!(x.got == x.want && sign) && !(x.got != x.got && x.want != x.want)) {
			bad("cxx:plain", std::string(x.n) + " of doubles gives " + std::to_string(x.got) + " instead of " + std::to_string(x.want) + " at " + std::to_string(a) + ", " + std::to_string(b));
		}
	}
	++g_kinds["plain doubles"];
}

static void step()
{
	static const char bins[] = {'+', '-', '*', '/', '<', '>'};
	static const char uns[] = {'s', 'c', 't', 'a', 'e', 'l'};
	auto u = usable();
	auto e = existing();
	std::vector<size_t> live;
	std::vector<size_t> husks;
	for (size_t k = 0; k < g_ctxs.size(); ++k) {
		if (g_ctxs[k].c) {
			(g_ctxs[k].moved ? husks : live).push_back(k);
		}
	}
	auto any = [&](const std::vector<size_t>& v) { return v[below(v.size())]; };
	switch (live.empty() && chance(0.25) ? 0 : below(31)) {
	case 0:
		if (g_ctxs.size() < 5) {
			Context c;
			c.c.reset(new AContext);
			c.id = g_next++;
			c.cid = probe_cid(see(*c.c));
			m_ctx_new(c.id);
			g_alive.insert(c.id);
			say("context", std::to_string(g_ctxs.size()));
			g_ctxs.push_back(std::move(c));
		}
		break;
	case 1:
		if (!live.empty() && chance(0.3)) {
			size_t k = any(live);
			say("end context", std::to_string(k));
			check_ctx(g_ctxs[k]);
			g_ctxs[k].c.reset();
			if (probe_alive(g_ctxs[k].cid)) {
				bad("cxx:context", "the destroyed context can still be found");
			}
			end_context(k);
			check_all("cxx:leftover");
		}
		break;
	case 2:
		if (!live.empty() && chance(0.6) && g_ctxs.size() < 12) {
			// a context moves into a new object, or over another one
			size_t k = any(live);
			Context n;
			n.id = g_ctxs[k].id;
			n.cid = g_ctxs[k].cid;
			bool over = chance(0.5);
			if (!over) {
				say("move context", std::to_string(k) + " to " + std::to_string(g_ctxs.size()));
				n.c.reset(new AContext(std::move(*g_ctxs[k].c)));
				g_ctxs[k].moved = true;
				g_ctxs.push_back(std::move(n));
			}
			else {
				size_t o = !husks.empty() && chance(0.5) ? any(husks) : any(live);
				if (o != k) {
					say("assign context", std::to_string(k) + " to " + std::to_string(o) + (g_ctxs[o].moved ? " (moved from)" : ""));
					*g_ctxs[o].c = std::move(*g_ctxs[k].c);
					g_ctxs[k].moved = true;
					if (!g_ctxs[o].moved) {
						if (probe_alive(g_ctxs[o].cid)) {
							bad("cxx:context", "the context assigned over can still be found");
						}
						end_context(o);
					}
					g_ctxs[o].moved = false;
					g_ctxs[o].id = n.id;
					g_ctxs[o].cid = n.cid;
				}
			}
			if (!probe_alive(n.cid)) {
				bad("cxx:context", "a moved context is gone");
			}
			check_all("cxx:leftover");
		}
		break;
	case 3:
		if (!husks.empty()) {
			size_t k = any(husks);
			say("destroy moved-from context", std::to_string(k));
			g_ctxs[k].c.reset();
		}
		else if (chance(0.2)) {
			say("self-move of a context", "");
			AContext c;
			AContext& r = c;
			c = std::move(r);
		}
		break;
	case 4:
	case 5:
	case 6:
		if (!live.empty()) {
			size_t k = any(live);
			bool at = chance(0.7);
			g_point = at;
			g_v = number();
			g_d = chance(0.5) ? 0.0 : number();
			say("independent", S(g_slots.size()) + " of " + std::to_string(k) + (at ? " at " + std::to_string(g_v) + ", " + std::to_string(g_d) : ""));
			ADouble x = g_ctxs[k].c->new_independent();
			g_point = false;
			long id = g_next++;
			m_indep(g_ctxs[k].id, id, at ? g_v : 0.0, at ? g_d : 0.0);
			put(std::move(x), id, g_ctxs[k].id);
		}
		break;
	case 7: {
		double v = number();
		say("constant", S(g_slots.size()) + " " + std::to_string(v));
		if (chance(0.3)) {
			ADouble x;
			put(std::move(x), mirror_const(0.0), -1);
		}
		else if (chance(0.5)) {
			ADouble x = v;
			put(std::move(x), mirror_const(v), -1);
		}
		else {
			put(ADouble(v), mirror_const(v), -1);
		}
		break;
	}
	case 8:
		if (!u.empty()) {
			size_t i = any(u);
			say("copy", S(g_slots.size()) + " = " + S(i));
			long id = g_next++;
			m_copy(id, g_slots[i].id);
			ADouble x(*g_slots[i].v);
			if (chance(0.5)) {
				ADouble y = by_value(x);
				x = by_value(std::move(y));
			}
			put(std::move(x), id, g_slots[i].ctx, false);
			check(g_slots[i], "cxx:copy");
		}
		break;
	case 9:
		if (!e.empty()) {
			size_t i = any(e);
			say("destroy", S(i));
			long id = g_slots[i].id;
			g_slots[i].v.reset();
			m_free(id);
		}
		break;
	case 10:
	case 11:
		if (!u.empty()) {
			// copy assignment, onto itself too
			size_t i = any(u), j = chance(0.25) ? i : any(e);
			say(i == j ? "self-assignment" : "assignment", S(j) + " = " + S(i));
			ADouble& r = *g_slots[j].v = *g_slots[i].v;
			if (&r != g_slots[j].v.get()) {
				bad("cxx:assign", "assignment does not return the object assigned to");
			}
			m_copy(g_slots[j].id, g_slots[i].id);
			g_slots[j].ctx = g_slots[i].ctx;
			g_slots[j].known = true;
			check(g_slots[j], "cxx:assign");
			check(g_slots[i], "cxx:assign");
		}
		break;
	case 12:
		if (!u.empty()) {
			// assignment of a plain double
			size_t j = any(e);
			double v = number();
			say("assign double", S(j) + " = " + std::to_string(v));
			*g_slots[j].v = v;
			m_const(g_slots[j].id, v);
			g_slots[j].ctx = -1;
			g_slots[j].known = true;
			check(g_slots[j], "cxx:assign");
		}
		break;
	case 13:
		if (!u.empty()) {
			size_t i = any(u), j = any(e);
			if (i != j) {
				say("move assignment", S(j) + " = move " + S(i));
				*g_slots[j].v = std::move(*g_slots[i].v);
				m_copy(g_slots[j].id, g_slots[i].id);
				g_slots[j].ctx = g_slots[i].ctx;
				g_slots[j].known = true;
				g_slots[i].known = false;
				check(g_slots[j], "cxx:move");
			}
			else {
				say("self-move", S(i));
				ADouble& r = *g_slots[i].v;
				*g_slots[i].v = std::move(r);
				g_slots[i].known = false;
			}
		}
		break;
	case 14:
		if (!u.empty()) {
			size_t i = any(u);
			say("move", S(g_slots.size()) + " = move " + S(i));
			long id = g_next++;
			m_copy(id, g_slots[i].id);
			ADouble x(std::move(*g_slots[i].v));
			g_slots[i].known = false;
			put(std::move(x), id, g_slots[i].ctx, false);
		}
		break;
	case 15:
		if (u.size() > 1) {
			size_t i = any(u), j = any(u);
			say("swap", S(i) + " " + S(j));
			std::swap(*g_slots[i].v, *g_slots[j].v);
			if (i != j) {
				std::swap(g_slots[i].id, g_slots[j].id);
				std::swap(g_slots[i].ctx, g_slots[j].ctx);
				check(g_slots[i], "cxx:move");
				check(g_slots[j], "cxx:move");
			}
			else {
				// goes through a self-move
				g_slots[i].known = false;
				*g_slots[i].v = 0.5;
				m_const(g_slots[i].id, 0.5);
				g_slots[i].ctx = -1;
				g_slots[i].known = true;
			}
		}
		break;
	case 16:
		if (!u.empty()) {
			// containers copy and move what they hold
			std::vector<ADouble> v;
			std::vector<size_t> from;
			size_t n = 1 + below(12);
			say("container", std::to_string(n));
			for (size_t k = 0; k < n; ++k) {
				from.push_back(any(u));
				v.push_back(*g_slots[from.back()].v);
			}
			if (n > 2) {
				v.erase(v.begin() + 1);
				from.erase(from.begin() + 1);
				v.insert(v.begin(), v[n - 2]);
				from.insert(from.begin(), from[n - 2]);
			}
			std::vector<ADouble> w = v;
			v.resize(n / 2);
			for (size_t k = 0; k < w.size(); ++k) {
				check(w[k], g_slots[from[k]].id, "cxx:copy");
			}
			v = std::move(w);
			for (size_t k = 0; k < v.size(); ++k) {
				check(v[k], g_slots[from[k]].id, "cxx:copy");
			}
			size_t k = below(v.size());
			long id = g_next++;
			m_copy(id, g_slots[from[k]].id);
			ADouble x = v[k];
			put(std::move(x), id, g_slots[from[k]].ctx, false);
		}
		break;
	case 17:
		if (!u.empty() && !live.empty()) {
			size_t i = any(u);
			for (size_t k : live) {
				if (g_slots[i].ctx == g_ctxs[k].id || g_slots[i].ctx < 0) {
					say("mark", S(i) + " result of " + std::to_string(k));
					g_ctxs[k].c->set_dependent(*g_slots[i].v);
					m_dep(g_ctxs[k].id, g_slots[i].id);
					break;
				}
			}
		}
		break;
	case 18:
	case 19:
	case 20:
		if (!u.empty()) {
			size_t i = any(u);
			char op = uns[below(6)];
			say("unary", S(g_slots.size()) + " = " + op + " " + S(i));
			ADouble x = apply(op, *g_slots[i].v);
			put(std::move(x), mirror_un(op, g_slots[i].id), g_slots[i].ctx);
			check(g_slots[i], "cxx:operand");
		}
		break;
	case 21:
	case 22:
	case 23:
		if (!u.empty()) {
			size_t i = any(u), j = chance(0.1) ? i : any(u);
			if (fits(g_slots[i], g_slots[j])) {
				char op = bins[below(6)];
				say("binary", S(g_slots.size()) + " = " + S(i) + " " + op + " " + S(j));
				ADouble x = apply(op, *g_slots[i].v, *g_slots[j].v);
				put(std::move(x), mirror_bin(op, g_slots[i].id, g_slots[j].id), joint(g_slots[i], g_slots[j]));
				check(g_slots[i], "cxx:operand");
				check(g_slots[j], "cxx:operand");
			}
		}
		break;
	case 24:
	case 25:
		if (!u.empty()) {
			size_t i = any(u);
			double v = number();
			char op = bins[below(6)];
			bool left = chance(0.5);
			bool whole = chance(0.2);
			if (whole) {
				v = (double)(int)std::fmax(-1000, std::fmin(1000, v));
			}
			std::string name = std::string(left ? "double on the left " : "double on the right ") + op;
			say(name, S(g_slots.size()) + " with " + S(i) + " and " + std::to_string(v));
			long c = mirror_const(v);
			ADouble x = left ? (whole ? apply(op, (int)v, *g_slots[i].v) : apply(op, v, *g_slots[i].v)) : apply(op, *g_slots[i].v, v);
			put(std::move(x), left ? mirror_bin(op, c, g_slots[i].id) : mirror_bin(op, g_slots[i].id, c), g_slots[i].ctx);
			check(g_slots[i], "cxx:operand");
		}
		break;
	case 26:
	case 27:
		if (!u.empty()) {
			// whole expressions with temporaries
			size_t i = any(u), j = any(u), l = any(u);
			Slot &A = g_slots[i], &B = g_slots[j], &C = g_slots[l];
			if (!fits(A, B) || !fits(B, C) || !fits(A, C)) {
				break;
			}
			const ADouble &a = *A.v, &b = *B.v, &c = *C.v;
			long ctx = A.ctx >= 0 ? A.ctx : joint(B, C), id = -1;
			ADouble x;
			int kind = (int)below(6);
			say("expression " + std::to_string(kind), S(g_slots.size()) + " of " + S(i) + " " + S(j) + " " + S(l));
			switch (kind) {
			case 0: // a * (b + c) - sin(a) / 2
				x = a * (b + c) - sin(a) / 2.0;
				id = mirror_bin('-', mirror_bin('*', A.id, mirror_bin('+', B.id, C.id)), mirror_bin('/', mirror_un('s', A.id), mirror_const(2.0)));
				break;
			case 1: // 1 - max(a, 3 / (b - c))
				x = 1.0 - max(a, 3.0 / (b - c));
				id = mirror_bin('-', mirror_const(1.0), mirror_bin('>', A.id, mirror_bin('/', mirror_const(3.0), mirror_bin('-', B.id, C.id))));
				break;
			case 2: { // through values, references and temporaries
				ADouble t = through(a, b, true) + through(a, c, false);
				x = by_value(std::move(t));
				id = mirror_bin('+', A.id, C.id);
				break;
			}
			case 3: { // accumulation into one object
				ADouble s = 0.0;
				long m = mirror_const(0.0);
				for (int k = 0; k < 3; ++k) {
					s = s + a * b;
					m = mirror_bin('+', m, mirror_bin('*', A.id, B.id));
				}
				s = s - c;
				id = mirror_bin('-', m, C.id);
				x = s;
				break;
			}
			case 4: { // conditional pick of a reference
				const bool q = chance(0.5);
				const ADouble& r = q ? a : c;
				x = exp(min(r, 1.5)) / ln(abs(b) + 2.0);
				id = mirror_bin('/', mirror_un('e', mirror_bin('<', q ? A.id : C.id, mirror_const(1.5))), mirror_un('l', mirror_bin('+', mirror_un('a', B.id), mirror_const(2.0))));
				break;
			}
			default: { // object overwritten by an expression over itself
				ADouble t = a;
				t = t * t - 2.0 * t;
				t = tan(t) + cos(t);
				long m = mirror_bin('-', mirror_bin('*', A.id, A.id), mirror_bin('*', mirror_const(2.0), A.id));
				id = mirror_bin('+', mirror_un('t', m), mirror_un('c', m));
				x = std::move(t);
				ctx = A.ctx;
				break;
			}
			}
			if (kind == 2) {
				ctx = joint(A, C);
			}
			if (kind == 4) {
				// only the operands really used decide
				ctx = A.ctx >= 0 ? A.ctx : joint(B, C);
			}
			put(std::move(x), id, ctx);
		}
		break;
	case 28:
		plain();
		break;
	case 29: {
		// what is left of a moved-from object has some value; it can be copied, kept and assigned
		std::vector<size_t> husk;
		for (size_t i : e) {
			if (!g_slots[i].known) {
				husk.push_back(i);
			}
		}
		if (!husk.empty()) {
			size_t i = any(husk);
			say("copy of a moved-from object", S(i));
			ADouble x(*g_slots[i].v);
			ADouble y = 1.5;
			y = *g_slots[i].v;
			ADouble z(std::move(*g_slots[i].v));
			std::vector<ADouble> v{x, y, by_value(z)};
			v.push_back(*g_slots[i].v);
			v.insert(v.begin(), std::move(y));
			y = x;
			*g_slots[i].v = v[below(v.size())];
			if (chance(0.5)) {
				std::swap(x, z);
				*g_slots[i].v = std::move(x);
			}
		}
		else if (!e.empty()) {
			check_all("cxx:bystander");
		}
		break;
	}
	default:
		if (!e.empty()) {
			check_all("cxx:bystander");
		}
		break;
	}
}

static void begin(uint64_t seed, long round, size_t steps)
{
	g_round = round;
	g_s = seed * 0x2545F4914F6CDD1Dull + (uint64_t)round * 0xD6E8FEB86659FD93ull;
	g_next = 0;
	g_log.clear();
	g_print = 0xcbf29ce484222325ull;
	W->left = steps / 4 + below(steps + 1);
}

static void finish()
{
	check_all("cxx:bystander");
	// which recorded variable each object is shows when it is marked
	for (auto& c : g_ctxs) {
		if (c.c && !c.moved) {
			for (auto& s : g_slots) {
				if (s.v && s.known && s.ctx == c.id) {
					c.c->set_dependent(*s.v);
					m_dep(c.id, s.id);
				}
			}
			check_ctx(c);
		}
	}
	// everything goes, in random order
	std::vector<size_t> rest;
	for (size_t i = 0; i < g_slots.size() + g_ctxs.size(); ++i) {
		rest.push_back(i);
	}
	while (!rest.empty()) {
		size_t k = below(rest.size());
		size_t i = rest[k];
		rest[k] = rest.back();
		rest.pop_back();
		if (i < g_slots.size()) {
			g_slots[i].v.reset();
		}
		else {
			Context& c = g_ctxs[i - g_slots.size()];
			bool had = c.c && !c.moved;
			c.c.reset();
			if (had && probe_alive(c.cid)) {
				bad("cxx:context", "a destroyed context can still be found");
			}
		}
	}
	g_slots.clear();
	g_slots.shrink_to_fit();
	g_ctxs.clear();
	g_ctxs.shrink_to_fit();
	g_alive.clear();
	m_reset();
}

static void history(uint64_t seed, long round, size_t steps)
{
	for (begin(seed, round, steps); W->left > 0; --W->left) {
		step();
	}
	finish();
}

static World* new_world()
{
	World* w = new World;
	w->mirror = m_new();
	w->log.reserve(1 << 16);
	return w;
}

struct Sum
{
	unsigned long events = 0, checks = 0, recordings = 0, passed = 0;
	std::map<std::string, unsigned long> kinds;
	void add(const World& w)
	{
		events += w.events;
		checks += w.checks;
		recordings += w.recordings;
		passed += w.passed;
		for (auto& k : w.kinds) {
			kinds[k.first] += k.second;
		}
	}
};

// several threads, each history passed from thread to thread
static long together(uint64_t seed, long rounds, size_t steps, int n, std::set<uint64_t>& prints, std::string& sample, Sum& sum)
{
	std::vector<World*> all;
	std::deque<World*> waiting;
	std::mutex lock;
	std::atomic<long> next{0};
	std::atomic<int> active{n + 2};
	for (int k = 0; k < n + 2; ++k) {
		World* w = new_world();
		enter(w);
		begin(seed, next++, steps);
		all.push_back(w);
		waiting.push_back(w);
	}
	auto work = [&](size_t turns) {
		while (turns-- > 0 && active > 0) {
			World* w = nullptr;
			{
				std::lock_guard<std::mutex> g(lock);
				if (!waiting.empty()) {
					w = waiting.front();
					waiting.pop_front();
				}
			}
			if (!w) {
				std::this_thread::yield();
				continue;
			}
			enter(w);
			// (the length of a turn is no part of the history)
			for (size_t k = 1 + (w->left * 7 + w->slots.size()) % 13; k > 0 && w->left > 0; --k, --w->left) {
				step();
			}
			if (w->left == 0) {
				finish();
				long r = next++;
				std::lock_guard<std::mutex> g(lock);
				prints.insert(w->print);
				if (sample.empty() && w->log.size() > 200) {
					sample = w->log.substr(0, 500);
				}
				if (r >= rounds) {
					--active;
					continue;
				}
				begin(seed, r, steps);
			}
			std::lock_guard<std::mutex> g(lock);
			waiting.push_back(w);
		}
	};
	while (active > 0) {
		// threads end now and then, and others take over
		std::vector<std::thread> ts;
		for (int k = 0; k < n; ++k) {
			ts.emplace_back(work, size_t(100 + 37 * k));
		}
		for (auto& t : ts) {
			t.join();
		}
	}
	for (World* w : all) {
		sum.add(*w);
		m_drop(w->mirror);
		delete w;
	}
	W = nullptr;
	return rounds > n + 2 ? rounds : n + 2;
}

int main(int argc, char** argv)
{
	if (argc < 4) {
		return 3;
	}
	const uint64_t seed = std::strtoull(argv[1], nullptr, 10);
	const long rounds = std::atol(argv[2]);
	const size_t steps = std::strtoul(argv[3], nullptr, 10);
	const int threads = argc > 5 && !std::strcmp(argv[4], "threads") ? std::atoi(argv[5]) : 0;
	const long only = argc > 4 && !threads ? std::atol(argv[4]) : -1;
	std::set<uint64_t> prints;
	std::string sample;
	Sum sum;
	long done = 0;
	if (threads) {
		done = together(seed, rounds, steps, threads, prints, sample, sum);
	}
	enter(new_world());
	g_log.reserve(1 << 20);
	for (long round = 0; round < rounds && !threads; ++round) {
		if (only >= 0 && round != only) {
			continue;
		}
		history(seed, round, steps);
		prints.insert(g_print);
		if (sample.empty() && g_log.size() > 200) {
			sample = g_log.substr(0, 500);
		}
		++done;
	}
#ifdef WITH_ASAN
	// memory that is reachable but never given back: the same histories again must need no more
	if (only < 0 && !threads && rounds >= 40) {
		const long n = rounds < 400 ? rounds : 400;
		size_t used[3];
		for (int pass = 0; pass < 3; ++pass) {
			for (long round = 0; round < n; ++round) {
				history(seed, round, steps);
			}
			used[pass] = __sanitizer_get_current_allocated_bytes();
		}
		if (used[2] > used[1] + (size_t)n / 2 && used[1] > used[0] + (size_t)n / 2) {
			std::printf("FAIL [cxx:growth] %zu, %zu, %zu bytes in use after the same %ld histories once, twice and three times\n", used[0], used[1], used[2], n);
			std::fflush(stdout);
			std::_Exit(1);
		}
		std::printf("MEMORY %zu %zu %zu\n", used[0], used[1], used[2]);
	}
#endif
	if (const char* path = std::getenv("DRIVE_PRINTS")) {
		if (FILE* f = std::fopen(path, "w")) {
			for (uint64_t p : prints) {
				std::fprintf(f, "%llx\n", (unsigned long long)p);
			}
			std::fclose(f);
		}
	}
	sum.add(*W);
	for (auto& k : sum.kinds) {
		std::printf("KIND %s|%lu\n", k.first.c_str(), k.second);
	}
	std::printf("SAMPLE %s\n", sample.c_str());
	std::printf("DONE rounds=%ld distinct=%zu events=%lu checks=%lu recordings=%lu passed=%lu\n", done, prints.size(), sum.events, sum.checks, sum.recordings, sum.passed);
	return 0;
}
