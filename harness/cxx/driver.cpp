// Executes single steps of a history on C++ numbers and recordings.
#include <adv.hpp>

#include <cstdlib>
#include <memory>
#include <new>
#include <utility>
#include <vector>

// every object allocated by C++ and not yet freed, per thread
static thread_local long live_objects = 0;

void* operator new(std::size_t n)
{
	void* p = std::malloc(n ? n : 1);
	if (!p) {
		throw std::bad_alloc();
	}
	++live_objects;
	return p;
}
void operator delete(void* p) noexcept
{
	if (p) {
		--live_objects;
		std::free(p);
	}
}
void operator delete(void* p, std::size_t) noexcept { operator delete(p); }

using adv::AContext;
using adv::ADouble;

struct Machine
{
	std::vector<std::unique_ptr<ADouble>> num;
	std::vector<std::unique_ptr<AContext>> ctx;
};

static ADouble pass(ADouble x) { return x; }
static ADouble make(double x) { ADouble r(x); return r; }

static ADouble binary(int f, const ADouble& a, const ADouble& b)
{
	switch (f) {
	case 0: return a + b;
	case 1: return a - b;
	case 2: return a * b;
	case 3: return a / b;
	case 4: return adv::max(a, b);
	default: return adv::min(a, b);
	}
}
static ADouble plain_right(int f, const ADouble& a, double b)
{
	switch (f) {
	case 0: return a + b;
	case 1: return a - b;
	case 2: return a * b;
	case 3: return a / b;
	case 4: return adv::max(a, b);
	default: return adv::min(a, b);
	}
}
static ADouble plain_left(int f, double a, const ADouble& b)
{
	switch (f) {
	case 0: return a + b;
	case 1: return a - b;
	case 2: return a * b;
	case 3: return a / b;
	case 4: return adv::max(a, b);
	default: return adv::min(a, b);
	}
}
static ADouble unary(int f, const ADouble& a)
{
	switch (f) {
	case 0: return adv::sin(a);
	case 1: return adv::cos(a);
	case 2: return adv::tan(a);
	case 3: return adv::abs(a);
	case 4: return adv::exp(a);
	default: return adv::ln(a);
	}
}

extern "C" {

long drv_live() { return live_objects; }

double drv_plain1(int f, double a)
{
	switch (f) {
	case 0: return adv::sin(a);
	case 1: return adv::cos(a);
	case 2: return adv::tan(a);
	case 3: return adv::abs(a);
	case 4: return adv::exp(a);
	default: return adv::ln(a);
	}
}
double drv_plain2(int f, double a, double b) { return f == 0 ? adv::max(a, b) : adv::min(a, b); }

Machine* drv_new(std::size_t nnum, std::size_t nctx)
{
	auto m = new Machine;
	m->num.resize(nnum);
	m->ctx.resize(nctx);
	return m;
}
void drv_free(Machine* m) { delete m; }

// numbers: a is the target, b and c are sources
void drv_num(Machine* m, int op, int f, int a, int b, int c, double x)
{
	auto& n = m->num;
	// how a result gets to its place
	auto put = [&](ADouble&& r) {
		if (n[a]) {
			*n[a] = std::move(r);
		}
		else {
			n[a].reset(new ADouble(std::move(r)));
		}
	};
	switch (op) {
	case 0: n[a].reset(new ADouble()); break;
	case 1: n[a].reset(new ADouble(x)); break;
	case 2: n[a].reset(new ADouble(*n[b])); break;
	case 3: n[a].reset(new ADouble(std::move(*n[b]))); break;
	case 4: *n[a] = *n[b]; break;
	case 5: *n[a] = std::move(*n[b]); break;
	case 6: n[a].reset(); break;
	case 7: std::swap(*n[a], *n[b]); break;
	case 8: put(pass(*n[b])); break;
	case 9: put(pass(std::move(*n[b]))); break;
	case 10: {
		// a container that grows, shrinks and is copied
		std::vector<ADouble> v;
		for (int i = 0; i < f; ++i) {
			v.push_back(i % 2 ? *n[b] : make(x));
		}
		v.insert(v.begin(), *n[b]);
		auto w = v;
		w.erase(w.begin() + 1, w.end());
		v = w;
		put(ADouble(v.front()));
		break;
	}
	case 11: {
		// a number moved onto itself has no particular value, but stays usable
		ADouble* p = n[a].get();
		*p = std::move(*n[a]);
		*p = make(x);
		break;
	}
	case 12: {
		auto& s = *n[b];
		s = s;
		put(ADouble(s));
		break;
	}
	case 13: *n[a] = x; break;
	case 20: put(binary(f, *n[b], *n[c])); break;
	case 21: put(plain_right(f, *n[b], x)); break;
	case 22: put(plain_left(f, x, *n[b])); break;
	case 23: put(unary(f, *n[b])); break;
	case 24: {
		// a temporary on either side
		put(binary(f, pass(*n[b]), pass(*n[c])));
		break;
	}
	case 25: {
		auto r = binary(f, *n[b], *n[c]);
		auto s = r;
		put(std::move(s));
		break;
	}
	case 26: {
		const ADouble r = unary(f, pass(*n[b]));
		if (!n[a]) {
			n[a].reset(new ADouble());
		}
		*n[a] = r;
		break;
	}
	default: std::abort();
	}
}

// recordings: a is the target or the recording used, b another recording or a number
void drv_ctx(Machine* m, int op, int a, int b)
{
	auto& c = m->ctx;
	auto& n = m->num;
	switch (op) {
	case 0: c[a].reset(new AContext()); break;
	case 1: c[a].reset(new AContext(std::move(*c[b]))); break;
	case 2: *c[a] = std::move(*c[b]); break;
	case 3: c[a].reset(); break;
	case 4: n[b].reset(new ADouble(c[a]->new_independent())); break;
	case 5: *n[b] = c[a]->new_independent(); break;
	case 6: c[a]->set_dependent(*n[b]); break;
	case 7: c[a]->set_dependent(pass(*n[b])); break;
	case 8: c[a]->set_dependent(*n[b] * 1.0); break;
	case 9: {
		AContext t(std::move(*c[a]));
		AContext u = std::move(t);
		*c[a] = std::move(u);
		break;
	}
	default: std::abort();
	}
}

} // extern "C"

extern "C" const char* __asan_default_options()
{
	return "abort_on_error=1:detect_leaks=0:quarantine_size_mb=32:max_free_fill_size=4096:"
	       "free_fill_byte=221:handle_abort=0:allocator_may_return_null=1";
}
