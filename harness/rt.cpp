// Native runtime: runs one harness entry, compiled for the host, on the inputs of a counterexample.
//   rt FILE      FILE: "entry NAME" / "params a,b,c" / "input NAME HEX"
// exit 0: entry ran to its end; 1: violation (an assertion of the harness, an exception, a sanitizer report);
// 3: the inputs do not satisfy the harness's assumptions.
#include "vp.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csetjmp>
#include <dlfcn.h>
#include <unistd.h>
#include <signal.h>
#include <sys/mman.h>
#include <fstream>
#include <map>
#include <new>
#include <sstream>
#include <string>
#include <vector>

namespace {
struct Blk { void *p; size_t n; };
bool tracking = false, inside = false;
Blk *blks = nullptr; size_t nb = 0, capb = 0;
void track(void *p, size_t n)
{
	if (!tracking || inside) return;
	if (nb == capb) { capb = capb ? 2 * capb : 1024; blks = (Blk *)realloc(blks, capb * sizeof(Blk)); }
	blks[nb++] = {p, n};
}
void untrack(void *p)
{
	if (inside) return;
	for (size_t i = nb; i-- > 0;) if (blks[i].p == p) { memmove(blks + i, blks + i + 1, (nb - i - 1) * sizeof(Blk)); --nb; return; }
}
struct In { bool o = inside; In() { inside = true; } ~In() { inside = o; } };
std::vector<long> *params; std::map<std::string, std::vector<unsigned char>> *inputs; std::map<std::string, int> *used;
void fail(const char *kind, const char *msg)
{
	inside = true; fflush(stdout); fprintf(stderr, "VP-VIOLATION %s: %s\n", kind, msg); fflush(stderr); _exit(1);
}
jmp_buf *exitTarget = nullptr;
}

void *operator new(size_t n) { void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); track(p, n); return p; }
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { if (p) { untrack(p); free(p); } }
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete(p); }

extern "C" {
long vp_param(int i) { return (size_t)i < params->size() ? (*params)[i] : 0; }
void vp_sym(void *p, size_t n, const char *name)
{
	In g; std::string base = name, nm = base; int &k = (*used)[base]; if (++k > 1) nm += "_" + std::to_string(k);
	auto it = inputs->find(nm);
	for (size_t i = 0; i < n; ++i) ((unsigned char *)p)[i] = it != inputs->end() && i < it->second.size() ? it->second[i] : 0;
}
void vp_assume(bool c) { if (!c) { inside = true; fprintf(stderr, "VP-ASSUMPTION\n"); _exit(3); } }
void vp_assert(bool c, const char *msg) { if (!c) fail("assert", msg); }
void vp_assert_eq(const void *a, const void *b, size_t n, const char *msg) { if (n && memcmp(a, b, n)) fail("assert", msg); }
void vp_cover(const char *) {}
int vp_is_const(const void *, size_t) { return 1; }
int vp_havoc2(void *, size_t, void *, size_t) { return 0; }
void vp_havoc_all(void)
{
	In g;
	for (size_t k = 0; k < nb; ++k)
	{
		auto v = inputs->find("heap" + std::to_string(k)), m = inputs->find("heapmask" + std::to_string(k));
		if (v == inputs->end() || m == inputs->end()) continue;
		for (size_t i = 0; i < blks[k].n && i < v->second.size(); ++i) if (m->second[i]) ((unsigned char *)blks[k].p)[i] = v->second[i];
	}
}
int vp_try(void (*f)(void *), void *arg)
{
	try { f(arg); return 0; } catch (...) { return 1; }
}
long vp_live_heap(void) { return (long)nb; }
void vp_record(const void *p, size_t n, const char *name)
{
	In g; printf("RECORD %s=", name); for (size_t i = 0; i < n; ++i) printf("%02x", ((const unsigned char *)p)[i]); printf("\n"); fflush(stdout);
}
void vp_uninit(void *p, size_t n) { void *q = malloc(n ? n : 1); memcpy(p, q, n); free(q); }
void *vp_alloc(size_t n) { void *p = malloc(n ? n : 1); track(p, n); return p; }
int vp_native(void) { return 1; }
void *vp_trip_alloc(size_t, void (*)(size_t)) { _exit(2); }
void *vp_zeros(uint64_t n)
{
	void *m = mmap(nullptr, (size_t)n, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	return m == MAP_FAILED ? nullptr : m;
}
void vp_free(void *p) { if (p) { untrack(p); free(p); } }
}

#ifndef RT_OWN_MAIN
int main(int argc, char **argv)
{
	inside = true;
	params = new std::vector<long>; inputs = new std::map<std::string, std::vector<unsigned char>>; used = new std::map<std::string, int>;
	std::string entry, line;
	if (argc < 2) return 2;
	std::ifstream in(argv[1]);
	while (std::getline(in, line))
	{
		std::istringstream is(line); std::string k, a, b; is >> k >> a >> b;
		if (k == "entry") entry = a;
		else if (k == "params") { std::istringstream ps(a); std::string x; while (std::getline(ps, x, ',')) params->push_back(strtol(x.c_str(), nullptr, 0)); }
		else if (k == "input") { auto &v = (*inputs)[a]; for (size_t i = 0; i + 1 < b.size(); i += 2) v.push_back((unsigned char)strtoul(b.substr(i, 2).c_str(), nullptr, 16)); }
	}
	void (*f)() = (void (*)())dlsym(RTLD_DEFAULT, entry.c_str());
	if (!f) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 2; }
	tracking = true; inside = false;
	try { f(); } catch (std::exception &e) { fail("exception", e.what()); } catch (...) { fail("exception", "unknown"); }
	inside = true;
	printf("VP-END\n"); fflush(stdout);
	_exit(0);
}
#endif
