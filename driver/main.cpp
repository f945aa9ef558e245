#include "drv.h"
#include <iostream>
#include <cstdlib>
#include <cstring>
#include <new>

// The heap as the library under test sees it: every block lies between two guard zones that are checked when
// it is released, fresh and released memory is filled with a pattern, and a block is released once, by the
// matching form of delete.  Anything else aborts, which is recorded as a crash of the command.
namespace {
struct Head { size_t size; unsigned long kind; unsigned char guard[48]; };
const unsigned long One = 0x6f6e65626c6f636bul, Many = 0x6d616e79626c6f63ul, Gone = 0x676f6e65676f6e65ul;
const size_t Tail = 64, Keep = 256;
void* kept[Keep]; size_t nKept = 0;
void* take(size_t n, unsigned long kind)
{
	if (n > (size_t(1) << 33)) throw std::bad_alloc();
	char* p = static_cast<char*>(malloc(sizeof(Head) + n + Tail));
	if (!p) throw std::bad_alloc();
	Head* h = reinterpret_cast<Head*>(p); h->size = n; h->kind = kind; memset(h->guard, 0xA5, sizeof h->guard);
	memset(p + sizeof(Head), 0xC7, n); memset(p + sizeof(Head) + n, 0xA5, Tail);
	return p + sizeof(Head);
}
void drop(void* q, unsigned long kind)
{
	if (!q) return;
	char* p = static_cast<char*>(q) - sizeof(Head); Head* h = reinterpret_cast<Head*>(p);
	if (h->kind != kind) abort();
	for (unsigned char c : h->guard) if (c != 0xA5) abort();
	for (size_t i = 0; i < Tail; ++i) if (static_cast<unsigned char>(p[sizeof(Head) + h->size + i]) != 0xA5) abort();
	h->kind = Gone; memset(q, 0xDD, h->size);
	void*& k = kept[nKept++ % Keep]; free(k); k = p; // released late, so that a second release is still seen
}
}
void* operator new(size_t n) { return take(n, One); }
void* operator new[](size_t n) { return take(n, Many); }
void operator delete(void* p) noexcept { drop(p, One); }
void operator delete[](void* p) noexcept { drop(p, Many); }
void operator delete(void* p, size_t) noexcept { drop(p, One); }
void operator delete[](void* p, size_t) noexcept { drop(p, Many); }

namespace drv {
long gId = 0;
std::string gOp;
std::map<std::string, Fn>& table() { static std::map<std::string, Fn> t; return t; }
}

static sigjmp_buf env;
static volatile sig_atomic_t armed = 0;
static void onSignal(int sig)
{
	if (armed) { armed = 0; siglongjmp(env, sig); }
	_exit(4);
}

int main(int argc, char** argv)
{
	long skip = argc > 1 ? atol(argv[1]) : 0; int hangs = 0;
	static char altstack[1 << 16];
	stack_t ss; ss.ss_sp = altstack; ss.ss_size = sizeof altstack; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
	struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onSignal; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
	for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM}) sigaction(s, &sa, nullptr);
	static char buf[1 << 20]; setvbuf(stdout, buf, _IOFBF, sizeof buf);
	std::string line;
	while (std::getline(std::cin, line))
	{
		++drv::gId;
		if (drv::gId <= skip) continue;
		std::istringstream is(line);
		drv::Toks t; std::string w;
		while (is >> w) t.push_back(w);
		if (t.empty()) continue;
		auto it = drv::table().find(t[0]);
		if (it == drv::table().end() || t.size() < 2) { fprintf(stderr, "driver: unknown operation %s\n", t[0].c_str()); return 3; }
		drv::gOp = t[0];
		int sig = sigsetjmp(env, 1);
		if (sig == 0)
		{
			struct itimerval tv = {{0, 0}, {3, 0}}; setitimer(ITIMER_REAL, &tv, nullptr);
			armed = 1;
			it->second(t);
			armed = 0;
		}
		else
			printf("{\"id\":%ld,\"op\":\"crash\",\"w\":\"%s\",\"p\":24,\"a\":{},\"o\":{},\"b\":{},\"i\":{\"signal\":[%d]}}\n", drv::gId, t[0].c_str(), sig);
		fflush(stdout);
		if (sig == SIGALRM && ++hangs >= 10) break; // enough: each of them is reported
	}
	struct itimerval off = {{0, 0}, {0, 0}}; setitimer(ITIMER_REAL, &off, nullptr);
	fflush(stdout);
	return 0;
}
