// Writing a stream (what=0), saving a state (what=1) or reading a stream (what=2) while the k-th write (or read) call
// of the process on the scratch files fails, is cut short, or is the moment at which the process dies.
#include "stream.h"
#include <sys/syscall.h>
#include <unistd.h>
#include <errno.h>
static bool g_on = false, g_dead = false, g_reading = false; static uint64_t g_at = 0, g_count = 0, g_mode = 0, g_keep = 0;
static bool ours(int fd, bool& dat)
{
	char p[64], b[512]; snprintf(p, sizeof p, "/proc/self/fd/%d", fd); ssize_t l = readlink(p, b, sizeof b - 1); if(l <= 0) return false; b[l] = 0;
	std::string s(b), d(sym_scratch()); dat = s.size() > 4 && s.substr(s.size() - 4) == ".dat"; return s.compare(0, d.size(), d) == 0;
}
extern "C" ssize_t write(int fd, const void* p, size_t n)
{
	bool dat = false;
	if(g_on && !g_reading && ours(fd, dat))
	{
		if(g_dead) { if(g_mode == 1) return n; errno = ENOSPC; return -1; }
		if(g_count++ == g_at)
		{
			g_dead = true; sym_reached("fault");
			if(g_mode == 1) return n;
			size_t k = g_mode == 2 && dat ? (g_keep < n ? g_keep : n - 1) : 0;
			if(k) return syscall(SYS_write, fd, p, k);
			errno = ENOSPC; return -1;
		}
	}
	return syscall(SYS_write, fd, p, n);
}
extern "C" ssize_t read(int fd, void* p, size_t n)
{
	bool dat = false;
	if(g_on && g_reading && ours(fd, dat) && g_count++ == g_at) { sym_reached("fault"); if(g_mode == 2) return syscall(SYS_read, fd, p, n > g_keep ? g_keep : n); errno = EIO; return -1; }
	return syscall(SYS_read, fd, p, n);
}
int main()
{
	size_t n = sym_param("n", 1), frames = sym_param("frames", 3); int what = sym_param("what", 0);
	nbody_data d; if(!boxed(d, n)) { sym_fail("initial state"); return 0; }
	std::string base = std::string(sym_scratch()) + "/s"; QString name = QString::fromStdString(base);
	g_at = sym_u64("call", 0, 0, sym_param("calls", 9)); g_mode = sym_u64("mode", 0, 0, what == 1 ? 0 : 2);
	{ uint64_t c[4] = {1, 24, 47, 20}; g_keep = c[g_mode == 2 ? sym_u64("keep", 1, 0, 3) : 0]; }
	if(what == 1)
	{
		g_on = true; bool ok = d.save(name); g_on = false;
		sym_check(ok != g_dead, "saving reports exactly the failures"); sym_reached("done");
		if(ok) { nbody_data x; sym_check(x.load(name) && x.get_count() == n, "what was reported saved can be loaded"); sym_reached("saved"); }
		return 0;
	}
	std::vector<Frame> f; std::vector<int> r;
	for(size_t k = 0; k < frames; ++k) { f.push_back(make_frame(k, n, k == 1, true, false)); f[k].step = 7 * k + 3; }
	nbody_data_stream* w = new nbody_data_stream; sym_check(0 == w->open(name, sym_param("per", 2) * 48 * n), "open for writing");
	g_on = what == 0;
	size_t done = 0;
	for(size_t k = 0; k < frames; ++k)
	{
		put(d, f[k]); bool before = g_dead; int q = w->write(&d);
		if(g_mode != 1) sym_check((q == 0) == !g_dead, "write reports exactly the failures");
		if(q != 0) break;
		if(!g_dead) done = k + 1;
		if(g_dead && (g_mode == 1 || before)) break;
	}
	if(g_mode != 1 || what) { g_on = false; w->close(); }
	g_on = false;
	nbody_data_stream_reader rd; int l = rd.load(name);
	if(done) sym_check(l == 0, "a stream with stored frames loads");
	if(l == 0)
	{
		sym_check(rd.get_frame_count() >= done, "frames reported stored are there"); sym_check(rd.get_frame_count() <= done + 1, "no frame that was never written");
		for(size_t k = 0; k < rd.get_frame_count(); ++k)
		{
			nbody_data x; blank(x, n); sym_check(rd.seek(k) == 0, "every indexed frame can be reached");
			if(what == 2) { g_on = g_reading = true; g_count = 0; }
			int q = rd.read(&x); bool fault = g_on && g_count > g_at; g_on = g_reading = false;
			if(!fault) sym_check(q == 0, "every indexed frame is completely stored");
			else sym_reached("read fault");
			if(q == 0) { same(x, f[k], true, true, "stored frame"); if(!fault) sym_check(x.get_mass()[0] == d.get_mass()[0] && x.get_color()[0].x == d.get_color()[0].x, "masses and colours"); }
		}
	}
	sym_reached("done"); if(!g_dead) sym_reached("no fault");
	if(g_mode != 1) delete w;   // after a crash nothing runs any more
	return 0;
}
