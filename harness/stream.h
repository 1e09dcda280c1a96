#ifndef STREAM_H_
#define STREAM_H_
#include "common.h"
#include "nbody_data_stream.h"
#include "nbody_data_stream_reader.h"
#include <QFile>
#include <string.h>
// n bodies in a box of the given size
inline bool boxed(nbody_data& d, size_t n, int box = 7)
{
	std::string fn = std::string(sym_scratch()) + "/init.txt";
	FILE* f = fopen(fn.c_str(), "w"); if(!f) return false;
	for(size_t i = 0; i < n; ++i) fprintf(f, "%d %zu 0 0 0 0 1 1\n", i ? 1 : box, i % 3);
	fclose(f);
	return d.load_initial(QString::fromStdString(fn), "G1") && d.get_count() == n;
}
struct Frame { vd r, v; double t; uint64_t step; };
inline void put(nbody_data& d, const Frame& f)
{
	for(size_t i = 0; i < d.get_count(); ++i) { d.get_vertites()[i] = nbvertex_t(f.r[3 * i], f.r[3 * i + 1], f.r[3 * i + 2]); d.get_velosites()[i] = nbvertex_t(f.v[3 * i], f.v[3 * i + 1], f.v[3 * i + 2]); }
	d.set_time(f.t); d.set_step(f.step);
}
inline void blank(nbody_data& d, size_t n)
{
	d.clear(); d.resize(n);
	for(size_t i = 0; i < n; ++i) { d.get_vertites()[i] = d.get_velosites()[i] = nbvertex_t(-777, -777, -777); d.get_mass()[i] = -777; d.get_color()[i] = nbcolor_t(-1, -1, -1, -1); }
	d.set_time(-777); d.set_step(777777);
}
// live: which frames get symbolic contents
inline Frame make_frame(size_t k, size_t n, bool live, bool bits, bool symtime)
{
	Frame f; f.r.resize(3 * n); f.v.resize(3 * n);
	for(size_t i = 0; i < 3 * n; ++i)
	{
		double a = gen(100 * k + i, -9, 9), b = gen(100 * k + i + 57, -2, 2);
		bool s = live && (i < 3 || i >= 3 * n - 2);
		f.r[i] = !s ? a : bits ? sym_f64_any(("r" + nm("", k) + nm("_", i)).c_str(), a) : sym_f64(("r" + nm("", k) + nm("_", i)).c_str(), a, -1e6, 1e6);
		f.v[i] = !s ? b : bits ? sym_f64_any(("v" + nm("", k) + nm("_", i)).c_str(), b) : sym_f64(("v" + nm("", k) + nm("_", i)).c_str(), b, -1e6, 1e6);
	}
	double t = 1234.56789012345 * double(k + 1) + 1.0 / double(3 + k);
	f.t = symtime ? sym_f64(nm("t", k).c_str(), t, -1e9, 1e9) : t;
	f.step = live && bits ? sym_u64(nm("step", k).c_str(), 1000003 * k + 5, 0, (uint64_t)-1) : 1000003 * k + 5;
	return f;
}
inline void same(const nbody_data& d, const Frame& f, bool bits, bool time, const char* what)
{
	std::string w(what);
	for(size_t i = 0; i < d.get_count(); ++i)
	{
		const nbvertex_t& p = d.get_vertites()[i]; const nbvertex_t& q = d.get_velosites()[i];
		double a[6] = {p.x, p.y, p.z, q.x, q.y, q.z};
		for(int c = 0; c < 6; ++c)
		{
			double e = c < 3 ? f.r[3 * i + c] : f.v[3 * i + c - 3];
			const std::string l = w + (c < 3 ? ": coordinates" : ": velocities");
			if(bits) sym_check_bits(a[c], e, l.c_str()); else sym_check_eq(a[c], e, 1e-9 * (1 + fabs(e)), l.c_str());
		}
	}
	sym_check(d.get_box_size() == 7, (w + ": box size").c_str());
	if(bits) sym_check_u64(d.get_step(), f.step, (w + ": step number").c_str());
	else sym_check(d.get_step() == f.step, (w + ": step number").c_str());
	// 15 significant digits of the time survive
	if(time) sym_check_rel(d.get_time(), f.t, 2e-14, (w + ": time").c_str());
}
#endif
