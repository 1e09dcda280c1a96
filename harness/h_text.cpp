// Text states: what=0 save/load, 1 table layouts, 2 Zeno, 3 malformed table, 4 malformed Zeno
#include "stream.h"
static QString num(double v) { return QString::number(v, 'e', 16); }
static bool store(const QString& fn, const QString& t) { QFile f(fn); return f.open(QFile::WriteOnly) && f.write(t.toUtf8()) >= 0; }
static const double BIG = 1.7e308;
static double val(const char* p, size_t i, double def, double lim) { return sym_f64((nm(p, i)).c_str(), def, -lim, lim); }
int main()
{
	size_t n = sym_param("n", 2); int what = sym_param("what", 0), unit = sym_param("unit", 0), initial = sym_param("initial", 0);
	QString fn = QString::fromStdString(std::string(sym_scratch()) + "/state.txt");
	double fac = unit == 0 ? 1.0 : unit == 1 ? 6.67259e-11 : 6.67259e-11 * 86400.0 * 86400.0 / (149597870700.0 * 149597870700.0 * 149597870700.0);
	double lim = what == 0 ? BIG : 1e30;
	vd q(8 * n);
	for(size_t i = 0; i < 8 * n; ++i) q[i] = (what < 3 && (i < 8 || i >= 8 * n - 8)) ? val("q", i, gen(i, -9, 9) * (i % 3 == 2 ? 1e-7 : 1), lim) : double(i) + 0.5;
	nbody_data x; x.add_body(nbvertex_t(4, 5, 6), nbvertex_t(7, 8, 9), 10, nbcolor_t(0, 0, 0, 0), 3); x.add_body(nbvertex_t(4, 5, 6), nbvertex_t(7, 8, 9), 10, nbcolor_t(0, 0, 0, 0), 3);
	nbody_data d; for(size_t i = 0; i < n; ++i) d.add_body(nbvertex_t(q[8 * i], q[8 * i + 1], q[8 * i + 2]), nbvertex_t(q[8 * i + 3], q[8 * i + 4], q[8 * i + 5]), q[8 * i + 6], nbcolor_t(1, 1, 1, 1), what == 2 ? 0 : q[8 * i + 7]);
	bool ok = false;
	if(what == 0) { sym_check(d.save(fn), "save"); ok = x.load(fn); }
	else if(what == 1 || what == 3)
	{
		QString t; size_t bl = 0, bc = 0, bk = 0;
		if(what == 3) { size_t k = sym_u64("where", 0, 0, 9 * n - 1); size_t c = 0; while(c < k) ++c; bl = c / 9; bc = c % 9; bk = sym_u64("garbage", 0, 0, 4); }
		const char* junk[5] = {"abc", "1.5x", "--1", "1,5", "1e"};
		for(size_t i = 0; i < n; ++i)
		{
			uint64_t lay = what == 1 ? sym_u64(nm("layout", i).c_str(), (i + unit) % 7, 0, 6) : 0;
			QString sep(lay == 6 ? "   " : " ");
			if(lay == 2) t += "\n   \n"; if(lay == 3) t += "// comment 1 2 3\n"; if(lay == 6) t += "  ";
			size_t cols = lay == 5 ? 7 : 8; if(what == 3 && i == bl && bc == 8) cols = bk + 2;
			for(size_t c = 0; c < cols; ++c) t += (c ? sep : QString()) + (what == 3 && i == bl && c == bc ? QString(junk[bk]) : num(q[8 * i + c]));
			if(lay == 1) t += " // 5 6"; if(lay == 4) t += " 17 some text";
			t += i + 1 == n && initial ? "" : "\n";
		}
		if(!store(fn, t)) { sym_fail("scratch file"); return 0; }
		const char* ty[3][2] = {{"G1", "g1"}, {"SI", "si"}, {"ADK", "adk"}};
		ok = initial ? x.load_initial(fn, ty[unit][initial - 1]) : x.load(fn, unit == 0 ? eut_G1 : unit == 1 ? eut_SI : eut_au_day_kg);
		if(what == 3) { sym_check(!ok, "a malformed table is refused"); sym_reached("done"); return 0; }
	}
	else
	{
		std::vector<QString> l; l.push_back(QString::number(n)); l.push_back("3"); l.push_back(num(0.25));
		for(size_t i = 0; i < n; ++i) l.push_back(" " + num(q[8 * i + 6]));
		for(int h = 0; h < 2; ++h) for(size_t i = 0; i < n; ++i) l.push_back(" " + num(q[8 * i + 3 * h]) + "  " + num(q[8 * i + 3 * h + 1]) + " " + num(q[8 * i + 3 * h + 2]));
		size_t lines = l.size(); bool bad = false;
		if(what == 4)
		{
			uint64_t kind = sym_u64("kind", 0, 0, 5); size_t k = sym_u64("line", 3, 0, lines - 1), at = 0; while(at < k) ++at;
			if(kind == 0 && at != 2) { l[at] = at >= 3 + n ? "1 2 x" : "zz"; bad = true; }
			if(kind == 1) { lines = at; bad = true; }                                            // cut off
			if(kind == 2) { l[1] = at % 2 ? "2" : "4"; bad = true; }
			if(kind == 3 && at >= 3 + n) { l[at] += at % 2 ? " 5" : ""; if(at % 2 == 0) l[at] = "1 2"; bad = true; }
			if(kind == 4) { l[0] = QString::number(n + 1); bad = true; }
			if(kind == 5) { l[0] = at % 2 ? "9223372036854775807" : "1152921504606846976"; bad = true; }
			sym_assume(bad);
		}
		QString t; for(size_t i = 0; i < lines; ++i) t += l[i] + "\n";
		if(!store(fn, t)) { sym_fail("scratch file"); return 0; }
		bool threw = false;
		try { ok = initial ? x.load_initial(fn, initial == 1 ? "Zeno" : "zeno") : x.load_zeno_ascii(fn); } catch(...) { threw = true; }
		sym_check(!threw, "loading does not end in an exception");
		if(what == 4) { sym_check(!ok, "a malformed Zeno file is refused"); sym_reached("done"); return 0; }
	}
	sym_check(ok, "load"); sym_check(x.get_count() == n, "body count");
	if(!ok || x.get_count() != n) return 0;
	for(size_t i = 0; i < n; ++i)
	{
		const nbvertex_t& r = x.get_vertites()[i]; const nbvertex_t& v = x.get_velosites()[i]; double a[6] = {r.x, r.y, r.z, v.x, v.y, v.z};
		if(unit == 0)
		{
			for(int c = 0; c < 6; ++c) sym_check_bits(a[c], q[8 * i + c], c < 3 ? "coordinates" : "velocities");
			sym_check_bits(x.get_mass()[i], q[8 * i + 6], "mass");
		}
		else
		{
			for(int c = 0; c < 6; ++c) sym_check_rel(a[c], q[8 * i + c], 1e-14, c < 3 ? "coordinates" : "velocities");
			sym_check_rel(x.get_mass()[i], q[8 * i + 6] * fac, 1e-12, "mass in units where G is one");
		}
		if(what) { const nbcolor_t& c = x.get_color()[i]; sym_check(c.x == 1 && c.y == 1 && c.z == 1 && c.w == 1, "colour"); }
	}
	if(what == 0) sym_check(d.is_equal(x) && x.is_equal(d), "state compares equal after the round trip");
	sym_reached("done");
	return 0;
}
