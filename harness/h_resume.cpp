// A run that is stopped and resumed from its stream, against the same run without interruption.
#include "uf_engine.h"
#include "stream.h"
struct Eng : uf_engine
{
	double box; size_t wraps; Eng() : box(-1), wraps(0) {}
	void clamp(memory* y, nbcoord_t b) override { box = b; ++wraps; nbody_engine_simple::clamp(y, b); }
};
static const char* NAMES[] = {"euler", "midpoint", "midpoint-st", "rk4", "rkdp", "rkf"};
static double DT, DUMP; static size_t LIVE, WRAPS; static bool CLAMP; static double BOX;
static int go(nbody_data& d, nbody_data_stream& s, double until)
{
	Eng e; if(!e.init(&d)) { sym_fail("init"); return -1; }
	e.rhs.ps = e.problem_size(); e.rhs.live = LIVE;
	QVariantMap p; p.insert("solver", NAMES[sym_param("kind", 0)]); nbody_solver* so = nbody_create_solver(p);
	so->set_engine(&e); so->set_time_step(DT / 2, DT); so->set_clamp_to_box(CLAMP);
	int rc = so->run(&d, &s, until, DUMP, 0); e.get_data(&d); WRAPS += e.wraps; if(e.wraps) BOX = e.box;
	delete so; return rc;
}
static void start(nbody_data& d, const vd& y, size_t n)
{
	boxed(d, n);
	for(size_t i = 0; i < n; ++i) { d.get_vertites()[i] = nbvertex_t(y[3 * i], y[3 * i + 1], y[3 * i + 2]); d.get_velosites()[i] = nbvertex_t(y[3 * (n + i)], y[3 * (n + i) + 1], y[3 * (n + i) + 2]); d.get_mass()[i] = 1.5 + i; }
}
int main()
{
	size_t n = sym_param("n", 1), steps = sym_param("steps", 5), every = sym_param("every", 2); LIVE = sym_param("live", 2); CLAMP = sym_param("clamp", 0);
	DT = 0.25; DUMP = DT * every;
	vd y(6 * n); for(size_t i = 0; i < 6 * n; ++i) y[i] = CLAMP ? (i % 3) + 1.5 : sym_f64(nm("y", i).c_str(), gen(i, -2, 2), -10, 10);
	// any step at which the first run ends, after the first frame behind the start
	uint64_t stop = sym_u64("stop", every, every, steps - 1); size_t k = every; while(k < stop) ++k;
	std::string base = std::string(sym_scratch()) + "/"; QString whole = QString::fromStdString(base + "w"), parts = QString::fromStdString(base + "p"); size_t part = sym_param("part", 1000000);
	{ nbody_data d; start(d, y, n); nbody_data_stream s; sym_check(0 == s.open(whole, part), "open"); sym_check(0 == go(d, s, DT * steps), "run"); s.close(); }
	size_t w = WRAPS; double box = BOX;
	{ nbody_data d; start(d, y, n); nbody_data_stream s; sym_check(0 == s.open(parts, part), "open"); sym_check(0 == go(d, s, DT * k), "run"); s.close(); }
	for(int again = 0; again < sym_param("resumes", 1); ++again)
	{
		nbody_data d; nbody_data_stream_reader rd; nbody_data_stream s; WRAPS = 0; BOX = -1;
		sym_check(0 == rd.load(parts), "load"); sym_check(0 == rd.seek(rd.get_frame_count() - 1), "seek"); d.resize(rd.get_body_count()); sym_check(0 == rd.read(&d), "read");
		sym_check(0 == s.open(parts, part, &rd), "append"); rd.close();
		size_t from = d.get_step(); sym_check(d.get_box_size() == 7, "the box size is restored");
		size_t to = again + 1 == sym_param("resumes", 1) ? steps : std::min(steps, from + every);
		sym_check(0 == go(d, s, DT * to), "run"); s.close();
		if(CLAMP) { sym_check(WRAPS == to - from && w == steps, "each step wraps once"); sym_check(WRAPS == 0 || BOX == box, "the resumed run wraps in the same box"); }
	}
	nbody_data_stream_reader a, b; sym_check(0 == a.load(whole) && 0 == b.load(parts), "load both");
	sym_check(a.get_frame_count() == b.get_frame_count(), "a resumed run leaves as many frames as an uninterrupted one"); if(a.get_frame_count() != b.get_frame_count()) return 0;
	for(size_t f = 0; f < a.get_frame_count(); ++f)
	{
		nbody_data x, z; x.resize(n); z.resize(n); sym_check(0 == a.read(&x) && 0 == b.read(&z), "read");
		sym_check(x.get_step() == z.get_step() && x.get_time() == z.get_time(), "frames carry the same step and time");
		for(size_t i = 0; i < n; ++i)
		{
			double u[6] = {x.get_vertites()[i].x, x.get_vertites()[i].y, x.get_vertites()[i].z, x.get_velosites()[i].x, x.get_velosites()[i].y, x.get_velosites()[i].z};
			double v[6] = {z.get_vertites()[i].x, z.get_vertites()[i].y, z.get_vertites()[i].z, z.get_velosites()[i].x, z.get_velosites()[i].y, z.get_velosites()[i].z};
			for(int c = 0; c < 6; ++c) sym_check_eq(v[c], u[c], 1 + fabs(u[c]), "a resumed run continues exactly like an uninterrupted one");
			sym_check(x.get_mass()[i] == z.get_mass()[i] && z.get_mass()[i] == 1.5 + i, "masses survive");
		}
		if(x.get_step() > k) sym_reached("frame of the resumed part");
	}
	sym_reached("compared");
	return 0;
}
