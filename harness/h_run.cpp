// The simulation loop: which steps are made, when reports and dumps happen and what they see, what a write failure does.
#include "uf_engine.h"
#include "cli.h"
#include "nbody_data_stream.h"
#include "nbody_step_visitor.h"
#include <memory>
struct Ev { char what; double t; size_t step; double y[6]; };
static std::vector<Ev> LOG;
static void see(char w, const nbody_data* d)
{
	Ev e; e.what = w; e.t = d->get_time(); e.step = d->get_step(); const nbvertex_t& r = d->get_vertites()[0], &v = d->get_velosites()[0];
	e.y[0] = r.x; e.y[1] = r.y; e.y[2] = r.z; e.y[3] = v.x; e.y[4] = v.y; e.y[5] = v.z; LOG.push_back(e);
}
struct Stream : nbody_data_stream { size_t n, failat; Stream() : n(0), failat(0) {} int write(const nbody_data* d) override { see('D', d); return ++n == failat ? -1 : 0; } };
struct Visitor : nbody_step_visitor { void visit(const nbody_data* d) override { see('C', d); } };
struct Eng : uf_engine
{
	void clamp(memory* y, nbcoord_t b) override { Ev e; e.what = 'B'; e.t = b; e.step = y == get_y(); for(int i = 0; i < 6; ++i) e.y[i] = 0; LOG.push_back(e); }
};
int main()
{
	bool clamp = sym_param("clamp", 0), stream = sym_param("stream", 1); size_t fail = sym_param("fail", 0);
	nbody_data data; data.add_body(nbvertex_t(1, 2, 3), nbvertex_t(-1, 0.5, 0.25), 1, nbcolor_t(1, 1, 1, 1), 0.5);
	double t0 = sym_f64("t0", 0, -0.5, 0.5), dt = sym_f64("dt", 0.6, 0.5, 1), tmax = sym_f64("tmax", 1.3, -1, sym_param("long", 0) ? 2.5 : 1.5);
	double dump = sym_f64("dump", 0.6, -1, 2), check = sym_f64("check", 1.2, -1, 2);
	data.set_time(t0); data.set_step(5); data.set_check_list("");
	Eng e; if(!e.init(&data)) { sym_fail("init"); return 0; }
	e.rhs.ps = e.problem_size(); e.rhs.live = sym_param("live", 1);
	Args p; p.s("solver", "euler"); if(p.cli) { p.d("max_step", dt); p.b("clamp", clamp); p.d("min_step", dt / 2); }
	nbody_solver* s = nbody_create_solver(p.map());
	s->set_engine(&e); if(!p.cli) { s->set_time_step(dt, dt); s->set_clamp_to_box(clamp); }
	s->add_check_visitor(std::make_shared<Visitor>()); if(sym_param("visitors", 1) == 2) s->add_check_visitor(std::make_shared<Visitor>());
	Stream st; st.failat = fail;
	int rc = s->run(&data, stream ? &st : NULL, tmax, dump, check);
	// expected history
	size_t at = 0, dumps = 0, step = 5; double t = t0, last_dump = t0, last_check = t0; vd y(6); y[0] = 1; y[1] = 2; y[2] = 3; y[3] = -1; y[4] = 0.5; y[5] = 0.25; int want = 0;
	auto expect = [&](char w) -> bool
	{
		if(at >= LOG.size() || LOG[at].what != w) { sym_check(false, w == 'D' ? "a frame is written when it is due" : w == 'C' ? "observers are called when a report is due" : "positions are wrapped before each step if requested"); return false; }
		const Ev& x = LOG[at++];
		if(w == 'B') { sym_check(x.step == 1, "the state is what is wrapped"); sym_check_eq(x.t, double(data.get_box_size()), 1, "wrapping uses the box size"); return true; }
		sym_check_eq(x.t, t, 1, "reports and frames carry the current time"); sym_check(x.step == step, "reports and frames carry the current step number");
		for(int i = 0; i < 6; ++i) sym_check_eq(x.y[i], y[i], 1 + fabs(y[i]), "reports and frames carry the current state");
		return true;
	};
	bool go = true;
	if(stream) if(dump > 0) if(t <= 0) { if(!expect('D')) return 0; ++dumps; if(dumps == fail) { want = -1; go = false; } }
	while(go && t < tmax)
	{
		if(clamp && !expect('B')) return 0;
		y = axpy(y, e.rhs(t, y), dt); t = t + dt; ++step;
		if(check > 0) if(t >= last_check + check - dt * 0.1) { for(int k = 0; k < sym_param("visitors", 1); ++k) if(!expect('C')) return 0; last_check = t; sym_reached("report made"); }
		if(stream) if(dump > 0) if(t >= last_dump + dump - dt * 0.1) { if(!expect('D')) return 0; last_dump = t; ++dumps; sym_reached("frame written"); if(dumps == fail) { want = -1; go = false; sym_reached("write failure"); } }
	}
	sym_check(at == LOG.size(), "no frame or report is made that is not due, and nothing happens after a write failure");
	sym_check(rc == want, "the run reports success exactly when every write succeeded");
	sym_check_eq(data.get_time(), t, 1, "the run stops at the first step reaching the end time"); sym_check(data.get_step() == step, "step count");
	vd g = read(&e, e.get_y(), 6); for(int i = 0; i < 6; ++i) sym_check_eq(g[i], y[i], 1 + fabs(y[i]), "final state");
	sym_reached("run finished");
	delete s;
	return 0;
}
