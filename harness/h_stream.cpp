// Writing frames to a stream (with part splitting, appending, reopening) and reading them back.
#include "stream.h"
int main()
{
	size_t n = sym_param("n", 1), frames = sym_param("frames", 3), first = sym_param("first", frames); int what = sym_param("what", 0), app = sym_param("append", 0), symt = sym_param("symt", what == 1), again = sym_param("again", 0);
	bool bits = what == 0;
	nbody_data d; if(!boxed(d, n)) { sym_fail("initial state"); return 0; }
	vd m(n); std::vector<float> col(4 * n);
	for(size_t i = 0; i < n; ++i)
	{
		m[i] = bits && (i == 0 || i == n - 1) ? sym_f64_any(nm("m", i).c_str(), 1.5 + i) : 1.5 + i;
		for(int c = 0; c < 4; ++c) col[4 * i + c] = bits && i == n - 1 ? sym_f32(nm("c", c).c_str(), 0.25 * c + 0.1 * i, 0, 1) : float(0.25 * c + 0.01 * i);
		d.get_mass()[i] = m[i]; d.get_color()[i] = nbcolor_t(col[4 * i], col[4 * i + 1], col[4 * i + 2], col[4 * i + 3]);
	}
	size_t fs = 48 * n; qint64 part = sym_param("part", -1);
	if(part == -2) part = (qint64)sym_u64("part", 2 * fs, 1, (frames + 1) * fs);
	std::vector<Frame> f;
	for(size_t k = 0; k < frames; ++k) f.push_back(make_frame(k, n, what == 0 ? k == (size_t)sym_param("live", 0) || k + 1 == frames : false, bits, symt && (k == (size_t)sym_param("live", 0) || k + 1 == frames)));
	std::string base = std::string(sym_scratch()) + "/sub/dir/s";
	QString name = QString::fromStdString(base);
	nbody_data_stream w; nbody_data_stream_reader rd;
	if(again)
	{
		// an unrelated, longer stream was written before, under this name and with the same objects
		nbody_data o; boxed(o, n + 1, 9); for(size_t i = 0; i <= n; ++i) { o.get_mass()[i] = 99 + i; o.get_color()[i] = nbcolor_t(0.5f, 0.5f, 0.5f, 0.5f); }
		sym_check(0 == w.open(again == 2 ? QString::fromStdString(base + "old") : name, 1), "open for writing");
		for(size_t k = 0; k < frames + 2; ++k) { o.set_time(k); o.set_step(k); sym_check(0 == w.write(&o), "write"); }
		w.close();
		sym_check(0 == rd.load(again == 2 ? QString::fromStdString(base + "old") : name), "load");
		nbody_data t; blank(t, n + 1); sym_check(0 == rd.read(&t), "read"); sym_check(t.get_mass()[n] == 99 + n, "masses of the earlier stream");
		if(again == 3) rd.close();
	}
	sym_check(0 == w.open(name, part), "open for writing");
	for(size_t k = 0; k < first; ++k) { put(d, f[k]); sym_check(0 == w.write(&d), "write"); }
	w.close();
	if(app)
	{
		size_t k = first;
		while(k < frames)
		{
			nbody_data_stream_reader a; sym_check(0 == a.load(name), "load to append"); sym_check(a.get_frame_count() == k, "frame count before appending");
			nbody_data_stream w2; nbody_data_stream& ww = app == 2 ? w : w2;
			sym_check(0 == ww.open(name, part, &a), "open for appending"); a.close();
			for(size_t e = app == 3 ? k + 1 : frames; k < e; ++k) { put(d, f[k]); sym_check(0 == ww.write(&d), "write"); }
			ww.close();
		}
		sym_reached("appended");
	}
	sym_check(0 == rd.load(name), "load");
	sym_check(rd.get_frame_count() == frames, "frame count"); sym_check(rd.get_body_count() == n, "body count"); sym_check(rd.get_coord_size() == sizeof(double), "coordinate size"); sym_check(rd.get_box_size() == 7, "box size");
	if(bits) sym_check_u64(rd.get_steps_count(), f[frames - 1].step, "last step");
	if(!bits) sym_check_rel(rd.get_max_time(), f[frames - 1].t, 2e-14, "last time");
	// sequential
	nbody_data x; blank(x, n);
	for(size_t k = 0; k < frames; ++k)
	{
		sym_check(rd.get_current_frame() == k, "frame position"); sym_check(0 == rd.read(&x), "sequential read");
		same(x, f[k], bits, !bits, "sequential read");
	}
	for(size_t i = 0; i < n; ++i)
	{
		if(bits) sym_check_bits(x.get_mass()[i], m[i], "masses"); else sym_check(x.get_mass()[i] == m[i], "masses");
		const nbcolor_t& q = x.get_color()[i]; float cc[4] = {q.x, q.y, q.z, q.w};
		for(int c = 0; c < 4; ++c) if(bits) sym_check_bits32(cc[c], col[4 * i + c], "colours"); else sym_check(cc[c] == col[4 * i + c], "colours");
	}
	// backwards, into another object
	for(size_t k = frames; k-- > 0;)
	{
		nbody_data y; blank(y, n);
		sym_check(0 == rd.seek(k), "seek"); sym_check(rd.get_current_frame() == k, "frame position"); sym_check(0 == rd.read(&y), "read after seek");
		same(y, f[k], bits, !bits, "read after seek");
		for(size_t i = 0; i < n; ++i) { if(bits) sym_check_bits(y.get_mass()[i], m[i], "masses in every destination"); else sym_check(y.get_mass()[i] == m[i], "masses in every destination"); sym_check(y.get_color()[i].x == x.get_color()[i].x, "colours in every destination"); }
	}
	sym_reached("read back");
	return 0;
}
