// Arbitrary histories of a stream reader against a model of "the frame it stands at".
#include "stream.h"
static nbody_data_stream_reader* g_rd;
int main()
{
	size_t n = 1, frames = sym_param("frames", 3), ops = sym_param("ops", 3), per = sym_param("per", 1); long missing = sym_param("missing", -1); int torn = sym_param("torn", 0);
	nbody_data d; if(!boxed(d, n)) { sym_fail("initial state"); return 0; }
	d.get_mass()[0] = 2.5; d.get_color()[0] = nbcolor_t(0.1f, 0.2f, 0.3f, 0.4f);
	std::vector<Frame> f; std::string base = std::string(sym_scratch()) + "/s"; QString name = QString::fromStdString(base);
	nbody_data_stream w; sym_check(0 == w.open(name, per * 48 * n), "open for writing");
	for(size_t k = 0; k < frames; ++k) { f.push_back(make_frame(k, n, k == 1, true, false)); f[k].step = 3 * k + 2; put(d, f[k]); sym_check(0 == w.write(&d), "write"); }
	w.close();
	nbody_data_stream_reader rd; g_rd = &rd;
	sym_check(0 == rd.load(name), "load");
	// damage done behind the reader's back: a lost part, or a part cut short
	std::vector<bool> lost(frames, false);
	if(missing >= 0) { QFile::remove(nbody_data_stream::make_dat_name(name, missing)); for(size_t k = 0; k < frames; ++k) lost[k] = k / per == (size_t)missing; sym_check(0 == rd.load(name) || lost[0], "load with a lost part"); }
	if(torn)
	{
		size_t last = (frames - 1) / per, fs = 48 * n, inpart = frames - last * per;
		const size_t end = inpart * fs, cuts[7] = {0, 1, fs / 2, fs - 1, end - fs, end - fs / 2, end - 1};
		size_t keep = cuts[sym_u64("length", 2, 0, 6)];
		QFile::resize(nbody_data_stream::make_dat_name(name, last), keep);
		for(size_t k = last * per; k < frames; ++k) lost[k] = (k - last * per + 1) * fs > keep;
		rd.load(name);
	}
	if(lost[0] && missing >= 0) { sym_reached("history done"); sym_reached("a lost frame is reported"); return 0; }
	size_t pos = 0; bool stuck = false;   // stuck: past the last frame, or the data of the next frame cannot be reached
	for(size_t o = 0; o < ops; ++o)
	{
		uint64_t op = sym_u64(nm("op", o).c_str(), o % 2, 0, 4);
		if(op == 0)
		{
			nbody_data x; blank(x, n); int r = rd.read(&x);
			if(stuck || lost[pos]) { sym_check(r != 0, "a frame that is not there is not delivered"); sym_reached("a lost frame is reported"); stuck = true; sym_check(rd.get_current_frame() == pos, "frame position after a failed read"); }
			else
			{
				sym_check(r == 0, "read"); same(x, f[pos], true, true, "read"); sym_check(x.get_mass()[0] == 2.5 && x.get_color()[0].y == 0.2f, "masses and colours");
				if(pos + 1 == frames) stuck = true; else if(lost[pos + 1] && missing >= 0) stuck = true; else ++pos;
			}
		}
		else if(op == 1)
		{
			uint64_t to = sym_u64(nm("to", o).c_str(), (o + 1) % frames, 0, (uint64_t)-1);
			int r = rd.seek(to); bool in = to < frames;
			if(!in) { sym_check(r != 0, "a seek behind the last frame is refused"); sym_reached("seek out of range"); }
			else
			{
				size_t k = 0; while(k < to) ++k;
				if(lost[k] && missing >= 0) { sym_check(r != 0, "a seek to a lost part is refused"); stuck = true; }
				else { sym_check(r == 0, "seek"); pos = k; stuck = false; }
			}
		}
		else if(op == 2)
		{
			nbody_data x; blank(x, n + 1); sym_check(rd.read(&x) != 0, "a destination of another size is refused");
			sym_check(x.get_vertites()[0].x == -777 && x.get_time() == -777 && x.get_step() == 777777 && x.get_mass()[1] == -777, "a refused destination is left alone");
		}
		else if(op == 3) sym_check(rd.read(NULL) != 0, "no destination");
		else { int r = rd.load(name); if(!(lost[0] && missing >= 0)) sym_check(r == 0, "load again"); pos = 0; stuck = false; }
		if(!stuck || missing < 0) sym_check(rd.get_current_frame() == pos, "frame position");
		sym_check(rd.get_frame_count() == frames && rd.get_body_count() == n && rd.get_coord_size() == sizeof(double) && rd.get_box_size() == 7, "header");
	}
	rd.close(); sym_check(rd.get_frame_count() == 0, "closed: no frames"); nbody_data x; blank(x, n); sym_check(rd.read(&x) != 0, "closed: no read"); sym_check(rd.seek(0) != 0, "closed: no seek");
	sym_reached("history done");
	return 0;
}
