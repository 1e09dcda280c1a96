// The player's view of a frame: what is drawn where, seen from where, in which colour.
#include "common.h"
#include <QOpenGLWidget>
#include "wgt_nbody_view.h"
#include "uistub/gl.inc"
static void v3(const double* a, double x, double y, double z, const char* l) { sym_check_eq(a[0], x, 100, l); sym_check_eq(a[1], y, 100, l); sym_check_eq(a[2], z, 100, l); }
struct Box { double lo[3], hi[3]; };
static Box box_of(const vd* r, size_t n)
{
	Box b;
	for(int c = 0; c < 3; ++c) { b.lo[c] = b.hi[c] = r[c][0]; for(size_t i = 1; i < n; ++i) { b.lo[c] = sym_ite(r[c][i] < b.lo[c], r[c][i], b.lo[c]); b.hi[c] = sym_ite(r[c][i] > b.hi[c], r[c][i], b.hi[c]); } }
	return b;
}
int main()
{
	size_t n = sym_param("n", 2), nsym = sym_param("nsym", 2); int stereo = sym_param("stereo", 0), speed = sym_param("speed", 0), showbox = sym_param("box", 0), frames = sym_param("frames", 1), image = sym_param("image", 0), rest = sym_param("rest", 0);
	int W = sym_param("w", 640), H = sym_param("hh", 480), inten = sym_param("inten", 255), symsplit = sym_param("symsplit", 0), symvel = sym_param("symvel", 0), sympos = sym_param("sympos", 1);
	Bodies b = make_bodies(n, nsym, false, false, 100);
	if(!sympos) for(size_t i = 0; i < n; ++i) for(int c = 0; c < 3; ++c) b.r[c][i] = gen(i * 7 + c, -9, 9);
	for(size_t i = 0; i < n; ++i) for(int c = 0; c < 3; ++c)
	{
		// bodies 0 and 1 span the velocities, the others are anywhere between
		if(symvel) { double dr = sym_param("drift", 28) / 10.0; b.v[c][i] = i == 0 ? dr - 3 : i == 1 ? dr + 3 : sym_f64(nm("u", 3 * i + c).c_str(), gen(i + c, dr - 3, dr + 3), dr - 3, dr + 3); }
		if(rest) b.v[c][i] = rest == 1 ? 0 : 1.5;
	}
	// bodies 0 and 1 span a proper box
	if(n > 1) for(int c = 0; c < 3; ++c) b.r[c][1] = b.r[c][0] + (sympos ? sym_f64(nm("e", c).c_str(), 3 + 2 * c, 0.01, 100) : 3 + 2 * c);
	nbody_data data; std::vector<vd> col(4, vd(n));
	for(size_t i = 0; i < n; ++i)
	{
		for(int k = 0; k < 4; ++k) col[k][i] = k < 3 ? sym_f32(nm("c", 4 * i + k).c_str(), float(gen(i * 4 + k, 0, 1)), 0, 1) : 1;
		data.add_body(nbvertex_t(b.r[0][i], b.r[1][i], b.r[2][i]), nbvertex_t(b.v[0][i], b.v[1][i], b.v[2][i]), b.m[i], nbcolor_t(float(col[0][i]), float(col[1][i]), float(col[2][i]), 1), 0.5);
	}
	data.set_step(4711); data.set_time(2.5);
	double sx = symsplit & 1 ? sym_f64("sx", 0.5, 0.1, 0.9) : sym_param("sx100", 50) / 100.0, sy = symsplit & 2 ? sym_f64("sy", 0.5, 0.1, 0.9) : sym_param("sy100", 50) / 100.0;
	double scale = sym_f64("scale", 1, 0.25, 4), psize = sym_param("size", 1);
	wgt_nbody_view view(&data);
	view.set_split_point(QPointF(sx, sy)); view.set_scale(scale); view.set_stereo_base(stereo); view.set_color_from_velosity(speed); view.set_show_box(showbox); view.set_star_intensity(inten); view.set_star_size(psize);
	sym_check(view.get_color_from_velosity() == bool(speed), "colour mode is kept");
	view.initializeGL();
	Box box = box_of(b.r, n), vel = box_of(b.v, n);
	double mid[3], ext[3], d2 = 0, vext = 0;
	for(int c = 0; c < 3; ++c) { mid[c] = (box.lo[c] + box.hi[c]) / 2; ext[c] = box.hi[c] - box.lo[c]; d2 = d2 + 4 * ext[c] * ext[c]; vext = vext + (vel.hi[c] - vel.lo[c]) * (vel.hi[c] - vel.lo[c]); }
	double dist = sqrt(d2) * scale; vext = sqrt(vext);
	for(int f = 0; f < frames; ++f)
	{
		if(f) for(size_t i = 0; i < n; ++i) for(int c = 0; c < 3; ++c) { b.r[c][i] = b.r[c][i] * 1.5 + double(i); b.v[c][i] = b.v[c][i] * 0.5 - 0.25; data.get_vertites()[i] = nbvertex_t(b.r[0][i], b.r[1][i], b.r[2][i]); data.get_velosites()[i] = nbvertex_t(b.v[0][i], b.v[1][i], b.v[2][i]); }
		ui_draws.clear(); ui_text.clear(); ui_lines.clear(); ui_clears = 0;
		if(image == 1) { view.render_to_image(); W = 1920; H = 1080; }
		else if(image == 2) { view.resize(W, H); static_cast<wgt_nbody_view&>(view).paintGL(); }
		else view.paintGL(&view, W, H, 1);
		sym_check(ui_clears > 0, "the picture starts empty");
		// the four panes, by where they lie
		int X = -1, Y = -1;
		std::vector<const UiDraw*> pts[4], lns[4];
		for(size_t k = 0; k < ui_draws.size(); ++k)
		{
			const UiDraw& d = ui_draws[k]; if(d.p.empty()) continue;
			if(d.mode != GL_POINTS && d.mode != GL_LINES) { sym_fail("unknown drawing"); continue; }
			bool right = sym_concrete(d.v.x) > 0 || (sx == 0), top = sym_concrete(d.v.y) > 0 || (sy == 0);
			if(d.v.w == 0 || d.v.h == 0) continue;
			int q = (right ? 1 : 0) + (top ? 2 : 0);
			(d.mode == GL_POINTS ? pts : lns)[q].push_back(&d);
			sym_check(d.view_ok, "one perspective and one camera make the view");
		}
		for(int q = 0; q < 4; ++q)
		{
			bool right = q & 1, top = q & 2, empty = (right ? sx == 1 : sx == 0) || (top ? sy == 1 : sy == 0);
			if(empty) continue;
			size_t eyes = stereo ? 2 : 1;
			if(pts[q].size() != eyes) { sym_fail("each pane shows the bodies once for each eye"); continue; }
			static const double dir[4][3] = {{0, 0, -1}, {1, 0, 0}, {0, -1, 0}, {0, -1, -1}}, ups[4][3] = {{0, 1, 0}, {0, 1, 0}, {0, 0, -1}, {0, 0, 1}};
			double cam[3], ray[3]; for(int c = 0; c < 3; ++c) { cam[c] = mid[c] + dir[q][c] * dist; ray[c] = -dir[q][c] * dist; }
			for(size_t e = 0; e < eyes; ++e)
			{
				const UiDraw& d = *pts[q][e]; const UiView& v = d.v;
				// panes tile the window and meet at the split point
				int px = right ? v.x : v.w, py = top ? v.y : v.h;
				if(X < 0) { X = px; Y = py; }
				sym_check(px == X && py == Y, "the panes meet in one point");
				sym_check(right ? v.x + v.w == W : v.x == 0, "panes fill the width"); sym_check(top ? v.y + v.h == H : v.y == 0, "panes fill the height");
				double ex = X - W * sx, ey = Y - H * sy;
				sym_check(sym_and(sym_and(ex <= 1, ex >= -1), sym_and(ey <= 1, ey >= -1)), "the panes meet at the split point");
				sym_check_eq(v.aspect * v.h, v.w, 1e3, "undistorted");
				sym_check(v.fovy == 60 && v.znear == 1, "the same perspective everywhere");
				v3(v.at, mid[0], mid[1], mid[2], "the camera looks at the middle of the box");
				if(!stereo) v3(v.eye, cam[0], cam[1], cam[2], "camera position");
				else
				{
					double s = e ? -1 : 1, k = stereo / 1000.0, off[3], right_[3];
					for(int c = 0; c < 3; ++c) off[c] = s * (v.eye[c] - cam[c]);
					for(int c = 0; c < 3; ++c) right_[c] = ray[(c + 1) % 3] * ups[q][(c + 2) % 3] - ray[(c + 2) % 3] * ups[q][(c + 1) % 3];
					double rr = right_[0] * right_[0] + right_[1] * right_[1] + right_[2] * right_[2], r2 = ray[0] * ray[0] + ray[1] * ray[1] + ray[2] * ray[2];
					double len = sqrt(r2) / sqrt(rr) * k;
					v3(off, right_[0] * len, right_[1] * len, right_[2] * len, "the eyes stand aside by the stereo base");
				}
				double uu = v.up[0] * ups[q][0] + v.up[1] * ups[q][1] + v.up[2] * ups[q][2];
				sym_check(uu > 0, "upwards is up");
				sym_check(!d.depth, "bodies do not hide each other"); sym_check(d.adds, "light adds up");
				sym_check_eq(d.size, psize, 1, "size of the points");
				if(d.p.size() != n) { sym_fail("every body is drawn once"); continue; }
				for(size_t i = 0; i < n; ++i)
				{
					v3(d.p[i].r, b.r[0][i], b.r[1][i], b.r[2][i], "bodies are drawn where they are");
					double in = float(inten) / 255.0f, ref[3];
					if(stereo) for(int k = 0; k < 3; ++k) ref[k] = (k == 0) == (e == 0) ? 1 : 0;
					else if(!speed) for(int k = 0; k < 3; ++k) ref[k] = col[k][i];
					else
					{
						static const double lut[4][3] = {{0.3f, 0.3f, 1}, {0, 1, 0}, {1, 1, 0}, {1, 0, 0}};
						double sp = sqrt(b.v[0][i] * b.v[0][i] + b.v[1][i] * b.v[1][i] + b.v[2][i] * b.v[2][i]);
						if(!(sp > 0)) for(int k = 0; k < 3; ++k) ref[k] = lut[0][k];
						else if(sp >= vext) for(int k = 0; k < 3; ++k) ref[k] = lut[3][k];
						else
						{
							double t = 3 * sp / vext; int seg = t < 1 ? 0 : t < 2 ? 1 : 2; double w = t - seg;
							for(int k = 0; k < 3; ++k) ref[k] = lut[seg][k] * (1 - w) + lut[seg + 1][k] * w;
							sym_reached("graded colour");
						}
					}
					for(int k = 0; k < 3; ++k) sym_check_eq(d.p[i].c[k], ref[k] * in, 30, "bodies have their colour");
				}
			}
			if(stereo) continue;
			if(!showbox) { if(!lns[q].empty()) sym_fail("no box unless asked for"); continue; }
			size_t cnt = 0; int seen[8][8] = {{0}};
			for(size_t k = 0; k < lns[q].size(); ++k)
			{
				const UiDraw& d = *lns[q][k];
				for(size_t i = 0; i + 1 < d.p.size(); i += 2, ++cnt)
				{
					int id[2];
					for(int s = 0; s < 2; ++s)
					{
						id[s] = 0;
						for(int c = 0; c < 3; ++c)
						{
							// the nearer face, on this run
							int hi = sym_concrete(d.p[i + s].r[c]) > sym_concrete(mid[c]); id[s] |= hi << c;
							sym_check_eq(d.p[i + s].r[c], mid[c] + (hi ? ext[c] : -ext[c]), 100, "corners of the box");
						}
					}
					seen[id[0]][id[1]]++; seen[id[1]][id[0]]++;
				}
			}
			for(int a = 0; a < 8; ++a) for(int c = 0; c < 8; ++c) { int x = a ^ c; bool edge = x == 1 || x == 2 || x == 4; sym_check(edge ? seen[a][c] > 0 : seen[a][c] == 0, "the twelve edges of the box"); }
		}
		bool st = false, ct = false, tt = false;
		for(size_t k = 0; k < ui_text.size(); ++k) { st |= ui_text[k].contains("4711"); ct |= ui_text[k].contains("Stars") && ui_text[k].endsWith(" " + QString::number(n)); tt |= ui_text[k].startsWith("T") && ui_text[k].endsWith(" 2.5"); }
		sym_check(st && ct && tt, "step, time and number of bodies are shown");
		sym_check(data.get_count() == n, "the data are not changed");
	}
	sym_reached("painted");
	return 0;
}
