// Generated initial states: a galaxy of given place, velocity, radius and mass; the two-galaxy universe.
#include "common.h"
struct Gal { double c[3], v[3], R, M; };
static void galaxy(const nbody_data& d, size_t from, size_t count, const Gal& g, const nbcolor_t& col, size_t stride)
{
	const nbvertex_t* r = d.get_vertites(); const nbvertex_t* w = d.get_velosites(); const double* m = d.get_mass(); const nbcolor_t* k = d.get_color();
	double sum = 0, stars = 0; for(size_t i = from; i < from + count; ++i) { sum = sum + m[i]; if(i > from) stars = stars + m[i]; }
	sym_check_eq(sum, g.M, g.M, "the masses add up to the requested mass");
	double hole = m[from];
	sym_check_eq(hole, 0.999 * g.M, g.M, "the central body carries 99.9% of the mass");
	double c0[3] = {r[from].x, r[from].y, r[from].z}, v0[3] = {w[from].x, w[from].y, w[from].z};
	for(int c = 0; c < 3; ++c) { sym_check_eq(c0[c], g.c[c], 1, "the central body is at the centre"); sym_check_eq(v0[c], g.v[c], 1, "the central body moves with the galaxy"); }
	for(size_t i = from + 1; i < from + count; i += stride)
	{
		double x = r[i].x - g.c[0], y = r[i].y - g.c[1], z = r[i].z - g.c[2], u = w[i].x - g.v[0], v = w[i].y - g.v[1], q = w[i].z - g.v[2];
		double r2 = x * x + y * y + z * z, R2 = x * x + y * y + z * z / 0.09;
		sym_check_eq(m[i], stars / double(count - 1), g.M, "all stars have the same mass");
		sym_check(R2 <= g.R * g.R * (1 + 1e-9), "every star lies inside the radius (flattened along the axis)");
		sym_check_eq(q, 0, 1, "stars move in the plane of the disc");
		sym_check_eq(u * x + v * y, 0, 1, "stars move perpendicular to the radius");
		double in = hole + pow(sqrt(R2) / g.R, 3.0) * stars;
		sym_check_eq((u * u + v * v) * sqrt(r2), in, g.M, "stars have the speed of a circular orbit around the enclosed mass");
		sym_check(u * y - v * x > 0, "all stars turn the same way");
		sym_check(k[i].x == col.x && k[i].y == col.y && k[i].z == col.z && k[i].w == col.w, "stars have the requested colour");
	}
}
static size_t up(size_t n) { return n == 0 ? 0 : (n + NBODY_DATA_BLOCK_SIZE - 1) / NBODY_DATA_BLOCK_SIZE * NBODY_DATA_BLOCK_SIZE; }
int main()
{
	size_t count = sym_param("count", 5), stride = sym_param("stride", 9); nbody_data d;
	d.add_body(nbvertex_t(1, 2, 3), nbvertex_t(4, 5, 6), 7, nbcolor_t(1, 0, 0, 1));
	if(sym_param("what", 0) == 0)
	{
		Gal g; const char* N[] = {"x", "y", "z"};
		for(int c = 0; c < 3; ++c) { g.c[c] = sym_f64(nm("c", c).c_str(), gen(c, -9, 9), -100, 100); g.v[c] = sym_f64(nm("v", c).c_str(), gen(c + 5, -9, 9), -100, 100); } (void)N;
		int mask = sym_param("mask", 3); g.R = mask & 1 ? sym_f64("R", 10, 1, 1000) : 10; g.M = mask & 2 ? sym_f64("M", 100, 1, 1e6) : 100;
		nbcolor_t col(0.25f, 0.5f, 0.75f, 1);
		d.add_galaxy(nbvertex_t(g.c[0], g.c[1], g.c[2]), nbvertex_t(g.v[0], g.v[1], g.v[2]), g.R, g.M, count, col);
		sym_check(d.get_count() == 1 + up(count), "the number of bodies is the requested one rounded up to whole blocks");
		if(d.get_count() != 1 + up(count)) return 0;
		sym_check_eq(d.get_mass()[0], 7, 1, "bodies already there are kept");
		galaxy(d, 1, up(count), g, col, stride);
	}
	else
	{
		double s[3]; for(int c = 0; c < 3; ++c) s[c] = c == 0 || sym_param("symr", 1) ? sym_f64(nm("s", c).c_str(), 30 + 10 * c, 2, 1000) : 25;
		d.make_universe(count, s[0], s[1], s[2]);
		sym_check(d.get_count() == 2 * up(count), "two galaxies of the requested size replace what was there"); if(d.get_count() != 2 * up(count)) return 0;
		double R = s[0] / 2, sp = sqrt(1000 / (2 * R)) / 3;
		for(int k = 0; k < 2; ++k)
		{
			Gal g; for(int c = 0; c < 3; ++c) { g.c[c] = s[c] / 2; g.v[c] = 0; }
			g.c[0] = g.c[0] + (k ? R : -R); g.v[1] = k ? -sp : sp; g.R = R; g.M = 1000;
			const nbcolor_t col(k ? nbcolor_t(0.8f, 0.4f, 0.4f, 1) : nbcolor_t(0.4f, 0.4f, 0.8f, 1));
			galaxy(d, k * up(count), up(count), g, col, stride);
		}
		double m = s[0]; m = sym_ite(s[1] > m, s[1], m); m = sym_ite(s[2] > m, s[2], m);
		sym_check(double(d.get_box_size()) <= m, "the box is the largest extent"); sym_check(double(d.get_box_size()) > m - 1, "the box is the largest extent");
	}
	sym_reached("done");
	return 0;
}
