// Fixed generic (smooth, nonlinear) interpretation of the uninterpreted functions, for concrete runs and replays.
#include <math.h>
#include <stddef.h>
extern "C" double symuf_value(const char* name, const double* a, size_t n)
{
	double h = 0.37;
	for(const char* p = name; *p; ++p) h = fmod(h * 1.7 + *p * 0.0131, 2.9);
	double s = h;
	for(size_t i = 0; i < n; ++i) s += (0.61 + 0.17 * fmod(1.37 * i + h, 1.9)) * a[i] + 0.05 * sin(1.1 * a[i] + i);
	return 3 * sin(3.3 * s) + 1.1 * cos(5.7 * s + h); // rough enough that distinct stages stay apart
}
