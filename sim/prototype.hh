/*
The filter the resamplers are specified by
*/

#pragma once

#include "core.hh"
#include <cmath>

namespace sim {

static inline double bessel(double x)
{
	double sum = 1, val = 1;
	for (int n = 1; n < 60; ++n) {
		val *= x / (2 * n);
		sum += val * val;
	}
	return sum;
}

// the windowed sinc the filter is specified by, on the grid of OVER points per sample, and its natural cubic spline
struct Prototype
{
	std::vector<double> y, m; // values, second derivatives
	int over;
	Prototype(int taps, int over, double fc, double alpha) : over(over)
	{
		int n = taps * over;
		for (int i = 0; i < n; ++i) {
			double x = double(i) / over - (taps - 1) / 2., a = 2 * fc * x;
			double s = 2 * fc * (a == 0 ? 1 : std::sin(M_PI * a) / (M_PI * a));
			double t = 2. * i / (n - 1) - 1;
			y.push_back(s * bessel(M_PI * alpha * std::sqrt(std::max(0., 1 - t * t))) / bessel(M_PI * alpha));
		}
		// tridiagonal system of the second derivatives, unit knot distance
		m.assign(size_t(n), 0);
		std::vector<double> c(size_t(n), 0), d(size_t(n), 0);
		for (int i = 1; i < n - 1; ++i) {
			double r = 6 * (y[size_t(i) + 1] - 2 * y[size_t(i)] + y[size_t(i) - 1]);
			double w = 4 - c[size_t(i) - 1];
			c[size_t(i)] = 1 / w;
			d[size_t(i)] = (r - d[size_t(i) - 1]) / w;
		}
		for (int i = n - 2; i > 0; --i)
			m[size_t(i)] = d[size_t(i)] - c[size_t(i)] * m[size_t(i) + 1];
	}
	double operator () (double u) const
	{
		double x = u * over;
		int k = std::max(0, std::min(int(y.size()) - 2, int(std::floor(x))));
		double t = x - k, a = m[size_t(k)], b = m[size_t(k) + 1];
		return y[size_t(k)] + t * (y[size_t(k) + 1] - y[size_t(k)] - (2 * a + b) / 6 + t * (a / 2 + t * (b - a) / 6));
	}
};

}
