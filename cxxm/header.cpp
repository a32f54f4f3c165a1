// The public headers alone, used the way the documentation of the operators promises.
#include <adv.hpp>
#include <adv.hpp>
#include <utility>

adv::ADouble header_use(const adv::ADouble& a, double d)
{
	adv::ADouble b(a), c = d, e;
	b = a;
	c = std::move(b);
	e = 2.0;
	e = a + d - d / a * (1.0 - a) + (d + a) / 2 - 3 * a;
	double p = adv::sin(d) + adv::cos(d) + adv::tan(d) + adv::abs(d) + adv::exp(d) + adv::ln(d) + adv::min(d, 1.0) + adv::max(d, 2.0);
	e = adv::min(sin(e), cos(e)) + max(tan(a), p) + abs(exp(ln(a))) + min(1.0, a);
	return e;
}
adv::ADouble context_use()
{
	adv::AContext a, b(std::move(a));
	a = std::move(b);
	adv::ADouble x = a.new_independent();
	a.set_dependent(x);
	return x;
}
