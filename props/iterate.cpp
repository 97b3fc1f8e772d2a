// C23: convergence lists.
#include "fem.hpp"
using namespace gen;
using GooseFEM::Iterate::StopList;

static const double INF = std::numeric_limits<double>::infinity();
static const double NOTNUM = std::numeric_limits<double>::quiet_NaN();

// residual: around the tolerance, equal to the tolerance, equal to an earlier one, special
static double residual(Case& c, const std::vector<double>& history, double tol)
{
    switch (c.in(0, 9)) {
    case 0:
        return tol * 0.5;
    case 1:
        return tol;
    case 2:
        return tol * 2.0;
    case 3:
        return history.empty() ? 0.0 : history.back(); // plateau
    case 4:
        return history.empty() ? 1.0 : history.back() * c.real(0.5, 1.0); // decrease
    case 5:
        return history.empty() ? 1.0 : std::nextafter(history.back(), INF); // barely increase
    case 6:
        return std::nextafter(tol, -INF); // barely converged
    case 7:
        return c.real(0.0, 2.0) * tol;
    case 8:
        return c.pick({0.0, -0.0, -1.0, 1e300, 5e-324, INF, -INF});
    default:
        return c.flip() ? NOTNUM : c.real(0.0, 1.0);
    }
}

PROP(stoplist, 300, 3000)
{
    double tol = c.pick({1e-5, 1.0, 1e-12, 0.0, 1e-3});
    size_t n = c.rare(20) ? c.in(1, 80) : c.in(1, 6);
    StopList stop(n);
    std::vector<double> model(n, INF); // the last n residuals
    size_t steps = c.in(0, n > 6 ? 3 * n : 30);
    bool nan = false, converged = false, not_converged = false, descending = false, reset = false;
    c.desc << "n=" << n << " tol=" << tol << ":";

    auto check = [&]() {
        REQUIRE(c, stop.data().size() == n, "number of residuals " << stop.data().size());
        bool less = true, desc = true;
        for (size_t i = 0; i < n; ++i) {
            double a = stop.data()[i], b = model[i];
            REQUIRE(c, a == b || (std::isnan(a) && std::isnan(b)), "residual " << i << " is " << a << ", expected " << b);
            less = less && model[i] < tol;
            desc = desc && !std::isnan(model[i]) && (i == 0 || model[i] <= model[i - 1]);
        }
        REQUIRE(c, stop.all_less(tol) == less, "all_less: " << stop.all_less(tol) << ", residuals " << str(model) << " tol " << tol);
        REQUIRE(c, stop.descending() == desc, "descending: " << stop.descending() << ", residuals " << str(model));
        // another tolerance
        double t = model.back() * 1.5;
        bool l = true;
        for (auto& r : model) {
            l = l && r < t;
        }
        REQUIRE(c, stop.all_less(t) == l, "all_less(" << t << "), residuals " << str(model));
        converged = converged || less;
        not_converged = not_converged || !less;
        descending = descending || (desc && std::isfinite(model[0]));
    };

    check();
    for (size_t s = 0; s < steps; ++s) {
        size_t op = c.in(0, 19);
        if (op == 18) {
            stop.reset();
            model.assign(n, INF);
            reset = true;
            c.desc << " reset";
        }
        else if (op == 19) {
            n = c.rare(20) ? c.in(1, 80) : c.in(1, 6);
            stop.reset(n);
            model.assign(n, INF);
            reset = true;
            c.desc << " reset(" << n << ")";
        }
        else if (op == 17) {
            StopList other(stop);
            other.roll_insert(0.0);
            c.desc << " copy";
        }
        else {
            double r = residual(c, model, tol);
            nan = nan || std::isnan(r);
            stop.roll_insert(r);
            model.erase(model.begin());
            model.push_back(r);
            c.desc << " " << r;
        }
        check();
    }
    c.nontrivial(steps > n && n > 1);
    c.label(nan, "not a number");
    c.label(converged && not_converged, "converged and not converged");
    c.label(descending, "descending");
    c.label(reset, "reset");
}

PBT_MAIN("C23")
