// C09: equidistant grids.
#include "InterpolatingVector.hpp"
#include "Mathfunctions.hpp"
#include "Timedata.hpp"
#include "mc.hpp"
using namespace Aux;

static void check(mc::Explorer &ex, std::string const &what, Interpolation_data d, double start, double end, double step, std::size_t n) {
  double scale = std::max({std::abs(start), std::abs(end), end - start});
  ex.expect(d.number_of_entries == n, "grid-count", what + ": " + std::to_string(d.number_of_entries) + " points instead of " + std::to_string(n));
  ex.expect(mc::close(d.first_point, start, 0), "grid-start", what + ": starts at " + mc::num(d.first_point));
  if (n > 1) ex.expect(mc::close(d.delta, step, 1e-12), "grid-step", what + ": step " + mc::num(d.delta) + " instead of " + mc::num(step));
  InterpolatingVector v(d, 1);
  ex.expect(v.size() == static_cast<Eigen::Index>(n), "grid-count", what + ": vector has " + std::to_string(v.size()) + " points");
  auto p = v.get_interpolation_points();
  ex.expect(p[0] == start, "grid-start", what + ": first point " + mc::num(p[0]));
  double tol = std::min(1e-9, scale * 1e-13 + 1e-15);
  if (scale * 1e-15 > tol) tol = scale * 1e-15;
  for (std::size_t i = 0; i < n; ++i) {
    double want = start + static_cast<double>(i) * step;
    double got = p[static_cast<Eigen::Index>(i)];
    if (!(std::abs(got - want) <= tol)) ex.fail("grid-point", what + ": point " + std::to_string(i) + " of " + std::to_string(n) + " is " + mc::num(got) + " instead of " + mc::num(want));
    if (i && !(got > p[static_cast<Eigen::Index>(i) - 1])) ex.fail("grid-point", what + ": points do not increase");
  }
  ex.expect(std::abs(p[static_cast<Eigen::Index>(n) - 1] - end) <= tol, "grid-end", what + ": ends at " + mc::num(p[static_cast<Eigen::Index>(n) - 1]) + " instead of " + mc::num(end));
}

int main(int argc, char **argv) {
  mc::Explorer ex(argc, argv);
  std::vector<double> const starts = {0, -3.5, 0.1, 1000, 1e6};
  std::vector<double> const lengths = {1, 0.3, 7, 100, 3600, 86400, 1e-3};
  std::vector<double> const bad = {0, -1, -1e-9};

  ex.scenario("start step end", [&] {
    double start = ex.of(starts), len = ex.of(lengths);
    int steps = ex.of(std::vector<int>{1, 2, 3, 4, 7, 10, 24, 50, 100, 999, 1000, 86400, 200000});
    ex.split();
    double frac = ex.of(std::vector<double>{1.0, 0.75, 0.5001, 1.3});
    double end = start + len;
    double desired = (end - start) / steps * frac;
    std::string what = "from " + mc::num(start) + " step " + mc::num(desired) + " to " + mc::num(end);
    auto d = make_from_start_delta_end(start, desired, end);
    // as many steps as needed for steps no larger than desired (a step more or less by rounding)
    double exact = (end - start) / desired;
    auto n = d.number_of_entries;
    ex.state(what);
    if (n > 2) ex.nontrivial();
    ex.expect(n >= 2, "grid-count", what + ": " + std::to_string(n) + " points");
    double intervals = static_cast<double>(n - 1);
    ex.expect(intervals >= exact * (1 - 1e-12) && intervals < exact * (1 + 1e-12) + 1, "grid-count", what + ": " + std::to_string(n - 1) + " steps for " + mc::num(exact));
    check(ex, what, d, start, end, (end - start) / intervals, n);
    Model::Timedata td({{"start_time", start}, {"end_time", end}, {"desired_delta_t", desired}});
    ex.expect(td.get_starttime() == start && td.get_endtime() == end, "timedata", what + ": start and end time");
    ex.expect(static_cast<std::size_t>(td.get_number_of_time_points()) == n, "timedata", what + ": number of time points");
    ex.expect(mc::close(td.get_delta_t(), (end - start) / intervals, 1e-12), "timedata", what + ": step");
    ex.expect(td.get_delta_t() <= desired * (1 + 1e-12), "timedata", what + ": step larger than desired");
    // what grazer run does with it
    auto d2 = make_from_start_delta_end(td.get_starttime(), td.get_delta_t(), td.get_endtime());
    ex.expect(d2.number_of_entries == n || d2.number_of_entries == n + 1, "grid-count", what + ": number of points of the simulation grid");
    check(ex, what + " (simulation grid)", d2, start, end, (end - start) / static_cast<double>(d2.number_of_entries - 1), d2.number_of_entries);
  });

  ex.scenario("start number end", [&] {
    double start = ex.of(starts), len = ex.of(lengths);
    int n = ex.of(std::vector<int>{2, 3, 4, 5, 8, 11, 50, 101, 1000, 86401, 250001});
    ex.split();
    double end = start + len;
    std::string what = "from " + mc::num(start) + " with " + std::to_string(n) + " points to " + mc::num(end);
    ex.state(what);
    if (n > 2) ex.nontrivial();
    check(ex, what, make_from_start_number_end(start, end, n), start, end, (end - start) / (n - 1), static_cast<std::size_t>(n));
  });

  ex.scenario("start step number", [&] {
    double start = ex.of(starts);
    double step = ex.of(std::vector<double>{1, 0.1, 1.0 / 3, 60, 1e-3, 1e-6});
    int n = ex.of(std::vector<int>{1, 2, 3, 10, 1001, 86401, 250001});
    ex.split();
    std::string what = "from " + mc::num(start) + " with " + std::to_string(n) + " points and step " + mc::num(step);
    ex.state(what);
    if (n > 2) ex.nontrivial();
    check(ex, what, make_from_start_delta_number(start, step, n), start, start + step * (n - 1), step, static_cast<std::size_t>(n));
  });

  // specifications that describe no grid are refused with an error
  ex.scenario1("refusals", [&] {
    int kind = ex.choose(3);
    double start = ex.of(starts);
    int rc = -1;
    std::string what;
    if (kind == 0) {
      double step = ex.of(std::vector<double>{0, -1, 1, 0.3});
      double len = ex.of(std::vector<double>{0, -1, -1e-3, 2});
      if (step > 0 && len > 0) ex.skip();
      what = "step " + mc::num(step) + " length " + mc::num(len);
      rc = mc::in_child([&] { InterpolatingVector v(make_from_start_delta_end(start, step, start + len), 1); });
    } else if (kind == 1) {
      int n = ex.of(std::vector<int>{-1, 0, 1, 2, 5});
      double len = ex.of(std::vector<double>{0, -1, 2});
      if (n > 1 && len > 0) ex.skip();
      what = "number " + std::to_string(n) + " length " + mc::num(len);
      rc = mc::in_child([&] { InterpolatingVector v(make_from_start_number_end(start, start + len, n), 1); });
    } else {
      int n = ex.of(std::vector<int>{-1, 0, 3});
      double step = ex.of(std::vector<double>{0, -1, -1e-12, 1});
      if (n > 0 && step > 0) ex.skip();
      what = "number " + std::to_string(n) + " step " + mc::num(step);
      rc = mc::in_child([&] { InterpolatingVector v(make_from_start_delta_number(start, step, n), 1); });
    }
    what = "start " + mc::num(start) + " " + what;
    ex.state(what);
    ex.nontrivial();
    ex.expect(rc == 1, rc == 0 ? "bad-grid-accepted" : "bad-grid-crash", what + (rc == 0 ? " was accepted" : " crashed instead of raising an error"));
  });
  return ex.finish();
}
