// Small stateless model checker: systematic enumeration of every sequence of choices a scenario
// can make (depth-first, odometer over recorded choice points), with replay, sharding over
// processes and a crash-safe record of the current choice sequence.
#pragma once
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <nlohmann/json.hpp>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace mc {

class Explorer;
inline Explorer *current = nullptr;
// ex.expect(condition, key, message): the message is only built when the condition fails
#define expect(ok, key, ...) tick(ok) ? (void)0 : mc::current->fail(key, __VA_ARGS__)

struct Violation {
  std::string scenario, key, message, trace;
  std::vector<int> path;
};

struct SkipLeaf {};   // not this shard's part of the space, or a combination excluded by the scenario
struct StopLeaf {};   // a violation was found in this execution

class Explorer {
public:
  Explorer(int argc, char **argv) {
    current = this;
    for (int i = 1; i < argc; ++i) {
      std::string a = argv[i];
      auto next = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
      if (a == "--shard") {
        auto v = next();
        std::sscanf(v.c_str(), "%d/%d", &shard_, &shards_);
      } else if (a == "--tier") {
        thorough_ = next() == "thorough";
      } else if (a == "--out") {
        out_ = next();
      } else if (a == "--crash") {
        crashfile_ = next();
      } else if (a == "--only") {
        only_ = next();
      } else if (a == "--scratch") {
        scratch_ = next();
      } else if (a == "--data") {
        data_ = next();
      } else if (a == "--path") {
        replaying_ = true;
        std::stringstream s(next());
        int v;
        while (s >> v) replay_.push_back(v);
      }
    }
    if (!crashfile_.empty()) {
      int fd = ::open(crashfile_.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
      if (fd >= 0 && ::ftruncate(fd, kCrash) == 0) {
        void *p = ::mmap(nullptr, kCrash, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (p != MAP_FAILED) crash_ = static_cast<char *>(p);
      }
      ::close(fd);
    }
    // the code under test reports to stdout and stderr; keep that out of the way
    if (!std::getenv("MC_VERBOSE")) {
      int n = ::open("/dev/null", O_WRONLY);
      saved_out_ = ::dup(1);
      ::dup2(n, 1);
      ::close(n);
    }
  }

  unsigned leaf_seconds = 60;
  bool thorough() const { return thorough_; }
  int pick(int quick, int thorough) const { return thorough_ ? thorough : quick; }
  std::string const &scratch() const { return scratch_; }
  std::string const &data() const { return data_; }
  int shard() const { return shard_; }

  // ------------------------------------------------------------------ choices
  int choose(int n, char const *what = "") {
    if (n <= 0) throw std::logic_error("mc: choose from nothing");
    std::size_t at = pos_++;
    if (at == path_.size()) {
      int first = 0;
      if (replaying_ && at < replay_.size()) first = replay_[at];
      path_.push_back(first);
      limit_.push_back(n);
    } else if (limit_[at] != n) {
      throw std::logic_error("mc: nondeterministic replay at choice point " + std::to_string(at));
    }
    if (path_[at] >= n) throw std::logic_error("mc: choice out of range in replay");
    ++transitions_;
    (void)what;
    publish();
    return path_[at];
  }
  bool flag(char const *what = "") { return choose(2, what) == 1; }
  template <typename T> T const &of(std::vector<T> const &v, char const *what = "") {
    return v[static_cast<std::size_t>(choose(static_cast<int>(v.size()), what))];
  }

  /// Call once the choices made so far identify a unit of work: other shards skip it.
  void split() {
    if (replaying_ || shards_ <= 1) return;
    if (split_seen_path_ != std::vector<int>(path_.begin(), path_.begin() + static_cast<long>(pos_))) {
      split_seen_path_.assign(path_.begin(), path_.begin() + static_cast<long>(pos_));
      ++split_count_;
    }
    if (static_cast<int>(split_count_ % shards_) != shard_) {
      // skip the entire subtree below this prefix
      throw SkipLeaf();
    }
  }
  [[noreturn]] void skip() { throw SkipLeaf(); }

  // ------------------------------------------------------------------ accounting
  template <typename T> static std::uint64_t mix(std::uint64_t h, T const *p, std::size_t n) {
    auto b = reinterpret_cast<unsigned char const *>(p);
    for (std::size_t i = 0; i < n * sizeof(T); ++i) {
      h ^= b[i];
      h *= 1099511628211ull;
    }
    return h;
  }
  void state(std::string const &s) { states_.insert(mix(1469598103934665603ull, s.data(), s.size())); }
  void state(double const *p, std::size_t n, std::uint64_t salt = 0) {
    states_.insert(mix(1469598103934665603ull ^ (salt * 0x9E3779B97F4A7C15ull), p, n));
  }
  void count(std::string const &what, long n = 1) { counters_[what] += n; }
  void nontrivial() { leaf_nontrivial_ = true; }
  void note(std::string const &s) {
    if (trace_.size() < 20000) trace_ += s + "\n";
  }

  [[noreturn]] void fail(std::string const &key, std::string const &message) {
    violate(key, message);
    throw StopLeaf();
  }
  void violate(std::string const &key, std::string const &message) {
    ++violation_total_;
    int &n = per_key_[key];
    if (++n > 2) return; // keep a few of each kind
    violations_.push_back({scenario_, key, message, trace_, {path_.begin(), path_.begin() + static_cast<long>(std::min(pos_, path_.size()))}});
  }
  bool tick(bool ok) {
    ++checks_;
    return ok;
  }
  void sample(std::string const &s) {
    if (samples_.size() < 3) samples_.push_back(s);
  }

  // ------------------------------------------------------------------ exploration
  void scenario(std::string const &name, std::function<void()> const &body) {
    if (!only_.empty() && only_ != name) return;
    scenario_ = name;
    path_.clear();
    limit_.clear();
    split_seen_path_.assign(1, -1);
    split_count_ = 0;
    long leaves = 0;
    for (;;) {
      pos_ = 0;
      leaf_nontrivial_ = false;
      trace_.clear();
      publish();
      ::alarm(leaf_seconds); // an execution that does not end dies here and is reported as a hang
      bool skipped = false;
      try {
        body();
      } catch (SkipLeaf const &) {
        skipped = true;
      } catch (StopLeaf const &) {
      } catch (std::exception const &e) {
        violate("uncaught-exception", std::string("unexpected exception: ") + e.what());
      }
      ::alarm(0);
      // choices recorded but not reached cannot be continued
      path_.resize(std::min(pos_, path_.size()));
      limit_.resize(path_.size());
      if (!skipped) {
        ++evaluations_;
        ++leaves;
        if (leaf_nontrivial_) ++nontrivial_;
        if (leaves == 1 || (leaf_nontrivial_ && samples_.size() < 3)) {
          std::string s = name + " choices=[";
          for (int c : path_) s += std::to_string(c) + " ";
          s += "]";
          if (!trace_.empty()) s += " " + trace_.substr(0, 400);
          if (samples_.size() < 6) samples_.push_back(s);
        }
      }
      if (replaying_) break;
      if (violation_total_ > 200) break;
      // odometer
      while (!path_.empty() && path_.back() + 1 >= limit_.back()) {
        path_.pop_back();
        limit_.pop_back();
      }
      if (path_.empty()) break;
      ++path_.back();
    }
    counters_["scenario:" + name] += leaves;
  }

  /// A small scenario that is explored by one process only.
  void scenario1(std::string const &name, std::function<void()> const &body) {
    if (!replaying_ && shards_ > 1) {
      std::uint64_t h = mix(1469598103934665603ull, name.data(), name.size());
      if (static_cast<int>((h >> 8) % static_cast<std::uint64_t>(shards_)) != shard_) return;
    }
    int keep = shards_;
    shards_ = 1;
    scenario(name, body);
    shards_ = keep;
  }

  int finish() {
    nlohmann::json j;
    j["evaluations"] = evaluations_;
    j["nontrivial"] = nontrivial_;
    j["transitions"] = transitions_;
    j["checks"] = checks_;
    std::vector<std::uint64_t> st(states_.begin(), states_.end());
    j["states"] = st.size();
    if (st.size() <= 400000) j["state_hashes"] = st;
    j["counters"] = counters_;
    j["samples"] = samples_;
    j["violation_total"] = violation_total_;
    j["violations"] = nlohmann::json::array();
    for (auto const &v : violations_)
      j["violations"].push_back({{"scenario", v.scenario}, {"key", v.key}, {"message", v.message}, {"trace", v.trace}, {"path", v.path}});
    if (!out_.empty()) {
      std::ofstream o(out_);
      o << j.dump(-1, ' ', false, nlohmann::json::error_handler_t::replace);
    } else {
      j.erase("state_hashes");
      auto s = j.dump(1, ' ', false, nlohmann::json::error_handler_t::replace) + "\n";
      if (::write(saved_out_ >= 0 ? saved_out_ : 1, s.data(), s.size()) < 0) return 3;
    }
    return violation_total_ ? 1 : 0;
  }

private:
  static constexpr std::size_t kCrash = 1 << 16;
  void publish() {
    if (!crash_) return;
    char *p = crash_;
    char *end = crash_ + kCrash - 32;
    p += std::snprintf(p, 256, "%s\n", scenario_.c_str());
    for (std::size_t i = 0; i < std::min(pos_, path_.size()) && p < end; ++i) p += std::snprintf(p, 24, "%d ", path_[i]);
    *p++ = '\n';
    *p = 0;
  }
  int shard_ = 0, shards_ = 1;
  bool thorough_ = false, replaying_ = false;
  std::string out_, crashfile_, only_, scratch_ = "/tmp", data_;
  char *crash_ = nullptr;
  int saved_out_ = -1;
  std::vector<int> path_, limit_, replay_, split_seen_path_;
  std::size_t pos_ = 0;
  long split_count_ = 0;
  std::string scenario_, trace_;
  bool leaf_nontrivial_ = false;
  long evaluations_ = 0, nontrivial_ = 0, transitions_ = 0, checks_ = 0, violation_total_ = 0;
  std::unordered_set<std::uint64_t> states_;
  std::map<std::string, long> counters_;
  std::map<std::string, int> per_key_;
  std::vector<std::string> samples_;
  std::vector<Violation> violations_;
};

// ------------------------------------------------------------------ small helpers
inline std::string num(double d) {
  std::ostringstream o;
  o.precision(17);
  o << d;
  return o.str();
}
template <typename V> std::string vec(V const &v) {
  std::ostringstream o;
  o.precision(17);
  o << "[";
  for (long i = 0; i < static_cast<long>(v.size()); ++i) o << (i ? ", " : "") << v[i];
  o << "]";
  return o.str();
}
inline bool close(double a, double b, double rel, double abs = 0.0) {
  if (std::isnan(a) || std::isnan(b)) return false;
  if (a == b) return true;
  return std::abs(a - b) <= abs + rel * std::max(std::abs(a), std::abs(b));
}
/// true if f throws a std::exception
template <typename F> bool throws(F &&f, std::string *what = nullptr) {
  try {
    f();
  } catch (std::exception const &e) {
    if (what) *what = e.what();
    return true;
  }
  return false;
}

/// Runs f in a child process. Result: 0 returned normally, 1 threw std::exception, 2 died by a
/// signal (assertion, segmentation fault), 3 threw something else, 4 timed out.
template <typename F> int in_child(F &&f, unsigned seconds = 20) {
  std::fflush(nullptr);
  pid_t pid = ::fork();
  if (pid == 0) {
    ::alarm(seconds);
    int n = ::open("/dev/null", O_WRONLY);
    ::dup2(n, 2);
    int rc = 0;
    try {
      f();
    } catch (std::exception const &) {
      rc = 11;
    } catch (...) {
      rc = 13;
    }
    ::_exit(rc);
  }
  int st = 0;
  ::waitpid(pid, &st, 0);
  if (WIFSIGNALED(st)) return WTERMSIG(st) == SIGALRM ? 4 : 2;
  switch (WEXITSTATUS(st)) {
    case 0: return 0;
    case 11: return 1;
    case 13: return 3;
    default: return 2;
  }
}
} // namespace mc
