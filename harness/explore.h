// Exhaustive exploration driver: a harness enumerates its cases in one fixed order; the cases are
// divided among forked worker processes; every case can be re-run alone by its number.
#pragma once
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace ex {

inline std::string json_escape(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += static_cast<char>(c);
    } else if (c < 0x20) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else {
      o += static_cast<char>(c);
    }
  }
  return o;
}

struct Violation {
  uint64_t id;
  std::string key, detail;
};

struct Slot {  // shared with the parent
  volatile uint64_t current;
  volatile uint64_t done;
  volatile uint64_t armed;
};

class Explorer {
 public:
  uint64_t shard{0}, nshards{1};
  bool replay{false};
  uint64_t target{0};
  bool thorough{false};
  bool verbose{false};

  // counters, summed over the workers
  std::map<std::string, uint64_t> count;
  std::vector<uint64_t> states;
  std::vector<Violation> violations;
  std::vector<std::string> samples;
  uint64_t nviol{0};

  // True if the next case is to be run by this worker.
  bool next() {
    const uint64_t n = seq_++;
    if (replay) {
      if (n != target) return false;
    } else if (mix(n / 4) % nshards != shard) {
      return false;
    }
    id_ = n;
    if (slot_) {
      slot_->current = n;
      slot_->armed = 1;
    }
    ++count["transitions"];
    if ((count["transitions"] & (count["transitions"] - 1)) == 0 && samples.size() < 40) want_sample_ = true;
    return true;
  }
  uint64_t id() const { return id_; }
  void sample(const std::function<std::string()>& f) {
    if (want_sample_) {
      samples.push_back(f());
      want_sample_ = false;
    }
    if (replay) printf("case %llu: %s\n", (unsigned long long)id_, f().c_str());
  }
  void state(uint64_t h) { states.push_back(h); if (states.size() > 4000000) compact(); }
  void compact() {
    std::sort(states.begin(), states.end());
    states.erase(std::unique(states.begin(), states.end()), states.end());
  }
  void violation(const std::string& key, const std::string& detail) {
    ++nviol;
    if (replay) printf("VIOLATING %s :: %s\n", key.c_str(), detail.c_str());
    if (++per_key_[key] <= 2 && violations.size() < 3000) violations.push_back({id_, key, detail});
  }
  static uint64_t mix(uint64_t z) {
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  Slot* slot_{nullptr};

 private:
  uint64_t seq_{0}, id_{0};
  bool want_sample_{false};
  std::map<std::string, uint64_t> per_key_;
};

inline void write_str(FILE* f, const std::string& s) {
  uint64_t n = s.size();
  fwrite(&n, 8, 1, f);
  fwrite(s.data(), 1, n, f);
}
inline std::string read_str(FILE* f) {
  uint64_t n = 0;
  if (fread(&n, 8, 1, f) != 1) return {};
  std::string s(n, 0);
  if (n && fread(s.data(), 1, n, f) != n) return {};
  return s;
}
inline uint64_t read_u64(FILE* f) {
  uint64_t n = 0;
  if (fread(&n, 8, 1, f) != 1) return 0;
  return n;
}

// usage: harness OUT.json [--tier thorough] [--shards N] [--case ID] [--hang SECONDS]
inline int explorer_main(int argc, char** argv, const std::function<void(Explorer&)>& body) {
  std::string out = argc > 1 ? argv[1] : "/dev/stdout";
  Explorer base;
  int n = 8, hang = 30;
  for (int i = 2; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "--tier") base.thorough = std::string(argv[++i]) == "thorough";
    else if (a == "--shards") n = atoi(argv[++i]);
    else if (a == "--case") base.replay = true, base.target = strtoull(argv[++i], nullptr, 10);
    else if (a == "--hang") hang = atoi(argv[++i]);
  }
  base.nshards = base.replay ? 1 : n;
  const int workers = base.replay ? 1 : n;
  Slot* slots = static_cast<Slot*>(mmap(nullptr, sizeof(Slot) * workers, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  memset((void*)slots, 0, sizeof(Slot) * workers);
  std::vector<pid_t> pid(workers);
  std::vector<std::string> files(workers);
  fflush(stdout);
  for (int w = 0; w < workers; ++w) {
    files[w] = out + ".part" + std::to_string(w);
    pid[w] = fork();
    if (pid[w] == 0) {
      Explorer e = base;
      e.shard = w;
      e.slot_ = &slots[w];
      int rc = 0;
      try {
        body(e);
      } catch (const std::exception& x) {
        e.violation("exception outside a case", x.what());
        rc = 0;
      }
      e.compact();
      FILE* f = fopen(files[w].c_str(), "wb");
      if (!f) _exit(3);
      uint64_t k = e.count.size();
      fwrite(&k, 8, 1, f);
      for (auto& [a, b] : e.count) {
        write_str(f, a);
        fwrite(&b, 8, 1, f);
      }
      fwrite(&e.nviol, 8, 1, f);
      k = e.violations.size();
      fwrite(&k, 8, 1, f);
      for (auto& v : e.violations) {
        fwrite(&v.id, 8, 1, f);
        write_str(f, v.key);
        write_str(f, v.detail);
      }
      k = e.samples.size();
      fwrite(&k, 8, 1, f);
      for (auto& s : e.samples) write_str(f, s);
      k = e.states.size();
      fwrite(&k, 8, 1, f);
      fwrite(e.states.data(), 8, k, f);
      fclose(f);
      slots[w].done = 1;
      fflush(stdout);
      _exit(rc);
    }
  }
  // Wait, watching for crashes and hangs.
  std::vector<uint64_t> last(workers, ~0ull);
  std::vector<double> since(workers, 0);
  auto now = [] {
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return double(t.tv_sec) + 1e-9 * double(t.tv_nsec);
  };
  std::vector<Violation> viol;
  int alive = workers;
  std::vector<bool> gone(workers, false), killed(workers, false);
  for (auto& s : since) s = now();
  uint64_t nviol = 0;
  bool incomplete = false;
  while (alive > 0) {
    usleep(20000);
    for (int w = 0; w < workers; ++w) {
      if (gone[w]) continue;
      int st = 0;
      if (waitpid(pid[w], &st, WNOHANG) == pid[w]) {
        gone[w] = true;
        --alive;
        if (!slots[w].done) {
          incomplete = true;
          ++nviol;
          std::string what = killed[w] ? "did not finish in time"
                             : WIFSIGNALED(st) ? "the process was ended by signal " + std::to_string(WTERMSIG(st))
                                               : "the process exited";
          viol.push_back({slots[w].current, killed[w] ? "hang" : "crash", what});
        }
        continue;
      }
      if (slots[w].current != last[w]) {
        last[w] = slots[w].current;
        since[w] = now();
      } else if (slots[w].armed && now() - since[w] > hang) {
        killed[w] = true;
        kill(pid[w], SIGKILL);
      }
    }
  }
  std::map<std::string, uint64_t> count;
  std::vector<std::string> samples;
  std::vector<uint64_t> states;
  for (int w = 0; w < workers; ++w) {
    FILE* f = fopen(files[w].c_str(), "rb");
    if (!f) continue;
    for (uint64_t k = read_u64(f); k; --k) {
      std::string a = read_str(f);
      count[a] += read_u64(f);
    }
    nviol += read_u64(f);
    for (uint64_t k = read_u64(f); k; --k) {
      Violation v;
      v.id = read_u64(f);
      v.key = read_str(f);
      v.detail = read_str(f);
      viol.push_back(v);
    }
    for (uint64_t k = read_u64(f); k; --k) samples.push_back(read_str(f));
    uint64_t k = read_u64(f);
    std::size_t o = states.size();
    states.resize(o + k);
    if (k && fread(states.data() + o, 8, k, f) != k) states.resize(o);
    fclose(f);
    unlink(files[w].c_str());
  }
  std::sort(states.begin(), states.end());
  states.erase(std::unique(states.begin(), states.end()), states.end());
  std::sort(viol.begin(), viol.end(), [](const Violation& a, const Violation& b) { return a.id < b.id; });
  FILE* f = fopen(out.c_str(), "w");
  if (!f) return 2;
  fprintf(f, "{\"counts\": {");
  bool first = true;
  for (auto& [a, b] : count) {
    fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", a.c_str(), (unsigned long long)b);
    first = false;
  }
  fprintf(f, "}, \"states\": %llu, \"incomplete\": %s, \"nviolations\": %llu,\n\"violations\": [", (unsigned long long)states.size(),
          incomplete ? "true" : "false", (unsigned long long)nviol);
  first = true;
  std::size_t lim = 0;
  for (auto& v : viol) {
    if (++lim > 5000) break;
    fprintf(f, "%s\n{\"id\": %llu, \"key\": \"%s\", \"detail\": \"%s\"}", first ? "" : ",", (unsigned long long)v.id,
            json_escape(v.key).c_str(), json_escape(v.detail).c_str());
    first = false;
  }
  fprintf(f, "],\n\"samples\": [");
  first = true;
  std::size_t step = samples.size() > 24 ? samples.size() / 24 : 1;
  for (std::size_t i = 0; i < samples.size(); i += step) {
    fprintf(f, "%s\n\"%s\"", first ? "" : ",", json_escape(samples[i]).c_str());
    first = false;
  }
  fprintf(f, "]}\n");
  fclose(f);
  return 0;
}
}  // namespace ex
