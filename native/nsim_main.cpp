// Runs scenarios of native threads over libawkward under the deterministic
// scheduler (nsim_rt).  A scenario is read from standard input, one per process:
// "solo" results come from forked children that run one thread's program
// alone; then all threads run together under the schedule.
#include "nsim_rt.h"

#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <signal.h>
#include <unistd.h>

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>

#include "awkward/Content.h"
#include "awkward/Identities.h"
#include "awkward/Reducer.h"
#include "awkward/Slice.h"
#include "awkward/array/ByteMaskedArray.h"
#include "awkward/array/EmptyArray.h"
#include "awkward/array/IndexedArray.h"
#include "awkward/array/ListArray.h"
#include "awkward/array/ListOffsetArray.h"
#include "awkward/array/NumpyArray.h"
#include "awkward/array/RecordArray.h"
#include "awkward/array/RegularArray.h"
#include "awkward/array/UnionArray.h"
#include "awkward/array/UnmaskedArray.h"
#include "awkward/array/VirtualArray.h"
#include "awkward/builder/ArrayBuilderOptions.h"
#include "awkward/forth/ForthInputBuffer.h"
#include "awkward/forth/ForthMachine.h"
#include "awkward/forth/ForthOutputBuffer.h"
#include "awkward/io/json.h"
#include "awkward/type/Type.h"
#include "awkward/virtual/ArrayCache.h"

namespace ak = awkward;
typedef std::vector<std::string> Words;

static std::string unhex(const std::string& s) {
  std::string out;
  for (size_t i = 0; i + 1 < s.size(); i += 2) out.push_back((char)strtol(s.substr(i, 2).c_str(), nullptr, 16));
  return out;
}

static std::string hex(const void* p, size_t n) {
  static const char* d = "0123456789abcdef";
  std::string out;
  for (size_t i = 0; i < n; i++) {
    unsigned char c = ((const unsigned char*)p)[i];
    out.push_back(d[c >> 4]);
    out.push_back(d[c & 15]);
  }
  return out;
}

static std::string quote(const std::string& s) {
  std::string out = "\"";
  for (char c : s) {
    if (c == '"' || c == '\\') { out.push_back('\\'); out.push_back(c); }
    else if ((unsigned char)c < 32 || (unsigned char)c > 126) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", (unsigned char)c);
      out += b;
    }
    else out.push_back(c);
  }
  return out + "\"";
}

// ------------------------------------------------------------------ Forth
struct MachineSpec {
  int bits = 32;
  int64_t stack = 1024, depth = 64, init = 1024;
  double resize = 1.5;
  bool late = false;                        // compiled by its own thread
  std::string source;
  std::vector<std::pair<std::string, int>> inputs;
  std::vector<Words> acts;
};

struct Buf { std::shared_ptr<void> ptr; int64_t length; std::string copy; };

template <typename M>
static std::string drive(const MachineSpec& s, M* ready, const std::vector<Buf>& bufs) {
  std::ostringstream out;
  std::unique_ptr<M> own;
  M* m = ready;
  try {
    if (m == nullptr) {
      own.reset(new M(s.source, s.stack, s.depth, s.init, s.resize));
      m = own.get();
    }
    std::map<std::string, std::shared_ptr<ak::ForthInputBuffer>> in;
    for (auto& x : s.inputs) {
      const Buf& b = bufs[(size_t)x.second];
      in[x.first] = std::make_shared<ak::ForthInputBuffer>(b.ptr, 0, b.length);
    }
    for (auto& a : s.acts) {
      ak::util::ForthError e = ak::util::ForthError::none;
      if (a[0] == "run") e = m->run(in);
      else if (a[0] == "begin") m->begin(in);
      else if (a[0] == "step") {
        int64_t n = atoll(a[1].c_str());
        while (n-- > 0 && e == ak::util::ForthError::none && !m->is_done()) e = m->step();
      }
      else if (a[0] == "resume") { if (!m->is_done()) e = m->resume(); }
      else if (a[0] == "all") {
        int n = 200;
        while (n-- > 0 && e == ak::util::ForthError::none && !m->is_done()) e = m->resume();
      }
      else if (a[0] == "call") e = m->call(a[1]);
      out << a[0] << "=" << (int)e << ";";
    }
    out << "stack:";
    for (auto x : m->stack()) out << (int64_t)x << ",";
    out << " vars:";
    for (auto& x : m->variables()) out << x.first << "=" << (int64_t)x.second << ",";
    out << " outs:";
    for (auto& x : m->outputs()) {
      ak::ContentPtr c = x.second->toNumpyArray();
      ak::NumpyArray* n = dynamic_cast<ak::NumpyArray*>(c.get());
      out << x.first << "=" << n->format() << n->length() << ":" << hex(n->data(), (size_t)(n->length() * n->itemsize())) << ",";
    }
    out << " pos:";
    if (m->is_ready()) {
      for (auto& x : s.inputs) out << x.first << "=" << m->input_position_at(x.first) << ",";
    }
  }
  catch (std::exception& e) {
    out << " raised:" << e.what();
  }
  return out.str();
}

// ------------------------------------------------------------------ arrays
static ak::ContentPtr parse(const std::string& text) {
  return ak::FromJsonString(text.c_str(), ak::ArrayBuilderOptions(16, 1.5));
}

static ak::ContentPtr transform(ak::ContentPtr a, const std::string& how) {
  int64_t n = a->length();
  if (how == "carry") {
    ak::Index64 c(n);
    for (int64_t i = 0; i < n; i++) c.setitem_at_nowrap(i, n - 1 - i);
    return a->carry(c, false);
  }
  if (how == "indexed") {
    ak::Index64 c(n);
    for (int64_t i = 0; i < n; i++) c.setitem_at_nowrap(i, (i * 7) % n);
    return std::make_shared<ak::IndexedArray64>(ak::Identities::none(), ak::util::Parameters(), c, a)->simplify_optiontype();
  }
  if (how == "option") {
    ak::Index64 c(n);
    for (int64_t i = 0; i < n; i++) c.setitem_at_nowrap(i, i % 3 == 1 ? -1 : i);
    return std::make_shared<ak::IndexedOptionArray64>(ak::Identities::none(), ak::util::Parameters(), c, a)->simplify_optiontype();
  }
  if (how == "mask") {
    ak::Index8 c(n);
    for (int64_t i = 0; i < n; i++) c.setitem_at_nowrap(i, i % 4 == 2);
    return std::make_shared<ak::ByteMaskedArray>(ak::Identities::none(), ak::util::Parameters(), c, a, false)->simplify_optiontype();
  }
  if (how == "starts") {
    if (auto l = dynamic_cast<ak::ListOffsetArray64*>(a.get())) {
      return std::make_shared<ak::ListArray64>(ak::Identities::none(), a->parameters(), l->starts(), l->stops(), l->content());
    }
    return a;
  }
  if (how == "regular") {
    try {
      if (auto l = dynamic_cast<ak::ListOffsetArray64*>(a.get())) return l->toRegularArray();
    }
    catch (std::exception&) { }
    return a;
  }
  if (how == "outer") {                     // one more level of lists
    ak::Index64 o(4);
    o.setitem_at_nowrap(0, 0);
    o.setitem_at_nowrap(1, n / 2);
    o.setitem_at_nowrap(2, n / 2);
    o.setitem_at_nowrap(3, n);
    return std::make_shared<ak::ListOffsetArray64>(ak::Identities::none(), ak::util::Parameters(), o, a);
  }
  if (how == "record") {
    ak::util::RecordLookupPtr keys = std::make_shared<ak::util::RecordLookup>();
    keys->push_back("x");
    keys->push_back("y");
    ak::ContentPtrVec c{a, a};
    return std::make_shared<ak::RecordArray>(ak::Identities::none(), ak::util::Parameters(), c, keys);
  }
  if (how == "identities") {
    ak::ContentPtr b = a->shallow_copy();
    b->setidentities();
    return b;
  }
  if (how == "slice") return n > 2 ? a->getitem_range(1, n - 1) : a;
  return a;
}

static int64_t num(const Words& w, size_t i, int64_t d = 0) { return i < w.size() ? atoll(w[i].c_str()) : d; }

static std::string show(const ak::ContentPtr& c) {
  std::string s;
  try { s = c->tojson(false, -1, "nan", "inf", "-inf", "r", "i"); }
  catch (std::exception& e) { s = std::string("!") + e.what(); }
  return c->classname() + " " + s;
}

static std::string reduce(const ak::ContentPtr& a, const std::string& name, int64_t axis, bool mask, bool keep) {
  if (name == "sum") return show(a->reduce(ak::ReducerSum(), axis, mask, keep));
  if (name == "prod") return show(a->reduce(ak::ReducerProd(), axis, mask, keep));
  if (name == "max") return show(a->reduce(ak::ReducerMax(), axis, mask, keep));
  if (name == "min") return show(a->reduce(ak::ReducerMin(), axis, mask, keep));
  if (name == "argmax") return show(a->reduce(ak::ReducerArgmax(), axis, mask, keep));
  if (name == "argmin") return show(a->reduce(ak::ReducerArgmin(), axis, mask, keep));
  if (name == "any") return show(a->reduce(ak::ReducerAny(), axis, mask, keep));
  if (name == "all") return show(a->reduce(ak::ReducerAll(), axis, mask, keep));
  if (name == "count") return show(a->reduce(ak::ReducerCount(), axis, mask, keep));
  return show(a->reduce(ak::ReducerCountNonzero(), axis, mask, keep));
}

static ak::Slice slice(const Words& w, size_t from, const std::vector<ak::ContentPtr>& arrays) {
  ak::Slice s;
  for (size_t i = from; i < w.size(); i++) {
    const std::string& x = w[i];
    if (x[0] == '@') s.append(ak::SliceAt(atoll(x.c_str() + 1)));
    else if (x[0] == ':') {
      long long a, b, c;
      sscanf(x.c_str(), ":%lld,%lld,%lld", &a, &b, &c);
      s.append(ak::SliceRange(a == 99 ? ak::Slice::none() : a, b == 99 ? ak::Slice::none() : b, c == 99 ? ak::Slice::none() : c));
    }
    else if (x == "...") s.append(ak::SliceEllipsis());
    else if (x == "new") s.append(ak::SliceNewAxis());
    else if (x[0] == '.') s.append(ak::SliceField(x.substr(1)));
    else if (x[0] == '[') s.append(parse(x)->asslice());
    else if (x[0] == 'a') s.append(arrays[(size_t)atoll(x.c_str() + 1) % arrays.size()]->asslice());
  }
  s.become_sealed();
  return s;
}

static std::string perform(const Words& w, const std::vector<ak::ContentPtr>& arrays) {
  const std::string& op = w[0];
  try {
    if (op == "newkey") { ak::ArrayCache::newkey(); return "key"; }
    if (op == "newref") { ak::Identities::newref(); return "ref"; }
    if (op == "parse") return show(parse(unhex(w[1])));
    const ak::ContentPtr& a = arrays[(size_t)num(w, 1) % arrays.size()];
    if (op == "tojson") return show(a);
    if (op == "pretty") return a->tojson(true, num(w, 2, 3));
    if (op == "tostring") {
      // without addresses
      std::string s = a->tostring(), out;
      for (size_t i = 0; i < s.size(); i++) {
        if (s.compare(i, 2, "0x") == 0) { while (i < s.size() && isalnum((unsigned char)s[i])) i++; }
        out.push_back(s[i]);
      }
      return out;
    }
    if (op == "type") return a->type(ak::util::TypeStrs())->tostring();
    if (op == "form") return a->form(false)->tojson(false, true);
    if (op == "at") return show(a->getitem_at(num(w, 2)));
    if (op == "range") return show(a->getitem_range(num(w, 2), num(w, 3)));
    if (op == "field") return show(a->getitem_field(w[2]));
    if (op == "fields") return show(a->getitem_fields(Words(w.begin() + 2, w.end())));
    if (op == "nothing") return show(a->getitem_nothing());
    if (op == "slice") return show(a->getitem(slice(w, 2, arrays)));
    if (op == "num") return show(a->num(num(w, 2), 0));
    if (op == "flatten") return show(a->offsets_and_flattened(num(w, 2), 0).second);
    if (op == "localindex") return show(a->localindex(num(w, 2), 0));
    if (op == "reduce") return reduce(a, w[2], -1, num(w, 3) != 0, num(w, 4) != 0);
    if (op == "sort") return show(a->sort(-1, num(w, 2) != 0, num(w, 3) != 0));
    if (op == "argsort") return show(a->argsort(-1, num(w, 2) != 0, true));
    if (op == "combinations") return show(a->combinations(num(w, 2), num(w, 3) != 0, nullptr, ak::util::Parameters(), num(w, 4), 0));
    if (op == "rpad") return show(a->rpad(num(w, 2), num(w, 3), 0));
    if (op == "clip") return show(a->rpad_and_clip(num(w, 2), num(w, 3), 0));
    if (op == "fillna") return show(a->fillna(parse("[123]")));
    if (op == "merge") {
      const ak::ContentPtr& b = arrays[(size_t)num(w, 2) % arrays.size()];
      return show(a->mergeable(b, false) ? a->merge(b) : a->merge_as_union(b));
    }
    if (op == "unique") return a->is_unique() ? "unique" : "not unique";
    if (op == "valid") return a->validityerror("x");
    if (op == "copy") return show(a->deep_copy(true, true, true));
    if (op == "simplify") return show(a->shallow_simplify());
    if (op == "totype") return show(a->numbers_to_type(w[2]));
    if (op == "depth") {
      std::ostringstream o;
      o << a->purelist_depth() << " " << a->minmax_depth().first << " " << a->minmax_depth().second << " " << a->branch_depth().second << " " << a->purelist_isregular() << " " << a->nbytes();
      for (auto& k : a->keys()) o << " " << k;
      return o.str();
    }
    if (op == "iterate") {
      std::string s;
      for (int64_t i = 0; i < a->length(); i++) s += show(a->getitem_at(i)) + ";";
      return s;
    }
    return "?";
  }
  catch (std::exception& e) {
    std::string s = e.what();
    return "raised:" + s.substr(0, s.find("\n\n(https"));
  }
}

// ------------------------------------------------------------------ main
static const uint64_t LONG = 4000000;
static uint64_t g_alone = 0;                // events of all the programs run alone

static std::string apart(const std::function<std::string()>& f) {
  int p[2];
  if (pipe(p) != 0) abort();
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    close(p[0]);
    freopen("/dev/null", "w", stdout);
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    std::string s;
    std::vector<std::function<void()>> one{[&]() { s = f(); }};
    nsim::Outcome o = nsim::run(one, {}, LONG);
    s = std::to_string(o.events) + " " + s;
    size_t at = 0;
    while (at < s.size()) {
      ssize_t k = write(p[1], s.data() + at, s.size() - at);
      if (k <= 0) break;
      at += (size_t)k;
    }
    _exit(0);
  }
  close(p[1]);
  std::string out;
  char b[65536];
  ssize_t k;
  while ((k = read(p[0], b, sizeof b)) > 0) out.append(b, (size_t)k);
  close(p[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) return "died:" + std::to_string(st);
  size_t sp = out.find(' ');
  g_alone += strtoull(out.c_str(), nullptr, 10);
  return out.substr(sp + 1);
}

static void report(const nsim::Outcome& o, const std::vector<std::string>& solo, const std::vector<std::string>& got, const std::string& extra) {
  std::string s = "{\"events\": " + std::to_string(o.events) + ", \"switches\": " + std::to_string(o.switches)
    + ", \"signature\": " + std::to_string(o.signature & 0xffffffffffffull) + ", \"racy\": " + std::to_string(o.racy) + ", \"races\": [";
  for (size_t i = 0; i < o.races.size(); i++) s += (i ? ", " : "") + quote(o.races[i]);
  s += "], \"solo\": [";
  for (size_t i = 0; i < solo.size(); i++) s += (i ? ", " : "") + quote(solo[i]);
  s += "], \"got\": [";
  for (size_t i = 0; i < got.size(); i++) s += (i ? ", " : "") + quote(got[i]);
  s += "]" + extra + "}\n";
  fwrite(s.data(), 1, s.size(), stdout);
  fflush(stdout);
}

// A program that crashes alone is not a matter of concurrency.
static bool hopeless(const std::vector<std::string>& solo) {
  for (auto& s : solo) {
    if (s.compare(0, 5, "died:") == 0) {
      report(nsim::Outcome(), solo, solo, ", \"modified\": [], \"keys\": [0, 0, 0, 0], \"hopeless\": true");
      return true;
    }
  }
  return false;
}

int main(int argc, char** argv) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  struct rlimit lim = {(rlim_t)3 << 30, (rlim_t)3 << 30};
  setrlimit(RLIMIT_AS, &lim);
  std::vector<nsim::Preempt> sched;
  std::vector<Buf> bufs;
  std::vector<MachineSpec> machines;
  std::vector<ak::ContentPtr> arrays;
  std::vector<std::vector<Words>> threads;
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream in(line);
    Words w;
    std::string x;
    while (in >> x) w.push_back(x);
    if (w.empty()) continue;
    if (w[0] == "sched") {
      for (size_t i = 1; i + 1 < w.size(); i += 2) sched.push_back({(uint64_t)atoll(w[i].c_str()), atoi(w[i + 1].c_str())});
    }
    else if (w[0] == "buf") {
      Buf b;
      b.copy = unhex(w.size() > 1 ? w[1] : "");
      b.length = (int64_t)b.copy.size();
      b.ptr = std::shared_ptr<void>(malloc(b.copy.size() + 1), free);
      memcpy(b.ptr.get(), b.copy.data(), b.copy.size());
      bufs.push_back(b);
    }
    else if (w[0] == "machine") {
      MachineSpec m;
      m.bits = atoi(w[1].c_str());
      m.stack = atoll(w[2].c_str());
      m.depth = atoll(w[3].c_str());
      m.init = atoll(w[4].c_str());
      m.resize = atof(w[5].c_str());
      m.late = atoi(w[6].c_str()) != 0;
      m.source = unhex(w[7]);
      machines.push_back(m);
    }
    else if (w[0] == "in") machines.back().inputs.push_back({w[1], atoi(w[2].c_str())});
    else if (w[0] == "act") machines.back().acts.push_back(Words(w.begin() + 1, w.end()));
    else if (w[0] == "array") {
      ak::ContentPtr a = parse(unhex(w[1]));
      for (size_t i = 2; i < w.size(); i++) a = transform(a, w[i]);
      arrays.push_back(a);
    }
    else if (w[0] == "thread") threads.push_back({});
    else if (w[0] == "op") threads.back().push_back(Words(w.begin() + 1, w.end()));
  }

  std::vector<std::string> solo, got;
  std::vector<std::function<void()>> fs;
  if (!machines.empty()) {
    size_t n = machines.size();
    got.resize(n);
    std::vector<std::shared_ptr<ak::ForthMachine32>> m32(n);
    std::vector<std::shared_ptr<ak::ForthMachine64>> m64(n);
    for (size_t i = 0; i < n; i++) {
      const MachineSpec& s = machines[i];
      solo.push_back(apart([&]() -> std::string {
        return s.bits == 32 ? drive<ak::ForthMachine32>(s, nullptr, bufs) : drive<ak::ForthMachine64>(s, nullptr, bufs);
      }));
    }
    if (hopeless(solo)) return 0;
    for (size_t i = 0; i < n; i++) {
      const MachineSpec& s = machines[i];
      if (!s.late) {
        try {
          if (s.bits == 32) m32[i].reset(new ak::ForthMachine32(s.source, s.stack, s.depth, s.init, s.resize));
          else m64[i].reset(new ak::ForthMachine64(s.source, s.stack, s.depth, s.init, s.resize));
        }
        catch (std::exception&) { }
      }
      fs.push_back([&, i]() {
        const MachineSpec& s = machines[i];
        got[i] = s.bits == 32 ? drive<ak::ForthMachine32>(s, m32[i].get(), bufs) : drive<ak::ForthMachine64>(s, m64[i].get(), bufs);
      });
    }
    nsim::Outcome o = nsim::run(fs, sched, 20 * g_alone + 2000000);
    std::string changed = ", \"modified\": [";
    bool first = true;
    for (size_t i = 0; i < bufs.size(); i++) {
      if (memcmp(bufs[i].ptr.get(), bufs[i].copy.data(), bufs[i].copy.size()) != 0) {
        changed += (first ? "" : ", ") + std::to_string(i);
        first = false;
      }
    }
    report(o, solo, got, changed + "]");
  }
  else {
    size_t n = threads.size();
    got.resize(n);
    std::vector<std::vector<std::string>> res(n);
    auto all = [&](size_t t) -> std::string {
      std::string s;
      for (auto& w : threads[t]) s += perform(w, arrays) + "\n";
      return s;
    };
    std::vector<std::string> before;
    for (auto& a : arrays) before.push_back(show(a));
    for (size_t t = 0; t < n; t++) solo.push_back(apart([&]() -> std::string { return all(t); }));
    if (hopeless(solo)) return 0;
    int64_t key0 = atoll(ak::ArrayCache::newkey().substr(2).c_str());
    int64_t ref0 = (int64_t)ak::Identities::newref();
    int64_t keys = 0, refs = 0;
    for (size_t t = 0; t < n; t++) {
      for (auto& w : threads[t]) {
        keys += w[0] == "newkey";
        refs += w[0] == "newref";
      }
      fs.push_back([&, t]() { got[t] = all(t); });
    }
    nsim::Outcome o = nsim::run(fs, sched, 20 * g_alone + 2000000);
    // every call took a number of its own
    int64_t key1 = atoll(ak::ArrayCache::newkey().substr(2).c_str());
    int64_t ref1 = (int64_t)ak::Identities::newref();
    std::string extra = ", \"keys\": [" + std::to_string(keys) + ", " + std::to_string(key1 - key0 - 1) + ", " + std::to_string(refs) + ", " + std::to_string(ref1 - ref0 - 1) + "]";
    std::string changed;
    for (size_t i = 0; i < arrays.size(); i++) {
      if (show(arrays[i]) != before[i]) changed += (changed.empty() ? "" : ", ") + std::to_string(i);
    }
    report(o, solo, got, extra + ", \"modified\": [" + changed + "]");
  }
  return 0;
}
