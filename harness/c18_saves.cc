// C18: saves of changing state, one of them interrupted by a crash or by file
// system errors, and a load after each.
#include "table_common.h"
#include "reverb/cc/platform/tfrecord_checkpointer.h"
using namespace deepmind::reverb;
using namespace tm;
namespace {
struct Dir { std::string path; int state; bool complete; };
std::vector<Dir> dirs;  // every checkpoint directory ever seen, oldest first
Harness src;
double prios[SAVES + 1];
bool two_tables;

std::shared_ptr<Table> make(const char* name) {
  return std::make_shared<Table>(name, make_selector(kFifo), make_selector(kFifo), 10, 0, std::make_shared<RateLimiter>(1.0, 1, -100.0, 100.0));
}
// State i: items 1..i, item k in episode pattern k-1, the newest with a symbolic
// priority.
void look(const char* when) {
  for (auto& f : v_fs.files) {
    if (!f.dir || tensorflow::io::Dirname(f.path) != "/root") continue;
    bool known = false;
    for (auto& d : dirs) known |= d.path == f.path;
    if (!known) dirs.push_back({f.path, -1, false});
  }
}
bool exists(const std::string& p) { return v_fs.has(p); }
bool done(const std::string& p) { return v_fs.has(p + "/DONE"); }
// Returns the state that loading gives, or -1 when no checkpoint was found.
int loaded(const char* path) {
  ChunkStore store;
  std::vector<std::shared_ptr<Table>> tables{make("a")};
  if (two_tables) tables.push_back(make("b"));
  TFRecordCheckpointer c("/root", "");
  absl::Status s = path ? c.Load(path, &store, &tables) : c.LoadLatest(&store, &tables);
  if (!path && absl::IsNotFound(s)) return -1;
  VCHECK(s.ok(), path ? "a kept checkpoint can be loaded" : "the newest complete checkpoint can be loaded");
  int n = (int)tables[0]->size();
  VCHECK(n >= 1 && n <= SAVES, "the state loaded is one that was saved");
  for (int k = 1; k <= n; k++) {
    Table::Item it;
    VCHECK(tables[0]->Get(k, &it) && it.item.priority() == prios[k], "the items of the state saved are loaded");
    auto eps = Harness::episodes(k - 1);
    VCHECK(it.chunks.size() == eps.size(), "the chunks of the state saved are loaded");
    for (size_t i = 0; i < eps.size(); i++) VCHECK(it.chunks[i]->data().SerializeAsString() == src.chunk(eps[i], (int)i)->data().SerializeAsString(), "the chunks of the state saved are loaded");
  }
  if (two_tables) VCHECK(tables[1]->size() == n, "both tables come from the same save");
  return n;
}
}  // namespace
extern "C" void verif_main() {
  int keep = 1 + choose(KEEP, "keep_latest");
  two_tables = flip("second table");
  v_tz_hours = choose(2, "timezone");
  vs_set_now(1000000000000000000ll);
  int crash_in = choose(SAVES + 1, "crash_in");  // SAVES: none
  int fault_in = crash_in < SAVES && !BOTH ? SAVES : choose(SAVES + 1, "fault_in");
  auto a = make("a"), b = make("b");
  int newest_ok = -1;
  bool interrupted_after = false;  // an incomplete attempt followed it
  for (int i = 1; i <= SAVES; i++) {
    prios[i] = (double)(int8_t)verif_sym(8, "prio") * 0.5;
    VCHECK(a->InsertOrAssign(src.item(i, prios[i], i - 1), absl::ZeroDuration()).ok(), "insert");
    VCHECK(b->InsertOrAssign(src.item(i, prios[i], i - 1), absl::ZeroDuration()).ok(), "insert");
    std::vector<Table*> tables{a.get()};
    if (two_tables) tables.push_back(b.get());
    std::string path;
    bool crashing = crash_in == i - 1, faulty = fault_in == i - 1;
    if (crashing) v_fs.crash_at = v_fs.step + (int)verif::range(0, 15, "crash_at");
    if (faulty) v_fs.faults = FAULTS;
    absl::Status s;
    {
      TFRecordCheckpointer c("/root", "");
      s = c.Save(tables, keep, &path);
    }
    if (v_fs.crashed) verif_reach("crashed");
    if (v_fs.faulted) verif_reach("a file system call failed");
    // After a crash the process restarts.
    bool crashed = v_fs.crashed;
    v_fs.crashed = false;
    v_fs.crash_at = -1;
    v_fs.faults = 0;
    look("after a save");
    for (auto& d : dirs) if (d.state < 0) d.state = i;
    VCHECK(v_fs.open_handles == 0, "no file is left open");
    if (!crashed && !v_fs.faulted) VCHECK(s.ok(), "a save without errors succeeds");
    v_fs.faulted = false;
    if (s.ok() && !crashed) {
      newest_ok = i;
      VCHECK(!path.empty() && exists(path) && done(path), "a successful save names its checkpoint");
      VCHECK(loaded(path.c_str()) == i, "the path of a successful save loads its state");
    }
    for (auto& d : dirs) d.complete |= exists(d.path) && done(d.path);
    int got = loaded(nullptr);
    if (s.ok() && !crashed) VCHECK(got == i, "after a successful save its state is the latest");
    else VCHECK(got == newest_ok || got == i || (got > newest_ok && got < i), "after an interrupted save the latest state is complete and not older than the last success");
    if (got >= 1 && got < i) verif_reach("an earlier state is loaded");
    if (s.ok() && !crashed) {
      // The newest `keep` complete checkpoints are there, and no other.
      int n = 0;
      for (int k = (int)dirs.size() - 1; k >= 0; k--) {
        if (!dirs[k].complete) continue;
        if (n++ < keep) VCHECK(exists(dirs[k].path) && loaded(dirs[k].path.c_str()) == dirs[k].state, "the newest complete checkpoints are kept");
        else VCHECK(!exists(dirs[k].path), "older checkpoints are removed");
      }
    }
    if (i < SAVES) {
      vs_set_now(vs_now() + 1000000000ll * (flip("pause") ? 600 : 7200));
      if (v_tz_hours == 1) v_tz_hours = choose(2, "timezone");
    }
  }
}
