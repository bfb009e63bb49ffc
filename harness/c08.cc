#include "common.h"
#include <unordered_map>
#include "src/data_store/column.h"
#include "src/data_store/data_store.h"
using namespace gbdt; using namespace std;
class Store : public DataStore {};
int main(int argc, char** argv) {
  INIT(argc, argv);
  for (long it = 0, iters = ITER(4000, 80000); it < iters; ++it) {
    Store st; map<string, pair<int, const Column*>> ref;   // name -> type, column
    string hist; int rows = 0, base = chance(.15) ? 0 : rint_(1, 5);
    for (int step = rint_(1, 16); step--;) {
      string n = "c" + to_string(rint_(0, 5)); int op = rint_(0, 9);
      if (op < 6) {
        int type = rint_(0, 2), r = chance(.7) ? base : rint_(0, 5);
        hist += "add " + n + " type " + to_string(type) + " rows " + to_string(r) + "; ";
        CASE("%s", hist.c_str());
        unique_ptr<Column> c = type == 0 ? Column::CreateStringColumn(n, vector<string>(r, "a")) : type == 1 ? Column::CreateBucketizedFloatColumn(n, vector<float>(r, 1.5f)) : Column::CreateRawFloatColumn(n, vector<float>(r, 2.f));
        const Column* p = c.get();
        bool ok = !ref.count(n) && (ref.empty() || rows == r);
        auto s = st.Add(std::move(c));
        if (s.ok() != ok) FAIL("add", "Add %s", s.ok() ? "accepted" : "refused");
        if (s.ok()) { if (ref.empty()) rows = r; ref[n] = {type, p}; }
      } else if (op < 8) {
        hist += "remove " + n + "; "; CASE("%s", hist.c_str());
        st.RemoveColumnIfExists(n); ref.erase(n);
      }
      if (st.num_cols() != ref.size()) FAIL("cols", "%u columns reported, %zu held", st.num_cols(), ref.size());
      if (st.num_rows() != (ref.empty() ? 0u : (unsigned)rows)) FAIL("rows", "%u rows reported, expected %d", st.num_rows(), ref.empty() ? 0 : rows);
      for (int k = 0; k < 7; ++k) {
        string m = "c" + to_string(k); auto f = ref.find(m); const Column* p = f == ref.end() ? nullptr : f->second.second; int t = f == ref.end() ? -1 : f->second.first;
        if (st.GetColumn(m) != p) FAIL("get", "GetColumn(%s)", m.c_str());
        if (p && (p->name() != m || (int)p->size() != rows)) FAIL("table", "column %s", m.c_str());
        if (st.GetStringColumn(m) != (t == 0 ? p : nullptr)) FAIL("typed", "GetStringColumn(%s)", m.c_str());
        if (st.GetBucketizedFloatColumn(m) != (t == 1 ? p : nullptr)) FAIL("typed", "GetBucketizedFloatColumn(%s)", m.c_str());
        if (st.GetRawFloatColumn(m) != (t == 2 ? p : nullptr)) FAIL("typed", "GetRawFloatColumn(%s)", m.c_str());
      }
      size_t cnt[3] = {0, 0, 0}; for (auto& p : ref) ++cnt[p.second.first];
      set<const Column*> seen;
      auto a = st.GetStringColumns(); auto b = st.GetBucketizedFloatColumns(); auto c = st.GetRawFloatColumns();
      for (auto* x : a) seen.insert(x); for (auto* x : b) seen.insert(x); for (auto* x : c) seen.insert(x);
      if (a.size() != cnt[0] || b.size() != cnt[1] || c.size() != cnt[2] || seen.size() != ref.size()) FAIL("lists", "typed column lists");
    }
  }
  return DONE();
}
