// In-memory world for the harnesses: recorder backend that keeps every row,
// a context whose time can be set, and minimal agents. No files are written.
#ifndef SIM_H_
#define SIM_H_
#include "vh.h"
#include "agent.h"
#include "context.h"
#include "datum.h"
#include "error.h"
#include "facility.h"
#include "infile_tree.h"
#include "institution.h"
#include "logger.h"
#include "material.h"
#include "product.h"
#include "rec_backend.h"
#include "recorder.h"
#include "region.h"
#include "timer.h"
namespace sim {
using namespace cyclus;
typedef boost::spirit::hold_any Any;
struct Row {
  std::string title;
  std::vector<std::string> fields;
  std::vector<Any> vals;
  const Any* get(const std::string& f) const {
    for (size_t i = 0; i < fields.size(); i++) if (fields[i] == f) return &vals[i];
    throw vh::Fail("row of " + title + " has no field " + f);
  }
  template <class T> T as(const std::string& f) const {
    const Any* a = get(f);
    if (a->type() != typeid(T)) throw vh::Fail("row of " + title + ": field " + f + " has the wrong type");
    return a->cast<T>();
  }
  int i(const std::string& f) const { return as<int>(f); }
  double d(const std::string& f) const { return as<double>(f); }
  std::string s(const std::string& f) const { return as<std::string>(f); }
};
class MemBack : public RecBackend {
 public:
  std::vector<Row> rows;
  int flushes = 0, closes = 0, notifies = 0;
  virtual void Notify(DatumList data) {
    notifies++;
    for (size_t i = 0; i < data.size(); i++) {
      Row r;
      r.title = data[i]->title();
      r.fields = data[i]->fields();
      for (size_t j = 0; j < data[i]->vals().size(); j++) r.vals.push_back(data[i]->vals()[j].second);
      rows.push_back(r);
    }
  }
  virtual std::string Name() { return "mem"; }
  virtual void Flush() { flushes++; }
  virtual void Close() { closes++; }
  std::vector<Row> titled(const std::string& t, size_t from = 0) const {
    std::vector<Row> o;
    for (size_t i = from; i < rows.size(); i++) if (rows[i].title == t) o.push_back(rows[i]);
    return o;
  }
};
class Ctx : public Context {
 public:
  Timer* ti;
  int t;
  bool own;
  Ctx(Timer* ti_, Recorder* rec) : Context(ti_, rec), ti(ti_), t(0), own(true) {}
  virtual int time() { return own ? t : ti->time(); }
};
// members in this order: the recorder outlives the context, the backend both
struct World {
  MemBack back;
  Recorder rec;
  Timer ti;
  Ctx* ctx;
  explicit World(unsigned dump = 1) : rec(dump) {
    rec.RegisterBackend(&back);
    ctx = new Ctx(&ti, &rec);
  }
  ~World() { delete ctx; }
  size_t mark() { rec.Flush(); return back.rows.size(); }
};
class Fac : public Facility {
 public:
  explicit Fac(Context* c) : Facility(c) {}
  virtual Agent* Clone() { Fac* f = new Fac(context()); f->InitFrom(this); return f; }
  void InitFrom(Fac* m) { Facility::InitFrom(m); }
  virtual void Snapshot(DbInit di) {}
  virtual void InitInv(Inventories& inv) {}
  virtual Inventories SnapshotInv() { return Inventories(); }
  virtual void Tick() {}
  virtual void Tock() {}
};
}  // namespace sim
#endif
