// shared by the demonstrations: an in-memory world, no files written
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include "agent.h"
#include "comp_math.h"
#include "context.h"
#include "cyc_limits.h"
#include "datum.h"
#include "error.h"
#include "facility.h"
#include "material.h"
#include "product.h"
#include "rec_backend.h"
#include "recorder.h"
#include "timer.h"
using namespace cyclus;
// no Python agents here
namespace cyclus { void PyDelAgent(int) {} void EventLoop() {} void ClearPyAgentRefs() {} }
static int bad = 0;
#define EXPECT(x) do { if (!(x)) { bad++; std::cout << "FAILED line " << __LINE__ << ": " #x << std::endl; } } while (0)
static bool near(double a, double b) { return std::fabs(a - b) <= 1e-9 * (std::fabs(a) + std::fabs(b)) + 1e-12; }
struct Row {
  std::string title;
  std::map<std::string, boost::spirit::hold_any> v;
  int i(const char* f) { return v[f].cast<int>(); }
  double d(const char* f) { return v[f].cast<double>(); }
  std::string s(const char* f) { return v[f].cast<std::string>(); }
};
struct Mem : public RecBackend {
  std::vector<Row> rows;
  virtual void Notify(DatumList data) {
    for (size_t i = 0; i < data.size(); i++) {
      Row r;
      r.title = data[i]->title();
      for (size_t j = 0; j < data[i]->vals().size(); j++) r.v[data[i]->fields()[j]] = data[i]->vals()[j].second;
      rows.push_back(r);
    }
  }
  virtual std::string Name() { return "mem"; }
  virtual void Flush() {}
  virtual void Close() {}
  std::vector<Row> get(const std::string& t) { std::vector<Row> o; for (auto& r : rows) if (r.title == t) o.push_back(r); return o; }
};
struct Ctx : public Context {
  int t;
  Ctx(Timer* ti, Recorder* r) : Context(ti, r), t(0) {}
  virtual int time() { return t; }
};
struct World {
  Mem back;
  Recorder rec;
  Timer ti;
  Ctx* ctx;
  World() : rec(1u) { rec.RegisterBackend(&back); ctx = new Ctx(&ti, &rec); }
  ~World() { delete ctx; }
};
struct Fac : public Facility {
  explicit Fac(Context* c) : Facility(c) {}
  virtual Agent* Clone() { return new Fac(context()); }
  virtual void Snapshot(DbInit di) {}
  virtual void InitInv(Inventories& inv) {}
  virtual Inventories SnapshotInv() { return Inventories(); }
  virtual void Tick() {}
  virtual void Tock() {}
};
