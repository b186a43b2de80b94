// C07: random sequences of recording calls; what each backend received is
// compared with what was recorded while it was registered
#include "sim.h"
using namespace cyclus;
using namespace vh;
struct Item {
  std::string title;
  std::vector<std::string> fields;
  std::vector<int> vals;
  std::vector<std::vector<int> > shapes;
  bool inject;
};
struct Back : public RecBackend {
  std::vector<Item> got;
  boost::uuids::uuid id;
  bool closed = false, late = false;
  virtual void Notify(DatumList data) {
    if (closed) late = true;
    for (size_t i = 0; i < data.size(); i++) {
      Item it;
      it.title = data[i]->title();
      it.fields = data[i]->fields();
      it.shapes = data[i]->shapes();
      it.inject = false;
      check(data[i]->vals().size() == it.fields.size() && it.shapes.size() == it.fields.size(), "a datum with ", data[i]->vals().size(), " values, ", it.fields.size(), " fields, ", it.shapes.size(), " shapes");
      for (size_t j = 0; j < data[i]->vals().size(); j++) {
        boost::spirit::hold_any v = data[i]->vals()[j].second;
        if (v.type() == typeid(boost::uuids::uuid)) {
          check(j == 0 && it.fields[0] == "SimId" && it.shapes[0].empty(), "the simulation id is not the first value");
          check(v.cast<boost::uuids::uuid>() == id, "another simulation's id");
          it.inject = true;
        } else {
          check(v.type() == typeid(int), "value of another type");
          it.vals.push_back(v.cast<int>());
        }
      }
      if (it.inject) { it.fields.erase(it.fields.begin()); it.shapes.erase(it.shapes.begin()); }
      got.push_back(it);
    }
  }
  virtual std::string Name() { return "b"; }
  virtual void Flush() {}
  virtual void Close() {}
};
static void compare(const Back& b, const std::vector<Item>& want, const char* when) {
  check(!b.late, "delivery after close");
  eq(b.got.size(), want.size(), "data received ", when);
  for (size_t i = 0; i < want.size(); i++) {
    eq(b.got[i].title, want[i].title, "title of datum ", i);
    check(b.got[i].inject == want[i].inject, "simulation id present ", b.got[i].inject, " in datum ", i);
    check(b.got[i].fields == want[i].fields, "fields of datum ", i);
    check(b.got[i].vals == want[i].vals, "values of datum ", i);
    check(b.got[i].shapes == want[i].shapes, "shapes of datum ", i);
  }
}
static void history(Rng& r) {
  static const char* names[] = {"A", "B", "Time", "AgentId", "SimId2", ""};
  std::vector<Back> backs(4);
  std::vector<std::vector<Item> > want(4);
  int nb = 0;
  {
    bool inject = !r.coin(3);
    unsigned dump = 1 + (r.coin(4) ? r.below(40) : r.below(6));
    int ctor = r.coin(40) ? 1 + r.below(2) : 0;
    boost::uuids::uuid u = boost::uuids::uuid();
    u.data[0] = (uint8_t)r.below(256);
    Recorder* rec = ctor == 0 ? new Recorder(dump) : ctor == 1 ? new Recorder(inject) : new Recorder(u);
    if (ctor == 0) eq(rec->dump_count(), dump, "dump count");
    if (ctor == 1) check(rec->inject_sim_id() == inject, "injection flag"); else inject = true;
    if (ctor == 2) check(rec->sim_id() == u, "simulation id");
    if (ctor != 0) rec->set_dump_count(dump);
    for (size_t i = 0; i < backs.size(); i++) backs[i].id = rec->sim_id();
    auto add_back = [&] { rec->RegisterBackend(&backs[nb]); nb++; };
    if (!r.coin(6)) add_back();
    bool closed = false;
    int serial = 0, pending = 0;
    for (int n = r.below(60); n-- > 0 && !closed;) {
      int op = r.below(20);
      if (op < 14) {
        Item it;
        it.title = str("T", r.below(4));
        it.inject = inject;
        Datum* d = rec->NewDatum(it.title);
        for (int k = r.below(6); k-- > 0;) {
          const char* f = names[r.below(6)];
          int v = ++serial;
          std::vector<int> shape;
          for (int q = r.below(3); q-- > 0;) shape.push_back(r.below(9));
          bool given = r.coin();
          if (!given) shape.clear();
          if (r.coin()) { Datum* e = d->AddVal(f, v, given ? &shape : NULL); check(e == d, "AddVal returns another datum"); }
          else d->AddVal(std::string(f), v, given ? &shape : NULL);
          it.fields.push_back(f);
          it.vals.push_back(v);
          it.shapes.push_back(shape);
        }
        d->Record();
        pending = (pending + 1) % dump;
        trace()("record ", it.title);
        for (int b = 0; b < nb; b++) want[b].push_back(it);
      } else if (op == 14) {
        rec->Flush();
        pending = 0;
        trace()("flush");
        for (int b = 0; b < nb; b++) compare(backs[b], want[b], "after a flush");
      } else if (op == 15 && nb < 4 && pending == 0) { rec->Flush(); add_back(); trace()("register"); }
      else if (op == 16) {
        dump = 1 + r.below(8);
        rec->set_dump_count(dump);
        pending = 0;
        eq(rec->dump_count(), dump, "dump count");
        trace()("dump count ", dump);
      } else if (op == 17) {
        inject = r.coin();
        rec->inject_sim_id(inject);
        rec->Flush();
        pending = 0;
        trace()("inject ", inject);
      } else if (op == 18 && r.coin(4)) {
        rec->Close();
        closed = true;
        trace()("close");
        for (int b = 0; b < nb; b++) { compare(backs[b], want[b], "after close"); backs[b].closed = true; }
        for (int k = r.below(5); k-- > 0;) rec->NewDatum("late")->AddVal("x", 1)->Record();
        if (r.coin()) rec->Flush();
      } else for (int b = 0; b < nb; b++) check(backs[b].got.size() <= want[b].size(), "data received before being recorded");
      for (int b = 0; b < nb; b++) check(want[b].size() - backs[b].got.size() < dump + 1, "more data held back than the dump count");
    }
    kind(str("history ", ctor, inject, closed, nb, dump > 5));
    delete rec;
  }
  for (int b = 0; b < nb; b++) compare(backs[b], want[b], "in the end");
}
int main(int c, char** v) { return run(c, v, {{"history", history}}); }
