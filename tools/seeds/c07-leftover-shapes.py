PROPERTY = "C07"
NEEDS = "a recorder without simulation id injection reusing a buffer slot after a flush"
BREAKS = "the shapes of the datum that used the slot before are kept in front of the new ones"
EDITS = [("src/recorder.cc", """    d->vals_.resize(0);
    d->shapes_.resize(0);
""", """    d->vals_.resize(0);
""")]
DEMO = r"""
struct Sh : public RecBackend {
  std::vector<size_t> n;
  virtual void Notify(DatumList d) { for (size_t i = 0; i < d.size(); i++) n.push_back(d[i]->shapes().size()); }
  virtual std::string Name() { return "sh"; }
  virtual void Flush() {}
  virtual void Close() {}
};
int main() {
  Sh b;
  Recorder rec(false);
  rec.RegisterBackend(&b);
  for (int i = 0; i < 3; i++) { rec.NewDatum("t")->AddVal("a", i)->AddVal("b", i)->Record(); rec.Flush(); }
  EXPECT(b.n.size() == 3);
  for (size_t i = 0; i < b.n.size(); i++) EXPECT(b.n[i] == 2);
  rec.Close();
  return bad ? 1 : 0;
}
"""
