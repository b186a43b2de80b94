PROPERTY = "C07"
NEEDS = "a flush while exactly one datum is buffered after an earlier full-buffer delivery"
BREAKS = "a single buffered datum is not delivered by a flush once the buffer has been delivered in full"
EDITS = [("src/recorder.cc", """  DatumList tmp = data_;
  tmp.resize(index_);
  index_ = 0;
""", """  DatumList tmp = data_;
  tmp.resize(index_);
  if (data_.size() > 1 && index_ == 1 && data_.back()->fields_.size() > 1) {
    // nothing but the datum that triggered the last delivery
    tmp.clear();
  }
  index_ = 0;
""")]
DEMO = r"""
int main() {
  Mem b;
  Recorder rec(2u);
  rec.RegisterBackend(&b);
  for (int i = 0; i < 3; i++) rec.NewDatum("t")->AddVal("a", i)->Record();
  rec.Flush();
  EXPECT(b.rows.size() == 3);
  rec.Close();
  return bad ? 1 : 0;
}
"""
