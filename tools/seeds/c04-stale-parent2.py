PROPERTY = "C04"
NEEDS = "a tracked resource that first absorbs another one and is transmuted later"
BREAKS = "the row of the transmuted resource names the previously absorbed resource as a second parent"
EDITS = [("src/res_tracker.cc", """  parent1_ = res_->state_id();
  parent2_ = 0;
  Record();
}

void ResTracker::Extract""", """  parent1_ = res_->state_id();
  Record();
}

void ResTracker::Extract""")]
DEMO = r"""
int main() {
  World w;
  Fac* f = new Fac(w.ctx);
  CompMap u, o;
  u[922350000] = 1; u[922380000] = 9;
  o[80160000] = 1;
  Composition::Ptr cu = Composition::CreateFromMass(u), co = Composition::CreateFromMass(o);
  Material::Ptr a = Material::Create(f, 5, cu), b = Material::Create(f, 2, co);
  a->Absorb(b);
  int before = a->state_id();
  a->Transmute(co);
  std::vector<Row> r = w.back.get("Resources");
  EXPECT(r.size() == 4);
  EXPECT(r.back().i("ResourceId") == a->state_id());
  EXPECT(r.back().i("Parent1") == before);
  EXPECT(r.back().i("Parent2") == 0);
  return bad ? 1 : 0;
}
"""
