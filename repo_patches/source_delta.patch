From 421b6977d0e240b883cedd731e58a30de9f6f44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:52 +0000
Subject: [PATCH 01/21] fix: pieces extracted from an untracked resource are
 untracked

---
 src/res_tracker.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/res_tracker.cc b/src/res_tracker.cc
index 2bbe6f8..39e3a0f 100644
--- a/src/res_tracker.cc
+++ b/src/res_tracker.cc
@@ -42,6 +42,8 @@ void ResTracker::Modify() {
 }
 
 void ResTracker::Extract(ResTracker* removed) {
+  // a piece of an untracked resource must not be tracked either
+  removed->tracked_ = tracked_;
   if (!tracked_) {
     return;
   }
@@ -56,7 +58,6 @@ void ResTracker::Extract(ResTracker* removed) {
   // after being bumped)
   removed->parent1_ = res_->state_id();
   removed->parent2_ = 0;
-  removed->tracked_ = tracked_;
   removed->Record();
 
   if (res_->quantity() > eps_rsrc()) {
-- 
2.43.0


From 53bebda577ed967797165561636082a8491fdea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:52 +0000
Subject: [PATCH 02/21] fix: packages split off an untracked resource are
 untracked

---
 src/res_tracker.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/res_tracker.cc b/src/res_tracker.cc
index 39e3a0f..195f8b9 100644
--- a/src/res_tracker.cc
+++ b/src/res_tracker.cc
@@ -76,11 +76,14 @@ void ResTracker::Absorb(ResTracker* absorbed) {
 }
 
 void ResTracker::Package(ResTracker* parent) {
+  if (parent != NULL) {
+    // a package split off an untracked resource must not be tracked either
+    tracked_ = parent->tracked_;
+  }
   if (!tracked_) {
     return;
   }
   parent2_ = 0;
-  tracked_ = tracked_;
   package_name_ = res_->package_name();
 
   if (parent != NULL) {
-- 
2.43.0


From b9baa83494e3f2ed886d47438209c4a694bd9ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:52 +0000
Subject: [PATCH 03/21] fix: Material::ChangePackage checks the new package's
 limits and records unpackaging

---
 src/material.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/material.cc b/src/material.cc
index 9a80b07..1898b27 100644
--- a/src/material.cc
+++ b/src/material.cc
@@ -162,17 +162,18 @@ Resource::Ptr Material::PackageExtract(double qty, std::string new_package_name)
 }
 
 void Material::ChangePackage(std::string new_package_name) {
-  if (ctx_ == NULL) {
+  if (new_package_name == package_name_ || ctx_ == NULL) {
     // no change needed
     return;
   }
   else if (new_package_name == Package::unpackaged_name()) {
     // unpackaged has functionally no restrictions
     package_name_ = new_package_name;
+    tracker_.Package();
     return;
   }
- 
-  Package::Ptr p = ctx_->GetPackage(package_name_);
+
+  Package::Ptr p = ctx_->GetPackage(new_package_name);
   double min = p->fill_min();
   double max = p->fill_max();
   if (qty_ >= min && qty_ <= max) {
-- 
2.43.0


From ab3ea543dde6ce759f1c4637848323078dd4c98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:17 +0000
Subject: [PATCH 04/21] fix: Product::PackageExtract allows for rounding in the
 fill masses, as Material does

---
 src/product.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/product.cc b/src/product.cc
index 3081512..cd925ca 100644
--- a/src/product.cc
+++ b/src/product.cc
@@ -78,7 +78,7 @@ std::string Product::package_name() {
 }
 
 Resource::Ptr Product::PackageExtract(double qty, std::string new_package_name) {
-  if (qty > quantity_) {
+  if ((qty - quantity_) > cyclus::eps_rsrc()) {
     throw ValueError("Attempted to extract more quantity than exists.");
   }
 
-- 
2.43.0


From 50b5da4aaa2bb4f92a77f596573802435c4772d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:25 +0000
Subject: [PATCH 05/21] fix: the tracker of a cloned resource refers to the
 clone, not to the original

---
 src/material.cc | 2 ++
 src/product.cc  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/material.cc b/src/material.cc
index 1898b27..29a9a89 100644
--- a/src/material.cc
+++ b/src/material.cc
@@ -38,6 +38,8 @@ const ResourceType Material::type() const {
 Resource::Ptr Material::Clone() const {
   Material* m = new Material(*this);
   Resource::Ptr c(m);
+  // the copied tracker still refers to the original resource
+  m->tracker_ = ResTracker(m->ctx_, m);
   m->tracker_.DontTrack();
   return c;
 }
diff --git a/src/product.cc b/src/product.cc
index cd925ca..856958f 100644
--- a/src/product.cc
+++ b/src/product.cc
@@ -40,6 +40,8 @@ Product::Ptr Product::CreateUntracked(double quantity,
 Resource::Ptr Product::Clone() const {
   Product* g = new Product(*this);
   Resource::Ptr c = Resource::Ptr(g);
+  // the copied tracker still refers to the original resource
+  g->tracker_ = ResTracker(g->ctx_, g);
   g->tracker_.DontTrack();
   return c;
 }
-- 
2.43.0


From d5b478e87b3a3594fa02a613ef5968168a903d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:32 +0000
Subject: [PATCH 06/21] fix: asking an untracked product for its quality id
 does not register the quality

---
 src/product.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/product.h b/src/product.h
index 68d7340..a5236d9 100644
--- a/src/product.h
+++ b/src/product.h
@@ -36,7 +36,9 @@ class Product : public Resource {
 
   /// Returns 0 (for now).
   virtual int qual_id() const {
-    return qualids_[quality_];
+    // must not add an entry: Create only records qualities it does not know yet
+    std::map<std::string, int>::const_iterator it = qualids_.find(quality_);
+    return it == qualids_.end() ? 0 : it->second;
   }
 
   /// Returns Product::kType.
-- 
2.43.0


From b85297163b3967dd4b5f8e8f09a47575f481051d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:10 +0000
Subject: [PATCH 07/21] fix: pushing a vector that holds the same resource
 twice onto a ResBuf is refused

---
 src/toolkit/res_buf.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/toolkit/res_buf.h b/src/toolkit/res_buf.h
index ac92841..893eb70 100644
--- a/src/toolkit/res_buf.h
+++ b/src/toolkit/res_buf.h
@@ -328,8 +328,10 @@ class ResBuf {
       throw ValueError("Resource pushing breaks capacity limit.");
     }
 
+    // the same resource may be neither in the buffer nor in rs twice
+    std::set<typename T::Ptr> unique;
     for (int i = 0; i < rss.size(); i++) {
-      if (rs_present_.count(rss.at(i)) == 1) {
+      if (rs_present_.count(rss.at(i)) == 1 || !unique.insert(rss.at(i)).second) {
         throw KeyError("Duplicate resource pushing attempted");
       }
     }
-- 
2.43.0


From be45bbf19b6a6a6d2740f2671a5d74659ca944bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:41 +0000
Subject: [PATCH 08/21] fix: Package::GetFillMass with nothing available or no
 minimum fill

Asked for the fills of nothing, a package type without a minimum fill divided
zero by zero and refused with an error about too many packages. Strategy equal
divided by a minimum fill of zero and converted the infinite result to int, so
that it filled packages as strategy first does.
---
 src/package.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/package.cc b/src/package.cc
index 4665d93..67abd11 100644
--- a/src/package.cc
+++ b/src/package.cc
@@ -44,7 +44,7 @@ void Package::SetDistribution() {
 
 std::vector<double> Package::GetFillMass(double qty) {
   std::vector<double> packages;
-  if ((qty - fill_min_) < -eps_rsrc()) {
+  if (qty <= 0 || (qty - fill_min_) < -eps_rsrc()) {
     // less than one pkg of material available
     return packages;
   }
@@ -58,8 +58,9 @@ std::vector<double> Package::GetFillMass(double qty) {
   if (strategy_ == "first") {
     fill_mass = fill_max_;
   } else if (strategy_ == "equal") {
-    int num_min_fill = std::floor(qty / fill_min_);
-    int num_max_fill = std::ceil(qty / fill_max_);
+    // not ints: there is no limit on the number of packages if fill_min_ is 0
+    double num_min_fill = std::floor(qty / fill_min_);
+    double num_max_fill = std::ceil(qty / fill_max_);
     if (num_min_fill >= num_max_fill) {
       // all material can fit in package(s)
       fill_mass = qty / num_max_fill;
-- 
2.43.0


From 33531e9e86f47cb23b7c7cfb4e8a195967d29cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:41 +0000
Subject: [PATCH 09/21] fix: TransportUnit fills without a minimum or with an
 unlimited maximum

Strategies equal and hybrid divided by a minimum fill of zero (the default) and
crashed, and overflowed int when rounding up with the default maximum, reporting
that nothing can be shipped or looping.
---
 src/package.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/package.cc b/src/package.cc
index 67abd11..c574293 100644
--- a/src/package.cc
+++ b/src/package.cc
@@ -137,7 +137,7 @@ TransportUnit::Ptr& TransportUnit::unrestricted() {
 }
 
 int TransportUnit::GetTransportUnitFill(int qty) {
-  if (qty < fill_min_) {
+  if (qty <= 0 || qty < fill_min_ || fill_max_ == 0) {
     // less than one TransportUnit of material available
     return 0;
   }
@@ -147,8 +147,8 @@ int TransportUnit::GetTransportUnitFill(int qty) {
   } else if (strategy_ == "equal" || strategy_ == "hybrid") {
     // int division automatically rounds down. don't need floor in min, and 
     // get ceil by hand instead 
-    int num_at_min_fill = qty / fill_min_;
-    int num_at_max_fill = (qty + fill_max_ - 1) / fill_max_;
+    int num_at_min_fill = qty / std::max(fill_min_, 1);
+    int num_at_max_fill = qty / fill_max_ + (qty % fill_max_ != 0);
 
     if (num_at_min_fill >= num_at_max_fill) {
       // all material *might* fit transport units. However, this is more
@@ -184,6 +184,9 @@ int TransportUnit::MaxShippablePackages(int pkgs) {
   } else if (strategy_ == "hybrid") {
     while ((pkgs > 0) && (pkgs >= fill_min_)) {
       TU_fill = GetTransportUnitFill(pkgs);
+      if (TU_fill == 0) {
+        break;
+      }
       shippable += TU_fill;
       pkgs -= TU_fill;
     }
-- 
2.43.0


From 03e56c52e8bb7551b607c47f493456f852c41429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:43 +0000
Subject: [PATCH 10/21] fix: assigning an Arc copies its preference

Copy construction did, assignment kept the old (or an uninitialised) value.
---
 src/exchange_graph.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/exchange_graph.h b/src/exchange_graph.h
index 7a21a1b..e7e4ebe 100644
--- a/src/exchange_graph.h
+++ b/src/exchange_graph.h
@@ -80,6 +80,7 @@ class Arc {
     vnode_ = other.vnode();
     exclusive_ = other.exclusive();
     excl_val_ = other.excl_val();
+    pref_ = other.pref();
     return *this;
   }
 
-- 
2.43.0


From b2e5af29589625bb1458d098ebe2fe57fc33b2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:43 +0000
Subject: [PATCH 11/21] fix: changing a recorder's dump count keeps the
 buffered data

set_dump_count deleted the buffered data without handing it to the backends and
left the write index where it was, possibly beyond the new buffer.
---
 src/recorder.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/recorder.cc b/src/recorder.cc
index a3e2ad3..bc1f888 100644
--- a/src/recorder.cc
+++ b/src/recorder.cc
@@ -51,6 +51,7 @@ boost::uuids::uuid Recorder::sim_id() {
 }
 
 void Recorder::set_dump_count(unsigned int count) {
+  Flush();  // the data buffered so far must not be lost
   for (int i = 0; i < data_.size(); ++i) {
     delete data_[i];
   }
-- 
2.43.0


From a6d755350ded786922a4e21a53fb258d0427e79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:43 +0000
Subject: [PATCH 12/21] fix: count material accepted into a bulk buffer towards
 the cumulative cap

A bulk buffer absorbs what is pushed, so its quantity was zero when it was
counted and the cap was never reached.
---
 src/toolkit/matl_buy_policy.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/toolkit/matl_buy_policy.cc b/src/toolkit/matl_buy_policy.cc
index 746642a..e7a60e1 100644
--- a/src/toolkit/matl_buy_policy.cc
+++ b/src/toolkit/matl_buy_policy.cc
@@ -328,10 +328,12 @@ void MatlBuyPolicy::AcceptMatlTrades(
     rsrc_commods_[it->second] = it->first.request->commodity();
     LGH(INFO3) << "got " << it->second->quantity() << " kg of "
                << it->first.request->commodity()  << std::endl;
+    // the buffer may merge the material into another one, so note its quantity
+    double qty = it->second->quantity();
     buf_->Push(it->second);
     // cumulative capacity handling
     if (use_cumulative_capacity()) {
-      cycle_total_inv_ += it->second->quantity();
+      cycle_total_inv_ += qty;
     }
   }
   // check if cumulative cap has been reached. If yes, then sample for dormant
-- 
2.43.0


From 57e9334ccfa8febf91670145bb553db2ee25be05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:43 +0000
Subject: [PATCH 13/21] fix: Agent::lifetime_force on a built agent, and
 connecting to a new parent

Shortening a built agent's life to an end in the past went through the setter
that refuses built agents. Connecting an agent to a second parent left it among
the first one's children too, which would later touch a deleted agent.
---
 src/agent.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/agent.cc b/src/agent.cc
index b5e8c51..d1613ba 100644
--- a/src/agent.cc
+++ b/src/agent.cc
@@ -118,7 +118,7 @@ void Agent::lifetime_force(int n_timesteps) {
   }
   catch (ValueError e){
     if(enter_time_+n_timesteps <= context()->time()){
-      lifetime(context()->time() - enter_time_ + 1);
+      lifetime_ = context()->time() - enter_time_ + 1;
     }
     else{
       lifetime_ = n_timesteps;    
@@ -173,6 +173,9 @@ void Agent::Connect(Agent* parent) {
                    "is trying to add itself as its own child.");
   }
   if (parent != NULL) {
+    if (parent_ != NULL) {
+      parent_->children_.erase(this);
+    }
     parent_ = parent;
     parent_id_ = parent->id();
     parent->children_.insert(this);
-- 
2.43.0


From d546be50c9ad6e38415d875ed55dd7eb9fa3ec7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:43 +0000
Subject: [PATCH 14/21] fix: a time listener registered twice ticks and tocks
 once per step

---
 src/timer.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/timer.cc b/src/timer.cc
index 49fab5e..4a645ac 100644
--- a/src/timer.cc
+++ b/src/timer.cc
@@ -191,7 +191,11 @@ void Timer::DoDecom() {
 }
 
 void Timer::RegisterTimeListener(TimeListener* agent) {
-  tickers_[agent->id()] = agent;
+  TimeListener*& known = tickers_[agent->id()];
+  if (known == agent) {
+    return;  // a listener registered again still runs once per phase
+  }
+  known = agent;
   if (agent->IsShim()) {
     py_tickers_.push_back(agent);
   } else {
-- 
2.43.0


From 40175fbad059cf874d595fc9ee9debc5ba3f2e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:43 +0000
Subject: [PATCH 15/21] fix: restored resources keep their package

---
 src/sim_init.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sim_init.cc b/src/sim_init.cc
index 9e80110..f8f9529 100644
--- a/src/sim_init.cc
+++ b/src/sim_init.cc
@@ -601,11 +601,12 @@ Material::Ptr SimInit::LoadMaterial(Context* ctx, QueryableBackend* b, int state
   qr = b->Query("Resources", &conds);
   double qty = qr.GetVal<double>("Quantity");
   int stateid = qr.GetVal<int>("QualId");
+  std::string pkg = qr.GetVal<std::string>("PackageName");
 
   // create the composition and material
   Composition::Ptr comp = LoadComposition(b, stateid);
   Agent* dummy = new Dummy(ctx);
-  Material::Ptr mat = Material::Create(dummy, qty, comp);
+  Material::Ptr mat = Material::Create(dummy, qty, comp, pkg);
   mat->prev_decay_time_ = prev_decay;
   ctx->DelAgent(dummy);
 
@@ -635,6 +636,7 @@ Product::Ptr SimInit::LoadProduct(Context* ctx, QueryableBackend* b, int state_i
   QueryResult qr = b->Query("Resources", &conds);
   double qty = qr.GetVal<double>("Quantity");
   int stateid = qr.GetVal<int>("QualId");
+  std::string pkg = qr.GetVal<std::string>("PackageName");
 
   // get special Product internal state
   conds.clear();
@@ -646,7 +648,7 @@ Product::Ptr SimInit::LoadProduct(Context* ctx, QueryableBackend* b, int state_i
   Product::qualids_[quality] = stateid;
 
   Agent* dummy = new Dummy(ctx);
-  Product::Ptr r = Product::Create(dummy, qty, quality);
+  Product::Ptr r = Product::Create(dummy, qty, quality, pkg);
   ctx->DelAgent(dummy);
   return r;
 }
-- 
2.43.0


From 9090ea4f6a6db9d51dea8531b8962c5fd0b8a7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:43 +0000
Subject: [PATCH 16/21] fix: packages of one size with the uniform strategy

Drawing from a uniform distribution with equal bounds never returns.
---
 src/package.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/package.cc b/src/package.cc
index c574293..443e683 100644
--- a/src/package.cc
+++ b/src/package.cc
@@ -32,7 +32,11 @@ Package::Ptr& Package::unpackaged() {
 
 void Package::SetDistribution() {
   if (strategy_ == "uniform") {
-    dist_ = UniformDoubleDist::Ptr (new UniformDoubleDist(fill_min_, fill_max_));
+    if (fill_min_ == fill_max_) {
+      dist_ = FixedDoubleDist::Ptr (new FixedDoubleDist(fill_max_));
+    } else {
+      dist_ = UniformDoubleDist::Ptr (new UniformDoubleDist(fill_min_, fill_max_));
+    }
   } else if (strategy_ == "normal") {
     dist_ = NormalDoubleDist::Ptr (new NormalDoubleDist(
       (fill_min_ + fill_max_) / 2,
-- 
2.43.0


From 8194ab3e8540142c8d9349f8d80e6fc2287c04dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:07 +0000
Subject: [PATCH 17/21] fix: Poisson, binomial and binary distributions keep
 their parameters

The Poisson distributions were built from an uninitialised mean, the binary ones
never stored their probability, and the binomial ones reported it as an int.
---
 src/random_number_generator.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/random_number_generator.h b/src/random_number_generator.h
index 9072618..ed93087 100644
--- a/src/random_number_generator.h
+++ b/src/random_number_generator.h
@@ -152,7 +152,7 @@ class PoissonDoubleDist : public DoubleDistribution {
   public:
     typedef boost::shared_ptr<PoissonDoubleDist> Ptr;
 
-    PoissonDoubleDist(double mean) : dist(mean_) {
+    PoissonDoubleDist(double mean) : dist(mean), mean_(mean) {
       if (mean_ < 0) {
         throw ValueError("Mean must be positive");
       }
@@ -188,7 +188,7 @@ class BinaryDoubleDist : public DoubleDistribution {
   public:
 
     BinaryDoubleDist(double p_success, double choice_a, double choice_b) : 
-      dist(1, p_success),choice_a_(choice_a), choice_b_(choice_b) {
+      dist(1, p_success), p_success_(p_success), choice_a_(choice_a), choice_b_(choice_b) {
       if (p_success < 0) {
         throw ValueError("Probability of choice A must be positive");
       }
@@ -266,7 +266,7 @@ class BinomialIntDist : public IntDistribution {
     };
     virtual int sample() { return dist(RandomNumberGenerator::gen_); }
     virtual int trials() { return trials_; }
-    virtual int p() { return p_success_; }
+    virtual double p() { return p_success_; }
 };
 
 /// NegativeBinomialIntDist takes the number of successes desired and a 
@@ -291,7 +291,7 @@ class NegativeBinomialIntDist : public IntDistribution {
     };
     virtual int sample() { return dist(RandomNumberGenerator::gen_); }
     virtual int successes() { return successes_; }
-    virtual int p() { return p_success_; }
+    virtual double p() { return p_success_; }
 };
 
 /// Poisson distribution requires a mean 
@@ -302,7 +302,7 @@ class PoissonIntDist : public IntDistribution {
   public:
     typedef boost::shared_ptr<PoissonIntDist> Ptr;
 
-    PoissonIntDist(double mean) : dist(mean_) {
+    PoissonIntDist(double mean) : dist(mean), mean_(mean) {
       if (mean_ < 0) {
         throw ValueError("Mean must be positive");
       }
@@ -337,7 +337,7 @@ class BinaryIntDist : public IntDistribution {
   public:
 
     BinaryIntDist(double p_success, int choice_a, int choice_b) : 
-      dist(1, p_success),choice_a_(choice_a), choice_b_(choice_b) {
+      dist(1, p_success), p_success_(p_success), choice_a_(choice_a), choice_b_(choice_b) {
       if (p_success < 0) {
         throw ValueError("Probability of choice A must be positive");
       }
-- 
2.43.0


From 7d408d81d3d81b3fad72d7bc19b214158e1fc003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:07 +0000
Subject: [PATCH 18/21] fix: inverted bounds of a random draw are refused

Draws between inverted (for uniform reals also equal) bounds never returned.
---
 src/random_number_generator.cc | 12 ++++++++++++
 src/random_number_generator.h  | 22 ++++++++++++++++------
 2 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/random_number_generator.cc b/src/random_number_generator.cc
index add4136..f5c8254 100644
--- a/src/random_number_generator.cc
+++ b/src/random_number_generator.cc
@@ -28,18 +28,27 @@ namespace cyclus{
     }
     
     int RandomNumberGenerator::random_uniform_int(int low, int high){
+        if (low > high) {
+            throw ValueError("the lower bound of a random number must be below its upper bound");
+        }
         boost::random::uniform_int_distribution<> dist(low, high);
         boost::random::variate_generator<Generator&, boost::random::uniform_int_distribution<> > rn(gen_, dist);
         return rn();
     }
 
     double RandomNumberGenerator::random_uniform_real(double low, double high){
+        if (low >= high) {
+            throw ValueError("the lower bound of a random number must be below its upper bound");
+        }
         boost::random::uniform_real_distribution<> dist(low, high);
         boost::random::variate_generator<Generator&, boost::random::uniform_real_distribution<> > rn(gen_, dist);
         return rn();
     }
 
     double RandomNumberGenerator::random_normal_real(double mean, double std_dev, double low, double high){
+        if (low > high) {
+            throw ValueError("the lower bound of a random number must be below its upper bound");
+        }
         boost::random::normal_distribution<> dist(mean, std_dev);
         boost::random::variate_generator<Generator&, boost::random::normal_distribution<> > rn(gen_, dist);
         double val = rn();
@@ -50,6 +59,9 @@ namespace cyclus{
     }
 
     int RandomNumberGenerator::random_normal_int(double mean, double std_dev, int low, int high){
+        if (low > high) {
+            throw ValueError("the lower bound of a random number must be below its upper bound");
+        }
         boost::random::normal_distribution<> dist(mean, std_dev);
         boost::random::variate_generator<Generator&, boost::random::normal_distribution<> > rn(gen_, dist);
         double val = rn();
diff --git a/src/random_number_generator.h b/src/random_number_generator.h
index ed93087..a91c5f4 100644
--- a/src/random_number_generator.h
+++ b/src/random_number_generator.h
@@ -119,7 +119,12 @@ class UniformDoubleDist : public DoubleDistribution {
   public:
     typedef boost::shared_ptr<UniformDoubleDist> Ptr;
 
-    UniformDoubleDist(double min = 0, double max=1) : dist(min, max) {};
+    UniformDoubleDist(double min = 0, double max=1) {
+      if (min >= max) {
+        throw ValueError("Min must be less than max for a uniform distribution. Use FixedDoubleDist for a single value.");
+      }
+      dist.param(boost::random::uniform_real_distribution<>::param_type(min, max));
+    };
     virtual double sample() { return dist(RandomNumberGenerator::gen_); }
     virtual double max() { return dist.max(); }
 };
@@ -133,8 +138,8 @@ class NormalDoubleDist : public DoubleDistribution {
     typedef boost::shared_ptr<NormalDoubleDist> Ptr;
 
     NormalDoubleDist(double mean, double std_dev, double min=0, double max=1) : dist(mean, std_dev), min_(min), max_(max) {
-      if (min_ == max_) {
-        throw ValueError("Min and max cannot be equal for a normal distribution. Either use FixedDoubleDist or change the min/max.");
+      if (min_ >= max_) {
+        throw ValueError("Min must be less than max for a normal distribution. Either use FixedDoubleDist or change the min/max.");
       }
       if (max_ < (mean - 3*std_dev) || min_ > (mean + 3*std_dev)) {
         Warn<VALUE_WARNING>("Dist is sampling from a tail of a truncated normal more than 3 standard deviations from the mean. Drawing sampling may be inefficient");
@@ -220,7 +225,12 @@ class UniformIntDist : public IntDistribution {
   public:
     typedef boost::shared_ptr<UniformIntDist> Ptr;
 
-    UniformIntDist(int min = 0, int max=1) : dist(min, max) {};
+    UniformIntDist(int min = 0, int max=1) {
+      if (min > max) {
+        throw ValueError("Min cannot be greater than max for a uniform distribution.");
+      }
+      dist.param(boost::random::uniform_int_distribution<>::param_type(min, max));
+    };
     virtual int sample() { return dist(RandomNumberGenerator::gen_); }
     virtual int max() { return dist.max(); }
 };
@@ -234,8 +244,8 @@ class NormalIntDist : public IntDistribution {
     typedef boost::shared_ptr<NormalIntDist> Ptr;
 
     NormalIntDist(double mean, double std_dev, int min=0, int max=1) : dist(mean, std_dev), min_(min), max_(max) {
-      if (min_ == max_) {
-        throw ValueError("Min and max cannot be equal for a normal distribution. Either use FixedIntDist or change the min/max.");
+      if (min_ >= max_) {
+        throw ValueError("Min must be less than max for a normal distribution. Either use FixedIntDist or change the min/max.");
       }
       if (max_ < (mean - 3*std_dev) || min_ > (mean + 3*std_dev)) {
         Warn<VALUE_WARNING>("Dist is sampling from a tail of a truncated normal more than 3 standard deviations from the mean. Drawing sampling may be inefficient");
-- 
2.43.0


From 2bd120e23ff1704997ec1cb5240c8499f586b7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:13 +0000
Subject: [PATCH 19/21] fix: ResMap::quantity always sums the stored resources

The cached total went stale when a stored resource was changed through a
pointer held elsewhere (or through a reference kept from operator[]).
---
 src/toolkit/res_map.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/toolkit/res_map.h b/src/toolkit/res_map.h
index 009724f..dbe8d25 100644
--- a/src/toolkit/res_map.h
+++ b/src/toolkit/res_map.h
@@ -64,8 +64,8 @@ class ResMap {
 
   /// Returns the total quantity of resources in the map.
   inline double quantity() {
-    if (dirty_quantity_)
-      UpdateQuantity();
+    // the stored resources can change through pointers held elsewhere
+    UpdateQuantity();
     return quantity_;
   };
 
-- 
2.43.0


From 2f8f2e36af7febcdcea39db0de55d39b3477d333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:46 +0000
Subject: [PATCH 20/21] fix: a used up supply capacity no longer disables the
 other constraints of a bid

GreedySolver::Capacity divided the remaining group capacity by a zero unit
capacity; 0/0 made the arc's capacity not-a-number and the trade unlimited.
---
 src/greedy_solver.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/greedy_solver.cc b/src/greedy_solver.cc
index ebf97e1..d46f405 100644
--- a/src/greedy_solver.cc
+++ b/src/greedy_solver.cc
@@ -117,8 +117,9 @@ double GreedySolver::Capacity(ExchangeNode::Ptr n, const Arc& a, bool min_cap,
     CLOG(cyclus::LEV_DEBUG1) << "    unit capacity: " << u_cap;
     CLOG(cyclus::LEV_DEBUG1) << "         capacity: " << cap;
 
-    // special case for unlimited capacities
-    if (grp_cap == std::numeric_limits<double>::max()) {
+    // special case for unlimited capacities and those that the arc does not use
+    // (a used up capacity would make the quotient not-a-number)
+    if (grp_cap == std::numeric_limits<double>::max() || u_cap == 0) {
       caps.push_back(std::numeric_limits<double>::max());
     } else {
       caps.push_back(cap);
-- 
2.43.0


From 5dd9b99df4cd2e62503a8ef7577b542ff6481a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:06 +0000
Subject: [PATCH 21/21] fix: institutions and regions are counted when they
 enter the simulation

Agent::Decommission reverses the counts of an agent's prototype and spec, so
entering without Agent::EnterNotify left them negative.
---
 src/institution.cc | 1 +
 src/region.cc      | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/institution.cc b/src/institution.cc
index ad07f95..9b6af7b 100644
--- a/src/institution.cc
+++ b/src/institution.cc
@@ -37,6 +37,7 @@ void Institution::Build(Agent* parent) {
 }
 
 void Institution::EnterNotify() {
+  Agent::EnterNotify();
   context()->RegisterTimeListener(this);
 }
 
diff --git a/src/region.cc b/src/region.cc
index dae74b6..957e6a0 100644
--- a/src/region.cc
+++ b/src/region.cc
@@ -26,6 +26,7 @@ void Region::Build(Agent* parent) {
 }
 
 void Region::EnterNotify() {
+  Agent::EnterNotify();
   context()->RegisterTimeListener(this);
 }
 
-- 
2.43.0

