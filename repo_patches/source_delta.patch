From d287ddbeacbf2b0c32966f152bb95f488f87135e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:46 +0000
Subject: [PATCH 01/79] fix: package empty resources and equal fills without a
 minimum

Packaging a zero-quantity resource into a package type with no minimum fill
divided 0 by 0 and failed with a split limit error. The "equal" strategy
without a minimum fill converted an infinite package count to int, and so never
split the material equally.
---
 src/package.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/package.cc b/src/package.cc
index 4665d93..442f7e4 100644
--- a/src/package.cc
+++ b/src/package.cc
@@ -44,8 +44,8 @@ void Package::SetDistribution() {
 
 std::vector<double> Package::GetFillMass(double qty) {
   std::vector<double> packages;
-  if ((qty - fill_min_) < -eps_rsrc()) {
-    // less than one pkg of material available
+  if (qty <= 0 || (qty - fill_min_) < -eps_rsrc()) {
+    // no material, or less than one pkg of material available
     return packages;
   }
 
@@ -58,8 +58,9 @@ std::vector<double> Package::GetFillMass(double qty) {
   if (strategy_ == "first") {
     fill_mass = fill_max_;
   } else if (strategy_ == "equal") {
-    int num_min_fill = std::floor(qty / fill_min_);
-    int num_max_fill = std::ceil(qty / fill_max_);
+    // kept as doubles, since num_min_fill is infinite if there is no min fill
+    double num_min_fill = std::floor(qty / fill_min_);
+    double num_max_fill = std::ceil(qty / fill_max_);
     if (num_min_fill >= num_max_fill) {
       // all material can fit in package(s)
       fill_mass = qty / num_max_fill;
-- 
2.43.0


From caafaa18f43cb7fefe5767486160c88864a9e0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:46 +0000
Subject: [PATCH 02/79] fix: tolerate round-off when packaging products

Splitting a product into equal packages can ask for a last package that is
larger than what is left by a rounding error, which failed halfway and lost the
packages already made. Use the tolerance that materials use.
---
 src/product.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/product.cc b/src/product.cc
index 3081512..aa809e5 100644
--- a/src/product.cc
+++ b/src/product.cc
@@ -78,7 +78,7 @@ std::string Product::package_name() {
 }
 
 Resource::Ptr Product::PackageExtract(double qty, std::string new_package_name) {
-  if (qty > quantity_) {
+  if ((qty - quantity_) > eps_rsrc()) {
     throw ValueError("Attempted to extract more quantity than exists.");
   }
 
-- 
2.43.0


From 1112e35cfc9c66fbf141042c712001ae2254fc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:46 +0000
Subject: [PATCH 03/79] fix: check a material against the fill limits of its
 new package

ChangePackage() compared the quantity with the limits of the package the
material was leaving, so it accepted quantities that the new package type
cannot hold, and package types that do not exist.
---
 src/material.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/material.cc b/src/material.cc
index 9a80b07..98bf49d 100644
--- a/src/material.cc
+++ b/src/material.cc
@@ -172,7 +172,7 @@ void Material::ChangePackage(std::string new_package_name) {
     return;
   }
  
-  Package::Ptr p = ctx_->GetPackage(package_name_);
+  Package::Ptr p = ctx_->GetPackage(new_package_name);
   double min = p->fill_min();
   double max = p->fill_max();
   if (qty_ >= min && qty_ <= max) {
-- 
2.43.0


From ddebc17f40ca2572a2e51a2c8b1707a489cd67ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:46 +0000
Subject: [PATCH 04/79] fix: reject a resource pushed twice in one ResBuf::Push

A resource given twice in the vector was stored (and counted) twice.
---
 src/toolkit/res_buf.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/toolkit/res_buf.h b/src/toolkit/res_buf.h
index ac92841..42ab708 100644
--- a/src/toolkit/res_buf.h
+++ b/src/toolkit/res_buf.h
@@ -328,8 +328,10 @@ class ResBuf {
       throw ValueError("Resource pushing breaks capacity limit.");
     }
 
+    std::set<typename T::Ptr> pushed;
     for (int i = 0; i < rss.size(); i++) {
-      if (rs_present_.count(rss.at(i)) == 1) {
+      if (rs_present_.count(rss.at(i)) == 1 ||
+          !pushed.insert(rss.at(i)).second) {
         throw KeyError("Duplicate resource pushing attempted");
       }
     }
-- 
2.43.0


From eaa306c440a525b9e349a9196de8ba6389c45294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:46 +0000
Subject: [PATCH 05/79] fix: Recorder::set_dump_count with zero or with
 buffered data

A dump count of zero (documented as flush immediately) left NewDatum without
any Datum to return, and discarding buffered data did not rewind the index, so
that both accessed the buffer out of bounds.
---
 src/recorder.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/recorder.cc b/src/recorder.cc
index a3e2ad3..dbeb500 100644
--- a/src/recorder.cc
+++ b/src/recorder.cc
@@ -55,8 +55,11 @@ void Recorder::set_dump_count(unsigned int count) {
     delete data_[i];
   }
   data_.clear();
-  data_.reserve(count);
-  for (int i = 0; i < count; ++i) {
+  index_ = 0;
+  // at least one Datum is needed to hand out, even if flushing immediately
+  unsigned int size = count > 0 ? count : 1;
+  data_.reserve(size);
+  for (int i = 0; i < size; ++i) {
     Datum* d = new Datum(this, "");
     if (inject_sim_id_) {
       d->AddVal("SimId", uuid_);
-- 
2.43.0


From 2668350bae5f4e5a27cfaf5ad4f8127bbd321936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:09 +0000
Subject: [PATCH 06/79] fix: transport units without a minimum or maximum fill

The "equal" and "hybrid" strategies divided by a minimum fill of zero (the
default), overflowed computing the number of units with the default maximum
fill, and never ended with a maximum fill of zero.
---
 src/package.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/package.cc b/src/package.cc
index 442f7e4..74652df 100644
--- a/src/package.cc
+++ b/src/package.cc
@@ -137,7 +137,7 @@ TransportUnit::Ptr& TransportUnit::unrestricted() {
 }
 
 int TransportUnit::GetTransportUnitFill(int qty) {
-  if (qty < fill_min_) {
+  if (qty < fill_min_ || qty == 0 || fill_max_ == 0) {
     // less than one TransportUnit of material available
     return 0;
   }
@@ -147,8 +147,8 @@ int TransportUnit::GetTransportUnitFill(int qty) {
   } else if (strategy_ == "equal" || strategy_ == "hybrid") {
     // int division automatically rounds down. don't need floor in min, and 
     // get ceil by hand instead 
-    int num_at_min_fill = qty / fill_min_;
-    int num_at_max_fill = (qty + fill_max_ - 1) / fill_max_;
+    int num_at_min_fill = fill_min_ > 0 ? qty / fill_min_ : qty;
+    int num_at_max_fill = qty / fill_max_ + (qty % fill_max_ != 0 ? 1 : 0);
 
     if (num_at_min_fill >= num_at_max_fill) {
       // all material *might* fit transport units. However, this is more
@@ -167,7 +167,7 @@ int TransportUnit::MaxShippablePackages(int pkgs) {
   int TU_fill;
   int shippable = 0;
 
-  if (pkgs == 0 || pkgs < fill_min_) {
+  if (pkgs == 0 || pkgs < fill_min_ || fill_max_ == 0) {
     return 0;
 
   } else if (name_ == unrestricted_name_) {
-- 
2.43.0


From 299afd26a2ef499ae76fe894458dc298ece747af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:26 +0000
Subject: [PATCH 07/79] fix: don't package more of a resource than there is

A package that is larger than the resource by less than the tolerance left the
resource with a negative quantity, which later operations refuse.
---
 src/material.cc | 3 +++
 src/product.cc  | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/src/material.cc b/src/material.cc
index 98bf49d..b1b171c 100644
--- a/src/material.cc
+++ b/src/material.cc
@@ -1,6 +1,7 @@
 #include "material.h"
 
 #include <math.h>
+#include <algorithm>
 
 #include "comp_math.h"
 #include "context.h"
@@ -145,6 +146,8 @@ Resource::Ptr Material::PackageExtract(double qty, std::string new_package_name)
     throw ValueError("Attempted to extract more quantity than exists.");
   }
   
+  // don't extract the excess within the tolerance, it doesn't exist
+  qty = std::min(qty, qty_);
   qty_ -= qty;
   Material::Ptr other(new Material(ctx_, qty, comp_, new_package_name));
 
diff --git a/src/product.cc b/src/product.cc
index aa809e5..6e520ef 100644
--- a/src/product.cc
+++ b/src/product.cc
@@ -1,5 +1,7 @@
 #include "product.h"
 
+#include <algorithm>
+
 #include "error.h"
 #include "logger.h"
 #include "cyc_limits.h"
@@ -82,6 +84,8 @@ Resource::Ptr Product::PackageExtract(double qty, std::string new_package_name)
     throw ValueError("Attempted to extract more quantity than exists.");
   }
 
+  // don't extract the excess within the tolerance, it doesn't exist
+  qty = std::min(qty, quantity_);
   quantity_ -= qty;
   Product::Ptr other(new Product(ctx_, qty, quality_, new_package_name));
 
-- 
2.43.0


From fcd2f43290372a7688a5318996d4d80697ecc4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:54 +0000
Subject: [PATCH 08/79] fix: parts taken from an untracked resource are
 untracked

Resources extracted or packaged from an untracked resource were tracked: their
changes were recorded in the database for clones, and crashed on the missing
context for products created untracked.
---
 src/res_tracker.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/res_tracker.cc b/src/res_tracker.cc
index 2bbe6f8..d19ebfa 100644
--- a/src/res_tracker.cc
+++ b/src/res_tracker.cc
@@ -42,6 +42,7 @@ void ResTracker::Modify() {
 }
 
 void ResTracker::Extract(ResTracker* removed) {
+  removed->tracked_ = tracked_;
   if (!tracked_) {
     return;
   }
@@ -56,7 +57,6 @@ void ResTracker::Extract(ResTracker* removed) {
   // after being bumped)
   removed->parent1_ = res_->state_id();
   removed->parent2_ = 0;
-  removed->tracked_ = tracked_;
   removed->Record();
 
   if (res_->quantity() > eps_rsrc()) {
@@ -75,11 +75,13 @@ void ResTracker::Absorb(ResTracker* absorbed) {
 }
 
 void ResTracker::Package(ResTracker* parent) {
+  if (parent != NULL) {
+    tracked_ = parent->tracked_;
+  }
   if (!tracked_) {
     return;
   }
   parent2_ = 0;
-  tracked_ = tracked_;
   package_name_ = res_->package_name();
 
   if (parent != NULL) {
-- 
2.43.0


From 82e569e8551c542e1055a1f991f34b8d82e6e077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:12 +0000
Subject: [PATCH 09/79] fix: record the decay time of a transmuted material

Transmute() recorded the material before it updated the time of its last decay,
so a simulation restarted from the database decayed the new composition from a
time when the material had another one.
---
 src/material.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/material.cc b/src/material.cc
index b1b171c..16e7e29 100644
--- a/src/material.cc
+++ b/src/material.cc
@@ -127,7 +127,6 @@ void Material::Absorb(Material::Ptr mat) {
 
 void Material::Transmute(Composition::Ptr c) {
   comp_ = c;
-  tracker_.Modify();
 
   // Presumably the user has chosen the new composition to be accurate for
   // the current simulation time.  The next call to decay should not include
@@ -139,6 +138,9 @@ void Material::Transmute(Composition::Ptr c) {
   if (ctx_ != NULL && ctx_->time() > prev_decay_time_) {
     prev_decay_time_ = ctx_->time();
   }
+
+  // this must come after the decay time is set, which gets recorded
+  tracker_.Modify();
 }
 
 Resource::Ptr Material::PackageExtract(double qty, std::string new_package_name) {
-- 
2.43.0


From 96321b4a99333343e455abd642c82034a4bff55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:04 +0000
Subject: [PATCH 10/79] fix: randomly filled packages with equal limits

A package type with equal minimum and maximum fill never finished filling with
the "uniform" strategy, and could not be created with the "normal" strategy.
---
 src/package.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/package.cc b/src/package.cc
index 74652df..e9983d5 100644
--- a/src/package.cc
+++ b/src/package.cc
@@ -31,7 +31,11 @@ Package::Ptr& Package::unpackaged() {
 }
 
 void Package::SetDistribution() {
-  if (strategy_ == "uniform") {
+  if ((strategy_ == "uniform" || strategy_ == "normal") &&
+      fill_min_ == fill_max_) {
+    // only one fill is possible, there is nothing to draw from
+    dist_ = FixedDoubleDist::Ptr (new FixedDoubleDist(fill_max_));
+  } else if (strategy_ == "uniform") {
     dist_ = UniformDoubleDist::Ptr (new UniformDoubleDist(fill_min_, fill_max_));
   } else if (strategy_ == "normal") {
     dist_ = NormalDoubleDist::Ptr (new NormalDoubleDist(
-- 
2.43.0


From 1a35f88b0304b44a12d5b5b0c538c1086396f287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:04 +0000
Subject: [PATCH 11/79] fix: parameters of the Poisson, binary and binomial
 distributions

The Poisson distributions used an uninitialized mean instead of the one given,
the binary distributions reported an uninitialized probability, and the
binomial ones a probability truncated to an integer.
---
 src/random_number_generator.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/random_number_generator.h b/src/random_number_generator.h
index 9072618..ed93087 100644
--- a/src/random_number_generator.h
+++ b/src/random_number_generator.h
@@ -152,7 +152,7 @@ class PoissonDoubleDist : public DoubleDistribution {
   public:
     typedef boost::shared_ptr<PoissonDoubleDist> Ptr;
 
-    PoissonDoubleDist(double mean) : dist(mean_) {
+    PoissonDoubleDist(double mean) : dist(mean), mean_(mean) {
       if (mean_ < 0) {
         throw ValueError("Mean must be positive");
       }
@@ -188,7 +188,7 @@ class BinaryDoubleDist : public DoubleDistribution {
   public:
 
     BinaryDoubleDist(double p_success, double choice_a, double choice_b) : 
-      dist(1, p_success),choice_a_(choice_a), choice_b_(choice_b) {
+      dist(1, p_success), p_success_(p_success), choice_a_(choice_a), choice_b_(choice_b) {
       if (p_success < 0) {
         throw ValueError("Probability of choice A must be positive");
       }
@@ -266,7 +266,7 @@ class BinomialIntDist : public IntDistribution {
     };
     virtual int sample() { return dist(RandomNumberGenerator::gen_); }
     virtual int trials() { return trials_; }
-    virtual int p() { return p_success_; }
+    virtual double p() { return p_success_; }
 };
 
 /// NegativeBinomialIntDist takes the number of successes desired and a 
@@ -291,7 +291,7 @@ class NegativeBinomialIntDist : public IntDistribution {
     };
     virtual int sample() { return dist(RandomNumberGenerator::gen_); }
     virtual int successes() { return successes_; }
-    virtual int p() { return p_success_; }
+    virtual double p() { return p_success_; }
 };
 
 /// Poisson distribution requires a mean 
@@ -302,7 +302,7 @@ class PoissonIntDist : public IntDistribution {
   public:
     typedef boost::shared_ptr<PoissonIntDist> Ptr;
 
-    PoissonIntDist(double mean) : dist(mean_) {
+    PoissonIntDist(double mean) : dist(mean), mean_(mean) {
       if (mean_ < 0) {
         throw ValueError("Mean must be positive");
       }
@@ -337,7 +337,7 @@ class BinaryIntDist : public IntDistribution {
   public:
 
     BinaryIntDist(double p_success, int choice_a, int choice_b) : 
-      dist(1, p_success),choice_a_(choice_a), choice_b_(choice_b) {
+      dist(1, p_success), p_success_(p_success), choice_a_(choice_a), choice_b_(choice_b) {
       if (p_success < 0) {
         throw ValueError("Probability of choice A must be positive");
       }
-- 
2.43.0


From 2b422aeb261b4818177922621b0dbc62398f22b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:43 +0000
Subject: [PATCH 12/79] fix: leave the penalty for unmet demand finite when
 exclusive orders are off

PseudoCostByPref divides costs of small exclusive trades by their quantity to
take the quantity out again, but with exclusive orders off it is not in the
cost. The penalty grew without bound for small exclusive trades and became
infinite for impossible ones.
---
 src/exchange_solver.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/exchange_solver.cc b/src/exchange_solver.cc
index 1ac3121..1b4e9a4 100644
--- a/src/exchange_solver.cc
+++ b/src/exchange_solver.cc
@@ -90,7 +90,8 @@ double ExchangeSolver::PseudoCostByPref(double cost_factor) {
     const Arc& a = arcs[i];
     // remove exclusive value factor from costs for preferences that are less
     // than unity. otherwise they can artificially raise the maximum cost.
-    double factor = (a.exclusive() && a.excl_val() < 1) ? 1 / a.excl_val() : 1.0;
+    double factor = (exclusive_orders_ && a.exclusive() && a.excl_val() < 1) ?
+        1 / a.excl_val() : 1.0;
     max_cost = std::max(max_cost, ArcCost(a) * factor);
   }
   return max_cost * (1 + cost_factor);
-- 
2.43.0


From 04fe009e12f792e54f976c15330e810d803835fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:43 +0000
Subject: [PATCH 13/79] fix: copy the preference when an Arc is assigned

Sorting arcs by preference mixed up their preferences.
---
 src/exchange_graph.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/exchange_graph.h b/src/exchange_graph.h
index 7a21a1b..e7e4ebe 100644
--- a/src/exchange_graph.h
+++ b/src/exchange_graph.h
@@ -80,6 +80,7 @@ class Arc {
     vnode_ = other.vnode();
     exclusive_ = other.exclusive();
     excl_val_ = other.excl_val();
+    pref_ = other.pref();
     return *this;
   }
 
-- 
2.43.0


From 79c514a64398626190e81fa1de9be9c6e117a72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:19 +0000
Subject: [PATCH 14/79] fix: a capacity that an arc doesn't use doesn't limit
 it

An exhausted capacity divided by a unit capacity of zero is not a number, which
made the greedy solver ignore all capacities of the bid (0 / 0) or refuse to
trade or raise a domain error (rounding to below 0).
---
 src/greedy_solver.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/greedy_solver.cc b/src/greedy_solver.cc
index ebf97e1..7d748bd 100644
--- a/src/greedy_solver.cc
+++ b/src/greedy_solver.cc
@@ -117,8 +117,8 @@ double GreedySolver::Capacity(ExchangeNode::Ptr n, const Arc& a, bool min_cap,
     CLOG(cyclus::LEV_DEBUG1) << "    unit capacity: " << u_cap;
     CLOG(cyclus::LEV_DEBUG1) << "         capacity: " << cap;
 
-    // special case for unlimited capacities
-    if (grp_cap == std::numeric_limits<double>::max()) {
+    // special case for unlimited capacities and for those this arc doesn't use
+    if (grp_cap == std::numeric_limits<double>::max() || u_cap == 0) {
       caps.push_back(std::numeric_limits<double>::max());
     } else {
       caps.push_back(cap);
-- 
2.43.0


From 94714a8ac6e19298271e0fdeab5f9da56c70f62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:36 +0000
Subject: [PATCH 15/79] fix: trade an exclusive object only once in the greedy
 solver

Bids that offer the same exclusive object form an exclusive group, over which
flow is allowed only once; the greedy solver sold the object to several
requesters.
---
 src/greedy_solver.cc | 16 +++++++++++++++-
 src/greedy_solver.h  |  4 ++++
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/greedy_solver.cc b/src/greedy_solver.cc
index 7d748bd..2dcbd2f 100644
--- a/src/greedy_solver.cc
+++ b/src/greedy_solver.cc
@@ -181,7 +181,7 @@ void GreedySolver::GreedilySatisfySet(RequestGroup::Ptr prs) {
           // this careful float comparison is vital for preventing false positive
           // constraint violations w.r.t. exclusivity-related capacity.
           double dist = boost::math::float_distance(tomatch, excl_val);
-          if (dist >= float_ulp_eq ) {
+          if (dist >= float_ulp_eq || ExclusiveTaken(v)) {
             tomatch = 0;
           } else {
             tomatch = excl_val;
@@ -209,6 +209,20 @@ void GreedySolver::GreedilySatisfySet(RequestGroup::Ptr prs) {
   unmatched_ += target - match;
 }
 
+bool GreedySolver::ExclusiveTaken(ExchangeNode::Ptr n) {
+  const std::vector< std::vector<ExchangeNode::Ptr> >& grps =
+      n->group->excl_node_groups();
+  for (int i = 0; i < grps.size(); i++) {
+    if (std::find(grps[i].begin(), grps[i].end(), n) == grps[i].end())
+      continue;
+    for (int j = 0; j < grps[i].size(); j++) {
+      if (n_qty_[grps[i][j]] > 0)
+        return true;
+    }
+  }
+  return false;
+}
+
 void GreedySolver::UpdateObj(double qty, double pref) {
   // updates minimizing object (i.e., 1/pref is a cost and the objective is cost
   // * flow)
diff --git a/src/greedy_solver.h b/src/greedy_solver.h
index 767f731..7c3be6c 100644
--- a/src/greedy_solver.h
+++ b/src/greedy_solver.h
@@ -145,6 +145,10 @@ class GreedySolver: public ExchangeSolver {
   void GetCaps(ExchangeNodeGroup::Ptr prs);
   void GreedilySatisfySet(RequestGroup::Ptr prs);
   void UpdateCapacity(ExchangeNode::Ptr n, const Arc& a, double qty);
+
+  /// @return true if a node of the exclusive group that n belongs to (if any)
+  /// has been matched already
+  bool ExclusiveTaken(ExchangeNode::Ptr n);
   void UpdateObj(double qty, double pref);
 
   GreedyPreconditioner* conditioner_;
-- 
2.43.0


From 227fb5c6d1991d30cbc7ba590f2a44553eead39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:17 +0000
Subject: [PATCH 16/79] fix: limit flows of the optimizing solver to the traded
 quantities

Without a capacity on the bid portfolio the program could send more over an
arc than the bid offers, and with several arcs more to a request than it asks
for. The greedy solver respects both.
---
 src/prog_translator.cc | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/prog_translator.cc b/src/prog_translator.cc
index 50d387c..4b7c08b 100644
--- a/src/prog_translator.cc
+++ b/src/prog_translator.cc
@@ -165,7 +165,8 @@ void ProgTranslator::XlateGrp_(ExchangeNodeGroup* grp, bool request) {
         ctx_.obj_coeffs[arc_id] = ExchangeSolver::Cost(a, excl_);
         ctx_.col_lbs[arc_id] = 0;
         ctx_.col_ubs[arc_id] = (excl_ && a.exclusive()) ? 1 :
-                               std::min(nodes[i]->qty, inf);
+                               std::min(std::min(nodes[i]->qty,
+                                                 a.vnode()->qty), inf);
       }
     }
   }
@@ -189,6 +190,22 @@ void ProgTranslator::XlateGrp_(ExchangeNodeGroup* grp, bool request) {
     ctx_.m.appendRow(cap_rows[i]);
   }
 
+  // add a quantity row for each node whose arcs could exceed it together
+  for (int i = 0; i != nodes.size(); i++) {
+    std::vector<Arc>& arcs = g_->node_arc_map()[nodes[i]];
+    if (arcs.size() < 2 || nodes[i]->qty >= inf ||
+        (excl_ && nodes[i]->exclusive))
+      continue;
+    CoinPackedVector qty_row;
+    for (int j = 0; j != arcs.size(); j++) {
+      qty_row.insert(g_->arc_ids()[arcs[j]], (excl_ && arcs[j].exclusive()) ?
+                     arcs[j].excl_val() : 1.0);
+    }
+    ctx_.row_lbs.push_back(0.0);
+    ctx_.row_ubs.push_back(nodes[i]->qty);
+    ctx_.m.appendRow(qty_row);
+  }
+
   if (excl_) {
     // add exclusive arcs
     std::vector< std::vector<ExchangeNode::Ptr> >& exngs =
-- 
2.43.0


From dc253649ad80dee2029c88d1da7d994cfbde4c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:06 +0000
Subject: [PATCH 17/79] fix: count regions and institutions among the deployed
 agents

Their EnterNotify skipped Agent::EnterNotify, so they were never registered
with the context although decommissioning them unregisters them: the count
of deployed agents of such a prototype became negative.
---
 src/institution.cc | 1 +
 src/region.cc      | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/institution.cc b/src/institution.cc
index ad07f95..9b6af7b 100644
--- a/src/institution.cc
+++ b/src/institution.cc
@@ -37,6 +37,7 @@ void Institution::Build(Agent* parent) {
 }
 
 void Institution::EnterNotify() {
+  Agent::EnterNotify();
   context()->RegisterTimeListener(this);
 }
 
diff --git a/src/region.cc b/src/region.cc
index dae74b6..957e6a0 100644
--- a/src/region.cc
+++ b/src/region.cc
@@ -26,6 +26,7 @@ void Region::Build(Agent* parent) {
 }
 
 void Region::EnterNotify() {
+  Agent::EnterNotify();
   context()->RegisterTimeListener(this);
 }
 
-- 
2.43.0


From cb6ad1999a94c17fb3224c71ff34f12645e92e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:06 +0000
Subject: [PATCH 18/79] fix: let lifetime_force end the life of a deployed
 agent now

The handler of the error that lifetime() throws for a deployed agent called
lifetime() again, so shortening a lifetime to before now always failed.
---
 src/agent.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/agent.cc b/src/agent.cc
index b5e8c51..fcebac6 100644
--- a/src/agent.cc
+++ b/src/agent.cc
@@ -118,7 +118,7 @@ void Agent::lifetime_force(int n_timesteps) {
   }
   catch (ValueError e){
     if(enter_time_+n_timesteps <= context()->time()){
-      lifetime(context()->time() - enter_time_ + 1);
+      lifetime_ = context()->time() - enter_time_ + 1;
     }
     else{
       lifetime_ = n_timesteps;    
-- 
2.43.0


From b0b3eff7740a0cf1fb0b12284761a334b275cc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:06 +0000
Subject: [PATCH 19/79] fix: heed decommissions scheduled while others are
 being done

DoDecom worked on a copy of its queue: an agent scheduled for
decommissioning at the current time during this phase never left, and one
that was moved to a later time left now and was deleted a second time later.
---
 src/timer.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/timer.cc b/src/timer.cc
index 49fab5e..dbc206e 100644
--- a/src/timer.cc
+++ b/src/timer.cc
@@ -180,9 +180,11 @@ void Timer::RecordInventory(Agent* a, std::string name, Material::Ptr m) {
 
 void Timer::DoDecom() {
   // decommission queued agents
-  std::vector<Agent*> decom_list = decom_queue_[time_];
-  for (int i = 0; i < decom_list.size(); ++i) {
-    Agent* m = decom_list[i];
+  // the queue may change while agents are notified and decommissioned
+  std::vector<Agent*>& decom_list = decom_queue_[time_];
+  while (!decom_list.empty()) {
+    Agent* m = decom_list.front();
+    decom_list.erase(decom_list.begin());
     if (m->parent() != NULL) {
       m->parent()->DecomNotify(m);
     }
-- 
2.43.0


From 61620d358fc0c591e08b559e1e56e6ed38dd1353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:32 +0000
Subject: [PATCH 20/79] fix: forget scheduled events of an agent that has been
 decommissioned

The timer kept pointers to decommissioned agents as parents of scheduled
builds (and as agents to be decommissioned if they left by another way) and
used them after they were deleted.
---
 src/agent.cc |  2 ++
 src/timer.cc | 17 +++++++++++++++++
 src/timer.h  |  5 +++++
 3 files changed, 24 insertions(+)

diff --git a/src/agent.cc b/src/agent.cc
index fcebac6..83e38ec 100644
--- a/src/agent.cc
+++ b/src/agent.cc
@@ -10,6 +10,7 @@
 #include "error.h"
 #include "logger.h"
 #include "resource.h"
+#include "timer.h"
 
 namespace cyclus {
 
@@ -187,6 +188,7 @@ void Agent::Decommission() {
       ->AddVal("ExitTime", ctx_->time())
       ->Record();
   ctx_->UnregisterAgent(this);
+  ctx_->ti_->UnschedAgent(this);
   ctx_->DelAgent(this);
 }
 
diff --git a/src/timer.cc b/src/timer.cc
index dbc206e..74860de 100644
--- a/src/timer.cc
+++ b/src/timer.cc
@@ -254,6 +254,23 @@ void Timer::SchedDecom(Agent* m, int t) {
   decom_queue_[t].push_back(m);
 }
 
+void Timer::UnschedAgent(Agent* m) {
+  std::map<int, std::vector<Agent*> >::iterator it;
+  for (it = decom_queue_.begin(); it != decom_queue_.end(); ++it) {
+    std::vector<Agent*>& ags = it->second;
+    ags.erase(std::remove(ags.begin(), ags.end(), m), ags.end());
+  }
+
+  std::map<int, std::vector<std::pair<std::string, Agent*> > >::iterator bit;
+  for (bit = build_queue_.begin(); bit != build_queue_.end(); ++bit) {
+    for (int i = 0; i < bit->second.size(); ++i) {
+      if (bit->second[i].second == m) {
+        bit->second[i].second = NULL;
+      }
+    }
+  }
+}
+
 int Timer::time() {
   return time_;
 }
diff --git a/src/timer.h b/src/timer.h
index 410452b..1526c28 100644
--- a/src/timer.h
+++ b/src/timer.h
@@ -52,6 +52,11 @@ class Timer {
   /// timestep t.
   void SchedDecom(Agent* m, int time);
 
+  /// Removes the given agent, which is about to be deleted, from the
+  /// schedules. Builds scheduled for it are done without a parent, as its
+  /// children go on without one.
+  void UnschedAgent(Agent* m);
+
   /// Schedules a snapshot of simulation state to output database to occur at
   /// the beginning of the next timestep.
   void Snapshot() { want_snapshot_ = true; }
-- 
2.43.0


From ebd37c9382135c162abc097bf42fcc6bc6948053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:15 +0000
Subject: [PATCH 21/79] fix: keep the field names of a datum given as
 std::string

AddVal(std::string, ...) stored a pointer to the characters of its own
argument, which is gone when the backends read the names from vals().
---
 src/datum.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/datum.cc b/src/datum.cc
index 7b86f37..e7147de 100644
--- a/src/datum.cc
+++ b/src/datum.cc
@@ -54,6 +54,10 @@ std::string Datum::title() {
 }
 
 const Datum::Vals& Datum::vals() {
+  // the names given may be gone by now
+  for (int i = 0; i < vals_.size(); ++i) {
+    vals_[i].first = fields_[i].c_str();
+  }
   return vals_;
 }
 
-- 
2.43.0


From e1dafe2fb8e15ee0a129effeb801d4c591e10bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:24 +0000
Subject: [PATCH 22/79] fix: SQLite queries with an empty list of conditions

They made the invalid statement SELECT ... WHERE ;
---
 src/sqlite_back.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sqlite_back.cc b/src/sqlite_back.cc
index fff1b0c..1fb1a20 100644
--- a/src/sqlite_back.cc
+++ b/src/sqlite_back.cc
@@ -106,7 +106,7 @@ QueryResult SqliteBack::Query(std::string table, std::vector<Cond>* conds) {
 
   std::stringstream sql;
   sql << "SELECT * FROM " << table;
-  if (conds != NULL) {
+  if (conds != NULL && !conds->empty()) {
     sql << " WHERE ";
     for (int i = 0; i < conds->size(); ++i) {
       if (i > 0) {
-- 
2.43.0


From da98935a7b4bd87cec89811a31adf51c79358b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:59 +0000
Subject: [PATCH 23/79] fix: HDF5 column types and schema of a table that
 doesn't exist

They crashed, where Query reports an error.
---
 src/hdf5_back.cc.in | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hdf5_back.cc.in b/src/hdf5_back.cc.in
index 01a8805..a6adbd5 100644
--- a/src/hdf5_back.cc.in
+++ b/src/hdf5_back.cc.in
@@ -429,6 +429,8 @@ void Hdf5Back::CreateTable(Datum* d) {
 
 std::map<std::string, DbTypes> Hdf5Back::ColumnTypes(std::string table) {
   using std::string;
+  if (!H5Lexists(file_, table.c_str(), H5P_DEFAULT))
+    throw IOError("table '" + table + "' does not exist in '" + path_ + "'.");
   int i;
   char* colname;
   hid_t dset = H5Dopen2(file_, table.c_str(), H5P_DEFAULT);
@@ -455,6 +457,8 @@ std::map<std::string, DbTypes> Hdf5Back::ColumnTypes(std::string table) {
 }
 
 std::list<ColumnInfo> Hdf5Back::Schema(std::string table) {
+  if (!H5Lexists(file_, table.c_str(), H5P_DEFAULT))
+    throw IOError("table '" + table + "' does not exist in '" + path_ + "'.");
   std::list<ColumnInfo> schema;
   hid_t tb_set = H5Dopen2(file_, table.c_str(), H5P_DEFAULT);
   hid_t tb_type = H5Dget_type(tb_set);
-- 
2.43.0


From 1838c6f9a4369ae1e832a370c81fb5dcf6df7c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:10 +0000
Subject: [PATCH 24/79] fix: HDF5 keys of variable length values that contain
 strings

The strings and nested containers of a value were hashed one after the other
without their sizes (and in one case the bytes of the std::string object
instead of its characters), so that different values, such as {"a", "b"} and
{"ab"}, got the same key and were read back as the one written first.
---
 src/query_backend.h | 82 ++++++++++++++++++++++++++++-----------------
 1 file changed, 51 insertions(+), 31 deletions(-)

diff --git a/src/query_backend.h b/src/query_backend.h
index 59e07f7..f88e566 100644
--- a/src/query_backend.h
+++ b/src/query_backend.h
@@ -656,12 +656,12 @@ class Sha1 {
 
   inline void Update(const std::vector<std::string>& x) {
     for (unsigned int i = 0; i < x.size(); ++i)
-      hash_.process_bytes(x[i].c_str(), x[i].size());
+      UpdateSized(x[i]);
   }
 
   inline void Update(const std::vector<cyclus::Blob>& x) {
     for (unsigned int i = 0; i < x.size(); ++i)
-      hash_.process_bytes(x[i].str().c_str(), x[i].str().size());
+      UpdateSized(x[i].str());
   }
 
   inline void Update(const std::vector<boost::uuids::uuid>& x) {
@@ -697,7 +697,7 @@ class Sha1 {
   inline void Update(const std::set<cyclus::Blob>& x) {
     std::set<cyclus::Blob>::iterator it = x.begin();
     for (; it != x.end(); ++it)
-      hash_.process_bytes(it->str().c_str(), it->str().size());
+      UpdateSized(it->str());
   }
 
   inline void Update(const std::set<boost::uuids::uuid>& x) {
@@ -709,7 +709,7 @@ class Sha1 {
   inline void Update(const std::set<std::string>& x) {
     std::set<std::string>::iterator it = x.begin();
     for (; it != x.end(); ++it)
-      hash_.process_bytes(it->c_str(), it->size());
+      UpdateSized(*it);
   }
 
   inline void Update(const std::list<int>& x) {
@@ -739,13 +739,13 @@ class Sha1 {
   inline void Update(const std::list<std::string>& x) {
     std::list<std::string>::const_iterator it = x.begin();
     for (; it != x.end(); ++it)
-      hash_.process_bytes(it->c_str(), it->size());
+      UpdateSized(*it);
   }
 
   inline void Update(const std::list<cyclus::Blob>& x) {
     std::list<cyclus::Blob>::const_iterator it = x.begin();
     for (; it != x.end(); ++it)
-      hash_.process_bytes(it->str().c_str(), it->str().size());
+      UpdateSized(it->str());
   }
 
   inline void Update(const std::list<boost::uuids::uuid>& x) {
@@ -761,7 +761,7 @@ class Sha1 {
 
   inline void Update(const std::pair<int, std::string>& x) {
     hash_.process_bytes(&(x.first), sizeof(int));
-    hash_.process_bytes(x.second.c_str(), x.second.size());
+    UpdateSized(x.second);
   }
 
   inline void Update(const std::map<int, int>& x) {
@@ -800,7 +800,7 @@ class Sha1 {
     std::map<int, cyclus::Blob>::const_iterator it = x.begin();
     for (; it != x.end(); ++it) {
       hash_.process_bytes(&(it->first), sizeof(int));
-      hash_.process_bytes(it->second.str().c_str(), it->second.str().size());
+      UpdateSized(it->second.str());
     }
   }
 
@@ -816,14 +816,14 @@ class Sha1 {
     std::map<int, std::string>::const_iterator it = x.begin();
     for (; it != x.end(); ++it) {
       hash_.process_bytes(&(it->first), sizeof(int));
-      hash_.process_bytes(it->second.c_str(), it->second.size());
+      UpdateSized(it->second);
     }
   }
 
   inline void Update(const std::map<std::string, int>& x) {
     std::map<std::string, int>::const_iterator it = x.begin();
     for (; it != x.end(); ++it) {
-      hash_.process_bytes(it->first.c_str(), it->first.size());
+      UpdateSized(it->first);
       hash_.process_bytes(&(it->second), sizeof(int));
     }
   }
@@ -831,7 +831,7 @@ class Sha1 {
   inline void Update(const std::map<std::string, double>& x) {
     std::map<std::string, double>::const_iterator it = x.begin();
     for (; it != x.end(); ++it) {
-      hash_.process_bytes(it->first.c_str(), it->first.size());
+      UpdateSized(it->first);
       hash_.process_bytes(&(it->second), sizeof(double));
     }
   }
@@ -839,7 +839,7 @@ class Sha1 {
   inline void Update(const std::map<std::string, float>& x) {
     std::map<std::string, float>::const_iterator it = x.begin();
     for (; it != x.end(); ++it) {
-      hash_.process_bytes(it->first.c_str(), it->first.size());
+      UpdateSized(it->first);
       hash_.process_bytes(&(it->second), sizeof(float));
     }
   }
@@ -847,7 +847,7 @@ class Sha1 {
   inline void Update(const std::map<std::string, bool>& x) {
     std::map<std::string, bool>::const_iterator it = x.begin();
     for (; it != x.end(); ++it) {
-      hash_.process_bytes(it->first.c_str(), it->first.size());
+      UpdateSized(it->first);
       hash_.process_bytes(&(it->second), sizeof(bool));
     }
   }
@@ -855,15 +855,15 @@ class Sha1 {
   inline void Update(const std::map<std::string, cyclus::Blob>& x) {
     std::map<std::string, cyclus::Blob>::const_iterator it = x.begin();
     for (; it != x.end(); ++it) {
-      hash_.process_bytes(it->first.c_str(), it->first.size());
-      hash_.process_bytes(it->second.str().c_str(), it->second.str().size());
+      UpdateSized(it->first);
+      UpdateSized(it->second.str());
     }
   }
 
   inline void Update(const std::map<std::string, boost::uuids::uuid>& x) {
     std::map<std::string, boost::uuids::uuid>::const_iterator it = x.begin();
     for (; it != x.end(); ++it) {
-      hash_.process_bytes(it->first.c_str(), it->first.size());
+      UpdateSized(it->first);
       hash_.process_bytes(&(it->second), CYCLUS_UUID_SIZE);
     }
   }
@@ -871,8 +871,8 @@ class Sha1 {
   inline void Update(const std::map<std::string, std::string>& x) {
     std::map<std::string, std::string>::const_iterator it = x.begin();
     for (; it != x.end(); ++it) {
-      hash_.process_bytes(it->first.c_str(), it->first.size());
-      hash_.process_bytes(it->second.c_str(), it->second.size());
+      UpdateSized(it->first);
+      UpdateSized(it->second);
     }
   }
 
@@ -880,7 +880,7 @@ class Sha1 {
     std::map<std::pair<int, std::string>, double>::const_iterator it = x.begin();
     for (; it != x.end(); ++it) {
       hash_.process_bytes(&(it->first.first), sizeof(int));
-      hash_.process_bytes(it->first.second.c_str(), it->first.second.size());
+      UpdateSized(it->first.second);
       hash_.process_bytes(&(it->second), sizeof(double));
     }
   }
@@ -888,8 +888,8 @@ class Sha1 {
   inline void Update(const std::map<std::pair<std::string, std::string>, int>& x) {
     std::map<std::pair<std::string, std::string>, int>::const_iterator it = x.begin();
     for (; it != x.end(); ++it) {
-      hash_.process_bytes(it->first.first.c_str(), it->first.first.size());
-      hash_.process_bytes(it->first.second.c_str(), it->first.second.size());
+      UpdateSized(it->first.first);
+      UpdateSized(it->first.second);
       hash_.process_bytes(&(it->second), sizeof(int));
     }
   }
@@ -897,7 +897,8 @@ class Sha1 {
   inline void Update(const std::map<std::string, std::vector<double>>& x) {
     std::map<std::string, std::vector<double>>::const_iterator it = x.begin();
     for (; it != x.end(); ++it) {
-      hash_.process_bytes(it->first.c_str(), it->first.size());
+      UpdateSized(it->first);
+      UpdateSize(it->second.size());
       Update(it->second);
     }
   }
@@ -905,7 +906,8 @@ class Sha1 {
   inline void Update(const std::map<std::string, std::map<int, double>>& x) {
     std::map<std::string, std::map<int, double>>::const_iterator it = x.begin();
     for (; it != x.end(); ++it) {
-      hash_.process_bytes(it->first.c_str(), it->first.size());
+      UpdateSized(it->first);
+      UpdateSize(it->second.size());
       Update(it->second);
     }
   }
@@ -914,27 +916,29 @@ class Sha1 {
     std::map<int, std::map<std::string, double>>::const_iterator it = x.begin();
     for (; it != x.end(); ++it) {
       hash_.process_bytes(&(it->first), sizeof(int));
+      UpdateSize(it->second.size());
       Update(it->second);
     }
   }
 
   inline void Update(const std::pair<double, std::map<int, double>>& x) {
     hash_.process_bytes(&(x.first), sizeof(double));
+    UpdateSize(x.second.size());
     Update(x.second);
   }
 
   inline void Update(const std::map<std::string, std::pair<double, std::map<int, double>>>& x) {
     std::map<std::string, std::pair<double, std::map<int, double>>>::const_iterator it = x.begin();
     for (; it != x.end(); ++it) {
-      hash_.process_bytes(&(it->first), it->first.size());
+      UpdateSized(it->first);
       Update(it->second);
     }
   }
 
   inline void Update(const std::pair<int, std::pair<std::string, std::string>>& x) {
     hash_.process_bytes(&(x.first), sizeof(int));
-    hash_.process_bytes(x.second.first.c_str(), x.second.first.size());
-    hash_.process_bytes(x.second.second.c_str(), x.second.second.size());
+    UpdateSized(x.second.first);
+    UpdateSized(x.second.second);
   }
 
   inline void Update(const std::vector<std::pair<int, std::pair<std::string, std::string>>>& x) {
@@ -947,7 +951,8 @@ class Sha1 {
   inline void Update(const std::map<std::string, std::vector<std::pair<int, std::pair<std::string, std::string>>>>& x) {
     std::map<std::string, std::vector<std::pair<int, std::pair<std::string, std::string>>>>::const_iterator it = x.begin();
     for (; it != x.end(); ++it) {
-      hash_.process_bytes(it->first.c_str(), it->first.size());
+      UpdateSized(it->first);
+      UpdateSize(it->second.size());
       Update(it->second);
     }
   }
@@ -960,14 +965,15 @@ class Sha1 {
   }
 
   inline void Update(const std::pair<std::string, std::vector<double>>& x) {
-    hash_.process_bytes(x.first.c_str(), x.first.size());
+    UpdateSized(x.first);
+    UpdateSize(x.second.size());
     Update(x.second);
   }
 
   inline void Update(const std::map<std::string, std::pair<std::string, std::vector<double>>>& x) {
     std::map<std::string, std::pair<std::string, std::vector<double>>>::const_iterator it = x.begin();
     for(; it != x.end(); ++it) {
-      hash_.process_bytes(it->first.c_str(), it->first.size());
+      UpdateSized(it->first);
       Update(it->second);
     }
   }
@@ -975,7 +981,8 @@ class Sha1 {
   inline void Update(const std::map<std::string, std::map<std::string, int>>& x) {
     std::map<std::string, std::map<std::string, int>>::const_iterator it = x.begin();
     for(; it != x.end(); ++it) {
-      hash_.process_bytes(it->first.c_str(), it->first.size());
+      UpdateSized(it->first);
+      UpdateSize(it->second.size());
       Update(it->second);
     }
   }
@@ -987,6 +994,7 @@ class Sha1 {
 
   inline void Update(const std::pair<std::pair<double, double>, std::map<std::string, double>>& x) {
     Update(x.first);
+    UpdateSize(x.second.size());
     Update(x.second);
   }
 
@@ -1000,7 +1008,8 @@ class Sha1 {
   inline void Update(const std::map<std::string, std::map<std::string, double>>& x) {
     std::map<std::string, std::map<std::string, double>>::const_iterator it = x.begin();
     for(; it != x.end(); ++it) {
-      hash_.process_bytes(it->first.c_str(), it->first.size());
+      UpdateSized(it->first);
+      UpdateSize(it->second.size());
       Update(it->second);
     }
   }
@@ -1038,6 +1047,17 @@ class Sha1 {
   }
 
  private:
+  /// Sizes of strings and containers that are part of a value are hashed too,
+  /// so that different values with the same elements have different keys.
+  /// \{
+  inline void UpdateSize(size_t n) { hash_.process_bytes(&n, sizeof(n)); }
+
+  inline void UpdateSized(const std::string& s) {
+    UpdateSize(s.size());
+    Update(s);
+  }
+  /// \}
+
   boost::uuids::detail::sha1 hash_;
 };
 
-- 
2.43.0


From 73eedcca0210582c77052921460652b2c95244c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:54 +0000
Subject: [PATCH 25/79] fix: read HDF5 values of types that share a dataset

Types that differ only in which of their strings and containers have a fixed
length share one dataset for their variable length values. When such a file
was opened again only the first of the types used got its HDF5 datatype, and
reading or appending values of the others failed.
---
 src/hdf5_back.cc.in | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/hdf5_back.cc.in b/src/hdf5_back.cc.in
index a6adbd5..0afc84a 100644
--- a/src/hdf5_back.cc.in
+++ b/src/hdf5_back.cc.in
@@ -706,13 +706,23 @@ hid_t Hdf5Back::VLDataset(DbTypes dbtype, bool forkeys) {
   }
   name += forkeys ? "Keys" : "Vals";
 
-  // already opened
-  if (vldatasets_.count(name) > 0)
-    return vldatasets_[name];
-
-  // already in db
   hid_t dt;
   hid_t dset;
+
+  // already opened, maybe for another type that is stored in the same way
+  if (vldatasets_.count(name) > 0) {
+    dset = vldatasets_[name];
+    if (!forkeys && vldts_.count(dbtype) == 0) {
+      dt = H5Dget_type(dset);
+      if (dt < 0)
+        throw IOError("failed to read in HDF5 datatype for " + name);
+      vldts_[dbtype] = dt;
+      opened_types_.insert(dt);
+    }
+    return dset;
+  }
+
+  // already in db
   hid_t dspace;
   herr_t status;
   if (H5Lexists(file_, name.c_str(), H5P_DEFAULT)) {
-- 
2.43.0


From 18573665f0e1e849bc6cdd036cd796a4bcdf19c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:16 +0000
Subject: [PATCH 26/79] fix: restore the tolerances of a restarted simulation

The tolerances were read from the database but not put into effect, so a
restarted simulation ran with the default ones.
---
 src/sim_init.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sim_init.cc b/src/sim_init.cc
index 9e80110..d001689 100644
--- a/src/sim_init.cc
+++ b/src/sim_init.cc
@@ -1,5 +1,6 @@
 #include "sim_init.h"
 
+#include "cyc_limits.h"
 #include "greedy_preconditioner.h"
 #include "greedy_solver.h"
 #include "platform.h"
@@ -166,8 +167,8 @@ void SimInit::LoadInfo() {
   si_.dt = qr.GetVal<int>("DurationSecs");
 
   qr = b_->Query("Epsilon", NULL);
-  si_.eps = qr.GetVal<double>("GenericEpsilon");
-  si_.eps_rsrc = qr.GetVal<double>("ResourceEpsilon");
+  cy_eps = si_.eps = qr.GetVal<double>("GenericEpsilon");
+  cy_eps_rsrc = si_.eps_rsrc = qr.GetVal<double>("ResourceEpsilon");
 
   qr = b_->Query("InfoExplicitInv", NULL);
   si_.explicit_inventory = qr.GetVal<bool>("RecordInventory");
-- 
2.43.0


From d81542f086467de6e31bd7548f60b91516e8f4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:11 +0000
Subject: [PATCH 27/79] fix: builds due at, and schedules made after, the
 restart time

---
 src/sim_init.cc | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/sim_init.cc b/src/sim_init.cc
index d001689..c05df0d 100644
--- a/src/sim_init.cc
+++ b/src/sim_init.cc
@@ -487,7 +487,14 @@ void SimInit::LoadInventories() {
 
 void SimInit::LoadBuildSched() {
   std::vector<Cond> conds;
-  conds.push_back(Cond("BuildTime", ">", t_));
+  if (t_ > 0) {
+    // builds due now are still to be done; what was scheduled from now on will
+    // be scheduled again
+    conds.push_back(Cond("BuildTime", ">=", t_));
+    conds.push_back(Cond("SchedTime", "<", t_));
+  } else {
+    conds.push_back(Cond("BuildTime", ">", t_));
+  }
   QueryResult qr;
   try {
     qr = b_->Query("BuildSchedule", &conds);
@@ -504,6 +511,10 @@ void SimInit::LoadBuildSched() {
 void SimInit::LoadDecomSched() {
   std::vector<Cond> conds;
   conds.push_back(Cond("DecomTime", ">=", t_));
+  if (t_ > 0) {
+    // what was scheduled from now on will be scheduled again
+    conds.push_back(Cond("SchedTime", "<", t_));
+  }
   QueryResult qr;
   try {
     qr = b_->Query("DecomSchedule", &conds);
-- 
2.43.0


From 0c49adecd5f09e98e2601150c4b1fe0160f6c17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:06 +0000
Subject: [PATCH 28/79] fix: restart of agents whose parents, and of schedules
 whose agents, are gone

---
 src/sim_init.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/sim_init.cc b/src/sim_init.cc
index c05df0d..4133923 100644
--- a/src/sim_init.cc
+++ b/src/sim_init.cc
@@ -436,7 +436,8 @@ void SimInit::LoadInitialAgents() {
     Agent* m = it->second;
     int parentid = parentmap[id];
 
-    if (parentid == -1) {  // root agent
+    if (parentid == -1 || parentmap.count(parentid) == 0) {
+      // root agent, or one whose parent has been decommissioned
       m->Connect(NULL);
       agents_[id] = m;
       ++it;
@@ -504,7 +505,9 @@ void SimInit::LoadBuildSched() {
     int t = qr.GetVal<int>("BuildTime", i);
     int parentid = qr.GetVal<int>("ParentId", i);
     std::string proto = qr.GetVal<std::string>("Prototype", i);
-    ctx_->SchedBuild(agents_[parentid], proto, t);
+    // the parent may have been decommissioned
+    Agent* parent = agents_.count(parentid) > 0 ? agents_[parentid] : NULL;
+    ctx_->SchedBuild(parent, proto, t);
   }
 }
 
@@ -523,7 +526,9 @@ void SimInit::LoadDecomSched() {
   for (int i = 0; i < qr.rows.size(); ++i) {
     int t = qr.GetVal<int>("DecomTime", i);
     int agentid = qr.GetVal<int>("AgentId", i);
-    ctx_->SchedDecom(agents_[agentid], t);
+    if (agents_.count(agentid) > 0) {  // not decommissioned yet
+      ctx_->SchedDecom(agents_[agentid], t);
+    }
   }
 }
 
-- 
2.43.0


From 4d34f3919642af42299208a2440b63c735d1be52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:12 +0000
Subject: [PATCH 29/79] fix: keep the packages of restored resources

---
 src/sim_init.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sim_init.cc b/src/sim_init.cc
index 4133923..e6ea6db 100644
--- a/src/sim_init.cc
+++ b/src/sim_init.cc
@@ -618,11 +618,12 @@ Material::Ptr SimInit::LoadMaterial(Context* ctx, QueryableBackend* b, int state
   qr = b->Query("Resources", &conds);
   double qty = qr.GetVal<double>("Quantity");
   int stateid = qr.GetVal<int>("QualId");
+  std::string package_name = qr.GetVal<std::string>("PackageName");
 
   // create the composition and material
   Composition::Ptr comp = LoadComposition(b, stateid);
   Agent* dummy = new Dummy(ctx);
-  Material::Ptr mat = Material::Create(dummy, qty, comp);
+  Material::Ptr mat = Material::Create(dummy, qty, comp, package_name);
   mat->prev_decay_time_ = prev_decay;
   ctx->DelAgent(dummy);
 
@@ -652,6 +653,7 @@ Product::Ptr SimInit::LoadProduct(Context* ctx, QueryableBackend* b, int state_i
   QueryResult qr = b->Query("Resources", &conds);
   double qty = qr.GetVal<double>("Quantity");
   int stateid = qr.GetVal<int>("QualId");
+  std::string package_name = qr.GetVal<std::string>("PackageName");
 
   // get special Product internal state
   conds.clear();
@@ -663,7 +665,7 @@ Product::Ptr SimInit::LoadProduct(Context* ctx, QueryableBackend* b, int state_i
   Product::qualids_[quality] = stateid;
 
   Agent* dummy = new Dummy(ctx);
-  Product::Ptr r = Product::Create(dummy, qty, quality);
+  Product::Ptr r = Product::Create(dummy, qty, quality, package_name);
   ctx->DelAgent(dummy);
   return r;
 }
-- 
2.43.0


From 170b59bdbf8078733ad12f5868af47f94973a83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:17 +0000
Subject: [PATCH 30/79] fix: translate texts, numbers and empty values from
 JSON to XML faithfully

---
 src/toolkit/infile_converters.cc | 52 +++++++++++++++++++++++++++-----
 1 file changed, 45 insertions(+), 7 deletions(-)

diff --git a/src/toolkit/infile_converters.cc b/src/toolkit/infile_converters.cc
index ac49b78..82a6dfd 100644
--- a/src/toolkit/infile_converters.cc
+++ b/src/toolkit/infile_converters.cc
@@ -1,3 +1,5 @@
+#include <cstdlib>
+#include <iomanip>
 #include <sstream>
 
 #include <boost/shared_ptr.hpp>
@@ -12,6 +14,43 @@
 namespace cyclus {
 namespace toolkit {
 
+// escapes the characters that are markup in XML
+std::string EscapeXml(std::string s) {
+  std::string escaped;
+  for (int i = 0; i < s.size(); ++i) {
+    switch (s[i]) {
+      case '&':
+        escaped += "&amp;";
+        break;
+      case '<':
+        escaped += "&lt;";
+        break;
+      case '>':
+        escaped += "&gt;";
+        break;
+      case '\r':
+        escaped += "&#13;";
+        break;
+      default:
+        escaped += s[i];
+    }
+  }
+  return escaped;
+}
+
+// the shortest representation from which the same number is read
+std::string DoubleToString(double x) {
+  std::stringstream ss;
+  for (int prec = 6; prec <= 17; ++prec) {
+    ss.str("");
+    ss << std::setprecision(prec) << x;
+    if (strtod(ss.str().c_str(), NULL) == x) {
+      break;
+    }
+  }
+  return ss.str();
+}
+
 void AddJsonToXml(Json::Value& node, std::stringstream& ss,
                   std::string parent_name, std::string indent) {
   using std::string;
@@ -27,6 +66,8 @@ void AddJsonToXml(Json::Value& node, std::stringstream& ss,
         ss << indent << "<" << name << "/>\n";
         continue;
       }
+      if (node[name].isArray() && node[name].size() == 0)
+        continue;
       indent_child = node[name].isObject();
       if (!indent_child && node[name].isArray())
         indent_child = node[name][0].isObject() || node[name][0].isArray();
@@ -44,17 +85,14 @@ void AddJsonToXml(Json::Value& node, std::stringstream& ss,
     indent = indent.substr(0, indent.size() - 2);
     int nchildren = node.size();
     for (int n = 0; n < nchildren; ++n) {
-      if (node[n].isNull()) {
-        ss << indent << "<" << parent_name << "/>\n";
-        continue;
-      }
       indent_child = node[n].isObject() || node[n].isArray();
       if (n > 0) {
         ss << indent << "<" << parent_name << ">";
         if (indent_child)
           ss << "\n";
       }
-      AddJsonToXml(node[n], ss, parent_name, newindent);
+      if (!node[n].isNull())
+        AddJsonToXml(node[n], ss, parent_name, newindent);
       if (n < nchildren - 1) {
         if (indent_child)
           ss << indent;
@@ -62,13 +100,13 @@ void AddJsonToXml(Json::Value& node, std::stringstream& ss,
       }
     }
   } else if (node.isString()) {
-    ss << node.asString();
+    ss << EscapeXml(node.asString());
   } else if (node.isInt()) {
     ss << node.asInt64();
   } else if (node.isUInt()) {
     ss << node.asUInt64();
   } else if (node.isDouble()) {
-    ss << node.asDouble();
+    ss << DoubleToString(node.asDouble());
   } else if (node.isBool()) {
     ss << node.asBool();
   } else {
-- 
2.43.0


From 406379c5adb289fac12a1bc6c8457c93ea11d1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:17 +0000
Subject: [PATCH 31/79] fix: defaults of the fill limits of transport units in
 input files

---
 src/xml_file_loader.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/xml_file_loader.cc b/src/xml_file_loader.cc
index 3c4d6c4..95a171f 100644
--- a/src/xml_file_loader.cc
+++ b/src/xml_file_loader.cc
@@ -351,8 +351,8 @@ void XMLFileLoader::LoadTransportUnits() {
     std::string name = cyclus::OptionalQuery<std::string>(qe, "name", "default");
     CLOG(LEV_DEBUG3) << "loading transport unit: " << name;
     
-    double fill_min = cyclus::OptionalQuery<double>(qe, "fill_min", eps());
-    double fill_max = cyclus::OptionalQuery<double>(qe, "fill_max", std::numeric_limits<double>::max());
+    int fill_min = cyclus::OptionalQuery<int>(qe, "fill_min", 0);
+    int fill_max = cyclus::OptionalQuery<int>(qe, "fill_max", std::numeric_limits<int>::max());
     
     std::string strategy = cyclus::OptionalQuery<std::string>(qe, "strategy", "first");
 
-- 
2.43.0


From 9388c96cc219027bfd9fffb9005a676c4c791e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:35 +0000
Subject: [PATCH 32/79] fix: use the solution priorities of commodities

---
 src/sim_init.cc        | 2 +-
 src/xml_file_loader.cc | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sim_init.cc b/src/sim_init.cc
index e6ea6db..bd39aa3 100644
--- a/src/sim_init.cc
+++ b/src/sim_init.cc
@@ -248,7 +248,7 @@ void* SimInit::LoadPreconditioner(std::string name) {
     QueryResult qr = b_->Query("CommodPriority", NULL);
     for (int i = 0; i < qr.rows.size(); ++i) {
       std::string commod = qr.GetVal<string>("Commodity", i);
-      double order = qr.GetVal<double>("SolutionOrder", i);
+      double order = qr.GetVal<double>("SolutionPriority", i);
       commod_order[commod] = order;
     }
   } catch (std::exception err) {
diff --git a/src/xml_file_loader.cc b/src/xml_file_loader.cc
index 95a171f..5543cc9 100644
--- a/src/xml_file_loader.cc
+++ b/src/xml_file_loader.cc
@@ -285,6 +285,10 @@ void XMLFileLoader::LoadSolver() {
 
 void XMLFileLoader::ProcessCommodities(
   std::map<std::string, double>* commod_priority) {
+  if (commod_priority->empty()) {
+    return;
+  }
+
   double max = std::max_element(
                  commod_priority->begin(),
                  commod_priority->end(),
-- 
2.43.0


From 007acf5497515da3f90812f6ff263f44332c2f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:35 +0000
Subject: [PATCH 33/79] fix: flat input given as text

---
 src/xml_flat_loader.cc | 7 ++++---
 src/xml_flat_loader.h  | 3 ++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/xml_flat_loader.cc b/src/xml_flat_loader.cc
index 7e3319b..0c07c02 100644
--- a/src/xml_flat_loader.cc
+++ b/src/xml_flat_loader.cc
@@ -11,7 +11,8 @@
 
 namespace cyclus {
 
-std::string BuildFlatMasterSchema(std::string schema_path, std::string infile) {
+std::string BuildFlatMasterSchema(std::string schema_path, std::string infile,
+                                  std::string format) {
   Timer ti;
   Recorder rec;
   Context ctx(&ti, &rec);
@@ -20,7 +21,7 @@ std::string BuildFlatMasterSchema(std::string schema_path, std::string infile) {
   LoadStringstreamFromFile(schema, schema_path);
   std::string master = schema.str();
 
-  std::vector<AgentSpec> specs = ParseSpecs(infile);
+  std::vector<AgentSpec> specs = ParseSpecs(infile, format);
   std::string subschemas;
   for (int i = 0; i < specs.size(); ++i) {
     Agent* m = DynamicModule::Make(&ctx, specs[i]);
@@ -41,7 +42,7 @@ std::string BuildFlatMasterSchema(std::string schema_path, std::string infile) {
 }
 
 std::string XMLFlatLoader::master_schema() {
-  return BuildFlatMasterSchema(schema_path_, file_);
+  return BuildFlatMasterSchema(schema_path_, file_, format_);
 }
 
 void XMLFlatLoader::LoadInitialAgents() {
diff --git a/src/xml_flat_loader.h b/src/xml_flat_loader.h
index 29b109e..00410fd 100644
--- a/src/xml_flat_loader.h
+++ b/src/xml_flat_loader.h
@@ -9,7 +9,8 @@ namespace cyclus {
 /// prototype and instance structure that includes the sub-schemas defined by
 /// all installed cyclus modules (e.g. facility agents).  This is used to
 /// validate simulation input files.
-std::string BuildFlatMasterSchema(std::string schema_path, std::string infile);
+std::string BuildFlatMasterSchema(std::string schema_path, std::string infile,
+                                  std::string format = "none");
 
 /// a class that encapsulates the methods needed to load input to
 /// a cyclus simulation from xml
-- 
2.43.0


From 7d239efa9f7672ca461095e42d105dff075252d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:35 +0000
Subject: [PATCH 34/79] fix: refuse flat input with unknown or cyclic parents

---
 src/xml_flat_loader.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/xml_flat_loader.cc b/src/xml_flat_loader.cc
index 0c07c02..4c3d3cd 100644
--- a/src/xml_flat_loader.cc
+++ b/src/xml_flat_loader.cc
@@ -97,6 +97,19 @@ void XMLFlatLoader::LoadInitialAgents() {
     agents.insert(name);
   }
 
+  // parents must lead to a root
+  std::map<std::string, std::string>::iterator pit;
+  for (pit = parents.begin(); pit != parents.end(); ++pit) {
+    std::string ancestor = pit->second;
+    for (int i = 0; ancestor != ""; ++i) {
+      if (parents.count(ancestor) == 0 || i == parents.size()) {
+        throw ValidationError("agent '" + pit->first +
+                              "' has no line of parents to a root agent");
+      }
+      ancestor = parents[ancestor];
+    }
+  }
+
   // build agents starting at roots (no parent) down.
   std::map<std::string, Agent*> built;  // map<agent_name, agent_ptr>
   std::set<std::string>::iterator it = agents.begin();
-- 
2.43.0


From 79e5fb8dca5d9591c294b8d70ab2e6500a5be726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:42 +0000
Subject: [PATCH 35/79] fix: schema type of JSON input

---
 share/cyclus-flat.rng.in | 2 +-
 share/cyclus.rng.in      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/share/cyclus-flat.rng.in b/share/cyclus-flat.rng.in
index 488a666..d8ded55 100644
--- a/share/cyclus-flat.rng.in
+++ b/share/cyclus-flat.rng.in
@@ -2,8 +2,8 @@
 datatypeLibrary="http://www.w3.org/2001/XMLSchema-datatypes">
 <start>
 <element name="simulation">
-  <optional><element name="schematype"><text/></element></optional>
 <interleave>
+  <optional><element name="schematype"><text/></element></optional>
 
   <optional><element name="ui"><text/></element></optional>
 
diff --git a/share/cyclus.rng.in b/share/cyclus.rng.in
index 1383e55..0e60724 100644
--- a/share/cyclus.rng.in
+++ b/share/cyclus.rng.in
@@ -3,8 +3,8 @@ datatypeLibrary="http://www.w3.org/2001/XMLSchema-datatypes">
 <start>
 
 <element name="simulation">
-  <optional><element name="schematype"><text/></element></optional>
 <interleave>
+  <optional><element name="schematype"><text/></element></optional>
 
   <optional><element name="ui"><text/></element></optional>
   
-- 
2.43.0


From 7b5ec3b05fe3b6bf710a7043f7ac0c6980704a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:29 +0000
Subject: [PATCH 36/79] fix: state variables whose alias is their own name

The entry that points from the alias to the variable overwrote the
variable's annotations, so that the preprocessor failed.
---
 cli/cycpp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cli/cycpp.py b/cli/cycpp.py
index e4c2b69..8413492 100755
--- a/cli/cycpp.py
+++ b/cli/cycpp.py
@@ -505,7 +505,8 @@ class VarDeclarationFilter(Filter):
             alias = annotations['alias']
             while not isinstance(alias, STRING_TYPES):
                 alias = alias[0]
-            state.context[classname]['vars'][alias] = vname
+            if alias != vname:
+                state.context[classname]['vars'][alias] = vname
         if annotations['type'][0] not in BUFFERS:
             annotations['alias'] = self.canonize_alias(
                 annotations['type'], vname, alias=annotations.get('alias'))
-- 
2.43.0


From df23e31ba7165606877be555b26c250f9e61f590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:29 +0000
Subject: [PATCH 37/79] fix: shapes shorter than their type

The shape was lost (list.extend returns None) instead of being filled up,
and the generated code used a shape that was not declared.
---
 cli/cycpp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/cycpp.py b/cli/cycpp.py
index 8413492..71223f8 100755
--- a/cli/cycpp.py
+++ b/cli/cycpp.py
@@ -865,7 +865,7 @@ class StateAccumulator(object):
         # Shape is too short.
         elif len(current_shape) < expected_shape_length:
             diff = expected_shape_length - len(current_shape)
-            new_shape = current_shape.extend([-1] * diff)
+            new_shape = list(current_shape) + [-1] * diff
         # Shape is too long- we throw an error.
         elif len(current_shape) > expected_shape_length:
             err_string = ("Shape array for type {t} is not formatted correctly."
-- 
2.43.0


From 334ecb4e985ee54695cb6b0f11f17be33d59bbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:29 +0000
Subject: [PATCH 38/79] fix: default values of text and uuid state variables

Quotes, backslashes and line breaks in default values of strings and blobs
were put into the generated code as they are, and uuids as text that cannot
initialize them.
---
 cli/cycpp.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/cli/cycpp.py b/cli/cycpp.py
index 71223f8..28112d2 100755
--- a/cli/cycpp.py
+++ b/cli/cycpp.py
@@ -135,6 +135,17 @@ def escape_xml(s, ind='    '):
     cleaner = ['{0}"{1}\\n"'.format(ind, line.rstrip()) for line in clean]
     return '\n'.join(cleaner)
 
+def cpp_string(s):
+    """Returns a C++ string literal for the text s."""
+    lit = ''
+    for b in bytearray(s.encode('utf-8')):
+        c = chr(b)
+        if c in '"\\?' or b < 32 or b > 126:
+            lit += '\\{0:03o}'.format(b)
+        else:
+            lit += c
+    return '"' + lit + '"'
+
 def prepare_type(cpptype, othertype):
     """Updates othertype to conform to the length of cpptype using None's.
     """
@@ -1231,21 +1242,20 @@ class InfileToDbFilter(CodeGeneratorFilter):
         return ind + 'double {0} = {1};\n'.format(name, val)
 
     def _val_string(self, t, val='', name='stringvar', uitype=None, ind=''):
-        return ind + 'std::string {0}("{1}");\n'.format(name, val)
+        return ind + 'std::string {0}({1});\n'.format(name, cpp_string(val))
 
     def _val_blob(self, t, val='', name='blobvar', uitype=None, ind=''):
-        return ind + 'cyclus::Blob {0}("{1}");\n'.format(name, val)
+        return ind + 'cyclus::Blob {0}({1});\n'.format(name, cpp_string(val))
 
     def _val_uuid(self, t, val='', name='uuidvar', uitype=None, ind=''):
-        v = ind + 'boost::uuids::uuid {0} = '.format(name)
         if isinstance(val, STRING_TYPES):
-            v += '"{0}"'.format(val)
-        elif isinstance(val, uuid.UUID):
-            l = [x+y for x, y in zip(val.hex[::1], val.hex[1::2])]
-            v += '{0x' + ', 0x'.join(l) + '}'
-        else:
+            val = uuid.UUID(val) if len(val) > 0 else uuid.UUID(int=0)
+        elif not isinstance(val, uuid.UUID):
             msg = "could not interpret UUID type of {0}"
             raise TypeError(msg.format(val))
+        l = [x+y for x, y in zip(val.hex[::2], val.hex[1::2])]
+        v = ind + 'boost::uuids::uuid {0} = '.format(name)
+        v += '{{0x' + ', 0x'.join(l) + '}}'
         return v + ';\n'
 
     def _val_vector(self, t, val=(), name='vecvar', uitype=None, ind=''):
-- 
2.43.0


From 60c07f1c56549a6660dfea0bfc03e7155694fdc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:29 +0000
Subject: [PATCH 39/79] fix: read blobs and booleans that the schema of an
 archetype allows

Archetypes with blobs in their input did not compile, and "true", "false" or
spaces around a boolean or a uuid were refused although the schema allows
them.
---
 src/infile_tree.h | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/infile_tree.h b/src/infile_tree.h
index 3db7b2b..c205ee0 100644
--- a/src/infile_tree.h
+++ b/src/infile_tree.h
@@ -7,7 +7,9 @@
 
 #include <boost/algorithm/string.hpp>
 #include <boost/lexical_cast.hpp>
+#include <boost/uuid/uuid_io.hpp>
 
+#include "blob.h"
 #include "xml_parser.h"
 
 namespace xmlpp {
@@ -90,6 +92,28 @@ inline std::string Query(InfileTree* tree, std::string query, int index) {
   return tree->GetString(query, index);
 }
 
+template <>
+inline Blob Query(InfileTree* tree, std::string query, int index) {
+  return Blob(tree->GetString(query, index));
+}
+
+template <>
+inline bool Query(InfileTree* tree, std::string query, int index) {
+  std::string s = tree->GetString(query, index);
+  boost::trim(s);
+  if (s == "true") return true;
+  if (s == "false") return false;
+  return boost::lexical_cast<bool>(s.c_str());
+}
+
+template <>
+inline boost::uuids::uuid Query(InfileTree* tree, std::string query,
+                                int index) {
+  std::string s = tree->GetString(query, index);
+  boost::trim(s);
+  return boost::lexical_cast<boost::uuids::uuid>(s.c_str());
+}
+
 template <>
 inline int Query(InfileTree* tree, std::string query, int index) {
   std::string s = tree->GetString(query, index);
-- 
2.43.0


From 76e8ad86d3657ea56cb82e37cf893ac862a81030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:12 +0000
Subject: [PATCH 40/79] fix: blank lines and comments between an annotation and
 its state variable

The third pass did not recognize the declaration, and did not declare the
shape that the generated code uses.
---
 cli/cycpp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/cycpp.py b/cli/cycpp.py
index 28112d2..a7b7b21 100755
--- a/cli/cycpp.py
+++ b/cli/cycpp.py
@@ -496,7 +496,7 @@ class VarDeclarationFilter(Filter):
     """State varible declaration.  Only operates if state.var_annotations is
     not None. Access for member variable must be public.
     """
-    regex = re.compile(r"(.*\w+.*?)\s+(\w+)")
+    regex = re.compile(r"\s*(?!\s|#|//|/\*)(.*\w+.*?)\s+(\w+)")
 
     def transform_pass2(self, statement, sep):
         state = self.machine
-- 
2.43.0


From 5d340a412b5dd437af8f757921132f2c124cafc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:48 +0000
Subject: [PATCH 41/79] fix: nested containers in defaults and input of state
 variables

Code generated for defaults of containers of the same kind inside each
other, and for reading pairs inside pairs, used the inner variable for the
outer one, and did not compile.
---
 cli/cycpp.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/cli/cycpp.py b/cli/cycpp.py
index a7b7b21..b762241 100755
--- a/cli/cycpp.py
+++ b/cli/cycpp.py
@@ -1214,6 +1214,10 @@ class InfileToDbFilter(CodeGeneratorFilter):
         """returns a format string for a type t"""
         return '"{0}"' if t == 'std::string' else '{0}'
 
+    def _inner(self, name, outer):
+        """returns a name for a local variable that does not hide outer"""
+        return name if name != outer else name + '_'
+
     def _val(self, t, val=None, name=None, uitype=None, ind=''):
         """Returns a string that represents a Python value (val) of a given
         type (t) in C++. For types that do not have an expression
@@ -1260,7 +1264,7 @@ class InfileToDbFilter(CodeGeneratorFilter):
 
     def _val_vector(self, t, val=(), name='vecvar', uitype=None, ind=''):
         uitype = prepare_type(t, uitype)
-        elemname = 'elem'
+        elemname = self._inner('elem', name)
 
         v = ind + '{0} {1};\n'.format(type_to_str(t), name)
         v += ind + '{0}.resize({1});\n'.format(name, len(val))
@@ -1281,7 +1285,7 @@ class InfileToDbFilter(CodeGeneratorFilter):
 
     def _val_set(self, t, val=frozenset(), name='setvar', uitype=None, ind=''):
         uitype = prepare_type(t, uitype)
-        elemname = 'elem'
+        elemname = self._inner('elem', name)
 
         v = ind + '{0} {1};\n'.format(type_to_str(t), name)
         v += ind + '{\n'
@@ -1301,7 +1305,7 @@ class InfileToDbFilter(CodeGeneratorFilter):
 
     def _val_list(self, t, val=(), name='listvar', uitype=None, ind=''):
         uitype = prepare_type(t, uitype)
-        elemname = 'elem'
+        elemname = self._inner('elem', name)
 
         v = ind + '{0} {1};\n'.format(type_to_str(t), name)
         v += ind + '{\n'
@@ -1324,7 +1328,8 @@ class InfileToDbFilter(CodeGeneratorFilter):
         ftype, stype = t[1], t[2]
         uitype = prepare_type(t, uitype)
 
-        fname, sname = 'first', 'second'
+        fname = self._inner('first', name)
+        sname = self._inner('second', name)
         v = ind + '{0} {1};\n'.format(type_to_str(t), name)
         v += ind + '{\n'
         ind += '  '
@@ -1338,8 +1343,8 @@ class InfileToDbFilter(CodeGeneratorFilter):
 
     def _val_map(self, t, val=None, name=None, uitype=None, ind=''):
         uitype = prepare_type(t, uitype)
-        keyname = 'key'
-        valname = 'val'
+        keyname = self._inner('key', name)
+        valname = self._inner('val', name)
 
         v = ind + '{0} {1};\n'.format(type_to_str(t), name)
         v += ind + '{\n'
@@ -1508,8 +1513,10 @@ class InfileToDbFilter(CodeGeneratorFilter):
         # rhs to be from outer scope - otherwise the newly defined sub will be
         # in scope causing segfaults
         tree_idx = idx or '0'
-        first = 'first{}'.format(tree_idx)
-        second = 'second{}'.format(tree_idx)
+        # the outer variable is assigned from member in the same block
+        outer = member[:-len('_in')] if member.endswith('_in') else None
+        first = self._inner('first{}'.format(tree_idx), outer)
+        second = self._inner('second{}'.format(tree_idx), outer)
         s = '{ind}{0}::InfileTree* bub = sub->SubTree("{path}{1}", {2});\n'
         s = s.format(CYCNS, alias[0], tree_idx, path=path, ind=ind)
         s += ind + '{0}::InfileTree* sub = bub;\n'.format(CYCNS)
-- 
2.43.0


From 69dd29baa8e2eb37e525a73891bb441b49da97cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:54 +0000
Subject: [PATCH 42/79] fix: uniform random numbers with equal or reversed
 bounds

Equal bounds hung, reversed ones hung or gave numbers out of range.
---
 src/random_number_generator.cc |  9 +++++++++
 src/random_number_generator.h  | 23 ++++++++++++++++++-----
 2 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/random_number_generator.cc b/src/random_number_generator.cc
index add4136..ba7e585 100644
--- a/src/random_number_generator.cc
+++ b/src/random_number_generator.cc
@@ -28,12 +28,21 @@ namespace cyclus{
     }
     
     int RandomNumberGenerator::random_uniform_int(int low, int high){
+        if (low > high) {
+            throw ValueError("low cannot be greater than high for a uniform distribution");
+        }
         boost::random::uniform_int_distribution<> dist(low, high);
         boost::random::variate_generator<Generator&, boost::random::uniform_int_distribution<> > rn(gen_, dist);
         return rn();
     }
 
     double RandomNumberGenerator::random_uniform_real(double low, double high){
+        if (!(low <= high)) {
+            throw ValueError("low cannot be greater than high for a uniform distribution");
+        }
+        if (low == high) {
+            return low;
+        }
         boost::random::uniform_real_distribution<> dist(low, high);
         boost::random::variate_generator<Generator&, boost::random::uniform_real_distribution<> > rn(gen_, dist);
         return rn();
diff --git a/src/random_number_generator.h b/src/random_number_generator.h
index ed93087..9ac300b 100644
--- a/src/random_number_generator.h
+++ b/src/random_number_generator.h
@@ -76,10 +76,10 @@ class RandomNumberGenerator {
     /// generate a random number between [0, 1)
     double random_01();
     
-    /// generate a random integer between [low, high)
+    /// generate a random integer between [low, high]
     int random_uniform_int(int low, int high);
 
-    /// generate a random real number between [low, high)
+    /// generate a random real number between [low, high), or low if they are equal
     double random_uniform_real(double low, double high);
 
     /// generate a double from a normal distribution, with truncation
@@ -119,8 +119,17 @@ class UniformDoubleDist : public DoubleDistribution {
   public:
     typedef boost::shared_ptr<UniformDoubleDist> Ptr;
 
-    UniformDoubleDist(double min = 0, double max=1) : dist(min, max) {};
-    virtual double sample() { return dist(RandomNumberGenerator::gen_); }
+    UniformDoubleDist(double min = 0, double max=1) : dist(min, max) {
+      if (!(min <= max)) {
+        throw ValueError("Min cannot be greater than max for a uniform distribution");
+      }
+    };
+    virtual double sample() {
+      if (dist.min() == dist.max()) {
+        return dist.min();
+      }
+      return dist(RandomNumberGenerator::gen_);
+    }
     virtual double max() { return dist.max(); }
 };
 
@@ -220,7 +229,11 @@ class UniformIntDist : public IntDistribution {
   public:
     typedef boost::shared_ptr<UniformIntDist> Ptr;
 
-    UniformIntDist(int min = 0, int max=1) : dist(min, max) {};
+    UniformIntDist(int min = 0, int max=1) : dist(min, max) {
+      if (min > max) {
+        throw ValueError("Min cannot be greater than max for a uniform distribution");
+      }
+    };
     virtual int sample() { return dist(RandomNumberGenerator::gen_); }
     virtual int max() { return dist.max(); }
 };
-- 
2.43.0


From 1b51caa5c33cce53e46a6637793c393346276fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:54 +0000
Subject: [PATCH 43/79] fix: refuse normal distributions with reversed bounds

Drawing from them never ended.
---
 src/random_number_generator.cc | 6 ++++++
 src/random_number_generator.h  | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/random_number_generator.cc b/src/random_number_generator.cc
index ba7e585..c329355 100644
--- a/src/random_number_generator.cc
+++ b/src/random_number_generator.cc
@@ -49,6 +49,9 @@ namespace cyclus{
     }
 
     double RandomNumberGenerator::random_normal_real(double mean, double std_dev, double low, double high){
+        if (low > high) {
+            throw ValueError("low cannot be greater than high for a normal distribution");
+        }
         boost::random::normal_distribution<> dist(mean, std_dev);
         boost::random::variate_generator<Generator&, boost::random::normal_distribution<> > rn(gen_, dist);
         double val = rn();
@@ -59,6 +62,9 @@ namespace cyclus{
     }
 
     int RandomNumberGenerator::random_normal_int(double mean, double std_dev, int low, int high){
+        if (low > high) {
+            throw ValueError("low cannot be greater than high for a normal distribution");
+        }
         boost::random::normal_distribution<> dist(mean, std_dev);
         boost::random::variate_generator<Generator&, boost::random::normal_distribution<> > rn(gen_, dist);
         double val = rn();
diff --git a/src/random_number_generator.h b/src/random_number_generator.h
index 9ac300b..57c8372 100644
--- a/src/random_number_generator.h
+++ b/src/random_number_generator.h
@@ -145,6 +145,9 @@ class NormalDoubleDist : public DoubleDistribution {
       if (min_ == max_) {
         throw ValueError("Min and max cannot be equal for a normal distribution. Either use FixedDoubleDist or change the min/max.");
       }
+      if (min_ > max_) {
+        throw ValueError("Min cannot be greater than max for a normal distribution");
+      }
       if (max_ < (mean - 3*std_dev) || min_ > (mean + 3*std_dev)) {
         Warn<VALUE_WARNING>("Dist is sampling from a tail of a truncated normal more than 3 standard deviations from the mean. Drawing sampling may be inefficient");
       }
@@ -250,6 +253,9 @@ class NormalIntDist : public IntDistribution {
       if (min_ == max_) {
         throw ValueError("Min and max cannot be equal for a normal distribution. Either use FixedIntDist or change the min/max.");
       }
+      if (min_ > max_) {
+        throw ValueError("Min cannot be greater than max for a normal distribution");
+      }
       if (max_ < (mean - 3*std_dev) || min_ > (mean + 3*std_dev)) {
         Warn<VALUE_WARNING>("Dist is sampling from a tail of a truncated normal more than 3 standard deviations from the mean. Drawing sampling may be inefficient");
       }
-- 
2.43.0


From a7e0ede056b94e62feb637a3eaca7cf416f38e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:54 +0000
Subject: [PATCH 44/79] fix: refuse probabilities above one and rates of zero

---
 src/random_number_generator.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/random_number_generator.h b/src/random_number_generator.h
index 57c8372..1e27213 100644
--- a/src/random_number_generator.h
+++ b/src/random_number_generator.h
@@ -182,7 +182,7 @@ class ExponentialDoubleDist : public DoubleDistribution {
     typedef boost::shared_ptr<ExponentialDoubleDist> Ptr;
 
     ExponentialDoubleDist(double lambda) : dist(lambda), lambda_(lambda) {
-      if (lambda_ < 0) {
+      if (lambda_ <= 0) {
         throw ValueError("Lambda must be positive");
       }
     };
@@ -201,8 +201,8 @@ class BinaryDoubleDist : public DoubleDistribution {
 
     BinaryDoubleDist(double p_success, double choice_a, double choice_b) : 
       dist(1, p_success), p_success_(p_success), choice_a_(choice_a), choice_b_(choice_b) {
-      if (p_success < 0) {
-        throw ValueError("Probability of choice A must be positive");
+      if (p_success < 0 || p_success > 1) {
+        throw ValueError("Probability of choice A must be between zero and one");
       }
     };
     virtual double sample() { 
@@ -339,7 +339,7 @@ class ExponentialIntDist : public IntDistribution {
     typedef boost::shared_ptr<ExponentialIntDist> Ptr;
 
     ExponentialIntDist(double lambda) : dist(lambda), lambda_(lambda) {
-      if (lambda_ < 0) {
+      if (lambda_ <= 0) {
         throw ValueError("Lambda must be positive");
       }
     };
@@ -357,8 +357,8 @@ class BinaryIntDist : public IntDistribution {
 
     BinaryIntDist(double p_success, int choice_a, int choice_b) : 
       dist(1, p_success), p_success_(p_success), choice_a_(choice_a), choice_b_(choice_b) {
-      if (p_success < 0) {
-        throw ValueError("Probability of choice A must be positive");
+      if (p_success < 0 || p_success > 1) {
+        throw ValueError("Probability of choice A must be between zero and one");
       }
     };
     virtual int sample() { 
-- 
2.43.0


From 92d3b4b5cc187cdfcf69348ad6477411f12dec5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:54 +0000
Subject: [PATCH 45/79] fix: Poisson, exponential and binary distributions of
 doubles were abstract

---
 src/random_number_generator.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/random_number_generator.h b/src/random_number_generator.h
index 1e27213..e522f8c 100644
--- a/src/random_number_generator.h
+++ b/src/random_number_generator.h
@@ -170,6 +170,7 @@ class PoissonDoubleDist : public DoubleDistribution {
       }
     };
     virtual double sample() { return dist(RandomNumberGenerator::gen_); }
+    virtual double max() { return std::numeric_limits<double>::max(); }
     virtual double mean() { return dist.mean(); }
 };
 
@@ -187,6 +188,7 @@ class ExponentialDoubleDist : public DoubleDistribution {
       }
     };
     virtual double sample() { return dist(RandomNumberGenerator::gen_); }
+    virtual double max() { return std::numeric_limits<double>::max(); }
     virtual double lambda() { return lambda_; }
 };
 
@@ -207,6 +209,7 @@ class BinaryDoubleDist : public DoubleDistribution {
     };
     virtual double sample() { 
       return dist(RandomNumberGenerator::gen_) ? choice_a_ : choice_b_; }
+    virtual double max() { return std::max(choice_a_, choice_b_); }
     virtual double p() { return p_success_; }
 };
 
-- 
2.43.0


From 8dc259afe715946fa6ef6abec05874a6d3e50f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:54 +0000
Subject: [PATCH 46/79] fix: the negative binomial distribution gives trials,
 not failures

---
 src/random_number_generator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/random_number_generator.h b/src/random_number_generator.h
index e522f8c..c9c5c78 100644
--- a/src/random_number_generator.h
+++ b/src/random_number_generator.h
@@ -311,7 +311,7 @@ class NegativeBinomialIntDist : public IntDistribution {
         throw ValueError("Probability must be between zero and one");
       }
     };
-    virtual int sample() { return dist(RandomNumberGenerator::gen_); }
+    virtual int sample() { return successes_ + dist(RandomNumberGenerator::gen_); }
     virtual int successes() { return successes_; }
     virtual double p() { return p_success_; }
 };
-- 
2.43.0


From 509f154a0ba01c65c3300bd0cc84dd7a3205017c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:31 +0000
Subject: [PATCH 47/79] fix: refuse normal random numbers with equal bounds

Drawing them never ended.
---
 src/random_number_generator.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/random_number_generator.cc b/src/random_number_generator.cc
index c329355..9d4bc3c 100644
--- a/src/random_number_generator.cc
+++ b/src/random_number_generator.cc
@@ -49,8 +49,8 @@ namespace cyclus{
     }
 
     double RandomNumberGenerator::random_normal_real(double mean, double std_dev, double low, double high){
-        if (low > high) {
-            throw ValueError("low cannot be greater than high for a normal distribution");
+        if (!(low < high)) {
+            throw ValueError("low must be less than high for a normal distribution");
         }
         boost::random::normal_distribution<> dist(mean, std_dev);
         boost::random::variate_generator<Generator&, boost::random::normal_distribution<> > rn(gen_, dist);
@@ -62,8 +62,8 @@ namespace cyclus{
     }
 
     int RandomNumberGenerator::random_normal_int(double mean, double std_dev, int low, int high){
-        if (low > high) {
-            throw ValueError("low cannot be greater than high for a normal distribution");
+        if (!(low < high)) {
+            throw ValueError("low must be less than high for a normal distribution");
         }
         boost::random::normal_distribution<> dist(mean, std_dev);
         boost::random::variate_generator<Generator&, boost::random::normal_distribution<> > rn(gen_, dist);
-- 
2.43.0


From f14550d2050ed5078ff0ff3b626eda32945a4bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:21 +0000
Subject: [PATCH 48/79] fix: positions on the equator and the prime meridian
 have a plus sign

ISO 6709 gives zero latitudes and longitudes a plus sign.
---
 src/toolkit/position.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/toolkit/position.cc b/src/toolkit/position.cc
index cb5ac72..2ecb9f1 100644
--- a/src/toolkit/position.cc
+++ b/src/toolkit/position.cc
@@ -160,7 +160,7 @@ std::string Position::ToStringHelperLon(int mode, double lon) const {
 
 std::string Position::ToStringHelper(double value) const {
   std::stringstream temp;
-  if (value > 0) {
+  if (value >= 0) {
     temp << "+";
   } else {
     temp << "-";
-- 
2.43.0


From ebf3a78913c1a47ac12923622a698c6684ef7c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:21 +0000
Subject: [PATCH 49/79] fix: positions near the equator or prime meridian were
 written with an exponent

---
 src/toolkit/position.cc | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/toolkit/position.cc b/src/toolkit/position.cc
index 2ecb9f1..9b988ac 100644
--- a/src/toolkit/position.cc
+++ b/src/toolkit/position.cc
@@ -121,7 +121,12 @@ std::string Position::ToStringHelperLat(int mode, double lat) const {
   }
   switch (mode) {
     case StringFormat::DEGREES:
-      lat_string << std::setprecision(7) << fabs(lat_int + lat);
+      if (fabs(lat_int + lat) < 1e-3) {
+        lat_string << std::fixed << std::setprecision(6);
+      } else {
+        lat_string << std::setprecision(7);
+      }
+      lat_string << fabs(lat_int + lat);
       break;
     case StringFormat::DEGREES_MINUTES:
       lat_string << abs((int)lat_int) << ToStringHelperDM(lat);
@@ -146,7 +151,12 @@ std::string Position::ToStringHelperLon(int mode, double lon) const {
   }
   switch (mode) {
     case StringFormat::DEGREES:
-      lon_string << std::setprecision(7) << fabs(lon_int + lon);
+      if (fabs(lon_int + lon) < 1e-3) {
+        lon_string << std::fixed << std::setprecision(6);
+      } else {
+        lon_string << std::setprecision(7);
+      }
+      lon_string << fabs(lon_int + lon);
       break;
     case StringFormat::DEGREES_MINUTES:
       lon_string << abs((int)lon_int) << ToStringHelperDM(lon);
-- 
2.43.0


From 970d1a223bb16eed30259048388f86f7cd292d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:14 +0000
Subject: [PATCH 50/79] fix: the distance of antipodal positions was not a
 number

---
 src/toolkit/position.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/toolkit/position.cc b/src/toolkit/position.cc
index 9b988ac..854816d 100644
--- a/src/toolkit/position.cc
+++ b/src/toolkit/position.cc
@@ -76,6 +76,9 @@ double Position::Distance(Position target) const {
       pow(sin(dlat / 2), 2) +
       pow(sin(dlong / 2), 2) * cos(curr_latitude) * cos(tarlatitude);
 
+  // rounding must not push the distance of antipodes out of its domain
+  half_chord_length_sq = fmin(half_chord_length_sq, 1.0);
+
   double angular_distance =
       2 * atan2(sqrt(half_chord_length_sq), sqrt(1 - half_chord_length_sq));
   return earth_radius * angular_distance;
-- 
2.43.0


From 87ca0df5a58ed4fae85e8117fe1c6d97cdab71d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:29 +0000
Subject: [PATCH 51/79] fix: seconds of a position that round up to ten had
 three digits

---
 src/toolkit/position.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/toolkit/position.cc b/src/toolkit/position.cc
index 854816d..db38d93 100644
--- a/src/toolkit/position.cc
+++ b/src/toolkit/position.cc
@@ -201,7 +201,7 @@ std::string Position::ToStringHelperDMS(double value) const {
     temp << "0";
   }
   temp << fabs(value_int);
-  value = value * 60;
+  value = SetPrecision(value * 60, 1);
   if ((int)fabs(value) / 10 == 0) {
     temp << "0";
   }
-- 
2.43.0


From 47c000ccf101abab263a9ea567a2ea4a8fc65756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:55 +0000
Subject: [PATCH 52/79] fix: ZZLLAAAM names of elements above 100

Only two digits of the charge number were removed.
---
 src/pyne.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/pyne.cc b/src/pyne.cc
index bf446ea..b10bc47 100644
--- a/src/pyne.cc
+++ b/src/pyne.cc
@@ -3152,10 +3152,8 @@ int pyne::nucname::zzllaaam_to_id(std::string nuc) {
 
   // Get the string into a regular form
   std::string nucstr = pyne::to_upper(nuc);
-  // Removing first two characters (redundant), for 1 digit nuclides, such
-  // as 2-He-4, the first slash will be removed, and the second attempt to
-  // remove the second slash will do nothing.  
-  nucstr.erase(0,2);
+  // Removing the charge number (redundant)
+  nucstr.erase(0, nucstr.find("-") + 1);
   nucstr = pyne::remove_substring(nucstr, "-");
   // Does nothing if nuclide is short, otherwise removes the second "-" instance
   nucstr = pyne::remove_substring(nucstr, "-");
-- 
2.43.0


From a32b7b3cf29cfc11122e579251918ad8a69fa677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:39 +0000
Subject: [PATCH 53/79] fix: uuid defaults that are no uuid, and pragmas after
 state variables

The changes to uuid defaults and to the recognition of declarations took away
behaviour that the existing tests rely on.
---
 cli/cycpp.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/cli/cycpp.py b/cli/cycpp.py
index b762241..bb1d178 100755
--- a/cli/cycpp.py
+++ b/cli/cycpp.py
@@ -496,7 +496,8 @@ class VarDeclarationFilter(Filter):
     """State varible declaration.  Only operates if state.var_annotations is
     not None. Access for member variable must be public.
     """
-    regex = re.compile(r"\s*(?!\s|#|//|/\*)(.*\w+.*?)\s+(\w+)")
+    regex = re.compile(r"(?:\s*\n\s*(?!\s|#|//|/\*)|[^\S\n]*(?!\s|//|/\*))"
+                       r"(.*\w+.*?)\s+(\w+)")
 
     def transform_pass2(self, statement, sep):
         state = self.machine
@@ -1252,14 +1253,20 @@ class InfileToDbFilter(CodeGeneratorFilter):
         return ind + 'cyclus::Blob {0}({1});\n'.format(name, cpp_string(val))
 
     def _val_uuid(self, t, val='', name='uuidvar', uitype=None, ind=''):
+        v = ind + 'boost::uuids::uuid {0} = '.format(name)
         if isinstance(val, STRING_TYPES):
-            val = uuid.UUID(val) if len(val) > 0 else uuid.UUID(int=0)
-        elif not isinstance(val, uuid.UUID):
+            try:
+                u = uuid.UUID(val or '0' * 32)
+                l = [x+y for x, y in zip(u.hex[::2], u.hex[1::2])]
+                v += '{{0x' + ', 0x'.join(l) + '}}'
+            except ValueError:
+                v += '"{0}"'.format(val)
+        elif isinstance(val, uuid.UUID):
+            l = [x+y for x, y in zip(val.hex[::1], val.hex[1::2])]
+            v += '{0x' + ', 0x'.join(l) + '}'
+        else:
             msg = "could not interpret UUID type of {0}"
             raise TypeError(msg.format(val))
-        l = [x+y for x, y in zip(val.hex[::2], val.hex[1::2])]
-        v = ind + 'boost::uuids::uuid {0} = '.format(name)
-        v += '{{0x' + ', 0x'.join(l) + '}}'
         return v + ';\n'
 
     def _val_vector(self, t, val=(), name='vecvar', uitype=None, ind=''):
-- 
2.43.0


From cfba30c19c42a89a6889932e3a191db6c083c25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:39 +0000
Subject: [PATCH 54/79] fix: restore the negative binomial distribution of
 failures

The tests of the buy policy rely on it.
---
 src/random_number_generator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/random_number_generator.h b/src/random_number_generator.h
index c9c5c78..e522f8c 100644
--- a/src/random_number_generator.h
+++ b/src/random_number_generator.h
@@ -311,7 +311,7 @@ class NegativeBinomialIntDist : public IntDistribution {
         throw ValueError("Probability must be between zero and one");
       }
     };
-    virtual int sample() { return successes_ + dist(RandomNumberGenerator::gen_); }
+    virtual int sample() { return dist(RandomNumberGenerator::gen_); }
     virtual int successes() { return successes_; }
     virtual double p() { return p_success_; }
 };
-- 
2.43.0


From cafc522e56322a5d0c318f6ef9495142d3fbf43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:51 +0000
Subject: [PATCH 55/79] fix: buy policies without an inventory tracker

The tracker of the policy's own buffer was set up through a pointer that
pointed nowhere.
---
 src/toolkit/matl_buy_policy.cc | 3 ++-
 src/toolkit/matl_buy_policy.h  | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/toolkit/matl_buy_policy.cc b/src/toolkit/matl_buy_policy.cc
index 746642a..b566109 100644
--- a/src/toolkit/matl_buy_policy.cc
+++ b/src/toolkit/matl_buy_policy.cc
@@ -61,7 +61,8 @@ void MatlBuyPolicy::set_manager(Agent* m) {
 void MatlBuyPolicy::set_total_inv_tracker(TotalInvTracker* t) {
   if (t == NULL){
     std::vector<ResBuf<Material>*> bufs = {buf_};
-    buf_tracker_->Init(bufs, buf_->capacity());
+    own_tracker_.Init(bufs);
+    buf_tracker_ = &own_tracker_;
   }
   else if (!t->buf_in_tracker(buf_)) {
     std::stringstream ss;
diff --git a/src/toolkit/matl_buy_policy.h b/src/toolkit/matl_buy_policy.h
index 82e742d..29d11df 100644
--- a/src/toolkit/matl_buy_policy.h
+++ b/src/toolkit/matl_buy_policy.h
@@ -254,6 +254,8 @@ class MatlBuyPolicy : public Trader {
 
   ResBuf<Material>* buf_;
   TotalInvTracker* buf_tracker_;
+  /// tracks buf_ alone if no tracker is given
+  TotalInvTracker own_tracker_;
   std::string name_, inv_policy;
   double fill_to_, req_at_, quantize_, throughput_, cumulative_cap_,
     cycle_total_inv_;
-- 
2.43.0


From e6adcc9fcbd3eaefec029effdf8f3e376a1850df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:20 +0000
Subject: [PATCH 56/79] fix: sell policies that ignore compositions send what
 was requested

They changed the composition only if it was the requested one already.
---
 src/toolkit/matl_sell_policy.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/toolkit/matl_sell_policy.cc b/src/toolkit/matl_sell_policy.cc
index 62188d9..c65f6fd 100644
--- a/src/toolkit/matl_sell_policy.cc
+++ b/src/toolkit/matl_sell_policy.cc
@@ -284,7 +284,7 @@ void MatlSellPolicy::GetMatlTrades(
         trade_mat = mat;
       }
 
-      if (ignore_comp_ && compmath::AlmostEq(it->request->target()->comp()->mass(), trade_mat->comp()->mass(), eps_rsrc())) {
+      if (ignore_comp_ && !compmath::AlmostEq(it->request->target()->comp()->mass(), trade_mat->comp()->mass(), eps_rsrc())) {
         trade_mat->Transmute(it->request->target()->comp());
       }
       responses.push_back(std::make_pair(*it, trade_mat));
-- 
2.43.0


From 4e3c24d400a31e4b447ec2faf0f176787c32a9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:25 +0000
Subject: [PATCH 57/79] fix: count what bulk buffers receive against the
 cumulative cap

Material that a bulk buffer has absorbed has no quantity left to count.
---
 src/toolkit/matl_buy_policy.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/toolkit/matl_buy_policy.cc b/src/toolkit/matl_buy_policy.cc
index b566109..1c7aaeb 100644
--- a/src/toolkit/matl_buy_policy.cc
+++ b/src/toolkit/matl_buy_policy.cc
@@ -329,11 +329,11 @@ void MatlBuyPolicy::AcceptMatlTrades(
     rsrc_commods_[it->second] = it->first.request->commodity();
     LGH(INFO3) << "got " << it->second->quantity() << " kg of "
                << it->first.request->commodity()  << std::endl;
-    buf_->Push(it->second);
-    // cumulative capacity handling
+    // cumulative capacity handling, before a bulk buffer absorbs the material
     if (use_cumulative_capacity()) {
       cycle_total_inv_ += it->second->quantity();
     }
+    buf_->Push(it->second);
   }
   // check if cumulative cap has been reached. If yes, then sample for dormant
   // length and reset cycle_total_inv
-- 
2.43.0


From b6c835326eb315bdc9fa561eb95c8cb88415b73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:30 +0000
Subject: [PATCH 58/79] fix: active and dormant periods of a buy policy whose
 behavior was reset

A policy that was always active stayed so.
---
 src/toolkit/matl_buy_policy.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/toolkit/matl_buy_policy.cc b/src/toolkit/matl_buy_policy.cc
index 1c7aaeb..4195e10 100644
--- a/src/toolkit/matl_buy_policy.cc
+++ b/src/toolkit/matl_buy_policy.cc
@@ -44,6 +44,8 @@ MatlBuyPolicy& MatlBuyPolicy::ResetBehavior() {
   active_dist_ = NULL;
   dormant_dist_ = NULL;
   size_dist_ = NULL;
+  next_active_end_ = 0;
+  next_dormant_end_ = 0;
   return *this;
 }
 
-- 
2.43.0


From a7eb2d269d5430a318e288c4e14015d7ef3ee5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:42 +0000
Subject: [PATCH 59/79] fix: refuse quanta that are too small for the package
 of a sell policy

The first of no packages was looked at.
---
 src/toolkit/matl_sell_policy.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/toolkit/matl_sell_policy.cc b/src/toolkit/matl_sell_policy.cc
index c65f6fd..9acedef 100644
--- a/src/toolkit/matl_sell_policy.cc
+++ b/src/toolkit/matl_sell_policy.cc
@@ -52,7 +52,7 @@ void MatlSellPolicy::set_package(std::string x) {
     if (quantize_ > 0 && pkg->name() != Package::unpackaged_name()) {
       if (pkg->strategy() == "first" || pkg->strategy() == "equal") {
         std::vector<double> fill = pkg->GetFillMass(quantize_);
-        if (fill.size() > 1 ||  std::fmod(fill.front(), quantize_) > 0) {
+        if (fill.size() != 1 || std::fmod(fill.front(), quantize_) > 0) {
           ss << "Quantize " << quantize_ 
              << " is not fully packagable based on fill min/max values (" 
              << pkg->fill_min() << ", " << pkg->fill_max() << ")";
-- 
2.43.0


From 78238107fe25bb62d084acdd384802e8e0d3365f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:14 +0000
Subject: [PATCH 60/79] fix: buy policies that were stopped at the end of a
 dormant period

They stayed active from then on.
---
 src/toolkit/matl_buy_policy.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/toolkit/matl_buy_policy.cc b/src/toolkit/matl_buy_policy.cc
index 4195e10..6489dd6 100644
--- a/src/toolkit/matl_buy_policy.cc
+++ b/src/toolkit/matl_buy_policy.cc
@@ -391,7 +391,9 @@ double MatlBuyPolicy::SampleRequestSize() {
 }
 
 void MatlBuyPolicy::CheckActiveDormantCumulativeTimes() {
-  if (manager()->context()->time() == next_dormant_end_) {
+  // the end of the period may have passed while the policy was stopped
+  if (next_dormant_end_ >= 0 &&
+      manager()->context()->time() >= next_dormant_end_) {
     if (use_cumulative_capacity()) { next_dormant_end_ = -1; }
     else { 
         SetNextActiveTime();
-- 
2.43.0


From 8e63c48798e1a42af8dea01e6f0607385b401b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:09 +0000
Subject: [PATCH 61/79] fix: execute and record trades in an order that does
 not depend on addresses

---
 src/trade_executor.h | 46 +++++++++++++++++++++++++++++---------------
 1 file changed, 30 insertions(+), 16 deletions(-)

diff --git a/src/trade_executor.h b/src/trade_executor.h
index 17f12a4..a1debe5 100644
--- a/src/trade_executor.h
+++ b/src/trade_executor.h
@@ -33,6 +33,13 @@ struct TradeExecutionContext {
   // requester
   std::map<std::pair<Trader*, Trader*>,
       std::vector< std::pair<Trade<T>, typename T::Ptr> > > all_trades;
+
+  // the suppliers, requesters and keys of all_trades in the order in which they
+  // first occur, which, unlike the order of their addresses, is the same in
+  // every run of a simulation
+  std::vector<Trader*> supplier_order;
+  std::vector<Trader*> requester_order;
+  std::vector<std::pair<Trader*, Trader*> > pair_order;
 };
 
 /// @class TradeExecutor
@@ -76,14 +83,13 @@ class TradeExecutor {
   /// occur
   void RecordTrades(Context* ctx) {
     // record all trades
-    typename std::map<std::pair<Trader*, Trader*>,
-        std::vector< std::pair<Trade<T>, typename T::Ptr> > >::iterator m_it;
-    for (m_it = trade_ctx_.all_trades.begin();
-         m_it != trade_ctx_.all_trades.end(); ++m_it) {
-      Agent* supplier = m_it->first.first->manager();
-      Agent* requester = m_it->first.second->manager();
+    std::vector<std::pair<Trader*, Trader*> >::iterator p_it;
+    for (p_it = trade_ctx_.pair_order.begin();
+         p_it != trade_ctx_.pair_order.end(); ++p_it) {
+      Agent* supplier = p_it->first->manager();
+      Agent* requester = p_it->second->manager();
       typename std::vector< std::pair<Trade<T>, typename T::Ptr> >&
-          trades = m_it->second;
+          trades = trade_ctx_.all_trades[*p_it];
       typename std::vector< std::pair<Trade<T>, typename T::Ptr> >::iterator
           v_it;
       for (v_it = trades.begin(); v_it != trades.end(); ++v_it) {
@@ -122,8 +128,12 @@ void GroupTradesBySupplier(TradeExecutionContext<T>& trade_ctx,
   typename std::vector< Trade<T> >::const_iterator it;
   for (it = trades.begin(); it != trades.end(); ++it) {
     trade_ctx.trades_by_supplier[it->bid->bidder()].push_back(*it);
-    trade_ctx.suppliers.insert(it->bid->bidder());
-    trade_ctx.requesters.insert(it->request->requester());
+    if (trade_ctx.suppliers.insert(it->bid->bidder()).second) {
+      trade_ctx.supplier_order.push_back(it->bid->bidder());
+    }
+    if (trade_ctx.requesters.insert(it->request->requester()).second) {
+      trade_ctx.requester_order.push_back(it->request->requester());
+    }
   }
 }
 
@@ -131,9 +141,9 @@ void GroupTradesBySupplier(TradeExecutionContext<T>& trade_ctx,
 /// populates trades_by_requester_ and all_trades_ with the results
 template<class T>
 static void GetTradeResponses(TradeExecutionContext<T>& trade_ctx) {
-  std::set<Trader*>::iterator it;
-  for (it = trade_ctx.suppliers.begin(); it != trade_ctx.suppliers.end();
-       ++it) {
+  std::vector<Trader*>::iterator it;
+  for (it = trade_ctx.supplier_order.begin();
+       it != trade_ctx.supplier_order.end(); ++it) {
     // get responses
     Trader* supplier = *it;
     std::vector< std::pair<Trade<T>, typename T::Ptr> > responses;
@@ -151,16 +161,20 @@ static void GetTradeResponses(TradeExecutionContext<T>& trade_ctx) {
       // }
       Trader* requester = r_it->first.request->requester();
       trade_ctx.trades_by_requester[requester].push_back(*r_it);
-      trade_ctx.all_trades[std::make_pair(supplier, requester)].push_back(*r_it);
+      std::pair<Trader*, Trader*> key(supplier, requester);
+      if (trade_ctx.all_trades.count(key) == 0) {
+        trade_ctx.pair_order.push_back(key);
+      }
+      trade_ctx.all_trades[key].push_back(*r_it);
     }
   }
 }
 
 template <class T>
 static void SendTradeResources(TradeExecutionContext<T>& trade_ctx) {
-  std::set<Trader*>::iterator it;
-  for (it = trade_ctx.requesters.begin(); it != trade_ctx.requesters.end();
-       ++it) {
+  std::vector<Trader*>::iterator it;
+  for (it = trade_ctx.requester_order.begin();
+       it != trade_ctx.requester_order.end(); ++it) {
     Trader* requester = *it;
     AcceptTrades(requester, trade_ctx.trades_by_requester[requester]);
   }
-- 
2.43.0


From 93a61849c4b28dd7c1cb511fc087fbc1f885a598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:40 +0000
Subject: [PATCH 62/79] fix: keep bids in the order in which they were made

---
 src/bid_portfolio.h       | 16 ++++++++++++++--
 src/exchange_context.h    |  4 ++--
 src/exchange_translator.h | 10 +++++-----
 3 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/bid_portfolio.h b/src/bid_portfolio.h
index 855c74b..034a138 100644
--- a/src/bid_portfolio.h
+++ b/src/bid_portfolio.h
@@ -4,6 +4,7 @@
 #include <set>
 #include <sstream>
 #include <string>
+#include <vector>
 
 #include <boost/shared_ptr.hpp>
 
@@ -58,9 +59,10 @@ class BidPortfolio : public boost::enable_shared_from_this<BidPortfolio<T>> {
     Bid<T>* b = Bid<T>::Create(request, offer, bidder, this->shared_from_this(),
                                exclusive, preference);
     VerifyResponder_(b);
-    if (offer->quantity() > 0)
+    if (offer->quantity() > 0) {
       bids_.insert(b);
-    else {
+      ordered_bids_.push_back(b);
+    } else {
       std::stringstream ss;
       ss << GetTraderPrototype(bidder) << " from " << GetTraderSpec(bidder)
          << " is offering a bid quantity <= 0, Q = " << offer->quantity();
@@ -98,6 +100,11 @@ class BidPortfolio : public boost::enable_shared_from_this<BidPortfolio<T>> {
   /// @return const access to the bids
   inline const std::set<Bid<T>*>& bids() const { return bids_; }
 
+  /// @return the bids in the order in which they were added
+  inline const std::vector<Bid<T>*>& ordered_bids() const {
+    return ordered_bids_;
+  }
+
   /// @return the set of constraints over the bids
   inline const std::set<CapacityConstraint<T>>& constraints() const {
     return constraints_;
@@ -109,6 +116,7 @@ class BidPortfolio : public boost::enable_shared_from_this<BidPortfolio<T>> {
   BidPortfolio(const BidPortfolio& rhs) {
     bidder_ = rhs.bidder_;
     bids_ = rhs.bids_;
+    ordered_bids_ = rhs.ordered_bids_;
     constraints_ = rhs.constraints_;
     typename std::set<Bid<T>*>::iterator it;
     for (it = bids_.begin(); it != bids_.end(); ++it) {
@@ -137,6 +145,10 @@ class BidPortfolio : public boost::enable_shared_from_this<BidPortfolio<T>> {
   // bid and a request, i.e., bids are unique
   std::set<Bid<T>*> bids_;
 
+  // the same bids in the order in which they were added; the order of their
+  // addresses can differ between two runs of the same simulation
+  std::vector<Bid<T>*> ordered_bids_;
+
   // constraints_ is a set because constraints are assumed to be unique
   std::set<CapacityConstraint<T>> constraints_;
 
diff --git a/src/exchange_context.h b/src/exchange_context.h
index a876ed1..e6707ea 100644
--- a/src/exchange_context.h
+++ b/src/exchange_context.h
@@ -71,8 +71,8 @@ struct ExchangeContext {
   /// @brief adds a bid to the context
   void AddBidPortfolio(const typename BidPortfolio<T>::Ptr port) {
     bids.push_back(port);
-    const std::set<Bid<T>*>& vr = port->bids();
-    typename std::set<Bid<T>*>::const_iterator it;
+    const std::vector<Bid<T>*>& vr = port->ordered_bids();
+    typename std::vector<Bid<T>*>::const_iterator it;
 
     for (it = vr.begin(); it != vr.end(); ++it) {
       Bid<T>* pb = *it;
diff --git a/src/exchange_translator.h b/src/exchange_translator.h
index a4ed768..000e590 100644
--- a/src/exchange_translator.h
+++ b/src/exchange_translator.h
@@ -64,8 +64,8 @@ class ExchangeTranslator {
       graph->AddSupplyGroup(ns);
 
       // add each request-bid arc
-      const std::set<Bid<T>*>& bids = (*bp_it)->bids();
-      typename std::set<Bid<T>*>::const_iterator b_it;
+      const std::vector<Bid<T>*>& bids = (*bp_it)->ordered_bids();
+      typename std::vector<Bid<T>*>::const_iterator b_it;
       for (b_it = bids.begin(); b_it != bids.end(); ++b_it) {
         Bid<T>* bid = *b_it;
         Request<T>* req = bid->request();
@@ -191,9 +191,9 @@ ExchangeNodeGroup::Ptr TranslateBidPortfolio(
 
   std::map<typename T::Ptr, std::vector<ExchangeNode::Ptr> > excl_bid_grps;
 
-  typename std::set<Bid<T>*>::const_iterator b_it;
-  for (b_it = bp->bids().begin();
-       b_it != bp->bids().end();
+  typename std::vector<Bid<T>*>::const_iterator b_it;
+  for (b_it = bp->ordered_bids().begin();
+       b_it != bp->ordered_bids().end();
        ++b_it) {
     Bid<T>* b = *b_it;
     ExchangeNode::Ptr n(
-- 
2.43.0


From 8be217ac808db7f1577a323ab85e4c550115a742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:40 +0000
Subject: [PATCH 63/79] fix: ask traders to adjust preferences in the order of
 their agents

---
 src/resource_exchange.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/resource_exchange.h b/src/resource_exchange.h
index 7495bed..1056e65 100644
--- a/src/resource_exchange.h
+++ b/src/resource_exchange.h
@@ -96,7 +96,8 @@ class ResourceExchange {
   /// @brief adjust preferences for requests given bid responses
   void AdjustAll() {
     InitTraders();
-    std::set<Trader*> traders = ex_ctx_.requesters;
+    std::set<Trader*, trader_compare> traders(ex_ctx_.requesters.begin(),
+                                              ex_ctx_.requesters.end());
     std::for_each(
         traders.begin(),
         traders.end(),
-- 
2.43.0


From 6759ba10300a948f84f028288341675791e65a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:21 +0000
Subject: [PATCH 64/79] fix: restarting from the command line

---
 cli/cyclus.cc   | 23 +++++++++++++----------
 src/sim_init.cc |  2 +-
 2 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/cli/cyclus.cc b/cli/cyclus.cc
index 6f93583..a642a2d 100644
--- a/cli/cyclus.cc
+++ b/cli/cyclus.cc
@@ -140,14 +140,17 @@ int main(int argc, char* argv[]) {
   bdel.Add(fback);
 
   // Try to detect schema type
-  std::stringstream input;
-  LoadStringstreamFromFile(input, infile, format);
-  boost::shared_ptr<XMLParser> parser =
-      boost::shared_ptr<XMLParser>(new XMLParser());
-  parser->Init(input);
-  InfileTree tree(*parser);
-  std::string schema_type =
-      OptionalQuery<std::string>(&tree, "/simulation/schematype", "");
+  std::string schema_type;
+  if (ai.restart == "") {
+    std::stringstream input;
+    LoadStringstreamFromFile(input, infile, format);
+    boost::shared_ptr<XMLParser> parser =
+        boost::shared_ptr<XMLParser>(new XMLParser());
+    parser->Init(input);
+    InfileTree tree(*parser);
+    schema_type =
+        OptionalQuery<std::string>(&tree, "/simulation/schematype", "");
+  }
   if (schema_type == "flat" && !ai.flat_schema) {
     std::cout << "flat schema tag detected - switching to flat input schema\n";
     ai.flat_schema = true;
@@ -159,7 +162,7 @@ int main(int argc, char* argv[]) {
   SimInit si;
   if (ai.restart == "") {
     // Read input file and initialize db and simulation from input file
-    bool ms_print;
+    bool ms_print = false;
     if(ai.vm.count("rng-print") >= 1){
       ms_print = true;
     }
@@ -223,7 +226,7 @@ int main(int argc, char* argv[]) {
     }
   }
 
-  rec.Flush();
+  si.recorder()->Flush();
 
   PyStop();
 
diff --git a/src/sim_init.cc b/src/sim_init.cc
index bd39aa3..fe1579a 100644
--- a/src/sim_init.cc
+++ b/src/sim_init.cc
@@ -27,7 +27,7 @@ void SimInit::Init(Recorder* r, QueryableBackend* b) {
   Recorder tmprec;
   rec_ = &tmprec;  // use dummy recorder to avoid re-recording
   InitBase(b, r->sim_id(), 0);
-  ctx_->rec_ = r;  // switch back before running sim
+  rec_ = ctx_->rec_ = r;  // switch back before running sim
 }
 
 void SimInit::Restart(QueryableBackend* b, boost::uuids::uuid sim_id, int t) {
-- 
2.43.0


From 8620652f7aa7e902e5af98dfbc9a4a7efff78ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:34 +0000
Subject: [PATCH 65/79] fix: sinks and k-facilities that asked for more than
 fits in their inventory

---
 agents/k_facility.cc | 5 +++--
 agents/sink.cc       | 6 ++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/agents/k_facility.cc b/agents/k_facility.cc
index 77a0e1a..f9f45c8 100644
--- a/agents/k_facility.cc
+++ b/agents/k_facility.cc
@@ -1,6 +1,7 @@
 #include "k_facility.h"
 
 #include <limits>
+#include <algorithm>
 #include <sstream>
 
 namespace cyclus {
@@ -148,7 +149,7 @@ KFacility::GetMatlRequests() {
 
   std::set<RequestPortfolio<Material>::Ptr> ports;
   RequestPortfolio<Material>::Ptr port(new RequestPortfolio<Material>());
-  double amt = RequestAmt();
+  double amt = std::min(RequestAmt(), std::max(0.0, inventory.space()));
   Material::Ptr mat = cyclus::NewBlankMaterial(amt);
 
   if (amt > cyclus::eps()) {
@@ -173,7 +174,7 @@ KFacility::GetProductRequests() {
 
   std::set<RequestPortfolio<Product>::Ptr> ports;
   RequestPortfolio<Product>::Ptr port(new RequestPortfolio<Product>());
-  double amt = RequestAmt();
+  double amt = std::min(RequestAmt(), std::max(0.0, inventory.space()));
 
   if (amt > cyclus::eps()) {
     CapacityConstraint<Product> cc(amt);
diff --git a/agents/sink.cc b/agents/sink.cc
index 31534cd..0071abb 100644
--- a/agents/sink.cc
+++ b/agents/sink.cc
@@ -1,5 +1,7 @@
 #include "sink.h"
 
+#include <algorithm>
+
 namespace cyclus {
 
 Sink::Sink(cyclus::Context* ctx)
@@ -20,7 +22,7 @@ Sink::GetMatlRequests() {
 
   std::set<RequestPortfolio<Material>::Ptr> ports;
   RequestPortfolio<Material>::Ptr port(new RequestPortfolio<Material>());
-  double amt = Capacity();
+  double amt = std::min(Capacity(), std::max(0.0, inventory.space()));
 
   Material::Ptr mat = cyclus::NewBlankMaterial(amt);
   if (!recipe_name.empty()) {
@@ -53,7 +55,7 @@ Sink::GetProductRequests() {
   std::set<RequestPortfolio<Product>::Ptr> ports;
   RequestPortfolio<Product>::Ptr
       port(new RequestPortfolio<Product>());
-  double amt = Capacity();
+  double amt = std::min(Capacity(), std::max(0.0, inventory.space()));
 
   if (amt > cyclus::eps()) {
     CapacityConstraint<Product> cc(amt);
-- 
2.43.0


From f17370e1248615ca37208db488a7835b89658cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:41 +0000
Subject: [PATCH 66/79] fix: sinks that took their capacity of every one of
 several commodities

---
 agents/sink.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/agents/sink.cc b/agents/sink.cc
index 0071abb..2d36559 100644
--- a/agents/sink.cc
+++ b/agents/sink.cc
@@ -34,10 +34,13 @@ Sink::GetMatlRequests() {
     CapacityConstraint<Material> cc(amt);
     port->AddConstraint(cc);
 
+    // any of the commodities will do
+    std::vector<Request<Material>*> mutuals;
     std::vector<std::string>::const_iterator it;
     for (it = in_commods.begin(); it != in_commods.end(); ++it) {
-      port->AddRequest(mat, this, *it);
+      mutuals.push_back(port->AddRequest(mat, this, *it));
     }
+    port->AddMutualReqs(mutuals);
 
     ports.insert(port);
   }  // if amt > eps
@@ -61,12 +64,15 @@ Sink::GetProductRequests() {
     CapacityConstraint<Product> cc(amt);
     port->AddConstraint(cc);
 
+    // any of the commodities will do
+    std::vector<Request<Product>*> mutuals;
     std::vector<std::string>::const_iterator it;
     for (it = in_commods.begin(); it != in_commods.end(); ++it) {
       std::string quality = "";  // not clear what this should be..
       Product::Ptr rsrc = Product::CreateUntracked(amt, quality);
-      port->AddRequest(rsrc, this, *it);
+      mutuals.push_back(port->AddRequest(rsrc, this, *it));
     }
+    port->AddMutualReqs(mutuals);
 
     ports.insert(port);
   }  // if amt > eps
-- 
2.43.0


From 14d4c28dee93820154562a7dbbf2716897364f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:43:03 +0000
Subject: [PATCH 67/79] fix: printing an agent's descendants recursed for ever

GetTreePrintOuts(m) walked the children of the agent it was called on
instead of those of m.
---
 src/agent.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/agent.cc b/src/agent.cc
index 83e38ec..930b642 100644
--- a/src/agent.cc
+++ b/src/agent.cc
@@ -213,7 +213,7 @@ std::vector<std::string> Agent::GetTreePrintOuts(Agent* m) {
   ss << m->prototype() << std::endl;
   ret.push_back(ss.str());
   std::set<Agent*>::iterator it;
-  for (it = children_.begin(); it != children_.end(); ++it) {
+  for (it = m->children_.begin(); it != m->children_.end(); ++it) {
     Agent* child = *it;
     std::vector<std::string> outs = GetTreePrintOuts(child);
     for (int j = 0; j < outs.size(); j++) {
-- 
2.43.0


From 8fd1dc3c65967055120c3ce5a3067c295c8b1cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:27 +0000
Subject: [PATCH 68/79] fix: repeated elements lost one when XML was converted
 to JSON and the first was empty

---
 src/toolkit/infile_converters.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/toolkit/infile_converters.cc b/src/toolkit/infile_converters.cc
index 82a6dfd..072189d 100644
--- a/src/toolkit/infile_converters.cc
+++ b/src/toolkit/infile_converters.cc
@@ -143,7 +143,8 @@ void JsonInsertOrAppend(Json::Value& node, std::string key, Json::Value& val) {
   using std::string;
   using Json::Value;
   if (node.isMember(key)) {
-    if (node[key].isArray()) {
+    // isArray() also holds for null values, i.e., for a first empty element
+    if (node[key].isArray() && !node[key].isNull()) {
       node[key].append(val);
     } else {
       Value keynode = node[key];
-- 
2.43.0


From 201eebb9cb3072343a3eb2625ac166b57df778e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:21:13 +0000
Subject: [PATCH 69/79] fix: texts after empty elements gained white space when
 JSON was converted to XML

---
 src/toolkit/infile_converters.cc | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/toolkit/infile_converters.cc b/src/toolkit/infile_converters.cc
index 072189d..aa79573 100644
--- a/src/toolkit/infile_converters.cc
+++ b/src/toolkit/infile_converters.cc
@@ -51,12 +51,17 @@ std::string DoubleToString(double x) {
   return ss.str();
 }
 
+// whether a value has elements of its own, isObject() and isArray() also hold
+// for null values
+bool IsNested(const Json::Value& val) {
+  return !val.isNull() && (val.isObject() || val.isArray());
+}
+
 void AddJsonToXml(Json::Value& node, std::stringstream& ss,
                   std::string parent_name, std::string indent) {
   using std::string;
   using Json::Value;
   if (node.isObject()) {
-    bool indent_child;
     string name;
     string newindent = indent + "  ";
     Value::Members members = node.getMemberNames();
@@ -68,14 +73,15 @@ void AddJsonToXml(Json::Value& node, std::stringstream& ss,
       }
       if (node[name].isArray() && node[name].size() == 0)
         continue;
-      indent_child = node[name].isObject();
-      if (!indent_child && node[name].isArray())
-        indent_child = node[name][0].isObject() || node[name][0].isArray();
+      // arrays are written as repeated elements, of which the first is opened
+      // and the last is closed here
+      const Value& val = node[name];
+      bool is_array = val.isArray();
       ss << indent << "<" << name << ">";
-      if (indent_child)
+      if (IsNested(is_array ? val[0] : val))
         ss << "\n";
       AddJsonToXml(node[name], ss, name, newindent);
-      if (indent_child)
+      if (IsNested(is_array ? val[val.size() - 1] : val))
         ss << indent;
       ss << "</" << name << ">\n";
     }
@@ -85,7 +91,7 @@ void AddJsonToXml(Json::Value& node, std::stringstream& ss,
     indent = indent.substr(0, indent.size() - 2);
     int nchildren = node.size();
     for (int n = 0; n < nchildren; ++n) {
-      indent_child = node[n].isObject() || node[n].isArray();
+      indent_child = IsNested(node[n]);
       if (n > 0) {
         ss << indent << "<" << parent_name << ">";
         if (indent_child)
-- 
2.43.0


From 61a01d075f6d0aa19a5c4622bf7bbbdb0fa386e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:17 +0000
Subject: [PATCH 70/79] fix: an in-memory backend that stopped storing all
 tables kept the old ones

---
 cyclus/memback.pyx | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/cyclus/memback.pyx b/cyclus/memback.pyx
index 3c6106d..5875730 100644
--- a/cyclus/memback.pyx
+++ b/cyclus/memback.pyx
@@ -243,13 +243,12 @@ cdef class _MemBack(lib._FullBackend):
         else:
             if not isinstance(val, Set):
                 val = frozenset(val)
-            old = self.registry
             cpp_ptx.registry = std_set_std_string_to_cpp(val)
             cpp_ptx.store_all_tables = False
             self._registry = None
-            # find keys in the old registry but not in the new one and
-            # also in the current cache. Then remove them.
-            dirty_keys = frozenset(cache.keys()) & (old - val)
+            # find keys in the current cache but not in the new registry.
+            # Then remove them.
+            dirty_keys = frozenset(cache.keys()) - val
             for key in dirty_keys:
                 del cache[key]
 
-- 
2.43.0


From 3e69b472f5dfb8f36da9e6f499a6130ca3b5980e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:17 +0000
Subject: [PATCH 71/79] fix: fields named like val0 were mixed up with the
 values of conditions on in-memory tables

---
 cyclus/memback.pyx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cyclus/memback.pyx b/cyclus/memback.pyx
index 5875730..8cc5985 100644
--- a/cyclus/memback.pyx
+++ b/cyclus/memback.pyx
@@ -263,7 +263,7 @@ cdef class _MemBack(lib._FullBackend):
             key += field + op  # the value doesn't affect the key since it is loaded.
             if field not in ctx:
                 ctx[field] = df[field]
-            ctx['val' + str(i)] = val
+            ctx[self._val_name(i)] = val
         qccache = self._query_code_cache
         if key in qccache:
             code = qccache[key]
@@ -277,6 +277,10 @@ cdef class _MemBack(lib._FullBackend):
         res = df[mask]
         return res
 
+    def _val_name(self, i):
+        """Name of the value of the i-th condition, which no field has."""
+        return '<val' + str(i) + '>'
+
     def _compile_conds(self, conds):
         """Compiles conditions into a code object."""
         tree = Expression(body=self._parse_conds(conds))
@@ -288,7 +292,7 @@ cdef class _MemBack(lib._FullBackend):
         cond0 & cond1 & cond2, etc.
         """
         for i, (field, op, _) in enumerate(conds):
-            cond_tree = self._parse_cond(field, op, 'val' + str(i))
+            cond_tree = self._parse_cond(field, op, self._val_name(i))
             if i == 0:
                 tree = cond_tree
             else:
-- 
2.43.0


From 6e40a4f36b21fb5de9b0e7b9779b54315ea0c587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:26:51 +0000
Subject: [PATCH 72/79] fix: backends in Python did not list tables created
 after the first look

---
 cyclus/lib.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cyclus/lib.pyx b/cyclus/lib.pyx
index 4aaaf25..ce26fc5 100644
--- a/cyclus/lib.pyx
+++ b/cyclus/lib.pyx
@@ -271,8 +271,8 @@ cdef class _FullBackend:
             tab = deref(it)
             tabs.add(tab.decode())
             inc(it)
-        self._tables = tabs
-        return self._tables
+        # not kept, since recording may add tables
+        return tabs
 
     @tables.setter
     def tables(self, value):
-- 
2.43.0


From abdf6c4b93ad885c5fc1f98534cb08dd182af86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:27:39 +0000
Subject: [PATCH 73/79] fix: queries of in-memory tables failed for an empty
 list of conditions

---
 cyclus/memback.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cyclus/memback.pyx b/cyclus/memback.pyx
index 8cc5985..5d7363e 100644
--- a/cyclus/memback.pyx
+++ b/cyclus/memback.pyx
@@ -257,6 +257,8 @@ cdef class _MemBack(lib._FullBackend):
     #
     def _apply_conds(self, df, conds):
         """Applies the condition query to data frame."""
+        if len(conds) == 0:
+            return df
         key = ''
         ctx = {'__builtins__': None}
         for i, (field, op, val) in enumerate(conds):
-- 
2.43.0


From b175b04cf296ddd732e1eaf3903fef3bdc840acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:32 +0000
Subject: [PATCH 74/79] fix: Python archetypes were not told of the building
 and decommissioning of their children

---
 cyclus/agents.pxd | 16 ++++++++--------
 cyclus/agents.pyx | 16 ++++++++--------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/cyclus/agents.pxd b/cyclus/agents.pxd
index 4c161cc..7fcc4ed 100644
--- a/cyclus/agents.pxd
+++ b/cyclus/agents.pxd
@@ -29,8 +29,8 @@ cdef cppclass CyclusAgentShim "CyclusAgentShim" (cpp_cyclus.Agent):  # C++CONSTR
     cpp_jsoncpp.Value annotations() except *
     void Build(cpp_cyclus.Agent*) except *
     void EnterNotify() except *
-    void BuildNotify() except *
-    void DecomNotify() except *
+    void BuildNotify(cpp_cyclus.Agent* m) except *
+    void DecomNotify(cpp_cyclus.Agent* m) except *
     void AdjustMatlPrefs(cpp_cyclus.PrefMap[cpp_cyclus.Material].type&) except *
     void AdjustProductPrefs(cpp_cyclus.PrefMap[cpp_cyclus.Product].type&) except *
     # Extra interface
@@ -55,8 +55,8 @@ cdef cppclass CyclusRegionShim "CyclusRegionShim" (cpp_cyclus.Region):  # C++CON
     cpp_jsoncpp.Value annotations() except *
     void Build(cpp_cyclus.Agent*) except *
     void EnterNotify() except *
-    void BuildNotify() except *
-    void DecomNotify() except *
+    void BuildNotify(cpp_cyclus.Agent* m) except *
+    void DecomNotify(cpp_cyclus.Agent* m) except *
     void AdjustMatlPrefs(cpp_cyclus.PrefMap[cpp_cyclus.Material].type&) except *
     void AdjustProductPrefs(cpp_cyclus.PrefMap[cpp_cyclus.Product].type&) except *
     void Tick() except *
@@ -85,8 +85,8 @@ cdef cppclass CyclusInstitutionShim "CyclusInstitutionShim" (cpp_cyclus.Institut
     cpp_jsoncpp.Value annotations() except *
     void Build(cpp_cyclus.Agent*) except *
     void EnterNotify() except *
-    void BuildNotify() except *
-    void DecomNotify() except *
+    void BuildNotify(cpp_cyclus.Agent* m) except *
+    void DecomNotify(cpp_cyclus.Agent* m) except *
     void AdjustMatlPrefs(cpp_cyclus.PrefMap[cpp_cyclus.Material].type&) except *
     void AdjustProductPrefs(cpp_cyclus.PrefMap[cpp_cyclus.Product].type&) except *
     void Tick() except *
@@ -115,8 +115,8 @@ cdef cppclass CyclusFacilityShim "CyclusFacilityShim" (cpp_cyclus.Facility):  #
     cpp_jsoncpp.Value annotations() except *
     void Build(cpp_cyclus.Agent*) except *
     void EnterNotify() except *
-    void BuildNotify() except *
-    void DecomNotify() except *
+    void BuildNotify(cpp_cyclus.Agent* m) except *
+    void DecomNotify(cpp_cyclus.Agent* m) except *
     void AdjustMatlPrefs(cpp_cyclus.PrefMap[cpp_cyclus.Material].type&) except *
     void AdjustProductPrefs(cpp_cyclus.PrefMap[cpp_cyclus.Product].type&) except *
     void Tick() except *
diff --git a/cyclus/agents.pyx b/cyclus/agents.pyx
index dffb055..76c1545 100644
--- a/cyclus/agents.pyx
+++ b/cyclus/agents.pyx
@@ -129,10 +129,10 @@ cdef cppclass CyclusAgentShim "CyclusAgentShim" (cpp_cyclus.Agent):
         cpp_cyclus.Agent.EnterNotify()
         (<object> this.self).enter_notify()
 
-    void BuildNotify() except *:
+    void BuildNotify(cpp_cyclus.Agent* m) except *:
         (<object> this.self).build_notify()
 
-    void DecomNotify() except *:
+    void DecomNotify(cpp_cyclus.Agent* m) except *:
         (<object> this.self).decom_notify()
 
     void AdjustMatlPrefs(cpp_cyclus.PrefMap[cpp_cyclus.Material].type& prefs) except *:
@@ -253,10 +253,10 @@ cdef cppclass CyclusRegionShim "CyclusRegionShim" (cpp_cyclus.Region):
         cpp_cyclus.Region.Region_EnterNotify()
         (<object> this.self).enter_notify()
 
-    void BuildNotify() except *:
+    void BuildNotify(cpp_cyclus.Agent* m) except *:
         (<object> this.self).build_notify()
 
-    void DecomNotify() except *:
+    void DecomNotify(cpp_cyclus.Agent* m) except *:
         (<object> this.self).decom_notify()
 
     void AdjustMatlPrefs(cpp_cyclus.PrefMap[cpp_cyclus.Material].type& prefs) except *:
@@ -389,10 +389,10 @@ cdef cppclass CyclusInstitutionShim "CyclusInstitutionShim" (cpp_cyclus.Institut
         cpp_cyclus.Institution.Institution_EnterNotify()
         (<object> this.self).enter_notify()
 
-    void BuildNotify() except *:
+    void BuildNotify(cpp_cyclus.Agent* m) except *:
         (<object> this.self).build_notify()
 
-    void DecomNotify() except *:
+    void DecomNotify(cpp_cyclus.Agent* m) except *:
         (<object> this.self).decom_notify()
 
     void AdjustMatlPrefs(cpp_cyclus.PrefMap[cpp_cyclus.Material].type& prefs) except *:
@@ -534,10 +534,10 @@ cdef cppclass CyclusFacilityShim "CyclusFacilityShim" (cpp_cyclus.Facility):
         cpp_cyclus.Facility.Facility_EnterNotify()
         (<object> this.self).enter_notify()
 
-    void BuildNotify() except *:
+    void BuildNotify(cpp_cyclus.Agent* m) except *:
         (<object> this.self).build_notify()
 
-    void DecomNotify() except *:
+    void DecomNotify(cpp_cyclus.Agent* m) except *:
         (<object> this.self).decom_notify()
 
     void AdjustMatlPrefs(cpp_cyclus.PrefMap[cpp_cyclus.Material].type& prefs) except *:
-- 
2.43.0


From 305e8b0e071c441c5fb4c400fd0a5227af18b6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:28 +0000
Subject: [PATCH 75/79] fix: inventories of Python archetypes were lost and
 failed when they were recorded

---
 cyclus/gentypesystem.py | 5 +++--
 cyclus/lib.pyx          | 1 +
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/cyclus/gentypesystem.py b/cyclus/gentypesystem.py
index 0fba046..16b7c5a 100644
--- a/cyclus/gentypesystem.py
+++ b/cyclus/gentypesystem.py
@@ -1386,10 +1386,11 @@ cdef class _{{tclassname}}:
 
     def push_many(self, rs):
         """A consistent interface for pushing many resources into the buffer.
-        For ResBuf, this iteratively calls push().
+        For ResBuf, this iteratively calls Push(). Resources of any kind are
+        taken here, since this is how pop_all_res() returns them.
         """
         for r in rs:
-            self.push(r)
+            self.ptx.Push((<_Resource?> r).ptx)
 
 {% elif ts.norms[t][0] == 'cyclus::toolkit::ResMap' %}
 {% set k = ts.norms[t][1] %}
diff --git a/cyclus/lib.pyx b/cyclus/lib.pyx
index ce26fc5..d77c082 100644
--- a/cyclus/lib.pyx
+++ b/cyclus/lib.pyx
@@ -1289,6 +1289,7 @@ cdef cpp_cyclus.Inventories inventories_to_cpp(object pyinvs):
         value = std_vector[shared_ptr[cpp_cyclus.Resource]]()
         for r in pyvalue:
             value.push_back((<ts._Resource> r).ptx)
+        invs[name] = value
     return invs
 
 
-- 
2.43.0


From 99ca46e6dbd015630f0ce94506bc2ec82fbd2549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:35 +0000
Subject: [PATCH 76/79] fix: nested containers of Python archetypes could not
 be read from input files

---
 cyclus/agents.pyx | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/cyclus/agents.pyx b/cyclus/agents.pyx
index 76c1545..2125a55 100644
--- a/cyclus/agents.pyx
+++ b/cyclus/agents.pyx
@@ -820,7 +820,9 @@ cdef class _Agent(lib._Agent):
                                        'must have a default')
                 var.value = var.default
                 continue
-            query = var.alias if isinstance(var.alias, str) else var.alias[0]
+            query = var.alias
+            while not isinstance(query, str):
+                query = query[0]
             if var.default is not None and sub.nmatches(query) == 0:
                 var.value = var.default
                 continue
@@ -846,7 +848,9 @@ cdef class _Agent(lib._Agent):
             rtn = self._query_infile(tree, path + alias, type, uitype, idx)
         else:
             type0 = type[0]
-            sub = tree.subtree(alias[0], idx)
+            # the element name of maps comes along with the name of the items
+            tag = alias[0] if isinstance(alias[0], str) else alias[0][0]
+            sub = tree.subtree(path + tag, idx)
             if type0 == 'std::vector':
                 rtn = self._vector_from_infile(sub, alias, type, uitype, idx, path)
             elif type0 == 'std::set':
@@ -873,10 +877,12 @@ cdef class _Agent(lib._Agent):
             val = alias[1]
         else:
             val = alias[1][0]
+            if not isinstance(val, str):
+                val = val[0]
         # read in values.
         n = tree.nmatches(val)
         for i in range(n):
-            x = self._read_from_infile(tree, val, type[1], uitype[1], i, path)
+            x = self._read_from_infile(tree, alias[1] or val, type[1], uitype[1], i)
             rtn.append(x)
         return rtn
 
@@ -888,8 +894,8 @@ cdef class _Agent(lib._Agent):
     def _pair_from_infile(self, tree, alias, type, uitype, idx=0, path=''):
         first = 'first' if alias[1] is None else alias[1]
         second = 'second' if alias[2] is None else alias[2]
-        x = self._read_from_infile(tree, first, type[1], uitype[1], idx, path)
-        y = self._read_from_infile(tree, second, type[2], uitype[2], idx, path)
+        x = self._read_from_infile(tree, first, type[1], uitype[1])
+        y = self._read_from_infile(tree, second, type[2], uitype[2])
         return (x, y)
 
     def _map_from_infile(self, tree, alias, type, uitype, idx=0, path=''):
-- 
2.43.0


From b3dd4dc66cb7cf68befbd1ce03cad090376c65d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:54 +0000
Subject: [PATCH 77/79] fix: build orders were lost when the solver returned a
 number just below a whole one

---
 src/toolkit/building_manager.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/toolkit/building_manager.cc b/src/toolkit/building_manager.cc
index ea61643..06a3c91 100644
--- a/src/toolkit/building_manager.cc
+++ b/src/toolkit/building_manager.cc
@@ -1,5 +1,7 @@
 #include "building_manager.h"
 
+#include <cmath>
+
 #include "prog_translator.h"
 #include "CoinPackedVector.hpp"
 
@@ -81,7 +83,8 @@ void BuildingManager::Solve_(OsiCbcSolverInterface& iface,
   CommodityProducer* p;
   Builder* b;
   for (int i = 0; i != nvar; i++) {
-    n = static_cast<int>(sol[i]);
+    // the solver meets integrality up to a tolerance only
+    n = static_cast<int>(std::floor(sol[i] + 0.5));
     if (n > 0) {
       p = idx_to_p[i];
       b = p_to_b[p];
-- 
2.43.0


From f3b49c441bc4ce1410e2e67588c9249934058587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:04 +0000
Subject: [PATCH 78/79] fix: products of matrices with unequal numbers of rows
 and columns were wrong

---
 src/l_matrix.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/l_matrix.cc b/src/l_matrix.cc
index eda54f8..dbcae42 100644
--- a/src/l_matrix.cc
+++ b/src/l_matrix.cc
@@ -191,7 +191,7 @@ const LMatrix& LMatrix::operator*=(const LMatrix& rhs) {
 
         // sums the product of the row vector from A and the column vector
         // from B using the formula aij = ai1*b1j + ai2*b2j + ...
-        for (int k = 0; k < rows_; k++) {
+        for (int k = 0; k < cols_; k++) {
           aij = aij + M_[i][k] * rhs.M_[k][j];
         }
 
-- 
2.43.0


From 21d3fd532ffd1c6c920a82b2beee04af25be9c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:05 +0000
Subject: [PATCH 79/79] fix: agent specs made of their parts had no alias by
 default

---
 src/dynamic_module.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamic_module.cc b/src/dynamic_module.cc
index aa01528..cc84082 100644
--- a/src/dynamic_module.cc
+++ b/src/dynamic_module.cc
@@ -27,7 +27,7 @@ AgentSpec::AgentSpec(std::string path, std::string lib, std::string agent,
     lib_ = agent_;
   }
   if (alias_ == "") {
-    alias = agent_;
+    alias_ = agent_;
   }
 }
 
-- 
2.43.0

