From 1b8900aa8ed03e427241fcf8674a6f8bc74f06fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:57 +0000
Subject: [PATCH 01/13] fix: sum the values, not the key, of duplicate keys in
 SparseVector(vector)

---
 src/lib/sparse-map.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/sparse-map.cc b/src/lib/sparse-map.cc
index 8c97133..594394a 100644
--- a/src/lib/sparse-map.cc
+++ b/src/lib/sparse-map.cc
@@ -124,7 +124,7 @@ SparseVector::SparseVector(const std::vector<SparsePair> & vec) : impl_(vec) {
     SparseVectorImpl::iterator itl = impl_.begin(), itr = impl_.begin()+1;
     while(itr != impl_.end()) {
         if(itl->first == itr->first) {
-            itl->second += itr->first;
+            itl->second += itr->second;
         } else {
             itl++;
             *itl = *itr;
-- 
2.43.0


From b69e274798006affadbb8d51aa79713e32ec2cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:04 +0000
Subject: [PATCH 02/13] fix: negate right-hand entries absent from the left in
 SparseVector operator-=

---
 src/lib/sparse-map.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib/sparse-map.cc b/src/lib/sparse-map.cc
index 594394a..7b36992 100644
--- a/src/lib/sparse-map.cc
+++ b/src/lib/sparse-map.cc
@@ -214,7 +214,8 @@ SparseVector & operator-=(SparseVector & lhs, const SparseVector & rhs) {
     SparseVector::SparseVectorImpl & impl = lhs.GetImpl();
     while(itr != rhs.end()) {
         if(itl == lhs.end()) {
-            impl.insert(itl, itr, rhs.end());
+            for(; itr != rhs.end(); itr++)
+                impl.push_back(make_pair(itr->first, -itr->second));
             break;
         } else if(itl->first == itr->first) {
             itl->second -= itr->second;
@@ -222,7 +223,7 @@ SparseVector & operator-=(SparseVector & lhs, const SparseVector & rhs) {
         } else if(itl->first < itr->first) {
             itl++;
         } else {
-            itl = impl.insert(itl, *itr);
+            itl = impl.insert(itl, make_pair(itr->first, -itr->second));
             itr++;
         }
     }
-- 
2.43.0


From 25a9cfa9dc68674ffd7f533a4abcb1622ebfdf32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:54 +0000
Subject: [PATCH 03/13] fix: forward reference initialisation and cache
 clearing to interpolated measures

---
 src/include/travatar/eval-measure-adv-interp.h |  6 ++++++
 src/include/travatar/eval-measure-interp.h     |  6 ++++++
 src/lib/eval-measure-adv-interp.cc             | 14 ++++++++++++++
 src/lib/eval-measure-interp.cc                 | 14 ++++++++++++++
 4 files changed, 40 insertions(+)

diff --git a/src/include/travatar/eval-measure-adv-interp.h b/src/include/travatar/eval-measure-adv-interp.h
index 6b764bd..55323e0 100644
--- a/src/include/travatar/eval-measure-adv-interp.h
+++ b/src/include/travatar/eval-measure-adv-interp.h
@@ -52,6 +52,9 @@ public:
     EvalMeasureAdvInterp(const std::string & str);
     virtual ~EvalMeasureAdvInterp() { }
 
+    // Initialize with reference
+    virtual void InitializeWithReferences(const std::vector< std::vector<Sentence> > & refs);
+
     // Calculate the stats for a single sentence
     virtual boost::shared_ptr<EvalStats> CalculateStats(
                 const Sentence & ref,
@@ -71,6 +74,9 @@ public:
     virtual EvalStatsPtr ReadStats(
                 const std::string & file);
 
+    // Clear the cache
+    virtual void ClearCache();
+
 protected:
     std::vector<boost::shared_ptr<EvalMeasure> > measures_;
     std::vector<WordId> vars_;
diff --git a/src/include/travatar/eval-measure-interp.h b/src/include/travatar/eval-measure-interp.h
index 86139e2..05ebd72 100644
--- a/src/include/travatar/eval-measure-interp.h
+++ b/src/include/travatar/eval-measure-interp.h
@@ -52,6 +52,9 @@ public:
     EvalMeasureInterp(const std::string & str);
     virtual ~EvalMeasureInterp() { }
 
+    // Initialize with reference
+    virtual void InitializeWithReferences(const std::vector< std::vector<Sentence> > & refs);
+
     // Calculate the stats for a single sentence
     virtual boost::shared_ptr<EvalStats> CalculateStats(
                 const Sentence & ref,
@@ -71,6 +74,9 @@ public:
     virtual EvalStatsPtr ReadStats(
                 const std::string & file);
 
+    // Clear the cache
+    virtual void ClearCache();
+
 protected:
     std::vector<boost::shared_ptr<EvalMeasure> > measures_;
     std::vector<Real> coeffs_;
diff --git a/src/lib/eval-measure-adv-interp.cc b/src/lib/eval-measure-adv-interp.cc
index 272bc0d..0f4d48a 100644
--- a/src/lib/eval-measure-adv-interp.cc
+++ b/src/lib/eval-measure-adv-interp.cc
@@ -68,6 +68,20 @@ EvalStatsPtr EvalStatsAdvInterp::Clone() const {
     return EvalStatsPtr(new EvalStatsAdvInterp(newstats, vars_, query_));
 }
 
+// Initialize all the measures with the references
+void EvalMeasureAdvInterp::InitializeWithReferences(const std::vector< std::vector<Sentence> > & refs) {
+    typedef boost::shared_ptr<EvalMeasure> EvalMeasPtr;
+    BOOST_FOREACH(const EvalMeasPtr & meas, measures_)
+        meas->InitializeWithReferences(refs);
+}
+
+// Clear the caches of all the measures
+void EvalMeasureAdvInterp::ClearCache() {
+    typedef boost::shared_ptr<EvalMeasure> EvalMeasPtr;
+    BOOST_FOREACH(const EvalMeasPtr & meas, measures_)
+        meas->ClearCache();
+}
+
 // Measure the score of the sys output according to the ref
 EvalStatsPtr EvalMeasureAdvInterp::CalculateStats(const Sentence & ref, const Sentence & sys) const {
     // Calculate all the stats independently and add them
diff --git a/src/lib/eval-measure-interp.cc b/src/lib/eval-measure-interp.cc
index 5087c82..3fcdef6 100644
--- a/src/lib/eval-measure-interp.cc
+++ b/src/lib/eval-measure-interp.cc
@@ -68,6 +68,20 @@ EvalStatsPtr EvalStatsInterp::Clone() const {
     return EvalStatsPtr(new EvalStatsInterp(newstats, coeffs_));
 }
 
+// Initialize all the measures with the references
+void EvalMeasureInterp::InitializeWithReferences(const std::vector< std::vector<Sentence> > & refs) {
+    typedef boost::shared_ptr<EvalMeasure> EvalMeasPtr;
+    BOOST_FOREACH(const EvalMeasPtr & meas, measures_)
+        meas->InitializeWithReferences(refs);
+}
+
+// Clear the caches of all the measures
+void EvalMeasureInterp::ClearCache() {
+    typedef boost::shared_ptr<EvalMeasure> EvalMeasPtr;
+    BOOST_FOREACH(const EvalMeasPtr & meas, measures_)
+        meas->ClearCache();
+}
+
 // Measure the score of the sys output according to the ref
 EvalStatsPtr EvalMeasureInterp::CalculateStats(const Sentence & ref, const Sentence & sys) const {
     // Calculate all the stats independently and add them
-- 
2.43.0


From eb763d9f80b4e68177a6c763a70e8c1d6ae0957d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:08 +0000
Subject: [PATCH 04/13] fix: scale every component in PlusEqualsTimes of
 interpolated statistics

---
 src/include/travatar/eval-measure-adv-interp.h | 1 +
 src/include/travatar/eval-measure-interp.h     | 1 +
 src/lib/eval-measure-adv-interp.cc             | 8 ++++++++
 src/lib/eval-measure-interp.cc                 | 8 ++++++++
 4 files changed, 18 insertions(+)

diff --git a/src/include/travatar/eval-measure-adv-interp.h b/src/include/travatar/eval-measure-adv-interp.h
index 55323e0..d5d092b 100644
--- a/src/include/travatar/eval-measure-adv-interp.h
+++ b/src/include/travatar/eval-measure-adv-interp.h
@@ -28,6 +28,7 @@ public:
     // Check if the value is zero
     virtual bool IsZero();
     virtual EvalStats & PlusEquals(const EvalStats & rhs);
+    virtual EvalStats & PlusEqualsTimes(const EvalStats & rhs, Real p);
     virtual EvalStats & TimesEquals(EvalStatsDataType mult);
     virtual bool Equals(const EvalStats & rhs) const;
 
diff --git a/src/include/travatar/eval-measure-interp.h b/src/include/travatar/eval-measure-interp.h
index 05ebd72..aaa6e94 100644
--- a/src/include/travatar/eval-measure-interp.h
+++ b/src/include/travatar/eval-measure-interp.h
@@ -29,6 +29,7 @@ public:
     // Check if the value is zero
     virtual bool IsZero();
     virtual EvalStats & PlusEquals(const EvalStats & rhs);
+    virtual EvalStats & PlusEqualsTimes(const EvalStats & rhs, Real p);
     virtual EvalStats & TimesEquals(EvalStatsDataType mult);
     virtual bool Equals(const EvalStats & rhs) const;
 
diff --git a/src/lib/eval-measure-adv-interp.cc b/src/lib/eval-measure-adv-interp.cc
index 0f4d48a..cb48b81 100644
--- a/src/lib/eval-measure-adv-interp.cc
+++ b/src/lib/eval-measure-adv-interp.cc
@@ -46,6 +46,14 @@ EvalStats & EvalStatsAdvInterp::PlusEquals(const EvalStats & rhs) {
         stats_[i]->PlusEquals(*rhsi.stats_[i]);
     return *this;
 }
+EvalStats & EvalStatsAdvInterp::PlusEqualsTimes(const EvalStats & rhs, Real p) {
+    const EvalStatsAdvInterp & rhsi = (const EvalStatsAdvInterp &)rhs;
+    if(stats_.size() != rhsi.stats_.size())
+        THROW_ERROR("Interpreted eval measure sizes don't match");
+    for(int i = 0; i < (int)stats_.size(); i++)
+        stats_[i]->PlusEqualsTimes(*rhsi.stats_[i], p);
+    return *this;
+}
 EvalStats & EvalStatsAdvInterp::TimesEquals(EvalStatsDataType mult) {
     for(int i = 0; i < (int)stats_.size(); i++)
         stats_[i]->TimesEquals(mult);
diff --git a/src/lib/eval-measure-interp.cc b/src/lib/eval-measure-interp.cc
index 3fcdef6..c8f9248 100644
--- a/src/lib/eval-measure-interp.cc
+++ b/src/lib/eval-measure-interp.cc
@@ -46,6 +46,14 @@ EvalStats & EvalStatsInterp::PlusEquals(const EvalStats & rhs) {
         stats_[i]->PlusEquals(*rhsi.stats_[i]);
     return *this;
 }
+EvalStats & EvalStatsInterp::PlusEqualsTimes(const EvalStats & rhs, Real p) {
+    const EvalStatsInterp & rhsi = (const EvalStatsInterp &)rhs;
+    if(stats_.size() != rhsi.stats_.size())
+        THROW_ERROR("Interpreted eval measure sizes don't match");
+    for(int i = 0; i < (int)stats_.size(); i++)
+        stats_[i]->PlusEqualsTimes(*rhsi.stats_[i], p);
+    return *this;
+}
 EvalStats & EvalStatsInterp::TimesEquals(EvalStatsDataType mult) {
     for(int i = 0; i < (int)stats_.size(); i++)
         stats_[i]->TimesEquals(mult);
-- 
2.43.0


From 86f09e1e7462a3aedcd00f7a16a8d5b1a77a7c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:10 +0000
Subject: [PATCH 05/13] fix: score an order without reference n-grams as zero
 in recall-weighted BLEU instead of NaN

---
 src/lib/eval-measure-bleu.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/eval-measure-bleu.cc b/src/lib/eval-measure-bleu.cc
index c0716d9..3f50da3 100644
--- a/src/lib/eval-measure-bleu.cc
+++ b/src/lib/eval-measure-bleu.cc
@@ -113,7 +113,8 @@ BleuReport EvalStatsBleu::CalcBleuReport() const {
         Real sys = (vals_[3*i+1]+smooth);
         Real ref = (vals_[3*i+2]+smooth);
         
-        Real fmeas = (sys == 0 ? 0 : mat / (prec_weight_ * sys + (1-prec_weight_) * ref));
+        Real denom = prec_weight_ * sys + (1-prec_weight_) * ref;
+        Real fmeas = (denom == 0 ? 0 : mat / denom);
         // To support PINC
         if (inverse_)
             fmeas = 1.0 - fmeas;
-- 
2.43.0


From 96b5b80f786b2c22f04704d9119a02097f6fb733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:10 +0000
Subject: [PATCH 06/13] fix: score an order without system n-grams as zero in
 NIST instead of NaN

---
 src/lib/eval-measure-nist.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/eval-measure-nist.cc b/src/lib/eval-measure-nist.cc
index 5b56928..cf8b0cd 100644
--- a/src/lib/eval-measure-nist.cc
+++ b/src/lib/eval-measure-nist.cc
@@ -98,7 +98,7 @@ NistReport EvalStatsNist::CalcNistReport() const {
     // Calculate the precision for each order
     report.nist = 0.0;
     for (int i=0; i < ngram_order; i++) {
-        Real score = vals_[2*i]/vals_[2*i+1];
+        Real score = (vals_[2*i+1] == 0 ? 0 : vals_[2*i]/vals_[2*i+1]);
         report.scores.push_back(score);
         report.nist += score;
     }
-- 
2.43.0


From c5c00eff61b9c4b5c452ced7494c59d966b1aacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:18 +0000
Subject: [PATCH 07/13] fix: let RIBES use contexts reaching the sentence
 boundary

---
 src/lib/eval-measure-ribes.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/eval-measure-ribes.cc b/src/lib/eval-measure-ribes.cc
index ad8fd4e..eca8dc7 100644
--- a/src/lib/eval-measure-ribes.cc
+++ b/src/lib/eval-measure-ribes.cc
@@ -52,7 +52,7 @@ boost::shared_ptr<EvalStats> EvalMeasureRibes::CalculateStats(const Sentence & r
             // These vectors store all hypotheses that are still matching on the right or left
             vector<int> left_ref = ref_match, left_sys = sys_match,
                         right_ref = ref_match, right_sys = sys_match;
-            for(int window = 1; window < max(i, (int)sys.size()-i); window++) {
+            for(int window = 1; window <= max(i, (int)sys.size()-i); window++) {
                 // Update the possible hypotheses on the left
                 if(window <= i) {
                     vector<int> new_left_ref, new_left_sys;
-- 
2.43.0


From da1a3dc54fa93b28da1bca5214485dcf2b043046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:39 +0000
Subject: [PATCH 08/13] fix: greedy MERT reports the score of the final weights
 instead of dereferencing a null result

---
 src/lib/tune-greedy-mert.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/tune-greedy-mert.cc b/src/lib/tune-greedy-mert.cc
index 9f2d1d4..f8db90e 100644
--- a/src/lib/tune-greedy-mert.cc
+++ b/src/lib/tune-greedy-mert.cc
@@ -115,7 +115,8 @@ Real TuneGreedyMert::RunTuning(SparseMap & weights) {
     do {
         result = TuneOnce(weights);
     } while(result.gain > gain_threshold_);
-    return result.after->ConvertToScore();
+    // The last iteration found no improvement, so measure the score of the final weights
+    return TuneMert::LineSearch(weights, SparseMap(), examps_).before->ConvertToScore();
 }
 
 Real TuneGreedyMert::GetBestGain() { return best_result_.gain; }
-- 
2.43.0


From dfaf6337591848e430da952bdfb6c6ec990c6eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:05 +0000
Subject: [PATCH 09/13] fix: AddLogProbs must subtract the maximum of all
 values, not of the first and last

With scores {0, 1000, 0} exp(1000) overflowed and the sum became infinite.
---
 src/include/travatar/softmax.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/include/travatar/softmax.h b/src/include/travatar/softmax.h
index f9f15f0..6ec376b 100644
--- a/src/include/travatar/softmax.h
+++ b/src/include/travatar/softmax.h
@@ -9,8 +9,9 @@ namespace travatar {
 inline Real AddLogProbs(const std::vector<Real> & probs) {
     if(probs.size() == 0)
         return -REAL_MAX;
-    const unsigned size = probs.size();
-    Real myMax = std::max(probs[0],probs[size-1]), norm=0;
+    Real myMax = probs[0], norm=0;
+    for(unsigned i = 1; i < probs.size(); i++)
+        myMax = std::max(myMax, probs[i]);
     for(unsigned i = 0; i < probs.size(); i++)
         norm += exp(probs[i]-myMax);
     return log(norm)+myMax;
-- 
2.43.0


From fe3f1ba3c27646854d4ecff36bad2b5eca87de30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:00 +0000
Subject: [PATCH 10/13] fix: do not list a derivation twice in an n-best list
 when its score was accumulated in two orders

---
 src/include/travatar/hyper-graph.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/include/travatar/hyper-graph.h b/src/include/travatar/hyper-graph.h
index 600a7f4..511d285 100644
--- a/src/include/travatar/hyper-graph.h
+++ b/src/include/travatar/hyper-graph.h
@@ -338,7 +338,12 @@ public:
 
     typedef std::set<boost::shared_ptr<NbestStackItem>, StackScoreMore> NbestStateStack;
 
-    void PushStack(const boost::shared_ptr<NbestStackItem> & item) { stack.insert(item); }
+    // The same item can be reached in several ways with scores that differ by
+    // rounding, so items are recognized by their contents and not by their score
+    void PushStack(const boost::shared_ptr<NbestStackItem> & item) {
+        if(pushed.insert(std::make_pair(item->edge_rank, item->child_ranks)).second)
+            stack.insert(item);
+    }
     boost::shared_ptr<NbestStackItem> PopStack() {
         NbestStateStack::iterator beg = stack.begin();
         boost::shared_ptr<NbestStackItem> ret = *beg;
@@ -348,6 +353,7 @@ public:
 
     std::vector<NbestEdge> edges;
     NbestStateStack stack;
+    std::set<std::pair<int, std::vector<int> > > pushed;
     std::vector<boost::shared_ptr<HyperPath> > paths;
     std::set<CfgDataVector> uniq_sents;
 
-- 
2.43.0


From 4a69ae67060cf67f057c42d8be9895b20d6a0b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:01 +0000
Subject: [PATCH 11/13] fix: unique n-best lists compare the words of the
 target sides only

---
 src/lib/hyper-graph.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/hyper-graph.cc b/src/lib/hyper-graph.cc
index ba937f5..ef5f52c 100644
--- a/src/lib/hyper-graph.cc
+++ b/src/lib/hyper-graph.cc
@@ -343,6 +343,9 @@ boost::shared_ptr<HyperPath> HyperGraph::NbestGetNthPath(int node, int rank, boo
         // Check whether to add it or not
         if(uniq) {
             CfgDataVector trg = act_path->CalcTranslations();
+            // Only the target words count, not how they were built
+            BOOST_FOREACH(CfgData & data, trg)
+                data.syms.clear();
             if(state->uniq_sents.find(trg) == state->uniq_sents.end()) {
                 state->uniq_sents.insert(trg);
                 state->paths.push_back(act_path);
-- 
2.43.0


From 1edf39723414822192f9286ba4dacb956f6e8399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:20 +0000
Subject: [PATCH 12/13] fix: number the variables of an extracted rule in
 source order, so source and target sides agree

---
 src/lib/forest-extractor.cc | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/lib/forest-extractor.cc b/src/lib/forest-extractor.cc
index d06175b..9e423c5 100644
--- a/src/lib/forest-extractor.cc
+++ b/src/lib/forest-extractor.cc
@@ -61,6 +61,13 @@ HyperGraph* ForestExtractor::ExtractMinimalRules(
             else {
                 // Get the next node to process and remove it from the stack
                 HyperNode* u = frag_front.second.front(); frag_front.second.pop_front();
+                // Other frontier nodes become variables. They are added in the order
+                // in which they appear in the source side of the rule
+                if(u != v && u->IsFrontier() == HyperNode::IS_FRONTIER) {
+                    frag_front.first->AddTail(ret->GetNode(old_new_ids[u->GetId()]));
+                    open.push(frag_front);
+                    continue;
+                }
                 // If it has no edges, push back onto the stack and continue
                 if(u->GetEdges().size() == 0) {
                     open.push(frag_front);
@@ -74,13 +81,8 @@ HyperGraph* ForestExtractor::ExtractMinimalRules(
                     // in ascending order
                     deque<HyperNode*> new_front;
                     RuleEdge * new_frag(new RuleEdge(*frag_front.first));
-                    BOOST_FOREACH(HyperNode* t, e->GetTails()) {
-                        // If this is not a frontier node, push it on the queue
-                        if(t->IsFrontier() != HyperNode::IS_FRONTIER)
-                            new_front.push_back(t);
-                        else
-                            new_frag->AddTail(ret->GetNode(old_new_ids[t->GetId()]));
-                    }
+                    BOOST_FOREACH(HyperNode* t, e->GetTails())
+                        new_front.push_back(t);
                     BOOST_FOREACH(HyperNode * stack_node, frag_front.second)
                         new_front.push_back(stack_node);
                     // Push this on to the queue
-- 
2.43.0


From 2e144f84203940225138116e7b5bbac2f7262cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:51 +0000
Subject: [PATCH 13/13] fix: do not extract Hiero phrase pairs without any
 alignment link

---
 src/lib/hiero-extractor.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/hiero-extractor.cc b/src/lib/hiero-extractor.cc
index 506e4b4..bb6ed42 100644
--- a/src/lib/hiero-extractor.cc
+++ b/src/lib/hiero-extractor.cc
@@ -140,6 +140,8 @@ HieroExtractor::PhrasePairs HieroExtractor::ExtractPhrase(const SourceAlignment
                 BOOST_FOREACH(int _t, s2t[s_end])
                     tp[_t]++;
             }
+            // A phrase pair must contain at least one alignment link
+            if (tp.size() == 0) continue;
             int t_begin = MapMinKey(tp);
             int t_end = MapMaxKey(tp);
             if (QuasiConsecutive(t_begin,t_end,tp,t2s)) {
-- 
2.43.0

