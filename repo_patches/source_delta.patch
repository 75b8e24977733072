From 7e71e5108dfca97a3561537bb620647ce92c8267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:11 +0000
Subject: [PATCH 01/17] fix: order ME samples by length when one's features are
 a prefix of the other's

---
 utils/maxent.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/maxent.h b/utils/maxent.h
index 74d13a6..94ede38 100644
--- a/utils/maxent.h
+++ b/utils/maxent.h
@@ -201,7 +201,7 @@ class ME_Model {
         if (v0 < v1) return true;
         if (v0 > v1) return false;
       }
-      return false;
+      return positive_features.size() < x.positive_features.size();
     }
   };
 
-- 
2.43.0


From 7f189b078bfcbb73c4c873146a4c40768b0ff5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:46 +0000
Subject: [PATCH 02/17] fix: KLM left-state equality and order must see the
 full flag of empty states, as the hash does

---
 klm/lm/state.hh | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/klm/lm/state.hh b/klm/lm/state.hh
index f6c51d6..41b5703 100644
--- a/klm/lm/state.hh
+++ b/klm/lm/state.hh
@@ -56,16 +56,17 @@ inline uint64_t hash_value(const State &state, uint64_t seed = 0) {
 struct Left {
   bool operator==(const Left &other) const {
     return 
-      length == other.length &&
-      (!length || (pointers[length - 1] == other.pointers[length - 1] && full == other.full));
+      length == other.length && full == other.full &&
+      (!length || pointers[length - 1] == other.pointers[length - 1]);
   }
 
   int Compare(const Left &other) const {
     if (length < other.length) return -1;
     if (length > other.length) return 1;
-    if (length == 0) return 0; // Must be full.
-    if (pointers[length - 1] > other.pointers[length - 1]) return 1;
-    if (pointers[length - 1] < other.pointers[length - 1]) return -1;
+    if (length != 0) {
+      if (pointers[length - 1] > other.pointers[length - 1]) return 1;
+      if (pointers[length - 1] < other.pointers[length - 1]) return -1;
+    }
     return (int)full - (int)other.full;
   }
 
-- 
2.43.0


From 68a6e36ca0eca655202b7e8aa6d0682075b6e7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:46 +0000
Subject: [PATCH 03/17] fix: hash training candidates by the rounded feature
 values their equality compares

---
 training/utils/candidate_set.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/training/utils/candidate_set.cc b/training/utils/candidate_set.cc
index 36f5b27..1c1d4a1 100644
--- a/training/utils/candidate_set.cc
+++ b/training/utils/candidate_set.cc
@@ -42,7 +42,7 @@ struct ApproxVectorHasher {
     size_t h = 0x573915839;
     for (SparseVector<double>::const_iterator it = x.begin(); it != x.end(); ++it) {
       UType t;
-      t.f = it->second;
+      t.f = round(it->second);
       if (t.f) {
         size_t z = (t.i >> 32);
         boost::hash_combine(h, it->first);
-- 
2.43.0


From 2e0304c7b84ffa372233239aea5728d136c38f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:09 +0000
Subject: [PATCH 04/17] fix: read the key count of a hashed weights file into
 an object of its own size

---
 utils/weights.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/weights.cc b/utils/weights.cc
index 7d5d96d..54b3c5a 100644
--- a/utils/weights.cc
+++ b/utils/weights.cc
@@ -74,8 +74,8 @@ void Weights::InitFromFile(const string& filename,
   } else {   // !read_text
     char buf[6];
     in.read(buf, 5);
-    int num_keys;
-    in.read(reinterpret_cast<char*>(&num_keys), sizeof(size_t));
+    size_t num_keys;
+    in.read(reinterpret_cast<char*>(&num_keys), sizeof(num_keys));
     if (num_keys != FD::NumFeats()) {
       cerr << "Hash function reports " << FD::NumFeats() << " keys but weights file contains " << num_keys << endl;
       abort();
-- 
2.43.0


From 02cf8cf58aaaec74d5301425ea8ff20976f1dd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:09 +0000
Subject: [PATCH 05/17] fix: do not cut error-surface statistics longer than
 255 bytes short

---
 training/dpmert/error_surface.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/training/dpmert/error_surface.cc b/training/dpmert/error_surface.cc
index 515b67f..b2acce8 100644
--- a/training/dpmert/error_surface.cc
+++ b/training/dpmert/error_surface.cc
@@ -16,7 +16,7 @@ void ErrorSurface::Serialize(std::string* out) const {
     string senc;
     cur.delta.Encode(&senc);
     assert(senc.size() < 1024);
-    unsigned char len = senc.size();
+    unsigned short len = senc.size();
     os.write((const char*)&cur.x, sizeof(cur.x));
     os.write((const char*)&len, sizeof(len));
     os.write((const char*)&senc[0], len);
@@ -31,7 +31,7 @@ void ErrorSurface::Deserialize(const std::string& in) {
   this->resize(segments);
   for (int i = 0; i < segments; ++i) {
     ErrorSegment& cur = (*this)[i];
-    unsigned char len;
+    unsigned short len;
     is.read((char*)&cur.x, sizeof(cur.x));
     is.read((char*)&len, sizeof(len));
     string senc(len, '\0'); assert(senc.size() == len);
-- 
2.43.0


From 771b0694bcb5b1468b2a9572081483696509e9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:29 +0000
Subject: [PATCH 06/17] fix: renumber nodes of a forest subset from the source
 node, initialise and swap edges_topo_

---
 decoder/hg.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/decoder/hg.h b/decoder/hg.h
index c756012..d2a5f56 100644
--- a/decoder/hg.h
+++ b/decoder/hg.h
@@ -186,7 +186,7 @@ namespace HG {
     }
     void copy_reindex(Node const& o,indices_after const& n2,indices_after const& e2) {
       copy_fixed(o);
-      id_=n2[id_];
+      id_=n2[o.id_];
       e2.reindex_push_back(o.in_edges_,in_edges_);
       e2.reindex_push_back(o.out_edges_,out_edges_);
     }
@@ -200,7 +200,7 @@ typedef boost::shared_ptr<Hypergraph> HypergraphP;
 //  - edges have 1 head, 0..n tails
 class Hypergraph {
 public:
-  Hypergraph() : is_linear_chain_(false) {}
+  Hypergraph() : is_linear_chain_(false), edges_topo_(true) {}
   typedef HG::Node Node;
   typedef HG::Edge Edge;
   typedef SmallVectorUnsigned TailNodeVector; // indices in nodes_
@@ -285,6 +285,7 @@ public:
   void swap(Hypergraph& other) {
     other.nodes_.swap(nodes_);
     std::swap(is_linear_chain_, other.is_linear_chain_);
+    std::swap(edges_topo_, other.edges_topo_);
     other.edges_.swap(edges_);
   }
   friend inline void swap(Hypergraph &a,Hypergraph &b) {
-- 
2.43.0


From 806c3b06f5f2ac8a7696188f64620f7103bdfa09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:09 +0000
Subject: [PATCH 07/17] fix: forest union and refinement keep spans, hashes,
 categories and flags of what they copy

---
 decoder/hg.cc              | 13 ++++++++++---
 decoder/hg_union.cc        |  6 +++++-
 decoder/scfg_translator.cc |  2 ++
 3 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/decoder/hg.cc b/decoder/hg.cc
index 46543b0..fe0c681 100644
--- a/decoder/hg.cc
+++ b/decoder/hg.cc
@@ -411,7 +411,14 @@ void Hypergraph::PrintGraphviz() const {
 
 void Hypergraph::Union(const Hypergraph& other) {
   if (&other == this) return;
-  if (nodes_.empty()) { nodes_ = other.nodes_; edges_ = other.edges_; return; }
+  if (nodes_.empty()) {
+    nodes_ = other.nodes_;
+    edges_ = other.edges_;
+    is_linear_chain_ = other.is_linear_chain_;
+    edges_topo_ = other.edges_topo_;
+    return;
+  }
+  is_linear_chain_ = false;
   unsigned noff = nodes_.size();
   unsigned eoff = edges_.size();
   int ogoal = other.nodes_.size() - 1;
@@ -424,6 +431,7 @@ void Hypergraph::Union(const Hypergraph& other) {
   for (int i = 0; i < ogoal; ++i) {
     const Node& on = other.nodes_[i];
     Node& cn = nodes_[i + noff];
+    cn.copy_fixed(on);
     cn.id_ = i + noff;
     cn.in_edges_.resize(on.in_edges_.size());
     for (unsigned j = 0; j < on.in_edges_.size(); ++j)
@@ -438,8 +446,7 @@ void Hypergraph::Union(const Hypergraph& other) {
     const Edge& oe = other.edges_[i];
     Edge& ce = edges_[i + eoff];
     ce.id_ = i + eoff;
-    ce.rule_ = oe.rule_;
-    ce.feature_values_ = oe.feature_values_;
+    ce.copy_fixed(oe);
     if (oe.head_node_ == ogoal) {
       ce.head_node_ = cgoal;
       nodes_[cgoal].in_edges_.push_back(ce.id_);
diff --git a/decoder/hg_union.cc b/decoder/hg_union.cc
index da9f262..b85ca57 100644
--- a/decoder/hg_union.cc
+++ b/decoder/hg_union.cc
@@ -33,7 +33,10 @@ void Union(const Hypergraph& in, Hypergraph* out) {
   if (&in == out) return;
   if (out->nodes_.empty()) {
     out->nodes_ = in.nodes_;
-    out->edges_ = in.edges_; return;
+    out->edges_ = in.edges_;
+    out->is_linear_chain_ = in.is_linear_chain_;
+    out->edges_topo_ = in.edges_topo_;
+    return;
   }
   if (!in.AreNodesUniquelyIdentified()) {
     cerr << "Union: Nodes are not uniquely identified in input!\n";
@@ -48,6 +51,7 @@ void Union(const Hypergraph& in, Hypergraph* out) {
     abort();
   }
   const int cgoal = out->nodes_.back().id_;
+  out->is_linear_chain_ = false;
 
   unordered_map<size_t, unsigned> h2n;
   for (const auto& node : out->nodes_)
diff --git a/decoder/scfg_translator.cc b/decoder/scfg_translator.cc
index 9831a3c..f72504f 100644
--- a/decoder/scfg_translator.cc
+++ b/decoder/scfg_translator.cc
@@ -309,6 +309,8 @@ struct SCFGTranslatorImpl {
             Hypergraph::Edge* new_edge = refined_forest.AddEdge(fine_rule_ptr, tail);
             new_edge->i_ = edge.i_;
             new_edge->j_ = edge.j_;
+            new_edge->prev_i_ = edge.prev_i_;
+            new_edge->prev_j_ = edge.prev_j_;
             new_edge->feature_values_ = fine_rule_ptr->GetFeatureValues();
             new_edge->feature_values_.set_value(FD::Convert("LatticeCost"),
               edge.feature_values_.value(FD::Convert("LatticeCost")));
-- 
2.43.0


From a1f21de197d56c6a4f88be770ea2b119eaf7e7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:34 +0000
Subject: [PATCH 08/17] fix: locals read before being set (sentence id, minimum
 distances, left counts)

---
 decoder/ff_const_reorder_common.h | 2 +-
 decoder/ff_parse_match.cc         | 2 +-
 decoder/ff_soft_syntax_mindist.cc | 2 +-
 training/rampion/rampion_cccp.cc  | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/decoder/ff_const_reorder_common.h b/decoder/ff_const_reorder_common.h
index 755fd94..404cb83 100644
--- a/decoder/ff_const_reorder_common.h
+++ b/decoder/ff_const_reorder_common.h
@@ -438,7 +438,7 @@ struct SParsedTree {
     char *p;
     int I;
 
-    int iLeftNum, iRightNum;
+    int iLeftNum = 0, iRightNum = 0;
     char *pszTmp, *pszTerm;
     pszTmp = new char[strlen(pszSyn)];
     pszTerm = new char[strlen(pszSyn)];
diff --git a/decoder/ff_parse_match.cc b/decoder/ff_parse_match.cc
index 5802697..5e38f9c 100644
--- a/decoder/ff_parse_match.cc
+++ b/decoder/ff_parse_match.cc
@@ -108,7 +108,7 @@ struct ParseMatchFeaturesImpl {
     //cerr << "span: " << i << " " << j << endl;
     const WordID lhs = src_tree(i,j);
     int fid_ef = FD::Convert("PM");
-    int min_dist; // minimal distance to next syntactic constituent of this rule's LHS
+    int min_dist = 1; // minimal distance to next syntactic constituent of this rule's LHS
     int summed_min_dists; // minimal distances of LHS and NTs summed up
     if (TD::Convert(lhs).compare("XX") != 0)
         min_dist= 0;
diff --git a/decoder/ff_soft_syntax_mindist.cc b/decoder/ff_soft_syntax_mindist.cc
index a23f70f..9201321 100644
--- a/decoder/ff_soft_syntax_mindist.cc
+++ b/decoder/ff_soft_syntax_mindist.cc
@@ -102,7 +102,7 @@ struct SoftSyntaxFeaturesMindistImpl {
 	  //cerr << "RULE :"<< rule << endl;
     int& fid_ef = fids_ef(i,j)[&rule];
     string lhs_to_str = TD::Convert(lhs);
-    int min_dist;
+    int min_dist = 1;
     string min_dist_label;
     if (lhs_to_str.compare("XX") != 0) {
       min_dist = 0;
diff --git a/training/rampion/rampion_cccp.cc b/training/rampion/rampion_cccp.cc
index 1c45bac..dd67bef 100644
--- a/training/rampion/rampion_cccp.cc
+++ b/training/rampion/rampion_cccp.cc
@@ -122,6 +122,7 @@ int main(int argc, char** argv) {
   while(getline(in, line)) {
     istringstream is(line);
     int sent_id;
+    is >> file >> sent_id;
     kis.resize(kis.size() + 1);
     training::CandidateSet& curkbest = kis.back();
     string kbest_file;
@@ -132,7 +133,6 @@ int main(int argc, char** argv) {
       if (FileExists(kbest_file))
         curkbest.ReadFromFile(kbest_file);
     }
-    is >> file >> sent_id;
     ReadFile rf(file);
     if (kis.size() % 5 == 0) { cerr << '.'; }
     if (kis.size() % 200 == 0) { cerr << " [" << kis.size() << "]\n"; }
-- 
2.43.0


From 67a6210ca2a6504909a9c8cd6c55b1b463669aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:34 +0000
Subject: [PATCH 09/17] fix: scalar members left uninitialised by constructors

---
 decoder/hg.h                      | 6 +++---
 decoder/sentence_metadata.h       | 5 ++++-
 decoder/tree2string_translator.cc | 3 ++-
 decoder/tree_fragment.cc          | 2 +-
 decoder/tree_fragment.h           | 2 +-
 decoder/trule.h                   | 6 +++---
 training/dpmert/mert_geometry.cc  | 2 +-
 7 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/decoder/hg.h b/decoder/hg.h
index d2a5f56..f9d1173 100644
--- a/decoder/hg.h
+++ b/decoder/hg.h
@@ -46,10 +46,10 @@ enum {
 namespace HG {
 
   struct Edge {
-    Edge() : i_(-1), j_(-1), prev_i_(-1), prev_j_(-1) {}
-    Edge(int id,Edge const& copy_pod_from) : id_(id) { copy_pod(copy_pod_from); } // call copy_features yourself later.
+    Edge() : head_node_(-1), id_(-1), i_(-1), j_(-1), prev_i_(-1), prev_j_(-1) {}
+    Edge(int id,Edge const& copy_pod_from) : head_node_(-1), id_(id) { copy_pod(copy_pod_from); } // call copy_features yourself later.
     Edge(int id,Edge const& copy_from,TailNodeVector const& tail) // fully inits - probably more expensive when push_back(Edge(...)) than sett
-      : tail_nodes_(tail),id_(id) { copy_pod(copy_from);copy_features(copy_from); }
+      : head_node_(-1),tail_nodes_(tail),id_(id) { copy_pod(copy_from);copy_features(copy_from); }
     inline int Arity() const { return tail_nodes_.size(); }
     int head_node_;               // refers to a position in nodes_
     TailNodeVector tail_nodes_;   // contents refer to positions in nodes_
diff --git a/decoder/sentence_metadata.h b/decoder/sentence_metadata.h
index 27fcac3..f2ad7ee 100644
--- a/decoder/sentence_metadata.h
+++ b/decoder/sentence_metadata.h
@@ -24,7 +24,10 @@ class SentenceMetadata {
     has_reference_(ref.size() > 0),
     trg_len_(ref.size()),
     ref_(has_reference_ ? &ref : NULL),
-    input_type_(cdec::kUNKNOWN) {}
+    input_type_(cdec::kUNKNOWN),
+    doc_len(0),
+    ds(NULL),
+    app_score(NULL) {}
 
   // helper function for lattice inputs
   void ComputeInputLatticeType() {
diff --git a/decoder/tree2string_translator.cc b/decoder/tree2string_translator.cc
index cdd83ff..3e661cd 100644
--- a/decoder/tree2string_translator.cc
+++ b/decoder/tree2string_translator.cc
@@ -159,7 +159,8 @@ struct Tree2StringTranslatorImpl {
   Tree2StringTranslatorImpl(const boost::program_options::variables_map& conf,
                             bool has_multiple_states) :
       add_pass_through_rules(conf.count("add_pass_through_rules")),
-      has_multiple_states(has_multiple_states) {
+      has_multiple_states(has_multiple_states),
+      remove_grammars(0) {
     if (conf.count("grammar")) {
       const vector<string> gf = conf["grammar"].as<vector<string>>();
       root.resize(gf.size());
diff --git a/decoder/tree_fragment.cc b/decoder/tree_fragment.cc
index ff406ad..70038c7 100644
--- a/decoder/tree_fragment.cc
+++ b/decoder/tree_fragment.cc
@@ -8,7 +8,7 @@ using namespace std;
 
 namespace cdec {
 
-TreeFragment::TreeFragment(const StringPiece& tree, bool allow_frontier_sites) {
+TreeFragment::TreeFragment(const StringPiece& tree, bool allow_frontier_sites) : root(), frontier_sites(), terminals() {
   int bal = 0;
   const unsigned len = tree.size();
   unsigned cur = 0;
diff --git a/decoder/tree_fragment.h b/decoder/tree_fragment.h
index e19b79f..75ebd16 100644
--- a/decoder/tree_fragment.h
+++ b/decoder/tree_fragment.h
@@ -53,7 +53,7 @@ struct TreeFragmentProduction {
 // productions can have mixtures of terminals and nonterminal symbols and non-terminal frontier sites
 class TreeFragment {
  public:
-  TreeFragment() : frontier_sites(), terminals() {}
+  TreeFragment() : root(), frontier_sites(), terminals() {}
   // (S (NP a (X b) c d) (VP (V foo) (NP (NN bar))))
   explicit TreeFragment(const StringPiece& tree, bool allow_frontier_sites = false);
   void DebugRec(unsigned cur, std::ostream* out) const;
diff --git a/decoder/trule.h b/decoder/trule.h
index dda85ce..89baf8b 100644
--- a/decoder/trule.h
+++ b/decoder/trule.h
@@ -36,7 +36,7 @@ inline std::ostream& operator<<(std::ostream& os, const AlignmentPoint& p) {
 // Translation rule
 class TRule {
  public:
-  TRule() : lhs_(0), prev_i(-1), prev_j(-1) { }
+  TRule() : lhs_(0), arity_(0), prev_i(-1), prev_j(-1) { }
   TRule(WordID lhs, const WordID* src, int src_size, const WordID* trg, int trg_size, const int* feat_ids, const double* feat_vals, int feat_size, int arity, const AlignmentPoint* als, int alsnum) :
       e_(trg, trg + trg_size), f_(src, src + src_size), lhs_(lhs), arity_(arity), prev_i(-1), prev_j(-1),
       a_(als, als + alsnum) {
@@ -49,9 +49,9 @@ class TRule {
 
   bool IsGoal() const;
 
-  explicit TRule(const std::vector<WordID>& e) : e_(e), lhs_(0), prev_i(-1), prev_j(-1) {}
+  explicit TRule(const std::vector<WordID>& e) : e_(e), lhs_(0), arity_(0), prev_i(-1), prev_j(-1) {}
   TRule(const std::vector<WordID>& e, const std::vector<WordID>& f, const WordID& lhs) :
-    e_(e), f_(f), lhs_(lhs), prev_i(-1), prev_j(-1) {}
+    e_(e), f_(f), lhs_(lhs), arity_(0), prev_i(-1), prev_j(-1) {}
 
   TRule(const TRule& other) :
     e_(other.e_), f_(other.f_), lhs_(other.lhs_), scores_(other.scores_), arity_(other.arity_), prev_i(-1), prev_j(-1), a_(other.a_) {}
diff --git a/training/dpmert/mert_geometry.cc b/training/dpmert/mert_geometry.cc
index d697365..7796246 100644
--- a/training/dpmert/mert_geometry.cc
+++ b/training/dpmert/mert_geometry.cc
@@ -5,7 +5,7 @@
 
 using namespace std;
 
-ConvexHull::ConvexHull(int i) {
+ConvexHull::ConvexHull(int i) : is_sorted(true) {
   if (i == 0) {
     // do nothing - <>
   } else if (i == 1) {
-- 
2.43.0


From d2a14ff42362a775fe5ef498b611b36f49c8f043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:54 +0000
Subject: [PATCH 10/17] fix: TERScore::PlusEquals with scale 1 or -1 no longer
 throws after doing its work

---
 mteval/ter.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mteval/ter.cc b/mteval/ter.cc
index 19b90bb..b49e07c 100644
--- a/mteval/ter.cc
+++ b/mteval/ter.cc
@@ -438,9 +438,10 @@ class TERScore : public ScoreBase<TERScore> {
   void PlusEquals(const Score& delta, const float scale) {
     if (scale==1)
       stats += static_cast<const TERScore&>(delta).stats;
-    if (scale==-1)
+    else if (scale==-1)
       stats -= static_cast<const TERScore&>(delta).stats;
-    throw std::runtime_error("TERScore::PlusEquals with scale != +-1");
+    else
+      throw std::runtime_error("TERScore::PlusEquals with scale != +-1");
  }
   void PlusEquals(const Score& delta) {
     stats += static_cast<const TERScore&>(delta).stats;
-- 
2.43.0


From 7de14fd18bd7ca6e4373ff620b97139a312b4183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:59 +0000
Subject: [PATCH 11/17] fix: options consulted under undeclared names or read
 without having been given

---
 decoder/fst_translator.cc                        | 4 ++++
 decoder/lexalign.cc                              | 2 +-
 decoder/lextrans.cc                              | 4 ++++
 decoder/phrasebased_translator.cc                | 4 ++++
 training/const_reorder/argument_reorder_model.cc | 2 +-
 training/crf/mpi_adagrad_optimize.cc             | 6 +++---
 training/crf/mpi_baum_welch.cc                   | 1 +
 training/dtrain/dtrain.cc                        | 8 ++++++++
 training/mira/kbest_cut_mira.cc                  | 2 --
 9 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/decoder/fst_translator.cc b/decoder/fst_translator.cc
index fe28f4c..5a7d63d 100644
--- a/decoder/fst_translator.cc
+++ b/decoder/fst_translator.cc
@@ -19,6 +19,10 @@ struct FSTTranslatorImpl {
       kGOAL_RULE(new TRule("[Goal] ||| [" + goal_sym + ",1] ||| [1]")),
       kGOAL(TD::Convert("Goal") * -1),
       add_pass_through_rules(conf.count("add_pass_through_rules")) {
+    if (!conf.count("grammar")) {
+      cerr << "You must specify a grammar (--grammar)\n";
+      abort();
+    }
     fst.reset(LoadTextPhrasetable(conf["grammar"].as<vector<string> >()));
     ec.reset(new EarleyComposer(fst.get()));
   }
diff --git a/decoder/lexalign.cc b/decoder/lexalign.cc
index dd52931..2ef91da 100644
--- a/decoder/lexalign.cc
+++ b/decoder/lexalign.cc
@@ -12,7 +12,7 @@ using namespace std;
 
 struct LexicalAlignImpl {
   LexicalAlignImpl(const boost::program_options::variables_map& conf) :
-      use_null(conf.count("lexcrf_use_null") > 0),
+      use_null(conf.count("lextrans_use_null") > 0),
       kXCAT(TD::Convert("X")*-1),
       kNULL(TD::Convert("<eps>")),
       kBINARY(new TRule("[X] ||| [X,1] [X,2] ||| [1] [2]")),
diff --git a/decoder/lextrans.cc b/decoder/lextrans.cc
index d13a891..5c52266 100644
--- a/decoder/lextrans.cc
+++ b/decoder/lextrans.cc
@@ -25,6 +25,10 @@ struct LexicalTransImpl {
     if (conf.count("per_sentence_grammar_file")) {
       psg_file_ = new ifstream(conf["per_sentence_grammar_file"].as<string>().c_str());
     }
+    if (!conf.count("grammar")) {
+      cerr << "You must specify a grammar (--grammar)\n";
+      abort();
+    }
     vector<string> gfiles = conf["grammar"].as<vector<string> >();
     assert(gfiles.size() == 1);
     ReadFile rf(gfiles.front());
diff --git a/decoder/phrasebased_translator.cc b/decoder/phrasebased_translator.cc
index 8415353..cbc553e 100644
--- a/decoder/phrasebased_translator.cc
+++ b/decoder/phrasebased_translator.cc
@@ -79,6 +79,10 @@ struct PhraseBasedTranslatorImpl {
       kCONCAT_RULE(new TRule("[X] ||| [X,1] [X,2] ||| [X,1] [X,2]", true)),
       kNT_TYPE(TD::Convert("X") * -1) {
     assert(max_distortion >= 0);
+    if (!conf.count("grammar")) {
+      cerr << "You must specify a grammar (--grammar)\n";
+      abort();
+    }
     vector<string> gfiles = conf["grammar"].as<vector<string> >();
     assert(gfiles.size() == 1);
     cerr << "Reading phrasetable from " << gfiles.front() << endl;
diff --git a/training/const_reorder/argument_reorder_model.cc b/training/const_reorder/argument_reorder_model.cc
index 87f2ce2..16bf6c7 100644
--- a/training/const_reorder/argument_reorder_model.cc
+++ b/training/const_reorder/argument_reorder_model.cc
@@ -287,7 +287,7 @@ int main(int argc, char** argv) {
       !vm.count("source_file") || !vm.count("target_file") ||
       !vm.count("instance_file") || !vm.count("model_prefix")) {
     print_options(cout, opts);
-    if (!vm.count("parse_file")) cout << "--parse_file NOT FOUND\n";
+    if (!vm.count("srl_file")) cout << "--srl_file NOT FOUND\n";
     if (!vm.count("align_file")) cout << "--align_file NOT FOUND\n";
     if (!vm.count("source_file")) cout << "--source_file NOT FOUND\n";
     if (!vm.count("target_file")) cout << "--target_file NOT FOUND\n";
diff --git a/training/crf/mpi_adagrad_optimize.cc b/training/crf/mpi_adagrad_optimize.cc
index bac5732..a55a310 100644
--- a/training/crf/mpi_adagrad_optimize.cc
+++ b/training/crf/mpi_adagrad_optimize.cc
@@ -50,7 +50,7 @@ bool InitCommandLine(int argc, char** argv, po::variables_map* conf) {
         ("random_seed,S", po::value<uint32_t>(), "Random seed")
         ("regularization,r", po::value<string>()->default_value("none"),
             "Regularization 'none', 'l1', or 'l2'")
-        ("regularization_strength,C", po::value<double>(), "Regularization strength")
+        ("regularization_strength,C", po::value<double>()->default_value(0.0), "Regularization strength")
         ("eta,e", po::value<double>()->default_value(1.0), "Initial learning rate (eta)");
   po::options_description clo("Command line options");
   clo.add_options()
@@ -298,8 +298,8 @@ int main(int argc, char** argv) {
 
   // load initial weights
   vector<weight_t> init_weights;
-  if (conf.count("input_weights"))
-    Weights::InitFromFile(conf["input_weights"].as<string>(), &init_weights);
+  if (conf.count("weights"))
+    Weights::InitFromFile(conf["weights"].as<string>(), &init_weights);
 
   vector<string> corpus, test_corpus;
   vector<int> ids;
diff --git a/training/crf/mpi_baum_welch.cc b/training/crf/mpi_baum_welch.cc
index d69b176..350a6eb 100644
--- a/training/crf/mpi_baum_welch.cc
+++ b/training/crf/mpi_baum_welch.cc
@@ -39,6 +39,7 @@ bool InitCommandLine(int argc, char** argv, po::variables_map* conf) {
         ("input_weights,w",po::value<string>(),"Input feature weights file")
         ("iterations,n",po::value<unsigned>()->default_value(50), "Number of training iterations")
         ("training_data,t",po::value<string>(),"Training data")
+        ("test_data,T",po::value<string>(),"(optional) test data")
         ("decoder_config,c",po::value<string>(),"Decoder configuration file");
   po::options_description clo("Command line options");
   clo.add_options()
diff --git a/training/dtrain/dtrain.cc b/training/dtrain/dtrain.cc
index ccb50af..e148c68 100644
--- a/training/dtrain/dtrain.cc
+++ b/training/dtrain/dtrain.cc
@@ -88,6 +88,14 @@ dtrain_init(int argc, char** argv, po::variables_map* cfg)
     cerr << "Provide 'input' and 'refs' or 'bitext', not both." << endl;
     return false;
   }
+  if (cfg->count("bitext")==0 && (cfg->count("input")==0 || cfg->count("refs")==0)) {
+    cerr << "Provide either 'input' and 'refs', or 'bitext'." << endl;
+    return false;
+  }
+  if ((*cfg)["l1_reg"].as<string>() != "none" && cfg->count("l1_reg_strength")==0) {
+    cerr << "'l1_reg' needs 'l1_reg_strength'." << endl;
+    return false;
+  }
   if ((*cfg)["pair_threshold"].as<score_t>() < 0) {
     cerr << "The threshold must be >= 0!" << endl;
     return false;
diff --git a/training/mira/kbest_cut_mira.cc b/training/mira/kbest_cut_mira.cc
index 5d8385c..16a7286 100644
--- a/training/mira/kbest_cut_mira.cc
+++ b/training/mira/kbest_cut_mira.cc
@@ -34,7 +34,6 @@ namespace po = boost::program_options;
 
 bool invert_score;
 boost::shared_ptr<MT19937> rng;
-bool approx_score;
 bool no_reweight;
 bool no_select;
 bool unique_kbest;
@@ -628,7 +627,6 @@ int main(int argc, char** argv) {
   fear_select = conf["fear"].as<int>();
   hope_select = conf["hope"].as<int>();
   mt_metric_scale = conf["mt_metric_scale"].as<double>();
-  approx_score = conf.count("approx_score");
   no_reweight = conf.count("no_reweight");
   no_select = conf.count("no_select");
   update_list_size = conf["update_k_best"].as<int>();
-- 
2.43.0


From 6eaa0121f34fe4eff18566d9e3f13c2f2256213e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:59 +0000
Subject: [PATCH 12/17] fix: n-gram counts of different orders are added over
 what the right side has; missing ME instance file is reported

---
 training/const_reorder/trainer.cc | 4 ++++
 training/dtrain/score.h           | 9 +++++----
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/training/const_reorder/trainer.cc b/training/const_reorder/trainer.cc
index 1d388ee..7cb8d59 100644
--- a/training/const_reorder/trainer.cc
+++ b/training/const_reorder/trainer.cc
@@ -11,6 +11,10 @@ void Tsuruoka_Maxent_Trainer::fnTrain(const char* pszInstanceFName,
   assert(strcmp(pszAlgorithm, "l1") == 0 || strcmp(pszAlgorithm, "l2") == 0 ||
          strcmp(pszAlgorithm, "sgd") == 0 || strcmp(pszAlgorithm, "SGD") == 0);
   FILE* fpIn = fopen(pszInstanceFName, "r");
+  if (fpIn == NULL) {
+    fprintf(stderr, "Failed to open %s\n", pszInstanceFName);
+    exit(1);
+  }
 
   maxent::ME_Model* pModel = new maxent::ME_Model();
 
diff --git a/training/dtrain/score.h b/training/dtrain/score.h
index 1cdd3fa..bd30d9d 100644
--- a/training/dtrain/score.h
+++ b/training/dtrain/score.h
@@ -19,10 +19,11 @@ struct NgramCounts
   operator+=(const NgramCounts& rhs)
   {
     if (rhs.N_ > N_) Resize(rhs.N_);
-    for (unsigned i = 0; i < N_; i++) {
-      this->clipped_[i] += rhs.clipped_.find(i)->second;
-      this->sum_[i] += rhs.sum_.find(i)->second;
-    }
+    map<unsigned, score_t>::const_iterator it;
+    for (it = rhs.clipped_.begin(); it != rhs.clipped_.end(); ++it)
+      this->clipped_[it->first] += it->second;
+    for (it = rhs.sum_.begin(); it != rhs.sum_.end(); ++it)
+      this->sum_[it->first] += it->second;
   }
 
   inline const NgramCounts
-- 
2.43.0


From 9cf4d223d76442b2b4558df51454496405b56753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:45 +0000
Subject: [PATCH 13/17] fix: key the per-span feature caches of the source
 syntax features by the antecedents too

---
 decoder/ff_source_syntax.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/decoder/ff_source_syntax.cc b/decoder/ff_source_syntax.cc
index f6f673d..d2d888a 100644
--- a/decoder/ff_source_syntax.cc
+++ b/decoder/ff_source_syntax.cc
@@ -100,7 +100,7 @@ struct SourceSyntaxFeaturesImpl {
     //cerr << "fire features: " << rule.AsString() << " for " << i << "," << j << endl;
     const WordID lhs = src_tree(i,j);
     //int& fid_cat = fids_cat(i,j);
-    int& fid_ef = fids_ef(i,j)[&rule];
+    int& fid_ef = fids_ef(i,j)[make_pair(&rule, vector<WordID>(ants, ants + rule.Arity()))];
     if (fid_ef <= 0) {
       ostringstream os;
       //ostringstream os2;
@@ -144,7 +144,7 @@ struct SourceSyntaxFeaturesImpl {
 
   Array2D<WordID> src_tree; // src_tree(i,j) NT = type
   // mutable Array2D<int> fids_cat; // this tends to overfit baddly
-  mutable Array2D<map<const TRule*, int> > fids_ef; // fires for fully lexicalized
+  mutable Array2D<map<pair<const TRule*, vector<WordID> >, int> > fids_ef; // fires for fully lexicalized
   unordered_set<int> feature_filter;
 };
 
@@ -189,7 +189,7 @@ struct SourceSpanSizeFeaturesImpl {
 
   int FireFeatures(const TRule& rule, const int i, const int j, const WordID* ants, SparseVector<double>* feats) {
     if (rule.Arity() > 0) {
-      int& fid = fids(i,j)[&rule];
+      int& fid = fids(i,j)[make_pair(&rule, vector<WordID>(ants, ants + rule.Arity()))];
       if (fid <= 0) {
         ostringstream os;
         os << "SSS:";
@@ -220,7 +220,7 @@ struct SourceSpanSizeFeaturesImpl {
     return SpanSizeTransform(j - i);
   }
 
-  mutable Array2D<map<const TRule*, int> > fids;
+  mutable Array2D<map<pair<const TRule*, vector<WordID> >, int> > fids;
 };
 
 SourceSpanSizeFeatures::SourceSpanSizeFeatures(const string& param) :
-- 
2.43.0


From a9c6264e04d49b33b58218087c15e5a7e8643731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:46 +0000
Subject: [PATCH 14/17] fix: NewJump keeps its feature ids per instance (they
 depend on the configuration)

---
 decoder/ff_wordalign.cc | 44 +++++++++++++++++++++--------------------
 decoder/ff_wordalign.h  |  4 ++++
 2 files changed, 27 insertions(+), 21 deletions(-)

diff --git a/decoder/ff_wordalign.cc b/decoder/ff_wordalign.cc
index 5d4c80c..a1e9055 100644
--- a/decoder/ff_wordalign.cc
+++ b/decoder/ff_wordalign.cc
@@ -130,10 +130,31 @@ void LexNullJump::TraversalFeaturesImpl(const SentenceMetadata& smeta,
   }
 }
 
+// <0>=jump size <1>=jump_dir <2>=flen, <3>=elen, <4>=f0, <5>=f-1, <6>=f+1, <7>=fprev
+typedef boost::tuple<short, char, short, short, WordID, WordID, WordID, WordID> NewJumpFeatureKey;
+
+struct KeyHash : unary_function<NewJumpFeatureKey, size_t> {
+  size_t operator()(const NewJumpFeatureKey& k) const {
+    size_t h = 0x37473DEF321;
+    boost::hash_combine(h, k.get<0>());
+    boost::hash_combine(h, k.get<1>());
+    boost::hash_combine(h, k.get<2>());
+    boost::hash_combine(h, k.get<3>());
+    boost::hash_combine(h, k.get<4>());
+    boost::hash_combine(h, k.get<5>());
+    boost::hash_combine(h, k.get<6>());
+    boost::hash_combine(h, k.get<7>());
+    return h;
+  }
+};
+
+struct NewJumpFIDs : std::unordered_map<NewJumpFeatureKey, int, KeyHash> {};
+
 NewJump::NewJump(const string& param) :
     FeatureFunction(1),
     kBOS_(TD::Convert("BOS")),
-    kEOS_(TD::Convert("EOS")) {
+    kEOS_(TD::Convert("EOS")),
+    fids_(new NewJumpFIDs) {
   cerr << "    NewJump";
   vector<string> argv;
   set<string> permitted;
@@ -206,24 +227,6 @@ int BinnedLogLength(int len) {
   return res;
 }
 
-// <0>=jump size <1>=jump_dir <2>=flen, <3>=elen, <4>=f0, <5>=f-1, <6>=f+1, <7>=fprev
-typedef boost::tuple<short, char, short, short, WordID, WordID, WordID, WordID> NewJumpFeatureKey;
-
-struct KeyHash : unary_function<NewJumpFeatureKey, size_t> {
-  size_t operator()(const NewJumpFeatureKey& k) const {
-    size_t h = 0x37473DEF321;
-    boost::hash_combine(h, k.get<0>());
-    boost::hash_combine(h, k.get<1>());
-    boost::hash_combine(h, k.get<2>());
-    boost::hash_combine(h, k.get<3>());
-    boost::hash_combine(h, k.get<4>());
-    boost::hash_combine(h, k.get<5>());
-    boost::hash_combine(h, k.get<6>());
-    boost::hash_combine(h, k.get<7>());
-    return h;
-  }
-};
-
 void NewJump::FireFeature(const SentenceMetadata& smeta,
                           const int prev_src_index,
                           const int cur_src_index,
@@ -252,8 +255,7 @@ void NewJump::FireFeature(const SentenceMetadata& smeta,
   if (fp1_)   get<6>(key) = GetSourceWord(id, cur_src_index + 1);
   if (fprev_) get<7>(key) = GetSourceWord(id, prev_src_index);
 
-  static std::unordered_map<NewJumpFeatureKey, int, KeyHash> fids;
-  int& fid = fids[key];
+  int& fid = (*fids_)[key];
   if (!fid) {
     ostringstream os;
     os << fid_str_ << ':' << jtype << jump_magnitude;
diff --git a/decoder/ff_wordalign.h b/decoder/ff_wordalign.h
index ec45462..d34febd 100644
--- a/decoder/ff_wordalign.h
+++ b/decoder/ff_wordalign.h
@@ -8,6 +8,7 @@
 #include <boost/functional/hash.hpp>
 #include <cassert>
 #include <boost/scoped_ptr.hpp>
+#include <boost/shared_ptr.hpp>
 #include <boost/multi_array.hpp>
 #ifndef HAVE_OLD_CPP
 # include <unordered_map>
@@ -75,6 +76,8 @@ class LexNullJump : public FeatureFunction {
   const int fid_lex_lex_;
 };
 
+struct NewJumpFIDs;
+
 class NewJump : public FeatureFunction {
  public:
   NewJump(const std::string& param);
@@ -110,6 +113,7 @@ class NewJump : public FeatureFunction {
   bool fprev_;
   std::vector<std::vector<WordID> > src_;
   std::string fid_str_;  // identifies configuration uniquely
+  boost::shared_ptr<NewJumpFIDs> fids_;  // ids depend on the configuration
 };
 
 class LexicalTranslationTrigger : public FeatureFunction {
-- 
2.43.0


From 28b23153a955090eb1a2c736f3d1577b7eb124eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:46 +0000
Subject: [PATCH 15/17] fix: SourceBigram reads the right antecedent's word
 count from the right antecedent

---
 decoder/ff_wordalign.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/ff_wordalign.cc b/decoder/ff_wordalign.cc
index a1e9055..42f2105 100644
--- a/decoder/ff_wordalign.cc
+++ b/decoder/ff_wordalign.cc
@@ -386,7 +386,7 @@ void SourceBigram::TraversalFeaturesImpl(const SentenceMetadata& smeta,
     WordID left = *static_cast<const WordID*>(ant_contexts[0]);
     WordID right = *static_cast<const WordID*>(ant_contexts[1]);
     int left_wc = *(static_cast<const int*>(ant_contexts[0]) + 1);
-    int right_wc = *(static_cast<const int*>(ant_contexts[0]) + 1);
+    int right_wc = *(static_cast<const int*>(ant_contexts[1]) + 1);
     if (left_wc == 1 && right_wc == 1)
       FireFeature(-1, left, features);
     FireFeature(left, right, features);
-- 
2.43.0


From f47501a365d0900327a16acf0dafc7437810803b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:43 +0000
Subject: [PATCH 16/17] fix: sentserver reads the client count under its mutex

---
 training/utils/sentserver.cc | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/training/utils/sentserver.cc b/training/utils/sentserver.cc
index b425955..3ed8422 100644
--- a/training/utils/sentserver.cc
+++ b/training/utils/sentserver.cc
@@ -164,10 +164,14 @@ void queue_panic() {
 }
 
 void queue_abort(struct line *node, int fid) {
+	int live_clients;
 	if (log_mutex) fprintf(stderr, "Locking queue mutex (%d)\n", fid);
 	pthread_mutex_lock(&queue_mutex);
 	node->status = STATUS_ABORTED;
-	if (n_clients == 0) {
+	pthread_mutex_lock(&clients_mutex);
+	live_clients = n_clients;
+	pthread_mutex_unlock(&clients_mutex);
+	if (live_clients == 0) {
 		if (stay_alive) {
 			fprintf(stderr, "Warning! No live clients detected! Staying alive, will retry soon.\n");
 		} else {
@@ -328,9 +332,8 @@ void * new_client(void *arg) {
 
   pthread_mutex_lock(&clients_mutex);
   n_clients++;
-  pthread_mutex_unlock(&clients_mutex);
-
   fprintf(stderr, "Client connected (%d connected)\n", n_clients);
+  pthread_mutex_unlock(&clients_mutex);
 
   for (;;) {
 
@@ -347,9 +350,9 @@ void * new_client(void *arg) {
 
         pthread_mutex_lock(&clients_mutex);
         n_clients--;
+        fprintf(stderr, "Client died (%d connected)\n", n_clients);
         pthread_mutex_unlock(&clients_mutex);
 
-        fprintf(stderr, "Client died (%d connected)\n", n_clients);
         queue_abort(cur, client->s);
 
         close(client->s);
@@ -361,8 +364,8 @@ void * new_client(void *arg) {
       close(client->s);
       pthread_mutex_lock(&clients_mutex);
       n_clients--;
-      pthread_mutex_unlock(&clients_mutex);
       fprintf(stderr, "Client dismissed (%d connected)\n", n_clients);
+      pthread_mutex_unlock(&clients_mutex);
       pthread_exit(NULL);
     }
 
@@ -375,9 +378,9 @@ void * new_client(void *arg) {
     } else {
       pthread_mutex_lock(&clients_mutex);
       n_clients--;
+      fprintf(stderr, "Client died (%d connected)\n", n_clients);
       pthread_mutex_unlock(&clients_mutex);
 
-      fprintf(stderr, "Client died (%d connected)\n", n_clients);
       queue_abort(cur, client->s);
 
       close(client->s);
-- 
2.43.0


From 52a387c6d0bd9cb7417018c4eeff1ab168e7173a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:05 +0000
Subject: [PATCH 17/17] fix: alignment failures in k-best MIRA left a deleted
 forest behind; parse tree buffers lacked room for the terminator

---
 decoder/ff_const_reorder_common.h | 4 ++--
 training/mira/kbest_cut_mira.cc   | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/decoder/ff_const_reorder_common.h b/decoder/ff_const_reorder_common.h
index 404cb83..841b448 100644
--- a/decoder/ff_const_reorder_common.h
+++ b/decoder/ff_const_reorder_common.h
@@ -440,8 +440,8 @@ struct SParsedTree {
 
     int iLeftNum = 0, iRightNum = 0;
     char *pszTmp, *pszTerm;
-    pszTmp = new char[strlen(pszSyn)];
-    pszTerm = new char[strlen(pszSyn)];
+    pszTmp = new char[strlen(pszSyn) + 1];
+    pszTerm = new char[strlen(pszSyn) + 1];
     pszTmp[0] = pszTerm[0] = '\0';
 
     vec.clear();
diff --git a/training/mira/kbest_cut_mira.cc b/training/mira/kbest_cut_mira.cc
index 16a7286..8fcade7 100644
--- a/training/mira/kbest_cut_mira.cc
+++ b/training/mira/kbest_cut_mira.cc
@@ -334,6 +334,7 @@ struct BasicObserver: public DecoderObserver {
     }
     void NotifyAlignmentFailure(const SentenceMetadata& semta) {
         if(hypergraph != NULL) delete hypergraph;
+        hypergraph = NULL;
     }
     void NotifyAlignmentForest(const SentenceMetadata& smeta, Hypergraph* hg) {}
     void NotifyDecodingComplete(const SentenceMetadata& smeta) {}
-- 
2.43.0

