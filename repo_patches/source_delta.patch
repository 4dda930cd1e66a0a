From 7d79a131551b886b799e81870baa1762e7f76bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:35 +0000
Subject: [PATCH 01/26] fix: parameter parser rejects values that do not have
 the requested type

ParseInt accepted booleans and floating numbers and wrapped integers which do
not fit into an int; ParseSizeTVec accepted negative and floating numbers that
TryParseSizeTVec rejects. Check the type of the JSON value before converting.
---
 include/qlmps/case_params_parser.h | 47 +++++++++++++++++++++++-------
 1 file changed, 37 insertions(+), 10 deletions(-)

diff --git a/include/qlmps/case_params_parser.h b/include/qlmps/case_params_parser.h
index 0961f6e..d5efd52 100644
--- a/include/qlmps/case_params_parser.h
+++ b/include/qlmps/case_params_parser.h
@@ -18,6 +18,11 @@
 
 #include <iostream>
 #include <fstream>                                  // ifstream
+#include <cstdint>                                  // uint64_t, int64_t
+#include <limits>                                   // numeric_limits
+#include <string>
+#include <type_traits>                              // is_same_v, is_integral_v
+#include <vector>
 
 #include "qlmps/third_party/nlohmann/json.hpp"     // json
 
@@ -255,23 +260,45 @@ class CaseParamsParserBasic {
     if (case_params_.find(item) == case_params_.end()) {
       ReportAndExitMissing(item, expected_type_name);
     }
-    try {
-      return case_params_.at(item).get<T>();
-    } catch (const std::exception &e) {
-      const char *actual = case_params_.at(item).type_name();
-      ReportAndExitMissingOrInvalid(item, expected_type_name, actual);
+    const json &value = case_params_.at(item);
+    if (!HasRequestedType<T>(value)) {
+      ReportAndExitMissingOrInvalid(item, expected_type_name, value.type_name());
     }
-    return T();
+    return value.get<T>();
   }
 
   template <typename T>
   bool TryParseStrict(const std::string &item, T &out_value) const {
     if (case_params_.find(item) == case_params_.end()) return false;
-    try {
-      out_value = case_params_.at(item).get<T>();
+    const json &value = case_params_.at(item);
+    if (!HasRequestedType<T>(value)) return false;
+    out_value = value.get<T>();
+    return true;
+  }
+
+  // json::get<T>() converts between booleans, integers and floating numbers and
+  // wraps integers which do not fit, so check the type of the value first.
+  template <typename T>
+  static bool HasRequestedType(const json &value) {
+    if constexpr (std::is_same_v<T, bool>) {
+      return value.is_boolean();
+    } else if constexpr (std::is_integral_v<T>) {
+      if (value.is_number_unsigned()) {
+        return value.get<std::uint64_t>() <= static_cast<std::uint64_t>(std::numeric_limits<T>::max());
+      }
+      if (!value.is_number_integer()) return false;
+      const auto v = value.get<std::int64_t>();    // negative
+      return std::is_signed_v<T> && v >= static_cast<std::int64_t>(std::numeric_limits<T>::min());
+    } else if constexpr (std::is_floating_point_v<T>) {
+      return value.is_number();
+    } else if constexpr (std::is_same_v<T, std::string>) {
+      return value.is_string();
+    } else {                                       // std::vector
+      if (!value.is_array()) return false;
+      for (const auto &el : value) {
+        if (!HasRequestedType<typename T::value_type>(el)) return false;
+      }
       return true;
-    } catch (...) {
-      return false;
     }
   }
 
-- 
2.43.0


From cc1bab1fa1af590b7b7a721553d03d8e8bef3518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:53 +0000
Subject: [PATCH 02/26] fix: DuoVector self assignment released the elements it
 was about to copy

---
 include/qlmps/one_dim_tn/framework/duovector.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/qlmps/one_dim_tn/framework/duovector.h b/include/qlmps/one_dim_tn/framework/duovector.h
index c009fe0..9b4a25c 100644
--- a/include/qlmps/one_dim_tn/framework/duovector.h
+++ b/include/qlmps/one_dim_tn/framework/duovector.h
@@ -64,6 +64,7 @@ public:
   @param rhs A DuoVector instance.
   */
   DuoVector<ElemT> &operator=(const DuoVector<ElemT> &rhs) {
+    if (this == &rhs) { return *this; }
 //    this->DuoVector::~DuoVector();
 //    I'm no sure why above line do not work if used in the derived FiniteMPS class
     for (auto &rpelem : raw_data_) {
@@ -98,6 +99,7 @@ public:
   @param rhs A DuoVector instance.
   */
   DuoVector<ElemT> &operator=(DuoVector<ElemT> &&rhs) noexcept {
+    if (this == &rhs) { return *this; }
 //    this->DuoVector::~DuoVector();
 //    I have no idea why above line do not work if used in the derived FiniteMPS class
     for (auto &rpelem : raw_data_) {
-- 
2.43.0


From f54d421cce73c5471bfb52e1db0129ee671b9afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:53 +0000
Subject: [PATCH 03/26] fix: CoefRepr::ToString printed the second summand for
 every summand

---
 include/qlmps/one_dim_tn/mpo/mpogen/symb_alg/coef_op_alg.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qlmps/one_dim_tn/mpo/mpogen/symb_alg/coef_op_alg.h b/include/qlmps/one_dim_tn/mpo/mpogen/symb_alg/coef_op_alg.h
index 486a437..e017a1c 100644
--- a/include/qlmps/one_dim_tn/mpo/mpogen/symb_alg/coef_op_alg.h
+++ b/include/qlmps/one_dim_tn/mpo/mpogen/symb_alg/coef_op_alg.h
@@ -134,7 +134,7 @@ class CoefRepr {
     } else {
       std::string symbol_string = "(";
       for (size_t i = 0; i < coef_label_list_.size(); i++) {
-        const CNumberLabel coef_label = coef_label_list_[1];
+        const CNumberLabel coef_label = coef_label_list_[i];
         if (coef_label == kIdCoefLabel) {
           symbol_string += "1";
         } else {
-- 
2.43.0


From 13e8c810d0075562e7fbbb4ad53c3ac2d4d56e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:45 +0000
Subject: [PATCH 04/26] fix: a repeated on-site term was dropped from the
 generated Hamiltonian

FSM::CastFSMPathToMatRepr_ treated an equal operator already present in a
transition as shared, which is only right for the identities before and after
the terms; adding the same on-site term twice counted it once.
---
 include/qlmps/one_dim_tn/mpo/mpogen/fsm.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/qlmps/one_dim_tn/mpo/mpogen/fsm.h b/include/qlmps/one_dim_tn/mpo/mpogen/fsm.h
index dec4279..75cabdc 100644
--- a/include/qlmps/one_dim_tn/mpo/mpogen/fsm.h
+++ b/include/qlmps/one_dim_tn/mpo/mpogen/fsm.h
@@ -273,9 +273,14 @@ inline void FSM::CastFSMPathToMatRepr_(
       tgt_col_idx = tgt_col_fsm_node.fsm_stat_idx;
     }
 
+    // Identity operators before/after the terms are shared by all paths; the
+    // other transitions accumulate, also if the same term was added before.
+    const bool is_shared_id = (tgt_row_fsm_node.fsm_stat_idx == tgt_col_fsm_node.fsm_stat_idx) &&
+        (tgt_row_fsm_node.fsm_stat_idx == kFSMReadyStatIdx ||
+         tgt_row_fsm_node.fsm_stat_idx == kFSMFinalStatIdx);
     if (fsm_mat_repr[i](tgt_row_idx, tgt_col_idx) == kNullOpRepr) {
       fsm_mat_repr[i].SetElem(tgt_row_idx, tgt_col_idx, tgt_op);
-    } else if (fsm_mat_repr[i](tgt_row_idx, tgt_col_idx) != tgt_op) {
+    } else if (!is_shared_id) {
       auto new_op = fsm_mat_repr[i](tgt_row_idx, tgt_col_idx) + tgt_op;
       fsm_mat_repr[i].SetElem(tgt_row_idx, tgt_col_idx, new_op);
     } else {
-- 
2.43.0


From 23d09c26e30d6647833f3896559cb86d6deddf94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:01 +0000
Subject: [PATCH 05/26] fix: FSMNode::Site returned the state index instead of
 the site index

---
 include/qlmps/one_dim_tn/mpo/mpogen/fsm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qlmps/one_dim_tn/mpo/mpogen/fsm.h b/include/qlmps/one_dim_tn/mpo/mpogen/fsm.h
index 75cabdc..7e6235b 100644
--- a/include/qlmps/one_dim_tn/mpo/mpogen/fsm.h
+++ b/include/qlmps/one_dim_tn/mpo/mpogen/fsm.h
@@ -69,7 +69,7 @@ struct FSMNode {
   }
 
   [[nodiscard]] size_t Site(void) const {
-    return fsm_stat_idx;
+    return fsm_site_idx;
   }
 
   void SetSite(size_t site) {
-- 
2.43.0


From 6281da21dd1cf45c84ae1919ae48403292f46f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:55 +0000
Subject: [PATCH 06/26] fix: iFSM::AddPath threw for every term and lost terms
 sharing operators

Links of a new node were looked up with at(), the ready/final links of the
last site pointed behind the unit cell, a term which is a prefix of another
one (or vice versa) clashed in the operator keyed map, and different last
operators between the same two states overwrote each other in the matrix.
---
 include/qlmps/one_dim_tn/mpo/mpogen/ifsm.h | 40 +++++++++++++---------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/include/qlmps/one_dim_tn/mpo/mpogen/ifsm.h b/include/qlmps/one_dim_tn/mpo/mpogen/ifsm.h
index c201426..2da7322 100644
--- a/include/qlmps/one_dim_tn/mpo/mpogen/ifsm.h
+++ b/include/qlmps/one_dim_tn/mpo/mpogen/ifsm.h
@@ -12,7 +12,7 @@
 #include "qlmps/one_dim_tn/mpo/mpogen/fsm.h"  //FSMNode, FSMPath
 
 ///< [front site fsm node, [ operator, latter site fsm node]]
-using FSMNNLinks = std::map<FSMNode, std::map<OpRepr, FSMNode>>;
+using FSMNNLinks = std::map<FSMNode, std::multimap<OpRepr, FSMNode>>;
 
 /**
  * Finite state machine for the generation of iMPO
@@ -31,16 +31,16 @@ class iFSM {
     for (size_t site = 0; site < unit_cell_site_num; site++) {
       auto &fsm_nn_links = fsm_nn_links_set_[site];
       FSMNode ready_node = FSMNode(site, kFSMReadyStatIdx);
-      FSMNode next_ready_node = FSMNode(site + 1, kFSMReadyStatIdx);
+      FSMNode next_ready_node = FSMNode((site + 1) % unit_cell_site_num, kFSMReadyStatIdx);
 
-      std::map < OpRepr, FSMNode > link_from_ready_to_ready;
+      std::multimap < OpRepr, FSMNode > link_from_ready_to_ready;
       link_from_ready_to_ready.insert(std::make_pair(id_ops[site], next_ready_node));
       fsm_nn_links[ready_node] = link_from_ready_to_ready;
 
       FSMNode final_node = FSMNode(site, kFSMFinalStatIdx);
-      FSMNode next_final_node = FSMNode(site + 1, kFSMFinalStatIdx);
+      FSMNode next_final_node = FSMNode((site + 1) % unit_cell_site_num, kFSMFinalStatIdx);
 
-      std::map < OpRepr, FSMNode > link_from_final_to_final;
+      std::multimap < OpRepr, FSMNode > link_from_final_to_final;
       link_from_final_to_final.insert(std::make_pair(id_ops[site], next_final_node));
       fsm_nn_links[final_node] = link_from_final_to_final;
     }
@@ -109,9 +109,13 @@ inline void iFSM::AddPath(const size_t head_site,
     size_t target_site = (last_site + 1) % unit_cell_site_num_;
     auto &fsm_nn_links = fsm_nn_links_set_[last_site];
     if (!open_new_path) { //still go along the old path
-      auto link_op2node_iter = fsm_nn_links.at(last_node).find(opr);
-      if (link_op2node_iter != fsm_nn_links.at(last_node).cend()
-          && (link_op2node_iter->second.Stat() != kFSMFinalStatIdx)) {
+      auto &links = fsm_nn_links[last_node];
+      auto [link_op2node_iter, links_end] = links.equal_range(opr);
+      while (link_op2node_iter != links_end
+          && link_op2node_iter->second.Stat() == kFSMFinalStatIdx) {
+        ++link_op2node_iter;
+      }
+      if (link_op2node_iter != links_end) {
         //found, still go along the old way
         FSMNode next_node = link_op2node_iter->second;
         fsm_path.AddNode(i + 1, next_node);
@@ -120,14 +124,14 @@ inline void iFSM::AddPath(const size_t head_site,
         mid_stat_nums_[target_site]++;
         FSMNode new_node(target_site, (long) mid_stat_nums_[target_site]);
         fsm_path.AddNode(i + 1, new_node);
-        fsm_nn_links.at(last_node).insert(std::make_pair(opr, new_node));
+        links.insert(std::make_pair(opr, new_node));
         open_new_path = true;
       }
     } else {
       mid_stat_nums_[target_site]++;
       FSMNode new_node(target_site, (long) mid_stat_nums_[target_site]);
       fsm_path.AddNode(i + 1, new_node);
-      fsm_nn_links.at(last_node).insert(std::make_pair(opr, new_node));
+      fsm_nn_links[last_node].insert(std::make_pair(opr, new_node));
     }
   }
   //the last operator
@@ -136,13 +140,15 @@ inline void iFSM::AddPath(const size_t head_site,
   assert(tail_site == (penultimate_node.Site() + 1) % unit_cell_site_num_);
   FSMNode end_node(tail_site, kFSMFinalStatIdx);
   fsm_path.AddNode(phys_site_num, end_node);
-  if (open_new_path) {
-    auto &fsm_nn_links = fsm_nn_links_set_[(tail_site - 1 + unit_cell_site_num_) % unit_cell_site_num_];
-    fsm_nn_links.at(penultimate_node).insert(std::make_pair(ntrvl_ops.back(), end_node));
-  } else {
-    std::cout << "Same Operator Terms!" << std::endl;
-    exit(1);
+  auto &links = fsm_nn_links_set_[penultimate_node.Site()][penultimate_node];
+  auto [link_iter, links_end] = links.equal_range(ntrvl_ops.back());
+  for (; link_iter != links_end; ++link_iter) {
+    if (link_iter->second.Stat() == kFSMFinalStatIdx) {
+      std::cout << "Same Operator Terms!" << std::endl;
+      exit(1);
+    }
   }
+  links.insert(std::make_pair(ntrvl_ops.back(), end_node));
   fsm_paths_.push_back(fsm_path);
 }
 
@@ -187,7 +193,7 @@ inline SparOpReprMat iFSM::CastToMatRepr_(const size_t site) const {
       if (col == kFSMFinalStatIdx) {
         col = mat_cols - 1;
       }
-      mat.SetElem(row, col, opr);
+      mat.SetElem(row, col, mat(row, col) + opr);
     }
   }
   return mat;
-- 
2.43.0


From 6e4e1a2cc0ae7e6bd4c03df17e4d9b62ebd64685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:56 +0000
Subject: [PATCH 07/26] fix: DuoVector move left the source with no slots
 instead of its own length

---
 include/qlmps/one_dim_tn/framework/duovector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/qlmps/one_dim_tn/framework/duovector.h b/include/qlmps/one_dim_tn/framework/duovector.h
index 9b4a25c..f483ed5 100644
--- a/include/qlmps/one_dim_tn/framework/duovector.h
+++ b/include/qlmps/one_dim_tn/framework/duovector.h
@@ -90,7 +90,7 @@ public:
   DuoVector(
       DuoVector<ElemT> &&duovec
   ) noexcept : raw_data_(std::move(duovec.raw_data_)) {
-    duovec.raw_data_ = std::vector<ElemT *>(duovec.size(), nullptr);
+    duovec.raw_data_ = std::vector<ElemT *>(size(), nullptr);
   }
 
   /**
@@ -108,7 +108,7 @@ public:
       }
     }
     raw_data_ = std::move(rhs.raw_data_);
-    rhs.raw_data_ = std::vector<ElemT *>(rhs.size(), nullptr);
+    rhs.raw_data_ = std::vector<ElemT *>(size(), nullptr);
     return *this;
   }
 
-- 
2.43.0


From 075531e3ff7d94829708746bb27761378ebc4963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:08 +0000
Subject: [PATCH 08/26] fix: tail string in MPOGenerator::AddTerm starts behind
 the last physical operator

The inserted tail string also got a duplicate entry on the site of the last
physical operator. The entry was ignored there, except by the sign
normalisation, which flipped the sign of the whole term when the first
non-zero element of the string operator is negative (e.g. tJOperators::f).
---
 include/qlmps/one_dim_tn/mpo/mpogen/mpogen_impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qlmps/one_dim_tn/mpo/mpogen/mpogen_impl.h b/include/qlmps/one_dim_tn/mpo/mpogen/mpogen_impl.h
index 4d1d976..232bb4c 100644
--- a/include/qlmps/one_dim_tn/mpo/mpogen/mpogen_impl.h
+++ b/include/qlmps/one_dim_tn/mpo/mpogen/mpogen_impl.h
@@ -221,7 +221,7 @@ void MPOGenerator<TenElemT, QNT>::AddTerm(
   local_ops_idxs.push_back(phys_ops_idxs.back());
   if (inst_ops.size() == phys_ops.size()) {
     if (inst_ops_idxs_set == kNullUintVecVec) {
-      for (size_t j = phys_ops_idxs.back(); j < N_; ++j) {
+      for (size_t j = phys_ops_idxs.back() + 1; j < N_; ++j) {
         local_ops.push_back(inst_ops.back());
         local_ops_idxs.push_back(j);
       }
-- 
2.43.0


From a97757226172183ce28d99dab436b05adc200a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:08 +0000
Subject: [PATCH 09/26] fix: tJOperators bdnc_multi_bupa and bupc_multi_bdna
 were interchanged

With the documented convention Tensor({col, row}) = <row|O|col> the product
c^dag_down c_up takes spin up to spin down.
---
 include/qlmps/model_relevant/operators/fermion/tJ_operators.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/qlmps/model_relevant/operators/fermion/tJ_operators.h b/include/qlmps/model_relevant/operators/fermion/tJ_operators.h
index 4d7d693..6b828b3 100644
--- a/include/qlmps/model_relevant/operators/fermion/tJ_operators.h
+++ b/include/qlmps/model_relevant/operators/fermion/tJ_operators.h
@@ -69,8 +69,8 @@ struct tJOperators {
     ndn({spin_down, spin_down}) = 1;      // ⟨↓| n_↓ |↓⟩ = 1
 
     // Composite operators
-    bdnc_multi_bupa({spin_down, spin_up}) = 1;  // ⟨↑| c^†_↓ c_↑ |↓⟩ = 1
-    bupc_multi_bdna({spin_up, spin_down}) = 1;  // ⟨↓| c^†_↑ c_↓ |↑⟩ = 1
+    bdnc_multi_bupa({spin_up, spin_down}) = 1;  // ⟨↓| c^†_↓ c_↑ |↑⟩ = 1
+    bupc_multi_bdna({spin_down, spin_up}) = 1;  // ⟨↑| c^†_↑ c_↓ |↓⟩ = 1
   }
 
   // Spin operators
-- 
2.43.0


From ffaf7d118fc63c9232c4af72e981ed207bdfed4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:08 +0000
Subject: [PATCH 10/26] fix: copies of HubbardOperators no longer refer to the
 tensors of their source

The implicit copy constructor bound cupccdna, cdnccupa and Uterm to the
tensors of the copied object, which dangle once that object is gone.
---
 .../model_relevant/operators/fermion/hubbard_operators.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/qlmps/model_relevant/operators/fermion/hubbard_operators.h b/include/qlmps/model_relevant/operators/fermion/hubbard_operators.h
index 6d22d62..5df1e59 100644
--- a/include/qlmps/model_relevant/operators/fermion/hubbard_operators.h
+++ b/include/qlmps/model_relevant/operators/fermion/hubbard_operators.h
@@ -119,6 +119,15 @@ struct HubbardOperators {
   }
 
 // Spin operators
+  // The reference members of a copy refer to the tensors of the copy itself.
+  HubbardOperators(const HubbardOperators &rhs) :
+      sz(rhs.sz), sp(rhs.sp), sm(rhs.sm), id(rhs.id), f(rhs.f),
+      bupc(rhs.bupc), bupa(rhs.bupa), bdnc(rhs.bdnc), bdna(rhs.bdna),
+      bupcF(rhs.bupcF), bupaF(rhs.bupaF), Fbdnc(rhs.Fbdnc), Fbdna(rhs.Fbdna),
+      cupccdnc(rhs.cupccdnc), cdnacupa(rhs.cdnacupa), cupccdna(sp), cdnccupa(sm),
+      nupndn(rhs.nupndn), Uterm(nupndn), nf(rhs.nf), nfsquare(rhs.nfsquare),
+      nup(rhs.nup), ndn(rhs.ndn), sx(rhs.sx), sy(rhs.sy) {}
+
   Tensor sz;
   Tensor sp;
   Tensor sm;
-- 
2.43.0


From e2e1b927510b30f3975c4ec5e04213716dc67ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:47 +0000
Subject: [PATCH 11/26] fix: loading or allocating an MPS tensor withdraws its
 canonical claim

FiniteMPS::LoadTen/Load/alloc replaced tensors behind the back of the canonical
type and centre bookkeeping, so a chain kept reporting a freshly loaded tensor
as normalised and Centralize skipped it.
---
 .../one_dim_tn/mps/finite_mps/finite_mps.h    | 23 ++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/include/qlmps/one_dim_tn/mps/finite_mps/finite_mps.h b/include/qlmps/one_dim_tn/mps/finite_mps/finite_mps.h
index d0fe20d..3d05b2e 100644
--- a/include/qlmps/one_dim_tn/mps/finite_mps/finite_mps.h
+++ b/include/qlmps/one_dim_tn/mps/finite_mps/finite_mps.h
@@ -106,7 +106,23 @@ class FiniteMPS : public MPS<TenElemT, QNT> {
     return DuoVector<LocalTenT>::operator()(idx);
   }
 
-  using MPS<TenElemT, QNT>::LoadTen;
+  // Allocating or loading replaces the local tensor. Like a write access it sets the canonical type to NONE and the MPS
+  // to uncentralized.
+  void alloc(const size_t idx) {
+    ResetTenCanoType_(idx);
+    MPS<TenElemT, QNT>::alloc(idx);
+  }
+
+  void Load(const std::string &mps_path = kMpsPath) {
+    for (size_t i = 0; i < this->size(); ++i) { ResetTenCanoType_(i); }
+    MPS<TenElemT, QNT>::Load(mps_path);
+  }
+
+  void LoadTen(const size_t idx, const std::string &file) {
+    ResetTenCanoType_(idx);
+    MPS<TenElemT, QNT>::LoadTen(idx, file);
+  }
+
   using MPS<TenElemT, QNT>::DumpTen;
   void LoadTen(const std::string &mps_path, const size_t idx) {
     this->LoadTen(idx, GenMPSTenName(mps_path, idx));
@@ -161,6 +177,11 @@ class FiniteMPS : public MPS<TenElemT, QNT> {
  private:
   int center_;
   std::vector<MPSTenCanoType> tens_cano_type_;
+
+  void ResetTenCanoType_(const size_t idx) {
+    tens_cano_type_[idx] = MPSTenCanoType::NONE;
+    center_ = kUncentralizedCenterIdx;
+  }
 };
 
 /**
-- 
2.43.0


From 2aacd19d79ccdf0a5e113843636ec82ae6a170a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:36 +0000
Subject: [PATCH 12/26] fix: four-site disk measurement left tensors of earlier
 events in memory

---
 include/qlmps/one_dim_tn/mps/finite_mps/finite_mps_measu_disk.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qlmps/one_dim_tn/mps/finite_mps/finite_mps_measu_disk.h b/include/qlmps/one_dim_tn/mps/finite_mps/finite_mps_measu_disk.h
index 78002ab..c37b9ae 100644
--- a/include/qlmps/one_dim_tn/mps/finite_mps/finite_mps_measu_disk.h
+++ b/include/qlmps/one_dim_tn/mps/finite_mps/finite_mps_measu_disk.h
@@ -376,7 +376,7 @@ MeasuRes<TenElemT> MeasureFourSiteOpGroup(
                                                 avg);
   }
   //clean the data
-  for (size_t i = target_sites_set.back()[0]; i <= target_sites_set.back()[1]; i++) {
+  for (size_t i = 0; i < mps.size(); i++) {    // earlier events may reach farther than the last one
     mps.dealloc(i);
   }
   assert(mps.empty());
-- 
2.43.0


From c81b164d4d152757b44c1f6ee02850792c040606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:36 +0000
Subject: [PATCH 13/26] fix: entanglement entropy was NaN when a singular value
 is zero

---
 include/qlmps/algorithm/vmps/two_site_update_finite_vmps_impl.h | 2 +-
 include/qlmps/one_dim_tn/mps/finite_mps/finite_mps.h            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/qlmps/algorithm/vmps/two_site_update_finite_vmps_impl.h b/include/qlmps/algorithm/vmps/two_site_update_finite_vmps_impl.h
index 232d6e1..48071fd 100644
--- a/include/qlmps/algorithm/vmps/two_site_update_finite_vmps_impl.h
+++ b/include/qlmps/algorithm/vmps/two_site_update_finite_vmps_impl.h
@@ -43,7 +43,7 @@ inline double MeasureEE(const DTenT &s, const size_t sdim) {
   for (size_t i = 0; i < sdim; ++i) {
     singular_value = s(i, i);
     p = singular_value * singular_value;
-    ee += (-p * std::log(p));
+    if (p > 0) { ee += (-p * std::log(p)); }    // p * log(p) -> 0 as p -> 0
   }
   return ee;
 }
diff --git a/include/qlmps/one_dim_tn/mps/finite_mps/finite_mps.h b/include/qlmps/one_dim_tn/mps/finite_mps/finite_mps.h
index 3d05b2e..4e2f019 100644
--- a/include/qlmps/one_dim_tn/mps/finite_mps/finite_mps.h
+++ b/include/qlmps/one_dim_tn/mps/finite_mps/finite_mps.h
@@ -310,7 +310,7 @@ std::vector<double> FiniteMPS<TenElemT, QNT>::GetEntanglementEntropy(size_t n) {
       double singular_value = s(k, k);
       double p = singular_value * singular_value;
       if (n == 1) {
-        ee += (-p * std::log(p));
+        if (p > 0) { ee += (-p * std::log(p)); }    // p * log(p) -> 0 as p -> 0
       } else {
         double p_to_n = p;
         for (size_t j = 1; j < n; j++) { // order of power
-- 
2.43.0


From 1e5eda4fc67eec44a3c27b38d7c8b59282020dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:41 +0000
Subject: [PATCH 14/26] fix: FiniteMPO::SimpleProduct had no body

Calling it was undefined behaviour. Return the uncompressed product.
---
 include/qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo.h b/include/qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo.h
index c9c385c..3d60351 100644
--- a/include/qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo.h
+++ b/include/qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo.h
@@ -55,6 +55,13 @@ struct MpoVOptimizeParams {
   std::string temp_path;
 };
 
+template<typename TenElemT, typename QNT>
+void MpoProduct(
+    const FiniteMPO<TenElemT, QNT> &mpo1,
+    const FiniteMPO<TenElemT, QNT> &mpo2,
+    FiniteMPO<TenElemT, QNT> &output_mpo
+);
+
 template<typename TenElemT, typename QNT>
 void MpoProduct(
     const FiniteMPO<TenElemT, QNT> &mpo1,
@@ -171,7 +178,9 @@ class FiniteMPO : public TenVec<QLTensor<TenElemT, QNT>> {
 
   ///<  *this * rhs,  *this is at below, represent the front matrix
   FiniteMPO SimpleProduct(const FiniteMPO &rhs) const {
-
+    FiniteMPO res(this->size());
+    MpoProduct(*this, rhs, res);
+    return res;
   }
 
   /**
-- 
2.43.0


From 6773f3cea9f07e401f2c0c984aab32bd64dd5d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:41 +0000
Subject: [PATCH 15/26] fix: loading or allocating an MPO tensor withdraws its
 canonical claim

A chain with a known centre kept reporting it after other tensors, or another
chain without a centre, had been loaded into it.
---
 .../one_dim_tn/mpo/finite_mpo/finite_mpo.h      | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/include/qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo.h b/include/qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo.h
index 3d60351..ac4e142 100644
--- a/include/qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo.h
+++ b/include/qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo.h
@@ -144,6 +144,18 @@ class FiniteMPO : public TenVec<QLTensor<TenElemT, QNT>> {
     return DuoVector<LocalTenT>::operator()(idx);
   }
 
+  // Allocating or loading replaces the local tensor. Like a write access it sets the canonical type to NONE and the MPO
+  // to uncentralized.
+  void alloc(const size_t idx) {
+    ResetTenCanoType_(idx);
+    TenVec<LocalTenT>::alloc(idx);
+  }
+
+  void LoadTen(const size_t idx, const std::string &file) {
+    ResetTenCanoType_(idx);
+    TenVec<LocalTenT>::LoadTen(idx, file);
+  }
+
   FiniteMPO &operator*=(const TenElemT s) {
     this->Scale(s);
     return (*this);
@@ -310,6 +322,11 @@ class FiniteMPO : public TenVec<QLTensor<TenElemT, QNT>> {
   int center_;
   std::vector<MPOTenCanoType> tens_cano_type_;
 
+  void ResetTenCanoType_(const size_t idx) {
+    tens_cano_type_[idx] = MPOTenCanoType::NONE;
+    center_ = kUncentralizedCenterIdx;
+  }
+
   /// with truncate version
   void RightCanonicalizeTen_(const size_t, const QLTEN_Double,
                              const size_t, const size_t,
-- 
2.43.0


From 7e3562ac9af194063895b5193cc3f5d6557b4db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:41 +0000
Subject: [PATCH 16/26] fix: MpoAllScale left the scaled tensors marked as
 canonical

---
 include/qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo_utility.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo_utility.h b/include/qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo_utility.h
index 183b917..76dd579 100644
--- a/include/qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo_utility.h
+++ b/include/qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo_utility.h
@@ -81,8 +81,8 @@ void MpoAllScale(
     FiniteMPO<TenElemT, QNT> &mpo,
     const TenElemT factor
 ) {
-  for (QLTensor<TenElemT, QNT> *ptensor : mpo) {
-    ptensor->MultiplyByScalar(factor);
+  for (size_t i = 0; i < mpo.size(); i++) {
+    mpo[i].MultiplyByScalar(factor); // the write access withdraws the canonical claim of the tensor
   }
   return;
 }
-- 
2.43.0


From da2fa1a9a612d705bb40834b147a486a78dc959a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:56 +0000
Subject: [PATCH 17/26] fix: variational MpoProduct of two-site chains returned
 its initial guess

The sweeps never reach the only pair of sites, yet the output was marked as
canonical with centre 1.
---
 .../one_dim_tn/mpo/finite_mpo/finite_mpo_utility.h    | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo_utility.h b/include/qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo_utility.h
index 76dd579..7a42087 100644
--- a/include/qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo_utility.h
+++ b/include/qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo_utility.h
@@ -229,10 +229,19 @@ void MpoProduct(
 //  initial_timer.PrintElapsed();
 
 
+  if (N == 2) { // The sweeps below never visit the only pair of sites. A single update gives the optimal result.
+    Tensor lenv, renv;
+    ReadQLTensorFromFile(lenv, GenEnvTenName("l", 0, temp_path));
+    ReadQLTensorFromFile(renv, GenEnvTenName("r", 0, temp_path));
+    MPOProductVariationalSingleStep<TenElemT, QNT, 'r'>(lenv, renv, mpo1[0], mpo1[1], mpo2[0], mpo2[1],
+                                                        trunc_err, Dmin, Dmax,
+                                                        output_mpo[0], output_mpo[1], output_info);
+  }
+
   double norm2(0.0);
   double trunc_err_max(0.0);
   size_t trunc_D_max(0);
-  for (size_t sweep = 0; sweep < sweep_time_max; sweep++) {
+  for (size_t sweep = 0; N > 2 && sweep < sweep_time_max; sweep++) {
     std::cout << IndentPrinter(indent_level) << "sweep " << sweep << std::endl;
     Timer sweep_timer("sweep");
 
-- 
2.43.0


From 9911caebd102ccbc43fefd71d6c9cfef4c925024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:12 +0000
Subject: [PATCH 18/26] fix: Lanczos solvers normalised a residual of pure
 rounding noise into a basis vector

---
 .../dmrg/lanczos_dmrg_solver_mpi_master.h     |  2 +-
 .../algo_mpi/tdvp/lanczos_expmv_solver_mpi.h  |  2 +-
 .../algo_mpi/vmps/lanczos_solver_mpi_master.h |  2 +-
 .../algorithm/dmrg/lanczos_dmrg_solver_impl.h |  2 +-
 include/qlmps/algorithm/lanczos_params.h      | 19 +++++++++++++++++++
 .../tdvp/lanczos_expmv_solver_impl.h          |  2 +-
 .../algorithm/vmps/lanczos_vmps_solver_impl.h |  2 +-
 7 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/include/qlmps/algo_mpi/dmrg/lanczos_dmrg_solver_mpi_master.h b/include/qlmps/algo_mpi/dmrg/lanczos_dmrg_solver_mpi_master.h
index c4ad67c..07e07ea 100644
--- a/include/qlmps/algo_mpi/dmrg/lanczos_dmrg_solver_mpi_master.h
+++ b/include/qlmps/algo_mpi/dmrg/lanczos_dmrg_solver_mpi_master.h
@@ -106,7 +106,7 @@ LanczosRes<QLTensor<TenElemT, QNT>> DMRGMPIMasterExecutor<TenElemT,
     auto norm_gamma = gamma->Normalize();
     QLTEN_Double eigval;
     QLTEN_Double *eigvec = nullptr;
-    if (norm_gamma == 0.0) {
+    if (IsKrylovSpaceExhausted(norm_gamma, a[m - 1], m > 1 ? b[m - 2] : 0.0)) {
       if (m == 1) {
         lancz_res.iters = m;
         lancz_res.gs_eng = energy0;
diff --git a/include/qlmps/algo_mpi/tdvp/lanczos_expmv_solver_mpi.h b/include/qlmps/algo_mpi/tdvp/lanczos_expmv_solver_mpi.h
index 7f2b59d..5d1e5c6 100644
--- a/include/qlmps/algo_mpi/tdvp/lanczos_expmv_solver_mpi.h
+++ b/include/qlmps/algo_mpi/tdvp/lanczos_expmv_solver_mpi.h
@@ -113,7 +113,7 @@ ExpmvRes<TenT> MasterLanczosExpmvSolver(
     trigssolver.Suspend();
 #endif
 
-    if (norm_gamma == 0.0) {
+    if (IsKrylovSpaceExhausted(norm_gamma, a[m - 1], m > 1 ? b[m - 2] : 0.0)) {
       expmv_res.iters = m;
       if (m == 1) { //initial state is just an eigenstate
         expmv_res.expmv = new TenT();
diff --git a/include/qlmps/algo_mpi/vmps/lanczos_solver_mpi_master.h b/include/qlmps/algo_mpi/vmps/lanczos_solver_mpi_master.h
index 89c5382..dcf4e11 100644
--- a/include/qlmps/algo_mpi/vmps/lanczos_solver_mpi_master.h
+++ b/include/qlmps/algo_mpi/vmps/lanczos_solver_mpi_master.h
@@ -128,7 +128,7 @@ LanczosRes<TenT> MasterLanczosSolver(
 #endif
     QLTEN_Double eigval;
     QLTEN_Double *eigvec = nullptr;
-    if (norm_gamma == 0.0) {
+    if (IsKrylovSpaceExhausted(norm_gamma, a[m - 1], m > 1 ? b[m - 2] : 0.0)) {
       if (m == 1) {
 #ifdef QLMPS_TIMING_MODE
         Timer lancozs_post_precessing("lancz_post_processing");
diff --git a/include/qlmps/algorithm/dmrg/lanczos_dmrg_solver_impl.h b/include/qlmps/algorithm/dmrg/lanczos_dmrg_solver_impl.h
index e284521..d434aff 100644
--- a/include/qlmps/algorithm/dmrg/lanczos_dmrg_solver_impl.h
+++ b/include/qlmps/algorithm/dmrg/lanczos_dmrg_solver_impl.h
@@ -130,7 +130,7 @@ LanczosRes<TenT> LanczosSolver(
     auto norm_gamma = gamma->Normalize();
     QLTEN_Double eigval;
     QLTEN_Double *eigvec = nullptr;
-    if (norm_gamma == 0.0) {
+    if (IsKrylovSpaceExhausted(norm_gamma, a[m - 1], m > 1 ? b[m - 2] : 0.0)) {
       if (m == 1) {
         lancz_res.iters = m;
         lancz_res.gs_eng = energy0;
diff --git a/include/qlmps/algorithm/lanczos_params.h b/include/qlmps/algorithm/lanczos_params.h
index 04a643a..779fbbc 100644
--- a/include/qlmps/algorithm/lanczos_params.h
+++ b/include/qlmps/algorithm/lanczos_params.h
@@ -16,6 +16,8 @@
 
 
 #include <stdlib.h>     // size_t
+#include <algorithm>    // max
+#include <cmath>        // fabs
 
 
 namespace qlmps {
@@ -44,6 +46,23 @@ struct LanczosParams {
   double error;             ///< The Lanczos tolerated error.
   size_t max_iterations;    ///< The maximal iteration times.
 };
+
+/**
+Whether the Krylov space is exhausted: the residual of a Lanczos step is zero or only
+the rounding noise of the Hamiltonian multiplication. Such a residual must not be
+normalized to a further basis vector, it is not orthogonal to the present ones.
+
+@param residual_norm The norm of the residual, i.e. the next off-diagonal element.
+@param diag The diagonal element of the step.
+@param off_diag The previous off-diagonal element, zero for the first step.
+*/
+inline bool IsKrylovSpaceExhausted(
+    const double residual_norm,
+    const double diag,
+    const double off_diag
+) {
+  return residual_norm <= 1.0E-13 * std::max(std::fabs(diag), std::fabs(off_diag)) + 1.0E-15;
+}
 } /* qlmps */
 
 
diff --git a/include/qlmps/algorithm/tdvp/lanczos_expmv_solver_impl.h b/include/qlmps/algorithm/tdvp/lanczos_expmv_solver_impl.h
index 49a6ad9..fd155fe 100644
--- a/include/qlmps/algorithm/tdvp/lanczos_expmv_solver_impl.h
+++ b/include/qlmps/algorithm/tdvp/lanczos_expmv_solver_impl.h
@@ -121,7 +121,7 @@ ExpmvRes<TenT> LanczosExpmvSolver(
     }
     QLTEN_Double norm_gamma = gamma->Normalize();
 
-    if (norm_gamma == 0.0) {
+    if (IsKrylovSpaceExhausted(norm_gamma, a[m - 1], m > 1 ? b[m - 2] : 0.0)) {
       expmv_res.iters = m;
       if (m == 1) { //initial state is just an eigenstate
         expmv_res.expmv = new TenT();
diff --git a/include/qlmps/algorithm/vmps/lanczos_vmps_solver_impl.h b/include/qlmps/algorithm/vmps/lanczos_vmps_solver_impl.h
index a21cf92..3f55809 100644
--- a/include/qlmps/algorithm/vmps/lanczos_vmps_solver_impl.h
+++ b/include/qlmps/algorithm/vmps/lanczos_vmps_solver_impl.h
@@ -183,7 +183,7 @@ LanczosRes<TenT> LanczosSolver(
     auto norm_gamma = gamma->QuasiNormalize();
     QLTEN_Double eigval;
     QLTEN_Double *eigvec = nullptr;
-    if (norm_gamma == 0.0) {
+    if (IsKrylovSpaceExhausted(norm_gamma, a[m - 1], m > 1 ? b[m - 2] : 0.0)) {
       if (m == 1) {
         lancz_res.iters = m;
         lancz_res.gs_eng = energy0;
-- 
2.43.0


From 09c205d700ffd6c52d200c3b02e4e83846a568a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:12 +0000
Subject: [PATCH 19/26] fix: Lanczos solvers wrote past their buffers when
 allowed a single iteration

---
 include/qlmps/algo_mpi/dmrg/lanczos_dmrg_solver_mpi_master.h | 5 ++++-
 include/qlmps/algo_mpi/tdvp/lanczos_expmv_solver_mpi.h       | 5 ++++-
 include/qlmps/algo_mpi/vmps/lanczos_solver_mpi_master.h      | 5 ++++-
 include/qlmps/algorithm/dmrg/lanczos_dmrg_solver_impl.h      | 5 ++++-
 include/qlmps/algorithm/tdvp/lanczos_expmv_solver_impl.h     | 5 ++++-
 include/qlmps/algorithm/vmps/lanczos_vmps_solver_impl.h      | 5 ++++-
 6 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/include/qlmps/algo_mpi/dmrg/lanczos_dmrg_solver_mpi_master.h b/include/qlmps/algo_mpi/dmrg/lanczos_dmrg_solver_mpi_master.h
index 07e07ea..5f2ab71 100644
--- a/include/qlmps/algo_mpi/dmrg/lanczos_dmrg_solver_mpi_master.h
+++ b/include/qlmps/algo_mpi/dmrg/lanczos_dmrg_solver_mpi_master.h
@@ -106,7 +106,10 @@ LanczosRes<QLTensor<TenElemT, QNT>> DMRGMPIMasterExecutor<TenElemT,
     auto norm_gamma = gamma->Normalize();
     QLTEN_Double eigval;
     QLTEN_Double *eigvec = nullptr;
-    if (IsKrylovSpaceExhausted(norm_gamma, a[m - 1], m > 1 ? b[m - 2] : 0.0)) {
+    if (
+        IsKrylovSpaceExhausted(norm_gamma, a[m - 1], m > 1 ? b[m - 2] : 0.0) ||
+            (m == params.max_iterations)
+        ) {
       if (m == 1) {
         lancz_res.iters = m;
         lancz_res.gs_eng = energy0;
diff --git a/include/qlmps/algo_mpi/tdvp/lanczos_expmv_solver_mpi.h b/include/qlmps/algo_mpi/tdvp/lanczos_expmv_solver_mpi.h
index 5d1e5c6..ca480e3 100644
--- a/include/qlmps/algo_mpi/tdvp/lanczos_expmv_solver_mpi.h
+++ b/include/qlmps/algo_mpi/tdvp/lanczos_expmv_solver_mpi.h
@@ -113,7 +113,10 @@ ExpmvRes<TenT> MasterLanczosExpmvSolver(
     trigssolver.Suspend();
 #endif
 
-    if (IsKrylovSpaceExhausted(norm_gamma, a[m - 1], m > 1 ? b[m - 2] : 0.0)) {
+    if (
+        IsKrylovSpaceExhausted(norm_gamma, a[m - 1], m > 1 ? b[m - 2] : 0.0) ||
+            (m == params.max_iterations)
+        ) {
       expmv_res.iters = m;
       if (m == 1) { //initial state is just an eigenstate
         expmv_res.expmv = new TenT();
diff --git a/include/qlmps/algo_mpi/vmps/lanczos_solver_mpi_master.h b/include/qlmps/algo_mpi/vmps/lanczos_solver_mpi_master.h
index dcf4e11..7f98fce 100644
--- a/include/qlmps/algo_mpi/vmps/lanczos_solver_mpi_master.h
+++ b/include/qlmps/algo_mpi/vmps/lanczos_solver_mpi_master.h
@@ -128,7 +128,10 @@ LanczosRes<TenT> MasterLanczosSolver(
 #endif
     QLTEN_Double eigval;
     QLTEN_Double *eigvec = nullptr;
-    if (IsKrylovSpaceExhausted(norm_gamma, a[m - 1], m > 1 ? b[m - 2] : 0.0)) {
+    if (
+        IsKrylovSpaceExhausted(norm_gamma, a[m - 1], m > 1 ? b[m - 2] : 0.0) ||
+            (m == params.max_iterations)
+        ) {
       if (m == 1) {
 #ifdef QLMPS_TIMING_MODE
         Timer lancozs_post_precessing("lancz_post_processing");
diff --git a/include/qlmps/algorithm/dmrg/lanczos_dmrg_solver_impl.h b/include/qlmps/algorithm/dmrg/lanczos_dmrg_solver_impl.h
index d434aff..d299820 100644
--- a/include/qlmps/algorithm/dmrg/lanczos_dmrg_solver_impl.h
+++ b/include/qlmps/algorithm/dmrg/lanczos_dmrg_solver_impl.h
@@ -130,7 +130,10 @@ LanczosRes<TenT> LanczosSolver(
     auto norm_gamma = gamma->Normalize();
     QLTEN_Double eigval;
     QLTEN_Double *eigvec = nullptr;
-    if (IsKrylovSpaceExhausted(norm_gamma, a[m - 1], m > 1 ? b[m - 2] : 0.0)) {
+    if (
+        IsKrylovSpaceExhausted(norm_gamma, a[m - 1], m > 1 ? b[m - 2] : 0.0) ||
+            (m == params.max_iterations)
+        ) {
       if (m == 1) {
         lancz_res.iters = m;
         lancz_res.gs_eng = energy0;
diff --git a/include/qlmps/algorithm/tdvp/lanczos_expmv_solver_impl.h b/include/qlmps/algorithm/tdvp/lanczos_expmv_solver_impl.h
index fd155fe..db2b3af 100644
--- a/include/qlmps/algorithm/tdvp/lanczos_expmv_solver_impl.h
+++ b/include/qlmps/algorithm/tdvp/lanczos_expmv_solver_impl.h
@@ -121,7 +121,10 @@ ExpmvRes<TenT> LanczosExpmvSolver(
     }
     QLTEN_Double norm_gamma = gamma->Normalize();
 
-    if (IsKrylovSpaceExhausted(norm_gamma, a[m - 1], m > 1 ? b[m - 2] : 0.0)) {
+    if (
+        IsKrylovSpaceExhausted(norm_gamma, a[m - 1], m > 1 ? b[m - 2] : 0.0) ||
+            (m == params.max_iterations)
+        ) {
       expmv_res.iters = m;
       if (m == 1) { //initial state is just an eigenstate
         expmv_res.expmv = new TenT();
diff --git a/include/qlmps/algorithm/vmps/lanczos_vmps_solver_impl.h b/include/qlmps/algorithm/vmps/lanczos_vmps_solver_impl.h
index 3f55809..beb58f3 100644
--- a/include/qlmps/algorithm/vmps/lanczos_vmps_solver_impl.h
+++ b/include/qlmps/algorithm/vmps/lanczos_vmps_solver_impl.h
@@ -183,7 +183,10 @@ LanczosRes<TenT> LanczosSolver(
     auto norm_gamma = gamma->QuasiNormalize();
     QLTEN_Double eigval;
     QLTEN_Double *eigvec = nullptr;
-    if (IsKrylovSpaceExhausted(norm_gamma, a[m - 1], m > 1 ? b[m - 2] : 0.0)) {
+    if (
+        IsKrylovSpaceExhausted(norm_gamma, a[m - 1], m > 1 ? b[m - 2] : 0.0) ||
+            (m == params.max_iterations)
+        ) {
       if (m == 1) {
         lancz_res.iters = m;
         lancz_res.gs_eng = energy0;
-- 
2.43.0


From dbbd3686ad500bd63033523dc543354249dcad6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:12 +0000
Subject: [PATCH 20/26] fix: MasterLanczosSolver under-reported its iterations
 by one

---
 include/qlmps/algo_mpi/vmps/lanczos_solver_mpi_master.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qlmps/algo_mpi/vmps/lanczos_solver_mpi_master.h b/include/qlmps/algo_mpi/vmps/lanczos_solver_mpi_master.h
index 7f98fce..3541677 100644
--- a/include/qlmps/algo_mpi/vmps/lanczos_solver_mpi_master.h
+++ b/include/qlmps/algo_mpi/vmps/lanczos_solver_mpi_master.h
@@ -222,7 +222,7 @@ LanczosRes<TenT> MasterLanczosSolver(
 #ifdef QLMPS_TIMING_MODE
       Timer lancozs_post_precessing("lancz_post_processing");
 #endif
-      lancz_res.iters = m;
+      lancz_res.iters = m + 1;
       lancz_res.gs_eng = energy0;
       lancz_res.gs_vec = gs_vec;
       LanczosFree(eigvec, bases, last_mat_mul_vec_res);
-- 
2.43.0


From f329deaf0884a446b82f8683bcd66e6530f034e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:38 +0000
Subject: [PATCH 21/26] fix: TwoSiteFiniteVMPSWithNoise without noises ran a
 second time with an uninitialised noise

---
 .../algorithm/vmps/two_site_update_noise_finite_vmps_impl.h     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qlmps/algorithm/vmps/two_site_update_noise_finite_vmps_impl.h b/include/qlmps/algorithm/vmps/two_site_update_noise_finite_vmps_impl.h
index c9299d3..ef43208 100644
--- a/include/qlmps/algorithm/vmps/two_site_update_noise_finite_vmps_impl.h
+++ b/include/qlmps/algorithm/vmps/two_site_update_noise_finite_vmps_impl.h
@@ -86,7 +86,7 @@ QLTEN_Double TwoSiteFiniteVMPSWithNoise( //same function name, overload by class
   if (sweep_params.noises.size() == 0) {
     FiniteVMPSSweepParams sweep_params_copy = sweep_params;
     sweep_params_copy.noise_valid = false;
-    TwoSiteFiniteVMPS(mps, mpo, sweep_params_copy);
+    return TwoSiteFiniteVMPS(mps, mpo, sweep_params_copy);
   }
   assert(mps.size() == mpo.size());
 
-- 
2.43.0


From ed542f924fa3bb501edf824440ed8bf6e0d90707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:09 +0000
Subject: [PATCH 22/26] fix: optimisations with moving boundaries reused right
 blocks of an earlier, different range

---
 .../algo_mpi/dmrg/dmrg_mpi_impl_master.h      |  2 ++
 include/qlmps/algorithm/dmrg/dmrg_init.h      | 24 +++++++++++++++++++
 include/qlmps/algorithm/vmps/vmps_init.h      | 20 ++++++++++++++++
 3 files changed, 46 insertions(+)

diff --git a/include/qlmps/algo_mpi/dmrg/dmrg_mpi_impl_master.h b/include/qlmps/algo_mpi/dmrg/dmrg_mpi_impl_master.h
index 07904d8..e8a83d4 100644
--- a/include/qlmps/algo_mpi/dmrg/dmrg_mpi_impl_master.h
+++ b/include/qlmps/algo_mpi/dmrg/dmrg_mpi_impl_master.h
@@ -635,6 +635,8 @@ void UpdateBoundaryBlockOpsMaster(
   }
 
   WriteOperatorGroup("l", left_boundary, log, temp_path);
+
+  RemoveRightBlockOpsOutsideBoundaries(mat_repr_mpo, left_boundary, right_boundary, temp_path);
 }
 
 template<typename TenElemT, typename QNT>
diff --git a/include/qlmps/algorithm/dmrg/dmrg_init.h b/include/qlmps/algorithm/dmrg/dmrg_init.h
index 735ca26..e968696 100644
--- a/include/qlmps/algorithm/dmrg/dmrg_init.h
+++ b/include/qlmps/algorithm/dmrg/dmrg_init.h
@@ -114,6 +114,28 @@ inline bool NeedGenerateBlockOps(
   }
 }
 
+/**
+ * The sweep between the boundaries keeps only the right block operators of the
+ * sites inside of the boundaries up to date. Remove the other ones, left by a run
+ * with different boundaries, so that no later run takes them for valid.
+ */
+template<typename TenElemT, typename QNT>
+inline void RemoveRightBlockOpsOutsideBoundaries(
+    const MatReprMPO<QLTensor<TenElemT, QNT>> &mat_repr_mpo,
+    const size_t left_boundary,
+    const size_t right_boundary,
+    const std::string &temp_path
+) {
+  const size_t N = mat_repr_mpo.size();
+  for (size_t site = 0; site < N; site++) {
+    if (site >= left_boundary + 1 && site <= right_boundary) { continue; }
+    for (size_t comp_num = 0; comp_num < mat_repr_mpo[site].cols; comp_num++) {
+      const std::string file = GenOpFileName("r", (N - 1) - site, comp_num, temp_path);
+      if (access(file.c_str(), 4) == 0) { RemoveFile(file); }
+    }
+  }
+}
+
 template<typename TenElemT, typename QNT>
 RightBlockOperatorGroup<QLTensor<TenElemT, QNT>> UpdateRightBlockOps(
     const std::vector<QLTensor<TenElemT, QNT>> &site_block_ops,
@@ -262,6 +284,8 @@ void UpdateBoundaryBlockOps(
   }
 
   WriteOperatorGroup("l", left_boundary, log, temp_path);
+
+  RemoveRightBlockOpsOutsideBoundaries(mat_repr_mpo, left_boundary, right_boundary, temp_path);
 }
 
 /**
diff --git a/include/qlmps/algorithm/vmps/vmps_init.h b/include/qlmps/algorithm/vmps/vmps_init.h
index b43490b..98612f7 100644
--- a/include/qlmps/algorithm/vmps/vmps_init.h
+++ b/include/qlmps/algorithm/vmps/vmps_init.h
@@ -272,6 +272,24 @@ inline bool NeedGenerateRightEnvs(
   }
 }
 
+/**
+ * The sweep between the boundaries keeps only the right environment tensors
+ * of the sites inside of the boundaries up to date. Remove the other ones, left
+ * by a run with different boundaries, so that no later run takes them for valid.
+ */
+inline void RemoveRightEnvsOutsideBoundaries(
+    const size_t N, //mps size
+    const size_t left_boundary,
+    const size_t right_boundary,
+    const std::string &temp_path
+) {
+  for (size_t env_num = 0; env_num < N; env_num++) {
+    if (env_num >= (N - 1) - right_boundary && env_num <= (N - 1) - (left_boundary + 1)) { continue; }
+    const std::string file = GenEnvTenName("r", env_num, temp_path);
+    if (access(file.c_str(), 4) == 0) { RemoveFile(file); }
+  }
+}
+
 /** UpdateBoundaryEnvs
  *  regenerate and rewrite environment tensors including:
  *    - left env of site left_boundary
@@ -338,6 +356,8 @@ void UpdateBoundaryEnvs(
   file = GenEnvTenName("l", left_boundary, temp_path);
   WriteQLTensorTOFile(lenv, file);
   assert(mps.empty());
+
+  RemoveRightEnvsOutsideBoundaries(N, left_boundary, right_boundary, temp_path);
 }
 
 template<typename TenElemT, typename QNT>
-- 
2.43.0


From c2744201f980c45d2f2d6435db178f3991ed8231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:44 +0000
Subject: [PATCH 23/26] fix: DMRG stop requests outlived their run and a late
 emergency stop lost a tensor

---
 include/qlmps/algorithm/dmrg/dmrg_impl.h | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/qlmps/algorithm/dmrg/dmrg_impl.h b/include/qlmps/algorithm/dmrg/dmrg_impl.h
index 9e6395c..8f561bd 100644
--- a/include/qlmps/algorithm/dmrg/dmrg_impl.h
+++ b/include/qlmps/algorithm/dmrg/dmrg_impl.h
@@ -88,6 +88,7 @@ class DMRGExecutor : public Executor {
   void DumpRelatedTensSweep_();
   void SetUpSignalHandler_();
   static void SignalHandler_(int sig);
+  static void ClearStopRequests_();
   void EmergencyDumpRelatedTens_();
 
   size_t N_; //number of site
@@ -112,6 +113,7 @@ class DMRGExecutor : public Executor {
   struct sigaction sa_;
   static std::atomic<bool> stop_requested_; // stop signal
   static std::atomic<bool> emergency_stop_requested_;
+  bool emergency_dumped_ = false; // the sweep was left by an emergency stop, all tensors are on disk
 };
 
 template<typename TenElemT, typename QNT>
@@ -141,6 +143,7 @@ template<typename TenElemT, typename QNT>
 void DMRGExecutor<TenElemT, QNT>::Execute() {
   SetStatus(ExecutorStatus::EXEING);
   assert(mps_.size() == mat_repr_mpo_.size());
+  emergency_dumped_ = false;
   PrintExeInfo_();
   DMRGInit_();
 
@@ -157,10 +160,12 @@ void DMRGExecutor<TenElemT, QNT>::Execute() {
       break; // stop in advance
     }
   }
-  if (!emergency_stop_requested_.load()) {
+  // Asks what the sweep did, not for the request, which may have come too late for the sweep to notice it.
+  if (!emergency_dumped_) {
     mps_.DumpTen(left_boundary_ + 1, GenMPSTenName(sweep_params.mps_path, left_boundary_ + 1), true);
     DMRGPostProcess_();
   }
+  ClearStopRequests_(); // the requests were for this run only
   SetStatus(ExecutorStatus::FINISH);
 }
 
@@ -390,6 +395,7 @@ void DMRGExecutor<TenElemT, QNT>::EmergencyDumpRelatedTens_() {
       break;
     default:assert(false);
   }
+  emergency_dumped_ = true;
 }
 
 template<typename TenElemT, typename QNT>
@@ -477,6 +483,7 @@ std::atomic<bool> DMRGExecutor<TenElemT, QNT>::emergency_stop_requested_(false);
 
 template<typename TenElemT, typename QNT>
 void DMRGExecutor<TenElemT, QNT>::SetUpSignalHandler_() {
+  ClearStopRequests_();
   sa_.sa_handler = &DMRGExecutor::SignalHandler_;
   sigemptyset(&sa_.sa_mask);
   sa_.sa_flags = SA_RESTART;
@@ -486,6 +493,12 @@ void DMRGExecutor<TenElemT, QNT>::SetUpSignalHandler_() {
   sigaction(SIGTERM, &sa_, nullptr);      //
 }
 
+template<typename TenElemT, typename QNT>
+void DMRGExecutor<TenElemT, QNT>::ClearStopRequests_() {
+  stop_requested_.store(false);
+  emergency_stop_requested_.store(false);
+}
+
 template<typename TenElemT, typename QNT>
 void DMRGExecutor<TenElemT, QNT>::SignalHandler_(int sig) {
   if (sig == SIGUSR1 || sig == SIGUSR2) {
-- 
2.43.0


From 3e4723918e1c621e89b72501a6a7bbc607809500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:45 +0000
Subject: [PATCH 24/26] fix: Lanczos solvers could return a ground state that
 is not normalised

---
 include/qlmps/algo_mpi/dmrg/lanczos_dmrg_solver_mpi_master.h | 2 ++
 include/qlmps/algo_mpi/vmps/lanczos_solver_mpi_master.h      | 2 ++
 include/qlmps/algorithm/dmrg/lanczos_dmrg_solver_impl.h      | 2 ++
 include/qlmps/algorithm/vmps/lanczos_vmps_solver_impl.h      | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/include/qlmps/algo_mpi/dmrg/lanczos_dmrg_solver_mpi_master.h b/include/qlmps/algo_mpi/dmrg/lanczos_dmrg_solver_mpi_master.h
index 5f2ab71..986dfeb 100644
--- a/include/qlmps/algo_mpi/dmrg/lanczos_dmrg_solver_mpi_master.h
+++ b/include/qlmps/algo_mpi/dmrg/lanczos_dmrg_solver_mpi_master.h
@@ -121,6 +121,7 @@ LanczosRes<QLTensor<TenElemT, QNT>> DMRGMPIMasterExecutor<TenElemT,
         TridiagGsSolver(a, b, m, eigval, eigvec, 'V');
         auto gs_vec = new Tensor(bases[0]->GetIndexes());
         LinearCombine(m, eigvec, bases, 0.0, gs_vec);
+        gs_vec->Normalize();  // the bases lose their orthogonality once the Krylov space is exhausted
         lancz_res.iters = m;
         lancz_res.gs_eng = energy0;
         lancz_res.gs_vec = gs_vec;
@@ -156,6 +157,7 @@ LanczosRes<QLTensor<TenElemT, QNT>> DMRGMPIMasterExecutor<TenElemT,
       energy0 = energy0_new;
       auto gs_vec = new Tensor(bases[0]->GetIndexes());
       LinearCombine(m + 1, eigvec, bases, 0.0, gs_vec);
+      gs_vec->Normalize();  // the bases lose their orthogonality once the Krylov space is exhausted
       lancz_res.iters = m + 1;
       lancz_res.gs_eng = energy0;
       lancz_res.gs_vec = gs_vec;
diff --git a/include/qlmps/algo_mpi/vmps/lanczos_solver_mpi_master.h b/include/qlmps/algo_mpi/vmps/lanczos_solver_mpi_master.h
index 3541677..df38b13 100644
--- a/include/qlmps/algo_mpi/vmps/lanczos_solver_mpi_master.h
+++ b/include/qlmps/algo_mpi/vmps/lanczos_solver_mpi_master.h
@@ -157,6 +157,7 @@ LanczosRes<TenT> MasterLanczosSolver(
 #endif
         auto gs_vec = new TenT(bases[0]->GetIndexes());
         LinearCombine(m, eigvec, bases, 0.0, gs_vec);
+        gs_vec->QuasiNormalize();  // the bases lose their orthogonality once the Krylov space is exhausted
 #ifdef QLMPS_TIMING_MODE
         final_linear_combine_timer.PrintElapsed();
 #endif
@@ -216,6 +217,7 @@ LanczosRes<TenT> MasterLanczosSolver(
       energy0 = energy0_new;
       auto gs_vec = new TenT(bases[0]->GetIndexes());
       LinearCombine(m + 1, eigvec, bases, 0.0, gs_vec);
+      gs_vec->QuasiNormalize();  // the bases lose their orthogonality once the Krylov space is exhausted
 #ifdef QLMPS_TIMING_MODE
       final_linear_combine_timer.PrintElapsed();
 #endif
diff --git a/include/qlmps/algorithm/dmrg/lanczos_dmrg_solver_impl.h b/include/qlmps/algorithm/dmrg/lanczos_dmrg_solver_impl.h
index d299820..424bc47 100644
--- a/include/qlmps/algorithm/dmrg/lanczos_dmrg_solver_impl.h
+++ b/include/qlmps/algorithm/dmrg/lanczos_dmrg_solver_impl.h
@@ -144,6 +144,7 @@ LanczosRes<TenT> LanczosSolver(
         TridiagGsSolver(a, b, m, eigval, eigvec, 'V');
         auto gs_vec = new TenT(bases[0]->GetIndexes());
         LinearCombine(m, eigvec, bases, 0.0, gs_vec);
+        gs_vec->Normalize();  // the bases lose their orthogonality once the Krylov space is exhausted
         lancz_res.iters = m;
         lancz_res.gs_eng = energy0;
         lancz_res.gs_vec = gs_vec;
@@ -186,6 +187,7 @@ LanczosRes<TenT> LanczosSolver(
       energy0 = energy0_new;
       auto gs_vec = new TenT(bases[0]->GetIndexes());
       LinearCombine(m + 1, eigvec, bases, 0.0, gs_vec);
+      gs_vec->Normalize();  // the bases lose their orthogonality once the Krylov space is exhausted
       lancz_res.iters = m + 1;
       lancz_res.gs_eng = energy0;
       lancz_res.gs_vec = gs_vec;
diff --git a/include/qlmps/algorithm/vmps/lanczos_vmps_solver_impl.h b/include/qlmps/algorithm/vmps/lanczos_vmps_solver_impl.h
index beb58f3..772e928 100644
--- a/include/qlmps/algorithm/vmps/lanczos_vmps_solver_impl.h
+++ b/include/qlmps/algorithm/vmps/lanczos_vmps_solver_impl.h
@@ -197,6 +197,7 @@ LanczosRes<TenT> LanczosSolver(
         TridiagGsSolver(a, b, m, eigval, eigvec, 'V');
         auto gs_vec = new TenT(bases[0]->GetIndexes());
         LinearCombine(m, eigvec, bases, 0.0, gs_vec);
+        gs_vec->QuasiNormalize();  // the bases lose their orthogonality once the Krylov space is exhausted
         lancz_res.iters = m;
         lancz_res.gs_eng = energy0;
         lancz_res.gs_vec = gs_vec;
@@ -239,6 +240,7 @@ LanczosRes<TenT> LanczosSolver(
       energy0 = energy0_new;
       auto gs_vec = new TenT(bases[0]->GetIndexes());
       LinearCombine(m + 1, eigvec, bases, 0.0, gs_vec);
+      gs_vec->QuasiNormalize();  // the bases lose their orthogonality once the Krylov space is exhausted
       lancz_res.iters = m + 1;
       lancz_res.gs_eng = energy0;
       lancz_res.gs_vec = gs_vec;
-- 
2.43.0


From 5674fdbd311cb3577aaf5cdb1cbaa708a1a6207d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:15 +0000
Subject: [PATCH 25/26] fix: TDVP with local_op_corr=false loaded the wrong
 tensor and overran its result table

---
 .../qlmps/algorithm/tdvp/two_site_update_finite_tdvp_impl.h   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/qlmps/algorithm/tdvp/two_site_update_finite_tdvp_impl.h b/include/qlmps/algorithm/tdvp/two_site_update_finite_tdvp_impl.h
index 53aad33..8b93d17 100644
--- a/include/qlmps/algorithm/tdvp/two_site_update_finite_tdvp_impl.h
+++ b/include/qlmps/algorithm/tdvp/two_site_update_finite_tdvp_impl.h
@@ -144,7 +144,7 @@ DynamicMeasuRes<TenElemT> TwoSiteFiniteTDVP(
 //  ActMpoOnMps(sweep_params.op0_mpo, mps, sweep_params.mps_path);
 
   size_t right_canonicalize_start_site = sweep_params.local_op_corr ? sweep_params.site_0 : (mps.size() - 1);
-  mps.LoadTen(right_canonicalize_start_site, GenMPSTenName(sweep_params.mps_path, sweep_params.site_0));
+  mps.LoadTen(right_canonicalize_start_site, GenMPSTenName(sweep_params.mps_path, right_canonicalize_start_site));
   for (size_t i = right_canonicalize_start_site; i > 0; i--) {
     mps.LoadTen(i - 1, GenMPSTenName(sweep_params.mps_path, i - 1));
     mps.RightCanonicalizeTen(i);
@@ -164,7 +164,7 @@ DynamicMeasuRes<TenElemT> TwoSiteFiniteTDVP(
   std::cout << "\n";
 
   const size_t N = mps.size();
-  const size_t measure_res_num = sweep_params.local_op_corr ? (N * (sweep_params.step + 1)) : (sweep_params.step + 1);
+  const size_t measure_res_num = N * (sweep_params.step + 1);
   DynamicMeasuRes<TenElemT> measure_res(measure_res_num);
 
   double time = 0.0;
-- 
2.43.0


From cae6e9ca394d2007ec2242349edc883c92336554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:06 +0000
Subject: [PATCH 26/26] fix: MPI TDVP on a single rank waited forever for
 workers

---
 .../tdvp/two_site_update_finite_tdvp_mpi_impl_master.h      | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/qlmps/algo_mpi/tdvp/two_site_update_finite_tdvp_mpi_impl_master.h b/include/qlmps/algo_mpi/tdvp/two_site_update_finite_tdvp_mpi_impl_master.h
index 972e009..3bcf805 100644
--- a/include/qlmps/algo_mpi/tdvp/two_site_update_finite_tdvp_mpi_impl_master.h
+++ b/include/qlmps/algo_mpi/tdvp/two_site_update_finite_tdvp_mpi_impl_master.h
@@ -64,8 +64,12 @@ DynamicMeasuRes<TenElemT> TwoSiteFiniteTDVP(
     const std::string &measure_file_base_name,
     const MPI_Comm &comm
 ) {
-  int rank;
+  int rank, mpi_size;
   MPI_Comm_rank(comm, &rank);
+  MPI_Comm_size(comm, &mpi_size);
+  if (mpi_size == 1) {
+    return TwoSiteFiniteTDVP(mps, mpo, sweep_params, measure_file_base_name);
+  }
   const size_t N = mps.size();
   DynamicMeasuRes<TenElemT> measure_res(N * (sweep_params.step + 1));
   if (rank == kMPIMasterRank) {
-- 
2.43.0

