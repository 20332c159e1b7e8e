From e1055ec25e6aa6429fb331d0001f23b54dcf9f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:49 +0000
Subject: [PATCH 01/45] fix: hash operators before moving them when
 constructing a presorted OperatorSequence

The list was moved into the constructed HashedSequence before being hashed, so sequences too long for the
inline buffer of sequence_storage_t got the hash of the emptied list.
---
 cpp/lib_moment/dictionary/operator_sequence.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/dictionary/operator_sequence.cpp b/cpp/lib_moment/dictionary/operator_sequence.cpp
index c51557b..68f27d5 100644
--- a/cpp/lib_moment/dictionary/operator_sequence.cpp
+++ b/cpp/lib_moment/dictionary/operator_sequence.cpp
@@ -41,7 +41,7 @@ namespace Moment {
                                        sequence_storage_t operators,
                                        const Context &context,
                                        const SequenceSignType sign_type) noexcept
-        : HashedSequence{std::move(operators), context.hash(operators), sign_type}, context{&context} {
+        : HashedSequence{std::move(operators), context.the_hasher(), sign_type}, context{&context} {
 
     }
 
-- 
2.43.0


From 6e035145c6343115a92bc504c7d44b01530d9e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:48 +0000
Subject: [PATCH 02/45] fix: DynamicBitset of size zero: full construction and
 complement no longer touch a missing page

---
 cpp/lib_moment/utilities/dynamic_bitset.h | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/cpp/lib_moment/utilities/dynamic_bitset.h b/cpp/lib_moment/utilities/dynamic_bitset.h
index 6143edc..0d6c6a9 100644
--- a/cpp/lib_moment/utilities/dynamic_bitset.h
+++ b/cpp/lib_moment/utilities/dynamic_bitset.h
@@ -101,7 +101,7 @@ namespace Moment {
         /** Construct an empty dynamic bitset with all values set to default_value */
         constexpr DynamicBitset(const index_t bit_size, const bool default_value)
             : DynamicBitset<page_t, index_t, storage_t>{bit_size} {
-            if (default_value) {
+            if (default_value && (page_count > 0)) {
                 for (index_t i = 0, iMax = page_count - 1; i < iMax; ++i) {
                     this->data[i] = ~static_cast<page_t>(0);
                 }
@@ -267,11 +267,8 @@ namespace Moment {
          * Copy bitset with all bits inverted
          */
         constexpr DynamicBitset<page_t, index_t, storage_t> operator~() const {
-            DynamicBitset<page_t, index_t, storage_t> output{this->bit_size};
-            for (index_t page = 0; page < (this->page_count-1); ++page) {
-                output.data[page] = ~this->data[page];
-            }
-            output.data[this->page_count - 1] = (~this->data[this->page_count - 1]) & output.final_page_mask;
+            DynamicBitset<page_t, index_t, storage_t> output{*this};
+            output.invert_in_place();
             return output;
         }
 
-- 
2.43.0


From b69e93df3160c9335508cf15c0b2c08122da1241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:53 +0000
Subject: [PATCH 03/45] fix: ByHashPolynomialFactory::maximum_degree no longer
 loops forever on symbols without an operator sequence

---
 cpp/lib_moment/symbolic/monomial_comparator_by_hash.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cpp/lib_moment/symbolic/monomial_comparator_by_hash.cpp b/cpp/lib_moment/symbolic/monomial_comparator_by_hash.cpp
index de4df98..17e0ca5 100644
--- a/cpp/lib_moment/symbolic/monomial_comparator_by_hash.cpp
+++ b/cpp/lib_moment/symbolic/monomial_comparator_by_hash.cpp
@@ -48,6 +48,7 @@ namespace Moment {
             if (symbol.has_sequence()) {
                 return symbol.sequence().size();
             }
+            ++rev_iter; // Symbol without sequence: try next (lower) symbol.
         }
 
         // Nothing found; 0 degree
-- 
2.43.0


From be7626b9c0a9af4598af91d58b77025792bdfe23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:26 +0000
Subject: [PATCH 04/45] fix: PolynomialFactory::sum drops zero monomials, so
 that sums stay canonical

---
 cpp/lib_moment/symbolic/polynomial_factory.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/cpp/lib_moment/symbolic/polynomial_factory.cpp b/cpp/lib_moment/symbolic/polynomial_factory.cpp
index 1dd0772..0086a30 100644
--- a/cpp/lib_moment/symbolic/polynomial_factory.cpp
+++ b/cpp/lib_moment/symbolic/polynomial_factory.cpp
@@ -104,6 +104,13 @@ namespace Moment {
             }
         }
 
+        // Zero terms do not contribute
+        if ((0 == lhs.id) || approximately_zero(lhs.factor, this->zero_tolerance)) {
+            return Polynomial{rhs, this->zero_tolerance};
+        } else if ((0 == rhs.id) || approximately_zero(rhs.factor, this->zero_tolerance)) {
+            return Polynomial{lhs, this->zero_tolerance};
+        }
+
         // Otherwise, construct as two element sum:
         if (this->less(lhs, rhs)) {
             return Polynomial{Polynomial::init_raw_tag{}, Polynomial::storage_t{lhs, rhs}};
@@ -113,6 +120,11 @@ namespace Moment {
     }
 
     Polynomial PolynomialFactory::sum(const Polynomial& lhs, const Monomial& rhs) const {
+        // Adding zero does nothing
+        if ((0 == rhs.id) || approximately_zero(rhs.factor, this->zero_tolerance)) {
+            return lhs;
+        }
+
         Polynomial output;
         output.data.reserve(lhs.size()+1);
 
-- 
2.43.0


From 8078f9aa8d79cf25885e84e20f0d03a1e2fab5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:46 +0000
Subject: [PATCH 05/45] fix: Polynomial::is_conjugate compares symbols that are
 neither Hermitian nor anti-Hermitian

---
 cpp/lib_moment/symbolic/polynomial.cpp | 40 +-------------------------
 1 file changed, 1 insertion(+), 39 deletions(-)

diff --git a/cpp/lib_moment/symbolic/polynomial.cpp b/cpp/lib_moment/symbolic/polynomial.cpp
index a4191f2..ca7a961 100644
--- a/cpp/lib_moment/symbolic/polynomial.cpp
+++ b/cpp/lib_moment/symbolic/polynomial.cpp
@@ -368,45 +368,7 @@ namespace Moment {
         if (this->data.size() != other.data.size()) {
             return false;
         }
-        for (size_t index = 0, iMax = this->data.size(); index < iMax; ++index) {
-            const auto& lhs_elem = this->data[index];
-            const auto& rhs_elem = other.data[index];
-
-            if (lhs_elem.id != rhs_elem.id) {
-                return false;
-            }
-            assert(lhs_elem.id < symbols.size());
-            const auto& symbolInfo = symbols[lhs_elem.id];
-
-            // Zero is zero.
-            if (lhs_elem.id == 0) {
-                continue;
-            }
-            // Nothing else is zero.
-            assert(!(symbolInfo.is_antihermitian() && symbolInfo.is_hermitian()));
-
-            if (symbolInfo.is_hermitian()) {
-                if (!approximately_equal(lhs_elem.factor, std::conj(rhs_elem.factor))) {
-                    return false;
-                }
-                // no need to compare conjugation, symbol is real.
-            } else if (symbolInfo.is_antihermitian()) {
-                // Symbol is purely imaginary; so either A = -A, or A = A*.
-                if (lhs_elem.factor == std::conj(rhs_elem.factor)) {
-                    if (lhs_elem.conjugated == rhs_elem.conjugated) {
-                        return false;
-                    }
-                } else if (lhs_elem.factor == -std::conj(rhs_elem.factor)) {
-                    if (lhs_elem.conjugated != rhs_elem.conjugated) {
-                        return false;
-                    }
-                } else {
-                    return false;
-                }
-            }
-        }
-
-        return true;
+        return this->conjugate(symbols).approximately_equals(other);
     }
 
     Polynomial Polynomial::Real(const PolynomialFactory &factory) const {
-- 
2.43.0


From df730848ce69e63ed45d4fa6bc35655f57522ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:25 +0000
Subject: [PATCH 06/45] fix: SymbolTable::fill_to_word_length keeps the sign of
 a word's conjugate

---
 cpp/lib_moment/symbolic/symbol_table.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/symbolic/symbol_table.cpp b/cpp/lib_moment/symbolic/symbol_table.cpp
index 7e87051..ce0b850 100644
--- a/cpp/lib_moment/symbolic/symbol_table.cpp
+++ b/cpp/lib_moment/symbolic/symbol_table.cpp
@@ -326,7 +326,7 @@ namespace Moment {
 
             if (seq_hash == conj_hash) {
                 build_unique.emplace_hint(build_unique.end(),
-                                          std::make_pair(seq_hash, Symbol{op_seq}));
+                                          std::make_pair(seq_hash, Symbol{op_seq, std::move(conj_seq)}));
             } else if (seq_hash < conj_hash) {
                 build_unique.emplace_hint(build_unique.end(),
                                           std::make_pair(seq_hash, Symbol{op_seq, std::move(conj_seq)}));
-- 
2.43.0


From 6914a138631d115db141be4670eea09ef0dba9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:12 +0000
Subject: [PATCH 07/45] fix: OperatorRulebook::reduce keeps the sign of a
 multiple of the identity

---
 cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp b/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
index 52f50f8..acb7591 100644
--- a/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
+++ b/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
@@ -191,9 +191,7 @@ namespace Moment::Algebraic {
 
     HashedSequence OperatorRulebook::reduce(const HashedSequence& input) const {
         // Empty string, or empty rulebook, should just be forwarded
-        if (input.empty()) {
-            return HashedSequence{input.zero()};
-        } else if (this->monomialRules.empty()) {
+        if (input.empty() || this->monomialRules.empty()) {
             return input;
         }
 
-- 
2.43.0


From 75f49e89db7d1274440f6f38c392579693d7ee8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:17 +0000
Subject: [PATCH 08/45] fix: operator rules equating a sequence with a
 different multiple of itself imply zero

---
 cpp/lib_moment/scenarios/algebraic/operator_rule.cpp     | 3 ++-
 cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp | 7 ++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/cpp/lib_moment/scenarios/algebraic/operator_rule.cpp b/cpp/lib_moment/scenarios/algebraic/operator_rule.cpp
index cd31409..eec60a8 100644
--- a/cpp/lib_moment/scenarios/algebraic/operator_rule.cpp
+++ b/cpp/lib_moment/scenarios/algebraic/operator_rule.cpp
@@ -78,7 +78,8 @@ namespace Moment::Algebraic {
         this->rawLHS.set_sign(SequenceSignType::Positive);
 
         // Determine if rule is trivial
-        this->is_trivial = (this->rawLHS.hash() == this->rawRHS.hash()) && !this->rawRHS.negated();
+        this->is_trivial = (this->rawLHS.hash() == this->rawRHS.hash())
+                            && (this->rawLHS.zero() || (this->rawRHS.get_sign() == SequenceSignType::Positive));
 
         // Check rule is a reduction
         if (rawLHS.hash() < rawRHS.hash()) {
diff --git a/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp b/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
index acb7591..e9e77cf 100644
--- a/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
+++ b/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
@@ -61,6 +61,11 @@ namespace Moment::Algebraic {
             return 0;
         }
 
+        // Rule equates a sequence with a different multiple of itself, and hence zero is implied...
+        if (rule.rawLHS.hash() == rule.rawRHS.hash()) {
+            return this->do_add_rule(OperatorRule{rule.LHS(), HashedSequence(true)}, logger);
+        }
+
         // Check if rule LHS already exists
         auto hashLHS = rule.rawLHS.hash();
         auto preexistingIter = this->monomialRules.find(hashLHS);
@@ -375,7 +380,7 @@ namespace Moment::Algebraic {
         const SequenceSignType relative_sign = difference(lhs.get_sign(), rhs.get_sign());
 
         // Special reduction if rule implies something is zero:
-        if ((lhs.hash() == rhs.hash()) && (relative_sign == SequenceSignType::Negative)) {
+        if ((lhs.hash() == rhs.hash()) && (relative_sign != SequenceSignType::Positive)) {
             lhs.set_sign(SequenceSignType::Positive);
             return OperatorRule{std::move(lhs), HashedSequence(true)};
         }
-- 
2.43.0


From 36c6597c65eefea1c116b21865be1a0d04fb03ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:52 +0000
Subject: [PATCH 09/45] fix: completion of operator rules considers every
 overlap, including those of a rule with itself

---
 .../scenarios/algebraic/operator_rule.cpp     |  14 ++-
 .../scenarios/algebraic/operator_rule.h       |  12 +++
 .../scenarios/algebraic/operator_rulebook.cpp | 102 ++++++++++--------
 3 files changed, 83 insertions(+), 45 deletions(-)

diff --git a/cpp/lib_moment/scenarios/algebraic/operator_rule.cpp b/cpp/lib_moment/scenarios/algebraic/operator_rule.cpp
index eec60a8..b2f0481 100644
--- a/cpp/lib_moment/scenarios/algebraic/operator_rule.cpp
+++ b/cpp/lib_moment/scenarios/algebraic/operator_rule.cpp
@@ -158,9 +158,17 @@ namespace Moment::Algebraic {
 
     std::optional<OperatorRule>
     OperatorRule::combine(const OperatorRule &other, const AlgebraicPrecontext& pc) const {
-        // First, do we have any overlap? If not, early exit.
-        ptrdiff_t overlap_size = this->LHS().suffix_prefix_overlap(other.rawLHS);
-        if (overlap_size <= 0) {
+        return this->combine(other, pc, this->LHS().suffix_prefix_overlap(other.rawLHS));
+    }
+
+    std::optional<OperatorRule>
+    OperatorRule::combine(const OperatorRule &other, const AlgebraicPrecontext& pc,
+                          const ptrdiff_t overlap_size) const {
+        // First, do we have such an overlap? If not, early exit.
+        if ((overlap_size <= 0)
+            || (overlap_size > static_cast<ptrdiff_t>(this->rawLHS.size()))
+            || (overlap_size > static_cast<ptrdiff_t>(other.rawLHS.size()))
+            || !std::equal(this->rawLHS.end() - overlap_size, this->rawLHS.end(), other.rawLHS.begin())) {
             return std::nullopt;
         }
 
diff --git a/cpp/lib_moment/scenarios/algebraic/operator_rule.h b/cpp/lib_moment/scenarios/algebraic/operator_rule.h
index 740b8b2..9094ed4 100644
--- a/cpp/lib_moment/scenarios/algebraic/operator_rule.h
+++ b/cpp/lib_moment/scenarios/algebraic/operator_rule.h
@@ -78,6 +78,18 @@ namespace Moment::Algebraic {
         [[nodiscard]] std::optional<OperatorRule> combine(const OperatorRule& other,
                                                           const AlgebraicPrecontext& precontext) const;
 
+        /**
+         * Forms a new rule by combining left-hand-sides of rules (suffix of this w/ prefix of other) that overlap by
+         * exactly the specified number of operators, and applying both rules to the joint string.
+         * @param other The rule to combine this with.
+         * @param hasher The hash function, for generating new rule.
+         * @param overlap_size The number of operators in the overlap.
+         * @return The new rule, if there is such an overlap, empty otherwise.
+         */
+        [[nodiscard]] std::optional<OperatorRule> combine(const OperatorRule& other,
+                                                          const AlgebraicPrecontext& precontext,
+                                                          ptrdiff_t overlap_size) const;
+
         /**
          * True, if this rule directly implies the supplied other rule.
          */
diff --git a/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp b/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
index e9e77cf..b42cc89 100644
--- a/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
+++ b/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
@@ -18,6 +18,14 @@
 
 namespace Moment::Algebraic {
 
+    namespace {
+        /** The most operators by which the end of A's LHS can overlap non-trivially with the start of B's LHS. */
+        [[nodiscard]] ptrdiff_t max_overlap(const OperatorRule& ruleA, const OperatorRule& ruleB) noexcept {
+            const auto shorter = static_cast<ptrdiff_t>(std::min(ruleA.LHS().size(), ruleB.LHS().size()));
+            return (&ruleA == &ruleB) ? (shorter - 1) : shorter;
+        }
+    }
+
     OperatorRulebook::OperatorRulebook(const AlgebraicPrecontext& apc,
                                        const std::vector<OperatorRule>& rules) :
             precontext{apc}, is_hermitian{apc.self_adjoint()} {
@@ -475,31 +483,43 @@ namespace Moment::Algebraic {
             return false;
         }
 
-        // Look for non-trivially overlapping rules
         for (auto iterA = this->monomialRules.begin(); iterA != this->monomialRules.end(); ++iterA) {
             auto &ruleA = iterA->second;
             for (auto iterB = this->monomialRules.begin(); iterB != this->monomialRules.end(); ++iterB) {
                 auto &ruleB = iterB->second;
-                // Don't compare to self
-                if (iterB == iterA) {
-                    continue;
-                }
 
-                // Can we form a rule by combining?
-                auto maybe_combined_rule = ruleA.combine(ruleB, this->precontext);
-                if (!maybe_combined_rule.has_value()) {
-                    continue;
+                // Look for a rule whose LHS occurs within another, but with a different outcome
+                if (iterB != iterA) {
+                    const auto match_iter = ruleA.matches_anywhere(ruleB.LHS().begin(), ruleB.LHS().end());
+                    if (match_iter != ruleB.LHS().end()) {
+                        auto via_A = ruleA.implies_zero()
+                                ? HashedSequence{true}
+                                : HashedSequence{ruleA.apply_match_with_hint(ruleB.LHS().raw(), match_iter),
+                                                 this->precontext.hasher, ruleA.rule_sign()};
+                        if (this->reduce(via_A) != this->reduce(ruleB.RHS())) {
+                            return false;
+                        }
+                    }
                 }
 
-                // Reduce new rule
-                auto combined_reduced_rule = this->reduce(maybe_combined_rule.value());
+                // Look for non-trivially overlapping rules (n.b. a rule's LHS can partially overlap with itself)
+                for (auto overlap = max_overlap(ruleA, ruleB); overlap > 0; --overlap) {
+                    // Can we form a rule by combining?
+                    auto maybe_combined_rule = ruleA.combine(ruleB, this->precontext, overlap);
+                    if (!maybe_combined_rule.has_value()) {
+                        continue;
+                    }
+
+                    // Reduce new rule
+                    auto combined_reduced_rule = this->reduce(maybe_combined_rule.value());
 
-                // Is the new rule trivial?
-                if (combined_reduced_rule.trivial()) {
-                    continue;
+                    // Is the new rule trivial?
+                    if (combined_reduced_rule.trivial()) {
+                        continue;
+                    }
+                    // Not complete: a non-trivial rule was found
+                    return false;
                 }
-                // Not complete: a non-trivial rule was found
-                return false;
             }
         }
         // Complete: no non-trivial rules were found.
@@ -511,42 +531,40 @@ namespace Moment::Algebraic {
         // First, reduce
         this->reduce_ruleset(logger);
 
-        // Look for non-trivially overlapping rules
+        // Look for non-trivially overlapping rules (n.b. a rule's LHS can partially overlap with itself)
         for (auto iterA = this->monomialRules.begin(); iterA != this->monomialRules.end(); ++iterA) {
             auto& ruleA = iterA->second;
             for (auto iterB = this->monomialRules.begin(); iterB != this->monomialRules.end(); ++iterB) {
                 auto& ruleB = iterB->second;
-                // Don't compare to self
-                if (iterB == iterA) {
-                    continue;
-                }
 
-                // Can we form a rule by combining?
-                auto maybe_combined_rule = ruleA.combine(ruleB, this->precontext);
-                if (!maybe_combined_rule.has_value()) {
-                    continue;
-                }
+                for (auto overlap = max_overlap(ruleA, ruleB); overlap > 0; --overlap) {
+                    // Can we form a rule by combining?
+                    auto maybe_combined_rule = ruleA.combine(ruleB, this->precontext, overlap);
+                    if (!maybe_combined_rule.has_value()) {
+                        continue;
+                    }
 
-                // Reduce new rule
-                auto combined_reduced_rule = this->reduce(maybe_combined_rule.value());
+                    // Reduce new rule
+                    auto combined_reduced_rule = this->reduce(maybe_combined_rule.value());
 
-                // Is the new rule trivial?
-                if (combined_reduced_rule.trivial()) {
-                    continue;
-                }
+                    // Is the new rule trivial?
+                    if (combined_reduced_rule.trivial()) {
+                        continue;
+                    }
 
-                // Non-trivial, add it to rule set
-                if (logger) {
-                    logger->rule_introduced(ruleA, ruleB, combined_reduced_rule);
-                }
-                size_t rule_hash = combined_reduced_rule.LHS().hash();
-                this->monomialRules.insert(std::make_pair(rule_hash, std::move(combined_reduced_rule)));
+                    // Non-trivial, add it to rule set
+                    if (logger) {
+                        logger->rule_introduced(ruleA, ruleB, combined_reduced_rule);
+                    }
+                    size_t rule_hash = combined_reduced_rule.LHS().hash();
+                    this->monomialRules.insert(std::make_pair(rule_hash, std::move(combined_reduced_rule)));
 
-                // Reduce ruleset
-                this->reduce_ruleset(logger);
+                    // Reduce ruleset
+                    this->reduce_ruleset(logger);
 
-                // Signal a rule was added
-                return true;
+                    // Signal a rule was added
+                    return true;
+                }
             }
         }
 
-- 
2.43.0


From 59342a5bce871bbec0afbcaca9ea0daf9696adf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:52 +0000
Subject: [PATCH 10/45] fix: conjugating a set of operator rules no longer
 skips the first rule after each addition

---
 cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp b/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
index b42cc89..b906c8f 100644
--- a/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
+++ b/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
@@ -601,9 +601,10 @@ namespace Moment::Algebraic {
                 // A new rule was added, iter is de facto invalidated, so restart at beginning of set...
                 rule_iter = this->rules().begin();
                 ++added;
+            } else {
+                // No new rule, try next rule in set...
+                ++rule_iter;
             }
-            // No new rule, try next rule in set...
-            ++rule_iter;
         }
 
         return added;
-- 
2.43.0


From f95290bedbf92e8a4ff39d4124138f6f31f8ff3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:52 +0000
Subject: [PATCH 11/45] fix: AlgebraicContext::conjugate carries the sign of a
 sequence over non-Hermitian operators

---
 cpp/lib_moment/scenarios/algebraic/algebraic_context.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/scenarios/algebraic/algebraic_context.cpp b/cpp/lib_moment/scenarios/algebraic/algebraic_context.cpp
index 522f266..742c8b3 100644
--- a/cpp/lib_moment/scenarios/algebraic/algebraic_context.cpp
+++ b/cpp/lib_moment/scenarios/algebraic/algebraic_context.cpp
@@ -159,7 +159,7 @@ namespace Moment::Algebraic {
             return OperatorSequence::Zero(*this);
         }
 
-        return OperatorSequence{this->precontext.conjugate(seq.raw()), *this};
+        return OperatorSequence{this->precontext.conjugate(seq.raw()), *this, Moment::conjugate(seq.get_sign())};
     }
 
 
-- 
2.43.0


From 0cc7e47b661d53f01998dddf224c6a7a9281ea7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:15 +0000
Subject: [PATCH 12/45] fix: OperatorRulebook::reduce_in_place leaves no sign
 on zero

---
 cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp b/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
index b906c8f..57691c7 100644
--- a/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
+++ b/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
@@ -252,8 +252,7 @@ namespace Moment::Algebraic {
                 input.set_sign(sign_type);
                 break;
             case RawReductionResult::SetToZero:
-                input.raw().clear();
-                input.rehash(0);
+                input.set_to_zero();
                 break;
         }
         return result;
-- 
2.43.0


From 41653c49ff523c381f5e84c5b09ae5cca9b3cc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:49 +0000
Subject: [PATCH 13/45] fix: OperatorRule leaves no sign on a right-hand side
 of zero

---
 cpp/lib_moment/scenarios/algebraic/operator_rule.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cpp/lib_moment/scenarios/algebraic/operator_rule.cpp b/cpp/lib_moment/scenarios/algebraic/operator_rule.cpp
index b2f0481..d563a30 100644
--- a/cpp/lib_moment/scenarios/algebraic/operator_rule.cpp
+++ b/cpp/lib_moment/scenarios/algebraic/operator_rule.cpp
@@ -74,7 +74,8 @@ namespace Moment::Algebraic {
               delta{static_cast<ptrdiff_t>(rawRHS.size()) - static_cast<ptrdiff_t>(rawLHS.size())} {
 
         // Move negation to RHS
-        this->rawRHS.set_sign(difference(this->rawLHS.get_sign(), this->rawRHS.get_sign()));
+        this->rawRHS.set_sign(this->rawRHS.zero() ? SequenceSignType::Positive // (zero has no sign)
+                              : difference(this->rawLHS.get_sign(), this->rawRHS.get_sign()));
         this->rawLHS.set_sign(SequenceSignType::Positive);
 
         // Determine if rule is trivial
-- 
2.43.0


From 57c91b6348ddfc2e11b7883640a72a2d7ee4e0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:04 +0000
Subject: [PATCH 14/45] fix: conjugating inconsistent operator rules (I -> 0)
 ends

---
 cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp b/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
index 57691c7..d34119d 100644
--- a/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
+++ b/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
@@ -205,6 +205,10 @@ namespace Moment::Algebraic {
     HashedSequence OperatorRulebook::reduce(const HashedSequence& input) const {
         // Empty string, or empty rulebook, should just be forwarded
         if (input.empty() || this->monomialRules.empty()) {
+            // ...except that inconsistent rules (I -> 0, always first in the rulebook) reduce the identity to zero
+            if (!this->monomialRules.empty() && this->monomialRules.begin()->second.LHS().empty()) {
+                return HashedSequence{true};
+            }
             return input;
         }
 
-- 
2.43.0


From 4db794b2bbd467018cceb16dfb685067516b74a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:24 +0000
Subject: [PATCH 15/45] fix: OperatorRulebook::reduce_ruleset leaves no
 reducible rule behind

---
 cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp b/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
index d34119d..c14d29a 100644
--- a/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
+++ b/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
@@ -464,18 +464,25 @@ namespace Moment::Algebraic {
             }
 
             // Test if rule has changed
+            bool changed = false;
             if ((isolated_rule.LHS().hash() != reduced_rule.LHS().hash()) ||
                 (isolated_rule.RHS() != reduced_rule.RHS())) {
                 if (logger) {
                     logger->rule_reduced(isolated_rule, reduced_rule);
                 }
                 ++number_reduced;
+                changed = true;
             }
 
             // Push reduced rule back into rule-set
             auto [entry_iter, new_entry] = this->monomialRules.insert(std::make_pair(reduced_hash,
                                                                                      std::move(reduced_rule)));
             assert(new_entry); // True, because if hash matches, rule would have been further reduced, or trivial.
+
+            // A changed rule might in turn reduce rules that were already processed, so restart.
+            if (changed) {
+                rule_iter = this->monomialRules.begin();
+            }
         }
         return number_reduced;
     }
-- 
2.43.0


From d88c7f5be3b0a8062f636f44fc23cf25634108af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:04 +0000
Subject: [PATCH 16/45] fix: Pauli product of zero with a phased identity is
 zero

---
 cpp/lib_moment/scenarios/pauli/pauli_context.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/lib_moment/scenarios/pauli/pauli_context.cpp b/cpp/lib_moment/scenarios/pauli/pauli_context.cpp
index c20ff0e..8bcac4e 100644
--- a/cpp/lib_moment/scenarios/pauli/pauli_context.cpp
+++ b/cpp/lib_moment/scenarios/pauli/pauli_context.cpp
@@ -194,8 +194,8 @@ namespace Moment::Pauli {
 
         // First, if RHS has no operators:
         if (rhs.empty()) {
-            if (rhs.zero()) {
-                // RHS is zero, so product is zero
+            if (rhs.zero() || lhs.zero()) {
+                // Either side is zero, so product is zero
                 return OperatorSequence::Zero(*this);
             } else {
                 // RHS is +1, +i, -1, or -i, so copy LHS with sign change.
-- 
2.43.0


From d1f217e840e8d237c0c1091db0564d86ad337a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:27 +0000
Subject: [PATCH 17/45] fix: chain rotation of up to 32 qubits wraps around the
 chain length

---
 cpp/lib_moment/scenarios/pauli/symmetry/site_hasher.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/scenarios/pauli/symmetry/site_hasher.h b/cpp/lib_moment/scenarios/pauli/symmetry/site_hasher.h
index 5231d2f..f4ba2e2 100644
--- a/cpp/lib_moment/scenarios/pauli/symmetry/site_hasher.h
+++ b/cpp/lib_moment/scenarios/pauli/symmetry/site_hasher.h
@@ -398,7 +398,7 @@ namespace Moment::Pauli {
          * Bit rotation for chain
          */
         [[nodiscard]] Datum cyclic_shift(const Datum input, size_t offset) const noexcept {
-            offset = 2 * (offset % qubits_per_slide);
+            offset = 2 * (offset % this->qubits);
             if (0 == offset) {
                 return input;
             }
-- 
2.43.0


From 9a2fea917d29140729bfe4e22f53ca5226cec9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:42 +0000
Subject: [PATCH 18/45] fix: rotation within columns of three or more slides
 wraps around the column height

---
 cpp/lib_moment/scenarios/pauli/symmetry/site_hasher.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/scenarios/pauli/symmetry/site_hasher.h b/cpp/lib_moment/scenarios/pauli/symmetry/site_hasher.h
index f4ba2e2..2c1b6ae 100644
--- a/cpp/lib_moment/scenarios/pauli/symmetry/site_hasher.h
+++ b/cpp/lib_moment/scenarios/pauli/symmetry/site_hasher.h
@@ -240,7 +240,7 @@ namespace Moment::Pauli {
         [[nodiscard]] Datum row_cyclic_shift(const Datum& input, size_t offset) const noexcept {
 
             // Normalize rotation, and get within-column offsets
-            offset = offset % this->row_width;
+            offset = offset % this->column_height;
             const storage_t bit_offset = 2ULL * offset;
             const storage_t bit_anti_offset = (this->column_height * 2ULL) - bit_offset;
 
-- 
2.43.0


From f0e6936a6cf7247fe78c68e692172640c8030c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:52 +0000
Subject: [PATCH 19/45] fix: rotate within columns of more than 32 qubits

---
 .../scenarios/pauli/symmetry/site_hasher.h    | 40 +++++++++++++++++--
 1 file changed, 37 insertions(+), 3 deletions(-)

diff --git a/cpp/lib_moment/scenarios/pauli/symmetry/site_hasher.h b/cpp/lib_moment/scenarios/pauli/symmetry/site_hasher.h
index 2c1b6ae..b551d4d 100644
--- a/cpp/lib_moment/scenarios/pauli/symmetry/site_hasher.h
+++ b/cpp/lib_moment/scenarios/pauli/symmetry/site_hasher.h
@@ -76,7 +76,7 @@ namespace Moment::Pauli {
         */
         [[nodiscard]] constexpr static storage_t
         calculate_mask_from_bits(const size_t num_bits) noexcept {
-            if ((2 * qubits_per_slide == num_bits) || (0 == num_bits)) {
+            if ((2 * qubits_per_slide <= num_bits) || (0 == num_bits)) {
                 return ~static_cast<storage_t>(0); // 0xff...ff
             }
 
@@ -93,6 +93,24 @@ namespace Moment::Pauli {
         calculate_mask_from_qubits(const size_t num_qubits) noexcept {
             return calculate_mask_from_bits(num_qubits*2);
         }
+
+        /**
+         * Rotate within columns, qubit by qubit: for columns too tall to be handled as one word.
+         * @param input The hash to rotate, over more than one slide.
+         * @param offset The number of rows to rotate by.
+         */
+        template<typename datum_t>
+        [[nodiscard]] datum_t rotate_tall_columns(const datum_t& input, const size_t offset) const noexcept {
+            datum_t output;
+            output.fill(0);
+            for (size_t qubit = 0; qubit < this->qubits; ++qubit) {
+                const size_t row = qubit % this->column_height;
+                const size_t target = (qubit - row) + ((row + offset) % this->column_height);
+                const storage_t value = (input[qubit / qubits_per_slide] >> (2 * (qubit % qubits_per_slide))) & 0x3;
+                output[target / qubits_per_slide] |= value << (2 * (target % qubits_per_slide));
+            }
+            return output;
+        }
     };
     
     
@@ -249,6 +267,11 @@ namespace Moment::Pauli {
                 return input;
             }
 
+            // Columns that do not fit into one word
+            if (this->column_height > qubits_per_slide) {
+                return this->rotate_tall_columns(input, offset);
+            }
+
             Datum output;
             output.fill(0);
 
@@ -500,11 +523,17 @@ namespace Moment::Pauli {
             }
 
             [[nodiscard]] constexpr inline storage_t evaluate(const Datum& input) const noexcept {
-                return ((input[0] & this->lhs_mask) >> lhs_anti_offset) | ((input[1] & this->rhs_mask) << rhs_offset);
+                const storage_t rhs = (input[1] & this->rhs_mask) << rhs_offset;
+                if (0 == this->lhs_mask) { // Aligned: nothing on the LHS (and the shift would be by the whole word)
+                    return rhs;
+                }
+                return ((input[0] & this->lhs_mask) >> lhs_anti_offset) | rhs;
             }
 
             constexpr inline void splice_in(Datum& output, storage_t value) const noexcept {
-                output[0] |= (value << lhs_anti_offset) & this->lhs_mask;
+                if (0 != this->lhs_mask) { // Otherwise aligned, with nothing on the LHS
+                    output[0] |= (value << lhs_anti_offset) & this->lhs_mask;
+                }
                 output[1] |= (value >> rhs_offset) & this->rhs_mask;
             }
         } boundary_info;
@@ -632,6 +661,11 @@ namespace Moment::Pauli {
                 return input;
             }
 
+            // Columns that do not fit into one word
+            if (this->column_height > qubits_per_slide) {
+                return this->rotate_tall_columns(input, offset);
+            }
+
             const storage_t bit_offset = 2 * offset;
             const storage_t bit_anti_offset = (this->column_height * 2) - bit_offset;
 
-- 
2.43.0


From 5ca005939689e6b993c04ee4ac70756fd6af47fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:09 +0000
Subject: [PATCH 20/45] fix: translate by negative offsets on wrapping chains
 and lattices

---
 .../pauli/symmetry/moment_simplifier_wrapping.h   | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/cpp/lib_moment/scenarios/pauli/symmetry/moment_simplifier_wrapping.h b/cpp/lib_moment/scenarios/pauli/symmetry/moment_simplifier_wrapping.h
index 764e85d..77eb1fc 100644
--- a/cpp/lib_moment/scenarios/pauli/symmetry/moment_simplifier_wrapping.h
+++ b/cpp/lib_moment/scenarios/pauli/symmetry/moment_simplifier_wrapping.h
@@ -68,9 +68,10 @@ namespace Moment::Pauli {
         [[nodiscard]] sequence_storage_t chain_offset(const std::span<const oper_name_t> input,
                                                       ptrdiff_t offset) const final {
             // Translate offsets to positive range:
-            offset = offset % this->context.qubit_size;
+            const auto chain_length = static_cast<ptrdiff_t>(this->site_hasher.qubits);
+            offset = offset % chain_length;
             if (offset < 0) {
-                offset = this->site_hasher.qubits - offset;
+                offset += chain_length;
             }
 
             // Via hash, shift:
@@ -84,14 +85,16 @@ namespace Moment::Pauli {
                                           ptrdiff_t row_offset,
                                           ptrdiff_t col_offset) const final {
             // Translate offsets to positive range:
-            row_offset = row_offset % this->context.qubit_size;
+            const auto number_rows = static_cast<ptrdiff_t>(this->site_hasher.column_height);
+            row_offset = row_offset % number_rows;
             if (row_offset < 0) {
-                row_offset = this->site_hasher.qubits - row_offset;
+                row_offset += number_rows;
             }
 
-            col_offset = col_offset % this->context.qubit_size;
+            const auto number_cols = static_cast<ptrdiff_t>(this->site_hasher.row_width);
+            col_offset = col_offset % number_cols;
             if (col_offset < 0) {
-                col_offset = this->site_hasher.qubits - col_offset;
+                col_offset += number_cols;
             }
 
             // Via hash, shift:
-- 
2.43.0


From 3923eaa8d2bbd8433f1b31cd069e200ec59b1823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:24 +0000
Subject: [PATCH 21/45] fix: symmetric fill of unaliased lattices visits every
 row

---
 cpp/lib_moment/scenarios/pauli/symmetry/lattice_duplicator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/scenarios/pauli/symmetry/lattice_duplicator.cpp b/cpp/lib_moment/scenarios/pauli/symmetry/lattice_duplicator.cpp
index 5affa3e..87d920a 100644
--- a/cpp/lib_moment/scenarios/pauli/symmetry/lattice_duplicator.cpp
+++ b/cpp/lib_moment/scenarios/pauli/symmetry/lattice_duplicator.cpp
@@ -97,7 +97,7 @@ namespace Moment::Pauli {
 
             // Lattice
             for (size_t col = 0; col < hasher.row_width; ++col) {
-                for (size_t row = (col != 0) ? 0 : 1; row < hasher.row_width; ++row) {
+                for (size_t row = (col != 0) ? 0 : 1; row < hasher.column_height; ++row) {
                     for (const auto& base_hash : base_hashes) {
                         output.emplace_back(OperatorSequence::ConstructPresortedFlag{},
                                             hasher.unhash(hasher.lattice_shift(base_hash, row, col)),
-- 
2.43.0


From b0af9f439ce47612ffd156ba84dfb869c69e816e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:38 +0000
Subject: [PATCH 22/45] fix: lattice alias test compares rows with the column
 height and columns with the row width

---
 .../scenarios/pauli/symmetry/lattice_duplicator.cpp           | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/lib_moment/scenarios/pauli/symmetry/lattice_duplicator.cpp b/cpp/lib_moment/scenarios/pauli/symmetry/lattice_duplicator.cpp
index 87d920a..391cf9d 100644
--- a/cpp/lib_moment/scenarios/pauli/symmetry/lattice_duplicator.cpp
+++ b/cpp/lib_moment/scenarios/pauli/symmetry/lattice_duplicator.cpp
@@ -145,8 +145,8 @@ namespace Moment::Pauli {
             // Reason from indices if aliasing is completely impossible
             MomentSimplifierNoWrappingLattice nowrap{duplicator.context};
             auto [max_row, max_col] = nowrap.lattice_supremum(lattice_indices);
-            const bool no_horz_alias = (max_row <= hasher.row_width/2);
-            const bool no_vert_alias = (max_col <= hasher.column_height/2);
+            const bool no_horz_alias = (max_col <= hasher.row_width/2);
+            const bool no_vert_alias = (max_row <= hasher.column_height/2);
             if (no_horz_alias && no_vert_alias) {
                 return do_unaliased_lattice_symmetric_fill(duplicator, output, hasher, lattice_indices);
             }
-- 
2.43.0


From 306e54842062960ad6fab164ee6ca3fd67821933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:36 +0000
Subject: [PATCH 23/45] fix: refuse an observable index equal to the number of
 observables when flattening inflation outcomes

---
 cpp/lib_moment/scenarios/inflation/inflation_context.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/scenarios/inflation/inflation_context.cpp b/cpp/lib_moment/scenarios/inflation/inflation_context.cpp
index 72a0bf8..f697b47 100644
--- a/cpp/lib_moment/scenarios/inflation/inflation_context.cpp
+++ b/cpp/lib_moment/scenarios/inflation/inflation_context.cpp
@@ -474,7 +474,7 @@ namespace Moment::Inflation {
         output.reserve(input.size());
         size_t index = 0;
         for (const auto& ov : input) {
-            if (ov.observable > this->inflated_observables.size()) {
+            if (ov.observable >= this->inflated_observables.size()) {
                 std::stringstream errSS;
                 errSS << "Observable \"" << ov.observable << "\" at index " << index << " out of range.";
                 throw errors::bad_observable{index, errSS.str()};
-- 
2.43.0


From 165895497ee70770749a1223f7a7025d78987ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:44 +0000
Subject: [PATCH 24/45] fix: factors of a product with zero combine to exactly
 one zero factor

---
 cpp/lib_moment/scenarios/inflation/factor_table.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cpp/lib_moment/scenarios/inflation/factor_table.cpp b/cpp/lib_moment/scenarios/inflation/factor_table.cpp
index 6212088..f743ac6 100644
--- a/cpp/lib_moment/scenarios/inflation/factor_table.cpp
+++ b/cpp/lib_moment/scenarios/inflation/factor_table.cpp
@@ -368,6 +368,7 @@ namespace Moment::Inflation {
         // If "0" is somehow a factor of either left or right, the product is zero
         assert(!output.empty());
         if (output[0] == 0) [[unlikely]] {
+            output.clear();
             output.emplace_back(0);
             return;
         }
-- 
2.43.0


From 6396425ab6fd04f2c804f4e00db995cbcc6c2c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:00 +0000
Subject: [PATCH 25/45] fix: copy factor lists before registering new factors
 in extended matrices (dangling references)

---
 cpp/lib_moment/scenarios/inflation/extended_matrix.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cpp/lib_moment/scenarios/inflation/extended_matrix.cpp b/cpp/lib_moment/scenarios/inflation/extended_matrix.cpp
index a4055a5..fec23cf 100644
--- a/cpp/lib_moment/scenarios/inflation/extended_matrix.cpp
+++ b/cpp/lib_moment/scenarios/inflation/extended_matrix.cpp
@@ -112,13 +112,14 @@ namespace Moment::Inflation {
 
             // Make bottom-right block
             for (size_t i = 0, iMax = extension_scalars.size(); i < iMax; ++i) {
-                const auto& row_factors = factors[extension_scalars[i]].canonical.symbols;
+                // Copy, because of possible re-allocation within factor table!
+                const auto row_factors = factors[extension_scalars[i]].canonical.symbols;
                 auto diag_fac_id = combine_and_register_factors(symbols, factors, row_factors, row_factors);
                 const std::array<size_t,2> diag_index{old_dimension+i, old_dimension+i};
                 extended_matrix(diag_index) = Monomial{diag_fac_id};
 
                 for (size_t j = i+1; j < iMax; ++j) {
-                    const auto& col_factors = factors[extension_scalars[j]].canonical.symbols;
+                    const auto col_factors = factors[extension_scalars[j]].canonical.symbols;
                     auto offdiag_fac_id = combine_and_register_factors(symbols, factors, row_factors, col_factors);
                     const std::array<size_t,2> upper_index{old_dimension+i, old_dimension+j};
                     extended_matrix(upper_index) = Monomial{offdiag_fac_id};
-- 
2.43.0


From ef921ef3c6b1a7e24c6d509a23ad382d6ddad3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:16 +0000
Subject: [PATCH 26/45] fix: refuse a global measurement index equal to the
 number of measurements in probability tensors

---
 cpp/lib_moment/probability/collins_gisin.cpp              | 4 ++--
 .../scenarios/inflation/inflation_collins_gisin.cpp       | 6 +++---
 .../scenarios/locality/locality_collins_gisin.cpp         | 6 +++---
 .../scenarios/locality/locality_probability_tensor.cpp    | 8 ++++----
 4 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/cpp/lib_moment/probability/collins_gisin.cpp b/cpp/lib_moment/probability/collins_gisin.cpp
index ea3e06d..835031e 100644
--- a/cpp/lib_moment/probability/collins_gisin.cpp
+++ b/cpp/lib_moment/probability/collins_gisin.cpp
@@ -169,7 +169,7 @@ namespace Moment {
         CollinsGisinIndex upper_bounds(this->Dimensions.size(), 1);
 
         for (auto mmtIndex : mmtIndices) {
-            if (mmtIndex > this->gmIndex.size()) {
+            if (mmtIndex >= this->gmIndex.size()) {
                 throw errors::BadCGError("Global measurement index out of bounds.");
             }
             const auto& gmInfo = this->gmIndex[mmtIndex];
@@ -191,7 +191,7 @@ namespace Moment {
 
         for (size_t n = 0; n < mmtIndices.size(); ++n) {
 
-            if (mmtIndices[n] > this->gmIndex.size()) {
+            if (mmtIndices[n] >= this->gmIndex.size()) {
                 throw errors::BadCGError("Global measurement index out of bounds.");
             }
             const auto& gmInfo = this->gmIndex[mmtIndices[n]];
diff --git a/cpp/lib_moment/scenarios/inflation/inflation_collins_gisin.cpp b/cpp/lib_moment/scenarios/inflation/inflation_collins_gisin.cpp
index af0f746..83e64c7 100644
--- a/cpp/lib_moment/scenarios/inflation/inflation_collins_gisin.cpp
+++ b/cpp/lib_moment/scenarios/inflation/inflation_collins_gisin.cpp
@@ -92,7 +92,7 @@ namespace Moment::Inflation {
 
         for (auto mmtIndex: mmtIndices) {
             const size_t global_mmt = this->inflationContext.obs_variant_to_index(mmtIndex);
-            if (global_mmt > this->gmIndex.size()) {
+            if (global_mmt >= this->gmIndex.size()) {
                 throw Moment::errors::BadCGError("Global measurement index out of bounds.");
             }
             const auto &gmInfo = this->gmIndex[global_mmt];
@@ -112,7 +112,7 @@ namespace Moment::Inflation {
         CollinsGisinIndex upper_bounds(this->Dimensions.size(), 1);
         for (auto mmtIndex: mmtIndices) {
             const size_t global_mmt = this->inflationContext.obs_variant_to_index(mmtIndex);
-            if (global_mmt > this->gmIndex.size()) {
+            if (global_mmt >= this->gmIndex.size()) {
                 throw Moment::errors::BadCGError("Global measurement index out of bounds.");
             }
             const auto &gmInfo = this->gmIndex[global_mmt];
@@ -125,7 +125,7 @@ namespace Moment::Inflation {
 
         for (auto mmtIndex: fixedOutcomes) {
             const size_t global_mmt = this->inflationContext.obs_variant_to_index(mmtIndex.observable_variant);
-            if (global_mmt > this->gmIndex.size()) {
+            if (global_mmt >= this->gmIndex.size()) {
                 throw Moment::errors::BadCGError("Global measurement index out of bounds.");
             }
             const auto &gmInfo = this->gmIndex[global_mmt];
diff --git a/cpp/lib_moment/scenarios/locality/locality_collins_gisin.cpp b/cpp/lib_moment/scenarios/locality/locality_collins_gisin.cpp
index 79a1f20..6b361f2 100644
--- a/cpp/lib_moment/scenarios/locality/locality_collins_gisin.cpp
+++ b/cpp/lib_moment/scenarios/locality/locality_collins_gisin.cpp
@@ -69,7 +69,7 @@ namespace Moment::Locality {
         CollinsGisinIndex lower_bounds(this->Dimensions.size(), 0);
         CollinsGisinIndex upper_bounds(this->Dimensions.size(), 1);
         for (auto mmtIndex : mmtIndices) {
-            if (mmtIndex.global_mmt > this->gmIndex.size()) {
+            if (mmtIndex.global_mmt >= this->gmIndex.size()) {
                 throw errors::BadCGError("Global measurement index out of bounds.");
             }
             const auto& gmInfo = this->gmIndex[mmtIndex.global_mmt];
@@ -88,7 +88,7 @@ namespace Moment::Locality {
         CollinsGisinIndex lower_bounds(this->Dimensions.size(), 0);
         CollinsGisinIndex upper_bounds(this->Dimensions.size(), 1);
         for (auto mmtIndex : mmtIndices) {
-            if (mmtIndex.global_mmt > this->gmIndex.size()) {
+            if (mmtIndex.global_mmt >= this->gmIndex.size()) {
                 throw errors::BadCGError("Global measurement index out of bounds.");
             }
             const auto& gmInfo = this->gmIndex[mmtIndex.global_mmt];
@@ -100,7 +100,7 @@ namespace Moment::Locality {
         }
 
         for (auto mmtIndex : fixedOutcomes) {
-            if (mmtIndex.global_mmt > this->gmIndex.size()) {
+            if (mmtIndex.global_mmt >= this->gmIndex.size()) {
                 throw errors::BadCGError("Global measurement index out of bounds.");
             }
             const auto& gmInfo = this->gmIndex[mmtIndex.global_mmt];
diff --git a/cpp/lib_moment/scenarios/locality/locality_probability_tensor.cpp b/cpp/lib_moment/scenarios/locality/locality_probability_tensor.cpp
index d43db38..e75aa85 100644
--- a/cpp/lib_moment/scenarios/locality/locality_probability_tensor.cpp
+++ b/cpp/lib_moment/scenarios/locality/locality_probability_tensor.cpp
@@ -52,7 +52,7 @@ namespace Moment::Locality {
         ProbabilityTensorIndex lower_bounds(this->Dimensions.size(), 0);
         ProbabilityTensorIndex  upper_bounds(this->Dimensions.size(), 1);
         for (auto mmtIndex : mmtIndices) {
-            if (mmtIndex.global_mmt > this->gmInfo.size()) {
+            if (mmtIndex.global_mmt >= this->gmInfo.size()) {
                 throw errors::BadCGError("Global measurement index out of bounds.");
             }
             const auto& gmEntry = this->gmInfo[mmtIndex.global_mmt];
@@ -73,7 +73,7 @@ namespace Moment::Locality {
         ProbabilityTensorIndex lower_bounds(this->Dimensions.size(), 0);
         ProbabilityTensorIndex upper_bounds(this->Dimensions.size(), 1);
         for (auto mmtIndex : freeMeasurements) {
-            if (mmtIndex.global_mmt > this->gmInfo.size()) {
+            if (mmtIndex.global_mmt >= this->gmInfo.size()) {
                 throw errors::BadPTError("Global measurement index out of bounds.");
             }
             const auto& gmEntry = this->gmInfo[mmtIndex.global_mmt];
@@ -85,7 +85,7 @@ namespace Moment::Locality {
         }
 
         for (auto mmtIndex : fixedOutcomes) {
-            if (mmtIndex.global_mmt > this->gmInfo.size()) {
+            if (mmtIndex.global_mmt >= this->gmInfo.size()) {
                 throw errors::BadPTError("Global measurement index out of bounds.");
             }
             const auto& gmEntry = this->gmInfo[mmtIndex.global_mmt];
@@ -104,7 +104,7 @@ namespace Moment::Locality {
         ProbabilityTensorIndex index(this->Dimensions.size(), 0);
 
         for (auto mmtIndex : fixedOutcomes) {
-            if (mmtIndex.global_mmt > this->gmInfo.size()) {
+            if (mmtIndex.global_mmt >= this->gmInfo.size()) {
                 throw errors::BadPTError("Global measurement index out of bounds.");
             }
             const auto& gmEntry = this->gmInfo[mmtIndex.global_mmt];
-- 
2.43.0


From a481458f01f66f327189b79a85048c7ef549a815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:49 +0000
Subject: [PATCH 27/45] fix: register Hermitian symbols with a positive
 sequence (negative words gave symbols of the wrong sign)

---
 cpp/lib_moment/matrix/monomial_matrix_factory.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cpp/lib_moment/matrix/monomial_matrix_factory.cpp b/cpp/lib_moment/matrix/monomial_matrix_factory.cpp
index 2c8e1c4..92c86c7 100644
--- a/cpp/lib_moment/matrix/monomial_matrix_factory.cpp
+++ b/cpp/lib_moment/matrix/monomial_matrix_factory.cpp
@@ -107,7 +107,7 @@ namespace Moment {
                         }
 
                         if (elem_hermitian) {
-                            build_unique.emplace_back(elem);
+                            build_unique.emplace_back(Symbol::construct_positive_tag{}, elem);
                             known_hashes.emplace(hash);
                         } else {
                             if (hash < conj_hash) {
@@ -167,7 +167,7 @@ namespace Moment {
                         }
 
                         if (elem_hermitian) {
-                            build_unique.emplace_back(elem);
+                            build_unique.emplace_back(Symbol::construct_positive_tag{}, elem);
                             known_hashes.emplace(hash);
                         } else {
                             if (hash < conj_hash) {
@@ -419,7 +419,7 @@ namespace Moment {
                 }
 
                 if (elem_hermitian) {
-                    unique_elements.emplace(hash, elem);
+                    unique_elements.emplace(hash, Symbol{Symbol::construct_positive_tag{}, elem});
                     known_hashes.emplace(hash);
                 } else {
                     if (hash < conj_hash) {
@@ -470,7 +470,7 @@ namespace Moment {
                 }
 
                 if (elem_hermitian) {
-                    unique_elements.emplace(hash, elem);
+                    unique_elements.emplace(hash, Symbol{Symbol::construct_positive_tag{}, elem});
                     known_hashes.emplace(hash);
                 } else {
                     if (hash < conj_hash) {
-- 
2.43.0


From 19eaaa0792c35ce6e05739d59e8ce715864fd017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:49 +0000
Subject: [PATCH 28/45] fix: write each symbol matrix entry from one thread
 only (transposed entries were written twice, concurrently)

---
 cpp/lib_moment/matrix/monomial_matrix_factory.cpp | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/cpp/lib_moment/matrix/monomial_matrix_factory.cpp b/cpp/lib_moment/matrix/monomial_matrix_factory.cpp
index 92c86c7..5c25e62 100644
--- a/cpp/lib_moment/matrix/monomial_matrix_factory.cpp
+++ b/cpp/lib_moment/matrix/monomial_matrix_factory.cpp
@@ -586,7 +586,6 @@ namespace Moment {
             for (size_t row_idx = 0; row_idx < row_length; ++row_idx) {
 
                 const size_t offset = (col_idx * row_length) + row_idx;
-                const size_t trans_offset = (row_idx * row_length) + col_idx;
                 const auto& elem = this->bundle.os_data_ptr[offset];
 
                 const size_t hash = elem.hash();
@@ -602,19 +601,9 @@ namespace Moment {
                 }
                 const auto& unique_elem = symbol_table[symbol_id];
 
-                // Write entry
+                // Write entry (the transposed entry is written when its own row and column are reached)
                 write_ptr[offset] = Monomial{unique_elem.Id(), prefactor * monomial_sign, conjugated};
 
-                // Write H conj entry
-                if (offset != trans_offset) {
-                    if (unique_elem.is_hermitian()) {
-                        write_ptr[trans_offset] = Monomial{unique_elem.Id(),
-                                                           prefactor * std::conj(monomial_sign), false};
-                    } else {
-                        write_ptr[trans_offset] = Monomial{unique_elem.Id(),
-                                                           prefactor * std::conj(monomial_sign), !conjugated};
-                    }
-                }
             }
         }
     }
-- 
2.43.0


From d45f3e5146cee306b1830bd712aff6923907ca96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:49 +0000
Subject: [PATCH 29/45] fix: tell apart matrix indices whose words differ only
 in sign

---
 .../matrix_system/indices/localizing_matrix_index.h        | 7 ++++++-
 cpp/lib_moment/scenarios/pauli/indices/monomial_index.h    | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/cpp/lib_moment/matrix_system/indices/localizing_matrix_index.h b/cpp/lib_moment/matrix_system/indices/localizing_matrix_index.h
index 5404846..d491416 100644
--- a/cpp/lib_moment/matrix_system/indices/localizing_matrix_index.h
+++ b/cpp/lib_moment/matrix_system/indices/localizing_matrix_index.h
@@ -41,7 +41,12 @@ namespace Moment {
             }
 
             // Then by sequence hash...
-            return (this->WordHash < rhs.WordHash);
+            if (this->WordHash != rhs.WordHash) {
+                return (this->WordHash < rhs.WordHash);
+            }
+
+            // Words differing only in sign share a hash, but are different words
+            return this->Word.get_sign() < rhs.Word.get_sign();
         }
 
         /**
diff --git a/cpp/lib_moment/scenarios/pauli/indices/monomial_index.h b/cpp/lib_moment/scenarios/pauli/indices/monomial_index.h
index f38185c..6270947 100644
--- a/cpp/lib_moment/scenarios/pauli/indices/monomial_index.h
+++ b/cpp/lib_moment/scenarios/pauli/indices/monomial_index.h
@@ -62,7 +62,12 @@ namespace Moment::Pauli {
             }
 
             // Tie-break on word hash
-            return this->WordHash < pmmi.WordHash;
+            if (this->WordHash != pmmi.WordHash) {
+                return this->WordHash < pmmi.WordHash;
+            }
+
+            // Words differing only in sign share a hash, but are different words
+            return this->Word.get_sign() < pmmi.Word.get_sign();
         }
 
         [[nodiscard]] operator ::Moment::LocalizingMatrixIndex() const {
-- 
2.43.0


From 36b4b9c79df59c0c6fb63187f471ea16ecf74ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:49 +0000
Subject: [PATCH 30/45] fix: multiply a matrix by the word of a monomial, not
 by its conjugate

---
 cpp/lib_moment/matrix/symbolic_matrix.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/lib_moment/matrix/symbolic_matrix.cpp b/cpp/lib_moment/matrix/symbolic_matrix.cpp
index 320de12..ca75e00 100644
--- a/cpp/lib_moment/matrix/symbolic_matrix.cpp
+++ b/cpp/lib_moment/matrix/symbolic_matrix.cpp
@@ -156,8 +156,8 @@ namespace Moment {
             // Resolve monomial into operator sequence using symbol table
             assert(mono.id >= 0 && mono.id < symbol_registry.size());
             assert(symbol_registry[mono.id].has_sequence());
-            const auto &op_sequence = mono.conjugated ? symbol_registry[mono.id].sequence()
-                                                      : symbol_registry[mono.id].sequence_conj();
+            const auto &op_sequence = mono.conjugated ? symbol_registry[mono.id].sequence_conj()
+                                                      : symbol_registry[mono.id].sequence();
 
             // Invoke operator sequence multiplication
             if constexpr (premultiply) {
-- 
2.43.0


From fc2ee11394cf9e35fb58a712aeaf53540adeb4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:49 +0000
Subject: [PATCH 31/45] fix: clone polynomial matrices (adding zero to one
 threw cannot_clone_exception)

---
 cpp/lib_moment/matrix/polynomial_matrix.cpp | 9 +++++++++
 cpp/lib_moment/matrix/polynomial_matrix.h   | 2 ++
 2 files changed, 11 insertions(+)

diff --git a/cpp/lib_moment/matrix/polynomial_matrix.cpp b/cpp/lib_moment/matrix/polynomial_matrix.cpp
index 364ad3b..541ee2b 100644
--- a/cpp/lib_moment/matrix/polynomial_matrix.cpp
+++ b/cpp/lib_moment/matrix/polynomial_matrix.cpp
@@ -192,6 +192,15 @@ namespace Moment {
         this->complex_basis = !this->imaginary_basis_elements.empty();
     }
 
+    std::unique_ptr<SymbolicMatrix> PolynomialMatrix::clone(Multithreading::MultiThreadPolicy policy) const {
+        std::vector<Polynomial> cloned_data(this->sym_exp_matrix->begin(), this->sym_exp_matrix->end());
+        auto copied_matrix = std::make_unique<PolynomialMatrix>(this->context, this->symbol_table, 1.0,
+                                                                std::make_unique<MatrixData>(this->dimension,
+                                                                                             std::move(cloned_data)));
+        this->copy_properties_onto_clone(*copied_matrix);
+        return copied_matrix;
+    }
+
 
 
 
diff --git a/cpp/lib_moment/matrix/polynomial_matrix.h b/cpp/lib_moment/matrix/polynomial_matrix.h
index d8ab5ff..beb12ee 100644
--- a/cpp/lib_moment/matrix/polynomial_matrix.h
+++ b/cpp/lib_moment/matrix/polynomial_matrix.h
@@ -114,6 +114,8 @@ namespace Moment {
             throw errors::cannot_multiply_exception{"PolynomialMatrix::post_multiply not implemented."};
         }
 
+        std::unique_ptr<SymbolicMatrix> clone(Multithreading::MultiThreadPolicy policy) const override;
+
         using SymbolicMatrix::add;
 
         std::unique_ptr<PolynomialMatrix> add(const Monomial& rhs, const PolynomialFactory& poly_factory,
-- 
2.43.0


From c5a1adb203ed786aa99bd8896efbb564a1660b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:49 +0000
Subject: [PATCH 32/45] fix: clone monomial matrices that have no operator
 matrix (null dereference)

---
 cpp/lib_moment/matrix/monomial_matrix.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/cpp/lib_moment/matrix/monomial_matrix.cpp b/cpp/lib_moment/matrix/monomial_matrix.cpp
index 9bd2d78..fef374a 100644
--- a/cpp/lib_moment/matrix/monomial_matrix.cpp
+++ b/cpp/lib_moment/matrix/monomial_matrix.cpp
@@ -168,15 +168,18 @@ namespace Moment {
                                                                               std::move(cloned_symbol_data));
 
         // Make copy of the matrix
-        std::unique_ptr<MonomialMatrix> copied_matrix =
-                std::make_unique<MonomialMatrix>(symbol_table,
-                                                this->has_unaliased_operator_matrix()
-                                                    ? this->unaliased_operator_matrix().clone(policy)
-                                                    : nullptr,
+        std::unique_ptr<MonomialMatrix> copied_matrix;
+        if (this->has_unaliased_operator_matrix()) {
+            copied_matrix = std::make_unique<MonomialMatrix>(symbol_table,
+                                                this->unaliased_operator_matrix().clone(policy),
                                                 context.can_have_aliases() && this->has_aliased_operator_matrix()
                                                      ? this->aliased_operator_matrix().clone(policy)
                                                      : nullptr,
                                                  std::move(cloned_symbol_matrix));
+        } else {
+            copied_matrix = std::make_unique<MonomialMatrix>(this->context, symbol_table, 1.0,
+                                                             std::move(cloned_symbol_matrix), this->hermitian);
+        }
 
         // Copy other matrix properties:
         this->copy_properties_onto_clone(*copied_matrix);
-- 
2.43.0


From 92e1819ccf0f0b4bbd06c9b2fc25f8d39fc29635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:49 +0000
Subject: [PATCH 33/45] fix: determine hermicity of matrices with a complex
 prefactor from their elements

---
 cpp/lib_moment/matrix/monomial_matrix.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/cpp/lib_moment/matrix/monomial_matrix.cpp b/cpp/lib_moment/matrix/monomial_matrix.cpp
index fef374a..498b0d0 100644
--- a/cpp/lib_moment/matrix/monomial_matrix.cpp
+++ b/cpp/lib_moment/matrix/monomial_matrix.cpp
@@ -22,6 +22,21 @@
 
 
 namespace Moment {
+    namespace {
+        [[nodiscard]] bool test_hermicity(const SymbolTable& symbols, const SquareMatrix<Monomial>& matrix) {
+            for (size_t row = 0; row < matrix.dimension; ++row) {
+                for (size_t col = row; col < matrix.dimension; ++col) {
+                    const Polynomial upper{matrix(std::array<size_t, 2>{row, col})};
+                    const Polynomial lower{matrix(std::array<size_t, 2>{col, row})};
+                    if (!upper.is_conjugate(symbols, lower)) {
+                        return false;
+                    }
+                }
+            }
+            return true;
+        }
+    }
+
     MonomialMatrix::MonomialMatrix(const Context& context, SymbolTable& symbols, const double zero_tolerance,
                                    std::unique_ptr<SquareMatrix<Monomial>> symbolMatrix,
                                    const bool constructed_as_hermitian, std::complex<double> factor)
@@ -67,6 +82,11 @@ namespace Moment {
         } else if (this->unaliased_op_mat) { // Otherwise, properties from unaliased matrix
             this->unaliased_op_mat->set_properties(*this);
         }
+
+        // With a complex prefactor, the symbolic matrix and the operator matrix need not agree on hermicity
+        if (prefactor.imag() != 0.0) {
+            this->hermitian = test_hermicity(symbols, *this->sym_exp_matrix);
+        }
     }
 
     MonomialMatrix::~MonomialMatrix() noexcept = default;
-- 
2.43.0


From 0cae79b60b363a36eb64bf9c873d557475303fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:49 +0000
Subject: [PATCH 34/45] fix: refuse to delete the matrix one past the last
 (out-of-range access)

---
 cpp/lib_moment/matrix_system/matrix_system.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/matrix_system/matrix_system.cpp b/cpp/lib_moment/matrix_system/matrix_system.cpp
index 98b0ee9..37aa9cb 100644
--- a/cpp/lib_moment/matrix_system/matrix_system.cpp
+++ b/cpp/lib_moment/matrix_system/matrix_system.cpp
@@ -93,7 +93,7 @@ namespace Moment {
     bool MatrixSystem::delete_matrix(const MaintainsMutex::WriteLock& lock, ptrdiff_t index) noexcept {
         assert(this->is_locked_write_lock(lock));
         // No deletion for bad index
-        if ((index < 0) || (index > this->matrices.size())) {
+        if ((index < 0) || (index >= this->matrices.size())) {
             return false;
         }
         // No deletion for missing matrix
-- 
2.43.0


From b9fd33b268b06a09ea5fd27dd8faf469ee1788ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:49 +0000
Subject: [PATCH 35/45] fix: keep the signs of words (and of their conjugates)
 when turning words into monomials

---
 .../matrix/monomial_matrix_factory.cpp         | 18 +++++++++++++++---
 cpp/lib_moment/symbolic/polynomial_factory.cpp | 16 +++++++++++++---
 cpp/lib_moment/symbolic/symbol.h               |  8 ++++++++
 3 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/cpp/lib_moment/matrix/monomial_matrix_factory.cpp b/cpp/lib_moment/matrix/monomial_matrix_factory.cpp
index 5c25e62..f545cae 100644
--- a/cpp/lib_moment/matrix/monomial_matrix_factory.cpp
+++ b/cpp/lib_moment/matrix/monomial_matrix_factory.cpp
@@ -202,7 +202,7 @@ namespace Moment {
 
                     const size_t hash = elem.hash();
 
-                    const auto monomial_sign = to_scalar(elem.get_sign());
+                    auto monomial_sign = to_scalar(elem.get_sign());
 
                     auto [symbol_id, conjugated] = symbol_table.hash_to_index(hash);
                     if (symbol_id == std::numeric_limits<ptrdiff_t>::max()) {
@@ -212,6 +212,9 @@ namespace Moment {
                         throw std::logic_error{ss.str()};
                     }
                     const auto& unique_elem = symbol_table[symbol_id];
+                    if (conjugated) {
+                        monomial_sign *= std::conj(to_scalar(unique_elem.conjugate_sign()));
+                    }
 
                     if constexpr (has_prefactor) {
                         symbolic_representation[iter.Offset()] = Monomial{unique_elem.Id(), prefactor * monomial_sign,
@@ -272,6 +275,9 @@ namespace Moment {
                         throw std::logic_error{ss.str()};
                     }
                     const auto& unique_elem = symbol_table[symbol_id];
+                    if (conjugated) {
+                        elem_factor *= std::conj(to_scalar(unique_elem.conjugate_sign()));
+                    }
 
                     symbolic_representation[offset] = Monomial{unique_elem.Id(), elem_factor, conjugated};
                 }
@@ -554,7 +560,7 @@ namespace Moment {
                 const size_t offset = (col_idx * row_length) + row_idx;
                 const auto& elem = this->bundle.os_data_ptr[offset];
 
-                const auto mono_factor = prefactor * to_scalar(elem.get_sign());
+                auto mono_factor = prefactor * to_scalar(elem.get_sign());
                 const size_t hash = elem.hash();
                 auto [symbol_id, conjugated] = symbol_table.hash_to_index(hash);
 
@@ -565,6 +571,9 @@ namespace Moment {
                     throw std::logic_error{ss.str()};
                 }
                 const auto& unique_elem = symbol_table[symbol_id];
+                if (conjugated) {
+                    mono_factor *= std::conj(to_scalar(unique_elem.conjugate_sign()));
+                }
 
                 this->bundle.sm_data_ptr[offset] = Monomial{unique_elem.Id(),
                                                             mono_factor,
@@ -589,7 +598,7 @@ namespace Moment {
                 const auto& elem = this->bundle.os_data_ptr[offset];
 
                 const size_t hash = elem.hash();
-                const auto monomial_sign = to_scalar(elem.get_sign());
+                auto monomial_sign = to_scalar(elem.get_sign());
 
                 auto [symbol_id, conjugated] = symbol_table.hash_to_index(hash);
 
@@ -600,6 +609,9 @@ namespace Moment {
                     throw std::logic_error{ss.str()};
                 }
                 const auto& unique_elem = symbol_table[symbol_id];
+                if (conjugated) {
+                    monomial_sign *= std::conj(to_scalar(unique_elem.conjugate_sign()));
+                }
 
                 // Write entry (the transposed entry is written when its own row and column are reached)
                 write_ptr[offset] = Monomial{unique_elem.Id(), prefactor * monomial_sign, conjugated};
diff --git a/cpp/lib_moment/symbolic/polynomial_factory.cpp b/cpp/lib_moment/symbolic/polynomial_factory.cpp
index 0086a30..5f9f9e3 100644
--- a/cpp/lib_moment/symbolic/polynomial_factory.cpp
+++ b/cpp/lib_moment/symbolic/polynomial_factory.cpp
@@ -47,6 +47,16 @@ namespace Moment {
     }
 
     namespace {
+        /** Monomial for an operator sequence found in the symbol table, taking signs into account. */
+        [[nodiscard]] inline Monomial
+        make_monomial(const SymbolTable& symbols, const RawPolynomialElement& elem, const SymbolLookupResult& search) {
+            auto factor = elem.weight * to_scalar(elem.sequence.get_sign());
+            if (search.is_conjugated) {
+                factor *= std::conj(to_scalar(search->conjugate_sign()));
+            }
+            return Monomial{search->Id(), factor, search.is_conjugated};
+        }
+
         [[nodiscard]] inline Polynomial::storage_t
         make_storage_data_from_raw(const SymbolTable& symbols, const RawPolynomial& raw) {
             Polynomial::storage_t output_storage;
@@ -57,7 +67,7 @@ namespace Moment {
                     throw errors::unregistered_operator_sequence{elem.sequence.formatted_string(), elem.sequence.hash()};
                 }
                 assert(search.symbol != nullptr); // ^- above should throw if this is true.
-                output_storage.emplace_back(search->Id(), elem.weight, search.is_conjugated);
+                output_storage.emplace_back(make_monomial(symbols, elem, search));
             }
             return output_storage;
         }
@@ -73,10 +83,10 @@ namespace Moment {
                     const symbol_name_t inserted_id = symbols.merge_in(OperatorSequence{elem.sequence});
                     auto search_again = symbols.where(elem.sequence); // Search again, could be alised, or conjugated.
                     assert(search_again.found());
-                    output_storage.emplace_back(search_again->Id(), elem.weight, search_again.is_conjugated);
+                    output_storage.emplace_back(make_monomial(symbols, elem, search_again));
                 } else {
                     assert(search.symbol != nullptr);
-                    output_storage.emplace_back(search->Id(), elem.weight, search.is_conjugated);
+                    output_storage.emplace_back(make_monomial(symbols, elem, search));
                 }
             }
             return output_storage;
diff --git a/cpp/lib_moment/symbolic/symbol.h b/cpp/lib_moment/symbolic/symbol.h
index eed34eb..73b74a4 100644
--- a/cpp/lib_moment/symbolic/symbol.h
+++ b/cpp/lib_moment/symbolic/symbol.h
@@ -91,6 +91,14 @@ namespace Moment {
             return this->hermitian ? opSeq.value() : this->conjSeq.value();
         }
 
+        /**
+         * The sign of the operator sequence associated with this entry's complex conjugate.
+         */
+        [[nodiscard]] constexpr SequenceSignType conjugate_sign() const noexcept {
+            return (this->hermitian || !this->conjSeq.has_value()) ? SequenceSignType::Positive
+                                                                   : this->conjSeq->get_sign();
+        }
+
         /**
          * Does the operator sequence represent its Hermitian conjugate?
          * If true, the element will correspond to a real symbol (cf. complex if not) in the NPA matrix.
-- 
2.43.0


From 948768b3f05afff9166ae0aacb8ed8c51ad13540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:49 +0000
Subject: [PATCH 36/45] fix: collect terms of raw polynomials with their signs

---
 cpp/lib_moment/dictionary/raw_polynomial.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cpp/lib_moment/dictionary/raw_polynomial.cpp b/cpp/lib_moment/dictionary/raw_polynomial.cpp
index 319cfbb..54ec605 100644
--- a/cpp/lib_moment/dictionary/raw_polynomial.cpp
+++ b/cpp/lib_moment/dictionary/raw_polynomial.cpp
@@ -113,9 +113,11 @@ namespace Moment {
         std::map<hash_t, RawPolynomialElement> intermediate;
         for (auto& element : this->data) {
             if (!element.sequence.zero()) {
+                // Words differing only in sign share a hash: put sign into weight
+                element.weight *= to_scalar(element.sequence.get_sign());
+                element.sequence.set_sign(SequenceSignType::Positive);
                 auto [iter_where, did_insert] = intermediate.insert(std::make_pair(element.sequence.hash(), element));
                 if (!did_insert) {
-                    assert(element.sequence.get_sign() == SequenceSignType::Positive);
                     iter_where->second.weight += element.weight;
                 }
             }
-- 
2.43.0


From a9ddd832e09a3d6c950359dea1bfa62c2d979cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:48 +0000
Subject: [PATCH 37/45] fix: keep the sign of a word when relabelling sources
 in inflation moments

---
 cpp/lib_moment/scenarios/inflation/inflation_context.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cpp/lib_moment/scenarios/inflation/inflation_context.cpp b/cpp/lib_moment/scenarios/inflation/inflation_context.cpp
index f697b47..3965857 100644
--- a/cpp/lib_moment/scenarios/inflation/inflation_context.cpp
+++ b/cpp/lib_moment/scenarios/inflation/inflation_context.cpp
@@ -417,10 +417,11 @@ namespace Moment::Inflation {
 
         // If source-relabelling causes change in operator order, there could be further simplifications:
         if (!std::is_sorted(permuted_operators.cbegin(), permuted_operators.cend())) {
-            return this->simplify_as_moment(OperatorSequence{std::move(permuted_operators), *this}); // recurse..!
+            return this->simplify_as_moment(OperatorSequence{std::move(permuted_operators), *this,
+                                                             input.get_sign()}); // recurse..!
         }
 
-        return OperatorSequence{std::move(permuted_operators), *this};
+        return OperatorSequence{std::move(permuted_operators), *this, input.get_sign()};
     }
 
 
-- 
2.43.0


From 2971c69cb6625ecc5ab8d6dc9f387e9e4568cfc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:57 +0000
Subject: [PATCH 38/45] fix: register words that are Hermitian only thanks to
 an imaginary sign as anti-Hermitian symbols

---
 cpp/lib_moment/matrix/monomial_matrix_factory.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cpp/lib_moment/matrix/monomial_matrix_factory.cpp b/cpp/lib_moment/matrix/monomial_matrix_factory.cpp
index f545cae..428ebf4 100644
--- a/cpp/lib_moment/matrix/monomial_matrix_factory.cpp
+++ b/cpp/lib_moment/matrix/monomial_matrix_factory.cpp
@@ -107,7 +107,7 @@ namespace Moment {
                         }
 
                         if (elem_hermitian) {
-                            build_unique.emplace_back(Symbol::construct_positive_tag{}, elem);
+                            build_unique.emplace_back(elem, conj_elem);
                             known_hashes.emplace(hash);
                         } else {
                             if (hash < conj_hash) {
@@ -167,7 +167,7 @@ namespace Moment {
                         }
 
                         if (elem_hermitian) {
-                            build_unique.emplace_back(Symbol::construct_positive_tag{}, elem);
+                            build_unique.emplace_back(elem, conj_elem);
                             known_hashes.emplace(hash);
                         } else {
                             if (hash < conj_hash) {
@@ -425,7 +425,7 @@ namespace Moment {
                 }
 
                 if (elem_hermitian) {
-                    unique_elements.emplace(hash, Symbol{Symbol::construct_positive_tag{}, elem});
+                    unique_elements.emplace(hash, Symbol{elem, conj_elem});
                     known_hashes.emplace(hash);
                 } else {
                     if (hash < conj_hash) {
@@ -476,7 +476,7 @@ namespace Moment {
                 }
 
                 if (elem_hermitian) {
-                    unique_elements.emplace(hash, Symbol{Symbol::construct_positive_tag{}, elem});
+                    unique_elements.emplace(hash, Symbol{elem, conj_elem});
                     known_hashes.emplace(hash);
                 } else {
                     if (hash < conj_hash) {
-- 
2.43.0


From 33c484b9988ff72c950b296b72d7f1347b7fc408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:57 +0000
Subject: [PATCH 39/45] fix: register the words of a raw polynomial before
 indexing a composite matrix by it

---
 cpp/lib_moment/matrix/composite_matrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/matrix/composite_matrix.h b/cpp/lib_moment/matrix/composite_matrix.h
index 6993ff2..a3d8009 100644
--- a/cpp/lib_moment/matrix/composite_matrix.h
+++ b/cpp/lib_moment/matrix/composite_matrix.h
@@ -259,7 +259,7 @@ namespace Moment {
             }
 
             // Make approximate and true index
-            auto aliased_polynomial = poly_factory.construct(raw_polynomial);
+            auto aliased_polynomial = poly_factory.register_and_construct(symbols, raw_polynomial);
             return std::make_unique<ImplType>(context, symbols, system.polynomial_factory(),
                                               polynomial_index_t{std::move(osg_index), std::move(aliased_polynomial)},
                                               std::move(constituents),
-- 
2.43.0


From e3d94270ed7a3facfb16d38872b04193dfc53aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:52 +0000
Subject: [PATCH 40/45] fix: imaginary part of a polynomial used the real
 part's coefficients of Hermitian basis elements

---
 cpp/lib_moment/symbolic/polynomial_to_basis.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/symbolic/polynomial_to_basis.cpp b/cpp/lib_moment/symbolic/polynomial_to_basis.cpp
index fdd2ab2..feb8450 100644
--- a/cpp/lib_moment/symbolic/polynomial_to_basis.cpp
+++ b/cpp/lib_moment/symbolic/polynomial_to_basis.cpp
@@ -230,7 +230,7 @@ namespace Moment {
                     // Im(Z) can be non-zero
                     if constexpr(export_imaginary) {
                         if (!approximately_zero(bz_factor_ax, zero_tolerance)) {
-                            imaginary_output.real.insert(basis_X_real) = az_factor_ax;
+                            imaginary_output.real.insert(basis_X_real) = bz_factor_ax;
                         }
                     }
 
-- 
2.43.0


From 1153702821be5ee82ccf07dc71dc3015772f46cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:52 +0000
Subject: [PATCH 41/45] fix: complex basis vector from real and imaginary parts
 multiplied the real part by i

---
 cpp/lib_moment/symbolic/polynomial_to_basis.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/symbolic/polynomial_to_basis.h b/cpp/lib_moment/symbolic/polynomial_to_basis.h
index 58877b6..f268fd8 100644
--- a/cpp/lib_moment/symbolic/polynomial_to_basis.h
+++ b/cpp/lib_moment/symbolic/polynomial_to_basis.h
@@ -54,7 +54,7 @@ namespace Moment {
 
         ComplexBasisVector() = default;
         explicit ComplexBasisVector(const RealAndImaginaryBasisVector& expr) {
-            this->real = (std::complex<double>{0.0, 1.0} * expr.real_part.real)
+            this->real = (std::complex<double>{1.0, 0.0} * expr.real_part.real)
                             + std::complex<double>{0.0, 1.0} * expr.imaginary_part.real;
             this->imaginary = (std::complex<double>{1.0, 0.0} * expr.real_part.imaginary)
                             + std::complex<double>{0.0, 1.0} * expr.imaginary_part.imaginary;
-- 
2.43.0


From 04253faf6db19d459fa6d196ab69f7108bfeb19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:52 +0000
Subject: [PATCH 42/45] fix: basis mask of a monomial left out the first real
 and the first imaginary basis element

---
 cpp/lib_moment/symbolic/polynomial_to_basis_mask.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/lib_moment/symbolic/polynomial_to_basis_mask.cpp b/cpp/lib_moment/symbolic/polynomial_to_basis_mask.cpp
index cc0a373..2f19e21 100644
--- a/cpp/lib_moment/symbolic/polynomial_to_basis_mask.cpp
+++ b/cpp/lib_moment/symbolic/polynomial_to_basis_mask.cpp
@@ -99,10 +99,10 @@ namespace Moment {
         }
         auto& symbol_info = this->symbols[monomial.id];
         auto [re_basis_index, im_basis_index] = symbol_info.basis_key();
-        if (re_basis_index > 0) {
+        if (re_basis_index >= 0) {
             real_mask.set(re_basis_index);
         }
-        if (im_basis_index > 0) {
+        if (im_basis_index >= 0) {
             imaginary_mask.set(im_basis_index);
         }
     }
-- 
2.43.0


From dc9b0d2acc0ad12d8e34ad26f9c615e6491761bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:52 +0000
Subject: [PATCH 43/45] fix: sparse matrices with entries only above the
 diagonal were taken for (anti-)Hermitian

---
 cpp/lib_moment/utilities/eigen_utils.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cpp/lib_moment/utilities/eigen_utils.cpp b/cpp/lib_moment/utilities/eigen_utils.cpp
index 69e994b..6c01ebf 100644
--- a/cpp/lib_moment/utilities/eigen_utils.cpp
+++ b/cpp/lib_moment/utilities/eigen_utils.cpp
@@ -78,7 +78,7 @@ namespace Moment {
 
         for (Eigen::Index outer = 0; outer < data.outerSize(); ++outer) {
             for  (inner_iter_t inner_iter{data, outer}; inner_iter; ++inner_iter) {
-                if (inner_iter.row() > outer) {
+                if (inner_iter.row() != outer) {
                     if (!approximately_equal(data.coeff(inner_iter.col(), inner_iter.row()),
                                              inner_iter.value(), zero_tolerance)) {
                         return false;
@@ -103,7 +103,7 @@ namespace Moment {
                     if (!approximately_real(inner_iter.value(), zero_tolerance)) {
                         return false;
                     }
-                } else if (inner_iter.row() > outer) {
+                } else {
                     if (!approximately_equal(std::conj(data.coeff(inner_iter.col(), inner_iter.row())),
                                              inner_iter.value(), zero_tolerance)) {
                         return false;
@@ -145,7 +145,7 @@ namespace Moment {
                     if (!approximately_imaginary(inner_iter.value(), zero_tolerance)) {
                         return false;
                     }
-                } else if (inner_iter.row() > outer) {
+                } else {
                     if (!approximately_equal(-std::conj(data.coeff(inner_iter.col(), inner_iter.row())),
                                              inner_iter.value(), zero_tolerance)) {
                         return false;
-- 
2.43.0


From cb63848a08a9a4e13c6ac9846270d70f3edef987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:52 +0000
Subject: [PATCH 44/45] fix: take the weight into account when deciding whether
 a multiplied value matrix is Hermitian

---
 cpp/lib_moment/matrix/value_matrix.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/cpp/lib_moment/matrix/value_matrix.cpp b/cpp/lib_moment/matrix/value_matrix.cpp
index 783fef0..1d91e27 100644
--- a/cpp/lib_moment/matrix/value_matrix.cpp
+++ b/cpp/lib_moment/matrix/value_matrix.cpp
@@ -206,12 +206,15 @@ namespace Moment {
 
             // Deduce if Hermitian
             const bool new_matrix_hermitian = [&]() {
+                const auto lhs_ht = lhs.hermitian_type();
+                const bool real_weight = approximately_real(weight, poly_factory.zero_tolerance);
+                const bool imaginary_weight = approximately_imaginary(weight, poly_factory.zero_tolerance);
                 if (this->hermitian) {
-                    auto lhs_ht = lhs.hermitian_type();
-                    return (lhs_ht == HermitianType::Hermitian);
+                    return (real_weight && (lhs_ht == HermitianType::Hermitian))
+                        || (imaginary_weight && (lhs_ht == HermitianType::AntiHermitian));
                 } else if (this->antihermitian) {
-                    auto lhs_ht = lhs.hermitian_type();
-                    return (lhs_ht == HermitianType::AntiHermitian);
+                    return (real_weight && (lhs_ht == HermitianType::AntiHermitian))
+                        || (imaginary_weight && (lhs_ht == HermitianType::Hermitian));
                 } else {
                     return false;
                 }
-- 
2.43.0


From b0a9593094fdc2db40043001db1b8dc55ece76dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:52 +0000
Subject: [PATCH 45/45] fix: resolve references between partially constrained
 symbols when exporting rules to the basis

---
 .../rules/moment_rulebook_to_basis.cpp        | 45 ++++++++++---------
 1 file changed, 25 insertions(+), 20 deletions(-)

diff --git a/cpp/lib_moment/symbolic/rules/moment_rulebook_to_basis.cpp b/cpp/lib_moment/symbolic/rules/moment_rulebook_to_basis.cpp
index a82aa51..0092c04 100644
--- a/cpp/lib_moment/symbolic/rules/moment_rulebook_to_basis.cpp
+++ b/cpp/lib_moment/symbolic/rules/moment_rulebook_to_basis.cpp
@@ -41,6 +41,7 @@ namespace Moment {
 
         PolynomialToBasisVec to_basis{this->symbols, this->zero_tolerance};
         std::vector<Eigen::Triplet<double>> triplets;
+        size_t skew_rules = 0; // Rules that fix a direction aligned with neither real nor imaginary axis.
 
         for (const auto& [symbol_id, rule] : rulebook) {
             assert(symbol_id < this->symbols.size());
@@ -59,6 +60,7 @@ namespace Moment {
                 } else {
                     assert(lhs_has_real);
                     assert(lhs_has_im);
+                    ++skew_rules;
 
                     // Real and imaginary bits!?
                     const double cos_delta = rule.partial_direction().real();
@@ -101,31 +103,34 @@ namespace Moment {
             }
         }
 
-        if (export_mode == ExportMode::Rewrite) {
-            // Insert ID for non-mentioned elements
-            mask_real.invert_in_place();
-            for (auto index: mask_real) {
-                triplets.emplace_back(index, index, 1.0);
-            }
-            mask_imaginary.invert_in_place();
-            for (auto index: mask_imaginary) {
-                triplets.emplace_back(num_real_elems + index, num_real_elems + index, 1.0);
-            }
-        } else {
-            assert(export_mode == ExportMode::Homogeneous);
-            // Subtract ID from mentioned elements
-            for (auto index: mask_real) {
-                triplets.emplace_back(index, index, -1.0);
-            }
-
-            for (auto index: mask_imaginary) {
-                triplets.emplace_back(num_real_elems + index, num_real_elems + index, -1.0);
-            }
+        // Insert ID for non-mentioned elements
+        mask_real.invert_in_place();
+        for (auto index: mask_real) {
+            triplets.emplace_back(index, index, 1.0);
+        }
+        mask_imaginary.invert_in_place();
+        for (auto index: mask_imaginary) {
+            triplets.emplace_back(num_real_elems + index, num_real_elems + index, 1.0);
         }
 
         // Construct matrix
         output_t output{num_elems, num_elems};
         output.setFromTriplets(triplets.begin(), triplets.end());
+
+        // Rules might refer to an element that is itself expressed by a skew rule in terms of other elements: substitute.
+        for (size_t depth = 1; depth <= skew_rules; depth *= 2) {
+            output = output_t{output * output};
+            output.prune(0.0);
+        }
+
+        if (export_mode == ExportMode::Homogeneous) {
+            // Subtract ID: rows of unconstrained elements vanish
+            output_t identity{num_elems, num_elems};
+            identity.setIdentity();
+            output = output_t{output - identity};
+            output.prune(0.0);
+        }
+
         return output;
     }
 
-- 
2.43.0

