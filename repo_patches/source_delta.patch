From ced0256cdf29346cf52115b057aba931fe7e9d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:48 +0000
Subject: [PATCH 01/50] fix: report failures of symbolic and theory atom
 queries in the C++ API

The return values of clingo_symbolic_atoms_{symbol,literal,is_fact,is_external,signatures_size}
and clingo_control_theory_atoms were ignored; a failure was turned into a garbage symbol,
literal 0, or a null object.
---
 libclingo/clingo.hh | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/libclingo/clingo.hh b/libclingo/clingo.hh
index 1dd6e70..931886d 100644
--- a/libclingo/clingo.hh
+++ b/libclingo/clingo.hh
@@ -2603,25 +2603,25 @@ inline bool operator>=(Symbol a, Symbol b) { return !clingo_symbol_is_less_than(
 
 inline Symbol SymbolicAtom::symbol() const {
     clingo_symbol_t ret = 0;
-    clingo_symbolic_atoms_symbol(atoms_, range_, &ret);
+    Detail::handle_error(clingo_symbolic_atoms_symbol(atoms_, range_, &ret));
     return Symbol(ret);
 }
 
 inline clingo_literal_t SymbolicAtom::literal() const {
     clingo_literal_t ret = 0;
-    clingo_symbolic_atoms_literal(atoms_, range_, &ret);
+    Detail::handle_error(clingo_symbolic_atoms_literal(atoms_, range_, &ret));
     return ret;
 }
 
 inline bool SymbolicAtom::is_fact() const {
     bool ret = false;
-    clingo_symbolic_atoms_is_fact(atoms_, range_, &ret);
+    Detail::handle_error(clingo_symbolic_atoms_is_fact(atoms_, range_, &ret));
     return ret;
 }
 
 inline bool SymbolicAtom::is_external() const {
     bool ret = false;
-    clingo_symbolic_atoms_is_external(atoms_, range_, &ret);
+    Detail::handle_error(clingo_symbolic_atoms_is_external(atoms_, range_, &ret));
     return ret;
 }
 
@@ -2674,7 +2674,7 @@ inline SymbolicAtomIterator SymbolicAtoms::find(Symbol atom) const {
 
 inline std::vector<Signature> SymbolicAtoms::signatures() const {
     size_t n = 0;
-    clingo_symbolic_atoms_signatures_size(atoms_, &n);
+    Detail::handle_error(clingo_symbolic_atoms_signatures_size(atoms_, &n));
     Signature sig("", 0);
     std::vector<Signature> ret;
     ret.resize(n, sig);
@@ -4377,7 +4377,7 @@ inline SymbolicAtoms Control::symbolic_atoms() const {
 
 inline TheoryAtoms Control::theory_atoms() const {
     clingo_theory_atoms_t const *ret = nullptr;
-    clingo_control_theory_atoms(*impl_, &ret);
+    Detail::handle_error(clingo_control_theory_atoms(*impl_, &ret));
     return TheoryAtoms{ret};
 }
 
-- 
2.43.0


From 3db7fd2b2ce54fcc6fe9e5e9d62d8acc451649ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:48 +0000
Subject: [PATCH 02/50] fix: close solve handles, backends, and program
 builders only once in the C++ API

If closing failed, the object was closed a second time by the destructor running during
stack unwinding (a double free for solve handles and std::terminate if it failed again).
---
 libclingo/clingo.hh | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/libclingo/clingo.hh b/libclingo/clingo.hh
index 931886d..b200360 100644
--- a/libclingo/clingo.hh
+++ b/libclingo/clingo.hh
@@ -3209,8 +3209,9 @@ inline SolveHandle::~SolveHandle() noexcept(false) { close(); }
 
 inline void SolveHandle::close() {
     if (iter_ != nullptr) {
-        Detail::handle_error(clingo_solve_handle_close(iter_), *exception_);
+        auto *iter = iter_;
         iter_ = nullptr;
+        Detail::handle_error(clingo_solve_handle_close(iter), *exception_);
     }
 }
 
@@ -3231,8 +3232,9 @@ inline Backend::~Backend() noexcept(false) { close(); }
 
 inline void Backend::close() {
     if (backend_ != nullptr) {
-        Detail::handle_error(clingo_backend_end(backend_));
+        auto *backend = backend_;
         backend_ = nullptr;
+        Detail::handle_error(clingo_backend_end(backend));
     }
 }
 
@@ -4098,8 +4100,9 @@ inline ProgramBuilder::ProgramBuilder(ProgramBuilder &&builder) noexcept : build
 
 inline void ProgramBuilder::close() {
     if (builder_ != nullptr) {
-        Detail::handle_error(clingo_program_builder_end(builder_));
+        auto *builder = builder_;
         builder_ = nullptr;
+        Detail::handle_error(clingo_program_builder_end(builder));
     }
 }
 
-- 
2.43.0


From 2611ff5c996f316ff568b8a514830cbc5417958f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:48 +0000
Subject: [PATCH 03/50] fix: do not report callback exceptions of a past search
 in Control::statistics

---
 libclingo/clingo.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingo/clingo.hh b/libclingo/clingo.hh
index b200360..6e0bbf0 100644
--- a/libclingo/clingo.hh
+++ b/libclingo/clingo.hh
@@ -4671,7 +4671,7 @@ inline Configuration Control::configuration() {
 
 inline Statistics Control::statistics() const {
     clingo_statistics_t const *stats = nullptr;
-    Detail::handle_error(clingo_control_statistics(impl_->ctl, &stats), impl_->ptr);
+    Detail::handle_error(clingo_control_statistics(impl_->ctl, &stats));
     uint64_t key = 0;
     Detail::handle_error(clingo_statistics_root(stats, &key));
     return Statistics{stats, key};
-- 
2.43.0


From 415d1dd9fb3dd325f56d708016396ed884c007e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:05 +0000
Subject: [PATCH 04/50] fix: pass on exceptions of observers called by the
 backend and external statements

Exceptions thrown by ground program observers while Backend functions, assign_external,
release_external or load run were dropped and replaced by an unrelated engine error.
---
 libclingo/clingo.hh | 109 +++++++++++++++++++++++++++-----------------
 1 file changed, 67 insertions(+), 42 deletions(-)

diff --git a/libclingo/clingo.hh b/libclingo/clingo.hh
index 6e0bbf0..585b4d8 100644
--- a/libclingo/clingo.hh
+++ b/libclingo/clingo.hh
@@ -1568,9 +1568,16 @@ enum class TheorySequenceType {
     Set = clingo_theory_sequence_type_set,
 };
 
+namespace Detail {
+
+class AssignOnce;
+
+} // namespace Detail
+
 class Backend {
   public:
     explicit Backend(clingo_backend_t *backend);
+    explicit Backend(clingo_backend_t *backend, Detail::AssignOnce &ptr);
     Backend(Backend const &backend) = delete;
     Backend(Backend &&backend) noexcept;
     Backend &operator=(Backend const &backend) = delete;
@@ -1602,7 +1609,10 @@ class Backend {
     clingo_backend_t *to_c() const { return backend_; }
 
   private:
+    void handle_error_(bool ret) const;
+
     clingo_backend_t *backend_ = nullptr;
+    Detail::AssignOnce *exception_ = nullptr;
 };
 
 // {{{1 statistics
@@ -1741,12 +1751,6 @@ inline void SolveEventHandler::on_statistics(UserStatistics step, UserStatistics
 
 inline void SolveEventHandler::on_finish(SolveResult result) { static_cast<void>(result); }
 
-namespace Detail {
-
-class AssignOnce;
-
-} // namespace Detail
-
 class SolveHandle {
   public:
     SolveHandle() = default;
@@ -3221,11 +3225,27 @@ inline Backend::Backend(Backend &&backend) noexcept { *this = std::move(backend)
 
 inline Backend &Backend::operator=(Backend &&backend) noexcept {
     std::swap(backend_, backend.backend_);
+    std::swap(exception_, backend.exception_);
     return *this;
 }
 
 inline Backend::Backend(clingo_backend_t *backend) : backend_{backend} {
-    Detail::handle_error(clingo_backend_begin(backend_));
+    handle_error_(clingo_backend_begin(backend_));
+}
+
+inline Backend::Backend(clingo_backend_t *backend, Detail::AssignOnce &ptr) : backend_{backend}, exception_{&ptr} {
+    exception_->reset();
+    handle_error_(clingo_backend_begin(backend_));
+}
+
+inline void Backend::handle_error_(bool ret) const {
+    if (!ret && exception_ != nullptr) {
+        // NOTE: exceptions of observers called by the backend
+        std::exception_ptr exc = **exception_;
+        exception_->reset();
+        Detail::handle_error(ret, exc);
+    }
+    Detail::handle_error(ret);
 }
 
 inline Backend::~Backend() noexcept(false) { close(); }
@@ -3234,115 +3254,115 @@ inline void Backend::close() {
     if (backend_ != nullptr) {
         auto *backend = backend_;
         backend_ = nullptr;
-        Detail::handle_error(clingo_backend_end(backend));
+        handle_error_(clingo_backend_end(backend));
     }
 }
 
 inline void Backend::rule(bool choice, AtomSpan head, LiteralSpan body) {
-    Detail::handle_error(clingo_backend_rule(backend_, choice, head.begin(), head.size(), body.begin(), body.size()));
+    handle_error_(clingo_backend_rule(backend_, choice, head.begin(), head.size(), body.begin(), body.size()));
 }
 
 inline void Backend::weight_rule(bool choice, AtomSpan head, weight_t lower, WeightedLiteralSpan body) {
-    Detail::handle_error(clingo_backend_weight_rule(backend_, choice, head.begin(), head.size(), lower,
-                                                    Detail::cast<clingo_weighted_literal_t const *>(body.begin()),
-                                                    body.size()));
+    handle_error_(clingo_backend_weight_rule(backend_, choice, head.begin(), head.size(), lower,
+                                             Detail::cast<clingo_weighted_literal_t const *>(body.begin()),
+                                             body.size()));
 }
 
 inline void Backend::minimize(weight_t prio, WeightedLiteralSpan body) {
-    Detail::handle_error(clingo_backend_minimize(
-        backend_, prio, Detail::cast<clingo_weighted_literal_t const *>(body.begin()), body.size()));
+    handle_error_(clingo_backend_minimize(backend_, prio, Detail::cast<clingo_weighted_literal_t const *>(body.begin()),
+                                          body.size()));
 }
 
 inline void Backend::project(AtomSpan atoms) {
-    Detail::handle_error(clingo_backend_project(backend_, atoms.begin(), atoms.size()));
+    handle_error_(clingo_backend_project(backend_, atoms.begin(), atoms.size()));
 }
 
 inline void Backend::external(atom_t atom, ExternalType type) {
-    Detail::handle_error(clingo_backend_external(backend_, atom, static_cast<clingo_external_type_t>(type)));
+    handle_error_(clingo_backend_external(backend_, atom, static_cast<clingo_external_type_t>(type)));
 }
 
 inline void Backend::assume(LiteralSpan lits) {
-    Detail::handle_error(clingo_backend_assume(backend_, lits.begin(), lits.size()));
+    handle_error_(clingo_backend_assume(backend_, lits.begin(), lits.size()));
 }
 
 inline void Backend::heuristic(atom_t atom, HeuristicType type, int bias, unsigned priority, LiteralSpan condition) {
-    Detail::handle_error(clingo_backend_heuristic(backend_, atom, static_cast<clingo_heuristic_type_t>(type), bias,
-                                                  priority, condition.begin(), condition.size()));
+    handle_error_(clingo_backend_heuristic(backend_, atom, static_cast<clingo_heuristic_type_t>(type), bias, priority,
+                                           condition.begin(), condition.size()));
 }
 
 inline void Backend::acyc_edge(int node_u, int node_v, LiteralSpan condition) {
-    Detail::handle_error(clingo_backend_acyc_edge(backend_, node_u, node_v, condition.begin(), condition.size()));
+    handle_error_(clingo_backend_acyc_edge(backend_, node_u, node_v, condition.begin(), condition.size()));
 }
 
 inline atom_t Backend::add_atom() {
     clingo_atom_t ret = 0;
-    Detail::handle_error(clingo_backend_add_atom(backend_, nullptr, &ret));
+    handle_error_(clingo_backend_add_atom(backend_, nullptr, &ret));
     return ret;
 }
 
 inline atom_t Backend::add_atom(Symbol symbol) {
     clingo_atom_t ret = 0;
     clingo_symbol_t sym = symbol.to_c();
-    Detail::handle_error(clingo_backend_add_atom(backend_, &sym, &ret));
+    handle_error_(clingo_backend_add_atom(backend_, &sym, &ret));
     return ret;
 }
 
 inline id_t Backend::add_theory_term_number(int number) {
     clingo_id_t ret = 0;
-    Detail::handle_error(clingo_backend_theory_term_number(backend_, number, &ret));
+    handle_error_(clingo_backend_theory_term_number(backend_, number, &ret));
     return ret;
 }
 
 inline id_t Backend::add_theory_term_string(char const *string) {
     clingo_id_t ret = 0;
-    Detail::handle_error(clingo_backend_theory_term_string(backend_, string, &ret));
+    handle_error_(clingo_backend_theory_term_string(backend_, string, &ret));
     return ret;
 }
 
 inline id_t Backend::add_theory_term_sequence(TheorySequenceType type, IdSpan elements) {
     clingo_id_t ret = 0;
-    Detail::handle_error(clingo_backend_theory_term_sequence(backend_, static_cast<clingo_theory_sequence_type_e>(type),
-                                                             elements.data(), elements.size(), &ret));
+    handle_error_(clingo_backend_theory_term_sequence(backend_, static_cast<clingo_theory_sequence_type_e>(type),
+                                                      elements.data(), elements.size(), &ret));
     return ret;
 }
 
 inline id_t Backend::add_theory_term_function(char const *name, IdSpan elements) {
     clingo_id_t ret = 0;
-    Detail::handle_error(clingo_backend_theory_term_function(backend_, name, elements.data(), elements.size(), &ret));
+    handle_error_(clingo_backend_theory_term_function(backend_, name, elements.data(), elements.size(), &ret));
     return ret;
 }
 
 inline id_t Backend::add_theory_term_symbol(Symbol symbol) {
     clingo_id_t ret = 0;
-    Detail::handle_error(clingo_backend_theory_term_symbol(backend_, symbol.to_c(), &ret));
+    handle_error_(clingo_backend_theory_term_symbol(backend_, symbol.to_c(), &ret));
     return ret;
 }
 
 inline id_t Backend::add_theory_element(IdSpan tuple, LiteralSpan condition) {
     clingo_id_t ret = 0;
-    Detail::handle_error(
+    handle_error_(
         clingo_backend_theory_element(backend_, tuple.data(), tuple.size(), condition.begin(), condition.size(), &ret));
     return ret;
 }
 
 inline atom_t Backend::theory_atom(id_t term_id, IdSpan elements) {
     atom_t ret = 0;
-    Detail::handle_error(clingo_backend_theory_atom(backend_, std::numeric_limits<atom_t>::max(), term_id,
-                                                    elements.begin(), elements.size(), &ret));
+    handle_error_(clingo_backend_theory_atom(backend_, std::numeric_limits<atom_t>::max(), term_id, elements.begin(),
+                                             elements.size(), &ret));
     return ret;
 }
 
 inline atom_t Backend::theory_atom(id_t term_id, IdSpan elements, char const *operator_name, id_t right_hand_side_id) {
     atom_t ret = 0;
-    Detail::handle_error(clingo_backend_theory_atom_with_guard(backend_, std::numeric_limits<atom_t>::max(), term_id,
-                                                               elements.begin(), elements.size(), operator_name,
-                                                               right_hand_side_id, &ret));
+    handle_error_(clingo_backend_theory_atom_with_guard(backend_, std::numeric_limits<atom_t>::max(), term_id,
+                                                        elements.begin(), elements.size(), operator_name,
+                                                        right_hand_side_id, &ret));
     return ret;
 }
 
 inline atom_t Backend::theory_atom(id_t atom_id_or_zero, id_t term_id, IdSpan elements) {
     atom_t ret = 0;
-    Detail::handle_error(
+    handle_error_(
         clingo_backend_theory_atom(backend_, atom_id_or_zero, term_id, elements.begin(), elements.size(), &ret));
     return ret;
 }
@@ -3350,9 +3370,8 @@ inline atom_t Backend::theory_atom(id_t atom_id_or_zero, id_t term_id, IdSpan el
 inline atom_t Backend::theory_atom(id_t atom_id_or_zero, id_t term_id, IdSpan elements, char const *operator_name,
                                    id_t right_hand_side_id) {
     atom_t ret = 0;
-    Detail::handle_error(clingo_backend_theory_atom_with_guard(backend_, atom_id_or_zero, term_id, elements.begin(),
-                                                               elements.size(), operator_name, right_hand_side_id,
-                                                               &ret));
+    handle_error_(clingo_backend_theory_atom_with_guard(backend_, atom_id_or_zero, term_id, elements.begin(),
+                                                        elements.size(), operator_name, right_hand_side_id, &ret));
     return ret;
 }
 
@@ -4349,7 +4368,9 @@ inline SolveHandle Control::solve(LiteralSpan assumptions, SolveEventHandler *ha
 }
 
 inline void Control::assign_external(literal_t literal, TruthValue value) {
-    Detail::handle_error(clingo_control_assign_external(*impl_, literal, static_cast<clingo_truth_value_t>(value)));
+    impl_->ptr.reset();
+    Detail::handle_error(clingo_control_assign_external(*impl_, literal, static_cast<clingo_truth_value_t>(value)),
+                         impl_->ptr);
 }
 
 inline void Control::assign_external(Symbol atom, TruthValue value) {
@@ -4361,7 +4382,8 @@ inline void Control::assign_external(Symbol atom, TruthValue value) {
 }
 
 inline void Control::release_external(literal_t literal) {
-    Detail::handle_error(clingo_control_release_external(*impl_, literal));
+    impl_->ptr.reset();
+    Detail::handle_error(clingo_control_release_external(*impl_, literal), impl_->ptr);
 }
 
 inline void Control::release_external(Symbol atom) {
@@ -4637,7 +4659,10 @@ inline void *Control::claspFacade() {
     return ret;
 }
 
-inline void Control::load(char const *file) { Detail::handle_error(clingo_control_load(*impl_, file)); }
+inline void Control::load(char const *file) {
+    impl_->ptr.reset();
+    Detail::handle_error(clingo_control_load(*impl_, file), impl_->ptr);
+}
 
 inline void Control::enable_enumeration_assumption(bool value) {
     Detail::handle_error(clingo_control_set_enable_enumeration_assumption(*impl_, value));
@@ -4658,7 +4683,7 @@ inline bool Control::enable_cleanup() const { return clingo_control_get_enable_c
 inline Backend Control::backend() {
     clingo_backend_t *ret = nullptr;
     Detail::handle_error(clingo_control_backend(*impl_, &ret));
-    return Backend{ret};
+    return Backend{ret, impl_->ptr};
 }
 
 inline Configuration Control::configuration() {
-- 
2.43.0


From 131556f02f646a5e01606efc43c5e6c77366e5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:15 +0000
Subject: [PATCH 05/50] fix: pass the control object on to the AST parsing
 functions in the C++ API

---
 libclingo/clingo.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libclingo/clingo.hh b/libclingo/clingo.hh
index 585b4d8..00e96d8 100644
--- a/libclingo/clingo.hh
+++ b/libclingo/clingo.hh
@@ -4148,7 +4148,7 @@ inline void parse_string(char const *program, Callback &&cb, clingo_control_t *c
                                  CLINGO_CALLBACK_TRY { d.first(Node{ast}); }
                                  CLINGO_CALLBACK_CATCH(d.second);
                              },
-                             &data, nullptr,
+                             &data, control,
                              [](clingo_warning_t code, char const *msg, void *data) {
                                  try {
                                      (*static_cast<Logger *>(data))(static_cast<WarningCode>(code), msg);
@@ -4172,7 +4172,7 @@ inline void parse_files(StringSpan files, Callback &&cb, clingo_control_t *contr
                                  CLINGO_CALLBACK_TRY { d.first(Node{ast}); }
                                  CLINGO_CALLBACK_CATCH(d.second);
                              },
-                             &data, nullptr,
+                             &data, control,
                              [](clingo_warning_t code, char const *msg, void *data) {
                                  try {
                                      (*static_cast<Logger *>(data))(static_cast<WarningCode>(code), msg);
-- 
2.43.0


From aa267d09c842d587e75424a3f5486c62b324ac81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:48 +0000
Subject: [PATCH 06/50] fix: define StringVector::set in the C++ API

---
 libclingo/clingo.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libclingo/clingo.hh b/libclingo/clingo.hh
index 00e96d8..6f9ff6d 100644
--- a/libclingo/clingo.hh
+++ b/libclingo/clingo.hh
@@ -4071,6 +4071,10 @@ inline StringVector::iterator StringVector::insert(iterator it, char const *str)
     return it;
 }
 
+inline void StringVector::set(iterator it, char const *str) {
+    Detail::handle_error(clingo_ast_attribute_set_string_at(ast_.to_c(), attr_, it - begin(), str));
+}
+
 inline StringVector::iterator StringVector::erase(iterator it) {
     Detail::handle_error(clingo_ast_attribute_delete_string_at(ast_.to_c(), attr_, it - begin()));
     return it;
-- 
2.43.0


From 78925a51cb6aa86937f0aadd607d2bb16e0cb452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:21 +0000
Subject: [PATCH 07/50] fix: pass AST nodes in optional arguments of the
 AST::Node constructor

---
 libclingo/clingo.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libclingo/clingo.hh b/libclingo/clingo.hh
index 6f9ff6d..2b63c95 100644
--- a/libclingo/clingo.hh
+++ b/libclingo/clingo.hh
@@ -3593,7 +3593,9 @@ template <size_t j> struct construct_ast {
         if (cons.size <= i || cons.arguments[i].type != clingo_ast_attribute_type_optional_ast) { // NOLINT
             throw std::runtime_error("invalid argument");
         }
-        return construct_ast<j - 1>::template construct<i + 1>(type, cons, std::forward<Args>(args)..., arg.get());
+        auto const *ast = arg.get();
+        return construct_ast<j - 1>::template construct<i + 1>(type, cons, std::forward<Args>(args)...,
+                                                               ast != nullptr ? ast->to_c() : nullptr);
     }
     template <size_t i, class... Args>
     static clingo_ast_t *construct(clingo_ast_type_t type, clingo_ast_constructor_t const &cons,
-- 
2.43.0


From 125def3308373e21870bbb58721b258ca1ad9e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:21 +0000
Subject: [PATCH 08/50] fix: report failures to construct AST nodes in the C++
 API

---
 libclingo/clingo.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingo/clingo.hh b/libclingo/clingo.hh
index 2b63c95..bdccfac 100644
--- a/libclingo/clingo.hh
+++ b/libclingo/clingo.hh
@@ -3624,7 +3624,7 @@ template <> struct construct_ast<0> {
             throw std::runtime_error("invalid argument");
         }
         clingo_ast_t *ret = nullptr;
-        clingo_ast_build(type, &ret, std::forward<Args>(args)...);
+        Detail::handle_error(clingo_ast_build(type, &ret, std::forward<Args>(args)...));
         return ret;
     }
 };
-- 
2.43.0


From 87efc111d0d903a77d103b1cc8a7e0baff35c4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:05 +0000
Subject: [PATCH 09/50] fix: assign AST sequences of the same node to each
 other in the C++ API

---
 libclingo/clingo.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libclingo/clingo.hh b/libclingo/clingo.hh
index bdccfac..fed22ae 100644
--- a/libclingo/clingo.hh
+++ b/libclingo/clingo.hh
@@ -2206,6 +2206,7 @@ class NodeVector {
     Node const &ast() const;
 
   private:
+    friend class Node;
     Node ast_;
     clingo_ast_attribute_t attr_;
 };
@@ -2251,6 +2252,7 @@ class StringVector {
     Node const &ast() const;
 
   private:
+    friend class Node;
     Node ast_;
     clingo_ast_attribute_t attr_;
 };
@@ -3805,7 +3807,7 @@ inline void Node::set(Attribute attribute, NodeValue value) {
             auto val = get(attribute);
             auto &a = val.get<StringVector>();
             auto &b = value.get<StringVector>();
-            if (a.ast().to_c() != b.ast().to_c()) {
+            if (a.ast().to_c() != b.ast().to_c() || a.attr_ != b.attr_) {
                 a.clear();
                 for (auto x : b) {
                     a.push_back(x);
@@ -3817,7 +3819,7 @@ inline void Node::set(Attribute attribute, NodeValue value) {
             auto val = get(attribute);
             auto &a = val.get<NodeVector>();
             auto &b = value.get<NodeVector>();
-            if (a.ast().to_c() != b.ast().to_c()) {
+            if (a.ast().to_c() != b.ast().to_c() || a.attr_ != b.attr_) {
                 a.clear();
                 for (auto x : b) {
                     a.push_back(x);
-- 
2.43.0


From fd94c009020036b84745d2a0ac41da4887735ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:05 +0000
Subject: [PATCH 10/50] fix: let model printers of C++ applications fail

Application::print_model was declared noexcept although printing a model
may fail: the default printer reports failures by exceptions. Such a
failure terminated the process instead of stopping the application.
---
 libclingo/clingo.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libclingo/clingo.hh b/libclingo/clingo.hh
index fed22ae..63e1b47 100644
--- a/libclingo/clingo.hh
+++ b/libclingo/clingo.hh
@@ -2339,7 +2339,7 @@ struct Application {
     virtual char const *version() const noexcept;
     virtual void main(Control &ctl, StringSpan files) = 0;
     virtual void log(WarningCode code, char const *message) noexcept;
-    virtual void print_model(Model const &model, std::function<void()> default_printer) noexcept;
+    virtual void print_model(Model const &model, std::function<void()> default_printer);
     virtual void register_options(ClingoOptions &options);
     virtual void validate_options();
     virtual ~Application() = default;
@@ -4736,7 +4736,7 @@ inline void ClingoOptions::add_flag(char const *group, char const *option, char
 inline unsigned Application::message_limit() const noexcept { return g_message_limit; }
 inline char const *Application::program_name() const noexcept { return "clingo"; }
 inline char const *Application::version() const noexcept { return CLINGO_VERSION; }
-inline void Application::print_model(Model const &model, std::function<void()> default_printer) noexcept { // NOLINT
+inline void Application::print_model(Model const &model, std::function<void()> default_printer) { // NOLINT
     static_cast<void>(model);
     default_printer();
 }
-- 
2.43.0


From 1813290ed8debc714aa1f1ed943856316fc2ac58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:07 +0000
Subject: [PATCH 11/50] fix: define move assignment of ProgramBuilder in the
 C++ API

The operator was declared but never defined, so programs using it did not
link. It swaps the underlying builders like the operator of Backend.
---
 libclingo/clingo.hh | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libclingo/clingo.hh b/libclingo/clingo.hh
index 63e1b47..cfc6bc4 100644
--- a/libclingo/clingo.hh
+++ b/libclingo/clingo.hh
@@ -4125,6 +4125,11 @@ inline ProgramBuilder::ProgramBuilder(ProgramBuilder &&builder) noexcept : build
     std::swap(builder_, builder.builder_);
 }
 
+inline ProgramBuilder &ProgramBuilder::operator=(ProgramBuilder &&builder) noexcept {
+    std::swap(builder_, builder.builder_);
+    return *this;
+}
+
 inline void ProgramBuilder::close() {
     if (builder_ != nullptr) {
         auto *builder = builder_;
-- 
2.43.0


From 56e6b63a5dbd0da90f13d822c9a97359a452ebd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:07 +0000
Subject: [PATCH 12/50] fix: keep the value when an Optional is assigned (from)
 its own value in the C++ API

The old value was deleted before it was copied, so assigning an Optional to
itself cleared it and assigning its own value read freed memory. Also make
emplace compile.
---
 libclingo/clingo.hh | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/libclingo/clingo.hh b/libclingo/clingo.hh
index cfc6bc4..3bb33d5 100644
--- a/libclingo/clingo.hh
+++ b/libclingo/clingo.hh
@@ -172,17 +172,14 @@ template <class T> class Optional {
     Optional(Optional &opt) : data_(opt ? new T(*opt) : nullptr) {}
     Optional(Optional const &opt) : data_(opt ? new T(*opt) : nullptr) {}
     Optional &operator=(T const &x) {
-        clear();
         data_.reset(new T(x));
         return *this;
     }
     Optional &operator=(T &x) {
-        clear();
         data_.reset(new T(x));
         return *this;
     }
     Optional &operator=(T &&x) {
-        clear();
         data_.reset(new T(std::move(x)));
         return *this;
     }
@@ -191,7 +188,6 @@ template <class T> class Optional {
         return *this;
     }
     Optional &operator=(Optional const &opt) {
-        clear();
         data_.reset(opt ? new T(*opt) : nullptr);
         return *this;
     }
@@ -203,10 +199,7 @@ template <class T> class Optional {
     T const &operator*() const & { return *get(); }
     T &&operator*() && { return std::move(*get()); }
     T const &&operator*() const && { return std::move(*get()); }
-    template <class... Args> void emplace(Args &&...x) {
-        clear();
-        data_(new T{std::forward<Args>(x)...});
-    }
+    template <class... Args> void emplace(Args &&...x) { data_.reset(new T{std::forward<Args>(x)...}); }
     void clear() { data_.reset(nullptr); }
     explicit operator bool() const { return data_ != nullptr; }
 
-- 
2.43.0


From 3fc6755ed1e44b95c250b82477f9cfcabf762cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:38 +0000
Subject: [PATCH 13/50] fix: raise the original exceptions of callbacks in the
 Python API

Exceptions were constructed anew from their type and the original
exception, which changed their text or failed for exceptions with other
constructors. Furthermore, the first of multiple exceptions is kept as
documented and exceptions that cannot be printed do not lead to further
errors.
---
 libpyclingo/clingo/_internal.py | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/libpyclingo/clingo/_internal.py b/libpyclingo/clingo/_internal.py
index 40ddfd8..72d0b04 100644
--- a/libpyclingo/clingo/_internal.py
+++ b/libpyclingo/clingo/_internal.py
@@ -69,24 +69,31 @@ def _to_str(c_str) -> str:
 def _handle_error(ret: bool, handler=None):
     if not ret:
         code = _lib.clingo_error_code()
-        if (
-            code == _lib.clingo_error_unknown
-            and handler is not None
-            and handler.error is not None
-        ):
-            raise handler.error[0](handler.error[1]).with_traceback(handler.error[2])
+        error = None if handler is None else handler.error
+        if code == _lib.clingo_error_unknown and error is not None:
+            raise error[1].with_traceback(error[2])
         msg = _ffi.string(_lib.clingo_error_message()).decode()
         if code == _lib.clingo_error_bad_alloc:
             raise MemoryError(msg)
         raise RuntimeError(msg)
 
 
+def _error_str(exc_value) -> bytes:
+    """
+    Convert an exception into an error message without raising exceptions.
+    """
+    try:
+        return str(exc_value).encode(errors="backslashreplace")
+    except Exception:  # pylint: disable=broad-except
+        return b"error in callback"
+
+
 def _cb_error_handler(param: str):
     def handler(exception, exc_value, traceback) -> bool:
         if traceback is not None:
             handler = _ffi.from_handle(traceback.tb_frame.f_locals[param])
             handler.error = (exception, exc_value, traceback)
-            _lib.clingo_set_error(_lib.clingo_error_unknown, str(exc_value).encode())
+            _lib.clingo_set_error(_lib.clingo_error_unknown, _error_str(exc_value))
         else:
             _lib.clingo_set_error(
                 _lib.clingo_error_runtime, "error in callback".encode()
@@ -113,13 +120,13 @@ class _Error:
     """
 
     def __init__(self):
-        self._error = None
+        self._error = {}
 
     def clear(self):
         """
         Clears the last error set.
         """
-        self._error = None
+        self._error = {}
 
     @property
     def error(self):
@@ -127,7 +134,7 @@ class _Error:
         Return the last error set.
         """
         # pylint: disable=protected-access,missing-function-docstring
-        return self._error
+        return self._error.get("error")
 
     @error.setter
     def error(self, value):
@@ -137,7 +144,8 @@ class _Error:
         This function is thread-safe.
         """
         # pylint: disable=protected-access
-        self._error = value
+        # NOTE: unlike a check followed by an assignment, this is atomic
+        self._error.setdefault("error", value)
 
 
 class _CBData:
-- 
2.43.0


From 07c52b8d23e66f67a4edd78aaa116feeaa2c92e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:38 +0000
Subject: [PATCH 14/50] fix: handle engine failures without a message in the
 Python API

---
 libpyclingo/clingo/_internal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libpyclingo/clingo/_internal.py b/libpyclingo/clingo/_internal.py
index 72d0b04..b26cfcc 100644
--- a/libpyclingo/clingo/_internal.py
+++ b/libpyclingo/clingo/_internal.py
@@ -72,7 +72,8 @@ def _handle_error(ret: bool, handler=None):
         error = None if handler is None else handler.error
         if code == _lib.clingo_error_unknown and error is not None:
             raise error[1].with_traceback(error[2])
-        msg = _ffi.string(_lib.clingo_error_message()).decode()
+        c_msg = _lib.clingo_error_message()
+        msg = "no message" if c_msg == _ffi.NULL else _to_str(c_msg)
         if code == _lib.clingo_error_bad_alloc:
             raise MemoryError(msg)
         raise RuntimeError(msg)
-- 
2.43.0


From 77b089c7808ddb73232fb4070b1eb11e297d01d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:01 +0000
Subject: [PATCH 15/50] fix: pass on exceptions of observers called by the
 backend and external statements in the Python API

---
 libpyclingo/clingo/backend.py | 46 +++++++++++++++++++++++++++++------
 libpyclingo/clingo/control.py | 18 +++++++++++---
 2 files changed, 52 insertions(+), 12 deletions(-)

diff --git a/libpyclingo/clingo/backend.py b/libpyclingo/clingo/backend.py
index db78e2d..7c993c9 100644
--- a/libpyclingo/clingo/backend.py
+++ b/libpyclingo/clingo/backend.py
@@ -606,10 +606,12 @@ class Backend(ContextManager["Backend"]):
         condition
             List of program literals.
         """
+        self._error.clear()
         _handle_error(
             _lib.clingo_backend_acyc_edge(
                 self._rep, node_u, node_v, condition, len(condition)
-            )
+            ),
+            handler=self._error,
         )
 
     def add_assume(self, literals: Sequence[int]) -> None:
@@ -621,7 +623,11 @@ class Backend(ContextManager["Backend"]):
         literals
             The list of literals to assume true.
         """
-        _handle_error(_lib.clingo_backend_assume(self._rep, literals, len(literals)))
+        self._error.clear()
+        _handle_error(
+            _lib.clingo_backend_assume(self._rep, literals, len(literals)),
+            handler=self._error,
+        )
 
     def add_atom(self, symbol: Optional[Symbol] = None) -> int:
         """
@@ -668,7 +674,11 @@ class Backend(ContextManager["Backend"]):
         -----
         Can also be used to release an external atom using `TruthValue.Release`.
         """
-        _handle_error(_lib.clingo_backend_external(self._rep, atom, value.value))
+        self._error.clear()
+        _handle_error(
+            _lib.clingo_backend_external(self._rep, atom, value.value),
+            handler=self._error,
+        )
 
     def add_heuristic(
         self,
@@ -694,10 +704,12 @@ class Backend(ContextManager["Backend"]):
         condition
             List of program literals.
         """
+        self._error.clear()
         _handle_error(
             _lib.clingo_backend_heuristic(
                 self._rep, atom, type_.value, bias, priority, condition, len(condition)
-            )
+            ),
+            handler=self._error,
         )
 
     def add_minimize(self, priority: int, literals: Sequence[Tuple[int, int]]) -> None:
@@ -711,8 +723,10 @@ class Backend(ContextManager["Backend"]):
         literals
             List of pairs of program literals and weights.
         """
+        self._error.clear()
         _handle_error(
-            _lib.clingo_backend_minimize(self._rep, priority, literals, len(literals))
+            _lib.clingo_backend_minimize(self._rep, priority, literals, len(literals)),
+            handler=self._error,
         )
 
     def add_project(self, atoms: Sequence[int]) -> None:
@@ -724,7 +738,11 @@ class Backend(ContextManager["Backend"]):
         atoms
             List of program atoms to project on.
         """
-        _handle_error(_lib.clingo_backend_project(self._rep, atoms, len(atoms)))
+        self._error.clear()
+        _handle_error(
+            _lib.clingo_backend_project(self._rep, atoms, len(atoms)),
+            handler=self._error,
+        )
 
     def add_rule(
         self, head: Sequence[int], body: Sequence[int] = [], choice: bool = False
@@ -747,10 +765,12 @@ class Backend(ContextManager["Backend"]):
         singleton head list, respectively.
         """
         # pylint: disable=dangerous-default-value
+        self._error.clear()
         _handle_error(
             _lib.clingo_backend_rule(
                 self._rep, choice, head, len(head), body, len(body)
-            )
+            ),
+            handler=self._error,
         )
 
     def add_weight_rule(
@@ -776,10 +796,12 @@ class Backend(ContextManager["Backend"]):
         choice
             Whether to add a disjunctive or choice rule.
         """
+        self._error.clear()
         _handle_error(
             _lib.clingo_backend_weight_rule(
                 self._rep, choice, head, len(head), lower, body, len(body)
-            )
+            ),
+            handler=self._error,
         )
 
     def add_theory_term_number(self, number: int) -> int:
@@ -795,6 +817,7 @@ class Backend(ContextManager["Backend"]):
         -------
         The id of the added term.
         """
+        self._error.clear()
         return _c_call(
             "clingo_id_t",
             _lib.clingo_backend_theory_term_number,
@@ -816,6 +839,7 @@ class Backend(ContextManager["Backend"]):
         -------
         The id of the added term.
         """
+        self._error.clear()
         return _c_call(
             "clingo_id_t",
             _lib.clingo_backend_theory_term_string,
@@ -839,6 +863,7 @@ class Backend(ContextManager["Backend"]):
         -------
         The id of the added term.
         """
+        self._error.clear()
         return _c_call(
             "clingo_id_t",
             _lib.clingo_backend_theory_term_function,
@@ -866,6 +891,7 @@ class Backend(ContextManager["Backend"]):
         -------
         The id of the added term.
         """
+        self._error.clear()
         return _c_call(
             "clingo_id_t",
             _lib.clingo_backend_theory_term_sequence,
@@ -889,6 +915,7 @@ class Backend(ContextManager["Backend"]):
         -------
         The id of the added term.
         """
+        self._error.clear()
         return _c_call(
             "clingo_id_t",
             _lib.clingo_backend_theory_term_symbol,
@@ -912,6 +939,7 @@ class Backend(ContextManager["Backend"]):
         -------
         The id of the added element.
         """
+        self._error.clear()
         return _c_call(
             "clingo_id_t",
             _lib.clingo_backend_theory_element,
@@ -952,6 +980,7 @@ class Backend(ContextManager["Backend"]):
         """
         if atom_id_or_zero is None:
             atom_id_or_zero = 0xFFFFFFFF
+        self._error.clear()
         return _c_call(
             "clingo_atom_t",
             _lib.clingo_backend_theory_atom,
@@ -993,6 +1022,7 @@ class Backend(ContextManager["Backend"]):
         """
         if atom_id_or_zero is None:
             atom_id_or_zero = 0xFFFFFFFF
+        self._error.clear()
         return _c_call(
             "clingo_atom_t",
             _lib.clingo_backend_theory_atom_with_guard,
diff --git a/libpyclingo/clingo/control.py b/libpyclingo/clingo/control.py
index 4cc7ef7..9bb45aa 100644
--- a/libpyclingo/clingo/control.py
+++ b/libpyclingo/clingo/control.py
@@ -355,8 +355,10 @@ class Control:
         for i, lit in enumerate(atoms):
             p_proj[i] = self._program_atom(lit)
 
+        self._error.clear()
         _handle_error(
-            _lib.clingo_control_update_project(self._rep, p_proj, len(atoms), append)
+            _lib.clingo_control_update_project(self._rep, p_proj, len(atoms), append),
+            self._error,
         )
 
     def add_project(self, atoms: Sequence[Union[Symbol, int]]) -> None:
@@ -446,10 +448,12 @@ class Control:
             val = _lib.clingo_external_type_true
         else:
             val = _lib.clingo_external_type_false
+        self._error.clear()
         _handle_error(
             _lib.clingo_control_assign_external(
                 self._rep, self._program_atom(external), val
-            )
+            ),
+            self._error,
         )
 
     def backend(self) -> Backend:
@@ -589,7 +593,11 @@ class Control:
         path
             The path of the file to load.
         """
-        _handle_error(_lib.clingo_control_load(self._rep, path.encode()))
+        self._error.clear()
+        _handle_error(
+            _lib.clingo_control_load(self._rep, path.encode()),
+            self._error,
+        )
 
     def load_aspif(self, files: Sequence[str]) -> None:
         """
@@ -869,10 +877,12 @@ class Control:
             a
             SAT
         """
+        self._error.clear()
         _handle_error(
             _lib.clingo_control_release_external(
                 self._rep, self._program_atom(external)
-            )
+            ),
+            self._error,
         )
 
     # this assumes that overloads are matched in the order they appear
-- 
2.43.0


From 97c1f6a397533c3bf77be322cadf0106d9618820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:14 +0000
Subject: [PATCH 16/50] fix: use ground contexts that evaluate to false in the
 Python API

---
 libpyclingo/clingo/control.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libpyclingo/clingo/control.py b/libpyclingo/clingo/control.py
index 9bb45aa..c9b2242 100644
--- a/libpyclingo/clingo/control.py
+++ b/libpyclingo/clingo/control.py
@@ -552,8 +552,8 @@ class Control:
         # pylint: disable=protected-access,dangerous-default-value
         self._error.clear()
         data = _CBData(context, self._error)
-        c_data = _ffi.new_handle(data) if context else _ffi.NULL
-        c_cb = _lib.pyclingo_ground_callback if context else _ffi.NULL
+        c_data = _ffi.new_handle(data) if context is not None else _ffi.NULL
+        c_cb = _lib.pyclingo_ground_callback if context is not None else _ffi.NULL
 
         c_mem = []
         c_parts = _ffi.new("clingo_part_t[]", len(parts))
-- 
2.43.0


From 27e74bdbfbe8e2aba6b2ee05e41c9a7ed9fcb2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:04 +0000
Subject: [PATCH 17/50] fix: StrSequence.__setitem__ calls a function that does
 not exist

---
 libpyclingo/clingo/ast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libpyclingo/clingo/ast.py b/libpyclingo/clingo/ast.py
index bd02538..9e4d0c0 100644
--- a/libpyclingo/clingo/ast.py
+++ b/libpyclingo/clingo/ast.py
@@ -851,7 +851,7 @@ class StrSequence(abc.MutableSequence):
         if isinstance(index, slice):
             raise TypeError("slicing not implemented")
         _handle_error(
-            _lib.clingo_str_attribute_set_string_at(
+            _lib.clingo_ast_attribute_set_string_at(
                 self._rep, self._attribute, index, value.encode()
             )
         )
-- 
2.43.0


From ac859ded2e449f81703a278ff44d89a2e51bee70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:04 +0000
Subject: [PATCH 18/50] fix: negative and out of range indices when changing
 AST sequences in Python

---
 libpyclingo/clingo/ast.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/libpyclingo/clingo/ast.py b/libpyclingo/clingo/ast.py
index 9e4d0c0..d6a17b9 100644
--- a/libpyclingo/clingo/ast.py
+++ b/libpyclingo/clingo/ast.py
@@ -757,6 +757,11 @@ class ASTSequence(abc.MutableSequence):
     def __setitem__(self, index, ast):
         if isinstance(index, slice):
             raise TypeError("slicing not implemented")
+        size = len(self)
+        if index < 0:
+            index += size
+        if index < 0 or index >= size:
+            raise IndexError("invalid index")
         _handle_error(
             _lib.clingo_ast_attribute_set_ast_at(
                 self._rep, self._attribute, index, ast._rep
@@ -776,6 +781,8 @@ class ASTSequence(abc.MutableSequence):
         )
 
     def insert(self, index, value):
+        size = len(self)
+        index = max(index + size, 0) if index < 0 else min(index, size)
         _handle_error(
             _lib.clingo_ast_attribute_insert_ast_at(
                 self._rep, self._attribute, index, value._rep
@@ -850,6 +857,11 @@ class StrSequence(abc.MutableSequence):
     def __setitem__(self, index, value):
         if isinstance(index, slice):
             raise TypeError("slicing not implemented")
+        size = len(self)
+        if index < 0:
+            index += size
+        if index < 0 or index >= size:
+            raise IndexError("invalid index")
         _handle_error(
             _lib.clingo_ast_attribute_set_string_at(
                 self._rep, self._attribute, index, value.encode()
@@ -871,6 +883,8 @@ class StrSequence(abc.MutableSequence):
         )
 
     def insert(self, index, value):
+        size = len(self)
+        index = max(index + size, 0) if index < 0 else min(index, size)
         _handle_error(
             _lib.clingo_ast_attribute_insert_string_at(
                 self._rep, self._attribute, index, value.encode()
-- 
2.43.0


From 646819a90ddb140f7a0eb09a707ce432033980dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:04 +0000
Subject: [PATCH 19/50] fix: SlicedMutableSequence.insert replaces elements
 instead of inserting

---
 libpyclingo/clingo/util.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/libpyclingo/clingo/util.py b/libpyclingo/clingo/util.py
index 54054e8..c80b452 100644
--- a/libpyclingo/clingo/util.py
+++ b/libpyclingo/clingo/util.py
@@ -92,4 +92,13 @@ class SlicedMutableSequence(SlicedSequence, abc.MutableSequence):
         del self._mut_seq[self._rng[index]]
 
     def insert(self, index, value):
-        self._mut_seq[self._rng[index]] = value
+        rng = self._rng
+        size = len(rng)
+        index = max(index + size, 0) if index < 0 else min(index, size)
+        if index < size:
+            pos = rng[index] + (1 if rng.step < 0 else 0)
+        elif size > 0:
+            pos = rng[-1] + (0 if rng.step < 0 else 1)
+        else:
+            pos = max(rng.start, 0)
+        self._mut_seq.insert(pos, value)
-- 
2.43.0


From d1ebaa3790957be7d8e080da7570086df48fbd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:32 +0000
Subject: [PATCH 20/50] fix: Theory.rewrite_ast loses the exception of its
 callback

---
 libpyclingo/clingo/theory.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/libpyclingo/clingo/theory.py b/libpyclingo/clingo/theory.py
index c78325c..9a3ae8d 100644
--- a/libpyclingo/clingo/theory.py
+++ b/libpyclingo/clingo/theory.py
@@ -76,7 +76,7 @@ bool PREFIX_configure(PREFIX_theory_t *theory, char const *key, char const *valu
 
 from typing import Any, Callable, Iterator, Optional, Tuple, Union
 
-from ._internal import _ffi, _handle_error, _lib
+from ._internal import _error_str, _ffi, _handle_error, _lib
 from .application import ApplicationOptions
 from .ast import AST
 from .control import Control
@@ -140,7 +140,7 @@ class Theory:
         if traceback is not None:
             cb_data = self._ffi.from_handle(traceback.tb_frame.f_locals["data"])
             cb_data.error = (exception, exc_value, traceback)
-            _lib.clingo_set_error(_lib.clingo_error_unknown, str(exc_value).encode())
+            _lib.clingo_set_error(_lib.clingo_error_unknown, _error_str(exc_value))
         else:
             _lib.clingo_set_error(
                 _lib.clingo_error_runtime, "error in callback".encode()
@@ -263,13 +263,14 @@ class Theory:
 
         cb_data = _CBData(add)
         handle = self._ffi.new_handle(cb_data)
-        self.__call0(
+        ret = self.__call(
             "rewrite_ast",
             self._theory,
             self._ffi.cast("clingo_ast_t*", stm._rep),
             self.__get("rewrite", "py"),
             handle,
         )
+        _handle_error(ret, cb_data)
 
     def register_options(self, options: ApplicationOptions) -> None:
         """
-- 
2.43.0


From 6180bf876fde88c308c078d7ee66723becd22c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:12 +0000
Subject: [PATCH 21/50] fix: report errors of scripts whose text cannot be
 encoded in the Python API

---
 libpyclingo/clingo/script.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libpyclingo/clingo/script.py b/libpyclingo/clingo/script.py
index 7f8b225..f356761 100644
--- a/libpyclingo/clingo/script.py
+++ b/libpyclingo/clingo/script.py
@@ -64,7 +64,7 @@ __all__ = ["Script", "enable_python", "register_script"]
 
 def _cb_error_top_level(exception, exc_value, traceback):
     msg = "".join(format_exception(exception, exc_value, traceback))
-    _lib.clingo_set_error(_lib.clingo_error_runtime, msg.encode())
+    _lib.clingo_set_error(_lib.clingo_error_runtime, msg.encode(errors="backslashreplace"))
     return False
 
 
-- 
2.43.0


From e26ca40e195f097901df815c33b408247839b34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:27 +0000
Subject: [PATCH 22/50] fix: Lua on_finish handlers are never called

---
 libluaclingo/luaclingo.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libluaclingo/luaclingo.cc b/libluaclingo/luaclingo.cc
index 6d2269b..20fd653 100644
--- a/libluaclingo/luaclingo.cc
+++ b/libluaclingo/luaclingo.cc
@@ -1820,7 +1820,7 @@ struct SolveHandle : Object<SolveHandle> {
         return 1;
     }
     static int on_finish_(lua_State *L) {
-        lua_pushstring(L, "on_model");
+        lua_pushstring(L, "on_finish");
         lua_rawget(L, 1);
         auto x = static_cast<clingo_solve_mode_bitset_t *>(lua_touserdata(L, 2));
         SolveResult::new_(L, *x);
-- 
2.43.0


From a31def4fe4f712c3e505d9e4b90ae2c313ec56f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:27 +0000
Subject: [PATCH 23/50] fix: Lua errors use messages of the engine as format
 strings

---
 libluaclingo/luaclingo.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libluaclingo/luaclingo.cc b/libluaclingo/luaclingo.cc
index 20fd653..1bdb38c 100644
--- a/libluaclingo/luaclingo.cc
+++ b/libluaclingo/luaclingo.cc
@@ -43,7 +43,7 @@ template <typename T> auto protect(lua_State *L, T f) -> decltype(f()) {
     try {
         return f();
     } catch (std::exception const &e) {
-        luaL_error(L, e.what());
+        luaL_error(L, "%s", e.what());
     } catch (...) {
         luaL_error(L, "unknown error");
     }
@@ -58,7 +58,7 @@ void handle_c_error(lua_State *L, bool ret) {
         if (!msg) {
             msg = "no message";
         }
-        luaL_error(L, msg);
+        luaL_error(L, "%s", msg);
     }
 }
 
-- 
2.43.0


From 7e09906f6ef83501e4167b1502e8d9f11267fbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:27 +0000
Subject: [PATCH 24/50] fix: Lua PropagateInit.add_literal ignores its argument

---
 libluaclingo/luaclingo.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libluaclingo/luaclingo.cc b/libluaclingo/luaclingo.cc
index 1bdb38c..c5f59d7 100644
--- a/libluaclingo/luaclingo.cc
+++ b/libluaclingo/luaclingo.cc
@@ -2538,7 +2538,7 @@ struct PropagateInit : Object<PropagateInit> {
 
     static int addLiteral(lua_State *L) {
         auto &self = get_self(L);
-        bool freeze = lua_isnoneornil(L, 1) || lua_toboolean(L, 1);
+        bool freeze = lua_isnoneornil(L, 2) || lua_toboolean(L, 2);
         lua_pushinteger(L, call_c(L, clingo_propagate_init_add_literal, self.init, freeze));
         return 1;
     }
-- 
2.43.0


From 8f2aa68c5353dbe2e32bff11376604e4972e6823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:27 +0000
Subject: [PATCH 25/50] fix: Lua solve drops all assumptions if one is false

---
 libluaclingo/luaclingo.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libluaclingo/luaclingo.cc b/libluaclingo/luaclingo.cc
index c5f59d7..d3e82e7 100644
--- a/libluaclingo/luaclingo.cc
+++ b/libluaclingo/luaclingo.cc
@@ -3441,6 +3441,9 @@ struct ControlWrap : Object<ControlWrap> {
                 if (auto *lits = luaToLits(L, -1, atoms, false, false)) { // +1/+0
                     handle->ass->swap(*lits);
                     lua_pop(L, 1); // -1
+                } else {
+                    // one of the assumptions is false
+                    PROTECT((handle->ass->assign({1, -1}), 0));
                 }
             }
             lua_pop(L, 1); // -1
-- 
2.43.0


From 4e8e31a400f58eeacc66309dce8e41c0e6cc7c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:27 +0000
Subject: [PATCH 26/50] fix: Lua controls that could not be created are freed

---
 libluaclingo/luaclingo.cc | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/libluaclingo/luaclingo.cc b/libluaclingo/luaclingo.cc
index d3e82e7..9c56787 100644
--- a/libluaclingo/luaclingo.cc
+++ b/libluaclingo/luaclingo.cc
@@ -3601,7 +3601,7 @@ struct ControlWrap : Object<ControlWrap> {
         for (auto &arg : *args) {
             protect(L, [&arg, &cargs]() { cargs->push_back(arg.c_str()); });
         }
-        return new_(L, [&](void *mem) {
+        return new_(L, [&](ControlWrap &self) {
             lua_State *T = nullptr;
             if (has_logger) {
                 lua_pushstring(L, "logger");
@@ -3610,19 +3610,20 @@ struct ControlWrap : Object<ControlWrap> {
                 lua_xmove(L, T, 1);
                 lua_rawset(L, -3);
             }
-            new (mem) ControlWrap(call_c(L, clingo_control_new, cargs->data(), cargs->size(),
-                                         has_logger ? logger_callback : nullptr, T, message_limit),
-                                  true);
+            self.ctl = call_c(L, clingo_control_new, cargs->data(), cargs->size(),
+                              has_logger ? logger_callback : nullptr, T, message_limit);
+            self.free = true;
         });
     }
     template <class F> static int new_(lua_State *L, F f) {
         lua_newtable(L);                                                    // +1
         auto self = (ControlWrap *)lua_newuserdata(L, sizeof(ControlWrap)); // +1
+        new (self) ControlWrap(nullptr, false);
         // see: https://stackoverflow.com/questions/27426704/lua-5-1-workaround-for-gc-metamethod-for-tables
         luaL_getmetatable(L, typeNameI); // +1
         lua_setmetatable(L, -2);         // -1
         lua_rawseti(L, -2, 1);           // -1
-        protect(L, [self, f]() { f(self); });
+        protect(L, [self, f]() { f(*self); });
         luaL_getmetatable(L, typeName); // +1
         lua_setmetatable(L, -2);        // -1
         return 1;
@@ -3754,7 +3755,7 @@ luaL_Reg ControlWrap::metaI[] = {{"__gc", gc}, {nullptr, nullptr}};
 int luaMain(lua_State *L) {
     auto ctl = (clingo_control_t *)lua_touserdata(L, 1);
     lua_getglobal(L, "main");
-    ControlWrap::new_(L, [ctl](void *mem) { new (mem) ControlWrap(ctl, false); });
+    ControlWrap::new_(L, [ctl](ControlWrap &self) { self.ctl = ctl; });
     lua_call(L, 1, 0);
     return 0;
 }
-- 
2.43.0


From 319f1d8dbd95f88607f6d8b0b03a915905598072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:27 +0000
Subject: [PATCH 27/50] fix: Lua solve reports an error of closing the handle
 instead of the original one

---
 libluaclingo/luaclingo.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/libluaclingo/luaclingo.cc b/libluaclingo/luaclingo.cc
index 9c56787..c5d8b48 100644
--- a/libluaclingo/luaclingo.cc
+++ b/libluaclingo/luaclingo.cc
@@ -3493,10 +3493,13 @@ struct ControlWrap : Object<ControlWrap> {
         int code = lua_pcall(L, 1, 1, -3);         // -1
         if (code) {
             auto h = handle->handle;
-            handle->handle = NULL;
-            call_c(L, clingo_solve_handle_close, h);
-        }
-        if (code) {
+            handle->handle = nullptr;
+            if (h) {
+                // events expect the handle on top of the stack and the original error is reported
+                lua_pushvalue(L, handleIdx);               // +1
+                static_cast<void>(clingo_solve_handle_close(h));
+                lua_pop(L, 1);                             // -1
+            }
             lua_error(L);
         }
         lua_replace(L, handleIdx);
-- 
2.43.0


From a797ce481d7b11aa08b2d155e57ef2e51391dee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:40 +0000
Subject: [PATCH 28/50] fix: Lua propagators without an init function crash

---
 libluaclingo/luaclingo.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libluaclingo/luaclingo.cc b/libluaclingo/luaclingo.cc
index c5d8b48..64f1e65 100644
--- a/libluaclingo/luaclingo.cc
+++ b/libluaclingo/luaclingo.cc
@@ -3670,7 +3670,7 @@ struct ControlWrap : Object<ControlWrap> {
         lua_newtable(T);
 
         clingo_propagator_t propagator = {
-            hasField(L, "init", 2) ? Propagator::init : nullptr,
+            Propagator::init, // also sets up the execution threads
             hasField(L, "propagate", 2) ? Propagator::propagate : nullptr,
             hasField(L, "undo", 2) ? Propagator::undo : nullptr,
             hasField(L, "check", 2) ? Propagator::check : nullptr,
-- 
2.43.0


From 04fa32101aaed63eb1ec68e2f99942e04da795f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:40 +0000
Subject: [PATCH 29/50] fix: keys of Lua configuration entries that are not
 maps

---
 libluaclingo/luaclingo.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libluaclingo/luaclingo.cc b/libluaclingo/luaclingo.cc
index 64f1e65..059241d 100644
--- a/libluaclingo/luaclingo.cc
+++ b/libluaclingo/luaclingo.cc
@@ -1914,6 +1914,8 @@ struct Configuration : Object<Configuration> {
                 lua_pushstring(L, call_c(L, clingo_configuration_map_subkey_name, self.conf, self.key, i));
                 lua_rawseti(L, -2, numeric_cast<int>(i + 1));
             }
+        } else {
+            lua_pushnil(L);
         }
         return 1;
     }
-- 
2.43.0


From 572d9da615d0c2c00bb336798abd330dd8e13567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:40 +0000
Subject: [PATCH 30/50] fix: Lua trails read out of bounds

---
 libluaclingo/luaclingo.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libluaclingo/luaclingo.cc b/libluaclingo/luaclingo.cc
index 059241d..2bcc024 100644
--- a/libluaclingo/luaclingo.cc
+++ b/libluaclingo/luaclingo.cc
@@ -2268,7 +2268,7 @@ struct Trail : Object<Trail> {
     static int at(lua_State *L) {
         auto &self = get_self(L);
         auto index = numeric_cast<int32_t>(luaL_checkinteger(L, 2)) - 1;
-        if (index < self.size_(L)) {
+        if (0 <= index && index < self.size_(L)) {
             lua_pushnumber(L, self.at_(L, index));
             return 1;
         }
-- 
2.43.0


From be17677c12d6b1cb45d4fa6bc4c83af532a96ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:40 +0000
Subject: [PATCH 31/50] fix: Lua API crashes if strings are expected but not
 given

---
 libluaclingo/luaclingo.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libluaclingo/luaclingo.cc b/libluaclingo/luaclingo.cc
index 2bcc024..80862cd 100644
--- a/libluaclingo/luaclingo.cc
+++ b/libluaclingo/luaclingo.cc
@@ -369,6 +369,9 @@ void luaToCpp(lua_State *L, int index, bool &x) { x = lua_toboolean(L, index) !=
 
 void luaToCpp(lua_State *L, int index, std::string &x) {
     char const *str = lua_tostring(L, index);
+    if (!str) {
+        luaL_error(L, "string expected");
+    }
     PROTECT(x = str);
 }
 
@@ -1988,7 +1991,7 @@ struct Configuration : Object<Configuration> {
         auto &self = get_self(L);
         auto *name = luaL_checkstring(L, 2);
         auto subkey = call_c(L, clingo_configuration_map_at, self.conf, self.key, name);
-        auto value = lua_tostring(L, 3);
+        auto value = luaL_checkstring(L, 3);
         handle_c_error(L, clingo_configuration_value_set(self.conf, subkey, value));
         return 0;
     }
-- 
2.43.0


From 62a3c48d579dfb29b287a4493eb0aef691c289d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:40 +0000
Subject: [PATCH 32/50] fix: Lua errors without a message garble error messages

---
 libluaclingo/luaclingo.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libluaclingo/luaclingo.cc b/libluaclingo/luaclingo.cc
index 80862cd..88e251d 100644
--- a/libluaclingo/luaclingo.cc
+++ b/libluaclingo/luaclingo.cc
@@ -70,6 +70,9 @@ bool handle_lua_error(lua_State *L, char const *loc, char const *desc, int code)
             case LUA_ERRERR:
             case LUA_ERRSYNTAX: {
                 char const *s = lua_tostring(L, -1);
+                if (!s) {
+                    s = "unknown error";
+                }
                 std::ostringstream msg;
                 msg << loc << ": " << "error: " << desc << ":\n"
                     << (code == LUA_ERRSYNTAX ? "  SyntaxError: " : "  RuntimeError: ") << s << "\n";
@@ -2925,7 +2928,7 @@ class Propagator {
         auto ret = lua_pcall(L, 4, 0, -6);
         if (ret != 0) {
             char const *msg = lua_tostring(L, -1);
-            std::cerr << "propagator: error in undo going to abort:\n" << msg << std::endl;
+            std::cerr << "propagator: error in undo going to abort:\n" << (msg ? msg : "unknown error") << std::endl;
             std::abort();
         }
     }
@@ -3317,7 +3320,7 @@ static void logger_callback(clingo_warning_t code, char const *message, void *da
     auto ret = lua_pcall(L, 3, 0, -5);         // -4
     if (ret != 0) {
         char const *msg = lua_tostring(L, -1);
-        std::cerr << "logger: error in logger going to abort:\n" << msg << std::endl;
+        std::cerr << "logger: error in logger going to abort:\n" << (msg ? msg : "unknown error") << std::endl;
         std::abort();
     }
     lua_pop(L, 1); // -1
-- 
2.43.0


From b2eab4230d854dba8035413bf2398975813f23ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:40 +0000
Subject: [PATCH 33/50] fix: Lua errors when looking up functions of observers
 and scripts jump over the engine

---
 libluaclingo/luaclingo.cc | 59 +++++++++++++++++++--------------------
 1 file changed, 29 insertions(+), 30 deletions(-)

diff --git a/libluaclingo/luaclingo.cc b/libluaclingo/luaclingo.cc
index 88e251d..778e88c 100644
--- a/libluaclingo/luaclingo.cc
+++ b/libluaclingo/luaclingo.cc
@@ -3185,49 +3185,40 @@ class GroundProgramObserver {
 
     template <int> static void l_push_args(lua_State *, int) {}
     template <int, class T, class... U> static void l_push_args(lua_State *L, int i) {
-        T *val = static_cast<T *>(lua_touserdata(L, lua_upvalueindex(i)));
+        T *val = static_cast<T *>(lua_touserdata(L, i));
         push(L, *val);
         l_push_args<0, U...>(L, i + 1);
     }
 
     template <class... T> static int l_call(lua_State *L) {
-        lua_pushvalue(L, 1);
-        lua_pushvalue(L, 2);
-        l_push_args<0, T...>(L, 1);
-        lua_call(L, (sizeof...(T) + 1), 0);
+        luaL_checkstack(L, sizeof...(T) + 8, "lua stack size exceeded");
+        lua_getfield(L, 1, static_cast<char const *>(lua_touserdata(L, 2))); // +1
+        if (!lua_isnil(L, -1)) {
+            lua_pushvalue(L, 1);                // +1
+            l_push_args<0, T...>(L, 3);         // +n
+            lua_call(L, (sizeof...(T) + 1), 0); // -n-2
+        }
         return 0;
     }
 
     template <class... Args>
     static bool call(void *data, char const *fun, char const *loc, char const *msg, Args... args) {
         auto self = static_cast<GroundProgramObserver *>(data);
-        if (!lua_checkstack(self->L, 3)) {
+        int n = sizeof...(Args);
+        if (!lua_checkstack(self->L, n + 4)) {
             clingo_set_error(clingo_error_runtime, "lua stack size exceeded");
             return false;
         }
         LuaClear t(self->L);
-        // get observer on top of stack L
-        lua_pushvalue(self->T, 1);
-        lua_xmove(self->T, self->L, 1); // +1
-        int observer = lua_gettop(self->L);
         lua_pushcfunction(self->L, luaTraceback); // +1
         int handler = lua_gettop(self->L);
-        lua_getfield(self->L, -2, fun); // +1
-        if (!lua_isnil(self->L, -1)) {
-            int function = lua_gettop(self->L);
-            int n = sizeof...(Args);
-            if (!lua_checkstack(self->L, std::max(3, n))) {
-                clingo_set_error(clingo_error_runtime, "lua stack size exceeded");
-                return false;
-            }
-            push_args(self, args...);                      // +n
-            lua_pushcclosure(self->L, l_call<Args...>, n); // +1-n
-            lua_pushvalue(self->L, function);              // +1
-            lua_pushvalue(self->L, observer);              // +1
-            auto ret = lua_pcall(self->L, 2, 0, handler);
-            return handle_lua_error(self->L, loc, msg, ret);
-        }
-        return true;
+        lua_pushcfunction(self->L, l_call<Args...>); // +1
+        lua_pushvalue(self->T, 1);
+        lua_xmove(self->T, self->L, 1);                          // +1
+        lua_pushlightuserdata(self->L, const_cast<char *>(fun)); // +1
+        push_args(self, args...);                                // +n
+        auto ret = lua_pcall(self->L, n + 2, 0, handler);
+        return handle_lua_error(self->L, loc, msg, ret);
     }
 
   private:
@@ -3929,14 +3920,22 @@ struct LuaScriptC {
             *ret = false;
             return true;
         }
-        if (!lua_checkstack(self.L, 2)) {
+        if (!lua_checkstack(self.L, 4)) {
             clingo_set_error(clingo_error_runtime, "lua stack size exceeded");
             return false;
         }
         LuaClear lc(self.L);
-        lua_getglobal(self.L, name);
-        *ret = lua_type(self.L, -1) == LUA_TFUNCTION;
-        return true;
+        lua_pushcfunction(self.L, luaTraceback);
+        lua_pushcfunction(self.L, callable_);
+        lua_pushlightuserdata(self.L, const_cast<char *>(name));
+        lua_pushlightuserdata(self.L, ret);
+        int code = lua_pcall(self.L, 2, 0, -4);
+        return handle_lua_error(self.L, name, "looking up function failed", code);
+    }
+    static int callable_(lua_State *L) {
+        lua_getglobal(L, static_cast<char const *>(lua_touserdata(L, 1)));
+        *static_cast<bool *>(lua_touserdata(L, 2)) = lua_type(L, -1) == LUA_TFUNCTION;
+        return 0;
     }
     static bool main(clingo_control_t *ctl, void *data) {
         auto &self = *static_cast<LuaScriptC *>(data);
-- 
2.43.0


From 6fabdaac79cbc9356452fb028a6e473f3aa64f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:40 +0000
Subject: [PATCH 34/50] fix: Lua scripts stay half initialised if the clingo
 module cannot be loaded

---
 libluaclingo/luaclingo.cc | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/libluaclingo/luaclingo.cc b/libluaclingo/luaclingo.cc
index 778e88c..81ad7a0 100644
--- a/libluaclingo/luaclingo.cc
+++ b/libluaclingo/luaclingo.cc
@@ -3865,6 +3865,17 @@ struct LuaScriptC {
         if (L) {
             return true;
         }
+        if (load_()) {
+            return true;
+        }
+        if (L) {
+            lua_close(L);
+            L = nullptr;
+        }
+        self_init_ = false;
+        return false;
+    }
+    bool load_() {
         L = luaL_newstate();
         if (!L) {
             clingo_set_error(clingo_error_runtime, "could not initialize lua interpreter");
@@ -3879,8 +3890,7 @@ struct LuaScriptC {
         lua_pushcfunction(L, luaTraceback);
         lua_pushcfunction(L, luarequire_clingo);
         int code = lua_pcall(L, 0, 0, -2);
-        bool ret = handle_lua_error(L, "main", "could not load clingo module", code);
-        return ret;
+        return handle_lua_error(L, "main", "could not load clingo module", code);
     }
     static bool execute(clingo_location_t const *loc, char const *code, void *data) {
         auto &self = *static_cast<LuaScriptC *>(data);
-- 
2.43.0


From 4fe78e75fb86bd33bc4c0f13b1279b653afc9ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:40 +0000
Subject: [PATCH 35/50] fix: deeply nested Lua statistics overflow the stack

---
 libluaclingo/luaclingo.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libluaclingo/luaclingo.cc b/libluaclingo/luaclingo.cc
index 81ad7a0..41585e9 100644
--- a/libluaclingo/luaclingo.cc
+++ b/libluaclingo/luaclingo.cc
@@ -1682,6 +1682,7 @@ luaL_Reg const Model::meta[] = {{"__tostring", toString}, {"symbols", atoms},
 // {{{1 wrap Statistics
 
 int newStatistics(lua_State *L, clingo_statistics_t const *stats, uint64_t key) {
+    luaL_checkstack(L, 4, "lua stack size exceeded");
     switch (call_c(L, clingo_statistics_type, stats, key)) {
         case clingo_statistics_type_value: {
             lua_pushnumber(L, numeric_cast<lua_Number>(call_c(L, clingo_statistics_value_get, stats, key))); // +1
-- 
2.43.0


From ddc1fbbb1753cec9303cb264b49f0d82c0ffea39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:49 +0000
Subject: [PATCH 36/50] fix: negative differences of TheoryAtomIterators in the
 C++ API

---
 libclingo/clingo.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libclingo/clingo.hh b/libclingo/clingo.hh
index 3bb33d5..9526b4d 100644
--- a/libclingo/clingo.hh
+++ b/libclingo/clingo.hh
@@ -889,7 +889,9 @@ class TheoryAtomIterator : private TheoryAtom {
     friend TheoryAtomIterator operator-(TheoryAtomIterator it, difference_type n) {
         return TheoryAtomIterator{it.atoms(), clingo_id_t(it.id() - n)};
     }
-    friend difference_type operator-(TheoryAtomIterator a, TheoryAtomIterator b) { return a.id() - b.id(); }
+    friend difference_type operator-(TheoryAtomIterator a, TheoryAtomIterator b) {
+        return static_cast<difference_type>(a.id()) - static_cast<difference_type>(b.id());
+    }
     TheoryAtom operator*() { return *this; }
     TheoryAtom *operator->() { return this; }
     friend void swap(TheoryAtomIterator &lhs, TheoryAtomIterator &rhs) noexcept {
-- 
2.43.0


From dc6618675d9ee2d5cd2e9b5ab0d57aa20a8c5ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:19 +0000
Subject: [PATCH 37/50] fix: Lua stack overflows if external functions have
 many arguments

---
 libluaclingo/luaclingo.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libluaclingo/luaclingo.cc b/libluaclingo/luaclingo.cc
index 41585e9..04e6afc 100644
--- a/libluaclingo/luaclingo.cc
+++ b/libluaclingo/luaclingo.cc
@@ -1134,6 +1134,7 @@ struct LuaCallArgs_ {
 
 int luacall_(lua_State *L) {
     auto &args = *static_cast<LuaCallArgs_ *>(lua_touserdata(L, 1));
+    luaL_checkstack(L, numeric_cast<int>(args.size) + 5, "too many arguments");
     int context = 0;
     if (!lua_isnil(L, 2)) {
         context = 1;
-- 
2.43.0


From 1163107f790dc2c282a8805fe033ffa954a6123f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:57 +0000
Subject: [PATCH 38/50] fix: copies of AST nodes that were moved from in the
 C++ API

---
 libclingo/clingo.hh | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libclingo/clingo.hh b/libclingo/clingo.hh
index 9526b4d..9d2d475 100644
--- a/libclingo/clingo.hh
+++ b/libclingo/clingo.hh
@@ -3664,7 +3664,11 @@ Node::Node(Type type, Args &&...args)
           g_clingo_ast_constructors.constructors[static_cast<size_t>(type)], // NOLINT
           std::forward<Args>(args)...)} {}
 
-inline Node::Node(Node const &ast) : ast_{ast.ast_} { clingo_ast_acquire(ast_); }
+inline Node::Node(Node const &ast) : ast_{ast.ast_} {
+    if (ast_ != nullptr) {
+        clingo_ast_acquire(ast_);
+    }
+}
 
 inline Node::Node(Node &&ast) noexcept : ast_{ast.ast_} { ast.ast_ = nullptr; }
 
-- 
2.43.0


From 4f071eb517f865e4291f22837176c417f6c4b773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:26 +0000
Subject: [PATCH 39/50] fix: exit status of python -m clingo

---
 libpyclingo/clingo/__main__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libpyclingo/clingo/__main__.py b/libpyclingo/clingo/__main__.py
index 8087018..6bc0e4c 100644
--- a/libpyclingo/clingo/__main__.py
+++ b/libpyclingo/clingo/__main__.py
@@ -2,6 +2,8 @@
 Module providing the clingo-like pyclingo application.
 """
 
+import sys
+
 from clingo.application import Application, ApplicationOptions, Flag, clingo_main
 from clingo.script import enable_python
 
@@ -39,4 +41,4 @@ class PyClingoApplication(Application):
 
 
 if __name__ == "__main__":
-    clingo_main(PyClingoApplication())
+    sys.exit(clingo_main(PyClingoApplication()))
-- 
2.43.0


From e5871064a05c5776d691da238b9d9005b47f1a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:26 +0000
Subject: [PATCH 40/50] fix: clingo's Lua module ignores that registering it
 failed

---
 app/luaclingo/main.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/app/luaclingo/main.cc b/app/luaclingo/main.cc
index e6b0b56..f968cd0 100644
--- a/app/luaclingo/main.cc
+++ b/app/luaclingo/main.cc
@@ -22,6 +22,7 @@
 
 // }}}
 
+#include <lua.hpp>
 #include <luaclingo.h>
 
 #if defined _WIN32 || defined __CYGWIN__
@@ -35,6 +36,9 @@
 #endif
 
 extern "C" VISIBILITY_DEFAULT int luaopen_clingo(lua_State *L) {
-    clingo_register_lua_(L);
+    if (!clingo_register_lua_(L)) {
+        char const *msg = clingo_error_message();
+        return luaL_error(L, "%s", msg != nullptr ? msg : "no message");
+    }
     return clingo_init_lua_(L);
 }
-- 
2.43.0


From 11efb085a91f2ec4ad21dc47bc1777b4577aee11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:38 +0000
Subject: [PATCH 41/50] fix: elements of Lua lists reached clingo out of order
 if stored in the hash part of the table

---
 libluaclingo/luaclingo.cc | 101 +++++++++++++++++++++++---------------
 1 file changed, 61 insertions(+), 40 deletions(-)

diff --git a/libluaclingo/luaclingo.cc b/libluaclingo/luaclingo.cc
index 04e6afc..05cd545 100644
--- a/libluaclingo/luaclingo.cc
+++ b/libluaclingo/luaclingo.cc
@@ -362,6 +362,34 @@ static int luaPushKwArg(lua_State *L, int index, int pos, char const *name, bool
     return 1;
 }
 
+// calls the given function for each element of a table with the element on top of the stack
+// Note: lua_next alone does not visit the elements of a list in order if they are not stored in the array part of the
+// table, as is the case for {[1]=x, [2]=y, [3]=z}
+template <class F> void luaForEach(lua_State *L, int index, F &&f) {
+    index = lua_absindex(L, index);
+#if LUA_VERSION_NUM < 502
+    auto n = static_cast<lua_Integer>(lua_objlen(L, index));
+#else
+    auto n = static_cast<lua_Integer>(lua_rawlen(L, index));
+#endif
+    for (lua_Integer i = 1; i <= n; ++i) {
+        lua_rawgeti(L, index, i); // +1
+        if (!lua_isnil(L, -1)) {
+            f();
+        }
+        lua_pop(L, 1); // -1
+    }
+    // elements that do not belong to the list
+    lua_pushnil(L);                     // +1
+    while (lua_next(L, index) != 0) {   // +1/-1
+        lua_Integer key = lua_type(L, -2) == LUA_TNUMBER ? lua_tointeger(L, -2) : 0;
+        if (key < 1 || key > n) {
+            f();
+        }
+        lua_pop(L, 1); // -1
+    }
+}
+
 template <class T, class U> void luaToCpp(lua_State *L, int index, std::pair<T, U> &x);
 
 void luaToCpp(lua_State *L, int index, clingo_weighted_literal_t &x);
@@ -404,15 +432,13 @@ template <class T> void luaToCpp(lua_State *L, int index, std::vector<T> &x) {
     if (lua_type(L, index) != LUA_TTABLE) {
         luaL_error(L, "table expected");
     }
-    lua_pushnil(L);
-    while (lua_next(L, index) != 0) {
+    luaForEach(L, index, [L, &x]() {
         auto &y = protect(L, [&x]() -> T & {
             x.emplace_back();
             return x.back();
         });
         luaToCpp(L, -1, y);
-        lua_pop(L, 1);
-    }
+    });
 }
 
 template <class T, class U> void luaToCpp(lua_State *L, int index, std::pair<T, U> &x) {
@@ -420,20 +446,18 @@ template <class T, class U> void luaToCpp(lua_State *L, int index, std::pair<T,
     if (lua_type(L, index) != LUA_TTABLE) {
         luaL_error(L, "table expected");
     }
-    lua_pushnil(L);
-    if (lua_next(L, index) != 0) {
-        luaToCpp(L, -1, x.first);
-        lua_pop(L, 1);
-    } else {
-        luaL_error(L, "tuple expected");
-    }
-    if (lua_next(L, index) != 0) {
-        luaToCpp(L, -1, x.second);
-        lua_pop(L, 1);
-    } else {
-        luaL_error(L, "tuple expected");
-    }
-    if (lua_next(L, index) != 0) {
+    int n = 0;
+    luaForEach(L, index, [L, &x, &n]() {
+        ++n;
+        if (n == 1) {
+            luaToCpp(L, -1, x.first);
+        } else if (n == 2) {
+            luaToCpp(L, -1, x.second);
+        } else {
+            luaL_error(L, "tuple expected");
+        }
+    });
+    if (n != 2) {
         luaL_error(L, "tuple expected");
     }
 }
@@ -466,12 +490,10 @@ std::vector<clingo_symbol_t> *luaToVals(lua_State *L, int idx) {
     idx = lua_absindex(L, idx);
     luaL_checktype(L, idx, LUA_TTABLE);
     std::vector<clingo_symbol_t> *vals = AnyWrap::new_<std::vector<clingo_symbol_t>>(L);
-    lua_pushnil(L);
-    while (lua_next(L, idx) != 0) {
+    luaForEach(L, idx, [L, vals]() {
         clingo_symbol_t sym = luaToVal(L, -1);
-        protect(L, [sym, &vals]() { vals->push_back(sym); });
-        lua_pop(L, 1);
-    }
+        protect(L, [sym, vals]() { vals->push_back(sym); });
+    });
     lua_replace(L, idx);
     return vals;
 }
@@ -1148,12 +1170,10 @@ int luacall_(lua_State *L) {
     }
     lua_call(L, numeric_cast<int>(args.size + context), 1);
     if (lua_type(L, -1) == LUA_TTABLE) {
-        lua_pushnil(L);
-        while (lua_next(L, -2)) {
+        luaForEach(L, -1, [L, &args]() {
             clingo_symbol_t val = luaToVal(L, -1);
             handle_c_error(L, args.symbol_callback(&val, 1, args.data));
-            lua_pop(L, 1);
-        }
+        });
     } else {
         clingo_symbol_t val = luaToVal(L, -1);
         handle_c_error(L, args.symbol_callback(&val, 1, args.data));
@@ -1396,8 +1416,11 @@ static std::vector<clingo_literal_t> *luaToLits(lua_State *L, int tableIdx, clin
     }
     tableIdx = lua_absindex(L, tableIdx);
     std::vector<clingo_literal_t> *lits = AnyWrap::new_<std::vector<clingo_literal_t>>(L); // +1
-    lua_pushnil(L);                                                                        // +1
-    while (lua_next(L, tableIdx) != 0) {                                                   // +1/-1
+    bool unnecessary = false;
+    luaForEach(L, tableIdx, [&]() {
+        if (unnecessary) {
+            return;
+        }
         if (lua_isnumber(L, -1)) {
             clingo_literal_t lit;
             luaToCpp(L, -1, lit);
@@ -1419,11 +1442,13 @@ static std::vector<clingo_literal_t> *luaToLits(lua_State *L, int tableIdx, clin
                 }
                 protect(L, [lits, lit]() { lits->emplace_back(lit); });
             } else if (sym.positive != disjunctive) {
-                lua_pop(L, 3);
-                return nullptr;
+                unnecessary = true;
             }
         }
+    });
+    if (unnecessary) {
         lua_pop(L, 1); // -1
+        return nullptr;
     }
     return lits;
 }
@@ -2709,12 +2734,10 @@ struct PropagateControl : Object<PropagateControl> {
         luaL_checktype(L, -1, LUA_TTABLE); // +0
         int lits_index = lua_gettop(L);
         auto lits = AnyWrap::new_<std::vector<clingo_literal_t>>(L);             // +1
-        lua_pushnil(L);                                                          // +1
-        while (lua_next(L, -3)) {                                                // -1
+        luaForEach(L, lits_index, [L, lits]() {
             auto lit = numeric_cast<clingo_literal_t>(luaL_checkinteger(L, -1)); // +0
             PROTECT(lits->emplace_back(lit));
-            lua_pop(L, 1);
-        }
+        });
         clingo_clause_type_t type = 0;
         lua_getfield(L, 2, "tag"); // +1
         if (lua_toboolean(L, -1)) {
@@ -3384,12 +3407,10 @@ struct ControlWrap : Object<ControlWrap> {
         luaL_checktype(L, 3, LUA_TTABLE);
         char const *prg = luaL_checkstring(L, 4);
         auto vals = AnyWrap::new_<std::vector<std::string>>(L); // +1
-        lua_pushnil(L);                                         // +1
-        while (lua_next(L, 3) != 0) {                           // +1/-1
+        luaForEach(L, 3, [L, vals]() {
             char const *val = luaL_checkstring(L, -1);
-            protect(L, [val, &vals]() { vals->push_back(val); });
-            lua_pop(L, 1); // -1
-        }
+            protect(L, [val, vals]() { vals->push_back(val); });
+        });
         size_t size = vals->size();
         char const **params = static_cast<decltype(params)>(lua_newuserdata(L, size * sizeof(*params))); // +1
         auto it = params;
-- 
2.43.0


From 693aff6031724cffba6b15dda158dc6ac7a57d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:00 +0000
Subject: [PATCH 42/50] fix: messages that are not valid UTF-8 ended the
 process or replaced errors in Python

---
 libpyclingo/clingo/_internal.py   | 9 ++++++++-
 libpyclingo/clingo/application.py | 3 ++-
 libpyclingo/clingo/core.py        | 4 ++--
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/libpyclingo/clingo/_internal.py b/libpyclingo/clingo/_internal.py
index b26cfcc..ac90c2c 100644
--- a/libpyclingo/clingo/_internal.py
+++ b/libpyclingo/clingo/_internal.py
@@ -66,6 +66,13 @@ def _to_str(c_str) -> str:
     return _ffi.string(c_str).decode()
 
 
+def _to_msg(c_str) -> str:
+    """
+    Convert a message of the engine, which is not necessarily valid UTF-8.
+    """
+    return _ffi.string(c_str).decode(errors="backslashreplace")
+
+
 def _handle_error(ret: bool, handler=None):
     if not ret:
         code = _lib.clingo_error_code()
@@ -73,7 +80,7 @@ def _handle_error(ret: bool, handler=None):
         if code == _lib.clingo_error_unknown and error is not None:
             raise error[1].with_traceback(error[2])
         c_msg = _lib.clingo_error_message()
-        msg = "no message" if c_msg == _ffi.NULL else _to_str(c_msg)
+        msg = "no message" if c_msg == _ffi.NULL else _to_msg(c_msg)
         if code == _lib.clingo_error_bad_alloc:
             raise MemoryError(msg)
         raise RuntimeError(msg)
diff --git a/libpyclingo/clingo/application.py b/libpyclingo/clingo/application.py
index 955fe01..5886f65 100644
--- a/libpyclingo/clingo/application.py
+++ b/libpyclingo/clingo/application.py
@@ -34,6 +34,7 @@ from ._internal import (
     _handle_error,
     _lib,
     _overwritten,
+    _to_msg,
     _to_str,
 )
 from .control import Control
@@ -368,7 +369,7 @@ def _pyclingo_application_message_limit(data):
 @_ffi.def_extern(onerror=_cb_error_panic, name="pyclingo_application_logger")
 def _pyclingo_application_logger(code, message, data):
     app = _ffi.from_handle(data)[0]
-    return app.logger(MessageCode(code), _to_str(message))
+    return app.logger(MessageCode(code), _to_msg(message))
 
 
 @_ffi.def_extern(onerror=_cb_error_print, name="pyclingo_application_main")
diff --git a/libpyclingo/clingo/core.py b/libpyclingo/clingo/core.py
index a16ede5..a65f701 100644
--- a/libpyclingo/clingo/core.py
+++ b/libpyclingo/clingo/core.py
@@ -5,7 +5,7 @@ Core functionality used throught the clingo package.
 from enum import Enum
 from typing import Callable, Tuple
 
-from ._internal import _cb_error_panic, _ffi, _lib, _to_str
+from ._internal import _cb_error_panic, _ffi, _lib, _to_msg
 
 __all__ = ["Logger", "MessageCode", "OrderedEnum", "TruthValue", "version"]
 
@@ -92,7 +92,7 @@ def _pyclingo_logger_callback(code, message, data):
     Low-level logger callback.
     """
     handler = _ffi.from_handle(data)
-    handler(MessageCode(code), _to_str(message))
+    handler(MessageCode(code), _to_msg(message))
 
 
 class TruthValue(OrderedEnum):
-- 
2.43.0


From 958297aebf2fb86f971530f286a1e3f033ee373d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:31 +0000
Subject: [PATCH 43/50] fix: Lua numbers that are no 32-bit integers were
 silently converted to other values

---
 libluaclingo/luaclingo.cc | 71 +++++++++++++++++++++++++--------------
 1 file changed, 45 insertions(+), 26 deletions(-)

diff --git a/libluaclingo/luaclingo.cc b/libluaclingo/luaclingo.cc
index 05cd545..5906981 100644
--- a/libluaclingo/luaclingo.cc
+++ b/libluaclingo/luaclingo.cc
@@ -322,6 +322,25 @@ template <class T, class S> inline T numeric_cast(S s) {
     return static_cast<T>(s);
 }
 
+// converts the number at the given index raising an error if it cannot be represented
+template <class T> T luaToInteger(lua_State *L, int index) {
+    static_assert(std::is_integral<T>::value && sizeof(T) < sizeof(long long), "32 bit integer expected");
+    auto value = static_cast<long long>(lua_tointeger(L, index));
+    if (static_cast<lua_Number>(value) != lua_tonumber(L, index)) {
+        luaL_error(L, "number has no integer representation");
+    }
+    if (value < static_cast<long long>(std::numeric_limits<T>::min()) ||
+        value > static_cast<long long>(std::numeric_limits<T>::max())) {
+        luaL_error(L, "number out of range");
+    }
+    return static_cast<T>(value);
+}
+
+template <class T> T luaCheckInteger(lua_State *L, int index) {
+    luaL_checkinteger(L, index);
+    return luaToInteger<T>(L, index);
+}
+
 clingo_symbol_t luaToVal(lua_State *L, int idx);
 
 #if LUA_VERSION_NUM < 502
@@ -411,7 +430,7 @@ void luaToCpp(lua_State *L, int index, T &x, typename std::enable_if<std::is_int
     if (lua_type(L, index) != LUA_TNUMBER) {
         luaL_error(L, "number expected");
     }
-    x = numeric_cast<T>(lua_tointeger(L, index));
+    x = luaToInteger<T>(L, index);
 }
 
 struct symbol_wrapper {
@@ -1003,7 +1022,7 @@ struct Term : Object<Term> {
     }
     static int newNumber(lua_State *L) {
         clingo_symbol_t sym;
-        clingo_symbol_create_number(numeric_cast<int>(luaL_checkinteger(L, 1)), &sym);
+        clingo_symbol_create_number(luaCheckInteger<int>(L, 1), &sym);
         return Term::new_(L, sym);
     }
     static int newString(lua_State *L) {
@@ -1125,7 +1144,7 @@ clingo_symbol_t luaToVal(lua_State *L, int idx) {
         }
         case LUA_TNUMBER: {
             clingo_symbol_t ret;
-            clingo_symbol_create_number(numeric_cast<int>(lua_tointeger(L, idx)), &ret);
+            clingo_symbol_create_number(luaToInteger<int>(L, idx), &ret);
             return ret;
         }
         case LUA_TUSERDATA: {
@@ -1319,7 +1338,7 @@ struct SymbolicAtoms : Object<SymbolicAtoms> {
     static int by_signature(lua_State *L) {
         auto &self = get_self(L);
         char const *name = luaL_checkstring(L, 2);
-        int arity = numeric_cast<int>(luaL_checkinteger(L, 3));
+        int arity = luaCheckInteger<int>(L, 3);
         bool positive = lua_isnone(L, 4) || lua_toboolean(L, 4);
         clingo_signature_t sig = call_c(L, clingo_signature_create, name, arity, positive);
         auto range = call_c(L, clingo_symbolic_atoms_begin, self.atoms, &sig);
@@ -2249,14 +2268,14 @@ struct Trail : Object<Trail> {
 
     static int begin(lua_State *L) {
         auto &self = get_self(L);
-        auto level = numeric_cast<uint32_t>(luaL_checkinteger(L, 2));
+        auto level = luaCheckInteger<uint32_t>(L, 2);
         lua_pushnumber(L, call_c(L, clingo_assignment_trail_begin, self.ass, level) + 1);
         return 1;
     }
 
     static int end(lua_State *L) {
         auto &self = get_self(L);
-        auto level = numeric_cast<uint32_t>(luaL_checkinteger(L, 2));
+        auto level = luaCheckInteger<uint32_t>(L, 2);
         lua_pushnumber(L, call_c(L, clingo_assignment_trail_end, self.ass, level));
         return 1;
     }
@@ -2300,7 +2319,7 @@ struct Trail : Object<Trail> {
 
     static int at(lua_State *L) {
         auto &self = get_self(L);
-        auto index = numeric_cast<int32_t>(luaL_checkinteger(L, 2)) - 1;
+        auto index = luaL_checkinteger(L, 2) - 1;
         if (0 <= index && index < self.size_(L)) {
             lua_pushnumber(L, self.at_(L, index));
             return 1;
@@ -2348,38 +2367,38 @@ struct Assignment : Object<Assignment> {
     }
 
     static int hasLit(lua_State *L) {
-        auto lit = numeric_cast<clingo_literal_t>(luaL_checkinteger(L, 2));
+        auto lit = luaCheckInteger<clingo_literal_t>(L, 2);
         lua_pushboolean(L, clingo_assignment_has_literal(get_self(L).ass, lit));
         return 1;
     }
 
     static int level(lua_State *L) {
-        auto lit = numeric_cast<clingo_literal_t>(luaL_checkinteger(L, 2));
+        auto lit = luaCheckInteger<clingo_literal_t>(L, 2);
         lua_pushinteger(L, call_c(L, clingo_assignment_level, get_self(L).ass, lit));
         return 1;
     }
 
     static int decision(lua_State *L) {
-        auto level = numeric_cast<uint32_t>(luaL_checkinteger(L, 2));
+        auto level = luaCheckInteger<uint32_t>(L, 2);
         lua_pushinteger(L, call_c(L, clingo_assignment_decision, get_self(L).ass, level));
         return 1;
     }
 
     static int isFixed(lua_State *L) {
-        auto lit = numeric_cast<clingo_literal_t>(luaL_checkinteger(L, 2));
+        auto lit = luaCheckInteger<clingo_literal_t>(L, 2);
         lua_pushboolean(L, call_c(L, clingo_assignment_is_fixed, get_self(L).ass, lit));
         return 1;
     }
 
     static int isTrue(lua_State *L) {
-        auto lit = numeric_cast<clingo_literal_t>(luaL_checkinteger(L, 2));
+        auto lit = luaCheckInteger<clingo_literal_t>(L, 2);
         lua_pushboolean(L, call_c(L, clingo_assignment_is_true, get_self(L).ass, lit));
         return 1;
     }
 
     static int value(lua_State *L) {
         auto &self = get_self(L);
-        auto lit = numeric_cast<clingo_literal_t>(luaL_checkinteger(L, 2));
+        auto lit = luaCheckInteger<clingo_literal_t>(L, 2);
         auto val = call_c(L, clingo_assignment_truth_value, self.ass, lit);
         if (val == clingo_truth_value_free) {
             lua_pushnil(L);
@@ -2390,7 +2409,7 @@ struct Assignment : Object<Assignment> {
     }
 
     static int isFalse(lua_State *L) {
-        auto lit = numeric_cast<clingo_literal_t>(luaL_checkinteger(L, 2));
+        auto lit = luaCheckInteger<clingo_literal_t>(L, 2);
         lua_pushboolean(L, call_c(L, clingo_assignment_is_false, get_self(L).ass, lit));
         return 1;
     }
@@ -2549,7 +2568,7 @@ struct PropagateInit : Object<PropagateInit> {
 
     static int mapLit(lua_State *L) {
         auto &self = get_self(L);
-        auto lit = numeric_cast<clingo_literal_t>(luaL_checkinteger(L, 2));
+        auto lit = luaCheckInteger<clingo_literal_t>(L, 2);
         lua_pushinteger(L, call_c(L, clingo_propagate_init_solver_literal, self.init, lit));
         return 1;
     }
@@ -2561,11 +2580,11 @@ struct PropagateInit : Object<PropagateInit> {
     }
     static int addWatch(lua_State *L) {
         auto &self = get_self(L);
-        auto lit = numeric_cast<clingo_literal_t>(luaL_checkinteger(L, 2));
+        auto lit = luaCheckInteger<clingo_literal_t>(L, 2);
         if (lua_isnone(L, 3) || lua_isnil(L, 3)) {
             handle_c_error(L, clingo_propagate_init_add_watch(self.init, lit));
         } else {
-            auto thread_id = numeric_cast<uint32_t>(luaL_checkinteger(L, 3));
+            auto thread_id = luaCheckInteger<uint32_t>(L, 3);
             handle_c_error(L, clingo_propagate_init_add_watch_to_thread(self.init, lit, thread_id - 1));
         }
         return 0;
@@ -2595,7 +2614,7 @@ struct PropagateInit : Object<PropagateInit> {
         luaL_checknumber(L, 4);
         clingo_weight_constraint_type_t type = clingo_weight_constraint_type_equivalence;
         if (!lua_isnone(L, 5)) {
-            type = luaL_checknumber(L, 5);
+            type = luaCheckInteger<clingo_weight_constraint_type_t>(L, 5);
         }
         bool eq{!lua_isnone(L, 6) && lua_toboolean(L, 6)};
         clingo_literal_t lit;
@@ -2684,7 +2703,7 @@ struct PropagateInit : Object<PropagateInit> {
 
     static int setState(lua_State *L) {
         auto &self = get_self(L);
-        auto id = numeric_cast<clingo_literal_t>(luaL_checkinteger(L, 2));
+        auto id = luaCheckInteger<clingo_literal_t>(L, 2);
         luaL_checkany(L, 3);
         if (id < 1 || id > (int)clingo_propagate_init_number_of_threads(self.init)) {
             luaL_error(L, "invalid solver thread id %d", id);
@@ -2735,7 +2754,7 @@ struct PropagateControl : Object<PropagateControl> {
         int lits_index = lua_gettop(L);
         auto lits = AnyWrap::new_<std::vector<clingo_literal_t>>(L);             // +1
         luaForEach(L, lits_index, [L, lits]() {
-            auto lit = numeric_cast<clingo_literal_t>(luaL_checkinteger(L, -1)); // +0
+            auto lit = luaCheckInteger<clingo_literal_t>(L, -1); // +0
             PROTECT(lits->emplace_back(lit));
         });
         clingo_clause_type_t type = 0;
@@ -2769,21 +2788,21 @@ struct PropagateControl : Object<PropagateControl> {
 
     static int addWatch(lua_State *L) {
         auto &self = get_self(L);
-        auto lit = numeric_cast<clingo_literal_t>(luaL_checkinteger(L, 2));
+        auto lit = luaCheckInteger<clingo_literal_t>(L, 2);
         handle_c_error(L, clingo_propagate_control_add_watch(self.ctl, lit));
         return 0;
     }
 
     static int removeWatch(lua_State *L) {
         auto &self = get_self(L);
-        auto lit = numeric_cast<clingo_literal_t>(luaL_checkinteger(L, 2));
+        auto lit = luaCheckInteger<clingo_literal_t>(L, 2);
         clingo_propagate_control_remove_watch(self.ctl, lit);
         return 0;
     }
 
     static int hasWatch(lua_State *L) {
         auto &self = get_self(L);
-        auto lit = numeric_cast<clingo_literal_t>(luaL_checkinteger(L, 2));
+        auto lit = luaCheckInteger<clingo_literal_t>(L, 2);
         lua_pushboolean(L, clingo_propagate_control_has_watch(self.ctl, lit));
         return 1;
     }
@@ -3003,7 +3022,7 @@ class Propagator {
             lua_pushvalue(L, 4);               // +1
             getState(L, self->T, thread_id);   // +1
             lua_call(L, 5, 1);                 // -5
-            *decision = lua_tointeger(L, -1);
+            *decision = lua_isnil(L, -1) ? 0 : luaToInteger<clingo_literal_t>(L, -1);
             lua_pop(L, 1); // +1
         } else {
             lua_pop(L, 2); // -2
@@ -3619,7 +3638,7 @@ struct ControlWrap : Object<ControlWrap> {
             luaToCpp(L, 1, *args);
         }
         std::vector<char const *> *cargs = AnyWrap::new_<std::vector<char const *>>(L);
-        int message_limit = 20;
+        unsigned message_limit = 20;
         if (has_limit) {
             luaToCpp(L, 3, message_limit);
         }
@@ -3791,7 +3810,7 @@ int parseTerm(lua_State *L) {
     bool has_logger = !lua_isnone(L, 2) && !lua_isnil(L, 2);
     bool has_limit = !lua_isnone(L, 3) && !lua_isnil(L, 3);
     char const *str = luaL_checkstring(L, 1);
-    int message_limit = 20;
+    unsigned message_limit = 20;
     if (has_limit) {
         luaToCpp(L, 3, message_limit);
     }
-- 
2.43.0


From 0bcddb75644462d5027fea9361da74dd92e320e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:29 +0000
Subject: [PATCH 44/50] fix: Optional's constructor from a value allocates and
 may throw

Running out of memory in it must reach the caller as std::bad_alloc; with
noexcept the process was terminated.
---
 libclingo/clingo.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingo/clingo.hh b/libclingo/clingo.hh
index 9d2d475..b55e34e 100644
--- a/libclingo/clingo.hh
+++ b/libclingo/clingo.hh
@@ -166,7 +166,7 @@ template <class T> class Optional {
     ~Optional() = default;
     Optional(T const &x) : data_(new T(x)) {}
     Optional(T &x) : data_(new T(x)) {}
-    Optional(T &&x) noexcept : data_(std::make_unique<T>(std::move(x))) {}
+    Optional(T &&x) : data_(std::make_unique<T>(std::move(x))) {}
     template <class... Args> Optional(Args &&...x) : data_(new T{std::forward<Args>(x)...}) {}
     Optional(Optional &&opt) noexcept : data_(opt.data_.release()) {}
     Optional(Optional &opt) : data_(opt ? new T(*opt) : nullptr) {}
-- 
2.43.0


From 32ebd9bbde1d2749b7921f96954abd16a4060651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:29 +0000
Subject: [PATCH 45/50] fix: AST unpooling reports what its callback threw

The exception caught in the callback was not handed to handle_error, which
then reported the engine's last message instead; and the reference acquired
for an element was lost if the vector could not grow.
---
 libclingo/clingo.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libclingo/clingo.hh b/libclingo/clingo.hh
index b55e34e..f5ccaeb 100644
--- a/libclingo/clingo.hh
+++ b/libclingo/clingo.hh
@@ -3929,10 +3929,10 @@ inline std::vector<Node> Node::unpool(bool other, bool condition) const {
         [](clingo_ast_t *ast, void *data) -> bool {
             auto &d = *static_cast<Data *>(data);
             clingo_ast_acquire(ast);
-            CLINGO_CALLBACK_TRY { d.first.emplace_back(ast); }
+            CLINGO_CALLBACK_TRY { d.first.emplace_back(Node{ast}); }
             CLINGO_CALLBACK_CATCH(d.second);
         },
-        &data));
+        &data), data.second);
     return std::move(data.first);
 }
 
-- 
2.43.0


From 2dfdaada95b626a93d37dd9d834e13d1d447be45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:29 +0000
Subject: [PATCH 46/50] fix: text of a model in Lua is complete or an error

A stream that could not get memory only remembers that it failed: str(model)
then returned the text up to that point.
---
 libluaclingo/luaclingo.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libluaclingo/luaclingo.cc b/libluaclingo/luaclingo.cc
index 5906981..8bbd3e7 100644
--- a/libluaclingo/luaclingo.cc
+++ b/libluaclingo/luaclingo.cc
@@ -1673,6 +1673,9 @@ struct Model : Object<Model> {
             }
             printAtom(*oss, *it);
         }
+        if (!*oss) { // without memory the text is incomplete
+            luaL_error(L, "not enough memory");
+        }
         std::string *str = AnyWrap::new_<std::string>(L);              // +1
         lua_pushstring(L, PROTECT((*str = oss->str(), str->c_str()))); // +1
         lua_replace(L, -5);                                            // -1
-- 
2.43.0


From 7a85f2cf43d943405c6e5c6e68cb456fe06a4862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:28 +0000
Subject: [PATCH 47/50] fix: solve handles in Lua are complete before they can
 be collected

Looking up the metatable may run out of memory; the collector then closed
whatever the uninitialised handle referred to.
---
 libluaclingo/luaclingo.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/libluaclingo/luaclingo.cc b/libluaclingo/luaclingo.cc
index 8bbd3e7..3cec3a3 100644
--- a/libluaclingo/luaclingo.cc
+++ b/libluaclingo/luaclingo.cc
@@ -1796,17 +1796,17 @@ struct SolveHandle : Object<SolveHandle> {
     static SolveHandle *new_(lua_State *L) {
         lua_newtable(L);                                                     // +1
         auto *self = (SolveHandle *)lua_newuserdata(L, sizeof(SolveHandle)); // +1
-        luaL_getmetatable(L, typeNameI);                                     // +1
-        lua_setmetatable(L, -2);                                             // +1
-        lua_rawseti(L, -2, 1);                                               // -1
-        luaL_getmetatable(L, typeName);                                      // +1
-        lua_setmetatable(L, -2);                                             // -1
         self->handle = nullptr;
         self->mode = 0;
         self->hasFH = false;
         self->hasMH = false;
         self->ctl = nullptr;
         self->ass = nullptr;
+        luaL_getmetatable(L, typeNameI);                                     // +1
+        lua_setmetatable(L, -2);                                             // +1
+        lua_rawseti(L, -2, 1);                                               // -1
+        luaL_getmetatable(L, typeName);                                      // +1
+        lua_setmetatable(L, -2);                                             // -1
         return self;
     }
     static void reg(lua_State *L) {
-- 
2.43.0


From 93ab555c0d2c18e29b8323bde8f34efb4cefe9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:42 +0000
Subject: [PATCH 48/50] fix: a backend in Lua is begun once its object exists

If the object could not be created, the backend stayed open and nothing was
left to close it with.
---
 libluaclingo/luaclingo.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libluaclingo/luaclingo.cc b/libluaclingo/luaclingo.cc
index 3cec3a3..627ba91 100644
--- a/libluaclingo/luaclingo.cc
+++ b/libluaclingo/luaclingo.cc
@@ -3731,8 +3731,9 @@ struct ControlWrap : Object<ControlWrap> {
         if (!backend) {
             return luaL_error(L, "backend not available");
         }
+        int n = Backend::new_(L, backend);
         call_c(L, clingo_backend_begin, backend);
-        return Backend::new_(L, backend);
+        return n;
     }
 
     static int registerObserver(lua_State *L) {
-- 
2.43.0


From e5b0aa425d5011ea2d12799b8a189bac51ebf137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:48 +0000
Subject: [PATCH 49/50] fix: running out of memory keeps the state of
 propagators in Lua

Errors raised on the thread that stores a propagator, its states and the
threads of the solvers reset this thread: the next callback of the propagator
used a stack without them.
---
 libluaclingo/luaclingo.cc | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/libluaclingo/luaclingo.cc b/libluaclingo/luaclingo.cc
index 627ba91..0aec4c2 100644
--- a/libluaclingo/luaclingo.cc
+++ b/libluaclingo/luaclingo.cc
@@ -2711,8 +2711,12 @@ struct PropagateInit : Object<PropagateInit> {
         if (id < 1 || id > (int)clingo_propagate_init_number_of_threads(self.init)) {
             luaL_error(L, "invalid solver thread id %d", id);
         }
-        lua_xmove(L, self.T, 1);
-        lua_rawseti(self.T, 2, id);
+        // Note: an error raised on T would reset it
+        lua_pushvalue(self.T, 2);
+        lua_xmove(self.T, L, 1); // +1
+        lua_insert(L, -2);
+        lua_rawseti(L, -2, id); // -1
+        lua_pop(L, 1);          // -1
         return 0;
     }
 
@@ -2854,11 +2858,14 @@ class Propagator {
         auto *self = static_cast<Propagator *>(lua_touserdata(L, 1));
         auto *init = static_cast<clingo_propagate_init_t *>(lua_touserdata(L, 2));
         PROTECT(self->threads.reserve(clingo_propagate_init_number_of_threads(init)));
+        lua_pushvalue(self->T, ThreadIndex);
+        lua_xmove(self->T, L, 1); // +1
         while (self->threads.size() < static_cast<size_t>(clingo_propagate_init_number_of_threads(init))) {
-            self->threads.emplace_back(lua_newthread(L));
-            lua_xmove(L, self->T, 1);
-            lua_rawseti(self->T, ThreadIndex, numeric_cast<int>(self->threads.size()));
+            auto *thread = lua_newthread(L);                                 // +1
+            lua_rawseti(L, -2, numeric_cast<int>(self->threads.size() + 1)); // -1
+            self->threads.emplace_back(thread);
         }
+        lua_pop(L, 1);                           // -1
         lua_pushvalue(self->T, PropagatorIndex); // +1
         lua_xmove(self->T, L, 1);                // +0
         lua_getfield(L, -1, "init");             // +1
@@ -3709,9 +3716,9 @@ struct ControlWrap : Object<ControlWrap> {
         luaL_ref(L, -2);            // -1
         lua_pop(L, 1);              // -1
         lua_pushvalue(L, 2);        // +1
-        lua_xmove(L, T, 1);         // -1
-        lua_newtable(T);
-        lua_newtable(T);
+        lua_newtable(L);            // +1
+        lua_newtable(L);            // +1
+        lua_xmove(L, T, 3);         // -3
 
         clingo_propagator_t propagator = {
             Propagator::init, // also sets up the execution threads
-- 
2.43.0


From 8d6a64693f6692d65d9807d67de26bfadca80ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:40 +0000
Subject: [PATCH 50/50] fix: Lua scripts without memory for their location fail

A stream only remembers that it ran out of memory; the script was then run
under an incomplete location.
---
 libluaclingo/luaclingo.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libluaclingo/luaclingo.cc b/libluaclingo/luaclingo.cc
index 0aec4c2..b5bdbb0 100644
--- a/libluaclingo/luaclingo.cc
+++ b/libluaclingo/luaclingo.cc
@@ -1224,6 +1224,7 @@ bool luacall(lua_State *L, clingo_location_t const *location, int context, char
         std::string loc, desc;
         try {
             std::ostringstream oss;
+            oss.exceptions(std::ios::badbit);
             oss << *location;
             loc = oss.str();
             desc = "error calling ";
@@ -3953,6 +3954,7 @@ struct LuaScriptC {
         std::string name;
         try {
             std::stringstream oss;
+            oss.exceptions(std::ios::badbit);
             oss << *loc;
             name = oss.str();
         } catch (...) {
-- 
2.43.0

