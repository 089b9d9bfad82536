From 86c7bff440784f8159324050b4db7bf37551e2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:18 +0000
Subject: [PATCH 01/64] fix: Apply the builder's root before its features

The result of a build depended on whether makeRoot was called before or after
makeFeature, and a model with a non-root feature called "root" could neither
be built nor cloned.
---
 include/vara/Feature/FeatureModelBuilder.h | 6 +++++-
 lib/Feature/FeatureModelBuilder.cpp        | 8 ++++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/vara/Feature/FeatureModelBuilder.h b/include/vara/Feature/FeatureModelBuilder.h
index 63fe0e9..24e5c87 100644
--- a/include/vara/Feature/FeatureModelBuilder.h
+++ b/include/vara/Feature/FeatureModelBuilder.h
@@ -17,6 +17,7 @@ class FeatureModelBuilder {
 public:
   FeatureModelBuilder()
       : FM(std::make_unique<FeatureModel>()),
+        RootBuilder(FeatureModelModifyTransaction::openTransaction(*FM)),
         FeatureBuilder(FeatureModelModifyTransaction::openTransaction(*FM)),
         ModelBuilder(FeatureModelModifyTransaction::openTransaction(*FM)),
         RelationBuilder(FeatureModelModifyTransaction::openTransaction(*FM)) {}
@@ -27,6 +28,7 @@ public:
   FeatureModelBuilder &operator=(FeatureModelBuilder &&) = default;
 
   ~FeatureModelBuilder() {
+    RootBuilder.abort();
     FeatureBuilder.abort();
     ModelBuilder.abort();
     RelationBuilder.abort();
@@ -92,7 +94,7 @@ public:
   }
 
   FeatureModelBuilder *makeRoot(const std::string &Name) {
-    FeatureBuilder.setRoot(std::make_unique<RootFeature>(Name));
+    RootBuilder.setRoot(std::make_unique<RootFeature>(Name));
     return this;
   }
 
@@ -104,6 +106,8 @@ public:
 private:
   std::unique_ptr<FeatureModel> FM;
   llvm::StringMap<std::string> Parents;
+  // Modifications to set the root, independent of when it was declared.
+  FeatureModelTransaction<detail::ModifyTransactionMode> RootBuilder;
   // Modifications to initialize features as children of root.
   FeatureModelTransaction<detail::ModifyTransactionMode> FeatureBuilder;
   // Modifications to build tree structure and set FM meta information.
diff --git a/lib/Feature/FeatureModelBuilder.cpp b/lib/Feature/FeatureModelBuilder.cpp
index fd8a96a..32f7dec 100644
--- a/lib/Feature/FeatureModelBuilder.cpp
+++ b/lib/Feature/FeatureModelBuilder.cpp
@@ -9,6 +9,14 @@ namespace vara::feature {
 std::unique_ptr<FeatureModel> FeatureModelBuilder::buildFeatureModel() {
   assert(FM->getRoot() && "FeatureModel has no root.");
 
+  if (Result E = RootBuilder.commit(); !E) {
+    llvm::errs() << "Building root failed with error: " << E << '\n';
+    FeatureBuilder.abort();
+    ModelBuilder.abort();
+    RelationBuilder.abort();
+    return nullptr;
+  }
+
   if (Result E = FeatureBuilder.commit(); !E) {
     llvm::errs() << "Building features failed with error: " << E << '\n';
     ModelBuilder.abort();
-- 
2.43.0


From 9f8f36b687e969db1c6eecff05537e028a1105c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:08 +0000
Subject: [PATCH 02/64] fix: Refuse a group below an unknown or already grouped
 feature

AddRelationshipToModel dereferenced a null parent for unknown names, after it
had already inserted the relationship into the model, and stacked a second
group onto a feature, whose children it failed to move.
---
 include/vara/Feature/FeatureModelTransaction.h | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/vara/Feature/FeatureModelTransaction.h b/include/vara/Feature/FeatureModelTransaction.h
index 1946bc1..1aedb3e 100644
--- a/include/vara/Feature/FeatureModelTransaction.h
+++ b/include/vara/Feature/FeatureModelTransaction.h
@@ -402,18 +402,24 @@ public:
   }
 
   Result<FTErrorCode, Relationship *> operator()(FeatureModel &FM) {
-    auto *InsertedRelationship =
-        addRelationship(FM, std::make_unique<Relationship>(Kind));
-    if (!InsertedRelationship) {
-      return ERROR;
-    }
-
     auto *P = std::visit(
         Overloaded{
             [&FM](const std::string &Name) { return FM.getFeature(Name); },
             [](Feature *Ptr) { return Ptr; },
         },
         Parent);
+    if (!P) {
+      return MISSING_PARENT;
+    }
+    if (!P->getChildren<Relationship>(1).empty()) {
+      return ALREADY_PRESENT;
+    }
+
+    auto *InsertedRelationship =
+        addRelationship(FM, std::make_unique<Relationship>(Kind));
+    if (!InsertedRelationship) {
+      return ERROR;
+    }
 
     setParent(*InsertedRelationship, *P);
     addEdge(*P, *InsertedRelationship);
-- 
2.43.0


From 44a91196f7b4da5329635eacc9397ef79f2804a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:43 +0000
Subject: [PATCH 03/64] fix: Remove only the group of the given feature

RemoveRelationshipFromModel dereferenced the end of an empty set if the feature
had no group, and picked the group of a descendant if there was one, moving
that group's children up to the given feature.
---
 include/vara/Feature/FeatureModelTransaction.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/vara/Feature/FeatureModelTransaction.h b/include/vara/Feature/FeatureModelTransaction.h
index 1aedb3e..fe06379 100644
--- a/include/vara/Feature/FeatureModelTransaction.h
+++ b/include/vara/Feature/FeatureModelTransaction.h
@@ -469,7 +469,10 @@ public:
       return MISSING_PARENT;
     }
 
-    auto Relationships = P->getChildren<Relationship>();
+    auto Relationships = P->getChildren<Relationship>(1);
+    if (Relationships.empty()) {
+      return MISSING_CHILD;
+    }
     Relationship *R = *Relationships.begin();
 
     removeEdge(*P, *R);
-- 
2.43.0


From eec1a6cb9f99db7b70b91a154b1c0d350672cc5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:00 +0000
Subject: [PATCH 04/64] fix: Remove the constraints of a removed feature

Constraints kept a pointer to the deleted feature, which every later use of the
model (printing, cloning, saving, solving) dereferenced.
---
 include/vara/Feature/FeatureModel.h |  5 ++++-
 lib/Feature/FeatureModel.cpp        | 35 +++++++++++++++++++++++++++++
 2 files changed, 39 insertions(+), 1 deletion(-)

diff --git a/include/vara/Feature/FeatureModel.h b/include/vara/Feature/FeatureModel.h
index 3928e59..3dc6756 100644
--- a/include/vara/Feature/FeatureModel.h
+++ b/include/vara/Feature/FeatureModel.h
@@ -366,9 +366,12 @@ private:
   /// \returns ptr to inserted \a Feature
   Feature *addFeature(std::unique_ptr<Feature> Feature);
 
-  /// Delete a \a Feature.
+  /// Delete a \a Feature and all constraints it is part of.
   void removeFeature(Feature &Feature);
 
+  /// Delete all constraints a \a Feature is part of.
+  void removeConstraintsOf(Feature &F);
+
   RootFeature *setRoot(RootFeature &NewRoot);
 
   using ordered_feature_iterator = DFSIterator;
diff --git a/lib/Feature/FeatureModel.cpp b/lib/Feature/FeatureModel.cpp
index 56a1040..02e5504 100644
--- a/lib/Feature/FeatureModel.cpp
+++ b/lib/Feature/FeatureModel.cpp
@@ -6,6 +6,8 @@
 #include "llvm/Support/MemoryBuffer.h"
 
 #include <algorithm>
+#include <set>
+#include <vector>
 
 //===----------------------------------------------------------------------===//
 //                          FeatureModel
@@ -34,9 +36,42 @@ void FeatureModel::removeFeature(Feature &F) {
   if (&F == Root) {
     Root = nullptr;
   }
+  removeConstraintsOf(F);
   Features.erase(F.getName());
 }
 
+void FeatureModel::removeConstraintsOf(Feature &F) {
+  std::set<Constraint *> Affected;
+  for (auto *C : F.constraints()) {
+    Affected.insert(C->getRoot());
+  }
+  if (Affected.empty()) {
+    return;
+  }
+
+  // Other features may also be part of the affected constraints
+  for (auto *Other : unorderedFeatures()) {
+    const std::vector<Constraint *> Registered(Other->constraints().begin(),
+                                               Other->constraints().end());
+    for (auto *C : Registered) {
+      if (Affected.count(C->getRoot())) {
+        Other->removeConstraintNonPreserve(C);
+      }
+    }
+  }
+
+  auto EraseAffected = [&Affected](auto &Container) {
+    Container.erase(std::remove_if(Container.begin(), Container.end(),
+                                   [&Affected](const auto &C) {
+                                     return Affected.count(**C) > 0;
+                                   }),
+                    Container.end());
+  };
+  EraseAffected(BooleanConstraints);
+  EraseAffected(NonBooleanConstraints);
+  EraseAffected(MixedConstraints);
+}
+
 RootFeature *FeatureModel::setRoot(RootFeature &NewRoot) {
   return Root = &NewRoot;
 }
-- 
2.43.0


From ec389fa7cac3f8bd65c2f8bdec93f26f07913313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:35 +0000
Subject: [PATCH 05/64] fix: Refuse to remove the root of a feature model

RemoveFeatureFromModel dereferenced the missing parent of the root, in
recursive mode after all other features had been removed.
---
 include/vara/Feature/FeatureModelTransaction.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/vara/Feature/FeatureModelTransaction.h b/include/vara/Feature/FeatureModelTransaction.h
index fe06379..7fb03e3 100644
--- a/include/vara/Feature/FeatureModelTransaction.h
+++ b/include/vara/Feature/FeatureModelTransaction.h
@@ -353,6 +353,9 @@ public:
     if (!F) {
       return MISSING_FEATURE;
     }
+    if (F == FM.getRoot()) {
+      return INCONSISTENT;
+    }
 
     if (Recursive) {
       for (auto *C : F->getChildren<Feature>()) {
@@ -360,7 +363,7 @@ public:
           return E;
         }
       }
-      for (auto *R : F->getChildren<Relationship>()) {
+      for (auto *R : F->getChildren<Relationship>(1)) {
         removeEdge(*F, *R);
         removeRelationship(FM, R);
       }
-- 
2.43.0


From c9f4e61c46328f093f1d40262056b358d0f8d450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:49 +0000
Subject: [PATCH 06/64] fix: Keep constraints over the root when the root is
 replaced

SetRoot deleted the old root while constraints still pointed to it.
---
 include/vara/Feature/FeatureModelTransaction.h | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/vara/Feature/FeatureModelTransaction.h b/include/vara/Feature/FeatureModelTransaction.h
index 7fb03e3..9ef7060 100644
--- a/include/vara/Feature/FeatureModelTransaction.h
+++ b/include/vara/Feature/FeatureModelTransaction.h
@@ -215,6 +215,21 @@ protected:
     F.addConstraint(&Constraint);
   }
 
+  /// \brief Let all constraints over \a Feature From refer to To instead.
+  static void moveConstraints(Feature &From, Feature &To) {
+    const std::vector<Constraint *> Constraints(From.constraints().begin(),
+                                                From.constraints().end());
+    for (auto *C : Constraints) {
+      From.removeConstraintNonPreserve(C);
+    }
+    for (auto *C : Constraints) {
+      if (auto *PFC = llvm::dyn_cast<PrimaryFeatureConstraint>(C); PFC) {
+        setFeature(*PFC, To);
+        addConstraint(To, *PFC);
+      }
+    }
+  }
+
   static void addLocation(Feature &F, FeatureSourceRange FSR) {
     F.addLocation(std::move(FSR));
   }
@@ -743,6 +758,7 @@ public:
           removeEdge(*FM.getRoot(), *C);
         }
       }
+      moveConstraints(*FM.getRoot(), *InsertedRoot);
       removeFeature(FM, *FM.getRoot());
     }
     setRoot(FM, *InsertedRoot);
-- 
2.43.0


From f3474c52168fdfe623b500f2a4a5544460b8be7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:25 +0000
Subject: [PATCH 07/64] fix: Refuse edges which make a node its own ancestor

AddChild only checked for self edges, so moving a feature below one of its
descendants cut a cyclic part off the tree.
---
 include/vara/Feature/FeatureModelTransaction.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/vara/Feature/FeatureModelTransaction.h b/include/vara/Feature/FeatureModelTransaction.h
index 9ef7060..bb6de55 100644
--- a/include/vara/Feature/FeatureModelTransaction.h
+++ b/include/vara/Feature/FeatureModelTransaction.h
@@ -811,8 +811,11 @@ public:
       return MISSING_PARENT;
     }
 
-    if (C == P) {
-      return RECURSIVE_EDGE;
+    // C must not become its own (transitive) child.
+    for (auto *Ancestor = P; Ancestor; Ancestor = Ancestor->getParent()) {
+      if (Ancestor == C) {
+        return RECURSIVE_EDGE;
+      }
     }
 
     if (C->getParent()) {
-- 
2.43.0


From 563cba1996bd1ee12c804dbeca13be8a2db24245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:00 +0000
Subject: [PATCH 08/64] fix: Add no constraint over unknown features to a model

AddConstraintToModel inserted the constraint before it looked up the features,
so that a refused constraint stayed in the model.
---
 .../vara/Feature/FeatureModelTransaction.h    | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/include/vara/Feature/FeatureModelTransaction.h b/include/vara/Feature/FeatureModelTransaction.h
index bb6de55..6b7a436 100644
--- a/include/vara/Feature/FeatureModelTransaction.h
+++ b/include/vara/Feature/FeatureModelTransaction.h
@@ -599,6 +599,10 @@ public:
   }
 
   Result<FTErrorCode, Constraint *> operator()(FeatureModel &FM) {
+    auto Check = CheckFeaturesExistVisitor(&FM);
+    if (!NewConstraint->constraint()->accept(Check)) {
+      return MISSING_FEATURE;
+    }
     auto *InsertedConstraint = addConstraint(FM, std::move(NewConstraint));
     if (!InsertedConstraint) {
       return ERROR;
@@ -611,6 +615,21 @@ public:
   }
 
 private:
+  class CheckFeaturesExistVisitor : public ConstraintVisitor {
+
+  public:
+    CheckFeaturesExistVisitor(FeatureModel *FM) : FM(FM) {}
+
+    using ConstraintVisitor::visit;
+
+    bool visit(PrimaryFeatureConstraint *C) override {
+      return FM->getFeature(C->getFeature()->getName()) != nullptr;
+    };
+
+  private:
+    FeatureModel *FM;
+  };
+
   class AddConstraintToModelVisitor : public ConstraintVisitor {
 
   public:
-- 
2.43.0


From 9aa1292d171c4a7515e07fd12a7aee33941346d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:58 +0000
Subject: [PATCH 09/64] fix: Report locations of unknown features

AddLocationToFeature and RemoveLocationFromFeature dereferenced a null pointer
if the model has no feature of the given name.
---
 .../vara/Feature/FeatureModelTransaction.h    | 38 +++++++++++--------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/include/vara/Feature/FeatureModelTransaction.h b/include/vara/Feature/FeatureModelTransaction.h
index 6b7a436..19287fc 100644
--- a/include/vara/Feature/FeatureModelTransaction.h
+++ b/include/vara/Feature/FeatureModelTransaction.h
@@ -528,14 +528,17 @@ public:
   }
 
   Result<FTErrorCode> operator()(FeatureModel &FM) {
-    addLocation(*std::visit(Overloaded{
-                                [&FM](const std::string &Name) {
-                                  return FM.getFeature(Name);
-                                },
-                                [](Feature *Ptr) { return Ptr; },
-                            },
-                            F),
-                FSR);
+    auto *LocatedFeature = std::visit(
+        Overloaded{
+            [&FM](const std::string &Name) { return FM.getFeature(Name); },
+            [](Feature *Ptr) { return Ptr; },
+        },
+        F);
+    if (!LocatedFeature) {
+      return MISSING_FEATURE;
+    }
+
+    addLocation(*LocatedFeature, FSR);
     return Ok();
   }
 
@@ -563,14 +566,17 @@ public:
   }
 
   Result<FTErrorCode> operator()(FeatureModel &FM) {
-    removeLocation(*std::visit(Overloaded{
-                                   [&FM](const std::string &Name) {
-                                     return FM.getFeature(Name);
-                                   },
-                                   [](Feature *Ptr) { return Ptr; },
-                               },
-                               F),
-                   FSR);
+    auto *LocatedFeature = std::visit(
+        Overloaded{
+            [&FM](const std::string &Name) { return FM.getFeature(Name); },
+            [](Feature *Ptr) { return Ptr; },
+        },
+        F);
+    if (!LocatedFeature) {
+      return MISSING_FEATURE;
+    }
+
+    removeLocation(*LocatedFeature, FSR);
     return Ok();
   }
 
-- 
2.43.0


From 199c971f14f3514f17b66a205b43cf9df33c9e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:41 +0000
Subject: [PATCH 10/64] fix: Do not erase a location which a feature does not
 have

Feature::removeLocation passed the end iterator to erase, which is undefined
behaviour and dropped an unrelated location in practice.
---
 include/vara/Feature/Feature.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/vara/Feature/Feature.h b/include/vara/Feature/Feature.h
index d44e9ec..2a25b8a 100644
--- a/include/vara/Feature/Feature.h
+++ b/include/vara/Feature/Feature.h
@@ -99,7 +99,11 @@ public:
 
   std::vector<FeatureSourceRange>::iterator
   removeLocation(const FeatureSourceRange &Fsr) {
-    return Locations.erase(std::find(Locations.begin(), Locations.end(), Fsr));
+    auto Loc = std::find(Locations.begin(), Locations.end(), Fsr);
+    if (Loc == Locations.end()) {
+      return Loc;
+    }
+    return Locations.erase(Loc);
   }
 
   bool updateLocation(const FeatureSourceRange &OldFsr,
-- 
2.43.0


From d9871511d34f884fb3fecf3802bac13de0e3ae5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:08 +0000
Subject: [PATCH 11/64] fix: Refuse copy transaction edits of unknown features

The copy transaction dereferenced a null pointer if a feature was not part of
the model, and added features whose parent is unknown below the root.
---
 .../vara/Feature/FeatureModelTransaction.h    | 64 +++++++------------
 1 file changed, 23 insertions(+), 41 deletions(-)

diff --git a/include/vara/Feature/FeatureModelTransaction.h b/include/vara/Feature/FeatureModelTransaction.h
index 19287fc..358219b 100644
--- a/include/vara/Feature/FeatureModelTransaction.h
+++ b/include/vara/Feature/FeatureModelTransaction.h
@@ -893,8 +893,12 @@ protected:
     if (Parent) {
       // To correctly add a parent, we need to translate it to a Feature in
       // our copied FeatureModel
+      Feature *TranslatedParent = translateFeature(Parent);
+      if (!TranslatedParent) {
+        return MISSING_PARENT;
+      }
       return FeatureModelModification::makeModification<AddFeatureToModel>(
-          std::move(NewFeature), translateFeature(*Parent))(*FM);
+          std::move(NewFeature), TranslatedParent)(*FM);
     }
 
     return FeatureModelModification::makeModification<AddFeatureToModel>(
@@ -905,14 +909,7 @@ protected:
     assert(FM && "FeatureModel is null.");
 
     FeatureModelModification::makeModification<RemoveFeatureFromModel>(
-        translateFeature(*std::visit(Overloaded{
-                                         [this](const std::string &Name) {
-                                           return FM->getFeature(Name);
-                                         },
-                                         [](Feature *Ptr) { return Ptr; },
-                                     },
-                                     F)),
-        Recursive)(*FM);
+        translateFeature(F), Recursive)(*FM);
   }
 
   Result<FTErrorCode, Relationship *>
@@ -923,54 +920,28 @@ protected:
     }
 
     return FeatureModelModification::makeModification<AddRelationshipToModel>(
-        Kind, translateFeature(*std::visit(Overloaded{
-                                               [this](const std::string &Name) {
-                                                 return FM->getFeature(Name);
-                                               },
-                                               [](Feature *Ptr) { return Ptr; },
-                                           },
-                                           Parent)))(*FM);
+        Kind, translateFeature(Parent))(*FM);
   }
 
   void removeRelationshipImpl(const FeatureVariantTy &F) {
     assert(FM && "Feature model is null.");
 
     FeatureModelModification::makeModification<RemoveRelationshipFromModel>(
-        translateFeature(*std::visit(Overloaded{
-                                         [this](const std::string &Name) {
-                                           return FM->getFeature(Name);
-                                         },
-                                         [](Feature *Ptr) { return Ptr; },
-                                     },
-                                     F)))(*FM);
+        translateFeature(F))(*FM);
   }
 
   void addLocationImpl(const FeatureVariantTy &F, FeatureSourceRange FSR) {
     assert(FM && "FeatureModel is null.");
 
     FeatureModelModification::makeModification<AddLocationToFeature>(
-        translateFeature(*std::visit(Overloaded{
-                                         [this](const std::string &Name) {
-                                           return FM->getFeature(Name);
-                                         },
-                                         [](Feature *Ptr) { return Ptr; },
-                                     },
-                                     F)),
-        std::move(FSR))(*FM);
+        translateFeature(F), std::move(FSR))(*FM);
   }
 
   void removeLocationImpl(const FeatureVariantTy &F, FeatureSourceRange &FSR) {
     assert(FM && "FeatureModel is null.");
 
     FeatureModelModification::makeModification<RemoveLocationFromFeature>(
-        translateFeature(*std::visit(Overloaded{
-                                         [this](const std::string &Name) {
-                                           return FM->getFeature(Name);
-                                         },
-                                         [](Feature *Ptr) { return Ptr; },
-                                     },
-                                     F)),
-        FSR)(*FM);
+        translateFeature(F), FSR)(*FM);
   }
 
   template <class ConstraintTy>
@@ -1020,8 +991,19 @@ protected:
 
 private:
   bool Continue{true};
-  [[nodiscard]] Feature *translateFeature(Feature &F) {
-    return FM->getFeature(F.getName());
+
+  /// Search the Feature of our copied FeatureModel which corresponds to F.
+  ///
+  /// \returns nullptr if there is no such Feature
+  [[nodiscard]] Feature *translateFeature(const FeatureVariantTy &F) {
+    return std::visit(
+        Overloaded{
+            [this](const std::string &Name) { return FM->getFeature(Name); },
+            [this](Feature *Ptr) {
+              return Ptr ? FM->getFeature(Ptr->getName()) : nullptr;
+            },
+        },
+        F);
   }
 
   std::unique_ptr<FeatureModel> FM;
-- 
2.43.0


From da43d4abbb0d00b310a2dc172d0976c972ae82e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:40 +0000
Subject: [PATCH 12/64] fix: Execute addChild in copy transactions

The modification was created, but never applied to the copied model.
---
 .../vara/Feature/FeatureModelTransaction.h    | 35 +++++++++++++++++--
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/include/vara/Feature/FeatureModelTransaction.h b/include/vara/Feature/FeatureModelTransaction.h
index 358219b..18e7e4c 100644
--- a/include/vara/Feature/FeatureModelTransaction.h
+++ b/include/vara/Feature/FeatureModelTransaction.h
@@ -984,9 +984,14 @@ protected:
         *FM);
   }
 
-  static void addChildImpl(const FeatureTreeNodeVariantTy &Parent,
-                           const FeatureTreeNodeVariantTy &Child) {
-    FeatureModelModification::makeModification<AddChild>(Parent, Child);
+  Result<FTErrorCode> addChildImpl(const FeatureTreeNodeVariantTy &Parent,
+                                   const FeatureTreeNodeVariantTy &Child) {
+    if (!FM) {
+      return ERROR;
+    }
+
+    return FeatureModelModification::makeModification<AddChild>(
+        translateNode(Parent), translateNode(Child))(*FM);
   }
 
 private:
@@ -1006,6 +1011,30 @@ private:
         F);
   }
 
+  /// Search the node of our copied FeatureModel which corresponds to N. A
+  /// Relationship is identified by the Feature it belongs to.
+  ///
+  /// \returns nullptr if there is no such node
+  [[nodiscard]] FeatureTreeNode *
+  translateNode(const FeatureTreeNodeVariantTy &N) {
+    if (std::holds_alternative<std::string>(N)) {
+      return FM->getFeature(std::get<std::string>(N));
+    }
+
+    auto *Node = std::get<FeatureTreeNode *>(N);
+    if (auto *F = llvm::dyn_cast_or_null<Feature>(Node); F) {
+      return FM->getFeature(F->getName());
+    }
+    if (auto *R = llvm::dyn_cast_or_null<Relationship>(Node); R) {
+      auto *P = llvm::dyn_cast_or_null<Feature>(R->getParent());
+      P = P ? FM->getFeature(P->getName()) : nullptr;
+      if (P && !P->getChildren<Relationship>(1).empty()) {
+        return *P->getChildren<Relationship>(1).begin();
+      }
+    }
+    return nullptr;
+  }
+
   std::unique_ptr<FeatureModel> FM;
 };
 
-- 
2.43.0


From 5d4d985e05423edcac59028bb9a51f6e9a8bf420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:35 +0000
Subject: [PATCH 13/64] fix: Do not commit a moved-from modify transaction

The moved-from transaction kept its pointer to the feature model, printed a
warning and touched the, possibly already destroyed, model on destruction.
---
 .../vara/Feature/FeatureModelTransaction.h    | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/include/vara/Feature/FeatureModelTransaction.h b/include/vara/Feature/FeatureModelTransaction.h
index 18e7e4c..7243346 100644
--- a/include/vara/Feature/FeatureModelTransaction.h
+++ b/include/vara/Feature/FeatureModelTransaction.h
@@ -1041,6 +1041,26 @@ private:
 class FeatureModelModifyTransactionBase {
 protected:
   FeatureModelModifyTransactionBase(FeatureModel &FM) : FM(&FM) {}
+  FeatureModelModifyTransactionBase(const FeatureModelModifyTransactionBase &) =
+      delete;
+  FeatureModelModifyTransactionBase &
+  operator=(const FeatureModelModifyTransactionBase &) = delete;
+  // A moved-from transaction must no longer refer to the FeatureModel,
+  // otherwise, it would commit to it on destruction.
+  FeatureModelModifyTransactionBase(
+      FeatureModelModifyTransactionBase &&Other) noexcept
+      : Continue(Other.Continue), FM(std::exchange(Other.FM, nullptr)),
+        Modifications(std::move(Other.Modifications)) {}
+  FeatureModelModifyTransactionBase &
+  operator=(FeatureModelModifyTransactionBase &&Other) noexcept {
+    if (this != &Other) {
+      Continue = Other.Continue;
+      FM = std::exchange(Other.FM, nullptr);
+      Modifications = std::move(Other.Modifications);
+    }
+    return *this;
+  }
+  ~FeatureModelModifyTransactionBase() = default;
 
   Result<FTErrorCode> commitImpl() {
     if (isUncommitted() && FM) {
-- 
2.43.0


From 852d9b649c3972fd15bf3cd8f68322ec03ed8037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:17 +0000
Subject: [PATCH 14/64] fix: Clone output strings and step functions

FeatureModel::clone dropped both, and with it every copy transaction.
---
 lib/Feature/FeatureModel.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lib/Feature/FeatureModel.cpp b/lib/Feature/FeatureModel.cpp
index 02e5504..09c9a6e 100644
--- a/lib/Feature/FeatureModel.cpp
+++ b/lib/Feature/FeatureModel.cpp
@@ -97,14 +97,18 @@ std::unique_ptr<FeatureModel> FeatureModel::clone() const {
     case Feature::FeatureKind::FK_BINARY:
       if (auto *F = llvm::dyn_cast<BinaryFeature>(KV.getValue().get()); F) {
         FMB.makeFeature<BinaryFeature>(F->getName().str(), F->isOptional(),
-                                       std::move(SourceRanges));
+                                       std::move(SourceRanges),
+                                       F->getOutputString().str());
       }
       break;
     case Feature::FeatureKind::FK_NUMERIC:
       if (auto *F = llvm::dyn_cast<NumericFeature>(KV.getValue().get()); F) {
-        FMB.makeFeature<NumericFeature>(F->getName().str(), F->getValues(),
-                                        F->isOptional(),
-                                        std::move(SourceRanges));
+        FMB.makeFeature<NumericFeature>(
+            F->getName().str(), F->getValues(), F->isOptional(),
+            std::move(SourceRanges), F->getOutputString().str(),
+            F->getStepFunction()
+                ? std::make_unique<StepFunction>(*F->getStepFunction())
+                : nullptr);
       }
       break;
     }
-- 
2.43.0


From 9b9c8ef62b4c62686844080856e55dfb2b7b2851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:36 +0000
Subject: [PATCH 15/64] fix: Clone locations of the root feature

---
 lib/Feature/FeatureModel.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/lib/Feature/FeatureModel.cpp b/lib/Feature/FeatureModel.cpp
index 09c9a6e..054ba9f 100644
--- a/lib/Feature/FeatureModel.cpp
+++ b/lib/Feature/FeatureModel.cpp
@@ -148,6 +148,19 @@ std::unique_ptr<FeatureModel> FeatureModel::clone() const {
   //  valid.
   auto FM = FMB.buildFeatureModel();
   assert(FM);
+
+  for (const auto &KV : this->Features) {
+    auto *F = KV.getValue().get();
+    auto *Clone = FM->getFeature(F->getName());
+
+    // These kinds are constructed without locations
+    if (F->getKind() == Feature::FeatureKind::FK_ROOT ||
+        F->getKind() == Feature::FeatureKind::FK_UNKNOWN) {
+      for (const auto &Location : F->getLocations()) {
+        Clone->addLocation(Location);
+      }
+    }
+  }
   return FM;
 }
 
-- 
2.43.0


From b68b1e1cc4e6e5bbc0c962913753a98ae1b3e68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:53 +0000
Subject: [PATCH 16/64] fix: Clone children beside a group as such

The clone moved all children of a feature with a group into that group.
---
 lib/Feature/FeatureModel.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/Feature/FeatureModel.cpp b/lib/Feature/FeatureModel.cpp
index 054ba9f..3c2e4e3 100644
--- a/lib/Feature/FeatureModel.cpp
+++ b/lib/Feature/FeatureModel.cpp
@@ -160,6 +160,15 @@ std::unique_ptr<FeatureModel> FeatureModel::clone() const {
         Clone->addLocation(Location);
       }
     }
+
+    // The builder groups all children of a parent with a relationship
+    auto *Parent = llvm::dyn_cast_or_null<Feature>(F->getParent());
+    auto *CloneParent = Parent ? FM->getFeature(Parent->getName()) : nullptr;
+    if (CloneParent && Clone->getParent() != CloneParent) {
+      Clone->getParent()->removeEdge(Clone);
+      CloneParent->addEdge(Clone);
+      Clone->setParent(CloneParent);
+    }
   }
   return FM;
 }
-- 
2.43.0


From 4b4a77bfe40fbdbc82116899e0b824f183878897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:23 +0000
Subject: [PATCH 17/64] fix: Remove exactly the removable features in a batch

removeFeatures only looked at the direct children of a feature for other listed
features, tried to remove the root and features listed twice, which failed the
whole batch unnoticed, and refused features with an empty group.
---
 lib/Feature/FeatureModelTransaction.cpp | 33 ++++++++++++++++---------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/lib/Feature/FeatureModelTransaction.cpp b/lib/Feature/FeatureModelTransaction.cpp
index 3e005f5..f48a5c6 100644
--- a/lib/Feature/FeatureModelTransaction.cpp
+++ b/lib/Feature/FeatureModelTransaction.cpp
@@ -55,7 +55,17 @@ std::optional<bool> fvIsLeaf(FeatureModel &FM, detail::FeatureVariantTy &FV) {
   if (ActualFeature == nullptr) {
     return std::nullopt;
   }
-  return std::optional<bool>{ActualFeature->isLeaf()};
+  // the root cannot be deleted, groups without children can
+  return std::optional<bool>{ActualFeature != FM.getRoot() &&
+                             ActualFeature->getChildren<Feature>().empty()};
+}
+
+/// Checks if at least one transitive child of N is part of Nodes.
+bool anyDescendantOf(FeatureTreeNode *N,
+                     const std::set<FeatureTreeNode *> &Nodes) {
+  return std::any_of(N->begin(), N->end(), [&Nodes](FeatureTreeNode *C) {
+    return Nodes.find(C) != Nodes.end() || anyDescendantOf(C, Nodes);
+  });
 }
 
 /// Checks if in recursive mode the provided Feature can be deleted or not.
@@ -65,7 +75,7 @@ std::optional<bool> fvIsLeaf(FeatureModel &FM, detail::FeatureVariantTy &FV) {
 /// \param OtherFeatures
 /// \return optional of true, if all transitive children of FV are not part of
 /// OtherFeatures; optional of false, if at least one transitive child of FV is
-/// part of OtherFeatures; nullopt, if FV is not part of FM
+/// part of OtherFeatures or FV is the root; nullopt, if FV is not part of FM
 std::optional<bool>
 canBeDeletedRecursively(FeatureModel &FM, detail::FeatureVariantTy &FV,
                         const std::set<FeatureTreeNode *> &OtherFeatures) {
@@ -74,15 +84,10 @@ canBeDeletedRecursively(FeatureModel &FM, detail::FeatureVariantTy &FV,
     return std::nullopt;
   }
 
-  std::set<FeatureTreeNode *> Intersection;
-  auto AllChildrenInSubtree = ActualFeature->getChildren();
-  std::set_intersection(AllChildrenInSubtree.begin(),
-                        AllChildrenInSubtree.end(), OtherFeatures.begin(),
-                        OtherFeatures.end(),
-                        std::inserter(Intersection, Intersection.begin()));
-  // if the children are not matching the other features, the intersection is
-  // empty and we are good to go for deletion
-  return std::optional<bool>{Intersection.begin() == Intersection.end()};
+  // the root cannot be deleted; if no transitive children are matching the
+  // other features, we are good to go for deletion
+  return std::optional<bool>{ActualFeature != FM.getRoot() &&
+                             !anyDescendantOf(ActualFeature, OtherFeatures)};
 }
 
 std::vector<detail::FeatureVariantTy> removeFeatures(
@@ -127,9 +132,13 @@ std::vector<detail::FeatureVariantTy> removeFeatures(
 
   // perform actual removal of deletable features
   auto Trans = FeatureModelModifyTransaction::openTransaction(FM);
+  std::set<Feature *> RemovedFeatures;
   auto FeatureIt = Begin;
   while (FeatureIt != DeleteIt) {
-    Trans.removeFeature(*FeatureIt, Recursive);
+    // a feature may be specified more than once
+    if (RemovedFeatures.insert(getActualFeature(FM, *FeatureIt)).second) {
+      Trans.removeFeature(*FeatureIt, Recursive);
+    }
     FeatureIt = std::next(FeatureIt);
   }
   Trans.commit();
-- 
2.43.0


From 122da18e4a6136e3cfd5a6914ce3b0dd604ea42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:25 +0000
Subject: [PATCH 18/64] fix: Merge models with different roots to nothing

The failed commit of a merged model with two roots was dereferenced, and a
feature was merged with the root of the other model in non-strict mode.
---
 lib/Feature/FeatureModelTransaction.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lib/Feature/FeatureModelTransaction.cpp b/lib/Feature/FeatureModelTransaction.cpp
index f48a5c6..bdbf148 100644
--- a/lib/Feature/FeatureModelTransaction.cpp
+++ b/lib/Feature/FeatureModelTransaction.cpp
@@ -175,7 +175,10 @@ mergeFeatureModels(FeatureModel &FM1, FeatureModel &FM2, bool Strict) {
     Trans.abort();
     return nullptr;
   }
-  return *Trans.commit();
+  if (auto Merged = Trans.commit(); Merged) {
+    return Merged.extractValue();
+  }
+  return nullptr;
 }
 
 [[nodiscard]] bool mergeSubtree(FeatureModelCopyTransaction &Trans,
@@ -239,8 +242,10 @@ mergeFeatureModels(FeatureModel &FM1, FeatureModel &FM2, bool Strict) {
   if (F1.getName() != F2.getName()) {
     return false;
   }
-  if (F1.getKind() != Feature::FeatureKind::FK_ROOT &&
-      F2.getKind() != Feature::FeatureKind::FK_ROOT) {
+  if (llvm::isa<RootFeature>(F1) != llvm::isa<RootFeature>(F2)) {
+    return false;
+  }
+  if (!llvm::isa<RootFeature>(F1)) {
     if (*(F1.getParentFeature()) != *(F2.getParentFeature())) {
       return false;
     }
-- 
2.43.0


From e5e4e62b207cc079a32ac6c23650f08895fcff28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:44 +0000
Subject: [PATCH 19/64] fix: Merge output strings and step functions of new
 features

---
 lib/Feature/FeatureModelTransaction.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/Feature/FeatureModelTransaction.cpp b/lib/Feature/FeatureModelTransaction.cpp
index bdbf148..39e0963 100644
--- a/lib/Feature/FeatureModelTransaction.cpp
+++ b/lib/Feature/FeatureModelTransaction.cpp
@@ -220,13 +220,18 @@ mergeFeatureModels(FeatureModel &FM1, FeatureModel &FM2, bool Strict) {
     return std::make_unique<BinaryFeature>(
         F.getName().str(), F.isOptional(),
         std::vector<FeatureSourceRange>(F.getLocationsBegin(),
-                                        F.getLocationsEnd()));
+                                        F.getLocationsEnd()),
+        F.getOutputString().str());
   case Feature::FeatureKind::FK_NUMERIC:
     if (auto *NF = llvm::dyn_cast<NumericFeature>(&F)) {
       return std::make_unique<NumericFeature>(
           F.getName().str(), NF->getValues(), F.isOptional(),
           std::vector<FeatureSourceRange>(F.getLocationsBegin(),
-                                          F.getLocationsEnd()));
+                                          F.getLocationsEnd()),
+          F.getOutputString().str(),
+          NF->getStepFunction()
+              ? std::make_unique<StepFunction>(*NF->getStepFunction())
+              : nullptr);
     }
     break;
   case Feature::FeatureKind::FK_ROOT:
-- 
2.43.0


From d529db28a29986717f78c9e8c1bc4bb24f6dfa97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:28 +0000
Subject: [PATCH 20/64] fix: Report failing writes of feature models

---
 include/vara/Feature/FeatureModelWriter.h |  9 ++-
 lib/Feature/FeatureModelWriter.cpp        | 81 +++++++++++++----------
 2 files changed, 52 insertions(+), 38 deletions(-)

diff --git a/include/vara/Feature/FeatureModelWriter.h b/include/vara/Feature/FeatureModelWriter.h
index e24c56f..d7b33b0 100644
--- a/include/vara/Feature/FeatureModelWriter.h
+++ b/include/vara/Feature/FeatureModelWriter.h
@@ -22,11 +22,14 @@ protected:
 public:
   virtual ~FeatureModelWriter() = default;
 
-  /// Build \a FeatureModel after parsing. May return null if parsing or
-  /// building failed.
+  /// Write the complete \a FeatureModel to a file.
   ///
-  /// \returns an instance of \a FeatureModel or \a nullptr
+  /// \returns a negative value if the file could not be written
   virtual int writeFeatureModel(std::string Path) = 0;
+
+  /// Write the complete \a FeatureModel to a string.
+  ///
+  /// \returns the document or std::nullopt if it could not be created
   virtual std::optional<std::string> writeFeatureModel() = 0;
 };
 
diff --git a/lib/Feature/FeatureModelWriter.cpp b/lib/Feature/FeatureModelWriter.cpp
index e75d9d8..2a768ee 100644
--- a/lib/Feature/FeatureModelWriter.cpp
+++ b/lib/Feature/FeatureModelWriter.cpp
@@ -3,6 +3,7 @@
 #include "vara/Feature/OrderedFeatureVector.h"
 
 #include <llvm/Support/Casting.h>
+#include <llvm/Support/raw_ostream.h>
 
 #include "XmlConstants.h"
 
@@ -23,65 +24,75 @@ static constexpr xmlChar INDENTATIONSTRING[] = "  ";
 static constexpr char ENCODING[] = "UTF-8";
 
 int FeatureModelXmlWriter::writeFeatureModel(std::string Path) {
-  int RC;
-  std::unique_ptr<xmlTextWriter, void (*)(xmlTextWriterPtr)> Writer(
-      xmlNewTextWriterFilename(Path.data(), 0), &xmlFreeTextWriter);
-  if (!Writer) {
-    return false;
+  auto Document = writeFeatureModel();
+  if (!Document) {
+    return -1;
   }
 
-  RC = writeFeatureModel(Writer.get());
-  return RC;
+  std::error_code EC;
+  llvm::raw_fd_ostream OS(Path, EC);
+  if (EC) {
+    llvm::errs() << EC.message() << '\n';
+    return -1;
+  }
+
+  OS << *Document;
+  OS.close();
+  if (OS.has_error()) {
+    llvm::errs() << OS.error().message() << '\n';
+    OS.clear_error();
+    return -1;
+  }
+  return 0;
 }
 
 std::optional<std::string> FeatureModelXmlWriter::writeFeatureModel() {
-  int RC;
-
-  std::unique_ptr<xmlDocPtr, void (*)(xmlDocPtr *)> DocPtrPtr(
-      new xmlDocPtr{nullptr}, [](xmlDocPtr *Ptr) {
-        if (*Ptr) {
-          xmlFreeDoc(*Ptr);
-        }
-        delete (Ptr);
-      });
+  std::unique_ptr<xmlBuffer, void (*)(xmlBufferPtr)> Buffer(xmlBufferCreate(),
+                                                            &xmlBufferFree);
+  if (!Buffer) {
+    return std::nullopt;
+  }
 
   std::unique_ptr<xmlTextWriter, void (*)(xmlTextWriterPtr)> Writer(
-      xmlNewTextWriterDoc(DocPtrPtr.get(), 0), &xmlFreeTextWriter);
+      xmlNewTextWriterMemory(Buffer.get(), 0), &xmlFreeTextWriter);
   if (!Writer) {
     return std::nullopt;
   }
-  RC = writeFeatureModel(Writer.get());
-  if (RC < 0) {
+  if (writeFeatureModel(Writer.get()) < 0 ||
+      xmlTextWriterFlush(Writer.get()) < 0) {
     return std::nullopt;
   }
 
-  std::unique_ptr<xmlChar *, void (*)(xmlChar **)> XmlBuffPtr(
-      new xmlChar *{nullptr}, [](xmlChar **Ptr) {
-        if (*Ptr) {
-          xmlFree(*Ptr);
-        }
-        delete (Ptr);
-      });
-  int Buffersize;
-  xmlDocDumpMemoryEnc(*DocPtrPtr, XmlBuffPtr.get(), &Buffersize, ENCODING);
-  std::string Str(reinterpret_cast<char *>(*XmlBuffPtr), Buffersize);
+  std::string Document(
+      reinterpret_cast<const char *>(xmlBufferContent(Buffer.get())),
+      xmlBufferLength(Buffer.get()));
 
-  return Str;
+  // Not every string can be part of a document, e.g., control characters
+  std::unique_ptr<xmlDoc, void (*)(xmlDocPtr)> Doc(
+      xmlReadMemory(Document.data(), xmlBufferLength(Buffer.get()), nullptr,
+                    nullptr, XML_PARSE_NOERROR | XML_PARSE_NOWARNING),
+      &xmlFreeDoc);
+  if (!Doc) {
+    return std::nullopt;
+  }
+  return Document;
 }
 
 int FeatureModelXmlWriter::writeFeatureModel(xmlTextWriterPtr Writer) {
   int RC;
 
-  RC = xmlTextWriterSetIndent(Writer, 1);
-  CHECK_RC
-  RC = xmlTextWriterSetIndentString(Writer, INDENTATIONSTRING);
-  CHECK_RC
-
   RC = xmlTextWriterStartDocument(Writer, "1.0", ENCODING, nullptr);
   CHECK_RC
   RC = xmlTextWriterWriteDTD(Writer, charToUChar("vm"), nullptr,
                              charToUChar("vm.dtd"), nullptr);
   CHECK_RC
+  RC = xmlTextWriterWriteRaw(Writer, charToUChar("\n"));
+  CHECK_RC
+  // Indentation would split the document type declaration
+  RC = xmlTextWriterSetIndent(Writer, 1);
+  CHECK_RC
+  RC = xmlTextWriterSetIndentString(Writer, INDENTATIONSTRING);
+  CHECK_RC
   RC = writeVm(Writer);
 
   return RC;
-- 
2.43.0


From 9f7bb0301a7731026d82bf6d64ac7e00c7b04a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:01 +0000
Subject: [PATCH 21/64] fix: Write value lists without truncating them

---
 lib/Feature/FeatureModelWriter.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/lib/Feature/FeatureModelWriter.cpp b/lib/Feature/FeatureModelWriter.cpp
index 2a768ee..9e4a873 100644
--- a/lib/Feature/FeatureModelWriter.cpp
+++ b/lib/Feature/FeatureModelWriter.cpp
@@ -441,12 +441,16 @@ int FeatureModelXmlWriter::writeFeature(xmlTextWriterPtr Writer,
       CHECK_RC
     } else {
       auto Values = std::get<NumericFeature::ValueListType>(ValueVariant);
+      if (Values.empty()) { // cannot be expressed
+        return -1;
+      }
       std::string Str;
-      std::for_each(std::begin(Values), std::end(Values) - 1, [&Str](int X) {
-        Str.append(std::to_string(X));
-        Str.push_back(';');
-      });
-      Str.append(std::to_string(Values.back()));
+      for (int64_t Value : Values) {
+        if (!Str.empty()) {
+          Str.push_back(';');
+        }
+        Str.append(std::to_string(Value));
+      }
 
       RC = xmlTextWriterWriteElement(Writer, XmlConstants::VALUES,
                                      charToUChar(Str.data()));
-- 
2.43.0


From 81c515132f167e5607209fcbe8b72d482aeb698f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:14 +0000
Subject: [PATCH 22/64] fix: Write all properties of features and locations

---
 lib/Feature/FeatureModelWriter.cpp | 46 ++++++++++++++++++++++++++++++
 1 file changed, 46 insertions(+)

diff --git a/lib/Feature/FeatureModelWriter.cpp b/lib/Feature/FeatureModelWriter.cpp
index 9e4a873..1caf8ad 100644
--- a/lib/Feature/FeatureModelWriter.cpp
+++ b/lib/Feature/FeatureModelWriter.cpp
@@ -1,6 +1,7 @@
 #include "vara/Feature/FeatureModelWriter.h"
 #include "vara/Feature/FeatureModel.h"
 #include "vara/Feature/OrderedFeatureVector.h"
+#include "vara/Feature/StepFunctionParser.h"
 
 #include <llvm/Support/Casting.h>
 #include <llvm/Support/raw_ostream.h>
@@ -321,6 +322,14 @@ int FeatureModelXmlWriter::writeFeature(xmlTextWriterPtr Writer,
                                  charToUChar(Feature1.getName().data()));
   CHECK_RC
 
+  // output string
+  if (!Feature1.getOutputString().empty()) {
+    RC = xmlTextWriterWriteElement(
+        Writer, XmlConstants::OUTPUTSTRING,
+        charToUChar(Feature1.getOutputString().str().data()));
+    CHECK_RC
+  }
+
   // parent
   if (Feature1.getParentFeature()) {
     RC = xmlTextWriterWriteElement(
@@ -456,6 +465,16 @@ int FeatureModelXmlWriter::writeFeature(xmlTextWriterPtr Writer,
                                      charToUChar(Str.data()));
       CHECK_RC
     }
+
+    if (auto *Step = NF->getStepFunction()) {
+      auto Str = Step->toString();
+      if (!StepFunctionParser(Str).buildStepFunction()) { // not expressible
+        return -1;
+      }
+      RC = xmlTextWriterWriteElement(Writer, XmlConstants::STEPFUNCTION,
+                                     charToUChar(Str.data()));
+      CHECK_RC
+    }
   }
 
   // locations?
@@ -493,6 +512,26 @@ int FeatureModelXmlWriter::writeSourceRange(xmlTextWriterPtr Writer,
   }
   CHECK_RC
 
+  if (auto *RevisionRange = Location.revisionRange()) {
+    RC = xmlTextWriterStartElement(Writer, XmlConstants::REVISIONRANGE);
+    CHECK_RC
+
+    RC = xmlTextWriterWriteElement(
+        Writer, XmlConstants::INTRODUCED,
+        charToUChar(RevisionRange->introducingCommit().str().data()));
+    CHECK_RC
+
+    if (RevisionRange->hasRemovingCommit()) {
+      RC = xmlTextWriterWriteElement(
+          Writer, XmlConstants::REMOVED,
+          charToUChar(RevisionRange->removingCommit().str().data()));
+      CHECK_RC
+    }
+
+    RC = xmlTextWriterEndElement(Writer); // REVISIONRANGE
+    CHECK_RC
+  }
+
   RC = xmlTextWriterWriteElement(
       Writer, XmlConstants::PATH,
       charToUChar(Location.getPath().string().data()));
@@ -532,6 +571,13 @@ int FeatureModelXmlWriter::writeSourceRange(xmlTextWriterPtr Writer,
   RC = xmlTextWriterEndElement(Writer); // END
   CHECK_RC
 
+  if (auto *MemberOffset = Location.getMemberOffset()) {
+    RC =
+        xmlTextWriterWriteElement(Writer, XmlConstants::MEMBEROFFSET,
+                                  charToUChar(MemberOffset->toString().data()));
+    CHECK_RC
+  }
+
   RC = xmlTextWriterEndElement(Writer); // SOURCERANGE
   return RC;
 }
-- 
2.43.0


From cdf6e485f9a5948cd267284c40d1b43e60ff17dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:43 +0000
Subject: [PATCH 23/64] fix: Do not write locations without start or end

---
 lib/Feature/FeatureModelWriter.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/Feature/FeatureModelWriter.cpp b/lib/Feature/FeatureModelWriter.cpp
index 1caf8ad..20b98dd 100644
--- a/lib/Feature/FeatureModelWriter.cpp
+++ b/lib/Feature/FeatureModelWriter.cpp
@@ -497,6 +497,10 @@ int FeatureModelXmlWriter::writeSourceRange(xmlTextWriterPtr Writer,
                                             FeatureSourceRange &Location) {
   int RC;
 
+  if (!Location.hasStart() || !Location.hasEnd()) { // cannot be expressed
+    return -1;
+  }
+
   RC = xmlTextWriterStartElement(Writer, XmlConstants::SOURCERANGE);
   CHECK_RC
 
-- 
2.43.0


From 65c3e7bf138f880f15cecbab5c9a03f4d63960dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:33 +0000
Subject: [PATCH 24/64] fix: Print constants of step functions exactly

---
 include/vara/Feature/StepFunction.h | 59 ++++++++++++++++++-----------
 1 file changed, 37 insertions(+), 22 deletions(-)

diff --git a/include/vara/Feature/StepFunction.h b/include/vara/Feature/StepFunction.h
index 19464f4..35dd632 100644
--- a/include/vara/Feature/StepFunction.h
+++ b/include/vara/Feature/StepFunction.h
@@ -1,11 +1,15 @@
 #ifndef VARA_FEATURE_STEPFUNCTION_H
 #define VARA_FEATURE_STEPFUNCTION_H
 
+#include "llvm/ADT/StringRef.h"
 #include "llvm/Support/ErrorHandling.h"
 #include "llvm/Support/FormatVariadic.h"
 
 #include <cmath>
+#include <iomanip>
 #include <memory>
+#include <sstream>
+#include <string>
 #include <variant>
 
 namespace vara::feature {
@@ -57,35 +61,46 @@ public:
   [[nodiscard]] double operator()(double Value) { return next(Value); }
 
   [[nodiscard]] std::string toString() const {
-    if (std::holds_alternative<double>(RHS)) {
-      assert(std::holds_alternative<std::string>(LHS));
-      switch (Op) {
-      case StepOperation::ADDITION:
-        return llvm::formatv("{0} + {1}", std::get<std::string>(LHS),
-                             std::get<double>(RHS));
-      case StepOperation::MULTIPLICATION:
-        return llvm::formatv("{0} * {1}", std::get<std::string>(LHS),
-                             std::get<double>(RHS));
-      case StepOperation::EXPONENTIATION:
-        return llvm::formatv("{0} ^ {1}", std::get<std::string>(LHS),
-                             std::get<double>(RHS));
-      }
-    }
-    assert(std::holds_alternative<double>(LHS));
+    assert(std::holds_alternative<double>(LHS) !=
+           std::holds_alternative<double>(RHS));
+    return toString(LHS) + " " + toString(Op) + " " + toString(RHS);
+  }
+
+private:
+  [[nodiscard]] static std::string toString(StepOperation Op) {
     switch (Op) {
     case StepOperation::ADDITION:
-      return llvm::formatv("{0} + {1}", std::get<double>(LHS),
-                           std::get<std::string>(RHS));
+      return "+";
     case StepOperation::MULTIPLICATION:
-      return llvm::formatv("{0} * {1}", std::get<double>(LHS),
-                           std::get<std::string>(RHS));
+      return "*";
     case StepOperation::EXPONENTIATION:
-      return llvm::formatv("{0} ^ {1}", std::get<double>(LHS),
-                           std::get<std::string>(RHS));
+      return "^";
     }
+
+    llvm_unreachable("Missing operation has to be implemented!");
+  }
+
+  /// Print constants such that reading them again yields the same value.
+  [[nodiscard]] static std::string toString(const OperandVariantType &Operand) {
+    if (std::holds_alternative<std::string>(Operand)) {
+      return std::get<std::string>(Operand);
+    }
+
+    auto Constant = std::get<double>(Operand);
+    std::string Str;
+    for (unsigned Precision = 2; Precision < 1100; ++Precision) {
+      std::stringstream StrS;
+      StrS << std::fixed << std::setprecision(Precision) << Constant;
+      Str = StrS.str();
+      if (double Value;
+          !std::isfinite(Constant) ||
+          (!llvm::StringRef(Str).getAsDouble(Value) && Value == Constant)) {
+        break;
+      }
+    }
+    return Str;
   }
 
-private:
   StepOperation Op;
   OperandVariantType LHS;
   OperandVariantType RHS;
-- 
2.43.0


From edfd779f3bdb5b8807131069d4e6b55d86dd092d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:00 +0000
Subject: [PATCH 25/64] fix: Trim names of child features

---
 lib/Feature/FeatureModelParser.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lib/Feature/FeatureModelParser.cpp b/lib/Feature/FeatureModelParser.cpp
index 1ea029c..6ba9459 100644
--- a/lib/Feature/FeatureModelParser.cpp
+++ b/lib/Feature/FeatureModelParser.cpp
@@ -65,10 +65,8 @@ FeatureModelXmlParser::parseConfigurationOption(xmlNode *Node,
         for (xmlNode *Child = Head->children; Child; Child = Child->next) {
           if (Child->type == XML_ELEMENT_NODE) {
             if (!xmlStrcmp(Child->name, XmlConstants::OPTIONS)) {
-              auto FeatureName = std::string(reinterpret_cast<char *>(
-                  std::unique_ptr<xmlChar, void (*)(void *)>(
-                      xmlNodeGetContent(Child), xmlFree)
-                      .get()));
+              auto FeatureName = trim(reinterpret_cast<char *>(
+                  UniqueXmlChar(xmlNodeGetContent(Child), xmlFree).get()));
               if (auto P = FMB.getParentName(FeatureName); P && *P != Name) {
                 llvm::errs() << llvm::formatv(
                     "Ambiguous edge to {0} from either '{1}' or '{2}'.\n",
-- 
2.43.0


From 8b68f688146f8c1ac8dd521b07d7ca0879af8fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:23 +0000
Subject: [PATCH 26/64] fix: Reject empty constraints and step functions

---
 include/vara/Feature/ConstraintParser.h   | 8 +++++---
 include/vara/Feature/StepFunctionParser.h | 7 ++++---
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/vara/Feature/ConstraintParser.h b/include/vara/Feature/ConstraintParser.h
index 57f8aa9..34f15ef 100644
--- a/include/vara/Feature/ConstraintParser.h
+++ b/include/vara/Feature/ConstraintParser.h
@@ -129,9 +129,11 @@ public:
     }
 
     // ensure last token is always either EOF or an error
-    if (auto Kind = TokenList.back().getKind();
-        Kind != ConstraintToken::ConstraintTokenKind::END_OF_FILE &&
-        Kind != ConstraintToken::ConstraintTokenKind::ERROR) {
+    if (TokenList.empty() ||
+        (TokenList.back().getKind() !=
+             ConstraintToken::ConstraintTokenKind::END_OF_FILE &&
+         TokenList.back().getKind() !=
+             ConstraintToken::ConstraintTokenKind::ERROR)) {
       TokenList.push_back(
           ConstraintToken(ConstraintToken::ConstraintTokenKind::END_OF_FILE));
     }
diff --git a/include/vara/Feature/StepFunctionParser.h b/include/vara/Feature/StepFunctionParser.h
index faf7288..a5616e3 100644
--- a/include/vara/Feature/StepFunctionParser.h
+++ b/include/vara/Feature/StepFunctionParser.h
@@ -68,9 +68,10 @@ public:
     }
 
     // ensure last token is always either EOF or an error
-    if (auto Kind = TokenList.back().getKind();
-        Kind != StepFunctionToken::TokenKind::END_OF_FILE &&
-        Kind != StepFunctionToken::TokenKind::ERROR) {
+    if (TokenList.empty() ||
+        (TokenList.back().getKind() !=
+             StepFunctionToken::TokenKind::END_OF_FILE &&
+         TokenList.back().getKind() != StepFunctionToken::TokenKind::ERROR)) {
       TokenList.push_back(
           StepFunctionToken(StepFunctionToken::TokenKind::END_OF_FILE));
     }
-- 
2.43.0


From db6d7578833459734a7e21840d2a44c598faf6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:57 +0000
Subject: [PATCH 27/64] fix: Do not treat operators as part of a number

---
 include/vara/Feature/ConstraintParser.h | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/vara/Feature/ConstraintParser.h b/include/vara/Feature/ConstraintParser.h
index 34f15ef..cf1500c 100644
--- a/include/vara/Feature/ConstraintParser.h
+++ b/include/vara/Feature/ConstraintParser.h
@@ -246,9 +246,18 @@ private:
   }
 
   static ResultTy munchNumber(const llvm::StringRef &Str) {
-    auto Munch = Str.take_while([](auto C) {
-      return llvm::isDigit(C) || C == 'e' || C == 'E' || C == '+' || C == '-';
-    });
+    auto Munch = Str.take_while(llvm::isDigit);
+    // the exponent is the only part of a number that may have a sign
+    if (auto Suffix = Str.drop_front(Munch.size());
+        !Suffix.empty() && (Suffix.front() == 'e' || Suffix.front() == 'E')) {
+      auto Exponent = Suffix.drop_front();
+      if (!Exponent.empty() &&
+          (Exponent.front() == '+' || Exponent.front() == '-')) {
+        Exponent = Exponent.drop_front();
+      }
+      Exponent = Exponent.drop_while(llvm::isDigit);
+      Munch = Str.drop_back(Exponent.size());
+    }
 
     return {ConstraintToken(ConstraintToken::ConstraintTokenKind::NUMBER,
                             Munch.lower()),
-- 
2.43.0


From 95edcf323bdf90137141574450ef86baece573c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:30 +0000
Subject: [PATCH 28/64] fix: Read negative integers in constraints

---
 include/vara/Feature/ConstraintParser.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/vara/Feature/ConstraintParser.h b/include/vara/Feature/ConstraintParser.h
index cf1500c..99db10b 100644
--- a/include/vara/Feature/ConstraintParser.h
+++ b/include/vara/Feature/ConstraintParser.h
@@ -513,7 +513,6 @@ private:
       case ConstraintToken::ConstraintTokenKind::IMPLIES:
       case ConstraintToken::ConstraintTokenKind::LESS:
       case ConstraintToken::ConstraintTokenKind::LESS_EQUAL:
-      case ConstraintToken::ConstraintTokenKind::MINUS:
       case ConstraintToken::ConstraintTokenKind::NOT_EQUAL:
       case ConstraintToken::ConstraintTokenKind::OR:
       case ConstraintToken::ConstraintTokenKind::PLUS:
@@ -532,6 +531,15 @@ private:
         assert(peek().getValue().has_value());
         return std::make_unique<PrimaryIntegerConstraint>(
             parseInteger(*next().getValue(), Line));
+      case ConstraintToken::ConstraintTokenKind::MINUS:
+        consume(ConstraintToken::ConstraintTokenKind::MINUS);
+        if (peek().getKind() != ConstraintToken::ConstraintTokenKind::NUMBER) {
+          llvm::errs()
+              << "Syntax error: Unexpected token before unary expression.\n";
+          return nullptr;
+        }
+        return std::make_unique<PrimaryIntegerConstraint>(
+            parseInteger("-" + *next().getValue(), Line));
       case ConstraintToken::ConstraintTokenKind::NOT:
         consume(ConstraintToken::ConstraintTokenKind::NOT);
         return createConstraint<NotConstraint>(NestingLevel + 1,
-- 
2.43.0


From 4eb731b5070693b952f99c24ddb2c41fed590345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:12 +0000
Subject: [PATCH 29/64] fix: Reject too deeply nested constraints

---
 include/vara/Feature/ConstraintParser.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/vara/Feature/ConstraintParser.h b/include/vara/Feature/ConstraintParser.h
index 99db10b..0ae805e 100644
--- a/include/vara/Feature/ConstraintParser.h
+++ b/include/vara/Feature/ConstraintParser.h
@@ -342,6 +342,10 @@ private:
   parseConstraint(int NestingLevel = 0,
                   ConstraintToken::PrecedenceTy Precedence =
                       ConstraintToken::MaxPrecedence) {
+    if (NestingLevel > MaxNestingLevel) {
+      llvm::errs() << "Syntax error: Expression is nested too deeply.\n";
+      return nullptr;
+    }
     auto LHS = parseUnaryConstraint(NestingLevel);
     while (LHS) {
       switch (peek().getKind()) {
@@ -560,6 +564,9 @@ private:
     }
   }
 
+  /// Bounds the recursion when parsing expressions.
+  static constexpr int MaxNestingLevel = 4096;
+
   ConstraintLexer::TokenListTy TokenList;
   std::optional<unsigned int> Line;
 };
-- 
2.43.0


From 3c6679407fe2674262d31db1436367cc92b85551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:35 +0000
Subject: [PATCH 30/64] fix: Read mixed constraints without attributes

---
 lib/Feature/FeatureModelParser.cpp | 4 ++--
 lib/Feature/XmlConstants.h         | 2 ++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/Feature/FeatureModelParser.cpp b/lib/Feature/FeatureModelParser.cpp
index 6ba9459..6c088df 100644
--- a/lib/Feature/FeatureModelParser.cpp
+++ b/lib/Feature/FeatureModelParser.cpp
@@ -251,10 +251,10 @@ FeatureModelXmlParser::parseConstraints<FeatureModel::MixedConstraint>(
 
           FMB.addConstraint(std::make_unique<FeatureModel::MixedConstraint>(
               std::move(Constraint),
-              std::string(reinterpret_cast<char *>(R.get())) == "none"
+              R && !xmlStrcmp(R.get(), XmlConstants::NONE)
                   ? FeatureModel::MixedConstraint::Req::NONE
                   : FeatureModel::MixedConstraint::Req::ALL,
-              std::string(reinterpret_cast<char *>(E.get())) == "neg"
+              E && !xmlStrcmp(E.get(), XmlConstants::NEG)
                   ? FeatureModel::MixedConstraint::ExprKind::NEG
                   : FeatureModel::MixedConstraint::ExprKind::POS));
         } else {
diff --git a/lib/Feature/XmlConstants.h b/lib/Feature/XmlConstants.h
index dd0b2d2..c6887c6 100644
--- a/lib/Feature/XmlConstants.h
+++ b/lib/Feature/XmlConstants.h
@@ -44,6 +44,8 @@ public:
   static constexpr xmlChar CONSTRAINT[] = "constraint";
   static constexpr xmlChar REQ[] = "req";
   static constexpr xmlChar EXPRKIND[] = "exprKind";
+  static constexpr xmlChar NONE[] = "none";
+  static constexpr xmlChar NEG[] = "neg";
   static constexpr xmlChar ROOT[] = "root";
   static constexpr xmlChar BINARYOPTIONS[] = "binaryOptions";
   static constexpr xmlChar NUMERICOPTIONS[] = "numericOptions";
-- 
2.43.0


From f4d4527c23a3a27fa5fe4de79ad191c6f1d0e7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:00 +0000
Subject: [PATCH 31/64] fix: Reject invalid step functions

---
 include/vara/Feature/StepFunctionParser.h | 6 +++++-
 lib/Feature/FeatureModelParser.cpp        | 3 +++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/vara/Feature/StepFunctionParser.h b/include/vara/Feature/StepFunctionParser.h
index a5616e3..a5b3081 100644
--- a/include/vara/Feature/StepFunctionParser.h
+++ b/include/vara/Feature/StepFunctionParser.h
@@ -200,8 +200,12 @@ private:
         return {*next().getValue()};
       case StepFunctionToken::TokenKind::NUMBER:
         assert(peek().getValue().has_value());
+        auto Value = *next().getValue();
         double Number;
-        llvm::StringRef(*next().getValue()).getAsDouble(Number);
+        if (llvm::StringRef(Value).getAsDouble(Number)) {
+          llvm::errs() << "Lexical error: Invalid number '" << Value << "'\n";
+          return std::nullopt;
+        }
         return {Number};
       }
     }
diff --git a/lib/Feature/FeatureModelParser.cpp b/lib/Feature/FeatureModelParser.cpp
index 6c088df..c518a53 100644
--- a/lib/Feature/FeatureModelParser.cpp
+++ b/lib/Feature/FeatureModelParser.cpp
@@ -127,6 +127,9 @@ FeatureModelXmlParser::parseConfigurationOption(xmlNode *Node,
           }
         } else if (!xmlStrcmp(Head->name, XmlConstants::STEPFUNCTION)) {
           Step = StepFunctionParser(Cnt, Head->line).buildStepFunction();
+          if (!Step) {
+            return Error(ERROR);
+          }
         }
       }
     }
-- 
2.43.0


From 829aa7fcb4255820ad49f842f52dd402f04c52df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:44 +0000
Subject: [PATCH 32/64] fix: Do not clean up the XML library while it may be in
 use

---
 lib/Feature/FeatureModelParser.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/lib/Feature/FeatureModelParser.cpp b/lib/Feature/FeatureModelParser.cpp
index c518a53..ab94a8d 100644
--- a/lib/Feature/FeatureModelParser.cpp
+++ b/lib/Feature/FeatureModelParser.cpp
@@ -414,7 +414,6 @@ FeatureModelParser::UniqueXmlDtd FeatureModelXmlParser::createDtd() {
                                      XML_CHAR_ENCODING_UTF8),
                                  XML_CHAR_ENCODING_UTF8),
                    xmlFreeDtd);
-  xmlCleanupParser();
   assert(Dtd && "Failed to parse DTD.");
   return Dtd;
 }
@@ -427,7 +426,6 @@ FeatureModelParser::UniqueXmlDoc FeatureModelXmlParser::parseDoc() {
                         checkedNarrowingSignConversion(Xml.length()), nullptr,
                         nullptr, XML_PARSE_NOBLANKS),
       xmlFreeDoc);
-  xmlCleanupParser();
   if (Doc && Ctxt->valid) {
     xmlValidateDtd(&Ctxt->vctxt, Doc.get(), createDtd().get());
     if (Ctxt->vctxt.valid) {
@@ -468,7 +466,6 @@ FeatureModelSxfmParser::UniqueXmlDtd FeatureModelSxfmParser::createDtd() {
                                      XML_CHAR_ENCODING_UTF8),
                                  XML_CHAR_ENCODING_UTF8),
                    xmlFreeDtd);
-  xmlCleanupParser();
   assert(Dtd && "Failed to parse DTD.");
   return Dtd;
 }
@@ -483,7 +480,6 @@ FeatureModelSxfmParser::UniqueXmlDoc FeatureModelSxfmParser::parseDoc() {
                         checkedNarrowingSignConversion(Sxfm.length()), nullptr,
                         nullptr, XML_PARSE_NOBLANKS),
       xmlFreeDoc);
-  xmlCleanupParser();
 
   // In the following, the document is validated.
   // Therefore, (1) check whether it could be parsed
-- 
2.43.0


From 0b1d8e57513b28e5eadb8b72850ff15817ea2c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:07 +0000
Subject: [PATCH 33/64] fix: Report failing detection of alternatives

---
 lib/Feature/FeatureModelParser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Feature/FeatureModelParser.cpp b/lib/Feature/FeatureModelParser.cpp
index ab94a8d..7b41ce9 100644
--- a/lib/Feature/FeatureModelParser.cpp
+++ b/lib/Feature/FeatureModelParser.cpp
@@ -398,8 +398,8 @@ std::unique_ptr<FeatureModel> FeatureModelXmlParser::buildFeatureModel() {
   }
 
   auto FM = FMB.buildFeatureModel();
-  if (FM) {
-    detectXMLAlternatives(*FM);
+  if (FM && !detectXMLAlternatives(*FM)) {
+    return nullptr;
   }
 
   return FM;
-- 
2.43.0


From d1c4e23a379cc190758ea10418c70669467fc8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:29 +0000
Subject: [PATCH 34/64] fix: Load locations of the root and reject ambiguous
 roots

---
 include/vara/Feature/FeatureModelParser.h |  2 ++
 lib/Feature/FeatureModelParser.cpp        | 15 +++++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/include/vara/Feature/FeatureModelParser.h b/include/vara/Feature/FeatureModelParser.h
index 6807d6c..42e3d11 100644
--- a/include/vara/Feature/FeatureModelParser.h
+++ b/include/vara/Feature/FeatureModelParser.h
@@ -62,6 +62,8 @@ public:
 private:
   std::string Xml;
   FeatureModelBuilder FMB;
+  bool HasRoot{false};
+  std::vector<FeatureSourceRange> RootLocations;
 
   Result<FTErrorCode> parseConfigurationOption(xmlNode *Node, bool Num);
   Result<FTErrorCode> parseOptions(xmlNode *Node, bool Num);
diff --git a/lib/Feature/FeatureModelParser.cpp b/lib/Feature/FeatureModelParser.cpp
index 7b41ce9..9aaf60c 100644
--- a/lib/Feature/FeatureModelParser.cpp
+++ b/lib/Feature/FeatureModelParser.cpp
@@ -137,6 +137,12 @@ FeatureModelXmlParser::parseConfigurationOption(xmlNode *Node,
 
   // XML has those names specified as root nodes
   if (Name == "root" || Name == "base") {
+    if (HasRoot) {
+      llvm::errs() << llvm::formatv("Ambiguous root feature '{0}'.\n", Name);
+      return Error(INCONSISTENT);
+    }
+    HasRoot = true;
+    RootLocations = std::move(SourceRanges);
     FMB.makeRoot(Name);
   } else if (Num) {
     if (Values.empty()) {
@@ -398,6 +404,15 @@ std::unique_ptr<FeatureModel> FeatureModelXmlParser::buildFeatureModel() {
   }
 
   auto FM = FMB.buildFeatureModel();
+  if (FM && !RootLocations.empty()) {
+    auto Trans = FeatureModelModifyTransaction::openTransaction(*FM);
+    for (auto &Location : RootLocations) {
+      Trans.addLocation(FM->getRoot(), Location);
+    }
+    if (!Trans.commit()) {
+      return nullptr;
+    }
+  }
   if (FM && !detectXMLAlternatives(*FM)) {
     return nullptr;
   }
-- 
2.43.0


From a7a7702a1c0181bca85ba05e55e5ed4d55acd837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:17 +0000
Subject: [PATCH 35/64] fix: Load SXFM models without a name

---
 lib/Feature/FeatureModelParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Feature/FeatureModelParser.cpp b/lib/Feature/FeatureModelParser.cpp
index 9aaf60c..5db40ed 100644
--- a/lib/Feature/FeatureModelParser.cpp
+++ b/lib/Feature/FeatureModelParser.cpp
@@ -517,7 +517,7 @@ bool FeatureModelSxfmParser::parseVm(xmlNode *Node) {
   // Parse the name first.
   {
     UniqueXmlChar Cnt(xmlGetProp(Node, XmlConstants::NAME), xmlFree);
-    FMB.setVmName(std::string(reinterpret_cast<char *>(Cnt.get())));
+    FMB.setVmName(Cnt ? reinterpret_cast<char *>(Cnt.get()) : "");
   }
   // After the feature model tag, some metadata is provided.
   // Currently, we skip the metadata and continue with parsing the feature tree
-- 
2.43.0


From 30bb5b438a91950694e84fe6b5082d274174ccde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:14 +0000
Subject: [PATCH 36/64] fix: Reject malformed lines of SXFM feature trees

---
 lib/Feature/FeatureModelParser.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/lib/Feature/FeatureModelParser.cpp b/lib/Feature/FeatureModelParser.cpp
index 5db40ed..5bc2c14 100644
--- a/lib/Feature/FeatureModelParser.cpp
+++ b/lib/Feature/FeatureModelParser.cpp
@@ -619,8 +619,17 @@ bool FeatureModelSxfmParser::parseFeatureTree(xmlNode *FeatureTree) {
           CurrentIndentationLevel * Indentation.length() + 2;
       std::optional<std::tuple<int, int>> Cardinalities;
 
+      if (Pos > To.size()) {
+        llvm::errs() << "Missing type of configuration option:'" << To << "'\n";
+        return false;
+      }
+
       switch (To.at(Pos - 1)) {
       case 'r':
+        if (LastIndentationLevel != -1) {
+          llvm::errs() << "Only the first feature can be root:'" << To << "'\n";
+          return false;
+        }
         IsRoot = true;
         break;
       case 'm':
@@ -718,7 +727,11 @@ bool FeatureModelSxfmParser::parseFeatureTree(xmlNode *FeatureTree) {
       if (LastIndentationLevel != -1) {
         auto Parent =
             IndentationToParentMapping.find(CurrentIndentationLevel - 1);
-        assert(Parent != IndentationToParentMapping.end());
+        if (Parent == IndentationToParentMapping.end()) {
+          llvm::errs() << "Indentation error in feature tree in line " << To
+                       << "\n";
+          return false;
+        }
         FMB.addEdge(Parent->second, Name);
       }
 
-- 
2.43.0


From 7d32bfceae23277c427648c5bb3c6598473f0eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:35 +0000
Subject: [PATCH 37/64] fix: Load all constraints of SXFM models as written

---
 lib/Feature/FeatureModelParser.cpp | 55 +++++++++++++-----------------
 1 file changed, 24 insertions(+), 31 deletions(-)

diff --git a/lib/Feature/FeatureModelParser.cpp b/lib/Feature/FeatureModelParser.cpp
index 5bc2c14..94ada95 100644
--- a/lib/Feature/FeatureModelParser.cpp
+++ b/lib/Feature/FeatureModelParser.cpp
@@ -779,13 +779,6 @@ bool FeatureModelSxfmParser::parseConstraints(xmlNode *Constraints) {
       UniqueXmlChar(xmlNodeGetContent(Constraints), xmlFree).get()));
   std::string To;
 
-  // Prepare the identifiers for later replacement
-  std::vector<std::string> Keys;
-  Keys.reserve(IdentifierMap.size());
-  std::for_each(IdentifierMap.begin(), IdentifierMap.end(),
-                [&Keys](const auto &Entry) { Keys.push_back(Entry.first); });
-  std::sort(Keys.begin(), Keys.end(), std::greater<std::string>{});
-
   while (std::getline(Ss, To)) {
     // Ignore if a line is empty
     if (To.empty() || std::all_of(To.begin(), To.end(), isspace)) {
@@ -808,36 +801,36 @@ bool FeatureModelSxfmParser::parseConstraints(xmlNode *Constraints) {
     std::string CnfFormula = trim(ToStringRef);
 
     // In the following lines, we replace all identifiers by the real feature
-    // name
-    for (auto &Key : Keys) {
-      std::string Value = IdentifierMap[Key];
-      if (Value == Key) {
+    // name as well as 'or' by '|' and 'and' by '&'
+    std::string Formula;
+    for (llvm::StringRef Rest = CnfFormula; !Rest.empty();) {
+      auto Word =
+          Rest.take_while([](auto C) { return llvm::isAlnum(C) || C == '_'; });
+      if (Word.empty()) {
+        Formula.push_back(Rest.front());
+        Rest = Rest.drop_front();
         continue;
       }
-      auto FoundPos = CnfFormula.find(Key);
-      while (FoundPos != std::string::npos) {
-        CnfFormula = CnfFormula.replace(FoundPos, Key.length(), Value);
-        FoundPos = CnfFormula.find(Key);
-      }
-    }
-
-    // Replace 'or' by '|' and 'and' by '&'
-    std::unordered_map<std::string, std::string> SpecialKeys;
-    SpecialKeys[" or "] = " | ";
-    SpecialKeys[" and "] = " & ";
-    for (auto &Key : SpecialKeys) {
-      auto FoundPos = CnfFormula.find(Key.first);
-      while (FoundPos != std::string::npos) {
-        CnfFormula =
-            CnfFormula.replace(FoundPos, Key.first.length(), Key.second);
-        FoundPos = CnfFormula.find(Key.first);
+      if (auto Entry = IdentifierMap.find(Word.str());
+          Entry != IdentifierMap.end()) {
+        Formula += Entry->second;
+      } else if (Word == "or") {
+        Formula += "|";
+      } else if (Word == "and") {
+        Formula += "&";
+      } else {
+        Formula += Word;
       }
+      Rest = Rest.drop_front(Word.size());
     }
 
-    if (auto Constraint = ConstraintParser(CnfFormula).buildConstraint()) {
-      FMB.addConstraint(std::make_unique<FeatureModel::BooleanConstraint>(
-          std::move(Constraint)));
+    auto Constraint = ConstraintParser(Formula).buildConstraint();
+    if (!Constraint) {
+      llvm::errs() << "Failed to parse constraint '" << To << "'\n";
+      return false;
     }
+    FMB.addConstraint(std::make_unique<FeatureModel::BooleanConstraint>(
+        std::move(Constraint)));
   }
 
   return true;
-- 
2.43.0


From 42bbb7d4a4f86eefa7d59bd180bc7469934e8a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:43 +0000
Subject: [PATCH 38/64] fix: Report an undecided solver instead of an answer

---
 include/vara/Solver/ConfigurationFactory.h | 25 +++++++++++++++++++---
 include/vara/Solver/Error.h                |  4 ++++
 lib/Solver/Z3Solver.cpp                    | 16 +++++++++++---
 3 files changed, 39 insertions(+), 6 deletions(-)

diff --git a/include/vara/Solver/ConfigurationFactory.h b/include/vara/Solver/ConfigurationFactory.h
index a4b4d2f..ea9059b 100644
--- a/include/vara/Solver/ConfigurationFactory.h
+++ b/include/vara/Solver/ConfigurationFactory.h
@@ -7,6 +7,7 @@
 #include "vara/Solver/Solver.h"
 #include "vara/Solver/SolverFactory.h"
 
+#include <optional>
 #include <vector>
 
 namespace vara::solver {
@@ -27,13 +28,26 @@ public:
 
     Result<SolverErrorCode, std::unique_ptr<vara::feature::Configuration>>
     operator*() const {
-      return S->getCurrentConfiguration();
+      if (PendingError) {
+        return Error(*PendingError);
+      }
+      auto R = S->getCurrentConfiguration();
+      if (!R) {
+        PendingError = R.getError();
+      }
+      return R;
     }
 
+    /// Advances to the next configuration. An error other than running out of
+    /// configurations is an element of its own, i.e., it is returned by
+    /// \c operator*. The iteration ends if advancing beyond it fails again.
     ConfigurationIterator &operator++() {
-      auto R = S->getNextConfiguration();
-      if (!R) {
+      if (auto R = S->getNextConfiguration(); R) {
+        PendingError.reset();
+      } else if (auto Err = R.extractError(); Err == UNSAT || PendingError) {
         S = nullptr;
+      } else {
+        PendingError = Err;
       }
       return *this;
     }
@@ -45,6 +59,9 @@ public:
 
   private:
     Solver *S;
+
+    /// The error the iterator currently refers to instead of a configuration.
+    mutable std::optional<SolverErrorCode> PendingError;
   };
 
   explicit ConfigurationIterable(std::unique_ptr<Solver> Solver)
@@ -142,6 +159,8 @@ public:
     for (auto R : Iterator) {
       if (R) {
         V.insert(V.begin(), R.extractValue());
+      } else if (auto Err = R.getError(); Err != UNSAT) {
+        return Error(Err);
       }
       if (V.size() == N) {
         break;
diff --git a/include/vara/Solver/Error.h b/include/vara/Solver/Error.h
index 60f78aa..ebe6c91 100644
--- a/include/vara/Solver/Error.h
+++ b/include/vara/Solver/Error.h
@@ -15,6 +15,7 @@ enum SolverErrorCode {
   NOT_ALL_CONSTRAINTS_PROCESSED,
   PARENT_NOT_PRESENT,
   ILLEGAL_STATE,
+  UNDECIDED,
 };
 
 } // namespace solver
@@ -56,6 +57,9 @@ public:
     case vara::solver::ILLEGAL_STATE:
       OS << "The solver is in an illegal state for this operation.";
       break;
+    case vara::solver::UNDECIDED:
+      OS << "The solver gave up before it found an answer.";
+      break;
     }
     return OS;
   }
diff --git a/lib/Solver/Z3Solver.cpp b/lib/Solver/Z3Solver.cpp
index 1df128a..76edfc6 100644
--- a/lib/Solver/Z3Solver.cpp
+++ b/lib/Solver/Z3Solver.cpp
@@ -175,16 +175,26 @@ Result<SolverErrorCode, bool> Z3Solver::hasValidConfigurations() {
     return Error(ILLEGAL_STATE);
   }
 
-  if (Solver->check() == z3::sat) {
+  switch (Solver->check()) {
+  case z3::sat:
     return Ok(true);
+  case z3::unsat:
+    return Ok(false);
+  case z3::unknown:
+    break;
   }
-  return Ok(false);
+  return Error(UNDECIDED);
 }
 
 Result<SolverErrorCode, std::unique_ptr<vara::feature::Configuration>>
 Z3Solver::getNextConfiguration() {
-  if (Solver->check() == z3::unsat) {
+  switch (Solver->check()) {
+  case z3::sat:
+    break;
+  case z3::unsat:
     return UNSAT;
+  case z3::unknown:
+    return UNDECIDED;
   }
   CurrentModel = Solver->get_model();
   excludeCurrentConfiguration();
-- 
2.43.0


From 76fad2b9f98fd38c151f6a83d5c18c3a7de3d94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:03 +0000
Subject: [PATCH 39/64] fix: Let isValid answer false for unsatisfiable models

---
 include/vara/Solver/ConfigurationFactory.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/vara/Solver/ConfigurationFactory.h b/include/vara/Solver/ConfigurationFactory.h
index ea9059b..5a26f1b 100644
--- a/include/vara/Solver/ConfigurationFactory.h
+++ b/include/vara/Solver/ConfigurationFactory.h
@@ -179,7 +179,8 @@ public:
   static bool isValid(feature::FeatureModel &Model,
                       const vara::solver::SolverType Type = SolverType::Z3) {
     auto S = SolverFactory::initializeSolver(Model, Type);
-    return S->hasValidConfigurations();
+    auto R = S->hasValidConfigurations();
+    return R && R.extractValue();
   }
 };
 
-- 
2.43.0


From 25bb0c0381bc5a5233470cb3d6d99c7f9ecb51fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:22 +0000
Subject: [PATCH 40/64] fix: Count the first configuration when advancing
 iterators

---
 include/vara/Solver/ConfigurationFactory.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/vara/Solver/ConfigurationFactory.h b/include/vara/Solver/ConfigurationFactory.h
index 5a26f1b..3522efe 100644
--- a/include/vara/Solver/ConfigurationFactory.h
+++ b/include/vara/Solver/ConfigurationFactory.h
@@ -31,6 +31,7 @@ public:
       if (PendingError) {
         return Error(*PendingError);
       }
+      Started = true;
       auto R = S->getCurrentConfiguration();
       if (!R) {
         PendingError = R.getError();
@@ -42,6 +43,11 @@ public:
     /// configurations is an element of its own, i.e., it is returned by
     /// \c operator*. The iteration ends if advancing beyond it fails again.
     ConfigurationIterator &operator++() {
+      if (!Started && !PendingError) {
+        // Step over the first configuration, even if it was not accessed.
+        (void)**this;
+      }
+      Started = true;
       if (auto R = S->getNextConfiguration(); R) {
         PendingError.reset();
       } else if (auto Err = R.extractError(); Err == UNSAT || PendingError) {
@@ -62,6 +68,9 @@ public:
 
     /// The error the iterator currently refers to instead of a configuration.
     mutable std::optional<SolverErrorCode> PendingError;
+
+    /// Whether the first configuration was already requested.
+    mutable bool Started = false;
   };
 
   explicit ConfigurationIterable(std::unique_ptr<Solver> Solver)
-- 
2.43.0


From 6cf6ebfec0ebe1b599a53ecf6922138f13d5ae59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:40 +0000
Subject: [PATCH 41/64] fix: Support ranges without step function and stop at
 fixed points

---
 lib/Solver/Z3Solver.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/lib/Solver/Z3Solver.cpp b/lib/Solver/Z3Solver.cpp
index 76edfc6..1039663 100644
--- a/lib/Solver/Z3Solver.cpp
+++ b/lib/Solver/Z3Solver.cpp
@@ -42,11 +42,25 @@ Z3Solver::addFeature(const feature::Feature &FeatureToAdd,
       auto Range =
           std::get<vara::feature::NumericFeature::ValueRangeType>(Values);
       auto *StepFunction = F->getStepFunction();
-      auto Step = Range.first;
+      if (!StepFunction) {
+        // Without a step function, all integers of the range are valid.
+        const z3::expr Feature = Context.int_const(F->getName().str().c_str());
+        OptionToVariableMapping.insert(std::make_pair(
+            F->getName(), std::make_unique<z3::expr>(Feature)));
+        Solver->add(Context.int_val(Range.first) <= Feature &&
+                    Feature <= Context.int_val(Range.second));
+        break;
+      }
       std::vector<int64_t> Vals;
-      while (Step <= Range.second) {
+      for (auto Step = Range.first; Step <= Range.second;) {
         Vals.insert(Vals.begin(), Step);
-        Step = StepFunction->next(Step);
+        // Step functions do not have to leave the range, e.g., 0 * 2 = 0.
+        const auto Next = StepFunction->next<double>(Step);
+        if (!(Next >= -0x1p63 && Next < 0x1p63) ||
+            static_cast<int64_t>(Next) <= Step) {
+          break;
+        }
+        Step = static_cast<int64_t>(Next);
       }
       if (auto R = addFeature(F->getName().str(), Vals); !R) {
         return R;
-- 
2.43.0


From c95672c0e665e108d1af221f1f6d54d48b9011e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:57 +0000
Subject: [PATCH 42/64] fix: Report negative option values as plain numbers

---
 lib/Solver/Z3Solver.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/Solver/Z3Solver.cpp b/lib/Solver/Z3Solver.cpp
index 1039663..c3ce505 100644
--- a/lib/Solver/Z3Solver.cpp
+++ b/lib/Solver/Z3Solver.cpp
@@ -265,8 +265,12 @@ Z3Solver::getCurrentConfiguration() {
   for (const auto &Entry : OptionToVariableMapping) {
     const z3::expr OptionExpr = *Entry.getValue();
     const z3::expr Value = CurrentModel->eval(OptionExpr, true);
-    Config->setConfigurationOption(Entry.getKey(),
-                                   llvm::StringRef(Value.to_string()));
+    // Z3 prints negative numbers in prefix notation, i.e., (- 5).
+    std::string ValueStr;
+    if (!Value.is_numeral(ValueStr)) {
+      ValueStr = Value.to_string();
+    }
+    Config->setConfigurationOption(Entry.getKey(), llvm::StringRef(ValueStr));
   }
   return Config;
 }
-- 
2.43.0


From f8a8cc929f9a01b8034759e93e5604559e6973fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:11 +0000
Subject: [PATCH 43/64] fix: Refuse binary features without parent in the
 solver

---
 lib/Solver/Z3Solver.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/Solver/Z3Solver.cpp b/lib/Solver/Z3Solver.cpp
index c3ce505..f562082 100644
--- a/lib/Solver/Z3Solver.cpp
+++ b/lib/Solver/Z3Solver.cpp
@@ -73,6 +73,9 @@ Z3Solver::addFeature(const feature::Feature &FeatureToAdd,
     if (!llvm::isa<vara::feature::BinaryFeature>(&FeatureToAdd)) {
       return NOT_SUPPORTED;
     }
+    if (!Parent) {
+      return PARENT_NOT_PRESENT;
+    }
     addFeature(FeatureToAdd.getName().str());
     auto R = setBinaryFeatureConstraints(
         *llvm::dyn_cast<vara::feature::BinaryFeature>(&FeatureToAdd),
-- 
2.43.0


From c78ede68d22271b6c6e79ac9536e27e69f6233c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:26 +0000
Subject: [PATCH 44/64] fix: Encode exclusive or in the solver as exclusive or

---
 lib/Solver/Z3Solver.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/Solver/Z3Solver.cpp b/lib/Solver/Z3Solver.cpp
index f562082..118a01a 100644
--- a/lib/Solver/Z3Solver.cpp
+++ b/lib/Solver/Z3Solver.cpp
@@ -352,8 +352,7 @@ bool Z3SolverConstraintVisitor::visit(vara::feature::BinaryConstraint *C) {
     Z3ConstraintExpression = Left - Z3ConstraintExpression;
     break;
   case feature::Constraint::ConstraintKind::CK_XOR:
-    Z3ConstraintExpression = z3::implies(Left, !Z3ConstraintExpression) &&
-                             z3::implies(Z3ConstraintExpression, !Left);
+    Z3ConstraintExpression = Left != Z3ConstraintExpression;
     break;
   default:
     llvm_unreachable(
-- 
2.43.0


From 5bf777c3564460fcbe8ee6b1dcde1f2c4b2fd2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:15 +0000
Subject: [PATCH 45/64] fix: Refuse constraints over features missing in the
 solver

---
 lib/Solver/Z3Solver.cpp | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/lib/Solver/Z3Solver.cpp b/lib/Solver/Z3Solver.cpp
index 118a01a..efe343a 100644
--- a/lib/Solver/Z3Solver.cpp
+++ b/lib/Solver/Z3Solver.cpp
@@ -382,19 +382,18 @@ bool Z3SolverConstraintVisitor::visit(vara::feature::UnaryConstraint *C) {
 
 bool Z3SolverConstraintVisitor::visit(
     vara::feature::PrimaryFeatureConstraint *C) {
-  if (C->getFeature()->getKind() ==
-      vara::feature::Feature::FeatureKind::FK_NUMERIC) {
-    Z3ConstraintExpression =
-        S->Context.int_const(C->getFeature()->getName().str().c_str());
-  } else {
-    Z3ConstraintExpression =
-        S->Context.bool_const(C->getFeature()->getName().str().c_str());
-    if (MixedConstraint) {
-      VariableConstraint = VariableConstraint || !Z3ConstraintExpression;
-      Z3ConstraintExpression = z3::to_expr(
-          S->Context, Z3_mk_ite(S->Context, Z3ConstraintExpression,
-                                S->Context.int_val(1), S->Context.int_val(0)));
-    }
+  // All features have to be added before the constraints they are part of.
+  const auto Option =
+      S->OptionToVariableMapping.find(C->getFeature()->getName());
+  if (Option == S->OptionToVariableMapping.end()) {
+    return false;
+  }
+  Z3ConstraintExpression = *Option->getValue();
+  if (MixedConstraint && Z3ConstraintExpression.is_bool()) {
+    VariableConstraint = VariableConstraint || !Z3ConstraintExpression;
+    Z3ConstraintExpression = z3::to_expr(
+        S->Context, Z3_mk_ite(S->Context, Z3ConstraintExpression,
+                              S->Context.int_val(1), S->Context.int_val(0)));
   }
   return true;
 }
-- 
2.43.0


From 759cb6c1221522f105f308fb4724fa135c14d32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:33 +0000
Subject: [PATCH 46/64] fix: Convert operands of constraints to the sorts Z3
 expects

---
 include/vara/Solver/Z3Solver.h |  6 +++++
 lib/Solver/Z3Solver.cpp        | 45 +++++++++++++++++++++++++++++++---
 2 files changed, 48 insertions(+), 3 deletions(-)

diff --git a/include/vara/Solver/Z3Solver.h b/include/vara/Solver/Z3Solver.h
index 9a5772b..96e5e0e 100644
--- a/include/vara/Solver/Z3Solver.h
+++ b/include/vara/Solver/Z3Solver.h
@@ -161,6 +161,12 @@ public:
   bool visit(feature::PrimaryIntegerConstraint *C) override;
 
 private:
+  /// Converts numeric expressions to boolean ones, i.e., whether it is not 0.
+  z3::expr toBool(const z3::expr &Expr);
+
+  /// Converts boolean expressions to numeric ones, i.e., either 0 or 1.
+  z3::expr toInt(const z3::expr &Expr);
+
   /// The z3 constraint will be adjusted while visiting the given constraint
   z3::expr Z3ConstraintExpression;
 
diff --git a/lib/Solver/Z3Solver.cpp b/lib/Solver/Z3Solver.cpp
index efe343a..16e9532 100644
--- a/lib/Solver/Z3Solver.cpp
+++ b/lib/Solver/Z3Solver.cpp
@@ -283,6 +283,7 @@ bool Z3SolverConstraintVisitor::addConstraint(vara::feature::Constraint *C,
                                               bool NegateExpr,
                                               bool RequireAll) {
   if (C->accept(*this)) {
+    Z3ConstraintExpression = toBool(Z3ConstraintExpression);
     if (NegateExpr) {
       Z3ConstraintExpression = !Z3ConstraintExpression;
     }
@@ -296,14 +297,49 @@ bool Z3SolverConstraintVisitor::addConstraint(vara::feature::Constraint *C,
   return false;
 }
 
+z3::expr Z3SolverConstraintVisitor::toBool(const z3::expr &Expr) {
+  return Expr.is_bool() ? Expr : Expr != S->Context.int_val(0);
+}
+
+z3::expr Z3SolverConstraintVisitor::toInt(const z3::expr &Expr) {
+  return Expr.is_bool()
+             ? z3::ite(Expr, S->Context.int_val(1), S->Context.int_val(0))
+             : Expr;
+}
+
 bool Z3SolverConstraintVisitor::visit(vara::feature::BinaryConstraint *C) {
 
   const bool LHS = C->getLeftOperand()->accept(*this);
-  const z3::expr Left = Z3ConstraintExpression;
+  z3::expr Left = Z3ConstraintExpression;
   const bool RHS = C->getRightOperand()->accept(*this);
   if (!LHS || !RHS) {
     return false;
   }
+
+  // Boolean operands of arithmetic operators count as 0 or 1, all numbers but 0
+  // are true as operands of logical operators.
+  switch (C->getKind()) {
+  case feature::Constraint::ConstraintKind::CK_AND:
+  case feature::Constraint::ConstraintKind::CK_EQUIVALENCE:
+  case feature::Constraint::ConstraintKind::CK_EXCLUDES:
+  case feature::Constraint::ConstraintKind::CK_IMPLIES:
+  case feature::Constraint::ConstraintKind::CK_OR:
+  case feature::Constraint::ConstraintKind::CK_XOR:
+    Left = toBool(Left);
+    Z3ConstraintExpression = toBool(Z3ConstraintExpression);
+    break;
+  case feature::Constraint::ConstraintKind::CK_EQUAL:
+  case feature::Constraint::ConstraintKind::CK_NOT_EQUAL:
+    if (Left.is_bool() && Z3ConstraintExpression.is_bool()) {
+      break;
+    }
+    [[fallthrough]];
+  default:
+    Left = toInt(Left);
+    Z3ConstraintExpression = toInt(Z3ConstraintExpression);
+    break;
+  }
+
   switch (C->getKind()) {
   case feature::Constraint::ConstraintKind::CK_ADDITION:
     Z3ConstraintExpression = Left + Z3ConstraintExpression;
@@ -369,10 +405,13 @@ bool Z3SolverConstraintVisitor::visit(vara::feature::UnaryConstraint *C) {
   }
   switch (C->getKind()) {
   case feature::Constraint::ConstraintKind::CK_NEG:
-    Z3ConstraintExpression = -Z3ConstraintExpression;
+    // The negation of a boolean operand is a logical one.
+    Z3ConstraintExpression = Z3ConstraintExpression.is_bool()
+                                 ? !Z3ConstraintExpression
+                                 : -Z3ConstraintExpression;
     break;
   case feature::Constraint::ConstraintKind::CK_NOT:
-    Z3ConstraintExpression = !Z3ConstraintExpression;
+    Z3ConstraintExpression = !toBool(Z3ConstraintExpression);
     break;
   default:
     return false;
-- 
2.43.0


From d8ec938bc421b30d3a29a1366604eebb4068b6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:14 +0000
Subject: [PATCH 47/64] fix: Fail in fm-viewer if the graph cannot be written

---
 tools/fm-viewer/FeatureModelViewer.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/tools/fm-viewer/FeatureModelViewer.cpp b/tools/fm-viewer/FeatureModelViewer.cpp
index 85e5914..7a6c42d 100644
--- a/tools/fm-viewer/FeatureModelViewer.cpp
+++ b/tools/fm-viewer/FeatureModelViewer.cpp
@@ -2,9 +2,12 @@
 
 #include "llvm/Support/CommandLine.h"
 #include "llvm/Support/Errc.h"
+#include "llvm/Support/FileSystem.h"
+#include "llvm/Support/GraphWriter.h"
 #include "llvm/Support/InitLLVM.h"
 #include "llvm/Support/MemoryBuffer.h"
 #include "llvm/Support/Program.h"
+#include "llvm/Support/raw_ostream.h"
 
 #include <optional>
 
@@ -69,8 +72,19 @@ int main(int Argc, char **Argv) {
     FM->dump();
   } else if (!Out.empty()) {
     llvm::errs() << "Writing '" << Out << "'...";
-    llvm::WriteGraph(FM.get(), llvm::Twine(FM->getName()), false, "",
-                     Out.getValue());
+    std::error_code EC;
+    llvm::raw_fd_ostream OS(Out.getValue(), EC, llvm::sys::fs::OF_Text);
+    if (!EC) {
+      llvm::WriteGraph(OS, FM.get());
+      OS.close();
+      EC = OS.error();
+      OS.clear_error();
+    }
+    if (EC) {
+      llvm::errs() << " error: " << EC.message() << "\n";
+      return 1;
+    }
+    llvm::errs() << " done.\n";
   } else {
     auto Filename = llvm::WriteGraph(FM.get(), llvm::Twine(FM->getName()));
 
-- 
2.43.0


From 3f3af2f88a457a05005bda8dba8c0643d9e07906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:08 +0000
Subject: [PATCH 48/64] fix: Print children of features in a fixed order

---
 lib/Feature/Feature.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lib/Feature/Feature.cpp b/lib/Feature/Feature.cpp
index cd45f3c..ec671d2 100644
--- a/lib/Feature/Feature.cpp
+++ b/lib/Feature/Feature.cpp
@@ -1,5 +1,7 @@
 #include "vara/Feature/Feature.h"
 
+#include "llvm/ADT/STLExtras.h"
+
 #include <iterator>
 
 namespace vara::feature {
@@ -20,11 +22,18 @@ std::string Feature::toString() const {
     StrS << "parent: " << getParentFeature()->getName().str() << ",\n  ";
   }
   StrS << "children: [";
+  // The order of nodes in memory is arbitrary
+  std::vector<const Feature *> Children;
   for (const auto &Child : children()) {
     if (auto *F = llvm::dyn_cast<Feature>(Child); F) {
-      StrS << F->getName().str() << ",";
+      Children.push_back(F);
     }
   }
+  llvm::sort(Children,
+             [](const Feature *A, const Feature *B) { return *A < *B; });
+  for (const auto *F : Children) {
+    StrS << F->getName().str() << ",";
+  }
   StrS << "]";
   return StrS.str();
 }
-- 
2.43.0


From 13f8c40c80fda738476e1102f641edd9adb2b059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:48 +0000
Subject: [PATCH 49/64] fix: Resolve identifiers of unnamed groups in SXFM
 constraints

---
 lib/Feature/FeatureModelParser.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/lib/Feature/FeatureModelParser.cpp b/lib/Feature/FeatureModelParser.cpp
index 94ada95..ed3e1e6 100644
--- a/lib/Feature/FeatureModelParser.cpp
+++ b/lib/Feature/FeatureModelParser.cpp
@@ -687,6 +687,13 @@ bool FeatureModelSxfmParser::parseFeatureTree(xmlNode *FeatureTree) {
         Name = Name.substr(0, Name.find('(', 0));
       }
 
+      // If there is no name, provide an artificial one
+      const bool HasName = !Name.empty();
+      if (!HasName) {
+        OrGroupCounter++;
+        Name = "group_" + std::to_string(OrGroupCounter);
+      }
+
       // Search for identifier
       std::regex Regex(R"(\([a-zA-Z\d_]*\))");
       std::string CurrentLine = ToStringRef.str();
@@ -696,18 +703,13 @@ bool FeatureModelSxfmParser::parseFeatureTree(xmlNode *FeatureTree) {
         std::string Identifier = (*Match).str();
         Identifier = Identifier.substr(1, Identifier.size() - 2);
         IdentifierMap[Identifier] = Name;
-        if (Identifier != Name && Name.find(Identifier) != std::string::npos) {
+        if (HasName && Identifier != Name &&
+            Name.find(Identifier) != std::string::npos) {
           llvm::errs() << "Name must not contain ID:'" << Name << "'\n";
           return false;
         }
       }
 
-      // If there is no name, provide an artificial one
-      if (Name.empty()) {
-        OrGroupCounter++;
-        Name = "group_" + std::to_string(OrGroupCounter);
-      }
-
       // Create the feature
       if (IsRoot) {
         FMB.makeRoot(Name);
-- 
2.43.0


From 2fd925e5e76315a001fcc94316f32fd16ee6d1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:35 +0000
Subject: [PATCH 50/64] fix: Reject XML files that lack required attributes

---
 lib/Feature/FeatureModelParser.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/Feature/FeatureModelParser.cpp b/lib/Feature/FeatureModelParser.cpp
index ed3e1e6..eddc7da 100644
--- a/lib/Feature/FeatureModelParser.cpp
+++ b/lib/Feature/FeatureModelParser.cpp
@@ -442,8 +442,7 @@ FeatureModelParser::UniqueXmlDoc FeatureModelXmlParser::parseDoc() {
                         nullptr, XML_PARSE_NOBLANKS),
       xmlFreeDoc);
   if (Doc && Ctxt->valid) {
-    xmlValidateDtd(&Ctxt->vctxt, Doc.get(), createDtd().get());
-    if (Ctxt->vctxt.valid) {
+    if (xmlValidateDtd(&Ctxt->vctxt, Doc.get(), createDtd().get())) {
       return Doc;
     }
     llvm::errs() << "Failed to validate DTD.\n";
-- 
2.43.0


From 4c8273fc1264b2ba8ada305ee08e8122e4e7e444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:08 +0000
Subject: [PATCH 51/64] fix: Iterate over the options of constant
 configurations

---
 include/vara/Configuration/Configuration.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vara/Configuration/Configuration.h b/include/vara/Configuration/Configuration.h
index f09d957..24ddcae 100644
--- a/include/vara/Configuration/Configuration.h
+++ b/include/vara/Configuration/Configuration.h
@@ -143,7 +143,7 @@ public:
   [[nodiscard]] llvm::StringMapConstIterator<
       std::unique_ptr<ConfigurationOption>>
   begin() const {
-    return OptionMappings.end();
+    return OptionMappings.begin();
   }
 
   [[nodiscard]] llvm::StringMapIterator<std::unique_ptr<ConfigurationOption>>
-- 
2.43.0


From 0ac6cd2e1d3c9ea5355f2b2af9656ed19008a8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:15 +0000
Subject: [PATCH 52/64] fix: Keep the current configuration when features are
 added

---
 include/vara/Solver/Z3Solver.h |  4 ++++
 lib/Solver/Z3Solver.cpp        | 21 ++++++++++++---------
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/include/vara/Solver/Z3Solver.h b/include/vara/Solver/Z3Solver.h
index 96e5e0e..dc41a95 100644
--- a/include/vara/Solver/Z3Solver.h
+++ b/include/vara/Solver/Z3Solver.h
@@ -91,6 +91,10 @@ private:
 
   /// The current model of the SAT solver.
   std::optional<z3::model> CurrentModel;
+
+  /// The options of the current configuration and their values. Features that
+  /// are added later are not part of it.
+  llvm::StringMap<std::string> CurrentOptions;
 };
 
 /// \brief This class is a visitor to convert the constraints from the
diff --git a/lib/Solver/Z3Solver.cpp b/lib/Solver/Z3Solver.cpp
index 16e9532..6268ee7 100644
--- a/lib/Solver/Z3Solver.cpp
+++ b/lib/Solver/Z3Solver.cpp
@@ -214,6 +214,16 @@ Z3Solver::getNextConfiguration() {
     return UNDECIDED;
   }
   CurrentModel = Solver->get_model();
+  CurrentOptions.clear();
+  for (const auto &Entry : OptionToVariableMapping) {
+    const z3::expr Value = CurrentModel->eval(*Entry.getValue(), true);
+    // Z3 prints negative numbers in prefix notation, i.e., (- 5).
+    std::string ValueStr;
+    if (!Value.is_numeral(ValueStr)) {
+      ValueStr = Value.to_string();
+    }
+    CurrentOptions[Entry.getKey()] = ValueStr;
+  }
   excludeCurrentConfiguration();
   return getCurrentConfiguration();
 }
@@ -265,15 +275,8 @@ Z3Solver::getCurrentConfiguration() {
 
   auto Config = std::make_unique<vara::feature::Configuration>();
 
-  for (const auto &Entry : OptionToVariableMapping) {
-    const z3::expr OptionExpr = *Entry.getValue();
-    const z3::expr Value = CurrentModel->eval(OptionExpr, true);
-    // Z3 prints negative numbers in prefix notation, i.e., (- 5).
-    std::string ValueStr;
-    if (!Value.is_numeral(ValueStr)) {
-      ValueStr = Value.to_string();
-    }
-    Config->setConfigurationOption(Entry.getKey(), llvm::StringRef(ValueStr));
+  for (const auto &Entry : CurrentOptions) {
+    Config->setConfigurationOption(Entry.getKey(), Entry.getValue());
   }
   return Config;
 }
-- 
2.43.0


From b5890e9155f40a7e085a75b0694bb42c0e208467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:34 +0000
Subject: [PATCH 53/64] fix: Refuse groups over features that are missing in
 the solver

---
 lib/Solver/Z3Solver.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/lib/Solver/Z3Solver.cpp b/lib/Solver/Z3Solver.cpp
index 6268ee7..66ca3e2 100644
--- a/lib/Solver/Z3Solver.cpp
+++ b/lib/Solver/Z3Solver.cpp
@@ -142,6 +142,19 @@ Result<SolverErrorCode>
 Z3Solver::addRelationship(const feature::Relationship &R) {
   const auto *Parent =
       reinterpret_cast<const feature::Feature *>(R.getParent());
+  // The parent and all members of the group have to be added before the group.
+  if (OptionToVariableMapping.find(Parent->getName()) ==
+      OptionToVariableMapping.end()) {
+    return PARENT_NOT_PRESENT;
+  }
+  for (const auto &Child : R.children()) {
+    const auto *ChildFeature =
+        reinterpret_cast<const feature::Feature *>(Child);
+    if (OptionToVariableMapping.find(ChildFeature->getName()) ==
+        OptionToVariableMapping.end()) {
+      return NOT_SUPPORTED;
+    }
+  }
   auto ParentOption = Context.bool_const(Parent->getName().str().c_str());
   z3::expr_vector V(Context);
   for (const auto &Child : R.children()) {
-- 
2.43.0


From 3c97448e4c6abc78629caecf1d68d32eb38ae731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:31 +0000
Subject: [PATCH 54/64] fix: Write nothing after a failed write of a model

---
 lib/Feature/FeatureModelWriter.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/Feature/FeatureModelWriter.cpp b/lib/Feature/FeatureModelWriter.cpp
index 20b98dd..5431bbb 100644
--- a/lib/Feature/FeatureModelWriter.cpp
+++ b/lib/Feature/FeatureModelWriter.cpp
@@ -37,6 +37,9 @@ int FeatureModelXmlWriter::writeFeatureModel(std::string Path) {
     return -1;
   }
 
+  // Without a buffer the document is written at once, so that nothing follows
+  // a part that could not be written.
+  OS.SetUnbuffered();
   OS << *Document;
   OS.close();
   if (OS.has_error()) {
-- 
2.43.0


From 7d7ffc834a42ce3f984d0e690f45de6b91186fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:21 +0000
Subject: [PATCH 55/64] fix: Do not hide a lack of memory in string streams

---
 include/vara/Feature/FeatureModel.h       | 2 ++
 include/vara/Feature/FeatureSourceRange.h | 2 ++
 include/vara/Feature/StepFunction.h       | 1 +
 lib/Feature/Feature.cpp                   | 2 ++
 lib/Feature/FeatureModelParser.cpp        | 2 ++
 5 files changed, 9 insertions(+)

diff --git a/include/vara/Feature/FeatureModel.h b/include/vara/Feature/FeatureModel.h
index 3dc6756..e274c7f 100644
--- a/include/vara/Feature/FeatureModel.h
+++ b/include/vara/Feature/FeatureModel.h
@@ -583,12 +583,14 @@ struct GraphWriter<vara::feature::FeatureModel *> {
 
   static std::string buildFeatureLabel(vara::feature::Feature *F) {
     std::stringstream CS;
+    CS.exceptions(std::ios_base::badbit);
     for (const auto &C : F->constraints()) {
       CS << "<tr><td>" << DOT::EscapeString(C->getRoot()->toHTML())
          << "</td></tr>";
     }
 
     std::stringstream LS;
+    LS.exceptions(std::ios_base::badbit);
     if (F->hasLocations()) {
       LS << "<hr/>";
       for (const auto &Location : F->getLocations()) {
diff --git a/include/vara/Feature/FeatureSourceRange.h b/include/vara/Feature/FeatureSourceRange.h
index 8ef57b0..5575f52 100644
--- a/include/vara/Feature/FeatureSourceRange.h
+++ b/include/vara/Feature/FeatureSourceRange.h
@@ -117,6 +117,7 @@ public:
         return "";
       }
       std::stringstream StrS;
+      StrS.exceptions(std::ios_base::badbit);
       StrS << Class[0];
       for (size_t Idx = 1; Idx < Class.size(); ++Idx) {
         StrS << "::" << Class[Idx];
@@ -230,6 +231,7 @@ public:
 
   [[nodiscard]] std::string toString() const {
     std::stringstream StrS;
+    StrS.exceptions(std::ios_base::badbit);
     StrS << Path.string();
     if (Start) {
       StrS << ":" << Start->toString();
diff --git a/include/vara/Feature/StepFunction.h b/include/vara/Feature/StepFunction.h
index 35dd632..5c74800 100644
--- a/include/vara/Feature/StepFunction.h
+++ b/include/vara/Feature/StepFunction.h
@@ -90,6 +90,7 @@ private:
     std::string Str;
     for (unsigned Precision = 2; Precision < 1100; ++Precision) {
       std::stringstream StrS;
+      StrS.exceptions(std::ios_base::badbit);
       StrS << std::fixed << std::setprecision(Precision) << Constant;
       Str = StrS.str();
       if (double Value;
diff --git a/lib/Feature/Feature.cpp b/lib/Feature/Feature.cpp
index ec671d2..faee263 100644
--- a/lib/Feature/Feature.cpp
+++ b/lib/Feature/Feature.cpp
@@ -8,6 +8,7 @@ namespace vara::feature {
 
 std::string Feature::toString() const {
   std::stringstream StrS;
+  StrS.exceptions(std::ios_base::badbit);
   StrS << "  name: \"" << Name
        << "\",\n  optional: " << (Opt ? "true" : "false") << ",\n  ";
   if (hasLocations()) {
@@ -40,6 +41,7 @@ std::string Feature::toString() const {
 
 std::string NumericFeature::toString() const {
   std::stringstream StrS;
+  StrS.exceptions(std::ios_base::badbit);
   StrS << Feature::toString();
   if (std::holds_alternative<ValueRangeType>(Values)) {
     auto Pair = std::get<ValueRangeType>(Values);
diff --git a/lib/Feature/FeatureModelParser.cpp b/lib/Feature/FeatureModelParser.cpp
index eddc7da..e100009 100644
--- a/lib/Feature/FeatureModelParser.cpp
+++ b/lib/Feature/FeatureModelParser.cpp
@@ -555,6 +555,7 @@ bool FeatureModelSxfmParser::parseFeatureTree(xmlNode *FeatureTree) {
   {
     std::stringstream Ss(reinterpret_cast<const char *>(
         UniqueXmlChar(xmlNodeGetContent(FeatureTree), xmlFree).get()));
+    Ss.exceptions(std::ios_base::badbit);
     std::string To;
     std::string Name;
     bool Opt;
@@ -778,6 +779,7 @@ bool FeatureModelSxfmParser::parseConstraints(xmlNode *Constraints) {
 
   std::stringstream Ss(reinterpret_cast<const char *>(
       UniqueXmlChar(xmlNodeGetContent(Constraints), xmlFree).get()));
+  Ss.exceptions(std::ios_base::badbit);
   std::string To;
 
   while (std::getline(Ss, To)) {
-- 
2.43.0


From 6613d562822a36c19fb3812f9142e2a3c9e4429c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:51 +0000
Subject: [PATCH 56/64] fix: Execute modifications at most once if one of them
 throws

---
 include/vara/Feature/FeatureModelTransaction.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/vara/Feature/FeatureModelTransaction.h b/include/vara/Feature/FeatureModelTransaction.h
index 7243346..3291d60 100644
--- a/include/vara/Feature/FeatureModelTransaction.h
+++ b/include/vara/Feature/FeatureModelTransaction.h
@@ -1064,18 +1064,19 @@ protected:
 
   Result<FTErrorCode> commitImpl() {
     if (isUncommitted() && FM) {
+      // Modifications must not be executed again if one of them throws
+      FeatureModel &Model = *std::exchange(FM, nullptr);
       for (const std::unique_ptr<FeatureModelModification> &FMM :
            Modifications) {
-        if (auto E = FMM->exec(*FM); !E) {
+        if (auto E = FMM->exec(Model); !E) {
           abortImpl();
           return E;
         }
       }
-      if (auto E = ConsistencyCheck::isFeatureModelValid(*FM); !E) {
+      if (auto E = ConsistencyCheck::isFeatureModelValid(Model); !E) {
         abortImpl();
         return E;
       }
-      FM = nullptr;
       return Ok();
     }
 
-- 
2.43.0


From 1d90fdf2ae124cec5c6ba66777b989f39978fef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:23 +0000
Subject: [PATCH 57/64] fix: Let exceptions pass through open copy transactions

---
 include/vara/Feature/FeatureModelTransaction.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/vara/Feature/FeatureModelTransaction.h b/include/vara/Feature/FeatureModelTransaction.h
index 3291d60..ee2dc82 100644
--- a/include/vara/Feature/FeatureModelTransaction.h
+++ b/include/vara/Feature/FeatureModelTransaction.h
@@ -9,6 +9,7 @@
 #include "llvm/ADT/StringRef.h"
 
 #include <algorithm>
+#include <exception>
 #include <memory>
 #include <tuple>
 #include <type_traits>
@@ -62,7 +63,8 @@ public:
   operator=(FeatureModelTransaction &&) noexcept = default;
   ~FeatureModelTransaction() {
     if constexpr (IsCopyMode) {
-      assert(!this->isUncommitted() &&
+      // An exception, e.g., a lack of memory, may leave it behind uncommitted
+      assert((!this->isUncommitted() || std::uncaught_exceptions() > 0) &&
              "Transaction in CopyMode should be committed before destruction.");
     } else {
       if (this->isUncommitted()) {
-- 
2.43.0


From 73c9a3b2b793c6949a19336e72d40c3fabff9dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:04 +0000
Subject: [PATCH 58/64] fix: Report failing writes in config-generator

---
 tools/config-generator/ConfigurationGenerator.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tools/config-generator/ConfigurationGenerator.cpp b/tools/config-generator/ConfigurationGenerator.cpp
index 9d990fc..852d32f 100644
--- a/tools/config-generator/ConfigurationGenerator.cpp
+++ b/tools/config-generator/ConfigurationGenerator.cpp
@@ -111,6 +111,12 @@ int main(int Argc, char **Argv) {
       return 1;
     }
     Out << Str;
+    Out.close();
+    if (Out.has_error()) {
+      llvm::errs() << "error: Error while writing to file.\n";
+      Out.clear_error();
+      return 1;
+    }
   }
 
   return 0;
-- 
2.43.0


From 529c9192da559155ffd6106191266d32788a3ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:00 +0000
Subject: [PATCH 59/64] fix: escape the labels of the feature graph for HTML

Labels of features are HTML-like, but names, flags and locations were escaped
for quoted DOT strings, and of a constraint only the outermost operator was
escaped.  Such labels are malformed and are not displayed by graphviz.
---
 include/vara/Feature/Constraint.h   | 50 ++++++-----------------------
 include/vara/Feature/FeatureModel.h | 18 ++++++++---
 2 files changed, 22 insertions(+), 46 deletions(-)

diff --git a/include/vara/Feature/Constraint.h b/include/vara/Feature/Constraint.h
index 45062aa..d0675a2 100644
--- a/include/vara/Feature/Constraint.h
+++ b/include/vara/Feature/Constraint.h
@@ -1,8 +1,10 @@
 #ifndef VARA_FEATURE_CONSTRAINT_H
 #define VARA_FEATURE_CONSTRAINT_H
 
+#include "llvm/ADT/StringExtras.h"
 #include "llvm/ADT/StringRef.h"
 #include "llvm/Support/FormatVariadic.h"
+#include "llvm/Support/raw_ostream.h"
 
 #include <cassert>
 #include <memory>
@@ -78,7 +80,13 @@ public:
 
   [[nodiscard]] virtual std::string toString() const = 0;
 
-  [[nodiscard]] virtual std::string toHTML() const { return toString(); }
+  /// Same as \a toString, with the characters that are special in HTML escaped.
+  [[nodiscard]] virtual std::string toHTML() const {
+    std::string Str;
+    llvm::raw_string_ostream StrS(Str);
+    llvm::printHTMLEscaped(toString(), StrS);
+    return StrS.str();
+  }
 
   virtual bool accept(ConstraintVisitor &V) = 0;
 
@@ -175,11 +183,6 @@ public:
                          RightOperand->toString());
   }
 
-  [[nodiscard]] std::string toHTML() const override {
-    return llvm::formatv("({0} &amp; {1})", LeftOperand->toString(),
-                         RightOperand->toString());
-  }
-
   static bool classof(const Constraint *C) {
     return C->getKind() == ConstraintKind::CK_AND;
   }
@@ -246,11 +249,6 @@ public:
                          RightOperand->toString());
   }
 
-  [[nodiscard]] std::string toHTML() const override {
-    return llvm::formatv("({0} =&gt; {1})", LeftOperand->toString(),
-                         RightOperand->toString());
-  }
-
   static bool classof(const Constraint *C) {
     return C->getKind() == ConstraintKind::CK_IMPLIES;
   }
@@ -273,11 +271,6 @@ public:
                          RightOperand->toString());
   }
 
-  [[nodiscard]] std::string toHTML() const override {
-    return llvm::formatv("({0} =&gt; !{1})", LeftOperand->toString(),
-                         RightOperand->toString());
-  }
-
   static bool classof(const Constraint *C) {
     return C->getKind() == ConstraintKind::CK_EXCLUDES;
   }
@@ -301,11 +294,6 @@ public:
                          RightOperand->toString());
   }
 
-  [[nodiscard]] std::string toHTML() const override {
-    return llvm::formatv("({0} &lt;=&gt; {1})", LeftOperand->toString(),
-                         RightOperand->toString());
-  }
-
   static bool classof(const Constraint *C) {
     return C->getKind() == ConstraintKind::CK_EQUIVALENCE;
   }
@@ -418,11 +406,6 @@ public:
                          RightOperand->toString());
   }
 
-  [[nodiscard]] std::string toHTML() const override {
-    return llvm::formatv("({0} &lt; {1})", LeftOperand->toString(),
-                         RightOperand->toString());
-  }
-
   static bool classof(const Constraint *C) {
     return C->getKind() == ConstraintKind::CK_LESS;
   }
@@ -445,11 +428,6 @@ public:
                          RightOperand->toString());
   }
 
-  [[nodiscard]] std::string toHTML() const override {
-    return llvm::formatv("({0} &gt; {1})", LeftOperand->toString(),
-                         RightOperand->toString());
-  }
-
   static bool classof(const Constraint *C) {
     return C->getKind() == ConstraintKind::CK_GREATER;
   }
@@ -472,11 +450,6 @@ public:
                          RightOperand->toString());
   }
 
-  [[nodiscard]] std::string toHTML() const override {
-    return llvm::formatv("({0} &lt;= {1})", LeftOperand->toString(),
-                         RightOperand->toString());
-  }
-
   static bool classof(const Constraint *C) {
     return C->getKind() == ConstraintKind::CK_LESS_EQUAL;
   }
@@ -500,11 +473,6 @@ public:
                          RightOperand->toString());
   }
 
-  [[nodiscard]] std::string toHTML() const override {
-    return llvm::formatv("({0} &gt;= {1})", LeftOperand->toString(),
-                         RightOperand->toString());
-  }
-
   static bool classof(const Constraint *C) {
     return C->getKind() == ConstraintKind::CK_GREATER_EQUAL;
   }
diff --git a/include/vara/Feature/FeatureModel.h b/include/vara/Feature/FeatureModel.h
index e274c7f..ae29407 100644
--- a/include/vara/Feature/FeatureModel.h
+++ b/include/vara/Feature/FeatureModel.h
@@ -9,6 +9,7 @@
 #include "vara/Utils/UniqueIterator.h"
 
 #include "llvm/ADT/SmallSet.h"
+#include "llvm/ADT/StringExtras.h"
 #include "llvm/ADT/StringMap.h"
 #include "llvm/Support/GraphWriter.h"
 
@@ -581,12 +582,19 @@ struct GraphWriter<vara::feature::FeatureModel *> {
     }
   }
 
+  /// Feature labels are HTML-like, where the escapes of DOT do not apply.
+  static std::string escapeHTML(llvm::StringRef Text) {
+    std::string Str;
+    llvm::raw_string_ostream StrS(Str);
+    llvm::printHTMLEscaped(Text, StrS);
+    return StrS.str();
+  }
+
   static std::string buildFeatureLabel(vara::feature::Feature *F) {
     std::stringstream CS;
     CS.exceptions(std::ios_base::badbit);
     for (const auto &C : F->constraints()) {
-      CS << "<tr><td>" << DOT::EscapeString(C->getRoot()->toHTML())
-         << "</td></tr>";
+      CS << "<tr><td>" << C->getRoot()->toHTML() << "</td></tr>";
     }
 
     std::stringstream LS;
@@ -595,7 +603,7 @@ struct GraphWriter<vara::feature::FeatureModel *> {
       LS << "<hr/>";
       for (const auto &Location : F->getLocations()) {
         LS << llvm::formatv("<tr><td><b>{0}</b></td></tr>",
-                            DOT::EscapeString(Location.toString()))
+                            escapeHTML(Location.toString()))
                   .str();
       }
     }
@@ -605,8 +613,8 @@ struct GraphWriter<vara::feature::FeatureModel *> {
         "cellborder=\"0\" "
         "cellpadding=\"5\">{0}{1}{2}</table>>",
         llvm::formatv("<tr><td><b>{0} (Flag: {1})</b></td></tr>",
-                      DOT::EscapeString(F->getName().str()),
-                      F->getOutputString().trim().str()),
+                      escapeHTML(F->getName()),
+                      escapeHTML(F->getOutputString().trim())),
         CS.str(), LS.str());
   }
 
-- 
2.43.0


From dcbe023c217cf660a91fa1000e554e82890b3346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:16 +0000
Subject: [PATCH 60/64] fix: Do not write constraints that cannot be read again

---
 lib/Feature/FeatureModelWriter.cpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/lib/Feature/FeatureModelWriter.cpp b/lib/Feature/FeatureModelWriter.cpp
index 5431bbb..beb3c97 100644
--- a/lib/Feature/FeatureModelWriter.cpp
+++ b/lib/Feature/FeatureModelWriter.cpp
@@ -1,4 +1,5 @@
 #include "vara/Feature/FeatureModelWriter.h"
+#include "vara/Feature/ConstraintParser.h"
 #include "vara/Feature/FeatureModel.h"
 #include "vara/Feature/OrderedFeatureVector.h"
 #include "vara/Feature/StepFunctionParser.h"
@@ -24,6 +25,18 @@ const unsigned char *charToUChar(const char *CP) {
 static constexpr xmlChar INDENTATIONSTRING[] = "  ";
 static constexpr char ENCODING[] = "UTF-8";
 
+/// Writes a constraint as text. Not every constraint has a textual form that
+/// can be read again, e.g., over names with operators in them.
+static int writeConstraint(xmlTextWriterPtr Writer,
+                           const Constraint &Constraint) {
+  auto Str = Constraint.toString();
+  if (auto Parsed = ConstraintParser(Str).buildConstraint();
+      !Parsed || Parsed->toString() != Str) { // cannot be expressed
+    return -1;
+  }
+  return xmlTextWriterWriteString(Writer, charToUChar(Str.data()));
+}
+
 int FeatureModelXmlWriter::writeFeatureModel(std::string Path) {
   auto Document = writeFeatureModel();
   if (!Document) {
@@ -241,8 +254,7 @@ int FeatureModelXmlWriter::writeBooleanConstraints(xmlTextWriterPtr Writer) {
 
     RC = xmlTextWriterStartElement(Writer, XmlConstants::CONSTRAINT);
     CHECK_RC
-    RC = xmlTextWriterWriteString(
-        Writer, charToUChar(Constraint->constraint()->toString().data()));
+    RC = writeConstraint(Writer, *Constraint->constraint());
     CHECK_RC
     RC = xmlTextWriterEndElement(Writer); // CONSTRAINT
     CHECK_RC
@@ -261,8 +273,7 @@ int FeatureModelXmlWriter::writeNonBooleanConstraints(xmlTextWriterPtr Writer) {
   for (const auto &Constraint : FM.nonBooleanConstraints()) {
     RC = xmlTextWriterStartElement(Writer, XmlConstants::CONSTRAINT);
     CHECK_RC
-    RC = xmlTextWriterWriteString(
-        Writer, charToUChar(Constraint->constraint()->toString().data()));
+    RC = writeConstraint(Writer, *Constraint->constraint());
     CHECK_RC
     RC = xmlTextWriterEndElement(Writer); // CONSTRAINT
     CHECK_RC
@@ -303,8 +314,7 @@ int FeatureModelXmlWriter::writeMixedConstraints(xmlTextWriterPtr Writer) {
       break;
     }
     CHECK_RC
-    RC = xmlTextWriterWriteString(
-        Writer, charToUChar(Constraint->constraint()->toString().data()));
+    RC = writeConstraint(Writer, *Constraint->constraint());
     CHECK_RC
     RC = xmlTextWriterEndElement(Writer); // CONSTRAINT
     CHECK_RC
-- 
2.43.0


From 76fab6ee80138f5b1b33e03b85aff6bb22715dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:47 +0000
Subject: [PATCH 61/64] fix: Do not write other constraints as options of
 features

---
 include/vara/Feature/FeatureModelWriter.h |  2 +-
 lib/Feature/FeatureModelWriter.cpp        | 16 ++++++++++++++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/include/vara/Feature/FeatureModelWriter.h b/include/vara/Feature/FeatureModelWriter.h
index d7b33b0..57314ec 100644
--- a/include/vara/Feature/FeatureModelWriter.h
+++ b/include/vara/Feature/FeatureModelWriter.h
@@ -53,7 +53,7 @@ private:
   int writeBooleanConstraints(xmlTextWriterPtr Writer);
   int writeNonBooleanConstraints(xmlTextWriterPtr Writer);
   int writeMixedConstraints(xmlTextWriterPtr Writer);
-  static int writeFeature(xmlTextWriterPtr Writer, Feature &Feature1);
+  int writeFeature(xmlTextWriterPtr Writer, Feature &Feature1);
   static int writeSourceRange(xmlTextWriterPtr Writer,
                               FeatureSourceRange &Location);
 
diff --git a/lib/Feature/FeatureModelWriter.cpp b/lib/Feature/FeatureModelWriter.cpp
index beb3c97..5307ba4 100644
--- a/lib/Feature/FeatureModelWriter.cpp
+++ b/lib/Feature/FeatureModelWriter.cpp
@@ -25,6 +25,16 @@ const unsigned char *charToUChar(const char *CP) {
 static constexpr xmlChar INDENTATIONSTRING[] = "  ";
 static constexpr char ENCODING[] = "UTF-8";
 
+/// Only boolean constraints are read from the options of a feature.
+static bool isBooleanConstraint(const FeatureModel &FM, const Constraint *C) {
+  for (const auto &Other : FM.booleanConstraints()) {
+    if (**Other == C) {
+      return true;
+    }
+  }
+  return false;
+}
+
 /// Writes a constraint as text. Not every constraint has a textual form that
 /// can be read again, e.g., over names with operators in them.
 static int writeConstraint(xmlTextWriterPtr Writer,
@@ -373,6 +383,9 @@ int FeatureModelXmlWriter::writeFeature(xmlTextWriterPtr Writer,
   deprecated::OrderedFeatureVector Implications;
 
   for (const auto *C : Feature1.implications()) {
+    if (!isBooleanConstraint(FM, C)) {
+      continue;
+    }
     if (const auto *LHS =
             llvm::dyn_cast<PrimaryFeatureConstraint>(C->getLeftOperand());
         LHS) {
@@ -411,6 +424,9 @@ int FeatureModelXmlWriter::writeFeature(xmlTextWriterPtr Writer,
     Excludes.insert(ES.begin(), ES.end());
   }
   for (const auto *C : Feature1.excludes()) {
+    if (!isBooleanConstraint(FM, C)) {
+      continue;
+    }
     if (const auto *LHS =
             llvm::dyn_cast<PrimaryFeatureConstraint>(C->getLeftOperand());
         LHS) {
-- 
2.43.0


From 49eb8d4fd5dad06427d891a726152bb8ad408901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:01 +0000
Subject: [PATCH 62/64] fix: Read boolean values in any case as what they say

---
 include/vara/Configuration/Configuration.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vara/Configuration/Configuration.h b/include/vara/Configuration/Configuration.h
index 24ddcae..0ec80ee 100644
--- a/include/vara/Configuration/Configuration.h
+++ b/include/vara/Configuration/Configuration.h
@@ -111,7 +111,7 @@ private:
   convert(llvm::StringRef ValueToConvert) {
     // Parse the value
     if (ValueToConvert.lower() == "true" || ValueToConvert.lower() == "false") {
-      return ValueToConvert == "true";
+      return ValueToConvert.lower() == "true";
     }
     int64_t IntegerValue;
     if (!ValueToConvert.getAsInteger(0, IntegerValue)) {
-- 
2.43.0


From c083f77a044f2fcc2548234fd508f7d5be80697b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:52 +0000
Subject: [PATCH 63/64] fix: refuse a second root feature in transactions

---
 include/vara/Feature/FeatureModelTransaction.h | 4 ++++
 lib/Feature/FeatureModelTransaction.cpp        | 4 +++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/vara/Feature/FeatureModelTransaction.h b/include/vara/Feature/FeatureModelTransaction.h
index ee2dc82..ab1f470 100644
--- a/include/vara/Feature/FeatureModelTransaction.h
+++ b/include/vara/Feature/FeatureModelTransaction.h
@@ -322,6 +322,10 @@ public:
   }
 
   Result<FTErrorCode, Feature *> operator()(FeatureModel &FM) {
+    // The root is replaced by setRoot, there is only ever one.
+    if (FM.getRoot() && llvm::isa_and_nonnull<RootFeature>(NewFeature.get())) {
+      return INCONSISTENT;
+    }
     auto *InsertedFeature = addFeature(FM, std::move(NewFeature));
     if (!InsertedFeature) {
       return ALREADY_PRESENT;
diff --git a/lib/Feature/FeatureModelTransaction.cpp b/lib/Feature/FeatureModelTransaction.cpp
index 39e0963..96217ad 100644
--- a/lib/Feature/FeatureModelTransaction.cpp
+++ b/lib/Feature/FeatureModelTransaction.cpp
@@ -202,7 +202,9 @@ mergeFeatureModels(FeatureModel &FM1, FeatureModel &FM2, bool Strict) {
     if (!Copy) {
       return false;
     }
-    Trans.addFeature(std::move(Copy), F.getParentFeature());
+    if (!Trans.addFeature(std::move(Copy), F.getParentFeature())) {
+      return false;
+    }
   }
 
   // copy children if missing
-- 
2.43.0


From df96113d957f7ffb180a8b5546f9f68b4974bfcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:25 +0000
Subject: [PATCH 64/64] fix: refuse nested and second relationships when moving
 them

---
 include/vara/Feature/FeatureModelTransaction.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/vara/Feature/FeatureModelTransaction.h b/include/vara/Feature/FeatureModelTransaction.h
index ab1f470..05d1f6b 100644
--- a/include/vara/Feature/FeatureModelTransaction.h
+++ b/include/vara/Feature/FeatureModelTransaction.h
@@ -849,6 +849,19 @@ public:
       }
     }
 
+    // Relationships are not nested and a Feature has at most one.
+    if (llvm::isa<Relationship>(C)) {
+      auto *GroupRoot = llvm::dyn_cast<Feature>(P);
+      if (!GroupRoot) {
+        return INCONSISTENT;
+      }
+      for (auto *R : GroupRoot->getChildren<Relationship>(1)) {
+        if (R != C) {
+          return ALREADY_PRESENT;
+        }
+      }
+    }
+
     if (C->getParent()) {
       removeEdge(*C->getParent(), *C);
     }
-- 
2.43.0

