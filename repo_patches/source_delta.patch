From bc1f579e742c0942af39373800e197a44094b82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:27 +0000
Subject: [PATCH 01/19] fix: an empty range has begin() equal to end()

Iterating over a range with hi < lo in some dimension visited positions
outside the range (the first position was lo itself).
---
 src/grid/range.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/grid/range.hpp b/src/grid/range.hpp
index fcf1129..083e3cd 100644
--- a/src/grid/range.hpp
+++ b/src/grid/range.hpp
@@ -350,7 +350,11 @@ class Range {
 
     /// Creates an iterator pointing to the beginning of the rectangle
     iterator begin() {
-      return iterator(*this, this->getLo());
+      bool empty = false;
+      for (size_t i=0; i<rank; ++i)
+        if (hi[i]<lo[i]) empty = true;
+
+      return iterator(*this, this->getLo(), empty);
     }
 
     /// Creates an iterator pointing to a position after the end of the rectangle
-- 
2.43.0


From 8c79a88683d6107fdb327cb3caceae51d70c3bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:32 +0000
Subject: [PATCH 02/19] fix: assigning a grid detaches it from the storage it
 shared before

After a = b, resizing a grid that used to share its data with a also
overwrote the size information of a (and, once a was destroyed, wrote
through a dangling pointer), because the updater of a was never removed
from the old data.
---
 src/grid/gridstorage/single-array-allocation.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/grid/gridstorage/single-array-allocation.hpp b/src/grid/gridstorage/single-array-allocation.hpp
index fd0084e..779d0ca 100644
--- a/src/grid/gridstorage/single-array-allocation.hpp
+++ b/src/grid/gridstorage/single-array-allocation.hpp
@@ -296,6 +296,7 @@ namespace schnek
     template <typename T, size_t rank>
     SingleArrayInstantAllocation<T, rank> &SingleArrayInstantAllocation<T, rank>::operator=(const SingleArrayInstantAllocation<T, rank> &other) 
     {
+        this->data->removeUpdater(this);
         this->data = other.data;
         this->size = other.size;
         this->range = other.range;
-- 
2.43.0


From 985bda678d670f140849c69259b0f57229d60aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:32 +0000
Subject: [PATCH 03/19] fix: make the lazy storage usable with grids and keep
 its buffer size on assignment

The lazy allocation policy used unsigned index types and did not compile
with Grid. Its assignment operator shared the data but kept the old
buffer size, so that a following resize could hand out more elements
than were allocated; it also stayed registered with the old data.
---
 src/grid/gridstorage/single-array-allocation.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/grid/gridstorage/single-array-allocation.hpp b/src/grid/gridstorage/single-array-allocation.hpp
index 779d0ca..20e0da7 100644
--- a/src/grid/gridstorage/single-array-allocation.hpp
+++ b/src/grid/gridstorage/single-array-allocation.hpp
@@ -186,10 +186,10 @@ namespace schnek
     {
     public:
         /// The grid index type
-        typedef Array<size_t, rank> IndexType;
+        typedef Array<int, rank> IndexType;
 
         /// The grid range type
-        typedef Range<size_t, rank> RangeType;
+        typedef Range<int, rank> RangeType;
     protected:
         struct SizeInfo {
             IndexType lo;
@@ -402,10 +402,15 @@ namespace schnek
     template <typename T, size_t rank>
     SingleArrayLazyAllocation<T, rank> &SingleArrayLazyAllocation<T, rank>::operator=(const SingleArrayLazyAllocation<T, rank> &other) 
     {
+        this->data->removeUpdater(this);
         this->data = other.data;
         this->size = other.size;
         this->range = other.range;
         this->dims = other.dims;
+        this->bufSize = other.bufSize;
+        this->avgSize = other.avgSize;
+        this->avgVar = other.avgVar;
+        this->r = other.r;
         this->data->addUpdater(this, [this](const SizeInfo& sizeInfo) { this->updateSizeInfo(sizeInfo); });
         return *this;
     };
-- 
2.43.0


From 2ffdd175739746f9b4e98489bb2b6e3eafca043a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:38 +0000
Subject: [PATCH 04/19] fix: Field::getInnerRange compiles and returns the
 inner range

---
 src/grid/field.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grid/field.hpp b/src/grid/field.hpp
index 58de237..2bffa31 100644
--- a/src/grid/field.hpp
+++ b/src/grid/field.hpp
@@ -104,7 +104,7 @@ class Field : public Grid<T, rank, CheckingPolicy, StoragePolicy>
     IndexType getInnerHi() { return this->getHi() - ghostCells; }
 
     /** Get the range the inner grid range */
-    RangeType getInnerRange() { return RangeType{this->getLo() + ghostCells, this->getHi() - ghostCells}; }
+    RangeType getInnerRange() { return RangeType{getInnerLo(), getInnerHi()}; }
 
     /** Calculates index and offset from a position on the field
      *
-- 
2.43.0


From ec700b4c9e254496df45a67e62e5a88d21badb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:44 +0000
Subject: [PATCH 05/19] fix: evaluate mixed-type operator chains from left to
 right

10.0-2-3 was evaluated as 10.0-(2-3) because the promotion of the integer
operands hid the chain from BinaryOp. The promotion is now applied to the
individual operands of the chain.
---
 src/variables/expression.hpp | 69 ++++++++++++++++++++++++++++++++++--
 1 file changed, 67 insertions(+), 2 deletions(-)

diff --git a/src/variables/expression.hpp b/src/variables/expression.hpp
index 282aa37..99bd107 100644
--- a/src/variables/expression.hpp
+++ b/src/variables/expression.hpp
@@ -242,6 +242,25 @@ struct ExpressionInfo {
     : positive(positive_), expression(expression_) {}
 };
 
+template<class vtype>
+struct StaticCast;
+
+template<class vtype>
+struct LexicalCast;
+
+template<class vtype, class vtype_orig, template<class> class CastType>
+class TypecastOp;
+
+/// Exchanges the value type of an operator
+template<class oper, class vtype>
+struct RebindOperator;
+
+template<template<class> class oper, class vtype_orig, class vtype>
+struct RebindOperator<oper<vtype_orig>, vtype>
+{
+  typedef oper<vtype> type;
+};
+
 /** Binary operator expression
  *
  * This expression calculates a value from two arguments according to a
@@ -256,10 +275,53 @@ class BinaryOp : public Expression<vtype>
 
     typedef BinaryOp<typename oper::Inverted, vtype> InvType;
     typedef std::shared_ptr<InvType> pInvType;
-    friend class BinaryOp<typename oper::Inverted, vtype>;
+    template<class oper_other, class vtype_other>
+    friend class BinaryOp;
 
     /// pointers to the expressions to modify
     std::list<ExpressionInfo<vtype> > expressions;
+
+    /** Appends the operands of a chain that forms the second operand and that was promoted
+     * to vtype as a whole.
+     *
+     * The type promotion must be applied to the individual operands so that the complete chain is
+     * evaluated from left to right.
+     * Returns false, if the expression is not such a chain.
+     */
+    template<class vtype_orig, template<class> class CastType>
+    bool appendPromoted(pExpression expr)
+    {
+      typedef TypecastOp<vtype, vtype_orig, CastType> Cast;
+      typedef typename RebindOperator<oper, vtype_orig>::type OperOrig;
+      typedef BinaryOp<OperOrig, vtype_orig> OrigType;
+      typedef BinaryOp<typename OperOrig::Inverted, vtype_orig> InvOrigType;
+
+      std::shared_ptr<Cast> cast = std::dynamic_pointer_cast<Cast>(expr);
+      if (!cast) return false;
+
+      std::list<ExpressionInfo<vtype_orig> > chain;
+      if (std::shared_ptr<OrigType> orig = std::dynamic_pointer_cast<OrigType>(cast->getOriginal()))
+        chain = orig->expressions;
+      else if (std::shared_ptr<InvOrigType> invOrig = std::dynamic_pointer_cast<InvOrigType>(cast->getOriginal()))
+        chain = invOrig->expressions;
+      else
+        return false;
+
+      if (!oper::isPositive) chain.front().positive = !chain.front().positive;
+      for(ExpressionInfo<vtype_orig> exp: chain)
+      {
+        expressions.push_back(ExpressionInfo<vtype>(exp.positive, std::make_shared<Cast>(exp.expression)));
+      }
+      return true;
+    }
+
+    /// The promotions that are carried out by the parser, selected by the type that was promoted to
+    bool appendPromoted(pExpression, void*) { return false; }
+    bool appendPromoted(pExpression expr, double*) { return appendPromoted<int, StaticCast>(expr); }
+    bool appendPromoted(pExpression expr, std::string*)
+    {
+      return appendPromoted<int, LexicalCast>(expr) || appendPromoted<double, LexicalCast>(expr);
+    }
   public:
     BinaryOp(pExpression expr1_, pExpression expr2_)
     {
@@ -304,7 +366,7 @@ class BinaryOp : public Expression<vtype>
         }
         expressions.insert(expressions.end(), it, invExpr2->expressions.end());
       }
-      else
+      else if (!appendPromoted(expr2_, static_cast<vtype*>(0)))
       {
         expressions.push_back(ExpressionInfo<vtype>(oper::isPositive, expr2_));
       }
@@ -423,6 +485,9 @@ class TypecastOp : public Expression<vtype>
       }
     }
 
+    /// Returns the expression that is being cast
+    pExpressionOrig getOriginal() { return expr; }
+
     /// Constancy depends on the constancy of the expression
     bool isConstant() { return expr->isConstant(); }
 
-- 
2.43.0


From 7001a528af29eb257b36a34489490fe1ff875e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:09 +0000
Subject: [PATCH 06/19] fix: the deck scanner accepts tokens and comments
 longer than its buffer

A line comment or string of more than 128 characters made the scanner loop
forever, printing OUT OF BUFFER SPACE.
---
 parser/deckscanner.rl               | 19 ++++++++++++-------
 src/parser/internal/deckscanner.cpp | 19 ++++++++++++-------
 2 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/parser/deckscanner.rl b/parser/deckscanner.rl
index ebacad4..9ce2d07 100644
--- a/parser/deckscanner.rl
+++ b/parser/deckscanner.rl
@@ -7,6 +7,7 @@
 #include <string>
 #include <cstring>
 #include <cstdio>
+#include <vector>
 #include "../deckscanner.hpp"
 #include "../deckgrammar.hpp"
 #include "../tokenlist.hpp"
@@ -103,7 +104,8 @@ using namespace schnek;
     
 void DeckScanner::do_scan(TokenList &tlist)
 {
-  static char buf[BUFSIZE];
+  std::vector<char> storage(BUFSIZE);
+  char *buf = &storage[0];
   int cs; 
   int act; 
   int have = 0;
@@ -115,16 +117,19 @@ void DeckScanner::do_scan(TokenList &tlist)
   %% write init;
 
   while ( !done ) {
-    char *p = buf + have, *pe, *eof = 0;
-    int len, space = BUFSIZE - have;
-    
-    if ( space == 0 ) {
+    if ( have == int(storage.size()) ) {
       /* We've used up the entire buffer storing an already-parsed token
        * prefix that must be preserved. */
-      std::cerr << "OUT OF BUFFER SPACE\n";
-      // exit(1);
+      int token_len = te - ts;
+      storage.resize(2*storage.size());
+      buf = &storage[0];
+      ts = buf;
+      te = buf + token_len;
     }
 
+    char *p = buf + have, *pe, *eof = 0;
+    int len, space = int(storage.size()) - have;
+
     input->read(p,space);
     len = input->gcount();
     //len = fread( p, 1, space, *input );
diff --git a/src/parser/internal/deckscanner.cpp b/src/parser/internal/deckscanner.cpp
index aa6c180..94b3593 100644
--- a/src/parser/internal/deckscanner.cpp
+++ b/src/parser/internal/deckscanner.cpp
@@ -9,6 +9,7 @@
 #include <string>
 #include <cstring>
 #include <cstdio>
+#include <vector>
 #include "../deckscanner.hpp"
 #include "../deckgrammar.hpp"
 #include "../tokenlist.hpp"
@@ -216,7 +217,8 @@ static const int deck_en_main = 10;
     
 void DeckScanner::do_scan(TokenList &tlist)
 {
-  static char buf[BUFSIZE];
+  std::vector<char> storage(BUFSIZE);
+  char *buf = &storage[0];
   int cs; 
   int act; 
   int have = 0;
@@ -237,16 +239,19 @@ void DeckScanner::do_scan(TokenList &tlist)
 
 
   while ( !done ) {
-    char *p = buf + have, *pe, *eof = 0;
-    int len, space = BUFSIZE - have;
-    
-    if ( space == 0 ) {
+    if ( have == int(storage.size()) ) {
       /* We've used up the entire buffer storing an already-parsed token
        * prefix that must be preserved. */
-      std::cerr << "OUT OF BUFFER SPACE\n";
-      // exit(1);
+      int token_len = te - ts;
+      storage.resize(2*storage.size());
+      buf = &storage[0];
+      ts = buf;
+      te = buf + token_len;
     }
 
+    char *p = buf + have, *pe, *eof = 0;
+    int len, space = int(storage.size()) - have;
+
     input->read(p,space);
     len = input->gcount();
     //len = fread( p, 1, space, *input );
-- 
2.43.0


From 7c729532277168439a234066892e8c69cac4d6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:09 +0000
Subject: [PATCH 07/19] fix: Block::initAll finds the root from any depth

Called on a block nested two or more levels deep it looped forever.
---
 src/variables/block.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/variables/block.cpp b/src/variables/block.cpp
index dab2ed1..ba4a913 100644
--- a/src/variables/block.cpp
+++ b/src/variables/block.cpp
@@ -137,7 +137,7 @@ void Block::postInitHierarchy()
 void Block::initAll()
 {
   Block *b = this;
-  while (b->parent) b = &(*parent);
+  while (b->parent) b = &(*(b->parent));
 
   b->evaluateParameters();
   b->registerHierarchy();
-- 
2.43.0


From b88bdd8601d605d4d039149cf333257bc2bfcdaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:09 +0000
Subject: [PATCH 08/19] fix: BlockVariables::exists searches the same path as
 getVariable

The test for the parent was inverted, so a missing name crashed on the root
block and variables of the enclosing blocks were never found, and the path
separator differed from that of getVariable.
---
 src/variables/variables.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/variables/variables.cpp b/src/variables/variables.cpp
index ef872e9..52dedab 100644
--- a/src/variables/variables.cpp
+++ b/src/variables/variables.cpp
@@ -146,7 +146,7 @@ bool BlockVariables::exists(std::list<std::string> path, bool upward)
   {
     if (vars.count(name)>0) return true;
   }
-  if (upward && (parent.get()==0)) return parent->exists(path, true);
+  if (upward && parent) return parent->exists(path, true);
 
   return false;
 }
@@ -154,7 +154,7 @@ bool BlockVariables::exists(std::list<std::string> path, bool upward)
 bool BlockVariables::exists(std::string name)
 {
   std::list<std::string> path;
-  boost::split(path, name, boost::is_any_of("."));
+  boost::split(path, name, boost::is_any_of(":"));
   return exists(path, true);
 }
 
-- 
2.43.0


From 94107d4e89a2e649cc895ee39f81fef9076868bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:09 +0000
Subject: [PATCH 09/19] fix: ParametersGroup::hasElements removes the ids of
 the group

It passed iterators of one set to the erase method of another.
---
 src/variables/blockparameters.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/variables/blockparameters.cpp b/src/variables/blockparameters.cpp
index 8f58e99..3d8aaa9 100644
--- a/src/variables/blockparameters.cpp
+++ b/src/variables/blockparameters.cpp
@@ -51,7 +51,7 @@ bool ParametersGroup::isElement(pVariable v)
 
 bool ParametersGroup::hasElements(std::set<long> &ids)
 {
-  ids.erase(parameters.begin(), parameters.end());
+  for(long id: parameters) ids.erase(id);
   return ids.empty();
 }
 
-- 
2.43.0


From 7c6391a93007b9849c38e3f000eb460c49eff99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:09 +0000
Subject: [PATCH 10/19] fix: do not add empty entries for constant variables to
 the dependency map

After DependencyUpdater::update had added such an entry,
DependencyMap::updateAll dereferenced a null pointer.
---
 src/variables/dependencies.cpp | 685 +++++++++++++++++----------------
 1 file changed, 344 insertions(+), 341 deletions(-)

diff --git a/src/variables/dependencies.cpp b/src/variables/dependencies.cpp
index e6db25e..7db22b8 100644
--- a/src/variables/dependencies.cpp
+++ b/src/variables/dependencies.cpp
@@ -1,341 +1,344 @@
-/*
- * dependencies.cpp
- *
- * Created on: 10 Jul 2012
- * Author: Holger Schmitz
- * Email: holger@notjustphysics.com
- *
- * Copyright 2012 Holger Schmitz
- *
- * This file is part of Schnek.
- *
- * Schnek is free software: you can redistribute it and/or modify
- * it under the terms of the GNU General Public License as published by
- * the Free Software Foundation, either version 3 of the License, or
- * (at your option) any later version.
- *
- * Schnek is distributed in the hope that it will be useful,
- * but WITHOUT ANY WARRANTY; without even the implied warranty of
- * MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
- * GNU General Public License for more details.
- *
- * You should have received a copy of the GNU General Public License
- * along with Schnek.  If not, see <http://www.gnu.org/licenses/>.
- *
- */
-
-#include "dependencies.hpp"
-#include "expression.hpp"
-#include "../exception.hpp"
-#include "../util/logger.hpp"
-
-#pragma GCC diagnostic push
-#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
-
-#include <boost/variant/apply_visitor.hpp>
-
-#pragma GCC diagnostic pop
-
-#include <cassert>
-
-#undef LOGLEVEL
-#define LOGLEVEL 0
-
-using namespace schnek;
-
-DependencyMap::DependencyMap(const pBlockVariables vars)
-{
-
-  static int dummyInt = 0;
-  typedef std::shared_ptr<Expression<int> > ParExpression;
-  ParExpression pexp(new ExternalValue<int>(&dummyInt));
-  pVariable tmp(new Variable(pexp, true, true));
-  dummyVar = tmp;
-
-  VarInfo dummyInfo(dummyVar, DependencySet(), DependencySet());
-  //dependencies[-1] = dummyInfo;
-  dependencies[dummyVar->getId()] = dummyInfo;
-//  std::cerr << "DUMMY Id = " << dummyVar->getId() << std::endl;
-
-  blockVars = vars;
-  constructMap(vars);
-}
-
-void DependencyMap::constructMapRecursive(const pBlockVariables vars)
-{
-  for(VariableMap::value_type it: vars->getVariables())
-  {
-    pVariable v=it.second;
-    if (!v->isConstant())
-    {
-      SCHNEK_TRACE_LOG(3,"Adding variable " << it.first << " " << v->getId());
-      DependenciesGetter depGet;
-      DependencySet dep = boost::apply_visitor(depGet, v->getExpression());
-      if (dep.count(-1)>0)
-      {
-        dep.erase(-1);
-        dep.insert(dummyVar->getId());
-      }
-
-      long id = v->getId();
-      if (dependencies.count(id)>0) throw SchnekException();
-      dependencies[id] = VarInfo(v, dep, DependencySet());
-    }
-  }
-
-  for(pBlockVariables ch: vars->getChildren())
-  {
-    constructMapRecursive(ch);
-  }
-}
-void DependencyMap::constructMap(const pBlockVariables vars)
-{
-  SCHNEK_TRACE_ENTER_FUNCTION(3);
-
-
-  constructMapRecursive(vars);
-
-  for(DepMap::value_type entry: dependencies)
-  {
-    SCHNEK_TRACE_LOG(3,"Setting Dependency " << entry.first << " " << entry.second.v->getId());
-    for(long id: entry.second.dependsOn)
-    {
-      if (dependencies.count(id)>0) {
-        SCHNEK_TRACE_LOG(3,"Adding to modifies of " << id);
-        dependencies[id].modifies.insert(entry.first);
-      }
-    }
-  }
-
-  SCHNEK_TRACE_EXIT_FUNCTION(3);
-}
-
-void DependencyMap::resetCounters()
-{
-  for(DepMap::value_type entry: dependencies)
-  {
-    entry.second.counter = entry.second.dependsOn.size();
-  }
-}
-
-void DependencyMap::makeUpdateList(const VariableSet &independentVars, const VariableSet &dependentVars, VariableList &updateList)
-{
-  pRefDepMap reverseDeps = makeUpdatePredecessors(independentVars, dependentVars);
-  pRefDepMap deps = makeUpdateFollowers(independentVars, reverseDeps);
-  makeUpdateOrder(deps, updateList);
-}
-
-DependencyMap::pRefDepMap DependencyMap::makeUpdatePredecessors(const VariableSet &independentVars,
-                                                                const VariableSet &dependentVars)
-{
-  std::list<VarInfo*> workingSet;
-  pRefDepMap predecessors_p(new RefDepMap());
-  RefDepMap &predecessors = *predecessors_p; // only used for more readable code
-
-  // first initialise the working set and also add the variables to the predecessors
-  for(pVariable v: dependentVars)
-  {
-    long id=v->getId();
-    VarInfo *vi = &(dependencies[id]);
-    workingSet.push_back(vi);
-    predecessors[id] = vi;
-  }
-
-  // take elements out of the working set and analyse their predecessors
-  while (!workingSet.empty())
-  {
-    VarInfo *vi = workingSet.front();
-    workingSet.pop_front();
-
-    for(long id: vi->dependsOn)
-    {
-      // check if we already considered this variable
-      if (predecessors.count(id) > 0) continue;
-
-      // A negative id signals that the expression should be re-evaluated for every change.
-      // To do this we add all independent variables to the predecessors list.
-      if (id<0)
-      {
-        for(pVariable indVar: independentVars)
-        {
-          long indId = indVar->getId();
-          if (predecessors.count(indId) == 0)
-          {
-            // if not, put predecessors in the working set and in the map
-            VarInfo *pred = &(dependencies[indId]);
-            workingSet.push_back(pred);
-            predecessors[indId] = pred;
-          }
-        }
-      }
-      else
-      {
-        // if not, put predecessors in the working set and in the map
-        VarInfo *pred = &(dependencies[id]);
-        workingSet.push_back(pred);
-        predecessors[id] = pred;
-      }
-    }
-  }
-
-  // The map now contains all the predecessors of the dependent variables but note
-  // that the VarInfo::modifies sets are not restricted to this map.
-  return predecessors_p;
-
-}
-
-DependencyMap::pRefDepMap DependencyMap::makeUpdateFollowers(const VariableSet &independentVars, pRefDepMap predecessors_p)
-{
-  std::list<VarInfo*> workingSet;
-  pRefDepMap followers_p(new RefDepMap());
-  RefDepMap &followers = *followers_p;
-  RefDepMap &predecessors = *predecessors_p;
-
-  // first initialise the working set and also add the variables to the followers
-  for(pVariable v: independentVars)
-  {
-    long id=v->getId();
-    // the variable is not needed if it is not in the predecessors
-    if (predecessors.count(id) == 0) continue;
-    VarInfo *vi = predecessors[id];
-    workingSet.push_back(vi);
-    followers[id] = vi;
-  }
-
-  // take elements out of the working set and analyse their predecessors
-  while (!workingSet.empty())
-  {
-    VarInfo *vi = workingSet.front();
-    workingSet.pop_front();
-
-    for(long id: vi->modifies)
-    {
-      // check if we already considered this variable or if we need it at all
-      if ((followers.count(id) > 0) || (predecessors.count(id) == 0)) continue;
-
-      // if not, put predecessors in the working set and in the map
-      VarInfo *foll = predecessors[id];
-      workingSet.push_back(foll);
-      followers[id] = foll;
-    }
-  }
-
-  // The map now contains all the predecessors of the dependent variables but note
-  // that the VarInfo::modifies sets are not restricted to this map.
-  return followers_p;
-
-}
-
-void DependencyMap::makeUpdateOrder(pRefDepMap deps_p, VariableList &updateList)
-{
-  typedef std::list<VarInfo*>::iterator WorkIter;
-
-  std::list<VarInfo*> workingSet;
-  RefDepMap &deps = *deps_p;
-
-  updateList.clear();
-
-  // first initialise the counters
-  for(RefDepMap::value_type entry: deps)
-  {
-
-    int count = 0;
-    VarInfo *vi = entry.second;
-    workingSet.push_back(vi);
-    for(long id: vi->dependsOn)
-    {
-      if (deps.count(id) > 0) ++count;
-    }
-    entry.second->counter = count;
-  }
-
-  while (!workingSet.empty())
-  {
-    VarInfo *nextEval = 0;
-    WorkIter it = workingSet.begin();
-    while ((nextEval==0) && (it!=workingSet.end()))
-    {
-      if ((*it)->counter==0) nextEval=*it;
-      else ++it;
-    }
-
-    assert(nextEval != 0);
-
-    workingSet.erase(it);
-    updateList.push_back(nextEval->v);
-
-    for(long id: nextEval->modifies)
-    {
-      if (deps.count(id) == 0) continue;
-      VarInfo *vi = deps[id];
-      --(vi->counter);
-      assert(vi->counter >= 0);
-    }
-  }
-}
-
-pBlockVariables DependencyMap::getBlockVariables()
-{
-  return blockVars;
-}
-
-void DependencyMap::updateAll()
-{
-  pRefDepMap deps(new RefDepMap());
-  for(DepMap::value_type &entry: dependencies)
-  {
-    deps->insert(RefDepMap::value_type(entry.first, &entry.second));
-  }
-
-  VariableList updateList;
-
-  makeUpdateOrder(deps, updateList);
-
-  for(pVariable v: updateList) {
-    try
-    {
-      v->evaluateExpression();
-    }
-    catch(...)
-    {
-      // no-op, bulkhead
-    }
-  }
-}
-
-
-DependencyUpdater::DependencyUpdater(pDependencyMap dependencies_)
-  : dependencies(dependencies_), isValid(true)
-{
-  assert(dependencies->dummyVar->isReadOnly());
-  independentVars.insert(dependencies->dummyVar);
-}
-
-
-void DependencyUpdater::addIndependent(pParameter p)
-{
-  assert(p->getVariable()->isReadOnly());
-  independentVars.insert(p->getVariable());
-  isValid = false;
-}
-
-void DependencyUpdater::addDependent(pParameter p)
-{
-  assert(!!p);
-  // only non-constant variables have to be updated using the DependencyUpdater
-  if (p->getVariable()->isConstant())
-  {
-    p->update();
-    return;
-  }
-  dependentParameters.insert(p);
-  dependentVars.insert(p->getVariable());
-  isValid = false;
-}
-
-void DependencyUpdater::clearDependent()
-{
-  dependentParameters.clear();
-  dependentVars.clear();
-  isValid = false;
-}
+/*
+ * dependencies.cpp
+ *
+ * Created on: 10 Jul 2012
+ * Author: Holger Schmitz
+ * Email: holger@notjustphysics.com
+ *
+ * Copyright 2012 Holger Schmitz
+ *
+ * This file is part of Schnek.
+ *
+ * Schnek is free software: you can redistribute it and/or modify
+ * it under the terms of the GNU General Public License as published by
+ * the Free Software Foundation, either version 3 of the License, or
+ * (at your option) any later version.
+ *
+ * Schnek is distributed in the hope that it will be useful,
+ * but WITHOUT ANY WARRANTY; without even the implied warranty of
+ * MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+ * GNU General Public License for more details.
+ *
+ * You should have received a copy of the GNU General Public License
+ * along with Schnek.  If not, see <http://www.gnu.org/licenses/>.
+ *
+ */
+
+#include "dependencies.hpp"
+#include "expression.hpp"
+#include "../exception.hpp"
+#include "../util/logger.hpp"
+
+#pragma GCC diagnostic push
+#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
+
+#include <boost/variant/apply_visitor.hpp>
+
+#pragma GCC diagnostic pop
+
+#include <cassert>
+
+#undef LOGLEVEL
+#define LOGLEVEL 0
+
+using namespace schnek;
+
+DependencyMap::DependencyMap(const pBlockVariables vars)
+{
+
+  static int dummyInt = 0;
+  typedef std::shared_ptr<Expression<int> > ParExpression;
+  ParExpression pexp(new ExternalValue<int>(&dummyInt));
+  pVariable tmp(new Variable(pexp, true, true));
+  dummyVar = tmp;
+
+  VarInfo dummyInfo(dummyVar, DependencySet(), DependencySet());
+  //dependencies[-1] = dummyInfo;
+  dependencies[dummyVar->getId()] = dummyInfo;
+//  std::cerr << "DUMMY Id = " << dummyVar->getId() << std::endl;
+
+  blockVars = vars;
+  constructMap(vars);
+}
+
+void DependencyMap::constructMapRecursive(const pBlockVariables vars)
+{
+  for(VariableMap::value_type it: vars->getVariables())
+  {
+    pVariable v=it.second;
+    if (!v->isConstant())
+    {
+      SCHNEK_TRACE_LOG(3,"Adding variable " << it.first << " " << v->getId());
+      DependenciesGetter depGet;
+      DependencySet dep = boost::apply_visitor(depGet, v->getExpression());
+      if (dep.count(-1)>0)
+      {
+        dep.erase(-1);
+        dep.insert(dummyVar->getId());
+      }
+
+      long id = v->getId();
+      if (dependencies.count(id)>0) throw SchnekException();
+      dependencies[id] = VarInfo(v, dep, DependencySet());
+    }
+  }
+
+  for(pBlockVariables ch: vars->getChildren())
+  {
+    constructMapRecursive(ch);
+  }
+}
+void DependencyMap::constructMap(const pBlockVariables vars)
+{
+  SCHNEK_TRACE_ENTER_FUNCTION(3);
+
+
+  constructMapRecursive(vars);
+
+  for(DepMap::value_type entry: dependencies)
+  {
+    SCHNEK_TRACE_LOG(3,"Setting Dependency " << entry.first << " " << entry.second.v->getId());
+    for(long id: entry.second.dependsOn)
+    {
+      if (dependencies.count(id)>0) {
+        SCHNEK_TRACE_LOG(3,"Adding to modifies of " << id);
+        dependencies[id].modifies.insert(entry.first);
+      }
+    }
+  }
+
+  SCHNEK_TRACE_EXIT_FUNCTION(3);
+}
+
+void DependencyMap::resetCounters()
+{
+  for(DepMap::value_type entry: dependencies)
+  {
+    entry.second.counter = entry.second.dependsOn.size();
+  }
+}
+
+void DependencyMap::makeUpdateList(const VariableSet &independentVars, const VariableSet &dependentVars, VariableList &updateList)
+{
+  pRefDepMap reverseDeps = makeUpdatePredecessors(independentVars, dependentVars);
+  pRefDepMap deps = makeUpdateFollowers(independentVars, reverseDeps);
+  makeUpdateOrder(deps, updateList);
+}
+
+DependencyMap::pRefDepMap DependencyMap::makeUpdatePredecessors(const VariableSet &independentVars,
+                                                                const VariableSet &dependentVars)
+{
+  std::list<VarInfo*> workingSet;
+  pRefDepMap predecessors_p(new RefDepMap());
+  RefDepMap &predecessors = *predecessors_p; // only used for more readable code
+
+  // first initialise the working set and also add the variables to the predecessors
+  for(pVariable v: dependentVars)
+  {
+    long id=v->getId();
+    VarInfo *vi = &(dependencies[id]);
+    workingSet.push_back(vi);
+    predecessors[id] = vi;
+  }
+
+  // take elements out of the working set and analyse their predecessors
+  while (!workingSet.empty())
+  {
+    VarInfo *vi = workingSet.front();
+    workingSet.pop_front();
+
+    for(long id: vi->dependsOn)
+    {
+      // check if we already considered this variable
+      if (predecessors.count(id) > 0) continue;
+
+      // A negative id signals that the expression should be re-evaluated for every change.
+      // To do this we add all independent variables to the predecessors list.
+      if (id<0)
+      {
+        for(pVariable indVar: independentVars)
+        {
+          long indId = indVar->getId();
+          if (predecessors.count(indId) == 0)
+          {
+            // if not, put predecessors in the working set and in the map
+            VarInfo *pred = &(dependencies[indId]);
+            workingSet.push_back(pred);
+            predecessors[indId] = pred;
+          }
+        }
+      }
+      else
+      {
+        // constant variables are not part of the dependency map
+        if (dependencies.count(id) == 0) continue;
+
+        // if not, put predecessors in the working set and in the map
+        VarInfo *pred = &(dependencies[id]);
+        workingSet.push_back(pred);
+        predecessors[id] = pred;
+      }
+    }
+  }
+
+  // The map now contains all the predecessors of the dependent variables but note
+  // that the VarInfo::modifies sets are not restricted to this map.
+  return predecessors_p;
+
+}
+
+DependencyMap::pRefDepMap DependencyMap::makeUpdateFollowers(const VariableSet &independentVars, pRefDepMap predecessors_p)
+{
+  std::list<VarInfo*> workingSet;
+  pRefDepMap followers_p(new RefDepMap());
+  RefDepMap &followers = *followers_p;
+  RefDepMap &predecessors = *predecessors_p;
+
+  // first initialise the working set and also add the variables to the followers
+  for(pVariable v: independentVars)
+  {
+    long id=v->getId();
+    // the variable is not needed if it is not in the predecessors
+    if (predecessors.count(id) == 0) continue;
+    VarInfo *vi = predecessors[id];
+    workingSet.push_back(vi);
+    followers[id] = vi;
+  }
+
+  // take elements out of the working set and analyse their predecessors
+  while (!workingSet.empty())
+  {
+    VarInfo *vi = workingSet.front();
+    workingSet.pop_front();
+
+    for(long id: vi->modifies)
+    {
+      // check if we already considered this variable or if we need it at all
+      if ((followers.count(id) > 0) || (predecessors.count(id) == 0)) continue;
+
+      // if not, put predecessors in the working set and in the map
+      VarInfo *foll = predecessors[id];
+      workingSet.push_back(foll);
+      followers[id] = foll;
+    }
+  }
+
+  // The map now contains all the predecessors of the dependent variables but note
+  // that the VarInfo::modifies sets are not restricted to this map.
+  return followers_p;
+
+}
+
+void DependencyMap::makeUpdateOrder(pRefDepMap deps_p, VariableList &updateList)
+{
+  typedef std::list<VarInfo*>::iterator WorkIter;
+
+  std::list<VarInfo*> workingSet;
+  RefDepMap &deps = *deps_p;
+
+  updateList.clear();
+
+  // first initialise the counters
+  for(RefDepMap::value_type entry: deps)
+  {
+
+    int count = 0;
+    VarInfo *vi = entry.second;
+    workingSet.push_back(vi);
+    for(long id: vi->dependsOn)
+    {
+      if (deps.count(id) > 0) ++count;
+    }
+    entry.second->counter = count;
+  }
+
+  while (!workingSet.empty())
+  {
+    VarInfo *nextEval = 0;
+    WorkIter it = workingSet.begin();
+    while ((nextEval==0) && (it!=workingSet.end()))
+    {
+      if ((*it)->counter==0) nextEval=*it;
+      else ++it;
+    }
+
+    assert(nextEval != 0);
+
+    workingSet.erase(it);
+    updateList.push_back(nextEval->v);
+
+    for(long id: nextEval->modifies)
+    {
+      if (deps.count(id) == 0) continue;
+      VarInfo *vi = deps[id];
+      --(vi->counter);
+      assert(vi->counter >= 0);
+    }
+  }
+}
+
+pBlockVariables DependencyMap::getBlockVariables()
+{
+  return blockVars;
+}
+
+void DependencyMap::updateAll()
+{
+  pRefDepMap deps(new RefDepMap());
+  for(DepMap::value_type &entry: dependencies)
+  {
+    deps->insert(RefDepMap::value_type(entry.first, &entry.second));
+  }
+
+  VariableList updateList;
+
+  makeUpdateOrder(deps, updateList);
+
+  for(pVariable v: updateList) {
+    try
+    {
+      v->evaluateExpression();
+    }
+    catch(...)
+    {
+      // no-op, bulkhead
+    }
+  }
+}
+
+
+DependencyUpdater::DependencyUpdater(pDependencyMap dependencies_)
+  : dependencies(dependencies_), isValid(true)
+{
+  assert(dependencies->dummyVar->isReadOnly());
+  independentVars.insert(dependencies->dummyVar);
+}
+
+
+void DependencyUpdater::addIndependent(pParameter p)
+{
+  assert(p->getVariable()->isReadOnly());
+  independentVars.insert(p->getVariable());
+  isValid = false;
+}
+
+void DependencyUpdater::addDependent(pParameter p)
+{
+  assert(!!p);
+  // only non-constant variables have to be updated using the DependencyUpdater
+  if (p->getVariable()->isConstant())
+  {
+    p->update();
+    return;
+  }
+  dependentParameters.insert(p);
+  dependentVars.insert(p->getVariable());
+  isValid = false;
+}
+
+void DependencyUpdater::clearDependent()
+{
+  dependentParameters.clear();
+  dependentVars.clear();
+  isValid = false;
+}
-- 
2.43.0


From f843faa5007e2feb145fc5783d09f0e9a781b3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:09 +0000
Subject: [PATCH 11/19] fix: DependencyMap::recreate starts from an empty map

It threw an exception as soon as there was a non-constant variable.
---
 src/variables/dependencies.cpp |   7 +
 src/variables/dependencies.hpp | 308 ++++++++++++++++-----------------
 2 files changed, 161 insertions(+), 154 deletions(-)

diff --git a/src/variables/dependencies.cpp b/src/variables/dependencies.cpp
index 7db22b8..5891778 100644
--- a/src/variables/dependencies.cpp
+++ b/src/variables/dependencies.cpp
@@ -61,6 +61,13 @@ DependencyMap::DependencyMap(const pBlockVariables vars)
   constructMap(vars);
 }
 
+void DependencyMap::recreate()
+{
+  dependencies.clear();
+  dependencies[dummyVar->getId()] = VarInfo(dummyVar, DependencySet(), DependencySet());
+  constructMap(blockVars);
+}
+
 void DependencyMap::constructMapRecursive(const pBlockVariables vars)
 {
   for(VariableMap::value_type it: vars->getVariables())
diff --git a/src/variables/dependencies.hpp b/src/variables/dependencies.hpp
index 685a007..b65d119 100644
--- a/src/variables/dependencies.hpp
+++ b/src/variables/dependencies.hpp
@@ -1,154 +1,154 @@
-/*
- * dependencies.hpp
- *
- * Created on: 10 Jul 2012
- * Author: Holger Schmitz
- * Email: holger@notjustphysics.com
- *
- * Copyright 2012 Holger Schmitz
- *
- * This file is part of Schnek.
- *
- * Schnek is free software: you can redistribute it and/or modify
- * it under the terms of the GNU General Public License as published by
- * the Free Software Foundation, either version 3 of the License, or
- * (at your option) any later version.
- *
- * Schnek is distributed in the hope that it will be useful,
- * but WITHOUT ANY WARRANTY; without even the implied warranty of
- * MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
- * GNU General Public License for more details.
- *
- * You should have received a copy of the GNU General Public License
- * along with Schnek.  If not, see <http://www.gnu.org/licenses/>.
- *
- */
-
-#ifndef SCHNEK_DEPENDENCIES_HPP_
-#define SCHNEK_DEPENDENCIES_HPP_
-
-#include "variables.hpp"
-#include "blockparameters.hpp"
-
-#pragma GCC diagnostic push
-#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
-
-#include <boost/variant.hpp>
-
-#pragma GCC diagnostic pop
-
-#include <memory>
-#include <map>
-#include <set>
-#include <list>
-
-namespace schnek {
-
-class DependencyUpdater;
-
-/** DependencyMap contains a directed graph whose edges are oriented from the
- *  independent to the dependent variables.
- *
- */
-class DependencyMap
-{
-  private:
-    typedef std::set<long> DependencySet;
-    struct VarInfo
-    {
-      pVariable v;
-      DependencySet dependsOn;
-      DependencySet modifies;
-      int counter;
-      VarInfo() {}
-      VarInfo(pVariable v_, DependencySet dependsOn_, DependencySet modifies_)
-        : v(v_), dependsOn(dependsOn_), modifies(modifies_), counter(0) {
-        assert(v);
-      }
-    };
-
-    typedef std::map<long, VarInfo> DepMap;
-
-    /// This is used internally. The pointers are to VarInfo objects stored in the dependencies map.
-    typedef std::map<long, VarInfo*> RefDepMap;
-    typedef std::shared_ptr<RefDepMap> pRefDepMap;
-
-    typedef std::set<pVariable> VariableSet;
-    typedef std::list<pVariable> VariableList;
-
-    DepMap dependencies;
-    pBlockVariables blockVars;
-
-    pVariable dummyVar;
-
-    friend class DependencyUpdater;
-
-    void constructMapRecursive(const pBlockVariables vars);
-    void constructMap(const pBlockVariables vars);
-    void resetCounters();
-
-    void makeUpdateList(const VariableSet &independentVars, const VariableSet &dependentVars, VariableList &updateList);
-    pRefDepMap makeUpdatePredecessors(const VariableSet &independentVars, const VariableSet &dependentVars);
-    pRefDepMap makeUpdateFollowers(const VariableSet &independentVars, pRefDepMap reverseDeps);
-    void makeUpdateOrder(pRefDepMap deps, VariableList &updateList);
-
-  public:
-    DependencyMap(const pBlockVariables vars);
-    void recreate() { constructMap(blockVars); }
-    pBlockVariables getBlockVariables();
-    void updateAll();
-
-//    bool hasRoots(pVariable v, pParametersGroup roots);
-};
-
-typedef std::shared_ptr<DependencyMap> pDependencyMap;
-
-class DependencyUpdater
-{
-  private:
-    typedef std::set<pParameter> ParameterSet;
-    typedef std::set<pVariable> VariableSet;
-    typedef std::list<pVariable> VariableList;
-
-    VariableList updateList;
-    VariableSet independentVars;
-    VariableSet dependentVars;
-    ParameterSet dependentParameters;
-
-    pDependencyMap dependencies;
-    bool isValid;
-  public:
-    DependencyUpdater(pDependencyMap dependencies_);
-    void addIndependent(pParameter v);
-    void addDependent(pParameter v);
-    void clearDependent();
-
-    template<size_t rank, template<size_t> class CheckingPolicy>
-    void addIndependentArray(Array<pParameter, rank, CheckingPolicy> v)
-    { for (size_t i=0; i<rank; ++i) addIndependent(v[i]); }
-
-    template<size_t rank, template<size_t> class CheckingPolicy>
-    void addDependentArray(Array<pParameter, rank, CheckingPolicy> v)
-    { for (size_t i=0; i<rank; ++i) addDependent(v[i]); }
-
-    /** Updates the dependent variables and all the variables needed to evaluate them.
-     *
-     *  This method is inline because it is potentially speed critical.
-     */
-    void update()
-    {
-      if (!isValid) {
-        dependencies->makeUpdateList(independentVars, dependentVars, updateList);
-        isValid = true;
-      }
-      for(pVariable v: updateList) v->evaluateExpression();
-      for(pParameter p: dependentParameters) p->update();
-    }
-};
-
-typedef std::shared_ptr<DependencyUpdater> pDependencyUpdater;
-
-} // namespace
-
-
-#endif // SCHNEK_DEPENDENCIES_HPP_
+/*
+ * dependencies.hpp
+ *
+ * Created on: 10 Jul 2012
+ * Author: Holger Schmitz
+ * Email: holger@notjustphysics.com
+ *
+ * Copyright 2012 Holger Schmitz
+ *
+ * This file is part of Schnek.
+ *
+ * Schnek is free software: you can redistribute it and/or modify
+ * it under the terms of the GNU General Public License as published by
+ * the Free Software Foundation, either version 3 of the License, or
+ * (at your option) any later version.
+ *
+ * Schnek is distributed in the hope that it will be useful,
+ * but WITHOUT ANY WARRANTY; without even the implied warranty of
+ * MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+ * GNU General Public License for more details.
+ *
+ * You should have received a copy of the GNU General Public License
+ * along with Schnek.  If not, see <http://www.gnu.org/licenses/>.
+ *
+ */
+
+#ifndef SCHNEK_DEPENDENCIES_HPP_
+#define SCHNEK_DEPENDENCIES_HPP_
+
+#include "variables.hpp"
+#include "blockparameters.hpp"
+
+#pragma GCC diagnostic push
+#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
+
+#include <boost/variant.hpp>
+
+#pragma GCC diagnostic pop
+
+#include <memory>
+#include <map>
+#include <set>
+#include <list>
+
+namespace schnek {
+
+class DependencyUpdater;
+
+/** DependencyMap contains a directed graph whose edges are oriented from the
+ *  independent to the dependent variables.
+ *
+ */
+class DependencyMap
+{
+  private:
+    typedef std::set<long> DependencySet;
+    struct VarInfo
+    {
+      pVariable v;
+      DependencySet dependsOn;
+      DependencySet modifies;
+      int counter;
+      VarInfo() {}
+      VarInfo(pVariable v_, DependencySet dependsOn_, DependencySet modifies_)
+        : v(v_), dependsOn(dependsOn_), modifies(modifies_), counter(0) {
+        assert(v);
+      }
+    };
+
+    typedef std::map<long, VarInfo> DepMap;
+
+    /// This is used internally. The pointers are to VarInfo objects stored in the dependencies map.
+    typedef std::map<long, VarInfo*> RefDepMap;
+    typedef std::shared_ptr<RefDepMap> pRefDepMap;
+
+    typedef std::set<pVariable> VariableSet;
+    typedef std::list<pVariable> VariableList;
+
+    DepMap dependencies;
+    pBlockVariables blockVars;
+
+    pVariable dummyVar;
+
+    friend class DependencyUpdater;
+
+    void constructMapRecursive(const pBlockVariables vars);
+    void constructMap(const pBlockVariables vars);
+    void resetCounters();
+
+    void makeUpdateList(const VariableSet &independentVars, const VariableSet &dependentVars, VariableList &updateList);
+    pRefDepMap makeUpdatePredecessors(const VariableSet &independentVars, const VariableSet &dependentVars);
+    pRefDepMap makeUpdateFollowers(const VariableSet &independentVars, pRefDepMap reverseDeps);
+    void makeUpdateOrder(pRefDepMap deps, VariableList &updateList);
+
+  public:
+    DependencyMap(const pBlockVariables vars);
+    void recreate();
+    pBlockVariables getBlockVariables();
+    void updateAll();
+
+//    bool hasRoots(pVariable v, pParametersGroup roots);
+};
+
+typedef std::shared_ptr<DependencyMap> pDependencyMap;
+
+class DependencyUpdater
+{
+  private:
+    typedef std::set<pParameter> ParameterSet;
+    typedef std::set<pVariable> VariableSet;
+    typedef std::list<pVariable> VariableList;
+
+    VariableList updateList;
+    VariableSet independentVars;
+    VariableSet dependentVars;
+    ParameterSet dependentParameters;
+
+    pDependencyMap dependencies;
+    bool isValid;
+  public:
+    DependencyUpdater(pDependencyMap dependencies_);
+    void addIndependent(pParameter v);
+    void addDependent(pParameter v);
+    void clearDependent();
+
+    template<size_t rank, template<size_t> class CheckingPolicy>
+    void addIndependentArray(Array<pParameter, rank, CheckingPolicy> v)
+    { for (size_t i=0; i<rank; ++i) addIndependent(v[i]); }
+
+    template<size_t rank, template<size_t> class CheckingPolicy>
+    void addDependentArray(Array<pParameter, rank, CheckingPolicy> v)
+    { for (size_t i=0; i<rank; ++i) addDependent(v[i]); }
+
+    /** Updates the dependent variables and all the variables needed to evaluate them.
+     *
+     *  This method is inline because it is potentially speed critical.
+     */
+    void update()
+    {
+      if (!isValid) {
+        dependencies->makeUpdateList(independentVars, dependentVars, updateList);
+        isValid = true;
+      }
+      for(pVariable v: updateList) v->evaluateExpression();
+      for(pParameter p: dependentParameters) p->update();
+    }
+};
+
+typedef std::shared_ptr<DependencyUpdater> pDependencyUpdater;
+
+} // namespace
+
+
+#endif // SCHNEK_DEPENDENCIES_HPP_
-- 
2.43.0


From 7f0ec3a74e2d3a4652902743a4575b24700df947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:09 +0000
Subject: [PATCH 12/19] fix: report a missing time in DiagnosticManager instead
 of dereferencing null

---
 src/diagnostic/diagnostic.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/diagnostic/diagnostic.cpp b/src/diagnostic/diagnostic.cpp
index 106c62c..2df7351 100644
--- a/src/diagnostic/diagnostic.cpp
+++ b/src/diagnostic/diagnostic.cpp
@@ -205,7 +205,8 @@ void DiagnosticManager::execute()
   SCHNEK_TRACE_LOG(2, "DiagnosticManager::execute " << rank << " "
                    << usePhysicalTime?boost::lexical_cast<std::string>(*physicalTime):boost::lexical_cast<std::string>(*timecounter));
 
-  if ((!usePhysicalTime && !timecounter) || (usePhysicalTime && !physicalTime))
+  if ((!usePhysicalTime && !timecounter) || (usePhysicalTime && !physicalTime)
+      || (!intervalDiags.empty() && !timecounter) || (!deltaTimeDiags.empty() && !physicalTime))
     throw schnek::VariableNotInitialisedException("In DiagnosticManager: A time counter or physical time must be specified!");
 
   for(IntervalDiagnostic *diag: intervalDiags)
@@ -224,6 +225,8 @@ double DiagnosticManager::adjustDeltaT(double deltaT)
 {
   double adjustedDt = deltaT;
 
+  if (!deltaTimeDiags.empty() && !physicalTime)
+    throw schnek::VariableNotInitialisedException("In DiagnosticManager: A physical time must be specified!");
 
   for(DeltaTimeDiagnostic *diag: deltaTimeDiags)
   {
-- 
2.43.0


From 1a6508029a771e8f0154190cbcb9b01ef1c9ca7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:36 +0000
Subject: [PATCH 13/19] fix: MPICartSubdivision divides the domain from its
 lower bound

---
 src/grid/mpisubdivision.t | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/grid/mpisubdivision.t b/src/grid/mpisubdivision.t
index 3b87a65..ddf395a 100644
--- a/src/grid/mpisubdivision.t
+++ b/src/grid/mpisubdivision.t
@@ -104,15 +104,15 @@ void MPICartSubdivision<GridType>::init(const LimitType &lo, const LimitType &hi
     errorCode = MPI_Cart_shift(comm,i,1,&prevcoord[i],&nextcoord[i]);
     SCHNEK_ASSERT(errorCode == MPI_SUCCESS, "Could not shift Cartesian coordinates ("+boost::lexical_cast<std::string>(errorCode)+")");
 
-    width[i] = (High[i]-1.)/double(dims[i]);
+    width[i] = (hi[i]-lo[i]-1.)/double(dims[i]);
 
     if (mycoord[i]>0)
-      Low[i] = int(width[i]*mycoord[i])-delta+1;
+      Low[i] = lo[i]+int(width[i]*mycoord[i])-delta+1;
     else
-      Low[i] = -delta;
+      Low[i] = lo[i]-delta;
 
     if (mycoord[i]<(dims[i]-1))
-      High[i] = int(width[i]*(mycoord[i]+1))+delta;
+      High[i] = lo[i]+int(width[i]*(mycoord[i]+1))+delta;
     else
       High[i] = High[i]+delta;
 
-- 
2.43.0


From cb0946b3cd26379852091f58b3a6180446062883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:36 +0000
Subject: [PATCH 14/19] fix: getInnerExtent measures from the lower bound of
 the global domain

---
 src/grid/domainsubdivision.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/grid/domainsubdivision.hpp b/src/grid/domainsubdivision.hpp
index cbc227d..2cf5ce9 100644
--- a/src/grid/domainsubdivision.hpp
+++ b/src/grid/domainsubdivision.hpp
@@ -141,8 +141,8 @@ class DomainSubdivision {
       {
         const T &lo = globalExtent.getLo()[i];
         T dx = (globalExtent.getHi()[i]-lo) / (T)(globalGridSize.getHi()[i] - globalGridSize.getLo()[i] + 1);
-        localDomainMin[i] = lo + this->getInnerLo()[i]*dx;
-        localDomainMax[i] = lo + (this->getInnerHi()[i] + 1)*dx;
+        localDomainMin[i] = lo + (this->getInnerLo()[i] - globalGridSize.getLo()[i])*dx;
+        localDomainMax[i] = lo + (this->getInnerHi()[i] - globalGridSize.getLo()[i] + 1)*dx;
       }
       return Range<T, Rank, CheckingPolicy>(localDomainMin,localDomainMax);
     }
-- 
2.43.0


From 1498a173538edd35606875b2f7f653d2ee1a080c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:30 +0000
Subject: [PATCH 15/19] fix: FieldFiller::set adds to the filler it is called
 on

The adder was a function-local static, bound for ever to the coordinates,
updater and list of the first call.
---
 src/tools/fieldtools.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/tools/fieldtools.hpp b/src/tools/fieldtools.hpp
index f5f429a..42687b2 100644
--- a/src/tools/fieldtools.hpp
+++ b/src/tools/fieldtools.hpp
@@ -142,10 +142,9 @@ class FieldFiller
       size_t rank,
       template<size_t> class ArrayCheckingPolicy
     >
-    fieldAdder<rank,ArrayCheckingPolicy> &set(Array<double, rank, ArrayCheckingPolicy> &coords, DependencyUpdater &updater)
+    fieldAdder<rank,ArrayCheckingPolicy> set(Array<double, rank, ArrayCheckingPolicy> &coords, DependencyUpdater &updater)
     {
-        static fieldAdder<rank,ArrayCheckingPolicy> adder(coords, updater, implementations);
-        return adder;
+        return fieldAdder<rank,ArrayCheckingPolicy>(coords, updater, implementations);
     }
 
     void clear() { implementations.clear(); }
-- 
2.43.0


From c51249e03cae959aeddddc83e4461405c340cb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:00 +0000
Subject: [PATCH 16/19] fix: HDFGridReader could not be used because its
 constructor was never defined

---
 src/diagnostic/hdfdiagnostic.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diagnostic/hdfdiagnostic.hpp b/src/diagnostic/hdfdiagnostic.hpp
index 47a4420..b379fb1 100644
--- a/src/diagnostic/hdfdiagnostic.hpp
+++ b/src/diagnostic/hdfdiagnostic.hpp
@@ -296,7 +296,7 @@ class HDFGridReader : public Block
     std::string fileName;
   public:
     /// Default constructor
-    HDFGridReader();
+    HDFGridReader() {}
     /// Virtual destructor
     virtual ~HDFGridReader() {}
   protected:
-- 
2.43.0


From 76182bca5ccf239d19fc31ab77e0aeaa253c04a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:00 +0000
Subject: [PATCH 17/19] fix: reading on an inactive HDF5 stream used a file
 that is not open

---
 src/diagnostic/hdfdiagnostic.t | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/diagnostic/hdfdiagnostic.t b/src/diagnostic/hdfdiagnostic.t
index cc6051a..b9b3738 100644
--- a/src/diagnostic/hdfdiagnostic.t
+++ b/src/diagnostic/hdfdiagnostic.t
@@ -53,6 +53,10 @@ void HdfAttributes::set(std::string name, const T &value, hsize_t dims) {
 template<typename FieldType>
 void HdfIStream::readGrid(GridContainer<FieldType> &g)
 {
+  if (!active) {
+    return;
+  }
+
   std::string dset_name = getNextBlockName();
 
   typedef typename FieldType::IndexType IndexType;
-- 
2.43.0


From a9ae798cd8f70f138b80af9bb545c9fbb2c8da8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:00 +0000
Subject: [PATCH 18/19] fix: opening a copy of an HdfOStream that had been used
 read uninitialised property lists

---
 src/diagnostic/hdfdiagnostic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diagnostic/hdfdiagnostic.cpp b/src/diagnostic/hdfdiagnostic.cpp
index 5107595..77e8c87 100644
--- a/src/diagnostic/hdfdiagnostic.cpp
+++ b/src/diagnostic/hdfdiagnostic.cpp
@@ -258,7 +258,7 @@ HdfOStream::HdfOStream()
 {}
 
 HdfOStream::HdfOStream(const HdfOStream& hdf)
-  : HdfStream(hdf), initialised(hdf.initialised)
+  : HdfStream(hdf), initialised(false)
 {}
 
 HdfOStream::HdfOStream(const char* fname)
-- 
2.43.0


From eb4ee09fb99d4003b5a5468ff092dcf6cc6164fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:00 +0000
Subject: [PATCH 19/19] fix: HDF5 streams opened files with a stale
 communicator after the active processes had changed

---
 src/diagnostic/hdfdiagnostic.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/diagnostic/hdfdiagnostic.cpp b/src/diagnostic/hdfdiagnostic.cpp
index 77e8c87..cb31c21 100644
--- a/src/diagnostic/hdfdiagnostic.cpp
+++ b/src/diagnostic/hdfdiagnostic.cpp
@@ -171,6 +171,7 @@ void HdfStream::makeMPIGroup()
   delete[] inputArr;
 
   activeModified = false;
+  commSet = true;
 }
 #endif
 
@@ -306,11 +307,11 @@ int HdfOStream::open(const char* fname) {
       MPI_Info_set(mpi_info, collective_buffering, strue);
       MPI_Info_set(mpi_info, cb_block_size, n1048576);
       MPI_Info_set(mpi_info, cb_buffer_size, n4194304);
-
-      /* set Parallel access with communicator */
-      H5Pset_fapl_mpio(plist_id, mpiComm, mpi_info);
     }
 
+    /* set Parallel access with communicator, which may have changed since the last open */
+    H5Pset_fapl_mpio(plist_id, mpiComm, mpi_info);
+
     /* open the file collectively */
     //H5Pset_fapl_mpiposix(plist_id, mpiComm, 0);
     file_id = H5Fcreate (fname, H5F_ACC_TRUNC, H5P_DEFAULT, plist_id);
-- 
2.43.0

