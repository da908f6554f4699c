From 8aa25fc2199dccd64f3a929e4d074156f26fc272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:59 +0000
Subject: [PATCH 01/51] fix: setting the phase of a SpinRotation marks its
 unitary as outdated

---
 src/quanguru/classes/QGates.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/quanguru/classes/QGates.py b/src/quanguru/classes/QGates.py
index 921372c..2a1a6a2 100644
--- a/src/quanguru/classes/QGates.py
+++ b/src/quanguru/classes/QGates.py
@@ -35,13 +35,13 @@ class SpinRotation(Gate): # pylint: disable=too-many-ancestors
     _externalInstances: int = 0
     #: (**class attribute**) number of total instances = _internalInstances + _externalInstances
     _instances: int = 0
-    __slots__ = ['__angle', '__rotationAxis', 'phase', '_rotationOp']
+    __slots__ = ['__angle', '__rotationAxis', '__phase', '_rotationOp']
     def __init__(self, **kwargs):
         super().__init__(_internal=kwargs.pop('_internal', False))
         self.__angle = None
         self.__rotationAxis = None
         self._rotationOp = None
-        self.phase = 1
+        self.__phase = 1
         #self._createUnitary = self._rotMat
         self._named__setKwargs(**kwargs) # pylint: disable=no-member
 
@@ -53,6 +53,14 @@ class SpinRotation(Gate): # pylint: disable=too-many-ancestors
     def angle(self, val):
         setAttr(self, '_SpinRotation__angle', val)
 
+    @property
+    def phase(self):
+        return self._SpinRotation__phase
+
+    @phase.setter
+    def phase(self, val):
+        setAttr(self, '_SpinRotation__phase', val)
+
     @property
     def rotationAxis(self):
         return self._SpinRotation__rotationAxis # pylint: disable=no-member
-- 
2.43.0


From 23dd3339a33bf35a1e087f7fe8dc69cf1d6d74f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:59 +0000
Subject: [PATCH 02/51] fix: setting the ratio of a protocol marks its unitary
 as outdated

---
 src/quanguru/classes/QPro.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/quanguru/classes/QPro.py b/src/quanguru/classes/QPro.py
index f3379ab..f7fb36a 100644
--- a/src/quanguru/classes/QPro.py
+++ b/src/quanguru/classes/QPro.py
@@ -33,7 +33,7 @@ from ..QuantumToolbox.operators import identity #pylint: disable=relative-beyond
 
 from .base import qBase, addDecorator
 from .baseClasses import updateBase
-from .QSimBase import _parameter
+from .QSimBase import _parameter, setAttr
 from .QSimComp import QSimComp
 from .QSweep import Sweep
 
@@ -158,7 +158,7 @@ class genericProtocol(QSimComp): # pylint: disable = too-many-instance-attribute
 
     @ratio.setter
     def ratio(self, val):
-        self._genericProtocol__ratio = val # pylint: disable=assigning-non-slot
+        setAttr(self, '_genericProtocol__ratio', val)
 
     @property
     def system(self):
-- 
2.43.0


From 777319d8a169dab562e87e13f9632fb73056e8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:16 +0000
Subject: [PATCH 03/51] fix: recalculate the Hermitian conjugate of a protocol
 whenever its unitary is recalculated

---
 src/quanguru/classes/QPro.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/quanguru/classes/QPro.py b/src/quanguru/classes/QPro.py
index f7fb36a..7556897 100644
--- a/src/quanguru/classes/QPro.py
+++ b/src/quanguru/classes/QPro.py
@@ -218,6 +218,7 @@ class genericProtocol(QSimComp): # pylint: disable = too-many-instance-attribute
         for update in self._genericProtocol__updates:
             update.setup()
         self._paramBoundBase__matrix = self._getUnitary(collapseOps, decayRates) # pylint: disable=no-member, assigning-non-slot
+        self._paramBoundBase__matrixHc = None # pylint: disable=assigning-non-slot
         for update in self._genericProtocol__updates:
             update.setback()
         self._paramUpdatedToFalse()
-- 
2.43.0


From 070c155922ea3963f5bee755d2963278bfef31c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:35 +0000
Subject: [PATCH 04/51] fix: resetting the terms of a system marks its
 Hamiltonian as outdated

---
 src/quanguru/classes/QSystem.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/quanguru/classes/QSystem.py b/src/quanguru/classes/QSystem.py
index 41eebb0..14ca942 100644
--- a/src/quanguru/classes/QSystem.py
+++ b/src/quanguru/classes/QSystem.py
@@ -653,6 +653,7 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
         Method to delete all the existing terms by assigning a new empty dictionary.
         """
         self._QuantumSystem__terms = aliasDict() # pylint:disable=assigning-non-slot
+        self._paramUpdated = True
 
     @terms.setter
     def terms(self, trm):
-- 
2.43.0


From b6b6a5853eac90d3d592463be0f5f7fe9587e722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:35 +0000
Subject: [PATCH 05/51] fix: adding a sub-system to a nested composite updates
 the dimensions around the composite

---
 src/quanguru/classes/QSystem.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/quanguru/classes/QSystem.py b/src/quanguru/classes/QSystem.py
index 14ca942..aa42422 100644
--- a/src/quanguru/classes/QSystem.py
+++ b/src/quanguru/classes/QSystem.py
@@ -374,9 +374,14 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
         internal method used to update relevant information (such as dimension before/after) for the existing and newly
         added sub-systems. This is purely for internal use.
         """
+        oldDim = self.dimension
         for subS in self.subSys.values():
             subS._dimsAfter *= subSys.dimension
             subSys._dimsBefore *= subS.dimension
+        subSys._dimsBefore *= self._dimsBefore
+        subSys._dimsAfter *= self._dimsAfter
+        if self.superSys is not None:
+            self.superSys._updateDimension(self, oldDim*subSys.dimension, oldDim)
         return subSys
 
     @addDecorator
-- 
2.43.0


From 4b0ac94e6ec5bdb01cd2bd5146b967cc70fb431e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:27 +0000
Subject: [PATCH 06/51] fix: removing a sub-system keeps its dimension and
 inner couplings, and drops the couplings that involved it

---
 src/quanguru/classes/QSystem.py | 38 +++++++++++----------------------
 src/quanguru/classes/QTerms.py  |  5 +++--
 2 files changed, 15 insertions(+), 28 deletions(-)

diff --git a/src/quanguru/classes/QSystem.py b/src/quanguru/classes/QSystem.py
index aa42422..3094db6 100644
--- a/src/quanguru/classes/QSystem.py
+++ b/src/quanguru/classes/QSystem.py
@@ -466,43 +466,29 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
             Raises an error if removeSubSys is called on a single system.
             This method also updates the dimsBefore/After of the remaining sub-systems (and the removed system), deletes
             the existing matrices so that they are re-created with the proper dimensions.
-            When removing a single system, it sets the dimension of the single system to 1, so that all the
-            dimsBefore/After information are updated by the dimensionUpdate method.
-            However, we might still need the removed system, so its dimension is stored (in oldDim) and set back again
-            (into _QuantumSystem__dimension) after its removed.
-            When removing a composite system, it makes _removeSubSysExc to each sub-system of the removed composite
-            system, and these nested calls sets the dimensions of all the single systems below the removed composite to
-            1 so that the dimsBefore/After information are again updated by the dimensionUpdate method.
-            However, the removed composite system might still be needed, and we might not want these dimensions to be 1
-            or these single systems to be removed from the removed composite system.
-            These are avoided by storing&setting the dimensions back to their original values for single systems and
-            adding the removed sub-systems of removed composite systems back in.
+            The dimsBefore/After information of the remaining systems are updated as if the dimension of the removed
+            system (single or composite) becomes 1. The removed system itself (its dimension, sub-systems, terms) stays
+            as it is, so that it can still be used.
+            The coupling terms that contain the removed system (or any of its sub-systems) are removed from the
+            composite systems that no longer contain it.
         """
         checkNotVal(self._isComposite, False,
                     f"{self.name} is not a composite. removeSubSys cannot be called on single systems")
         subSys = self.getByNameOrAlias(subSys)
         if subSys in self.subSys.values():
             _exclude.append(self)
-            if subSys._isComposite: # pylint:disable=protected-access
-                # need to create this for two reasons
-                # 1. because subSys.subSys changes its size due to _removeSubSysExc calls
-                # 2. we add these systems back again after removal
-                qsysList = list(subSys.subSys.values())
-                for qsys in qsysList:
-                    subSys._removeSubSysExc(qsys, _exclude=_exclude)#pylint:disable=protected-access
-                super()._removeSubSysExc(subSys, _exclude=_exclude)
-                # add the sub-systems of subSys back again
-                subSys.addSubSys(qsysList)
-            else:
-                oldDim = subSys.dimension
-                subSys.dimension = 1
-                super()._removeSubSysExc(subSys, _exclude=_exclude)
-                setAttr(self, '_QuantumSystem__dimension', oldDim)
+            self._updateDimension(subSys, 1, subSys.dimension)
+            super()._removeSubSysExc(subSys, _exclude=_exclude)
             subSys.superSys = None
             subSys._dimsAfter = 1
             subSys._dimsBefore = 1
             subSys.delMatrices(_exclude=[])
             _exclude.append(subSys)
+            supSys = self.superSys
+            while supSys is not None:
+                for ter in list(supSys.terms.values()):
+                    ter._removeTermIfQSysInList(supSys, subSys)#pylint:disable=protected-access
+                supSys = supSys.superSys
         else:
             if self not in _exclude:
                 _exclude.append(self)
diff --git a/src/quanguru/classes/QTerms.py b/src/quanguru/classes/QTerms.py
index 6fcc983..dd4b27a 100644
--- a/src/quanguru/classes/QTerms.py
+++ b/src/quanguru/classes/QTerms.py
@@ -116,11 +116,12 @@ class QTerm(paramBoundBase):
 
     def _removeTermIfQSysInList(self, qSys, subSys):
         r"""
-        removes self (the term) from the terms of given qSys if a particular subSys is in qSystem list of self.
+        removes self (the term) from the terms of given qSys if a particular subSys (or any of its sub-systems) is in
+        qSystem list of self.
         This is an internal method used in removeSubSys of quantum systems.
         """
         if isinstance(self.qSystem, (list, tuple)):
-            if subSys in self.qSystem:
+            if any(subSys is qs or subSys._hasInSubs(qs) for qs in self.qSystem):
                 qSys.removeTerm(self)
 
     @staticmethod
-- 
2.43.0


From 3493f2821dc7dd096d39a68687bedc70dcc33c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:27 +0000
Subject: [PATCH 07/51] fix: resetting the sub-systems of a composite system
 removes them properly

---
 src/quanguru/classes/QSystem.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/quanguru/classes/QSystem.py b/src/quanguru/classes/QSystem.py
index 3094db6..059583d 100644
--- a/src/quanguru/classes/QSystem.py
+++ b/src/quanguru/classes/QSystem.py
@@ -508,6 +508,12 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
         self.delMatrices(_exclude=[])
         self._paramUpdated = True
 
+    def resetSubSys(self) -> None:
+        r"""
+        Removes all the sub-systems (and updates their dimensions before/after and the coupling terms accordingly).
+        """
+        self.removeSubSys(list(self.subSys.values()))
+
     #free evolution composition and protocols
     # TODO test these with the protocol tests
     @property
-- 
2.43.0


From bd1d6a6c198521594b28fb7c40ed3a488dea70f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:27 +0000
Subject: [PATCH 08/51] fix: reject circular sub-system additions at any
 nesting depth

---
 src/quanguru/classes/QSystem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quanguru/classes/QSystem.py b/src/quanguru/classes/QSystem.py
index 059583d..81e7e74 100644
--- a/src/quanguru/classes/QSystem.py
+++ b/src/quanguru/classes/QSystem.py
@@ -394,7 +394,7 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
         updates of the sub-system also sets the _paramUpdated of self to True.
         Note that composite systems can contain other composite systems as sub-systems.
         """
-        if self in subSys.subSys.values():
+        if subSys is self or subSys._hasInSubs(self):
             raise ValueError(f"{self.name} is a subsystem of {subSys.name}. " +
                              f"Cannot add {subSys.name} as subsystem to {self.name}. " +
                              "Circular subsystem addition is not allowed.")
-- 
2.43.0


From f1e57e091ca5c94ee1c33387c3aba318bc66b856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:38 +0000
Subject: [PATCH 09/51] fix: a removed sub-system no longer notifies the system
 it was removed from

---
 src/quanguru/classes/QSystem.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/quanguru/classes/QSystem.py b/src/quanguru/classes/QSystem.py
index 81e7e74..24ab2cd 100644
--- a/src/quanguru/classes/QSystem.py
+++ b/src/quanguru/classes/QSystem.py
@@ -483,6 +483,7 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
             subSys._dimsAfter = 1
             subSys._dimsBefore = 1
             subSys.delMatrices(_exclude=[])
+            subSys._paramBoundBase__paramBound.pop(self.name, None) # pylint: disable=protected-access
             _exclude.append(subSys)
             supSys = self.superSys
             while supSys is not None:
-- 
2.43.0


From a2ee0b2bab651a4552fd53e0240800191831070d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:45 +0000
Subject: [PATCH 10/51] fix: removing a composite system (or removing through
 one of its own sub-systems) finds it and keeps its inner couplings

---
 src/quanguru/classes/QSystem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/quanguru/classes/QSystem.py b/src/quanguru/classes/QSystem.py
index 24ab2cd..9f48e1b 100644
--- a/src/quanguru/classes/QSystem.py
+++ b/src/quanguru/classes/QSystem.py
@@ -496,13 +496,13 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
                 for qsys in self.subSys.values():
                     if qsys._isComposite: #pylint:disable=protected-access
                         qsys._removeSubSysExc(subSys, _exclude=_exclude) #pylint:disable=protected-access
-                        if subSys in _exclude:
+                        if subSys.superSys is None: # it is found and removed
                             break
                 else:
                     if self.superSys is not None:
                         self.superSys._removeSubSysExc(subSys, _exclude=_exclude) #pylint:disable=protected-access
 
-        if subSys is not self:
+        if subSys is not self and not subSys._hasInSubs(self): # pylint: disable=protected-access
             termObjs = list(self.terms.values())
             for ter in termObjs:
                 ter._removeTermIfQSysInList(self, subSys)#pylint:disable=protected-access
-- 
2.43.0


From c42ec225173833e104e3cb5a847dfc4dd7ffb465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:37 +0000
Subject: [PATCH 11/51] fix: check a new dimension against every operator on
 that system, and only those

---
 src/quanguru/classes/QSystem.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/quanguru/classes/QSystem.py b/src/quanguru/classes/QSystem.py
index 9f48e1b..17d4313 100644
--- a/src/quanguru/classes/QSystem.py
+++ b/src/quanguru/classes/QSystem.py
@@ -238,11 +238,21 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
                 self._QuantumSystem__dimension *= su.dimension # pylint:disable=assigning-non-slot,no-member
         return self._QuantumSystem__dimension # pylint:disable=no-member
 
-    def _hasConsistentDimensionTerm(self, dim):
-        isConsistent = all(QTerm._isCorrectPauliDim(term.qSystem, term.operator, dim) for term in self.terms.values()) #pylint:disable=protected-access
+    def _hasConsistentDimensionTerm(self, dim, qsys=None):
+        r"""
+        Checks that the dimension ``dim`` for ``qsys`` (``self`` by default) is consistent with every operator that is
+        applied on ``qsys`` by the terms of ``self`` and of the composite systems containing ``self``.
+        """
+        qsys = self if qsys is None else qsys
+        for term in self.terms.values():
+            if term.operator is None:
+                continue
+            isMulti = isinstance(term.qSystem, (list, tuple))
+            for qs, oper in zip(term.qSystem, term.operator) if isMulti else ((term.qSystem, term.operator),):
+                if qs is qsys:
+                    QTerm._isCorrectPauliDim(qs, oper, dim) #pylint:disable=protected-access
         if self.superSys is not None:
-            isConsistent = isConsistent and self.superSys._hasConsistentDimensionTerm(dim) #pylint:disable=protected-access
-        return isConsistent
+            self.superSys._hasConsistentDimensionTerm(dim, qsys) #pylint:disable=protected-access
 
     @dimension.setter
     def dimension(self, dim):
-- 
2.43.0


From 1475d4d8e20b58c60807b9d2583d4f7a26051c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:37 +0000
Subject: [PATCH 12/51] fix: a refused operator list leaves the factors of a
 coupling term unchanged

---
 src/quanguru/classes/QTerms.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/quanguru/classes/QTerms.py b/src/quanguru/classes/QTerms.py
index dd4b27a..f778c47 100644
--- a/src/quanguru/classes/QTerms.py
+++ b/src/quanguru/classes/QTerms.py
@@ -182,10 +182,11 @@ class QTerm(paramBoundBase):
             checkCorType(vals, (list, tuple), f'{attrPrintName} of a term with multiple system (i.e. a coupling term)')
             checkVal(len(vals), len(self.qSystem), f'Number of {attrPrintName} ({len(vals)}) should be the same as'+
                                                     f' number of qSystem ({len(self.subSys)})')
-            for ind, ter in enumerate(self.subSys.values()):
-                setAttr(ter, attrName, vals[ind])
         if attrName == '_QTerm__operator':
             self._isCorrectPauliDim(self.qSystem, vals) #pylint:disable=no-member
+        if isinstance(vals, (list, tuple)):
+            for ind, ter in enumerate(self.subSys.values()):
+                setAttr(ter, attrName, vals[ind])
         setAttr(self, attrName, vals)
         if self._paramUpdated:
             self._paramBoundBase__matrix = None # pylint: disable=assigning-non-slot
-- 
2.43.0


From 2adcc0d50398596a3872bb053f801ea8dc60556d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:57 +0000
Subject: [PATCH 13/51] fix: the first term of a system is always one of its
 current terms

---
 src/quanguru/classes/QSystem.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/quanguru/classes/QSystem.py b/src/quanguru/classes/QSystem.py
index 17d4313..fa3bf9e 100644
--- a/src/quanguru/classes/QSystem.py
+++ b/src/quanguru/classes/QSystem.py
@@ -628,6 +628,8 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
         if termObj in self.terms.values():
             _exclude.append(self)
             self.terms.pop(termObj.name)
+            if termObj is self._QuantumSystem__firstTerm:
+                self._QuantumSystem__firstTerm = next(iter(self.terms.values()), None) # pylint:disable=assigning-non-slot
             _exclude.append(termObj)
         else:
             if self not in _exclude:
@@ -661,6 +663,7 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
         Method to delete all the existing terms by assigning a new empty dictionary.
         """
         self._QuantumSystem__terms = aliasDict() # pylint:disable=assigning-non-slot
+        self._QuantumSystem__firstTerm = None # pylint:disable=assigning-non-slot
         self._paramUpdated = True
 
     @terms.setter
-- 
2.43.0


From 180d1e81dd594f3ba8f2f990a40dde83652b15e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:33 +0000
Subject: [PATCH 14/51] fix: a protocol is re-created when a step changed, was
 evaluated elsewhere, added or removed

---
 src/quanguru/classes/QPro.py | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/quanguru/classes/QPro.py b/src/quanguru/classes/QPro.py
index 7556897..ad962d5 100644
--- a/src/quanguru/classes/QPro.py
+++ b/src/quanguru/classes/QPro.py
@@ -276,19 +276,6 @@ class qProtocol(genericProtocol):
         super().__init__(_internal=kwargs.pop('_internal', False))
         self._named__setKwargs(**kwargs) # pylint: disable=no-member
 
-    def _paramUpdatedToFalse(self):
-        super()._paramUpdatedToFalse()
-        for step in self.subSys.values():
-            step._paramUpdatedToFalse()
-
-    @genericProtocol._paramUpdated.getter
-    def _paramUpdated(self):# pylint: disable=invalid-overridden-method
-        for subS in self.subSys.values():
-            if subS._paramUpdated:
-                self._paramBoundBase__paramUpdated = True # pylint: disable=assigning-non-slot
-                break
-        return self._paramBoundBase__paramUpdated # pylint: disable=no-member
-
     @property
     def steps(self):
         return self._qBase__subSys # pylint: disable=no-member
@@ -316,6 +303,19 @@ class qProtocol(genericProtocol):
                 step.simulation._bound(self.simulation, re=True) # pylint: disable=protected-access
                 if ((step.superSys is None) and (self.superSys is not None)):
                     step.superSys = self.superSys
+            # self needs to be re-created with the new step, and whenever the step (or the original of a copy) is updated
+            original = step.superSys if isinstance(step, copyStep) else step
+            original._paramBoundBase__paramBound[self.name] = self # pylint: disable=protected-access
+            self._paramUpdated = True
+
+    def _removeSubSysExc(self, subSys, _exclude=[]): # pylint: disable=dangerous-default-value
+        _exclude = super()._removeSubSysExc(subSys, _exclude=_exclude)
+        self._paramUpdated = True
+        return _exclude
+
+    def resetSubSys(self):
+        super().resetSubSys()
+        self._paramUpdated = True
 
     def _puValues(self, step, vals):#pylint:disable=dangerous-default-value
         subSysList = list(self.subSys.values())
@@ -325,7 +325,9 @@ class qProtocol(genericProtocol):
                 vals.append(st._paramUpdated)
         else:
             for ind2, st in enumerate(subSysList[ind:]):
-                st._paramUpdated = vals[ind2]
+                if not isinstance(st, copyStep):
+                    # only for the step itself, the objects bound to it are not affected by this
+                    st._paramBoundBase__paramUpdated = vals[ind2]
         return vals
 
     def _defCreateUnitary(self, collapseOps = None, decayRates = None):
-- 
2.43.0


From de7dfd03ce759f42d4eb428e27b05dcf3dd8f49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:33 +0000
Subject: [PATCH 15/51] fix: a fixed step is created when it does not have a
 unitary yet, and again when it is no longer fixed

---
 src/quanguru/classes/QPro.py | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/src/quanguru/classes/QPro.py b/src/quanguru/classes/QPro.py
index ad962d5..85d8f9f 100644
--- a/src/quanguru/classes/QPro.py
+++ b/src/quanguru/classes/QPro.py
@@ -182,7 +182,7 @@ class genericProtocol(QSimComp): # pylint: disable = too-many-instance-attribute
 
     @fixed.setter
     def fixed(self, boolean):
-        self._genericProtocol__fixed = boolean # pylint: disable=assigning-non-slot
+        setAttr(self, '_genericProtocol__fixed', boolean)
 
     @QSimComp.superSys.setter # pylint: disable=no-member
     def superSys(self, supSys):
@@ -198,10 +198,8 @@ class genericProtocol(QSimComp): # pylint: disable = too-many-instance-attribute
         if self.superSys is not None:
             self.superSys._timeDependency() # pylint: disable=no-member
 
-        if self._paramUpdated:
-            if not self.fixed:
-                self._paramBoundBase__matrix = self.getUnitary(collapseOps, decayRates) # pylint: disable=assigning-non-slot
-        elif self._paramBoundBase__matrix is None: # pylint: disable=no-member
+        # a fixed step also needs to be created once
+        if ((self._paramUpdated and not self.fixed) or (self._paramBoundBase__matrix is None)): # pylint: disable=no-member
             self._paramBoundBase__matrix = self.getUnitary(collapseOps, decayRates) # pylint: disable=assigning-non-slot
         return self._paramBoundBase__matrix # pylint: disable=no-member
 
@@ -228,14 +226,8 @@ class genericProtocol(QSimComp): # pylint: disable = too-many-instance-attribute
         self._paramBoundBase__paramUpdated = False # pylint: disable=assigning-non-slot
 
     def _defGetUnitary(self, collapseOps = None, decayRates = None):
-        runCreate = False
-        if self._paramUpdated:
-            if not self.fixed:
-                runCreate = True
-        elif self._paramBoundBase__matrix is None: # pylint: disable=no-member
-            runCreate = True
-
-        if runCreate:
+        # a fixed step also needs to be created once
+        if ((self._paramUpdated and not self.fixed) or (self._paramBoundBase__matrix is None)): # pylint: disable=no-member
             lc = 1
             td = False
             if len(self.timeDependency.sweeps) > 0:
-- 
2.43.0


From d9fe00f014aca4bac946a43b2c1f5be6371e507e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:57 +0000
Subject: [PATCH 16/51] fix: a gate is re-created when its implementation or
 its systems change

---
 src/quanguru/classes/QPro.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/quanguru/classes/QPro.py b/src/quanguru/classes/QPro.py
index 85d8f9f..930834e 100644
--- a/src/quanguru/classes/QPro.py
+++ b/src/quanguru/classes/QPro.py
@@ -431,6 +431,7 @@ class Gate(genericProtocol):
         # FIXME this becomes 'fixed' unless the dimension is changed.
         #if self.implementation.lower() != 'instant':
         newSys._paramBoundBase__paramBound[self.name] = self
+        self._paramUpdated = True
         return newSys
 
     @system.setter
@@ -446,7 +447,7 @@ class Gate(genericProtocol):
 
     @implementation.setter
     def implementation(self, typeStr):
-        self._Gate__implementation = typeStr # pylint: disable=assigning-non-slot
+        setAttr(self, '_Gate__implementation', typeStr)
 
 class Update(updateBase):
     label = 'Update'
-- 
2.43.0


From e8a0ff3444655efc0f269b0c50a377fa8f3cff6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:57 +0000
Subject: [PATCH 17/51] fix: updates are undone in reverse order, per system,
 and also when the evaluation fails

---
 src/quanguru/classes/QPro.py | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/quanguru/classes/QPro.py b/src/quanguru/classes/QPro.py
index 930834e..6d99162 100644
--- a/src/quanguru/classes/QPro.py
+++ b/src/quanguru/classes/QPro.py
@@ -213,12 +213,17 @@ class genericProtocol(QSimComp): # pylint: disable = too-many-instance-attribute
         if self.superSys is not None:
             self.superSys._timeDependency() # pylint: disable=no-member
 
-        for update in self._genericProtocol__updates:
-            update.setup()
-        self._paramBoundBase__matrix = self._getUnitary(collapseOps, decayRates) # pylint: disable=no-member, assigning-non-slot
-        self._paramBoundBase__matrixHc = None # pylint: disable=assigning-non-slot
-        for update in self._genericProtocol__updates:
-            update.setback()
+        active = []
+        try:
+            for update in self._genericProtocol__updates:
+                update.setup()
+                active.append(update)
+            self._paramBoundBase__matrix = self._getUnitary(collapseOps, decayRates) # pylint: disable=no-member, assigning-non-slot
+            self._paramBoundBase__matrixHc = None # pylint: disable=assigning-non-slot
+        finally:
+            # in reverse order, because each update memorises the value left by the previous ones
+            for update in reversed(active):
+                update.setback()
         self._paramUpdatedToFalse()
         return self._paramBoundBase__matrix # pylint: disable=no-member
 
@@ -458,7 +463,7 @@ class Update(updateBase):
     #: (**class attribute**) number of total instances = _internalInstances + _externalInstances
     _instances: int = 0
 
-    __slots__ = ['value', '__memoryValue', 'setup', 'setback']
+    __slots__ = ['value', '__memoryValue', '__memory', 'setup', 'setback']
 
     def __init__(self, **kwargs):
         super().__init__(_internal=kwargs.pop('_internal', False))
@@ -466,6 +471,8 @@ class Update(updateBase):
         self.setup = self._setup
         self.setback = self._setback
         self.__memoryValue = None
+        #: the systems and the values they had before the update
+        self.__memory = []
         self._named__setKwargs(**kwargs) # pylint: disable=no-member
 
     @property
@@ -493,12 +500,14 @@ class Update(updateBase):
         self._updateBase__function = func # pylint: disable=assigning-non-slot
 
     def _setup(self):
-        self.memoryValue = getattr(list(self.subSys.values())[0], self.key)
+        self.__memory = [(sys, getattr(sys, self.key)) for sys in self.subSys.values()] # pylint: disable=assigning-non-slot
+        self.memoryValue = self.__memory[0][1]
         if self._updateBase__function is None: # pylint: disable=no-member
             super()._runUpdate(self.value)
         else:
             self._updateBase__function(self) # pylint: disable=no-member
 
     def _setback(self):
-        if self.value != self.memoryValue:
-            super()._runUpdate(self.memoryValue)
+        for sys, val in self.__memory:
+            if getattr(sys, self.key) is not val:
+                setattr(sys, self.key, val)
-- 
2.43.0


From b5901451b4539fc202cae2cc8fa89d19e1122839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:57 +0000
Subject: [PATCH 18/51] fix: time parameters keep notifying after one of them
 is set, set values stay, new bounds are noticed

---
 src/quanguru/classes/QSimBase.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/quanguru/classes/QSimBase.py b/src/quanguru/classes/QSimBase.py
index 696a0ad..afe5aa3 100644
--- a/src/quanguru/classes/QSimBase.py
+++ b/src/quanguru/classes/QSimBase.py
@@ -49,17 +49,13 @@ def setAttr(obj: paramBoundBase, attrStr: str, val: Any) -> None:
 def setAttrParam(obj: paramBoundBase, attrStr: str, val: Any) -> None:
     r"""
     a customized setattr that changes the value stored as the ``value`` attribute of a _parameter object.
-    The value (and _paramUpdated) is changed, if the new value is different than the old/existing. In any case, it
-    breaks existing timeBase bounds (bound between :class:`~Simulation` instances).
+    _paramUpdated is changed, if the new value is different than the old/existing. In any case, it breaks the bound of
+    this parameter, but obj is still informed about the changes of the parameters that are still bound.
     Especially useful for multi parameter sweeps (see :class:`~_sweep`).
     """
     oldVal = getattr(obj, attrStr).value
-    if obj._timeBase__bound is not None:
-        obj._timeBase__bound._paramBoundBase__paramBound.pop(obj.name, None)
-        obj._timeBase__bound = None
-
+    getattr(obj, attrStr).value = val
     if val != oldVal:
-        getattr(obj, attrStr).value = val
         setattr(obj, '_paramUpdated', True)
 
 class _parameter: # pylint: disable=too-few-public-methods
@@ -496,6 +492,8 @@ class timeBase(stateBase):
                         getattr(self, key)._bound = getattr(other, key) # pylint: disable=protected-access
                 except AttributeError:
                     print('not bounding', key)
+            # values obtained from the new bound might be different
+            self._paramUpdated = True
 
     def delMatrices(self, _exclude=[]): # pylint: disable=dangerous-default-value
         if self not in _exclude:
-- 
2.43.0


From 958d59cb4136282b64cd1816c83df5a5463cd3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:08 +0000
Subject: [PATCH 19/51] fix: a removed step does not notify its previous
 protocol

---
 src/quanguru/classes/QPro.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/quanguru/classes/QPro.py b/src/quanguru/classes/QPro.py
index 6d99162..081a2b3 100644
--- a/src/quanguru/classes/QPro.py
+++ b/src/quanguru/classes/QPro.py
@@ -301,18 +301,29 @@ class qProtocol(genericProtocol):
                 if ((step.superSys is None) and (self.superSys is not None)):
                     step.superSys = self.superSys
             # self needs to be re-created with the new step, and whenever the step (or the original of a copy) is updated
-            original = step.superSys if isinstance(step, copyStep) else step
-            original._paramBoundBase__paramBound[self.name] = self # pylint: disable=protected-access
+            self._originalStep(step)._paramBoundBase__paramBound[self.name] = self # pylint: disable=protected-access
             self._paramUpdated = True
 
-    def _removeSubSysExc(self, subSys, _exclude=[]): # pylint: disable=dangerous-default-value
-        _exclude = super()._removeSubSysExc(subSys, _exclude=_exclude)
+    @staticmethod
+    def _originalStep(step):
+        return step.superSys if isinstance(step, copyStep) else step
+
+    def _stepsRemoved(self, steps):
+        current = [self._originalStep(step) for step in self.subSys.values()]
+        for original in (self._originalStep(step) for step in steps):
+            if not any(original is cur for cur in current):
+                original._paramBoundBase__paramBound.pop(self.name, None) # pylint: disable=protected-access
         self._paramUpdated = True
-        return _exclude
+
+    def _removeSubSysExc(self, subSys, _exclude=[]): # pylint: disable=dangerous-default-value
+        steps = list(self.subSys.values())
+        super()._removeSubSysExc(subSys, _exclude=_exclude)
+        self._stepsRemoved(steps)
 
     def resetSubSys(self):
+        steps = list(self.subSys.values())
         super().resetSubSys()
-        self._paramUpdated = True
+        self._stepsRemoved(steps)
 
     def _puValues(self, step, vals):#pylint:disable=dangerous-default-value
         subSysList = list(self.subSys.values())
-- 
2.43.0


From e9cb4d6800834c7fdc856041e52183d597a53245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:08 +0000
Subject: [PATCH 20/51] fix: adding an update or changing its value re-creates
 the step

---
 src/quanguru/classes/QPro.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/quanguru/classes/QPro.py b/src/quanguru/classes/QPro.py
index 081a2b3..c018695 100644
--- a/src/quanguru/classes/QPro.py
+++ b/src/quanguru/classes/QPro.py
@@ -31,7 +31,7 @@ r"""
 from ..QuantumToolbox import evolution as lio #pylint: disable=relative-beyond-top-level
 from ..QuantumToolbox.operators import identity #pylint: disable=relative-beyond-top-level
 
-from .base import qBase, addDecorator
+from .base import qBase, addDecorator, aliasDict
 from .baseClasses import updateBase
 from .QSimBase import _parameter, setAttr
 from .QSimComp import QSimComp
@@ -147,6 +147,8 @@ class genericProtocol(QSimComp): # pylint: disable = too-many-instance-attribute
     def addUpdate(self, *args):
         for update in args:
             self._genericProtocol__updates.append(update) # pylint: disable=no-member
+            update._Update__steps[self.name] = self # pylint: disable=protected-access
+            self._paramUpdated = True
 
     @property
     def updates(self):
@@ -474,11 +476,13 @@ class Update(updateBase):
     #: (**class attribute**) number of total instances = _internalInstances + _externalInstances
     _instances: int = 0
 
-    __slots__ = ['value', '__memoryValue', '__memory', 'setup', 'setback']
+    __slots__ = ['__value', '__memoryValue', '__memory', '__steps', 'setup', 'setback']
 
     def __init__(self, **kwargs):
         super().__init__(_internal=kwargs.pop('_internal', False))
-        self.value = None
+        self.__value = None
+        #: the protocols/steps that has this update, which need to be re-created when the value is changed
+        self.__steps = aliasDict()
         self.setup = self._setup
         self.setback = self._setback
         self.__memoryValue = None
@@ -486,6 +490,16 @@ class Update(updateBase):
         self.__memory = []
         self._named__setKwargs(**kwargs) # pylint: disable=no-member
 
+    @property
+    def value(self):
+        return self._Update__value
+
+    @value.setter
+    def value(self, val):
+        self._Update__value = val # pylint: disable=assigning-non-slot
+        for step in self._Update__steps.values():
+            step._paramUpdated = True # pylint: disable=protected-access
+
     @property
     def memoryValue(self):
         return self._Update__memoryValue
-- 
2.43.0


From 8ba5d859772b6b7464a9c74b0367f8735460d289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:42 +0000
Subject: [PATCH 21/51] fix: binding a simulation keeps the time parameters
 that are explicitly set on it

---
 src/quanguru/classes/QSimBase.py | 22 ++--------------------
 1 file changed, 2 insertions(+), 20 deletions(-)

diff --git a/src/quanguru/classes/QSimBase.py b/src/quanguru/classes/QSimBase.py
index afe5aa3..865de0e 100644
--- a/src/quanguru/classes/QSimBase.py
+++ b/src/quanguru/classes/QSimBase.py
@@ -444,10 +444,7 @@ class timeBase(stateBase):
         creates such a bound between two ``Simulation`` objects, and it is used in appropriate places of the library.
         Such a bound is broken or not created at all, if a parameter is explicitly assigned for a protocol or system.
 
-        - if self _parameter attributes have bound False (meaning set a value before)
-
-            - copies the value from other, if value in other is not None.
-            - is any self _parameter bound is None, and the same value in other is not, sets it and breaks the loop
+        - keeps the values of the _parameter attributes with bound False (meaning set a value before), unless ``re=True``
 
         - tries bounding if bound is None
 
@@ -467,25 +464,10 @@ class timeBase(stateBase):
             appropriately be reflected to the others.
         """
 
-        if self not in self._boundTree(osys=other): #pylint: disable=too-many-nested-blocks
+        if self not in self._boundTree(osys=other):
             other._paramBoundBase__paramBound[self.name] = self
             self._timeBase__bound = other # pylint: disable=assigning-non-slot
             keys = ['_timeBase__stepSize', '_timeBase__totalTime', '_timeBase__stepCount']
-            keysProp = ['stepSize', 'totalTime', 'stepCount']
-            bounding = True
-            for ind, key in enumerate(keys):
-                if getattr(self, key)._bound is False: # pylint: disable=protected-access
-                    if getattr(other, key)._value is not None: # pylint: disable=protected-access
-                        setattr(self, keysProp[ind], getattr(self, key)._value) # pylint: disable=protected-access
-
-                    if bounding:
-                        for i, k in enumerate(keys):
-                            if ((getattr(self, k)._bound is None) and # pylint: disable=protected-access # noqa: W504
-                                    (getattr(other, k)._value is not None)): # pylint: disable=protected-access
-                                setattr(self, keysProp[i], getattr(other, k)._value) # pylint: disable=protected-access
-                                break
-                        bounding = False
-
             for key in (*keys, *params, '_timeBase__samples'):
                 try:
                     if ((getattr(self, key)._bound is None) or re): # pylint: disable=protected-access
-- 
2.43.0


From cb5694edf1d8e57aacc24c15861d477f606888c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:43 +0000
Subject: [PATCH 22/51] fix: the step size follows when the total time is set
 after the step count

---
 src/quanguru/classes/QSimBase.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/quanguru/classes/QSimBase.py b/src/quanguru/classes/QSimBase.py
index 865de0e..4c368b3 100644
--- a/src/quanguru/classes/QSimBase.py
+++ b/src/quanguru/classes/QSimBase.py
@@ -345,6 +345,8 @@ class timeBase(stateBase):
         setAttrParam(self, '_timeBase__totalTime', fTime)
         if self.stepSize is not None:
             self._timeBase__stepCount.value = int((fTime//self.stepSize) + 1) # pylint: disable=assigning-non-slot
+        elif self._timeBase__stepCount.value is not None:
+            self._timeBase__stepSize.value = fTime/self._timeBase__stepCount.value # pylint: disable=assigning-non-slot
 
     @property
     def stepCount(self):
-- 
2.43.0


From 3a6c09046aefc219062d346a89442692a2463a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:43 +0000
Subject: [PATCH 23/51] fix: removing the last sweep of a simulation also
 resets the size of its sweep grid

---
 src/quanguru/classes/QSweep.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/quanguru/classes/QSweep.py b/src/quanguru/classes/QSweep.py
index 8c1fcd6..0d23795 100644
--- a/src/quanguru/classes/QSweep.py
+++ b/src/quanguru/classes/QSweep.py
@@ -315,8 +315,9 @@ class Sweep(qBase):
         attributes/properties. The reason for this a bit argued in :meth:`indMultip`, but it is basically to ensure that
         any changes to ``sweepList/s`` or ``combinatorial/s`` are accurately used/reflected (especially on re-runs).
         """
+        self._Sweep__inds = [] # pylint: disable=assigning-non-slot
+        self._Sweep__indMultip = 1 # pylint: disable=assigning-non-slot
         if len(self.subSys) > 0:
-            self._Sweep__inds = [] # pylint: disable=assigning-non-slot
             for indx, sweep in enumerate(self.subSys.values()):
                 if ((sweep.combinatorial is True) or (indx == 0)):
                     self._Sweep__inds.insert(0, len(sweep.sweepList))
-- 
2.43.0


From d27d2d52051994b85be2103a62528098b0f7cb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:43 +0000
Subject: [PATCH 24/51] fix: a first sweep that is combinatorial uses the first
 index of the grid

---
 src/quanguru/classes/QSweep.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/quanguru/classes/QSweep.py b/src/quanguru/classes/QSweep.py
index 0d23795..3063e9c 100644
--- a/src/quanguru/classes/QSweep.py
+++ b/src/quanguru/classes/QSweep.py
@@ -332,8 +332,9 @@ class Sweep(qBase):
         ``subSys`` one after the other. Also, for nested Sweeps, the indList should be a properly nested list.
         """
         indx = 0
-        for sweep in self.sweeps.values():
-            if sweep.combinatorial is True:
+        for num, sweep in enumerate(self.sweeps.values()):
+            # the first sweep has the first index, combinatorial or not
+            if (sweep.combinatorial is True) and (num > 0):
                 indx += 1
             sweep.runSweep(indList[indx])
 
-- 
2.43.0


From ffcc1f34d998b809bd0d7f31a3a5e03bed621fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:43 +0000
Subject: [PATCH 25/51] fix: the values of a sweep follow changes of sweepMin,
 sweepMax, sweepStep and logSweep

---
 src/quanguru/classes/QSweep.py       | 12 ++++++------
 src/quanguru/classes/modularSweep.py |  2 +-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/quanguru/classes/QSweep.py b/src/quanguru/classes/QSweep.py
index 3063e9c..391aefb 100644
--- a/src/quanguru/classes/QSweep.py
+++ b/src/quanguru/classes/QSweep.py
@@ -125,16 +125,16 @@ class _sweep(updateBase): # pylint: disable=too-many-instance-attributes
     def sweepList(self):
         r"""
         gets and sets :py:attr:`~_sweepList`. Setter requires a list input, if it is not set, getter tries creating the
-        list (and setting :py:attr:`~_sweepList`) using sweepMin-sweepMax-sweepStep attributes.
+        list using the current sweepMin-sweepMax-sweepStep attributes.
         """
         if self._sweepList is None:
             try:
                 if self.logSweep is False:
-                    self._sweepList = arange(self.sweepMin, self.sweepMax + self.sweepStep, # pylint: disable=no-member
-                                             self.sweepStep) # pylint: disable=no-member
-                elif self.logSweep is True:
-                    self._sweepList = logspace(self.sweepMin, self.sweepMax,
-                                               num=self.sweepStep, base=10.0) # pylint: disable=no-member
+                    return arange(self.sweepMin, self.sweepMax + self.sweepStep, # pylint: disable=no-member
+                                  self.sweepStep) # pylint: disable=no-member
+                if self.logSweep is True:
+                    return logspace(self.sweepMin, self.sweepMax,
+                                    num=self.sweepStep, base=10.0) # pylint: disable=no-member
             except: #pylint:disable=bare-except # noqa: E722
                 pass
         return self._sweepList
diff --git a/src/quanguru/classes/modularSweep.py b/src/quanguru/classes/modularSweep.py
index 6cc52d0..f66d769 100644
--- a/src/quanguru/classes/modularSweep.py
+++ b/src/quanguru/classes/modularSweep.py
@@ -98,7 +98,7 @@ def timeDependent(qSim):
     td = False
     if len(qSim.timeDependency.sweeps) > 0:
         td = True
-        if list(qSim.timeDependency.sweeps.values())[0]._sweepList is not None: #pylint: disable=protected-access
+        if list(qSim.timeDependency.sweeps.values())[0].sweepList is not None: #pylint: disable=protected-access
             qSim.timeDependency.prepare()
         else:
             qSim.timeDependency._Sweep__inds = [qSim.stepCount] #pylint: disable=protected-access
-- 
2.43.0


From 26088b39240468f7963b61a34d0e5aa00499ff31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:43 +0000
Subject: [PATCH 26/51] fix: linearly spaced sweep values do not exceed
 sweepMax

---
 src/quanguru/classes/QSweep.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/quanguru/classes/QSweep.py b/src/quanguru/classes/QSweep.py
index 391aefb..f77727f 100644
--- a/src/quanguru/classes/QSweep.py
+++ b/src/quanguru/classes/QSweep.py
@@ -130,7 +130,8 @@ class _sweep(updateBase): # pylint: disable=too-many-instance-attributes
         if self._sweepList is None:
             try:
                 if self.logSweep is False:
-                    return arange(self.sweepMin, self.sweepMax + self.sweepStep, # pylint: disable=no-member
+                    return arange(self.sweepMin, # the tolerance keeps sweepMax itself despite rounding
+                                  self.sweepMax + 1e-6*self.sweepStep, # pylint: disable=no-member
                                   self.sweepStep) # pylint: disable=no-member
                 if self.logSweep is True:
                     return logspace(self.sweepMin, self.sweepMax,
-- 
2.43.0


From fbdf9731ac0657baf7fbecc123c884981b3817d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:43 +0000
Subject: [PATCH 27/51] fix: every time evolution starts from time zero

---
 src/quanguru/classes/modularSweep.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/quanguru/classes/modularSweep.py b/src/quanguru/classes/modularSweep.py
index f66d769..50ff3c3 100644
--- a/src/quanguru/classes/modularSweep.py
+++ b/src/quanguru/classes/modularSweep.py
@@ -76,6 +76,7 @@ def _runSweepAndPrep(qSim, ind):
             protocol.currentState = protocol.initialState if not protocol._isOpen else densityMatrix(protocol.initialState)# pylint: disable=protected-access,line-too-long
 
     qSim.qRes._resetLast() # pylint: disable=protected-access
+    qSim._Simulation__index = -1 # pylint: disable=protected-access
     qSim._computeBase__calculate("pre")
     for protocol in qSim.subSys.keys():
         protocol._computeBase__calculate("pre") # pylint: disable=protected-access
-- 
2.43.0


From 04990d4e6fb024eea10f107ae66bc70305b6dbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:27 +0000
Subject: [PATCH 28/51] fix: removing sweeps works when only some of the sweeps
 involve the system, and by the sweep itself

---
 src/quanguru/classes/QSim.py   | 12 +++++++++---
 src/quanguru/classes/QSweep.py |  3 ++-
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/quanguru/classes/QSim.py b/src/quanguru/classes/QSim.py
index 3dd482f..2e2d0f3 100644
--- a/src/quanguru/classes/QSim.py
+++ b/src/quanguru/classes/QSim.py
@@ -28,7 +28,7 @@ import multiprocessing
 
 from .base import _recurseIfList, named
 from .QSimBase import timeBase
-from .QSweep import Sweep
+from .QSweep import Sweep, _sweep
 from .modularSweep import runSimulation
 from .modularSweep import timeEvolBase
 # pylint: disable = cyclic-import
@@ -243,8 +243,14 @@ class Simulation(timeBase):
         r"""
         Remove a sweep from the simulation.
         """
-        self.Sweep.removeSweep(system)
-        self.timeDependency.removeSweep(system)
+        system = self.getByNameOrAlias(system)
+        if system.name in self.timeDependency.sweeps:
+            self.timeDependency.removeSweep(system)
+        elif isinstance(system, _sweep):
+            self.Sweep.removeSweep(system)
+        else:
+            self.Sweep.removeSweep(system)
+            self.timeDependency.removeSweep(system)
         if ((isinstance(system, Simulation)) and (system is not self)):
             system.removeSweep(system)
 
diff --git a/src/quanguru/classes/QSweep.py b/src/quanguru/classes/QSweep.py
index f77727f..a967b07 100644
--- a/src/quanguru/classes/QSweep.py
+++ b/src/quanguru/classes/QSweep.py
@@ -257,10 +257,11 @@ class Sweep(qBase):
         Else, it calls the :meth:`removeSubSys <quanguru.classes.base.qBase.removeSubSys>` on every ``_sweep`` in its
         ``subSys`` dictionary (since ``systems`` are stored in ``subSys`` dictionary of ``_sweep`` objects).
         """
+        sys = self.getByNameOrAlias(sys)
         if isinstance(sys, _sweep):
             super()._removeSubSysExc(sys, _exclude=[])
         else:
-            sweeps = list(self.subSys.values())
+            sweeps = [sweep for sweep in self.subSys.values() if sys.name in sweep.subSys]
             for sweep in sweeps:
                 sweep._removeSubSysExc(sys, _exclude=[]) #pylint:disable=protected-access
                 if len(sweep.subSys) == 0:
-- 
2.43.0


From f6c17d17753991e7c35f9d0cfaee8226451fa32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:27 +0000
Subject: [PATCH 29/51] fix: a number of samples of a step that is set by a
 sweep is taken into account

---
 src/quanguru/classes/modularSweep.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/quanguru/classes/modularSweep.py b/src/quanguru/classes/modularSweep.py
index 50ff3c3..c836047 100644
--- a/src/quanguru/classes/modularSweep.py
+++ b/src/quanguru/classes/modularSweep.py
@@ -37,12 +37,6 @@ from functools import partial
 from ..QuantumToolbox import densityMatrix, mat2Vec, vec2Mat
 
 def runSimulation(qSim, p):
-    # NOTE determine if more samples of a protocol step are requested.
-    for protocol, _ in qSim.subSys.items():
-        if hasattr(protocol, 'steps'):
-            if any((step.simulation.samples > 1 for step in protocol.steps.values())):
-                protocol.stepSample = True
-
     if p is None:
         nonParalEvol(qSim)
     else:
@@ -71,6 +65,12 @@ def _runSweepAndPrep(qSim, ind):
     if len(qSim.Sweep.inds) > 0:
         qSim.Sweep.runSweep(qSim.Sweep._indicesForSweep(ind, *qSim.Sweep.inds))
 
+    # NOTE determine if more samples of a protocol step are requested. The number of samples might be swept.
+    for protocol, _ in qSim.subSys.items():
+        if hasattr(protocol, 'steps'):
+            if any((step.simulation.samples > 1 for step in protocol.steps.values())):
+                protocol.stepSample = True
+
     for protocol in qSim.subSys.keys():
         if callable(qSim.evolFunc):
             protocol.currentState = protocol.initialState if not protocol._isOpen else densityMatrix(protocol.initialState)# pylint: disable=protected-access,line-too-long
-- 
2.43.0


From a27bdc37c7dc2fcb995bd33b9626a49466452889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:23 +0000
Subject: [PATCH 30/51] fix: a system added to another simulation follows that
 simulation

---
 src/quanguru/classes/QSimBase.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/quanguru/classes/QSimBase.py b/src/quanguru/classes/QSimBase.py
index 4c368b3..398c973 100644
--- a/src/quanguru/classes/QSimBase.py
+++ b/src/quanguru/classes/QSimBase.py
@@ -468,11 +468,15 @@ class timeBase(stateBase):
 
         if self not in self._boundTree(osys=other):
             other._paramBoundBase__paramBound[self.name] = self
+            # parameters that follow the previous bound (if any) are not set on self, so they follow the new one
+            previous = self._timeBase__bound
             self._timeBase__bound = other # pylint: disable=assigning-non-slot
             keys = ['_timeBase__stepSize', '_timeBase__totalTime', '_timeBase__stepCount']
             for key in (*keys, *params, '_timeBase__samples'):
                 try:
-                    if ((getattr(self, key)._bound is None) or re): # pylint: disable=protected-access
+                    bound = getattr(self, key)._bound # pylint: disable=protected-access
+                    if ((bound is None) or re or
+                        ((previous is not None) and (bound is getattr(previous, key)))):
                         getattr(self, key)._bound = getattr(other, key) # pylint: disable=protected-access
                 except AttributeError:
                     print('not bounding', key)
-- 
2.43.0


From 5d8b723c0455dbb2a58dd62b25cfbb7318a7d179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:23 +0000
Subject: [PATCH 31/51] fix: a protocol without a system is added for the given
 system

---
 src/quanguru/classes/QSim.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/quanguru/classes/QSim.py b/src/quanguru/classes/QSim.py
index 2e2d0f3..56831b2 100644
--- a/src/quanguru/classes/QSim.py
+++ b/src/quanguru/classes/QSim.py
@@ -276,7 +276,8 @@ class Simulation(timeBase):
         if isinstance(protocol, list):
             # should protocolRemove be a list ?
             for p in protocol:
-                protocol = self.addProtocol(protocol=p, system=p.superSys, protocolRemove=protocolRemove)
+                protocol = self.addProtocol(protocol=p, system=system if p.superSys is None else p.superSys,
+                                            protocolRemove=protocolRemove)
         elif system is None:
             if isinstance(protocol, qSysClass):
                 if isinstance(protocol.superSys, qSysClass):
@@ -285,7 +286,9 @@ class Simulation(timeBase):
                     raise TypeError('?')
             else:
                 raise TypeError('?')
-        elif isinstance(protocol.superSys, qSysClass):
+        else:
+            if protocol.superSys is None:
+                protocol.superSys = system
             if system is protocol.superSys:
                 self.addQSystems(subS=system, Protocol=protocol)
                 self.removeProtocol(protocolRemove)
-- 
2.43.0


From e3c498ea99a75ab707f16250058dcac5743a0cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:23 +0000
Subject: [PATCH 32/51] fix: adding a system again by its name or alias keeps
 its place in the simulation

---
 src/quanguru/classes/QSim.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/quanguru/classes/QSim.py b/src/quanguru/classes/QSim.py
index 56831b2..531fe6a 100644
--- a/src/quanguru/classes/QSim.py
+++ b/src/quanguru/classes/QSim.py
@@ -26,7 +26,7 @@ import sys
 import platform
 import multiprocessing
 
-from .base import _recurseIfList, named
+from .base import _recurseIfList, named, aliasClass
 from .QSimBase import timeBase
 from .QSweep import Sweep, _sweep
 from .modularSweep import runSimulation
@@ -194,6 +194,8 @@ class Simulation(timeBase):
             for qsys in subS:
                 self.addQSystems(qsys, **kwargs)
         else:
+            if isinstance(subS, (str, aliasClass)):
+                subS = self.getByNameOrAlias(subS)
             # this horrible solution needs to be fixed!
             if subS not in self._qBase__subSys.values(): # pylint: disable=no-member
                 subS = super().addSubSys(subS, **kwargs)
-- 
2.43.0


From 47249f4e697e923e701f9ce289363a1ed8078733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:23 +0000
Subject: [PATCH 33/51] fix: systems and protocols are removed from a
 simulation whatever their keys are

---
 src/quanguru/classes/QSim.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/quanguru/classes/QSim.py b/src/quanguru/classes/QSim.py
index 531fe6a..aebf1d4 100644
--- a/src/quanguru/classes/QSim.py
+++ b/src/quanguru/classes/QSim.py
@@ -234,10 +234,12 @@ class Simulation(timeBase):
         r"""
         Remove a quantum system and corresponding sweeps from the simulation.
         """
-        #for key, subSys in self._qBase__subSys.items(): # pylint: disable=no-member
-        #    if ((subSys is subS) or (subSys.name == subS)):
-        super()._removeSubSysExc(subS, _exclude=[]) # pylint: disable=no-member
-        #print(subS.name + ' and its protocol ' + key.name + ' is removed from qSystems of ' + self.name)
+        subS = self.getByNameOrAlias(subS)
+        # the system can be in the simulation more than once (with different protocols)
+        keys = [key for key, qSys in self._qBase__subSys.items() if qSys is subS] # pylint: disable=no-member
+        if len(keys) == 0:
+            raise KeyError(subS.name)
+        self.removeProtocol(keys)
         self.removeSweep([subS, subS.simulation, subS._freeEvol, subS._freeEvol.simulation])
 
     @_recurseIfList
@@ -261,13 +263,16 @@ class Simulation(timeBase):
         r"""
         Remove a protocoal and corresponding sweeps from the simulation.
         """
-        # FIXME what if freeEvol case, protocol then corresponds to qsys.name before simulation run
-        #  or a freeEvol obj after run
-        qsys = self._qBase__subSys.pop(Protocol, None) # pylint: disable=no-member
-        if qsys is not None:
-            self.removeSweep([Protocol, Protocol.simulation])
-            if qsys not in self.qSystems:
-                self.removeSweep(qsys)
+        # for the freeEvol case, the key corresponds to qsys.name before simulation run or a freeEvol obj after run
+        if isinstance(Protocol, (str, aliasClass)):
+            Protocol = self.getByNameOrAlias(Protocol)
+        for key, qsys in list(self._qBase__subSys.items()): # pylint: disable=no-member
+            evol = key if isinstance(key, named) else qsys._freeEvol # pylint: disable=protected-access
+            if Protocol is evol or (Protocol is qsys and evol is qsys._freeEvol): # pylint: disable=protected-access
+                self._qBase__subSys.pop(key) # pylint: disable=no-member
+                self.removeSweep([evol, evol.simulation])
+                if qsys not in self.qSystems:
+                    self.removeSweep(qsys)
 
     def addProtocol(self, protocol=None, system=None, protocolRemove=None):
         r"""
-- 
2.43.0


From b99c2f6c549fe364b3c277a1c3326d0373047fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:55 +0000
Subject: [PATCH 34/51] fix: the initial state of a composite system follows
 its (nested) sub-systems and their removal

---
 src/quanguru/classes/QSystem.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/quanguru/classes/QSystem.py b/src/quanguru/classes/QSystem.py
index fa3bf9e..55cfa3e 100644
--- a/src/quanguru/classes/QSystem.py
+++ b/src/quanguru/classes/QSystem.py
@@ -179,7 +179,7 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
                                                    ' handle initial state inputs differently, so you need to set other'+
                                                    f' relevant parameters to determine the type of {self.name}')
         if self.superSys is not None:
-            self.superSys.simulation._stateBase__initialState.value = None # breaks the bound to the other _parameter
+            self.superSys._resetInitialState()
 
         if self._isComposite:
             if not isinstance(inp, (ndarray, spmatrix)):
@@ -190,6 +190,18 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
                     qsys.initialState = inp[ind]
         self.simulation.initialState = inp # pylint: disable=no-member, protected-access
 
+    def _resetInitialState(self):
+        r"""
+        Used internally when an initial state input or the structure below self changes, so that the initial states of
+        self and the systems that contain self are re-created from the inputs of their sub-systems (a list given to a
+        composite system is also set to its sub-systems).
+        """
+        if isinstance(self.simulation._initialStateInput, (list, tuple)):
+            self.simulation._initialStateInput = None
+        self.simulation._stateBase__initialState.value = None # breaks the bound to the other _parameter
+        if self.superSys is not None:
+            self.superSys._resetInitialState()
+
     @property
     def _subSysHamiltonian(self):
         r"""
@@ -416,6 +428,7 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
 
         if subSys not in self.subSys.values():
             self._QuantumSystem__addSub(subSys)
+            self._resetInitialState()
         subSys.superSys = self
         self._paramUpdated = True
         subSys._paramBoundBase__paramBound[self.name] = self # pylint: disable=protected-access
@@ -495,6 +508,7 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
             subSys.delMatrices(_exclude=[])
             subSys._paramBoundBase__paramBound.pop(self.name, None) # pylint: disable=protected-access
             _exclude.append(subSys)
+            self._resetInitialState()
             supSys = self.superSys
             while supSys is not None:
                 for ter in list(supSys.terms.values()):
-- 
2.43.0


From 28550210d0d34c3788215bc6bb73b60a89131b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:19 +0000
Subject: [PATCH 35/51] fix: setting an initial state does not change the
 inputs of other systems, and an invalid input changes nothing

---
 src/quanguru/classes/QPro.py     |  3 +--
 src/quanguru/classes/QSimBase.py | 16 ++++++++--------
 src/quanguru/classes/QSystem.py  | 19 +++++++++----------
 3 files changed, 18 insertions(+), 20 deletions(-)

diff --git a/src/quanguru/classes/QPro.py b/src/quanguru/classes/QPro.py
index c018695..5dcdfde 100644
--- a/src/quanguru/classes/QPro.py
+++ b/src/quanguru/classes/QPro.py
@@ -136,8 +136,7 @@ class genericProtocol(QSimComp): # pylint: disable = too-many-instance-attribute
 
     @QSimComp.initialState.setter # pylint: disable=no-member
     def initialState(self, inp):
-        self.simulation._initialStateInput = inp # pylint: disable=protected-access
-        self.simulation._stateBase__initialState.value = self.superSys._createState(inp) # pylint:disable=W0212,E1101
+        self.simulation.initialState = inp
 
     def createUpdate(self, **kwargs):
         update = Update(**kwargs)
diff --git a/src/quanguru/classes/QSimBase.py b/src/quanguru/classes/QSimBase.py
index 398c973..cf48ccd 100644
--- a/src/quanguru/classes/QSimBase.py
+++ b/src/quanguru/classes/QSimBase.py
@@ -219,9 +219,10 @@ class stateBase(computeBase):
 
     @initialState.setter # pylint: disable=no-member
     def initialState(self, inp):
+        # created first, so that an invalid input raises an error before changing anything
+        initialState = self.initialStateSystem._createState(inp, self._getMaxInput(inp)) # pylint: disable=protected-access, no-member
         self._initialStateInput = inp # pylint: disable=no-member
-        initSys = self.initialStateSystem
-        self._stateBase__initialState.value = initSys._createState(inp, self._maxInput) # pylint: disable=protected-access, no-member, line-too-long # noqa: E501
+        self._stateBase__initialState.value = initialState # pylint: disable=no-member
 
     @property
     def _initialStateInput(self):
@@ -232,10 +233,11 @@ class stateBase(computeBase):
 
     @_initialStateInput.setter
     def _initialStateInput(self, inp):
-        self._setGetMaxInput(inp)
+        self._maxInput = self._getMaxInput(inp)
         self._stateBase__initialStateInput.value = inp
 
-    def _setGetMaxInput(self, inps):
+    @staticmethod
+    def _getMaxInput(inps):
         if isinstance(inps, (int, integer)) or (inps is None):
             inps = [inps]
         elif isinstance(inps, (list, tuple)):
@@ -248,10 +250,8 @@ class stateBase(computeBase):
             raise TypeError(f"Initial state input does not support type {type(inps)}")
 
         if all(isinstance(i, (int, integer)) for i in inps):
-            self._maxInput = max(inps)
-        else:
-            self._maxInput = 1
-        return self._maxInput
+            return max(inps)
+        return 1
 
     def getResultByNameOrAlias(self, name):
         r"""
diff --git a/src/quanguru/classes/QSystem.py b/src/quanguru/classes/QSystem.py
index 55cfa3e..4cb6732 100644
--- a/src/quanguru/classes/QSystem.py
+++ b/src/quanguru/classes/QSystem.py
@@ -157,7 +157,10 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
         """
         if self._isComposite:
             inp = [qsys._initialStateInput for qsys in self.subSys.values()] if inp is None else inp
-            subSysStates = [qsys._createInitialState(inp[ind], qsys.simulation._setGetMaxInput(inp[ind])) for ind, qsys in enumerate(self.subSys.values())]  # pylint: disable=protected-access,line-too-long
+            checkCorType(inp, (list, tuple), 'Composite state initial state input')
+            checkVal(len(inp), len(self.subSys), f'Number of inputs ({len(inp)}) to initial state should be the'+
+                                                 f' same as number of sub-system ({len(self.subSys)}) of {self.name}')
+            subSysStates = [qsys._createInitialState(inp[ind], qsys.simulation._getMaxInput(inp[ind])) for ind, qsys in enumerate(self.subSys.values())]  # pylint: disable=protected-access,line-too-long
             initialState = tensorProd(*subSysStates) if not any(inst is None for inst in subSysStates) else None
         else:
             checkNotVal(inp, None, self.name + ' is not given an initial state')
@@ -178,18 +181,14 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
         checkNotVal(self._QuantumSystem__compSys,None,f'Type of {self.name} is ambiguous. Single and composite systems'+
                                                    ' handle initial state inputs differently, so you need to set other'+
                                                    f' relevant parameters to determine the type of {self.name}')
+        if self._isComposite and not isinstance(inp, (ndarray, spmatrix)):
+            self._createInitialState(inp, 1) # raises an error, if any of the inputs is invalid, before setting them
+            for ind, qsys in enumerate(self.subSys.values()):
+                qsys.initialState = inp[ind]
+        self.simulation.initialState = inp # pylint: disable=no-member, protected-access
         if self.superSys is not None:
             self.superSys._resetInitialState()
 
-        if self._isComposite:
-            if not isinstance(inp, (ndarray, spmatrix)):
-                checkCorType(inp, (list, tuple), 'Composite state initial state input')
-                checkVal(len(inp), len(self.subSys),f'Number of inputs ({len(inp)}) to initial state should be the'+
-                                                   f' same as number of sub-system ({len(self.subSys)}) of {self.name}')
-                for ind, qsys in enumerate(self.subSys.values()):
-                    qsys.initialState = inp[ind]
-        self.simulation.initialState = inp # pylint: disable=no-member, protected-access
-
     def _resetInitialState(self):
         r"""
         Used internally when an initial state input or the structure below self changes, so that the initial states of
-- 
2.43.0


From dc36a79af76babb2083b9774aa67afc96106a559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:33 +0000
Subject: [PATCH 36/51] fix: a copy of a system has all the terms, couplings
 (also of nested systems) and the initial state of the system

---
 src/quanguru/classes/QSystem.py | 54 ++++++++++++++++++---------------
 1 file changed, 30 insertions(+), 24 deletions(-)

diff --git a/src/quanguru/classes/QSystem.py b/src/quanguru/classes/QSystem.py
index 4cb6732..1031fdd 100644
--- a/src/quanguru/classes/QSystem.py
+++ b/src/quanguru/classes/QSystem.py
@@ -738,36 +738,42 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
         self._firstTerm._freeMatrix = qMat # pylint: disable=protected-access
 
     def copy(self, **kwargs):
+        r"""
+        Creates a new system with copies of the sub-systems and terms of ``self`` (the terms of the copy are for the
+        copies of the systems), and with the same dimension/s and initial state inputs. The given kwargs are set on the
+        copy.
+        """
+        newSys = self._copyExc({})
+        newSys._named__setKwargs(**kwargs) #pylint:disable=no-member
+        return newSys
+
+    def _copyExc(self, _copies):
+        r"""
+        Used internally in copy, ``_copies`` is the dictionary to store the (name of the) copied systems and copies.
+        """
         newSys = super().copy()
+        _copies[self.name] = newSys
+        newSys._QuantumSystem__compSys = self._QuantumSystem__compSys
+        newSys._inpCoef = self._inpCoef # pylint: disable=protected-access,assigning-non-slot
+        newSys.resetTerms()
+        if self._QuantumSystem__compSys is False:
+            newSys.dimension = self.dimension#pylint:disable=assigning-non-slot
         for qsys in self.subSys.values():
-            cqsys = qsys.copy()
+            cqsys = qsys._copyExc(_copies) # pylint: disable=protected-access
             cqsys.alias = qsys.name + "_" + cqsys.name
             newSys.addSubSys(cqsys)
-        subSysList = list(newSys.subSys.values())
         for ter in self.terms.values():
-            if isinstance(ter.qSystem, QuantumSystem):
-                qSystemNames = newSys
-            else:
-                qSystemNames = []
-                for qsys in ter.qSystem:
-                    qSystemNames.append(qsys.name + "_" + subSysList[qsys.ind].name)
-
-            if newSys._QuantumSystem__firstTerm is None:#pylint:disable=no-member,protected-access
-                newSys.createTerm(qSystem=qSystemNames, #pylint:disable=no-member
-                                  operator=ter.operator,
-                                  frequency=ter.frequency,
-                                  order=ter.order)
-            else:
-                newSys._firstTerm.qSystem=qSystemNames#pylint:disable=no-member,protected-access
-                newSys._firstTerm.operator=ter.operator#pylint:disable=no-member,protected-access
-                newSys._firstTerm.frequency=ter.frequency#pylint:disable=no-member,protected-access
-                newSys._firstTerm.order=ter.order#pylint:disable=no-member,protected-access
+            isMulti = isinstance(ter.qSystem, (list, tuple))
+            qSystem = [_copies.get(qsys.name, qsys) for qsys in (ter.qSystem if isMulti else [ter.qSystem])]
+            newTerm = QTerm(superSys=newSys, qSystem=qSystem if isMulti else qSystem[0], frequency=ter.frequency)
+            if ter.operator is not None:
+                newTerm.operator = ter.operator
+            if isinstance(ter.order, (list, tuple)) or not isMulti:
+                newTerm.order = ter.order
+            newTerm.timeDependency = ter.timeDependency
+            newSys.addTerms(newTerm)
         if self.simulation._stateBase__initialStateInput._value is not None:
-            newSys.initialState = self.simulation._stateBase__initialStateInput.value #pylint:disable=assigning-non-slot
-        if not self._isComposite:
-            newSys.dimension = self.dimension#pylint:disable=assigning-non-slot
-            newSys._inpCoef = self._inpCoef # pylint: disable=protected-access,assigning-non-slot
-        newSys._named__setKwargs(**kwargs) #pylint:disable=no-member
+            newSys.simulation._initialStateInput = self.simulation._initialStateInput
         return newSys
 
     def __rmul__(self, other):
-- 
2.43.0


From d6f63f3cb4d6a5384cdf3512b6593dc140560a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:50 +0000
Subject: [PATCH 37/51] fix: gates of open systems conjugate the density matrix
 by the rotation and its Hermitian conjugate

---
 src/quanguru/classes/QGates.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/quanguru/classes/QGates.py b/src/quanguru/classes/QGates.py
index 2a1a6a2..4002d23 100644
--- a/src/quanguru/classes/QGates.py
+++ b/src/quanguru/classes/QGates.py
@@ -26,6 +26,7 @@ from .QSimBase import setAttr
 from ..QuantumToolbox import evolution
 from ..QuantumToolbox import operators #pylint: disable=relative-beyond-top-level
 from ..QuantumToolbox import spinRotations #pylint: disable=relative-beyond-top-level
+from ..QuantumToolbox.linearAlgebra import hc #pylint: disable=relative-beyond-top-level
 
 class SpinRotation(Gate): # pylint: disable=too-many-ancestors
     label = 'SpinRotation'
@@ -87,7 +88,7 @@ class SpinRotation(Gate): # pylint: disable=too-many-ancestors
                 flipOpN = operators.compositeOp(rotOp(sys[i+1].dimension, isDim=True),
                                                 sys[i+1]._dimsBefore, sys[i+1]._dimsAfter)
                 flipUn = evolution.Unitary(self.phase*self.angle*flipOpN) @ flipUn
-            self._paramBoundBase__matrix = evolution._prepostSO(flipUn) if (openSys or isinstance(collapseOps, list) or self._isOpen) else flipUn # pylint: disable=assigning-non-slot,line-too-long,protected-access
+            self._paramBoundBase__matrix = evolution._prepostSO(flipUn, hc(flipUn)) if (openSys or isinstance(collapseOps, list) or self._isOpen) else flipUn # pylint: disable=assigning-non-slot,line-too-long,protected-access
         self._paramBoundBase__paramUpdated = False # pylint: disable=assigning-non-slot
         return self._paramBoundBase__matrix # pylint: disable=no-member
 
@@ -118,7 +119,7 @@ class xGate(SpinRotation): # pylint: disable=too-many-ancestors
             flipOp = operators.compositeOp(rotOp(self.angle), sys[0]._dimsBefore, sys[0]._dimsAfter) # pylint: disable=no-member
             for i in range(len(sys)-1):
                 flipOp = operators.compositeOp(rotOp(self.angle), sys[i+1]._dimsBefore, sys[i+1]._dimsAfter) @ flipOp
-            self._paramBoundBase__matrix = evolution._prepostSO(flipOp) if openSys else flipOp # pylint: disable=assigning-non-slot,protected-access
+            self._paramBoundBase__matrix = evolution._prepostSO(flipOp, hc(flipOp)) if openSys else flipOp # pylint: disable=assigning-non-slot,protected-access
         self._paramBoundBase__paramUpdated = False # pylint: disable=assigning-non-slot
         return self._paramBoundBase__matrix # pylint: disable=no-member
 
-- 
2.43.0


From 14ea45389507fd8a3e8d60674795b15796c8bd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:50 +0000
Subject: [PATCH 38/51] fix: the jump operator of a dissipator can be changed
 and follows the dimensions, also after it is attached or its matrix is
 deleted

---
 src/quanguru/classes/environment.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/quanguru/classes/environment.py b/src/quanguru/classes/environment.py
index 9e82b59..e168443 100644
--- a/src/quanguru/classes/environment.py
+++ b/src/quanguru/classes/environment.py
@@ -84,6 +84,7 @@ class dissipatorObj(_genericOpen):
     def addToProtocol(self, protocol):
         protocol._genericProtocol__dissipator[self] = self.jRate #pylint:disable=protected-access
         self._paramBoundBase__paramBound[protocol.name] = protocol # pylint: disable=no-member
+        protocol._paramUpdated = True #pylint:disable=protected-access
 
     @property
     def jRate(self):
@@ -99,20 +100,22 @@ class dissipatorObj(_genericOpen):
 
     @property
     def jOperMatrix(self):
+        if ((self._paramBoundBase__matrix is None) or self._paramUpdated): # pylint:disable=no-member
+            self.jOperMatrix = None
         return self._paramBoundBase__matrix # pylint:disable=no-member
 
     @jOperMatrix.setter
     def jOperMatrix(self, jOpMat):
         if ((jOpMat is None) or self._paramUpdated):
-            setAttr(self, '_paramBoundBase__matrix',
-                    compositeOp(self.jOper, dimA=self.superSys._dimsAfter, dimB=self.superSys._dimsBefore)) # pylint:disable=no-member
+            self._paramBoundBase__matrix = compositeOp(self.jOper, dimA=self.superSys._dimsAfter, # pylint:disable=no-member,assigning-non-slot
+                                                       dimB=self.superSys._dimsBefore) # pylint:disable=no-member
             self._paramBoundBase__paramUpdated = False # pylint:disable=assigning-non-slot
 
     @jOper.setter
     def jOper(self, jop):
-        setAttr(self, '_dissipatorObj__operator', jop)
-        if self._paramUpdated:
-            self.jOperMatrix = None
+        # the matrix is (re-)created when it is used, for the dimensions and position the system has then
+        self._dissipatorObj__operator = jop # pylint:disable=assigning-non-slot
+        self._paramUpdated = True
 
 class thermalBath(_genericOpen): # pylint:disable=too-few-public-methods
     r"""
-- 
2.43.0


From 5596c062e791f6105d2c8b038513a584fb2eb194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:50 +0000
Subject: [PATCH 39/51] fix: protocols use the current decay rates of their
 dissipators, which follow the rate, type and bath

---
 src/quanguru/classes/QPro.py        |  6 +++---
 src/quanguru/classes/environment.py | 17 +++++++++++++++--
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/quanguru/classes/QPro.py b/src/quanguru/classes/QPro.py
index 5dcdfde..0688387 100644
--- a/src/quanguru/classes/QPro.py
+++ b/src/quanguru/classes/QPro.py
@@ -195,7 +195,7 @@ class genericProtocol(QSimComp): # pylint: disable = too-many-instance-attribute
 
     def unitary(self):
         collapseOps = None if not self._isOpen else [ds.jOperMatrix for ds in self._dissipator.keys()]
-        decayRates = None if not self._isOpen else list(self._dissipator.values())
+        decayRates = None if not self._isOpen else [ds.jRate for ds in self._dissipator.keys()]
         if self.superSys is not None:
             self.superSys._timeDependency() # pylint: disable=no-member
 
@@ -207,10 +207,10 @@ class genericProtocol(QSimComp): # pylint: disable = too-many-instance-attribute
     def getUnitary(self, collapseOps = None, decayRates = None):
         if collapseOps is None:
             collapseOps = None if not self._isOpen else [ds.jOperMatrix for ds in self._dissipator.keys()]
-            decayRates = None if not self._isOpen else list(self._dissipator.values())
+            decayRates = None if not self._isOpen else [ds.jRate for ds in self._dissipator.keys()]
         else:
             collapseOps = collapseOps + [ds.jOperMatrix for ds in self._dissipator.keys()]
-            decayRates = decayRates + list(self._dissipator.values())
+            decayRates = decayRates + [ds.jRate for ds in self._dissipator.keys()]
         if self.superSys is not None:
             self.superSys._timeDependency() # pylint: disable=no-member
 
diff --git a/src/quanguru/classes/environment.py b/src/quanguru/classes/environment.py
index e168443..4aecd3a 100644
--- a/src/quanguru/classes/environment.py
+++ b/src/quanguru/classes/environment.py
@@ -56,14 +56,15 @@ class dissipatorObj(_genericOpen):
     #: (**class attribute**) number of total instances = _internalInstances + _externalInstances
     _instances: int = 0
 
-    __slots__ = ['type', '__operator', '__rate', '__bath']
+    __slots__ = ['__type', '__operator', '__rate', '__bath']
 
     def __init__(self, **kwargs):
-        self.type = 1
+        self.__type = 1
         self.__operator = None
         self.__rate = 0
         self.__bath = thermalBath()
         super().__init__(**kwargs)
+        self._dissipatorObj__bath._paramBoundBase__paramBound[self.name] = self # pylint:disable=no-member,protected-access
 
     @property
     def temperature(self):
@@ -86,6 +87,17 @@ class dissipatorObj(_genericOpen):
         self._paramBoundBase__paramBound[protocol.name] = protocol # pylint: disable=no-member
         protocol._paramUpdated = True #pylint:disable=protected-access
 
+    @property
+    def type(self):
+        r"""
+        Gets and sets the type of the dissipator, which is 1 for emission and 0 for absorption.
+        """
+        return self._dissipatorObj__type
+
+    @type.setter
+    def type(self, typ):
+        setAttr(self, '_dissipatorObj__type', typ)
+
     @property
     def jRate(self):
         return self._dissipatorObj__rate*(self._dissipatorObj__bath.nBar + self.type)
@@ -164,6 +176,7 @@ class thermalBath(_genericOpen): # pylint:disable=too-few-public-methods
         _genericOpen.subSys.fset(self, subS)
         subS._dissipatorObj__bath = self #pylint:disable=protected-access
         self._paramBoundBase__paramBound[subS.name] = subS # pylint: disable=no-member
+        subS._paramUpdated = True #pylint:disable=protected-access
 
     @dissipator.setter
     def dissipator(self, subS):
-- 
2.43.0


From 9aa58331f1578baa5c81514b4032c7e5b14938ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:50 +0000
Subject: [PATCH 40/51] fix: the matrices of a protocol and its steps are
 re-created when it becomes an open system, with each dissipator once

---
 src/quanguru/classes/QPro.py | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/quanguru/classes/QPro.py b/src/quanguru/classes/QPro.py
index 0688387..9217faf 100644
--- a/src/quanguru/classes/QPro.py
+++ b/src/quanguru/classes/QPro.py
@@ -119,11 +119,23 @@ class genericProtocol(QSimComp): # pylint: disable = too-many-instance-attribute
 
     @property
     def _isOpen(self):
+        return self._updateOpen()
+
+    def _setOpen(self):
+        if not self._openSys:
+            self._openSys = True
+            # the matrix of the closed system is not a super-operator
+            self._paramBoundBase__matrix = None # pylint: disable=assigning-non-slot
+            self._paramBoundBase__matrixHc = None # pylint: disable=assigning-non-slot
+
+    def _updateOpen(self):
         subOpen = any((s._isOpen for s in self.subSys.values() if hasattr(s, '_isOpen'))) # pylint: disable=protected-access
-        self._openSys = len(self._dissipator) > 0 or subOpen or self._openSys
-        for s in self.subSys.values():
-            if hasattr(s, '_openSys'):
-                s._openSys = self._openSys # pylint: disable=protected-access
+        if len(self._dissipator) > 0 or subOpen:
+            self._setOpen()
+        if self._openSys:
+            for s in self.subSys.values():
+                if hasattr(s, '_setOpen'):
+                    s._setOpen() # pylint: disable=protected-access
         return self._openSys
 
     @property
@@ -194,14 +206,13 @@ class genericProtocol(QSimComp): # pylint: disable = too-many-instance-attribute
         self.simulation._qBase__subSys[self] = self.superSys # pylint: disable=protected-access
 
     def unitary(self):
-        collapseOps = None if not self._isOpen else [ds.jOperMatrix for ds in self._dissipator.keys()]
-        decayRates = None if not self._isOpen else [ds.jRate for ds in self._dissipator.keys()]
+        self._updateOpen()
         if self.superSys is not None:
             self.superSys._timeDependency() # pylint: disable=no-member
 
         # a fixed step also needs to be created once
         if ((self._paramUpdated and not self.fixed) or (self._paramBoundBase__matrix is None)): # pylint: disable=no-member
-            self._paramBoundBase__matrix = self.getUnitary(collapseOps, decayRates) # pylint: disable=assigning-non-slot
+            self._paramBoundBase__matrix = self.getUnitary() # pylint: disable=assigning-non-slot
         return self._paramBoundBase__matrix # pylint: disable=no-member
 
     def getUnitary(self, collapseOps = None, decayRates = None):
@@ -393,6 +404,9 @@ class copyStep(qBase):
     def _isOpen(self):
         return self.superSys._isOpen # pylint: disable=protected-access
 
+    def _setOpen(self):
+        self.superSys._setOpen() # pylint: disable=protected-access
+
 class freeEvolution(genericProtocol):
     label = 'freeEvolution'
     #: (**class attribute**) number of instances created internally by the library
-- 
2.43.0


From fabce1794c7c88dea7e8966b4a01ce8681bce93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:50 +0000
Subject: [PATCH 41/51] fix: the dissipators of a protocol act during all its
 steps, including the repeated ones

---
 src/quanguru/classes/QPro.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/quanguru/classes/QPro.py b/src/quanguru/classes/QPro.py
index 9217faf..cc056d1 100644
--- a/src/quanguru/classes/QPro.py
+++ b/src/quanguru/classes/QPro.py
@@ -30,6 +30,7 @@ r"""
 """
 from ..QuantumToolbox import evolution as lio #pylint: disable=relative-beyond-top-level
 from ..QuantumToolbox.operators import identity #pylint: disable=relative-beyond-top-level
+from ..QuantumToolbox.linearAlgebra import hc as hermitianConj #pylint: disable=relative-beyond-top-level
 
 from .base import qBase, addDecorator, aliasDict
 from .baseClasses import updateBase
@@ -216,6 +217,10 @@ class genericProtocol(QSimComp): # pylint: disable = too-many-instance-attribute
         return self._paramBoundBase__matrix # pylint: disable=no-member
 
     def getUnitary(self, collapseOps = None, decayRates = None):
+        # the dissipators of a protocol act during its steps, but these are not part of the matrix of the step itself
+        inherited = bool(collapseOps) and not self.fixed
+        if inherited:
+            self._paramBoundBase__matrix = None # pylint: disable=assigning-non-slot
         if collapseOps is None:
             collapseOps = None if not self._isOpen else [ds.jOperMatrix for ds in self._dissipator.keys()]
             decayRates = None if not self._isOpen else [ds.jRate for ds in self._dissipator.keys()]
@@ -237,7 +242,10 @@ class genericProtocol(QSimComp): # pylint: disable = too-many-instance-attribute
             for update in reversed(active):
                 update.setback()
         self._paramUpdatedToFalse()
-        return self._paramBoundBase__matrix # pylint: disable=no-member
+        matrix = self._paramBoundBase__matrix # pylint: disable=no-member
+        if inherited:
+            self._paramBoundBase__matrix = None # pylint: disable=assigning-non-slot
+        return matrix
 
     def _paramUpdatedToFalse(self):
         self._paramBoundBase__paramUpdated = False # pylint: disable=assigning-non-slot
@@ -392,7 +400,10 @@ class copyStep(qBase):
     def _paramUpdated(self, boolean):
         pass
 
-    def getUnitary(self, collapseOps = None, decayRates = None): #pylint:disable=unused-argument
+    def getUnitary(self, collapseOps = None, decayRates = None):
+        if collapseOps:
+            matrix = self.superSys.getUnitary(collapseOps, decayRates)
+            return hermitianConj(matrix) if self.hc else matrix
         self.superSys.unitary()
         return self.superSys._hc if self.hc else self.superSys._paramBoundBase__matrix #pylint:disable=protected-access
 
-- 
2.43.0


From 4c403aaa9905a56d791173e17064bdc6a330b9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:09 +0000
Subject: [PATCH 42/51] fix: dimensions given as NumPy integers place an
 operator like Python integers

---
 src/quanguru/QuantumToolbox/linearAlgebra.py | 2 +-
 src/quanguru/QuantumToolbox/operators.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/quanguru/QuantumToolbox/linearAlgebra.py b/src/quanguru/QuantumToolbox/linearAlgebra.py
index b3a39f9..6d2edd1 100644
--- a/src/quanguru/QuantumToolbox/linearAlgebra.py
+++ b/src/quanguru/QuantumToolbox/linearAlgebra.py
@@ -272,7 +272,7 @@ def tensorProd(*args: Matrix) -> Matrix:
     """
 
     totalProd = args[0]
-    if isinstance(totalProd, int):
+    if isinstance(totalProd, (int, np.integer)):
         totalProd = sp.identity(totalProd, format="csc")
     return sp.kron(totalProd, tensorProd(*args[1:]), format='csc') if len(args) > 1 else totalProd
 
diff --git a/src/quanguru/QuantumToolbox/operators.py b/src/quanguru/QuantumToolbox/operators.py
index 60f729a..0b68de6 100644
--- a/src/quanguru/QuantumToolbox/operators.py
+++ b/src/quanguru/QuantumToolbox/operators.py
@@ -963,7 +963,7 @@ def compositeOp(operator: Matrix, dimB: int = 1, dimA: int = 1) -> Matrix:
 
     """
 
-    return tensorProd(*[a for a in [dimB, operator, dimA] if ((not isinstance(a, int)) or (a > 1))])
+    return tensorProd(*[a for a in [dimB, operator, dimA] if ((not isinstance(a, (int, np.integer))) or (a > 1))])
 
 def operatorPow(op: Callable, dim: int, power: int, sparse: bool = True) -> Matrix:
     r"""
-- 
2.43.0


From c19cb935294a9f5181863d1d84d889797929997e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:16 +0000
Subject: [PATCH 43/51] fix: HusimiQ of density matrices and of ket states
 given as columns

---
 src/quanguru/QuantumToolbox/quasiProbabilities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/quanguru/QuantumToolbox/quasiProbabilities.py b/src/quanguru/QuantumToolbox/quasiProbabilities.py
index 93341ad..81db752 100644
--- a/src/quanguru/QuantumToolbox/quasiProbabilities.py
+++ b/src/quanguru/QuantumToolbox/quasiProbabilities.py
@@ -142,7 +142,7 @@ def HusimiQ(state: Matrix, vec: ndOrList, g: float = np.sqrt(2)) -> ndarray:
     if state.shape[0] != state.shape[1]:
         qmat = _qfuncPure(state, amat)
     else:
-        d, v = la.eig(state.full())
+        d, v = la.eigh(state)
         # d[i]   = eigenvalue i
         # v[:,i] = eigenvector i
 
@@ -179,7 +179,7 @@ def _qfuncPure(psi: Matrix, alphaMat: ndarray) -> ndarray:
     """
 
     n = np.prod(psi.shape)
-    psi = psi.T
+    psi = np.ravel(psi)
 
     qmat = abs(polyval(fliplr([psi / np.sqrt(factorial(arange(n)))])[0], conjugate(alphaMat))) ** 2
 
-- 
2.43.0


From 2aaab8206d389f5c212c6c9d6242b3ec245e3446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:29 +0000
Subject: [PATCH 44/51] fix: evolveOpen takes the last step when the ratio of
 the times is rounded below an integer

---
 src/quanguru/QuantumToolbox/evolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quanguru/QuantumToolbox/evolution.py b/src/quanguru/QuantumToolbox/evolution.py
index aa3ac4b..b871703 100644
--- a/src/quanguru/QuantumToolbox/evolution.py
+++ b/src/quanguru/QuantumToolbox/evolution.py
@@ -387,7 +387,7 @@ def evolveOpen(initialState, totalTime, timeStep: float = 1.0, Hamiltonian: Opti
     if calcFunc is not None:
         calcFunc(rhoL)
     rhoL = mat2Vec(rhoL)
-    for _ in range(int(totalTime/timeStep)):
+    for _ in range(int(round(totalTime/timeStep, 8))):
         rhoL = LiouExp @ rhoL
         denMat = vec2Mat(rhoL)
         if calcFunc is not None:
-- 
2.43.0


From 2a5e88293f187badc469bd39c38bcb1d8ab38ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:37 +0000
Subject: [PATCH 45/51] fix: HeatCurrent vectorises the density matrix and
 takes the trace

---
 src/quanguru/QuantumToolbox/thermodynamics.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/quanguru/QuantumToolbox/thermodynamics.py b/src/quanguru/QuantumToolbox/thermodynamics.py
index 6662a13..ed8e5bf 100644
--- a/src/quanguru/QuantumToolbox/thermodynamics.py
+++ b/src/quanguru/QuantumToolbox/thermodynamics.py
@@ -28,6 +28,7 @@ r"""
 """
 
 from numpy import exp, real # type: ignore
+from .linearAlgebra import trace
 from .states import mat2Vec, vec2Mat
 from .customTypes import Matrix
 
@@ -129,6 +130,6 @@ def HeatCurrent(Lindbladian: Matrix, Hamiltonian: Matrix, denMat: Matrix) -> flo
     # TODO
     """
 
-    full = mat2Vec(Lindbladian * vec2Mat(denMat))
-    heatCurrent = real((full * Hamiltonian).tr())
+    full = vec2Mat(Lindbladian @ mat2Vec(denMat))
+    heatCurrent = real(trace(full @ Hamiltonian))
     return heatCurrent
-- 
2.43.0


From 608e1595eed989c42818e7a6b6ba9f35fc46c03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:03 +0000
Subject: [PATCH 46/51] fix: the Liouvillian of arrays is an array

---
 src/quanguru/QuantumToolbox/evolution.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/quanguru/QuantumToolbox/evolution.py b/src/quanguru/QuantumToolbox/evolution.py
index b871703..bef45ce 100644
--- a/src/quanguru/QuantumToolbox/evolution.py
+++ b/src/quanguru/QuantumToolbox/evolution.py
@@ -36,6 +36,7 @@ r"""
 
 from typing import Callable, List, Optional
 
+import numpy as np # type: ignore
 import scipy.sparse as sp # type: ignore
 import scipy.linalg as linA # type: ignore
 import scipy.sparse.linalg as slinA # type: ignore
@@ -160,7 +161,8 @@ def Liouvillian(Hamiltonian: Optional[Matrix] = None, collapseOperators: Optiona
                 liouvillian += collapsePart
             elif len(decayRates) != 0:
                 liouvillian += decayRates[idx]*collapsePart
-    return liouvillian
+    # a sum of sparse and array is a (deprecated) np.matrix
+    return liouvillian if sp.issparse(liouvillian) else np.asarray(liouvillian)
 
 def LiouvillianExp(Hamiltonian: Optional[Matrix] = None, timeStep: float = 1.0,# pylint: disable=dangerous-default-value,unsubscriptable-object # noqa: E501
                    collapseOperators: Optional[List] = None, decayRates: Optional[List] = None,
-- 
2.43.0


From 4128a356520c44ab09462288e7a873bb167631e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:07 +0000
Subject: [PATCH 47/51] fix: saveCSV writes any kind of numbers, also complex
 and NumPy integers

---
 src/quanguru/extensions/saveReadCSV.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/quanguru/extensions/saveReadCSV.py b/src/quanguru/extensions/saveReadCSV.py
index c5f2a64..9273157 100644
--- a/src/quanguru/extensions/saveReadCSV.py
+++ b/src/quanguru/extensions/saveReadCSV.py
@@ -30,6 +30,7 @@ r"""
 """
 
 import csv
+import numbers
 from datetime import datetime
 import numpy as np
 from ._helpers import makeDir
@@ -65,7 +66,7 @@ def saveCSV(data, path=None, fileName=None):
         if isinstance(data[0], (list, np.ndarray)):
             for ind in range(len(data)):
                 csvWriter.writerow([data[ind][ind2] for ind2 in range(len(data[ind]))])
-        elif isinstance(data[0], (float, int, np.complex128)):
+        elif isinstance(data[0], numbers.Number):
             csvWriter.writerow([data[ind2] for ind2 in range(len(data))])
 
     return path
@@ -103,9 +104,9 @@ def _recursiveSaveList(data, path=None, fileName=None):
         if isinstance(data[0][0], (list, np.ndarray)):
             for ind in range(len(data)): #pylint:disable=consider-using-enumerate
                 _recursiveSaveList(data[ind], path=path, fileName=fileName+str(ind))
-        elif isinstance(data[0][0], (float, int, np.complex128)):
+        elif isinstance(data[0][0], numbers.Number):
             saveCSV(data, path=path, fileName=fileName)
-    elif isinstance(data[0], (float, int, np.complex128)):
+    elif isinstance(data[0], numbers.Number):
         saveCSV(data[0], path=path, fileName=fileName)
 
 def _saveDictToCSV(data, path=None, fileName=''):
-- 
2.43.0


From 2eb868815313e490ba65048779ab52af3de07c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:07 +0000
Subject: [PATCH 48/51] fix: readCSV reads complex numbers with any NumPy
 version

---
 src/quanguru/extensions/saveReadCSV.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quanguru/extensions/saveReadCSV.py b/src/quanguru/extensions/saveReadCSV.py
index 9273157..16e1b4f 100644
--- a/src/quanguru/extensions/saveReadCSV.py
+++ b/src/quanguru/extensions/saveReadCSV.py
@@ -95,7 +95,7 @@ def readCSV(path, datatype=float, realVal=True):
             if datatype != np.complex128:
                 data.append(np.array(list(row), dtype=datatype))
             else:
-                li = np.genfromtxt(list(row), delimiter=',', dtype=np.complex)
+                li = np.array(list(row), dtype=np.complex128)
                 data.append(np.real(li) if realVal else li)
     return data if len(data) > 1 else data[0]
 
-- 
2.43.0


From a45731b15eb63b2dea954e30e908d29319a78509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:07 +0000
Subject: [PATCH 49/51] fix: results that are a flat list can be saved

---
 src/quanguru/extensions/saveReadCSV.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quanguru/extensions/saveReadCSV.py b/src/quanguru/extensions/saveReadCSV.py
index 16e1b4f..a80745a 100644
--- a/src/quanguru/extensions/saveReadCSV.py
+++ b/src/quanguru/extensions/saveReadCSV.py
@@ -107,7 +107,7 @@ def _recursiveSaveList(data, path=None, fileName=None):
         elif isinstance(data[0][0], numbers.Number):
             saveCSV(data, path=path, fileName=fileName)
     elif isinstance(data[0], numbers.Number):
-        saveCSV(data[0], path=path, fileName=fileName)
+        saveCSV(data, path=path, fileName=fileName)
 
 def _saveDictToCSV(data, path=None, fileName=''):
     for key, val in data.items():
-- 
2.43.0


From ca4c32dc99a6037f2bd72de52f327783b8a16380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:40 +0000
Subject: [PATCH 50/51] fix: the eigenvector distribution of the symplectic
 class (beta=4) was not normalised

---
 src/quanguru/QuantumToolbox/rmtDistributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quanguru/QuantumToolbox/rmtDistributions.py b/src/quanguru/QuantumToolbox/rmtDistributions.py
index be93ed8..5d89b4e 100644
--- a/src/quanguru/QuantumToolbox/rmtDistributions.py
+++ b/src/quanguru/QuantumToolbox/rmtDistributions.py
@@ -67,7 +67,7 @@ def EigenVectorDist(x: float, dim: int, beta: int = 1) -> float:
         dist = (1 - x)**(dim - 2)
     elif beta == 4:
         coef = (dim - 1)*(dim - 2)
-        dist = x*((1-x)**(dim - 1))
+        dist = x*((1-x)**(dim - 3))
     val = coef*dist
     if val > 10**30:
         val = 10**30
-- 
2.43.0


From 51050eb22b06cf7da09fa8b2af58a7988504e60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:27 +0000
Subject: [PATCH 51/51] fix: completeBasisMat replaced the kets in the list it
 was given

---
 src/quanguru/QuantumToolbox/states.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/quanguru/QuantumToolbox/states.py b/src/quanguru/QuantumToolbox/states.py
index 45e044a..b3b57ce 100644
--- a/src/quanguru/QuantumToolbox/states.py
+++ b/src/quanguru/QuantumToolbox/states.py
@@ -421,9 +421,7 @@ def completeBasisMat(dimension: Optional[int] = None, compKetBase: Optional[matr
     else:
         compBase = compKetBase
 
-    for i, state in enumerate(compBase):
-        compBase[i] = densityMatrix(state)
-    return compBase
+    return [densityMatrix(state) for state in compBase]
 
 def normalise(state: Matrix) -> Matrix:
     r"""
-- 
2.43.0

