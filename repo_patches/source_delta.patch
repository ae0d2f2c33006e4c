From 7dd892d211daf2814a06b44f909be40f093f9238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:02 +0000
Subject: [PATCH 001/107] fix: remove an identity gate from the cache of every
 qubit it acts on

---
 projectq/cengines/_optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projectq/cengines/_optimize.py b/projectq/cengines/_optimize.py
index 1cce731..2f84b2d 100755
--- a/projectq/cengines/_optimize.py
+++ b/projectq/cengines/_optimize.py
@@ -138,7 +138,7 @@ class LocalOptimizer(BasicEngine):
                     new_list = (
                         self._l[qubit_id][0 : gid[j]] + self._l[qubit_id][gid[j] + 1 :]  # noqa: E203  # noqa: E203
                     )
-                self._l[qubitids[j]] = new_list  # pylint: disable=undefined-loop-variable
+                    self._l[qubit_id] = new_list
                 i = 0
                 limit -= 1
                 continue
-- 
2.43.0


From 888828f8109be01b6033b272e8b610f3a2e9d216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:17 +0000
Subject: [PATCH 002/107] fix: keep the control state when a command is copied,
 inverted, merged, compared or built with unsorted controls

---
 projectq/ops/_command.py                       | 14 +++++++++++++-
 projectq/setups/decompositions/controlstate.py |  2 +-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/projectq/ops/_command.py b/projectq/ops/_command.py
index 481efcc..b2431ef 100755
--- a/projectq/ops/_command.py
+++ b/projectq/ops/_command.py
@@ -116,6 +116,9 @@ class Command:  # pylint: disable=too-many-instance-attributes
         self.control_qubits = controls  # property
         self.engine = engine  # property
         self.control_state = control_state  # property
+        # The control qubits have just been sorted by their IDs: keep the value of each of them
+        order = sorted(range(len(controls)), key=lambda i: controls[i].id)
+        self.control_state = ''.join(self.control_state[i] for i in order)
 
     @property
     def qubits(self):
@@ -135,6 +138,7 @@ class Command:  # pylint: disable=too-many-instance-attributes
             self.qubits,
             list(self.control_qubits),
             deepcopy(self.tags),
+            self.control_state,
         )
 
     def get_inverse(self):
@@ -152,6 +156,7 @@ class Command:  # pylint: disable=too-many-instance-attributes
             self.qubits,
             list(self.control_qubits),
             deepcopy(self.tags),
+            self.control_state,
         )
 
     def is_identity(self):
@@ -173,13 +178,19 @@ class Command:  # pylint: disable=too-many-instance-attributes
         Raises:
             NotMergeable: if the gates don't supply a get_merged()-function or can't be merged for other reasons.
         """
-        if self.tags == other.tags and self.all_qubits == other.all_qubits and self.engine == other.engine:
+        if (
+            self.tags == other.tags
+            and self.all_qubits == other.all_qubits
+            and self.control_state == other.control_state
+            and self.engine == other.engine
+        ):
             return Command(
                 self.engine,
                 self.gate.get_merged(other.gate),
                 self.qubits,
                 self.control_qubits,
                 deepcopy(self.tags),
+                self.control_state,
             )
         raise projectq.ops.NotMergeable("Commands not mergeable.")
 
@@ -333,6 +344,7 @@ class Command:  # pylint: disable=too-many-instance-attributes
             and self.tags == other.tags
             and self.engine == other.engine
             and self.all_qubits == other.all_qubits
+            and self.control_state == other.control_state
         ):
             return True
         return False
diff --git a/projectq/setups/decompositions/controlstate.py b/projectq/setups/decompositions/controlstate.py
index b8d180e..d9c8686 100755
--- a/projectq/setups/decompositions/controlstate.py
+++ b/projectq/setups/decompositions/controlstate.py
@@ -33,7 +33,7 @@ def _decompose_controlstate(cmd):
                 X | ctrl
 
     # Resend the command with the `control_state` cleared
-    cmd.ctrl_state = '1' * len(cmd.control_state)
+    cmd.control_state = '1' * len(cmd.control_state)
     orig_engine = cmd.engine
     cmd.engine.receive([deepcopy(cmd)])  # NB: deepcopy required here to workaround infinite recursion detection
     Uncompute(orig_engine)
-- 
2.43.0


From 60aec81fb6b930fbdcc9ee32a8337caea4369314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:40 +0000
Subject: [PATCH 003/107] fix: merge time evolutions with zero coefficients
 without dividing by zero

---
 projectq/ops/_time_evolution.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/projectq/ops/_time_evolution.py b/projectq/ops/_time_evolution.py
index c28de10..daef2ed 100644
--- a/projectq/ops/_time_evolution.py
+++ b/projectq/ops/_time_evolution.py
@@ -113,13 +113,19 @@ class TimeEvolution(BasicGate):
         if isinstance(other, TimeEvolution) and set(self.hamiltonian.terms) == set(other.hamiltonian.terms):
             factor = None
             for term in self.hamiltonian.terms:
+                if self.hamiltonian.terms[term] == 0 or other.hamiltonian.terms[term] == 0:
+                    if self.hamiltonian.terms[term] != other.hamiltonian.terms[term]:
+                        raise NotMergeable("Cannot merge these two gates.")
+                    continue  # term contributes to neither of the two evolutions
                 if factor is None:
                     factor = self.hamiltonian.terms[term] / float(other.hamiltonian.terms[term])
                 else:
                     tmp = self.hamiltonian.terms[term] / float(other.hamiltonian.terms[term])
                     if not abs(factor - tmp) <= (rel_tol * max(abs(factor), abs(tmp))):
                         raise NotMergeable("Cannot merge these two gates.")
-            # Terms are proportional to each other
+            # Terms are proportional to each other (there is no factor if neither gate has a non-zero term)
+            if factor is None:
+                factor = 1.0
             new_time = self.time + other.time / factor
             return TimeEvolution(time=new_time, hamiltonian=self.hamiltonian)
         raise NotMergeable("Cannot merge these two gates.")
-- 
2.43.0


From fea0489651b8741df00f2767a044227b60ffd1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:43 +0000
Subject: [PATCH 004/107] fix: compare qubit operators by their terms and merge
 them in order of application

---
 projectq/ops/_qubit_operator.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/projectq/ops/_qubit_operator.py b/projectq/ops/_qubit_operator.py
index 80c901d..aa40a68 100644
--- a/projectq/ops/_qubit_operator.py
+++ b/projectq/ops/_qubit_operator.py
@@ -352,7 +352,8 @@ class QubitOperator(BasicGate):
             NotMergeable: merging is not possible
         """
         if isinstance(other, self.__class__) and len(other.terms) == 1 and len(self.terms) == 1:
-            return self * other
+            # self is applied first
+            return other * self
         raise NotMergeable()
 
     def __imul__(self, multiplier):  # pylint: disable=too-many-locals,too-many-branches
@@ -581,6 +582,17 @@ class QubitOperator(BasicGate):
         """Repr method."""
         return str(self)
 
+    def __eq__(self, other):
+        """Return True if other is a QubitOperator with exactly the same terms and coefficients."""
+        if isinstance(other, QubitOperator):
+            return self.terms == other.terms
+        return super().__eq__(other)
+
     def __hash__(self):
-        """Compute the hash of the object."""
-        return hash(str(self))
+        """Compute the hash of the object (equal operators have the same hash)."""
+        if len(self.terms) == 1:
+            ((term, coeff),) = self.terms.items()
+            coeff = complex(coeff)
+            operator = QubitOperator(term, coeff.real + 0.0 if coeff.imag == 0 else coeff)
+            return hash(str(operator))
+        return hash(frozenset(self.terms.items()))
-- 
2.43.0


From 744750c1984fb9e435e2768549fed94d0ac5bb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:08 +0000
Subject: [PATCH 005/107] fix: a comparison is its own inverse

---
 projectq/libs/math/_gates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projectq/libs/math/_gates.py b/projectq/libs/math/_gates.py
index ad466d2..fa62a21 100755
--- a/projectq/libs/math/_gates.py
+++ b/projectq/libs/math/_gates.py
@@ -394,7 +394,7 @@ class ComparatorQuantumGate(BasicMathGate):
 
     def get_inverse(self):
         """Return the inverse of this gate."""
-        return AddQuantum
+        return ComparatorQuantumGate()
 
 
 ComparatorQuantum = ComparatorQuantumGate()
-- 
2.43.0


From 2a61e76924afd7b97d9e762e3c0daa5398f8d852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:08 +0000
Subject: [PATCH 006/107] fix: make time evolutions and controlled or tensored
 gates hashable

---
 projectq/ops/_metagates.py      | 8 ++++++++
 projectq/ops/_time_evolution.py | 4 ++++
 2 files changed, 12 insertions(+)

diff --git a/projectq/ops/_metagates.py b/projectq/ops/_metagates.py
index 0c1f89f..c9db542 100644
--- a/projectq/ops/_metagates.py
+++ b/projectq/ops/_metagates.py
@@ -222,6 +222,10 @@ class ControlledGate(BasicGate):
         """Compare two ControlledGate objects (return True if equal)."""
         return isinstance(other, self.__class__) and self._gate == other._gate and self._n == other._n
 
+    def __hash__(self):
+        """Compute the hash of the object."""
+        return hash(str(self))
+
 
 def C(gate, n_qubits=1):
     """
@@ -269,6 +273,10 @@ class Tensor(BasicGate):
         """Equal operator."""
         return isinstance(other, Tensor) and self._gate == other._gate
 
+    def __hash__(self):
+        """Compute the hash of the object."""
+        return hash(str(self))
+
     def __or__(self, qubits):
         """Operator| overload which enables the syntax Gate | qubits."""
         if isinstance(qubits, tuple):
diff --git a/projectq/ops/_time_evolution.py b/projectq/ops/_time_evolution.py
index daef2ed..84fc236 100644
--- a/projectq/ops/_time_evolution.py
+++ b/projectq/ops/_time_evolution.py
@@ -205,6 +205,10 @@ class TimeEvolution(BasicGate):
         """Not implemented as this object is a floating point type."""
         return NotImplemented
 
+    def __hash__(self):
+        """Compute the hash of the object."""
+        return hash(str(self))
+
     def __str__(self):
         """Return a string representation of the object."""
         return f"exp({-1j * self.time} * ({self.hamiltonian}))"
-- 
2.43.0


From f9cafad63f82772e41b47806b416af582541128b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:08 +0000
Subject: [PATCH 007/107] fix: compare phase estimation and amplitude
 amplification gates by their parameters

---
 projectq/ops/_qaagate.py | 8 ++++++++
 projectq/ops/_qpegate.py | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/projectq/ops/_qaagate.py b/projectq/ops/_qaagate.py
index c5561ea..ec9de4f 100755
--- a/projectq/ops/_qaagate.py
+++ b/projectq/ops/_qaagate.py
@@ -80,3 +80,11 @@ class QAA(BasicGate):
     def __str__(self):
         """Return a string representation of the object."""
         return f'QAA(Algorithm = {str(self.algorithm.__name__)}, Oracle = {str(self.oracle.__name__)})'
+
+    def __eq__(self, other):
+        """Equal operator."""
+        return isinstance(other, self.__class__) and self.algorithm == other.algorithm and self.oracle == other.oracle
+
+    def __hash__(self):
+        """Compute the hash of the object."""
+        return hash(str(self))
diff --git a/projectq/ops/_qpegate.py b/projectq/ops/_qpegate.py
index 3eab6e8..5569877 100755
--- a/projectq/ops/_qpegate.py
+++ b/projectq/ops/_qpegate.py
@@ -32,3 +32,11 @@ class QPE(BasicGate):
     def __str__(self):
         """Return a string representation of the object."""
         return f'QPE({str(self.unitary)})'
+
+    def __eq__(self, other):
+        """Equal operator."""
+        return isinstance(other, self.__class__) and self.unitary == other.unitary
+
+    def __hash__(self):
+        """Compute the hash of the object."""
+        return hash(str(self))
-- 
2.43.0


From 6666246186abb284ff378edaa369b76fc40b4f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:27 +0000
Subject: [PATCH 008/107] fix: apply controlled gates whose first register is
 empty

---
 projectq/ops/_metagates.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/projectq/ops/_metagates.py b/projectq/ops/_metagates.py
index c9db542..b87952d 100644
--- a/projectq/ops/_metagates.py
+++ b/projectq/ops/_metagates.py
@@ -215,7 +215,9 @@ class ControlledGate(BasicGate):
 
         import projectq.meta  # pylint: disable=import-outside-toplevel
 
-        with projectq.meta.Control(gate_quregs[0][0].engine, ctrl):
+        # the first qureg of the gate may be empty (as may be the controls)
+        engine = [qb.engine for reg in gate_quregs for qb in reg][0]
+        with projectq.meta.Control(engine, ctrl):
             self._gate | tuple(gate_quregs)
 
     def __eq__(self, other):
-- 
2.43.0


From 001eb2b6f0b1c714869a79c359d9980e6e9f1608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:27 +0000
Subject: [PATCH 009/107] fix: end meta sections completely when an error
 occurs inside them

---
 projectq/meta/_compute.py | 21 ++++++++++++++-------
 projectq/meta/_control.py | 15 ++++++++++-----
 projectq/meta/_dagger.py  | 23 ++++++++++++-----------
 projectq/meta/_loop.py    | 14 +++++++++-----
 projectq/meta/_util.py    | 15 +++++++++++++++
 5 files changed, 60 insertions(+), 28 deletions(-)

diff --git a/projectq/meta/_compute.py b/projectq/meta/_compute.py
index 84cde8a..11d8feb 100755
--- a/projectq/meta/_compute.py
+++ b/projectq/meta/_compute.py
@@ -25,7 +25,7 @@ from projectq.cengines import BasicEngine, CommandModifier
 from projectq.ops import Allocate, Deallocate
 
 from ._exceptions import QubitManagementError
-from ._util import drop_engine_after, insert_engine
+from ._util import drop_engine_after, drop_engines_until, insert_engine
 
 
 class NoComputeSectionError(Exception):
@@ -314,9 +314,13 @@ class Compute:
 
     def __exit__(self, exc_type, exc_value, exc_traceback):
         """Context manager exit function."""
+        compute_eng, self._compute_eng = self._compute_eng, None
+        if exc_type is not None:
+            # there will be no uncompute section
+            drop_engines_until(self.engine, compute_eng)
+            return
         # notify ComputeEngine that the compute section is done
-        self._compute_eng.end_compute()
-        self._compute_eng = None
+        compute_eng.end_compute()
 
 
 class CustomUncompute:
@@ -374,19 +378,20 @@ class CustomUncompute:
         # deallocated because that code section was not yet executed,
         # so don't check and raise an additional error.
         if exc_type is not None:
+            drop_engines_until(self.engine, self._uncompute_eng)
             return
         # Check that all qubits allocated within Compute or within
         # CustomUncompute have been deallocated.
         all_allocated_qubits = self._allocated_qubit_ids.union(self._uncompute_eng._allocated_qubit_ids)
         all_deallocated_qubits = self._deallocated_qubit_ids.union(self._uncompute_eng._deallocated_qubit_ids)
+        # remove uncompute engine
+        drop_engines_until(self.engine, self._uncompute_eng)
         if len(all_allocated_qubits.difference(all_deallocated_qubits)) != 0:
             raise QubitManagementError(
                 "\nError. Not all qubits have been deallocated which have \n"
                 + "been allocated in the with Compute(eng) or with "
                 + "CustomUncompute(eng) context."
             )
-        # remove uncompute engine
-        drop_engine_after(self.engine)
 
 
 def Uncompute(engine):  # pylint: disable=invalid-name
@@ -404,5 +409,7 @@ def Uncompute(engine):  # pylint: disable=invalid-name
     compute_eng = engine.next_engine
     if not isinstance(compute_eng, ComputeEngine):
         raise NoComputeSectionError("Invalid call to Uncompute: No corresponding 'with Compute' statement found.")
-    compute_eng.run_uncompute()
-    drop_engine_after(engine)
+    try:
+        compute_eng.run_uncompute()
+    finally:
+        drop_engine_after(engine)
diff --git a/projectq/meta/_control.py b/projectq/meta/_control.py
index 1768927..5685971 100755
--- a/projectq/meta/_control.py
+++ b/projectq/meta/_control.py
@@ -27,7 +27,7 @@ from projectq.ops import ClassicalInstructionGate, CtrlAll
 from projectq.types import BasicQubit
 
 from ._compute import ComputeTag, UncomputeTag
-from ._util import drop_engine_after, insert_engine
+from ._util import drop_engine_after, drop_engines_until, insert_engine
 
 
 def canonical_ctrl_state(ctrl_state, num_qubits):
@@ -154,18 +154,23 @@ class Control:
             qubits = [qubits]
         self._qubits = qubits
         self._state = canonical_ctrl_state(ctrl_state, len(self._qubits))
+        self._control_eng = None
 
     def __enter__(self):
         """Context manager enter function."""
         if len(self._qubits) > 0:
-            engine = ControlEngine(self._qubits, self._state)
-            insert_engine(self.engine, engine)
+            self._control_eng = ControlEngine(self._qubits, self._state)
+            insert_engine(self.engine, self._control_eng)
 
     def __exit__(self, exc_type, exc_value, exc_traceback):
         """Context manager exit function."""
         # remove control handler from engine list (i.e. skip it)
-        if len(self._qubits) > 0:
-            drop_engine_after(self.engine)
+        if self._control_eng is not None:
+            if exc_type is None:
+                drop_engine_after(self.engine)
+            else:
+                drop_engines_until(self.engine, self._control_eng)
+            self._control_eng = None
 
 
 def get_control_count(cmd):
diff --git a/projectq/meta/_dagger.py b/projectq/meta/_dagger.py
index f2a7dc2..c077e7b 100755
--- a/projectq/meta/_dagger.py
+++ b/projectq/meta/_dagger.py
@@ -25,7 +25,7 @@ from projectq.cengines import BasicEngine
 from projectq.ops import Allocate, Deallocate
 
 from ._exceptions import QubitManagementError
-from ._util import drop_engine_after, insert_engine
+from ._util import drop_engines_until, insert_engine
 
 
 class DaggerEngine(BasicEngine):
@@ -129,13 +129,14 @@ class Dagger:
 
     def __exit__(self, exc_type, exc_value, exc_traceback):
         """Context manager exit function."""
-        # If an error happens in this context, qubits might not have been
-        # deallocated because that code section was not yet executed,
-        # so don't check and raise an additional error.
-        if exc_type is not None:
-            return
-        # run dagger engine
-        self._dagger_eng.run()
-        self._dagger_eng = None
-        # remove dagger handler from engine list (i.e. skip it)
-        drop_engine_after(self.engine)
+        try:
+            # If an error happens in this context, qubits might not have been
+            # deallocated because that code section was not yet executed,
+            # so don't check and raise an additional error.
+            if exc_type is None:
+                # run dagger engine
+                self._dagger_eng.run()
+        finally:
+            # remove dagger handler from engine list (i.e. skip it)
+            drop_engines_until(self.engine, self._dagger_eng)
+            self._dagger_eng = None
diff --git a/projectq/meta/_loop.py b/projectq/meta/_loop.py
index 5fd9415..9b339bc 100755
--- a/projectq/meta/_loop.py
+++ b/projectq/meta/_loop.py
@@ -28,7 +28,7 @@ from projectq.cengines import BasicEngine
 from projectq.ops import Allocate, Deallocate
 
 from ._exceptions import QubitManagementError
-from ._util import drop_engine_after, insert_engine
+from ._util import drop_engines_until, insert_engine
 
 
 class LoopTag:  # pylint: disable=too-few-public-methods
@@ -249,7 +249,11 @@ class Loop:
     def __exit__(self, exc_type, exc_value, exc_traceback):
         """Context manager exit function."""
         if self.num != 1:
-            # remove loop handler from engine list (i.e. skip it)
-            self._loop_eng.run()
-            self._loop_eng = None
-            drop_engine_after(self.engine)
+            try:
+                # If an error happens in this context, don't run the incomplete loop body
+                if exc_type is None:
+                    self._loop_eng.run()
+            finally:
+                # remove loop handler from engine list (i.e. skip it)
+                drop_engines_until(self.engine, self._loop_eng)
+                self._loop_eng = None
diff --git a/projectq/meta/_util.py b/projectq/meta/_util.py
index 79f4dc4..a94b6e3 100755
--- a/projectq/meta/_util.py
+++ b/projectq/meta/_util.py
@@ -53,3 +53,18 @@ def drop_engine_after(prev_engine):
     dropped_engine.next_engine = None
     dropped_engine.main_engine = None
     return dropped_engine
+
+
+def drop_engines_until(prev_engine, engine):
+    """
+    Remove all engines from the singly-linked list of engines up to and including a given one.
+
+    This ends a meta section in which an error has occurred: sections which have been opened inside of it and whose
+    end was not reached because of the error (e.g. a compute section without its uncompute) end as well.
+
+    Args:
+        prev_engine (projectq.cengines.BasicEngine): The engine just before the first engine to drop.
+        engine (projectq.cengines.BasicEngine): The last engine to drop.
+    """
+    while drop_engine_after(prev_engine) is not engine:
+        pass
-- 
2.43.0


From 50d9ff05139fbc1aca3211d392ec58e94f368486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:43 +0000
Subject: [PATCH 010/107] fix: find the parameters of one-qubit unitaries with
 tiny entries

---
 projectq/setups/decompositions/arb1qubit2rzandry.py  | 12 ++++++++----
 .../setups/decompositions/carb1qubit2cnotrzandry.py  |  4 ++--
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/projectq/setups/decompositions/arb1qubit2rzandry.py b/projectq/setups/decompositions/arb1qubit2rzandry.py
index fc9d1a4..f6296a7 100644
--- a/projectq/setups/decompositions/arb1qubit2rzandry.py
+++ b/projectq/setups/decompositions/arb1qubit2rzandry.py
@@ -161,7 +161,9 @@ def _find_parameters(matrix):  # pylint: disable=too-many-branches,too-many-stat
             )
     # Case 3: sin(c/2) != 0 and cos(c/2) !=0:
     else:
-        two_a = cmath.phase(matrix[0][0] * matrix[1][1]) % (2 * math.pi)
+        # NB: the phase of the determinant, the differences of phases and the angle used below are accurate also if
+        #     either sin(c/2) or cos(c/2) is tiny.
+        two_a = cmath.phase(matrix[0][0] * matrix[1][1] - matrix[0][1] * matrix[1][0]) % (2 * math.pi)
         if abs(two_a) < TOLERANCE or abs(two_a) > 2 * math.pi - TOLERANCE:
             # from 2a==0 (mod 2pi), it follows that a==0 or a==pi,
             # w.l.g. we can choose a==0 because (see U above)
@@ -169,21 +171,23 @@ def _find_parameters(matrix):  # pylint: disable=too-many-branches,too-many-stat
             a = 0  # pylint: disable=invalid-name
         else:
             a = two_a / 2.0  # pylint: disable=invalid-name
-        two_d = 2.0 * cmath.phase(matrix[0][1]) - 2.0 * cmath.phase(matrix[0][0])
+        b_plus_d = cmath.phase(matrix[1][1]) - cmath.phase(matrix[0][0])
+        b_minus_d = cmath.phase(matrix[1][0]) - cmath.phase(-matrix[0][1])
+        two_d = b_plus_d - b_minus_d
         possible_d_half = [
             two_d / 4.0 % (2 * math.pi),
             (two_d / 4.0 + math.pi / 2.0) % (2 * math.pi),
             (two_d / 4.0 + math.pi) % (2 * math.pi),
             (two_d / 4.0 + 3.0 / 2.0 * math.pi) % (2 * math.pi),
         ]
-        two_b = 2.0 * cmath.phase(matrix[1][0]) - 2.0 * cmath.phase(matrix[0][0])
+        two_b = b_plus_d + b_minus_d
         possible_b_half = [
             two_b / 4.0 % (2 * math.pi),
             (two_b / 4.0 + math.pi / 2.0) % (2 * math.pi),
             (two_b / 4.0 + math.pi) % (2 * math.pi),
             (two_b / 4.0 + 3.0 / 2.0 * math.pi) % (2 * math.pi),
         ]
-        tmp = math.acos(abs(matrix[1][1]))
+        tmp = math.atan2(abs(matrix[1][0]), abs(matrix[1][1]))
         possible_c_half = [
             tmp % (2 * math.pi),
             (tmp + math.pi) % (2 * math.pi),
diff --git a/projectq/setups/decompositions/carb1qubit2cnotrzandry.py b/projectq/setups/decompositions/carb1qubit2cnotrzandry.py
index 549db3a..86336e1 100644
--- a/projectq/setups/decompositions/carb1qubit2cnotrzandry.py
+++ b/projectq/setups/decompositions/carb1qubit2cnotrzandry.py
@@ -124,7 +124,7 @@ def _recognize_v(matrix):  # pylint: disable=too-many-branches
                 return (a, b, c_half)
         return False
 
-    two_a = cmath.phase(-1.0 * matrix[0][0] * matrix[1][1]) % (2 * math.pi)
+    two_a = cmath.phase(matrix[0][1] * matrix[1][0] - matrix[0][0] * matrix[1][1]) % (2 * math.pi)
     if abs(two_a) < TOLERANCE or abs(two_a) > 2 * math.pi - TOLERANCE:
         # from 2a==0 (mod 2pi), it follows that a==0 or a==pi,
         # w.l.g. we can choose a==0 because (see U above)
@@ -137,7 +137,7 @@ def _recognize_v(matrix):  # pylint: disable=too-many-branches
         (two_b / 2.0) % (2 * math.pi),
         (two_b / 2.0 + math.pi) % (2 * math.pi),
     ]
-    tmp = math.acos(abs(matrix[1][0]))
+    tmp = math.atan2(abs(matrix[1][1]), abs(matrix[1][0]))
     possible_c_half = [
         tmp % (2 * math.pi),
         (tmp + math.pi) % (2 * math.pi),
-- 
2.43.0


From 94bf85f1ea999ee6ce98dbc10898805d1378d53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:12 +0000
Subject: [PATCH 011/107] fix: apply the inverse QFT of phase estimation to the
 ancillas in the order of the phase bits

---
 projectq/setups/decompositions/phaseestimation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projectq/setups/decompositions/phaseestimation.py b/projectq/setups/decompositions/phaseestimation.py
index 0913064..248ed12 100644
--- a/projectq/setups/decompositions/phaseestimation.py
+++ b/projectq/setups/decompositions/phaseestimation.py
@@ -117,8 +117,8 @@ def _decompose_QPE(cmd):  # pylint: disable=invalid-name
                 with Control(eng, ancilla):
                     unitary | system_qubits
 
-    # Inverse QFT on the ancillas
-    get_inverse(QFT) | qpe_ancillas
+    # Inverse QFT on the ancillas (the first ancilla receives the most significant bit of the phase)
+    get_inverse(QFT) | qpe_ancillas[::-1]
 
 
 #: Decomposition rules
-- 
2.43.0


From a74a65d5011ec5647f71873828b0a350f498768c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:41 +0000
Subject: [PATCH 012/107] fix: honour the control qubits of phase estimation
 and amplitude amplification gates

---
 .../decompositions/amplitudeamplification.py  | 31 +++++++-------
 .../setups/decompositions/phaseestimation.py  | 41 ++++++++++---------
 2 files changed, 37 insertions(+), 35 deletions(-)

diff --git a/projectq/setups/decompositions/amplitudeamplification.py b/projectq/setups/decompositions/amplitudeamplification.py
index 5a85283..9a5f2d8 100644
--- a/projectq/setups/decompositions/amplitudeamplification.py
+++ b/projectq/setups/decompositions/amplitudeamplification.py
@@ -88,22 +88,23 @@ def _decompose_QAA(cmd):  # pylint: disable=invalid-name
     oracle = cmd.gate.oracle
     alg = cmd.gate.algorithm
 
-    # Apply the oracle to invert the amplitude of the good states, S_Chi
-    oracle(eng, system_qubits, qaa_ancilla)
-
-    # Apply the inversion of the Algorithm,
-    # the inversion of the amplitude of |0> and the Algorithm
-
-    with Compute(eng):
-        with Dagger(eng):
+    with Control(eng, cmd.control_qubits):
+        # Apply the oracle to invert the amplitude of the good states, S_Chi
+        oracle(eng, system_qubits, qaa_ancilla)
+
+        # Apply the inversion of the Algorithm,
+        # the inversion of the amplitude of |0> and the Algorithm
+
+        with Compute(eng):
+            with Dagger(eng):
+                alg(eng, system_qubits)
+            All(X) | system_qubits
+        with Control(eng, system_qubits[0:-1]):
+            Z | system_qubits[-1]
+        with CustomUncompute(eng):
+            All(X) | system_qubits
             alg(eng, system_qubits)
-        All(X) | system_qubits
-    with Control(eng, system_qubits[0:-1]):
-        Z | system_qubits[-1]
-    with CustomUncompute(eng):
-        All(X) | system_qubits
-        alg(eng, system_qubits)
-    Ph(math.pi) | system_qubits[0]
+        Ph(math.pi) | system_qubits[0]
 
 
 #: Decomposition rules
diff --git a/projectq/setups/decompositions/phaseestimation.py b/projectq/setups/decompositions/phaseestimation.py
index 248ed12..a054f76 100644
--- a/projectq/setups/decompositions/phaseestimation.py
+++ b/projectq/setups/decompositions/phaseestimation.py
@@ -98,27 +98,28 @@ def _decompose_QPE(cmd):  # pylint: disable=invalid-name
     qpe_ancillas = cmd.qubits[0]
     system_qubits = cmd.qubits[1]
 
-    # Hadamard on the ancillas
-    Tensor(H) | qpe_ancillas
-
-    # The Unitary Operator
-    unitary = cmd.gate.unitary
-
-    # Control U on the system_qubits
-    if callable(unitary):
-        # If U is a function
-        for i, ancilla in enumerate(qpe_ancillas):
-            with Control(eng, ancilla):
-                unitary(system_qubits, time=2**i)
-    else:
-        for i, ancilla in enumerate(qpe_ancillas):
-            ipower = int(2**i)
-            with Loop(eng, ipower):
-                with Control(eng, ancilla):
-                    unitary | system_qubits
+    with Control(eng, cmd.control_qubits):
+        # Hadamard on the ancillas
+        Tensor(H) | qpe_ancillas
+
+        # The Unitary Operator
+        unitary = cmd.gate.unitary
 
-    # Inverse QFT on the ancillas (the first ancilla receives the most significant bit of the phase)
-    get_inverse(QFT) | qpe_ancillas[::-1]
+        # Control U on the system_qubits
+        if callable(unitary):
+            # If U is a function
+            for i, ancilla in enumerate(qpe_ancillas):
+                with Control(eng, ancilla):
+                    unitary(system_qubits, time=2**i)
+        else:
+            for i, ancilla in enumerate(qpe_ancillas):
+                ipower = int(2**i)
+                with Loop(eng, ipower):
+                    with Control(eng, ancilla):
+                        unitary | system_qubits
+
+        # Inverse QFT on the ancillas (the first ancilla receives the most significant bit of the phase)
+        get_inverse(QFT) | qpe_ancillas[::-1]
 
 
 #: Decomposition rules
-- 
2.43.0


From ac7b251ca55bac5b330fdb25752a055e6efe7df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:43 +0000
Subject: [PATCH 013/107] fix: compute the carry of one-qubit additions and
 comparisons

---
 projectq/libs/math/_quantummath.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/projectq/libs/math/_quantummath.py b/projectq/libs/math/_quantummath.py
index 59aa7cf..14810cf 100644
--- a/projectq/libs/math/_quantummath.py
+++ b/projectq/libs/math/_quantummath.py
@@ -56,7 +56,7 @@ def add_quantum(eng, quint_a, quint_b, carry=None):
     for i in range(1, n_qubits - 1):
         CNOT | (quint_a[i], quint_b[i])
 
-    if carry:
+    if carry and len(quint_a) > 1:
         CNOT | (quint_a[n_qubits - 2], carry)
 
     for j in range(n_qubits - 3, 0, -1):
@@ -206,7 +206,8 @@ def comparator(eng, quint_a, quint_b, comp):
     for i in range(1, n_qubits - 1):
         CNOT | (quint_a[i], quint_b[i])
 
-    CNOT | (quint_a[n_qubits - 2], comp)
+    if len(quint_a) > 1:
+        CNOT | (quint_a[n_qubits - 2], comp)
 
     for j in range(n_qubits - 3, 0, -1):
         CNOT | (quint_a[j], quint_a[j + 1])
@@ -425,8 +426,9 @@ def quantum_conditional_add_carry(eng, quint_a, quint_b, ctrl, z):  # pylint: di
     for i in range(1, n_a):
         CNOT | (quint_a[i], quint_b[i])
 
-    with Control(eng, [quint_a[n_a - 1], ctrl[0]]):
-        X | z[0]
+    if n_a > 1:
+        with Control(eng, [quint_a[n_a - 1], ctrl[0]]):
+            X | z[0]
 
     for j in range(n_a - 2, 0, -1):
         CNOT | (quint_a[j], quint_a[j + 1])
-- 
2.43.0


From c0a3a693e47525c7462532461ecf40e538fb8ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:56 +0000
Subject: [PATCH 014/107] fix: leave the compared numbers unchanged in the
 comparator circuit

---
 projectq/libs/math/_quantummath.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projectq/libs/math/_quantummath.py b/projectq/libs/math/_quantummath.py
index 14810cf..f0c939f 100644
--- a/projectq/libs/math/_quantummath.py
+++ b/projectq/libs/math/_quantummath.py
@@ -219,11 +219,11 @@ def comparator(eng, quint_a, quint_b, comp):
     with Control(eng, [quint_a[n_qubits - 2], quint_b[n_qubits - 2]]):
         X | comp
 
-    for k in range(0, n_qubits - 2):
+    for k in range(n_qubits - 3, -1, -1):
         with Control(eng, [quint_a[k], quint_b[k]]):
             X | (quint_a[k + 1])
 
-    for j in range(n_qubits - 3, 0, -1):
+    for j in range(1, n_qubits - 2):
         CNOT | (quint_a[j], quint_a[j + 1])
 
     for i in range(1, n_qubits - 1):
-- 
2.43.0


From c4603b4502b883bc2a06d12e8043de4e2bddc0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:08 +0000
Subject: [PATCH 015/107] fix: decompose controlled additions with a single
 carry qubit

---
 projectq/libs/math/_default_rules.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/projectq/libs/math/_default_rules.py b/projectq/libs/math/_default_rules.py
index 7243fea..eed1e5b 100755
--- a/projectq/libs/math/_default_rules.py
+++ b/projectq/libs/math/_default_rules.py
@@ -89,6 +89,10 @@ def _replace_addquantum(cmd):
         quint_b = cmd.qubits[1]
         if len(cmd.qubits) == 3:
             carry = cmd.qubits[2]
+            if len(carry) == 1:
+                with Control(eng, cmd.control_qubits):
+                    add_quantum(eng, quint_a, quint_b, carry)
+                return
             with Control(eng, cmd.control_qubits):
                 quantum_conditional_add_carry(eng, quint_a, quint_b, cmd.control_qubits, carry)
         else:
-- 
2.43.0


From aec9b007daa4298975ebf275cdee046d7e9d4cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:45 +0000
Subject: [PATCH 016/107] fix: add all digits of the first factor in the
 multiplication circuit and undo them in reverse

---
 projectq/libs/math/_quantummath.py | 41 ++++++++----------------------
 1 file changed, 10 insertions(+), 31 deletions(-)

diff --git a/projectq/libs/math/_quantummath.py b/projectq/libs/math/_quantummath.py
index f0c939f..d09325d 100644
--- a/projectq/libs/math/_quantummath.py
+++ b/projectq/libs/math/_quantummath.py
@@ -14,7 +14,7 @@
 
 """Definition of some mathematical quantum operations."""
 
-from projectq.meta import Control
+from projectq.meta import Control, Dagger
 from projectq.ops import CNOT, All, X
 
 from ._gates import AddQuantum, SubtractQuantum
@@ -498,21 +498,15 @@ def quantum_multiplication(eng, quint_a, quint_b, product):
         with Control(eng, [quint_a[i], quint_b[0]]):
             X | product[i]
 
-    with Control(eng, quint_b[1]):
-        AddQuantum | (
-            quint_a[0 : (n_a - 1)],  # noqa: E203
-            product[1:n_a],
-            [product[n_a + 1], product[n_a + 2]],
+    for j in range(1, n_a):
+        quantum_conditional_add_carry(
+            eng,
+            quint_a,
+            product[j : (n_a + j)],  # noqa: E203
+            [quint_b[j]],
+            [product[n_a + j], product[n_a + j + 1]],
         )
 
-    for j in range(2, n_a):
-        with Control(eng, quint_b[j]):
-            AddQuantum | (
-                quint_a[0 : (n_a - 1)],  # noqa: E203
-                product[(0 + j) : (n_a - 1 + j)],  # noqa: E203
-                [product[n_a + j], product[n_a + j + 1]],
-            )
-
 
 def inverse_quantum_multiplication(eng, quint_a, quint_b, product):
     """
@@ -538,20 +532,5 @@ def inverse_quantum_multiplication(eng, quint_a, quint_b, product):
     if len(product) != ((2 * n_a) + 1):
         raise ValueError('product size must be 2*n + 1')
 
-    for j in range(2, n_a):
-        with Control(eng, quint_b[j]):
-            SubtractQuantum | (
-                quint_a[0 : (n_a - 1)],  # noqa: E203
-                product[(0 + j) : (n_a - 1 + j)],  # noqa: E203
-                [product[n_a + j], product[n_a + j + 1]],
-            )
-    for i in range(0, n_a):
-        with Control(eng, [quint_a[i], quint_b[0]]):
-            X | product[i]
-
-    with Control(eng, quint_b[1]):
-        SubtractQuantum | (
-            quint_a[0 : (n_a - 1)],  # noqa: E203
-            product[1:n_a],
-            [product[n_a + 1], product[n_a + 2]],
-        )
+    with Dagger(eng):
+        quantum_multiplication(eng, quint_a, quint_b, product)
-- 
2.43.0


From 087fbd580be34cceb981bd21dbcef2c80e052c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:57 +0000
Subject: [PATCH 017/107] fix: divide by divisors whose highest bit is set

---
 projectq/libs/math/_quantummath.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/projectq/libs/math/_quantummath.py b/projectq/libs/math/_quantummath.py
index d09325d..668ff70 100644
--- a/projectq/libs/math/_quantummath.py
+++ b/projectq/libs/math/_quantummath.py
@@ -17,7 +17,7 @@
 from projectq.meta import Control, Dagger
 from projectq.ops import CNOT, All, X
 
-from ._gates import AddQuantum, SubtractQuantum
+from ._gates import AddQuantum, ComparatorQuantum, SubtractQuantum
 
 
 def add_quantum(eng, quint_a, quint_b, carry=None):
@@ -335,10 +335,10 @@ def quantum_division(eng, dividend, remainder, divisor):
         for i in range(0, n_dividend - 1):
             combined_reg.append(remainder[i])
 
+        # remainder[-1] is the high bit of the shifted remainder: if it is set, the divisor can be subtracted anyway
+        ComparatorQuantum | (divisor[0:n_dividend], combined_reg, remainder[n_dividend - 1])
         SubtractQuantum | (divisor[0:n_dividend], combined_reg)
-        CNOT | (combined_reg[n_dividend - 1], remainder[n_dividend - 1])
-        with Control(eng, remainder[n_dividend - 1]):
-            AddQuantum | (divisor[0:n_dividend], combined_reg)
+        quantum_conditional_add(eng, divisor[0:n_dividend], combined_reg, [remainder[n_dividend - 1]])
         X | remainder[n_dividend - 1]
 
         remainder.insert(0, dividend[n_dividend - 1])
@@ -373,9 +373,8 @@ def inverse_quantum_division(eng, remainder, quotient, divisor):
         X | quotient[0]
         with Control(eng, quotient[0]):
             SubtractQuantum | (divisor, remainder)
-        CNOT | (remainder[-1], quotient[0])
-
-        AddQuantum | (divisor, remainder)
+        add_quantum(eng, divisor, remainder)
+        ComparatorQuantum | (divisor, remainder, quotient[0])
 
         remainder.insert(n_quotient, quotient[0])
         quotient.insert(n_quotient, remainder[0])
-- 
2.43.0


From e014aa9a663c70b900883dc618d31849b86bfab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:41 +0000
Subject: [PATCH 018/107] fix: emulate the inverse addition with a carry qubit

---
 projectq/libs/math/_gates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projectq/libs/math/_gates.py b/projectq/libs/math/_gates.py
index fa62a21..79dc684 100755
--- a/projectq/libs/math/_gates.py
+++ b/projectq/libs/math/_gates.py
@@ -285,7 +285,7 @@ class _InverseAddQuantumGate(BasicMathGate):
 
     def get_math_function(self, qubits):
         def math_fun(a):  # pylint: disable=invalid-name
-            if len(a) == 3:
+            if len(a) == 3 and a[1] < a[0]:
                 # Flip the last bit of the carry register
                 a[2] ^= 1
 
-- 
2.43.0


From 7ba315f4f75d33616a26d1ea8089a48c4c53fb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:55 +0000
Subject: [PATCH 019/107] fix: compute modular inverses of large numbers
 exactly

---
 projectq/libs/math/_constantmath.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projectq/libs/math/_constantmath.py b/projectq/libs/math/_constantmath.py
index 14c87e7..2f299fe 100755
--- a/projectq/libs/math/_constantmath.py
+++ b/projectq/libs/math/_constantmath.py
@@ -120,7 +120,7 @@ def inv_mod_N(a, N):  # pylint: disable=invalid-name
     r = N
     old_r = a
     while r != 0:
-        q = int(old_r / r)
+        q = old_r // r
         tmp = r
         r = old_r - q * r
         old_r = tmp
-- 
2.43.0


From db56c186b2043452a6f552a24e6619de5936b9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:09 +0000
Subject: [PATCH 020/107] fix: add constants modulo numbers which use all bits
 of the register

---
 projectq/libs/math/_constantmath.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/projectq/libs/math/_constantmath.py b/projectq/libs/math/_constantmath.py
index 2f299fe..737f57e 100755
--- a/projectq/libs/math/_constantmath.py
+++ b/projectq/libs/math/_constantmath.py
@@ -56,6 +56,13 @@ def add_constant_modN(eng, constant, N, quint):  # pylint: disable=invalid-name
     if constant < 0 or constant > N:
         raise ValueError('Pre-condition failed: 0 <= constant < N')
 
+    if 2 * N > 1 << len(quint):
+        # The sums and differences below need one more bit
+        overflow = eng.allocate_qubit()
+        add_constant_modN(eng, constant, N, quint + overflow)
+        del overflow
+        return
+
     AddConstant(constant) | quint
 
     with Compute(eng):
-- 
2.43.0


From 3514d45abc0d46e57d9c6982f28d446d7784cc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:17 +0000
Subject: [PATCH 021/107] fix: emulate modular arithmetic with products beyond
 32 bits in the C++ simulator

---
 projectq/backends/_sim/_cppkernels/simulator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projectq/backends/_sim/_cppkernels/simulator.hpp b/projectq/backends/_sim/_cppkernels/simulator.hpp
index 1a84723..75c92c2 100755
--- a/projectq/backends/_sim/_cppkernels/simulator.hpp
+++ b/projectq/backends/_sim/_cppkernels/simulator.hpp
@@ -279,14 +279,14 @@ public:
     template<class QuReg>
     inline void emulate_math_addConstantModN(int a, int N, const QuReg& quregs, const std::vector<unsigned>& ctrl)
     {
-      emulate_math([a,N](std::vector<int> &res){for(auto& x: res) x = (x + a) % N;}, quregs, ctrl, true);
+      emulate_math([a,N](std::vector<int> &res){for(auto& x: res) x = (static_cast<long long>(x) + a) % N;}, quregs, ctrl, true);
     }
 
     // faster version without calling python
     template<class QuReg>
     inline void emulate_math_multiplyByConstantModN(int a, int N, const QuReg& quregs, const std::vector<unsigned>& ctrl)
     {
-      emulate_math([a,N](std::vector<int> &res){for(auto& x: res) x = (x * a) % N;}, quregs, ctrl, true);
+      emulate_math([a,N](std::vector<int> &res){for(auto& x: res) x = (static_cast<long long>(x) * a) % N;}, quregs, ctrl, true);
     }
 
     calc_type get_expectation_value(TermsDict const& td, std::vector<unsigned> const& ids){
-- 
2.43.0


From ea30ed0a71d32f78bb8d2490aa556b50cc60dd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:42 +0000
Subject: [PATCH 022/107] fix: emulate the addition of constants beyond 32 bits
 in the C++ simulator

---
 projectq/backends/_sim/_simulator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/projectq/backends/_sim/_simulator.py b/projectq/backends/_sim/_simulator.py
index f3365fb..e10b1cb 100755
--- a/projectq/backends/_sim/_simulator.py
+++ b/projectq/backends/_sim/_simulator.py
@@ -377,7 +377,9 @@ class Simulator(BasicEngine):
             else:
                 # individual code for different standard gates to make it faster!
                 if isinstance(cmd.gate, AddConstant):
-                    self._simulator.emulate_math_addConstant(cmd.gate.a, qubitids, [qb.id for qb in cmd.control_qubits])
+                    # the C++ simulator takes 32-bit numbers; the sum is stored modulo 2^n anyway
+                    const = cmd.gate.a % (1 << len(qubitids[0]))
+                    self._simulator.emulate_math_addConstant(const, qubitids, [qb.id for qb in cmd.control_qubits])
                 elif isinstance(cmd.gate, AddConstantModN):
                     self._simulator.emulate_math_addConstantModN(
                         cmd.gate.a,
-- 
2.43.0


From 4d5b5f1fec7202b6c0a9c0ec038af3b9aea720d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:24 +0000
Subject: [PATCH 023/107] fix: keep amplitudes when the Python simulator
 emulates functions which are not injective on unused values

---
 projectq/backends/_sim/_pysim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projectq/backends/_sim/_pysim.py b/projectq/backends/_sim/_pysim.py
index f6fb58f..87d0b2b 100755
--- a/projectq/backends/_sim/_pysim.py
+++ b/projectq/backends/_sim/_pysim.py
@@ -217,9 +217,9 @@ class Simulator:
                     for qb_i, qb_loc in enumerate(qr_loc):
                         if not ((new_i >> qb_loc) & 1) == ((res[qr_i] >> qb_i) & 1):
                             new_i ^= 1 << qb_loc
-                newstate[new_i] = state
+                newstate[new_i] += state
             else:
-                newstate[i] = state
+                newstate[i] += state
 
         self._state = newstate
 
-- 
2.43.0


From 8fe151337049cce808db64f7601be2b1cc36dd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:22 +0000
Subject: [PATCH 024/107] fix: do not change the decomposition rule set when a
 command is replaced

---
 projectq/cengines/_replacer/_replacer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/projectq/cengines/_replacer/_replacer.py b/projectq/cengines/_replacer/_replacer.py
index 69cedf7..8a32755 100755
--- a/projectq/cengines/_replacer/_replacer.py
+++ b/projectq/cengines/_replacer/_replacer.py
@@ -162,7 +162,8 @@ class AutoReplacer(BasicEngine):
                     if level < len(gate_mro):
                         class_name = gate_mro[level].__name__
                         try:
-                            potential_decomps = rules[class_name]
+                            # copy: the rules of the inverse gate are added for this command only
+                            potential_decomps = rules[class_name][:]
                         except KeyError:
                             pass
                         # throw out the ones which don't recognize the command
-- 
2.43.0


From f37050674d7cead05b63d51a25aab33c14ec3b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:55 +0000
Subject: [PATCH 025/107] fix: compile negatively controlled gates when the
 gate set is restricted

---
 projectq/setups/_utils.py            | 5 +++++
 projectq/setups/restrictedgateset.py | 3 +++
 2 files changed, 8 insertions(+)

diff --git a/projectq/setups/_utils.py b/projectq/setups/_utils.py
index 20c531a..a4fdd74 100644
--- a/projectq/setups/_utils.py
+++ b/projectq/setups/_utils.py
@@ -25,6 +25,7 @@ from projectq.cengines import (
     LocalOptimizer,
     TagRemover,
 )
+from projectq.meta import has_negative_control
 from projectq.ops import (
     CNOT,
     QFT,
@@ -44,6 +45,8 @@ def one_and_two_qubit_gates(eng, cmd):  # pylint: disable=unused-argument
         return True
     if eng.next_engine.is_available(cmd):
         return True
+    if has_negative_control(cmd):
+        return False
     if len(all_qubits) <= 2:
         return True
     return False
@@ -135,6 +138,8 @@ def get_engine_list_linear_grid_base(mapper, one_qubit_gates="any", two_qubit_ga
         if isinstance(cmd.gate, ClassicalInstructionGate):
             # This is required to allow Measure, Allocate, Deallocate, Flush
             return True
+        if has_negative_control(cmd):
+            return False
         if one_qubit_gates == "any" and len(all_qubits) == 1:
             return True
         if two_qubit_gates == "any" and len(all_qubits) == 2:
diff --git a/projectq/setups/restrictedgateset.py b/projectq/setups/restrictedgateset.py
index 202bb99..145df68 100644
--- a/projectq/setups/restrictedgateset.py
+++ b/projectq/setups/restrictedgateset.py
@@ -31,6 +31,7 @@ from projectq.cengines import (
     LocalOptimizer,
     TagRemover,
 )
+from projectq.meta import has_negative_control
 from projectq.ops import CNOT, BasicGate, ClassicalInstructionGate, ControlledGate
 
 from ._utils import high_level_gates, one_and_two_qubit_gates
@@ -154,6 +155,8 @@ def get_engine_list(  # pylint: disable=too-many-branches,too-many-statements
         if isinstance(cmd.gate, ClassicalInstructionGate):
             # This is required to allow Measure, Allocate, Deallocate, Flush
             return True
+        if has_negative_control(cmd):
+            return False
         if one_qubit_gates == "any" and len(all_qubits) == 1:
             return True
         if two_qubit_gates == "any" and len(all_qubits) == 2:
-- 
2.43.0


From ba287ee5f04ad473129b077a798831cbc6736dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:51 +0000
Subject: [PATCH 026/107] fix: compile H and Rx to gate sets with Rz and Ry
 only

---
 projectq/setups/_utils.py            | 18 +++++++++++++++++-
 projectq/setups/restrictedgateset.py |  8 ++------
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/projectq/setups/_utils.py b/projectq/setups/_utils.py
index a4fdd74..c77ccd6 100644
--- a/projectq/setups/_utils.py
+++ b/projectq/setups/_utils.py
@@ -32,11 +32,27 @@ from projectq.ops import (
     BasicMathGate,
     ClassicalInstructionGate,
     ControlledGate,
+    H,
+    Rx,
+    Rz,
     Swap,
     get_inverse,
 )
 
 
+def get_rule_set(one_qubit_gates):
+    """
+    Return the decomposition rules used to compile to a given set of one-qubit gates.
+
+    Rx is replaced using H and H is replaced using Rx. If neither of them is in the gate set, but Rz is, H needs to be
+    replaced as any other one-qubit gate, i.e. using Rz and Ry.
+    """
+    rule_set = DecompositionRuleSet(modules=[projectq.libs.math, projectq.setups.decompositions])
+    if one_qubit_gates != "any" and Rz in one_qubit_gates and Rx not in one_qubit_gates:
+        rule_set.decompositions.pop(type(H).__name__, None)
+    return rule_set
+
+
 def one_and_two_qubit_gates(eng, cmd):  # pylint: disable=unused-argument
     """Filter out 1- and 2-qubit gates."""
     all_qubits = [qb for qureg in cmd.all_qubits for qb in qureg]
@@ -106,7 +122,7 @@ def get_engine_list_linear_grid_base(mapper, one_qubit_gates="any", two_qubit_ga
     if one_qubit_gates != "any" and not isinstance(one_qubit_gates, tuple):
         raise TypeError("one_qubit_gates parameter must be 'any' or a tuple.")
 
-    rule_set = DecompositionRuleSet(modules=[projectq.libs.math, projectq.setups.decompositions])
+    rule_set = get_rule_set(one_qubit_gates)
     allowed_gate_classes = []
     allowed_gate_instances = []
     if one_qubit_gates != "any":
diff --git a/projectq/setups/restrictedgateset.py b/projectq/setups/restrictedgateset.py
index 145df68..1cf3eb4 100644
--- a/projectq/setups/restrictedgateset.py
+++ b/projectq/setups/restrictedgateset.py
@@ -21,12 +21,8 @@ the choice of gates).
 
 import inspect
 
-import projectq
-import projectq.libs.math
-import projectq.setups.decompositions
 from projectq.cengines import (
     AutoReplacer,
-    DecompositionRuleSet,
     InstructionFilter,
     LocalOptimizer,
     TagRemover,
@@ -34,7 +30,7 @@ from projectq.cengines import (
 from projectq.meta import has_negative_control
 from projectq.ops import CNOT, BasicGate, ClassicalInstructionGate, ControlledGate
 
-from ._utils import high_level_gates, one_and_two_qubit_gates
+from ._utils import get_rule_set, high_level_gates, one_and_two_qubit_gates
 
 
 def default_chooser(cmd, decomposition_list):  # pylint: disable=unused-argument
@@ -98,7 +94,7 @@ def get_engine_list(  # pylint: disable=too-many-branches,too-many-statements
     if not isinstance(other_gates, tuple):
         raise TypeError("other_gates parameter must be a tuple.")
 
-    rule_set = DecompositionRuleSet(modules=[projectq.libs.math, projectq.setups.decompositions])
+    rule_set = get_rule_set(one_qubit_gates)
     allowed_gate_classes = []  # n-qubit gates
     allowed_gate_instances = []
     allowed_gate_classes1 = []  # 1-qubit gates
-- 
2.43.0


From 2f2855b1bafe1a292d40c5fa81d46c75ab7d4b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:25 +0000
Subject: [PATCH 027/107] fix: compile two-qubit gates for the AWS Braket
 devices

---
 projectq/setups/awsbraket.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/projectq/setups/awsbraket.py b/projectq/setups/awsbraket.py
index 46247ca..88d0179 100644
--- a/projectq/setups/awsbraket.py
+++ b/projectq/setups/awsbraket.py
@@ -28,6 +28,7 @@ that will be used in the backend.
 from projectq.backends._awsbraket._awsbraket_boto3_client import show_devices
 from projectq.backends._exceptions import DeviceNotHandledError, DeviceOfflineError
 from projectq.ops import (
+    CNOT,
     Barrier,
     H,
     R,
@@ -67,21 +68,21 @@ def get_engine_list(credentials=None, device=None):
     if device == 'SV1':
         setup = restrictedgateset.get_engine_list(
             one_qubit_gates=(R, H, Rx, Ry, Rz, S, Sdag, T, Tdag, X, Y, Z, SqrtX),
-            two_qubit_gates=(Swap,),
+            two_qubit_gates=(CNOT, Swap),
             other_gates=(Barrier,),
         )
         return setup
     if device == 'Aspen-8':
         setup = restrictedgateset.get_engine_list(
             one_qubit_gates=(R, H, Rx, Ry, Rz, S, Sdag, T, Tdag, X, Y, Z),
-            two_qubit_gates=(Swap,),
+            two_qubit_gates=(CNOT, Swap),
             other_gates=(Barrier,),
         )
         return setup
     if device == 'IonQ Device':
         setup = restrictedgateset.get_engine_list(
             one_qubit_gates=(H, Rx, Ry, Rz, S, Sdag, T, Tdag, X, Y, Z, SqrtX),
-            two_qubit_gates=(Swap,),
+            two_qubit_gates=(CNOT, Swap),
             other_gates=(Barrier,),
         )
         return setup
-- 
2.43.0


From df3126efaa1a80a82e265c12c4f3cd2078d44b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:50 +0000
Subject: [PATCH 028/107] fix: replace CNOT using CZ when the gate set contains
 CZ but not Rxx

---
 projectq/setups/_utils.py            | 21 +++++++++++++--------
 projectq/setups/restrictedgateset.py |  2 +-
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/projectq/setups/_utils.py b/projectq/setups/_utils.py
index c77ccd6..d16ab04 100644
--- a/projectq/setups/_utils.py
+++ b/projectq/setups/_utils.py
@@ -32,25 +32,30 @@ from projectq.ops import (
     BasicMathGate,
     ClassicalInstructionGate,
     ControlledGate,
-    H,
     Rx,
+    Rxx,
     Rz,
     Swap,
     get_inverse,
 )
+from projectq.setups.decompositions import cnot2rxx, h2rx
 
 
-def get_rule_set(one_qubit_gates):
+def get_rule_set(one_qubit_gates, two_qubit_gates):
     """
-    Return the decomposition rules used to compile to a given set of one-qubit gates.
+    Return the decomposition rules used to compile to a given set of one- and two-qubit gates.
 
     Rx is replaced using H and H is replaced using Rx. If neither of them is in the gate set, but Rz is, H needs to be
-    replaced as any other one-qubit gate, i.e. using Rz and Ry.
+    replaced as any other one-qubit gate, i.e. using Rz and Ry. CNOT must be replaced using CZ unless Rxx is available.
     """
-    rule_set = DecompositionRuleSet(modules=[projectq.libs.math, projectq.setups.decompositions])
+    unusable = []
     if one_qubit_gates != "any" and Rz in one_qubit_gates and Rx not in one_qubit_gates:
-        rule_set.decompositions.pop(type(H).__name__, None)
-    return rule_set
+        unusable += h2rx.all_defined_decomposition_rules
+    if two_qubit_gates != "any" and Rxx not in two_qubit_gates:
+        unusable += cnot2rxx.all_defined_decomposition_rules
+    modules = [projectq.libs.math, projectq.setups.decompositions]
+    rules = [rule for module in modules for rule in module.all_defined_decomposition_rules]
+    return DecompositionRuleSet(rules=[rule for rule in rules if rule not in unusable])
 
 
 def one_and_two_qubit_gates(eng, cmd):  # pylint: disable=unused-argument
@@ -122,7 +127,7 @@ def get_engine_list_linear_grid_base(mapper, one_qubit_gates="any", two_qubit_ga
     if one_qubit_gates != "any" and not isinstance(one_qubit_gates, tuple):
         raise TypeError("one_qubit_gates parameter must be 'any' or a tuple.")
 
-    rule_set = get_rule_set(one_qubit_gates)
+    rule_set = get_rule_set(one_qubit_gates, two_qubit_gates)
     allowed_gate_classes = []
     allowed_gate_instances = []
     if one_qubit_gates != "any":
diff --git a/projectq/setups/restrictedgateset.py b/projectq/setups/restrictedgateset.py
index 1cf3eb4..17c72ce 100644
--- a/projectq/setups/restrictedgateset.py
+++ b/projectq/setups/restrictedgateset.py
@@ -94,7 +94,7 @@ def get_engine_list(  # pylint: disable=too-many-branches,too-many-statements
     if not isinstance(other_gates, tuple):
         raise TypeError("other_gates parameter must be a tuple.")
 
-    rule_set = get_rule_set(one_qubit_gates)
+    rule_set = get_rule_set(one_qubit_gates, two_qubit_gates)
     allowed_gate_classes = []  # n-qubit gates
     allowed_gate_instances = []
     allowed_gate_classes1 = []  # 1-qubit gates
-- 
2.43.0


From 03cc78c34481cc057008693886d95d3f8f7c9639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:18 +0000
Subject: [PATCH 029/107] fix: do not ask the mapping function for the location
 of a flush

---
 projectq/cengines/_manualmapper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/projectq/cengines/_manualmapper.py b/projectq/cengines/_manualmapper.py
index 4e77010..78dd3aa 100755
--- a/projectq/cengines/_manualmapper.py
+++ b/projectq/cengines/_manualmapper.py
@@ -51,6 +51,7 @@ class ManualMapper(BasicMapperEngine):
             ids = [qb.id for qr in cmd.qubits for qb in qr]
             ids += [qb.id for qb in cmd.control_qubits]
             for qubit_id in ids:
-                if qubit_id not in self.current_mapping:
+                # a flush command acts on a pseudo qubit with id -1, which has no location
+                if qubit_id != -1 and qubit_id not in self.current_mapping:
                     self._current_mapping[qubit_id] = self.map(qubit_id)
             self._send_cmd_with_mapped_ids(cmd)
-- 
2.43.0


From 18afbcb4f60569c747ffe15c7fb27c0372702e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:31 +0000
Subject: [PATCH 030/107] fix: do not place two live qubits at one location
 after a flush

---
 projectq/backends/_ionq/_ionq_mapper.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/projectq/backends/_ionq/_ionq_mapper.py b/projectq/backends/_ionq/_ionq_mapper.py
index e77b92c..29f7885 100644
--- a/projectq/backends/_ionq/_ionq_mapper.py
+++ b/projectq/backends/_ionq/_ionq_mapper.py
@@ -43,6 +43,10 @@ class BoundedQubitMapper(BasicMapperEngine):
             if qubit_id in current_mapping:
                 raise RuntimeError(f"Qubit with id {qubit_id} has already been allocated!")
 
+            # after a flush, skip the locations of qubits which are still alive
+            while self._qubit_idx in current_mapping.values():
+                self._qubit_idx += 1
+
             if self._qubit_idx >= self.max_qubits:
                 raise RuntimeError(f"Cannot allocate more than {self.max_qubits} qubits!")
 
-- 
2.43.0


From 3b7b26636f4a570f2356f0dd380a8d29d21a5d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:45 +0000
Subject: [PATCH 031/107] fix: keep a negative control when flipping a CNOT

---
 projectq/cengines/_swapandcnotflipper.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/projectq/cengines/_swapandcnotflipper.py b/projectq/cengines/_swapandcnotflipper.py
index 997274a..2c6be87 100755
--- a/projectq/cengines/_swapandcnotflipper.py
+++ b/projectq/cengines/_swapandcnotflipper.py
@@ -18,7 +18,7 @@ It also translates Swap gates to CNOTs if necessary.
 """
 from copy import deepcopy
 
-from projectq.meta import get_control_count
+from projectq.meta import get_control_count, has_negative_control
 from projectq.ops import CNOT, NOT, All, H, Swap
 
 from ._basics import BasicEngine, ForwarderEngine
@@ -107,9 +107,14 @@ class SwapAndCNOTFlipper(BasicEngine):
         control[0].engine = forwarder_eng
         if flip:
             # flip the CNOT using Hadamard gates:
+            negative_control = has_negative_control(cmd)
+            if negative_control:
+                NOT | control
             All(H) | (control + target)
             CNOT | (target, control)
             All(H) | (control + target)
+            if negative_control:
+                NOT | control
         else:
             CNOT | (control, target)
 
-- 
2.43.0


From 8a6b5536860e4811621aa7b09efbfc75a0b83e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:36 +0000
Subject: [PATCH 032/107] fix: reject wrongly sized registers and bit strings
 in simulator queries

---
 projectq/backends/_sim/_cppkernels/simulator.hpp | 16 ++++++++++++----
 projectq/backends/_sim/_pysim.py                 | 10 ++++++++--
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/projectq/backends/_sim/_cppkernels/simulator.hpp b/projectq/backends/_sim/_cppkernels/simulator.hpp
index 75c92c2..736ab20 100755
--- a/projectq/backends/_sim/_cppkernels/simulator.hpp
+++ b/projectq/backends/_sim/_cppkernels/simulator.hpp
@@ -27,6 +27,7 @@
 #include "intrin/alignedallocator.hpp"
 #include "fusion.hpp"
 #include <map>
+#include <set>
 #include <cassert>
 #include <algorithm>
 #include <tuple>
@@ -354,6 +355,8 @@ public:
         run();
         if (!check_ids(ids))
             throw(std::runtime_error("get_probability(): Unknown qubit id. Please make sure you have called eng.flush()."));
+        if (bit_string.size() < ids.size())
+            throw(std::length_error("get_probability(): bit_string is too short"));
         std::size_t mask = 0, bit_str = 0;
         for (unsigned i = 0; i < ids.size(); ++i){
             mask |= 1UL << map_[ids[i]];
@@ -376,10 +379,13 @@ public:
             if (map_.count(ids[i]) == 0)
                 break;
             chk |= 1UL << map_[ids[i]];
-            index |= (bit_string[i]?1UL:0UL) << map_[ids[i]];
+            if (i < bit_string.size())
+                index |= (bit_string[i]?1UL:0UL) << map_[ids[i]];
         }
-        if (chk + 1 != vec_.size())
+        if (chk + 1 != vec_.size() || ids.size() != map_.size())
             throw(std::runtime_error("The second argument to get_amplitude() must be a permutation of all allocated qubits. Please make sure you have called eng.flush()."));
+        if (bit_string.size() != ids.size())
+            throw(std::length_error("get_amplitude(): bit_string and ids size mismatch"));
         return vec_[index];
     }
 
@@ -440,9 +446,11 @@ public:
     void set_wavefunction(StateVector const& wavefunction, std::vector<unsigned> const& ordering){
         run();
         // make sure there are 2^n amplitudes for n qubits
-        assert(wavefunction.size() == (1UL << ordering.size()));
+        if (wavefunction.size() != (1UL << ordering.size()))
+            throw(std::length_error("set_wavefunction(): The wavefunction must contain 2^n elements!"));
         // check that all qubits have been allocated previously
-        if (map_.size() != ordering.size() || !check_ids(ordering))
+        std::set<unsigned> const unique_ids(ordering.begin(), ordering.end());
+        if (map_.size() != ordering.size() || unique_ids.size() != ordering.size() || !check_ids(ordering))
             throw(std::runtime_error("set_wavefunction(): Invalid mapping provided. Please make sure all qubits have been allocated previously (call eng.flush())."));
 
         // set mapping and wavefunction
diff --git a/projectq/backends/_sim/_pysim.py b/projectq/backends/_sim/_pysim.py
index 87d0b2b..279c829 100755
--- a/projectq/backends/_sim/_pysim.py
+++ b/projectq/backends/_sim/_pysim.py
@@ -304,11 +304,13 @@ class Simulator:
         Raises:
             RuntimeError if the second argument is not a permutation of all allocated qubits.
         """
-        if not set(ids) == set(self._map):
+        if not set(ids) == set(self._map) or len(ids) != len(self._map):
             raise RuntimeError(
                 "The second argument to get_amplitude() must be a permutation of all allocated qubits. "
                 "Please make sure you have called eng.flush()."
             )
+        if len(bit_string) != len(ids):
+            raise ValueError('get_amplitude(): The number of ids and bits do not match!')
         index = 0
         for i, qubit_id in enumerate(ids):
             index |= bit_string[i] << self._map[qubit_id]
@@ -446,7 +448,11 @@ class Simulator:
             raise ValueError('The wavefunction must contain 2^n elements!')
 
         # all qubits must have been allocated before
-        if not all(qubit_id in self._map for qubit_id in ordering) or len(self._map) != len(ordering):
+        if (
+            not all(qubit_id in self._map for qubit_id in ordering)
+            or len(self._map) != len(ordering)
+            or len(set(ordering)) != len(ordering)
+        ):
             raise RuntimeError(
                 "set_wavefunction(): Invalid mapping provided. Please make sure all qubits have been "
                 "allocated previously (call eng.flush())."
-- 
2.43.0


From 3b508c709a95d3d6b5bb4add12d1a3273da71c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:16 +0000
Subject: [PATCH 033/107] fix: reject unknown qubits in expectation values and
 operator applications

---
 projectq/backends/_sim/_cppkernels/simulator.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/projectq/backends/_sim/_cppkernels/simulator.hpp b/projectq/backends/_sim/_cppkernels/simulator.hpp
index 736ab20..34e9fa6 100755
--- a/projectq/backends/_sim/_cppkernels/simulator.hpp
+++ b/projectq/backends/_sim/_cppkernels/simulator.hpp
@@ -292,6 +292,8 @@ public:
 
     calc_type get_expectation_value(TermsDict const& td, std::vector<unsigned> const& ids){
         run();
+        if (!check_ids(ids))
+            throw(std::runtime_error("get_expectation_value(): Unknown qubit id. Please make sure you have called eng.flush()."));
         calc_type expectation = 0.;
 
         StateVector current_state; // avoid costly memory reallocations
@@ -324,6 +326,8 @@ public:
 
     void apply_qubit_operator(ComplexTermsDict const& td, std::vector<unsigned> const& ids){
         run();
+        if (!check_ids(ids))
+            throw(std::runtime_error("apply_qubit_operator(): Unknown qubit id. Please make sure you have called eng.flush()."));
         StateVector new_state, current_state; // avoid costly memory reallocations
         if( tmpBuff1_.capacity() >= vec_.size() )
           std::swap(tmpBuff1_, new_state);
-- 
2.43.0


From a0835d71b2ef7e3b0ebe11f56d06c218c45c8843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:54 +0000
Subject: [PATCH 034/107] fix: never measure an outcome of probability zero

---
 projectq/backends/_sim/_cppkernels/simulator.hpp | 12 +++++++++---
 projectq/backends/_sim/_pysim.py                 | 14 ++++++++------
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/projectq/backends/_sim/_cppkernels/simulator.hpp b/projectq/backends/_sim/_cppkernels/simulator.hpp
index 34e9fa6..9eca405 100755
--- a/projectq/backends/_sim/_cppkernels/simulator.hpp
+++ b/projectq/backends/_sim/_cppkernels/simulator.hpp
@@ -155,10 +155,16 @@ public:
 
         // pick entry at random with probability |entry|^2
         std::size_t pick = 0;
-        while (P < rnd && pick < vec_.size())
-            P += std::norm(vec_[pick++]);
+        std::size_t last = 0; // last entry with non-zero probability
+        while ((P < rnd || P == 0.) && pick < vec_.size()){
+            auto const p = std::norm(vec_[pick]);
+            if (p > 0.)
+                last = pick;
+            P += p;
+            pick++;
+        }
 
-        pick--;
+        pick = last;
         // determine result vector (boolean values for each qubit)
         // and create mask to detect bad entries (i.e., entries that don't agree with measurement)
         res = std::vector<bool>(ids.size());
diff --git a/projectq/backends/_sim/_pysim.py b/projectq/backends/_sim/_pysim.py
index 279c829..fe26d2c 100755
--- a/projectq/backends/_sim/_pysim.py
+++ b/projectq/backends/_sim/_pysim.py
@@ -75,12 +75,14 @@ class Simulator:
         """
         random_outcome = random.random()
         val = 0.0
-        i_picked = 0
-        while val < random_outcome and i_picked < len(self._state):
-            val += _np.abs(self._state[i_picked]) ** 2
-            i_picked += 1
-
-        i_picked -= 1
+        i = 0
+        i_picked = 0  # last entry with non-zero probability
+        while (val < random_outcome or val == 0.0) and i < len(self._state):
+            prob = _np.abs(self._state[i]) ** 2
+            if prob > 0.0:
+                i_picked = i
+            val += prob
+            i += 1
 
         pos = [self._map[ID] for ID in ids]
         res = [False] * len(pos)
-- 
2.43.0


From 6df8bda8713535ac277490618336a451eda2f693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:07 +0000
Subject: [PATCH 035/107] fix: do not take controlled rotations for one-qubit
 gates in linear and grid setups

---
 projectq/setups/_utils.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/projectq/setups/_utils.py b/projectq/setups/_utils.py
index d16ab04..8cfd4f1 100644
--- a/projectq/setups/_utils.py
+++ b/projectq/setups/_utils.py
@@ -128,12 +128,13 @@ def get_engine_list_linear_grid_base(mapper, one_qubit_gates="any", two_qubit_ga
         raise TypeError("one_qubit_gates parameter must be 'any' or a tuple.")
 
     rule_set = get_rule_set(one_qubit_gates, two_qubit_gates)
-    allowed_gate_classes = []
+    allowed_gate_classes1 = []
+    allowed_gate_classes2 = []
     allowed_gate_instances = []
     if one_qubit_gates != "any":
         for gate in one_qubit_gates:
             if inspect.isclass(gate):
-                allowed_gate_classes.append(gate)
+                allowed_gate_classes1.append(gate)
             else:
                 allowed_gate_instances.append((gate, 0))
     if two_qubit_gates != "any":
@@ -143,13 +144,14 @@ def get_engine_list_linear_grid_base(mapper, one_qubit_gates="any", two_qubit_ga
                 #  separate treatment
                 if isinstance(gate, ControlledGate):  # pragma: no cover
                     raise RuntimeError('Support for controlled gate not implemented!')
-                allowed_gate_classes.append(gate)
+                allowed_gate_classes2.append(gate)
             else:
                 if isinstance(gate, ControlledGate):
                     allowed_gate_instances.append((gate._gate, gate._n))  # pylint: disable=protected-access
                 else:
                     allowed_gate_instances.append((gate, 0))
-    allowed_gate_classes = tuple(allowed_gate_classes)
+    allowed_gate_classes1 = tuple(allowed_gate_classes1)
+    allowed_gate_classes2 = tuple(allowed_gate_classes2)
     allowed_gate_instances = tuple(allowed_gate_instances)
 
     def low_level_gates(eng, cmd):  # pylint: disable=unused-argument
@@ -165,7 +167,9 @@ def get_engine_list_linear_grid_base(mapper, one_qubit_gates="any", two_qubit_ga
             return True
         if two_qubit_gates == "any" and len(all_qubits) == 2:
             return True
-        if isinstance(cmd.gate, allowed_gate_classes):
+        if isinstance(cmd.gate, allowed_gate_classes1) and len(all_qubits) == 1:
+            return True
+        if isinstance(cmd.gate, allowed_gate_classes2) and len(all_qubits) == 2:
             return True
         if (cmd.gate, len(cmd.control_qubits)) in allowed_gate_instances:
             return True
-- 
2.43.0


From 403bd0f9ab5076ad6ea8e4998ad4aec6e0bfc842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:44 +0000
Subject: [PATCH 036/107] fix: accept large function values in the emulation of
 math gates

---
 projectq/backends/_sim/_simulator.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/projectq/backends/_sim/_simulator.py b/projectq/backends/_sim/_simulator.py
index e10b1cb..c875e2d 100755
--- a/projectq/backends/_sim/_simulator.py
+++ b/projectq/backends/_sim/_simulator.py
@@ -396,7 +396,14 @@ class Simulator(BasicEngine):
                     )
                 else:
                     math_fun = cmd.gate.get_math_function(cmd.qubits)
-                    self._simulator.emulate_math(math_fun, qubitids, [qb.id for qb in cmd.control_qubits])
+
+                    def truncated_math_fun(args):
+                        # the C++ simulator takes 32-bit numbers; only the bits which fit into the registers are stored
+                        return [
+                            int(value) & ((1 << len(qureg)) - 1) for value, qureg in zip(math_fun(args), cmd.qubits)
+                        ]
+
+                    self._simulator.emulate_math(truncated_math_fun, qubitids, [qb.id for qb in cmd.control_qubits])
         elif isinstance(cmd.gate, TimeEvolution):
             op = [(list(term), coeff) for (term, coeff) in cmd.gate.hamiltonian.terms.items()]
             time = cmd.gate.time
-- 
2.43.0


From 4f495ec3d6a6e95482555c9b6fe72f9664642f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:56 +0000
Subject: [PATCH 037/107] fix: apply the time evolution under the zero operator

---
 projectq/ops/_time_evolution.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/projectq/ops/_time_evolution.py b/projectq/ops/_time_evolution.py
index 84fc236..d06e3d5 100644
--- a/projectq/ops/_time_evolution.py
+++ b/projectq/ops/_time_evolution.py
@@ -172,6 +172,9 @@ class TimeEvolution(BasicGate):
         qubits = self.make_tuple_of_qureg(qubits)
         if len(qubits) != 1:
             raise TypeError("Only one qubit or qureg allowed.")
+        # The evolution under a hamiltonian without any terms is the identity
+        if not self.hamiltonian.terms:
+            return
         # Check that if hamiltonian has only an identity term,
         # apply a global phase:
         if len(self.hamiltonian.terms) == 1 and () in self.hamiltonian.terms:
-- 
2.43.0


From 5e7411da875707bda46ab2ca7da36a55ff7942b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:11 +0000
Subject: [PATCH 038/107] fix: allow adding or subtracting a QubitOperator to
 or from itself in place

---
 projectq/ops/_qubit_operator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projectq/ops/_qubit_operator.py b/projectq/ops/_qubit_operator.py
index aa40a68..fbd9866 100644
--- a/projectq/ops/_qubit_operator.py
+++ b/projectq/ops/_qubit_operator.py
@@ -502,7 +502,7 @@ class QubitOperator(BasicGate):
             TypeError: Cannot add invalid type.
         """
         if isinstance(addend, QubitOperator):
-            for term in addend.terms:
+            for term in list(addend.terms):
                 if term in self.terms:
                     if abs(addend.terms[term] + self.terms[term]) > 0.0:
                         self.terms[term] += addend.terms[term]
@@ -531,7 +531,7 @@ class QubitOperator(BasicGate):
             TypeError: Cannot subtract invalid type from QubitOperator.
         """
         if isinstance(subtrahend, QubitOperator):
-            for term in subtrahend.terms:
+            for term in list(subtrahend.terms):
                 if term in self.terms:
                     if abs(self.terms[term] - subtrahend.terms[term]) > 0.0:
                         self.terms[term] -= subtrahend.terms[term]
-- 
2.43.0


From b6d7900b8d1613bccb47ea99e67bb2d53fbbeaa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:22 +0000
Subject: [PATCH 039/107] fix: reject QubitOperator actions which are not a
 single Pauli matrix

---
 projectq/ops/_qubit_operator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projectq/ops/_qubit_operator.py b/projectq/ops/_qubit_operator.py
index fbd9866..313cfff 100644
--- a/projectq/ops/_qubit_operator.py
+++ b/projectq/ops/_qubit_operator.py
@@ -145,7 +145,7 @@ class QubitOperator(BasicGate):
                     if not isinstance(local_operator, tuple) or len(local_operator) != 2:
                         raise ValueError("term specified incorrectly.")
                     qubit_num, action = local_operator
-                    if not isinstance(action, str) or action not in 'XYZ':
+                    if not isinstance(action, str) or action not in ('X', 'Y', 'Z'):
                         raise ValueError("Invalid action provided: must be string 'X', 'Y', or 'Z'.")
                     if not (isinstance(qubit_num, int) and qubit_num >= 0):
                         raise QubitOperatorError(
@@ -164,7 +164,7 @@ class QubitOperator(BasicGate):
             # Test that list_ops has correct format of tuples
             for local_operator in list_ops:
                 qubit_num, action = local_operator
-                if not isinstance(action, str) or action not in 'XYZ':
+                if not isinstance(action, str) or action not in ('X', 'Y', 'Z'):
                     raise ValueError("Invalid action provided: must be string 'X', 'Y', or 'Z'.")
                 if not (isinstance(qubit_num, int) and qubit_num >= 0):
                     raise QubitOperatorError("Invalid qubit number provided to QubitTerm: must be a non-negative int.")
-- 
2.43.0


From b52ed17ae76f0b864c7405426f4a9ce34d4f1dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:45 +0000
Subject: [PATCH 040/107] fix: accept real coefficients stored as complex
 numbers in expectation values

---
 projectq/backends/_sim/_simulator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/projectq/backends/_sim/_simulator.py b/projectq/backends/_sim/_simulator.py
index c875e2d..a3ef2de 100755
--- a/projectq/backends/_sim/_simulator.py
+++ b/projectq/backends/_sim/_simulator.py
@@ -163,7 +163,10 @@ class Simulator(BasicEngine):
         for term, _ in qubit_operator.terms.items():
             if not term == () and term[-1][0] >= num_qubits:
                 raise Exception("qubit_operator acts on more qubits than contained in the qureg.")
-        operator = [(list(term), coeff) for (term, coeff) in qubit_operator.terms.items()]
+        # real coefficients may be stored as complex numbers (e.g., after multiplying operators)
+        operator = [
+            (list(term), coeff.real if coeff.imag == 0 else coeff) for (term, coeff) in qubit_operator.terms.items()
+        ]
         return self._simulator.get_expectation_value(operator, [qb.id for qb in qureg])
 
     def apply_qubit_operator(self, qubit_operator, qureg):
-- 
2.43.0


From e9f29c5bd30d7840bb973009e018619574bfb18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:40 +0000
Subject: [PATCH 041/107] fix: decline negative controls and controlled
 measurements in the classical simulator

---
 projectq/backends/_sim/_classical_simulator.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/projectq/backends/_sim/_classical_simulator.py b/projectq/backends/_sim/_classical_simulator.py
index f873d10..3e7996d 100755
--- a/projectq/backends/_sim/_classical_simulator.py
+++ b/projectq/backends/_sim/_classical_simulator.py
@@ -15,7 +15,7 @@
 """A simulator that only permits classical operations, for faster/easier testing."""
 
 from projectq.cengines import BasicEngine
-from projectq.meta import LogicalQubitIDTag
+from projectq.meta import LogicalQubitIDTag, has_negative_control
 from projectq.ops import Allocate, BasicMathGate, Deallocate, FlushGate, Measure, XGate
 from projectq.types import WeakQubitRef
 
@@ -176,6 +176,9 @@ class ClassicalSimulator(BasicEngine):
 
     def is_available(self, cmd):
         """Test whether a Command is supported by a compiler engine."""
+        if has_negative_control(cmd):
+            return False
+
         return (
             cmd.gate == Measure
             or cmd.gate == Allocate
@@ -198,7 +201,13 @@ class ClassicalSimulator(BasicEngine):
         if isinstance(cmd.gate, FlushGate):
             return
 
+        if has_negative_control(cmd):
+            raise ValueError('Negative controls are not supported!')
+
         if cmd.gate == Measure:
+            if cmd.control_qubits:
+                raise ValueError('Cannot have control qubits with a measurement gate!')
+
             for qureg in cmd.qubits:
                 for qubit in qureg:
                     # Check if a mapper assigned a different logical id
-- 
2.43.0


From 14e8f470dc2dbbab3d8598bf38cf8d99b1d5f35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:55 +0000
Subject: [PATCH 042/107] fix: respect the target order of gates in the unitary
 simulator

---
 projectq/backends/_unitary.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/projectq/backends/_unitary.py b/projectq/backends/_unitary.py
index a8941b1..191bddf 100644
--- a/projectq/backends/_unitary.py
+++ b/projectq/backends/_unitary.py
@@ -58,7 +58,8 @@ def _qidmask(target_ids, control_ids, n_qubits):
     else:
         irel_mask = np.array(range(perms.shape[0]))
         mask_list.append(np.intersect1d(irel_mask, cmask))
-    return mask_list
+    # Order the entries of each mask such that the first target is the least significant bit of the gate matrix
+    return [mask[np.argsort(sum(((mask >> pos) & 1) << i for i, pos in enumerate(target_ids)))] for mask in mask_list]
 
 
 class UnitarySimulator(BasicEngine):
-- 
2.43.0


From d4eae8ac467fddb5d4fa22fa9d777952623eb132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:09 +0000
Subject: [PATCH 043/107] fix: keep track of the state across flushes,
 measurements and releases in the unitary simulator

---
 projectq/backends/_unitary.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/projectq/backends/_unitary.py b/projectq/backends/_unitary.py
index 191bddf..a8e1261 100644
--- a/projectq/backends/_unitary.py
+++ b/projectq/backends/_unitary.py
@@ -97,7 +97,7 @@ class UnitarySimulator(BasicEngine):
         self._num_qubits = 0
         self._is_valid = True
         self._is_flushed = False
-        self._state = [1]
+        self._state = np.array([1], dtype=complex)
         self._history = []
 
     @property
@@ -172,9 +172,20 @@ class UnitarySimulator(BasicEngine):
 
     def _flush(self):
         """Flush the simulator state."""
-        if not self._is_flushed:
-            self._is_flushed = True
-            self._state = self._unitary @ self._state
+        self._is_flushed = True
+
+    def _remove_qubit(self, qubit_id):
+        """
+        Remove a qubit from the quantum state.
+
+        Args:
+            qubit_id (int): ID of the qubit to remove.
+        """
+        (value,) = self.measure_qubits([qubit_id])
+        pos = self._qubit_map.pop(qubit_id)
+        self._qubit_map = {key: val - 1 if val > pos else val for key, val in self._qubit_map.items()}
+        self._num_qubits -= 1
+        self._state = self._state.reshape((-1, 2, 2**pos))[:, int(value), :].reshape(-1)
 
     def _handle(self, cmd):
         """
@@ -190,12 +201,10 @@ class UnitarySimulator(BasicEngine):
             self._qubit_map[cmd.qubits[0][0].id] = self._num_qubits
             self._num_qubits += 1
             self._unitary = np.kron(np.identity(2), self._unitary)
-            self._state.extend([0] * len(self._state))
+            self._state = np.kron([1, 0], self._state)
 
         elif isinstance(cmd.gate, DeallocateQubitGate):
-            pos = self._qubit_map[cmd.qubits[0][0].id]
-            self._qubit_map = {key: value - 1 if value > pos else value for key, value in self._qubit_map.items()}
-            self._num_qubits -= 1
+            self._remove_qubit(cmd.qubits[0][0].id)
             self._is_valid = False
 
         elif isinstance(cmd.gate, MeasureGate):
@@ -232,7 +241,6 @@ class UnitarySimulator(BasicEngine):
                 )
                 self._history.append(self._unitary)
                 self._unitary = np.identity(2**self._num_qubits, dtype=complex)
-                self._state = np.array([1] + ([0] * (2**self._num_qubits - 1)), dtype=complex)
                 self._is_valid = True
 
             self._is_flushed = False
@@ -245,6 +253,7 @@ class UnitarySimulator(BasicEngine):
                 cache = np.identity(2**self._num_qubits, dtype=complex)
                 cache[np.ix_(mask, mask)] = cmd.gate.matrix
                 self._unitary = cache @ self._unitary
+                self._state = cache @ self._state
 
     def measure_qubits(self, ids):
         """
-- 
2.43.0


From 484b4e5e25532aa186f958e769081402700c8b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:25 +0000
Subject: [PATCH 044/107] fix: never measure an outcome of probability zero
 with the unitary simulator

---
 projectq/backends/_unitary.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/projectq/backends/_unitary.py b/projectq/backends/_unitary.py
index a8e1261..3552570 100644
--- a/projectq/backends/_unitary.py
+++ b/projectq/backends/_unitary.py
@@ -267,12 +267,14 @@ class UnitarySimulator(BasicEngine):
         """
         random_outcome = random.random()
         val = 0.0
-        i_picked = 0
-        while val < random_outcome and i_picked < len(self._state):
-            val += np.abs(self._state[i_picked]) ** 2
-            i_picked += 1
-
-        i_picked -= 1
+        i = 0
+        i_picked = 0  # last entry with non-zero probability
+        while (val < random_outcome or val == 0.0) and i < len(self._state):
+            prob = np.abs(self._state[i]) ** 2
+            if prob > 0.0:
+                i_picked = i
+            val += prob
+            i += 1
 
         pos = [self._qubit_map[ID] for ID in ids]
         res = [False] * len(pos)
-- 
2.43.0


From 18d057efabdaf53e84cef18c9ff71f7d6c9f108a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:38 +0000
Subject: [PATCH 045/107] fix: define every style and node that a circuit
 drawing refers to

---
 projectq/backends/_circuits/_to_latex.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/projectq/backends/_circuits/_to_latex.py b/projectq/backends/_circuits/_to_latex.py
index c2f870b..49904d3 100755
--- a/projectq/backends/_circuits/_to_latex.py
+++ b/projectq/backends/_circuits/_to_latex.py
@@ -181,18 +181,18 @@ def _header(settings):
     gate_style += "]\n"
 
     gate_style += (
-        "\\tikzstyle{{operator}}=[basic,minimum size=1.5em]\n"
+        "\\tikzstyle{operator}=[basic,minimum size=1.5em]\n"
         f"\\tikzstyle{{phase}}=[fill=black,shape=circle,minimum size={settings['control']['size']}cm,"
         "inner sep=0pt,outer sep=0pt,draw=black"
     )
     if settings['control']['shadow']:
         gate_style += ",basicshadow"
     gate_style += (
-        "]\n\\tikzstyle{{none}}=[inner sep=0pt,outer sep=-.5pt,minimum height=0.5cm+1pt]\n"
-        "\\tikzstyle{{measure}}=[operator,inner sep=0pt,"
+        "]\n\\tikzstyle{none}=[inner sep=0pt,outer sep=-.5pt,minimum height=0.5cm+1pt]\n"
+        "\\tikzstyle{measure}=[operator,inner sep=0pt,"
         f"minimum height={settings['gates']['MeasureGate']['height']}cm,"
         f"minimum width={settings['gates']['MeasureGate']['width']}cm]\n"
-        "\\tikzstyle{{xstyle}}=[circle,basic,minimum height="
+        "\\tikzstyle{xstyle}=[circle,basic,minimum height="
     )
     x_gate_radius = min(settings['gates']['XGate']['height'], settings['gates']['XGate']['width'])
     gate_style += f"{x_gate_radius}cm,minimum width={x_gate_radius}cm,inner sep=-1pt,{settings['lines']['style']}]\n"
@@ -450,7 +450,7 @@ class _Circ2Tikz:  # pylint: disable=too-few-public-methods
         # pylint: disable=consider-using-f-string
         op_mid = f"line{'{}-{}'.format(*lines)}_gate{self.op_count[lines[0]]}"
         dagger = '^{{\\dagger}}' if daggered else ''
-        gate_str += f"\n\\node[xstyle] ({op}) at ({pos},-{midpoint}){{\\scriptsize $\\frac{{1}}{{2}}{dagger}$}};"
+        gate_str += f"\n\\node[xstyle] ({op_mid}) at ({pos},-{midpoint}){{\\scriptsize $\\frac{{1}}{{2}}{dagger}$}};"
 
         # add two vertical lines to connect circled 1/2
         gate_str += f"\n\\draw ({self._op(lines[0])}) edge[edgestyle] ({op_mid});"
@@ -756,7 +756,7 @@ class _Circ2Tikz:  # pylint: disable=too-few-public-methods
         for line in lines:
             node1 = node_str.format(self._op(line), pos, line)
             node2 = (
-                "\n\\node[none,minimum height={gate_height}cm,outer sep=0] ({self._op(line, offset=1)}) "
+                f"\n\\node[none,minimum height={gate_height}cm,outer sep=0] ({self._op(line, offset=1)}) "
                 f"at ({pos + gate_width / 2.0},-{line}) {{}};"
             )
             node3 = node_str.format(self._op(line, offset=2), pos + gate_width, line)
-- 
2.43.0


From ee9dcbde1c1cb557ce1069b19386a586b93f3e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:05 +0000
Subject: [PATCH 046/107] fix: draw ordered circuits with custom qubit
 locations

---
 projectq/backends/_circuits/_drawer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projectq/backends/_circuits/_drawer.py b/projectq/backends/_circuits/_drawer.py
index 071ad2c..75ab7da 100755
--- a/projectq/backends/_circuits/_drawer.py
+++ b/projectq/backends/_circuits/_drawer.py
@@ -278,7 +278,7 @@ class CircuitDrawer(BasicEngine):
 
         drawing_order = None
         if ordered:
-            drawing_order = self._drawing_order
+            drawing_order = [self._map[qubit_id] for qubit_id in self._drawing_order]
 
         return to_latex(
             qubit_lines,
-- 
2.43.0


From c0310e300294bde58298f4f482476ec048536d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:16 +0000
Subject: [PATCH 047/107] fix: keep the earlier gates of a qubit which is
 allocated again in the LaTeX drawing

---
 projectq/backends/_circuits/_drawer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/projectq/backends/_circuits/_drawer.py b/projectq/backends/_circuits/_drawer.py
index 75ab7da..a6d2100 100755
--- a/projectq/backends/_circuits/_drawer.py
+++ b/projectq/backends/_circuits/_drawer.py
@@ -212,7 +212,8 @@ class CircuitDrawer(BasicEngine):
             qubit_id = cmd.qubits[0][0].id
             if qubit_id not in self._map:
                 self._map[qubit_id] = qubit_id
-            self._qubit_lines[qubit_id] = []
+            if qubit_id not in self._qubit_lines:
+                self._qubit_lines[qubit_id] = []
 
         if cmd.gate == Deallocate:
             qubit_id = cmd.qubits[0][0].id
-- 
2.43.0


From 11de8bba43174ea972caa367c58e7ba4ca315898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:34 +0000
Subject: [PATCH 048/107] fix: draw circuits whose qubit lines are not numbered
 consecutively

---
 projectq/backends/_circuits/_to_latex.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/projectq/backends/_circuits/_to_latex.py b/projectq/backends/_circuits/_to_latex.py
index 49904d3..cb5ec69 100755
--- a/projectq/backends/_circuits/_to_latex.py
+++ b/projectq/backends/_circuits/_to_latex.py
@@ -225,11 +225,12 @@ def _body(circuit, settings, drawing_order=None, draw_gates_in_parallel=True):
     """
     code = []
 
-    conv = _Circ2Tikz(settings, len(circuit))
+    all_lines = sorted(circuit) if isinstance(circuit, dict) else list(range(len(circuit)))
+    conv = _Circ2Tikz(settings, max(all_lines, default=-1) + 1)
 
     to_where = None
     if drawing_order is None:
-        drawing_order = list(range(len(circuit)))
+        drawing_order = all_lines
     else:
         to_where = 1
 
-- 
2.43.0


From 70619b94955bda2bed5b8af580e7bda6903304e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:50 +0000
Subject: [PATCH 049/107] fix: never draw two qubits on the same line

---
 projectq/backends/_circuits/_drawer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/projectq/backends/_circuits/_drawer.py b/projectq/backends/_circuits/_drawer.py
index a6d2100..87aa3c4 100755
--- a/projectq/backends/_circuits/_drawer.py
+++ b/projectq/backends/_circuits/_drawer.py
@@ -192,7 +192,7 @@ class CircuitDrawer(BasicEngine):
                     " range of qubit ids have to be mapped "
                     "somewhere."
                 )
-        self._map = id_to_loc
+        self._map = dict(id_to_loc)
 
     def _print_cmd(self, cmd):
         """
@@ -211,7 +211,10 @@ class CircuitDrawer(BasicEngine):
         if cmd.gate == Allocate:
             qubit_id = cmd.qubits[0][0].id
             if qubit_id not in self._map:
-                self._map[qubit_id] = qubit_id
+                line = qubit_id
+                while line in self._map.values():
+                    line += 1
+                self._map[qubit_id] = line
             if qubit_id not in self._qubit_lines:
                 self._qubit_lines[qubit_id] = []
 
-- 
2.43.0


From 3ab2f94100fcade230d87ecc65ecc834d3b344b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:02 +0000
Subject: [PATCH 050/107] fix: draw all gates one after the other if they
 should not be drawn in parallel

---
 projectq/backends/_circuits/_to_latex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projectq/backends/_circuits/_to_latex.py b/projectq/backends/_circuits/_to_latex.py
index cb5ec69..ff45f4c 100755
--- a/projectq/backends/_circuits/_to_latex.py
+++ b/projectq/backends/_circuits/_to_latex.py
@@ -315,7 +315,7 @@ class _Circ2Tikz:  # pylint: disable=too-few-public-methods
                 while not circuit[_line][gate_idx] == cmds[i]:
                     gate_idx += 1
 
-                tikz_code.append(self.to_tikz(_line, circuit, gate_idx))
+                tikz_code.append(self.to_tikz(_line, circuit, gate_idx, draw_gates_in_parallel))
 
                 # we are taking care of gate 0 (the current one)
                 circuit[_line] = circuit[_line][1:]
-- 
2.43.0


From 2e1c4b481596170b1923dfffd6a885ffb471e3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:59 +0000
Subject: [PATCH 051/107] fix: draw gates across the lines of qubits which have
 not been allocated yet

---
 projectq/backends/_circuits/_to_latex.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/projectq/backends/_circuits/_to_latex.py b/projectq/backends/_circuits/_to_latex.py
index ff45f4c..8f758c7 100755
--- a/projectq/backends/_circuits/_to_latex.py
+++ b/projectq/backends/_circuits/_to_latex.py
@@ -763,7 +763,9 @@ class _Circ2Tikz:  # pylint: disable=too-few-public-methods
             node3 = node_str.format(self._op(line, offset=2), pos + gate_width, line)
             tex_str += node1 + node2 + node3
             if line not in gate_lines:
-                tex_str += self._line(self.op_count[line] - 1, self.op_count[line], line=line)
+                # a line which has not begun yet is only drawn across this gate
+                start = self.op_count[line] - 1 if self.op_count[line] > 0 else self.op_count[line] + 2
+                tex_str += self._line(start, self.op_count[line], line=line)
 
         tex_str += (
             f"\n\\draw[operator,edgestyle,outer sep={gate_width}cm] (["
-- 
2.43.0


From 6555fefcb0057bab9ae2d4ab3eedf8788e0ebcf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:48 +0000
Subject: [PATCH 052/107] fix: do not draw a later allocation on top of earlier
 gates

---
 projectq/backends/_circuits/_to_latex.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/projectq/backends/_circuits/_to_latex.py b/projectq/backends/_circuits/_to_latex.py
index 8f758c7..7605540 100755
--- a/projectq/backends/_circuits/_to_latex.py
+++ b/projectq/backends/_circuits/_to_latex.py
@@ -374,7 +374,8 @@ class _Circ2Tikz:  # pylint: disable=too-few-public-methods
                     id_str = f"^{{\\textcolor{{red}}{{{cmds[i].id}}}}}"
                 xpos = self.pos[line]
                 try:
-                    if self.settings['gates']['AllocateQubitGate']['allocate_at_zero']:
+                    at_zero = self.settings['gates']['AllocateQubitGate']['allocate_at_zero']
+                    if at_zero and self.op_count[line] == 0:
                         self.pos[line] -= self._gate_pre_offset(gate)
                         xpos = self._gate_pre_offset(gate)
                 except KeyError:
-- 
2.43.0


From 5890328b72946ce6a643c4205cb8f138cd31ea9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:01 +0000
Subject: [PATCH 053/107] fix: credit measurements to the logical qubit in the
 circuit drawers

---
 projectq/backends/_circuits/_drawer.py            | 8 +++++++-
 projectq/backends/_circuits/_drawer_matplotlib.py | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/projectq/backends/_circuits/_drawer.py b/projectq/backends/_circuits/_drawer.py
index 87aa3c4..ddfef0f 100755
--- a/projectq/backends/_circuits/_drawer.py
+++ b/projectq/backends/_circuits/_drawer.py
@@ -16,8 +16,9 @@
 
 
 from projectq.cengines import BasicEngine, LastEngineException
-from projectq.meta import get_control_count
+from projectq.meta import LogicalQubitIDTag, get_control_count
 from projectq.ops import Allocate, Deallocate, FlushGate, Measure
+from projectq.types import WeakQubitRef
 
 from ._to_latex import to_latex
 
@@ -236,6 +237,11 @@ class CircuitDrawer(BasicEngine):
                     else:
                         meas = self._default_measure
                     meas = int(meas)
+                    # Check if a mapper assigned a different logical id
+                    for tag in cmd.tags:
+                        if isinstance(tag, LogicalQubitIDTag):
+                            qubit = WeakQubitRef(qubit.engine, tag.logical_qubit_id)
+                            break
                     self.main_engine.set_measurement_result(qubit, meas)
 
         all_lines = [qb.id for qr in cmd.all_qubits for qb in qr]
diff --git a/projectq/backends/_circuits/_drawer_matplotlib.py b/projectq/backends/_circuits/_drawer_matplotlib.py
index 7c6b585..0508e6c 100644
--- a/projectq/backends/_circuits/_drawer_matplotlib.py
+++ b/projectq/backends/_circuits/_drawer_matplotlib.py
@@ -18,8 +18,9 @@ import itertools
 import re
 
 from projectq.cengines import BasicEngine, LastEngineException
-from projectq.meta import get_control_count
+from projectq.meta import LogicalQubitIDTag, get_control_count
 from projectq.ops import Allocate, Deallocate, FlushGate, Measure
+from projectq.types import WeakQubitRef
 
 from ._plot import to_draw
 
@@ -122,6 +123,11 @@ class CircuitDrawerMatplotlib(BasicEngine):
                             measurement = input(prompt)
                     else:
                         measurement = self._default_measure
+                    # Check if a mapper assigned a different logical id
+                    for tag in cmd.tags:
+                        if isinstance(tag, LogicalQubitIDTag):
+                            qubit = WeakQubitRef(qubit.engine, tag.logical_qubit_id)
+                            break
                     self.main_engine.set_measurement_result(qubit, int(measurement))
 
         targets = [qubit.id for qureg in cmd.qubits for qubit in qureg]
-- 
2.43.0


From 94228ed33894c013c069d96c81a8aa5b35abe510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:31 +0000
Subject: [PATCH 054/107] fix: give each qubit its own wire if the qubit IDs
 are not consecutive

---
 projectq/backends/_circuits/_plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projectq/backends/_circuits/_plot.py b/projectq/backends/_circuits/_plot.py
index b450309..ec4735f 100644
--- a/projectq/backends/_circuits/_plot.py
+++ b/projectq/backends/_circuits/_plot.py
@@ -105,7 +105,7 @@ def to_draw(qubit_lines, qubit_labels=None, drawing_order=None, **kwargs):
 
     if drawing_order is None:
         n_qubits = len(qubit_lines)
-        drawing_order = {qubit_id: n_qubits - qubit_id - 1 for qubit_id in list(qubit_lines)}
+        drawing_order = {qubit_id: n_qubits - i - 1 for i, qubit_id in enumerate(sorted(qubit_lines))}
     else:
         if set(drawing_order) != set(qubit_lines):
             raise RuntimeError("Qubit IDs in drawing_order do not match qubit IDs in qubit_lines!")
-- 
2.43.0


From bf8c28c1056bf28e30d9182dd38b2e5360a1033c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:42 +0000
Subject: [PATCH 055/107] fix: keep the earlier gates of a qubit which is
 allocated again in the matplotlib drawing

---
 projectq/backends/_circuits/_drawer_matplotlib.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/projectq/backends/_circuits/_drawer_matplotlib.py b/projectq/backends/_circuits/_drawer_matplotlib.py
index 0508e6c..424ef26 100644
--- a/projectq/backends/_circuits/_drawer_matplotlib.py
+++ b/projectq/backends/_circuits/_drawer_matplotlib.py
@@ -105,7 +105,8 @@ class CircuitDrawerMatplotlib(BasicEngine):
             qb_id = cmd.qubits[0][0].id
             if qb_id not in self._map:
                 self._map[qb_id] = qb_id
-            self._qubit_lines[qb_id] = []
+            if qb_id not in self._qubit_lines:
+                self._qubit_lines[qb_id] = []
             return
 
         if cmd.gate == Deallocate:
-- 
2.43.0


From 4c0629f37bc5feafa3b06d690189db24abab4b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:55 +0000
Subject: [PATCH 056/107] fix: draw gates with any name, including the dagger
 of inverse gates, with matplotlib

---
 projectq/backends/_circuits/_drawer_matplotlib.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/projectq/backends/_circuits/_drawer_matplotlib.py b/projectq/backends/_circuits/_drawer_matplotlib.py
index 424ef26..e2f2cd7 100644
--- a/projectq/backends/_circuits/_drawer_matplotlib.py
+++ b/projectq/backends/_circuits/_drawer_matplotlib.py
@@ -30,8 +30,9 @@ from ._plot import to_draw
 def _format_gate_str(cmd):
     param_str = ''
     gate_name = str(cmd.gate)
-    if '(' in gate_name:
-        (gate_name, param_str) = re.search(r'(.+)\((.*)\)', gate_name).groups()
+    match = re.fullmatch(r'(.+)\((.*)\)(.*)', gate_name, re.DOTALL)
+    if match:
+        (gate_name, param_str, suffix) = match.groups()
         params = re.findall(r'([^,]+)', param_str)
         params_str_list = []
         for param in params:
@@ -43,7 +44,7 @@ def _format_gate_str(cmd):
                 else:
                     params_str_list.append(f"{param[:5]}...")
 
-        gate_name += f"({','.join(params_str_list)})"
+        gate_name += f"({','.join(params_str_list)}){suffix}"
     return gate_name
 
 
-- 
2.43.0


From 9851ea6bfdf1bc05a0667c49d1f6d6947131b9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:08 +0000
Subject: [PATCH 057/107] fix: draw a measurement on every measured qubit with
 matplotlib

---
 projectq/backends/_circuits/_plot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/projectq/backends/_circuits/_plot.py b/projectq/backends/_circuits/_plot.py
index ec4735f..85035a4 100644
--- a/projectq/backends/_circuits/_plot.py
+++ b/projectq/backends/_circuits/_plot.py
@@ -347,7 +347,8 @@ def draw_gate(
     elif gate_str == 'Swap':
         draw_swap_gate(axes, gate_pos, target_wires[0], target_wires[1], plot_params)
     elif gate_str == 'Measure':
-        draw_measure_gate(axes, gate_pos, target_wires[0], plot_params)
+        for target_wire in target_wires:
+            draw_measure_gate(axes, gate_pos, target_wire, plot_params)
     else:
         if len(target_wires) == 1:
             draw_generic_gate(axes, gate_pos, target_wires[0], gate_str, plot_params)
-- 
2.43.0


From 1477475aeb198c92e2354d0056b1fdf4e8a9c5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:44 +0000
Subject: [PATCH 058/107] fix: never draw gates on top of the vertical line of
 a multi-qubit gate with matplotlib

---
 .../backends/_circuits/_drawer_matplotlib.py  | 68 +++++++++++--------
 1 file changed, 38 insertions(+), 30 deletions(-)

diff --git a/projectq/backends/_circuits/_drawer_matplotlib.py b/projectq/backends/_circuits/_drawer_matplotlib.py
index e2f2cd7..cd359f3 100644
--- a/projectq/backends/_circuits/_drawer_matplotlib.py
+++ b/projectq/backends/_circuits/_drawer_matplotlib.py
@@ -69,7 +69,8 @@ class CircuitDrawerMatplotlib(BasicEngine):
         self._accept_input = accept_input
         self._default_measure = default_measure
         self._map = {}
-        self._qubit_lines = {}
+        self._qubit_ids = []
+        self._gates = []
 
     def is_available(self, cmd):
         """
@@ -106,8 +107,8 @@ class CircuitDrawerMatplotlib(BasicEngine):
             qb_id = cmd.qubits[0][0].id
             if qb_id not in self._map:
                 self._map[qb_id] = qb_id
-            if qb_id not in self._qubit_lines:
-                self._qubit_lines[qb_id] = []
+            if qb_id not in self._qubit_ids:
+                self._qubit_ids.append(qb_id)
             return
 
         if cmd.gate == Deallocate:
@@ -135,31 +136,40 @@ class CircuitDrawerMatplotlib(BasicEngine):
         targets = [qubit.id for qureg in cmd.qubits for qubit in qureg]
         controls = [qubit.id for qubit in cmd.control_qubits]
 
-        ref_qubit_id = targets[0]
-        gate_str = _format_gate_str(cmd)
+        self._gates.append((_format_gate_str(cmd), targets, controls))
 
-        # First find out what is the maximum index that this command might
-        # have
-        max_depth = max(len(self._qubit_lines[qubit_id]) for qubit_id in itertools.chain(targets, controls))
+    def _layout(self, wires):
+        """
+        Assign a column of the drawing to each gate.
+
+        Args:
+            wires (dict): position of each qubit in the output graphic.
+
+        Returns:
+            A dictionary with the list of gates for each qubit axis (None where a qubit axis has no gate of its own)
+        """
+        qubit_lines = {qubit_id: [] for qubit_id in self._qubit_ids}
+
+        for gate_str, targets, controls in self._gates:
+            positions = [wires[qubit_id] for qubit_id in itertools.chain(targets, controls)]
 
-        # If we have a multi-qubit gate, make sure that all the qubit axes
-        # have the same depth. We do that by recalculating the maximum index
-        # over all the known qubit axes.
-        # This is to avoid the possibility of a multi-qubit gate overlapping
-        # with some other gates. This could potentially be improved by only
-        # considering the qubit axes that are between the topmost and
-        # bottommost qubit axes of the current command.
-        if len(targets) + len(controls) > 1:
-            max_depth = max(len(line) for qubit_id, line in self._qubit_lines.items())
+            # First find out what is the maximum index that this command might have. If we have a multi-qubit gate,
+            # make sure that it is placed after the gates on all the known qubit axes.
+            column = len(qubit_lines[targets[0]])
+            if len(positions) > 1:
+                column = max(len(line) for line in qubit_lines.values())
 
-        for qb_id in itertools.chain(targets, controls):
-            depth = len(self._qubit_lines[qb_id])
-            self._qubit_lines[qb_id] += [None] * (max_depth - depth)
+            # Then reserve the column on all the qubit axes between the topmost and bottommost qubit axes of the command
+            # to avoid the possibility of this gate overlapping with some other gates.
+            for qubit_id, line in qubit_lines.items():
+                if min(positions) <= wires[qubit_id] <= max(positions):
+                    line += [None] * (column - len(line))
+                    line.append((gate_str, targets, controls) if qubit_id == targets[0] else None)
 
-            if qb_id == ref_qubit_id:
-                self._qubit_lines[qb_id].append((gate_str, targets, controls))
-            else:
-                self._qubit_lines[qb_id].append(None)
+        depth = max(len(line) for line in qubit_lines.values())
+        for line in qubit_lines.values():
+            line += [None] * (depth - len(line))
+        return qubit_lines
 
     def receive(self, command_list):
         """
@@ -212,14 +222,12 @@ class CircuitDrawerMatplotlib(BasicEngine):
               - wire_height (1): Vertical spacing between two qubit
                 wires (roughly in inches)
         """
-        max_depth = max(len(line) for qubit_id, line in self._qubit_lines.items())
-        for qubit_id, line in self._qubit_lines.items():
-            depth = len(line)
-            if depth < max_depth:
-                self._qubit_lines[qubit_id] += [None] * (max_depth - depth)
+        wires = drawing_order
+        if wires is None or set(wires) != set(self._qubit_ids):
+            wires = {qubit_id: i for i, qubit_id in enumerate(sorted(self._qubit_ids))}
 
         return to_draw(
-            self._qubit_lines,
+            self._layout(wires),
             qubit_labels=qubit_labels,
             drawing_order=drawing_order,
             **kwargs,
-- 
2.43.0


From 5692a247b4dcdb087a5bc283004aebc70d9340aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:33 +0000
Subject: [PATCH 059/107] fix: send the rotation angles of the program to AQT
 instead of multiples of pi/100

---
 projectq/backends/_aqt/_aqt.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/projectq/backends/_aqt/_aqt.py b/projectq/backends/_aqt/_aqt.py
index 9d5e5e2..9876d70 100644
--- a/projectq/backends/_aqt/_aqt.py
+++ b/projectq/backends/_aqt/_aqt.py
@@ -155,7 +155,8 @@ class AQTBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
             instruction = []
             u_name = {'Rx': "X", 'Ry': "Y", 'Rxx': "MS"}
             instruction.append(u_name[str(gate)[0 : int(len(cmd.qubits) + 1)]])  # noqa: E203
-            instruction.append(round(angle, 2))
+            # NB: rounding only removes the numerical noise of the conversion to units of pi
+            instruction.append(round(angle, 10))
             instruction.append(qubits)
             self._circuit.append(instruction)
             return
-- 
2.43.0


From ffb1f442787550994cfa75f5e29576607617bf89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:24 +0000
Subject: [PATCH 060/107] fix: draw the outcome of an IonQ job from the
 returned distribution instead of taking the last one

---
 projectq/backends/_ionq/_ionq.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/projectq/backends/_ionq/_ionq.py b/projectq/backends/_ionq/_ionq.py
index 4c59369..c7e2b04 100644
--- a/projectq/backends/_ionq/_ionq.py
+++ b/projectq/backends/_ionq/_ionq.py
@@ -323,22 +323,26 @@ class IonQBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
         random_outcome = random.random()
         p_sum = 0.0
         measured = ""
-        star = ""
         num_measured = len(measured_ids)
         probable_outcomes = res['output_probs']
         states = probable_outcomes.keys()
         self._probabilities = {}
-        for idx, state_int in enumerate(states):
+        for state_int in states:
             state = _rearrange_result(int(state_int), num_measured)
             probability = probable_outcomes[state_int]
             p_sum += probability
-            if p_sum >= random_outcome and measured == "" or (idx == len(states) - 1):
+            star = ""
+            if probability > 0 and measured == "" and p_sum > random_outcome:
                 measured = state
                 star = "*"
             self._probabilities[state] = probability
             if self._verbose and probability > 0:  # pragma: no cover
                 print(f"{state} with p = {probability}{star}")
 
+        # The probabilities may add up to slightly less than the random number
+        if measured == "":
+            measured = max(self._probabilities, key=self._probabilities.get)
+
         # Register measurement results
         for idx, qubit_id in enumerate(measured_ids):
             result = int(measured[idx])
-- 
2.43.0


From c7e7db5a7eb46693f596479d9ba221ba201d3094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:36 +0000
Subject: [PATCH 061/107] fix: compare physical with physical qubits when
 looking for mid-circuit measurements for IonQ

---
 projectq/backends/_ionq/_ionq.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/projectq/backends/_ionq/_ionq.py b/projectq/backends/_ionq/_ionq.py
index c7e2b04..8375358 100644
--- a/projectq/backends/_ionq/_ionq.py
+++ b/projectq/backends/_ionq/_ionq.py
@@ -109,6 +109,7 @@ class IonQBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
         self._interval = interval
         self._circuit = []
         self._measured_ids = []
+        self._measured_locations = []
         self._probabilities = {}
         self._retrieve_execution = retrieve_execution
         self._clear = True
@@ -169,6 +170,7 @@ class IonQBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
         """
         if self._clear:
             self._measured_ids = []
+            self._measured_locations = []
             self._probabilities = {}
             self._clear = False
 
@@ -187,6 +189,7 @@ class IonQBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
                     break
             # Add the qubit id
             self._measured_ids.append(logical_id)
+            self._measured_locations.append(cmd.qubits[0][0].id)
             return
 
         # Process the Command's gate type:
@@ -209,7 +212,7 @@ class IonQBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
             gate_qubits = set(targets) | set(controls)
 
             # If any of them have already been measured...
-            already_measured = gate_qubits & set(self._measured_ids)
+            already_measured = gate_qubits & set(self._measured_locations)
 
             # Boom!
             if len(already_measured) > 0:
-- 
2.43.0


From cf8f71603d861688c786da0e7c44393de1896b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:49 +0000
Subject: [PATCH 062/107] fix: submit IonQ jobs in which qubits were released
 before the flush or locations are left out

---
 projectq/backends/_ionq/_ionq.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/projectq/backends/_ionq/_ionq.py b/projectq/backends/_ionq/_ionq.py
index 8375358..d7e2d2d 100644
--- a/projectq/backends/_ionq/_ionq.py
+++ b/projectq/backends/_ionq/_ionq.py
@@ -290,13 +290,15 @@ class IonQBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
             return
 
         if self._retrieve_execution is None:
-            qubit_mapping = self.main_engine.mapper.current_mapping
+            used_qubits = set(self.main_engine.mapper.current_mapping.values()).union(self._measured_locations)
+            for gate in self._circuit:
+                used_qubits.update(gate['targets'], gate.get('controls', ()))
             measured_ids = self._measured_ids[:]
             info = {
                 'circuit': self._circuit,
-                'nq': len(qubit_mapping.keys()),
+                'nq': max(used_qubits) + 1,
                 'shots': self._num_runs,
-                'meas_mapped': [qubit_mapping[qubit_id] for qubit_id in measured_ids],
+                'meas_mapped': self._measured_locations[:],
                 'meas_qubit_ids': measured_ids,
             }
             res = http_client.send(
-- 
2.43.0


From d082db7e5a46e3460960938ea10975e7a2e1e86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:27 +0000
Subject: [PATCH 063/107] fix: forget a failed IBM job instead of submitting
 parts of it again

---
 projectq/backends/_ibm/_ibm.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/projectq/backends/_ibm/_ibm.py b/projectq/backends/_ibm/_ibm.py
index 2a11aa5..2f4fdbf 100755
--- a/projectq/backends/_ibm/_ibm.py
+++ b/projectq/backends/_ibm/_ibm.py
@@ -341,5 +341,8 @@ class IBMBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
             if not cmd.gate == FlushGate():
                 self._store(cmd)
             else:
-                self._run()
-                self._reset()
+                try:
+                    self._run()
+                finally:
+                    # do not mix a job that failed with the next one
+                    self._reset()
-- 
2.43.0


From 02af5004b7e7d3712e916a3b8d468858ad15c1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:38 +0000
Subject: [PATCH 064/107] fix: forget a failed AQT job instead of submitting
 parts of it again

---
 projectq/backends/_aqt/_aqt.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/projectq/backends/_aqt/_aqt.py b/projectq/backends/_aqt/_aqt.py
index 9876d70..9ffe938 100644
--- a/projectq/backends/_aqt/_aqt.py
+++ b/projectq/backends/_aqt/_aqt.py
@@ -306,5 +306,8 @@ class AQTBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
             if not isinstance(cmd.gate, FlushGate):
                 self._store(cmd)
             else:
-                self._run()
-                self._reset()
+                try:
+                    self._run()
+                finally:
+                    # do not mix a job that failed with the next one
+                    self._reset()
-- 
2.43.0


From 4be4461f7e0f3f10838179ea550436112a898fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:50 +0000
Subject: [PATCH 065/107] fix: forget a failed AWS Braket job instead of
 submitting parts of it again

---
 projectq/backends/_awsbraket/_awsbraket.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/projectq/backends/_awsbraket/_awsbraket.py b/projectq/backends/_awsbraket/_awsbraket.py
index 78fe5bd..ed34b3b 100755
--- a/projectq/backends/_awsbraket/_awsbraket.py
+++ b/projectq/backends/_awsbraket/_awsbraket.py
@@ -453,7 +453,10 @@ class AWSBraketBackend(BasicEngine):  # pylint: disable=too-many-instance-attrib
             if not isinstance(cmd.gate, FlushGate):
                 self._store(cmd)
             else:
-                self._run()
-                self._reset()
+                try:
+                    self._run()
+                finally:
+                    # do not mix a job that failed with the next one
+                    self._reset()
             if not self.is_last_engine:
                 self.send([cmd])
-- 
2.43.0


From 727682fa052ad871430832dbd9c844395095634e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:04 +0000
Subject: [PATCH 066/107] fix: count the qubits allocated before the last flush
 in the next IBM job

---
 projectq/backends/_ibm/_ibm.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/projectq/backends/_ibm/_ibm.py b/projectq/backends/_ibm/_ibm.py
index 2f4fdbf..664a3c2 100755
--- a/projectq/backends/_ibm/_ibm.py
+++ b/projectq/backends/_ibm/_ibm.py
@@ -93,6 +93,7 @@ class IBMBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
         self._json = []
         self._measured_ids = []
         self._allocated_qubits = set()
+        self._deallocated_qubits = set()
         self._retrieve_execution = retrieve_execution
 
     def is_available(self, cmd):
@@ -146,14 +147,17 @@ class IBMBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
             self._clear = False
             self.qasm = ""
             self._json = []
-            self._allocated_qubits = set()
+            self._allocated_qubits -= self._deallocated_qubits
+            self._deallocated_qubits = set()
 
         gate = cmd.gate
         if gate == Allocate:
             self._allocated_qubits.add(cmd.qubits[0][0].id)
+            self._deallocated_qubits.discard(cmd.qubits[0][0].id)
             return
 
         if gate == Deallocate:
+            self._deallocated_qubits.add(cmd.qubits[0][0].id)
             return
 
         if gate == Measure:
-- 
2.43.0


From a2657b009a4c50351e8455e9aa3e53d9c781f6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:18 +0000
Subject: [PATCH 067/107] fix: count the qubits allocated before the last flush
 in the next AQT job

---
 projectq/backends/_aqt/_aqt.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/projectq/backends/_aqt/_aqt.py b/projectq/backends/_aqt/_aqt.py
index 9ffe938..d73ac67 100644
--- a/projectq/backends/_aqt/_aqt.py
+++ b/projectq/backends/_aqt/_aqt.py
@@ -90,6 +90,7 @@ class AQTBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
         self._mapper = []
         self._measured_ids = []
         self._allocated_qubits = set()
+        self._deallocated_qubits = set()
         self._retrieve_execution = retrieve_execution
 
     def is_available(self, cmd):
@@ -126,13 +127,16 @@ class AQTBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
             self._probabilities = {}
             self._clear = False
             self._circuit = []
-            self._allocated_qubits = set()
+            self._allocated_qubits -= self._deallocated_qubits
+            self._deallocated_qubits = set()
 
         gate = cmd.gate
         if gate == Allocate:
             self._allocated_qubits.add(cmd.qubits[0][0].id)
+            self._deallocated_qubits.discard(cmd.qubits[0][0].id)
             return
         if gate == Deallocate:
+            self._deallocated_qubits.add(cmd.qubits[0][0].id)
             return
         if gate == Measure:
             qb_id = cmd.qubits[0][0].id
-- 
2.43.0


From 29fdd4d53d6ccd4f0dd573e1b3b11f9e5b72c723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:30 +0000
Subject: [PATCH 068/107] fix: count the qubits allocated before the last flush
 in the next AWS Braket job

---
 projectq/backends/_awsbraket/_awsbraket.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/projectq/backends/_awsbraket/_awsbraket.py b/projectq/backends/_awsbraket/_awsbraket.py
index ed34b3b..941e34e 100755
--- a/projectq/backends/_awsbraket/_awsbraket.py
+++ b/projectq/backends/_awsbraket/_awsbraket.py
@@ -104,6 +104,7 @@ class AWSBraketBackend(BasicEngine):  # pylint: disable=too-many-instance-attrib
         self._circuit = ""
         self._measured_ids = []
         self._allocated_qubits = set()
+        self._deallocated_qubits = set()
         self._retrieve_execution = retrieve_execution
 
         # Dictionary to translate the gates from ProjectQ to AWSBraket
@@ -254,6 +255,8 @@ class AWSBraketBackend(BasicEngine):  # pylint: disable=too-many-instance-attrib
 
         # Do not clear the self._clear flag for those gates
         if gate in (Deallocate, Barrier):
+            if gate == Deallocate:
+                self._deallocated_qubits.add(cmd.qubits[0][0].id)
             return
 
         num_controls = get_control_count(cmd)
@@ -265,10 +268,12 @@ class AWSBraketBackend(BasicEngine):  # pylint: disable=too-many-instance-attrib
             self._probabilities = {}
             self._clear = False
             self._circuit = ""
-            self._allocated_qubits = set()
+            self._allocated_qubits -= self._deallocated_qubits
+            self._deallocated_qubits = set()
 
         if gate == Allocate:
             self._allocated_qubits.add(cmd.qubits[0][0].id)
+            self._deallocated_qubits.discard(cmd.qubits[0][0].id)
             return
         if gate == Measure:
             qb_id = cmd.qubits[0][0].id
-- 
2.43.0


From f86ce90278e9f5af3bdacb572d165a37888ac7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:41 +0000
Subject: [PATCH 069/107] fix: submit IBM jobs in which a measured qubit was
 released before the flush

---
 projectq/backends/_ibm/_ibm.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/projectq/backends/_ibm/_ibm.py b/projectq/backends/_ibm/_ibm.py
index 664a3c2..2a98ba0 100755
--- a/projectq/backends/_ibm/_ibm.py
+++ b/projectq/backends/_ibm/_ibm.py
@@ -92,6 +92,7 @@ class IBMBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
         self.qasm = ""
         self._json = []
         self._measured_ids = []
+        self._measured_locations = {}
         self._allocated_qubits = set()
         self._deallocated_qubits = set()
         self._retrieve_execution = retrieve_execution
@@ -169,6 +170,7 @@ class IBMBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
             if logical_id is None:
                 raise RuntimeError('No LogicalQubitIDTag found in command!')
             self._measured_ids += [logical_id]
+            self._measured_locations[logical_id] = cmd.qubits[0][0].id
         elif gate == NOT and get_control_count(cmd) == 1:
             ctrl_pos = cmd.control_qubits[0].id
             qb_pos = cmd.qubits[0][0].id
@@ -221,6 +223,15 @@ class IBMBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
             )
         return mapping[qb_id]
 
+    def _measured_location(self, qb_id):
+        """
+        Return the physical location of a measured qubit, which may have been released in the meantime.
+
+        Args:
+            qb_id (int): ID of the measured logical qubit.
+        """
+        return self.main_engine.mapper.current_mapping.get(qb_id, self._measured_locations[qb_id])
+
     def get_probabilities(self, qureg):
         """
         Return the probability of the outcome `bit_string` when measuring the quantum register `qureg`.
@@ -269,7 +280,7 @@ class IBMBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
         """
         # finally: add measurements (no intermediate measurements are allowed)
         for measured_id in self._measured_ids:
-            qb_loc = self.main_engine.mapper.current_mapping[measured_id]
+            qb_loc = self._measured_location(measured_id)
             self.qasm += f"\nmeasure q[{qb_loc}] -> c[{qb_loc}];"
             self._json.append({'qubits': [qb_loc], 'name': 'measure', 'memory': [qb_loc]})
         # return if no operations / measurements have been performed.
@@ -324,7 +335,7 @@ class IBMBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
 
             # register measurement result from IBM
             for qubit_id in self._measured_ids:
-                location = self._logical_to_physical(qubit_id)
+                location = self._measured_location(qubit_id)
                 result = int(measured[location])
                 self.main_engine.set_measurement_result(WeakQubitRef(self, qubit_id), result)
             self._reset()
-- 
2.43.0


From 2fd26b4ca432325dac47b1be0325d3cc661b9af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:10 +0000
Subject: [PATCH 070/107] fix: run AQT jobs in which a measured qubit was
 released before the flush

---
 projectq/backends/_aqt/_aqt.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/projectq/backends/_aqt/_aqt.py b/projectq/backends/_aqt/_aqt.py
index d73ac67..1fa90a6 100644
--- a/projectq/backends/_aqt/_aqt.py
+++ b/projectq/backends/_aqt/_aqt.py
@@ -89,6 +89,7 @@ class AQTBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
         self._circuit = []
         self._mapper = []
         self._measured_ids = []
+        self._measured_locations = {}
         self._allocated_qubits = set()
         self._deallocated_qubits = set()
         self._retrieve_execution = retrieve_execution
@@ -149,6 +150,7 @@ class AQTBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
                 logical_id = qb_id
                 self._mapper.append(qb_id)
             self._measured_ids += [logical_id]
+            self._measured_locations[logical_id] = qb_id
             return
         if isinstance(gate, (Rx, Ry, Rxx)):
             qubits = []
@@ -289,7 +291,8 @@ class AQTBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
 
             # register measurement result from AQT
             for qubit_id in self._measured_ids:
-                location = self._logical_to_physical(qubit_id)
+                # NB: the qubit may have been released in the meantime
+                location = self._measured_locations[qubit_id]
                 result = int(measured[location])
                 self.main_engine.set_measurement_result(WeakQubitRef(self, qubit_id), result)
             self._reset()
-- 
2.43.0


From eefc5ffd8cafed88afdad12a5981165817f88bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:23 +0000
Subject: [PATCH 071/107] fix: run AWS Braket jobs in which a measured qubit
 was released before the flush

---
 projectq/backends/_awsbraket/_awsbraket.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/projectq/backends/_awsbraket/_awsbraket.py b/projectq/backends/_awsbraket/_awsbraket.py
index 941e34e..783866c 100755
--- a/projectq/backends/_awsbraket/_awsbraket.py
+++ b/projectq/backends/_awsbraket/_awsbraket.py
@@ -103,6 +103,7 @@ class AWSBraketBackend(BasicEngine):  # pylint: disable=too-many-instance-attrib
         self._probabilities = {}
         self._circuit = ""
         self._measured_ids = []
+        self._measured_locations = {}
         self._allocated_qubits = set()
         self._deallocated_qubits = set()
         self._retrieve_execution = retrieve_execution
@@ -283,6 +284,7 @@ class AWSBraketBackend(BasicEngine):  # pylint: disable=too-many-instance-attrib
                     logical_id = tag.logical_qubit_id
                     break
             self._measured_ids.append(logical_id if logical_id is not None else qb_id)
+            self._measured_locations[self._measured_ids[-1]] = qb_id
             return
 
         # All other supported gate types
@@ -443,7 +445,8 @@ class AWSBraketBackend(BasicEngine):  # pylint: disable=too-many-instance-attrib
 
         # register measurement result
         for qubit_id in self._measured_ids:
-            result = int(measured[self._logical_to_physical(qubit_id)])
+            # NB: the qubit may have been released in the meantime
+            result = int(measured[self._measured_locations[qubit_id]])
             self.main_engine.set_measurement_result(WeakQubitRef(self.main_engine, qubit_id), result)
         self._reset()
 
-- 
2.43.0


From 50b99a28f4d631a8a7d2ae1348c4f1ad301b6d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:51 +0000
Subject: [PATCH 072/107] fix: refuse gates on measured qubits instead of
 measuring after them with AQT

---
 projectq/backends/_aqt/_aqt.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/projectq/backends/_aqt/_aqt.py b/projectq/backends/_aqt/_aqt.py
index 1fa90a6..0967a79 100644
--- a/projectq/backends/_aqt/_aqt.py
+++ b/projectq/backends/_aqt/_aqt.py
@@ -22,7 +22,7 @@ from projectq.meta import LogicalQubitIDTag, get_control_count
 from projectq.ops import Allocate, Barrier, Deallocate, FlushGate, Measure, Rx, Rxx, Ry
 from projectq.types import WeakQubitRef
 
-from .._exceptions import InvalidCommandError
+from .._exceptions import InvalidCommandError, MidCircuitMeasurementError
 from .._utils import _rearrange_result
 from ._aqt_http_client import retrieve, send
 
@@ -114,6 +114,7 @@ class AQTBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
         """Reset all temporary variables (after flush gate)."""
         self._clear = True
         self._measured_ids = []
+        self._measured_locations = {}
 
     def _store(self, cmd):
         """
@@ -157,6 +158,11 @@ class AQTBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
             qubits.append(cmd.qubits[0][0].id)
             if len(cmd.qubits) == 2:
                 qubits.append(cmd.qubits[1][0].id)
+            measured = set(qubits).intersection(self._measured_locations.values())
+            if measured:
+                raise MidCircuitMeasurementError(
+                    f'Mid-circuit measurement is not supported. Qubits already measured: {sorted(measured)}.'
+                )
             angle = gate.angle / math.pi
             instruction = []
             u_name = {'Rx': "X", 'Ry': "Y", 'Rxx': "MS"}
-- 
2.43.0


From 154e0a25294bf23ec166bbd59c0d037d999fc48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:08 +0000
Subject: [PATCH 073/107] fix: refuse gates on measured qubits instead of
 measuring after them with AWS Braket

---
 projectq/backends/_awsbraket/_awsbraket.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/projectq/backends/_awsbraket/_awsbraket.py b/projectq/backends/_awsbraket/_awsbraket.py
index 783866c..810effe 100755
--- a/projectq/backends/_awsbraket/_awsbraket.py
+++ b/projectq/backends/_awsbraket/_awsbraket.py
@@ -43,6 +43,7 @@ from projectq.ops import (
 )
 from projectq.types import WeakQubitRef
 
+from .._exceptions import MidCircuitMeasurementError
 from ._awsbraket_boto3_client import retrieve, send
 
 # TODO: Add MatrixGate to cover the unitary operation in the SV1 simulator
@@ -242,6 +243,7 @@ class AWSBraketBackend(BasicEngine):  # pylint: disable=too-many-instance-attrib
         """Reset all temporary variables (after flush gate)."""
         self._clear = True
         self._measured_ids = []
+        self._measured_locations = {}
 
     def _store(self, cmd):  # pylint: disable=too-many-branches
         """
@@ -296,6 +298,11 @@ class AWSBraketBackend(BasicEngine):  # pylint: disable=too-many-instance-attrib
             json_cmd['control'] = cmd.control_qubits[0].id
 
         qubits = [qb.id for qureg in cmd.qubits for qb in qureg]
+        measured = {qb.id for qureg in cmd.all_qubits for qb in qureg}.intersection(self._measured_locations.values())
+        if measured:
+            raise MidCircuitMeasurementError(
+                f'Mid-circuit measurement is not supported. Qubits already measured: {sorted(measured)}.'
+            )
         if len(qubits) > 1:
             json_cmd['targets'] = qubits
         else:
-- 
2.43.0


From 07925e464ab4cf74de9d31b80f681276bf13e817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:35 +0000
Subject: [PATCH 074/107] fix: normalise the probabilities of a retrieved IBM
 job by its own number of runs

---
 projectq/backends/_ibm/_ibm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/projectq/backends/_ibm/_ibm.py b/projectq/backends/_ibm/_ibm.py
index 2a98ba0..4a2c78c 100755
--- a/projectq/backends/_ibm/_ibm.py
+++ b/projectq/backends/_ibm/_ibm.py
@@ -314,12 +314,14 @@ class IBMBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
                     verbose=self._verbose,
                 )
             counts = res['data']['counts']
+            # NB: a retrieved job may have another number of runs than this backend
+            num_runs = sum(counts.values())
             # Determine random outcome
             random_outcome = random.random()
             p_sum = 0.0
             measured = ""
             for state in counts:
-                probability = counts[state] * 1.0 / self._num_runs
+                probability = counts[state] * 1.0 / num_runs
                 state = f"{int(state, 0):b}"
                 state = state.zfill(max_qubit_id)
                 # states in ibmq are right-ordered, so need to reverse state string
-- 
2.43.0


From db88ff16adb2ec2a7d71dd4e14d7fefae5e31ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:48 +0000
Subject: [PATCH 075/107] fix: keep the requested number of runs after
 retrieving an AQT job

---
 projectq/backends/_aqt/_aqt.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/projectq/backends/_aqt/_aqt.py b/projectq/backends/_aqt/_aqt.py
index 0967a79..58c01c4 100644
--- a/projectq/backends/_aqt/_aqt.py
+++ b/projectq/backends/_aqt/_aqt.py
@@ -278,14 +278,15 @@ class AQTBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
                     interval=self._interval,
                     verbose=self._verbose,
                 )
-            self._num_runs = len(res)
+            # NB: a retrieved job may have another number of runs than this backend
+            num_runs = len(res)
             counts = _format_counts(res, n_qubit)
             # Determine random outcome
             random_outcome = random.random()
             p_sum = 0.0
             measured = ""
             for state in counts:
-                probability = counts[state] * 1.0 / self._num_runs
+                probability = counts[state] * 1.0 / num_runs
                 p_sum += probability
                 star = ""
                 if p_sum >= random_outcome and measured == "":
-- 
2.43.0


From ee1181e1364b93cac2a247b900739d447938ab33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:59 +0000
Subject: [PATCH 076/107] fix: always draw an outcome of non-zero probability
 from the results of IBM

---
 projectq/backends/_ibm/_ibm.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/projectq/backends/_ibm/_ibm.py b/projectq/backends/_ibm/_ibm.py
index 4a2c78c..6fae4fa 100755
--- a/projectq/backends/_ibm/_ibm.py
+++ b/projectq/backends/_ibm/_ibm.py
@@ -328,13 +328,17 @@ class IBMBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
                 state = state[::-1]
                 p_sum += probability
                 star = ""
-                if p_sum >= random_outcome and measured == "":
+                if probability > 0 and measured == "" and p_sum > random_outcome:
                     measured = state
                     star = "*"
                 self._probabilities[state] = probability
                 if self._verbose and probability > 0:
                     print(f"{str(state)} with p = {probability}{star}")
 
+            # The probabilities may add up to slightly less than the random number
+            if measured == "":
+                measured = max(self._probabilities, key=self._probabilities.get)
+
             # register measurement result from IBM
             for qubit_id in self._measured_ids:
                 location = self._measured_location(qubit_id)
-- 
2.43.0


From 2f0c77fe92c7d84d611949c1ef7c6822e478e5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:15 +0000
Subject: [PATCH 077/107] fix: always draw an outcome of non-zero probability
 from the results of AQT

---
 projectq/backends/_aqt/_aqt.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/projectq/backends/_aqt/_aqt.py b/projectq/backends/_aqt/_aqt.py
index 58c01c4..d378c64 100644
--- a/projectq/backends/_aqt/_aqt.py
+++ b/projectq/backends/_aqt/_aqt.py
@@ -289,13 +289,17 @@ class AQTBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
                 probability = counts[state] * 1.0 / num_runs
                 p_sum += probability
                 star = ""
-                if p_sum >= random_outcome and measured == "":
+                if probability > 0 and measured == "" and p_sum > random_outcome:
                     measured = state
                     star = "*"
                 self._probabilities[state] = probability
                 if self._verbose and probability > 0:
                     print(f"{str(state)} with p = {probability}{star}")
 
+            # The probabilities may add up to slightly less than the random number
+            if measured == "":
+                measured = max(self._probabilities, key=self._probabilities.get)
+
             # register measurement result from AQT
             for qubit_id in self._measured_ids:
                 # NB: the qubit may have been released in the meantime
-- 
2.43.0


From 538b0370db17ce100543da9d52e81c808b0c1f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:29 +0000
Subject: [PATCH 078/107] fix: always draw an outcome of non-zero probability
 from the results of AWS Braket

---
 projectq/backends/_awsbraket/_awsbraket.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/projectq/backends/_awsbraket/_awsbraket.py b/projectq/backends/_awsbraket/_awsbraket.py
index 810effe..10dce2a 100755
--- a/projectq/backends/_awsbraket/_awsbraket.py
+++ b/projectq/backends/_awsbraket/_awsbraket.py
@@ -443,13 +443,17 @@ class AWSBraketBackend(BasicEngine):  # pylint: disable=too-many-instance-attrib
             probability = counts[state]
             p_sum += probability
             star = ""
-            if p_sum >= random_outcome and measured == "":
+            if probability > 0 and measured == "" and p_sum > random_outcome:
                 measured = state
                 star = "*"
             self._probabilities[state] = probability
             if self._verbose and probability > 0:
                 print(f"{state} with p = {probability}{star}")
 
+        # The probabilities may add up to slightly less than the random number
+        if measured == "":
+            measured = max(self._probabilities, key=self._probabilities.get)
+
         # register measurement result
         for qubit_id in self._measured_ids:
             # NB: the qubit may have been released in the meantime
-- 
2.43.0


From b4e61d28472eaf5d99b93cf41488ce17abe4d7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:00 +0000
Subject: [PATCH 079/107] fix: forget the measurements of the previous Azure
 Quantum job

---
 projectq/backends/_azure/_azure_quantum.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/projectq/backends/_azure/_azure_quantum.py b/projectq/backends/_azure/_azure_quantum.py
index 682caa6..d493618 100644
--- a/projectq/backends/_azure/_azure_quantum.py
+++ b/projectq/backends/_azure/_azure_quantum.py
@@ -140,6 +140,7 @@ class AzureQuantumBackend(BasicEngine):  # pylint: disable=too-many-instance-att
             cmd (Command): Command to store
         """
         if self._clear:
+            self._measured_ids = []
             self._probabilities = {}
             self._clear = False
             self._circuit = None
-- 
2.43.0


From 95522b9c794df83352f7818044bcb19e1cb3790a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:13 +0000
Subject: [PATCH 080/107] fix: refuse gates on measured qubits instead of
 measuring after them with Azure Quantum

---
 projectq/backends/_azure/_azure_quantum.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/projectq/backends/_azure/_azure_quantum.py b/projectq/backends/_azure/_azure_quantum.py
index d493618..776c1ab 100644
--- a/projectq/backends/_azure/_azure_quantum.py
+++ b/projectq/backends/_azure/_azure_quantum.py
@@ -20,9 +20,10 @@ import numpy as np
 
 from projectq.cengines import BasicEngine
 from projectq.meta import LogicalQubitIDTag
-from projectq.ops import AllocateQubitGate, DeallocateQubitGate, FlushGate, MeasureGate
+from projectq.ops import AllocateQubitGate, BarrierGate, DeallocateQubitGate, FlushGate, MeasureGate
 from projectq.types import WeakQubitRef
 
+from .._exceptions import MidCircuitMeasurementError
 from .._utils import _rearrange_result
 from ._azure_quantum_client import retrieve, send
 from ._exceptions import AzureQuantumTargetNotFoundError
@@ -116,6 +117,7 @@ class AzureQuantumBackend(BasicEngine):  # pylint: disable=too-many-instance-att
         self._retrieve_execution = retrieve_execution
         self._circuit = None
         self._measured_ids = []
+        self._measured_locations = []
         self._probabilities = {}
         self._clear = True
 
@@ -141,6 +143,7 @@ class AzureQuantumBackend(BasicEngine):  # pylint: disable=too-many-instance-att
         """
         if self._clear:
             self._measured_ids = []
+            self._measured_locations = []
             self._probabilities = {}
             self._clear = False
             self._circuit = None
@@ -163,8 +166,16 @@ class AzureQuantumBackend(BasicEngine):  # pylint: disable=too-many-instance-att
                 raise RuntimeError('No LogicalQubitIDTag found in command!')
 
             self._measured_ids.append(logical_id)
+            self._measured_locations.append(cmd.qubits[0][0].id)
             return
 
+        # Gates on qubits which have already been measured
+        measured = {qb.id for qureg in cmd.all_qubits for qb in qureg}.intersection(self._measured_locations)
+        if measured and not isinstance(gate, BarrierGate):
+            raise MidCircuitMeasurementError(
+                f'Mid-circuit measurement is not supported. Qubits already measured: {sorted(measured)}.'
+            )
+
         if self._provider_id == IONQ_PROVIDER_ID:
             if not self._circuit:
                 self._circuit = []
-- 
2.43.0


From b966847b93179bb617a73588f3f95b584a0f0090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:26 +0000
Subject: [PATCH 081/107] fix: give each qubit its own bit of the results of
 Azure Quantum

---
 projectq/backends/_azure/_azure_quantum.py | 32 ++++++++++++----------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/projectq/backends/_azure/_azure_quantum.py b/projectq/backends/_azure/_azure_quantum.py
index 776c1ab..1e8e8d1 100644
--- a/projectq/backends/_azure/_azure_quantum.py
+++ b/projectq/backends/_azure/_azure_quantum.py
@@ -118,6 +118,7 @@ class AzureQuantumBackend(BasicEngine):  # pylint: disable=too-many-instance-att
         self._circuit = None
         self._measured_ids = []
         self._measured_locations = []
+        self._used_qubits = set()
         self._probabilities = {}
         self._clear = True
 
@@ -144,6 +145,7 @@ class AzureQuantumBackend(BasicEngine):  # pylint: disable=too-many-instance-att
         if self._clear:
             self._measured_ids = []
             self._measured_locations = []
+            self._used_qubits = set()
             self._probabilities = {}
             self._clear = False
             self._circuit = None
@@ -170,7 +172,9 @@ class AzureQuantumBackend(BasicEngine):  # pylint: disable=too-many-instance-att
             return
 
         # Gates on qubits which have already been measured
-        measured = {qb.id for qureg in cmd.all_qubits for qb in qureg}.intersection(self._measured_locations)
+        qubits = {qb.id for qureg in cmd.all_qubits for qb in qureg}
+        self._used_qubits.update(qubits)
+        measured = qubits.intersection(self._measured_locations)
         if measured and not isinstance(gate, BarrierGate):
             raise MidCircuitMeasurementError(
                 f'Mid-circuit measurement is not supported. Qubits already measured: {sorted(measured)}.'
@@ -285,16 +289,21 @@ class AzureQuantumBackend(BasicEngine):  # pylint: disable=too-many-instance-att
                     meas_idx = self._measured_ids.index(qubit.id)
                 except ValueError:
                     continue
-                mapped_state[i] = state[meas_idx]
+                mapped_state[i] = state[self._measured_locations[meas_idx]]
             probability = self._probabilities[state]
             mapped_state = "".join(mapped_state)
             probability_dict[mapped_state] = probability_dict.get(mapped_state, 0) + probability
         return probability_dict
 
+    @property
+    def _num_qubits(self):
+        # Qubits may have been released before the flush, and the mapping may leave out some locations
+        mapped_qubits = self.main_engine.mapper.current_mapping.values()
+        return max(self._used_qubits.union(mapped_qubits, self._measured_locations), default=-1) + 1
+
     @property
     def _input_data(self):
-        qubit_mapping = self.main_engine.mapper.current_mapping
-        qubits = len(qubit_mapping.keys())
+        qubits = self._num_qubits
 
         if self._provider_id == IONQ_PROVIDER_ID:
             return {"qubits": qubits, "circuit": self._circuit}
@@ -302,8 +311,7 @@ class AzureQuantumBackend(BasicEngine):  # pylint: disable=too-many-instance-att
         if self._provider_id == QUANTINUUM_PROVIDER_ID:
             measurement_gates = ""
 
-            for measured_id in self._measured_ids:
-                qb_loc = self.main_engine.mapper.current_mapping[measured_id]
+            for qb_loc in self._measured_locations:
                 measurement_gates += f"measure q[{qb_loc}] -> c[{qb_loc}];\n"
 
             return (
@@ -315,11 +323,7 @@ class AzureQuantumBackend(BasicEngine):  # pylint: disable=too-many-instance-att
 
     @property
     def _metadata(self):
-        qubit_mapping = self.main_engine.mapper.current_mapping
-        num_qubits = len(qubit_mapping.keys())
-        meas_map = [qubit_mapping[qubit_id] for qubit_id in self._measured_ids]
-
-        return {"num_qubits": num_qubits, "meas_map": meas_map}
+        return {"num_qubits": self._num_qubits, "meas_map": self._measured_locations[:]}
 
     def estimate_cost(self, **kwargs):
         """Estimate cost for the circuit this object has built during engine execution."""
@@ -360,7 +364,7 @@ class AzureQuantumBackend(BasicEngine):  # pylint: disable=too-many-instance-att
 
         if self._provider_id == IONQ_PROVIDER_ID:
             self._probabilities = {
-                _rearrange_result(int(k), len(self._measured_ids)): v for k, v in res["histogram"].items()
+                _rearrange_result(int(k), self._num_qubits): v for k, v in res["histogram"].items()
             }
         elif self._provider_id == QUANTINUUM_PROVIDER_ID:
             histogram = Counter(res["c"])
@@ -370,9 +374,9 @@ class AzureQuantumBackend(BasicEngine):  # pylint: disable=too-many-instance-att
 
         # Set a single measurement result
         bitstring = np.random.choice(list(self._probabilities.keys()), p=list(self._probabilities.values()))
-        for qid in self._measured_ids:
+        for qid, location in zip(self._measured_ids, self._measured_locations):
             qubit_ref = WeakQubitRef(self.main_engine, qid)
-            self.main_engine.set_measurement_result(qubit_ref, bitstring[qid])
+            self.main_engine.set_measurement_result(qubit_ref, int(bitstring[location]))
 
     def receive(self, command_list):
         """Receive a command list from the ProjectQ engine pipeline.
-- 
2.43.0


From 9233f5ba1365aa985bd09b6b54fea4add9af3251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:41 +0000
Subject: [PATCH 082/107] fix: normalise the probabilities of a retrieved
 Quantinuum job by its own number of runs

---
 projectq/backends/_azure/_azure_quantum.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/projectq/backends/_azure/_azure_quantum.py b/projectq/backends/_azure/_azure_quantum.py
index 1e8e8d1..b1c1bd9 100644
--- a/projectq/backends/_azure/_azure_quantum.py
+++ b/projectq/backends/_azure/_azure_quantum.py
@@ -368,7 +368,8 @@ class AzureQuantumBackend(BasicEngine):  # pylint: disable=too-many-instance-att
             }
         elif self._provider_id == QUANTINUUM_PROVIDER_ID:
             histogram = Counter(res["c"])
-            self._probabilities = {k: v / self._num_runs for k, v in histogram.items()}
+            # NB: a retrieved job may have another number of runs than this backend
+            self._probabilities = {k: v / len(res["c"]) for k, v in histogram.items()}
         else:  # pragma: no cover
             raise RuntimeError("Invalid Azure Quantum target.")
 
-- 
2.43.0


From 666a42f18b44957023134f07e32009ed6c13a9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:14 +0000
Subject: [PATCH 083/107] fix: return zero as the probability of a state an
 IonQ job did not report

---
 projectq/backends/_ionq/_ionq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projectq/backends/_ionq/_ionq.py b/projectq/backends/_ionq/_ionq.py
index d7e2d2d..5f44c10 100644
--- a/projectq/backends/_ionq/_ionq.py
+++ b/projectq/backends/_ionq/_ionq.py
@@ -252,7 +252,7 @@ class IonQBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
             raise ValueError('Desired state and register must be the same length!')
 
         probs = self.get_probabilities(qureg)
-        return probs[state]
+        return probs.get(state, 0.0)
 
     def get_probabilities(self, qureg):
         """
-- 
2.43.0


From a60e43de693990cbd3395652391222173da973ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:15 +0000
Subject: [PATCH 084/107] fix: do not submit an IBM job again when flushing
 twice

---
 projectq/backends/_ibm/_ibm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/projectq/backends/_ibm/_ibm.py b/projectq/backends/_ibm/_ibm.py
index 6fae4fa..954d5e3 100755
--- a/projectq/backends/_ibm/_ibm.py
+++ b/projectq/backends/_ibm/_ibm.py
@@ -278,6 +278,9 @@ class IBMBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
         Send the circuit via a non documented IBM API (using JSON written
         circuits) using the provided user data / ask for the user token.
         """
+        # nothing has been received since the last job
+        if self._clear:
+            return
         # finally: add measurements (no intermediate measurements are allowed)
         for measured_id in self._measured_ids:
             qb_loc = self._measured_location(measured_id)
-- 
2.43.0


From 4796228810d3fd3a5b8cd709e73aa923ef52e0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:27 +0000
Subject: [PATCH 085/107] fix: do not submit an AQT job again when flushing
 twice

---
 projectq/backends/_aqt/_aqt.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/projectq/backends/_aqt/_aqt.py b/projectq/backends/_aqt/_aqt.py
index d378c64..f0c0409 100644
--- a/projectq/backends/_aqt/_aqt.py
+++ b/projectq/backends/_aqt/_aqt.py
@@ -242,6 +242,9 @@ class AQTBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
 
         Send the circuit via the AQT API using the provided user token / ask for the user token.
         """
+        # nothing has been received since the last job
+        if self._clear:
+            return
         # finally: measurements
         # NOTE AQT DOESN'T SEEM TO HAVE MEASUREMENT INSTRUCTIONS (no
         # intermediate measurements are allowed, so implicit at the end)
-- 
2.43.0


From 1eb2e0e92ae8036708d769e0e25cb276e26537d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:08 +0000
Subject: [PATCH 086/107] fix: keep waiting for AQT jobs that are still queued

---
 projectq/backends/_aqt/_aqt_http_client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projectq/backends/_aqt/_aqt_http_client.py b/projectq/backends/_aqt/_aqt_http_client.py
index b2c8d90..4023535 100644
--- a/projectq/backends/_aqt/_aqt_http_client.py
+++ b/projectq/backends/_aqt/_aqt_http_client.py
@@ -142,7 +142,7 @@ class AQT(Session):
                 r_json = req.json()
                 if r_json['status'] == 'finished' or 'samples' in r_json:
                     return r_json['samples']
-                if r_json['status'] != 'running':
+                if r_json['status'] not in ('queued', 'running'):
                     raise Exception(f"Error while running the code: {r_json['status']}.")
                 time.sleep(interval)
                 if self.is_online(device) and retries % 60 == 0:
-- 
2.43.0


From b397fa37c061032b4ba7077eb24181448f1b1fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:24 +0000
Subject: [PATCH 087/107] fix: keep waiting for IBM jobs that are queued

---
 projectq/backends/_ibm/_ibm_http_client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projectq/backends/_ibm/_ibm_http_client.py b/projectq/backends/_ibm/_ibm_http_client.py
index 2760298..a4d9028 100755
--- a/projectq/backends/_ibm/_ibm_http_client.py
+++ b/projectq/backends/_ibm/_ibm_http_client.py
@@ -233,7 +233,7 @@ class IBMQ(Session):
                 request = super().get(urljoin(_API_URL, job_status_url), **json_step5)
                 request.raise_for_status()
                 r_json = request.json()
-                acceptable_status = ['VALIDATING', 'VALIDATED', 'RUNNING']
+                acceptable_status = ['VALIDATING', 'VALIDATED', 'QUEUED', 'RUNNING']
                 if r_json['status'] == 'COMPLETED':
                     # STEP6: Get the endpoint to get the result
                     json_step6 = {
-- 
2.43.0


From 3ae4eea671c6aaea012079df8f8b0431935a876a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:38 +0000
Subject: [PATCH 088/107] fix: report a timeout when an AWS Braket job is not
 polled at all

---
 projectq/backends/_awsbraket/_awsbraket_boto3_client.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/projectq/backends/_awsbraket/_awsbraket_boto3_client.py b/projectq/backends/_awsbraket/_awsbraket_boto3_client.py
index 7924a40..d4c17a0 100755
--- a/projectq/backends/_awsbraket/_awsbraket_boto3_client.py
+++ b/projectq/backends/_awsbraket/_awsbraket_boto3_client.py
@@ -262,6 +262,7 @@ class AWSBraket:
         try:
             signal.signal(signal.SIGINT, _handle_sigint_during_get_result)
 
+            status = 'unknown'
             for _ in range(num_retries):
                 quantum_task = client_braket.get_quantum_task(quantumTaskArn=execution_id)
                 status = quantum_task['status']
-- 
2.43.0


From 2608f80f7c09e6571eed4cb1da0ba8c30e6ec8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:52 +0000
Subject: [PATCH 089/107] fix: ask for the AWS credentials that were not given

---
 projectq/backends/_awsbraket/_awsbraket_boto3_client.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/projectq/backends/_awsbraket/_awsbraket_boto3_client.py b/projectq/backends/_awsbraket/_awsbraket_boto3_client.py
index d4c17a0..4246877 100755
--- a/projectq/backends/_awsbraket/_awsbraket_boto3_client.py
+++ b/projectq/backends/_awsbraket/_awsbraket_boto3_client.py
@@ -49,6 +49,7 @@ class AWSBraket:
             credentials (dict): mapping the AWS key credentials as the AWS_ACCESS_KEY_ID and AWS_SECRET_KEY.
         """
         if credentials is None:  # pragma: no cover
+            credentials = {}
             credentials['AWS_ACCESS_KEY_ID'] = getpass.getpass(prompt="Enter AWS_ACCESS_KEY_ID: ")
             credentials['AWS_SECRET_KEY'] = getpass.getpass(prompt="Enter AWS_SECRET_KEY: ")
 
-- 
2.43.0


From 551ab95b87f16c37d6ca29a5b2f204fe164a7d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:03 +0000
Subject: [PATCH 090/107] fix: report AWS Braket jobs that were cancelled

---
 projectq/backends/_awsbraket/_awsbraket_boto3_client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projectq/backends/_awsbraket/_awsbraket_boto3_client.py b/projectq/backends/_awsbraket/_awsbraket_boto3_client.py
index 4246877..425efff 100755
--- a/projectq/backends/_awsbraket/_awsbraket_boto3_client.py
+++ b/projectq/backends/_awsbraket/_awsbraket_boto3_client.py
@@ -294,7 +294,7 @@ class AWSBraket:
                         f'Error while running the code: {status}. '
                         f'The failure reason was: {quantum_task["failureReason"]}.'
                     )
-                if status == 'CANCELLING':
+                if status in ('CANCELLING', 'CANCELLED'):
                     raise Exception(f"The job received a CANCEL operation: {status}.")
                 time.sleep(interval)
                 # NOTE: Be aware that AWS is billing if a lot of API calls are
-- 
2.43.0


From 5bba3f77daaac556cbc07f4875acec1d1689e43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:15 +0000
Subject: [PATCH 091/107] fix: raise JobSubmissionError for every refused IonQ
 job

---
 projectq/backends/_ionq/_ionq_http_client.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/projectq/backends/_ionq/_ionq_http_client.py b/projectq/backends/_ionq/_ionq_http_client.py
index 72e1655..28b32d6 100644
--- a/projectq/backends/_ionq/_ionq_http_client.py
+++ b/projectq/backends/_ionq/_ionq_http_client.py
@@ -373,8 +373,12 @@ def send(
 
             # Try to parse client errors
             if status_code == 400:
-                err_json = err.response.json()
-                raise JobSubmissionError(f"{err_json['error']}: {err_json['message']}") from err
+                try:
+                    err_json = err.response.json()
+                    message = f"{err_json['error']}: {err_json['message']}"
+                except (ValueError, KeyError, TypeError):
+                    message = str(err)
+                raise JobSubmissionError(message) from err
 
         # Else, just print:
         print("- There was an error running your code:")
-- 
2.43.0


From 61457997d75a71e53d7a4147c8855c06a3f1d4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:29 +0000
Subject: [PATCH 092/107] fix: pad the truth tables of control functions to
 their full width

---
 projectq/libs/revkit/_control_function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projectq/libs/revkit/_control_function.py b/projectq/libs/revkit/_control_function.py
index 40a07fe..e608ff1 100644
--- a/projectq/libs/revkit/_control_function.py
+++ b/projectq/libs/revkit/_control_function.py
@@ -102,7 +102,7 @@ class ControlFunctionOracle:  # pylint: disable=too-few-public-methods
 
         # create truth table from function integer
         hex_length = max(2 ** (len(qs) - 1) // 4, 1)
-        revkit.tt(table=f"{self.function:#0{hex_length}x}")
+        revkit.tt(table=f"{self.function:#0{hex_length + 2}x}")
 
         # create reversible circuit from truth table
         self.kwargs.get("synth", revkit.esopbs)()
-- 
2.43.0


From b23efe61b1169d5a213bc184a0c614acda786163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:43 +0000
Subject: [PATCH 093/107] fix: pad the truth tables of phase functions to their
 full width

---
 projectq/libs/revkit/_phase.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projectq/libs/revkit/_phase.py b/projectq/libs/revkit/_phase.py
index 8d0eb29..200d0dc 100644
--- a/projectq/libs/revkit/_phase.py
+++ b/projectq/libs/revkit/_phase.py
@@ -97,8 +97,8 @@ class PhaseOracle:  # pylint: disable=too-few-public-methods
             raise AttributeError("Function truth table exceeds number of control qubits")
 
         # create truth table from function integer
-        hex_length = max(2 ** (len(qs) - 1) // 4, 1)
-        revkit.tt(table=f"{self.function:#0{hex_length}x}")
+        hex_length = max(2 ** len(qs) // 4, 1)
+        revkit.tt(table=f"{self.function:#0{hex_length + 2}x}")
 
         # create phase circuit from truth table
         self.kwargs.get("synth", revkit.esopps)()
-- 
2.43.0


From cf1a74d5e24eb3f1397e3bf143f751aee820a63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:53 +0000
Subject: [PATCH 094/107] fix: report the HTTP error when an IBM result cannot
 be downloaded

---
 projectq/backends/_ibm/_ibm_http_client.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/projectq/backends/_ibm/_ibm_http_client.py b/projectq/backends/_ibm/_ibm_http_client.py
index a4d9028..bbd87d6 100755
--- a/projectq/backends/_ibm/_ibm_http_client.py
+++ b/projectq/backends/_ibm/_ibm_http_client.py
@@ -254,6 +254,7 @@ class IBMQ(Session):
                         'timeout': (self.timeout, None),
                     }
                     request = super().get(r_json['url'], **json_step7)
+                    request.raise_for_status()
                     r_json = request.json()
                     result = r_json['results'][0]
 
-- 
2.43.0


From 3d9a4141620aa6a994aba9d3c0f5c1761846e158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:46 +0000
Subject: [PATCH 095/107] fix: refuse to apply gates to deallocated qubits

---
 projectq/ops/_basics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/projectq/ops/_basics.py b/projectq/ops/_basics.py
index 8546965..5262d6f 100755
--- a/projectq/ops/_basics.py
+++ b/projectq/ops/_basics.py
@@ -177,6 +177,8 @@ class BasicGate:
         """
         qubits = self.make_tuple_of_qureg(qubits)
 
+        if any(q.id == -1 for reg in qubits for q in reg):
+            raise ValueError('Cannot apply a gate to a qubit which has already been deallocated!')
         engines = [q.engine for reg in qubits for q in reg]
         eng = engines[0]
         if not all(e is eng for e in engines):
-- 
2.43.0


From 59c59035479a69fc2a20d207d37dcf09f3cf1e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:44 +0000
Subject: [PATCH 096/107] fix: refuse deallocated qubits as control qubits

---
 projectq/ops/_command.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/projectq/ops/_command.py b/projectq/ops/_command.py
index b2431ef..73cdcf0 100755
--- a/projectq/ops/_command.py
+++ b/projectq/ops/_command.py
@@ -282,6 +282,8 @@ class Command:  # pylint: disable=too-many-instance-attributes
 
         if not isinstance(qubits, list):
             raise ValueError('Control qubits must be a list of qubits!')
+        if any(qubit.id == -1 for qubit in qubits):
+            raise ValueError('Cannot use a qubit which has already been deallocated as control qubit!')
         self._control_qubits.extend([WeakQubitRef(qubit.engine, qubit.id) for qubit in qubits])
         self._control_state += canonical_ctrl_state(state, len(qubits))
 
-- 
2.43.0


From 4d64d31b81c08d436d0b7cf81111c6358034a219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:02 +0000
Subject: [PATCH 097/107] fix: flush the release of qubits which are
 garbage-collected together with their engine

---
 projectq/cengines/_main.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/projectq/cengines/_main.py b/projectq/cengines/_main.py
index 87ec1b3..6301e97 100755
--- a/projectq/cengines/_main.py
+++ b/projectq/cengines/_main.py
@@ -126,6 +126,7 @@ class MainEngine(BasicEngine):  # pylint: disable=too-many-instance-attributes
         super().__init__()
         self.active_qubits = weakref.WeakSet()
         self._measurements = {}
+        self._destroyed = False
         self.dirty_qubits = set()
         self.verbose = verbose
         self.main_engine = self
@@ -222,11 +223,25 @@ class MainEngine(BasicEngine):  # pylint: disable=too-many-instance-attributes
         """
         if not hasattr(sys, "last_type"):
             self.flush(deallocate_qubits=True)
+        self._destroyed = True
         try:
             atexit.unregister(self._delfun)  # only available in Python3
         except AttributeError:  # pragma: no cover
             pass
 
+    def deallocate_qubit(self, qubit):
+        """
+        Deallocate a qubit (and sends the deallocation command down the pipeline).
+
+        If the qubit outlives the engine (i.e., both are garbage-collected at once), then there is no later flush.
+
+        Args:
+            qubit (BasicQubit): Qubit to deallocate.
+        """
+        super().deallocate_qubit(qubit)
+        if self._destroyed:
+            self.flush()
+
     def set_measurement_result(self, qubit, value):
         """
         Register a measurement result.
-- 
2.43.0


From 70f4e6d5d776e6ad8287acdc0f4ab6e4fc58c258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:42 +0000
Subject: [PATCH 098/107] fix: give each Python simulator its own random number
 generator

The pure-Python kernel seeded and used the process-wide generator, so a seeded
simulator was not reproducible once anything else drew random numbers (another
simulator, for example), and creating one reset the random numbers of the whole
program.
---
 projectq/backends/_sim/_pysim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projectq/backends/_sim/_pysim.py b/projectq/backends/_sim/_pysim.py
index fe26d2c..a2f128f 100755
--- a/projectq/backends/_sim/_pysim.py
+++ b/projectq/backends/_sim/_pysim.py
@@ -45,7 +45,7 @@ class Simulator:
             args: Dummy argument to allow an interface identical to the c++ simulator.
             kwargs: Same as args.
         """
-        random.seed(rnd_seed)
+        self._rng = random.Random(rnd_seed)
         self._state = _np.ones(1, dtype=_np.complex128)
         self._map = {}
         self._num_qubits = 0
@@ -73,7 +73,7 @@ class Simulator:
         Returns:
             List of measurement results (containing either True or False).
         """
-        random_outcome = random.random()
+        random_outcome = self._rng.random()
         val = 0.0
         i = 0
         i_picked = 0  # last entry with non-zero probability
-- 
2.43.0


From a7c0a866f446ebdb2a9b74f55ea3db27ace150b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:13 +0000
Subject: [PATCH 099/107] fix: histogram of registers on backends with
 get_probabilities

The qubits were passed on as given, so a list of quregs failed with an
AttributeError although it is documented (and works on the simulator).
---
 projectq/libs/hist/_histogram.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projectq/libs/hist/_histogram.py b/projectq/libs/hist/_histogram.py
index d2bf255..11c1460 100644
--- a/projectq/libs/hist/_histogram.py
+++ b/projectq/libs/hist/_histogram.py
@@ -51,7 +51,7 @@ def histogram(backend, qureg):
         print("Consider calling histogram() with a sublist of the qubits.")
 
     if hasattr(backend, 'get_probabilities'):
-        probabilities = backend.get_probabilities(qureg)
+        probabilities = backend.get_probabilities(qubit_list)
     elif isinstance(backend, Simulator):
         outcome = [0] * len(qubit_list)
         n_outcomes = 1 << len(qubit_list)
-- 
2.43.0


From c51f2658b63c253a057b1224a67a20a2327480e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:49 +0000
Subject: [PATCH 100/107] fix: AQT setup: locations become free again after a
 program has ended

The fixed map of the first nq qubit ids made every session fail with a
KeyError once more than nq qubits had been allocated in total.
---
 projectq/setups/aqt.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/projectq/setups/aqt.py b/projectq/setups/aqt.py
index 9646584..2e34ad7 100644
--- a/projectq/setups/aqt.py
+++ b/projectq/setups/aqt.py
@@ -26,8 +26,8 @@ translated in the backend in the Rx/Ry/MS gate set.
 """
 
 from projectq.backends._aqt._aqt_http_client import show_devices
+from projectq.backends._ionq._ionq_mapper import BoundedQubitMapper
 from projectq.backends._exceptions import DeviceNotHandledError, DeviceOfflineError
-from projectq.cengines import BasicMapperEngine
 from projectq.ops import Barrier, Rx, Rxx, Ry
 from projectq.setups import restrictedgateset
 
@@ -45,14 +45,10 @@ def get_engine_list(token=None, device=None):
         # The 11 qubit online simulator doesn't need a specific mapping for
         # gates. Can also run wider gateset but this setup keep the
         # restrictedgateset setup for coherence
-        mapper = BasicMapperEngine()
         # Note: Manual Mapper doesn't work, because its map is updated only if
         # gates are applied if gates in the register are not used, then it
         # will lead to state errors
-        res = {}
-        for i in range(devices[device]['nq']):
-            res[i] = i
-        mapper.current_mapping = res
+        mapper = BoundedQubitMapper(devices[device]['nq'])
         aqt_setup = [mapper]
     else:
         # If there is an online device not handled into ProjectQ it's not too
-- 
2.43.0


From f52ae72fa61d4207f1b7261cc2340b173f56e0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:08 +0000
Subject: [PATCH 101/107] fix: IBM simulator setup: locations become free again
 after a program has ended

The fixed map of the first nq qubit ids made every session fail with a
KeyError once more than nq qubits had been allocated in total.
---
 projectq/setups/ibm.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/projectq/setups/ibm.py b/projectq/setups/ibm.py
index 122feba..dfa8ce6 100755
--- a/projectq/setups/ibm.py
+++ b/projectq/setups/ibm.py
@@ -27,8 +27,8 @@ set.
 
 from projectq.backends._exceptions import DeviceNotHandledError, DeviceOfflineError
 from projectq.backends._ibm._ibm_http_client import show_devices
+from projectq.backends._ionq._ionq_mapper import BoundedQubitMapper
 from projectq.cengines import (
-    BasicMapperEngine,
     GridMapper,
     IBM5QubitMapper,
     LocalOptimizer,
@@ -58,14 +58,10 @@ def get_engine_list(token=None, device=None):
         # The 32 qubit online simulator doesn't need a specific mapping for
         # gates. Can also run wider gateset but this setup keep the
         # restrictedgateset setup for coherence
-        mapper = BasicMapperEngine()
         # Note: Manual Mapper doesn't work, because its map is updated only if
         # gates are applied if gates in the register are not used, then it
         # will lead to state errors
-        res = {}
-        for i in range(devices[device]['nq']):
-            res[i] = i
-        mapper.current_mapping = res
+        mapper = BoundedQubitMapper(devices[device]['nq'])
         ibm_setup = [mapper]
     elif device == 'ibmq_16_melbourne':
         # Only 15 qubits available on this ibmqx2 unit(in particular qubit 7
-- 
2.43.0


From e671b0b8a808e94b24e4419c2a821b49b46d183d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:22 +0000
Subject: [PATCH 102/107] fix: IBM 15 qubit setup: do not place qubits on a
 location which does not exist

The 2x8 grid had a 16th location, which has no connection on the device;
ordinary programs of five or more qubits failed when it was used.
---
 projectq/setups/ibm.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/projectq/setups/ibm.py b/projectq/setups/ibm.py
index dfa8ce6..2785b6d 100755
--- a/projectq/setups/ibm.py
+++ b/projectq/setups/ibm.py
@@ -64,8 +64,9 @@ def get_engine_list(token=None, device=None):
         mapper = BoundedQubitMapper(devices[device]['nq'])
         ibm_setup = [mapper]
     elif device == 'ibmq_16_melbourne':
-        # Only 15 qubits available on this ibmqx2 unit(in particular qubit 7
-        # on the grid), therefore need custom grid mapping
+        # Only 15 qubits available on this unit: there is no location to the right of
+        # qubit 6, and a grid has no room for qubit 7, which is only connected to qubit 8.
+        # Therefore need custom grid mapping
         grid_to_physical = {
             0: 0,
             1: 1,
@@ -74,20 +75,18 @@ def get_engine_list(token=None, device=None):
             4: 4,
             5: 5,
             6: 6,
-            7: 15,
-            8: 14,
-            9: 13,
-            10: 12,
-            11: 11,
-            12: 10,
-            13: 9,
-            14: 8,
-            15: 7,
+            7: 14,
+            8: 13,
+            9: 12,
+            10: 11,
+            11: 10,
+            12: 9,
+            13: 8,
         }
         coupling_map = devices[device]['coupling_map']
         coupling_map = list2set(coupling_map)
         ibm_setup = [
-            GridMapper(2, 8, grid_to_physical),
+            GridMapper(2, 7, grid_to_physical),
             LocalOptimizer(5),
             SwapAndCNOTFlipper(coupling_map),
             LocalOptimizer(5),
-- 
2.43.0


From 9f28e4e9b55a240b205899e6a7aaf5791f7b2595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:45 +0000
Subject: [PATCH 103/107] fix: MainEngine: errors whose type needs more than a
 message reach the user

With compact error messages (the default), e.g. a ClientError of AWS or a
JSONDecodeError was replaced by a TypeError about its own constructor.
---
 projectq/cengines/_main.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/projectq/cengines/_main.py b/projectq/cengines/_main.py
index 6301e97..8975d4a 100755
--- a/projectq/cengines/_main.py
+++ b/projectq/cengines/_main.py
@@ -320,9 +320,15 @@ class MainEngine(BasicEngine):  # pylint: disable=too-many-instance-attributes
             exc_type, exc_value, _ = sys.exc_info()
             # try:
             last_line = traceback.format_exc().splitlines()
-            compact_exception = exc_type(
-                str(exc_value) + '\n raised in:\n' + repr(last_line[-3]) + "\n" + repr(last_line[-2])
-            )
+            try:
+                compact_exception = exc_type(
+                    str(exc_value) + '\n raised in:\n' + repr(last_line[-3]) + "\n" + repr(last_line[-2])
+                )
+            except Exception:  # pylint: disable=broad-except
+                compact_exception = None
+            if compact_exception is None:
+                # this type of exception cannot be made from a message alone
+                raise
             compact_exception.__cause__ = None
             raise compact_exception from err  # use verbose=True for more info
 
-- 
2.43.0


From a4c0f6153eef65baf83efdba3bc7e64754c97a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:40 +0000
Subject: [PATCH 104/107] fix: a qubit listed several times as a control is one
 control qubit

Nested sections controlled by the same qubit were sent on as a gate with
that qubit as several of its controls; compiling such a gate failed with an
IndexError in the optimizer, or gave gates acting on one qubit twice.
---
 projectq/ops/_command.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/projectq/ops/_command.py b/projectq/ops/_command.py
index 73cdcf0..9149707 100755
--- a/projectq/ops/_command.py
+++ b/projectq/ops/_command.py
@@ -299,6 +299,11 @@ class Command:  # pylint: disable=too-many-instance-attributes
                     f'Control qubits {list(qubits)} cannot have conflicting control states: {states}'
                 )
 
+        # A qubit which is required to have the same value more than once only is a control qubit once
+        unique = {qubit.id: (qubit, value) for qubit, value in reversed(zipped)}
+        unzipped_qubit, unzipped_state = zip(*reversed(unique.values()))
+        self._control_qubits, self._control_state = list(unzipped_qubit), ''.join(unzipped_state)
+
     @property
     def all_qubits(self):
         """
-- 
2.43.0


From 42096085644cb796a99033c833351443e1c795bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:36 +0000
Subject: [PATCH 105/107] fix: a measurement of several qubits is refused
 before it is made

Measure | (a, b) raised an error, but both qubits had been measured.
---
 projectq/ops/_gates.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/projectq/ops/_gates.py b/projectq/ops/_gates.py
index 10527a8..85688c9 100755
--- a/projectq/ops/_gates.py
+++ b/projectq/ops/_gates.py
@@ -406,14 +406,12 @@ class MeasureGate(FastForwardingGate):
         Raises:
             RuntimeError: Since ProjectQ v0.6.0 if the gate is applied to multiple qubits.
         """
-        num_qubits = 0
-        for qureg in self.make_tuple_of_qureg(qubits):
-            for qubit in qureg:
-                num_qubits += 1
-                cmd = self.generate_command(([qubit],))
-                apply_command(cmd)
-        if num_qubits > 1:  # pragma: no cover
+        all_qubits = [qubit for qureg in self.make_tuple_of_qureg(qubits) for qubit in qureg]
+        if len(all_qubits) > 1:  # pragma: no cover
             raise RuntimeError('Measure is a single qubit gate. Use All(Measure) | qureg instead')
+        for qubit in all_qubits:
+            cmd = self.generate_command(([qubit],))
+            apply_command(cmd)
 
 
 #: Shortcut (instance of) :class:`projectq.ops.MeasureGate`
-- 
2.43.0


From d1355178e1a4577d3bde53cd30620d651f32a318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:14 +0000
Subject: [PATCH 106/107] fix: AQT: the backend's default device 'simulator' is
 the service's aqt_simulator

---
 projectq/backends/_aqt/_aqt_http_client.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/projectq/backends/_aqt/_aqt_http_client.py b/projectq/backends/_aqt/_aqt_http_client.py
index 4023535..abaaf9a 100644
--- a/projectq/backends/_aqt/_aqt_http_client.py
+++ b/projectq/backends/_aqt/_aqt_http_client.py
@@ -30,6 +30,9 @@ from .._exceptions import DeviceOfflineError, DeviceTooSmall, RequestTimeoutErro
 
 _API_URL = 'https://gateway.aqt.eu/marmot/'
 
+# Default device of the AQTBackend
+_DEVICE_ALIASES = {'simulator': 'aqt_simulator'}
+
 
 class AQT(Session):
     """Class managing the session to AQT's APIs."""
@@ -189,6 +192,7 @@ def retrieve(device, token, jobid, num_retries=3000, interval=1, verbose=False):
     Returns:
         (list) samples form the AQT server
     """
+    device = _DEVICE_ALIASES.get(device, device)
     aqt_session = AQT()
     aqt_session.authenticate(token)
     aqt_session.update_devices_list(verbose)
@@ -218,6 +222,7 @@ def send(
         (list) samples form the AQT server
 
     """
+    device = _DEVICE_ALIASES.get(device, device)
     try:
         aqt_session = AQT()
 
-- 
2.43.0


From 8445f6a6302c308a19561206ccc4aaf0ee8dae84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:27 +0000
Subject: [PATCH 107/107] fix: Azure: without use_hardware no Quantinuum job
 goes to a hardware target

---
 projectq/backends/_azure/_azure_quantum.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/projectq/backends/_azure/_azure_quantum.py b/projectq/backends/_azure/_azure_quantum.py
index b1c1bd9..66aeedd 100644
--- a/projectq/backends/_azure/_azure_quantum.py
+++ b/projectq/backends/_azure/_azure_quantum.py
@@ -97,10 +97,10 @@ class AzureQuantumBackend(BasicEngine):  # pylint: disable=too-many-instance-att
             if self._provider_id == IONQ_PROVIDER_ID:
                 self._target_name = 'ionq.simulator'
             elif self._provider_id == QUANTINUUM_PROVIDER_ID:
-                if target_name == 'quantinuum.hqs-lt-s1':
-                    self._target_name = 'quantinuum.hqs-lt-s1-apival'
-                else:
+                if target_name.endswith(('-apival', '-sim')) or '.sim.' in target_name:
                     self._target_name = target_name
+                else:
+                    self._target_name = 'quantinuum.hqs-lt-s1-apival'
             else:  # pragma: no cover
                 raise RuntimeError("Invalid Azure Quantum target.")
 
-- 
2.43.0

