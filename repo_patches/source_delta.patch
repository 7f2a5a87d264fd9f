From e8e63a39ac25ccde355acade778de72a2d38b614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:19 +0000
Subject: [PATCH 01/52] fix: resetting a circuit without its registers left the
 old qubits and bits visible

---
 dwave/gate/circuit.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 17353f2..2e4a865 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -353,6 +353,10 @@ class Circuit:
         if not keep_registers:
             self._qregisters.clear()
             self._cregisters.clear()
+
+            # remove cached 'qubits' and 'bits' attributes when clearing the registers
+            self.__dict__.pop("qubits", None)
+            self.__dict__.pop("bits", None)
         else:
             for bit in self.bits:
                 bit.reset()
-- 
2.43.0


From af1d89b8fa3ada2f57d7655b510bf58824eaf283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:25 +0000
Subject: [PATCH 02/52] fix: adding a bit of value 0 added another bit, and
 refused additions left an empty register

---
 dwave/gate/circuit.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 2e4a865..1440b4d 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -376,6 +376,12 @@ class Circuit:
         if qubit is not None and not isinstance(qubit, Qubit):
             raise TypeError(f"Can only add qubits to circuit. Got '{type(qubit).__name__}'.")
 
+        # NOTE: same qubit in different registers NOT allowed; must be checked before
+        # adding any register, which should not be left behind if the qubit is refused
+        if qubit in self.qubits:
+            label, _ = self.find_qubit(qubit, qreg_label=True)
+            raise ValueError(f"Qubit '{qubit}' already in use in quantum register '{label}'.")
+
         if qreg_label is not None:
             if qreg_label not in self.qregisters:
                 self.add_qregister(label=qreg_label)
@@ -384,10 +390,6 @@ class Circuit:
                 self.add_qregister()
             qreg_label = list(self.qregisters)[0]
 
-        # NOTE: same qubit in different registers NOT allowed
-        if qubit in self.qubits:
-            raise ValueError(f"Qubit '{qubit}' already in use in quantum register '{qreg_label}'.")
-
         self.qregisters[qreg_label].add(qubit or Qubit(str(self.num_qubits)))
 
         # remove cached 'qubits' attribute when updating 'qregisters';
@@ -406,6 +408,12 @@ class Circuit:
         if bit is not None and not isinstance(bit, Bit):
             raise TypeError(f"Can only add bits to circuit. Got '{type(bit).__name__}'.")
 
+        # NOTE: same bit in different registers NOT allowed; must be checked before
+        # adding any register, which should not be left behind if the bit is refused
+        if self.bits and bit in self.bits:
+            label, _ = self.find_bit(bit, creg_label=True)
+            raise ValueError(f"Bit '{bit}' already in use in classical register '{label}'.")
+
         if creg_label is not None:
             if creg_label not in self.cregisters:
                 self.add_cregister(label=creg_label)
@@ -414,11 +422,9 @@ class Circuit:
                 self.add_cregister()
             creg_label = list(self.cregisters)[0]
 
-        # NOTE: same bit in different registers NOT allowed
-        if self.bits and bit in self.bits:
-            raise ValueError(f"Bit '{bit}' already in use in classical register '{creg_label}'.")
-
-        self.cregisters[creg_label].add(bit or Bit(str(self.num_bits)))
+        self.cregisters[creg_label].add(
+            bit if bit is not None else Bit(str(self.num_bits))
+        )
 
         # remove cached 'bits' attribute when updating 'cregisters'
         # will always be in 'self.__dict__' since 'self.bits' is called above
-- 
2.43.0


From 74e8e82bb1af71191f7b26de2b04e0ded643b878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:28 +0000
Subject: [PATCH 03/52] fix: a single bit of value 0 passed to a circuit call
 was ignored

---
 dwave/gate/circuit.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 1440b4d..b1e999f 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -115,10 +115,11 @@ class Circuit:
         if len(qubits) != len(self.qubits):
             raise ValueError(f"Circuit requires {len(self.qubits)} qubits, got {len(qubits)}.")
 
-        if bits:
-            if isinstance(bits, Bit):
-                bits = [bits]
+        # NOTE: a single bit is falsy when its value is 0
+        if isinstance(bits, Bit):
+            bits = [bits]
 
+        if bits:
             if len(bits) != len(self.bits):
                 raise ValueError(f"Circuit requires {len(self.bits)} bits, got {len(bits)}.")
 
-- 
2.43.0


From c37088b8f7ee782c4968a17e00f72d677727b155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:34 +0000
Subject: [PATCH 04/52] fix: parameters and variables of value 0 were treated
 as unset

---
 dwave/gate/operations/base.py | 2 +-
 dwave/gate/primitives.py      | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/dwave/gate/operations/base.py b/dwave/gate/operations/base.py
index d2dd45b..7d0354f 100644
--- a/dwave/gate/operations/base.py
+++ b/dwave/gate/operations/base.py
@@ -401,7 +401,7 @@ class ParametricOperation(Operation):
             if isinstance(p, Variable):
                 if parameters:
                     op.parameters[i] = parameters[i]
-                elif p.value:
+                elif p.value is not None:
                     op.parameters[i] = p.value
                 else:
                     raise ValueError("No available parameter to evaluate with.")
diff --git a/dwave/gate/primitives.py b/dwave/gate/primitives.py
index 38c6721..559cda0 100644
--- a/dwave/gate/primitives.py
+++ b/dwave/gate/primitives.py
@@ -175,13 +175,13 @@ class Variable:
         """Two variables are equal if they share the same label."""
         if isinstance(object, Variable):
             return self.name == object.name
-        if self._value and self._value == object:
+        if self._value is not None and self._value == object:
             return True
         return False
 
     def __repr__(self) -> str:
         """The representation of the variable is its label."""
-        if self._value:
+        if self._value is not None:
             return str(self.value)
         return f"{{{self.name}}}"
 
-- 
2.43.0


From 3ca7c43a3b3365950f7a1f47fcc6b957e35b9e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:40 +0000
Subject: [PATCH 05/52] fix: parametric controlled operations kept unevaluated
 variables in non-parametric circuits

---
 dwave/gate/operations/base.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/dwave/gate/operations/base.py b/dwave/gate/operations/base.py
index 7d0354f..73f868e 100644
--- a/dwave/gate/operations/base.py
+++ b/dwave/gate/operations/base.py
@@ -620,7 +620,6 @@ class ParametricControlledOperation(ControlledOperation, ParametricOperation):
     ):
         # ControlledOperation.__init__(self, control, target, **kwargs)
         super().__init__(control, target, parameters=parameters, **kwargs)
-        self._parameters = self._check_parameters(parameters)
 
     def __call__(
         self, control: Optional[Sequence[Qubit]] = None, target: Optional[Sequence[Qubit]] = None
-- 
2.43.0


From 6c70a624ba2e913f520c23c1109be5b3cf293e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:59 +0000
Subject: [PATCH 06/52] fix: simulating again repeated the measured qubits in
 samples

---
 dwave/gate/simulator/simulator.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dwave/gate/simulator/simulator.pyx b/dwave/gate/simulator/simulator.pyx
index 9dd3f66..57805bc 100644
--- a/dwave/gate/simulator/simulator.pyx
+++ b/dwave/gate/simulator/simulator.pyx
@@ -207,6 +207,8 @@ def sample_qubit(
 
 def _measure(op, state, targets, rng):
     op._measured_state = state.copy()
+    # replace the indices of any previous simulation
+    op._measured_qubit_indices = []
 
     for idx, t in enumerate(targets):
         m = sample_qubit(t, state, rng)
-- 
2.43.0


From 38eec2c27a0d9ecc12fddd3778d34b3ca94d4df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:03 +0000
Subject: [PATCH 07/52] fix: the unitary of a modified circuit was the one of
 the circuit before

---
 dwave/gate/tools/unitary.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/dwave/gate/tools/unitary.py b/dwave/gate/tools/unitary.py
index 183b8f7..6ea1481 100644
--- a/dwave/gate/tools/unitary.py
+++ b/dwave/gate/tools/unitary.py
@@ -21,7 +21,6 @@ __all__ = [
 
 import itertools
 from collections.abc import Sequence
-from functools import lru_cache
 from typing import TYPE_CHECKING, Optional, Union
 
 import numpy as np
@@ -40,7 +39,6 @@ if TYPE_CHECKING:
 # TODO: exchange for something better; only here for testing matrix creation
 # for custom operations; controlled operations only works with single
 # control and target; no support for any other multi-qubit gates
-@lru_cache(maxsize=128)
 def build_unitary(circuit) -> NDArray:
     """Builds the circuit unitary by multiplying together the operation matrices.
 
-- 
2.43.0


From bf0942a898df1a3f9f0f9b50509cc89d24e57456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:08 +0000
Subject: [PATCH 08/52] fix: operations created from circuits without
 operations could not be simulated

---
 dwave/gate/tools/unitary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dwave/gate/tools/unitary.py b/dwave/gate/tools/unitary.py
index 6ea1481..fc2d951 100644
--- a/dwave/gate/tools/unitary.py
+++ b/dwave/gate/tools/unitary.py
@@ -48,7 +48,7 @@ def build_unitary(circuit) -> NDArray:
     Returns:
         NDArray: Unitary matrix representation of the circuit.
     """
-    state = np.eye(2**circuit.num_qubits)
+    state = np.eye(2**circuit.num_qubits, dtype=complex)
     # apply operations from first to last (the order in which they're
     # applied within the context, stored sequentially in the circuit)
     for op in circuit.circuit:
-- 
2.43.0


From 6d47fd9d6a7836099a968482f0b1caa8133c0e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:13 +0000
Subject: [PATCH 09/52] fix: density matrices of complex pure states were not
 conjugated

---
 dwave/gate/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index b1e999f..b54e6e6 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -252,7 +252,7 @@ class Circuit:
     def density_matrix(self) -> Optional[NDArray]:
         """The density matrix representation of the state."""
         if self._state is not None and self._density_matrix is None:
-            self._density_matrix = self._state.reshape(-1, 1) @ self._state.reshape(1, -1)
+            self._density_matrix = self._state.reshape(-1, 1) @ self._state.conj().reshape(1, -1)
         return self._density_matrix
 
     def set_state(self, state: NDArray, force: bool = False, normalize: bool = False) -> None:
-- 
2.43.0


From 677973696fb5aace065e23722d87a85a3c5e6fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:19 +0000
Subject: [PATCH 10/52] fix: mixed density matrices were refused as not
 normalized

---
 dwave/gate/circuit.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index b54e6e6..8111870 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -271,7 +271,7 @@ class Circuit:
             raise CircuitError("State already set. Use 'force=True' to force set new state.")
 
         if normalize:
-            state = state / np.linalg.norm(state)
+            state = state / self._norm(state)
 
         self._assert_state(state)
 
@@ -289,9 +289,14 @@ class Circuit:
         if state.shape != (size,) and state.shape != (size, size):
             raise ValueError(f"State has incorrect shape. Should have size {size}.")
 
-        if not np.isclose(np.linalg.norm(state), 1):
+        if not np.isclose(self._norm(state), 1):
             raise ValueError("State is not normalized.")
 
+    @staticmethod
+    def _norm(state: NDArray) -> complex:
+        """The norm of a state vector, or the trace of a density matrix."""
+        return np.trace(state) if state.ndim == 2 else np.linalg.norm(state)
+
     @property
     def num_qubits(self) -> int:
         """Number of qubits in the circuit."""
-- 
2.43.0


From fbfd30a0a4e937a1732fa3c94f1c31d963d4d1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:05 +0000
Subject: [PATCH 11/52] fix: parametric controlled operations could not be
 simulated inside a context

---
 dwave/gate/operations/base.py      | 12 +++++++++++-
 dwave/gate/simulator/simulator.pyx |  2 +-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/dwave/gate/operations/base.py b/dwave/gate/operations/base.py
index 73f868e..37c2e91 100644
--- a/dwave/gate/operations/base.py
+++ b/dwave/gate/operations/base.py
@@ -639,10 +639,20 @@ class ParametricControlledOperation(ControlledOperation, ParametricOperation):
 
         return self.__class__(self.parameters, control, target)  # type: ignore
 
+    def _get_target_matrix(self) -> NDArray:
+        """The matrix representation of the target operation.
+
+        The target operation is constructed without being initialized, since it's neither applied
+        to any qubits nor should be appended to any circuit, should there be an active context.
+        """
+        target_operation = self.target_operation.__new__(self.target_operation)
+        target_operation._parameters = self.parameters
+        return target_operation.matrix
+
     @mixedproperty(self_required=True)
     def matrix(cls, self) -> NDArray:
         """The matrix representation of the parametric controlled operation."""
-        self._target_matrix = cls.target_operation(self.parameters).matrix
+        self._target_matrix = self._get_target_matrix()
 
         # signature of super required for correct self to be passed along (do not remove)
         # if removed, 'matrix' attribute will crash due to '_target_matrix' not found
diff --git a/dwave/gate/simulator/simulator.pyx b/dwave/gate/simulator/simulator.pyx
index 57805bc..ce253e1 100644
--- a/dwave/gate/simulator/simulator.pyx
+++ b/dwave/gate/simulator/simulator.pyx
@@ -92,7 +92,7 @@ def apply_instruction(
     elif isinstance(op, ops.ControlledOperation):
         # should be single qubit gate with controls
         if isinstance(op, ops.ParametricOperation):
-            gate = op.target_operation(op.parameters).matrix
+            gate = op._get_target_matrix()
         else:
             gate = op.target_operation.matrix
         assert gate.shape == (2, 2), (op, gate)
-- 
2.43.0


From 16dd28800b0b205e8f070892dd136ad712051e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:11 +0000
Subject: [PATCH 12/52] fix: QIR of circuits with several registers used the
 wrong qubits and bits

---
 dwave/gate/qir/compiler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dwave/gate/qir/compiler.py b/dwave/gate/qir/compiler.py
index c98a62b..0cf6f06 100644
--- a/dwave/gate/qir/compiler.py
+++ b/dwave/gate/qir/compiler.py
@@ -365,8 +365,8 @@ def qir_module(circuit: Circuit, add_external: bool = False) -> BaseModule:
             block = "measurements"
 
             for qb, b in zip(op.qubits, op.bits):
-                _, qubit_idx = circuit.find_qubit(qb)
-                _, bit_idx = circuit.find_bit(b)
+                qubit_idx = circuit.qubits.index(qb)
+                bit_idx = circuit.bits.index(b)
                 args = (module.qubits[qubit_idx], module.results[bit_idx])
 
                 measurement_instruction = Instruction(InstrType.MEASUREMENT, pyqir_op, args)
@@ -386,7 +386,7 @@ def qir_module(circuit: Circuit, add_external: bool = False) -> BaseModule:
                 args.extend(op.parameters)
 
             for qb in op.qubits:
-                _, qubit_idx = circuit.find_qubit(qb)
+                qubit_idx = circuit.qubits.index(qb)
                 args.append(module.qubits[qubit_idx])
 
             if type_ is InstrType.EXTERNAL:
-- 
2.43.0


From b2a3a6155a9de860860896e506ddd6d5c27eccbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:17 +0000
Subject: [PATCH 13/52] fix: leaving a nested frozen context unfroze the outer
 one

---
 dwave/gate/circuit.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 8111870..8a077c0 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -861,13 +861,19 @@ class CircuitContext:
         """
 
         class FrozenContext:
+            def __init__(self) -> None:
+                self._previous: list[tuple[CircuitContext, bool]] = []
+
             def __enter__(self) -> None:
-                if cls.active_context is None:
+                context = cls.active_context
+                if context is None:
                     raise CircuitError("Can only freeze active context. No active context found.")
-                cls.active_context._frozen = True
+                self._previous.append((context, context._frozen))
+                context._frozen = True
 
             def __exit__(self, _, __, ___) -> None:
-                cls.active_context._frozen = False
+                # might be inside another frozen context, so don't necessarily unfreeze
+                context, context._frozen = self._previous.pop()
 
         return FrozenContext()
 
-- 
2.43.0


From 84feeda6ad9fb6a08692da0cc66ec71c9f9ff502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:23 +0000
Subject: [PATCH 14/52] fix: applying a circuit dropped the conditions of its
 operations

---
 dwave/gate/circuit.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 8a077c0..333b86a 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -123,8 +123,7 @@ class Circuit:
             if len(bits) != len(self.bits):
                 raise ValueError(f"Circuit requires {len(self.bits)} bits, got {len(bits)}.")
 
-            bit_map = dict(zip(self.bits, bits))
-
+        bit_map = dict(zip(self.bits, bits or []))
         qubit_map = dict(zip(self.qubits, qubits))
 
         for op in self.circuit:
@@ -139,8 +138,11 @@ class Circuit:
 
             if isinstance(op, Measurement):
                 if bits:
-                    mapped_bits = [bit_map[qb] for qb in op.bits or []]
-                    op.__class__(qubits=mapped_qubits) | mapped_bits
+                    measurement = op.__class__(qubits=mapped_qubits)
+                    if op.bits:
+                        measurement | [bit_map[qb] for qb in op.bits]
+                    if op._cond:
+                        measurement.conditional([bit_map.get(b, b) for b in op._cond])
                     continue
                 else:
                     warnings.warn(
@@ -149,11 +151,14 @@ class Circuit:
                     )
 
             if isinstance(op, ParametricOperation):
-                op.__class__(op.parameters, qubits=mapped_qubits)
+                mapped_op = op.__class__(op.parameters, qubits=mapped_qubits)
             elif isinstance(op, ControlledOperation):
-                op.__class__(*mapped_qubits)
+                mapped_op = op.__class__(*mapped_qubits)
             else:
-                op.__class__(qubits=mapped_qubits)
+                mapped_op = op.__class__(qubits=mapped_qubits)
+
+            if op._cond:
+                mapped_op.conditional([bit_map.get(b, b) for b in op._cond])
 
     @property
     def qregisters(self) -> Mapping[Hashable, QuantumRegister]:
-- 
2.43.0


From 43c236303678ec8b88bc710246a67fa7a2b23b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:49 +0000
Subject: [PATCH 15/52] fix: recompiling a QIR module dropped its external
 instructions

---
 dwave/gate/qir/compiler.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/dwave/gate/qir/compiler.py b/dwave/gate/qir/compiler.py
index 0cf6f06..97d8166 100644
--- a/dwave/gate/qir/compiler.py
+++ b/dwave/gate/qir/compiler.py
@@ -303,7 +303,6 @@ class BaseModule:
             rm_instructions: Whether to also reset all instructions.
         """
         self._module = pyqir.qir_module(self.context, self.name, **self._module_kwargs)
-        self._remove_external_instructions()
         self._return.erase()
 
         if rm_instructions:
@@ -323,17 +322,17 @@ class BaseModule:
                 self._external_functions[name] = pyqir.Function(
                     function_type, Linkage.EXTERNAL, exfunc.name, self._module
                 )
+            self._replace_external_instructions()
 
         self._is_compiled = False
         self._qir = self._bitcode = None
 
-    def _remove_external_instructions(self) -> None:
-        """Removes all external functions from the instructions."""
-        for block, instructions in self._instructions.items():
-            instr_len = len(instructions)
-            for i, instr in enumerate(reversed(instructions)):
+    def _replace_external_instructions(self) -> None:
+        """Replaces all external instructions with ones calling the current external functions."""
+        for instructions in self._instructions.values():
+            for i, instr in enumerate(instructions):
                 if instr.type is InstrType.EXTERNAL:
-                    del self._instructions[block][instr_len - i - 1]
+                    instructions[i] = self.get_external_instruction(instr.name, instr.args)
 
 
 def qir_module(circuit: Circuit, add_external: bool = False) -> BaseModule:
-- 
2.43.0


From b955f3309711dd4e49f7c97d84a96f8530fc6b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:55 +0000
Subject: [PATCH 16/52] fix: QIR modules could not be compiled again after a
 failed compilation

---
 dwave/gate/qir/compiler.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/dwave/gate/qir/compiler.py b/dwave/gate/qir/compiler.py
index 97d8166..23e63c3 100644
--- a/dwave/gate/qir/compiler.py
+++ b/dwave/gate/qir/compiler.py
@@ -71,6 +71,8 @@ class BaseModule:
         **kwargs,
     ) -> None:
         self._is_compiled = False
+        # whether the internal module has been written to, e.g., by a failed compilation
+        self._is_written = False
 
         self._module_kwargs = kwargs
         self._module_kwargs.setdefault("qir_major_version", 1)
@@ -144,8 +146,10 @@ class BaseModule:
                 raise CompileError(
                     "Module already compiled. Set 'force=True' to force recompilation."
                 )
+        if self._is_written:
             self.reset(rm_instructions=False)
 
+        self._is_written = True
         self._compile()
 
         self._return = self.builder.ret(self._return_cmd)
@@ -303,7 +307,10 @@ class BaseModule:
             rm_instructions: Whether to also reset all instructions.
         """
         self._module = pyqir.qir_module(self.context, self.name, **self._module_kwargs)
-        self._return.erase()
+        # forget the return before erasing it, so that it cannot be erased twice
+        return_, self._return = self._return, None
+        if return_ is not None:
+            return_.erase()
 
         if rm_instructions:
             for key in self._instructions:
@@ -325,6 +332,7 @@ class BaseModule:
             self._replace_external_instructions()
 
         self._is_compiled = False
+        self._is_written = False
         self._qir = self._bitcode = None
 
     def _replace_external_instructions(self) -> None:
-- 
2.43.0


From 23e02a502e78b4466f7af19d2bb7c3fdd69da1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:34 +0000
Subject: [PATCH 17/52] fix: failing calls of parametric circuits kept
 variables set

---
 dwave/gate/circuit.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 333b86a..1e2b972 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -731,12 +731,13 @@ class ParametricCircuit(Circuit):
             CircuitError: If called outside of an active context.
         """
         if CircuitContext.active_context:
+            # delay reset variables function call to on context exit; must be done before
+            # setting any variable, since that might fail if there are too few parameters
+            CircuitContext.on_exit_functions.append(self.reset_variables)
+
             for i, var in enumerate(self._parameter_register):
                 var.set(parameters[i])
 
-        # delay reset variables function call to on context exit
-        CircuitContext.on_exit_functions.append(self.reset_variables)
-
         return super().__call__(qubits=qubits, bits=bits)
 
     def unlock(self) -> None:
-- 
2.43.0


From 778919104cf5ddfadd2cff386e0cbc22d911a393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:39 +0000
Subject: [PATCH 18/52] fix: explicit parameters were lost when applying
 circuits in parametric circuits

---
 dwave/gate/circuit.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 1e2b972..9a7c1c9 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -40,7 +40,7 @@ from typing import TYPE_CHECKING, Callable, ContextManager, NamedTuple, Optional
 import numpy as np
 
 from dwave.gate.mixedproperty import mixedproperty
-from dwave.gate.primitives import Bit, Qubit
+from dwave.gate.primitives import Bit, Qubit, Variable
 from dwave.gate.registers.registers import (
     ClassicalRegister,
     QuantumRegister,
@@ -151,7 +151,12 @@ class Circuit:
                     )
 
             if isinstance(op, ParametricOperation):
-                mapped_op = op.__class__(op.parameters, qubits=mapped_qubits)
+                # use the parameters of this call; the variables are reset on context exit
+                parameters = [
+                    p.value if isinstance(p, Variable) and p.value is not None else p
+                    for p in op.parameters
+                ]
+                mapped_op = op.__class__(parameters, qubits=mapped_qubits)
             elif isinstance(op, ControlledOperation):
                 mapped_op = op.__class__(*mapped_qubits)
             else:
-- 
2.43.0


From 4895e4321245c52e831c6da15e7e9408ff37b97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:46 +0000
Subject: [PATCH 19/52] fix: evaluated operations were conditioned on copies of
 the bits of the circuit

---
 dwave/gate/circuit.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 9a7c1c9..ebe7dc2 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -772,7 +772,9 @@ class ParametricCircuit(Circuit):
         for i, op in enumerate(circuit.circuit):
             eval = getattr(op, "eval", None)
             params = parameters[i] if parameters else None
-            circuit.circuit[i] = eval(params, inplace) if eval else op
+            # NOTE: if not in place, 'circuit' already is a copy; copying each operation
+            # again would detach their qubits and conditional bits from those in the circuit
+            circuit.circuit[i] = eval(params, inplace=True) if eval else op
 
         return circuit
 
-- 
2.43.0


From bb27daa6efe18bae0f63afaaf2215ddf243d37b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:23 +0000
Subject: [PATCH 20/52] fix: generating IDs in several threads could fail or
 return the same ID twice

---
 dwave/gate/tools/counters.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/dwave/gate/tools/counters.py b/dwave/gate/tools/counters.py
index 2fcecba..9ed0c62 100644
--- a/dwave/gate/tools/counters.py
+++ b/dwave/gate/tools/counters.py
@@ -16,9 +16,26 @@ __all__ = [
     "IDCounter",
 ]
 
+import functools
 import itertools
+import threading
 import warnings
-from typing import Optional
+from typing import Callable, Optional
+
+
+# several threads might be generating IDs; reentrant since 'IDCounter' methods call each other
+_lock = threading.RLock()
+
+
+def _synchronized(method: Callable) -> Callable:
+    """Decorator for methods which must not be called by several threads at the same time."""
+
+    @functools.wraps(method)
+    def wrapper(*args, **kwargs):
+        with _lock:
+            return method(*args, **kwargs)
+
+    return wrapper
 
 
 class IDCounter:
@@ -41,6 +58,7 @@ class IDCounter:
     id_set = set()
 
     @classmethod
+    @_synchronized
     def next(cls) -> str:
         """Returns a semi-random (unique) alphanumeric ID."""
         if not cls.id_set:
@@ -48,6 +66,7 @@ class IDCounter:
         return cls.id_set.pop()
 
     @classmethod
+    @_synchronized
     def refresh(cls) -> None:
         """Refreshes the set of available ID numbers; automatically done when necessary."""
         for _ in range(cls.batch):
@@ -74,6 +93,7 @@ class IDCounter:
                 continue
 
     @classmethod
+    @_synchronized
     def reset(cls, length: Optional[int] = None, batch: Optional[int] = None) -> None:
         """Resets the ID counter to use a certain length and/or batch size.
 
-- 
2.43.0


From 2d065e89eae9094648b7e54b9b25cd7e28aa3c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:30 +0000
Subject: [PATCH 21/52] fix: contexts were released before being exited
 completely, or with failing exit functions not at all

---
 dwave/gate/circuit.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index ebe7dc2..fb6efe3 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -916,13 +916,14 @@ class CircuitContext:
         """Exits the context and locks the circuit."""
         # IDEA: add setting to automatically decompose qubits on exit
         # TODO: add setting to automatically add missing qubits on exit (or raise error)
-        CircuitContext._active_context = None
-
-        for exit_func in self.on_exit_functions:
-            exit_func()
-        self.on_exit_functions.clear()
-
-        self.circuit.lock()
+        try:
+            for exit_func in self.on_exit_functions:
+                exit_func()
+        finally:
+            # NOTE: the context must be released last; another thread might enter one right away
+            self.on_exit_functions.clear()
+            self.circuit.lock()
+            CircuitContext._active_context = None
 
     @mixedproperty
     def active_context(cls) -> Optional[CircuitContext]:
-- 
2.43.0


From 4dcb7346ebd14e00050a719fabea3820c0365041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:37 +0000
Subject: [PATCH 22/52] fix: several threads could enter contexts at once, and
 failing to enter one kept it active

---
 dwave/gate/circuit.py | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index fb6efe3..b351501 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -31,6 +31,7 @@ __all__ = [
 
 import copy
 import itertools
+import threading
 import warnings
 from collections.abc import Hashable, Mapping, Sequence
 from functools import cached_property
@@ -825,6 +826,8 @@ class CircuitContext:
     """Current active context; can only be one at a time during runtime."""
     on_exit_functions: list[Callable] = []
     """List of functions that should be called on context exit. Cleared on context exit."""
+    _enter_lock = threading.Lock()
+    """Lock for setting the active context."""
 
     def __init__(self, circuit: Circuit) -> None:
         self._circuit = circuit
@@ -894,18 +897,25 @@ class CircuitContext:
         self,
     ) -> Registers:
         """Enters the context and sets itself as active."""
-        if self.circuit.is_locked() is True:
-            raise CircuitError(
-                "Circuit is locked and no more operations can be appended. To "
-                "unlock the circuit, call 'Circuit.unlock()' first."
-            )
-
-        if self.active_context is None:
-            CircuitContext._active_context = self
-        else:
-            raise RuntimeError("Cannot enter context, another circuit context is already active.")
+        # NOTE: must be done before setting the context as active, since it might fail
+        registers = Registers(self.circuit.qubits, self.circuit.bits)
+
+        # several threads might be entering contexts, but only one can be active
+        with CircuitContext._enter_lock:
+            if self.circuit.is_locked() is True:
+                raise CircuitError(
+                    "Circuit is locked and no more operations can be appended. To "
+                    "unlock the circuit, call 'Circuit.unlock()' first."
+                )
+
+            if self.active_context is None:
+                CircuitContext._active_context = self
+            else:
+                raise RuntimeError(
+                    "Cannot enter context, another circuit context is already active."
+                )
 
-        return Registers(self.circuit.qubits, self.circuit.bits)
+        return registers
 
     def __exit__(
         self,
-- 
2.43.0


From 6a880b6ed8dc602b8bb414873665ca3adf24361b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:10 +0000
Subject: [PATCH 23/52] fix: simulating mixed states ignored little-endian

---
 dwave/gate/simulator/simulator.pyx | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dwave/gate/simulator/simulator.pyx b/dwave/gate/simulator/simulator.pyx
index ce253e1..a4e8bec 100644
--- a/dwave/gate/simulator/simulator.pyx
+++ b/dwave/gate/simulator/simulator.pyx
@@ -161,7 +161,7 @@ def simulate(
     rng = np.random.default_rng(rng_seed)
 
     if mixed_state:
-        state = _simulate_circuit_density_matrix(circuit, rng)
+        state = _simulate_circuit_density_matrix(circuit, rng, little_endian)
     else:
         state = np.zeros(1 << num_qubits, dtype=np.complex128)
         state[0] = 1
@@ -238,11 +238,14 @@ def _simulate_circuit_density_matrix(
         else:
             # first apply the gate normally
             targets = [circuit.qubits.index(qb) for qb in op.qubits]
+            virtual_targets = [t + num_qubits for t in targets]
+            if little_endian:
+                # the rows of the density matrix are given by the highest qubit indices
+                targets, virtual_targets = virtual_targets, targets
             apply_instruction(
                 num_virtual_qubits, state, op, targets, little_endian, rng
             )
             # then apply conjugate transpose to corresponding virtual qubit
-            virtual_targets = [t + num_qubits for t in targets]
             apply_instruction(
                 num_virtual_qubits, state, op, virtual_targets, little_endian, rng,
                 conjugate_gate=True,
-- 
2.43.0


From a56b184b878bd2cb0e45970fe34388f408aa0e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:16 +0000
Subject: [PATCH 24/52] fix: registers with falsy labels were ignored when
 getting qubits and bits

---
 dwave/gate/circuit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index b351501..36b13f5 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -513,7 +513,7 @@ class Circuit:
             Qubit: Qubit with the specified label. If there are several with the same name,
             only the first occuring qubit will be returned unless ``return_all`` is ``True``.
         """
-        if qreg_label:
+        if qreg_label is not None:
             qregisters = self.qregisters[qreg_label]
         else:
             qregisters = itertools.chain.from_iterable(self.qregisters.values())
@@ -569,7 +569,7 @@ class Circuit:
             Bit: Bit with the specified label. If there are several with the same name,
             only the first occuring bit will be returned unless ``return_all`` is ``True``.
         """
-        if creg_label:
+        if creg_label is not None:
             cregisters = self.cregisters[creg_label]
         else:
             cregisters = itertools.chain.from_iterable(self.cregisters.values())
-- 
2.43.0


From 8a6ba7f609058e930f2aa6b5ba2ec6ba61d62aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:23 +0000
Subject: [PATCH 25/52] fix: circuits with identity operations could not be
 compiled to QIR

---
 dwave/gate/qir/compiler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dwave/gate/qir/compiler.py b/dwave/gate/qir/compiler.py
index 23e63c3..3351ee3 100644
--- a/dwave/gate/qir/compiler.py
+++ b/dwave/gate/qir/compiler.py
@@ -358,6 +358,9 @@ def qir_module(circuit: Circuit, add_external: bool = False) -> BaseModule:
     block = "body"
     for op in circuit.circuit:
         type_, pyqir_op = Operations.to_qir.get(op.__class__.name, (None, None))
+        if type_ is InstrType.SKIP:
+            continue
+
         if add_external and type_ is InstrType.EXTERNAL:
             qubit_type = module.Types.QUBIT
             param_type = module.Types.DOUBLE
-- 
2.43.0


From bfb50768c587ddfd0dee86b95015a411545f01ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:48 +0000
Subject: [PATCH 26/52] fix: registers replaced bits with the value of their
 index by numbers

---
 dwave/gate/registers/cyregister.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dwave/gate/registers/cyregister.pyx b/dwave/gate/registers/cyregister.pyx
index c737823..61fa959 100644
--- a/dwave/gate/registers/cyregister.pyx
+++ b/dwave/gate/registers/cyregister.pyx
@@ -119,7 +119,8 @@ cdef class cyRegister:
 
         idx = self._stop
 
-        if idx != v:
+        # only numbers are equal to indices; other items might be, e.g., bits with a value
+        if not isinstance(v, Number) or idx != v:
             self._label_to_index[v] = idx
             self._index_to_label[idx] = v
 
-- 
2.43.0


From 0edc7d9b5929a8a7a192c6d06382f8f7c5811121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:55 +0000
Subject: [PATCH 27/52] fix: nothing could be added to copied or concatenated
 registers

---
 dwave/gate/registers/registers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dwave/gate/registers/registers.py b/dwave/gate/registers/registers.py
index 431a100..d0c9042 100644
--- a/dwave/gate/registers/registers.py
+++ b/dwave/gate/registers/registers.py
@@ -45,6 +45,9 @@ class Register(cyRegister, AbstractSet[Data], Sequence[Data]):
         data: Sequence of hashable data items (defaults to empty).
     """
 
+    # default for registers that are not initialized, i.e., copies
+    _frozen = False
+
     def __init__(self, data: Optional[Sequence[Data]] = None) -> None:
         self._frozen = False
         super().__init__(data or [])
-- 
2.43.0


From b9138dade7ef23312d6a1d174e4c3b81cf56b524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:01 +0000
Subject: [PATCH 28/52] fix: permissively indexing a frozen register added
 items

---
 dwave/gate/registers/registers.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dwave/gate/registers/registers.py b/dwave/gate/registers/registers.py
index d0c9042..19db71f 100644
--- a/dwave/gate/registers/registers.py
+++ b/dwave/gate/registers/registers.py
@@ -95,6 +95,13 @@ class Register(cyRegister, AbstractSet[Data], Sequence[Data]):
         copy._extend(qreg)
         return copy
 
+    def index(self, v: Data, permissive: bool = False) -> int:
+        """Return the index of an item, permissively adding it if not in the register."""
+        if permissive and self.frozen and v not in self:
+            raise RegisterError("Register is frozen and no more data can be added.")
+
+        return super().index(v, permissive)
+
     def add(self, data: Union[Hashable, Sequence[Hashable], Register]) -> None:
         """Add one or more data items to the register.
 
-- 
2.43.0


From b02eda9b93172838fa75f06a2f50e8293cdda5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:27 +0000
Subject: [PATCH 29/52] fix: slices with negative or out-of-range indices of
 registers were wrong or failed

---
 dwave/gate/registers/cyregister.pyx | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/dwave/gate/registers/cyregister.pyx b/dwave/gate/registers/cyregister.pyx
index 61fa959..82ea11d 100644
--- a/dwave/gate/registers/cyregister.pyx
+++ b/dwave/gate/registers/cyregister.pyx
@@ -63,9 +63,8 @@ cdef class cyRegister:
         if not isinstance(idx, slice):
             raise TypeError(f"indices must be integers or slices, not {type(idx)}")
 
-        cdef Py_ssize_t start = 0 if idx.start is None else idx.start
-        cdef Py_ssize_t stop = self.size() if idx.stop is None else idx.stop
-        cdef Py_ssize_t step = 1 if idx.step is None else idx.step
+        cdef Py_ssize_t start, stop, step
+        start, stop, step = idx.indices(self.size())
 
         cdef Py_ssize_t i
         cdef cyRegister new = type(self)()
-- 
2.43.0


From 68ad4213de586197588be8b1044019135b232510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:33 +0000
Subject: [PATCH 30/52] fix: comparing parametric with other operations failed,
 e.g., when removing operations

---
 dwave/gate/operations/base.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dwave/gate/operations/base.py b/dwave/gate/operations/base.py
index 37c2e91..65ac830 100644
--- a/dwave/gate/operations/base.py
+++ b/dwave/gate/operations/base.py
@@ -371,8 +371,7 @@ class ParametricOperation(Operation):
 
     def __eq__(self, op: ParametricOperation) -> bool:
         """Returns whether two operations are considered equal."""
-        param_eq = op.parameters == self.parameters
-        return param_eq and super().__eq__(op)
+        return super().__eq__(op) and op.parameters == self.parameters
 
     @property
     def parameters(self):
-- 
2.43.0


From 2b05beb719920bdbab30d1b384a29552fde85fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:39 +0000
Subject: [PATCH 31/52] fix: operations created from parametric circuits used
 the wrong parameters

---
 dwave/gate/operations/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dwave/gate/operations/base.py b/dwave/gate/operations/base.py
index 65ac830..f66c488 100644
--- a/dwave/gate/operations/base.py
+++ b/dwave/gate/operations/base.py
@@ -133,14 +133,14 @@ def create_operation(circuit, name: Optional[str] = None) -> Type[CustomOperatio
             """
             circuit_copy = copy.deepcopy(circuit)
             if circuit.parametric:
-                parameters = self.parameters.copy()
+                # variables are replaced by the parameter at their index in the circuit
+                variables = circuit_copy._parameter_register
 
                 for i, op in enumerate(circuit_copy.circuit):
                     if isinstance(op, ParametricOperation):
                         for j, param in enumerate(op.parameters):
                             if isinstance(param, Variable):
-                                circuit_copy.circuit[i].parameters[j] = parameters.pop(0)  # type: ignore
-                            self._matrix
+                                circuit_copy.circuit[i].parameters[j] = self.parameters[variables.index(param)]  # type: ignore
 
             return build_unitary(circuit_copy)
 
-- 
2.43.0


From 2214e2abd23ee67a12f3accb9c58cbd1c100fd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:01 +0000
Subject: [PATCH 32/52] fix: matrices not stored in row-major order were
 applied transposed by the simulator

---
 dwave/gate/simulator/simulator.pyx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dwave/gate/simulator/simulator.pyx b/dwave/gate/simulator/simulator.pyx
index a4e8bec..faf595f 100644
--- a/dwave/gate/simulator/simulator.pyx
+++ b/dwave/gate/simulator/simulator.pyx
@@ -95,6 +95,8 @@ def apply_instruction(
             gate = op._get_target_matrix()
         else:
             gate = op.target_operation.matrix
+        # matrices, e.g., when transposed, are not necessarily stored in row-major order
+        gate = np.ascontiguousarray(gate)
         assert gate.shape == (2, 2), (op, gate)
         if conjugate_gate:
             gate = np.ascontiguousarray(gate.conjugate())
@@ -122,7 +124,8 @@ def apply_instruction(
             raise ValueError(
                 f"simulator encountered unknown multi-qubit operation: {op.label}"
             )
-        gate = op.matrix
+        # matrices, e.g., when transposed, are not necessarily stored in row-major order
+        gate = np.ascontiguousarray(op.matrix)
         if conjugate_gate:
             gate = np.ascontiguousarray(gate.conjugate())
 
-- 
2.43.0


From 1ab69f1e9ca4ff9c3cd44c16f3ebc9eb150eb66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:01 +0000
Subject: [PATCH 33/52] fix: parametric external operations could not be
 compiled to QIR

---
 dwave/gate/qir/compiler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dwave/gate/qir/compiler.py b/dwave/gate/qir/compiler.py
index 3351ee3..3b74cbd 100644
--- a/dwave/gate/qir/compiler.py
+++ b/dwave/gate/qir/compiler.py
@@ -366,7 +366,8 @@ def qir_module(circuit: Circuit, add_external: bool = False) -> BaseModule:
             param_type = module.Types.DOUBLE
 
             num_parameters = getattr(op, "num_parameters", 0)
-            parameter_types = [qubit_type] * op.num_qubits + [param_type] * num_parameters
+            # same order as the arguments below
+            parameter_types = [param_type] * num_parameters + [qubit_type] * op.num_qubits
 
             module.add_external_function(pyqir_op, parameter_types=parameter_types)
 
-- 
2.43.0


From 5fcb0a03b0a83a21f73ed52166b4c1073cc8358f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:08 +0000
Subject: [PATCH 34/52] fix: external operations used several times were
 declared under different names in QIR

---
 dwave/gate/qir/compiler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dwave/gate/qir/compiler.py b/dwave/gate/qir/compiler.py
index 3b74cbd..4e22947 100644
--- a/dwave/gate/qir/compiler.py
+++ b/dwave/gate/qir/compiler.py
@@ -369,7 +369,9 @@ def qir_module(circuit: Circuit, add_external: bool = False) -> BaseModule:
             # same order as the arguments below
             parameter_types = [param_type] * num_parameters + [qubit_type] * op.num_qubits
 
-            module.add_external_function(pyqir_op, parameter_types=parameter_types)
+            # must only be added once, also if the operation is used several times
+            if pyqir_op not in module._external_functions:
+                module.add_external_function(pyqir_op, parameter_types=parameter_types)
 
         args = []
         if type_ is InstrType.MEASUREMENT:
-- 
2.43.0


From 61075f0750d96cca7068f4b6bdde665f5f11e44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:16 +0000
Subject: [PATCH 35/52] fix: operations with several parameters could not be
 loaded from QIR

---
 dwave/gate/qir/loader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dwave/gate/qir/loader.py b/dwave/gate/qir/loader.py
index 3e84ab0..77cea29 100644
--- a/dwave/gate/qir/loader.py
+++ b/dwave/gate/qir/loader.py
@@ -124,7 +124,8 @@ def _module_to_circuit(module: Module, circuit: Optional[Circuit] = None) -> Cir
 
                     circuit.unlock()
                     with circuit.context as reg:
-                        getattr(ops, op_name)(*params, qubits=[reg.q[qubit] for qubit in qubits])
+                        args = [params] if params else []
+                        getattr(ops, op_name)(*args, qubits=[reg.q[qubit] for qubit in qubits])
 
     # finally, add measurements (if any) to circuit
     if meas_qubits:
-- 
2.43.0


From 542605a3ee6c1bbd7eea948189a27aef92bfbb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:21 +0000
Subject: [PATCH 36/52] fix: measurements of otherwise unused qubits could not
 be loaded from QIR

---
 dwave/gate/qir/loader.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dwave/gate/qir/loader.py b/dwave/gate/qir/loader.py
index 77cea29..4bbf353 100644
--- a/dwave/gate/qir/loader.py
+++ b/dwave/gate/qir/loader.py
@@ -142,6 +142,10 @@ def _add_measurements(circuit: Circuit, qubits: Sequence[int], bits: Sequence[in
         qubits: The qubits that are being measured.
         bits: The bits in which the measurement values are stored.
     """
+    # qubits might be measured without any operations being applied to them
+    for _ in range(circuit.num_qubits, max(qubits or [0]) + 1):
+        circuit.add_qubit()
+
     for _ in range(circuit.num_bits, max(bits or [0]) + 1):
         circuit.add_bit()
 
-- 
2.43.0


From f08b1e90b74c837201bd2f6588e8d4d26456cd68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:50 +0000
Subject: [PATCH 37/52] fix: matrices of controlled operations failed while
 another circuit is being built

---
 dwave/gate/operations/base.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/dwave/gate/operations/base.py b/dwave/gate/operations/base.py
index f66c488..323b95a 100644
--- a/dwave/gate/operations/base.py
+++ b/dwave/gate/operations/base.py
@@ -550,16 +550,17 @@ class ControlledOperation(Operation):
         num_qubits = getattr(cls, "num_qubits", 2)
         num_control = getattr(cls, "num_control", 1)
 
-        if CircuitContext.active_context and self.control and self.target:
-            control_idx = [
-                CircuitContext.active_context.circuit.qubits.index(c) for c in self.control
-            ]
-            target_idx = [
-                CircuitContext.active_context.circuit.qubits.index(t) for t in self.target
-            ]
-        else:
-            control_idx = list(range(num_control))
-            target_idx = list(range(num_control, num_qubits))
+        control_idx = list(range(num_control))
+        target_idx = list(range(num_control, num_qubits))
+
+        # NOTE: there is no 'self' if accessed on the class, and the operation might be part of
+        # another circuit than the one in the active context
+        context = CircuitContext.active_context
+        if context is not None and self is not None and self.control and self.target:
+            qubits = context.circuit.qubits
+            if all(qb in qubits for qb in chain(self.control, self.target)):
+                control_idx = [qubits.index(c) for c in self.control]
+                target_idx = [qubits.index(t) for t in self.target]
 
         matrix = build_controlled_unitary(
             control_idx, target_idx, target_unitary, num_qubits=num_qubits
-- 
2.43.0


From a82535d90f6eef9c1c26daaef5b3c72bf9ca3b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:56 +0000
Subject: [PATCH 38/52] fix: refuse applying a parametric circuit with too many
 parameters

---
 dwave/gate/circuit.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 36b13f5..edafcb8 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -733,7 +733,7 @@ class ParametricCircuit(Circuit):
             bits: Bits in which to store measurement values if measurements have been made.
 
         Raises:
-            ValueError: If an invalid number of qubits are passed.
+            ValueError: If an invalid number of qubits or parameters are passed.
             CircuitError: If called outside of an active context.
         """
         if CircuitContext.active_context:
@@ -741,6 +741,12 @@ class ParametricCircuit(Circuit):
             # setting any variable, since that might fail if there are too few parameters
             CircuitContext.on_exit_functions.append(self.reset_variables)
 
+            # NOTE: too few parameters fail below, unless they are in a self-incrementing register
+            if len(parameters) > self.num_parameters:
+                raise ValueError(
+                    f"Circuit requires {self.num_parameters} parameters, got {len(parameters)}."
+                )
+
             for i, var in enumerate(self._parameter_register):
                 var.set(parameters[i])
 
-- 
2.43.0


From 8f1bbef8db4a6410b264334882d0f5c4bbc8025f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:20 +0000
Subject: [PATCH 39/52] fix: the bitcode of a QIR module was not that of its
 text after an interrupted recompilation

---
 dwave/gate/qir/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dwave/gate/qir/compiler.py b/dwave/gate/qir/compiler.py
index 4e22947..912bc01 100644
--- a/dwave/gate/qir/compiler.py
+++ b/dwave/gate/qir/compiler.py
@@ -254,7 +254,7 @@ class BaseModule:
         if not self._is_compiled:
             self.compile()
 
-        return self._module.bitcode
+        return self._bitcode
 
     def add_instruction(self, block: str, instruction: Instruction) -> None:
         """Add an instruction (operation) to the module.
-- 
2.43.0


From 302562d3f1c95c1b9077486c154d5ca261cc9618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:40 +0000
Subject: [PATCH 40/52] fix: extending a circuit with its own operations never
 ended

---
 dwave/gate/circuit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index edafcb8..ce5baca 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -218,7 +218,8 @@ class Circuit:
         Args:
             operations: Operations to append to the circuit.
         """
-        for op in operations:
+        # copy the sequence, since it might be the list of operations of this circuit
+        for op in list(operations):
             self.append(op)
 
     def remove(self, op: Operation) -> None:
-- 
2.43.0


From bbacd36f1bdc4b65f3b1af1890f415f04ee91754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:57 +0000
Subject: [PATCH 41/52] fix: sample_qubit accesses memory outside of the state

for qubits that the state does not have, and for states whose size is not
a power of 2; these are refused now.
---
 dwave/gate/simulator/simulator.pyx | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/dwave/gate/simulator/simulator.pyx b/dwave/gate/simulator/simulator.pyx
index faf595f..4770f73 100644
--- a/dwave/gate/simulator/simulator.pyx
+++ b/dwave/gate/simulator/simulator.pyx
@@ -195,8 +195,18 @@ def sample_qubit(
 
     Returns:
         int: The measurement sample (0 or 1).
+
+    Raises:
+        ValueError: If the state is not a state of qubits, or has no qubit with the given index.
     """
-    cdef int num_qubits = round(np.log2(state.shape[0]))
+    cdef int num_qubits = max(len(state).bit_length() - 1, 0)
+
+    # NOTE: must be checked, since the kernels would access memory outside of the state
+    if len(state) != 1 << num_qubits:
+        raise ValueError(f"State has incorrect size {len(state)}, should be a power of 2.")
+
+    if not 0 <= qubit < num_qubits:
+        raise ValueError(f"Cannot sample qubit {qubit}. State has only {num_qubits} qubits.")
 
     return measurement_computational_basis(
         num_qubits,
-- 
2.43.0


From f4cbd92d08cfe0c0ba9beb9fadfba1214bb6a3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:02 +0000
Subject: [PATCH 42/52] fix: OpenQASM gate definitions were repeated for every
 use of the gate

---
 dwave/gate/circuit.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index ce5baca..257c906 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -661,8 +661,11 @@ class Circuit:
                 label = f"q{label}" if len(self.qregisters) != 1 else "q"
             mapping[qb] = label, idx
 
+        declared = set()
         for op in self.circuit:
-            if gate_definitions and hasattr(op, "_qasm_decl"):
+            # NOTE: a gate must only be defined once, even if it's used several times
+            if gate_definitions and hasattr(op, "_qasm_decl") and op._qasm_decl not in declared:
+                declared.add(op._qasm_decl)
                 header_str += "\n" + getattr(op, "_qasm_decl") + "\n"
             qasm_str += op.to_qasm(mapping) + ";\n"
 
-- 
2.43.0


From bd5fe699381c2387548a6454a9f550eee57b64dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:59 +0000
Subject: [PATCH 43/52] fix: loading QIR into a circuit with several registers
 shifted the qubits of operations

---
 dwave/gate/qir/loader.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/dwave/gate/qir/loader.py b/dwave/gate/qir/loader.py
index 4bbf353..fb202f0 100644
--- a/dwave/gate/qir/loader.py
+++ b/dwave/gate/qir/loader.py
@@ -119,8 +119,7 @@ def _module_to_circuit(module: Module, circuit: Optional[Circuit] = None) -> Cir
                         # delay adding until all measurements are collected
                         continue
 
-                    for _ in range(circuit.num_qubits, max(qubits or [0]) + 1):
-                        circuit.add_qubit()
+                    _add_missing(circuit, num_qubits=max(qubits or [0]) + 1)
 
                     circuit.unlock()
                     with circuit.context as reg:
@@ -134,6 +133,22 @@ def _module_to_circuit(module: Module, circuit: Optional[Circuit] = None) -> Cir
     return circuit
 
 
+def _add_missing(circuit: Circuit, num_qubits: int = 0, num_bits: int = 0) -> None:
+    """Add qubits and bits to circuit until it has the given number of them.
+
+    Args:
+        circuit: The circuit to add qubits and bits to.
+        num_qubits: The number of qubits required.
+        num_bits: The number of bits required.
+    """
+    # NOTE: must be added to the last register to not change the indices of the present ones
+    for _ in range(circuit.num_qubits, num_qubits):
+        circuit.add_qubit(qreg_label=next(reversed(circuit.qregisters), None))
+
+    for _ in range(circuit.num_bits, num_bits):
+        circuit.add_bit(creg_label=next(reversed(circuit.cregisters), None))
+
+
 def _add_measurements(circuit: Circuit, qubits: Sequence[int], bits: Sequence[int]) -> None:
     """Add measurements to circuit.
 
@@ -143,11 +158,7 @@ def _add_measurements(circuit: Circuit, qubits: Sequence[int], bits: Sequence[in
         bits: The bits in which the measurement values are stored.
     """
     # qubits might be measured without any operations being applied to them
-    for _ in range(circuit.num_qubits, max(qubits or [0]) + 1):
-        circuit.add_qubit()
-
-    for _ in range(circuit.num_bits, max(bits or [0]) + 1):
-        circuit.add_bit()
+    _add_missing(circuit, num_qubits=max(qubits or [0]) + 1, num_bits=max(bits or [0]) + 1)
 
     circuit.unlock()
     with circuit.context as reg:
-- 
2.43.0


From 082082910817d729962d4567ad2610853675045b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:04 +0000
Subject: [PATCH 44/52] fix: matrices of controlled operations failed inside
 the context of a larger circuit

---
 dwave/gate/operations/base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dwave/gate/operations/base.py b/dwave/gate/operations/base.py
index 323b95a..0e316a4 100644
--- a/dwave/gate/operations/base.py
+++ b/dwave/gate/operations/base.py
@@ -559,8 +559,10 @@ class ControlledOperation(Operation):
         if context is not None and self is not None and self.control and self.target:
             qubits = context.circuit.qubits
             if all(qb in qubits for qb in chain(self.control, self.target)):
-                control_idx = [qubits.index(c) for c in self.control]
-                target_idx = [qubits.index(t) for t in self.target]
+                # NOTE: the matrix is that of the operation on its own qubits, in circuit order
+                order = sorted(map(qubits.index, chain(self.control, self.target)))
+                control_idx = [order.index(qubits.index(c)) for c in self.control]
+                target_idx = [order.index(qubits.index(t)) for t in self.target]
 
         matrix = build_controlled_unitary(
             control_idx, target_idx, target_unitary, num_qubits=num_qubits
-- 
2.43.0


From 00de7b2b54b0325e6b9b4ddce59bc3045659ea61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:13 +0000
Subject: [PATCH 45/52] fix: conditions changed with the list of bits passed to
 conditional

---
 dwave/gate/operations/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dwave/gate/operations/base.py b/dwave/gate/operations/base.py
index 0e316a4..8ab77ce 100644
--- a/dwave/gate/operations/base.py
+++ b/dwave/gate/operations/base.py
@@ -344,6 +344,9 @@ class Operation(metaclass=ABCLockedAttr):
         """Sets the ``_cond`` attribute, conditioning the operation on one or more bits."""
         if isinstance(bits, Bit):
             bits = (bits,)
+        elif not isinstance(bits, ClassicalRegister):
+            # the passed sequence might change
+            bits = tuple(bits)
 
         self._cond = bits
         return self
-- 
2.43.0


From 160447b6011e9d578977c7b75d0a8b3b6911051e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:27 +0000
Subject: [PATCH 46/52] fix: changing the qubits of a controlled operation kept
 its control and target qubits

---
 dwave/gate/operations/base.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/dwave/gate/operations/base.py b/dwave/gate/operations/base.py
index 8ab77ce..34f96b9 100644
--- a/dwave/gate/operations/base.py
+++ b/dwave/gate/operations/base.py
@@ -582,6 +582,22 @@ class ControlledOperation(Operation):
         """Target qubit(s)."""
         return self._target
 
+    @property
+    def qubits(self) -> Optional[tuple[Qubit, ...]]:
+        """Qubits that the operation is applied to."""
+        return self._qubits
+
+    @qubits.setter
+    def qubits(self, qubits: Sequence[Qubit]) -> None:
+        """Set the qubits that the operation should be applied to."""
+        Operation.qubits.fset(self, qubits)  # type: ignore
+        # the control and target qubits are part of the qubits
+        num_control = self._num_control or self.num_control
+        self._control = self._qubits[:num_control]
+        self._target = self._qubits[num_control:]
+        self._num_control = len(self._control)
+        self._num_target = len(self._target)
+
     @mixedproperty
     def num_control(cls) -> Optional[int]:
         """Number of control qubit(s)."""
-- 
2.43.0


From dc877127b7f151e0c7669dd1a906c506c1bdb81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:53 +0000
Subject: [PATCH 47/52] fix: a failing in-place evaluation left circuits and
 operations half-evaluated

---
 dwave/gate/circuit.py         | 4 ++++
 dwave/gate/operations/base.py | 9 ++++++---
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 257c906..c60279c 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -778,6 +778,10 @@ class ParametricCircuit(Circuit):
         Raises:
             ValueError: If no parameters are passed and if variable has no set value.
         """
+        if inplace:
+            # fails before anything is changed, if any of the operations cannot be evaluated
+            self.eval(parameters)
+
         circuit = self if inplace else copy.deepcopy(self)
 
         for i, op in enumerate(circuit.circuit):
diff --git a/dwave/gate/operations/base.py b/dwave/gate/operations/base.py
index 34f96b9..6501047 100644
--- a/dwave/gate/operations/base.py
+++ b/dwave/gate/operations/base.py
@@ -399,15 +399,18 @@ class ParametricOperation(Operation):
         """
         op = self if inplace else copy.deepcopy(self)
 
-        for i, p in enumerate(op.parameters):
+        # the parameters are replaced all at once, or not at all
+        evaluated = list(op.parameters)
+        for i, p in enumerate(evaluated):
             if isinstance(p, Variable):
                 if parameters:
-                    op.parameters[i] = parameters[i]
+                    evaluated[i] = parameters[i]
                 elif p.value is not None:
-                    op.parameters[i] = p.value
+                    evaluated[i] = p.value
                 else:
                     raise ValueError("No available parameter to evaluate with.")
 
+        op.parameters[:] = evaluated
         return op
 
     @mixedproperty
-- 
2.43.0


From 37a0b3192c3287437ce7e9a831e1240c47845633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:54 +0000
Subject: [PATCH 48/52] fix: draws next to 1 failed, or chose an impossible
 outcome, due to rounding

---
 dwave/gate/simulator/operation_generation.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/dwave/gate/simulator/operation_generation.py b/dwave/gate/simulator/operation_generation.py
index 5449852..062217a 100644
--- a/dwave/gate/simulator/operation_generation.py
+++ b/dwave/gate/simulator/operation_generation.py
@@ -628,6 +628,9 @@ def generate_op_set(
             if t > u:
                 op_idx = {op_idx}
                 p = op_prob
+            elif op_prob > max_prob:
+                max_idx = {op_idx}
+                max_prob = op_prob
 """
                 for op_idx in range(len(operators) - 1)
             ]
@@ -641,14 +644,18 @@ def generate_op_set(
                 {qubit_args}
             )
             t += op_prob
+            op_idx = {len(operators) - 1}
+            p = op_prob
             if t <= u:
                 warnings.warn(
                     "total probability of operators was less than uniformly random "
-                    "variable `u` (likely due to numerical errors), defaulting to final"
-                    " operator"
+                    "variable `u` (likely due to numerical errors), defaulting to most"
+                    " probable operator"
                 )
-            op_idx = {len(operators) - 1}
-            p = op_prob
+                # NOTE: the final operator might be impossible
+                if max_prob > op_prob:
+                    op_idx = max_idx
+                    p = max_prob
 """
             ]
         )
@@ -694,6 +701,10 @@ cdef inline {op_name}(
     # this will be set to the probability of the chosen operator
     p = 0.0
 
+    # the most probable one of the operators that were not chosen
+    max_idx = 0
+    max_prob = 0.0
+
     if little_endian:
 {nl.join(norm_function_calls(True))}
     else:
-- 
2.43.0


From e59b4e4605dd8c7bcdd143b953800117059bbc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:39 +0000
Subject: [PATCH 49/52] fix: the state of a circuit changed with the array
 passed to set_state

---
 dwave/gate/circuit.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index c60279c..6989ba8 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -287,6 +287,10 @@ class Circuit:
 
         self._assert_state(state)
 
+        if not normalize:
+            # the passed array might be changed by the caller
+            state = state.copy()
+
         if state.ndim == 1:
             self._state = state
             self._density_matrix = None
-- 
2.43.0


From 5c42d42aa67c194c3db5d85ebb917c1f53996944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:10 +0000
Subject: [PATCH 50/52] fix: a failed density matrix simulation changed the
 state that measurements are sampled from

---
 dwave/gate/simulator/simulator.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dwave/gate/simulator/simulator.pyx b/dwave/gate/simulator/simulator.pyx
index 4770f73..20151ea 100644
--- a/dwave/gate/simulator/simulator.pyx
+++ b/dwave/gate/simulator/simulator.pyx
@@ -247,7 +247,7 @@ def _simulate_circuit_density_matrix(
 
     for op in circuit.circuit:
         if isinstance(op, ops.Measurement):
-            _measure(op, state, circuit, rng)
+            raise CircuitError("Measurements not supported by density matrix simulations.")
         else:
             # first apply the gate normally
             targets = [circuit.qubits.index(qb) for qb in op.qubits]
-- 
2.43.0


From 4786bba808af4ba80f2f4acedbf5128c567e206d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:34 +0000
Subject: [PATCH 51/52] fix: a locked circuit could be opened while another
 thread left its context

---
 dwave/gate/circuit.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 6989ba8..04e9a69 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -920,13 +920,16 @@ class CircuitContext:
 
         # several threads might be entering contexts, but only one can be active
         with CircuitContext._enter_lock:
+            # NOTE: must come first; a context locks its circuit before it's released
+            active_context = self.active_context
+
             if self.circuit.is_locked() is True:
                 raise CircuitError(
                     "Circuit is locked and no more operations can be appended. To "
                     "unlock the circuit, call 'Circuit.unlock()' first."
                 )
 
-            if self.active_context is None:
+            if active_context is None:
                 CircuitContext._active_context = self
             else:
                 raise RuntimeError(
-- 
2.43.0


From 8f19ba137ae553b6270e731c0855f371674b52c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:15 +0000
Subject: [PATCH 52/52] fix: leaving a frozen context unfroze others that were
 still open

---
 dwave/gate/circuit.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 04e9a69..aa4893c 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -849,7 +849,7 @@ class CircuitContext:
 
     def __init__(self, circuit: Circuit) -> None:
         self._circuit = circuit
-        self._frozen = False
+        self._freezes: list[ContextManager] = []
 
     @property
     def circuit(self) -> Circuit:
@@ -859,7 +859,7 @@ class CircuitContext:
     @property
     def frozen(self) -> bool:
         "Whether the context is frozen and no operations can be appended."
-        return self._frozen
+        return len(self._freezes) > 0
 
     @mixedproperty
     def freeze(cls) -> ContextManager:
@@ -896,18 +896,18 @@ class CircuitContext:
 
         class FrozenContext:
             def __init__(self) -> None:
-                self._previous: list[tuple[CircuitContext, bool]] = []
+                self._contexts: list[CircuitContext] = []
 
             def __enter__(self) -> None:
                 context = cls.active_context
                 if context is None:
                     raise CircuitError("Can only freeze active context. No active context found.")
-                self._previous.append((context, context._frozen))
-                context._frozen = True
+                self._contexts.append(context)
+                context._freezes.append(self)
 
             def __exit__(self, _, __, ___) -> None:
-                # might be inside another frozen context, so don't necessarily unfreeze
-                context, context._frozen = self._previous.pop()
+                # other frozen contexts might still be open, so don't necessarily unfreeze
+                self._contexts.pop()._freezes.remove(self)
 
         return FrozenContext()
 
-- 
2.43.0

