From 509e62990e04b10248d29e99133ae3c1c6daca61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:42 +0000
Subject: [PATCH 001/129] fix: allow butterflies with twiddle factors to be
 copied

Graph components are copied by constructing the class without arguments, so
R2DIFButterfly, R2DITButterfly and R2TFButterfly could not be part of any SFG.
---
 lib/b_asic/fft_operations.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/b_asic/fft_operations.py b/lib/b_asic/fft_operations.py
index f0851ae..e68e2b0 100644
--- a/lib/b_asic/fft_operations.py
+++ b/lib/b_asic/fft_operations.py
@@ -147,7 +147,7 @@ class R2DIFButterfly(AbstractOperation):
 
     def __init__(
         self,
-        w: complex,
+        w: complex = 1,
         src0: SignalSourceProvider | None = None,
         src1: SignalSourceProvider | None = None,
         name: Name = Name(""),
@@ -244,7 +244,7 @@ class R2DITButterfly(AbstractOperation):
 
     def __init__(
         self,
-        w: complex,
+        w: complex = 1,
         src0: SignalSourceProvider | None = None,
         src1: SignalSourceProvider | None = None,
         name: Name = Name(""),
@@ -346,8 +346,8 @@ class R2TFButterfly(AbstractOperation):
 
     def __init__(
         self,
-        w0: complex,
-        w1: complex,
+        w0: complex = 1,
+        w1: complex = 1,
         src0: SignalSourceProvider | None = None,
         src1: SignalSourceProvider | None = None,
         name: Name = Name(""),
-- 
2.43.0


From 7366daa40ade4ec86800a7ecf0ceebbe70d8bf85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:07 +0000
Subject: [PATCH 002/129] fix: queue delays found while compiling other delays

add_deferred_delays appended to the vector it iterated over (undefined
behaviour) and then dropped the appended delays, so a delay reachable only
through another delay was never updated.
---
 src/simulation/compile.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simulation/compile.cpp b/src/simulation/compile.cpp
index 50dfb55..9885b42 100644
--- a/src/simulation/compile.cpp
+++ b/src/simulation/compile.cpp
@@ -91,10 +91,10 @@ private:
 		while (!deferred_delays.empty()) {
 			auto new_deferred_delays = delay_queue{};
 			for (auto const& [delay_index, op, prefix, sfg_stack] : deferred_delays) {
-				this->add_source(op, 0, prefix, sfg_stack, deferred_delays);
+				this->add_source(op, 0, prefix, sfg_stack, new_deferred_delays);
 				this->add_instruction(instruction_type::update_delay, no_result_index, -1).index = delay_index;
 			}
-			deferred_delays = new_deferred_delays;
+			deferred_delays = std::move(new_deferred_delays);
 		}
 	}
 
-- 
2.43.0


From 70150c7c1965d9c7003d9d6cb74861272590ae20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:07 +0000
Subject: [PATCH 003/129] fix: restore the initial delay values in native
 clear_state

The delay vector was emptied, so the next iteration accessed it out of bounds.
---
 src/simulation/simulation.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/simulation/simulation.cpp b/src/simulation/simulation.cpp
index 34ac320..0d04e8f 100644
--- a/src/simulation/simulation.cpp
+++ b/src/simulation/simulation.cpp
@@ -124,7 +124,9 @@ void simulation::clear_results() noexcept {
 }
 
 void simulation::clear_state() noexcept {
-	m_delays.clear();
+	for (auto&& [delay, info] : zip(m_delays, m_code.delays)) {
+		delay = info.initial_value;
+	}
 }
 
 } // namespace asic
-- 
2.43.0


From d5c0fb11bea67b2029438403fc313785d687bf1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:07 +0000
Subject: [PATCH 004/129] fix: pass the inputs of custom operations in order in
 the native simulation

The inputs were passed in reverse order, together with a keyword argument
that evaluate_output does not take, so every custom operation raised.
---
 src/simulation/run.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/simulation/run.cpp b/src/simulation/run.cpp
index 1998b82..2e24049 100644
--- a/src/simulation/run.cpp
+++ b/src/simulation/run.cpp
@@ -155,15 +155,14 @@ simulation_state run_simulation(simulation_code const& code, span<number const>
 				delays[instruction.index] = pop();
 				break;
 			case instruction_type::custom: {
-				using namespace pybind11::literals;
 				auto const& src = code.custom_sources[instruction.index];
 				auto const& op = code.custom_operations[src.custom_operation_index];
-				auto input_values = std::vector<number>{};
-				input_values.reserve(op.input_count);
-				for (auto i = std::size_t{0}; i < op.input_count; ++i) {
-					input_values.push_back(pop());
+				auto input_values = std::vector<number>(op.input_count);
+				// The last input is on top of the stack.
+				for (auto it = input_values.rbegin(); it != input_values.rend(); ++it) {
+					*it = pop();
 				}
-				push(op.evaluate_output(src.output_index, std::move(input_values), "quantize"_a = quantize).cast<number>());
+				push(op.evaluate_output(src.output_index, std::move(input_values)).cast<number>());
 				break;
 			}
 			case instruction_type::forward_value:
-- 
2.43.0


From 9e3c9e581b5e8d99c51a874d98a8c1c5193f8040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:31 +0000
Subject: [PATCH 005/129] fix: avoid undefined behaviour when quantizing in the
 native simulation

Masks of 63 and 64 bits and values outside of the 64-bit range were
computed with overflowing shifts and conversions.
---
 src/simulation/compile.cpp     |  3 +--
 src/simulation/instruction.hpp |  5 +++++
 src/simulation/run.cpp         | 15 +++++++++++++--
 3 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/simulation/compile.cpp b/src/simulation/compile.cpp
index 9885b42..2be2e0c 100644
--- a/src/simulation/compile.cpp
+++ b/src/simulation/compile.cpp
@@ -205,8 +205,7 @@ private:
 			if (bits > 64) {
 				throw py::value_error{"Cannot quantize to more than 64 bits"};
 			}
-			this->add_instruction(instruction_type::quantize, no_result_index, 0).bit_mask = static_cast<std::int64_t>(
-				(std::int64_t{1} << bits) - 1);
+			this->add_instruction(instruction_type::quantize, no_result_index, 0).bit_mask = make_bit_mask(bits);
 		}
 	}
 
diff --git a/src/simulation/instruction.hpp b/src/simulation/instruction.hpp
index 9b03d9e..cf52e8d 100644
--- a/src/simulation/instruction.hpp
+++ b/src/simulation/instruction.hpp
@@ -32,6 +32,11 @@ enum class instruction_type : std::uint8_t {
 
 using result_index_type = std::uint16_t;
 
+// Mask that keeps the given number of least significant bits, at most 64.
+[[nodiscard]] constexpr std::int64_t make_bit_mask(std::size_t bits) noexcept {
+	return static_cast<std::int64_t>((bits >= 64) ? ~std::uint64_t{0} : (std::uint64_t{1} << bits) - 1);
+}
+
 struct instruction final {
 	constexpr instruction() noexcept // NOLINT(cppcoreguidelines-pro-type-member-init)
 		: index(0) {}
diff --git a/src/simulation/run.cpp b/src/simulation/run.cpp
index 2e24049..c9fa39e 100644
--- a/src/simulation/run.cpp
+++ b/src/simulation/run.cpp
@@ -6,6 +6,7 @@
 
 #define NOMINMAX
 #include <algorithm>
+#include <cmath>
 #include <complex>
 #include <cstddef>
 #include <fmt/format.h>
@@ -22,7 +23,17 @@ namespace asic {
 	if (value.imag() != 0) {
 		throw py::type_error{"Complex value cannot be quantized"};
 	}
-	return number{static_cast<number::value_type>(static_cast<std::int64_t>(value.real()) & bit_mask)};
+	if (!std::isfinite(value.real())) {
+		throw py::value_error{"Non-finite value cannot be quantized"};
+	}
+	// Wrap to 64 bits first, since converting an out-of-range value is undefined.
+	auto wrapped = std::fmod(std::trunc(value.real()), 0x1p64);
+	if (wrapped < -0x1p63) {
+		wrapped += 0x1p64;
+	} else if (wrapped >= 0x1p63) {
+		wrapped -= 0x1p64;
+	}
+	return number{static_cast<number::value_type>(static_cast<std::int64_t>(wrapped) & bit_mask)};
 }
 
 [[nodiscard]] static std::int64_t setup_truncation_parameters(bool& quantize, std::optional<std::uint8_t>& bits_override) {
@@ -31,7 +42,7 @@ namespace asic {
 		if (*bits_override > 64) {
 			throw py::value_error{"Cannot quantize to more than 64 bits"};
 		}
-		return static_cast<std::int64_t>((std::int64_t{1} << *bits_override) - 1); // Return the bit mask override to use.
+		return make_bit_mask(*bits_override); // Return the bit mask override to use.
 	}
 	bits_override.reset(); // Don't use bits_override if quantize is false.
 	return std::int64_t{};
-- 
2.43.0


From 7d42b1780f9b29fadab97a03d5031bbf21b44c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:31 +0000
Subject: [PATCH 006/129] fix: honour mul_j and shift_output in the native
 simulation

---
 src/simulation/compile.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/simulation/compile.cpp b/src/simulation/compile.cpp
index 2be2e0c..b796b91 100644
--- a/src/simulation/compile.cpp
+++ b/src/simulation/compile.cpp
@@ -35,6 +35,11 @@ namespace asic {
 	return fmt::format("{}.{}", base, output_index);
 }
 
+// Additions and subtractions can multiply the result by j and shift it.
+[[nodiscard]] static bool modifies_result(py::handle op) {
+	return op.attr("mul_j").cast<bool>() || op.attr("shift_output").cast<int>() != 0;
+}
+
 class compiler final {
 public:
 	simulation_code compile(py::handle sfg) {
@@ -230,9 +235,9 @@ private:
 		} else if (auto const result_index = this->begin_operation_output(op, output_index, prefix)) {
 			if (type_name == "c") {
 				this->add_instruction(instruction_type::push_constant, *result_index, 1).value = op.attr("value").cast<number>();
-			} else if (type_name == "add") {
+			} else if (type_name == "add" && !modifies_result(op)) {
 				this->add_binary_operation_output(op, *result_index, prefix, sfg_stack, deferred_delays, instruction_type::addition);
-			} else if (type_name == "sub") {
+			} else if (type_name == "sub" && !modifies_result(op)) {
 				this->add_binary_operation_output(op, *result_index, prefix, sfg_stack, deferred_delays, instruction_type::subtraction);
 			} else if (type_name == "mul") {
 				this->add_binary_operation_output(op, *result_index, prefix, sfg_stack, deferred_delays, instruction_type::multiplication);
-- 
2.43.0


From 1ff50e50903b3c98e64755a11d8130426ee1a7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:31 +0000
Subject: [PATCH 007/129] fix: keep the native delay state when an iteration
 raises

---
 src/simulation/simulation.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/simulation/simulation.cpp b/src/simulation/simulation.cpp
index 0d04e8f..b7c87fa 100644
--- a/src/simulation/simulation.cpp
+++ b/src/simulation/simulation.cpp
@@ -75,7 +75,10 @@ std::vector<number> simulation::run_until(iteration_type iteration, bool save_re
 		for (auto&& [input, function] : zip(inputs, m_input_functions)) {
 			input = function(m_iteration);
 		}
-		auto state = run_simulation(m_code, inputs, m_delays, bits_override, quantize);
+		// Work on a copy, so that an exception does not leave some of the delays updated.
+		auto delays = m_delays;
+		auto state = run_simulation(m_code, inputs, delays, bits_override, quantize);
+		m_delays = std::move(delays);
 		result = std::move(state.stack);
 		if (save_results) {
 			m_results.push_back(std::move(state.results));
-- 
2.43.0


From 0468f256eddf4765f74f01409e3efea020cebd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:00 +0000
Subject: [PATCH 008/129] fix: do not use a stale reference to a custom
 operation in the native simulation

The reference into custom_operations was used after the vector could have
been reallocated by compiling the sources of the operation.
---
 src/simulation/compile.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/simulation/compile.cpp b/src/simulation/compile.cpp
index b796b91..2f4817c 100644
--- a/src/simulation/compile.cpp
+++ b/src/simulation/compile.cpp
@@ -289,15 +289,16 @@ private:
 				this->add_instruction(instruction_type::forward_value, *result_index, 0);
 			} else {
 				auto const custom_operation_index = this->try_add_custom_operation(op);
-				auto const& custom_operation = m_code.custom_operations[custom_operation_index];
-				for (auto const i : range(custom_operation.input_count)) {
+				// Adding the sources can add more custom operations, which invalidates references to them.
+				auto const input_count = m_code.custom_operations[custom_operation_index].input_count;
+				for (auto const i : range(input_count)) {
 					this->add_source(op, i, prefix, sfg_stack, deferred_delays);
 				}
 				auto const custom_source_index = m_code.custom_sources.size();
 				auto& custom_source = m_code.custom_sources.emplace_back();
 				custom_source.custom_operation_index = custom_operation_index;
 				custom_source.output_index = output_index;
-				auto const stack_diff = std::ptrdiff_t{1} - static_cast<std::ptrdiff_t>(custom_operation.input_count);
+				auto const stack_diff = std::ptrdiff_t{1} - static_cast<std::ptrdiff_t>(input_count);
 				this->add_instruction(instruction_type::custom, *result_index, stack_diff).index = custom_source_index;
 			}
 			this->end_operation_output(op, output_index);
-- 
2.43.0


From 4e6508580323ebb838c3164152ed8908caf48e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:02 +0000
Subject: [PATCH 009/129] fix: let Negation follow the overflow mode and
 support complex data types

---
 lib/b_asic/core_operations.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/lib/b_asic/core_operations.py b/lib/b_asic/core_operations.py
index 8efd04e..0ba0c97 100644
--- a/lib/b_asic/core_operations.py
+++ b/lib/b_asic/core_operations.py
@@ -11,7 +11,6 @@ import apytypes as apy
 from numpy import abs as np_abs
 from numpy import conjugate, sqrt
 
-from b_asic.data_type import NumRepresentation
 from b_asic.graph_component import Name, TypeName
 from b_asic.operation import AbstractOperation
 from b_asic.port import SignalSourceProvider
@@ -182,12 +181,7 @@ class Negation(AbstractOperation):
         return f"-{inputs[0]}"
 
     def evaluate(self, a, data_type=None) -> Num:
-        if data_type is not None:
-            if data_type.num_repr == NumRepresentation.FLOATING_POINT:
-                return apy.fp(-a, data_type.wl[0], data_type.wl[1])
-            elif data_type.num_repr == NumRepresentation.FIXED_POINT:
-                return apy.fx(-a, data_type.wl[0], data_type.wl[1])
-        return -a
+        return self._cast_to_data_type(-a, data_type)
 
 
 class Addition(AbstractOperation):
-- 
2.43.0


From bdb40a54c68b78b5d8827f5b1b691856d38ef960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:02 +0000
Subject: [PATCH 010/129] fix: let Constant support floating-point and complex
 data types

---
 lib/b_asic/core_operations.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lib/b_asic/core_operations.py b/lib/b_asic/core_operations.py
index 0ba0c97..a47987b 100644
--- a/lib/b_asic/core_operations.py
+++ b/lib/b_asic/core_operations.py
@@ -62,9 +62,7 @@ class Constant(AbstractOperation):
         return TypeName("c")
 
     def evaluate(self, data_type=None) -> Num:
-        if data_type is not None:
-            return apy.fx(self.param("value"), data_type.wl[0], data_type.wl[1])
-        return self.param("value")
+        return self._cast_to_data_type(self.param("value"), data_type)
 
     @property
     def value(self) -> Num:
-- 
2.43.0


From b7bbe068c9d309ceb562b77c077504f458ea1d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:15 +0000
Subject: [PATCH 011/129] fix: support ComplexConjugate of finite word length
 values

---
 lib/b_asic/core_operations.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/b_asic/core_operations.py b/lib/b_asic/core_operations.py
index a47987b..e6bad57 100644
--- a/lib/b_asic/core_operations.py
+++ b/lib/b_asic/core_operations.py
@@ -1459,7 +1459,12 @@ class ComplexConjugate(AbstractOperation):
         return TypeName("conj")
 
     def evaluate(self, a, data_type=None) -> Num:
-        res = conjugate(a)
+        if isinstance(a, (apy.APyCFixed, apy.APyCFloat)):
+            res = a.conj()
+        elif isinstance(a, (apy.APyFixed, apy.APyFloat)):
+            res = a
+        else:
+            res = conjugate(a)
         return self._cast_to_data_type(res, data_type)
 
 
-- 
2.43.0


From be99d8bf55a465dfc26255c7f0e13117b38c9d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:15 +0000
Subject: [PATCH 012/129] fix: represent j exactly in ImaginaryMultiplication
 for fixed-point

With a single integer bit, j was wrapped to -j.
---
 lib/b_asic/core_operations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/b_asic/core_operations.py b/lib/b_asic/core_operations.py
index e6bad57..6b91ee7 100644
--- a/lib/b_asic/core_operations.py
+++ b/lib/b_asic/core_operations.py
@@ -1593,7 +1593,7 @@ class ImaginaryMultiplication(AbstractOperation):
         return f"{inputs[0]} * j"
 
     def evaluate(self, a, data_type=None) -> Num:
-        res = a * 1j
+        res = a * (apy.fx(1j, 2, 0) if isinstance(a, apy.APyCFixed) else 1j)
         return self._cast_to_data_type(res, data_type)
 
     def _join(self, other: "AbstractOperation") -> Union["SFG", None]:
-- 
2.43.0


From a03c829e319b7eb42eb8dfcd2a6983170902ac21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:35 +0000
Subject: [PATCH 013/129] fix: make simulation inputs complex for complex data
 types

Real input values gave nodes with mixed real and complex values, for which
the results could not be retrieved.
---
 lib/b_asic/special_operations.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/lib/b_asic/special_operations.py b/lib/b_asic/special_operations.py
index 9326776..86b0d6b 100644
--- a/lib/b_asic/special_operations.py
+++ b/lib/b_asic/special_operations.py
@@ -5,9 +5,6 @@ Contains operations with special purposes that may be treated differently from
 normal operations in an SFG.
 """
 
-import apytypes as apy
-
-from b_asic.data_type import NumRepresentation
 from b_asic.operation import (
     AbstractOperation,
     DelayMap,
@@ -48,11 +45,7 @@ class Input(AbstractOperation):
         return TypeName("in")
 
     def evaluate(self, data_type=None) -> Num:
-        if data_type is None:
-            return self._value
-        if data_type.num_repr == NumRepresentation.FIXED_POINT:
-            return apy.fx(self._value, data_type.wl[0], data_type.wl[1])
-        return apy.fp(self._value, data_type.wl[0], data_type.wl[1])
+        return self._cast_to_data_type(self._value, data_type)
 
     @property
     def latency(self) -> int:
-- 
2.43.0


From d8ee36d7e9f4e18c6935c4e0fc2ea1c3721f96cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:35 +0000
Subject: [PATCH 014/129] fix: do not round twice in rounding quantization

Adding one half can itself be rounded, so e.g. the value just below one half
was rounded up.
---
 lib/b_asic/quantization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/b_asic/quantization.py b/lib/b_asic/quantization.py
index 0460398..098effe 100644
--- a/lib/b_asic/quantization.py
+++ b/lib/b_asic/quantization.py
@@ -187,7 +187,8 @@ def _quantize_real(
     if quantization_mode is QuantizationMode.TRUNCATION:
         v = math.floor(v)
     elif quantization_mode is QuantizationMode.ROUNDING:
-        v = math.floor(v + 0.5)
+        f = math.floor(v)
+        v = f + 1 if v - f >= 0.5 else f
     elif quantization_mode is QuantizationMode.MAGNITUDE_TRUNCATION:
         v = math.floor(v) if v >= 0 else math.ceil(v)
     elif quantization_mode is QuantizationMode.JAMMING:
-- 
2.43.0


From 7015712bfa5c9eb8f67fae16fd637259556ceca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:32 +0000
Subject: [PATCH 015/129] fix: pass the data type on to operations of a nested
 SFG

---
 lib/b_asic/sfg.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/lib/b_asic/sfg.py b/lib/b_asic/sfg.py
index 666ea69..b3a0520 100644
--- a/lib/b_asic/sfg.py
+++ b/lib/b_asic/sfg.py
@@ -360,10 +360,12 @@ class SFG(AbstractOperation):
         return TypeName("sfg")
 
     def evaluate(self, *args, data_type=None) -> Num | list[Num] | None:
-        result = self.evaluate_outputs(args)
+        result = [
+            self.evaluate_output(i, args, data_type=data_type)
+            for i in range(self.output_count)
+        ]
         n = len(result)
-        res = None if n == 0 else result[0] if n == 1 else result
-        return self._cast_to_data_type(res, data_type)
+        return None if n == 0 else result[0] if n == 1 else result
 
     def evaluate_output(
         self,
@@ -405,6 +407,7 @@ class SFG(AbstractOperation):
             delays,
             prefix,
             deferred_delays,
+            data_type,
         )
         while deferred_delays:
             new_deferred_delays = []
@@ -417,6 +420,7 @@ class SFG(AbstractOperation):
                     delays,
                     prefix,
                     new_deferred_delays,
+                    data_type,
                 )
             deferred_delays = new_deferred_delays
         results[self.key(index, prefix)] = value
@@ -1761,6 +1765,7 @@ class SFG(AbstractOperation):
         delays: MutableDelayMap,
         prefix: str,
         deferred_delays: DelayQueue,
+        data_type: DataType | None = None,
     ) -> Num:
         key_base = (
             (prefix + "." + src.operation.graph_id)
@@ -1777,6 +1782,8 @@ class SFG(AbstractOperation):
             return value
 
         value = src.operation.current_output(src.index, delays, key_base)
+        if value is not None:
+            value = self._cast_to_data_type(value, data_type)
         results[key] = value
         if value is None:
             value = self._do_evaluate_source(
@@ -1787,6 +1794,7 @@ class SFG(AbstractOperation):
                 delays,
                 prefix,
                 deferred_delays,
+                data_type,
             )
         else:
             # Evaluate later. Use current value for now.
@@ -1802,6 +1810,7 @@ class SFG(AbstractOperation):
         delays: MutableDelayMap,
         prefix: str,
         deferred_delays: DelayQueue,
+        data_type: DataType | None = None,
     ) -> Num:
         input_values = [
             self._evaluate_source(
@@ -1810,6 +1819,7 @@ class SFG(AbstractOperation):
                 delays,
                 prefix,
                 deferred_delays,
+                data_type,
             )
             for input_port in src.operation.inputs
         ]
@@ -1822,6 +1832,7 @@ class SFG(AbstractOperation):
             results,
             delays,
             key_base,
+            data_type,
         )
         results[key] = value
         return value
-- 
2.43.0


From 955859a93cfab48a4c1b4c60abdc55c4479b66e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:05 +0000
Subject: [PATCH 016/129] fix: make shift operators with a negative amount
 shift the right way

---
 lib/b_asic/core_operations.py | 6 +++---
 lib/b_asic/port.py            | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/b_asic/core_operations.py b/lib/b_asic/core_operations.py
index 6b91ee7..0706ad0 100644
--- a/lib/b_asic/core_operations.py
+++ b/lib/b_asic/core_operations.py
@@ -2405,14 +2405,14 @@ class Shift(AbstractOperation):
 
     Shifts the input to the left or right assuming a fixed-point representation, so
     a multiplication by a power of two. By definition a positive value is a shift to
-    the left.
+    the right.
 
-    .. math:: y = x \ll \text{value} = 2^{\text{value}}x
+    .. math:: y = x \gg \text{value} = 2^{-\text{value}}x
 
     Parameters
     ----------
     value : int
-        Number of bits to shift. Positive *value* shifts to the left.
+        Number of bits to shift. Positive *value* shifts to the right.
     src0 : :class:`~b_asic.port.SignalSourceProvider`, optional
         The signal to shift.
     name : Name, optional
diff --git a/lib/b_asic/port.py b/lib/b_asic/port.py
index 18b361b..863189e 100644
--- a/lib/b_asic/port.py
+++ b/lib/b_asic/port.py
@@ -282,7 +282,7 @@ class SignalSourceProvider(ABC):
             raise TypeError("Can only shift with an int")
         if src >= 0:
             return LeftShift(src, self)
-        return Shift(src, self)
+        return Shift(-src, self)
 
     def __rshift__(self, src: int) -> Union["RightShift", "Shift"]:
         # Import here to avoid circular imports.
@@ -292,7 +292,7 @@ class SignalSourceProvider(ABC):
             raise TypeError("Can only shift with an int")
         if src >= 0:
             return RightShift(src, self)
-        return Shift(-src, self)
+        return Shift(src, self)
 
 
 class InputPort(AbstractPort):
-- 
2.43.0


From f10f055506046348e08d8d4aab8784b5e2cdd65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:05 +0000
Subject: [PATCH 017/129] fix: let a Delay not be constant, so that is_constant
 and is_linear end in loops

---
 lib/b_asic/special_operations.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/b_asic/special_operations.py b/lib/b_asic/special_operations.py
index 86b0d6b..b1b65b1 100644
--- a/lib/b_asic/special_operations.py
+++ b/lib/b_asic/special_operations.py
@@ -177,6 +177,8 @@ class Delay(AbstractOperation):
     """
 
     is_linear = True
+    # The output is the initial value in the first iteration
+    is_constant = False
 
     def __init__(
         self,
-- 
2.43.0


From 7b0803cb1e793ea82b2833a24e9a41e5858c311d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:05 +0000
Subject: [PATCH 018/129] fix: additions where one operand is multiplied by j
 are not swappable

---
 lib/b_asic/core_operations.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/b_asic/core_operations.py b/lib/b_asic/core_operations.py
index 0706ad0..9e188f2 100644
--- a/lib/b_asic/core_operations.py
+++ b/lib/b_asic/core_operations.py
@@ -237,7 +237,6 @@ class Addition(AbstractOperation):
     _shift_output: int
 
     is_linear = True
-    is_swappable = True
 
     def __init__(
         self,
@@ -376,6 +375,11 @@ class Addition(AbstractOperation):
         out0 <<= addsub
         return SFG([in0, in1], [out0])
 
+    @property
+    def is_swappable(self) -> bool:
+        # doc-string inherited
+        return not self.mul_j
+
 
 class Subtraction(AbstractOperation):
     """
@@ -758,7 +762,7 @@ class AddSub(AbstractOperation):
 
     @property
     def is_swappable(self) -> bool:
-        return self.is_add
+        return self.is_add and not self.mul_j
 
     def _rewrite_ShiftAddSub(self) -> "SFG":
         from b_asic.sfg import SFG  # noqa: PLC0415
@@ -1006,7 +1010,7 @@ class ShiftAddSub(AbstractOperation):
 
     @property
     def is_swappable(self) -> bool:
-        return self.is_add and self.shift == 0
+        return self.is_add and self.shift == 0 and not self.mul_j
 
 
 class Multiplication(AbstractOperation):
-- 
2.43.0


From 128b9e9b8e6476491ff25397cec1450ef885bad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:40 +0000
Subject: [PATCH 019/129] fix: list inputs with several destinations once in an
 SFG

---
 lib/b_asic/sfg.py | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/lib/b_asic/sfg.py b/lib/b_asic/sfg.py
index b3a0520..7cdf2b6 100644
--- a/lib/b_asic/sfg.py
+++ b/lib/b_asic/sfg.py
@@ -274,19 +274,14 @@ class SFG(AbstractOperation):
             elif new_signal.destination.operation in output_operations_set:
                 # Add directly connected input to output to ordered list.
                 source = cast(OutputPort, new_signal.source)
+                # The input may already be listed, if it has several destinations.
+                if source.operation not in self._operations_dfs_order:
+                    self._components_dfs_order.append(source.operation)
+                    self._operations_dfs_order.append(source.operation)
                 self._components_dfs_order.extend(
-                    [
-                        source.operation,
-                        new_signal,
-                        new_signal.destination.operation,
-                    ]
-                )
-                self._operations_dfs_order.extend(
-                    [
-                        source.operation,
-                        new_signal.destination.operation,
-                    ]
+                    [new_signal, new_signal.destination.operation]
                 )
+                self._operations_dfs_order.append(new_signal.destination.operation)
 
         # Search the graph inwards from each output signal.
         output_sources = []
@@ -1619,10 +1614,9 @@ class SFG(AbstractOperation):
                         )
 
                         source = cast(OutputPort, new_signal.source)
-                        self._components_dfs_order.extend(
-                            [new_signal, source.operation]
-                        )
+                        self._components_dfs_order.append(new_signal)
                         if source.operation not in self._operations_dfs_order:
+                            self._components_dfs_order.append(source.operation)
                             self._operations_dfs_order.append(source.operation)
 
                     # Check if the signal has not been added before.
-- 
2.43.0


From aec3260518797cf2e8f527fc475b0525eec46c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:44 +0000
Subject: [PATCH 020/129] fix: unfold nested delays, keep initial values and
 cope with any input and output name

---
 lib/b_asic/sfg.py | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/lib/b_asic/sfg.py b/lib/b_asic/sfg.py
index 7cdf2b6..0783ab7 100644
--- a/lib/b_asic/sfg.py
+++ b/lib/b_asic/sfg.py
@@ -2435,11 +2435,17 @@ class SFG(AbstractOperation):
         """
         if factor == 0:
             raise ValueError("Unfolding 0 times removes the SFG")
+        if factor < 0:
+            raise ValueError(f"The unfolding factor must be positive, got {factor}")
 
-        sfg = self()  # copy the sfg
+        # copy the sfg, delays in nested SFGs have to be unfolded as well
+        sfg = self.flatten()
 
         inputs = sfg.input_operations
         outputs = sfg.output_operations
+        input_count = len(inputs)
+        output_count = len(outputs)
+        initial_values = []
 
         # Remove all delay elements in the SFG and replace each one
         # with one input operation and one output operation
@@ -2451,6 +2457,7 @@ class SFG(AbstractOperation):
 
             inputs.append(tmp_input)
             outputs.append(tmp_output)
+            initial_values.append(delay.initial_value)
 
             # move all outgoing signals from the delay to the new input operation
             while len(delay.output(0).signals) > 0:
@@ -2472,10 +2479,9 @@ class SFG(AbstractOperation):
             for operation in sfgs[i].operations:
                 suffix = f"_{i}"
                 operation.graph_id = operation.graph_id + suffix
-                if operation.name[:7] not in ["", "input_t", "output_"]:
+                if operation.name:
                     operation.name = operation.name + suffix
 
-        input_name_to_idx = {}  # save the input port indices for future reference
         new_inputs = []
         # For each copy of the SFG, create new input operations for every "original"
         # input operation and connect them to begin creating the unfolded SFG
@@ -2483,15 +2489,12 @@ class SFG(AbstractOperation):
             for port, operation in zip(
                 sfgs[i].inputs, sfgs[i].input_operations, strict=True
             ):
-                if not operation.name.startswith("input_t"):
+                # The inputs created when removing the delays come last
+                if port.index < input_count:
                     new_input = Input(name=operation.name)
                     new_input.graph_id = operation.graph_id
                     new_inputs.append(new_input)
                     port.connect(new_input)
-                else:
-                    # If the input was created earlier when removing the delays
-                    # then just save the index
-                    input_name_to_idx[operation.name] = port.index
 
         # Connect the original outputs in the same way as the inputs
         # Also connect the copies of the SFG together according to a formula
@@ -2503,17 +2506,21 @@ class SFG(AbstractOperation):
             for port, operation in zip(
                 sfgs[i].outputs, sfgs[i].output_operations, strict=True
             ):
-                if not operation.name.startswith("output_t"):
+                if port.index < output_count:
                     new_output = Output(port, name=operation.name)
                     new_output.graph_id = operation.graph_id
                     new_outputs.append(new_output)
                 else:
-                    index = operation.name[8:]  # Remove the "output_t" prefix
+                    index = port.index - output_count  # Index of the removed delay
                     j = (i + 1) % factor
                     number_of_delays_between = (i + 1) // factor
-                    input_port = sfgs[j].input(input_name_to_idx["input_t" + index])
+                    input_port = sfgs[j].input(input_count + index)
                     input_port.connect(port)
-                    delay_placements[port] = [i, number_of_delays_between]
+                    delay_placements[port] = [
+                        i,
+                        number_of_delays_between,
+                        initial_values[index],
+                    ]
             # deterministically set the graphID of the SFGs
             sfgs[i].graph_id = f"sfg{i}"
 
@@ -2521,9 +2528,11 @@ class SFG(AbstractOperation):
 
         # Insert the interconnect delays according to what is saved in delay_placements
         for port, val in delay_placements.items():
-            i, no_of_delays = val
+            i, no_of_delays, initial_value = val
             for _ in range(no_of_delays):
-                sfg = sfg.insert_operation_after(f"sfg{i}.{port.index}", Delay())
+                sfg = sfg.insert_operation_after(
+                    f"sfg{i}.{port.index}", Delay(initial_value=initial_value)
+                )
 
         # Flatten all the copies of the original SFG
         for i in range(factor):
-- 
2.43.0


From b18d4de2ecbfc3f66882271cf48fc928371f7ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:44 +0000
Subject: [PATCH 021/129] fix: extract with different numbers of inputs and
 outputs

---
 lib/b_asic/sfg.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/b_asic/sfg.py b/lib/b_asic/sfg.py
index 0783ab7..b2368f3 100644
--- a/lib/b_asic/sfg.py
+++ b/lib/b_asic/sfg.py
@@ -698,6 +698,7 @@ class SFG(AbstractOperation):
 
     def extract(self, targets: Iterable[GraphID]) -> "SFG":
         sfg_copy = self()
+        targets = list(targets)
 
         for target in targets:
             target_op = sfg_copy.find_by_id(target)
@@ -743,13 +744,12 @@ class SFG(AbstractOperation):
                 "Mismatch between extracted boundary ports and sub-SFG ports"
             )
 
-        for idx, ((in_sig_id, _), (out_sig_id, _)) in enumerate(
-            zip(inputs, outputs, strict=False)
-        ):
+        for idx, (in_sig_id, _) in enumerate(inputs):
             in_sig = sfg_copy.find_by_id(in_sig_id)
             in_sig.remove_destination()
             in_sig.set_destination(sub_sfg.input(idx))
 
+        for idx, (out_sig_id, _) in enumerate(outputs):
             out_sig = sfg_copy.find_by_id(out_sig_id)
             out_sig.remove_source()
             out_sig.set_source(sub_sfg.output(idx))
-- 
2.43.0


From e8664edd211246ba17fc36555798e0132271bc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:44 +0000
Subject: [PATCH 022/129] fix: only merge delays with the same initial value

---
 lib/b_asic/sfg.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/b_asic/sfg.py b/lib/b_asic/sfg.py
index b2368f3..d911e96 100644
--- a/lib/b_asic/sfg.py
+++ b/lib/b_asic/sfg.py
@@ -1085,13 +1085,15 @@ class SFG(AbstractOperation):
                         signal.destination.operation
                         for signal in delay_element.inputs[0].signals[0].source.signals
                         if isinstance(signal.destination.operation, Delay)
+                        and signal.destination.operation.initial_value
+                        == delay_element.initial_value
                     ]
 
                     if delay_element in neighboring_delays:
                         neighboring_delays.remove(delay_element)
 
                     for delay in neighboring_delays:
-                        for output in delay.outputs[0].signals:
+                        for output in delay.outputs[0].signals[:]:
                             output.set_source(delay_element.outputs[0])
                         in_sig = delay.input(0).signals[0]
                         delay.input(0).remove_signal(in_sig)
-- 
2.43.0


From 8a87efe16ae808fe5572162feb0fa31211c59f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:25 +0000
Subject: [PATCH 023/129] fix: flatten nested SFGs with unused inputs

---
 lib/b_asic/sfg.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/b_asic/sfg.py b/lib/b_asic/sfg.py
index d911e96..518a216 100644
--- a/lib/b_asic/sfg.py
+++ b/lib/b_asic/sfg.py
@@ -450,6 +450,12 @@ class SFG(AbstractOperation):
         for input_port, input_operation in zip(
             self.inputs, self.input_operations, strict=True
         ):
+            if not input_operation.output(0).signals:
+                # Unused input
+                for signal in input_port.signals:
+                    signal.remove_source()
+                input_port.clear()
+                continue
             destination = input_operation.output(0).signals[0].destination
             if destination is None:
                 raise ValueError("Missing destination in signal.")
-- 
2.43.0


From 414f2a2673285f1a948a6d637b07a136098054f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:25 +0000
Subject: [PATCH 024/129] fix: remove operations with an unused output

---
 lib/b_asic/sfg.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/b_asic/sfg.py b/lib/b_asic/sfg.py
index 518a216..f395b98 100644
--- a/lib/b_asic/sfg.py
+++ b/lib/b_asic/sfg.py
@@ -1198,6 +1198,7 @@ class SFG(AbstractOperation):
             else:
                 if operation.input(i).signal_count > 0:
                     in_sig = operation.input(i).signals[0]
+                    in_sig.remove_source()
                     operation.input(i).remove_signal(in_sig)
 
         return sfg_copy()
-- 
2.43.0


From d26e71aeaaa35b2326bd99d07f4b532b63935278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:25 +0000
Subject: [PATCH 025/129] fix: split operations which can not be expressed in
 other operations

---
 lib/b_asic/operation.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/b_asic/operation.py b/lib/b_asic/operation.py
index 08db846..c754f53 100644
--- a/lib/b_asic/operation.py
+++ b/lib/b_asic/operation.py
@@ -821,7 +821,11 @@ class AbstractOperation(Operation, AbstractGraphComponent):
         # Import here to avoid circular imports.
         from b_asic.special_operations import Input  # noqa: PLC0415
 
-        result = self.evaluate(*([Input()] * self.input_count))
+        try:
+            result = self.evaluate(*([Input()] * self.input_count))
+        except TypeError:
+            # The operation can not be expressed in other operations
+            return [self]
         if isinstance(result, collections.abc.Sequence) and all(
             isinstance(e, Operation) for e in result
         ):
-- 
2.43.0


From 5814fcf237e5f1681584d718339ae96666fd3279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:59 +0000
Subject: [PATCH 026/129] fix: rewrite constant multiplications by zero,
 negative powers of two and large values

---
 lib/b_asic/core_operations.py | 42 +++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/lib/b_asic/core_operations.py b/lib/b_asic/core_operations.py
index 9e188f2..9b40440 100644
--- a/lib/b_asic/core_operations.py
+++ b/lib/b_asic/core_operations.py
@@ -1760,8 +1760,13 @@ class ConstantMultiplication(AbstractOperation):
         frac_bits = csd[1]
         max_exp = bits - 1 - frac_bits
 
-        if len(csd[0]) == 1:
+        if not csd[0]:
+            # A multiplication by zero
+            prev_op = ShiftAddSub(is_add=False, shift=0, src0=in0, src1=in0)
+        elif len(csd[0]) == 1:
             prev_op = Shift(frac_bits, prev_op)
+            if csd[0][0] == -1:
+                prev_op = Negation(prev_op)
         else:
             first_nonzero = True
             for i, digit in enumerate(csd[0]):
@@ -1785,11 +1790,12 @@ class ConstantMultiplication(AbstractOperation):
                             prev_op = Negation(prev_op)
                 else:
                     # Subsequent digits: add or subtract from accumulated result
+                    # ShiftAddSub only shifts right
                     prev_op = ShiftAddSub(
                         is_add=digit == 1,
-                        shift=-exp,
+                        shift=max(-exp, 0),
                         src0=prev_op,
-                        src1=in0,
+                        src1=Shift(-exp, in0) if exp > 0 else in0,
                     )
 
         out0 <<= prev_op
@@ -1805,17 +1811,19 @@ class ConstantMultiplication(AbstractOperation):
 
         in0 = Input()
         out0 = Output()
-        prev_op = in0
-
-        if self.value < 0:
-            prev_op = Negation(prev_op)
+        prev_op = None
 
         bits = len(csd[0])
         frac_bits = csd[1]
         max_exp = bits - 1 - frac_bits
 
-        if len(csd[0]) == 1:
-            prev_op = Shift(frac_bits, prev_op)
+        if not csd[0]:
+            # A multiplication by zero
+            prev_op = Subtraction(in0, in0)
+        elif len(csd[0]) == 1:
+            prev_op = Shift(frac_bits, in0)
+            if csd[0][0] == -1:
+                prev_op = Negation(prev_op)
         else:
             for i, digit in enumerate(csd[0]):
                 if digit not in (-1, 0, 1):
@@ -1824,14 +1832,14 @@ class ConstantMultiplication(AbstractOperation):
                     continue
 
                 exp = max_exp - i
-                if exp == 0:
-                    continue
-
-                shift = Shift(-exp, in0)
-                if digit == 1:
-                    prev_op = Addition(prev_op, shift)
-                elif digit == -1:
-                    prev_op = Subtraction(prev_op, shift)
+                term = Shift(-exp, in0) if exp != 0 else in0
+                if prev_op is None:
+                    # First non-zero digit
+                    prev_op = term if digit == 1 else Negation(term)
+                elif digit == 1:
+                    prev_op = Addition(prev_op, term)
+                else:
+                    prev_op = Subtraction(prev_op, term)
         out0 <<= prev_op
 
         return SFG([in0], [out0])
-- 
2.43.0


From daaac375c7fd0bd75c52b696e4725cfc8c22577f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:59 +0000
Subject: [PATCH 027/129] fix: join and rewrite keep the function, or refuse

---
 lib/b_asic/core_operations.py |  68 ++++++++-----------
 lib/b_asic/sfg.py             | 119 +++++++++++++++++++++-------------
 2 files changed, 101 insertions(+), 86 deletions(-)

diff --git a/lib/b_asic/core_operations.py b/lib/b_asic/core_operations.py
index 9b40440..93d415d 100644
--- a/lib/b_asic/core_operations.py
+++ b/lib/b_asic/core_operations.py
@@ -1600,58 +1600,44 @@ class ImaginaryMultiplication(AbstractOperation):
         res = a * (apy.fx(1j, 2, 0) if isinstance(a, apy.APyCFixed) else 1j)
         return self._cast_to_data_type(res, data_type)
 
-    def _join(self, other: "AbstractOperation") -> Union["SFG", None]:
+    def _join(
+        self, other: "AbstractOperation", index: int = 1
+    ) -> Union["SFG", None]:
         from b_asic.sfg import SFG  # noqa: PLC0415
         from b_asic.special_operations import Input, Output  # noqa: PLC0415
 
         if not isinstance(other, (Addition, Subtraction, AddSub, ShiftAddSub)):
             return None
+        if isinstance(other, ShiftAddSub):
+            is_swappable = other.is_add and other.shift == 0 and not other.mul_j
+        else:
+            is_swappable = other.is_swappable
+        if index == 0 and not is_swappable:
+            # Only the second operand can be multiplied by j
+            return None
 
         in0 = Input()
         in1 = Input()
         out0 = Output()
+        src0, src1 = (in0, in1) if index == 1 else (in1, in0)
         if other.mul_j:
-            in1 = -in1
-
-        if isinstance(other, Addition):
-            op = Addition(
-                src0=in0,
-                src1=in1,
-                name=self.name,
-                latency_offsets=self.latency_offsets,
-                execution_time=self.execution_time,
-                mul_j=not other.mul_j,
-            )
-        elif isinstance(other, Subtraction):
-            op = Subtraction(
-                src0=in0,
-                src1=in1,
-                name=self.name,
-                latency_offsets=self.latency_offsets,
-                execution_time=self.execution_time,
-                mul_j=not other.mul_j,
-            )
-        elif isinstance(other, AddSub):
-            op = AddSub(
-                src0=in0,
-                src1=in1,
-                is_add=other.is_add,
-                name=self.name,
-                latency_offsets=self.latency_offsets,
-                execution_time=self.execution_time,
-                mul_j=not other.mul_j,
-            )
+            src1 = Negation(src1)
+
+        kwargs = {
+            "src0": src0,
+            "src1": src1,
+            "name": other.name,
+            "latency_offsets": other.latency_offsets,
+            "execution_time": other.execution_time,
+            "mul_j": not other.mul_j,
+            "shift_output": other.shift_output,
+        }
+        if isinstance(other, AddSub):
+            kwargs["is_add"] = other.is_add
         elif isinstance(other, ShiftAddSub):
-            op = ShiftAddSub(
-                src0=in0,
-                src1=in1,
-                is_add=other.is_add,
-                shift=other.shift,
-                name=self.name,
-                latency_offsets=self.latency_offsets,
-                execution_time=self.execution_time,
-                mul_j=not other.mul_j,
-            )
+            kwargs["is_add"] = other.is_add
+            kwargs["shift"] = other.shift
+        op = type(other)(**kwargs)
         out0 <<= op
         return SFG([in0, in1], [out0])
 
diff --git a/lib/b_asic/sfg.py b/lib/b_asic/sfg.py
index f395b98..9d98dc5 100644
--- a/lib/b_asic/sfg.py
+++ b/lib/b_asic/sfg.py
@@ -763,6 +763,10 @@ class SFG(AbstractOperation):
         return sfg_copy()
 
     def replace(self, target: GraphID, component: Operation) -> "SFG":
+        return self._replace(target, component)()
+
+    def _replace(self, target: GraphID, component: Operation) -> "SFG":
+        """Replace *target* in a copy which has to be copied again to be valid."""
         sfg_copy = self()
 
         # Check that the target is valid
@@ -811,6 +815,15 @@ class SFG(AbstractOperation):
         if isinstance(component, Output):
             sfg_copy._output_operations.append(component)
 
+        return sfg_copy
+
+    def _replace_and_flatten(self, target: GraphID, component: Operation) -> "SFG":
+        """
+        Return a new SFG with *target* replaced and, if it is an SFG, flattened.
+        """
+        sfg_copy = self._replace(target, component)
+        if isinstance(component, SFG):
+            component.connect_external_signals_to_components()
         return sfg_copy()
 
     def insert_operation(
@@ -2594,7 +2607,7 @@ class SFG(AbstractOperation):
             func_name = f"_rewrite_{source.__name__}"
             if hasattr(op, func_name):
                 sub_sfg = getattr(op, func_name)()
-                new_sfg = new_sfg.replace(op.graph_id, sub_sfg)
+                new_sfg = new_sfg._replace_and_flatten(op.graph_id, sub_sfg)
             else:
                 warnings.warn(
                     f"No rewrite method found for target operation type {type(op).__name__} to source operation type {source.__name__}",
@@ -2604,7 +2617,7 @@ class SFG(AbstractOperation):
                 func_name = f"_from_{type(op).__name__}"
                 if hasattr(source, func_name):
                     sub_sfg = getattr(source, func_name)(op)
-                    new_sfg = new_sfg.replace(op.graph_id, sub_sfg)
+                    new_sfg = new_sfg._replace_and_flatten(op.graph_id, sub_sfg)
                 else:
                     warnings.warn(
                         f"No rewrite method found for target operation type {type(op).__name__} to source operation type {source.__name__}",
@@ -2612,12 +2625,6 @@ class SFG(AbstractOperation):
                     )
                     return new_sfg()
 
-            if not isinstance(sub_sfg, SFG):
-                continue
-
-            new_sfg.find_by_id("sfg0").connect_external_signals_to_components()
-            new_sfg = new_sfg()
-
         return new_sfg()
 
     def _rewrite_ShiftAddSub(self) -> "SFG":
@@ -2637,44 +2644,55 @@ class SFG(AbstractOperation):
             raise ValueError("SFG to ShiftAddSub rewrite requires exactly 2 operations")
 
         # check that one operation is a shift and one is an addsub-like operation
+        if isinstance(ops[1], Shift):
+            ops.reverse()
+        shift, adder = ops
         if not (
-            isinstance(ops[0], Shift)
-            and isinstance(ops[1], (Addition, Subtraction, AddSub))
-        ) or (
-            isinstance(ops[1], Shift)
-            and isinstance(ops[0], (Addition, Subtraction, AddSub))
+            isinstance(shift, Shift)
+            and isinstance(adder, (Addition, Subtraction, AddSub))
         ):
             raise ValueError(
                 "SFG to ShiftAddSub rewrite requires one Shift and one of (Addition, Subtraction, AddSub)"
             )
 
-        # determine the modes of the ShiftAddSub operation
-        for op in ops:
-            if isinstance(op, Addition):
-                is_add = True
-            elif isinstance(op, Subtraction):
-                is_add = False
-            elif isinstance(op, AddSub):
-                is_add = op.is_add
-            else:
-                shift = op.value
+        # Find out which of the operands that is shifted
+        sources = [
+            shift.input(0).connected_source.operation
+            if port.connected_source.operation is shift
+            else port.connected_source.operation
+            for port in adder.inputs
+        ]
+        shifted = [port.connected_source.operation is shift for port in adder.inputs]
+        if (
+            sum(shifted) != 1
+            or {id(source) for source in sources}
+            != {id(op) for op in self.input_operations}
+            or any(
+                op.input(0).connected_source.operation is not adder
+                for op in self.output_operations
+            )
+        ):
+            raise ValueError(
+                "SFG to ShiftAddSub rewrite requires one shifted and one other input"
+            )
+        is_add = not isinstance(adder, Subtraction)
+        if isinstance(adder, AddSub):
+            is_add = adder.is_add
+        if shifted[0]:
+            if not is_add or adder.mul_j:
+                raise ValueError("ShiftAddSub can only shift the second operand")
+            sources.reverse()
 
         # Construct and return the new SFG
-        in0 = Input()
-        in1 = Input()
-        op = ShiftAddSub(in0, in1, is_add=is_add, shift=shift)
-        outs = []
-        for out in self.outputs:
-            out = Output()
-            out <<= op
-            outs.append(out)
-
-        op_after_in0 = self.find_by_id("in0").output(0).signals[0].destination_operation
-        if isinstance(op_after_in0, Shift):
-            sfg = SFG([in1, in0], outs)
-        else:
-            sfg = SFG([in0, in1], outs)
-        return sfg
+        inputs = [Input() for _ in self.input_operations]
+        op = ShiftAddSub(
+            *(inputs[self.input_operations.index(source)] for source in sources),
+            is_add=is_add,
+            shift=shift.value,
+            mul_j=adder.mul_j,
+            shift_output=adder.shift_output,
+        )
+        return SFG(inputs, [Output(op) for _ in self.outputs])
 
     def join(self, target: GraphID, direction: Literal["forward", "backward"]) -> "SFG":
         """
@@ -2700,13 +2718,24 @@ class SFG(AbstractOperation):
                 raise ValueError(
                     "Can only join forward if the operation has exactly one output"
                 )
-            for sig in op.output(0).signals:
-                dest_op = sig.destination_operation
-                if hasattr(op, "_join"):
-                    joined_op = op._join(dest_op)
-                    new_sfg = new_sfg.replace(dest_op.graph_id, joined_op)
-                    new_sfg.find_by_id("sfg0").connect_external_signals_to_components()
-                    new_sfg = new_sfg()
+            if not hasattr(op, "_join"):
+                raise ValueError(f"Operations of type {type(op)} cannot be joined")
+            destinations = [sig.destination for sig in op.output(0).signals]
+            if len({port.operation.graph_id for port in destinations}) != len(
+                destinations
+            ):
+                raise ValueError(
+                    "Cannot join with an operation using the result more than once"
+                )
+            for port in destinations:
+                joined_op = op._join(port.operation, port.index)
+                if joined_op is None:
+                    raise ValueError(
+                        f"Cannot join {target} with {port.operation.graph_id}"
+                    )
+                new_sfg = new_sfg._replace_and_flatten(
+                    port.operation.graph_id, joined_op
+                )
             new_sfg = new_sfg.remove_operation(target)
         elif direction == "backward":
             raise NotImplementedError("Joining backward is not implemented yet")
-- 
2.43.0


From 0eb955441356e0fcbee5014b83ae75c8ba0fb2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:31 +0000
Subject: [PATCH 028/129] fix: flatten nested SFGs without inputs or without
 used outputs

---
 lib/b_asic/sfg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/b_asic/sfg.py b/lib/b_asic/sfg.py
index 9d98dc5..3da7c34 100644
--- a/lib/b_asic/sfg.py
+++ b/lib/b_asic/sfg.py
@@ -441,9 +441,9 @@ class SFG(AbstractOperation):
                 f" number of output_operations ({len(self.output_operations)})"
                 " in SFG."
             )
-        if len(self.input_signals) == 0:
+        if self.input_count > 0 and len(self.input_signals) == 0:
             return False
-        if len(self.output_signals) == 0:
+        if len(self.input_signals) == 0 and len(self.output_signals) == 0:
             return False
 
         # For each input_signal, connect it to the corresponding operation
-- 
2.43.0


From 23136b2ef8a32d79c0782afd8de10835b3151520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:58 +0000
Subject: [PATCH 029/129] fix: convert operations with any number of outputs to
 SFGs

---
 lib/b_asic/operation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/b_asic/operation.py b/lib/b_asic/operation.py
index c754f53..537f42f 100644
--- a/lib/b_asic/operation.py
+++ b/lib/b_asic/operation.py
@@ -852,7 +852,7 @@ class AbstractOperation(Operation, AbstractGraphComponent):
                 operation_copy.input(i).connect(input_)
                 inputs.append(input_)
 
-            outputs = [Output(operation_copy)]
+            outputs = [Output(port) for port in operation_copy.outputs]
 
         return SFG(inputs=inputs, outputs=outputs)
 
-- 
2.43.0


From f4189ad33b09d7deb964f9f976b2b54b08be798e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:22 +0000
Subject: [PATCH 030/129] fix: refuse to order operations in loops without
 delays

---
 lib/b_asic/sfg.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/b_asic/sfg.py b/lib/b_asic/sfg.py
index 3da7c34..d9014aa 100644
--- a/lib/b_asic/sfg.py
+++ b/lib/b_asic/sfg.py
@@ -1575,6 +1575,16 @@ class SFG(AbstractOperation):
 
             curr_iter_ports = next_iter_ports
 
+        blocked = [
+            op.graph_id
+            for op, remaining_inports in remaining_inports_per_operation.items()
+            if remaining_inports > 0 and not isinstance(op, Delay)
+        ]
+        if blocked:
+            raise ValueError(
+                f"Operations depending on a loop without delays in SFG: {blocked}"
+            )
+
         return precedence_list
 
     def _add_component_unconnected_copy(
-- 
2.43.0


From 136cd436bf39b76623a4a86b0a5e86b54669768e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:22 +0000
Subject: [PATCH 031/129] fix: use the latency of each operation for the
 iteration period bound

---
 lib/b_asic/sfg.py | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/lib/b_asic/sfg.py b/lib/b_asic/sfg.py
index d9014aa..6d39356 100644
--- a/lib/b_asic/sfg.py
+++ b/lib/b_asic/sfg.py
@@ -2312,28 +2312,25 @@ class SFG(AbstractOperation):
         if not loops:
             return Fraction(-1)
 
-        op_and_latency = {}
-        for op in self.operations:
-            for loop in loops:
-                for _ in loop:
-                    if op.type_name() not in op_and_latency:
-                        op_and_latency[op.type_name()] = op.latency
         t_l_values = []
 
         for loop in loops:
-            loop.pop()
             time_of_loop = 0
             number_of_t_in_loop = 0
-            for element in loop:
-                if isinstance(self.find_by_id(element), Delay):
+            for op_id, next_op_id in itertools.pairwise(loop):
+                op = self.find_by_id(op_id)
+                if isinstance(op, Delay):
                     number_of_t_in_loop += 1
-                for key, item in op_and_latency.items():
-                    if key in element:
-                        time_of_loop += item
-            if number_of_t_in_loop in (0, 1):
-                t_l_values.append(Fraction(time_of_loop, 1))
-            else:
-                t_l_values.append(Fraction(time_of_loop, number_of_t_in_loop))
+                # Latency from the output of op to the input of the next operation, so
+                # that the sum is the port-to-port latency of the loop
+                op.latency  # Raises if latencies are missing
+                time_of_loop += max(
+                    port.latency_offset - signal.destination.latency_offset
+                    for port in op.outputs
+                    for signal in port.signals
+                    if signal.destination.operation.graph_id == next_op_id
+                )
+            t_l_values.append(Fraction(time_of_loop, max(number_of_t_in_loop, 1)))
         return max(t_l_values)
 
     @property
-- 
2.43.0


From 4d433b199b26202aa8662c9507f7cb8b929d92a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:22 +0000
Subject: [PATCH 032/129] fix: find loops which can not be reached from an
 input

---
 lib/b_asic/sfg.py | 21 ++++-----------------
 1 file changed, 4 insertions(+), 17 deletions(-)

diff --git a/lib/b_asic/sfg.py b/lib/b_asic/sfg.py
index 6d39356..fd3ee61 100644
--- a/lib/b_asic/sfg.py
+++ b/lib/b_asic/sfg.py
@@ -2342,26 +2342,13 @@ class SFG(AbstractOperation):
         -------
         A list of the recursive loops.
         """
-        if not self.input_count:
-            return []
         graph: nx.DiGraph = nx.DiGraph()
-        queue: deque[Operation] = deque(self._input_operations)
-        visited: set[Operation] = set(self._input_operations)
-        while queue:
-            op = queue.popleft()
+        for op in self.operations:
             for output_port in op.outputs:
                 for signal in output_port.signals:
-                    if signal.destination is not None:
-                        new_op = signal.destination.operation
-                        if not isinstance(op, (Input, Output)) and not isinstance(
-                            new_op, Output
-                        ):
-                            graph.add_edge(op.graph_id, new_op.graph_id)
-                        if new_op not in visited:
-                            queue.append(new_op)
-                            visited.add(new_op)
-                    else:
-                        raise ValueError("Destination for {signal!r} does not exist")
+                    if signal.destination is None:
+                        raise ValueError(f"Destination for {signal!r} does not exist")
+                    graph.add_edge(op.graph_id, signal.destination.operation.graph_id)
         cycles = []
         for cycle in nx.simple_cycles(graph):
             min_idx = cycle.index(min(cycle))
-- 
2.43.0


From 7670aea5e7e2b9bfddd56e25dc980b341b3d3647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:17 +0000
Subject: [PATCH 033/129] fix: list each operation once in the topological
 order

---
 lib/b_asic/sfg.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/b_asic/sfg.py b/lib/b_asic/sfg.py
index fd3ee61..9dfa4e9 100644
--- a/lib/b_asic/sfg.py
+++ b/lib/b_asic/sfg.py
@@ -1394,6 +1394,11 @@ class SFG(AbstractOperation):
                         remaining_inports = remaining_inports_per_operation[neighbor_op]
 
                         if remaining_inports == 0:
+                            if neighbor_op in seen:
+                                seen_with_inputs_dict[remaining_inports + 1].remove(
+                                    neighbor_op
+                                )
+                                seen_but_not_visited_count -= 1
                             p_queue.put(
                                 (
                                     -neighbor_op.output_count,
-- 
2.43.0


From 11df87e63d0819fc1f383252f70799608d6af336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:47 +0000
Subject: [PATCH 034/129] fix: order operations of loops which no input reaches

---
 lib/b_asic/sfg.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/lib/b_asic/sfg.py b/lib/b_asic/sfg.py
index 9dfa4e9..86a296c 100644
--- a/lib/b_asic/sfg.py
+++ b/lib/b_asic/sfg.py
@@ -1366,17 +1366,10 @@ class SFG(AbstractOperation):
         seen = set()
         top_order = []
 
-        if len(no_inputs_queue) == 0:
-            raise ValueError("Illegal SFG state, dangling signals in SFG.")
-
-        first_op = no_inputs_queue.popleft()
-        visited = {first_op}
+        visited = set()
         p_queue = PriorityQueue()
         p_queue_entry_num = itertools.count()
-        # Negative priority as max-heap popping is wanted
-        p_queue.put((-first_op.output_count, -next(p_queue_entry_num), first_op))
-
-        operations_left = len(self.operations) - 1
+        operations_left = len(self.operations)
 
         seen_but_not_visited_count = 0
 
@@ -1424,6 +1417,7 @@ class SFG(AbstractOperation):
                 # First check if can fetch from Operations with no input ports
                 if no_inputs_queue:
                     new_op = no_inputs_queue.popleft()
+                    # Negative priority as max-heap popping is wanted
                     p_queue.put(
                         (
                             -new_op.output_count,
@@ -1447,8 +1441,20 @@ class SFG(AbstractOperation):
                             )
                             seen_but_not_visited_count -= 1
                             break
+
+                # Else only loops without any other inputs remain, start at a delay
                 else:
-                    raise RuntimeError("Disallowed structure in SFG detected")
+                    remaining = [op for op in self.operations if op not in visited]
+                    new_op = next(
+                        (op for op in remaining if isinstance(op, Delay)), remaining[0]
+                    )
+                    p_queue.put(
+                        (
+                            -new_op.output_count,
+                            -next(p_queue_entry_num),
+                            new_op,
+                        )
+                    )
 
         self._operations_topological_order = top_order
         return self._operations_topological_order
-- 
2.43.0


From bd70deb88b7604585712d8dbe4e174e6a91fcd3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:29 +0000
Subject: [PATCH 035/129] fix: use the latency of the type for operations
 without latencies

---
 lib/b_asic/sfg.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/lib/b_asic/sfg.py b/lib/b_asic/sfg.py
index 86a296c..3345c93 100644
--- a/lib/b_asic/sfg.py
+++ b/lib/b_asic/sfg.py
@@ -2323,6 +2323,19 @@ class SFG(AbstractOperation):
         if not loops:
             return Fraction(-1)
 
+        # Operations without latencies use those of another operation of their type
+        type_offsets = {}
+        for op in self.operations:
+            if None not in op.latency_offsets.values():
+                type_offsets.setdefault(op.type_name(), op.latency_offsets)
+
+        def get_offsets(op: Operation) -> dict[str, int]:
+            if None not in op.latency_offsets.values():
+                return op.latency_offsets
+            if op.type_name() not in type_offsets:
+                raise ValueError(f"Missing latency-offsets for {op.graph_id}.")
+            return type_offsets[op.type_name()]
+
         t_l_values = []
 
         for loop in loops:
@@ -2334,9 +2347,11 @@ class SFG(AbstractOperation):
                     number_of_t_in_loop += 1
                 # Latency from the output of op to the input of the next operation, so
                 # that the sum is the port-to-port latency of the loop
-                op.latency  # Raises if latencies are missing
                 time_of_loop += max(
-                    port.latency_offset - signal.destination.latency_offset
+                    get_offsets(op)[f"out{port.index}"]
+                    - get_offsets(signal.destination.operation)[
+                        f"in{signal.destination.index}"
+                    ]
                     for port in op.outputs
                     for signal in port.signals
                     if signal.destination.operation.graph_id == next_op_id
-- 
2.43.0


From 186a33ce52d9a77b81cf7883db95a992afe6c98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:40 +0000
Subject: [PATCH 036/129] fix: return the inputs required for one output of the
 reflection-free adaptor

---
 lib/b_asic/wdf_operations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/b_asic/wdf_operations.py b/lib/b_asic/wdf_operations.py
index 63dfda7..bdb9547 100644
--- a/lib/b_asic/wdf_operations.py
+++ b/lib/b_asic/wdf_operations.py
@@ -396,4 +396,4 @@ class ReflectionFreeSeriesThreeportAdaptor(AbstractOperation):
         Get the input indices of all inputs in this operation whose values are
         required in order to evaluate the output at the given output index.
         """
-        return {0: (0, 1, 2), 1: (0, 2), 2: (0, 1, 2)}
+        return {0: (0, 1, 2), 1: (0, 2), 2: (0, 1, 2)}[output_index]
-- 
2.43.0


From 37e656ac2f430ba005f7778623c7b3c7bfe0894a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:45 +0000
Subject: [PATCH 037/129] fix: same error as for the latency when latencies are
 missing

---
 lib/b_asic/sfg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/b_asic/sfg.py b/lib/b_asic/sfg.py
index 3345c93..2c4bab0 100644
--- a/lib/b_asic/sfg.py
+++ b/lib/b_asic/sfg.py
@@ -2333,7 +2333,7 @@ class SFG(AbstractOperation):
             if None not in op.latency_offsets.values():
                 return op.latency_offsets
             if op.type_name() not in type_offsets:
-                raise ValueError(f"Missing latency-offsets for {op.graph_id}.")
+                op.latency  # Raises as latency-offsets are missing
             return type_offsets[op.type_name()]
 
         t_l_values = []
-- 
2.43.0


From dff7f0c564b6ef8b1096322826eb969c68c6e6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:29 +0000
Subject: [PATCH 038/129] fix: compute laps exactly when moving operations

The laps were guessed from the new times modulo the schedule time, which for
example changed the function for signals from constants, self loops, and
operations with input latency offsets.
---
 lib/b_asic/schedule.py | 233 ++++++++++++++++-------------------------
 1 file changed, 90 insertions(+), 143 deletions(-)

diff --git a/lib/b_asic/schedule.py b/lib/b_asic/schedule.py
index 9212513..6c81e92 100644
--- a/lib/b_asic/schedule.py
+++ b/lib/b_asic/schedule.py
@@ -918,77 +918,81 @@ class Schedule:
                 f" between {-backward_slack} and {forward_slack}."
             )
 
-        old_start = self._start_times[graph_id]
-        tmp_start = old_start + time
+        op = cast(Operation, self._sfg.find_by_id(graph_id))
+        tmp_start = self._start_times[graph_id] + time
         new_start = tmp_start % self._schedule_time
 
-        # Update input laps
-        input_slacks = self._backward_slacks(graph_id)
-        for in_port, signal_slacks in input_slacks.items():
-            tmp_usage = tmp_start + cast(int, in_port.latency_offset)
-            new_usage = tmp_usage % self._schedule_time
-            for signal, signal_slack in signal_slacks.items():
-                # New slack
-                new_slack = signal_slack + time
-                # Compute a lower limit on laps
-                laps = new_slack // self._schedule_time
-                # Compensate for cases where above is not correct
-                tmp_prev_available = tmp_usage - new_slack
-                prev_available = tmp_prev_available % self._schedule_time
-                # If prev_available == 0 it will come from previous lap, unless it comes
-                # from an Input
-                source_op = signal.source_operation
-                if prev_available == 0 and not isinstance(source_op, Input):
-                    prev_available = self._schedule_time
-                # Usage time (new_usage) < available time (prev_available) within a
-                # schedule period
-                if new_usage < prev_available:
-                    laps += 1
-                self._laps[signal.graph_id] = laps
-
-        # Update output laps
-        output_slacks = self._forward_slacks(graph_id)
-        for out_port, signal_slacks in output_slacks.items():
-            tmp_available = tmp_start + cast(int, out_port.latency_offset)
-            new_available = tmp_available % self._schedule_time
-            for signal, signal_slack in signal_slacks.items():
-                # New slack
-                new_slack = signal_slack - time
-                # Compute a lower limit on laps
-                laps = new_slack // self._schedule_time
-                # Compensate for cases where above is not correct
-                tmp_next_usage = tmp_available + new_slack
-                next_usage = tmp_next_usage % self._schedule_time
-                # Usage time (new_usage) < available time (prev_available) within a
-                # schedule period
-                if new_available == 0 and (new_slack > 0 or next_usage == 0):
-                    new_available = self._schedule_time
-                if (
-                    next_usage < new_available
-                    and self._start_times[signal.destination_operation.graph_id]
-                    != self.schedule_time
-                ):
-                    laps += 1
-                self._laps[signal.graph_id] = laps
+        # Outputs are placed at the end rather than at the start of the schedule
+        if new_start == 0 and isinstance(op, Output):
+            laps = self._laps[op.input(0).signals[0].graph_id]
+            if laps + tmp_start // self._schedule_time != 0:
+                new_start = self._schedule_time
 
-        # Outputs should not start at 0, but at schedule time
-        op = self._sfg.find_by_id(graph_id)
-        if (
-            new_start == 0
-            and isinstance(op, Output)
-            and self._laps[op.input(0).signals[0].graph_id] != 0
-        ):
-            new_start = self._schedule_time
-            self._laps[op.input(0).signals[0].graph_id] -= 1
-        if new_start == 0 and isinstance(op, Input):
-            new_start = 0
-            for signal in op.output(0).signals:
-                if self._laps[signal.graph_id] != 0:
-                    self._laps[signal.graph_id] -= 1
-        # Set new start time
-        self._start_times[graph_id] = new_start
+        self._update_laps({graph_id: (new_start, time)})
         return self
 
+    def _get_wrapped_available_time(self, output_port: OutputPort, start: int) -> int:
+        """
+        Return when a value is available, if the operation starts at *start*.
+
+        Parameters
+        ----------
+        output_port : OutputPort
+            The port producing the value.
+        start : int
+            Start time of the operation.
+        """
+        available_time = start + cast(int, output_port.latency_offset)
+        if available_time > self._schedule_time:
+            available_time -= self._schedule_time
+        return available_time
+
+    def _update_laps(self, moves: dict[GraphID, tuple[int, int]]) -> None:
+        """
+        Move operations and update the laps of the signals accordingly.
+
+        Parameters
+        ----------
+        moves : dict from GraphID to tuple of int
+            New start time and the time that the operation is moved, which differ from
+            the old start time by a multiple of the schedule time.
+        """
+        new_laps = dict(self._laps)
+        for graph_id, (new_start, time) in moves.items():
+            op = cast(Operation, self._sfg.find_by_id(graph_id))
+            old_start = self._start_times[graph_id]
+            wraps = (old_start + time - new_start) // self._schedule_time
+            for signal in op.input_signals:
+                new_laps[signal.graph_id] = new_laps.get(signal.graph_id, 0) + wraps
+            for port in op.outputs:
+                old_available = self._get_wrapped_available_time(port, old_start)
+                new_available = self._get_wrapped_available_time(port, new_start)
+                wraps = (old_available + time - new_available) // self._schedule_time
+                for signal in port.signals:
+                    new_laps[signal.graph_id] = new_laps.get(signal.graph_id, 0) - wraps
+
+        # A negative number of delays can not be realized
+        for graph_id, (new_start, _) in moves.items():
+            op = cast(Operation, self._sfg.find_by_id(graph_id))
+            for signal in [*op.input_signals, *op.output_signals]:
+                source = cast(OutputPort, signal.source)
+                if isinstance(source.operation, DontCare):
+                    # The value is arbitrary, so the iteration is as well
+                    new_laps[signal.graph_id] = max(new_laps[signal.graph_id], 0)
+                    continue
+                source_id = source.operation.graph_id
+                start = moves.get(source_id, (self._start_times[source_id],))[0]
+                available_time = start + cast(int, source.latency_offset)
+                if new_laps[signal.graph_id] < -(available_time > self._schedule_time):
+                    raise ValueError(
+                        f"Operation {graph_id!r} can not be moved, as a value from a"
+                        " later iteration would be needed."
+                    )
+
+        self._laps.update(new_laps)
+        for graph_id, (new_start, _) in moves.items():
+            self._start_times[graph_id] = new_start
+
     def move_operation_alap(self, graph_id: GraphID) -> "Schedule":
         """
         Move an operation as late as possible in the schedule.
@@ -1042,47 +1046,7 @@ class Schedule:
         if not self._cyclic:
             raise ValueError("Cannot rotate non-cyclic schedule.")
 
-        for graph_id, start_time in self._start_times.items():
-            op = cast(Operation, self._sfg.find_by_id(graph_id))
-            new_time = (start_time + 1) % self._schedule_time
-
-            for input_signal in op.input_signals:
-                # move resulted in the input wrapping around
-                if (
-                    start_time + 1 + input_signal.destination.latency_offset
-                    == self._schedule_time
-                ):
-                    self._laps[input_signal.graph_id] += 1
-
-            for output_signal in op.output_signals:
-                # move resulted in the output wrapping around
-                if (
-                    start_time + output_signal.source.latency_offset
-                    == self._schedule_time
-                ):
-                    self._laps[output_signal.graph_id] -= 1
-
-            if isinstance(op, (Output, Sink)) and start_time == self._schedule_time:
-                # special case, output has wrapped around
-                for input_signal in op.input_signals:
-                    self._laps[input_signal.graph_id] += 1
-
-            # place the operation at the correct position
-            if (
-                isinstance(op, (Input, DontCare))
-                and start_time == self._schedule_time - 1
-            ):
-                self._start_times[graph_id] = 0
-                for output_signal in op.output_signals:
-                    self._laps[output_signal.graph_id] -= 1
-            elif (
-                isinstance(op, (Output, Sink)) and start_time == self._schedule_time - 1
-            ):
-                self._start_times[graph_id] = self._schedule_time
-                for input_signal in op.input_signals:
-                    self._laps[input_signal.graph_id] -= 1
-            else:
-                self._start_times[graph_id] = new_time
+        self._rotate(1)
         return self
 
     def rotate_backward(self) -> "Schedule":
@@ -1090,44 +1054,27 @@ class Schedule:
         if not self._cyclic:
             raise ValueError("Cannot rotate non-cyclic schedule.")
 
+        self._rotate(-1)
+        return self
+
+    def _rotate(self, time: int) -> None:
+        """
+        Move all operations without changing any slacks.
+
+        Parameters
+        ----------
+        time : int
+            The time to move all operations.
+        """
+        moves = {}
         for graph_id, start_time in self._start_times.items():
             op = cast(Operation, self._sfg.find_by_id(graph_id))
-            new_time = (start_time - 1) % self._schedule_time
-
-            for input_signal in op.input_signals:
-                # move resulted in the input wrapping around
-                if start_time + input_signal.destination.latency_offset == 0:
-                    self._laps[input_signal.graph_id] -= 1
-
-            for output_signal in op.output_signals:
-                # move resulted in the output wrapping around
-                if start_time - 1 + output_signal.source.latency_offset == 0:
-                    # normal wrap around
-                    self._laps[output_signal.graph_id] += 1
-                if (
-                    start_time - 1 + output_signal.source.latency_offset
-                    == self._schedule_time
-                ):
-                    # output time now in schedule period
-                    self._laps[output_signal.graph_id] += 1
-
-            if isinstance(op, (Input, DontCare)) and start_time == 0:
-                # special case, input has wrapped around
-                for output_signal in op.output_signals:
-                    self._laps[output_signal.graph_id] += 1
-
-            # place the operation at the correct position
-            if isinstance(op, (Input, DontCare)) and start_time == 1:
-                self._start_times[graph_id] = 0
-                for output_signal in op.output_signals:
-                    self._laps[output_signal.graph_id] -= 1
-            elif isinstance(op, (Output, Sink)) and start_time == 1:
-                self._start_times[graph_id] = self._schedule_time
-                for input_signal in op.input_signals:
-                    self._laps[input_signal.graph_id] -= 1
-            else:
-                self._start_times[graph_id] = new_time
-        return self
+            new_start = (start_time + time) % self._schedule_time
+            # Outputs are placed at the end rather than at the start of the schedule
+            if new_start == 0 and isinstance(op, (Output, Sink)):
+                new_start = self._schedule_time
+            moves[graph_id] = (new_start, time)
+        self._update_laps(moves)
 
     def _remove_delays_no_laps(self) -> None:
         """Remove delay elements without updating laps. Used when loading schedule."""
-- 
2.43.0


From 0681fdf82154e6166d896edf2e052570048708d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:01 +0000
Subject: [PATCH 039/129] fix: consider the laps of operations connected
 through delays

Placing operations in later or earlier schedule periods changed the number of
delays between operations connected through a delay. Also, moving as late as
possible should not require a negative number of delays.
---
 lib/b_asic/schedule.py | 71 +++++++++++++++++++++++++++++++++---------
 1 file changed, 56 insertions(+), 15 deletions(-)

diff --git a/lib/b_asic/schedule.py b/lib/b_asic/schedule.py
index 6c81e92..2d93548 100644
--- a/lib/b_asic/schedule.py
+++ b/lib/b_asic/schedule.py
@@ -211,7 +211,11 @@ class Schedule:
 
     def _validate_laps(self) -> None:
         for signal_id, lap in self._laps.items():
-            if lap < 0:
+            source = self._sfg.find_by_id(signal_id).source
+            start_time = self._start_times[source.operation.graph_id]
+            # The result may be available in the next schedule period
+            wraps = start_time + (source.latency_offset or 0) > self._schedule_time
+            if lap + wraps < 0:
                 raise ValueError(
                     f"Negative lap detected in Schedule for signal {signal_id}"
                 )
@@ -853,25 +857,39 @@ class Schedule:
         if not self.schedule_time:
             return
 
+        current_lap = time // self._schedule_time
+
         # update input laps
         for input_port in op.inputs:
             laps = 0
-            if self._schedule_time is not None:
-                current_lap = time // self._schedule_time
-                source_port = cast(OutputPort, input_port.signals[0].source)
-                source_op = source_port.operation
+            source_port = cast(OutputPort, input_port.signals[0].source)
+            source_op = source_port.operation
 
-                if not isinstance(source_op, (Delay, DontCare)):
-                    if op_laps[source_op.graph_id] < current_lap:
-                        laps += current_lap - op_laps[source_op.graph_id]
-                    source_available_time = (
-                        self._start_times[source_op.graph_id]
-                        + source_op.latency_offsets[f"out{source_port.index}"]
-                    )
-                    if source_available_time > self.schedule_time:
-                        laps -= 1
+            if isinstance(source_op, Delay):
+                # The lap of the operation before the delay(s) is considered when
+                # that operation is placed
+                laps = current_lap
+            elif not isinstance(source_op, DontCare):
+                laps = current_lap - op_laps[source_op.graph_id]
+                source_available_time = (
+                    self._start_times[source_op.graph_id]
+                    + source_op.latency_offsets[f"out{source_port.index}"]
+                )
+                if source_available_time > self.schedule_time:
+                    laps -= 1
             self._laps[input_port.signals[0].graph_id] = laps
 
+        # update laps of outputs connected to delays
+        for output_port in op.outputs:
+            for signal in output_port.signals:
+                if isinstance(signal.destination_operation, Delay):
+                    laps = -current_lap
+                    if start + cast(int, output_port.latency_offset) > (
+                        self.schedule_time
+                    ):
+                        laps -= 1
+                    self._laps[signal.graph_id] = laps
+
         if (
             start == 0
             and isinstance(op, Output)
@@ -1015,9 +1033,32 @@ class Schedule:
                 graph_id, self.schedule_time - self._start_times[graph_id]
             )
         else:
-            self.move_operation(graph_id, forward_slack)
+            self.move_operation(
+                graph_id, min(forward_slack, self._latest_move(graph_id))
+            )
         return self
 
+    def _latest_move(self, graph_id: GraphID) -> int:
+        """
+        Return how far an operation can be moved without a negative number of delays.
+
+        Parameters
+        ----------
+        graph_id : GraphID
+            The graph id of the operation to move.
+        """
+        op = cast(Operation, self._sfg.find_by_id(graph_id))
+        start = self._start_times[graph_id]
+        latest = sys.maxsize
+        if isinstance(op, DontCare):
+            return latest
+        for port in op.outputs:
+            wraps = start + cast(int, port.latency_offset) > self._schedule_time
+            for signal in port.signals:
+                delays = self._laps[signal.graph_id] + wraps
+                latest = min(latest, self._schedule_time * (delays + 1) - 1 - start)
+        return max(latest, 0)
+
     def move_operation_asap(self, graph_id: GraphID) -> "Schedule":
         """
         Move an operation as soon as possible in the schedule.
-- 
2.43.0


From e15a1e8db3e87cc8c805d88265953ce89516c6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:19 +0000
Subject: [PATCH 040/129] fix: validity of schedules from the list and ILP
 schedulers

* SFGs with Sink operations could not be scheduled by the list schedulers
* The scheduling never ended when the constraints could not be satisfied
* Execution wrapping around the schedule time was not considered for resource
  limits
* Operations could wrap around for non-cyclic schedules with a requested time
* Delays were not considered for data dependencies
* The ILP scheduler mixed up different number of delays from the same source
  and ignored input latency offsets and wrap around of results
---
 lib/b_asic/schedule.py  |  15 ++--
 lib/b_asic/scheduler.py | 161 ++++++++++++++++++++++++++++++----------
 2 files changed, 129 insertions(+), 47 deletions(-)

diff --git a/lib/b_asic/schedule.py b/lib/b_asic/schedule.py
index 2d93548..14e7bbc 100644
--- a/lib/b_asic/schedule.py
+++ b/lib/b_asic/schedule.py
@@ -1688,13 +1688,14 @@ class Schedule:
     def _execution_times_in_time(self, op_type, time: int) -> int:
         count = 0
         for other_op_id, start_time in self.start_times.items():
-            if self._schedule_time is not None:
-                start_time %= self._schedule_time
             op = cast(Operation, self._sfg.find_by_id(other_op_id))
-            if (
-                time >= start_time
-                and time < start_time + cast(int, op.execution_time)
-                and isinstance(op, op_type)
-            ):
+            if not isinstance(op, op_type):
+                continue
+            end_time = start_time + cast(int, op.execution_time)
+            if self._schedule_time:
+                # The execution may continue in the following schedule periods
+                first_time = start_time + (time - start_time) % self._schedule_time
+                count += len(range(first_time, end_time, self._schedule_time))
+            elif start_time <= time < end_time:
                 count += 1
         return count
diff --git a/lib/b_asic/scheduler.py b/lib/b_asic/scheduler.py
index 0f1f787..5e638dc 100644
--- a/lib/b_asic/scheduler.py
+++ b/lib/b_asic/scheduler.py
@@ -592,15 +592,35 @@ class ListScheduler(Scheduler):
         if self._output_delta_times:
             self._place_outputs_on_given_times()
 
-        if self._schedule._schedule_time is None:
+        shortest_schedule_time = self._schedule._schedule_time is None
+        if shortest_schedule_time:
             self._schedule.set_schedule_time(self._schedule.get_max_end_time())
         self._schedule.remove_delays()
+        if shortest_schedule_time:
+            self._satisfy_resource_constraints()
         self._handle_utility_operations()
         if self._sort_y_location:
             schedule.sort_y_locations_on_start_times()
         self._validate_constraints()
         log.debug("Scheduling completed")
 
+    def _satisfy_resource_constraints(self) -> None:
+        """
+        Increase the schedule time until the resource constraints are satisfied.
+
+        The execution may continue after the results are available.
+        """
+        end_time = max(
+            start_time + (self._cached_execution_times.get(op_id) or 0)
+            for op_id, start_time in self._schedule.start_times.items()
+        )
+        while self._schedule._schedule_time < end_time and any(
+            self._schedule._execution_times_in_time(op_type, time_slot) > constraint
+            for op_type, constraint in self._remaining_resources.items()
+            for time_slot in range(self._schedule._schedule_time)
+        ):
+            self._schedule.set_schedule_time(self._schedule._schedule_time + 1)
+
     def _validate_constraints(self) -> None:
         for time_slot in range(self._schedule._schedule_time):
             for op_type, constraint in self._remaining_resources.items():
@@ -670,13 +690,13 @@ class ListScheduler(Scheduler):
         for op_id, start_time in self._alap_start_times.items():
             op = cast(Operation, self._schedule._sfg.find_by_id(op_id))
             output_offsets = [cast(int, output.latency_offset) for output in op.outputs]
-            start_time += self._alap_op_laps[op_id] * self._alap_schedule_time
+            start_time += self._alap_op_laps.get(op_id, 0) * self._alap_schedule_time
             deadlines[op_id] = start_time + min(output_offsets, default=0)
         return deadlines
 
     def _calculate_alap_output_slacks(self) -> dict["GraphID", int]:
         return {
-            op_id: start_time + self._alap_op_laps[op_id] * self._alap_schedule_time
+            op_id: start_time + self._alap_op_laps.get(op_id, 0) * self._alap_schedule_time
             for op_id, start_time in self._alap_start_times.items()
         }
 
@@ -794,15 +814,27 @@ class ListScheduler(Scheduler):
             source_port = cast(OutputPort, op_input.signals[0].source)
             source_op = source_port.operation
 
-            if isinstance(source_op, (Delay, DontCare)):
+            if isinstance(source_op, DontCare):
                 continue
 
-            if source_op.graph_id in self._remaining_ops_set:
+            delays = 0
+            while isinstance(source_op, Delay):
+                source_port = cast(OutputPort, source_op.input(0).signals[0].source)
+                source_op = source_port.operation
+                delays += 1
+
+            if source_op.graph_id not in self._schedule.start_times:
+                if delays:
+                    # Checked when the source operation is scheduled
+                    continue
                 return False
 
+            if delays and not schedule_time:
+                continue
+
             available_time = (
                 self._schedule.start_times[source_op.graph_id]
-                + self._op_laps[source_op.graph_id] * schedule_time
+                + (self._op_laps[source_op.graph_id] - delays) * schedule_time
                 + cast(int, source_port.latency_offset)
             )
 
@@ -919,7 +951,9 @@ class ListScheduler(Scheduler):
         self._remaining_ops = [
             op_id
             for op_id in self._remaining_ops
-            if not isinstance(self._schedule._sfg.find_by_id(op_id), (Delay, DontCare))
+            if not isinstance(
+                self._schedule._sfg.find_by_id(op_id), (Delay, DontCare, Sink)
+            )
         ]
         self._remaining_ops = [
             op_id
@@ -948,9 +982,52 @@ class ListScheduler(Scheduler):
 
         self._current_time = 0
 
+    def _get_time_horizon(self) -> int:
+        """
+        Return a time after which no more operations become schedulable.
+
+        If nothing is scheduled up to this time, the constraints cannot be satisfied.
+        """
+        schedule_time = self._schedule._schedule_time or 0
+        end_time = 0
+        for op_id, start_time in self._schedule.start_times.items():
+            op = cast(Operation, self._schedule._sfg.find_by_id(op_id))
+            times = [cast(int, port.latency_offset) for port in op.outputs]
+            times.append(op.execution_time or 0)
+            start_time += self._op_laps.get(op_id, 0) * schedule_time
+            end_time = max(end_time, start_time + max(times))
+        return end_time + schedule_time + 1
+
+    def _validate_end_time(self, op: Operation) -> None:
+        """
+        Check that an operation ends within the schedule time, unless cyclic.
+
+        Parameters
+        ----------
+        op : Operation
+            Operation just placed.
+        """
+        if self._schedule._cyclic or not self._schedule._schedule_time:
+            return
+        end_time = self._current_time + max(
+            (cast(int, port.latency_offset) for port in op.outputs), default=0
+        )
+        if end_time > self._schedule._schedule_time:
+            raise ValueError(
+                f"Provided scheduling time {self._schedule._schedule_time} cannot be"
+                " reached, try to enable the cyclic property or increase the time or"
+                " resources."
+            )
+
     def _schedule_nonrecursive_ops(self) -> None:
         log.debug("Non-recursive operation scheduling starting")
+        horizon = self._get_time_horizon()
         while self._remaining_ops:
+            if self._current_time > horizon:
+                raise ValueError(
+                    "The constraints cannot be satisfied for operations:"
+                    f" {self._remaining_ops}."
+                )
             prio_table = self._get_priority_table(self._remaining_ops)
             while prio_table:
                 next_op_id = self._get_next_op_id(prio_table)
@@ -993,7 +1070,9 @@ class ListScheduler(Scheduler):
                     next_op.graph_id,
                     self._current_time,
                 )
+                self._validate_end_time(next_op)
 
+                horizon = max(self._current_time, self._get_time_horizon())
                 prio_table = self._get_priority_table(self._remaining_ops)
 
             self._current_time += 1
@@ -1107,6 +1186,10 @@ class RecursiveListScheduler(ListScheduler):
         self._validate_constraints()
         log.debug("Scheduling completed")
 
+    def _validate_end_time(self, op: Operation) -> None:
+        # The schedule time is changed later
+        pass
+
     def _get_recursive_ops(self, loops: list[list["GraphID"]]) -> list["GraphID"]:
         recursive_ops = []
         for loop in loops:
@@ -1425,19 +1508,6 @@ class ILPScheduler(Scheduler):
         X = pulp.LpVariable.dicts("X", (ops, time_slots), cat=pulp.LpBinary)
         R_used = pulp.LpVariable.dicts("R_used", op_types, cat=pulp.LpInteger)
 
-        # w - Stage difference between operations (i.e. number of Delays between)
-        W = {}
-        for op in ops:
-            tmp = {}
-            for input_port in op.inputs:
-                depth = 0
-                source_op = input_port.connected_source.operation
-                while isinstance(source_op, Delay):
-                    source_op = source_op.inputs[0].connected_source.operation
-                    depth += 1
-                tmp[source_op.graph_id] = depth
-            W[op.graph_id] = tmp
-
         # Minimize the amount of concurrent processes and I/O
         problem = pulp.LpProblem()
         problem += pulp.lpSum(R_used[op_type] for op_type in op_types)
@@ -1484,35 +1554,33 @@ class ILPScheduler(Scheduler):
                 source_op = source_port.operation
                 if isinstance(source_op, DontCare):
                     continue
+                delays = 0
                 while isinstance(source_op, Delay):
                     source_port = source_op.inputs[0].connected_source
                     source_op = source_port.operation
-                a = set(
-                    range(
-                        LB[source_op.graph_id],
-                        UB[source_op.graph_id] + source_op.latency,
-                    )
-                )
-                b = set(
-                    range(
-                        LB[op.graph_id] + Ts * W[op.graph_id][source_op.graph_id],
-                        UB[op.graph_id] + Ts * W[op.graph_id][source_op.graph_id] + 1,
-                    )
-                )
-                for j in list(a & b):
+                    delays += 1
+                if isinstance(source_op, DontCare):
+                    continue
+                usage_offset = input_port.latency_offset + Ts * delays
+                available_offset = source_port.latency_offset
+                # The value must not be used at time j or earlier if it is available
+                # later than j
+                for j in range(
+                    LB[op.graph_id] + usage_offset,
+                    UB[source_op.graph_id] + available_offset,
+                ):
                     problem += (
                         pulp.lpSum(
                             X[source_op][j2]
                             for j2 in range(
-                                LB[source_op.graph_id] + input_port.latency_offset,
-                                UB[source_op.graph_id] + 1,
+                                LB[source_op.graph_id], UB[source_op.graph_id] + 1
                             )
-                            if j2 >= j - source_port.latency_offset + 1
+                            if j2 + available_offset > j
                         )
                         + pulp.lpSum(
                             X[op][j1]
                             for j1 in range(LB[op.graph_id], UB[op.graph_id] + 1)
-                            if j1 <= j - W[op.graph_id][source_op.graph_id] * Ts
+                            if j1 + usage_offset <= j
                         )
                         <= 1
                     )
@@ -1528,11 +1596,24 @@ class ILPScheduler(Scheduler):
                     schedule.start_times[op.graph_id] = time
                     break
 
-        self._handle_utility_operations()
         schedule.remove_delays()
-
-        if self._max_time is not None and self._max_time > Ts:
+        wrap = self._max_time is not None and self._max_time > Ts
+        if wrap:
             schedule._schedule_time = self._max_time
+        # The results may be available in the next schedule period
+        for op in ops:
+            for output_port in op.outputs:
+                available_time = (
+                    schedule.start_times[op.graph_id] + output_port.latency_offset
+                )
+                if available_time > schedule._schedule_time:
+                    for signal in schedule._sfg.find_by_id(op.graph_id).output(
+                        output_port.index
+                    ).signals:
+                        schedule._laps[signal.graph_id] -= 1
+        self._handle_utility_operations()
+
+        if wrap:
             diff = self._max_time - Ts
             # Move operations ahead in time so that they wrap
             for time in reversed(range(Ts, self._max_time + 1)):
-- 
2.43.0


From 9e92d39bbeba190708575daf78dbc62023b252a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:45 +0000
Subject: [PATCH 041/129] fix: keep the function when pipelining in the
 recursive list scheduler

All signals crossing the pipelining cut must be pipelined and the schedule
period that operations are placed in must be considered. Also, outputs that are
not connected and Sink operations are supported.
---
 lib/b_asic/schedule.py  |  10 ++--
 lib/b_asic/scheduler.py | 113 +++++++++++++++++++++++++++++++---------
 2 files changed, 95 insertions(+), 28 deletions(-)

diff --git a/lib/b_asic/schedule.py b/lib/b_asic/schedule.py
index 14e7bbc..547696c 100644
--- a/lib/b_asic/schedule.py
+++ b/lib/b_asic/schedule.py
@@ -879,11 +879,15 @@ class Schedule:
                     laps -= 1
             self._laps[input_port.signals[0].graph_id] = laps
 
-        # update laps of outputs connected to delays
+        # update laps of outputs connected to delays and already placed operations
         for output_port in op.outputs:
             for signal in output_port.signals:
-                if isinstance(signal.destination_operation, Delay):
-                    laps = -current_lap
+                destination_op = signal.destination_operation
+                destination_id = destination_op.graph_id
+                if isinstance(destination_op, Delay) or (
+                    destination_id in self._start_times
+                ):
+                    laps = op_laps.get(destination_id, 0) - current_lap
                     if start + cast(int, output_port.latency_offset) > (
                         self.schedule_time
                     ):
diff --git a/lib/b_asic/scheduler.py b/lib/b_asic/scheduler.py
index 5e638dc..4ff0845 100644
--- a/lib/b_asic/scheduler.py
+++ b/lib/b_asic/scheduler.py
@@ -1129,7 +1129,12 @@ class RecursiveListScheduler(ListScheduler):
         If the y-location should be sorted based on start time of operations.
     """
 
-    __slots__ = ("_recursive_ops", "_recursive_ops_set", "_remaining_recursive_ops")
+    __slots__ = (
+        "_pipeline_stages",
+        "_recursive_ops",
+        "_recursive_ops_set",
+        "_remaining_recursive_ops",
+    )
 
     def __init__(
         self,
@@ -1160,6 +1165,7 @@ class RecursiveListScheduler(ListScheduler):
             ]
             self._remaining_ops_set = set(self._remaining_ops)
 
+        self._pipeline_stages = defaultdict(int)
         loops = self._schedule._sfg.loops
         if loops:
             log.debug("Scheduling recursive operations")
@@ -1174,11 +1180,14 @@ class RecursiveListScheduler(ListScheduler):
         if self._schedule._schedule_time is None:
             self._schedule.set_schedule_time(self._schedule.get_max_end_time())
         period_bound = self._schedule._sfg.iteration_period_bound()
+        if loops:
+            self._update_pipelined_laps()
         self._schedule.remove_delays()
         if loops:
             if int(period_bound) != period_bound:
                 log.warning("Rational iteration period bound: %d", period_bound)
             log.debug("Retiming operations")
+            self._handle_utility_operations()
             self._retime_ops(math.ceil(period_bound))
         self._handle_utility_operations()
         if self._sort_y_location:
@@ -1250,6 +1259,8 @@ class RecursiveListScheduler(ListScheduler):
             # move all operations forward to the next valid step and check if period can be reduced
             for op_id in sorted_op_ids:
                 op = self._schedule._sfg.find_by_id(op_id)
+                if isinstance(op, (DontCare, Sink)):
+                    continue
                 if self._schedule.forward_slack(op_id):
                     delta = 1
                     delta_start_time = self._schedule._start_times[op_id] + delta
@@ -1372,41 +1383,93 @@ class RecursiveListScheduler(ListScheduler):
         sorted_table = sorted(priority_table, key=lambda row: row[1])
         return cast(Operation, self._schedule._sfg.find_by_id(sorted_table[0][0]))
 
-    def _pipeline_input_to_recursive_sections(self) -> None:
-        for op_id in self._recursive_ops:
-            op = cast(Operation, self._schedule._sfg.find_by_id(op_id))
-            for input_port in op.inputs:
-                signal = input_port.signals[0]
-                source_op = cast(OutputPort, signal.source).operation
-                if (
-                    not isinstance(source_op, Delay)
-                    and source_op.graph_id not in self._recursive_ops_set
-                ):
-                    # non-recursive to recursive edge found -> pipeline
-                    self._schedule.laps[signal.graph_id] += 1
+    def _get_dependent_ops(self, op_id: "GraphID") -> set["GraphID"]:
+        """
+        Return an operation and all operations depending on it.
+
+        Parameters
+        ----------
+        op_id : GraphID
+            The operation.
+        """
+        dependent_ops = {op_id}
+        remaining_ops = [op_id]
+        while remaining_ops:
+            op = cast(Operation, self._schedule._sfg.find_by_id(remaining_ops.pop()))
+            for signal in op.output_signals:
+                destination_id = cast(InputPort, signal.destination).operation.graph_id
+                if destination_id not in dependent_ops:
+                    dependent_ops.add(destination_id)
+                    remaining_ops.append(destination_id)
+        return dependent_ops
+
+    def _pipeline_input_to_recursive_section(
+        self, op_id: "GraphID", recursive_op_id: "GraphID"
+    ) -> bool:
+        """
+        Add a pipeline stage before a recursive operation and all depending operations.
+
+        Parameters
+        ----------
+        op_id : GraphID
+            The operation that should be before the pipeline stage.
+        recursive_op_id : GraphID
+            The operation that should be after the pipeline stage.
+
+        Returns
+        -------
+        bool
+            If it was possible to add a pipeline stage.
+        """
+        dependent_ops = self._get_dependent_ops(recursive_op_id)
+        if op_id in dependent_ops:
+            return False
+        for dependent_op_id in dependent_ops:
+            self._pipeline_stages[dependent_op_id] += 1
+        return True
+
+    def _update_pipelined_laps(self) -> None:
+        """Update the laps based on the added pipeline stages."""
+        for op in self._schedule._sfg.operations:
+            for signal in op.input_signals:
+                source_id = cast(OutputPort, signal.source).operation.graph_id
+                self._schedule.laps[signal.graph_id] += (
+                    self._pipeline_stages[op.graph_id]
+                    - self._pipeline_stages[source_id]
+                )
 
     def _op_satisfies_data_dependencies(
         self, op: Operation, schedule_time: int
     ) -> bool:
-        for output_port in op.outputs:
-            destination_port = cast(InputPort, output_port.signals[0].destination)
-            destination_op = destination_port.operation
+        for signal in op.output_signals:
+            destination_op = cast(InputPort, signal.destination).operation
             if destination_op.graph_id not in self._remaining_ops_set:
                 if isinstance(destination_op, (Delay, Output, Sink)):
                     continue
                 # spotted a recursive operation -> check if ok
                 op_available_time = self._current_time + cast(
-                    int, output_port.latency_offset
+                    int, cast(OutputPort, signal.source).latency_offset
                 )
-                usage_time = (
-                    self._schedule.start_times[destination_op.graph_id]
-                    + schedule_time
-                    * self._schedule.laps[output_port.signals[0].graph_id]
+                start_time = self._schedule.start_times[destination_op.graph_id]
+                laps = self._schedule.laps[signal.graph_id] - (
+                    self._pipeline_stages[op.graph_id]
                 )
-                if op_available_time > usage_time:
-                    # constraint is not okay, move all recursive operations one lap by pipelining
-                    # across the non-recursive to recursive edge
-                    self._pipeline_input_to_recursive_sections()
+                # Compensate for that the laps are reduced when the operation is placed
+                if schedule_time > 0:
+                    laps -= self._current_time // schedule_time
+                # If the constraint is not okay, move the recursive operations one lap by
+                # pipelining across the non-recursive to recursive edge
+                while (
+                    schedule_time > 0
+                    and op_available_time
+                    > start_time
+                    + schedule_time
+                    * (laps + self._pipeline_stages[destination_op.graph_id])
+                    and self._pipeline_input_to_recursive_section(
+                        op.graph_id, destination_op.graph_id
+                    )
+                ):
+                    pass
 
         for op_input in op.inputs:
             source_port = cast(OutputPort, op_input.signals[0].source)
-- 
2.43.0


From d4969b50b1c1692f623941f8c5b4169a4cc590c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:34 +0000
Subject: [PATCH 042/129] fix: keep the function when changing latencies in a
 schedule

The laps must be updated when a result becomes available in another schedule
period and the latencies are only changed if all signals are still causal.
---
 lib/b_asic/schedule.py | 86 +++++++++++++++++++++++++++++-------------
 1 file changed, 60 insertions(+), 26 deletions(-)

diff --git a/lib/b_asic/schedule.py b/lib/b_asic/schedule.py
index 547696c..4767691 100644
--- a/lib/b_asic/schedule.py
+++ b/lib/b_asic/schedule.py
@@ -719,20 +719,14 @@ class Schedule:
         latency : int
             The latency of the operation.
         """
-        passed = True
-        for op in self._sfg.operations:
-            if type_name in (op.type_name(), op.graph_id):
-                change_in_latency = latency - op.latency
-                if change_in_latency > (self.forward_slack(op.graph_id)):
-                    passed = False
-                    raise ValueError(
-                        f"Cannot increase latency for {op.graph_id}. Try increasing forward slack time by rescheduling."
-                    )
-                    break
-        if change_in_latency < 0 or passed:
-            for op in self._sfg.operations:
-                if type_name in (op.type_name(), op.graph_id):
-                    cast(Operation, op).set_latency(latency)
+        self._set_latency(
+            [
+                op
+                for op in self._sfg.operations
+                if type_name in (op.type_name(), op.graph_id)
+            ],
+            latency,
+        )
 
     def set_latency_of_type(
         self, operation_type: type[Operation], latency: int
@@ -747,20 +741,60 @@ class Schedule:
         latency : int
             The latency of the operation.
         """
-        passed = True
+        self._set_latency(
+            [op for op in self._sfg.operations if isinstance(op, operation_type)],
+            latency,
+        )
+
+    def _set_latency(self, operations: list[Operation], latency: int) -> None:
+        """
+        Set the latency of operations without changing the function of the schedule.
+
+        Parameters
+        ----------
+        operations : list of Operation
+            The operations to change.
+        latency : int
+            The latency of the operations.
+        """
+        new_laps = {}
         for op in self._sfg.operations:
-            if isinstance(op, operation_type):
-                change_in_latency = latency - op.latency
-                if change_in_latency > (self.forward_slack(op.graph_id)):
-                    passed = False
-                    raise ValueError(
-                        f"Cannot increase latency for {op.graph_id}. Try increasing forward slack time by rescheduling."
+            for port in op.outputs:
+                old_available = self._start_times[op.graph_id] + port.latency_offset
+                new_available = self._start_times[op.graph_id] + (
+                    latency if op in operations else port.latency_offset
+                )
+                for signal in port.signals:
+                    destination = cast(InputPort, signal.destination)
+                    destination_op = destination.operation
+                    if op not in operations and destination_op not in operations:
+                        continue
+                    # The number of delays must not change
+                    delays = self._laps[signal.graph_id] + (
+                        old_available > self._schedule_time
+                    )
+                    new_laps[signal.graph_id] = delays - (
+                        new_available > self._schedule_time
                     )
-                    break
-        if change_in_latency < 0 or passed:
-            for op in self._sfg.operations:
-                if isinstance(op, operation_type):
-                    cast(Operation, op).set_latency(latency)
+                    new_usage = (
+                        self._start_times[destination_op.graph_id]
+                        + self._schedule_time * delays
+                    )
+                    if destination_op not in operations:
+                        new_usage += cast(int, destination.latency_offset)
+                    if new_usage < new_available and not isinstance(op, DontCare):
+                        if op in operations:
+                            raise ValueError(
+                                f"Cannot increase latency for {op.graph_id}. Try"
+                                " increasing forward slack time by rescheduling."
+                            )
+                        raise ValueError(
+                            f"Cannot set latency for {destination_op.graph_id}. Try"
+                            " increasing backward slack time by rescheduling."
+                        )
+        for op in operations:
+            op.set_latency(latency)
+        self._laps.update(new_laps)
 
     def move_y_location(
         self, graph_id: GraphID, new_y: int, insert: bool = False
-- 
2.43.0


From dc15e574d6fd679fc02a1553de090841bc0b818e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:19 +0000
Subject: [PATCH 043/129] fix: moving operations connected to delays during
 scheduling

---
 lib/b_asic/schedule.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/b_asic/schedule.py b/lib/b_asic/schedule.py
index 4767691..62109fa 100644
--- a/lib/b_asic/schedule.py
+++ b/lib/b_asic/schedule.py
@@ -1036,6 +1036,9 @@ class Schedule:
                     # The value is arbitrary, so the iteration is as well
                     new_laps[signal.graph_id] = max(new_laps[signal.graph_id], 0)
                     continue
+                if isinstance(source.operation, Delay):
+                    # Not yet removed, so the total number of delays is not known
+                    continue
                 source_id = source.operation.graph_id
                 start = moves.get(source_id, (self._start_times[source_id],))[0]
                 available_time = start + cast(int, source.latency_offset)
-- 
2.43.0


From 492e477e596a0a7eda4c0e8a932d14e20d659539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:56 +0000
Subject: [PATCH 044/129] fix: Schedule.print_slacks accepts a type name as
 documented

---
 lib/b_asic/schedule.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/b_asic/schedule.py b/lib/b_asic/schedule.py
index 62109fa..2623012 100644
--- a/lib/b_asic/schedule.py
+++ b/lib/b_asic/schedule.py
@@ -461,7 +461,13 @@ class Schedule:
             operations = self._sfg.operations
         else:
             operations = [
-                op for op in self._sfg.operations if isinstance(op, type_name)
+                op
+                for op in self._sfg.operations
+                if (
+                    isinstance(op, type_name)
+                    if isinstance(type_name, type)
+                    else op.type_name() == type_name
+                )
             ]
 
         res: list[tuple[GraphID, int, int]] = [
-- 
2.43.0


From 8126193553ab3e5006f183559e01882a1152b054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:56 +0000
Subject: [PATCH 045/129] fix: rotating a cyclic schedule is not refused when
 an output can only be placed at the start

---
 lib/b_asic/schedule.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/lib/b_asic/schedule.py b/lib/b_asic/schedule.py
index 2623012..db3ae5d 100644
--- a/lib/b_asic/schedule.py
+++ b/lib/b_asic/schedule.py
@@ -1158,9 +1158,21 @@ class Schedule:
         for graph_id, start_time in self._start_times.items():
             op = cast(Operation, self._sfg.find_by_id(graph_id))
             new_start = (start_time + time) % self._schedule_time
-            # Outputs are placed at the end rather than at the start of the schedule
+            # Outputs are placed at the end rather than at the start of the schedule,
+            # unless the value is produced at the start of the schedule
             if new_start == 0 and isinstance(op, (Output, Sink)):
-                new_start = self._schedule_time
+                signal = op.input(0).signals[0]
+                source = cast(OutputPort, signal.source)
+                source_start = self._start_times[source.operation.graph_id]
+                available_time = source_start + cast(int, source.latency_offset)
+                delays = (
+                    self._laps[signal.graph_id]
+                    + (available_time > self._schedule_time)
+                    + (start_time + time) // self._schedule_time
+                    - (source_start + time) // self._schedule_time
+                )
+                if delays > 0:
+                    new_start = self._schedule_time
             moves[graph_id] = (new_start, time)
         self._update_laps(moves)
 
-- 
2.43.0


From 748e2658164eba6f8452e785168702b9131fe4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:56 +0000
Subject: [PATCH 046/129] fix: processing_element_bound is zero when no process
 is active

---
 lib/b_asic/resources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/b_asic/resources.py b/lib/b_asic/resources.py
index 43376b1..4518e8e 100644
--- a/lib/b_asic/resources.py
+++ b/lib/b_asic/resources.py
@@ -2623,7 +2623,7 @@ class ProcessCollection:
         int
             The maximum number of concurrent executions times.
         """
-        return max(self.total_execution_times().values())
+        return max(self.total_execution_times().values(), default=0)
 
     def read_ports_bound(self) -> int:
         """
-- 
2.43.0


From 9bb5a862ccf71827c9e051ece27d60e136c9764d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:53 +0000
Subject: [PATCH 047/129] fix: count port accesses per cycle, including those
 of the process itself, when splitting on ports

---
 lib/b_asic/resources.py | 51 ++++++++++++++++++++++++++---------------
 1 file changed, 33 insertions(+), 18 deletions(-)

diff --git a/lib/b_asic/resources.py b/lib/b_asic/resources.py
index 4518e8e..ba5d1c7 100644
--- a/lib/b_asic/resources.py
+++ b/lib/b_asic/resources.py
@@ -1256,6 +1256,18 @@ class ProcessCollection:
         if set(self.collection) != set(sequence):
             raise KeyError("processes in `sequence` must be equal to processes in self")
 
+        for process in sequence:
+            # Variables with no lifetime do not have to be stored
+            if process.execution_time and any(
+                max(accesses.values()) > ports
+                for accesses, ports in zip(
+                    self._count_port_accesses(process),
+                    (write_ports, read_ports, total_ports),
+                    strict=True,
+                )
+            ):
+                raise ValueError(f"{process} needs more ports than available.")
+
         collections: list[ProcessCollection] = []
         for process in sequence:
             process_added = False
@@ -1431,26 +1443,29 @@ class ProcessCollection:
         read_ports: int,
         total_ports: int,
     ) -> bool:
-        # Test the number of concurrent write accesses
-        collection_writes = defaultdict(int, collection.write_port_accesses())
-        if collection_writes[proc.start_time] >= write_ports:
-            return True
-
-        # Test the number of concurrent read accesses
-        collection_reads = defaultdict(int, collection.read_port_accesses())
-        for proc_read_time in proc.read_times:
-            if collection_reads[proc_read_time % self.schedule_time] >= read_ports:
-                return True
-
-        # Test the number of total accesses
-        collection_total_accesses = defaultdict(
-            int, Counter(collection_writes) + Counter(collection_reads)
-        )
-        for access_time in [proc.start_time, *proc.read_times]:
-            if collection_total_accesses[access_time] >= total_ports:
-                return True
+        collection_writes = Counter(collection.write_port_accesses())
+        collection_reads = Counter(collection.read_port_accesses())
+        # Test the number of concurrent write, read, and total accesses
+        for accesses, collection_accesses, ports in zip(
+            self._count_port_accesses(proc),
+            (collection_writes, collection_reads, collection_writes + collection_reads),
+            (write_ports, read_ports, total_ports),
+            strict=True,
+        ):
+            for time, count in accesses.items():
+                used = collection_accesses[time]
+                if used and used + count > ports:
+                    return True
         return False
 
+    def _count_port_accesses(
+        self, proc: Process
+    ) -> tuple[Counter[int], Counter[int], Counter[int]]:
+        """Return the number of write, read, and total accesses at each time."""
+        writes = Counter([proc.start_time])
+        reads = Counter(read_time % self.schedule_time for read_time in proc.read_times)
+        return writes, reads, writes + Counter(proc.read_times)
+
     @staticmethod
     def _count_number_of_pes_read_from(
         processing_elements: list["ProcessingElement"],
-- 
2.43.0


From 9afc5a4a10e7472024883e380e07b8fc4d74a488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:53 +0000
Subject: [PATCH 048/129] fix: read and write ports were mixed up when
 assigning processes for minimal multiplexers

---
 lib/b_asic/resources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/b_asic/resources.py b/lib/b_asic/resources.py
index ba5d1c7..1dd32c2 100644
--- a/lib/b_asic/resources.py
+++ b/lib/b_asic/resources.py
@@ -1426,7 +1426,7 @@ class ProcessCollection:
         raise NotImplementedError
 
     def _get_process_fits_in_collection(
-        self, process, collections, write_ports, read_ports, total_ports
+        self, process, collections, read_ports, write_ports, total_ports
     ) -> list[bool]:
         return [
             not self._ports_collide(
-- 
2.43.0


From f9cacbbb8708770e82d4a724050ad6a53470cafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:53 +0000
Subject: [PATCH 049/129] fix: split_into_chains dropped direct reads of
 variables with other reads

---
 lib/b_asic/resources.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/b_asic/resources.py b/lib/b_asic/resources.py
index 1dd32c2..9c354df 100644
--- a/lib/b_asic/resources.py
+++ b/lib/b_asic/resources.py
@@ -2467,14 +2467,15 @@ class ProcessCollection:
             K = max((L - 1) // T for L in all_reads.values()) + 1
 
             # Build chain in reverse so relay MemoryInputPort targets already exist.
-            # Each window k covers lifetimes in the range (k*T, (k+1)*T].
+            # Each window k covers lifetimes in the range (k*T, (k+1)*T], where the
+            # first one includes direct reads, i.e., lifetime zero.
             chain: list[MemoryVariable] = []
             for k in range(K - 1, -1, -1):
                 write_time = (S + k * T) % self.schedule_time
                 reads_k: dict = {
                     port: L - k * T
                     for port, L in all_reads.items()
-                    if k == (L - 1) // T
+                    if k == max((L - 1) // T, 0)
                 }
                 if k < K - 1:
                     # chain[0] is chain[k+1] since we prepend each iteration
-- 
2.43.0


From 5760b62144f631b952851e90abc341b2e5c44a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:53 +0000
Subject: [PATCH 050/129] fix: exclusion_graph_from_ports reports variables
 read more than once in the same cycle

---
 lib/b_asic/resources.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/b_asic/resources.py b/lib/b_asic/resources.py
index 9c354df..5e174e7 100644
--- a/lib/b_asic/resources.py
+++ b/lib/b_asic/resources.py
@@ -864,6 +864,11 @@ class ProcessCollection:
             node1_stop_times = {
                 read_time % self.schedule_time for read_time in node1.read_times
             }
+            if len(node1_stop_times) < len(node1.read_times):
+                raise ValueError(
+                    f"{node1} is read more than once in the same cycle."
+                    " Call ProcessCollection.split_into_chains() first"
+                )
             node1_start_time = node1.start_time % self.schedule_time
             if total_ports == 1 and node1.start_time in node1_stop_times:
                 raise ValueError("Cannot read and write in same cycle.")
-- 
2.43.0


From fe77ccd7efa1d8003c9dd14df22c06eac37a02ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:53 +0000
Subject: [PATCH 051/129] fix: find the producing processing element by
 operation rather than by the name of the operation

---
 lib/b_asic/resources.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/b_asic/resources.py b/lib/b_asic/resources.py
index 5e174e7..858008a 100644
--- a/lib/b_asic/resources.py
+++ b/lib/b_asic/resources.py
@@ -124,7 +124,7 @@ def _get_source_port(var: MemoryVariable, pes: list["ProcessingElement"]) -> str
     port_index = int(next(split_var).split("_")[0])
     for pe in pes:
         for process in pe:
-            if var_name == process.name:
+            if var_name == process.operation.graph_id:
                 for output_port in process.operation.outputs:
                     if output_port.index == port_index:
                         return f"{pe.entity_name}.out.{output_port.index}"
@@ -1480,7 +1480,7 @@ class ProcessCollection:
         count = 0
         for pe in processing_elements:
             if any(
-                proc.name.split(".")[0] in collection_process_names
+                proc.operation.graph_id in collection_process_names
                 for proc in pe.collection
             ):
                 count += 1
-- 
2.43.0


From ff053a3a5ebcf77d0125410d26b12973e2944ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:40 +0000
Subject: [PATCH 052/129] fix: accept a single resource or an iterator in
 Architecture

---
 lib/b_asic/architecture.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/b_asic/architecture.py b/lib/b_asic/architecture.py
index 8d92e4d..0d28cd5 100644
--- a/lib/b_asic/architecture.py
+++ b/lib/b_asic/architecture.py
@@ -1025,19 +1025,19 @@ of :class:`~b_asic.architecture.ProcessingElement`
     ) -> None:
         super().__init__(entity_name)
 
-        pe_names = [pe._entity_name for pe in processing_elements]
-        if len(pe_names) != len(set(pe_names)):
-            raise ValueError("Entity names of processing elements needs to be unique.")
         self._processing_elements = (
             [processing_elements]
             if isinstance(processing_elements, ProcessingElement)
             else list(processing_elements)
         )
+        pe_names = [pe._entity_name for pe in self._processing_elements]
+        if len(pe_names) != len(set(pe_names)):
+            raise ValueError("Entity names of processing elements needs to be unique.")
 
-        mem_names = [mem._entity_name for mem in memories]
+        self._memories = [memories] if isinstance(memories, Memory) else list(memories)
+        mem_names = [mem._entity_name for mem in self._memories]
         if len(mem_names) != len(set(mem_names)):
             raise ValueError("Entity names of memories needs to be unique.")
-        self._memories = [memories] if isinstance(memories, Memory) else list(memories)
 
         self._direct_interconnects = direct_interconnects
 
-- 
2.43.0


From c3438fc95f0c071913c96c25e2f6fbc7d82aa6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:40 +0000
Subject: [PATCH 053/129] fix: leave resources unchanged when adding or moving
 a process fails

---
 lib/b_asic/architecture.py | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/lib/b_asic/architecture.py b/lib/b_asic/architecture.py
index 0d28cd5..1ca310e 100644
--- a/lib/b_asic/architecture.py
+++ b/lib/b_asic/architecture.py
@@ -488,11 +488,16 @@ class Resource(HardwareBlock, ABC):
             # operation_type is MemoryVariable or PlainMemoryVariable
             if not isinstance(proc, self.operation_type):
                 raise TypeError(f"{proc} not of type {self.operation_type}")
+        assignment = self._assignment
         self.collection.add_process(proc)
+        self._assignment = None
         if assign:
-            self.assign()
-        else:
-            self._assignment = None
+            try:
+                self.assign()
+            except ValueError:
+                self.collection.remove_process(proc)
+                self._assignment = assignment
+                raise
 
     def remove_process(self, proc: Process, assign: bool = False) -> None:
         """
@@ -1480,11 +1485,20 @@ of :class:`~b_asic.architecture.ProcessingElement`
             proc = source.collection.from_name(proc)
         proc = cast(Process, proc)
         # Move the process
-        if proc in source:
-            destination.add_process(proc, assign=assign)
-            source.remove_process(proc, assign=assign)
-        else:
+        if proc not in source:
             raise KeyError(f"{proc} not in {source.entity_name}")
+        assignments = (source._assignment, destination._assignment)
+        destination.add_process(proc)
+        source.remove_process(proc)
+        if assign:
+            try:
+                destination.assign()
+                source.assign()
+            except ValueError:
+                destination.remove_process(proc)
+                source.add_process(proc)
+                source._assignment, destination._assignment = assignments
+                raise
         self._build_dicts()
 
     def _get_digraph_colors(self, colored: bool) -> dict[str, str]:
-- 
2.43.0


From 66848dc198c049c2b6d52cf816c0f5b278fa1dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:40 +0000
Subject: [PATCH 054/129] fix: refuse operations with another latency in a
 processing element

---
 lib/b_asic/architecture.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lib/b_asic/architecture.py b/lib/b_asic/architecture.py
index 1ca310e..90f7e32 100644
--- a/lib/b_asic/architecture.py
+++ b/lib/b_asic/architecture.py
@@ -583,6 +583,18 @@ class ProcessingElement(Resource):
         if assign:
             self.assign()
 
+    def add_process(self, proc: Process, assign: bool = False) -> None:
+        # docstring inherited
+        if (
+            isinstance(proc, OperatorProcess)
+            and isinstance(proc.operation, self.operation_type)
+            and proc.operation.latency != self._latency
+        ):
+            raise ValueError(
+                f"{proc} has not the same latency as {self.entity_name}"
+            )
+        super().add_process(proc, assign=assign)
+
     @property
     def processes(self) -> list[OperatorProcess]:
         return [cast(OperatorProcess, p) for p in self._collection]
-- 
2.43.0


From 22035b65c38a00ed2bcd5cc1aa933c7be4d91bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:40 +0000
Subject: [PATCH 055/129] fix: refuse adding resources with another schedule
 time or a used name

---
 lib/b_asic/architecture.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/b_asic/architecture.py b/lib/b_asic/architecture.py
index 90f7e32..31bb276 100644
--- a/lib/b_asic/architecture.py
+++ b/lib/b_asic/architecture.py
@@ -1409,13 +1409,21 @@ of :class:`~b_asic.architecture.ProcessingElement`
             The resource to add.
         """
         if isinstance(resource, Memory):
-            self.memories.append(resource)
+            resources = self.memories
         elif isinstance(resource, ProcessingElement):
-            self.processing_elements.append(resource)
+            resources = self.processing_elements
         else:
             raise ValueError(
                 "Provided resource must be a Memory or a ProcessingElement"
             )
+        if resource.schedule_time != self.schedule_time:
+            raise ValueError(
+                f"Different schedule times: {resource.schedule_time} and"
+                f" {self.schedule_time}"
+            )
+        if any(r._entity_name == resource._entity_name for r in resources):
+            raise ValueError(f"Entity name {resource.entity_name} is already used.")
+        resources.append(resource)
 
     def remove_resource(
         self,
-- 
2.43.0


From 737bec44884fe3ee72e8dd5430ceb8a6235b1ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:40 +0000
Subject: [PATCH 056/129] fix: refuse too few resources for greedy graph
 coloring

---
 lib/b_asic/resource_assigner.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/b_asic/resource_assigner.py b/lib/b_asic/resource_assigner.py
index 29251d2..61dbe84 100644
--- a/lib/b_asic/resource_assigner.py
+++ b/lib/b_asic/resource_assigner.py
@@ -260,6 +260,11 @@ def _split_operations_and_variables(
             coloring = nx.coloring.greedy_color(
                 pe_ex_graph, strategy="saturation_largest_first"
             )
+            if max(coloring.values()) >= max_pes[op_type_name]:
+                raise ValueError(
+                    f"{max_pes[op_type_name]} processing elements are not enough for"
+                    f" {op_type_name}, use another method."
+                )
             pe_x[op_type_name] = {
                 node: {
                     color: 1 if color == node_color else 0
@@ -270,6 +275,8 @@ def _split_operations_and_variables(
         mem_coloring = nx.coloring.greedy_color(
             mem_exclusion_graph, strategy="saturation_largest_first"
         )
+        if max(mem_coloring.values(), default=-1) >= max_mems:
+            raise ValueError(f"{max_mems} memories are not enough, use another method.")
         mem_x = {
             node: {color: 1 if color == node_color else 0 for color in range(max_mems)}
             for node, node_color in mem_coloring.items()
-- 
2.43.0


From 07ab8395b2e597491da81953802558b4164facbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:40 +0000
Subject: [PATCH 057/129] fix: allow ILP coloring without memory variables

---
 lib/b_asic/resource_assigner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/b_asic/resource_assigner.py b/lib/b_asic/resource_assigner.py
index 61dbe84..2f84c46 100644
--- a/lib/b_asic/resource_assigner.py
+++ b/lib/b_asic/resource_assigner.py
@@ -365,7 +365,7 @@ def _ilp_coloring(
     for node in mem_graph_nodes:
         for color in range(max_mems):
             problem += mem_x[node][color] <= mem_c[color]
-    max_clique = next(nx.find_cliques(mem_exclusion_graph))
+    max_clique = next(nx.find_cliques(mem_exclusion_graph), [])
     for color, node in enumerate(max_clique):
         problem += mem_x[node][color] == mem_c[color] == 1
     for color in range(max_mems):
-- 
2.43.0


From d9a11ef1accb1dff1f5b3313033d08b362230314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:40 +0000
Subject: [PATCH 058/129] fix: raise an error for infeasible resource
 assignment problems

---
 lib/b_asic/resource_assigner.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/b_asic/resource_assigner.py b/lib/b_asic/resource_assigner.py
index 2f84c46..2557c03 100644
--- a/lib/b_asic/resource_assigner.py
+++ b/lib/b_asic/resource_assigner.py
@@ -1094,7 +1094,11 @@ def _solve_ilp_problem(
     finally:
         _restore_interrupted_recovery(problem, solver, recovery_state)
 
-    if _has_feasible_solution(problem):
+    if not interrupted and status not in (LpStatusOptimal, LpStatusNotSolved):
+        raise ValueError("Solution could not be found via ILP, use another method.")
+
+    # All variables may be fixed, in which case there are no values to look at
+    if status == LpStatusOptimal or _has_feasible_solution(problem):
         if interrupted or status == LpStatusNotSolved:
             log.warning("Using best feasible ILP solution found before solver stopped.")
         return
@@ -1104,9 +1108,6 @@ def _solve_ilp_problem(
             "No feasible ILP solution was found before the solver stopped."
         )
 
-    if status not in (LpStatusOptimal, LpStatusNotSolved):
-        raise ValueError("Solution could not be found via ILP, use another method.")
-
     raise ValueError("No feasible ILP solution was found before the solver stopped.")
 
 
-- 
2.43.0


From 67f525ad10e4f91b050a9d700243c2f4f393a04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:40 +0000
Subject: [PATCH 059/129] fix: consider the total number of memory ports in ILP
 assignment

---
 lib/b_asic/resource_assigner.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lib/b_asic/resource_assigner.py b/lib/b_asic/resource_assigner.py
index 2557c03..4f1d2b8 100644
--- a/lib/b_asic/resource_assigner.py
+++ b/lib/b_asic/resource_assigner.py
@@ -252,6 +252,7 @@ def _split_operations_and_variables(
             solver,
             pe_greedy_colorings,
             mem_greedy_coloring,
+            memory_total_ports,
         )
     elif strategy == "greedy_graph_color":
         pe_x = {}
@@ -468,6 +469,7 @@ def _ilp_min_mux(
     solver: LpSolver | None = None,
     pe_warm_start: dict[TypeName, dict] | None = None,
     mem_warm_start: dict | None = None,
+    memory_total_ports: int | None = None,
 ) -> tuple[dict, dict]:
     pe_in_cnt = {
         op_type_name: op.input_count
@@ -729,7 +731,7 @@ def _ilp_min_mux(
     Ts = mem_vars.schedule_time
     for var in mem_vars:
         mem_writes_in_time[var.start_time % Ts].append(var)
-        for rt in var.read_times:
+        for rt in set(var.read_times):
             mem_reads_in_time[rt % Ts].append(var)
 
     # procs_in_time[op_type][t] gives the list of processes of type op_type active at time t
@@ -748,6 +750,14 @@ def _ilp_min_mux(
             if len(vars_at_t) > 1:
                 for mem_idx in range(max_mems):
                     problem += lpSum(mem_x[var][mem_idx] for var in vars_at_t) <= 1
+        # At most the total number of accesses per memory per time slot
+        vars_at_t = mem_writes_in_time[t] + mem_reads_in_time[t]
+        if memory_total_ports is not None and len(vars_at_t) > memory_total_ports:
+            for mem_idx in range(max_mems):
+                problem += (
+                    lpSum(mem_x[var][mem_idx] for var in vars_at_t)
+                    <= memory_total_ports
+                )
         # At most one process per PE per time slot
         for op_type_name in op_groups:
             procs_at_t = procs_in_time[op_type_name][t]
-- 
2.43.0


From 0dcffec58c08c8ca7f5f6df4a1707635533e450b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:40 +0000
Subject: [PATCH 060/129] fix: handle variables read in the cycle they are
 written and later

---
 lib/b_asic/resources.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/b_asic/resources.py b/lib/b_asic/resources.py
index 858008a..932c928 100644
--- a/lib/b_asic/resources.py
+++ b/lib/b_asic/resources.py
@@ -307,7 +307,8 @@ class _ForwardBackwardTable:
             self.table[mv.start_time].inputs.append(mv)
             if mv.execution_time:
                 self.table[(mv.start_time + 1) % collection.schedule_time].regs[0] = mv
-            else:
+            if mv.start_time in mv.read_times:
+                # Read in the same time slot as it is written
                 self.table[mv.start_time].outputs.append(mv)
                 self.table[mv.start_time].outputs_from = -1
 
-- 
2.43.0


From 0e2c37240c0eb95ab22c6fa895f4c94d353d7252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:40 +0000
Subject: [PATCH 061/129] fix: keep real_valued when copying
 ReciprocalSquareRoot

---
 lib/b_asic/core_operations.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/b_asic/core_operations.py b/lib/b_asic/core_operations.py
index 93d415d..b809a84 100644
--- a/lib/b_asic/core_operations.py
+++ b/lib/b_asic/core_operations.py
@@ -2182,17 +2182,22 @@ class ReciprocalSquareRoot(AbstractOperation):
             latency_offsets=latency_offsets,
             execution_time=execution_time,
         )
-        self._real_valued = real_valued
+        self.set_param("real_valued", real_valued)
 
     @classmethod
     def type_name(cls) -> TypeName:
         return TypeName("recsqrt")
 
+    @property
+    def real_valued(self) -> bool | None:
+        """Get whether the operand is taken as real-valued."""
+        return self.param("real_valued")
+
     def evaluate(self, a, data_type=None) -> Num:
         if isinstance(a, numbers.Real):
             res = float("inf") if a == 0 else float(a) ** (-0.5)
         else:
-            operand = complex(a).real if self._real_valued else complex(a)
+            operand = complex(a).real if self.real_valued else complex(a)
             res = float("inf") if operand == 0 else operand ** (-0.5)
         return self._cast_to_data_type(res, data_type)
 
-- 
2.43.0


From cf097ffb14629e077a0815f847ea8784fc650645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:40 +0000
Subject: [PATCH 062/129] fix: save and load everything in SFGs and schedules

---
 lib/b_asic/save_load_structure.py | 107 ++++++++++++++++++++++--------
 1 file changed, 80 insertions(+), 27 deletions(-)

diff --git a/lib/b_asic/save_load_structure.py b/lib/b_asic/save_load_structure.py
index 60a0d08..d72af52 100644
--- a/lib/b_asic/save_load_structure.py
+++ b/lib/b_asic/save_load_structure.py
@@ -7,17 +7,49 @@ stored as files.
 
 from datetime import datetime
 from inspect import signature
+from keyword import iskeyword
 from pathlib import Path
 from typing import cast
 
+import numpy as np
+
 from b_asic.graph_component import GraphComponent
+from b_asic.operation import Operation
 from b_asic.port import InputPort
 from b_asic.schedule import Schedule
 from b_asic.sfg import SFG
+from b_asic.signal import Signal
+
+
+def _to_python(value) -> str:
+    """Return an expression giving *value*, with NumPy scalars as Python numbers."""
+    if isinstance(value, np.generic):
+        value = value.item()
+    if isinstance(value, (tuple, list)):
+        left, right = "()" if isinstance(value, tuple) else "[]"
+        return left + "".join(f"{_to_python(v)}, " for v in value) + right
+    if isinstance(value, dict):
+        items = ", ".join(
+            f"{_to_python(k)}: {_to_python(v)}" for k, v in value.items()
+        )
+        return "{" + items + "}"
+    return repr(value)
+
+
+def _sfg_variable(sfg: SFG) -> str:
+    """Return the name of the variable holding *sfg* in the serialized form."""
+    name = sfg.name.replace(" ", "_").replace("-", "_")
+    if not name.isidentifier() or iskeyword(name) or name in ("prop", "positions", "Schedule"):
+        return "sfg"
+    return name
 
 
 def sfg_to_python(
-    sfg: SFG, counter: int = 0, suffix: str | None = None, schedule: bool = False
+    sfg: SFG,
+    counter: int = 0,
+    suffix: str | None = None,
+    schedule: bool = False,
+    variable: str | None = None,
 ) -> str:
     """
     Given an SFG structure try to serialize it for saving to a file.
@@ -32,6 +64,8 @@ def sfg_to_python(
         String to append at the end of the result.
     schedule : bool, default: False
         True if printing a schedule.
+    variable : str, optional
+        Name of the variable to hold the SFG. Determined from the name if not given.
     """
     if not isinstance(sfg, SFG):
         raise TypeError("An SFG must be provided")
@@ -42,7 +76,7 @@ def sfg_to_python(
         '\n"""\n'
         + f"B-ASIC automatically generated {_type} file.\n"
         + "Name: "
-        + f"{sfg.name}"
+        + ascii(sfg.name)[1:-1].replace('"', "'")
         + "\n"
         + "Last saved: "
         + f"{datetime.now()}"
@@ -59,19 +93,17 @@ def sfg_to_python(
     def kwarg_unpacker(comp: GraphComponent, params=None) -> str:
         if params is None:
             params_filtered = {
-                attr: getattr(comp, attr)
-                for attr in signature(comp.__init__).parameters
+                attr: parameter.default
+                for attr, parameter in signature(comp.__init__).parameters.items()
                 if attr != "latency" and hasattr(comp, attr)
             }
+            params = {attr: getattr(comp, attr) for attr in params_filtered}
+            # Only values that differ from the default are required
             params = {
-                attr: (
-                    getattr(comp, attr)
-                    if not isinstance(getattr(comp, attr), str)
-                    else f'"{getattr(comp, attr)}"'
-                )
-                for attr in params_filtered
+                k: v
+                for k, v in params.items()
+                if v is not None and v != params_filtered[k]
             }
-            params = {k: v for k, v in params.items() if v}
             if params.get("latency_offsets") is not None:
                 params["latency_offsets"] = {
                     k: v for k, v in params["latency_offsets"].items() if v is not None
@@ -79,7 +111,9 @@ def sfg_to_python(
                 if not params["latency_offsets"]:
                     del params["latency_offsets"]
 
-        return ", ".join([f"{param}={value}" for param, value in params.items()])
+        return ", ".join(
+            [f"{param}={_to_python(value)}" for param, value in params.items()]
+        )
 
     # No need to redefined I/Os
     io_ops = [*sfg.input_operations, *sfg.output_operations]
@@ -98,7 +132,10 @@ def sfg_to_python(
             continue
         if isinstance(operation, SFG):
             counter += 1
-            result = sfg_to_python(operation, counter) + result
+            # The variables of the nested SFG are redefined, so use a unique one for it
+            nested = f"{variable or ''}_{operation.graph_id}"
+            result = sfg_to_python(operation, counter, variable=nested) + result
+            result += f"{operation.graph_id} = {nested}\n"
             continue
 
         result += (
@@ -123,17 +160,30 @@ def sfg_to_python(
                 if connection in connections:
                     continue
 
-                result += connection
+                result += f"{signal.graph_id} = {connection}"
+                for attr in ("graph_id", "name"):
+                    if getattr(signal, attr):
+                        result += f"{signal.graph_id}.{attr} = {getattr(signal, attr)!r}\n"
+                if signal.bits is not None:
+                    result += f"{signal.graph_id}.bits = {signal.bits}\n"
                 connections.append(connection)
 
+    result += "\n# Graph IDs:\n"
+    for operation in sfg.operations:
+        result += f"{operation.graph_id}.graph_id = {operation.graph_id!r}\n"
+
     inputs = "[" + ", ".join(op.graph_id for op in sfg.input_operations) + "]"
     outputs = "[" + ", ".join(op.graph_id for op in sfg.output_operations) + "]"
-    sfg_name = sfg.name or (f"sfg{counter}" if counter > 0 else "sfg")
-    sfg_name_var = sfg_name.replace(" ", "_").replace("-", "_")
+    sfg_name_var = variable or _sfg_variable(sfg)
     result += "\n# Signal flow graph:\n"
     result += (
-        f"{sfg_name_var} = SFG(inputs={inputs}, outputs={outputs}, name='{sfg_name}')\n"
+        f"{sfg_name_var} = SFG(inputs={inputs}, outputs={outputs}, name={sfg.name!r})\n"
     )
+    latency_offsets = {k: v for k, v in sfg.latency_offsets.items() if v is not None}
+    if latency_offsets:
+        result += f"{sfg_name_var}.set_latency_offsets({latency_offsets})\n"
+    if sfg.execution_time is not None:
+        result += f"{sfg_name_var}.execution_time = {sfg.execution_time}\n"
     result += "\n# SFG Properties:\n" + "prop = {'name':" + f"{sfg_name_var}" + "}\n"
 
     if suffix is not None:
@@ -186,16 +236,19 @@ def schedule_to_python(schedule: Schedule) -> str:
     """
     if not isinstance(schedule, Schedule):
         raise TypeError("A Schedule must be provided")
-    sfg_name = (
-        schedule.sfg.name.replace(" ", "_").replace("-", "_")
-        if schedule.sfg.name
-        else "sfg"
-    )
+    sfg = schedule.sfg
+    sfg_name = _sfg_variable(sfg)
     result = "\n# Schedule:\n"
-    nonzerolaps = {gid: val for gid, val in dict(schedule.laps).items() if val}
+    # When loading, delays are removed keeping the signals connected to the destinations
+    nonzerolaps = {}
+    for gid, val in dict(schedule.laps).items():
+        port = cast(InputPort, cast(Signal, schedule._sfg.find_by_id(gid)).destination)
+        operation = cast(Operation, sfg.find_by_id(port.operation.graph_id))
+        if val:
+            nonzerolaps[operation.input(port.index).signals[0].graph_id] = val
     result += (
-        f"{sfg_name}_schedule = Schedule({sfg_name}, {schedule.schedule_time},"
-        f" {schedule.cyclic}, 'provided', {schedule.start_times},"
-        f" {nonzerolaps})\n"
+        f"{sfg_name}_schedule = Schedule({sfg_name},"
+        f" schedule_time={schedule.schedule_time}, cyclic={schedule.cyclic},"
+        f" start_times={schedule.start_times}, laps={nonzerolaps})\n"
     )
-    return sfg_to_python(schedule.sfg, schedule=True) + result
+    return sfg_to_python(sfg, schedule=True) + result
-- 
2.43.0


From 6215a9a5a3256e1a9137a66f8aaa9ea252285b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:40 +0000
Subject: [PATCH 063/129] fix: make the representation of signal generators
 evaluate to the same

---
 lib/b_asic/signal_generator.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/b_asic/signal_generator.py b/lib/b_asic/signal_generator.py
index f1c92e5..b551c01 100644
--- a/lib/b_asic/signal_generator.py
+++ b/lib/b_asic/signal_generator.py
@@ -148,6 +148,9 @@ class Constant(SignalGenerator):
     def __call__(self, time: int) -> complex:
         return self._constant
 
+    def __repr__(self) -> str:
+        return f"Constant({self._constant})"
+
     def __str__(self) -> str:
         return f"{self._constant}"
 
@@ -408,7 +411,12 @@ class _SubGenerator(SignalGenerator):
         return self._a(time) - self._b(time)
 
     def __repr__(self) -> str:
-        return f"{self._a} - {self._b}"
+        b = (
+            f"({self._b})"
+            if isinstance(self._b, (_AddGenerator, _SubGenerator))
+            else f"{self._b}"
+        )
+        return f"{self._a} - {b}"
 
 
 class _MulGenerator(SignalGenerator):
-- 
2.43.0


From 67fbf2eeef64f2585456328595f5a1c135d7241e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:40 +0000
Subject: [PATCH 064/129] fix: read files with a single value in FromFile

---
 lib/b_asic/signal_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/b_asic/signal_generator.py b/lib/b_asic/signal_generator.py
index b551c01..476d600 100644
--- a/lib/b_asic/signal_generator.py
+++ b/lib/b_asic/signal_generator.py
@@ -203,7 +203,7 @@ class FromFile(SignalGenerator):
 
     def __init__(self, path: str) -> None:
         self._path = path
-        data: list[Num] = np.loadtxt(path, dtype=complex).tolist()
+        data: list[Num] = np.loadtxt(path, dtype=complex, ndmin=1).tolist()
         self._data = data
         self._len = len(data)
 
-- 
2.43.0


From 17d796d462ba46171797c568197c606e5693fd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:40 +0000
Subject: [PATCH 065/129] fix: return the last outputs when no more iterations
 are simulated

---
 lib/b_asic/simulation.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/b_asic/simulation.py b/lib/b_asic/simulation.py
index bf5544e..f7fdc76 100644
--- a/lib/b_asic/simulation.py
+++ b/lib/b_asic/simulation.py
@@ -46,6 +46,7 @@ class Simulation:
     _results: MutableResultArrayMap
     _delays: MutableDelayMap
     _iteration: int
+    _last_outputs: list[Num]
     _input_functions: list[InputFunction]
     _input_length: int | None
     _data_type: DataType | None
@@ -65,6 +66,7 @@ class Simulation:
         self._results = defaultdict(list)
         self._delays = {}
         self._iteration = 0
+        self._last_outputs = []
         self._input_functions = [lambda _: 0 for _ in range(self._sfg.input_count)]
         self._input_length = None
         if input_providers is not None:
@@ -240,7 +242,11 @@ class Simulation:
                     self._results[key].append(value)
             self._iteration += 1
 
-        return [results[op.graph_id] for op in self._sfg.output_operations]
+            self._last_outputs = [
+                results[op.graph_id] for op in self._sfg.output_operations
+            ]
+
+        return self._last_outputs
 
     def run_for(self, iterations: int, save_results: bool = True) -> Sequence[Num]:
         """
-- 
2.43.0


From 7f19d0064c40f166d60a936526252a5011f391dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:40 +0000
Subject: [PATCH 066/129] fix: compute impulse responses from the SFG at rest,
 also with nested delays

---
 lib/b_asic/sfg.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/lib/b_asic/sfg.py b/lib/b_asic/sfg.py
index 2c4bab0..e27a4cb 100644
--- a/lib/b_asic/sfg.py
+++ b/lib/b_asic/sfg.py
@@ -2799,6 +2799,14 @@ class SFG(AbstractOperation):
                 return False
         return True
 
+    def _clear_initial_values(self) -> None:
+        """Set the initial value of all delays, also in nested SFGs, to zero."""
+        for op in self.operations:
+            if isinstance(op, Delay):
+                op.initial_value = 0
+            elif isinstance(op, SFG):
+                op._clear_initial_values()
+
     def get_impulse_responses(
         self, threshold: float = 1e-12, max_iters: int = -1, all_nodes: bool = False
     ) -> dict[str, list[npt.NDArray]]:
@@ -2903,16 +2911,19 @@ class SFG(AbstractOperation):
         if not self.is_linear:
             raise ValueError("SFG must be linear to compute impulse responses")
 
+        # The responses are those of the SFG at rest
+        sfg_at_rest = self()
+        sfg_at_rest._clear_initial_values()
+
         # For each source node, apply impulse and record responses at target nodes
         impulse_responses = {}
-        ops_to_check = self._output_operations + self.find_by_type(Delay)
         for source_op in source_nodes:
             # Create impulse inputs -- impulse on this source, zero on others
             impulse_inputs = [
                 Impulse() if inp_op == source_op else None
                 for inp_op in self.input_operations
             ]
-            sim = Simulation(self, impulse_inputs)
+            sim = Simulation(sfg_at_rest, impulse_inputs)
             # If the source is a delay, initialize its state to 1
             if isinstance(source_op, Delay):
                 sim._delays[source_op.graph_id] = 1
@@ -2927,8 +2938,8 @@ class SFG(AbstractOperation):
                 if iteration > 1:
                     all_decayed = all(
                         self._output_ports_decayed(op, sim, threshold)
-                        for op in ops_to_check
-                    )
+                        for op in self._output_operations
+                    ) and all(abs(val) <= threshold for val in sim._delays.values())
                     if all_decayed:
                         break
 
-- 
2.43.0


From e8c1eda8cd44ad51edcd92176b88f5de83be1942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:40 +0000
Subject: [PATCH 067/129] fix: support complex impulse responses in
 get_l2_norms

---
 lib/b_asic/sfg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/b_asic/sfg.py b/lib/b_asic/sfg.py
index e27a4cb..97a28dc 100644
--- a/lib/b_asic/sfg.py
+++ b/lib/b_asic/sfg.py
@@ -2894,7 +2894,7 @@ class SFG(AbstractOperation):
             threshold=threshold, max_iters=max_iters, all_nodes=all_nodes
         )
         return {
-            key: float(np.sqrt(sum(np.sum(h**2) for h in responses)))
+            key: float(np.sqrt(sum(np.sum(np.abs(h) ** 2) for h in responses)))
             for key, responses in impulse_responses.items()
         }
 
-- 
2.43.0


From c5f6e392655b5bc5325ffc4feaaf471efd2484c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:40 +0000
Subject: [PATCH 068/129] fix: give impulse responses from all outputs of an
 operation

---
 lib/b_asic/sfg.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/lib/b_asic/sfg.py b/lib/b_asic/sfg.py
index 97a28dc..4d4247c 100644
--- a/lib/b_asic/sfg.py
+++ b/lib/b_asic/sfg.py
@@ -2996,8 +2996,8 @@ class SFG(AbstractOperation):
         -------
         dict[str, dict[str, npt.NDArray]]
             Dictionary mapping each SFG output GraphID (e.g., "out0", "out1")
-            to a dictionary that maps operation GraphIDs to their corresponding
-            impulse responses.
+            to a dictionary that maps operation output port keys (e.g., "add1",
+            "bfly2.0") to their corresponding impulse responses.
         """
         from b_asic.core_operations import Addition  # noqa: PLC0415
         from b_asic.utility_operations import DontCare, Sink  # noqa: PLC0415
@@ -3011,6 +3011,7 @@ class SFG(AbstractOperation):
                 op
                 for op in sfg_copy.operations
                 if not isinstance(op, (Input, Output, DontCare, Sink, Delay))
+                and not op.is_constant
             ]
         else:
             nodes = [
@@ -3022,10 +3023,12 @@ class SFG(AbstractOperation):
         # For each operation that performs quantization, create noise sources
         # and adders to inject noise into its outputs
         noise_inputs = []
+        noise_keys = []
         for op in nodes:
             for output_idx in range(op.output_count):
                 noise_input = Input(name=f"noise_{op.graph_id}_out{output_idx}")
                 noise_inputs.append(noise_input)
+                noise_keys.append(op.key(output_idx, op.graph_id))
                 noise_adder = Addition(
                     src0=op.output(output_idx),
                     src1=noise_input,
@@ -3054,14 +3057,13 @@ class SFG(AbstractOperation):
         # Construct the noise gain dictionary with operation IDs
         noise_gains = {op.graph_id: {} for op in noise_sfg._output_operations}
 
-        # Map noise sources back to their original operations
-        for noise_source_op in noise_sfg_inputs[num_original_inputs:]:
-            noise_name = noise_source_op.name
-            op_graph_id = noise_name.replace("noise_", "").rsplit("_out", 1)[0]
-
+        # Map noise sources back to the output ports of the original operations
+        for noise_source_op, noise_key in zip(
+            noise_sfg_inputs[num_original_inputs:], noise_keys, strict=True
+        ):
             for output_op in noise_sfg._output_operations:
                 output_key = output_op.graph_id
                 response_key = (noise_source_op.graph_id, output_op.graph_id)
-                noise_gains[output_key][op_graph_id] = responses_dict[response_key]
+                noise_gains[output_key][noise_key] = responses_dict[response_key]
 
         return noise_gains
-- 
2.43.0


From 744b3c53b4c587febbe868a32113a0dccf956227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:40 +0000
Subject: [PATCH 069/129] fix: include delays of nested SFGs in the state-space
 representation

---
 lib/b_asic/state_space.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/b_asic/state_space.py b/lib/b_asic/state_space.py
index 605c897..8bacf49 100644
--- a/lib/b_asic/state_space.py
+++ b/lib/b_asic/state_space.py
@@ -77,6 +77,7 @@ class StateSpace:
         -------
         The State-space representation of the SFG.
         """
+        from b_asic.sfg import SFG  # noqa: PLC0415
         from b_asic.special_operations import Delay  # noqa: PLC0415
 
         if not sfg.is_linear:
@@ -84,6 +85,10 @@ class StateSpace:
                 "SFG must be linear to generate state-space representation"
             )
 
+        # Delays in nested SFGs are also states
+        if sfg.find_by_type(SFG):
+            sfg = sfg.flatten()
+
         delays = list(sfg.find_by_type(Delay))
         inputs = list(sfg.input_operations)
         outputs = list(sfg.output_operations)
-- 
2.43.0


From 8e26093ac875d4714c363a7fc4682fbded59025e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:40 +0000
Subject: [PATCH 070/129] fix: keep outputs apart in transfer functions without
 states

---
 lib/b_asic/state_space.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/b_asic/state_space.py b/lib/b_asic/state_space.py
index 8bacf49..fea364e 100644
--- a/lib/b_asic/state_space.py
+++ b/lib/b_asic/state_space.py
@@ -213,7 +213,7 @@ class StateSpace:
                 den = 1
 
             if (B_col.size == 0) and (self.C.size == 0):
-                num = np.ravel(D_col)
+                num = D_col.copy()
                 if (D_col.size == 0) and (self.A.size == 0):
                     den = []
             else:
-- 
2.43.0


From b9653678348f651ac786adaffaf7d686e35dd7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:40 +0000
Subject: [PATCH 071/129] fix: give the first non-zero coefficient as gain,
 also when complex

---
 lib/b_asic/transfer_function.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/lib/b_asic/transfer_function.py b/lib/b_asic/transfer_function.py
index 281eb9a..3b50696 100644
--- a/lib/b_asic/transfer_function.py
+++ b/lib/b_asic/transfer_function.py
@@ -128,10 +128,20 @@ class TransferFunction:
 
         return "\n".join(lines)
 
+    @staticmethod
+    def _gain(num: npt.NDArray, den0: complex) -> complex:
+        """Return the gain, i.e., the first non-zero numerator coefficient."""
+        nonzero = np.flatnonzero(num)
+        if nonzero.size == 0:
+            return 0.0
+        gain = num[nonzero[0]] / den0
+        return float(gain.real) if gain.imag == 0 else complex(gain)
+
     def zpk(
         self,
     ) -> dict[
-        str, tuple[npt.NDArray | list[npt.NDArray], npt.NDArray, float | list[float]]
+        str,
+        tuple[npt.NDArray | list[npt.NDArray], npt.NDArray, complex | list[complex]],
     ]:
         """
         Compute the zero-poles-gain model for each input.
@@ -150,13 +160,10 @@ class TransferFunction:
         for input_key, num in self.numerator.items():
             if num.ndim == 2:
                 zeros = [np.roots(num[k]) for k in range(num.shape[0])]
-                gains = [
-                    float(num[k, 0] / den0) if num.shape[1] > 0 else 0.0
-                    for k in range(num.shape[0])
-                ]
+                gains = [self._gain(num[k], den0) for k in range(num.shape[0])]
             else:
                 zeros = np.roots(num) if len(num) > 1 else np.array([], dtype=complex)
-                gains = float(num[0] / den0) if len(num) > 0 else 0.0
+                gains = self._gain(num, den0)
             result[input_key] = (zeros, poles, gains)
         return result
 
-- 
2.43.0


From 0946ff244cf2e66642d84133b75d7bb1c6692679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:17 +0000
Subject: [PATCH 072/129] fix: use the middle coefficient in symmetric FIR
 filters with an odd number of taps

---
 lib/b_asic/sfg_generators/digital_filters.py | 24 +++++++++++---------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/lib/b_asic/sfg_generators/digital_filters.py b/lib/b_asic/sfg_generators/digital_filters.py
index 28fcc7c..c614e3c 100644
--- a/lib/b_asic/sfg_generators/digital_filters.py
+++ b/lib/b_asic/sfg_generators/digital_filters.py
@@ -77,22 +77,24 @@ def fir(
             for i in range(taps // 2)
         ]
 
-        if taps == 1:
-            muls = [
-                ConstantMultiplication(coefficients[0], input_op, **mult_properties)
-            ]
-        else:
-            muls = [
+        muls = [
+            ConstantMultiplication(
+                np_coefficients[i], add_layer_1[i], **mult_properties
+            )
+            for i in range(taps // 2)
+        ]
+        if taps % 2:
+            # The middle tap has no counterpart to be added to
+            muls.append(
                 ConstantMultiplication(
-                    coefficients[i], add_layer_1[i], **mult_properties
+                    np_coefficients[taps // 2], delays[taps // 2], **mult_properties
                 )
-                for i in range(taps // 2)
-            ]
+            )
 
         previous_op = muls[0]
         add_layer_2 = []
-        for i in range(taps // 2 - 1):
-            add_layer_2.append(Addition(previous_op, muls[i + 1], **add_properties))
+        for mul in muls[1:]:
+            add_layer_2.append(Addition(previous_op, mul, **add_properties))
             previous_op = add_layer_2[-1]
 
         output <<= add_layer_2[-1] if add_layer_2 else muls[0]
-- 
2.43.0


From 47fcd14eb4682c3b8ca9fc89cb528e47891e237a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:17 +0000
Subject: [PATCH 073/129] fix: connect WDF allpass sections where only the
 first coefficient is zero

---
 lib/b_asic/sfg_generators/wave_digital_filters.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/b_asic/sfg_generators/wave_digital_filters.py b/lib/b_asic/sfg_generators/wave_digital_filters.py
index fdb85a3..3815021 100644
--- a/lib/b_asic/sfg_generators/wave_digital_filters.py
+++ b/lib/b_asic/sfg_generators/wave_digital_filters.py
@@ -127,9 +127,12 @@ def wdf_allpass(
                 latency_offsets=latency_offsets,
                 execution_time=execution_time,
             )
-            Signal(adaptor2.output(0), adaptor1.input(1))
             Signal(adaptor2.output(1), delay2)
-            signal_out = Signal(adaptor1.output(0))
+            if np_coefficients[idx1]:
+                Signal(adaptor2.output(0), adaptor1.input(1))
+                signal_out = Signal(adaptor1.output(0))
+            else:
+                signal_out = Signal(adaptor2.output(0))
         else:
             delay2 = Delay(delay1, name=_tname(idx2))
             if np_coefficients[idx1]:
-- 
2.43.0


From 3d5394e0705122370867dd1f6ca7e96f44158f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:17 +0000
Subject: [PATCH 074/129] fix: name the inputs of a matrix multiplication by
 row and column

---
 lib/b_asic/sfg_generators/matrix_operations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/b_asic/sfg_generators/matrix_operations.py b/lib/b_asic/sfg_generators/matrix_operations.py
index b335b99..9804fff 100644
--- a/lib/b_asic/sfg_generators/matrix_operations.py
+++ b/lib/b_asic/sfg_generators/matrix_operations.py
@@ -46,8 +46,8 @@ def matrix_multiplication(
     if mad_properties is None:
         mad_properties = {}
 
-    A = [[Input(f"A[{i},{j}]") for i in range(n)] for j in range(m)]
-    B = [[Input(f"B[{i},{j}]") for i in range(p)] for j in range(n)]
+    A = [[Input(f"A[{i},{j}]") for j in range(n)] for i in range(m)]
+    B = [[Input(f"B[{i},{j}]") for j in range(p)] for i in range(n)]
 
     C = []
     for i in range(m):
-- 
2.43.0


From cd95b0fbc9acec2d6687f27ff3de6bd956e65fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:17 +0000
Subject: [PATCH 075/129] fix: refuse an FFT of zero points

---
 lib/b_asic/sfg_generators/fft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/b_asic/sfg_generators/fft.py b/lib/b_asic/sfg_generators/fft.py
index 69120b5..aed462b 100644
--- a/lib/b_asic/sfg_generators/fft.py
+++ b/lib/b_asic/sfg_generators/fft.py
@@ -33,7 +33,7 @@ def radix_2_dif_fft(points: int) -> SFG:
     SFG
         Signal Flow Graph
     """
-    if points < 0:
+    if points <= 0:
         raise ValueError("Points must be positive number.")
     if points & (points - 1) != 0:
         raise ValueError("Points must be a power of two.")
-- 
2.43.0


From 7661a14d237fabab15c2453e334f1640849865f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:17 +0000
Subject: [PATCH 076/129] fix: alternate lattice WDF poles between the branches
 in order of angle and keep all real poles

---
 lib/b_asic/wdf/lattice.py | 45 +++++++++++++--------------------------
 1 file changed, 15 insertions(+), 30 deletions(-)

diff --git a/lib/b_asic/wdf/lattice.py b/lib/b_asic/wdf/lattice.py
index 2ac6552..a3eb150 100644
--- a/lib/b_asic/wdf/lattice.py
+++ b/lib/b_asic/wdf/lattice.py
@@ -28,36 +28,21 @@ def lattice_coeffs_from_tf(a: Sequence[float]) -> list[float]:
     np_a = np_a / np_a[0]
     poles = np.roots(np_a)
     real_poles = [p for p in poles if abs(p.imag) < 1e-10]
-    complex_pairs = [p for p in poles if p.imag > 1e-10]
-
-    def _sec(pole):
-        if abs(pole.imag) < 1e-10:
-            return [float(pole.real)]
-        return [-(abs(pole) ** 2), 2.0 * pole.real / (1.0 + abs(pole) ** 2)]
-
-    a_sections: list = []
-    b_sections: list = []
-    if real_poles:
-        a_sections.append(_sec(real_poles[0]))
-        for i, p in enumerate(complex_pairs):
-            (b_sections if i % 2 == 0 else a_sections).append(_sec(p))
-    else:
-        for i, p in enumerate(complex_pairs):
-            (a_sections if i % 2 == 0 else b_sections).append(_sec(p))
+    # The branches use every other pole, in order of the angle of the analog poles
+    complex_pairs = sorted(
+        (p for p in poles if p.imag > 1e-10),
+        key=lambda p: np.arctan2(2.0 * p.imag, 1.0 - abs(p) ** 2),
+    )
+
+    def _sec(pole1, pole2):
+        product = (pole1 * pole2).real
+        return [float(-product), float((pole1 + pole2).real / (1.0 + product))]
 
     coeffs: list = []
-    if real_poles:
-        coeffs.extend(a_sections[0])
-        a_rest = a_sections[1:]
-        for i in range(max(len(a_rest), len(b_sections))):
-            if i < len(b_sections):
-                coeffs.extend(b_sections[i])
-            if i < len(a_rest):
-                coeffs.extend(a_rest[i])
-    else:
-        for i in range(max(len(a_sections), len(b_sections))):
-            if i < len(a_sections):
-                coeffs.extend(a_sections[i])
-            if i < len(b_sections):
-                coeffs.extend(b_sections[i])
+    if len(real_poles) % 2:
+        coeffs.append(float(real_poles.pop(0).real))
+    for p in complex_pairs:
+        coeffs.extend(_sec(p, p.conjugate()))
+    for p1, p2 in zip(real_poles[::2], real_poles[1::2], strict=True):
+        coeffs.extend(_sec(p1, p2))
     return coeffs
-- 
2.43.0


From 5f02c545de87b6f3232ccd102188ee3edc8b22bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:24 +0000
Subject: [PATCH 077/129] fix: select memory in multiplexers only for variables
 read through that port

---
 lib/b_asic/code_printer/vhdl/top_level.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/b_asic/code_printer/vhdl/top_level.py b/lib/b_asic/code_printer/vhdl/top_level.py
index 656aa62..bff324d 100644
--- a/lib/b_asic/code_printer/vhdl/top_level.py
+++ b/lib/b_asic/code_printer/vhdl/top_level.py
@@ -138,6 +138,10 @@ def _collect_mux_info(arch: "Architecture") -> tuple[list[tuple], list[tuple]]:
                 input_latency = op_input_port.latency_offset or 0
                 for mem in arch.memories:
                     for var in mem.collection:
+                        # Only variables read by this very input port are sources,
+                        # other reads of the same port may be direct or from elsewhere
+                        if op_input_port not in var.read_ports:
+                            continue
                         read_times = [
                             time % arch.schedule_time for time in var.read_times
                         ]
-- 
2.43.0


From ad2ca76258633afac7974b4db11b07309addc9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:22 +0000
Subject: [PATCH 078/129] fix: hold all registers of the generated VHDL while
 enable is low

---
 lib/b_asic/code_printer/vhdl/memory_storage.py | 10 ++++++----
 .../code_printer/vhdl/register_storage.py      | 18 ++++++++++--------
 lib/b_asic/code_printer/vhdl/vhdl_printer.py   | 10 ++++++----
 3 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/lib/b_asic/code_printer/vhdl/memory_storage.py b/lib/b_asic/code_printer/vhdl/memory_storage.py
index da5c36c..38de233 100644
--- a/lib/b_asic/code_printer/vhdl/memory_storage.py
+++ b/lib/b_asic/code_printer/vhdl/memory_storage.py
@@ -278,10 +278,12 @@ def architecture(
                 write_time = p.start_time % schedule_time
             output_cases[write_time] = f"'{int(1 in p.reads.values())}'"
         common.synchronous_process_prologue(f, name="output_reg_proc")
-        common.write(f, 3, "if forward_ctrl = '1' then")
-        common.write(f, 4, "p_0_out_internal <= p_0_in_internal;")
-        common.write(f, 3, "else")
-        common.write(f, 4, "p_0_out_internal <= read_port_0;")
+        common.write(f, 3, "if en = '1' then")
+        common.write(f, 4, "if forward_ctrl = '1' then")
+        common.write(f, 5, "p_0_out_internal <= p_0_in_internal;")
+        common.write(f, 4, "else")
+        common.write(f, 5, "p_0_out_internal <= read_port_0;")
+        common.write(f, 4, "end if;")
         common.write(f, 3, "end if;")
         common.synchronous_process_epilogue(
             f,
diff --git a/lib/b_asic/code_printer/vhdl/register_storage.py b/lib/b_asic/code_printer/vhdl/register_storage.py
index ecb75ae..830957d 100644
--- a/lib/b_asic/code_printer/vhdl/register_storage.py
+++ b/lib/b_asic/code_printer/vhdl/register_storage.py
@@ -226,26 +226,28 @@ def architecture(
     common.write_lines(
         f,
         [
-            (3, "-- Default case"),
-            (3, "shift_reg(0) <= p_0_in;"),
+            (3, "if en = '1' then"),
+            (4, "-- Default case"),
+            (4, "shift_reg(0) <= p_0_in;"),
         ],
     )
     for reg_idx in range(1, reg_cnt):
-        common.write(f, 3, f"shift_reg({reg_idx}) <= shift_reg({reg_idx - 1});")
-    common.write(f, 3, "case back_edge_mux_sel is")
+        common.write(f, 4, f"shift_reg({reg_idx}) <= shift_reg({reg_idx - 1});")
+    common.write(f, 4, "case back_edge_mux_sel is")
     for edge, mux_sel in back_edge_table.items():
         common.write_lines(
             f,
             [
-                (4, f"when {mux_sel} =>"),
-                (5, f"shift_reg({edge[1]}) <= shift_reg({edge[0]});"),
+                (5, f"when {mux_sel} =>"),
+                (6, f"shift_reg({edge[1]}) <= shift_reg({edge[0]});"),
             ],
         )
     common.write_lines(
         f,
         [
-            (4, "when others => null;"),
-            (3, "end case;"),
+            (5, "when others => null;"),
+            (4, "end case;"),
+            (3, "end if;"),
         ],
     )
 
diff --git a/lib/b_asic/code_printer/vhdl/vhdl_printer.py b/lib/b_asic/code_printer/vhdl/vhdl_printer.py
index ca8da0e..af10dd8 100644
--- a/lib/b_asic/code_printer/vhdl/vhdl_printer.py
+++ b/lib/b_asic/code_printer/vhdl/vhdl_printer.py
@@ -1094,10 +1094,12 @@ class VhdlPrinter(Printer):
 
                 if pe._latency > 2:
                     common.synchronous_process_prologue(code)
-                    common.write(code, 3, "op_a_re_reg <= op_a_re;")
-                    common.write(code, 3, "op_b_re_reg <= op_b_re;")
-                    common.write(code, 3, "op_a_im_reg <= op_a_im;")
-                    common.write(code, 3, "op_b_im_reg <= op_b_im;")
+                    common.write(code, 3, "if en = '1' then")
+                    common.write(code, 4, "op_a_re_reg <= op_a_re;")
+                    common.write(code, 4, "op_b_re_reg <= op_b_re;")
+                    common.write(code, 4, "op_a_im_reg <= op_a_im;")
+                    common.write(code, 4, "op_b_im_reg <= op_b_im;")
+                    common.write(code, 3, "end if;")
                     common.synchronous_process_epilogue(code)
 
         max_coeff_wl = max(real_entry.wl[0], imag_entry.wl[0] if imag_entry != 0 else 0)
-- 
2.43.0


From 25bad684537a7a55995884ab1c1e475434bec05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:46 +0000
Subject: [PATCH 079/129] fix: multiply by real constants of complex type in
 the generated VHDL

---
 lib/b_asic/code_printer/vhdl/vhdl_printer.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/lib/b_asic/code_printer/vhdl/vhdl_printer.py b/lib/b_asic/code_printer/vhdl/vhdl_printer.py
index af10dd8..e1e9444 100644
--- a/lib/b_asic/code_printer/vhdl/vhdl_printer.py
+++ b/lib/b_asic/code_printer/vhdl/vhdl_printer.py
@@ -933,10 +933,7 @@ class VhdlPrinter(Printer):
     ) -> tuple[str, str]:
         declarations, code = io.StringIO(), io.StringIO()
 
-        is_real = any(
-            p.operation.value.imag == 0 and p.operation.value.real != 0
-            for p in pe.collection
-        )
+        is_real = any(p.operation.value.imag == 0 for p in pe.collection)
         is_imag = any(
             p.operation.value.real == 0 and p.operation.value.imag != 0
             for p in pe.collection
@@ -1024,8 +1021,9 @@ class VhdlPrinter(Printer):
             )
 
             if is_real and not is_imag:
-                mul_statement("res_arith_0_re", "a", "value", extend_real, real_entry)
-                mul_statement("res_arith_0_im", "b", "value", extend_real, real_entry)
+                name = "value" if "value" in control_table else "value_real"
+                mul_statement("res_arith_0_re", "a", name, extend_real, real_entry)
+                mul_statement("res_arith_0_im", "b", name, extend_real, real_entry)
 
             elif is_imag and not is_real:
                 # (a + jb) * (j*c) = -bc + j*ac
-- 
2.43.0


From 85dddf6e6de3feabde6897bb86c3eba22438e12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:46 +0000
Subject: [PATCH 080/129] fix: time the coefficient of symmetric two-port
 adaptors with more than four input registers

---
 lib/b_asic/code_printer/vhdl/vhdl_printer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/b_asic/code_printer/vhdl/vhdl_printer.py b/lib/b_asic/code_printer/vhdl/vhdl_printer.py
index e1e9444..6be8564 100644
--- a/lib/b_asic/code_printer/vhdl/vhdl_printer.py
+++ b/lib/b_asic/code_printer/vhdl/vhdl_printer.py
@@ -1179,7 +1179,10 @@ class VhdlPrinter(Printer):
             self._register_split = (n_in - n_consumed, n_out)
 
         if pipeline_after_sub:
-            self._pe_control_cycle.setdefault(pe.entity_name, {}).setdefault("value", 2)
+            # One cycle after the remaining input registers
+            self._pe_control_cycle.setdefault(pe.entity_name, {}).setdefault(
+                "value", n_in - 2
+            )
 
         add_res_type = f"{self.type_name}({self.bits + value_bits} downto 0)"
 
-- 
2.43.0


From c00791c0754b1a4e4ee8eabc8a4649d7ebcda753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:46 +0000
Subject: [PATCH 081/129] fix: avoid intermediate overflow in generated complex
 multiplications

---
 lib/b_asic/code_printer/vhdl/vhdl_printer.py | 37 ++++++++++++++------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/lib/b_asic/code_printer/vhdl/vhdl_printer.py b/lib/b_asic/code_printer/vhdl/vhdl_printer.py
index 6be8564..652fc04 100644
--- a/lib/b_asic/code_printer/vhdl/vhdl_printer.py
+++ b/lib/b_asic/code_printer/vhdl/vhdl_printer.py
@@ -1003,8 +1003,11 @@ class VhdlPrinter(Printer):
         # Multiplication logic
         if is_complex:
             common.signal_declaration(declarations, "ac, bc, ad, bd", res_type)
+            # One more bit as two products are added
             common.signal_declaration(
-                declarations, "res_arith_0_re, res_arith_0_im", res_type
+                declarations,
+                "res_arith_0_re, res_arith_0_im",
+                self.get_scalar_type(res_bits + 1),
             )
 
             mul_statement("ac", "a", "value_real", extend_real, real_entry)
@@ -1012,8 +1015,12 @@ class VhdlPrinter(Printer):
             mul_statement("ad", "a", "value_imag", extend_imag, imag_entry)
             mul_statement("bd", "b", "value_imag", extend_imag, imag_entry)
 
-            common.write(code, 1, "res_arith_0_re <= ac - bd;")
-            common.write(code, 1, "res_arith_0_im <= ad + bc;")
+            common.write(
+                code, 1, "res_arith_0_re <= resize(ac, res_arith_0_re'length) - bd;"
+            )
+            common.write(
+                code, 1, "res_arith_0_im <= resize(ad, res_arith_0_im'length) + bc;"
+            )
 
         else:
             common.signal_declaration(
@@ -1042,13 +1049,14 @@ class VhdlPrinter(Printer):
                 )
 
                 max_coeff_bits = max(real_coeff_bits, imag_coeff_bits)
-                mul_res_type = signed_type(self.bits + max_coeff_bits)
-
-                # op_a signals should be sized to data width, op_b to coefficient width
+                # op_a signals should be sized to data width (plus one bit as the
+                # input may be negated), op_b to coefficient width
+                op_a_bits = self.bits + 1
+                mul_res_type = signed_type(op_a_bits + max_coeff_bits)
                 common.signal_declaration(
                     declarations,
                     "op_a_re, op_a_re_reg, op_a_im, op_a_im_reg",
-                    self.scalar_type_str,
+                    signed_type(op_a_bits),
                 )
                 common.signal_declaration(
                     declarations,
@@ -1062,7 +1070,7 @@ class VhdlPrinter(Printer):
                 common.write(
                     code,
                     1,
-                    "op_a_re <= resize(a, op_a_re'length) when is_real = '1' else resize(-b, op_a_re'length);",
+                    "op_a_re <= resize(a, op_a_re'length) when is_real = '1' else -resize(b, op_a_re'length);",
                 )
                 common.write(
                     code,
@@ -1087,8 +1095,12 @@ class VhdlPrinter(Printer):
                     common.write(code, 1, "res_re <= op_a_re * op_b_re;")
                     common.write(code, 1, "res_im <= op_a_im * op_b_im;")
 
-                common.write(code, 1, "res_arith_0_re <= res_re;")
-                common.write(code, 1, "res_arith_0_im <= res_im;")
+                common.write(
+                    code, 1, "res_arith_0_re <= resize(res_re, res_arith_0_re'length);"
+                )
+                common.write(
+                    code, 1, "res_arith_0_im <= resize(res_im, res_arith_0_im'length);"
+                )
 
                 if pe._latency > 2:
                     common.synchronous_process_prologue(code)
@@ -1105,7 +1117,10 @@ class VhdlPrinter(Printer):
 
         wls = [
             (
-                self.int_bits + max_coeff_wl + (1 if extend_real or extend_imag else 0),
+                self.int_bits
+                + max_coeff_wl
+                + (1 if extend_real or extend_imag else 0)
+                + (1 if is_complex else 0),
                 self.frac_bits + max_frac_wl,
             )
         ]
-- 
2.43.0


From 6543d4da431a78783b6a8ba323b389a595297d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:46 +0000
Subject: [PATCH 082/129] fix: align data and coefficients in pipelined complex
 multiplications

---
 lib/b_asic/code_printer/vhdl/vhdl_printer.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/lib/b_asic/code_printer/vhdl/vhdl_printer.py b/lib/b_asic/code_printer/vhdl/vhdl_printer.py
index 652fc04..750c8ba 100644
--- a/lib/b_asic/code_printer/vhdl/vhdl_printer.py
+++ b/lib/b_asic/code_printer/vhdl/vhdl_printer.py
@@ -976,13 +976,13 @@ class VhdlPrinter(Printer):
 
         common.signal_declaration(declarations, "a, b", self.scalar_type_str)
 
-        if pe._latency > 2 and not is_complex and is_real and is_imag:
-            # Handle a special case where pipelining is done in the middle
-            common.write(code, 1, f"a <= p_0_in_reg_{pe._latency - 3}.re;")
-            common.write(code, 1, f"b <= p_0_in_reg_{pe._latency - 3}.im;")
-        else:
-            common.write(code, 1, "a <= op_0.re;")
-            common.write(code, 1, "b <= op_0.im;")
+        # Handle a special case where pipelining is done in the middle
+        n_in, n_out = self._register_split
+        pipeline_in_middle = n_in >= 2 and not is_complex and is_real and is_imag
+        if pipeline_in_middle:
+            self._register_split = (n_in - 1, n_out)
+        common.write(code, 1, "a <= op_0.re;")
+        common.write(code, 1, "b <= op_0.im;")
 
         def mul_statement(
             res: str, op: str, value: str, extend: bool, value_entry
@@ -1088,7 +1088,7 @@ class VhdlPrinter(Printer):
                     f"op_b_im <= resize({value_real_str}, op_b_im'length) when is_real = '1' else resize({value_imag_str}, op_b_im'length);",
                 )
 
-                if pe._latency > 2:
+                if pipeline_in_middle:
                     common.write(code, 1, "res_re <= op_a_re_reg * op_b_re_reg;")
                     common.write(code, 1, "res_im <= op_a_im_reg * op_b_im_reg;")
                 else:
@@ -1102,7 +1102,7 @@ class VhdlPrinter(Printer):
                     code, 1, "res_arith_0_im <= resize(res_im, res_arith_0_im'length);"
                 )
 
-                if pe._latency > 2:
+                if pipeline_in_middle:
                     common.synchronous_process_prologue(code)
                     common.write(code, 3, "if en = '1' then")
                     common.write(code, 4, "op_a_re_reg <= op_a_re;")
-- 
2.43.0


From 23d86cec1b7b52b43e277142920137d6249d73fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:05 +0000
Subject: [PATCH 083/129] fix: initialise the input registers of the generated
 VHDL

---
 lib/b_asic/code_printer/vhdl/top_level.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/b_asic/code_printer/vhdl/top_level.py b/lib/b_asic/code_printer/vhdl/top_level.py
index bff324d..6053ac0 100644
--- a/lib/b_asic/code_printer/vhdl/top_level.py
+++ b/lib/b_asic/code_printer/vhdl/top_level.py
@@ -517,7 +517,9 @@ def _write_io_register_signal_declarations(
                     signal_name = port_parts[0].strip()
                     signal_type = ":".join(port_parts[1:]).strip()
                     signal_type = signal_type.replace("in ", "").replace("out ", "")
-                    common.signal_declaration(f, signal_name, signal_type)
+                    common.signal_declaration(
+                        f, signal_name, signal_type, default_value="(others => '0')"
+                    )
 
     # Pipelined outputs
     if output_register:
-- 
2.43.0


From e8b56ac8d6e65acaabacd7a887b7c44ef4d2495a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:06 +0000
Subject: [PATCH 084/129] fix: convert to the output word length also for
 complex and wider outputs in generated VHDL

---
 lib/b_asic/code_printer/vhdl/vhdl_printer.py | 61 +++++++++++++++-----
 1 file changed, 45 insertions(+), 16 deletions(-)

diff --git a/lib/b_asic/code_printer/vhdl/vhdl_printer.py b/lib/b_asic/code_printer/vhdl/vhdl_printer.py
index 750c8ba..2fc3f0f 100644
--- a/lib/b_asic/code_printer/vhdl/vhdl_printer.py
+++ b/lib/b_asic/code_printer/vhdl/vhdl_printer.py
@@ -474,29 +474,57 @@ class VhdlPrinter(Printer):
         )
         return [self._dt.wl], (declarations.getvalue(), code.getvalue())
 
+    def _align_output(self) -> tuple[int, int, int]:
+        """
+        Get how to extend a number to cover the output word length.
+
+        Returns
+        -------
+        The number of integer bits, the total number of bits before adding fractional
+        bits, and the number of fractional bits to add.
+        """
+        int_bits = max(self.int_bits, self._dt.output_wl[0])
+        return (
+            int_bits,
+            int_bits + self.frac_bits,
+            max(0, self._dt.output_wl[1] - self.frac_bits),
+        )
+
     def print_Output_fixed_point_real(self, pe: "ProcessingElement") -> tuple[str, str]:
         declarations, code = io.StringIO(), io.StringIO()
-        common.signal_declaration(declarations, "res_arith_0", self._dt.type_str)
-        common.write(code, 1, "res_arith_0 <= op_0;")
+        int_bits, bits, zeros = self._align_output()
+        frac_bits = self.frac_bits + zeros
+        common.signal_declaration(
+            declarations,
+            "res_arith_0",
+            f"{self.type_name}({int_bits + frac_bits - 1} downto 0)",
+        )
+        op = f"resize(op_0, {bits})" if bits > self.bits else "op_0"
+        pad = f' & "{"0" * zeros}"' if zeros else ""
+        common.write(code, 1, f"res_arith_0 <= {op}{pad};")
         common.write(code, 1, "p_0_out <= std_logic_vector(res_overflow_0);")
-        wls = [(self._dt.wl[0], self._dt.wl[1])]
-        return wls, (declarations.getvalue(), code.getvalue())
+        return [(int_bits, frac_bits)], (declarations.getvalue(), code.getvalue())
 
     def print_Output_fixed_point_complex(
         self, pe: "ProcessingElement"
     ) -> tuple[str, str]:
         declarations, code = io.StringIO(), io.StringIO()
+        int_bits, bits, zeros = self._align_output()
+        frac_bits = self.frac_bits + zeros
         common.signal_declaration(
             declarations,
             "res_arith_0_re, res_arith_0_im",
-            self.get_scalar_type(self.bits),
-        )
-        common.write(code, 1, "res_arith_0_re <= op_0.re;")
-        common.write(code, 1, "res_arith_0_im <= op_0.im;")
-        common.write(code, 1, "p_0_out_re <= std_logic_vector(res_overflow_0.re);")
-        common.write(code, 1, "p_0_out_im <= std_logic_vector(res_overflow_0.im);")
-        wls = [(self._dt.wl[0], self._dt.wl[1])]
-        return wls, (declarations.getvalue(), code.getvalue())
+            self.get_scalar_type(int_bits + frac_bits),
+        )
+        pad = f' & "{"0" * zeros}"' if zeros else ""
+        for part in ("re", "im"):
+            op = f"op_0.{part}"
+            if bits > self.bits:
+                op = f"resize({op}, {bits})"
+            common.write(code, 1, f"res_arith_0_{part} <= {op}{pad};")
+        common.write(code, 1, "p_0_out_re <= std_logic_vector(res_overflow_0_re);")
+        common.write(code, 1, "p_0_out_im <= std_logic_vector(res_overflow_0_im);")
+        return [(int_bits, frac_bits)], (declarations.getvalue(), code.getvalue())
 
     def print_DontCare(self, pe: "ProcessingElement") -> tuple[str, str]:
         declarations, code = io.StringIO(), io.StringIO()
@@ -1898,9 +1926,10 @@ class VhdlPrinter(Printer):
                 f"res_overflow_{port_number}_re, res_overflow_{port_number}_im",
                 f"{self.get_scalar_type(target_bits)}",
             )
-            common.signal_declaration(
-                declarations, f"res_overflow_{port_number}", self.type_str
-            )
+            if not is_output:
+                common.signal_declaration(
+                    declarations, f"res_overflow_{port_number}", self.type_str
+                )
         else:
             common.signal_declaration(
                 declarations,
@@ -1990,7 +2019,7 @@ class VhdlPrinter(Printer):
             raise NotImplementedError(
                 f"Overflow mode {self._dt.overflow_mode.name} not implemented for VHDL"
             )
-        if self.is_complex:
+        if self.is_complex and not is_output:
             # Combine real and imaginary parts into output signal with type complex
             common.write(
                 code,
-- 
2.43.0


From 162151022dfeb115e4ed9469cf49ab043fd136b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:06 +0000
Subject: [PATCH 085/129] fix: align the binary points of product and addend in
 generated VHDL for MADS

---
 lib/b_asic/code_printer/vhdl/vhdl_printer.py | 25 +++++++-------------
 1 file changed, 8 insertions(+), 17 deletions(-)

diff --git a/lib/b_asic/code_printer/vhdl/vhdl_printer.py b/lib/b_asic/code_printer/vhdl/vhdl_printer.py
index 2fc3f0f..4d5268b 100644
--- a/lib/b_asic/code_printer/vhdl/vhdl_printer.py
+++ b/lib/b_asic/code_printer/vhdl/vhdl_printer.py
@@ -1159,43 +1159,34 @@ class VhdlPrinter(Printer):
         declarations, code = io.StringIO(), io.StringIO()
 
         mul_res_bits = 2 * self.bits
+        res_bits = mul_res_bits + 1
         common.signal_declaration(
             declarations,
             "mul_res",
             f"{self.type_name}({mul_res_bits - 1} downto 0)",
         )
-        common.signal_declaration(declarations, "mul_res_quant", self.type_str)
         common.signal_declaration(
-            declarations, "op_b", f"{self.type_name}({mul_res_bits} downto 0)"
+            declarations, "op_a", f"{self.type_name}({res_bits - 1} downto 0)"
         )
         common.signal_declaration(
-            declarations, "tmp_res", f"{self.type_name}({mul_res_bits + 1} downto 0)"
+            declarations, "res_arith_0", f"{self.type_name}({res_bits - 1} downto 0)"
         )
-        common.signal_declaration(
-            declarations, "add_res", f"{self.type_name}({mul_res_bits} downto 0)"
-        )
-        common.signal_declaration(declarations, "res_arith_0", self.type_str)
 
         common.write(code, 1, "mul_res <= op_1 * op_2;")
+        # The product has twice as many fractional bits
+        zeros = "0" * self.frac_bits
         common.write(
             code,
             1,
-            f"mul_res_quant <= resize(mul_res, {self.bits});",
+            f'op_a <= resize(op_0 & "{zeros}", {res_bits}) when do_addsub = \'1\' else (others => \'0\');',
         )
         common.write(
             code,
             1,
-            f"op_b <= resize(mul_res, {mul_res_bits + 1}) when is_add = '1' else not resize(mul_res, {mul_res_bits + 1});",
-        )
-        common.write(code, 1, "tmp_res <= (op_0 & '1') + (op_b & not is_add);")
-        common.write(code, 1, f"add_res <= tmp_res({mul_res_bits + 1} downto 1);")
-        common.write(
-            code,
-            1,
-            "res_arith_0 <= resize(add_res, res_arith_0'length) when do_addsub = '1' else mul_res_quant;",
+            "res_arith_0 <= op_a + mul_res when is_add = '1' else op_a - mul_res;",
         )
 
-        wls = [self._dt.wl]
+        wls = [(2 * self.int_bits + 1, 2 * self.frac_bits)]
         return wls, (declarations.getvalue(), code.getvalue())
 
     def print_SymmetricTwoportAdaptor_fixed_point_real(
-- 
2.43.0


From 3e4ad45bc49778b615641c9c53c387444a1bde02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:50 +0000
Subject: [PATCH 086/129] fix: initialise the pipeline registers in generated
 complex multiplications

---
 lib/b_asic/code_printer/vhdl/vhdl_printer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/b_asic/code_printer/vhdl/vhdl_printer.py b/lib/b_asic/code_printer/vhdl/vhdl_printer.py
index 4d5268b..a656a95 100644
--- a/lib/b_asic/code_printer/vhdl/vhdl_printer.py
+++ b/lib/b_asic/code_printer/vhdl/vhdl_printer.py
@@ -1085,11 +1085,13 @@ class VhdlPrinter(Printer):
                     declarations,
                     "op_a_re, op_a_re_reg, op_a_im, op_a_im_reg",
                     signed_type(op_a_bits),
+                    default_value="(others => '0')",
                 )
                 common.signal_declaration(
                     declarations,
                     "op_b_re, op_b_re_reg, op_b_im, op_b_im_reg",
                     signed_type(max_coeff_bits),
+                    default_value="(others => '0')",
                 )
                 common.signal_declaration(declarations, "res_re, res_im", mul_res_type)
                 common.signal_declaration(declarations, "is_real", "std_logic")
-- 
2.43.0


From 163460bbd2f845e1831443923e4dbbfc47dbb8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:15 +0000
Subject: [PATCH 087/129] fix: delay the schedule with the inputs also for
 designs without enable pin

---
 lib/b_asic/code_printer/vhdl/top_level.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/lib/b_asic/code_printer/vhdl/top_level.py b/lib/b_asic/code_printer/vhdl/top_level.py
index 6053ac0..62cfc07 100644
--- a/lib/b_asic/code_printer/vhdl/top_level.py
+++ b/lib/b_asic/code_printer/vhdl/top_level.py
@@ -63,6 +63,7 @@ def architecture(
         en_sig = "en_internal"
     else:
         en_sig = "en"
+    rst_sig = "rst_internal" if input_register and not enable_pin else "rst"
     common.write(f, 0, f"architecture rtl of {arch.entity_name} is")
 
     common.write(f, 1, "-- Component declaration")
@@ -100,7 +101,7 @@ def architecture(
     for mem in arch.memories:
         mem.write_component_instantiation(f, en_sig=en_sig)
 
-    _write_schedule_counter(f, arch, en_sig, enable_pin)
+    _write_schedule_counter(f, arch, en_sig, enable_pin, rst_sig)
 
     # Generate control signals for multiplexers and then connect the top-level
     _write_mux_control_signals(
@@ -459,6 +460,7 @@ def _write_schedule_counter(
     arch: "Architecture",
     en_sig: str = "en",
     enable_pin: bool = True,
+    rst_sig: str = "rst",
 ) -> None:
     common.write(f, 1, "-- Schedule counter")
     common.synchronous_process_prologue(f, name="schedule_cnt_proc")
@@ -466,7 +468,7 @@ def _write_schedule_counter(
         common.write_lines(
             f,
             [
-                (3, "if rst = '1' then"),
+                (3, f"if {rst_sig} = '1' then"),
                 (4, "schedule_cnt <= (others => '0');"),
                 (3, f"elsif {en_sig} = '1' then"),
                 (4, f"if schedule_cnt = {arch.schedule_time - 1} then"),
@@ -481,7 +483,7 @@ def _write_schedule_counter(
         common.write_lines(
             f,
             [
-                (3, "if rst = '1' then"),
+                (3, f"if {rst_sig} = '1' then"),
                 (4, "schedule_cnt <= (others => '0');"),
                 (3, "else"),
                 (4, f"if schedule_cnt = {arch.schedule_time - 1} then"),
@@ -507,6 +509,8 @@ def _write_io_register_signal_declarations(
     common.write(f, 1, "-- Internal signals for pipelined I/O")
     if enable_pin and input_register:
         common.signal_declaration(f, "en_internal", "std_logic")
+    elif input_register:
+        common.signal_declaration(f, "rst_internal", "std_logic")
 
     # Pipelined inputs
     if input_register:
@@ -550,6 +554,12 @@ def _write_io_registers(
         common.write(f, 3, "en_internal <= en;")
         common.synchronous_process_epilogue(f, name="en_reg_proc", clk="clk")
         common.blank(f)
+    elif input_register:
+        # Without enable, the reset decides where the schedule starts
+        common.synchronous_process_prologue(f, name="rst_reg_proc")
+        common.write(f, 3, "rst_internal <= rst;")
+        common.synchronous_process_epilogue(f, name="rst_reg_proc", clk="clk")
+        common.blank(f)
 
     # Pipelining of inputs
     input_pes = [pe for pe in arch.processing_elements if pe.operation_type == Input]
-- 
2.43.0


From e2f9924695185804eb19d0b4959ced2aa3042cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:24 +0000
Subject: [PATCH 088/129] fix: check outputs depending on inputs in the same
 cycle in VHDL test benches

---
 lib/b_asic/tb_printer/vhdl/vhdl_tb_printer.py | 20 +++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/lib/b_asic/tb_printer/vhdl/vhdl_tb_printer.py b/lib/b_asic/tb_printer/vhdl/vhdl_tb_printer.py
index 8c578de..7015681 100644
--- a/lib/b_asic/tb_printer/vhdl/vhdl_tb_printer.py
+++ b/lib/b_asic/tb_printer/vhdl/vhdl_tb_printer.py
@@ -302,7 +302,18 @@ class VhdlTbPrinter:
             if cycle in seq_map:
                 step = seq_map[cycle]
 
-                # Check outputs first, then drive inputs
+                # Drive inputs first, then check outputs, as these may depend on inputs
+                # in the same cycle
+                for signal_name, (bits_val, _) in step.items():
+                    if signal_name in input_signal_names:
+                        bits = dt.input_bits
+                        lines.append(
+                            f'        {signal_name} <= "{bin_str(bits_val, bits)}";'
+                        )
+
+                if asserts and not input_signal_names.issuperset(step):
+                    lines.append("        wait for CLK_PERIOD / 4;")
+
                 for signal_name, (bits_val, real_val) in step.items():
                     if signal_name not in input_signal_names and asserts:
                         if use_real_asserts:
@@ -334,13 +345,6 @@ class VhdlTbPrinter:
                                 f" severity failure;"
                             )
 
-                for signal_name, (bits_val, _) in step.items():
-                    if signal_name in input_signal_names:
-                        bits = dt.input_bits
-                        lines.append(
-                            f'        {signal_name} <= "{bin_str(bits_val, bits)}";'
-                        )
-
             lines.append("        wait until falling_edge(clk);")
             lines.append("")
 
-- 
2.43.0


From 15f9dbae876f25d2b89eaa98cea1e22f390c62b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:24 +0000
Subject: [PATCH 089/129] fix: check outputs depending on inputs in the same
 cycle in cocotb test benches

---
 lib/b_asic/tb_printer/cocotb/template.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/lib/b_asic/tb_printer/cocotb/template.py b/lib/b_asic/tb_printer/cocotb/template.py
index 0f316a4..47621c1 100644
--- a/lib/b_asic/tb_printer/cocotb/template.py
+++ b/lib/b_asic/tb_printer/cocotb/template.py
@@ -8,7 +8,7 @@ from pathlib import Path
 import cocotb
 import pytest
 from cocotb.clock import Clock
-from cocotb.triggers import FallingEdge
+from cocotb.triggers import FallingEdge, ReadOnly
 from cocotb_tools.runner import get_runner
 
 
@@ -55,14 +55,16 @@ async def test_one(dut):
         for cycle in range(max_cycle + 1):
             if cycle in SEQUENCE:
                 step = SEQUENCE[cycle]
-                # Drive inputs and check outputs based on the sequence map
+                # Drive inputs based on the sequence map
                 for signal_name, value in step.items():
-                    if CSV:
-                        hw_val = getattr(dut, signal_name).value
                     if signal_name.endswith(("_in", "_in_re", "_in_im")):
                         writer.writerow([signal_name, cycle, value]) if CSV else None
                         getattr(dut, signal_name).value = value
-                    else:
+
+                # Check outputs, which may depend on inputs in the same cycle
+                await ReadOnly()
+                for signal_name, value in step.items():
+                    if not signal_name.endswith(("_in", "_in_re", "_in_im")):
                         hw_val = getattr(dut, signal_name).value
                         if CSV and hw_val.is_resolvable:
                             writer.writerow([signal_name, cycle, int(hw_val)])
-- 
2.43.0


From 636454be99260da668c7ae23a845047391b97bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:24 +0000
Subject: [PATCH 090/129] fix: reset designs without enable pin in cocotb test
 benches

---
 lib/b_asic/tb_printer/cocotb/template.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/b_asic/tb_printer/cocotb/template.py b/lib/b_asic/tb_printer/cocotb/template.py
index 47621c1..87ce55a 100644
--- a/lib/b_asic/tb_printer/cocotb/template.py
+++ b/lib/b_asic/tb_printer/cocotb/template.py
@@ -39,7 +39,9 @@ async def test_one(dut):
     dut.rst.value = 1
     if ENABLE_PIN:
         dut.en.value = 0
-        await FallingEdge(dut.clk)
+    # The second edge is preceded by a rising edge at which the reset is seen
+    await FallingEdge(dut.clk)
+    await FallingEdge(dut.clk)
     dut.rst.value = 0
     if ENABLE_PIN:
         dut.en.value = 1
-- 
2.43.0


From 272db00f66835dba5c1fd49567725f04d728e8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:10 +0000
Subject: [PATCH 091/129] fix: use the port word lengths in VHDL test benches

---
 lib/b_asic/tb_printer/vhdl/vhdl_tb_printer.py | 22 +++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/lib/b_asic/tb_printer/vhdl/vhdl_tb_printer.py b/lib/b_asic/tb_printer/vhdl/vhdl_tb_printer.py
index 7015681..900ee2e 100644
--- a/lib/b_asic/tb_printer/vhdl/vhdl_tb_printer.py
+++ b/lib/b_asic/tb_printer/vhdl/vhdl_tb_printer.py
@@ -3,13 +3,14 @@
 from collections import defaultdict
 from pathlib import Path
 
-from apytypes import APyCFixed, APyCFloat
+from apytypes import APyCFixed, APyCFloat, APyFixed
 
 from b_asic.architecture import Architecture
 from b_asic.code_printer.util import bin_str
 from b_asic.data_type import DataType
 from b_asic.simulation import ResultArrayMap
 from b_asic.special_operations import Input, Output
+from b_asic.types import Num
 
 
 class VhdlTbPrinter:
@@ -111,7 +112,7 @@ class VhdlTbPrinter:
             schedule_time = arch.schedule_time
 
             for sample_idx in range(len(values)):
-                value = values[sample_idx]
+                value = self._to_port_word_length(values[sample_idx], dt, is_input)
                 time = start_time + sample_idx * schedule_time
                 if not is_input:
                     time += output_offset
@@ -165,6 +166,23 @@ class VhdlTbPrinter:
         with (path / "tb.vhdl").open("w") as f:
             f.write(vhdl_content)
 
+    @staticmethod
+    def _to_port_word_length(value: Num, dt: DataType, is_input: bool) -> Num:
+        """Return simulated *value* with the word length that the port has."""
+        if not isinstance(value, (APyFixed, APyCFixed)):
+            return value
+        if is_input:
+            # Inputs are aligned at the least significant bit
+            return value.cast(
+                int_bits=dt.input_bits - value.frac_bits, frac_bits=value.frac_bits
+            )
+        return value.cast(
+            int_bits=dt.output_wl[0],
+            frac_bits=dt.output_wl[1],
+            quantization=dt.quantization_mode.to_apytypes(),
+            overflow=dt.overflow_mode.to_apytypes(),
+        )
+
     @staticmethod
     def _vhdl_real_lit(v: float) -> str:
         s = repr(v)
-- 
2.43.0


From 0eb0ccc8e7bf7bc97c380506239875d864069a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:10 +0000
Subject: [PATCH 092/129] fix: tolerances in VHDL test benches for fixed-point
 designs and as documented

---
 lib/b_asic/tb_printer/vhdl/vhdl_tb_printer.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/lib/b_asic/tb_printer/vhdl/vhdl_tb_printer.py b/lib/b_asic/tb_printer/vhdl/vhdl_tb_printer.py
index 900ee2e..5539b82 100644
--- a/lib/b_asic/tb_printer/vhdl/vhdl_tb_printer.py
+++ b/lib/b_asic/tb_printer/vhdl/vhdl_tb_printer.py
@@ -7,7 +7,7 @@ from apytypes import APyCFixed, APyCFloat, APyFixed
 
 from b_asic.architecture import Architecture
 from b_asic.code_printer.util import bin_str
-from b_asic.data_type import DataType
+from b_asic.data_type import DataType, NumRepresentation
 from b_asic.simulation import ResultArrayMap
 from b_asic.special_operations import Input, Output
 from b_asic.types import Num
@@ -183,6 +183,15 @@ class VhdlTbPrinter:
             overflow=dt.overflow_mode.to_apytypes(),
         )
 
+    @staticmethod
+    def _vhdl_real_conversion(signal_name: str, dt: DataType) -> str:
+        if dt.num_repr == NumRepresentation.FIXED_POINT:
+            return (
+                f"(real(to_integer(signed({signal_name})))"
+                f" * 2.0 ** (-({dt.output_wl[1]})))"
+            )
+        return f"to_real(to_float({signal_name}, {dt.exp_bits}, {dt.man_bits}))"
+
     @staticmethod
     def _vhdl_real_lit(v: float) -> str:
         s = repr(v)
@@ -216,7 +225,7 @@ class VhdlTbPrinter:
             "use ieee.numeric_std.all;",
         ]
         if float_pkg_line:
-            header.append(float_pkg_line)
+            header += [float_pkg_line, "use ieee.math_real.all;"]
         header.append("use std.env.all;")
         lines += header
         lines += [
@@ -342,10 +351,10 @@ class VhdlTbPrinter:
                             rel_tol_lit = self._vhdl_real_lit(
                                 rel_tol if rel_tol is not None else 0.0
                             )
-                            conv = f"to_real(to_float({signal_name}, 8, 23))"
+                            conv = self._vhdl_real_conversion(signal_name, dt)
                             lines.append(
                                 f"        assert abs({conv} - ({expected_lit}))"
-                                f" <= {abs_tol_lit} + {rel_tol_lit} * abs({expected_lit})"
+                                f" <= realmax({abs_tol_lit}, {rel_tol_lit} * abs({expected_lit}))"
                                 f'\n            report "Error detected at cycle {cycle - warmup_cycles}:'
                                 f' {signal_name} expected {real_val}, got "'
                                 f" & real'image({conv})"
-- 
2.43.0


From 7ec6315715281ed6f5808d35036a266d9441dd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:40 +0000
Subject: [PATCH 093/129] fix: drive the inputs during reset in cocotb test
 benches

---
 lib/b_asic/tb_printer/cocotb/template.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/b_asic/tb_printer/cocotb/template.py b/lib/b_asic/tb_printer/cocotb/template.py
index 87ce55a..ca3678a 100644
--- a/lib/b_asic/tb_printer/cocotb/template.py
+++ b/lib/b_asic/tb_printer/cocotb/template.py
@@ -36,6 +36,12 @@ async def test_one(dut):
 
     max_cycle = max(SEQUENCE.keys())
 
+    # Undriven inputs would give undefined outputs, which are not checked
+    for step in SEQUENCE.values():
+        for signal_name in step:
+            if signal_name.endswith(("_in", "_in_re", "_in_im")):
+                getattr(dut, signal_name).value = 0
+
     dut.rst.value = 1
     if ENABLE_PIN:
         dut.en.value = 0
-- 
2.43.0


From 1b42389b8d8bc8538fea991de0bd8d7a7ce77dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:57 +0000
Subject: [PATCH 094/129] fix: use each port once per cycle in matrix
 transposers with parallelism

---
 lib/b_asic/research/interleaver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/b_asic/research/interleaver.py b/lib/b_asic/research/interleaver.py
index 3a30489..4da67b3 100644
--- a/lib/b_asic/research/interleaver.py
+++ b/lib/b_asic/research/interleaver.py
@@ -112,13 +112,13 @@ def generate_matrix_transposer(
         )
 
     inputorders = [
-        ((row + rows * col) // parallelism, row % parallelism)
+        divmod(row + rows * col, parallelism)
         for col in range(cols)
         for row in range(rows)
     ]
 
     outputorders = [
-        ((col * rows + row) // parallelism, col % parallelism)
+        divmod(col * rows + row, parallelism)
         for row in range(rows)
         for col in range(cols)
     ]
-- 
2.43.0


From 94a6e1993b7551d9d1f3b7bf1389f0ee12e4cc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:28 +0000
Subject: [PATCH 095/129] fix: generate memory-based storage without input
 synchronization that compiles and reads at the right cycle

---
 lib/b_asic/research/interleaver_codegen.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/lib/b_asic/research/interleaver_codegen.py b/lib/b_asic/research/interleaver_codegen.py
index b5b4f72..bca7604 100644
--- a/lib/b_asic/research/interleaver_codegen.py
+++ b/lib/b_asic/research/interleaver_codegen.py
@@ -424,7 +424,9 @@ def memory_based_storage_architecture(
             )
         else:
             common.process_prologue(
-                f, sensitivity_list="schedule_cnt_adr", name="mem_write_address_proc"
+                f,
+                sensitivity_list="schedule_cnt_adr",
+                name=f"mem_write_address_proc_{0}_{rom}",
             )
         common.write(f, 3, "case to_integer(schedule_cnt_adr) is")
         list_start_idx = rom * elements_per_rom
@@ -540,9 +542,7 @@ def memory_based_storage_architecture(
         for mv in collection:
             mv = cast(MemoryVariable, mv)
             for read_time in mv.reads.values():
-                read_list[
-                    (mv.start_time + read_time - int(not (input_sync))) % schedule_time
-                ] = (i, mv)
+                read_list[(mv.start_time + read_time) % schedule_time] = (i, mv)
 
     for rom in range(total_roms):
         if input_sync:
@@ -551,7 +551,9 @@ def memory_based_storage_architecture(
             )
         else:
             common.process_prologue(
-                f, sensitivity_list="schedule_cnt_adr", name="mem_read_address_proc"
+                f,
+                sensitivity_list="schedule_cnt_adr",
+                name=f"mem_read_address_proc_{0}_{rom}",
             )
         common.write(f, 3, "case to_integer(schedule_cnt_adr) is")
         list_start_idx = rom * elements_per_rom
-- 
2.43.0


From 7836646985040f0a1ee2cf79c2ecd1626f820657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:28 +0000
Subject: [PATCH 096/129] fix: wrap the forwarding time in memory-based storage
 with address pipelining

---
 lib/b_asic/research/interleaver_codegen.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/b_asic/research/interleaver_codegen.py b/lib/b_asic/research/interleaver_codegen.py
index bca7604..5e3f09c 100644
--- a/lib/b_asic/research/interleaver_codegen.py
+++ b/lib/b_asic/research/interleaver_codegen.py
@@ -375,10 +375,11 @@ def memory_based_storage_architecture(
         if input_sync:
             write_time = (p.start_time + 1) % schedule_time
             if adr_pipe_depth:
+                write_time = (p.start_time + 1 + adr_pipe_depth) % schedule_time
                 common.write(
                     f,
                     4,
-                    f"when {write_time}+{adr_pipe_depth} => p_0_out <= p_0_in_sync;",
+                    f"when {write_time} => p_0_out <= p_0_in_sync;",
                 )
             else:
                 common.write(f, 4, f"when {write_time} => p_0_out <= p_0_in_sync;")
-- 
2.43.0


From f9586d1f5492a97d86e25faba14c5c6af2a2804b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:28 +0000
Subject: [PATCH 097/129] fix: cover slots without reads in register-based
 storage

---
 lib/b_asic/research/interleaver_codegen.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/b_asic/research/interleaver_codegen.py b/lib/b_asic/research/interleaver_codegen.py
index 5e3f09c..eb9ae79 100644
--- a/lib/b_asic/research/interleaver_codegen.py
+++ b/lib/b_asic/research/interleaver_codegen.py
@@ -855,6 +855,7 @@ def register_based_storage_architecture(
             sel = output_mux_table[entry.outputs_from]
             common.write(f, 4, f"when {(i - 1) % schedule_time} =>")
             common.write(f, 5, f"out_mux_sel <= {sel};")
+    common.write(f, 4, "when others => null;")
     common.write(f, 3, "end case;")
     common.synchronous_process_epilogue(f, clk="clk", name="out_mux_decode_proc")
 
-- 
2.43.0


From cce7fd1ec75d57c0ad5e5ad0146321987428e228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:28 +0000
Subject: [PATCH 098/129] fix: generate valid register-based storage when no
 variable needs a register

---
 lib/b_asic/code_printer/vhdl/register_storage.py | 2 +-
 lib/b_asic/research/interleaver_codegen.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/b_asic/code_printer/vhdl/register_storage.py b/lib/b_asic/code_printer/vhdl/register_storage.py
index 830957d..217956a 100644
--- a/lib/b_asic/code_printer/vhdl/register_storage.py
+++ b/lib/b_asic/code_printer/vhdl/register_storage.py
@@ -81,7 +81,7 @@ def architecture(
     schedule_time = len(forward_backward_table)
 
     # Number of registers in this design
-    reg_cnt = len(forward_backward_table[0].regs)
+    reg_cnt = max(1, len(forward_backward_table[0].regs))
 
     # Set of the register indices to output from
     output_regs = {
diff --git a/lib/b_asic/research/interleaver_codegen.py b/lib/b_asic/research/interleaver_codegen.py
index eb9ae79..fa7084b 100644
--- a/lib/b_asic/research/interleaver_codegen.py
+++ b/lib/b_asic/research/interleaver_codegen.py
@@ -663,7 +663,7 @@ def register_based_storage_architecture(
     schedule_time = len(forward_backward_table)
 
     # Number of registers in this design
-    reg_cnt = len(forward_backward_table[0].regs)
+    reg_cnt = max(1, len(forward_backward_table[0].regs))
 
     # Set of the register indices to output from
     output_regs = {
-- 
2.43.0


From 570f62ca04459a9b551849f10ece38c1aaaac6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:28 +0000
Subject: [PATCH 099/129] fix: define the forwarding control in all cycles with
 reads in generated memories

---
 lib/b_asic/code_printer/vhdl/memory_storage.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/b_asic/code_printer/vhdl/memory_storage.py b/lib/b_asic/code_printer/vhdl/memory_storage.py
index 38de233..76b0e62 100644
--- a/lib/b_asic/code_printer/vhdl/memory_storage.py
+++ b/lib/b_asic/code_printer/vhdl/memory_storage.py
@@ -270,6 +270,13 @@ def architecture(
         common.write(f, 1, "-- Input and output assignments", start="\n")
         all_procs = [p for pc in memory.assignment for p in pc]
         output_cases: dict[int, str] = {}
+        for p in all_procs:
+            for read_time in p.reads.values():
+                # The output register is loaded in the cycle before the read
+                load_time = p.start_time + read_time - 1
+                if pipeline_control_signals:
+                    load_time -= 1
+                output_cases[load_time % schedule_time] = "'0'"
         # forward_ctrl ROM
         for p in all_procs:
             if pipeline_control_signals:
-- 
2.43.0


From bd7a4ec3883b13448f00152d8a2b12905754c65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:12 +0000
Subject: [PATCH 100/129] fix: generate valid address pipelines without
 multiplexers in memory-based storage

---
 lib/b_asic/research/interleaver_codegen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/b_asic/research/interleaver_codegen.py b/lib/b_asic/research/interleaver_codegen.py
index fa7084b..9857683 100644
--- a/lib/b_asic/research/interleaver_codegen.py
+++ b/lib/b_asic/research/interleaver_codegen.py
@@ -479,7 +479,7 @@ def memory_based_storage_architecture(
                 3,
                 (
                     f"case to_integer(schedule_cnt{layer + 1}("
-                    f"ADR_LEN+{layer * bits_per_mux + bits_per_mux - 1} downto "
+                    f"ADR_LEN+{layer * bits_per_mux + bits_per_mux}-1 downto "
                     f"ADR_LEN+{layer * bits_per_mux}"
                     ")) is"
                 ),
@@ -604,7 +604,7 @@ def memory_based_storage_architecture(
                 3,
                 (
                     f"case to_integer(schedule_cnt{layer + 1}("
-                    f"ADR_LEN+{layer * bits_per_mux + bits_per_mux - 1} downto "
+                    f"ADR_LEN+{layer * bits_per_mux + bits_per_mux}-1 downto "
                     f"ADR_LEN+{layer * bits_per_mux}"
                     ")) is"
                 ),
-- 
2.43.0


From c5cf913e35c4f447f9b1c95a5dc40c24e5f2c9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:26 +0000
Subject: [PATCH 101/129] fix: refuse to generate storage with fewer ports than
 needed

---
 lib/b_asic/resources.py | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/lib/b_asic/resources.py b/lib/b_asic/resources.py
index 932c928..a4024ef 100644
--- a/lib/b_asic/resources.py
+++ b/lib/b_asic/resources.py
@@ -2235,6 +2235,21 @@ class ProcessCollection:
         # 3. Perform sequential left-edge assignment based on the sorted processes
         raise NotImplementedError
 
+    def _check_ports(self, read_ports: int, write_ports: int) -> None:
+        """Raise ValueError if more ports are needed than available to generate HDL."""
+        needed_write_ports = self.write_ports_bound()
+        needed_read_ports = self.read_ports_bound()
+        if needed_write_ports > write_ports:
+            raise ValueError(
+                f"More than {write_ports} write ports needed ({needed_write_ports})"
+                " to generate HDL for this ProcessCollection"
+            )
+        if needed_read_ports > read_ports:
+            raise ValueError(
+                f"More than {read_ports} read ports needed ({needed_read_ports}) to"
+                " generate HDL for this ProcessCollection"
+            )
+
     def generate_memory_based_storage_vhdl(
         self,
         filename: str,
@@ -2320,18 +2335,7 @@ class ProcessCollection:
                     raise ValueError(f"{mv!r} is not part of {self!r}.")
 
         # Make sure that concurrent reads/writes do not surpass the port setting
-        needed_write_ports = self.read_ports_bound()
-        needed_read_ports = self.write_ports_bound()
-        if needed_write_ports > write_ports + 1:
-            raise ValueError(
-                f"More than {write_ports} write ports needed ({needed_write_ports})"
-                " to generate HDL for this ProcessCollection"
-            )
-        if needed_read_ports > read_ports + 1:
-            raise ValueError(
-                f"More than {read_ports} read ports needed ({needed_read_ports}) to"
-                " generate HDL for this ProcessCollection"
-            )
+        self._check_ports(read_ports, write_ports)
 
         # Sanitize the address logic pipeline settings
         if adr_mux_size is not None and adr_pipe_depth is not None:
@@ -2564,6 +2568,9 @@ class ProcessCollection:
             read_ports, write_ports, total_ports
         )
 
+        # Make sure that concurrent reads/writes do not surpass the port setting
+        self._check_ports(read_ports, write_ports)
+
         # Create the forward-backward table
         forward_backward_table = _ForwardBackwardTable(self)
 
-- 
2.43.0


From 0812c9f91fc290d3a98cced46c5da9af92aa8eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:29 +0000
Subject: [PATCH 102/129] fix: refuse to generate storage with several reads or
 writes in one cycle

---
 lib/b_asic/code_printer/vhdl/vhdl_printer.py | 8 ++++++++
 lib/b_asic/resources.py                      | 5 +++++
 2 files changed, 13 insertions(+)

diff --git a/lib/b_asic/code_printer/vhdl/vhdl_printer.py b/lib/b_asic/code_printer/vhdl/vhdl_printer.py
index a656a95..cc31489 100644
--- a/lib/b_asic/code_printer/vhdl/vhdl_printer.py
+++ b/lib/b_asic/code_printer/vhdl/vhdl_printer.py
@@ -248,6 +248,14 @@ class VhdlPrinter(Printer):
         return f.getvalue()
 
     def print_Memory(self, mem: "Memory", **kwargs) -> str | None:
+        if (
+            mem.collection.read_ports_bound() > 1
+            or mem.collection.write_ports_bound() > 1
+        ):
+            raise NotImplementedError(
+                f"{mem.entity_name}: Code generation of memories with more than one"
+                " read or write in the same cycle is not supported"
+            )
         f = io.StringIO()
         common.b_asic_preamble(f)
         common.ieee_header(f, fixed_pkg=self.vhdl_2008)
diff --git a/lib/b_asic/resources.py b/lib/b_asic/resources.py
index a4024ef..71479dc 100644
--- a/lib/b_asic/resources.py
+++ b/lib/b_asic/resources.py
@@ -2249,6 +2249,11 @@ class ProcessCollection:
                 f"More than {read_ports} read ports needed ({needed_read_ports}) to"
                 " generate HDL for this ProcessCollection"
             )
+        if needed_write_ports > 1 or needed_read_ports > 1:
+            raise NotImplementedError(
+                "Code generation of storage with more than one read or write in the"
+                " same cycle is not supported"
+            )
 
     def generate_memory_based_storage_vhdl(
         self,
-- 
2.43.0


From ea59dfde47f5031c62d4e95f34567dedace61495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:18 +0000
Subject: [PATCH 103/129] fix: list schedulers can be used for several SFGs

---
 lib/b_asic/scheduler.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/b_asic/scheduler.py b/lib/b_asic/scheduler.py
index 4ff0845..b0d7a11 100644
--- a/lib/b_asic/scheduler.py
+++ b/lib/b_asic/scheduler.py
@@ -500,6 +500,7 @@ class ListScheduler(Scheduler):
         "_current_time",
         "_deadlines",
         "_fan_outs",
+        "_given_max_resources",
         "_max_concurrent_reads",
         "_max_concurrent_writes",
         "_max_resources",
@@ -510,6 +511,8 @@ class ListScheduler(Scheduler):
         "_sort_order",
         "_used_reads",
     )
+    _given_max_resources: dict[TypeName, int]
+    _max_resources: dict[TypeName, int]
     _remaining_ops: list["GraphID"]
     _deadlines: dict["GraphID", int]
     _output_slacks: dict["GraphID", int]
@@ -555,9 +558,9 @@ class ListScheduler(Scheduler):
                 if not isinstance(value, int):
                     raise ValueError("Provided max_resources values must be integers.")
                 normalized[TypeName(key)] = value
-            self._max_resources = normalized
+            self._given_max_resources = normalized
         else:
-            self._max_resources = {}
+            self._given_max_resources = {}
 
         if max_concurrent_reads is not None:
             if not isinstance(max_concurrent_reads, int):
@@ -853,6 +856,8 @@ class ListScheduler(Scheduler):
 
     def _initialize_scheduler(self, schedule: "Schedule") -> None:
         self._schedule = schedule
+        # Default limits are only added for the current SFG
+        self._max_resources = self._given_max_resources.copy()
 
         for resource_type in self._max_resources:
             if not self._schedule._sfg.find_by_type_name(resource_type):
-- 
2.43.0


From 2264c2cc3375be5aa73d41beae1d15dc462f3b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:18 +0000
Subject: [PATCH 104/129] fix: copy the start times given to a schedule

---
 lib/b_asic/schedule.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/b_asic/schedule.py b/lib/b_asic/schedule.py
index db3ae5d..7ccb384 100644
--- a/lib/b_asic/schedule.py
+++ b/lib/b_asic/schedule.py
@@ -131,7 +131,7 @@ class Schedule:
                 raise ValueError("Must provide start_times when using 'provided'")
             if laps is None:
                 raise ValueError("Must provide laps when using 'provided'")
-            self._start_times = start_times
+            self._start_times = dict(start_times)
             self._laps.update(laps)
             self._remove_delays_no_laps()
 
@@ -562,7 +562,7 @@ class Schedule:
         for key, value in start_times.items():
             if not isinstance(key, str) or not isinstance(value, int):
                 raise TypeError("start_times must be a dict[GraphID, int]")
-        self._start_times = start_times
+        self._start_times = dict(start_times)
 
     @property
     def laps(self) -> dict[GraphID, int]:
-- 
2.43.0


From 1c26a6d437a7d3be11e344414a8dbeda7cce1dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:18 +0000
Subject: [PATCH 105/129] fix: keep a fixed order when finding components of a
 type in an SFG

---
 lib/b_asic/sfg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/b_asic/sfg.py b/lib/b_asic/sfg.py
index 4d4247c..f3b452d 100644
--- a/lib/b_asic/sfg.py
+++ b/lib/b_asic/sfg.py
@@ -651,7 +651,7 @@ class SFG(AbstractOperation):
             for comp in self._components_dfs_order
             if isinstance(comp, component_type)
         ]
-        components = list(set(components))  # ensure no redundant elements
+        components = list(dict.fromkeys(components))  # ensure no redundant elements
         return sorted(components, key=lambda c: c.name or c.graph_id)
 
     def find_by_id(self, graph_id: GraphID) -> GraphComponent | None:
-- 
2.43.0


From 3f8f43a7b565be5c43f05dc308c5a06c1a22f65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:14 +0000
Subject: [PATCH 106/129] fix: limit on concurrent writes of results that wrap
 around

---
 lib/b_asic/scheduler.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/b_asic/scheduler.py b/lib/b_asic/scheduler.py
index b0d7a11..6a17199 100644
--- a/lib/b_asic/scheduler.py
+++ b/lib/b_asic/scheduler.py
@@ -768,6 +768,11 @@ class ListScheduler(Scheduler):
                             for output in tmp_op.outputs
                         ]
                         write_times = [start_time + offset for offset in offsets]
+                        if self._schedule._schedule_time:
+                            write_times = [
+                                write_time % self._schedule._schedule_time
+                                for write_time in write_times
+                            ]
                         writes_in_time += write_times.count(output_ready_time)
 
                     tmp_used_writes[output_ready_time] += 1
-- 
2.43.0


From f7ebd8fdef032c6c52f2ec0aa00194d2ffa8757a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:05 +0000
Subject: [PATCH 107/129] fix: count all variables passed between two memories
 in architecture drawings

---
 lib/b_asic/architecture.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lib/b_asic/architecture.py b/lib/b_asic/architecture.py
index 31bb276..fe44c06 100644
--- a/lib/b_asic/architecture.py
+++ b/lib/b_asic/architecture.py
@@ -1685,6 +1685,7 @@ of :class:`~b_asic.architecture.ProcessingElement`
                     destination_edges[destination_str].add(source_str)
 
         # Add memory-to-memory edges for chained lifetime-split variables
+        memory_edges: defaultdict[tuple[str, str], int] = defaultdict(int)
         for dst_mem in self._memories:
             for mv in dst_mem:
                 if not isinstance(mv.write_port, MemoryOutputPort):
@@ -1692,11 +1693,13 @@ of :class:`~b_asic.architecture.ProcessingElement`
                 source_var = mv.write_port.source_variable
                 for src_mem in self._memories:
                     if any(v is source_var for v in src_mem):
-                        source_str = f"{src_mem.entity_name}:out0"
-                        destination_str = f"{dst_mem.entity_name}:in0"
-                        edges[source_str].add((destination_str, "1"))
-                        destination_edges[destination_str].add(source_str)
+                        memory_edges[src_mem.entity_name, dst_mem.entity_name] += 1
                         break
+        for (src_name, dst_name), cnt in memory_edges.items():
+            source_str = f"{src_name}:out0"
+            destination_str = f"{dst_name}:in0"
+            edges[source_str].add((destination_str, f"{cnt}"))
+            destination_edges[destination_str].add(source_str)
 
         return edges, destination_edges
 
-- 
2.43.0


From fe6641ac207a9026829ef85ee40469e379d8ff8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:05 +0000
Subject: [PATCH 108/129] fix: plot accesses and execution times when there are
 none

---
 lib/b_asic/resources.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/lib/b_asic/resources.py b/lib/b_asic/resources.py
index 71479dc..6b223b4 100644
--- a/lib/b_asic/resources.py
+++ b/lib/b_asic/resources.py
@@ -2744,13 +2744,14 @@ class ProcessCollection:
         axes : list of three :class:`matplotlib.axes.Axes`
             Three Axes to plot in.
         """
-        axes[0].bar(*zip(*self.read_port_accesses().items(), strict=True))
-        axes[0].set_title("Read port accesses")
-        axes[1].bar(*zip(*self.write_port_accesses().items(), strict=True))
-        axes[1].set_title("Write port accesses")
-        axes[2].bar(*zip(*self.total_port_accesses().items(), strict=True))
-        axes[2].set_title("Total port accesses")
-        for ax in axes:
+        accesses = (
+            ("Read port accesses", self.read_port_accesses()),
+            ("Write port accesses", self.write_port_accesses()),
+            ("Total port accesses", self.total_port_accesses()),
+        )
+        for ax, (title, counts) in zip(axes, accesses, strict=True):
+            ax.bar(list(counts.keys()), list(counts.values()))
+            ax.set_title(title)
             ax.xaxis.set_major_locator(MaxNLocator(integer=True, min_n_ticks=1))
             ax.yaxis.set_major_locator(MaxNLocator(integer=True, min_n_ticks=1))
             ax.set_xlim(-0.5, self.schedule_time - 0.5)
@@ -2811,7 +2812,8 @@ class ProcessCollection:
         ax : :class:`matplotlib.axes.Axes`
             The Axes to plot in.
         """
-        ax.bar(*zip(*self.total_execution_times().items(), strict=True))
+        counts = self.total_execution_times()
+        ax.bar(list(counts.keys()), list(counts.values()))
         ax.xaxis.set_major_locator(MaxNLocator(integer=True, min_n_ticks=1))
         ax.yaxis.set_major_locator(MaxNLocator(integer=True, min_n_ticks=1))
         ax.set_xlim(-0.5, self.schedule_time - 0.5)
-- 
2.43.0


From a00b2d7e9bdc780fe2073c79db0aa71c31c362af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:03 +0000
Subject: [PATCH 109/129] fix: same collections, drawings and files in every
 run

---
 lib/b_asic/architecture.py        | 18 +++++++++++++-----
 lib/b_asic/resources.py           | 10 +++++-----
 lib/b_asic/save_load_structure.py |  2 +-
 lib/b_asic/schedule.py            |  8 +++-----
 4 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/lib/b_asic/architecture.py b/lib/b_asic/architecture.py
index fe44c06..2965aae 100644
--- a/lib/b_asic/architecture.py
+++ b/lib/b_asic/architecture.py
@@ -50,6 +50,10 @@ from b_asic.special_operations import Input, Output
 from b_asic.utility_operations import DontCare
 
 
+def _resource_order(item: tuple["Resource", int]) -> tuple[str, int]:
+    return (item[0].entity_name, item[1])
+
+
 def _interconnect_dict() -> int:
     # Needed as pickle does not support lambdas
     return 0
@@ -1339,10 +1343,14 @@ of :class:`~b_asic.architecture.ProcessingElement`
         for var in pe.collection:
             var = cast(OperatorProcess, var)
             for i, input_ in enumerate(var.operation.inputs):
-                for v in self._variable_input_port_to_resource[input_]:
+                for v in sorted(
+                    self._variable_input_port_to_resource[input_], key=_resource_order
+                ):
                     d_in[i][v] += 1
             for i, output in enumerate(var.operation.outputs):
-                for v in self._variable_outport_to_resource[output]:
+                for v in sorted(
+                    self._variable_outport_to_resource[output], key=_resource_order
+                ):
                     d_out[i][v] += 1
         return [dict(d) for d in d_in], [dict(d) for d in d_out]
 
@@ -1823,7 +1831,7 @@ of :class:`~b_asic.architecture.ProcessingElement`
                 )
 
                 # One incoming stub per destination
-                for destination_str, cnt_str in destination_counts:
+                for destination_str, cnt_str in sorted(destination_counts):
                     dest = destination_str
                     if multiplexers and len(destination_list[destination_str]) > 1:
                         idx = destination_indices[destination_str][original_src_str]
@@ -1853,7 +1861,7 @@ of :class:`~b_asic.architecture.ProcessingElement`
                     src_str = branch
                     using_branch = True
 
-                for destination_str, cnt_str in destination_counts:
+                for destination_str, cnt_str in sorted(destination_counts):
                     dest = destination_str
                     if multiplexers and len(destination_list[destination_str]) > 1:
                         idx = destination_indices[destination_str][original_src_str]
@@ -2057,7 +2065,7 @@ of :class:`~b_asic.architecture.ProcessingElement`
         }
         combined_rank = {**pe_rank, **mem_rank}
         destination_list = {
-            k: sorted(v, key=lambda s: combined_rank.get(s.split(":")[0], 0))
+            k: sorted(v, key=lambda s: (combined_rank.get(s.split(":")[0], 0), s))
             for k, v in destination_edges.items()
         }
 
diff --git a/lib/b_asic/resources.py b/lib/b_asic/resources.py
index 6b223b4..4ab39c5 100644
--- a/lib/b_asic/resources.py
+++ b/lib/b_asic/resources.py
@@ -280,7 +280,7 @@ class _ForwardBackwardTable:
             ProcessCollection to apply forward-backward allocation on.
         """
         # Generate an alive variable list
-        self._collection = set(collection.collection)
+        self._collection = list(collection.collection)
         self._live_variables: list[int] = [0] * collection.schedule_time
         for mv in self._collection:
             stop_time = mv.start_time + mv.execution_time
@@ -2615,12 +2615,12 @@ class ProcessCollection:
         A new :class:`~b_asic.resources.ProcessCollection`.
         """
         return ProcessCollection(
-            {
+            [
                 process
                 for process in self._collection
                 if isinstance(process, OperatorProcess)
                 and process.operation.type_name() == type_name
-            },
+            ],
             self._schedule_time,
             self._cyclic,
         )
@@ -2639,11 +2639,11 @@ class ProcessCollection:
         A new :class:`~b_asic.resources.ProcessCollection`.
         """
         return ProcessCollection(
-            {
+            [
                 process
                 for process in self._collection
                 if isinstance(process.operation, process_type)
-            },
+            ],
             self._schedule_time,
             self._cyclic,
         )
diff --git a/lib/b_asic/save_load_structure.py b/lib/b_asic/save_load_structure.py
index d72af52..b901454 100644
--- a/lib/b_asic/save_load_structure.py
+++ b/lib/b_asic/save_load_structure.py
@@ -85,7 +85,7 @@ def sfg_to_python(
     )
 
     result += "\nfrom b_asic import SFG, Signal, Input, Output"
-    for op_type in {type(op) for op in sfg.operations}:
+    for op_type in dict.fromkeys(type(op) for op in sfg.operations):
         result += f", {op_type.__name__}"
     if schedule:
         result += ", Schedule"
diff --git a/lib/b_asic/schedule.py b/lib/b_asic/schedule.py
index 7ccb384..678b7a6 100644
--- a/lib/b_asic/schedule.py
+++ b/lib/b_asic/schedule.py
@@ -1256,9 +1256,7 @@ class Schedule:
         -------
         :class:`~b_asic.resources.ProcessCollection`
         """
-        return ProcessCollection(
-            set(self._get_memory_variables_list()), self.schedule_time
-        )
+        return ProcessCollection(self._get_memory_variables_list(), self.schedule_time)
 
     def get_operations(self) -> ProcessCollection:
         """
@@ -1269,13 +1267,13 @@ class Schedule:
         :class:`~b_asic.resources.ProcessCollection`
         """
         return ProcessCollection(
-            {
+            [
                 OperatorProcess(
                     start_time, cast(Operation, self._sfg.find_by_id(graph_id))
                 )
                 for graph_id, start_time in self._start_times.items()
                 if not isinstance(self._sfg.find_by_id(graph_id), (DontCare, Sink))
-            },
+            ],
             self.schedule_time,
             self.cyclic,
         )
-- 
2.43.0


From 47886ca9aeebdf9bcccf4b336344c04187a07ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:30 +0000
Subject: [PATCH 110/129] fix: signed digits of very small numbers

---
 lib/b_asic/utils.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/lib/b_asic/utils.py b/lib/b_asic/utils.py
index 436b9bf..acf46f4 100644
--- a/lib/b_asic/utils.py
+++ b/lib/b_asic/utils.py
@@ -1,6 +1,7 @@
 """B-ASIC Utilities."""
 
 from collections.abc import Sequence
+from fractions import Fraction
 
 from b_asic.types import Num
 
@@ -156,17 +157,10 @@ def float_to_csd(n: float | int) -> tuple[list[int], int]:
     if n == 0:
         return ([], 0)
 
-    # calculate frac_bits
-    abs_n = abs(n)
-    k = 0
-    while True:
-        val = abs_n * (1 << k)
-        m = round(val)
-        if abs(val - m) == 0:
-            frac_bits = k
-            int_val = int(m)
-            break
-        k += 1
+    # The denominator of a binary number is a power of two
+    ratio = Fraction(abs(n))
+    frac_bits = int(ratio.denominator).bit_length() - 1
+    int_val = int(ratio.numerator)
 
     csd_digits = int_to_csd(int_val)
 
-- 
2.43.0


From b85c5c361330d21ecd290d744fa1a8e853789b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:05 +0000
Subject: [PATCH 111/129] fix: show operations where they are after being
 dragged

---
 lib/b_asic/scheduler_gui/scheduler_event.py | 30 +++++----------------
 lib/b_asic/scheduler_gui/scheduler_item.py  |  6 ++++-
 2 files changed, 12 insertions(+), 24 deletions(-)

diff --git a/lib/b_asic/scheduler_gui/scheduler_event.py b/lib/b_asic/scheduler_gui/scheduler_event.py
index 85bdb6e..0d982d4 100644
--- a/lib/b_asic/scheduler_gui/scheduler_event.py
+++ b/lib/b_asic/scheduler_gui/scheduler_event.py
@@ -18,8 +18,7 @@ from b_asic.scheduler_gui._preferences import OPERATION_GAP, OPERATION_HEIGHT
 from b_asic.scheduler_gui.axes_item import AxesItem
 from b_asic.scheduler_gui.operation_item import OperationItem
 from b_asic.scheduler_gui.timeline_item import TimelineItem
-from b_asic.special_operations import Output
-from b_asic.utility_operations import Sink
+from b_asic.types import GraphID
 
 
 class SchedulerEvent:
@@ -70,6 +69,9 @@ class SchedulerEvent:
     def set_item_inactive(self, item: OperationItem) -> None:
         raise NotImplementedError
 
+    def _set_position(self, graph_id: GraphID) -> None:
+        raise NotImplementedError
+
     ###########
     # Filters #
     ###########
@@ -208,23 +210,6 @@ class SchedulerEvent:
         item: OperationItem = self.scene().mouseGrabberItem()
         self.set_new_start_time(item)
         self.set_item_inactive(item)
-        pos_x = item.x()
-        redraw = False
-        if (
-            math.floor(pos_x) == 0 and isinstance(item.operation, (Output, Sink))
-        ) or pos_x < 0:
-            pos_x += self._schedule.schedule_time
-            redraw = True
-        if (
-            pos_x > self._schedule.schedule_time
-            # If output or sink, keep operation at the edge
-            and (
-                pos_x > self._schedule.schedule_time + 1
-                or not isinstance(item.operation, (Output, Sink))
-            )
-        ):
-            pos_x = pos_x % self._schedule.schedule_time
-            redraw = True
         pos_y = self._schedule.get_y_location(item.operation.graph_id)
         # Check move in y-direction
         if pos_y != self._old_op_position:
@@ -240,10 +225,9 @@ class SchedulerEvent:
                 f" {pos_y}, {insert})"
             )
             self._signals.redraw_all.emit()
-        # Operation has been moved in x-direction
-        if redraw:
-            item.setX(pos_x)
-            self._redraw_lines(item)
+        # Show the operation where it ended up, e.g. at the other edge or moved back
+        self._set_position(item.graph_id)
+        self._redraw_lines(item)
         self._signals.component_moved.emit(item.graph_id)
 
     ###################################
diff --git a/lib/b_asic/scheduler_gui/scheduler_item.py b/lib/b_asic/scheduler_gui/scheduler_item.py
index 7a55a04..0748549 100644
--- a/lib/b_asic/scheduler_gui/scheduler_item.py
+++ b/lib/b_asic/scheduler_gui/scheduler_item.py
@@ -252,7 +252,11 @@ class SchedulerItem(SchedulerEvent, QGraphicsItemGroup):
         new_start_time = math.floor(pos) - math.floor(self._x_axis_indent)
         move_time = new_start_time - op_start_time
         if move_time:
-            self.schedule.move_operation(item.graph_id, move_time)
+            try:
+                self.schedule.move_operation(item.graph_id, move_time)
+            except ValueError:
+                # The operation stays where it was
+                return
             print(f"schedule.move_operation({item.graph_id!r}, {move_time})")
 
     def is_valid_delta_time(self, delta_time: int) -> bool:
-- 
2.43.0


From 39aac2b4553c58a0100f78d335bf6ffbc231bf44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:36 +0000
Subject: [PATCH 112/129] fix: update warnings and slacks when the schedule
 time is changed

---
 lib/b_asic/scheduler_gui/main_window.py    | 6 ++++++
 lib/b_asic/scheduler_gui/scheduler_item.py | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/lib/b_asic/scheduler_gui/main_window.py b/lib/b_asic/scheduler_gui/main_window.py
index c44f9f8..6f94465 100644
--- a/lib/b_asic/scheduler_gui/main_window.py
+++ b/lib/b_asic/scheduler_gui/main_window.py
@@ -134,6 +134,7 @@ class ScheduleMainWindow(QMainWindow, Ui_MainWindow):
         self._read_settings()
         self._init_ui()
         self._file_name = None
+        self._info_table_graph_id = None
         self._show_incorrect_execution_time = True
         self._show_port_numbers = True
         self._execution_time_for_variables = None
@@ -639,6 +640,7 @@ class ScheduleMainWindow(QMainWindow, Ui_MainWindow):
         """
         self.info_table_clear_component()
         self._info_table_fill_component(graph_id)
+        self._info_table_graph_id = graph_id
 
     @Slot()
     def info_table_update_schedule(self) -> None:
@@ -650,6 +652,9 @@ class ScheduleMainWindow(QMainWindow, Ui_MainWindow):
         """
         if self.schedule is not None:
             self.info_table.item(1, 1).setText(str(self.schedule.schedule_time))
+            # The slacks depend on the schedule time
+            if self._info_table_graph_id is not None:
+                self.info_table_update_component(self._info_table_graph_id)
 
     @Slot(QRectF)
     def shrink_scene_to_min_size(self, rect: QRectF) -> None:
@@ -925,6 +930,7 @@ class ScheduleMainWindow(QMainWindow, Ui_MainWindow):
 
     def info_table_clear_component(self) -> None:
         """Clear the component part of the info table."""
+        self._info_table_graph_id = None
         row = self.info_table.findItems("Operator", Qt.MatchFlag.MatchExactly)
         if row:
             row = row[0].row()
diff --git a/lib/b_asic/scheduler_gui/scheduler_item.py b/lib/b_asic/scheduler_gui/scheduler_item.py
index 0748549..96c67d1 100644
--- a/lib/b_asic/scheduler_gui/scheduler_item.py
+++ b/lib/b_asic/scheduler_gui/scheduler_item.py
@@ -295,6 +295,9 @@ class SchedulerItem(SchedulerEvent, QGraphicsItemGroup):
         self._axes.set_width(self._axes.width + delta_time)
         # Redraw all lines
         self._redraw_all_lines()
+        # Which lines that are too long depends on the schedule time
+        for signal in self._get_all_signals():
+            signal.set_inactive()
 
     @property
     def schedule(self) -> Schedule:
-- 
2.43.0


From f3ab1a4f93a5bf32a960454835241b3dc3291977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:36 +0000
Subject: [PATCH 113/129] fix: keep display options and do nothing without a
 schedule in the scheduler GUI

---
 lib/b_asic/scheduler_gui/main_window.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/lib/b_asic/scheduler_gui/main_window.py b/lib/b_asic/scheduler_gui/main_window.py
index 6f94465..98c56bf 100644
--- a/lib/b_asic/scheduler_gui/main_window.py
+++ b/lib/b_asic/scheduler_gui/main_window.py
@@ -295,6 +295,8 @@ class ScheduleMainWindow(QMainWindow, Ui_MainWindow):
     @Slot()
     def _increase_time_resolution(self) -> None:
         """Increasing the time resolution."""
+        if self.schedule is None:
+            return
         # Create dialog asking for int
         factor, ok = QInputDialog.getInt(
             self, "Increase time resolution", "Factor", 1, 1
@@ -314,6 +316,8 @@ class ScheduleMainWindow(QMainWindow, Ui_MainWindow):
     @Slot()
     def _decrease_time_resolution(self) -> None:
         """Decreasing the time resolution."""
+        if self.schedule is None:
+            return
         schedule = cast(Schedule, self._schedule)
         # Get possible factors
         vals = [str(v) for v in schedule.get_possible_time_resolution_decrements()]
@@ -739,7 +743,11 @@ class ScheduleMainWindow(QMainWindow, Ui_MainWindow):
         """Take a Schedule and create a SchedulerItem object."""
         self.close_schedule()
         self._schedule = copy.deepcopy(schedule)
-        self._graph = SchedulerItem(self._schedule)
+        self._graph = SchedulerItem(
+            self._schedule,
+            warnings=self.action_incorrect_execution_time.isChecked(),
+            show_port_numbers=self.action_show_port_numbers.isChecked(),
+        )
         self._graph.setPos(1 / self._scale, 1 / self._scale)
         self.menu_close_schedule.setEnabled(True)
         self.menu_save.setEnabled(True)
@@ -1273,12 +1281,14 @@ class ScheduleMainWindow(QMainWindow, Ui_MainWindow):
         self._show_incorrect_execution_time = (
             self.action_incorrect_execution_time.isChecked()
         )
-        self._graph.set_warnings(self._show_incorrect_execution_time)
+        if self._graph is not None:
+            self._graph.set_warnings(self._show_incorrect_execution_time)
 
     def _toggle_port_number(self, event=None) -> None:
         """Toggle whether to show port numbers."""
         self._show_port_numbers = self.action_show_port_numbers.isChecked()
-        self._graph.set_port_numbers(self._show_port_numbers)
+        if self._graph is not None:
+            self._graph.set_port_numbers(self._show_port_numbers)
 
     def _toggle_fullscreen(self, event=None) -> None:
         """Toggle full screen mode."""
-- 
2.43.0


From 59a2e9a72f658680b70a26a1d4394a035f241eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:36 +0000
Subject: [PATCH 114/129] fix: do not overwrite the Python file when saving a
 schedule loaded from it

---
 lib/b_asic/scheduler_gui/main_window.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/b_asic/scheduler_gui/main_window.py b/lib/b_asic/scheduler_gui/main_window.py
index 98c56bf..53e0d17 100644
--- a/lib/b_asic/scheduler_gui/main_window.py
+++ b/lib/b_asic/scheduler_gui/main_window.py
@@ -450,7 +450,8 @@ class ScheduleMainWindow(QMainWindow, Ui_MainWindow):
         del module
         settings = QSettings()
         settings.setValue("scheduler/last_opened_file", abs_path_filename)
-        self._file_name = abs_path_filename
+        # Saving must not overwrite the Python file
+        self._file_name = None
         self._toggle_file_loaded(True)
 
     @Slot()
-- 
2.43.0


From 1942a74928f4e3b5dd1c0c5b817f5f4fbe9578e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:36 +0000
Subject: [PATCH 115/129] fix: allow operations at the end of the schedule to
 be dragged

---
 lib/b_asic/scheduler_gui/scheduler_item.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/lib/b_asic/scheduler_gui/scheduler_item.py b/lib/b_asic/scheduler_gui/scheduler_item.py
index 96c67d1..be57010 100644
--- a/lib/b_asic/scheduler_gui/scheduler_item.py
+++ b/lib/b_asic/scheduler_gui/scheduler_item.py
@@ -120,19 +120,12 @@ class SchedulerItem(SchedulerEvent, QGraphicsItemGroup):
             raise ValueError("No schedule installed.")
         new_start_time = math.floor(pos) - math.floor(self._x_axis_indent)
         slacks = self.schedule.slacks(item.graph_id)
-        op_start_time = (
-            self.schedule.start_time_of_operation(item.graph_id)
-            % self.schedule.schedule_time
-        )
-        if not -slacks[0] <= new_start_time - op_start_time <= slacks[1]:
-            # breaches circular dependencies
-            return False
         if (
             not -slacks[0]
             <= new_start_time - self.schedule.start_time_of_operation(item.graph_id)
             <= slacks[1]
         ):
-            # breaches noncircular dependencies
+            # breaches dependencies
             return False
         if self.schedule.cyclic:
             if new_start_time < -1:
-- 
2.43.0


From 72e9b9eb6391b8bc2934abab01281bc25d282640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:33 +0000
Subject: [PATCH 116/129] fix: update plot windows when the schedule is
 replaced in the scheduler GUI

---
 lib/b_asic/scheduler_gui/main_window.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/b_asic/scheduler_gui/main_window.py b/lib/b_asic/scheduler_gui/main_window.py
index 53e0d17..2db67b4 100644
--- a/lib/b_asic/scheduler_gui/main_window.py
+++ b/lib/b_asic/scheduler_gui/main_window.py
@@ -777,6 +777,7 @@ class ScheduleMainWindow(QMainWindow, Ui_MainWindow):
         self.action_view_variables.setEnabled(True)
         self.action_total_execution_times_of_variables.setEnabled(True)
         self.action_view_port_accesses.setEnabled(True)
+        self._schedule_changed()
         self.update_statusbar(self.tr("Schedule loaded successfully"))
 
     def _redraw_all(self) -> None:
-- 
2.43.0


From c7f5678c68e1919e6113738d938e4e59419d89cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:44 +0000
Subject: [PATCH 117/129] fix: draw signals of operations past the end of the
 schedule in the right way

---
 lib/b_asic/scheduler_gui/signal_item.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/b_asic/scheduler_gui/signal_item.py b/lib/b_asic/scheduler_gui/signal_item.py
index 98c674c..5ed8cbd 100644
--- a/lib/b_asic/scheduler_gui/signal_item.py
+++ b/lib/b_asic/scheduler_gui/signal_item.py
@@ -81,8 +81,12 @@ class SignalItem(QGraphicsPathItem):
         dest_x = dest_point.x()
         dest_y = dest_point.y()
         schedule = cast("SchedulerItem", self.parentItem()).schedule
-        if dest_x - source_x <= -0.1 or schedule._laps[self._signal.graph_id]:
-            offset = SCHEDULE_INDENT  # TODO: Get from parent/axes...
+        offset = SCHEDULE_INDENT  # TODO: Get from parent/axes...
+        # The laps are counted from the time that the value is available
+        laps = schedule._laps[self._signal.graph_id]
+        if source_x - offset > schedule.schedule_time + 0.1:
+            laps += 1
+        if dest_x - source_x <= -0.1 or laps > 0:
             path.lineTo(schedule.schedule_time + offset, source_y)
             path.moveTo(0 + offset, dest_y)
             path.lineTo(dest_x, dest_y)
-- 
2.43.0


From 28aadfd38f8592a242298b2569d67e435c238fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:22 +0000
Subject: [PATCH 118/129] fix: let the items in the SFG editor represent the
 operations of the created SFG

---
 lib/b_asic/sfg_gui/main_window.py | 111 ++++++------------------------
 1 file changed, 20 insertions(+), 91 deletions(-)

diff --git a/lib/b_asic/sfg_gui/main_window.py b/lib/b_asic/sfg_gui/main_window.py
index 018f482..821d4da 100644
--- a/lib/b_asic/sfg_gui/main_window.py
+++ b/lib/b_asic/sfg_gui/main_window.py
@@ -54,7 +54,6 @@ from b_asic.sfg_gui.select_sfg_window import SelectSFGWindow
 from b_asic.sfg_gui.simulate_sfg_window import SimulateSFGWindow
 from b_asic.sfg_gui.simulation_worker import SimulationWorker
 from b_asic.sfg_gui.util_dialogs import FaqWindow, KeybindingsWindow
-from b_asic.signal import Signal
 from b_asic.simulation import Simulation
 from b_asic.special_operations import Input, Output
 
@@ -495,97 +494,27 @@ class SFGMainWindow(QMainWindow):
         self._logger.info("Created SFG with name: %s from selected operations.", name)
         self.update_statusbar(f"Created SFG: {name}")
 
-        def check_equality(signal: Signal, signal_2: Signal) -> bool:
-            source_operation = cast(Operation, signal.source_operation)
-            source_operation2 = cast(Operation, signal_2.source_operation)
-            dest_operation = cast(Operation, signal.destination_operation)
-            dest_operation2 = cast(Operation, signal_2.destination_operation)
-            if not (
-                source_operation.type_name() == source_operation2.type_name()
-                and dest_operation.type_name() == dest_operation2.type_name()
-            ):
-                return False
-
-            if (
-                hasattr(source_operation, "value")
-                and hasattr(source_operation2, "value")
-                and hasattr(dest_operation, "value")
-                and hasattr(dest_operation2, "value")
-                and not (
-                    source_operation.value == source_operation2.value
-                    and dest_operation.value == dest_operation2.value
+        # The SFG has copies of the operations, so let the items represent those.
+        copies = sfg._original_components_to_new
+        drag_buttons = {}
+        for operation, button in self._drag_buttons.items():
+            new_operation = copies.get(operation, operation)
+            drag_buttons[new_operation] = button
+            if new_operation is operation:
+                continue
+            button.operation = new_operation
+            for port_button in button.port_list:
+                index = port_button.port.index
+                port_button.port = (
+                    new_operation.input(index)
+                    if isinstance(port_button.port, InputPort)
+                    else new_operation.output(index)
                 )
-            ):
-                return False
-
-            if (
-                hasattr(source_operation, "name")
-                and hasattr(source_operation2, "name")
-                and hasattr(dest_operation, "name")
-                and hasattr(dest_operation2, "name")
-                and not (
-                    source_operation.name == source_operation2.name
-                    and dest_operation.name == dest_operation2.name
-                )
-            ):
-                return False
-
-            try:
-                signal_source_index = [
-                    source_operation.outputs.index(port)
-                    for port in source_operation.outputs
-                    if signal in port.signals
-                ]
-                signal_2_source_index = [
-                    source_operation2.outputs.index(port)
-                    for port in source_operation2.outputs
-                    if signal_2 in port.signals
-                ]
-            except ValueError:
-                return False  # Signal output connections not matching
-
-            try:
-                signal_destination_index = [
-                    dest_operation.inputs.index(port)
-                    for port in dest_operation.inputs
-                    if signal in port.signals
-                ]
-                signal_2_destination_index = [
-                    dest_operation2.inputs.index(port)
-                    for port in dest_operation2.inputs
-                    if signal_2 in port.signals
-                ]
-            except ValueError:
-                return False  # Signal input connections not matching
-
-            return (
-                signal_source_index == signal_2_source_index
-                and signal_destination_index == signal_2_destination_index
-            )
-
-        for _ in self._pressed_operations:
-            for operation in sfg.operations:
-                for input_ in operation.inputs:
-                    for signal in input_.signals:
-                        for arrow in self._arrow_ports:
-                            if check_equality(arrow.signal, signal):
-                                arrow.set_source_operation(signal.source_operation)
-                                arrow.set_destination_operation(
-                                    signal.destination_operation
-                                )
-
-                for output_ in operation.outputs:
-                    for signal in output_.signals:
-                        for arrow in self._arrow_ports:
-                            if check_equality(arrow.signal, signal):
-                                arrow.set_source_operation(signal.source_operation)
-                                arrow.set_destination_operation(
-                                    signal.destination_operation
-                                )
-
-        for pressed_op in self._pressed_operations:
-            pressed_op.setToolTip(sfg.name)
-            self._operation_to_sfg[pressed_op] = sfg
+            button.setToolTip(sfg.name)
+            self._operation_to_sfg[button] = sfg
+        self._drag_buttons = drag_buttons
+        for arrow in self._arrow_ports:
+            arrow.signal = copies.get(arrow.signal, arrow.signal)
 
         self._sfg_dict[sfg.name] = sfg
 
-- 
2.43.0


From 5d0fcc7297c367d151621d8a306450ba318d08b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:22 +0000
Subject: [PATCH 119/129] fix: delete all selected operations in the SFG editor

---
 lib/b_asic/sfg_gui/main_window.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/b_asic/sfg_gui/main_window.py b/lib/b_asic/sfg_gui/main_window.py
index 821d4da..df815c5 100644
--- a/lib/b_asic/sfg_gui/main_window.py
+++ b/lib/b_asic/sfg_gui/main_window.py
@@ -712,7 +712,7 @@ class SFGMainWindow(QMainWindow):
 
     def keyPressEvent(self, event) -> None:
         if event.key() == Qt.Key.Key_Delete:
-            for pressed_op in self._pressed_operations:
+            for pressed_op in list(self._pressed_operations):
                 pressed_op.remove()
                 self.move_button_index -= 1
             self._pressed_operations.clear()
-- 
2.43.0


From 5d658d21282ffaa410faf55a7b3fe6bc43ead3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:22 +0000
Subject: [PATCH 120/129] fix: select and unselect all operations in the SFG
 editor

---
 lib/b_asic/sfg_gui/main_window.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/b_asic/sfg_gui/main_window.py b/lib/b_asic/sfg_gui/main_window.py
index df815c5..6169ae1 100644
--- a/lib/b_asic/sfg_gui/main_window.py
+++ b/lib/b_asic/sfg_gui/main_window.py
@@ -805,6 +805,7 @@ class SFGMainWindow(QMainWindow):
 
         for operation in self._drag_buttons.values():
             operation._toggle_button(pressed=False)
+        self._pressed_operations = list(self._drag_buttons.values())
         self.update_statusbar("Selected all operations")
 
     def _unselect_all(self, event=None) -> None:
@@ -815,6 +816,7 @@ class SFGMainWindow(QMainWindow):
 
         for operation in self._drag_buttons.values():
             operation._toggle_button(pressed=True)
+        self._pressed_operations = []
         self.update_statusbar("Unselected all operations")
 
     def _zoom_to_fit(self, event=None) -> None:
-- 
2.43.0


From 381a91158555b73e65cccbe083e2dce9d58f8c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:22 +0000
Subject: [PATCH 121/129] fix: only save positions of the operations in the SFG

---
 lib/b_asic/sfg_gui/main_window.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/b_asic/sfg_gui/main_window.py b/lib/b_asic/sfg_gui/main_window.py
index 6169ae1..a62238f 100644
--- a/lib/b_asic/sfg_gui/main_window.py
+++ b/lib/b_asic/sfg_gui/main_window.py
@@ -277,6 +277,8 @@ class SFGMainWindow(QMainWindow):
         self._logger.info("Saving SFG to path: %s", module)
         operation_positions = {}
         for op_drag, op_scene in self._drag_operation_scenes.items():
+            if self._operation_to_sfg.get(op_drag) is not sfg:
+                continue
             operation_positions[op_drag.operation.graph_id] = (
                 int(op_scene.x()),
                 int(op_scene.y()),
-- 
2.43.0


From ea788600826114424a137171307395990e19a5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:22 +0000
Subject: [PATCH 122/129] fix: do not draw a second arrow between connected
 ports

---
 lib/b_asic/sfg_gui/main_window.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/b_asic/sfg_gui/main_window.py b/lib/b_asic/sfg_gui/main_window.py
index a62238f..1f67f47 100644
--- a/lib/b_asic/sfg_gui/main_window.py
+++ b/lib/b_asic/sfg_gui/main_window.py
@@ -760,6 +760,13 @@ class SFGMainWindow(QMainWindow):
         destination : PortButton
             The PortButton to end the signal at.
         """
+        if any(
+            arrow.source_port_button is source
+            and arrow.destination_port_button is destination
+            for arrow in self._arrow_ports
+        ):
+            return
+
         signal_exists = (
             signal
             for signal in source.port.signals
-- 
2.43.0


From 7a8bafc9d723cb852b83ef27066d4f5d138b75b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:22 +0000
Subject: [PATCH 123/129] fix: keep values and latencies not edited in the
 properties window

---
 lib/b_asic/sfg_gui/properties_window.py | 59 +++++++++++--------------
 1 file changed, 27 insertions(+), 32 deletions(-)

diff --git a/lib/b_asic/sfg_gui/properties_window.py b/lib/b_asic/sfg_gui/properties_window.py
index c3a64bc..da7930c 100644
--- a/lib/b_asic/sfg_gui/properties_window.py
+++ b/lib/b_asic/sfg_gui/properties_window.py
@@ -29,7 +29,7 @@ class PropertiesWindow(QDialog):
         self._name_layout = QHBoxLayout()
         self._name_layout.setSpacing(50)
         self._name_label = QLabel("Name:")
-        self._edit_name = QLineEdit(self.operation.name or self.operation.type_name)
+        self._edit_name = QLineEdit(self.operation.name or self.operation.type_name())
         self._name_layout.addWidget(self._name_label)
         self._name_layout.addWidget(self._edit_name)
         self._latency_fields = {}
@@ -49,6 +49,7 @@ class PropertiesWindow(QDialog):
                 else self.operation.operation.initial_value
             )
             self._edit_constant = QLineEdit(str(constant))
+            self._constant_text = self._edit_constant.text()
 
             self._only_accept_float = QDoubleValidator()
             self._edit_constant.setValidator(self._only_accept_float)
@@ -82,12 +83,8 @@ class PropertiesWindow(QDialog):
                 input_label = QLabel(f"in{i}")
                 input_layout.addWidget(input_label)
                 input_value = QLineEdit()
-                try:
-                    input_value.setPlaceholderText(
-                        str(self.operation.operation.latency)
-                    )
-                except ValueError:
-                    input_value.setPlaceholderText("-1")
+                offset = self.operation.operation.input(i).latency_offset
+                input_value.setPlaceholderText(str(-1 if offset is None else offset))
                 int_valid = QDoubleValidator()
                 int_valid.setBottom(-1)
                 input_value.setValidator(int_valid)
@@ -119,12 +116,8 @@ class PropertiesWindow(QDialog):
                 input_label = QLabel(f"out{i}")
                 input_layout.addWidget(input_label)
                 input_value = QLineEdit()
-                try:
-                    input_value.setPlaceholderText(
-                        str(self.operation.operation.latency)
-                    )
-                except ValueError:
-                    input_value.setPlaceholderText("-1")
+                offset = self.operation.operation.output(i).latency_offset
+                input_value.setPlaceholderText(str(-1 if offset is None else offset))
                 int_valid = QDoubleValidator()
                 int_valid.setBottom(-1)
                 input_value.setValidator(int_valid)
@@ -150,14 +143,18 @@ class PropertiesWindow(QDialog):
         self.operation.name = self._edit_name.text()
         self.operation.operation.name = self._edit_name.text()
         self.operation.label.setPlainText(self.operation.name)
-        if hasattr(self.operation.operation, "value"):
-            self.operation.operation.value = float(
-                self._edit_constant.text().replace(",", ".")
-            )
-        elif hasattr(self.operation.operation, "initial_value"):
-            self.operation.operation.initial_value = float(
-                self._edit_constant.text().replace(",", ".")
-            )
+        # Keep the value (and its type) unless another is entered
+        if (
+            hasattr(self, "_edit_constant")
+            and self._edit_constant.text() != self._constant_text
+        ):
+            value = float(self._edit_constant.text().replace(",", "."))
+            if value.is_integer():
+                value = int(value)
+            if hasattr(self.operation.operation, "value"):
+                self.operation.operation.value = value
+            else:
+                self.operation.operation.initial_value = value
 
         if self._check_show_name.isChecked():
             self.operation.label.setOpacity(1)
@@ -166,16 +163,14 @@ class PropertiesWindow(QDialog):
             self.operation.label.setOpacity(0)
             self.operation.show_name = False
 
-        self.operation.operation.set_latency_offsets(
-            {
-                port: (
-                    float(latency_edit.text().replace(",", "."))
-                    if latency_edit.text()
-                    and float(latency_edit.text().replace(",", ".")) > 0
-                    else None
-                )
-                for port, latency_edit in self._latency_fields.items()
-            }
-        )
+        latency_offsets = {}
+        for port, latency_edit in self._latency_fields.items():
+            # Keep the latency unless one is entered
+            if latency_edit.text():
+                latency = float(latency_edit.text().replace(",", "."))
+                if latency.is_integer():
+                    latency = int(latency)
+                latency_offsets[port] = latency if latency >= 0 else None
+        self.operation.operation.set_latency_offsets(latency_offsets)
 
         self.reject()
-- 
2.43.0


From 35ecd366069e42eefb209cc573c17f84ed7afe82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:41 +0000
Subject: [PATCH 124/129] fix: separate inputs for each SFG to simulate in the
 SFG editor

---
 lib/b_asic/sfg_gui/simulate_sfg_window.py | 30 +++++++++++++----------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/lib/b_asic/sfg_gui/simulate_sfg_window.py b/lib/b_asic/sfg_gui/simulate_sfg_window.py
index a5603ba..ee348da 100644
--- a/lib/b_asic/sfg_gui/simulate_sfg_window.py
+++ b/lib/b_asic/sfg_gui/simulate_sfg_window.py
@@ -45,7 +45,6 @@ class SimulateSFGWindow(QDialog):
         self._simulate_btn.clicked.connect(self.save_properties)
         self._dialog_layout.addWidget(self._simulate_btn)
         self.setLayout(self._dialog_layout)
-        self._input_grid = QGridLayout()
         self._input_files = {}
 
     def add_sfg_to_dialog(self, sfg: "SFG") -> None:
@@ -59,6 +58,7 @@ class SimulateSFGWindow(QDialog):
         """
         sfg_layout = QVBoxLayout()
         options_layout = QFormLayout()
+        input_grid = QGridLayout()
 
         name_label = QLabel(f"{sfg.name}")
         sfg_layout.addWidget(name_label)
@@ -82,6 +82,7 @@ class SimulateSFGWindow(QDialog):
             "iteration_count": spin_box,
             "show_plot": check_box_plot,
             "all_results": check_box_all,
+            "input_grid": input_grid,
         }
 
         if sfg.input_count > 0:
@@ -95,20 +96,20 @@ class SimulateSFGWindow(QDialog):
                     y = 0
 
                 input_label = QLabel(f"in{i}")
-                self._input_grid.addWidget(input_label, i, 0)
+                input_grid.addWidget(input_label, i, 0)
 
                 input_dropdown = QComboBox()
                 input_dropdown.insertItems(0, list(_GENERATOR_MAPPING.keys()))
                 input_dropdown.currentTextChanged.connect(
-                    lambda text, i=i: self.change_input_format(i, text)
+                    lambda text, i=i: self.change_input_format(i, text, input_grid)
                 )
-                self._input_grid.addWidget(input_dropdown, i, 1, alignment=Qt.AlignLeft)
+                input_grid.addWidget(input_dropdown, i, 1, alignment=Qt.AlignLeft)
 
-                self.change_input_format(i, "Constant")
+                self.change_input_format(i, "Constant", input_grid)
 
                 y += 1
 
-            sfg_layout.addLayout(self._input_grid)
+            sfg_layout.addLayout(input_grid)
 
         frame = QFrame()
         frame.setFrameShape(QFrame.HLine)
@@ -118,7 +119,7 @@ class SimulateSFGWindow(QDialog):
         self._sfg_to_layout[sfg] = sfg_layout
         self._dialog_layout.addLayout(sfg_layout)
 
-    def change_input_format(self, i: int, text: str) -> None:
+    def change_input_format(self, i: int, text: str, input_grid: QGridLayout) -> None:
         """
         Change the input format selector.
 
@@ -128,22 +129,24 @@ class SimulateSFGWindow(QDialog):
             Input number to change for.
         text : str
             Name of generator.
+        input_grid : QGridLayout
+            The input selectors of the SFG to change for.
         """
-        grid = self._input_grid.itemAtPosition(i, 2)
+        grid = input_grid.itemAtPosition(i, 2)
         if grid:
             for j in reversed(range(grid.count())):
                 item = grid.itemAt(j)
                 widget = item.widget()
                 if widget:
                     widget.hide()
-            self._input_grid.removeItem(grid)
+            input_grid.removeItem(grid)
 
         if text in _GENERATOR_MAPPING:
             param_grid = _GENERATOR_MAPPING[text](self._window._logger)
         else:
             raise ValueError("Input selection is not implemented")
 
-        self._input_grid.addLayout(param_grid, i, 2)
+        input_grid.addLayout(param_grid, i, 2)
 
     def save_properties(self) -> None:
         """Save the simulation properties and emit a signal to start the simulation."""
@@ -154,9 +157,10 @@ class SimulateSFGWindow(QDialog):
 
             input_values = []
 
-            for i in range(self._input_grid.rowCount()):
-                in_format = self._input_grid.itemAtPosition(i, 1).widget().currentText()
-                in_param = self._input_grid.itemAtPosition(i, 2)
+            input_grid = self._input_fields[sfg]["input_grid"]
+            for i in range(sfg.input_count):
+                in_format = input_grid.itemAtPosition(i, 1).widget().currentText()
+                in_param = input_grid.itemAtPosition(i, 2)
 
                 if in_format in _GENERATOR_MAPPING:
                     tmp2 = in_param.get_generator()
-- 
2.43.0


From 9c89f9ff80e439f1b0508db1ae90c24db5adc691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:53 +0000
Subject: [PATCH 125/129] fix: refuse second connection to an input port and
 remove the SFG changed by connecting in the SFG editor

---
 lib/b_asic/sfg_gui/main_window.py | 29 +++++++++++++++++++++++++++++
 lib/b_asic/sfg_gui/port_button.py |  5 +++++
 2 files changed, 34 insertions(+)

diff --git a/lib/b_asic/sfg_gui/main_window.py b/lib/b_asic/sfg_gui/main_window.py
index 1f67f47..fa88a30 100644
--- a/lib/b_asic/sfg_gui/main_window.py
+++ b/lib/b_asic/sfg_gui/main_window.py
@@ -780,7 +780,13 @@ class SFGMainWindow(QMainWindow):
         try:
             arrow = Arrow(source, destination, self, signal=next(signal_exists))
         except StopIteration:
+            if any(destination.port.signals):
+                self._logger.warning("The input port is already connected.")
+                return
             arrow = Arrow(source, destination, self)
+            # The connected operations differ from those in the SFG, if any
+            for port in (source, destination):
+                self._remove_sfg_of(port.operation_button)
 
         if arrow not in self._arrow_ports:
             self._arrow_ports[arrow] = []
@@ -790,6 +796,29 @@ class SFGMainWindow(QMainWindow):
 
         self.update()
 
+    def _remove_sfg_of(self, button: DragButton) -> None:
+        """
+        Remove the SFG that the operation of a button is part of, if any.
+
+        Parameters
+        ----------
+        button : DragButton
+            The button of the operation.
+        """
+        if button not in self._operation_to_sfg:
+            return
+        sfg = self._operation_to_sfg[button]
+        self._logger.info(
+            "Operation detected in existing SFG, removing SFG with name: %s", sfg.name
+        )
+        if self._sfg_dict.get(sfg.name) is sfg:
+            del self._sfg_dict[sfg.name]
+        self._operation_to_sfg = {
+            other: other_sfg
+            for other, other_sfg in self._operation_to_sfg.items()
+            if other_sfg is not sfg
+        }
+
     def paintEvent(self, event) -> None:
         for arrow in self._arrow_ports:
             arrow.update_arrow()
diff --git a/lib/b_asic/sfg_gui/port_button.py b/lib/b_asic/sfg_gui/port_button.py
index 218f4ba..8c48402 100644
--- a/lib/b_asic/sfg_gui/port_button.py
+++ b/lib/b_asic/sfg_gui/port_button.py
@@ -45,6 +45,11 @@ class PortButton(QPushButton):
         self.setStyleSheet("background-color: white")
         self.connectionRequested.connect(self._window._connect_callback)
 
+    @property
+    def operation_button(self) -> "DragButton":
+        """The DragButton of the operation."""
+        return self._operation_button
+
     @property
     def operation(self) -> "Operation":
         """Operation associated with PortButton."""
-- 
2.43.0


From 5628b677b9332551ef822c625794ff6001285beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:53 +0000
Subject: [PATCH 126/129] fix: only remove the SFG itself when removing its
 operations or signals in the SFG editor

---
 lib/b_asic/sfg_gui/arrow.py       | 26 +++-----------------------
 lib/b_asic/sfg_gui/drag_button.py | 14 ++------------
 2 files changed, 5 insertions(+), 35 deletions(-)

diff --git a/lib/b_asic/sfg_gui/arrow.py b/lib/b_asic/sfg_gui/arrow.py
index 861a039..d626914 100644
--- a/lib/b_asic/sfg_gui/arrow.py
+++ b/lib/b_asic/sfg_gui/arrow.py
@@ -139,29 +139,9 @@ class Arrow(QGraphicsPathItem):
         self.signal.remove_source()
         self._window._scene.removeItem(self)
 
-        if self in self._window._arrow_ports:
-            for port1, port2 in self._window._arrow_ports[self]:
-                for (
-                    operation,
-                    operation_ports,
-                ) in self._window._ports.items():
-                    if (
-                        port1 in operation_ports or port2 in operation_ports
-                    ) and operation in self._window._operation_to_sfg:
-                        self._window._logger.info(
-                            "Operation detected in existing SFG, removing SFG"
-                            " with name: %s",
-                            self._window._operation_to_sfg[operation].name,
-                        )
-                        del self._window._sfg_dict[
-                            self._window._operation_to_sfg[operation].name
-                        ]
-                        self._window._operation_to_sfg = {
-                            op: self._window._operation_to_sfg[op]
-                            for op in self._window._operation_to_sfg
-                            if self._window._operation_to_sfg[op]
-                            is not self._window._operation_to_sfg[operation]
-                        }
+        # The SFG no longer matches what is shown
+        self._window._remove_sfg_of(self.source_operation_button)
+        self._window._remove_sfg_of(self.destination_operation_button)
 
         del self._window._arrow_ports[self]
 
diff --git a/lib/b_asic/sfg_gui/drag_button.py b/lib/b_asic/sfg_gui/drag_button.py
index b067278..5c5c8c3 100644
--- a/lib/b_asic/sfg_gui/drag_button.py
+++ b/lib/b_asic/sfg_gui/drag_button.py
@@ -235,18 +235,8 @@ class DragButton(QPushButton):
         for signal in _signals:
             signal.remove()
 
-        if self in self._window._operation_to_sfg:
-            self._window._logger.info(
-                "Operation detected in existing SFG, removing SFG with name: %s",
-                self._window._operation_to_sfg[self].name,
-            )
-            del self._window._sfg_dict[self._window._operation_to_sfg[self].name]
-            self._window._operation_to_sfg = {
-                op: self._window._operation_to_sfg[op]
-                for op in self._window._operation_to_sfg
-                if self._window._operation_to_sfg[op]
-                is not self._window._operation_to_sfg[self]
-            }
+        # The SFG no longer matches what is shown
+        self._window._remove_sfg_of(self)
 
         for port in self._ports:
             if port in self._window._pressed_ports:
-- 
2.43.0


From d24bc644960fd1fcf2f56af9b6fdf275d37f6df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:53 +0000
Subject: [PATCH 127/129] fix: only show simulation results if selected in the
 SFG editor

---
 lib/b_asic/sfg_gui/main_window.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/b_asic/sfg_gui/main_window.py b/lib/b_asic/sfg_gui/main_window.py
index fa88a30..b4028dc 100644
--- a/lib/b_asic/sfg_gui/main_window.py
+++ b/lib/b_asic/sfg_gui/main_window.py
@@ -874,7 +874,8 @@ class SFGMainWindow(QMainWindow):
             self._sim_worker[sfg].moveToThread(self._thread[sfg])
             self._thread[sfg].started.connect(self._sim_worker[sfg].start_simulation)
             self._sim_worker[sfg].finished.connect(self._thread[sfg].quit)
-            self._sim_worker[sfg].finished.connect(self._show_plot_window)
+            if properties["show_plot"]:
+                self._sim_worker[sfg].finished.connect(self._show_plot_window)
             self._sim_worker[sfg].finished.connect(self._sim_worker[sfg].deleteLater)
             self._thread[sfg].finished.connect(self._thread[sfg].deleteLater)
             self._thread[sfg].start()
-- 
2.43.0


From d391528e590fe31888cfd988a52652dda7806281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:25 +0000
Subject: [PATCH 128/129] fix: show the outputs when opening the simulation
 results

---
 lib/b_asic/gui_utils/plot_window.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/b_asic/gui_utils/plot_window.py b/lib/b_asic/gui_utils/plot_window.py
index 2c2367c..3090015 100644
--- a/lib/b_asic/gui_utils/plot_window.py
+++ b/lib/b_asic/gui_utils/plot_window.py
@@ -75,6 +75,8 @@ class PlotWindow(QWidget):
             key2 = key  # in most cases
             if re.fullmatch("in[0-9]+", key):
                 m = 4
+            elif re.fullmatch("out[0-9]+", key):
+                m = 3
             elif re.fullmatch("[0-9]+", key):
                 m = 3
                 key2 = "o" + key
-- 
2.43.0


From 2311d60683a2ab79bba36d9aa7c58a2acb2176ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:16 +0000
Subject: [PATCH 129/129] fix: keep the given control cycles unchanged and
 effective when operations add theirs

---
 lib/b_asic/code_printer/vhdl/vhdl_printer.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/b_asic/code_printer/vhdl/vhdl_printer.py b/lib/b_asic/code_printer/vhdl/vhdl_printer.py
index cc31489..aa6c0e5 100644
--- a/lib/b_asic/code_printer/vhdl/vhdl_printer.py
+++ b/lib/b_asic/code_printer/vhdl/vhdl_printer.py
@@ -318,7 +318,12 @@ class VhdlPrinter(Printer):
         self._register_split = self._resolve_pe_registers(pe, pe_registers)
 
         # Optional absolute per-control availability cycle.
-        self._pe_control_cycle = dict(kwargs.get("control_cycle", {}))
+        # Operation printers may add cycles, so keep them by entity name in a copy.
+        self._pe_control_cycle = {
+            pe.entity_name: self._resolve_control_cycle(
+                pe, kwargs.get("control_cycle", {})
+            )
+        }
 
         # Optional design-level flag to register PE control signals.
         pipeline_pe_control_signals = bool(kwargs.get("pipeline_pe_control", False))
-- 
2.43.0

